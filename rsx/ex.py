"""Symbolic executor: concrete control/heap per path, doubles as terms over the reals."""
import sys, time, math, bisect, random
from fractions import Fraction
import ir, terms
from terms import T, cond, cnot, cand, cor, lift, isspecial
import z3

class Ptr:
    __slots__ = ("o", "off")
    def __init__(self, o, off): self.o = o; self.off = off
    def __eq__(self, b): return isinstance(b, Ptr) and self.o == b.o and self.off == b.off
    def __hash__(self): return hash((self.o, self.off))
    def __repr__(self): return "Ptr(%d,%d)" % (self.o, self.off)
NULL = Ptr(0, 0)
class B:
    """0/1 integer standing for a symbolic condition"""
    __slots__ = ("c",)
    def __init__(self, c): self.c = c
class Undef:
    def __repr__(self): return "undef"
UNDEF = Undef()
class Obj:
    __slots__ = ("size", "cells", "kind", "name", "freed", "own", "zero", "base")
    def __init__(self, size, kind, name, own, zero=False):
        self.size = size; self.cells = {}; self.kind = kind; self.name = name; self.freed = False; self.own = own; self.zero = zero; self.base = 0

class Violation(Exception):
    def __init__(self, kind, msg): self.kind = kind; self.msg = msg
class Infeasible(Exception): pass
class PathEnd(Exception): pass
class Limit(Exception): pass
class EngineError(Exception): pass

def wrap(v, n):
    m = 1 << n
    v &= m - 1
    return v - m if v >> (n-1) else v

class CF:  # compiled function
    __slots__ = ("name", "blocks", "nregs", "tmpl", "params", "mod", "key")
class Frame:
    __slots__ = ("cf", "bi", "ip", "R", "dst", "allocas", "prev")

class State:
    def __init__(self):
        self.frames = []; self.mem = {}; self.pc = []; self.forced = []; self.dec = (-1, []); self.n = 0
        self.inputs = []; self.env = {}; self.next = 1; self.bases = []; self.uid = object(); self.notes = {}; self.depth = 0
        self.nuninit = 0; self.user = {}; self.cover = []
        self.base = 0x10000
    def clone(self):
        s = State.__new__(State)
        s.frames = []
        for f in self.frames:
            g = Frame(); g.cf = f.cf; g.bi = f.bi; g.ip = f.ip; g.R = list(f.R); g.dst = f.dst; g.allocas = list(f.allocas); g.prev = f.prev
            s.frames.append(g)
        s.mem = dict(self.mem); s.pc = list(self.pc); s.forced = []; s.dec = (-1, []); s.n = self.n
        s.inputs = list(self.inputs); s.env = dict(self.env) if self.env is not None else None; s.next = self.next; s.uid = object(); s.notes = dict(self.notes); s.depth = self.depth + 1
        s.nuninit = self.nuninit; s.user = {k: v for k, v in self.user.items() if k != "_memo"}; s.cover = list(self.cover)
        s.base = self.base
        self.uid = object()   # both copies must copy-on-write from now on
        return s

class Engine:
    def __init__(self, opts=None):
        self.opts = {"guard_consts": (1e-13,), "feas_ms": 3000, "assert_ms": 20000, "max_steps": 30_000_000, "uninit_fp": "sym",
                     "max_paths": 20000, "deadline": None, "nan_fork": True, "leakcheck": True, "ieee": False}
        if opts: self.opts.update(opts)
        terms.IEEE[0] = self.opts["ieee"]
        self.mods = []; self.cfs = {}; self.paths = 0; self.completed = 0; self.results = []; self.violations = []; self.undecided = []
        self.idents = []; self.identseen = set(); self.identtime = 0.0; self.identok = self.identskip = 0
        self.asserts = {}; self.funcs_run = {}; self.steps = 0; self.assumed = {}; self.work = []
        self.builtins = {}
        for n in dir(self):
            if n.startswith("bi_"): self.builtins[n[3:]] = getattr(self, n)
        self.rnd = random.Random(int(self.opts.get("seed", 1))); self.conc_spent = 0.0
        self.unsup = []; self.symb = 0; self.cur = None
        self.maxdepth = 0
        self.covered = {}
    # ------------------------------------------------------------ loading
    def load(self, text, name, harness=False):
        m = ir.parse(text, name); m.harness = harness
        self.mods.append(m)
        return m
    def link(self):
        self.fn = {}      # (mod or None, name) -> Func
        gl = {}
        for m in self.mods:
            for f in m.funcs.values():
                if f.internal: self.fn[(m.name, f.name)] = f
                else:
                    if m.harness: 
                        if (None, f.name) in self.fn: self.fn[(None, "__real_" + f.name)] = self.fn[(None, f.name)]
                        self.fn[(None, f.name)] = f
                    elif (None, f.name) in self.fn: self.fn[(None, "__real_" + f.name)] = f
                    else: self.fn[(None, f.name)] = f
        self.overrides = {f for m in self.mods if m.harness for f in m.funcs}
        # static functions of repo modules overridden by a harness definition of the same name
        self.S0 = S = State()
        self.gobj = {}
        self.fobj = {}
        for m in self.mods:
            for g, (ty, init, internal, const) in m.globals.items():
                key = (m.name if internal else None, g)
                if key in self.gobj and init is None: continue
                if init is None and not internal and any(g in mm.globals and mm.globals[g][1] is not None for mm in self.mods): continue
                o = self.newobj(S, ir.layout(ty), "global", g)
                self.gobj[key] = o
        for m in self.mods:
            for g, (ty, init, internal, const) in m.globals.items():
                key = (m.name if internal else None, g)
                if init is None: continue
                self.initmem(S, m, self.gobj[key], 0, ty, init)
    def newobj(self, S, size, kind, name, zero=False):
        i = S.next; S.next += 1
        o = Obj(size, kind, name, S.uid, zero)
        o.base = S.base; S.base += ((size + 63)//32)*32 + 64
        S.mem[i] = o
        return i
    def initmem(self, S, m, oid, off, ty, v):
        o = S.mem[oid]
        k = v[0]
        if k == "z":
            self.zerofill(o, off, ir.layout(ty)); return
        if k == "u": return
        if k == "str":
            for i, b in enumerate(v[1]): o.cells[off+i] = (1, wrap(b, 8))
            return
        if k == "agg":
            if ty.k in ("a", "vec"):
                s = ir.layout(ty.el)
                for i, (et, ev) in enumerate(v[1]): self.initmem(S, m, oid, off+i*s, et, ev)
            else:
                ir.layout(ty)
                for i, (et, ev) in enumerate(v[1]): self.initmem(S, m, oid, off+ty.offs[i], et, ev)
            return
        o.cells[off] = (ir.layout(ty), self.constval(m, v, ty))
    def constval(self, m, v, ty):
        k = v[0]
        if k == "k":
            if ty.k == "f": return self.fconst(v[1])
            if ty.n == 1: return v[1] & 1
            return wrap(v[1], ty.n)
        if k == "n": return NULL
        if k == "z": return NULL if ty.k == "p" else (self.fconst(0.0) if ty.k == "f" else 0)
        if k == "u": return UNDEF
        if k == "g": return self.addrof(m, v[1])
        if k == "gep":
            b = self.constval(m, v[2], ir.Ty("p"))
            off = 0; t = v[1]
            for i, ix in enumerate(v[3]):
                n = ix[1]
                if i == 0: off += n*ir.layout(t)
                else:
                    if t.k in ("a", "vec"): t = t.el; off += n*ir.layout(t)
                    else: ir.layout(t); off += t.offs[n]; t = t.el[n]
            return Ptr(b.o, b.off + off)
        raise EngineError("const " + str(v))
    def fconst(self, x):
        if isspecial(x): return x
        return x if self.opts["ieee"] else Fraction(repr(x))
    def addrof(self, m, name):
        for key in ((m.name, name), (None, name)):
            if key in self.gobj: return Ptr(self.gobj[key], 0)
        fk = (m.name, name) if (m.name, name) in self.fn else (None, name)
        if fk not in self.fobj:
            oid = self.newobj(self.S0, 1, "func", name)
            self.fobj[fk] = oid
            self.S0.mem[oid].cells[0] = (0, fk)
        return Ptr(self.fobj[fk], 0)
    # ------------------------------------------------------------ memory
    def zerofill(self, o, off, n):
        c = o.cells
        for k in [k for k in c if k < off + n and k + c[k][0] > off]: del c[k]
        if off == 0 and n >= o.size: o.zero = True; return
        e = off + n
        while off < e:
            s = 8 if off % 8 == 0 and e - off >= 8 else (4 if off % 4 == 0 and e - off >= 4 else 1)
            c[off] = (s, None)     # None = zero of any type
            off += s
    def wr(self, S, oid):
        o = S.mem.get(oid)
        if o is None: raise Violation("memory", "write through invalid pointer")
        if o.own is not S.uid:
            p = Obj(o.size, o.kind, o.name, S.uid, o.zero); p.cells = dict(o.cells); p.freed = o.freed; p.base = o.base
            S.mem[oid] = o = p
        return o
    def check(self, S, p, size, what):
        if not isinstance(p, Ptr):
            if isinstance(p, int): p = self.int2ptr(S, p)
            else: raise Violation("memory", "%s through an undefined pointer" % what)
        o = S.mem.get(p.o)
        if o is None or p.o == 0: raise Violation("memory", "%s through a null/invalid pointer (%r)" % (what, p))
        if o.freed: raise Violation("memory", "%s of freed memory (%s)" % (what, o.name))
        if p.off < 0 or p.off + size > o.size: raise Violation("memory", "%s out of bounds of %s (offset %d, size %d, block of %d bytes)" % (what, o.name, p.off, size, o.size))
        return o
    def load_(self, S, p, ty):
        sz = ty.size
        o = self.check(S, p, sz, "read")
        if p.__class__ is not Ptr: p = self.int2ptr(S, p)
        c = o.cells.get(p.off)
        if c is not None and c[0] == sz:
            v = c[1]
            if v is None: return self.zeroval(ty)
            k = ty.k
            if k == "f":
                if isinstance(v, int): return self.fconst(ir.struct.unpack("<d", ir.struct.pack("<q", v))[0])
            elif k == "p":
                if isinstance(v, int): return self.int2ptr(S, v)
            elif isinstance(v, (Fraction, float)) and k == "i":
                return wrap(ir.struct.unpack("<q", ir.struct.pack("<d", float(v)))[0], 64)
            if v is UNDEF: return self.uninit(S, o, p, ty)
            return v
        # slow path
        cover = [(k, o.cells[k]) for k in range(p.off-15, p.off+sz) if k in o.cells and k + o.cells[k][0] > p.off]
        if not cover:
            if o.zero: return self.zeroval(ty)
            return self.uninit(S, o, p, ty)
        nb = {}
        for k, (s, v) in cover:
            if v is None: bs = bytes(s)
            elif isinstance(v, int): bs = (v & ((1 << (8*s))-1)).to_bytes(s, "little")
            elif isinstance(v, Ptr) and v == NULL: bs = bytes(s)
            elif isinstance(v, (Fraction, float)): bs = ir.struct.pack("<d", float(v))
            else: raise EngineError("mixed-size access to symbolic cell")
            for i in range(s): nb[k+i] = bs[i]
        out = []
        for i in range(p.off, p.off+sz):
            if i in nb: out.append(nb[i])
            elif o.zero: out.append(0)
            else: return self.uninit(S, o, p, ty)
        bs = bytes(out)
        if not any(bs): return self.zeroval(ty)
        if ty.k == "i": return wrap(int.from_bytes(bs, "little"), ty.n) if ty.n > 1 else bs[0] & 1
        if ty.k == "f": return self.fconst(ir.struct.unpack("<d", bs)[0])
        raise EngineError("mixed-size pointer load")
    def zeroval(self, ty):
        return 0 if ty.k == "i" else (NULL if ty.k == "p" else self.fconst(0.0))
    def uninit(self, S, o, p, ty):
        if ty.k == "f" and self.opts["uninit_fp"] == "sym":
            S.nuninit += 1
            nm = "uninit!%s!%d!%d" % (o.name, p.off, S.nuninit)
            t = terms.var(nm)
            self.wr(S, p.o).cells[p.off] = (ty.size, t)
            S.notes.setdefault("uninit", 0); S.notes["uninit"] += 1
            return t
        raise Violation("uninit", "read of uninitialised memory (%s, offset %d)" % (o.name, p.off))
    def store_(self, S, p, ty, v):
        sz = ty.size
        o = self.check(S, p, sz, "write")
        if p.__class__ is not Ptr: p = self.int2ptr(S, p)
        if o.own is not S.uid: o = self.wr(S, p.o)
        c = o.cells
        if o.kind == "func": raise Violation("memory", "write to code")
        x = c.get(p.off)
        if x is None or x[0] != sz:
            for k in range(p.off-15, p.off+sz):
                y = c.get(k)
                if y is not None and k + y[0] > p.off:
                    if k >= p.off and k + y[0] <= p.off+sz: del c[k]
                    else:
                        s, v0 = y
                        if v0 is None or isinstance(v0, int):
                            bs = bytes(s) if v0 is None else (v0 & ((1 << (8*s))-1)).to_bytes(s, "little")
                            del c[k]
                            for i in range(s):
                                if not (p.off <= k+i < p.off+sz): c[k+i] = (1, wrap(bs[i], 8))
                        else: raise EngineError("partial overwrite of symbolic cell")
        c[p.off] = (sz, v)
    def addr(self, S, p):
        if isinstance(p, int): return p
        if p.o == 0: return p.off
        return S.mem[p.o].base + p.off
    def int2ptr(self, S, v):
        if isinstance(v, Ptr): return v
        if v == 0: return NULL
        best = None
        for i, o in S.mem.items():
            if o.base <= v <= o.base + o.size: best = (i, v - o.base)
        return Ptr(*best) if best else Ptr(0, v)
    # ------------------------------------------------------------ decisions
    def feasible(self, S, c):
        """is pc & c satisfiable? returns True/False; unknown counts as True"""
        if c is True: return True
        if c is False: return False
        if S.env is not None:
            if terms.evalc(c, S.env, S.user.setdefault("_memo", {})) is True: return True
        r, m = terms.solve(self.relevant(S.pc, c) + [c], self.opts["feas_ms"])
        if r == "unknown": S.notes["unknown_feas"] = S.notes.get("unknown_feas", 0) + 1
        return r != "unsat"
    def relevant(self, pc, c):
        """conditions sharing variables (transitively) with c"""
        vs = set(condvars(c)); rest = list(pc); out = []
        ch = True
        while ch:
            ch = False; r2 = []
            for x in rest:
                xv = condvars(x)
                if not xv or xv & vs:
                    out.append(x); vs |= xv; ch = True
                else: r2.append(x)
            rest = r2
        return out
    def assume(self, S, c):
        if c is True: return
        if c is False: raise Infeasible()
        S.pc.append(c)
        if S.env is not None:
            e = terms.evalc(c, S.env, S.user.setdefault("_memo", {}))
            if e is not True: S.env = None; S.user.pop("_memo", None)
    def refresh(self, S):
        """make sure pc is satisfiable and obtain a model"""
        r, m = terms.solve(S.pc, self.opts["feas_ms"])
        if r == "unsat": raise Infeasible()
        if r == "sat" and m is not None:
            env = {}
            for t in S.inputs:
                if isinstance(t[1], T): env[t[1].args[0]] = float(terms.mval(m, t[1]))
            for c in S.pc:
                for v in condvars(c):
                    if v.args[0] not in env: env[v.args[0]] = float(terms.mval(m, v))
            S.env = env; S.user["_memo"] = {}
        return r
    def decide(self, S, c):
        if c is True or c is False: return c
        if c == 1 or c == 0: return bool(c)
        if S.forced:
            d = S.forced.pop(0)
            self.note_dec(S, d)
            S.pc.append(c if d else cnot(c))
            if S.env is not None:
                e = terms.evalc(c, S.env, S.user.setdefault("_memo", {}))
                if e is not d: S.env = None; S.user.pop("_memo", None)
            return d
        # guard constants
        if self.opts["guard_consts"]:
            g = self.guard(c)
            if g is not None:
                S.pc.append(c if g else cnot(c)); self.note_dec(S, g)
                self.assumed["division safeguard inactive (divisors >= EPS)"] = self.assumed.get("division safeguard inactive (divisors >= EPS)", 0) + 1
                return g
        nc = cnot(c)
        if self.opts.get("sym_branch") and self.symb < 3: self.sym_branch(S, c, nc)
        if c[0] not in ("or", "and"):   # decided before on this path
            i = c[1].id; r0 = c[0]; r1 = nc[0]
            for x in S.pc:
                if x[1].__class__ is T and x[1].id == i and (x[0] == r0 or x[0] == r1):
                    self.note_dec(S, x[0] == r0); return x[0] == r0
        if S.env is None:
            try: self.refresh(S)
            except Infeasible: raise
        ft = fe = None
        if S.env is not None:
            e = terms.evalc(c, S.env, S.user.setdefault("_memo", {}))
            if e is True: ft = True
            elif e is False: fe = True
        if ft is None: ft = self.feasible(S, c)
        if fe is None: fe = self.feasible(S, nc)
        if not ft and not fe: raise Infeasible()
        if ft and fe:
            d = True
            if S.env is not None:
                e = terms.evalc(c, S.env, S.user["_memo"])
                if e is not None: d = e
            self.fork(S, [not d], [cnot(c) if d else c])
            S.pc.append(c if d else nc)
            self.note_dec(S, d)
            if S.env is not None and terms.evalc(c, S.env, S.user["_memo"]) is not d: S.env = None; S.user.pop("_memo", None)
            return d
        S.pc.append(c if ft else nc)   # implied; keeps later queries cheap
        self.note_dec(S, ft)
        return ft
    def sym_branch(self, S, c, nc):
        """the inputs must not matter, yet a decision depends on them: values for both outcomes are candidates to replay"""
        if any(v.args[0].startswith("uninit!") for v in condvars(c)):
            self.symb += 1; self.violations.append({"kind": "uninit", "msg": "a decision depends on uninitialised memory", "where": self.where(S), "inputs": self.inputs_of(S, None), "funcs": [f.cf.name for f in S.frames]}); return
        names = [v.args[0] for k, v, _ in S.inputs if isinstance(v, T)]; cands = []
        for x in (c, nc):
            r, m = terms.solve(self.relevant(S.pc, x) + [x], self.opts["feas_ms"])
            if r == "unsat": return
            base = {}
            if r == "sat" and m is not None: base = {v.args[0]: float(terms.mval(m, v)) for v in condvars(x)}
            else:
                w = terms.witness(list(S.pc) + [x], names, None, self.rnd, 2.0)
                if w is None: continue
                base = {v.args[0]: w[v.args[0]] for v in condvars(x) if v.args[0] in w}
            for k, f in enumerate((lambda n: 0.0, lambda n: self.rnd.uniform(-3, 3), lambda n: self.rnd.uniform(-1e6, 1e6))): cands.append([(a, n, base.get(v.args[0], f(n))) if isinstance(v, T) else (a, n, v) for a, v, n in S.inputs])
        self.symb += 1
        cands += [[(a, n, self.rnd.uniform(-3, 3) * 1e3 ** k) if isinstance(v, T) else (a, n, v) for a, v, n in S.inputs] for k in range(2)]
        for i in cands: self.violations.append({"kind": "branch", "msg": self.opts["sym_branch"], "where": self.where(S), "inputs": i, "funcs": [f.cf.name for f in S.frames]})
    def sym_timeout(self):
        S = self.cur
        if S is None or self.symb >= 3 or not any(isinstance(v, T) for _, v, _ in S.inputs): return
        self.symb = 3
        for k in range(3): self.violations.append({"kind": "branch", "msg": self.opts["sym_branch"], "where": self.where(S), "inputs": [(a, n, self.rnd.uniform(-3, 3) * 1e3 ** k) if isinstance(v, T) else (a, n, v) for a, v, n in S.inputs], "funcs": [f.cf.name for f in S.frames]})
    def note_dec(self, S, d):
        if S.dec[0] != S.n: S.dec = (S.n, [])
        S.dec[1].append(d)
    def fork(self, S, alts, conds):
        base = list(S.dec[1]) if S.dec[0] == S.n else []
        for a in alts:
            s = S.clone(); s.forced = base + [a]
            # conditions of earlier decisions of this instruction are re-added by replay; drop none
            self.work.append(s)
    def choose(self, S, vals):
        """concrete nondeterministic choice among vals"""
        if S.forced:
            d = S.forced.pop(0); self.note_dec(S, d); return d
        if len(vals) > 1: self.fork(S, vals[1:], None)
        self.note_dec(S, vals[0])
        return vals[0]
    def guard(self, c):
        if c[0] not in NEG or not isinstance(c[1], T): return None
        t = c[1]
        # Y - EPS < 0  -> false ; EPS - Y > 0 ...
        if t.op == "sub" and not isinstance(t.args[1], T) and t.args[1] in self.guardset():
            if c[0] in ("<", "<="): return False
            if c[0] in (">", ">="): return True
        if t.op == "sub" and not isinstance(t.args[0], T) and t.args[0] in self.guardset():
            if c[0] in (">", ">="): return False
            if c[0] in ("<", "<="): return True
        return None
    def guardset(self): return {Fraction(repr(x)) for x in self.opts["guard_consts"]}
    def trunc(self, S, v, where):
        """truncation of a symbolic value: forks over the integers it can take"""
        neg = self.decide(S, cond("<", v, Fraction(0)))
        for k in range(200):
            if self.decide(S, cond(">", v, Fraction(-k-1)) if neg else cond("<", v, Fraction(k+1))): return -k if neg else k
        raise EngineError("fptosi of an unbounded symbolic value in " + where)
    def conc(self, S, v):
        """concretise a 0/1 value"""
        if isinstance(v, B): return 1 if self.decide(S, v.c) else 0
        if isinstance(v, tuple): return 1 if self.decide(S, v) else 0
        if v is True: return 1
        if v is False: return 0
        if v is UNDEF: raise Violation("uninit", "use of an undefined value")
        return v
    # ------------------------------------------------------------ compile
    def getcf(self, mod, name):
        key = None
        if name in self.overrides and (None, name) in self.fn and not (mod and mod.harness and (mod.name, name) in self.fn): key = (None, name)
        elif mod and (mod.name, name) in self.fn: key = (mod.name, name)
        elif (None, name) in self.fn: key = (None, name)
        if key is None: return None
        cf = self.cfs.get(key)
        if cf is None: cf = self.cfs[key] = Compiler(self, self.fn[key]).run(key)
        return cf
    def push(self, S, cf, args, dst):
        f = Frame(); f.cf = cf; f.bi = 0; f.ip = 0; f.dst = dst; f.allocas = []; f.prev = -1
        R = f.R = list(cf.tmpl)
        if len(args) < len(cf.params): raise EngineError("arity " + cf.name)
        for i, r in enumerate(cf.params): R[r] = args[i]
        S.frames.append(f)
        if len(S.frames) > 300: raise Violation("limit", "recursion too deep")
        self.funcs_run[cf.key] = self.funcs_run.get(cf.key, 0) + 1
    def ret(self, S, v):
        f = S.frames.pop()
        for a in f.allocas: S.mem.pop(a, None)
        if not S.frames: return True
        if f.dst is not None: S.frames[-1].R[f.dst] = v
        return False
    # ------------------------------------------------------------ run
    def run(self, entry, on_end=None):
        S = self.S0
        cf = self.getcf(None, entry)
        if cf is None: raise EngineError("no entry " + entry)
        # S0 memory snapshot is used once
        self.push(S, cf, [], None)
        S.env = {}
        self.work = [S]
        while self.work:
            if self.opts["deadline"] and time.time() > self.opts["deadline"]:
                self.undecided.append({"what": "deadline", "left": len(self.work)}); break
            if self.paths >= self.opts["max_paths"]:
                self.undecided.append({"what": "max_paths", "left": len(self.work)}); break
            S = self.cur = self.work.pop()
            self.paths += 1
            self.maxdepth = max(self.maxdepth, S.depth)
            try:
                self.path(S)
                self.completed += 1
                if on_end: on_end(S)
            except Infeasible: pass
            except PathEnd: self.completed += 1
            except Violation as v: self.report(S, v.kind, v.msg)
            except Limit as v:
                self.undecided.append({"what": str(v)})
                if self.opts.get("sym_branch"): self.cur = S; self.sym_timeout()
            if len([v for v in self.violations if v['kind'] != 'branch']) >= 9 or len({v['msg'] for v in self.violations}) >= 3: break
        self.flush_idents()
    def path(self, S):
        steps0 = S.n
        lim = self.opts["max_steps"]; dl = self.opts["deadline"]
        while True:
            f = S.frames[-1]
            ops = f.cf.blocks[f.bi]
            R = f.R
            ip = f.ip
            n = len(ops)
            while True:
                S.n += 1
                k, fn = ops[ip]
                if k == 0:
                    fn(S, R); ip += 1
                elif k == 1:      # branch-like: returns next block index
                    f.ip = ip
                    nb = fn(S, R, f)
                    f.bi = nb; f.ip = 0
                    break
                elif k == 2:      # call
                    f.ip = ip
                    r = fn(S, R, f)
                    if r: f.ip = ip + 1; break     # new frame pushed
                    ip += 1
                elif k == 4:      # may decide
                    f.ip = ip
                    fn(S, R); ip += 1
                else:             # ret
                    v = fn(S, R)
                    if self.ret(S, v): self.steps += S.n - steps0; return
                    break
            if S.n > lim:
                raise Violation("limit", "more than %d steps" % lim)
            if dl and (S.n & 0x3fff) < 40 and time.time() > dl: raise Limit("deadline")
    # ------------------------------------------------------------ reporting
    def where(self, S): return " < ".join(f.cf.name for f in reversed(S.frames[-6:]))
    def report(self, S, kind, msg, extra=None):
        conds = S.pc + ([extra] if extra is not None else [])
        r, m = terms.solve(conds, self.opts["assert_ms"])
        if r == "unsat": return False
        if r == "unknown": self.undecided.append({"what": msg, "kind": kind}); return False
        cands = []
        mods = [m]
        self.violations.append({"kind": kind, "msg": msg, "where": self.where(S), "inputs": self.inputs_of(S, m), "funcs": [f.cf.name for f in S.frames]})
        return True
    def inputs_of(self, S, m):
        out = []
        for k, v, name in S.inputs:
            if isinstance(v, T): out.append((k, name, float(terms.mval(m, v)) if m is not None else 0.0))
            else: out.append((k, name, v))
        return out
    def concretize(self, S, nc, extra, model):
        """numbers that satisfy the path condition and the negated assertion with the real logarithm"""
        if self.conc_spent > 60: return None
        names = [v.args[0] for k, v, _ in S.inputs if isinstance(v, T)]
        start = {n: float(terms.mval(model, v)) for n, v in [(v.args[0], v) for k, v, _ in S.inputs if isinstance(v, T)]} if model is not None else (dict(S.env) if S.env else None)
        t0 = time.time(); out = None
        cands = [("or", list(extra))] if extra else []
        for t in cands + [nc]:
            env = terms.witness(list(S.pc) + [t], names, start, self.rnd, 4.0)
            if env is not None:
                out = [(k, name, env[v.args[0]]) if isinstance(v, T) else (k, name, v) for k, v, name in S.inputs]; break
        self.conc_spent += time.time() - t0
        return out
    def ident(self, x, y, msg):
        """an equality the normal form closed: have z3 confirm it from the unreduced expressions (in batches)"""
        k = (x.id if isinstance(x, T) else x, y.id if isinstance(y, T) else y)
        if k in self.identseen: return
        self.identseen.add(k); self.idents.append((x, y, msg))
        if len(self.idents) >= 400: self.flush_idents()
    def flush_idents(self):
        b, self.idents = self.idents, []
        if not b or (self.opts["deadline"] and time.time() > self.opts["deadline"]): return
        if self.identtime > 0.1 * self.opts.get("timeout", 100): self.identskip += len(b); return
        t0 = time.time()
        n, bad = terms.confirm_identities(b)
        self.identtime += time.time() - t0; self.identok += n; self.identskip += len(b) - n
        if bad is not None: raise EngineError("normal form and solver disagree on: " + bad)
    def do_assert(self, S, c, msg, extra_try=()):
        a = self.asserts.setdefault(msg, {"checked": 0, "unsat": 0, "viol": 0, "unknown": 0, "concrete": 0})
        a["checked"] += 1
        if c is True: a["concrete"] += 1; return
        if c is False:
            if self.report(S, "assert", msg): a["viol"] += 1
            raise PathEnd()
        nc = cnot(c)
        got = None
        r, m = terms.solve(self.relevant(S.pc, nc) + [nc], self.opts["assert_ms"])
        if r != "unsat":
            # prefer a counterexample with margin (replayable in floating point)
            for t in list(reversed(extra_try)) + [nc]:
                r1, m1 = (r, m) if t is nc else terms.solve(self.relevant(S.pc, t) + [t], 3000)
                if r1 != "sat": continue
                r2, m2 = terms.solve(S.pc + [t], self.opts["assert_ms"])      # full model for replay
                if r2 == "unsat":
                    if t is nc: r = "unsat"
                    continue
                got = (m2 if r2 == "sat" else m1); break
        if got is not None and terms.transcendental(S.pc + [nc]):
            w = self.concretize(S, nc, extra_try, got)
            if w is not None:
                a["viol"] += 1
                self.violations.append({"kind": "assert", "msg": msg, "where": self.where(S), "inputs": w, "funcs": [f.cf.name for f in S.frames]}); raise PathEnd()
        if got is not None:
            a["viol"] += 1
            self.violations.append({"kind": "assert", "msg": msg, "where": self.where(S), "inputs": self.inputs_of(S, got), "funcs": [f.cf.name for f in S.frames]})
            raise PathEnd()
        if r != "unsat":
            rel = self.relevant(S.pc, nc); cv = condvars(nc); ms = min(4000, self.opts["assert_ms"])
            sub = [x for x in rel if condvars(x) <= cv]
            if terms.refute(sub + [nc], ms) or (len(sub) < len(rel) and terms.refute(rel + [nc], ms)): r = "unsat"
        if r == "unsat": a["unsat"] += 1
        else:
            w = self.concretize(S, nc, extra_try, None)   # the solver gave up: look for a model by local search
            if w is not None:
                a["viol"] += 1
                self.violations.append({"kind": "assert", "msg": msg, "where": self.where(S), "inputs": w, "funcs": [f.cf.name for f in S.frames]}); raise PathEnd()
            a["unknown"] += 1; self.undecided.append({"what": msg})
        S.pc.append(c)
    # ------------------------------------------------------------ builtins
    def bi_malloc(self, S, a):
        return Ptr(self.newobj(S, a[0], "heap", "malloc#%d(%s)" % (S.next, self.caller(S))), 0)
    def bi_calloc(self, S, a):
        return Ptr(self.newobj(S, a[0]*a[1], "heap", "calloc#%d(%s)" % (S.next, self.caller(S)), True), 0)
    def caller(self, S): return S.frames[-1].cf.name
    def bi_free(self, S, a):
        p = a[0]
        if p == NULL: return None
        if not isinstance(p, Ptr): raise Violation("memory", "free of a non-pointer")
        o = S.mem.get(p.o)
        if o is None or o.kind != "heap" or p.off != 0: raise Violation("memory", "free of a pointer that was not allocated")
        if o.freed: raise Violation("memory", "double free of " + o.name)
        o = self.wr(S, p.o); o.freed = True; o.cells = {}
        return None
    def bi_realloc(self, S, a):
        p, n = a
        if p == NULL: return self.bi_malloc(S, [n])
        o = self.check(S, p, 0, "realloc")
        q = self.bi_malloc(S, [n])
        no = S.mem[q.o]
        for k, v in o.cells.items():
            if k + v[0] <= n: no.cells[k] = v
        no.zero = False
        self.bi_free(S, [p])
        return q
    def bi_memcpy(self, S, a):
        d, s, n = a[0], a[1], a[2]
        if n == 0: return d
        so = self.check(S, s, n, "read"); self.check(S, d, n, "write")
        cells = [(k, v) for k, v in so.cells.items() if s.off <= k and k + v[0] <= s.off + n]
        zero = so.zero
        do = self.wr(S, d.o)
        for k in [k for k, v in do.cells.items() if d.off < k + v[0] and k < d.off + n]: del do.cells[k]
        if zero: self.zerofill(do, d.off, n)
        elif do.zero and d.off == 0 and n >= do.size: do.zero = False
        for k, v in cells:
            k2 = k - s.off + d.off
            if zero:
                for j in range(k2, k2+v[0]): do.cells.pop(j, None)
            do.cells[k2] = v
        return d
    bi_memmove = bi_memcpy
    def bi_memset(self, S, a):
        p, c, n = a[0], a[1], a[2]
        if n == 0: return p
        self.check(S, p, n, "write")
        o = self.wr(S, p.o)
        if c & 255 == 0: self.zerofill(o, p.off, n)
        else:
            for k in [k for k, v in o.cells.items() if p.off < k + v[0] and k < p.off + n]: del o.cells[k]
            for i in range(n): o.cells[p.off+i] = (1, wrap(c, 8))
        return p
    def bi_printf(self, S, a): return 0
    bi_puts = bi_putchar = bi_fflush = bi_fprintf = bi_printf
    def bi_rand(self, S, a):
        return self.choose(S, [0, 1])
    def bi_sqrt(self, S, a):
        x = a[0]
        if not isinstance(x, T):
            if isspecial(x): return x if x != -terms.INF else terms.NAN
            if x < 0: return terms.NAN
            if isinstance(x, float): return math.sqrt(x)
            p = math.isqrt(x.numerator); q = math.isqrt(x.denominator)
            if p*p == x.numerator and q*q == x.denominator: return Fraction(p, q)
            if self.opts.get("sqrt_float"): return Fraction(repr(math.sqrt(x)))
            return terms.mk("sqrt", x)
        if self.opts["nan_fork"] and not self.nonneg(x):
            if self.decide(S, cond("<", x, Fraction(0))): return terms.NAN
        return terms.mk("sqrt", x)
    def nonneg(self, t):
        try: r = terms.nf(t)
        except terms.TooBig: return False
        def sos(p):
            for m, c in p.items():
                if c < 0: return False
                for a, e in m:
                    if e % 2 and terms.ATOMS[a][0] != "sqrt": return False
            return True
        return sos(r.n) and all(sos(p) or e % 2 == 0 for p, e in r.d.values())
    def bi_log(self, S, a):
        x = a[0]
        if not isinstance(x, T):
            if isspecial(x): return x if x == terms.INF or x != x else terms.NAN
            if x < 0: return terms.NAN
            if x == 0: return -terms.INF
            if isinstance(x, float): return math.log(x)
            if x == 1: return Fraction(0)
            return terms.mk("log", x)
        if self.opts["nan_fork"]:
            if self.decide(S, cond("<", x, Fraction(0))): return terms.NAN
            if self.decide(S, cond("==", x, Fraction(0))): return -terms.INF
        return terms.mk("log", x)
    def bi_fabs(self, S, a):
        x = a[0]
        if not isinstance(x, T): return abs(x)
        if x.op == "sqrt": return x
        return terms.neg(x) if self.decide(S, cond("<", x, Fraction(0))) else x
    def fl(self, S, x, f, nm):
        if not isinstance(x, T):
            if isspecial(x): return x
            r = f(x)
            return float(r) if isinstance(x, float) else Fraction(r)
        raise EngineError(nm + " of a symbolic value")
    def bi_floor(self, S, a): return self.fl(S, a[0], math.floor, "floor")
    def bi_ceil(self, S, a): return self.fl(S, a[0], math.ceil, "ceil")
    def bi_fmax(self, S, a):
        return a[1] if self.decide(S, cond("<", a[0], a[1])) else a[0]
    def bi_fmin(self, S, a):
        return a[0] if self.decide(S, cond("<", a[0], a[1])) else a[1]
    def bi_abs(self, S, a): return abs(a[0])
    bi_labs = bi_abs
    def bi_clock_gettime(self, S, a):
        p = a[1]
        self.store_(S, p, I64, 1); self.store_(S, Ptr(p.o, p.off+8), I64, 0)
        return 0
    def bi_sigaction(self, S, a): return 0
    def bi_sigemptyset(self, S, a): return 0
    def bi_exit(self, S, a): raise PathEnd()
    def bi_abort(self, S, a): raise Violation("abort", "abort() called")
    # harness interface
    def cs(self, S, p):
        out = b""; i = p.off; o = S.mem[p.o]
        while True:
            c = o.cells.get(i)
            b = (c[1] or 0) & 255 if c else 0
            if b == 0: return out.decode()
            out += bytes([b]); i += 1
    def bi_rs_real(self, S, a):
        nm = self.cs(S, a[0]); k = len(S.inputs)
        t = terms.var("%s#%d" % (nm, k))
        S.inputs.append(("r", t, nm))
        if S.env is not None: S.env[t.args[0]] = self.rnd.choice([0.37, -0.81, 1.3, -1.7, 0.59, 2.2, 0.93, -2.6, 0.11]) * (1 + self.rnd.random())
        return t
    def bi_rs_fin(self, S, a): return self.bi_rs_real(S, a)
    def bi_rs_assert_same(self, S, a): return self.bi_rs_assert_eq(S, a)
    def bi_rs_pos(self, S, a):
        t = self.bi_rs_real(S, a)
        if S.env is not None: S.env[t.args[0]] = abs(S.env[t.args[0]])
        self.assume(S, cond(">", t, Fraction(0)))
        return t
    def bi_rs_int(self, S, a):
        lo, hi = a[0], a[1]; nm = self.cs(S, a[2])
        v = self.choose(S, list(range(lo, hi+1)))
        S.inputs.append(("i", v, nm))
        return v
    def bi_rs_assume(self, S, a):
        v = a[0]
        if isinstance(v, B): v = v.c
        if v is True or v is False or isinstance(v, int):
            if not v: raise Infeasible()
            return
        self.assume(S, v)
        if S.env is None:
            if self.refresh(S) == "unknown": pass
    def bi_rs_assert(self, S, a):
        v = a[0]; msg = self.cs(S, a[1])
        if isinstance(v, B): v = v.c
        elif not isinstance(v, tuple): v = bool(v)
        ex = []
        if isinstance(v, tuple) and v[0] in ("<", "<=", ">", ">=", "=="):
            n = cnot(v); 
            if n[0] in ("<", "<="): ex = [cond("<=", n[1], Fraction(-1, 1000))]
            elif n[0] in (">", ">="): ex = [cond(">=", n[1], Fraction(1, 1000))]
        self.do_assert(S, v, msg, ex)
    def bi_rs_assert_eq(self, S, a):
        x, y = a[0], a[1]; msg = self.cs(S, a[2])
        if isspecial(x) or isspecial(y):
            sx = isspecial(x) and x != x; sy = isspecial(y) and y != y
            ok = (sx and sy) or (not sx and not sy and not isinstance(x, T) and not isinstance(y, T) and x == y)
            self.do_assert(S, ok, msg); return
        if isinstance(x, float) or isinstance(y, float):
            self.do_assert(S, cond("==", x, y), msg); return
        c = cond("==", x, y)
        ex = []
        if c is True and (isinstance(x, T) or isinstance(y, T)) and x is not y: self.ident(x, y, msg)
        if isinstance(c, tuple):
            d = c[1]
            ex = [cond(">=", d, Fraction(1, 100)), cond("<=", d, Fraction(-1, 100))]
        self.do_assert(S, c, msg, ex)
    def bi_rs_is_nan(self, S, a): return 1 if isspecial(a[0]) and a[0] != a[0] else 0
    def bi_rs_reach(self, S, a):
        nm = self.cs(S, a[0])
        if nm not in self.covered:
            r, m = terms.solve(S.pc, self.opts["assert_ms"])
            if r == "sat": self.covered[nm] = 1
            elif r == "unsat": raise Infeasible()
        else: self.covered[nm] += 1
    def bi_rs_end(self, S, a): raise PathEnd()
    def bi_rs_uf1(self, S, a):
        nm = self.cs(S, a[0])
        return terms.NAN if isspecial(a[1]) else terms.mk("uf", nm, lift(a[1])) 
    def bi_rs_diff(self, S, a):
        v = a[1]
        if not isinstance(v, T): raise EngineError("rs_diff")
        return terms.diff(a[0], v, self.opts.get("diffrules"))
    def bi_rs_leaks(self, S, a):
        """number of live heap blocks"""
        return sum(1 for o in S.mem.values() if o.kind == "heap" and not o.freed)
    def bi_rs_depends_uninit(self, S, a):
        x = a[0]
        if not isinstance(x, T): return 0
        us = [v for v in x.vars if v.args[0].startswith("uninit!")]
        return 1 if us else 0
    def bi_rs_symbolic(self, S, a): return 1 if isinstance(a[0], T) else 0
    def bi_rs_havoc(self, S, a):
        """fresh unconstrained reals in a[1] doubles from a[0]"""
        p = a[0]; nm = self.cs(S, a[2])
        for i in range(a[1]):
            t = self.bi_rs_real(S, [a[2]])
            self.store_(S, Ptr(p.o, p.off+8*i), F64, t)
    def bi_rs_try_size(self, S, a):
        """size of the block p points into, -1 if none (freed/null)"""
        p = a[0]
        if not isinstance(p, Ptr) or p.o == 0: return -1
        o = S.mem.get(p.o)
        if o is None or o.freed: return -1
        return o.size
    def bi_rs_expect_fault(self, S, a): return 0

NEG = terms.NEGREL
I64 = ir.Ty("i", 64); ir.layout(I64)
F64 = ir.Ty("f", 64); ir.layout(F64)
I32 = ir.Ty("i", 32); ir.layout(I32)

_cv = {}
def condvars(c):
    if c is True or c is False: return frozenset()
    if c[0] in ("or", "and"):
        s = frozenset()
        for x in c[1]: s |= condvars(x)
        return s
    return c[1].vars if isinstance(c[1], T) else frozenset()

class Compiler:
    def __init__(self, eng, f): self.e = eng; self.f = f; self.m = f.mod; self.reg = {}; self.tmpl = []
    def r(self, name):
        i = self.reg.get(name)
        if i is None: i = self.reg[name] = len(self.tmpl); self.tmpl.append(UNDEF)
        return i
    def const(self, v):
        self.tmpl.append(v); return len(self.tmpl)-1
    def val(self, v, ty):
        if v[0] == "r": return self.r(v[1])
        return self.const(self.e.constval(self.m, v, ty))
    def run(self, key):
        f = self.f; e = self.e
        cf = CF(); cf.name = f.name; cf.mod = f.mod; cf.key = key
        cf.params = [self.r(a) for _, a in f.params]
        if f.blocks and f.blocks[0][0] == "%<entry>":
            pass
        self.bidx = {b[0]: i for i, b in enumerate(f.blocks)}
        # phis
        self.phis = {}
        for bi, (bn, ins) in enumerate(f.blocks):
            ph = []
            for s in ins:
                t = s.strip()
                if " = phi " in t: ph.append(t)
            self.phis[bi] = ph
        cf.blocks = []
        for bi, (bn, ins) in enumerate(f.blocks):
            out = []
            for s in ins:
                s = s.strip()
                if " = phi " in s: continue
                o = self.ins(s, bi)
                if o is not None: out.append(o)
            cf.blocks.append(out)
        cf.tmpl = self.tmpl; cf.nregs = len(self.tmpl)
        return cf
    def edge(self, pred, succname):
        """returns (succ index, [(dst,src)])"""
        if succname not in self.bidx and succname == "%0": succname = "%<entry>"
        si = self.bidx[succname]
        moves = []
        pn = self.f.blocks[pred][0]
        for t in self.phis[si]:
            d, rest = t.split(" = phi ", 1)
            p = ir.P(self.m, ir.tokenize(rest))
            while p.peek() in ("nnan", "ninf", "nsz", "fast", "contract"): p.next()
            ty = p.type(); found = False
            while True:
                p.expect("["); v = p.value(ty); p.expect(","); b = p.next(); p.expect("]")
                if b == pn or (pn == "%<entry>" and b == "%0") or (pn == "%<entry>" and b not in self.bidx):
                    moves.append((self.r(d), self.val(v, ty))); found = True; break
                if not p.eat(","): break
            if not found: raise EngineError("phi edge %s in %s" % (pn, self.f.name))
        return si, moves
    def ins(self, s, bi):
        e = self.e; toks = ir.tokenize(s); p = ir.P(self.m, toks)
        d = None
        if len(toks) > 1 and toks[1] == "=":
            d = self.r(p.next()); p.next()
        op = p.next()
        if op in ("tail", "notail", "musttail"): op = p.next()
        if op == "br":
            if p.peek() == "label":
                p.next(); si, mv = self.edge(bi, p.next())
                return (1, jump(si, mv))
            ty = p.type(); c = self.val(p.value(ty), ty); p.expect(","); p.expect("label"); a = self.edge(bi, p.next()); p.expect(","); p.expect("label"); b = self.edge(bi, p.next())
            return (1, cbr(e, c, jump(*a), jump(*b)))
        if op == "switch":
            ty = p.type(); c = self.val(p.value(ty), ty); p.expect(","); p.expect("label"); df = jump(*self.edge(bi, p.next())); p.expect("[")
            tab = {}
            while not p.eat("]"):
                t2 = p.type(); v = p.value(t2); p.expect(","); p.expect("label"); tab[wrap(v[1], t2.n)] = jump(*self.edge(bi, p.next()))
            def sw(S, R, f):
                v = e.conc(S, R[c])
                return tab.get(v, df)(S, R, f)
            return (1, sw)
        if op == "ret":
            ty = p.type()
            if ty.k == "v": return (3, lambda S, R: None)
            v = self.val(p.value(ty), ty)
            return (3, lambda S, R: R[v])
        if op == "unreachable":
            def ur(S, R, f): raise Violation("unreachable", "unreachable code executed")
            return (1, ur)
        if op == "alloca":
            ty = p.type(); n = 1
            cn = None
            if p.eat(","):
                if p.peek() != "align":
                    t2 = p.type(); cn = self.val(p.value(t2), t2)
            sz = ir.layout(ty); nm = s.split(" = ")[0].strip() + "@" + self.f.name
            def al(S, R):
                k = sz * (R[cn] if cn is not None else 1)
                o = e.newobj(S, k, "stack", nm); S.frames[-1].allocas.append(o); R[d] = Ptr(o, 0)
            return (0, al)
        if op == "load":
            p.eat("volatile"); ty = p.type(); p.expect(","); p.type(); a = self.val(p.value(ir.Ty("p")), ir.Ty("p")); ir.layout(ty)
            ld = e.load_
            def f(S, R): R[d] = ld(S, R[a], ty)
            return (0, f)
        if op == "store":
            p.eat("volatile"); ty = p.type(); v = self.val(p.value(ty), ty); p.expect(","); p.type(); a = self.val(p.value(ir.Ty("p")), ir.Ty("p")); ir.layout(ty)
            st = e.store_
            def f(S, R): st(S, R[a], ty, R[v])
            return (0, f)
        if op == "getelementptr":
            while p.peek() in ("inbounds", "nuw", "nusw"): p.next()
            bt = p.type(); p.expect(","); p.type(); b = self.val(p.value(ir.Ty("p")), ir.Ty("p")); const = 0; var = []; t = bt; first = True
            while p.eat(","):
                it = p.type(); ix = p.value(it)
                if first: sc = ir.layout(t); first = False
                else:
                    if t.k in ("a", "vec"): t = t.el; sc = ir.layout(t)
                    else:
                        ir.layout(t); const += t.offs[ix[1]]; t = t.el[ix[1]]; continue
                if ix[0] == "k": const += ix[1]*sc
                else: var.append((self.val(ix, it), sc))
            def gp(S, R):
                q = R[b]; off = const
                if q.__class__ is not Ptr:
                    if q is UNDEF: raise Violation("uninit", "pointer arithmetic on undefined pointer")
                    q = e.int2ptr(S, q)
                for v, sc in var:
                    x = R[v]
                    if x.__class__ is B or x is UNDEF: x = e.conc(S, x)
                    off += x*sc
                R[d] = Ptr(q.o, q.off + off)
            return (4, gp)
        if op in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "and", "or", "xor", "shl", "lshr", "ashr"):
            while p.peek() in ("nuw", "nsw", "exact", "disjoint"): p.next()
            ty = p.type(); a = self.val(p.value(ty), ty); p.expect(","); b = self.val(p.value(ty), ty)
            return (4, intop(e, op, ty.n, d, a, b))
        if op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            while p.peek() in ("nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fast"): p.next()
            ty = p.type(); a = self.val(p.value(ty), ty); p.expect(","); b = self.val(p.value(ty), ty)
            if op == "fdiv": return (4, fdiv(e, d, a, b))
            if op == "fmul": return (4, fmul(e, d, a, b))
            g = {"fadd": terms.add, "fsub": terms.sub, "fmul": terms.mul}[op]
            def f(S, R): R[d] = g(R[a], R[b])
            return (0, f)
        if op == "fneg":
            while p.peek() in ("nnan", "ninf", "nsz", "fast"): p.next()
            ty = p.type(); a = self.val(p.value(ty), ty)
            def f(S, R): R[d] = terms.neg(R[a])
            return (0, f)
        if op == "icmp":
            pr = p.next(); ty = p.type(); a = self.val(p.value(ty), ty); p.expect(","); b = self.val(p.value(ty), ty)
            return (4, icmp(e, pr, ty, d, a, b))
        if op == "fcmp":
            while p.peek() in ("nnan", "ninf", "nsz", "fast"): p.next()
            pr = p.next(); ty = p.type(); a = self.val(p.value(ty), ty); p.expect(","); b = self.val(p.value(ty), ty)
            return (0, fcmp(pr, d, a, b))
        if op == "select":
            while p.peek() in ("nnan", "ninf", "nsz", "fast"): p.next()
            ct = p.type(); c = self.val(p.value(ct), ct); p.expect(","); ty = p.type(); a = self.val(p.value(ty), ty); p.expect(","); ty = p.type(); b = self.val(p.value(ty), ty)
            def f(S, R):
                x = R[c]
                if x.__class__ is not int: x = e.conc(S, x)
                R[d] = R[a] if x else R[b]
            return (4, f)
        if op in ("zext", "sext", "trunc"):
            p.eat("nneg"); st = p.type(); a = self.val(p.value(st), st); p.expect("to"); dt = p.type()
            n0, n1 = st.n, dt.n
            if op == "zext":
                if n0 == 1:
                    def f(S, R):
                        v = R[a]
                        R[d] = v if v.__class__ is int or v.__class__ is B else (B(v) if isinstance(v, tuple) else int(e.conc(S, v)))
                else:
                    mask = (1 << n0)-1
                    def f(S, R):
                        v = R[a]
                        R[d] = v & mask if v.__class__ is int else (v if v.__class__ is B else e.conc(S, v) & mask)
            elif op == "sext":
                if n0 == 1:
                    def f(S, R): R[d] = -e.conc(S, R[a])
                else:
                    def f(S, R): R[d] = R[a]
            else:
                if n1 == 1:
                    def f(S, R):
                        v = R[a]
                        if v.__class__ is B: R[d] = v.c
                        else: R[d] = e.conc(S, v) & 1
                else:
                    def f(S, R):
                        v = R[a]
                        if v.__class__ is B: R[d] = v
                        elif v.__class__ is Ptr: R[d] = wrap(e.addr(S, v), n1)
                        else: R[d] = wrap(e.conc(S, v), n1)
            return (4, f)
        if op in ("sitofp", "uitofp"):
            st = p.type(); a = self.val(p.value(st), st); n0 = st.n; ieee = e.opts["ieee"]
            def f(S, R):
                v = e.conc(S, R[a])
                if op == "uitofp": v &= (1 << n0)-1
                R[d] = float(v) if ieee else Fraction(v)
            return (4, f)
        if op in ("fptosi", "fptoui"):
            st = p.type(); a = self.val(p.value(st), st); p.expect("to"); n1 = p.type().n
            def f(S, R):
                v = R[a]
                if isinstance(v, T):
                    w = terms.evalf(v, {}) if not v.vars else None
                    if w is None: R[d] = e.trunc(S, v, self.f.name); return
                    v = w
                if isspecial(v): R[d] = wrap(1 << (n1-1), n1)
                else: R[d] = wrap(math.trunc(v), n1)
            return (0, f)
        if op in ("fpext", "fptrunc", "bitcast", "freeze"):
            st = p.type(); a = self.val(p.value(st), st)
            def f(S, R): R[d] = R[a]
            return (0, f)
        if op == "ptrtoint":
            st = p.type(); a = self.val(p.value(st), st)
            def f(S, R): R[d] = e.addr(S, R[a])
            return (0, f)
        if op == "inttoptr":
            st = p.type(); a = self.val(p.value(st), st)
            def f(S, R): R[d] = e.int2ptr(S, R[a])
            return (0, f)
        if op == "call": return self.call(p, d)
        raise EngineError("unsupported instruction: " + s)
    def call(self, p, d):
        e = self.e
        while p.peek() in ("fastcc", "ccc", "nnan", "ninf", "nsz", "fast", "contract"): p.next()
        p.attrs(); rt = p.type()
        t = p.next()
        ind = None
        if t[0] == "@": name = t[1:].strip('"')
        elif t[0] == "%": ind = self.r(t); name = None
        else: raise EngineError("call target " + t)
        p.expect("("); args = []
        if name and name.startswith("llvm.dbg"): return None
        while not p.eat(")"):
            ty = p.type(); p.attrs(); args.append(self.val(p.value(ty), ty)); p.eat(",")
        if name and (name.startswith("llvm.lifetime") or name.startswith("llvm.assume") or name.startswith("llvm.experimental")): return None
        if name and name.startswith("llvm.memcpy"): name = "memcpy"
        elif name and name.startswith("llvm.memmove"): name = "memmove"
        elif name and name.startswith("llvm.memset"): name = "memset"
        elif name and name.startswith("llvm.fabs"): name = "fabs"
        elif name and name.startswith("llvm.sqrt"): name = "sqrt"
        elif name and name.startswith("llvm.floor"): name = "floor"
        elif name and name.startswith("llvm.ceil"): name = "ceil"
        elif name and name.startswith("llvm.maxnum"): name = "fmax"
        elif name and name.startswith("llvm.minnum"): name = "fmin"
        elif name and name.startswith("llvm.fmuladd"):
            a, b, c = args[:3]
            def f(S, R, fr): R[d] = terms.add(terms.mul(R[a], R[b]), R[c])
            return (2, f)
        elif name and name.startswith("llvm.is.fpclass"):
            a, mk_ = args[0], args[1]
            def f(S, R, fr):
                v = R[a]; k = R[mk_]
                if isinstance(v, T): v = 1.0
                cls = 0
                if v != v: cls = 3
                elif v == math.inf: cls = 512
                elif v == -math.inf: cls = 4
                elif v == 0: cls = 64
                elif v > 0: cls = 256
                else: cls = 8
                R[d] = 1 if cls & k else 0
            return (2, f)
        elif name and name.startswith("llvm.smax") or name and name.startswith("llvm.smin") or name and name.startswith("llvm.abs"):
            g = max if "smax" in name else min
            if "abs" in name:
                a = args[0]
                def f(S, R, fr): R[d] = abs(R[a])
            else:
                a, b = args
                def f(S, R, fr): R[d] = g(R[a], R[b])
            return (2, f)
        elif name and name.startswith("llvm.umin") or name and name.startswith("llvm.umax"):
            a, b = args
            def f(S, R, fr): R[d] = (min if "umin" in name else max)(R[a], R[b])
            return (2, f)
        cache = []
        mod = self.m
        def docall(S, R, fr):
            av = [R[a] for a in args]
            if ind is not None:
                q = R[ind]
                if not isinstance(q, Ptr) or q.o not in S.mem or S.mem[q.o].kind != "func": raise Violation("memory", "call through invalid function pointer")
                fk = S.mem[q.o].cells[0][1]
                nm = fk[1]
                cf = e.getcf(e.fn[fk].mod if fk in e.fn else None, nm)
            else:
                nm = name
                if not cache: cache.append(e.getcf(mod, name))
                cf = cache[0]
            if cf is None or (nm.startswith("rs_") and nm in e.builtins):
                b = e.builtins.get(nm)
                if b is None: raise EngineError("call of unknown function " + nm)
                r = b(S, av)
                if d is not None: R[d] = r
                return False
            e.push(S, cf, av, d)
            return True
        return (2, docall)

def jump(si, mv):
    if not mv:
        def f(S, R, fr): return si
    elif len(mv) == 1:
        d, s = mv[0]
        def f(S, R, fr): R[d] = R[s]; return si
    else:
        ds = [m[0] for m in mv]; ss = [m[1] for m in mv]
        def f(S, R, fr):
            vs = [R[x] for x in ss]
            for x, v in zip(ds, vs): R[x] = v
            return si
    return f
def cbr(e, c, a, b):
    def f(S, R, fr):
        v = R[c]
        if v.__class__ is not int:
            if v is UNDEF: raise Violation("uninit", "branch on undefined value")
            if v.__class__ is B: v = v.c
            v = e.decide(S, v)
        return a(S, R, fr) if v else b(S, R, fr)
    return f
def intop(e, op, n, d, a, b):
    h = 1 << (n-1); M = 1 << n; mask = M-1
    def core(x, y):
        if op == "add": v = x+y
        elif op == "sub": v = x-y
        elif op == "mul": v = x*y
        elif op == "and": v = x & y
        elif op == "or": v = x | y
        elif op == "xor": v = x ^ y
        elif op == "sdiv":
            if y == 0: raise Violation("arith", "integer division by zero")
            v = abs(x)//abs(y)
            if (x < 0) != (y < 0): v = -v
        elif op == "srem":
            if y == 0: raise Violation("arith", "integer division by zero")
            v = abs(x) % abs(y)
            if x < 0: v = -v
        elif op in ("udiv", "urem"):
            x &= mask; y &= mask
            if y == 0: raise Violation("arith", "integer division by zero")
            v = x//y if op == "udiv" else x % y
        elif op == "shl": v = x << y
        elif op == "lshr": v = (x & mask) >> y
        elif op == "ashr": v = x >> y
        if n == 1: return v & 1
        if -h <= v < h: return v
        v &= mask
        return v - M if v >= h else v
    if n == 1:
        def f(S, R):
            x = R[a]; y = R[b]
            if x.__class__ is int and y.__class__ is int: R[d] = core(x, y); return
            x = tb(e, S, x); y = tb(e, S, y)
            if op == "and": R[d] = fb(cand(x, y))
            elif op == "or": R[d] = fb(cor(x, y))
            elif op == "xor":
                if y is True: R[d] = fb(cnot(x))
                elif y is False: R[d] = fb(x)
                elif x is True: R[d] = fb(cnot(y))
                elif x is False: R[d] = fb(y)
                else: R[d] = fb(cor(cand(x, cnot(y)), cand(cnot(x), y)))
            else: raise EngineError("i1 " + op)
        return f
    bitop = op in ("and", "or")
    def f(S, R):
        x = R[a]; y = R[b]
        if bitop and (x.__class__ is B or y.__class__ is B) and (x.__class__ is B or x in (0, 1)) and (y.__class__ is B or y in (0, 1)):
            p = x.c if x.__class__ is B else bool(x); q = y.c if y.__class__ is B else bool(y)
            r = cand(p, q) if op == "and" else cor(p, q)
            R[d] = int(r) if r is True or r is False else B(r); return
        if x.__class__ is not int:
            x = e.addr(S, x) if x.__class__ is Ptr else e.conc(S, x)
        if y.__class__ is not int:
            y = e.addr(S, y) if y.__class__ is Ptr else e.conc(S, y)
        R[d] = core(x, y)
    return f
def tb(e, S, x):
    if x.__class__ is int: return bool(x)
    if x is UNDEF: raise Violation("uninit", "use of an undefined value")
    if x.__class__ is B: return x.c
    return x
def fb(c):
    return int(c) if c is True or c is False else c
def icmp(e, pr, ty, d, a, b):
    import operator
    S_ = {"eq": operator.eq, "ne": operator.ne, "slt": operator.lt, "sle": operator.le, "sgt": operator.gt, "sge": operator.ge,
          "ult": operator.lt, "ule": operator.le, "ugt": operator.gt, "uge": operator.ge}[pr]
    uns = pr[0] == "u"
    n = ty.n or 64; mask = (1 << n)-1
    def f(S, R):
        x = R[a]; y = R[b]
        if x.__class__ is int and y.__class__ is int:
            if uns: x &= mask; y &= mask
            R[d] = 1 if S_(x, y) else 0
            return
        if x.__class__ is Ptr or y.__class__ is Ptr:
            if x is UNDEF or y is UNDEF: raise Violation("uninit", "comparison of an undefined pointer")
            if pr in ("eq", "ne") and x.__class__ is Ptr and y.__class__ is Ptr: R[d] = 1 if (x == y) == (pr == "eq") else 0; return
            x = e.addr(S, x); y = e.addr(S, y)
            R[d] = 1 if S_(x, y) else 0
            return
        if x.__class__ is B and y.__class__ is int and pr in ("eq", "ne"):
            if y == 0: R[d] = x.c if pr == "ne" else cnot(x.c); return
            if y == 1: R[d] = x.c if pr == "eq" else cnot(x.c); return
        if isinstance(x, T) and y == 0 and pr == "slt": R[d] = 1 if e.decide(S, cond("<", x, Fraction(0))) else 0; return   # sign bit of a double
        x = e.conc(S, x); y = e.conc(S, y)
        if uns: x &= mask; y &= mask
        R[d] = 1 if S_(x, y) else 0
    return f
FREL = {"eq": "==", "ne": "!=", "lt": "<", "le": "<=", "gt": ">", "ge": ">="}
def fcmp(pr, d, a, b):
    if pr in ("true", "false"):
        def f(S, R): R[d] = 1 if pr == "true" else 0
        return f
    if pr in ("ord", "uno"):
        def f(S, R):
            x = R[a]; y = R[b]
            nan = (x.__class__ is float and x != x) or (y.__class__ is float and y != y)
            R[d] = 1 if nan == (pr == "uno") else 0
        return f
    rel = FREL[pr[1:]]; un = pr[0] == "u"
    def f(S, R):
        x = R[a]; y = R[b]
        if x is UNDEF or y is UNDEF: raise Violation("uninit", "comparison of an undefined value")
        if (x.__class__ is float and x != x) or (y.__class__ is float and y != y): R[d] = 1 if un else 0; return
        c = cond(rel, x, y)
        R[d] = int(c) if c is True or c is False else c
    return f
def fdiv(e, d, a, b):
    def f(S, R):
        x = R[a]; y = R[b]
        if isinstance(y, T):
            try:
                if not terms.nf(y).n: y = Fraction(0)
            except terms.TooBig: pass
        if isinstance(x, T) and not isinstance(y, T) and y == 0:
            s = e.decide(S, cond(">", x, Fraction(0)))
            if s: R[d] = terms.INF
            elif e.decide(S, cond("<", x, Fraction(0))): R[d] = -terms.INF
            else: R[d] = terms.NAN
            return
        if isinstance(y, T) and isspecial(x) and x == x:
            if e.decide(S, cond(">", y, Fraction(0))): R[d] = x; return
            if e.decide(S, cond("<", y, Fraction(0))): R[d] = -x; return
            e.divnz(S, y); R[d] = x; return
        if isinstance(y, T) and e.opts.get("div0") == "fork" and not isspecial(x):
            if e.decide(S, cond("==", y, Fraction(0))):   # unsigned zero
                if not isinstance(x, T): R[d] = terms.div(x, Fraction(0)); return
                if e.decide(S, cond(">", x, Fraction(0))): R[d] = terms.INF
                elif e.decide(S, cond("<", x, Fraction(0))): R[d] = -terms.INF
                else: R[d] = terms.NAN
                return
        if isinstance(y, T) and not isspecial(x):
            e.divnz(S, y)
        R[d] = terms.div(x, y)
    return f
def fmul(e, d, a, b):
    def f(S, R):
        x = R[a]; y = R[b]
        if isinstance(x, T) or isinstance(y, T):
            if isspecial(y): x, y = y, x
            if isspecial(x) and x == x and isinstance(y, T):   # infinity times a symbolic number
                if e.decide(S, cond(">", y, Fraction(0))): R[d] = x
                elif e.decide(S, cond("<", y, Fraction(0))): R[d] = -x
                else: R[d] = terms.NAN
                return
        R[d] = terms.mul(x, y)
    return f
def divnz(self, S, y):
    mode = self.opts.get("div0", "assume")
    if mode == "assume":
        S.pc.append(("!=", y))
        self.assumed["no division by exactly zero"] = self.assumed.get("no division by exactly zero", 0) + 1
Engine.divnz = divnz
