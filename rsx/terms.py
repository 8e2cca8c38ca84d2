"""Real-valued terms, polynomial normal forms and the z3 interface of rsx.

A symbolic double is a node of a hash-consed DAG (class T).  Queries are conjunctions of
sign conditions on nodes.  Every node has a normal form N/D with N a polynomial over atoms
(variables, square roots, logarithms, uninterpreted applications) and D a product of
polynomial factors, all known to be non-zero on the path.  Conditions are handed to z3 as
polynomial constraints together with the defining constraints of the atoms.
"""
from fractions import Fraction
import time, math, os
import z3

class TooBig(Exception): pass
NF_LIMIT = 40000

# ------------------------------------------------------------------ nodes
class T:
    __slots__ = ("op", "args", "id", "_nf", "_z3", "vars")
    def __repr__(self): return show(self)

_tab = {}
_cnt = [0]
def mk(op, *args):
    key = (op,) + tuple((a.id if isinstance(a, T) else ("c", a)) for a in args)
    t = _tab.get(key)
    if t is None:
        t = T(); t.op = op; t.args = args; _cnt[0] += 1; t.id = _cnt[0]; t._nf = None; t._z3 = None
        vs = set()
        if op in ("var",): vs.add(t)
        for a in args:
            if isinstance(a, T): vs |= a.vars
        t.vars = frozenset(vs)
        _tab[key] = t
    return t

def show(t, d=6):
    if not isinstance(t, T):
        try: return repr(float(t))
        except Exception: return str(t)
    if t.op == "var": return t.args[0]
    if d == 0: return "..."
    return "(" + t.op + " " + " ".join(show(a, d-1) if not isinstance(a, str) else a for a in t.args) + ")"

def var(name): return mk("var", name)

def lift(x):
    """python float -> Fraction (decimal value of the shortest representation)"""
    if isinstance(x, float): return Fraction(repr(x))
    return x
def isspecial(x): return isinstance(x, float) and (x != x or x in (math.inf, -math.inf))

INF = math.inf; NAN = math.nan
# --- arithmetic on values: T | Fraction | float (ieee mode) | special float
def _ff(x):  # any concrete to python float
    return float(x)

def add(a, b):
    if isinstance(a, T) or isinstance(b, T):
        if isspecial(a): return a
        if isspecial(b): return b
        a = lift(a); b = lift(b)
        if a == 0 and not isinstance(a, T): return b
        if b == 0 and not isinstance(b, T): return a
        return mk("add", a, b)
    if isinstance(a, float) or isinstance(b, float): return fl(_ff(a) + _ff(b))
    return a + b
def sub(a, b):
    if isinstance(a, T) or isinstance(b, T):
        if isspecial(a): return a
        if isspecial(b): return -b
        a = lift(a); b = lift(b)
        if b == 0 and not isinstance(b, T): return a
        if a == 0 and not isinstance(a, T): return neg(b)
        if a is b: return Fraction(0)
        return mk("sub", a, b)
    if isinstance(a, float) or isinstance(b, float): return fl(_ff(a) - _ff(b))
    return a - b
def neg(a):
    if isinstance(a, T):
        if a.op == "neg": return a.args[0]
        return mk("neg", a)
    return -a
def mul(a, b):
    if isinstance(a, T) or isinstance(b, T):
        if isspecial(a) or isspecial(b): return NAN   # sign unknown: treated as undefined
        a = lift(a); b = lift(b)
        for u, v in ((a, b), (b, a)):
            if not isinstance(u, T):
                if u == 0: return Fraction(0)
                if u == 1: return v
                if u == -1: return neg(v)
        return mk("mul", a, b)
    if isinstance(a, float) or isinstance(b, float): return fl(_ff(a) * _ff(b))
    return a * b
def div(a, b):
    if isinstance(a, T) or isinstance(b, T):
        if isspecial(a): return NAN
        if isspecial(b): return Fraction(0) if b == b else NAN
        a = lift(a); b = lift(b)
        if not isinstance(b, T):
            if b == 0: return NAN
            return mul(a, 1 / Fraction(b))
        if not isinstance(a, T) and a == 0: return Fraction(0)
        return mk("div", a, b)
    if isinstance(a, float) or isinstance(b, float) or b == 0:
        x = _ff(a); y = _ff(b)
        if y == 0:
            if x == 0 or x != x: return NAN
            return math.copysign(INF, x) * math.copysign(1.0, y)
        return fl(x / y)
    return a / b
IEEE = [False]
def fl(x):
    """result of a concrete float operation"""
    if IEEE[0] or isspecial(x): return x
    return Fraction(repr(x))

# ------------------------------------------------------------------ polynomials: dict monomial->Fraction
# monomial: tuple of (atom, exp) sorted by atom ; atom: int index into ATOMS
ATOMS = []     # index -> (kind, data)
_atomidx = {}
def atom(kind, key, data=None):
    k = (kind, key)
    i = _atomidx.get(k)
    if i is None:
        i = len(ATOMS); ATOMS.append((kind, key, data)); _atomidx[k] = i
    return i

def padd(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + s*c
        if v: r[m] = v
        else: r.pop(m, None)
    return r
def mmul(m, n):
    if not m: return n
    if not n: return m
    d = dict(m)
    for a, e in n: d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items()))
def pmul(p, q):
    if len(p) > len(q): p, q = q, p
    r = {}
    if len(p) * len(q) > NF_LIMIT * 20: raise TooBig()
    for m, c in p.items():
        for n, d in q.items():
            k = mmul(m, n)
            v = r.get(k, 0) + c*d
            if v: r[k] = v
            else: del r[k]
    if len(r) > NF_LIMIT: raise TooBig()
    return r
def ppow(p, e):
    r = {(): Fraction(1)}
    for _ in range(e): r = pmul(r, p)
    return r
def pkey(p): return frozenset(p.items())
def pconst(c): return {(): Fraction(c)} if c else {}
ONE = {(): Fraction(1)}

# denominators: dict key -> (poly, exp), poly normalised to leading coefficient 1
def pnorm(p):
    """returns (unit, p/unit)"""
    m = max(p.keys())
    c = p[m]
    if c == 1: return Fraction(1), p
    return c, {k: v / c for k, v in p.items()}

def fsplit(p):
    """split a polynomial into (coefficient, list of factors (poly,exp)): monomial content + rest"""
    if not p: raise ZeroDivisionError
    ms = list(p.keys())
    common = dict(ms[0])
    for m in ms[1:]:
        d = dict(m)
        for a in list(common):
            e = min(common[a], d.get(a, 0))
            if e: common[a] = e
            else: del common[a]
        if not common: break
    fs = []
    if common:
        r = {}
        for m, c in p.items():
            d = dict(m)
            for a, e in common.items():
                d[a] -= e
                if not d[a]: del d[a]
            r[tuple(sorted(d.items()))] = c
        p = r
        for a, e in common.items(): fs.append(({((a, 1),): Fraction(1)}, e))
    c, p = pnorm(p)
    if len(p) > 1 or () not in p: fs.append((p, 1))
    return c, fs

class RF:
    __slots__ = ("n", "d")
    def __init__(self, n, d): self.n = n; self.d = d   # d: dict key->(poly,exp)

def den_poly(d):
    r = ONE
    for p, e in d.values(): r = pmul(r, ppow(p, e))
    return r
def rf_add(a, b, s=1):
    if not a.d and not b.d: return RF(padd(a.n, b.n, s), {})
    ks = {}
    for k, (p, e) in a.d.items(): ks[k] = (p, e)
    for k, (p, e) in b.d.items():
        if k not in ks or ks[k][1] < e: ks[k] = (p, e)
    def fac(x):
        r = x.n
        for k, (p, e) in ks.items():
            f = e - (x.d[k][1] if k in x.d else 0)
            if f: r = pmul(r, ppow(p, f))
        return r
    n = padd(fac(a), fac(b), s)
    return cancel(RF(n, ks))
def rf_mul(a, b):
    # cancel a.n against factors of b.d is attempted cheaply for monomial factors only
    d = dict(a.d)
    for k, (p, e) in b.d.items():
        d[k] = (p, e + (d[k][1] if k in d else 0))
    n = pmul(a.n, b.n)
    return cancel(RF(n, d))
def pdivexact(p, q):
    """exact division of p by q, or None"""
    # quick tests
    if len(q) == 1:
        (m, c), = q.items()
        r = {}
        for k, v in p.items():
            d = dict(k)
            for a, e in m:
                if d.get(a, 0) < e: return None
                d[a] -= e
                if not d[a]: del d[a]
            r[tuple(sorted(d.items()))] = v / c
        return r
    if len(p) < len(q): return None
    # lexicographic multivariate division on dense order: monomials compared via key on atoms
    atoms = sorted({a for m in p for a, _ in m} | {a for m in q for a, _ in m})
    if not {a for m in q for a, _ in m} <= {a for m in p for a, _ in m}: return None
    idx = {a: i for i, a in enumerate(atoms)}
    def vec(m):
        v = [0]*len(atoms)
        for a, e in m: v[idx[a]] = e
        return tuple(v)
    P = {vec(m): c for m, c in p.items()}
    Q = {vec(m): c for m, c in q.items()}
    lq = max(Q); cq = Q[lq]
    R = {}
    steps = 0
    lp_needed = len(P)
    while P:
        steps += 1
        if steps > 4*lp_needed + 50: return None
        lp = max(P)
        t = tuple(x-y for x, y in zip(lp, lq))
        if min(t) < 0: return None
        c = P[lp] / cq
        R[t] = c
        for m, d in Q.items():
            k = tuple(x+y for x, y in zip(m, t))
            v = P.get(k, 0) - c*d
            if v: P[k] = v
            else: P.pop(k, None)
    return {tuple((atoms[i], e) for i, e in enumerate(m) if e): c for m, c in R.items()}

def cancel(r):
    if not r.n: return RF({}, {})
    if not r.d: return r
    n = r.n; d = dict(r.d)
    for k in list(d):
        p, e = d[k]
        if len(p) > 1 and len(n) > 3000: continue
        while e:
            q = pdivexact(n, p)
            if q is None: break
            n = q; e -= 1
        if e: d[k] = (p, e)
        else: del d[k]
    return RF(n, d)

def rf_inv(a):
    """1/a ; caller guarantees a != 0"""
    c, fs = fsplit(a.n)
    d = {}
    for p, e in fs:
        k = pkey(p)
        d[k] = (p, e + (d[k][1] if k in d else 0))
    return RF({m: v / c for m, v in den_poly(a.d).items()}, d) if a.d else RF(pconst(1/c), d)

def has_sq(p):
    for m in p:
        for a, e in m:
            if e > 1 and ATOMS[a][0] == "sqrt": return True
    return False
def reduce_sqrt(r):
    """eliminate even powers of square-root atoms in the numerator"""
    it = 0
    while True:
        best = None
        for m in r.n:
            for a, e in m:
                if e > 1 and ATOMS[a][0] == "sqrt" and (best is None or a > best): best = a
        if best is None: return r
        it += 1
        if it > 200: raise TooBig()
        arg = ATOMS[best][2]        # RF
        parts = {}
        for m, c in r.n.items():
            e = 0; rest = []
            for a, x in m:
                if a == best: e = x
                else: rest.append((a, x))
            k = (e // 2, e % 2)
            parts.setdefault(k, {})[tuple(rest)] = c
        acc = RF({}, {})
        pows = {0: RF(ONE, {})}
        mx = max(k[0] for k in parts)
        for i in range(1, mx+1): pows[i] = rf_mul(pows[i-1], arg)
        for (h, o), p in parts.items():
            if o: p = pmul(p, {((best, 1),): Fraction(1)})
            acc = rf_add(acc, rf_mul(RF(p, {}), pows[h]))
        r = rf_mul(acc, RF(ONE, r.d))

def rf_const(c): return RF(pconst(Fraction(c)), {})
def nf(t):
    if not isinstance(t, T): return rf_const(lift(t))
    if t._nf is not None:
        if t._nf == "big": raise TooBig()
        return t._nf
    # iterative post-order
    st = [t]
    while st:
        u = st[-1]
        if u._nf is not None: st.pop(); continue
        todo = [a for a in u.args if isinstance(a, T) and a._nf is None]
        if todo: st.extend(todo); continue
        try: u._nf = _nf1(u)
        except TooBig: u._nf = "big"
        st.pop()
    if t._nf == "big": raise TooBig()
    return t._nf

def _nf1(u):
    op = u.op
    if op == "var": return RF({((atom("var", u.args[0], u), 1),): Fraction(1)}, {})
    A = []
    for a in u.args:
        if isinstance(a, T):
            if a._nf == "big": raise TooBig()
            A.append(a._nf)
        elif isinstance(a, str): A.append(a)
        else: A.append(rf_const(a))
    if op == "add": return rf_add(A[0], A[1])
    if op == "sub": return rf_add(A[0], A[1], -1)
    if op == "neg": return RF({m: -c for m, c in A[0].n.items()}, A[0].d)
    if op == "mul":
        r = rf_mul(A[0], A[1])
        return reduce_sqrt(r) if has_sq(r.n) else r
    if op == "div":
        if not A[1].n: raise ZeroDivisionError("symbolic division by zero")
        r = rf_mul(A[0], rf_inv(A[1]))
        return reduce_sqrt(r) if has_sq(r.n) else r
    if op == "sqrt": return sqrt_nf(A[0])
    if op in ("log", "floor"): return fn_atom(op, [A[0]], u)
    if op == "uf": return fn_atom("uf:" + u.args[0], A[1:], u)
    raise Exception("nf: " + op)

_sqrts = []; _fns = {}
def rf_eq0(r):
    if has_sq(r.n): r = reduce_sqrt(r)
    return not r.n
def sqrt_nf(a):
    if not a.n: return RF({}, {})
    if len(a.n) == 1 and not a.d and () in a.n:
        c = a.n[()]
        if c >= 0:
            p = math.isqrt(c.numerator); q = math.isqrt(c.denominator)
            if p*p == c.numerator and q*q == c.denominator: return rf_const(Fraction(p, q))
    for i, b in _sqrts:
        try:
            if rf_eq0(rf_add(a, b, -1)): return RF({((i, 1),): Fraction(1)}, {})
        except TooBig: pass
    i = atom("sqrt", len(_sqrts), a)
    _sqrts.append((i, a))
    return RF({((i, 1),): Fraction(1)}, {})
def fn_atom(name, args, node):
    l = _fns.setdefault(name, [])
    for i, b in l:
        try:
            if len(b) == len(args) and all(rf_eq0(rf_add(x, y, -1)) for x, y in zip(args, b)):
                return RF({((i, 1),): Fraction(1)}, {})
        except TooBig: pass
    i = atom("fn", (name, len(l)), (name, args, node))
    l.append((i, args))
    return RF({((i, 1),): Fraction(1)}, {})

# ------------------------------------------------------------------ z3
_z3atom = {}
def z3atom(i):
    v = _z3atom.get(i)
    if v is None:
        k = ATOMS[i]
        nm = k[1] if k[0] == "var" else "%s!%s" % (k[0], i)
        v = z3.Real(nm); _z3atom[i] = v
    return v
_z3poly = {}
def z3num(c):
    return z3.Q(c.numerator, c.denominator) if c.denominator != 1 else z3.RealVal(c.numerator)
def z3poly(p):
    k = pkey(p)
    e = _z3poly.get(k)
    if e is not None: return e
    ts = []
    for m, c in p.items():
        fs = []
        for a, x in m:
            fs.extend([z3atom(a)] * x)
        if not fs: ts.append(z3num(c)); continue
        t = fs[0]
        for f in fs[1:]: t = t * f
        if c != 1: t = z3num(c) * t
        ts.append(t)
    e = z3.Sum(ts) if len(ts) > 1 else (ts[0] if ts else z3.RealVal(0))
    if len(_z3poly) < 200000: _z3poly[k] = e
    return e
def patoms(p, acc):
    for m in p:
        for a, _ in m: acc.add(a)
def pdeg(p): return max((sum(e for _, e in m) for m in p), default=0)

# A condition: (rel, T) meaning T rel 0, rel in '<','<=','==','!=' ; or ('or',[conds]) / ('and',[conds]) / True/False
NEGREL = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}
def cond(rel, a, b):
    """comparison of two values -> bool or condition"""
    if not isinstance(a, T) and not isinstance(b, T):
        if isinstance(a, float) or isinstance(b, float): a = _ff(a) if not isinstance(a, float) else a; b = float(b) if not isinstance(b, float) else b
        return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[rel]
    if isspecial(a) or isspecial(b):
        s = a if isspecial(a) else b
        if s != s: return rel == "!="
        big = (s > 0)
        if isspecial(b):  # a finite, b = +-inf
            return {"<": big, "<=": big, ">": not big, ">=": not big, "==": False, "!=": True}[rel]
        return {"<": not big, "<=": not big, ">": big, ">=": big, "==": False, "!=": True}[rel]
    d = sub(a, b)
    if not isinstance(d, T): return cond(rel, d, Fraction(0))
    try:
        r = nf(d)
        if not r.n: return {"<": False, "<=": True, ">": False, ">=": True, "==": True, "!=": False}[rel]
        if not r.d and len(r.n) == 1 and () in r.n:
            return cond(rel, r.n[()], Fraction(0))
    except TooBig: pass
    return (rel, d)
def cnot(c):
    if c is True: return False
    if c is False: return True
    if c[0] == "or": return ("and", [cnot(x) for x in c[1]])
    if c[0] == "and": return ("or", [cnot(x) for x in c[1]])
    return (NEGREL[c[0]], c[1])
def cand(a, b):
    if a is True: return b
    if b is True: return a
    if a is False or b is False: return False
    return ("and", [a, b])
def cor(a, b):
    if a is False: return b
    if b is False: return a
    if a is True or b is True: return True
    return ("or", [a, b])

TRC = {}     # translated atomic conditions
class Q:
    """translation of a list of conditions into z3 constraints"""
    def __init__(self):
        self.cs = []; self.atoms = set(); self.dens = {}; self.nonlin = False; self.fallback = False
    def addc(self, c): self.cs.append(self.tr(c))
    def tr(self, c):
        if c is True: return z3.BoolVal(True)
        if c is False: return z3.BoolVal(False)
        if c[0] == "or": return z3.Or([self.tr(x) for x in c[1]])
        if c[0] == "and": return z3.And([self.tr(x) for x in c[1]])
        rel, t = c
        key = (rel, t.id); h = TRC.get(key)
        if h is not None:
            self.atoms |= h[1]; self.dens.update(h[2]); self.nonlin |= h[3]
            return h[0]
        try:
            r = nf(t)
        except TooBig:
            self.fallback = True
            e = self.dag(t)
            z = z3.RealVal(0)
            return {"<": e < z, "<=": e <= z, ">": e > z, ">=": e >= z, "==": e == z, "!=": e != z}[rel]
        at = set(); de = {}
        e = z3poly(r.n); patoms(r.n, at)
        nl = pdeg(r.n) > 1
        for k, (p, x) in r.d.items():
            de[k] = p
            patoms(p, at)
            nl = True
            if rel not in ("==", "!=") and x % 2 == 1: e = e * z3poly(p)
        self.atoms |= at; self.dens.update(de)
        if nl: self.nonlin = True
        z = z3.RealVal(0)
        e = e < z if rel == "<" else e <= z if rel == "<=" else e > z if rel == ">" else e >= z if rel == ">=" else e == z if rel == "==" else e != z
        if len(TRC) > 50000: TRC.clear()
        TRC[key] = (e, at, de, nl)
        return e
    def dag(self, t):
        if not isinstance(t, T): return z3num(Fraction(lift(t)))
        st = [t]; memo = {}
        while st:
            u = st[-1]
            if u.id in memo: st.pop(); continue
            todo = [a for a in u.args if isinstance(a, T) and a.id not in memo]
            if todo: st.extend(todo); continue
            A = [memo[a.id] if isinstance(a, T) else (a if isinstance(a, str) else z3num(Fraction(a))) for a in u.args]
            op = u.op; self.nonlin = True
            if op == "add": e = A[0] + A[1]
            elif op == "sub": e = A[0] - A[1]
            elif op == "neg": e = -A[0]
            elif op == "mul": e = A[0] * A[1]
            elif op == "div":
                q = z3.Real("quot!%d" % u.id); self.cs.append(q * A[1] == A[0]); self.cs.append(A[1] != 0); e = q
            elif op == "sqrt":
                q = z3.Real("sq!%d" % u.id); self.cs.append(q*q == A[0]); self.cs.append(q >= 0); e = q
            else:
                r = nf(u); patoms(r.n, self.atoms); e = z3poly(r.n)
            memo[u.id] = e; st.pop()
        return memo[t.id]
    def close(self):
        done = set(); out = list(self.cs); dd = set()
        while True:
            todo = [a for a in self.atoms if a not in done]
            ks = [k for k in self.dens if k not in dd]
            if not todo and not ks: break
            for k in ks:
                dd.add(k); out.append(z3poly(self.dens[k]) != 0)
                if pdeg(self.dens[k]) > 1: self.nonlin = True
            for a in todo:
                done.add(a)
                if ATOMS[a][0] == "sqrt":
                    r = ATOMS[a][2]; self.nonlin = True
                    s = z3atom(a)
                    n = z3poly(r.n); patoms(r.n, self.atoms)
                    d = z3poly(den_poly(r.d)) if r.d else None
                    for k, (p, x) in r.d.items():
                        self.dens[k] = p; patoms(p, self.atoms)
                    out.append(s*s*d == n if d is not None else s*s == n)
                    out.append(s >= 0)
                elif ATOMS[a][0] == "fn":
                    pass
        for ax in AXIOMS: out.extend(ax([a for a in done if ATOMS[a][0] == "fn"], self))
        return out
AXIOMS = []

STATS = {"queries": 0, "unsat": 0, "sat": 0, "unknown": 0, "time": 0.0, "trivial": 0}

# z3 occasionally crashes while releasing an nlsat solver; a crashed worker is run again keeping all solvers alive
LEAK = [] if os.environ.get("RS_Z3LEAK") else None
def solve(conds, timeout_ms=10000, want_model=False):
    """returns ('sat',model)|('unsat',None)|('unknown',None)"""
    cs = []
    for c in conds:
        if c is False: STATS["trivial"] += 1; return "unsat", None
        if c is not True: cs.append(c)
    q = Q(); seen = set()
    for c in cs:
        if c[0] not in ("or", "and"):
            k = (c[0], c[1].id)
            if k in seen: continue
            seen.add(k)
        q.addc(c)
    out = q.close()
    t0 = time.time()
    STATS["queries"] += 1
    tries = []
    if q.nonlin:
        tries = [("nlsat", 0.7), ("smt", 0.3)]
    else:
        tries = [("smt", 1.0)]
    res = "unknown"; model = None
    for kind, frac in tries:
        if kind == "nlsat": s = z3.Tactic("qfnra-nlsat").solver() if not q.fallback else z3.SolverFor("QF_NRA")
        else: s = z3.Solver()
        if LEAK is not None: LEAK.append(s)
        s.set("timeout", int(max(200, timeout_ms*frac)))
        s.add(out)
        try: r = s.check()
        except z3.Z3Exception: r = z3.unknown
        if r == z3.unsat: res = "unsat"; break
        if r == z3.sat:
            res = "sat"
            try: model = s.model()
            except z3.Z3Exception: model = None
            break
    STATS["time"] += time.time() - t0
    STATS[res] += 1
    return res, model

class QA(Q):
    """raw-DAG translation: shared subterms stay variables; level 0 leaves non-linear nodes unconstrained, level 1 defines them"""
    def __init__(self, level): Q.__init__(self); self.level = level; self.memo = {}
    def tr(self, c):
        if c is True: return z3.BoolVal(True)
        if c is False: return z3.BoolVal(False)
        if c[0] == "or": return z3.Or([self.tr(x) for x in c[1]])
        if c[0] == "and": return z3.And([self.tr(x) for x in c[1]])
        rel, t = c; z = z3.RealVal(0)
        if t.op == "sub":
            e, z = self.dag(t.args[0]), self.dag(t.args[1])
        else: e = self.dag(t)
        return {"<": e < z, "<=": e <= z, ">": e > z, ">=": e >= z, "==": e == z, "!=": e != z}[rel]
    def dag(self, t):
        if not isinstance(t, T): return z3num(Fraction(lift(t)))
        st = [t]; memo = self.memo
        while st:
            u = st[-1]
            if u.id in memo: st.pop(); continue
            todo = [a for a in u.args if isinstance(a, T) and a.id not in memo]
            if todo: st.extend(todo); continue
            A = [memo[a.id] if isinstance(a, T) else (a if isinstance(a, str) else z3num(Fraction(lift(a)))) for a in u.args]
            op = u.op
            if op == "var": e = z3.Real(u.args[0])
            elif op == "add": e = A[0] + A[1]
            elif op == "sub": e = A[0] - A[1]
            elif op == "neg": e = -A[0]
            elif op == "mul" and (not isinstance(u.args[0], T) or not isinstance(u.args[1], T)): e = A[0] * A[1]
            elif op == "mul":
                e = z3.Real("node!%d" % u.id)
                if self.level: self.cs.append(e == A[0] * A[1])
            elif op == "div":
                e = z3.Real("node!%d" % u.id)
                if self.level: self.cs.append(e * A[1] == A[0]); self.cs.append(A[1] != 0)
            elif op == "sqrt":
                e = z3.Real("node!%d" % u.id); self.cs.append(e >= 0)
                if self.level: self.cs.append(e * e == A[0])
            else: e = z3.Real("node!%d" % u.id)
            memo[u.id] = e; st.pop()
        return memo[t.id]
def refute(conds, timeout_ms):
    """try to show the conditions unsatisfiable on the raw DAG (sound: every abstraction only adds models)"""
    for level, ms in ((0, min(1000, timeout_ms)), (1, timeout_ms)):
        q = QA(level)
        for c in conds:
            if c is False: return True
            if c is not True: q.addc(c)
        for kind in (("smt",) if level == 0 else ("smt", "nlsat")):
            s = z3.Tactic("qfnra-nlsat").solver() if kind == "nlsat" else z3.Solver()
            s.set("timeout", int(ms)); s.add(q.cs); t0 = time.time(); STATS["queries"] += 1
            try: r = s.check()
            except z3.Z3Exception: r = z3.unknown
            STATS["time"] += time.time() - t0
            if r == z3.unsat: STATS["unsat"] += 1; return True
    return False

def confirm_identities(pairs, ms=3000):
    """z3's verdict on polynomial identities, from the unreduced expressions: (number confirmed, message of a refuted one)"""
    memo = {}; size = [0]
    class Skip(Exception): pass
    def conv(t):
        if not isinstance(t, T): return z3num(Fraction(lift(t)))
        st = [t]
        while st:
            u = st[-1]
            if u.id in memo:
                if memo[u.id] is None: raise Skip()
                st.pop(); continue
            todo = [a for a in u.args if isinstance(a, T) and a.id not in memo]
            if todo: st.extend(todo); continue
            A = [memo[a.id] if isinstance(a, T) else (a if isinstance(a, str) else z3num(Fraction(lift(a)))) for a in u.args]
            if any(a is None for a in A) or u.op not in ("var", "add", "sub", "neg", "mul"): memo[u.id] = None; continue
            op = u.op
            memo[u.id] = z3.Real(u.args[0]) if op == "var" else A[0] + A[1] if op == "add" else A[0] - A[1] if op == "sub" else -A[0] if op == "neg" else A[0] * A[1]
            st.pop()
        return memo[t.id]
    alts = []; src = []
    for x, y, msg in pairs:
        try: alts.append(conv(x) != conv(y)); src.append(msg)
        except Skip: pass
    if not alts: return 0, None
    s = z3.Then(z3.With("simplify", som=True, arith_lhs=True), "smt").solver()
    if LEAK is not None: LEAK.append(s)
    s.set("timeout", ms); s.add(z3.Or(alts)); t0 = time.time(); STATS["queries"] += 1
    try: r = s.check()
    except z3.Z3Exception: r = z3.unknown
    STATS["time"] += time.time() - t0; STATS[str(r) if r != z3.unknown else "unknown"] += 1
    if r == z3.unsat: return len(alts), None
    if r == z3.sat:
        m = s.model()
        for a, g in zip(alts, src):
            if z3.is_true(m.eval(a, model_completion=True)): return 0, g
        return 0, src[0]
    return 0, None
def mval(model, t):
    """numeric value of a var in a model -> Fraction approx"""
    v = model.eval(z3.Real(t.args[0]), model_completion=True)
    return z3val(v)
def z3val(v):
    if z3.is_algebraic_value(v):
        v = v.approx(30)
    if z3.is_rational_value(v): return Fraction(v.numerator_as_long(), v.denominator_as_long())
    return Fraction(0)

def evalf(t, env, memo=None):
    """float evaluation of a term under {varname: float}; returns None if undefined"""
    if memo is None: memo = {}
    if not isinstance(t, T): return float(t)
    st = [t]
    while st:
        u = st[-1]
        if u.id in memo: st.pop(); continue
        todo = [a for a in u.args if isinstance(a, T) and a.id not in memo]
        if todo: st.extend(todo); continue
        A = [memo[a.id] if isinstance(a, T) else (a if isinstance(a, str) else float(a)) for a in u.args]
        op = u.op
        try:
            if op == "var": v = env.get(u.args[0])
            elif any(x is None for x in A): v = None
            elif op == "add": v = A[0] + A[1]
            elif op == "sub": v = A[0] - A[1]
            elif op == "neg": v = -A[0]
            elif op == "mul": v = A[0] * A[1]
            elif op == "div": v = A[0] / A[1]
            elif op == "sqrt": v = math.sqrt(A[0])
            elif op == "log": v = math.log(A[0])
            elif op == "floor": v = math.floor(A[0])
            elif op == "uf": v = UFNUM[A[0]](A[1]) if A[0] in UFNUM else None
            else: v = None
        except (ValueError, ZeroDivisionError, OverflowError): v = None
        memo[u.id] = v; st.pop()
    return memo[t.id]
def omega(z):
    if z < 0: return -1.0
    w = max(1e-9, z - math.log(z) if z > 1.5 else math.exp(z - 1) / (1 + 0.2*math.exp(z - 1)))
    for _ in range(60):
        w = max(w - (w + math.log(w) - z) / (1 + 1/w), w * 0.1)
    return w
UFNUM = {"omega": omega, "mx": lambda a: 1 + abs(a)}
def transcendental(conds):
    """do the conditions contain functions the solver treats as uninterpreted?"""
    seen = set(); st = []
    def tops(c):
        if c is True or c is False: return
        if c[0] in ("or", "and"):
            for x in c[1]: tops(x)
        elif isinstance(c[1], T): st.append(c[1])
    for c in conds: tops(c)
    while st:
        u = st.pop()
        if u.id in seen: continue
        seen.add(u.id)
        if u.op in ("log", "uf", "floor"): return True
        st.extend(a for a in u.args if isinstance(a, T))
    return False
def defect(c, env, memo):
    """0 when the condition holds clearly, otherwise a positive measure"""
    if c is True: return 0.0
    if c is False: return 1.0
    if c[0] == "or": return min(defect(x, env, memo) for x in c[1])
    if c[0] == "and": return max(defect(x, env, memo) for x in c[1])
    v = evalf(c[1], env, memo)
    if v is None or v != v: return 1e6
    r = c[0]
    if r == "==": return 0.0 if abs(v) < 1e-10 else abs(v)
    if r == "!=": return 0.0 if abs(v) > 1e-9 else 1.0
    if r in ("<", "<="): v = -v
    return 0.0 if v > 1e-9 else 1e-3 - v
def witness(conds, names, start, rnd, seconds, zeros=()):
    """search real numbers satisfying all conditions numerically (used only to make a counterexample concrete)"""
    import time
    t0 = time.time(); best = None
    cvars = []
    for c in conds:
        vs = set()
        def g(c):
            if c is True or c is False: return
            if c[0] in ("or", "and"):
                for x in c[1]: g(x)
            elif isinstance(c[1], T): vs.update(v.args[0] for v in c[1].vars)
        g(c); cvars.append([v for v in vs if v in names])
    round_ = 0
    while time.time() - t0 < seconds:
        env = {}
        for n in names:
            if round_ == 0 and start: env[n] = start.get(n, 1.0)
            elif start and rnd.random() < 0.4: env[n] = start.get(n, 1.0)
            else: env[n] = rnd.choice([-1, 1]) * 2 ** rnd.uniform(-3, 3)
        D = [defect(c, env, m) for m in [{}] for c in conds]
        for it in range(400):
            bad = [i for i, d in enumerate(D) if d > 0]
            if not bad: return env
            if time.time() - t0 > seconds: break
            i = rnd.choice(bad)
            if not cvars[i]: break
            n = rnd.choice(cvars[i]); old = env[n]; bc = None
            for k in range(6):
                if k == 0: nv = -old
                elif k == 1 and conds[i][0] == "==":   # secant step
                    h = 1e-5 * (1 + abs(old)); f0 = evalf(conds[i][1], env, {}); env[n] = old + h; f1 = evalf(conds[i][1], env, {})
                    env[n] = old
                    if f0 is None or f1 is None or f1 == f0: continue
                    nv = old - f0 * h / (f1 - f0)
                elif k < 4: nv = old * 2 ** rnd.uniform(-2, 2)
                else: nv = rnd.choice([-1, 1]) * 2 ** rnd.uniform(-4, 4)
                env[n] = nv; m = {}
                D2 = [defect(c, env, m) for c in conds]
                sc = (sum(1 for d in D2 if d > 0), sum(min(d, 1e3) for d in D2))
                if bc is None or sc < bc[0]: bc = (sc, nv, D2)
            cur = (len(bad), sum(min(d, 1e3) for d in D))
            if bc and (bc[0] <= cur or rnd.random() < 0.05): env[n] = bc[1]; D = bc[2]
            else: env[n] = old
        round_ += 1
    return None
def evalc(c, env, memo):
    """evaluate a condition numerically: True/False/None(undecided or too close)"""
    if c is True or c is False: return c
    if c[0] == "or":
        rs = [evalc(x, env, memo) for x in c[1]]
        if True in rs: return True
        return None if None in rs else False
    if c[0] == "and":
        rs = [evalc(x, env, memo) for x in c[1]]
        if False in rs: return False
        return None if None in rs else True
    v = evalf(c[1], env, memo)
    if v is None or v != v: return None
    rel = c[0]
    if abs(v) < 1e-9: return None
    return {"<": v < 0, "<=": v < 0, ">": v > 0, ">=": v > 0, "==": False, "!=": True}[rel]

def diff(t, v, rules=None):
    """symbolic derivative of a term with respect to variable v"""
    memo = {}
    if not isinstance(t, T): return Fraction(0)
    st = [t]
    while st:
        u = st[-1]
        if u.id in memo: st.pop(); continue
        if v not in u.vars: memo[u.id] = Fraction(0); st.pop(); continue
        todo = [a for a in u.args if isinstance(a, T) and a.id not in memo]
        if todo: st.extend(todo); continue
        D = [memo[a.id] if isinstance(a, T) else Fraction(0) for a in u.args]
        A = u.args; op = u.op
        if op == "var": r = Fraction(1) if u is v else Fraction(0)
        elif op == "add": r = add(D[0], D[1])
        elif op == "sub": r = sub(D[0], D[1])
        elif op == "neg": r = neg(D[0])
        elif op == "mul": r = add(mul(D[0], A[1]), mul(A[0], D[1]))
        elif op == "div": r = div(sub(mul(D[0], A[1]), mul(A[0], D[1])), mul(A[1], A[1]))
        elif op == "sqrt": r = div(D[0], mul(Fraction(2), u))
        elif op == "log": r = div(D[0], A[0])
        elif op == "uf" and rules and u.args[0] in rules: r = mul(rules[u.args[0]](u), D[1])
        else: raise Exception("diff " + op)
        memo[u.id] = r; st.pop()
    return memo[t.id]
