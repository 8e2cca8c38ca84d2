"""Parser for the textual LLVM IR (clang 18, opaque pointers) subset that the C sources need."""
import re, struct

class Ty:
    __slots__ = ("k", "n", "el", "size", "align", "offs")
    def __init__(self, k, n=0, el=None): self.k = k; self.n = n; self.el = el; self.size = None
TYC = {}
class Module:
    def __init__(self, name): self.name = name; self.types = {}; self.globals = {}; self.funcs = {}; self.decls = set()
class Func:
    def __init__(self, name, mod): self.name = name; self.mod = mod; self.params = []; self.blocks = []; self.internal = False; self.src = mod.name

TOK = re.compile(r'''\s*(?:(c"(?:[^"\\]|\\.)*")|([%@]"(?:[^"\\]|\\.)*")|([%@][-\w$.]+)|("(?:[^"\\]|\\.)*")|(0x[KLMHR]?[0-9A-Fa-f]+)|(-?\d+\.\d+(?:e[+-]?\d+)?)|(-?\d+)|([A-Za-z_$.][\w$.]*)|(\.\.\.)|(![\w.]*)|(#\d+)|(.))''')
def tokenize(s):
    out = []
    for m in TOK.finditer(s):
        t = m.group(0).strip()
        if t: out.append(t)
    return out

class P:
    def __init__(self, mod, toks): self.m = mod; self.t = toks; self.i = 0
    def peek(self): return self.t[self.i] if self.i < len(self.t) else None
    def next(self): x = self.t[self.i]; self.i += 1; return x
    def eat(self, x):
        if self.peek() == x: self.i += 1; return True
        return False
    def expect(self, x):
        y = self.next()
        if y != x: raise SyntaxError("expected %s got %s in %s" % (x, y, " ".join(self.t)))
    def type(self):
        t = self.next()
        if t == "ptr": r = Ty("p")
        elif t == "double": r = Ty("f", 64)
        elif t == "float": r = Ty("f", 32)
        elif t == "void": r = Ty("v")
        elif t == "x86_fp80": r = Ty("f", 80)
        elif re.fullmatch(r"i\d+", t): r = Ty("i", int(t[1:]))
        elif t == "[":
            n = int(self.next()); self.expect("x"); el = self.type(); self.expect("]"); r = Ty("a", n, el)
        elif t == "<":
            if self.peek() == "{":
                self.next(); els = []
                while not self.eat("}"):
                    els.append(self.type()); self.eat(",")
                self.expect(">"); r = Ty("s", 1, els)
            else:
                n = int(self.next()); self.expect("x"); el = self.type(); self.expect(">"); r = Ty("vec", n, el)
        elif t == "{":
            els = []
            while not self.eat("}"):
                els.append(self.type()); self.eat(",")
            r = Ty("s", 0, els)
        elif t[0] == "%": r = self.m.types.get(t)
        elif t == "metadata": r = Ty("md")
        elif t == "label": r = Ty("label")
        else: raise SyntaxError("type " + t + " in " + " ".join(self.t))
        if r is None: raise SyntaxError("unknown type " + t)
        # function type e.g. "i32 (ptr, ...)"
        if self.peek() == "(" and r.k != "label":
            d = 0; save = self.i
            while True:
                x = self.next()
                if x == "(": d += 1
                elif x == ")":
                    d -= 1
                    if d == 0: break
            if self.peek() and self.peek()[0] in "@%" or self.peek() == "asm": return Ty("fn", 0, r)
            self.i = save
        return r
    ATTRS = {"noundef","nocapture","readonly","writeonly","nonnull","noalias","signext","zeroext","returned","immarg","nofree","readnone","inreg","nest","swiftself","noinline","dso_local","writable","dead_on_unwind"}
    def attrs(self):
        while True:
            t = self.peek()
            if t in self.ATTRS: self.next()
            elif t in ("align", ):
                self.next(); self.next()
            elif t in ("dereferenceable", "dereferenceable_or_null", "sret", "byval", "elementtype", "range", "memory", "captures"):
                self.next(); self.skipparen()
            else: return
    def skipparen(self):
        d = 0
        while True:
            x = self.next()
            if x == "(": d += 1
            elif x == ")":
                d -= 1
                if d == 0: return
    def value(self, ty):
        """returns ('r',name) or ('c',const)"""
        t = self.next()
        if t[0] == "%": return ("r", t)
        if t[0] == "@": return ("g", t[1:].strip('"'))
        if t == "null": return ("n",)
        if t in ("true", "false"): return ("k", 1 if t == "true" else 0)
        if t in ("undef", "poison"): return ("u",)
        if t == "zeroinitializer": return ("z",)
        if t == "getelementptr":
            self.eat("inbounds"); 
            while self.peek() in ("nuw", "nusw"): self.next()
            self.expect("("); bt = self.type(); self.expect(","); self.type(); b = self.value(Ty("p")); idx = []
            while self.eat(","):
                it = self.type(); idx.append(self.value(it))
            self.expect(")")
            return ("gep", bt, b, idx)
        if t in ("ptrtoint", "inttoptr", "bitcast"):
            self.expect("("); st = self.type(); v = self.value(st); self.expect("to"); self.type(); self.expect(")")
            return v
        if t[0] == "c" and t[1:2] == '"': return ("str", cstr(t[1:]))
        if t == "[" or t == "{" or t == "<":
            close = {"[": "]", "{": "}", "<": ">"}[t]
            if t == "<" and self.peek() == "{":
                self.next(); close = "}"; packed = True
            else: packed = False
            els = []
            while not self.eat(close):
                et = self.type(); els.append((et, self.value(et))); self.eat(",")
            if packed: self.expect(">")
            return ("agg", els)
        if ty.k == "f":
            if t.startswith("0x"):
                return ("k", struct.unpack(">d", struct.pack(">Q", int(t[2:], 16)))[0])
            return ("k", float(t))
        return ("k", int(t))

def cstr(s):
    s = s[1:-1]; out = bytearray(); i = 0
    while i < len(s):
        if s[i] == "\\":
            if s[i+1] == "\\": out.append(92); i += 2; continue
            out.append(int(s[i+1:i+3], 16)); i += 3
        else: out.append(ord(s[i])); i += 1
    return bytes(out)

def layout(t):
    if t.size is not None: return t.size
    if t.k == "p": t.size = 8; t.align = 8
    elif t.k == "f": t.size = {64: 8, 32: 4, 80: 16}[t.n]; t.align = t.size
    elif t.k == "i":
        s = max(1, (t.n+7)//8); p = 1
        while p < s: p *= 2
        t.size = p; t.align = min(p, 16)
    elif t.k in ("a", "vec"): t.size = layout(t.el)*t.n; t.align = t.el.align
    elif t.k == "s":
        o = 0; al = 1; t.offs = []
        for e in t.el:
            layout(e); a = 1 if t.n else e.align
            o = (o + a - 1)//a*a; t.offs.append(o); o += e.size; al = max(al, a)
        t.size = (o + al - 1)//al*al; t.align = al
    else: t.size = 0; t.align = 1
    return t.size

def parse(text, name):
    m = Module(name)
    lines = text.split("\n")
    # types first (may be mutually recursive only through ptr)
    pend = []
    for l in lines:
        if l.startswith("%") and " = type " in l:
            nm, rest = l.split(" = type ", 1); pend.append((nm.strip(), rest))
    for _ in range(len(pend)+1):
        left = []
        for nm, rest in pend:
            if rest.strip() == "opaque": m.types[nm] = Ty("s", 0, []); continue
            try: m.types[nm] = P(m, tokenize(rest)).type()
            except SyntaxError: left.append((nm, rest))
        pend = left
        if not pend: break
    i = 0
    while i < len(lines):
        l = lines[i]
        if l.startswith("@"):
            toks = tokenize(re.sub(r', !dbg.*$', '', l)); p = P(m, toks)
            nm = p.next()[1:].strip('"'); p.expect("=")
            ext = False; internal = False
            while p.peek() not in ("global", "constant"):
                x = p.next()
                if x in ("external",): ext = True
                if x in ("internal", "private"): internal = True
                if p.peek() == "(": p.skipparen()
                if p.peek() is None: break
            if p.peek() is None: i += 1; continue
            const = p.next() == "constant"
            ty = p.type()
            init = None
            if not ext: init = p.value(ty)
            m.globals[nm] = (ty, init, internal, const)
        elif l.startswith("define"):
            f, i = parse_func(m, lines, i)
            m.funcs[f.name] = f
        elif l.startswith("declare"):
            mm = re.search(r"@([\w$.]+)", l)
            if mm: m.decls.add(mm.group(1))
        i += 1
    return m

def parse_func(m, lines, i):
    head = lines[i]
    toks = tokenize(head[len("define"):]); p = P(m, toks)
    internal = False
    while True:
        t = p.peek()
        if t in ("internal", "private"): internal = True; p.next()
        elif t in ("dso_local", "linkonce_odr", "weak", "hidden", "available_externally", "local_unnamed_addr", "linkonce"): p.next()
        else: break
    p.attrs(); rt = p.type()
    nm = p.next()[1:].strip('"')
    f = Func(nm, m); f.internal = internal; f.rt = rt
    p.expect("(")
    while not p.eat(")"):
        if p.eat("..."): continue
        t = p.type(); p.attrs()
        a = None
        if p.peek() and p.peek()[0] == "%": a = p.next()
        f.params.append((t, a)); p.eat(",")
    i += 1
    n = 0
    if f.params and f.params[0][1] is None: raise SyntaxError("unnamed params")
    # entry label: number after params if unnamed
    cur = None; blocks = []
    while not lines[i].startswith("}"):
        l = lines[i]
        if not l.strip() or l.lstrip().startswith(";"): i += 1; continue
        mm = re.match(r'^("?[-\w$.]+"?):', l)
        if mm:
            cur = ("%" + mm.group(1), []); blocks.append(cur)
        else:
            if cur is None: cur = ("%<entry>", []); blocks.append(cur)
            s = l
            # multi-line switch / call
            if s.strip().startswith("switch") or (" switch " in s):
                while "]" not in s:
                    i += 1; s += " " + lines[i]
            s = re.sub(r', ![\w.]+ ![\d]+', '', s); s = re.sub(r' ![\w.]+ ![\d]+', '', s)
            cur[1].append(s)
        i += 1
    f.blocks = blocks
    return f, i
