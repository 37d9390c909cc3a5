"""Abstract interpreter over the value graph domain (see terms.py).

Control flow joins are merged with gamma nodes (if-conversion); exits (return, raise, break, continue)
are collected with the condition under which they are taken.  Nothing of the analysed program is executed."""
import ast, os, builtins as _bi
from fractions import Fraction
from . import terms as T
from .terms import (N, B, G, X, S, Ref, MISSING, Unsupported, num, ZERO, ONE, sym, gamma, bnot, band, bor, opaque,
                    sconcat, isbool, tonum)

class Dead(Exception):
    """no normal continuation: all paths left through recorded exits"""

class AnchorMissing(Exception):
    pass

class Module:
    def __init__(self, name, path, tree, ispkg):
        self.name = name; self.path = path; self.tree = tree; self.ispkg = ispkg
        self.envid = None; self.loaded = False; self.doc = None
    def __repr__(self): return "<module %s>" % self.name

class Ext:
    """external module or attribute of one"""
    __slots__ = ("name",)
    tab = {}
    def __new__(cls, name):
        e = cls.tab.get(name)
        if e is None:
            e = object.__new__(cls); e.name = name; cls.tab[name] = e
        return e
    def __repr__(self): return "<ext %s>" % self.name

class Func:
    def __init__(self, node, module, closure, defaults, kwdefaults, qualname, cls=None):
        self.node = node; self.module = module; self.closure = closure
        self.defaults = defaults; self.kwdefaults = kwdefaults; self.qualname = qualname; self.cls = cls
        self.isgen = None; self.scope = None; self.attrs = {}
    def __repr__(self): return "<function %s.%s>" % (self.module.name, self.qualname)

class ClassV:
    def __init__(self, name, module, bases, envid, node=None, qualname=None):
        self.name = name; self.module = module; self.bases = bases; self.envid = envid; self.node = node
        self.qualname = qualname or name
        self._mro = None
        self.native = None
    def mro(self):
        if self._mro is None:
            def merge(seqs):
                res = []
                seqs = [list(s) for s in seqs if s]
                while seqs:
                    for s in seqs:
                        c = s[0]
                        if not any(c in t[1:] for t in seqs): break
                    else: raise Unsupported("inconsistent mro")
                    res.append(c)
                    seqs = [[x for x in t if x is not c] for t in seqs]
                    seqs = [t for t in seqs if t]
                return res
            bs = [b for b in self.bases if isinstance(b, ClassV)]
            self._mro = [self] + merge([b.mro() for b in bs] + [bs])
        return self._mro
    @property
    def fullname(self):
        return (self.module.name + "." if self.module else "") + self.qualname
    def __repr__(self): return "<class %s>" % self.fullname

class Bound:
    __slots__ = ("self", "func")
    def __init__(self, s, f): self.self = s; self.func = f
    def __eq__(self, o): return isinstance(o, Bound) and o.self == self.self and o.func is self.func
    def __hash__(self): return hash(("bound", self.self, id(self.func)))
    def __repr__(self): return "<bound %r>" % self.func

class Builtin:
    __slots__ = ("name",)
    tab = {}
    def __new__(cls, name):
        e = cls.tab.get(name)
        if e is None:
            e = object.__new__(cls); e.name = name; cls.tab[name] = e
        return e
    def __repr__(self): return "<builtin %s>" % self.name

class Method:
    """bound builtin method"""
    __slots__ = ("obj", "name")
    def __init__(self, obj, name): self.obj = obj; self.name = name
    def __eq__(self, o): return isinstance(o, Method) and self.name == o.name and self.obj == o.obj
    def __hash__(self): return hash((self.name, self.obj))
    def __repr__(self): return "<method %s of %r>" % (self.name, self.obj)

class Wrap:
    """staticmethod/classmethod/property"""
    __slots__ = ("kind", "f", "setter")
    def __init__(self, kind, f, setter=None): self.kind = kind; self.f = f; self.setter = setter
    def __repr__(self): return "<%s %r>" % (self.kind, self.f)

class SuperV:
    def __init__(self, cls, obj): self.cls = cls; self.obj = obj

class InstDict:
    def __init__(self, ref): self.ref = ref

class PatV:
    """compiled regular expression (constant pattern)"""
    __slots__ = ("p",)
    def __init__(self, p): self.p = p
    def __eq__(self, o): return isinstance(o, PatV) and o.p == self.p
    def __hash__(self): return hash(("pat", self.p))
    def __repr__(self): return "<pattern %r>" % self.p.pattern

class MatchV:
    """match of a constant text"""
    __slots__ = ("m",)
    def __init__(self, m): self.m = m
    def k(self): return (self.m.re, self.m.string, self.m.span())
    def __eq__(self, o): return isinstance(o, MatchV) and o.k() == self.k()
    def __hash__(self): return hash(self.k())
    def __repr__(self): return "<match %r>" % (self.m.group(0),)

class NotImpl:
    def __repr__(self): return "NotImplemented"
NOTIMPL = NotImpl()

# cells ---------------------------------------------------------------------
class Inst:
    __slots__ = ("cls", "f")
    def __init__(self, cls, f): self.cls = cls; self.f = f

class Seq:
    """list / set-like content"""
    __slots__ = ("c",)
    def __init__(self, c): self.c = c

class GCell:
    __slots__ = ("c", "a", "b")
    def __init__(self, c, a, b): self.c = c; self.a = a; self.b = b

class DictC:
    __slots__ = ("d",)
    def __init__(self, d): self.d = d

class SetC:
    __slots__ = ("d",)
    def __init__(self, d): self.d = d

class Env:
    __slots__ = ("d",)
    def __init__(self, d): self.d = d

# library classes with a model in sa/models
MODELLED = {"xml.sax.saxutils." + n: "saxutils" for n in ("XMLGenerator", "escape", "quoteattr")}
MODELLED.update({"hashlib." + n: "hashes" for n in ("sha1", "md5", "sha224", "sha256", "sha384", "sha512")})

# results which differ from run to run
VARYING = ("random.", "uuid.", "secrets.", "os.getpid", "os.urandom", "os.getppid", "time.", "datetime.", "tempfile.", "threading.get_ident", "os.listdir", "glob.", "os.scandir", "os.walk", "os.stat", "os.path.getmtime")

VARYINGNUMBERS = ("random.rand", "random.uniform", "random.getrandbits", "os.getpid", "os.getppid", "time.time", "time.monotonic", "time.perf_counter", "threading.get_ident", "os.path.getmtime")

def textdiffers(a, b):
    "texts which cannot be equal as they differ next to what they have in common at the begin or end"
    if isinstance(a, S) and isinstance(b, S) and a.byt != b.byt: return True
    pa, pb = [[c for p in (v.parts if isinstance(v, S) else (v,)) for c in (p if isinstance(p, (str, bytes)) else (p,))] for v in (a, b)]
    while pa and pb and pa[0] == pb[0]: del pa[0], pb[0]
    while pa and pb and pa[-1] == pb[-1]: del pa[-1], pb[-1]
    definite = lambda l: any(isinstance(c, (str, int)) for c in l)
    if len(pa) == len(pb) == 1 and all(isinstance(c, tuple) and c[0] == "fmt" and isinstance(c[2], N) and T.identity(c[2]) is not None for c in (pa[0], pb[0])): return True
    if not pa: return definite(pb)
    if not pb: return definite(pa)
    return any(isinstance(pa[i], (str, int)) and isinstance(pb[i], (str, int)) for i in (0, -1))

class FileC:
    __slots__ = ("s", "pos", "flags")
    def __init__(self, s, pos=0, flags=None): self.s = s; self.pos = pos; self.flags = flags or {}

class IterC:
    __slots__ = ("items", "pos")
    def __init__(self, items, pos=0): self.items = items; self.pos = pos

def merge_cell(c, a, b):
    if a is b: return a
    if a is None: return b
    if b is None: return a
    if type(a) is type(b):
        if isinstance(a, Inst) and a.cls is b.cls:
            f = {}
            for k in list(a.f) + [k for k in b.f if k not in a.f]:
                f[k] = gamma(c, a.f.get(k, MISSING), b.f.get(k, MISSING))
            return Inst(a.cls, f)
        if isinstance(a, Env):
            f = {}
            for k in list(a.d) + [k for k in b.d if k not in a.d]:
                f[k] = gamma(c, a.d.get(k, MISSING), b.d.get(k, MISSING))
            return Env(f)
        if isinstance(a, Seq) and len(a.c) == len(b.c):
            return Seq(tuple(gamma(c, x, y) for x, y in zip(a.c, b.c)))
        if isinstance(a, (DictC, SetC)) and list(a.d) == list(b.d):
            return type(a)({k: gamma(c, a.d[k], b.d[k]) for k in a.d})
        if isinstance(a, FileC):
            if a.pos == b.pos and a.flags == b.flags:
                if a.s == b.s: return a
                # common prefix
                pa = a.s.parts if isinstance(a.s, S) else ((a.s,) if a.s else ())
                pb = b.s.parts if isinstance(b.s, S) else ((b.s,) if b.s else ())
                i = 0
                while i < len(pa) and i < len(pb) and pa[i] == pb[i]: i += 1
                byt = (isinstance(a.s, S) and a.s.byt) or (isinstance(b.s, S) and b.s.byt) or isinstance(a.s, bytes)
                empty = b"" if byt else ""
                pre = sconcat(empty, *pa[:i])
                ra, rb = sconcat(empty, *pa[i:]), sconcat(empty, *pb[i:])
                # common string prefix of the first differing part
                return FileC(sconcat(empty, pre, G(c, ra, rb)), a.pos, a.flags)
        if isinstance(a, IterC) and a.items == b.items and a.pos == b.pos: return a
    return GCell(c, a, b)

class State:
    __slots__ = ("heap", "pc", "facts")
    def __init__(self, heap=None, pc=(), facts=None):
        self.heap = heap if heap is not None else {}
        self.pc = pc
        self.facts = facts if facts is not None else frozenset()
    def copy(self):
        return State(dict(self.heap), self.pc, self.facts)
    def become(self, o):
        self.heap = o.heap; self.pc = o.pc; self.facts = o.facts
    def assume(self, cond):
        if cond is True: return
        lits = cond.args if isinstance(cond, B) and cond.op == "and" else (cond,)
        for l in lits:
            if l not in self.facts:
                self.pc = self.pc + (l,)
        self.facts = self.facts | frozenset(lits)

class Exit:
    __slots__ = ("kind", "value", "st", "where")
    def __init__(self, kind, value, st, where): self.kind = kind; self.value = value; self.st = st; self.where = where

class Frame:
    def __init__(self, envid, func, module, closure):
        self.envid = envid; self.func = func; self.module = module; self.closure = closure
        self.yields = None; self.globals = set(); self.nonlocals = set(); self.locals = None

BUILTIN_NAMES = set("""abs all any bool bytes bytearray callable chr dict dir divmod enumerate filter float frozenset getattr hasattr hash hex
id int isinstance issubclass iter len list map max min next object open ord pow print property range repr reversed round
set setattr slice sorted staticmethod classmethod str sum super tuple type vars zip format delattr globals locals input exec eval
__import__ complex memoryview oct bin""".split())
EXC_NAMES = [n for n in dir(_bi) if isinstance(getattr(_bi, n), type) and issubclass(getattr(_bi, n), BaseException)]
TYPE_NAMES = {"int", "float", "str", "bytes", "list", "tuple", "dict", "set", "frozenset", "object", "type", "bool", "bytearray"}

MATH = {"sqrt": "sqrt", "sin": "sin", "cos": "cos", "tan": "tan", "atan": "atan", "asin": "asin", "acos": "acos", "exp": "exp",
        "log": "log", "log10": "log10", "atan2": "atan2", "fabs": "abs", "floor": "floor", "ceil": "ceil", "hypot": "hypot",
        "radians": "radians", "degrees": "degrees", "sinh": "sinh", "cosh": "cosh", "tanh": "tanh"}

def assigned_names(node):
    """names bound in a function body (not descending into nested scopes)"""
    names = set(); glob = set(); nonl = set()
    def tgt(t):
        if isinstance(t, ast.Name): names.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts: tgt(e)
        elif isinstance(t, ast.Starred): tgt(t.value)
    def walk(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                names.add(c.name); 
                continue
            if isinstance(c, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                for w in ast.walk(c):
                    if isinstance(w, ast.NamedExpr): tgt(w.target)
                continue
            if isinstance(c, ast.Assign):
                for t in c.targets: tgt(t)
            elif isinstance(c, (ast.AugAssign, ast.AnnAssign, ast.For, ast.NamedExpr)): tgt(c.target)
            elif isinstance(c, ast.withitem) and c.optional_vars is not None: tgt(c.optional_vars)
            elif isinstance(c, ast.ExceptHandler) and c.name: names.add(c.name)
            elif isinstance(c, (ast.Import, ast.ImportFrom)):
                for a in c.names: names.add((a.asname or a.name).split(".")[0])
            elif isinstance(c, ast.Global): glob.update(c.names)
            elif isinstance(c, ast.Nonlocal): nonl.update(c.names)
            elif isinstance(c, ast.Delete):
                for t in c.targets: tgt(t)
            walk(c)
    walk(node)
    return names - glob - nonl, glob, nonl

def has_yield(node):
    stack = list(node.body) if not isinstance(node, ast.Lambda) else [node.body]
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)): return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)): continue
        stack.extend(ast.iter_child_nodes(n))
    return False

BINOPS = {ast.Add: ("__add__", "__radd__"), ast.Sub: ("__sub__", "__rsub__"), ast.Mult: ("__mul__", "__rmul__"),
          ast.Div: ("__truediv__", "__rtruediv__"), ast.Mod: ("__mod__", "__rmod__"), ast.Pow: ("__pow__", "__rpow__"),
          ast.FloorDiv: ("__floordiv__", "__rfloordiv__"), ast.BitAnd: ("__and__", "__rand__"), ast.BitOr: ("__or__", "__ror__"),
          ast.BitXor: ("__xor__", "__rxor__"), ast.LShift: ("__lshift__", "__rlshift__"), ast.RShift: ("__rshift__", "__rrshift__"),
          ast.MatMult: ("__matmul__", "__rmatmul__")}

def linearpart(p):
    """(L, k, c) with p = k*L + c, L without constant and with leading coefficient 1"""
    c = p.t.get((), Fraction(0))
    ms = [m for m in p.t if m]
    if not ms: return None, None, c
    k = p.t[min(ms)]
    return N({m: p.t[m]/k for m in ms}), k, c

class Interp:
    def __init__(self, root, lawdir=None, package="pyx"):
        self.root = root; self.lawdir = lawdir; self.package = package
        self.modules = {}
        self.base = {}
        self.nextid = 1
        self.sink = []
        self.depth = 0
        self.maxdepth = 60
        self.steps = 0
        self.maxsteps = 400000
        self.intsyms = set()
        # configuration: no configuration file changes the defaults
        def conf(I, args, kw, st):
            if len(args) > 2: return args[2]
            if "default" in kw: return kw["default"]
            return NotImplemented
        self.baseintrinsics = {"pyx.config." + n: conf for n in ("get", "getint", "getfloat", "getboolean", "getlist")}
        self.intrinsics = dict(self.baseintrinsics)
        self.called = {}
        self.node = None
        self.curmod = None
        self.divguard = 0
        self.maxloop = 6
        self.collect_calls = True
        self.builtins = {}
        self.excs = {}
        self.lawfuncs = {}
        self.toplevel_failures = []
        for n in BUILTIN_NAMES: self.builtins[n] = Builtin(n)
        self.builtins.update({"None": None, "True": True, "False": False, "NotImplemented": NOTIMPL, "Ellipsis": Ellipsis,
                              "__debug__": True})
        objc = ClassV("object", None, [], self.newbase(Env({}))); objc.native = "object"
        self.objc = objc
        def exc(pyc):
            n = pyc.__name__
            if n in self.excs: return self.excs[n]
            bases = [exc(b) for b in pyc.__bases__ if b is not object] or [objc]
            c = ClassV(n, None, bases, self.newbase(Env({})))
            c.native = "exception"
            self.excs[n] = c
            return c
        for n in EXC_NAMES:
            self.builtins[n] = exc(getattr(_bi, n))
            if getattr(_bi, n).__name__ != n: self.builtins[n] = self.excs[getattr(_bi, n).__name__]
        for n, b in (("struct.error", "Exception"), ("binascii.Error", "ValueError")):
            c = ClassV(n, None, [self.excs[b]], self.newbase(Env({})))
            c.native = "exception"
            self.excs[n] = c
        self.types = {}
        for n in TYPE_NAMES:
            c = objc if n == "object" else ClassV(n, None, [objc], self.newbase(Env({})))
            c.native = n
            self.types[n] = c
            self.builtins[n] = c
        self.types["bool"].bases = [self.types["int"]]
        self.types["NoneType"] = ClassV("NoneType", None, [objc], self.newbase(Env({})))
        self.types["NoneType"].native = "NoneType"

    # --- heap ------------------------------------------------------------------------------
    def newbase(self, cell):
        i = self.nextid; self.nextid += 1
        self.base[i] = cell
        return i
    def alloc(self, st, cell):
        i = self.nextid; self.nextid += 1
        st.heap[i] = cell
        return Ref(i)
    def cell(self, st, i):
        c = st.heap.get(i)
        return c if c is not None else self.base.get(i)
    def mklist(self, st, items): return self.alloc(st, Seq(tuple(items)))
    def mkdict(self, st, d=None): return self.alloc(st, DictC(dict(d or {})))

    # --- branching -------------------------------------------------------------------------
    def decide(self, c, st):
        if c is True or c is False: return c
        if not isinstance(c, B): raise Unsupported("condition %r" % (c,))
        f = st.facts
        if c in f: return True
        n = bnot(c)
        if n in f: return False
        if c.op == "not":
            d = self.decide(c.args[0], st)
            return (not d) if isinstance(d, bool) else c
        if c.op == "and":
            r = [self.decide(x, st) for x in c.args]
            return band(*r)
        if c.op == "or":
            r = [self.decide(x, st) for x in c.args]
            return bor(*r)
        if c.op == "bite":
            d = self.decide(c.args[0], st)
            if d is True: return self.decide(c.args[1], st) if isinstance(c.args[1], B) else c.args[1]
            if d is False: return self.decide(c.args[2], st) if isinstance(c.args[2], B) else c.args[2]
            return c
        if c.op in ("lt", "eq"):
            s = self.sign(c.args[0], st)
            if s is not None:
                if c.op == "lt":
                    if s == "-": return True
                    if s in ("+", "0+", "0"): return False
                else:
                    if s in ("+", "-"): return False
                    if s == "0": return True
        return c

    def sign(self, p, st):
        """'+', '-', '0+', '0-', '0' or None"""
        def fact(q):
            # is q < 0, q > 0, q >= 0, q <= 0, q = 0 among the facts?
            if q.const() is not None:
                c = q.const(); return "+" if c > 0 else "-" if c < 0 else "0"
            l, g = T.lt(q, ZERO), T.lt(ZERO, q)
            if l in st.facts: return "-"
            if g in st.facts: return "+"
            e = T.eqn(q, ZERO)
            if e in st.facts: return "0"
            if bnot(l) in st.facts: return "+" if bnot(e) in st.facts else "0+"
            if bnot(g) in st.facts: return "-" if bnot(e) in st.facts else "0-"
            return None
        if not st.facts and not p.t: return "0"
        r = fact(p)
        if r: return r
        r = self.intervalsign(p, st)
        if r: return r
        tot = None
        for m, c in p.t.items():
            s = 1 if c > 0 else -1; strict = True
            for i, e in m:
                at = T._byid[i]
                if at.op in ("sqrt", "abs", "exp"):
                    if at.op != "exp": strict = strict and (e < 0)
                    continue
                if at.op == "const": continue
                f = fact(N({((i, 1),): Fraction(1)}))
                if e % 2 == 0:
                    strict = strict and (f in ("+", "-") or e < 0); continue
                if f in ("+",): continue
                if f == "-": s = -s; continue
                if f == "0+": strict = False; continue
                if f == "0-": strict = False; s = -s; continue
                return None
            cur = (s, strict)
            if tot is None: tot = cur
            elif tot[0] != cur[0]: return None
            else: tot = (s, tot[1] or strict)
        if tot is None: return "0"
        return ("+" if tot[0] > 0 else "-") if tot[1] else ("0+" if tot[0] > 0 else "0-")

    def intervalsign(self, p, st):
        lo, los, hi, his = self.interval(p, st)
        if lo is not None and (lo > 0 or lo == 0 and los): return "+"
        if hi is not None and (hi < 0 or hi == 0 and his): return "-"
        if lo is not None and lo == 0: return "0" if hi is not None and hi == 0 else "0+"
        if hi is not None and hi == 0: return "0-"
        return None

    def factbounds(self, st):
        """bounds of the linear parts (without constant, leading coefficient 1) the facts compare with constants"""
        cache = self.boundscache
        if cache is not None and cache[0] is st.facts: return cache[1]
        r = {}
        for f in st.facts:
            neg = f.op == "not"
            g = f.args[0] if neg else f
            if g.op not in ("lt", "eq") or not isinstance(g, B) or neg and g.op == "eq": continue
            L, k, c = linearpart(g.args[0])
            if L is None: continue
            b = r.setdefault(L, [None, False, None, False])
            v = -c/k    # L ? v
            if g.op == "eq": up = low = True; strict = False
            else:
                up = (k > 0) != neg; low = not up; strict = not neg
            if up and (b[2] is None or v < b[2] or v == b[2] and strict): b[2], b[3] = v, strict
            if low and (b[0] is None or v > b[0] or v == b[0] and strict): b[0], b[1] = v, strict
        self.boundscache = (st.facts, r)
        return r

    boundscache = None
    def interval(self, p, st, depth=0):
        """(low, strict, high, strict) of a sum by the bounds among the facts; None is unbounded"""
        none = (None, False, None, False)
        if depth > 6 or len(p.t) > 6: return none
        L, k, c = linearpart(p)
        if L is None:
            c = p.const()
            return (c, False, c, False) if c is not None else none
        b = self.factbounds(st).get(L)
        def scale(b, k, c):
            x = (None if b[0] is None else k*b[0] + c, b[1], None if b[2] is None else k*b[2] + c, b[3])
            return x if k > 0 else (x[2], x[3], x[0], x[1])
        r = scale(b, k, c) if b else none
        lo, los, hi, his = c, False, c, False
        for m, k in p.t.items():
            if not m: continue
            b = none
            if len(m) == 1 and m[0][1] == 1:
                at = T._byid[m[0][0]]
                if len(p.t) > 1 or p.t[m] != 1: b = tuple(self.factbounds(st).get(N({m: Fraction(1)}), none))
                if at.op == "floordiv" and isinstance(at.args[1], N) and at.args[1].const() not in (None, 0) and isinstance(at.args[0], N):
                    d = at.args[1].const()
                    q = scale(self.interval(at.args[0], st, depth + 1), 1/d, 0)
                    b = (None if q[0] is None else q[0].__floor__(), False, None if q[2] is None else (q[2].__floor__() if not q[3] or q[2].denominator != 1 else q[2] - 1), False)
                elif at.op == "mod" and isinstance(at.args[1], N) and (at.args[1].const() or 0) > 0:
                    b = (Fraction(0), False, at.args[1].const(), True)
            b = scale(b, k, 0)
            if lo is not None: lo, los = (None, False) if b[0] is None else (lo + b[0], los or b[1])
            if hi is not None: hi, his = (None, False) if b[2] is None else (hi + b[2], his or b[3])
        def best(a, s, b, t, f):
            if a is None: return b, t
            if b is None: return a, s
            if a == b: return a, s or t
            return (a, s) if f(a, b) == a else (b, t)
        lo, los = best(lo, los, r[0], r[1], max); hi, his = best(hi, his, r[2], r[3], min)
        return lo, los, hi, his

    def branch(self, c, st, fa, fb):
        """run fa(state) under c and fb(state) under not c, merge; returns value"""
        c = self.decide(c, st)
        if c is True: return fa(st)
        if c is False: return fb(st)
        s1 = st.copy(); s1.assume(c)
        s2 = st.copy(); s2.assume(bnot(c))
        d1 = d2 = False
        v1 = v2 = None
        try: v1 = fa(s1)
        except Dead: d1 = True
        try: v2 = fb(s2)
        except Dead: d2 = True
        if d1 and d2: raise Dead()
        if d1: st.become(s2); return v2
        if d2: st.become(s1); return v1
        st.become(self.merge2(c, s1, s2, st))
        return gamma(c, v1, v2)

    def merge2(self, c, s1, s2, base):
        heap = {}
        h1, h2 = s1.heap, s2.heap
        for k in h1.keys() | h2.keys():
            a = h1.get(k); b = h2.get(k)
            if a is b: heap[k] = a
            else:
                if a is None: a = self.base.get(k)
                if b is None: b = self.base.get(k)
                heap[k] = merge_cell(c, a, b)
        # path condition: common literals, plus the implied disjunction when a side lost paths
        facts = s1.facts & s2.facts
        pc = tuple(l for l in s1.pc if l in facts)
        r = State(heap, pc, facts)
        e1 = [l for l in s1.pc if l not in facts and l is not c]
        e2 = [l for l in s2.pc if l not in facts and l is not bnot(c)]
        if e1 or e2:
            l = T.bite(c, band(*e1), band(*e2))
            r.assume(l) if not isinstance(l, bool) else None
        return r

    def dist(self, v, st, f):
        """apply f(value, state) to every alternative of a gated value"""
        if isinstance(v, G):
            return self.branch(v.c, st, lambda s: self.dist(v.a, s, f), lambda s: self.dist(v.b, s, f))
        return f(v, st)

    def cellsplit(self, ref, st, f):
        """run f(state) with the cell of ref being no GCell"""
        c = self.cell(st, ref.id)
        if isinstance(c, GCell):
            def side(x):
                def run(s):
                    s.heap[ref.id] = x
                    return self.cellsplit(ref, s, f)
                return run
            return self.branch(c.c, st, side(c.a), side(c.b))
        return f(st)

    # --- exceptions --------------------------------------------------------------------------
    def where(self):
        return (self.curmod.path if self.curmod else "?", getattr(self.node, "lineno", 0))

    def raise_(self, st, name, msg=""):
        cls = self.excs[name] if isinstance(name, str) else name
        r = self.alloc(st, Inst(cls, {"args": (msg,)}))
        self.sink.append(Exit("raise", r, st.copy(), self.where()))
        raise Dead()

    def raise_if(self, c, st, name, msg=""):
        """raise under condition c, continue under not c"""
        def yes(s): self.raise_(s, name, msg)
        self.branch(c, st, yes, lambda s: None)

    # --- modules -------------------------------------------------------------------------------
    def findmodule(self, name):
        if name in self.modules: return self.modules[name]
        parts = name.split(".")
        if parts[0] == self.package: basedir = self.root
        elif parts[0] == "laws" and self.lawdir: basedir = os.path.dirname(self.lawdir)
        elif parts[0] == "models": basedir = os.path.dirname(os.path.abspath(__file__))
        else: return None
        p = os.path.join(basedir, *parts)
        for path, pkg in ((p + ".py", False), (os.path.join(p, "__init__.py"), True)):
            if os.path.exists(path):
                with open(path, encoding="utf-8") as f: src = f.read()
                tree = ast.parse(src, path)
                m = Module(name, path, tree, pkg)
                self.modules[name] = m
                m.envid = self.newbase(Env({"__name__": name, "__file__": path}))
                return m
        return None

    def load(self, name):
        m = self.findmodule(name)
        if m is None: return None
        if "." in name:
            self.load(name.rsplit(".", 1)[0])
        if not m.loaded:
            m.loaded = True
            st = State()
            save = self.sink, self.node, self.curmod, self.depth
            self.sink = []; self.curmod = m
            fr = Frame(m.envid, None, m, [])
            for stmt in m.tree.body:
                try:
                    self.exec(stmt, st, fr)
                except (Unsupported, Dead, RecursionError) as e:
                    self.toplevel_failures.append((m.name, stmt.lineno, repr(e)))
                    for t in self._targets(stmt):
                        self.setname(t, opaque("global", m.name, t), st, fr)
            self.sink, self.node, self.curmod, self.depth = save
            self.base.update(st.heap)
            if "." in name:
                par, leaf = name.rsplit(".", 1)
                pm = self.modules.get(par)
                if pm is not None and leaf not in self.base[pm.envid].d:
                    self.base[pm.envid].d[leaf] = m
        return m

    def _targets(self, stmt):
        names, _, _ = assigned_names(ast.Module(body=[stmt], type_ignores=[]))
        return names

    def importname(self, name, level, fr):
        if level:
            pkg = fr.module.name if fr.module.ispkg else fr.module.name.rsplit(".", 1)[0]
            for _ in range(level-1): pkg = pkg.rsplit(".", 1)[0]
            name = pkg + ("." + name if name else "")
        return name

    # --- names ---------------------------------------------------------------------------------
    def setname(self, name, v, st, fr):
        if name in fr.globals: eid = fr.module.envid
        elif name in fr.nonlocals:
            for eid in fr.closure:
                if name in self.cell(st, eid).d: break
            else: raise Unsupported("nonlocal")
        else: eid = fr.envid
        e = self.cell(st, eid)
        d = dict(e.d); d[name] = v
        st.heap[eid] = Env(d)

    def getname(self, name, st, fr):
        if name not in fr.globals:
            e = self.cell(st, fr.envid)
            if name in e.d:
                return self.notmissing(e.d[name], st, "UnboundLocalError", name)
            if fr.locals is not None and name in fr.locals:
                self.raise_(st, "UnboundLocalError", name)
            for eid in fr.closure:
                e = self.cell(st, eid)
                if name in e.d: return self.notmissing(e.d[name], st, "NameError", name)
        e = self.cell(st, fr.module.envid)
        if name in e.d: return e.d[name]
        if name in self.builtins: return self.builtins[name]
        if name in self.lawfuncs and fr.module.name.startswith("laws"): return Builtin("law." + name)
        self.raise_(st, "NameError", name)

    def notmissing(self, v, st, exc, msg):
        if v is MISSING: self.raise_(st, exc, msg)
        if isinstance(v, G) and (v.a is MISSING or v.b is MISSING or isinstance(v.a, G) or isinstance(v.b, G)):
            if self.contains_missing(v):
                return self.dist(v, st, lambda x, s: self.raise_(s, exc, msg) if x is MISSING else x)
        return v
    def contains_missing(self, v):
        if v is MISSING: return True
        return isinstance(v, G) and (self.contains_missing(v.a) or self.contains_missing(v.b))

    # --- statements ------------------------------------------------------------------------------
    def block(self, stmts, st, fr):
        for s in stmts: self.exec(s, st, fr)

    def exec(self, n, st, fr):
        self.node = n; self.curmod = fr.module
        self.steps += 1
        if self.steps > self.maxsteps: raise Unsupported("too many steps")
        m = getattr(self, "x_" + type(n).__name__, None)
        if m is None: raise Unsupported("statement " + type(n).__name__)
        snap = st.copy(); nsink = len(self.sink); sink = self.sink
        try:
            m(n, st, fr)
        except SplitNeeded as e:
            # retry the statement separately for both values of the condition
            c = self.decide(e.c, snap)
            if isinstance(c, bool): raise Unsupported("split on decided condition")
            self.sink = sink
            del sink[nsink:]
            st.become(snap)
            self.branch(c, st, lambda s: self.exec(n, s, fr), lambda s: self.exec(n, s, fr))

    def x_Expr(self, n, st, fr):
        if isinstance(n.value, ast.Constant): return
        self.eval(n.value, st, fr)
    def x_Pass(self, n, st, fr): pass
    def x_Assign(self, n, st, fr):
        v = self.eval(n.value, st, fr)
        for t in n.targets: self.assign(t, v, st, fr)
    def x_AnnAssign(self, n, st, fr):
        if n.value is not None: self.assign(n.target, self.eval(n.value, st, fr), st, fr)
    def x_AugAssign(self, n, st, fr):
        t = n.target
        if isinstance(t, ast.Name):
            cur = self.getname(t.id, st, fr)
            new = self.augop(type(n.op), cur, self.eval(n.value, st, fr), st)
            self.setname(t.id, new, st, fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st, fr)
            cur = self.getattr(o, t.attr, st)
            self.setattr(o, t.attr, self.augop(type(n.op), cur, self.eval(n.value, st, fr), st), st)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, st, fr); i = self.evalindex(t.slice, st, fr)
            cur = self.getitem(o, i, st)
            self.setitem(o, i, self.augop(type(n.op), cur, self.eval(n.value, st, fr), st), st)
        else: raise Unsupported("augassign target")

    def augop(self, op, a, b, st):
        iname = "__i" + BINOPS[op][0][2:]
        def f(a, st):
            if isinstance(a, Ref):
                c = self.cell(st, a.id)
                if isinstance(c, GCell):
                    return self.cellsplit(a, st, lambda s: f(a, s))
                if isinstance(c, Seq) and op is ast.Add:
                    self.callmethod(a, "extend", [b], {}, st)
                    return a
                if isinstance(c, Inst):
                    m = self.lookup(c.cls, iname, st)
                    if m is not MISSING:
                        return self.call(self.bind(m, a, c.cls, st), [b], {}, st)
                if isinstance(c, SetC) and op is ast.BitOr:
                    self.callmethod(a, "update", [b], {}, st)
                    return a
            return self.binop(op, a, b, st)
        return self.dist(a, st, f)

    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name): self.setname(t.id, v, st, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, st, fr), t.attr, v, st)
        elif isinstance(t, ast.Subscript):
            if (isinstance(t.value, ast.Call) and isinstance(t.value.func, ast.Name) and t.value.func.id in ("locals", "globals")
                and not t.value.args and fr.locals is None):
                name = self.evalindex(t.slice, st, fr)
                if not isinstance(name, str): raise Unsupported("computed global name")
                self.setname(name, v, st, fr)
                return
            o = self.eval(t.value, st, fr)
            self.setitem(o, self.evalindex(t.slice, st, fr), v, st)
        elif isinstance(t, (ast.Tuple, ast.List)):
            def f(v, st):
                star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
                if isinstance(v, X):
                    items = [opaque("item", v, num(i)) for i in range(len(t.elts))]
                else:
                    items = self.iterate(v, st)
                if star:
                    i = star[0]; k = len(t.elts)-i-1
                    if len(items) < len(t.elts)-1: self.raise_(st, "ValueError", "unpack")
                    mid = self.mklist(st, items[i:len(items)-k])
                    items = list(items[:i]) + [mid] + (list(items[len(items)-k:]) if k else [])
                if len(items) != len(t.elts): self.raise_(st, "ValueError", "unpack %d to %d" % (len(items), len(t.elts)))
                for e, x in zip(t.elts, items):
                    self.assign(e.value if isinstance(e, ast.Starred) else e, x, st, fr)
            self.dist(v, st, f)
        else: raise Unsupported("assignment target")

    def x_Delete(self, n, st, fr):
        for t in n.targets:
            if isinstance(t, ast.Name):
                e = self.cell(st, fr.envid); d = dict(e.d); d.pop(t.id, None); st.heap[fr.envid] = Env(d)
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, st, fr)
                c = self.cell(st, o.id)
                if t.attr not in c.f: self.raise_(st, "AttributeError", t.attr)
                f = dict(c.f); del f[t.attr]; st.heap[o.id] = Inst(c.cls, f)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, st, fr)
                i = self.evalindex(t.slice, st, fr)
                self.delitem(o, i, st)

    def x_Import(self, n, st, fr):
        for a in n.names:
            m = self.load(a.name)
            if m is None:
                self.setname(a.asname or a.name.split(".")[0], Ext(a.name if a.asname else a.name.split(".")[0]), st, fr)
            else:
                self.setname(a.asname or a.name.split(".")[0], m if a.asname else self.modules[a.name.split(".")[0]], st, fr)

    def x_ImportFrom(self, n, st, fr):
        name = self.importname(n.module or "", n.level, fr)
        m = self.load(name)
        if m is None and name.split(".")[0] == self.package: self.raise_(st, "ImportError", name)
        for a in n.names:
            if m is None:
                v = Ext(name + "." + a.name)
                v = self.extvalue(v)
            else:
                if a.name == "*":
                    for k, v in self.cell(st, m.envid).d.items():
                        if not k.startswith("_"): self.setname(k, v, st, fr)
                    continue
                v = self.modattr(m, a.name, st)
                if v is MISSING:
                    self.raise_(st, "ImportError", a.name)
            self.setname(a.asname or a.name, v, st, fr)

    def modattr(self, m, name, st):
        e = self.cell(st, m.envid)
        if name in e.d: return e.d[name]
        if m.ispkg:
            s = self.load(m.name + "." + name)
            if s is not None: return s
        return MISSING

    def extvalue(self, e):
        n = e.name
        if "value:" + n in self.intrinsics: return self.intrinsics["value:" + n]
        if n in ("struct.error", "binascii.Error"): return self.excs[n]
        if n in MODELLED:
            m = self.load("models." + MODELLED[n])
            return self.base[m.envid].d[n.rsplit(".", 1)[1]]
        if n.startswith("string.") and n[7:] in ("ascii_letters", "ascii_lowercase", "ascii_uppercase", "digits", "hexdigits", "octdigits", "punctuation", "whitespace", "printable"):
            import string as _string
            return getattr(_string, n[7:])
        if n == "math.pi": return T.natom("const", "pi")
        if n == "sys.hexversion": return num(0x030c03f0)
        if n == "math.e": return T.natom("const", "e")
        if n.startswith("math.") and n[5:] in MATH: return Builtin(n)
        if n in ("functools.reduce", "functools.wraps", "functools.total_ordering", "copy.copy", "io.BytesIO", "io.StringIO",
                 "struct.unpack", "struct.pack", "binascii.hexlify", "binascii.b2a_hex", "sadigest.hexdigest", "zlib.compress", "zlib.crc32", "binascii.b2a_base64", "base64.b64encode", "binascii.a2b_hex", "binascii.unhexlify", "array.array", "math.isinf", "math.isnan", "itertools.chain", "itertools.tee", "itertools.accumulate", "itertools.repeat", "os.path.join",
                 "itertools.count", "functools.cmp_to_key", "struct.calcsize", "copy.deepcopy", "numbers.Number", "cmath.phase",
                 "functools.partial") or n in ("re.compile", "re.match", "re.search", "re.finditer", "re.findall", "re.sub", "re.subn", "re.split", "re.fullmatch", "re.escape"):
            return Builtin(n)
        if n in ("re.IGNORECASE", "re.I", "re.MULTILINE", "re.M", "re.DOTALL", "re.S", "re.VERBOSE", "re.X"):
            import re as _re
            return num(int(getattr(_re, n[3:])))
        return e

    def x_Global(self, n, st, fr): fr.globals.update(n.names)
    def x_Nonlocal(self, n, st, fr): fr.nonlocals.update(n.names)

    def x_FunctionDef(self, n, st, fr):
        f = self.mkfunc(n, st, fr)
        for d in reversed(n.decorator_list):
            dv = self.eval(d, st, fr)
            f = self.decorate(dv, f, d, st)
        self.setname(n.name, f, st, fr)

    def decorate(self, dv, f, node, st):
        if isinstance(dv, Builtin) and dv.name in ("property", "staticmethod", "classmethod"):
            return Wrap(dv.name, f)
        if isinstance(dv, Ext):
            if dv.name.startswith("functools.lru_cache") or dv.name.startswith("functools.cache"): 
                return Wrap("property", f) if "cached_property" in dv.name else f
            return f
        if isinstance(dv, Builtin) and dv.name == "functools.total_ordering": return f
        if isinstance(dv, X): return f
        if isinstance(dv, tuple) and dv and dv[0] == "setter": return Wrap("property", dv[1].f, f)
        return self.call(dv, [f], {}, st)

    def mkfunc(self, n, st, fr, qual=None):
        a = n.args
        defaults = [self.eval(d, st, fr) for d in a.defaults]
        kwdefaults = [self.eval(d, st, fr) if d is not None else MISSING for d in a.kw_defaults]
        closure = ([fr.envid] + fr.closure) if fr.func is not None or fr.locals is not None or getattr(fr, "isclass", False) else []
        if getattr(fr, "isclass", False): closure = fr.closure
        qn = (getattr(fr, "qual", "") or "") + (n.name if isinstance(n, ast.FunctionDef) else "<lambda>")
        f = Func(n, fr.module, closure, defaults, kwdefaults, qn, getattr(fr, "clsobj", None))
        return f

    def x_ClassDef(self, n, st, fr):
        bases = []
        for b in n.bases:
            v = self.eval(b, st, fr)
            if isinstance(v, ClassV): bases.append(v)
            elif isinstance(v, (Ext, X, Builtin)):
                c = ClassV(getattr(v, "name", "opaque"), None, [self.objc], self.newbase(Env({}))); c.native = "ext"
                bases.append(c)
            else: raise Unsupported("base class %r" % (v,))
        if not bases: bases = [self.objc]
        envid = self.nextid; self.nextid += 1
        st.heap[envid] = Env({"__module__": fr.module.name, "__qualname__": n.name})
        cf = Frame(envid, None, fr.module, ([fr.envid] + fr.closure) if (fr.func is not None) else fr.closure)
        cf.isclass = True
        cf.qual = (getattr(fr, "qual", "") or "") + n.name + "."
        c = ClassV(n.name, fr.module, bases, envid, n, cf.qual[:-1])
        cf.clsobj = c
        for s in n.body: self.exec(s, st, cf)
        v = c
        for d in reversed(n.decorator_list):
            v = self.decorate(self.eval(d, st, fr), v, d, st)
        self.setname(n.name, v, st, fr)

    def x_If(self, n, st, fr):
        c = self.truth(self.eval(n.test, st, fr), st)
        self.branch(c, st, lambda s: self.block(n.body, s, fr), lambda s: self.block(n.orelse, s, fr))

    def x_Return(self, n, st, fr):
        v = self.eval(n.value, st, fr) if n.value is not None else None
        self.sink.append(Exit("return", v, st.copy(), self.where()))
        raise Dead()

    def x_Raise(self, n, st, fr):
        if n.exc is None:
            v = getattr(fr, "curexc", None)
            if v is None: raise Unsupported("bare raise")
        else:
            v = self.eval(n.exc, st, fr)
            if isinstance(v, ClassV):
                v = self.call(v, [], {}, st)
        self.node = n
        def f(v, st):
            ok = isinstance(v, X) or (isinstance(v, Ref) and isinstance(self.cell(st, v.id), Inst) and
                                      self.issub(self.cell(st, v.id).cls, self.excs["BaseException"]))
            if not ok: self.raise_(st, "TypeError", "raised object is no exception")
            self.sink.append(Exit("raise", v, st.copy(), self.where()))
            raise Dead()
        self.dist(v, st, f)

    def x_Break(self, n, st, fr):
        self.sink.append(Exit("break", None, st.copy(), self.where())); raise Dead()
    def x_Continue(self, n, st, fr):
        self.sink.append(Exit("continue", None, st.copy(), self.where())); raise Dead()

    def x_Assert(self, n, st, fr):
        c = self.truth(self.eval(n.test, st, fr), st)
        self.raise_if(bnot(c), st, "AssertionError")

    def join(self, alts, basepc, st):
        """alts: list of (value, state); merge into st, return the value"""
        v, s = alts[-1]
        for v2, s2 in reversed(alts[:-1]):
            lits = [l for l in s2.pc if l not in s.facts]
            # condition telling s2 from s
            c = band(*[l for l in s2.pc if l not in basepc])
            if c is True:
                c = bnot(band(*[l for l in s.pc if l not in basepc]))
            if c is True or c is False: raise Unsupported("indistinguishable exits")
            v = gamma(c, v2, v)
            s = self.merge2x(c, s2, s)
        st.become(s)
        return v

    def merge2x(self, c, s1, s2):
        r = self.merge2(c, s1, s2, None)
        return r

    def loop_body(self, body, st, fr):
        """one iteration; returns list of break exits; st continues normally (may raise Dead)"""
        save = self.sink; self.sink = []
        basepc = frozenset(st.pc)
        dead = False
        try:
            try: self.block(body, st, fr)
            except Dead: dead = True
            ex = self.sink
        finally:
            self.sink = save
        cont = [(None, e.st) for e in ex if e.kind == "continue"]
        brk = [e for e in ex if e.kind == "break"]
        save.extend(e for e in ex if e.kind in ("return", "raise"))
        if not dead: cont.append((None, st.copy()))
        if not cont: return brk, True
        self.join(cont, basepc, st)
        return brk, False

    def x_While(self, n, st, fr):
        basepc = frozenset(st.pc)
        ends = []   # (None, state) through else-less loop end
        brks = []
        symb = 0
        for it in range(100000):
            c = self.decide(self.truth(self.eval(n.test, st, fr), st), st)
            if c is False:
                ends.append((None, st.copy())); break
            if c is not True:
                symb += 1
                if symb > self.maxloop: raise Unsupported("symbolic loop at %s:%d" % (fr.module.name, n.lineno))
                e = st.copy(); e.assume(bnot(c)); ends.append((None, e))
                st.assume(c)
            brk, dead = self.loop_body(n.body, st, fr)
            brks.extend((None, e.st) for e in brk)
            if dead: break
        if ends and n.orelse:
            s = st.copy()
            self.join(ends, basepc, s)
            try:
                self.block(n.orelse, s, fr)
                ends = [(None, s)]
            except Dead: ends = []
        alts = brks + ends
        if not alts: raise Dead()
        self.join(alts, basepc, st)

    def x_For(self, n, st, fr):
        it = self.eval(n.iter, st, fr)
        def f(it, st):
            items = self.iterate(it, st, n)
            basepc = frozenset(st.pc)
            brks = []
            dead = False
            for x in items:
                try:
                    self.assign(n.target, x, st, fr)
                except Dead:
                    dead = True; break
                brk, dead = self.loop_body(n.body, st, fr)
                brks.extend((None, e.st) for e in brk)
                if dead: break
            ends = []
            if not dead:
                try:
                    self.block(n.orelse, st, fr)
                    ends = [(None, st.copy())]
                except Dead: pass
            alts = brks + ends
            if not alts: raise Dead()
            self.join(alts, basepc, st)
        self.dist(it, st, f)

    def x_With(self, n, st, fr):
        for item in n.items:
            v = self.eval(item.context_expr, st, fr)
            if isinstance(v, Ref) and isinstance(self.cell(st, v.id), Inst):
                c = self.cell(st, v.id)
                if self.lookup(c.cls, "__enter__", st) is not MISSING:
                    v = self.callmethod(v, "__enter__", [], {}, st)
            if item.optional_vars is not None: self.assign(item.optional_vars, v, st, fr)
        self.block(n.body, st, fr)

    def x_Try(self, n, st, fr):
        names = set()
        for h in n.handlers:
            if h.type is None: names.add("*")
            else:
                for w in ast.walk(h.type):
                    if isinstance(w, ast.Name): names.add(w.id)
        guard = bool(names & {"*", "ZeroDivisionError", "ArithmeticError", "ValueError", "Exception"})
        save = self.sink; self.sink = []
        basepc = frozenset(st.pc)
        alts = []
        final_exits = []
        if guard: self.divguard += 1
        try:
            try:
                self.block(n.body, st, fr)
                dead = False
            except Dead: dead = True
            ex = self.sink
        finally:
            self.sink = save
            if guard: self.divguard -= 1
        self.sink = []
        try:
            if not dead:
                try:
                    self.block(n.orelse, st, fr)
                    alts.append((None, st.copy()))
                except Dead: pass
            for e in ex:
                if e.kind != "raise":
                    self.sink.append(e); continue
                done = False
                for h in n.handlers:
                    m = True
                    if h.type is not None:
                        t = self.eval(h.type, e.st, fr)
                        m = self.excmatch(e.value, t, e.st)
                    if m is True:
                        done = True
                        try:
                            if h.name: self.setname(h.name, e.value, e.st, fr)
                            sv = getattr(fr, "curexc", None); fr.curexc = e.value
                            try: self.block(h.body, e.st, fr)
                            finally: fr.curexc = sv
                            alts.append((None, e.st))
                        except Dead: pass
                        break
                if not done: self.sink.append(e)
            inner = self.sink
        finally:
            self.sink = save
        if n.finalbody:
            for e in inner:
                try:
                    self.block(n.finalbody, e.st, fr)
                    self.sink.append(e)
                except Dead: pass
            new = []
            for v, s in alts:
                try:
                    self.block(n.finalbody, s, fr); new.append((v, s))
                except Dead: pass
            alts = new
        else:
            self.sink.extend(inner)
        if not alts: raise Dead()
        self.join(alts, basepc, st)

    def excmatch(self, v, t, st):
        if isinstance(t, tuple): return any(self.excmatch(v, x, st) is True for x in t)
        if isinstance(v, Ref):
            c = self.cell(st, v.id)
            if isinstance(c, Inst) and isinstance(t, ClassV): return self.issub(c.cls, t)
        return isinstance(t, ClassV) and t.name in ("Exception", "BaseException")

    def issub(self, c, t):
        return t in c.mro()

    # --- expressions -------------------------------------------------------------------------------
    def eval(self, n, st, fr):
        self.steps += 1
        if self.steps > self.maxsteps: raise Unsupported("too many steps")
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None: raise Unsupported("expression " + type(n).__name__)
        return m(n, st, fr)

    def e_Constant(self, n, st, fr):
        v = n.value
        if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)) or v is Ellipsis: return v
        if isinstance(v, (int, float)): return num(v)
        raise Unsupported("constant")
    def e_Name(self, n, st, fr): return self.getname(n.id, st, fr)
    def e_NamedExpr(self, n, st, fr):
        v = self.eval(n.value, st, fr); self.assign(n.target, v, st, fr); return v
    def e_Attribute(self, n, st, fr):
        o = self.eval(n.value, st, fr)
        if fr.module.name.startswith("laws") and isinstance(o, (Module, ClassV)):
            save = self.sink; self.sink = []
            try:
                v = self.getattr(o, n.attr, st)
            except Dead:
                raise AnchorMissing("%r has no %s" % (o, n.attr))
            finally: self.sink = save
            return v
        self.node = n
        return self.getattr(o, n.attr, st)
    def e_Tuple(self, n, st, fr): return tuple(self.evalargs(n.elts, st, fr))
    def e_List(self, n, st, fr): return self.mklist(st, self.evalargs(n.elts, st, fr))
    def e_Set(self, n, st, fr):
        return self.alloc(st, SetC({self.key(x): x for x in self.evalargs(n.elts, st, fr)}))
    def e_Dict(self, n, st, fr):
        r = self.mkdict(st)
        for k, v in zip(n.keys, n.values):
            if k is None: self.callmethod(r, "update", [self.eval(v, st, fr)], {}, st)
            else:
                kv = self.eval(k, st, fr)
                self.setitem(r, kv, self.eval(v, st, fr), st)
        return r
    def evalargs(self, elts, st, fr):
        r = []
        for e in elts:
            if isinstance(e, ast.Starred): r.extend(self.iterate(self.eval(e.value, st, fr), st))
            else: r.append(self.eval(e, st, fr))
        return r
    def e_Lambda(self, n, st, fr): return self.mkfunc(n, st, fr)
    def e_IfExp(self, n, st, fr):
        c = self.truth(self.eval(n.test, st, fr), st)
        return self.branch(c, st, lambda s: self.eval(n.body, s, fr), lambda s: self.eval(n.orelse, s, fr))
    def e_BoolOp(self, n, st, fr):
        isand = isinstance(n.op, ast.And)
        def go(i, st):
            v = self.eval(n.values[i], st, fr)
            if i == len(n.values)-1: return v
            t = self.truth(v, st)
            if isbool(v) and not isinstance(v, bool) and False: pass
            if isand: return self.branch(t, st, lambda s: go(i+1, s), lambda s: v if not isbool(v) else False)
            return self.branch(t, st, lambda s: v if not isbool(v) else True, lambda s: go(i+1, s))
        return go(0, st)
    def e_UnaryOp(self, n, st, fr):
        v = self.eval(n.operand, st, fr)
        if isinstance(n.op, ast.Not): return bnot(self.truth(v, st))
        def f(v, st):
            if isinstance(v, (N, bool, B, X)):
                v = tonum(v)
                if isinstance(n.op, ast.USub): return T.neg(v)
                if isinstance(n.op, ast.UAdd): return v
                if isinstance(n.op, ast.Invert): return T.sub(T.neg(v), ONE)
            name = {ast.USub: "__neg__", ast.UAdd: "__pos__", ast.Invert: "__invert__"}[type(n.op)]
            if isinstance(v, Ref):
                return self.callmethod(v, name, [], {}, st)
            self.raise_(st, "TypeError", "unary operator")
        return self.dist(v, st, f)
    def e_BinOp(self, n, st, fr):
        a = self.eval(n.left, st, fr); b = self.eval(n.right, st, fr)
        self.node = n; self.curmod = fr.module
        return self.binop(type(n.op), a, b, st)
    def e_Compare(self, n, st, fr):
        def go(i, left, st):
            right = self.eval(n.comparators[i], st, fr)
            self.node = n; self.curmod = fr.module
            r = self.compare(n.ops[i], left, right, st)
            if i == len(n.ops)-1: return r
            t = self.truth(r, st)
            return self.branch(t, st, lambda s: go(i+1, right, s), lambda s: False)
        return go(0, self.eval(n.left, st, fr), st)
    def e_Subscript(self, n, st, fr):
        o = self.eval(n.value, st, fr)
        i = self.evalindex(n.slice, st, fr)
        self.node = n; self.curmod = fr.module
        return self.getitem(o, i, st)
    def evalindex(self, s, st, fr):
        if isinstance(s, ast.Slice):
            return ("slice",) + tuple(self.eval(x, st, fr) if x is not None else None for x in (s.lower, s.upper, s.step))
        return self.eval(s, st, fr)
    def e_JoinedStr(self, n, st, fr):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant): parts.append(v.value)
            else:
                x = self.eval(v.value, st, fr)
                if v.format_spec is not None:
                    sp = self.eval(v.format_spec, st, fr)
                    if not isinstance(sp, str): raise Unsupported("format spec")
                    parts.append(self.fmt("{:%s}" % sp, x, st))
                elif v.conversion == 114: parts.append(self.fmt("!r", x, st))
                else: parts.append(self.fmt("!s", x, st))
        return sconcat("", *parts)
    def e_ListComp(self, n, st, fr): return self.mklist(st, self.comp(n, lambda s, f: self.eval(n.elt, s, f), st, fr))
    def e_GeneratorExp(self, n, st, fr): return self.mklist(st, self.comp(n, lambda s, f: self.eval(n.elt, s, f), st, fr))
    def e_SetComp(self, n, st, fr):
        return self.alloc(st, SetC({self.key(x): x for x in self.comp(n, lambda s, f: self.eval(n.elt, s, f), st, fr)}))
    def e_DictComp(self, n, st, fr):
        r = self.mkdict(st)
        for k, v in self.comp(n, lambda s, f: (self.eval(n.key, s, f), self.eval(n.value, s, f)), st, fr):
            self.setitem(r, k, v, st)
        return r
    def comp(self, n, elt, st, fr):
        eid = self.nextid; self.nextid += 1
        st.heap[eid] = Env({})
        cf = Frame(eid, fr.func, fr.module, [fr.envid] + fr.closure)
        if getattr(fr, "isclass", False): cf.closure = [fr.envid] + fr.closure
        cf.locals = None
        cf.globals = fr.globals; cf.qual = getattr(fr, "qual", ""); cf.clsobj = getattr(fr, "clsobj", None)
        res = []
        def go(i, st):
            if i == len(n.generators):
                res.append(elt(st, cf)); return
            g = n.generators[i]
            it = self.eval(g.iter, st, cf)
            if isinstance(it, G): it = self.pickseq(it, st)
            for x in self.iterate(it, st, n):
                self.assign(g.target, x, st, cf)
                ok = True
                for t in g.ifs:
                    c = self.decide(self.truth(self.eval(t, st, cf), st), st)
                    if c is False: ok = False; break
                    if c is not True: raise SplitNeeded(c)
                if ok: go(i+1, st)
        go(0, st)
        return res

    def pickseq(self, g, st):
        d = self.decide(g.c, st)
        if d is True: return self.pickseq(g.a, st) if isinstance(g.a, G) else g.a
        if d is False: return self.pickseq(g.b, st) if isinstance(g.b, G) else g.b
        # equal length alternatives
        a = self.iterate(self.pickseq(g.a, st) if isinstance(g.a, G) else g.a, st)
        b = self.iterate(self.pickseq(g.b, st) if isinstance(g.b, G) else g.b, st)
        if len(a) != len(b): raise Unsupported("gated sequence lengths")
        return tuple(gamma(g.c, x, y) for x, y in zip(a, b))

    def e_Yield(self, n, st, fr):
        v = self.eval(n.value, st, fr) if n.value is not None else None
        self.callmethod(fr.yields, "append", [v], {}, st)
        return None
    def e_YieldFrom(self, n, st, fr):
        self.callmethod(fr.yields, "extend", [self.eval(n.value, st, fr)], {}, st)
        return None
    def e_Starred(self, n, st, fr): raise Unsupported("starred")

    def e_Call(self, n, st, fr):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == "super":
            if n.args:
                a = [self.eval(x, st, fr) for x in n.args]
                return SuperV(a[0], a[1])
            f = fr.func
            while f is not None and f.cls is None: f = None
            if f is None: raise Unsupported("super()")
            first = f.node.args.args[0].arg
            return SuperV(f.cls, self.getname(first, st, fr))
        if isinstance(n.func, ast.Name) and n.func.id == "locals": raise Unsupported("locals")
        f = self.eval(n.func, st, fr)
        args = self.evalargs(n.args, st, fr)
        kw = {}
        for k in n.keywords:
            v = self.eval(k.value, st, fr)
            if k.arg is None:
                if isinstance(v, X): raise Unsupported("opaque **kwargs")
                if isinstance(v, Ref):
                    c = self.cell(st, v.id)
                    if not isinstance(c, DictC): raise Unsupported("** of no dict")
                    for kk, (ko, vv) in c.d.items():
                        if not isinstance(ko, str): raise Unsupported("kwargs key")
                        vv = self.notmissing(vv, st, "KeyError", ko)
                        kw[ko] = vv
                else: raise Unsupported("** argument")
            else: kw[k.arg] = v
        self.node = n; self.curmod = fr.module
        return self.call(f, args, kw, st)

    # --- calls -------------------------------------------------------------------------------------
    def call(self, f, args, kw, st):
        if isinstance(f, G):
            return self.dist(f, st, lambda x, s: self.call(x, args, kw, s))
        if isinstance(f, Bound):
            return self.callfunc(f.func, [f.self] + list(args), kw, st) if isinstance(f.func, Func) else self.call(f.func, [f.self] + list(args), kw, st)
        if isinstance(f, Func): return self.callfunc(f, list(args), kw, st)
        if isinstance(f, ClassV): return self.instantiate(f, list(args), kw, st)
        if isinstance(f, Method):
            return self.method(f.obj, f.name, list(args), kw, st)
        if isinstance(f, Builtin):
            return self.builtin(f.name, list(args), kw, st)
        if isinstance(f, Ext):
            h = self.intrinsics.get(f.name)
            if h: return h(self, list(args), kw, st)
            if f.name.startswith(VARYINGNUMBERS): return T.natom("app", f.name, num(self.run))
            if self.run and f.name.startswith(VARYING): return opaque("call", "ext:" + f.name, num(self.run), *(self.freezeargs(args, kw, st)))
            return opaque("call", "ext:" + f.name, *(self.freezeargs(args, kw, st)))
        if isinstance(f, X):
            return opaque("call", f, *(self.freezeargs(args, kw, st)))
        if isinstance(f, Ref):
            c = self.cell(st, f.id)
            if isinstance(c, GCell): return self.cellsplit(f, st, lambda s: self.call(f, args, kw, s))
            if isinstance(c, Inst):
                m = self.lookup(c.cls, "__call__", st)
                if m is not MISSING: return self.call(self.bind(m, f, c.cls, st), args, kw, st)
        self.raise_(st, "TypeError", "%s is not callable" % T.show(f))

    def setitems(self, c):
        "members of a set, numbers excepted in different orders in different runs"
        r = list(c.d.values())
        if self.run % 2 and not all(isinstance(x, (N, int)) for x in r): r.reverse()
        return r
    run = 0

    def freezeargs(self, args, kw, st):
        r = [self.freeze(a, st) for a in args]
        for k in sorted(kw): r.append((k, self.freeze(kw[k], st)))
        return r
    def freeze(self, v, st):
        """hashable argument for an opaque term"""
        if isinstance(v, Ref): return self.unfold(v, st)
        if isinstance(v, tuple): return tuple(self.freeze(x, st) for x in v)
        if isinstance(v, G): return G(v.c, self.freeze(v.a, st), self.freeze(v.b, st))
        try: hash(v)
        except TypeError: return repr(v)
        return v

    def positional(self, f, args, kw):
        """arguments by position as far as possible, however they have been passed"""
        a = f.node.args
        params = [p.arg for p in a.args]
        if a.vararg is not None or not kw or not any(k in params for k in kw): return args, kw
        args = list(args); kw = dict(kw)
        nd = len(f.defaults)
        last = max([i for i, p in enumerate(params) if p in kw])
        for i in range(len(args), last+1):
            p = params[i]
            if p in kw: args.append(kw.pop(p))
            else:
                j = i - (len(params)-nd)
                if j < 0: break
                args.append(f.defaults[j])
        return args, kw
    def boundkw(self, f, args, kw, st):
        """all parameters by name, defaults included"""
        env = self.bindargs(f, args, kw, st)
        a = f.node.args
        if a.kwarg is not None:
            d = self.cell(st, env.pop(a.kwarg.arg).id)
            for k, v in d.d.values(): env[k] = v
        return env
    def bindargs(self, f, args, kw, st):
        a = f.node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        env = {}
        nargs = len(args)
        if nargs > len(params):
            if a.vararg is None:
                self.raise_(st, "TypeError", "%s: too many arguments" % f.qualname)
            env[a.vararg.arg] = tuple(args[len(params):])
        elif a.vararg is not None: env[a.vararg.arg] = ()
        for p, v in zip(params, args): env[p] = v
        kwonly = [p.arg for p in a.kwonlyargs]
        extra = {}
        for k, v in kw.items():
            if k in params[len(a.posonlyargs):] or k in kwonly:
                if k in env: self.raise_(st, "TypeError", "%s: multiple values for %s" % (f.qualname, k))
                env[k] = v
            elif a.kwarg is not None: extra[k] = v
            else: self.raise_(st, "TypeError", "%s: unexpected keyword argument %s" % (f.qualname, k))
        if a.kwarg is not None:
            env[a.kwarg.arg] = self.mkdict(st, {("k", k): (k, v) for k, v in extra.items()})
        nd = len(f.defaults)
        for i, p in enumerate(params):
            if p not in env:
                j = i - (len(params)-nd)
                if j >= 0: env[p] = f.defaults[j]
                else: self.raise_(st, "TypeError", "%s: missing argument %s" % (f.qualname, p))
        for p, d in zip(kwonly, f.kwdefaults):
            if p not in env:
                if d is MISSING: self.raise_(st, "TypeError", "%s: missing argument %s" % (f.qualname, p))
                env[p] = d
        return env

    def callfunc(self, f, args, kw, st):
        h = self.intrinsics.get(f.module.name + "." + f.qualname)
        if h is not None:
            if getattr(h, "bound", False): r = h(self, [], self.boundkw(f, args, kw, st), st)
            else:
                args, kw = self.positional(f, args, kw)
                r = h(self, args, kw, st)
            if r is not NotImplemented: return r
        env = self.bindargs(f, args, kw, st)
        if self.depth > self.maxdepth: raise Unsupported("recursion depth in %s" % f.qualname)
        if self.collect_calls and not f.module.name.startswith("laws"):
            self.called[f.module.name + "." + f.qualname] = (f.module.path, f.node.lineno)
        eid = self.nextid; self.nextid += 1
        st.heap[eid] = Env(env)
        fr = Frame(eid, f, f.module, f.closure)
        if f.scope is None: f.scope = assigned_names(f.node) if not isinstance(f.node, ast.Lambda) else (set(), set(), set())
        fr.locals = f.scope[0]; fr.globals = set(f.scope[1]); fr.nonlocals = set(f.scope[2])
        fr.qual = f.qualname + ".<locals>."
        if f.isgen is None: f.isgen = has_yield(f.node)
        save = self.sink, self.node, self.curmod
        self.depth += 1
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, st, fr)
            if f.isgen: fr.yields = self.mklist(st, [])
            self.sink = []
            basepc = frozenset(st.pc)
            alts = []
            try:
                self.block(f.node.body, st, fr)
                alts.append((None, st.copy()))
            except Dead: pass
            ex = self.sink
        finally:
            self.depth -= 1
            self.sink, self.node, self.curmod = save
        rets = [(e.value, e.st) for e in ex if e.kind == "return"]
        raises = [e for e in ex if e.kind == "raise"]
        self.sink.extend(raises)
        alts = rets + alts
        if not alts: raise Dead()
        v = self.join(alts, basepc, st)
        if f.isgen: v = fr.yields
        return v

    def instantiate(self, c, args, kw, st):
        h = self.intrinsics.get(c.fullname)
        if h is not None:
            r = h(self, args, kw, st)
            if r is not NotImplemented: return r
        if c.native in TYPE_NAMES and c.native != "object": return self.builtin(c.native, args, kw, st)
        nat = next((b.native for b in c.mro() if b.native in ("list", "dict", "str", "tuple", "int", "float", "bytes")), None)
        new = self.lookup(c, "__new__", st)
        if new is not MISSING: raise Unsupported("__new__")
        r = self.alloc(st, Inst(c, {}))
        if nat in ("list", "dict"):
            inner = self.builtin(nat, [], {}, st)
            st.heap[r.id] = Inst(c, {"__native__": inner})
        elif nat in ("str", "tuple", "int", "float", "bytes"):
            st.heap[r.id] = Inst(c, {"__native__": self.builtin(nat, args[:1], {}, st)})
        init = self.lookup(c, "__init__", st)
        if init is not MISSING:
            rv = self.call(self.bind(init, r, c, st), args, kw, st)
        else:
            if any(b.native == "exception" for b in c.mro()):
                st.heap[r.id] = Inst(c, {"args": tuple(args)})
            elif nat in ("list", "dict") and args:
                self.callmethod(self.cell(st, r.id).f["__native__"], "extend" if nat == "list" else "update", args, kw, st)
            elif (args or kw) and not any(b.native == "ext" for b in c.mro()) and not nat:
                self.raise_(st, "TypeError", "%s() takes no arguments" % c.name)
        return r

    def lookup(self, c, name, st):
        for b in c.mro():
            e = self.cell(st, b.envid)
            if name in e.d: return e.d[name]
        return MISSING

    def bind(self, v, obj, cls, st):
        if isinstance(v, Func): return Bound(obj, v)
        if isinstance(v, Wrap):
            if v.kind == "staticmethod": return v.f
            if v.kind == "classmethod": return Bound(cls, v.f)
            if v.kind == "property": return self.call(v.f, [obj], {}, st)
        if isinstance(v, Builtin) and not v.name.startswith("law."):
            return v
        return v

    def getattr(self, o, name, st):
        r = self.getattr_(o, name, st)
        return r

    def getattr_(self, o, name, st):
        if isinstance(o, G): return self.dist(o, st, lambda x, s: self.getattr(x, name, s))
        if isinstance(o, Ref):
            c = self.cell(st, o.id)
            if isinstance(c, GCell): return self.cellsplit(o, st, lambda s: self.getattr(o, name, s))
            if isinstance(c, Inst):
                cv = self.lookup(c.cls, name, st)
                if isinstance(cv, Wrap) and cv.kind == "property": return self.call(cv.f, [o], {}, st)
                if name in c.f:
                    v = c.f[name]
                    if v is MISSING or self.contains_missing(v):
                        def alt(x, s):
                            if x is not MISSING: return x
                            if cv is not MISSING: return self.bind(cv, o, c.cls, s)
                            ga = self.lookup(c.cls, "__getattr__", s)
                            if ga is not MISSING: return self.call(self.bind(ga, o, c.cls, s), [name], {}, s)
                            self.raise_(s, "AttributeError", name)
                        return self.dist(v, st, alt)
                    return v
                if cv is not MISSING: return self.bind(cv, o, c.cls, st)
                if name == "__class__": return c.cls
                if name == "__dict__": return InstDict(o)
                if "__native__" in c.f:
                    return self.getattr(c.f["__native__"], name, st)
                ga = self.lookup(c.cls, "__getattr__", st)
                if ga is not MISSING: return self.call(self.bind(ga, o, c.cls, st), [name], {}, st)
                if any(b.native == "ext" for b in c.cls.mro()): return opaque("attr", self.freeze(o, st), name)
                if any(b.native == "exception" for b in c.cls.mro()) and name in ("args", "__init__", "__str__", "with_traceback"):
                    return Builtin("exc." + name)
                if name in ("__init__", "__str__", "__repr__", "__eq__", "__hash__", "__setattr__"): return Builtin("object." + name)
                self.raise_(st, "AttributeError", "%s.%s" % (c.cls.name, name))
            return Method(o, name) if self.hasmethod(c, name) else self.raise_(st, "AttributeError", name)
        if isinstance(o, ClassV):
            v = self.lookup(o, name, st)
            if v is not MISSING:
                if isinstance(v, Wrap):
                    if v.kind == "staticmethod": return v.f
                    if v.kind == "classmethod": return Bound(o, v.f)
                return v
            if name in ("__name__",): return o.name
            if name == "__module__": return o.module.name if o.module else "builtins"
            if name == "__bases__": return tuple(o.bases)
            if name == "__mro__": return tuple(o.mro())
            if name == "mro": return Builtin("object.mro")
            if name == "__doc__": return None
            if o.native in TYPE_NAMES or o.native in ("exception",) or any(b.native for b in o.mro()):
                nat = next(b.native for b in o.mro() if b.native)
                if name == "fromkeys" or o.native in ("str", "dict", "bytes", "list", "float", "int"):
                    return Builtin("%s.%s" % (nat, name))
                if name in ("__init__", "__new__", "__setattr__", "__str__", "__repr__", "__eq__", "__hash__", "append", "extend"):
                    return Builtin("object." + name)
            if any(b.native == "ext" for b in o.mro()): return opaque("attr", repr(o), name)
            self.raise_(st, "AttributeError", "%s.%s" % (o.name, name))
        if isinstance(o, Module):
            v = self.modattr(o, name, st)
            if v is MISSING: self.raise_(st, "AttributeError", "%s.%s" % (o.name, name))
            return v
        if isinstance(o, Ext): return self.extvalue(Ext(o.name + "." + name))
        if isinstance(o, SuperV):
            obj = o.obj
            cls = obj if isinstance(obj, ClassV) else self.cell(st, obj.id).cls
            mro = cls.mro()
            for b in mro[mro.index(o.cls)+1:]:
                e = self.cell(st, b.envid)
                if name in e.d: return self.bind(e.d[name], obj, cls, st)
            if name == "__init__": return Builtin("object.__init__")
            if isinstance(obj, Ref):
                c = self.cell(st, obj.id)
                if "__native__" in c.f: return self.getattr(c.f["__native__"], name, st)
            return opaque("super", name) if any(b.native == "ext" for b in mro) else self.raise_(st, "AttributeError", name)
        if isinstance(o, X):
            return opaque("attr", o, name)
        if isinstance(o, (str, bytes, S)): return Method(o, name)
        if isinstance(o, PatV):
            if name == "pattern": return o.p.pattern
            return Method(o, name)
        if isinstance(o, MatchV):
            if name == "string": return o.m.string
            if name == "lastindex": return num(o.m.lastindex) if o.m.lastindex is not None else None
            return Method(o, name)
        if isinstance(o, tuple):
            if name in ("index", "count"): return Method(o, name)
            self.raise_(st, "AttributeError", "tuple.%s" % name)
        if isinstance(o, InstDict): return Method(o, name)
        if isinstance(o, Func):
            if name == "__name__": return o.node.name if isinstance(o.node, ast.FunctionDef) else "<lambda>"
            if name in o.attrs: return o.attrs[name]
            if name == "__doc__": return ast.get_docstring(o.node, False) if isinstance(o.node, ast.FunctionDef) else None
            if name in ("__code__", "__module__"): return opaque("funcattr", repr(o), name)
        if isinstance(o, Bound):
            if name == "__func__": return o.func
            if name == "__self__": return o.self
        if isinstance(o, Wrap):
            if name == "setter": return ("setterof", o)
            if name == "__func__": return o.f
        if isinstance(o, Builtin):
            if name == "__name__": return o.name
            return Builtin(o.name + "." + name)
        if isinstance(o, N):
            if name in ("real",): return o
            if name == "imag": return ZERO
            if name in ("is_integer", "bit_length", "conjugate"): return Method(o, name)
        if isinstance(o, Method) and name == "__name__": return o.name
        self.raise_(st, "AttributeError", "%s has no attribute %s" % (T.show(o), name))

    LISTM = set("tobytes append extend insert pop remove index count reverse sort copy clear __len__ __getitem__ __contains__ __iter__ __add__".split())
    DICTM = set("get keys values items update setdefault pop copy clear popitem __contains__ __getitem__ __setitem__ __iter__".split())
    SETM = set("add update remove discard union intersection difference copy clear pop issubset".split())
    FILEM = set("write read close readline readlines seek tell flush getvalue seekable __enter__ __exit__ fileno writelines".split())
    def hasmethod(self, c, name):
        if isinstance(c, Seq): return name in self.LISTM
        if isinstance(c, DictC): return name in self.DICTM
        if isinstance(c, SetC): return name in self.SETM
        if isinstance(c, FileC): return name in self.FILEM
        if isinstance(c, IterC): return name in ("__next__", "__iter__")
        return False

    def hasattr(self, o, name, st):
        """True/False/cond"""
        if isinstance(o, X): return T.bterm("app", "hasattr", o, name)
        save = self.sink, self.node; self.sink = []
        s = st.copy()
        try:
            self.getattr(o, name, s)
            r = True
            if self.sink:
                r = bnot(bor(*[band(*[l for l in e.st.pc if l not in st.facts]) for e in self.sink]))
        except Dead: r = False
        finally: self.sink, self.node = save
        return r

    def setattr(self, o, name, v, st):
        if isinstance(o, G):
            self.dist(o, st, lambda x, s: self.setattr(x, name, v, s)); return
        if isinstance(o, Ref):
            c = self.cell(st, o.id)
            if isinstance(c, GCell):
                self.cellsplit(o, st, lambda s: self.setattr(o, name, v, s)); return
            if isinstance(c, Inst):
                cv = self.lookup(c.cls, name, st)
                if isinstance(cv, Wrap) and cv.kind == "property":
                    if cv.setter is None: self.raise_(st, "AttributeError", name)
                    self.call(cv.setter, [o, v], {}, st); return
                f = dict(c.f); f[name] = v
                st.heap[o.id] = Inst(c.cls, f)
                return
            if isinstance(c, FileC):
                fl = dict(c.flags); fl[name] = v
                st.heap[o.id] = FileC(c.s, c.pos, fl); return
        if isinstance(o, ClassV):
            e = self.cell(st, o.envid); d = dict(e.d); d[name] = v
            st.heap[o.envid] = Env(d); return
        if isinstance(o, Module):
            e = self.cell(st, o.envid); d = dict(e.d); d[name] = v
            st.heap[o.envid] = Env(d); return
        if isinstance(o, Func):
            o.attrs[name] = v; return
        if isinstance(o, (X, Ext)): return
        self.raise_(st, "AttributeError", "cannot set %s of %s" % (name, T.show(o)))

    # --- conversions ---------------------------------------------------------------------------------
    def truth(self, v, st):
        if v is None: return False
        if isbool(v): return v
        if isinstance(v, N): return bnot(T.eqn(v, ZERO))
        if isinstance(v, (str, bytes, tuple)): return len(v) > 0
        if isinstance(v, S):
            if any(isinstance(p, (str, bytes)) for p in v.parts): return True
            if any(isinstance(p, tuple) and p and p[0] == "fmt" for p in v.parts): return True
            if any(isinstance(p, tuple) and p and p[0] == "chr" for p in v.parts): return True
            return T.bterm("truthy", v)
        if isinstance(v, G):
            return T.bite(v.c, self.truth(v.a, st), self.truth(v.b, st)) if not self.needsstate(v) else \
                   self.dist(v, st, lambda x, s: self.truth(x, s))
        if isinstance(v, X):
            # compressed data has a header
            if v.op == "call" and v.args[0] == "ext:zlib.compress": return True
            return T.bterm("truthy", v)
        if isinstance(v, Ref):
            c = self.cell(st, v.id)
            if isinstance(c, GCell):
                return self.cellsplit(v, st, lambda s: self.truth(v, s))
            if isinstance(c, Seq): return len(c.c) > 0
            if isinstance(c, (DictC, SetC)):
                if not c.d: return False
                return True
            if isinstance(c, Inst):
                for nm in ("__bool__", "__len__"):
                    m = self.lookup(c.cls, nm, st)
                    if m is not MISSING:
                        return self.truth(self.call(self.bind(m, v, c.cls, st), [], {}, st), st)
                if "__native__" in c.f: return self.truth(c.f["__native__"], st)
            return True
        if v is MISSING: raise Unsupported("truth of missing")
        return True
    def needsstate(self, v):
        if isinstance(v, G): return self.needsstate(v.a) or self.needsstate(v.b)
        return isinstance(v, Ref)

    def key(self, v):
        """hashable key for dictionaries"""
        if isinstance(v, N):
            c = v.const()
            if c is not None: return ("n", c)
            if T.identity(v) is not None: return ("id", v)
            return ("sym", v)
        if isinstance(v, bool): return ("n", Fraction(int(v)))
        if isinstance(v, str): return ("k", v)
        if isinstance(v, bytes): return ("b", v)
        if isinstance(v, tuple): return ("t",) + tuple(self.key(x) for x in v)
        if v is None: return ("none",)
        if isinstance(v, (Ref, X, ClassV, Func, Builtin, Ext, Bound, Method, S)): return ("o", v)
        raise Unsupported("dictionary key %s" % T.show(v))
    def keysymbolic(self, k):
        if k[0] == "sym": return True
        if k[0] == "o": return isinstance(k[1], (X, S))
        if k[0] == "t": return any(self.keysymbolic(x) for x in k[1:])
        return False

    def iterate(self, v, st, node=None):
        """python list of the elements of an iterable"""
        if isinstance(v, tuple): return list(v)
        if isinstance(v, str): return list(v)
        if isinstance(v, bytes): return [num(x) for x in v]
        if isinstance(v, S) and v.byt:
            from .builtins_ import bytelist
            return bytelist(v)
        if isinstance(v, Ref):
            c = self.cell(st, v.id)
            if isinstance(c, GCell):
                d = self.decide(c.c, st)
                if isinstance(d, bool):
                    st.heap[v.id] = c.a if d else c.b
                    return self.iterate(v, st, node)
                raise SplitNeeded(c.c)
            if isinstance(c, Seq): return list(c.c)
            if isinstance(c, DictC):
                return [self.notmaybe(ko, vv) for ko, vv in c.d.values()]
            if isinstance(c, SetC): return self.setitems(c)
            if isinstance(c, IterC):
                r = list(c.items[c.pos:])
                st.heap[v.id] = IterC(c.items, len(c.items))
                return r
            if isinstance(c, Inst):
                if "__native__" in c.f: return self.iterate(c.f["__native__"], st, node)
                m = self.lookup(c.cls, "__iter__", st)
                if m is not MISSING:
                    r = self.call(self.bind(m, v, c.cls, st), [], {}, st)
                    if r == v: raise Unsupported("iterator protocol")
                    return self.iterate(r, st, node)
                m = self.lookup(c.cls, "__getitem__", st)
                ln = self.lookup(c.cls, "__len__", st)
                if m is not MISSING and ln is not MISSING:
                    k = self.call(self.bind(ln, v, c.cls, st), [], {}, st)
                    if isinstance(k, N) and k.const() is not None:
                        return [self.call(self.bind(m, v, c.cls, st), [num(i)], {}, st) for i in range(int(k.const()))]
                self.raise_(st, "TypeError", "%s is not iterable" % c.cls.name)
            if isinstance(c, FileC): raise Unsupported("iterate file")
        if isinstance(v, G):
            d = self.decide(v.c, st)
            if isinstance(d, bool): return self.iterate(v.a if d else v.b, st, node)
            raise SplitNeeded(v.c)
        if v is None or isinstance(v, (N, bool)): self.raise_(st, "TypeError", "not iterable")
        if isinstance(v, InstDict): return list(self.cell(st, v.ref.id).f)
        raise Unsupported("iterate %s" % T.show(v))
    def notmaybe(self, ko, vv):
        if self.contains_missing(vv): raise Unsupported("dictionary with conditional keys")
        return ko

    # --- operators -----------------------------------------------------------------------------------
    def deext(self, v):
        return opaque("ext", v.name) if isinstance(v, Ext) else v

    def binop(self, op, a, b, st):
        a, b = self.deext(a), self.deext(b)
        if isinstance(a, G) and not (isinstance(b, (N,)) and False):
            return self.dist(a, st, lambda x, s: self.binop(op, x, b, s))
        if isinstance(b, G):
            return self.dist(b, st, lambda y, s: self.binop(op, a, y, s))
        an, bn = isinstance(a, (N, bool, B)), isinstance(b, (N, bool, B))
        if op is ast.BitAnd and isbool(a) and isbool(b): return band(a, b)
        if op is ast.BitOr and isbool(a) and isbool(b): return bor(a, b)
        if (an or isinstance(a, X)) and (bn or isinstance(b, X)):
            if isinstance(a, X) and isinstance(b, X) or isinstance(a, X) or isinstance(b, X):
                if op is ast.Mod and isinstance(a, X) and not bn: return opaque("mod", a, b)
            return self.numop(op, tonum(a), tonum(b), st)
        if isinstance(a, (str, bytes, S)):
            if op is ast.Add:
                if isinstance(b, (str, bytes, S)):
                    ab = isinstance(a, bytes) or (isinstance(a, S) and a.byt)
                    bb = isinstance(b, bytes) or (isinstance(b, S) and b.byt)
                    if ab != bb: self.raise_(st, "TypeError", "bytes and str concatenated")
                    return sconcat(a, b)
                if isinstance(b, X): return sconcat(a, S((b,), isinstance(a, bytes)))
            if op is ast.Mod: return self.percent(a, b, st)
            if op is ast.Mult and isinstance(b, N) and b.const() is not None and not isinstance(a, S): return a*int(b.const())
            if op is ast.Mult and isinstance(b, X): return opaque("strmul", a, b)
        if isinstance(b, (str, bytes, S)) and isinstance(a, X) and op is ast.Add: return sconcat(S((a,)), b)
        if isinstance(b, (str, bytes)) and op is ast.Mult and isinstance(a, N) and a.const() is not None: return b*int(a.const())
        if isinstance(a, tuple) and isinstance(b, tuple) and op is ast.Add: return a + b
        if isinstance(a, tuple) and isinstance(b, N) and op is ast.Mult and b.const() is not None: return a*int(b.const())
        if isinstance(b, tuple) and isinstance(a, N) and op is ast.Mult and a.const() is not None: return b*int(a.const())
        for x in (a, b):
            if isinstance(x, Ref) and isinstance(self.cell(st, x.id), GCell):
                return self.cellsplit(x, st, lambda s: self.binop(op, a, b, s))
        ca = self.cell(st, a.id) if isinstance(a, Ref) else None
        cb = self.cell(st, b.id) if isinstance(b, Ref) else None
        if isinstance(ca, Seq) and op is ast.Add and isinstance(cb, Seq): return self.mklist(st, ca.c + cb.c)
        if isinstance(ca, Seq) and op is ast.Mult and isinstance(b, N) and b.const() is not None:
            return self.mklist(st, ca.c*int(b.const()))
        if isinstance(cb, Seq) and op is ast.Mult and isinstance(a, N) and a.const() is not None:
            return self.mklist(st, cb.c*int(a.const()))
        if isinstance(ca, SetC) and isinstance(cb, SetC):
            if op is ast.BitOr: return self.alloc(st, SetC({**ca.d, **cb.d}))
            if op is ast.BitAnd: return self.alloc(st, SetC({k: v for k, v in ca.d.items() if k in cb.d}))
            if op is ast.Sub: return self.alloc(st, SetC({k: v for k, v in ca.d.items() if k not in cb.d}))
        n, rn = BINOPS[op]
        la = isinstance(ca, Inst); lb = isinstance(cb, Inst)
        if lb and la and cb.cls is not ca.cls and self.issub(cb.cls, ca.cls) and self.lookup(cb.cls, rn, st) is not self.lookup(ca.cls, rn, st):
            m = self.lookup(cb.cls, rn, st)
            if m is not MISSING:
                r = self.call(self.bind(m, b, cb.cls, st), [a], {}, st)
                if r is not NOTIMPL: return r
        if la:
            m = self.lookup(ca.cls, n, st)
            if m is not MISSING:
                r = self.call(self.bind(m, a, ca.cls, st), [b], {}, st)
                if r is not NOTIMPL: return r
            elif "__native__" in ca.f: return self.binop(op, ca.f["__native__"], b, st)
        if lb:
            m = self.lookup(cb.cls, rn, st)
            if m is not MISSING:
                r = self.call(self.bind(m, b, cb.cls, st), [a], {}, st)
                if r is not NOTIMPL: return r
            elif "__native__" in cb.f: return self.binop(op, a, cb.f["__native__"], st)
        if isinstance(a, X) or isinstance(b, X): return opaque("bin" + op.__name__, self.freeze(a, st), self.freeze(b, st))
        self.raise_(st, "TypeError", "unsupported operand types for %s: %s and %s" % (op.__name__, T.show(a), T.show(b)))

    def numop(self, op, a, b, st):
        try:
            if op is ast.Add: return T.add(a, b)
            if op is ast.Sub: return T.sub(a, b)
            if op is ast.Mult: return T.mul(a, b)
            if op is ast.Div:
                if self.divguard: self.raise_if(T.eqn(b, ZERO), st, "ZeroDivisionError")
                return T.div(a, b)
            if op is ast.Pow: return T.power(a, b)
            if op is ast.Mod: return T.func("mod", a, b)
            if op is ast.FloorDiv: return T.func("floordiv", a, b)
            m = {ast.BitAnd: "band", ast.BitOr: "bor", ast.BitXor: "bxor", ast.LShift: "lshift", ast.RShift: "rshift"}.get(op)
            if m: return T.func(m, a, b)
        except T.DivZero:
            self.raise_(st, "ZeroDivisionError")
        raise Unsupported("numeric operator")

    def percent(self, f, b, st):
        if isinstance(f, S): raise Unsupported("symbolic format")
        byt = isinstance(f, bytes)
        fs = f.decode("latin-1") if byt else f
        import re
        items = list(b) if isinstance(b, tuple) else [b]
        parts = []; i = 0; pos = 0
        mapping = None
        for m in re.finditer(r"%(\(\w+\))?([-+ #0]*)(\*|\d+)?(\.(\*|\d+))?([a-zA-Z%])", fs):
            parts.append(fs[pos:m.start()]); pos = m.end()
            if m.group(6) == "%": parts.append("%"); continue
            if m.group(3) == "*" or m.group(5) == "*": raise Unsupported("* format")
            if m.group(1):
                v = self.getitem(b, m.group(1)[1:-1], st)
                mapping = True
                spec = "%" + m.group(0)[1:].replace(m.group(1), "", 1)
            else:
                if i >= len(items): self.raise_(st, "TypeError", "not enough arguments for format string")
                v = items[i]; i += 1
                spec = m.group(0)
            if byt and m.group(6) in "sb":
                if isinstance(v, str) or isinstance(v, N) or isinstance(v, S) and not v.byt: self.raise_(st, "TypeError", "%b requires a bytes-like object")
                if isinstance(v, bytes) and len(spec) == 2 or isinstance(v, S): parts.append(v); continue
            parts.append(self.fmt(spec, v, st))
        parts.append(fs[pos:])
        if not mapping and i < len(items) and not (len(items) == 1 and isinstance(b, Ref)):
            self.raise_(st, "TypeError", "not all arguments converted during string formatting")
        if byt: parts = [p.encode("latin-1") if isinstance(p, str) else p for p in parts]
        r = sconcat(b"" if byt else "", *parts)
        return r

    def fmt(self, spec, v, st):
        """formatted value as str or symbolic part"""
        kind = spec[-1] if spec[0] == "%" else spec
        if isinstance(v, bool) or v is None:
            if spec in ("!s", "!r") or kind in "sr": return T.fmt_value(spec, v)
            if v is not None: v = tonum(v)
        if isinstance(v, G):
            return S((G(v.c, S((self.fmt(spec, v.a, st),)), S((self.fmt(spec, v.b, st),))),))
        if isinstance(v, (str, S)) and spec in ("!s", "%s", "{}", "{:}"): return v
        if isinstance(v, str):
            if spec[0] == "%" and kind in "dioxXeEfFgG": self.raise_(st, "TypeError", "number required for " + spec)
            try: return T.fmt_value(spec, v)
            except (T.Undefined, Unsupported): self.raise_(st, "ValueError", "format")
        if isinstance(v, bytes):
            if spec[0] == "%" and kind in "dioxXeEfFgG": self.raise_(st, "TypeError", "number required for " + spec)
            return T.fmt_value(spec, v) if kind != "s" else repr(v)
        if isinstance(v, N):
            c = v.const()
            if c is not None and (spec[0] == "%" and kind in "dioxXeEfFgGs" or c.denominator == 1 and spec in ("!s", "!r", "{}", "{:}")):
                try: return T.fmt_value(spec, c)
                except (T.Undefined, Unsupported): self.raise_(st, "ValueError", "format")
            return S((("fmt", spec, v),))
        if isinstance(v, Ref):
            c = self.cell(st, v.id)
            if isinstance(c, GCell): return self.cellsplit(v, st, lambda s: self.fmt(spec, v, s))
            if isinstance(c, Inst):
                if spec[0] == "%" and kind in "eEfFgG":
                    m = self.lookup(c.cls, "__float__", st)
                    if m is not MISSING: return self.fmt(spec, self.call(self.bind(m, v, c.cls, st), [], {}, st), st)
                m = self.lookup(c.cls, "__str__" if spec not in ("!r", "%r") else "__repr__", st)
                if m is MISSING and spec not in ("!r", "%r"): m = self.lookup(c.cls, "__repr__", st)
                if m is not MISSING:
                    r = self.call(self.bind(m, v, c.cls, st), [], {}, st)
                    return self.fmt(spec, r, st) if isinstance(r, (str, S, G)) else r
                if "__native__" in c.f: return self.fmt(spec, c.f["__native__"], st)
            if spec[0] == "%" and kind in "dioxXeEfFgG" : self.raise_(st, "TypeError", "number required for " + spec)
            return S((("fmt", "!s", self.unfold(v, st)),))
        if isinstance(v, tuple): 
            if spec[0] == "%" and kind in "dioxXeEfFgG" : self.raise_(st, "TypeError", "number required for " + spec)
            return S((("fmt", "!s", self.freeze(v, st)),))
        if isinstance(v, (X, S, B)):
            return S((("fmt", spec, v),))
        if v is None and kind in "dioxXeEfFgG": self.raise_(st, "TypeError", "number required for " + spec)
        return repr(v)

    def compare(self, op, a, b, st):
        if not isinstance(op, (ast.Is, ast.IsNot, ast.In, ast.NotIn)): a, b = self.deext(a), self.deext(b)
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.is_(a, b, st)
            return bnot(r) if isinstance(op, ast.IsNot) else r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a, st)
            return bnot(r) if isinstance(op, ast.NotIn) else r
        if isinstance(op, ast.Eq): return self.equal(a, b, st)
        if isinstance(op, ast.NotEq):
            if isinstance(a, Ref) and isinstance(self.cell(st, a.id), Inst):
                c = self.cell(st, a.id)
                m = self.lookup(c.cls, "__ne__", st)
                if m is not MISSING:
                    r = self.call(self.bind(m, a, c.cls, st), [b], {}, st)
                    if r is not NOTIMPL: return r
            return bnot(self.truth(self.equal(a, b, st), st))
        if isinstance(a, G): return self.dist(a, st, lambda x, s: self.compare(op, x, b, s))
        if isinstance(b, G): return self.dist(b, st, lambda y, s: self.compare(op, a, y, s))
        nm = {ast.Lt: "__lt__", ast.Gt: "__gt__", ast.LtE: "__le__", ast.GtE: "__ge__"}[type(op)]
        rf = {"__lt__": "__gt__", "__gt__": "__lt__", "__le__": "__ge__", "__ge__": "__le__"}
        if isinstance(a, (N, bool, B, X)) and isinstance(b, (N, bool, B, X)):
            x, y = tonum(a), tonum(b)
            return {"__lt__": lambda: T.lt(x, y), "__gt__": lambda: T.lt(y, x),
                    "__le__": lambda: bnot(T.lt(y, x)), "__ge__": lambda: bnot(T.lt(x, y))}[nm]()
        for x, y, n in ((a, b, nm), (b, a, rf[nm])):
            if isinstance(x, Ref):
                c = self.cell(st, x.id)
                if isinstance(c, GCell): return self.cellsplit(x, st, lambda s: self.compare(op, a, b, s))
                if isinstance(c, Inst):
                    m = self.lookup(c.cls, n, st)
                    if m is not MISSING:
                        r = self.call(self.bind(m, x, c.cls, st), [y], {}, st)
                        if r is not NOTIMPL: return r
                    elif n == "__gt__" and self.lookup(c.cls, "__le__", st) is not MISSING and self.total(c.cls):
                        r = self.call(self.bind(self.lookup(c.cls, "__le__", st), x, c.cls, st), [y], {}, st)
                        return bnot(self.truth(r, st))
                    elif self.total(c.cls):
                        ltm = self.lookup(c.cls, "__lt__", st)
                        if ltm is not MISSING:
                            l = self.truth(self.call(self.bind(ltm, x, c.cls, st), [y], {}, st), st)
                            e = self.truth(self.equal(x, y, st), st)
                            if n == "__le__": return bor(l, e)
                            if n == "__gt__": return band(bnot(l), bnot(e))
                            if n == "__ge__": return bnot(l)
        if isinstance(a, (str, bytes)) and type(a) is type(b):
            return {"__lt__": a < b, "__gt__": a > b, "__le__": a <= b, "__ge__": a >= b}[nm]
        if isinstance(a, tuple) and isinstance(b, tuple):
            return self.lexi(nm, a, b, st)
        if isinstance(a, Ref) and isinstance(b, Ref) and isinstance(self.cell(st, a.id), Seq) and isinstance(self.cell(st, b.id), Seq):
            return self.lexi(nm, self.cell(st, a.id).c, self.cell(st, b.id).c, st)
        if isinstance(a, X) or isinstance(b, X): return T.bterm("app", nm, self.freeze(a, st), self.freeze(b, st))
        if isinstance(a, S) or isinstance(b, S): return T.bterm("app", nm, a, b)
        self.raise_(st, "TypeError", "unorderable %s and %s" % (T.show(a), T.show(b)))

    def total(self, cls):
        for c in cls.mro():
            if c.node is not None:
                for d in c.node.decorator_list:
                    if "total_ordering" in ast.dump(d): return True
        return False

    def lexi(self, nm, a, b, st):
        if not a or not b:
            la, lb = len(a), len(b)
            return {"__lt__": la < lb, "__gt__": la > lb, "__le__": la <= lb, "__ge__": la >= lb}[nm]
        e = self.truth(self.equal(a[0], b[0], st), st)
        strict = {"__lt__": ast.Lt(), "__le__": ast.Lt(), "__gt__": ast.Gt(), "__ge__": ast.Gt()}[nm]
        return self.branch(e, st, lambda s: self.lexi(nm, a[1:], b[1:], s),
                           lambda s: self.truth(self.compare(strict, a[0], b[0], s), s))

    def is_(self, a, b, st):
        if isinstance(a, G): return T.bite(a.c, self.is_(a.a, b, st), self.is_(a.b, b, st))
        if isinstance(b, G): return T.bite(b.c, self.is_(a, b.a, st), self.is_(a, b.b, st))
        if a is b: return True
        if a is None or b is None:
            o = b if a is None else a
            if isinstance(o, X): return T.bterm("isv", o, None)
            return False
        if isinstance(a, bool) or isinstance(b, bool):
            if isinstance(a, bool) and isinstance(b, bool): return a == b
            o = b if isinstance(a, bool) else a
            if isinstance(o, B): return o if (a is True or b is True) else bnot(o)
            if isinstance(o, X): return T.bterm("isv", o, a if isinstance(a, bool) else b)
            return False
        if isinstance(a, Ref) and isinstance(b, Ref): return a.id == b.id
        if isinstance(a, X) and isinstance(b, X): return T.bterm("isv", a, b)
        if isinstance(a, X) or isinstance(b, X):
            o = b if isinstance(a, X) else a
            x = a if isinstance(a, X) else b
            if isinstance(o, Ref): return False
            if isinstance(o, ClassV): return T.bterm("isv", x, repr(o))
            return T.bterm("isv", x, o) if not isinstance(o, (Func, Builtin, Bound)) else False
        if isinstance(a, (N, str, bytes, tuple)) and type(a) is type(b): return a == b
        if isinstance(a, (Bound, Method)): return a == b
        return False

    def equal(self, a, b, st):
        if a is b and not isinstance(a, (Ref,)): return True
        if isinstance(a, G): return self.dist(a, st, lambda x, s: self.equal(x, b, s))
        if isinstance(b, G): return self.dist(b, st, lambda y, s: self.equal(a, y, s))
        if isinstance(a, (N, bool, B)) and isinstance(b, (N, bool, B)):
            if isbool(a) and isbool(b):
                return T.bite(a, b, bnot(b))
            return T.eqn(tonum(a), tonum(b))
        if isinstance(a, (str, bytes)) and isinstance(b, (str, bytes)): return type(a) is type(b) and a == b
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b): return False
            return band(*[self.truth(self.equal(x, y, st), st) for x, y in zip(a, b)])
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Ref):
                c = self.cell(st, x.id)
                if isinstance(c, GCell): return self.cellsplit(x, st, lambda s: self.equal(a, b, s))
                if isinstance(c, Inst):
                    m = self.lookup(c.cls, "__eq__", st)
                    if m is not MISSING:
                        r = self.call(self.bind(m, x, c.cls, st), [y], {}, st)
                        if r is not NOTIMPL: return r
                    if "__native__" in c.f: return self.equal(c.f["__native__"], y, st)
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.id == b.id: return True
            ca, cb = self.cell(st, a.id), self.cell(st, b.id)
            if isinstance(ca, Seq) and isinstance(cb, Seq): return self.equal(ca.c, cb.c, st)
            if isinstance(ca, DictC) and isinstance(cb, DictC):
                if set(ca.d) != set(cb.d): return False
                return band(*[self.truth(self.equal(v[1], cb.d[k][1], st), st) for k, v in ca.d.items()])
            if isinstance(ca, SetC) and isinstance(cb, SetC): return set(ca.d) == set(cb.d)
            return False
        if isinstance(a, X) or isinstance(b, X):
            if a == b: return True
            if isinstance(a, N) or isinstance(b, N): return T.eqn(tonum(a), tonum(b))
            return T.bterm("eqv", self.freeze(a, st), self.freeze(b, st))
        if isinstance(a, S) or isinstance(b, S):
            if a == b: return True
            if isinstance(a, (S, str, bytes)) and isinstance(b, (S, str, bytes)):
                if textdiffers(a, b): return False
                return T.bterm("eqv", a, b)
            return False
        if isinstance(a, (Bound, Method)): return a == b
        return False

    def contains(self, container, x, st):
        if isinstance(container, G): return self.dist(container, st, lambda c, s: self.contains(c, x, s))
        if isinstance(x, G): return self.dist(x, st, lambda y, s: self.contains(container, y, s))
        if isinstance(container, (str, bytes)) and isinstance(x, (str, bytes)):
            if type(container) is not type(x): self.raise_(st, "TypeError", "bytes in str")
            return x in container
        if isinstance(container, bytes) and isinstance(x, N) and x.const() is not None: return int(x.const()) in container
        if isinstance(container, (S, X)) or isinstance(x, S) and isinstance(container, (str, bytes)):
            return T.bterm("app", "in", x, container)
        if isinstance(container, Ref):
            c = self.cell(st, container.id)
            if isinstance(c, GCell): return self.cellsplit(container, st, lambda s: self.contains(container, x, s))
            if isinstance(c, (DictC, SetC)):
                k = self.key(x)
                if k in c.d:
                    if isinstance(c, DictC):
                        v = c.d[k][1]
                        return self.presence(v)
                    return True
                if self.keysymbolic(k) or any(self.keysymbolic(q) for q in c.d):
                    r = []
                    for q, kv in c.d.items():
                        ko = kv[0] if isinstance(c, DictC) else kv
                        r.append(self.truth(self.equal(ko, x, st), st))
                    return bor(*r)
                return False
            if isinstance(c, Inst):
                m = self.lookup(c.cls, "__contains__", st)
                if m is not MISSING:
                    return self.truth(self.call(self.bind(m, container, c.cls, st), [x], {}, st), st)
                if "__native__" in c.f: return self.contains(c.f["__native__"], x, st)
        if isinstance(container, InstDict):
            return x in self.cell(st, container.ref.id).f
        items = self.iterate(container, st)
        r = []
        for y in items:
            r.append(bor(self.is_(y, x, st), self.truth(self.equal(y, x, st), st)))
        return bor(*r)
    def presence(self, v):
        if v is MISSING: return False
        if isinstance(v, G) and self.contains_missing(v): return T.bite(v.c, self.presence(v.a), self.presence(v.b))
        return True

    # --- subscripts -----------------------------------------------------------------------------------
    def intconst(self, v):
        if isinstance(v, bool): return int(v)
        if isinstance(v, N):
            c = v.const()
            if c is not None and c.denominator == 1: return int(c)
        return None

    def getitem(self, o, i, st):
        if isinstance(o, G): return self.dist(o, st, lambda x, s: self.getitem(x, i, s))
        if isinstance(i, G): return self.dist(i, st, lambda y, s: self.getitem(o, y, s))
        if isinstance(o, (tuple, str, bytes)):
            return self.seqget(o, i, st)
        if isinstance(o, Ref):
            c = self.cell(st, o.id)
            if isinstance(c, GCell): return self.cellsplit(o, st, lambda s: self.getitem(o, i, s))
            if isinstance(c, Seq):
                r = self.seqget(c.c, i, st)
                if isinstance(i, tuple) and i and i[0] == "slice": return self.mklist(st, r)
                return r
            if isinstance(c, DictC):
                k = self.key(i)
                if k in c.d:
                    return self.notmissing(c.d[k][1], st, "KeyError", "key")
                if self.keysymbolic(k):
                    def go(items, s):
                        if not items: self.raise_(s, "KeyError", "key")
                        ko, v = items[0]
                        return self.branch(self.truth(self.equal(ko, i, s), s), s, lambda s: v, lambda s: go(items[1:], s))
                    return go(list(c.d.values()), st)
                self.raise_(st, "KeyError", T.show(i))
            if isinstance(c, Inst):
                m = self.lookup(c.cls, "__getitem__", st)
                if m is not MISSING:
                    if isinstance(i, tuple) and i and i[0] == "slice":
                        i = self.alloc(st, Inst(self.objc, {"start": i[1], "stop": i[2], "step": i[3], "__slice__": True}))
                    return self.call(self.bind(m, o, c.cls, st), [i], {}, st)
                if "__native__" in c.f: return self.getitem(c.f["__native__"], i, st)
                self.raise_(st, "TypeError", "%s is not subscriptable" % c.cls.name)
        if isinstance(o, X):
            return opaque("item", o, self.freeze(i, st) if not isinstance(i, tuple) else tuple(self.freeze(x, st) for x in i))
        if isinstance(o, S):
            if o.byt and all(isinstance(p, bytes) or isinstance(p, tuple) and p and p[0] == "chr" for p in o.parts):
                from . import builtins_
                bl = tuple(builtins_.bytelist(o))
                if isinstance(i, tuple) and i and i[0] == "slice": return builtins_.b_bytes(self, [self.seqget(bl, i, st)], {}, st)
                return self.seqget(bl, i, st)
            if isinstance(i, tuple) and i and i[0] == "slice" and i[3] is None:
                from . import builtins_
                r = builtins_.slicetext(self, o, i[1], i[2], st)
                if r is not None: return r
            return opaque("item", o, self.freeze(i, st))
        if isinstance(o, InstDict):
            return self.getattr(o.ref, i, st)
        self.raise_(st, "TypeError", "%s is not subscriptable" % T.show(o))

    def seqget(self, o, i, st):
        if isinstance(i, Ref):
            c = self.cell(st, i.id)
            if isinstance(c, Inst) and "__slice__" in c.f: i = ("slice", c.f["start"], c.f["stop"], c.f["step"])
        if isinstance(i, tuple) and i and i[0] == "slice":
            idx = []
            for x in i[1:]:
                if x is None: idx.append(None); continue
                k = self.intconst(x)
                if k is None: raise Unsupported("symbolic slice")
                idx.append(k)
            return o[slice(*idx)]
        k = self.intconst(i)
        if k is not None:
            if -len(o) <= k < len(o):
                r = o[k]
                return num(r) if isinstance(o, bytes) else r
            self.raise_(st, "IndexError", "index %d of %d" % (k, len(o)))
        if isinstance(i, (N, X)):
            i = tonum(i)
            if len(o) > 64: return opaque("item", o if isinstance(o, (str, bytes)) else tuple(o), i)
            def go(k, s):
                if k == len(o): self.raise_(s, "IndexError", "symbolic index")
                v = num(o[k]) if isinstance(o, bytes) else o[k]
                return self.branch(bor(T.eqn(i, num(k)), T.eqn(i, num(k-len(o)))), s, lambda s: v, lambda s: go(k+1, s))
            return go(0, st)
        self.raise_(st, "TypeError", "index type")

    def setitem(self, o, i, v, st):
        if isinstance(o, G):
            self.dist(o, st, lambda x, s: self.setitem(x, i, v, s)); return
        if isinstance(i, G):
            self.dist(i, st, lambda y, s: self.setitem(o, y, v, s)); return
        if isinstance(o, Ref):
            c = self.cell(st, o.id)
            if isinstance(c, GCell):
                self.cellsplit(o, st, lambda s: self.setitem(o, i, v, s)); return
            if isinstance(c, Seq):
                if isinstance(i, tuple) and i and i[0] == "slice":
                    idx = [None if x is None else self.intconst(x) for x in i[1:]]
                    l = list(c.c)
                    l[slice(*idx)] = self.iterate(v, st)
                    st.heap[o.id] = Seq(tuple(l)); return
                k = self.intconst(i)
                if k is None:
                    if isinstance(i, N):
                        l = list(c.c)
                        for j in range(len(l)):
                            l[j] = gamma(bor(T.eqn(i, num(j)), T.eqn(i, num(j-len(l)))), v, l[j])
                        st.heap[o.id] = Seq(tuple(l)); return
                    raise Unsupported("list index")
                if not -len(c.c) <= k < len(c.c): self.raise_(st, "IndexError", "assignment index")
                l = list(c.c); l[k] = v
                st.heap[o.id] = Seq(tuple(l)); return
            if isinstance(c, DictC):
                k = self.key(i)
                d = dict(c.d)
                if k in d: d[k] = (d[k][0], v)
                else: d[k] = (i, v)
                st.heap[o.id] = DictC(d); return
            if isinstance(c, Inst):
                m = self.lookup(c.cls, "__setitem__", st)
                if m is not MISSING:
                    self.call(self.bind(m, o, c.cls, st), [i, v], {}, st); return
                if "__native__" in c.f:
                    self.setitem(c.f["__native__"], i, v, st); return
        if isinstance(o, InstDict):
            self.setattr(o.ref, i, v, st); return
        if isinstance(o, X): return
        self.raise_(st, "TypeError", "item assignment")

    def delitem(self, o, i, st):
        if isinstance(o, Ref):
            c = self.cell(st, o.id)
            if isinstance(c, GCell):
                self.cellsplit(o, st, lambda s: self.delitem(o, i, s)); return
            if isinstance(c, Seq):
                l = list(c.c)
                if isinstance(i, tuple) and i and i[0] == "slice":
                    idx = [None if x is None else self.intconst(x) for x in i[1:]]
                    del l[slice(*idx)]
                else:
                    k = self.intconst(i)
                    if k is None: raise Unsupported("del symbolic index")
                    if not -len(l) <= k < len(l): self.raise_(st, "IndexError", "del index")
                    del l[k]
                st.heap[o.id] = Seq(tuple(l)); return
            if isinstance(c, DictC):
                k = self.key(i)
                if k not in c.d: self.raise_(st, "KeyError", "del")
                d = dict(c.d); del d[k]
                st.heap[o.id] = DictC(d); return
            if isinstance(c, Inst):
                if "__native__" in c.f: self.delitem(c.f["__native__"], i, st); return
                self.callmethod(o, "__delitem__", [i], {}, st); return
        raise Unsupported("del item")

    def callmethod(self, o, name, args, kw, st):
        return self.call(self.getattr(o, name, st), args, kw, st)

    # --- pure snapshots -----------------------------------------------------------------------------
    ignore_fields = frozenset()
    numtexts = {}

    def unfold(self, v, st, seen=()):
        """term without references to the heap"""
        if isinstance(v, Ref):
            if v.id in seen: return ("cycle", num(len(seen)-seen.index(v.id)))
            c = self.cell(st, v.id)
            return self.unfoldcell(c, st, seen + (v.id,))
        if isinstance(v, tuple): return tuple(self.unfold(x, st, seen) for x in v)
        if isinstance(v, G): return gamma(v.c, self.unfold(v.a, st, seen), self.unfold(v.b, st, seen))
        if isinstance(v, (Func, ClassV, Builtin, Ext, Module, Wrap)): return ("V", repr(v))
        if isinstance(v, Bound): return ("bound", repr(v.func), self.unfold(v.self, st, seen))
        if isinstance(v, Method): return ("method", v.name, self.unfold(v.obj, st, seen))
        if v is MISSING: return ("missing",)
        if isinstance(v, S): return S(tuple(self.unfold(p, st, seen) if not isinstance(p, (str, bytes)) else p for p in v.parts), v.byt)
        if v is Ellipsis or isinstance(v, (NotImpl, SuperV, InstDict)): return ("V", type(v).__name__)
        return v

    def unfoldcell(self, c, st, seen):
        if isinstance(c, GCell): return gamma(c.c, self.unfoldcell(c.a, st, seen), self.unfoldcell(c.b, st, seen))
        if isinstance(c, Inst):
            fs = []
            for k in sorted(c.f):
                if k in self.ignore_fields or c.cls.name + "." + k in self.ignore_fields: continue
                x = self.unfold(c.f[k], st, seen)
                fs.append((k, x))
            return ("O", c.cls.fullname, tuple(fs))
        if isinstance(c, Seq): return ("L",) + tuple(self.unfold(x, st, seen) for x in c.c)
        if isinstance(c, DictC):
            return ("D",) + tuple((self.unfold(k, st, seen), self.unfold(x, st, seen)) for k, x in sorted(c.d.values(), key=lambda kv: repr(self.key(kv[0]))))
        if isinstance(c, SetC): return ("Set",) + tuple(sorted((self.unfold(x, st, seen) for x in c.d.values()), key=repr))
        if isinstance(c, FileC): return ("File", c.s)
        if isinstance(c, IterC): return ("L",) + tuple(self.unfold(x, st, seen) for x in c.items[c.pos:])
        return ("cell", repr(c))

    def reach(self, v, st, acc=None):
        """ids of mutable heap objects reachable from v"""
        if acc is None: acc = {}
        stack = [v]
        while stack:
            v = stack.pop()
            if isinstance(v, Ref):
                if v.id in acc: continue
                acc[v.id] = True
                stack.append(self.cell(st, v.id))
            elif isinstance(v, (tuple, list)): stack.extend(v)
            elif isinstance(v, G): stack.extend((v.a, v.b))
            elif isinstance(v, GCell): stack.extend((v.a, v.b))
            elif isinstance(v, Inst): stack.extend(x for k, x in v.f.items() if k not in self.ignore_fields)
            elif isinstance(v, Seq): stack.extend(v.c)
            elif isinstance(v, DictC):
                for k, x in v.d.values(): stack.append(k); stack.append(x)
            elif isinstance(v, SetC): stack.extend(v.d.values())
            elif isinstance(v, Bound): stack.append(v.self)
        return acc

class SplitNeeded(Unsupported):
    def __init__(self, c):
        Unsupported.__init__(self, "iteration over gated sequence")
        self.c = c

from . import builtins_ as _b
Interp.builtin = _b.builtin
Interp.method = _b.method
