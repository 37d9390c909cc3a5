"""Whole program abstract interpretation over kinds of values

Every function of the package is executed abstractly over its syntax tree.  A value is a finite
set of tags (instance of a class of the package, bytes, text, number, container of ..., module,
function, class) or unknown (TOP).  Results of functions, attributes of instances and globals are
joined over the whole package until nothing changes.  A conclusion is drawn only if it holds for
every tag a value can have, i.e. unknown values never give rise to a report.
"""
import ast, os, builtins, importlib, inspect, re, string

TOP = None
BOT = frozenset()
LIMIT = 14

class X:
    "an object from outside the package (standard library)"
    cache = {}
    def __new__(cls, o):
        k = id(o)
        if k not in X.cache:
            x = object.__new__(cls); x.o = o
            X.cache[k] = x
        return X.cache[k]
    def __repr__(self): return "<%s>" % getattr(self.o, "__name__", self.o)

class Module:
    def __init__(self, name, path, tree, package):
        self.name = name; self.path = path; self.tree = tree; self.package = package
        self.env = {}      # globals: joined over all assignments
        self.submodules = {}

class Class:
    def __init__(self, name, node, module, parent):
        self.name = name; self.node = node; self.module = module; self.parent = parent
        self.bases = []; self.external = []; self.unknown = False
        self.attrs = {}     # class level
        self.iattrs = {}    # instance level
        self.subs = set()
        self.qual = module.name.replace("pyx.", "", 1) + "." + ((parent.qual.split(".", 1)[-1] + ".") if parent else "") + name
    def __repr__(self): return self.name
    def mro(self):
        if not hasattr(self, "_mro"):
            try: self._mro = c3(self)
            except (ValueError, RecursionError): self._mro = [self]
        return self._mro
    def descendants(self):
        r = []; todo = [self]
        while todo:
            c = todo.pop()
            for s in sorted(c.subs, key=lambda s: s.qual):
                if s not in r: r.append(s); todo.append(s)
        return r
    def related(self):
        if not hasattr(self, "_rel"):
            r = list(self.mro())
            for d in self.descendants():
                for c in d.mro():
                    if c not in r: r.append(c)
            self._rel = r
        return self._rel
    def openclass(self):
        return any(c.unknown for c in self.related())
    def externals(self):
        r = []
        for c in self.related():
            r += c.external
        return r
    def isexception(self):
        return any(isinstance(e, type) and issubclass(e, BaseException) for c in self.mro() for e in c.external)

def c3(c):
    seqs = [c3(b) for b in c.bases] + [list(c.bases)]
    seqs = [list(s) for s in seqs if s]
    r = [c]
    while seqs:
        for s in seqs:
            h = s[0]
            if not any(h in t[1:] for t in seqs): break
        else: raise ValueError("mro")
        r.append(h)
        seqs = [[x for x in s if x is not h] for s in seqs]
        seqs = [s for s in seqs if s]
    return r

class Func:
    def __init__(self, name, node, module, cls, parent):
        self.name = name; self.node = node; self.module = module; self.cls = cls; self.parent = parent
        self.ret = BOT; self.kind = None; self.opaque = False; self.property = False
        self.allvars = {}
        self.argtypes = {}
        self.called = False
        self.gen = False
        owner = cls if cls is not None else parent
        self.qual = (owner.qual if owner is not None else module.name.replace("pyx.", "", 1)) + "." + name
        a = node.args
        self.pos = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.ndef = len(a.defaults)
        self.kwdef = {k.arg for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.locals = None
        self.globals = set()
    def __repr__(self): return self.qual

def bind(fn, npos, star, kws, dstar, first):
    """does the call fit the function? returns None or what does not fit"""
    pos = fn.pos
    n = npos + (1 if first else 0)
    if n > len(pos) and not fn.vararg:
        return "takes %d positional argument%s, %d given" % (len(pos), "" if len(pos) == 1 else "s", n)
    given = set(pos[:n])
    for k in kws:
        if k in given: return "multiple values for %s" % k
        if k not in pos and k not in fn.kwonly and not fn.kwarg: return "no parameter %s" % k
    if not star and not dstar:
        for p in pos[n:len(pos) - fn.ndef]:
            if p not in kws: return "parameter %s missing" % p
    if not dstar:
        for p in fn.kwonly:
            if p not in kws and p not in fn.kwdef: return "parameter %s missing" % p
    return None

# --- joins ---
def depth(t):
    if t is TOP: return 0
    m = 0
    for tag in t:
        for x in tag[1:]:
            if isinstance(x, frozenset): m = max(m, 1 + depth(x))
    return m
def cap(t, d=3):
    if t is TOP: return TOP
    if d == 0: return TOP
    r = set()
    for tag in t:
        if any(isinstance(x, frozenset) for x in tag[1:]):
            tag = tuple(cap(x, d-1) if isinstance(x, frozenset) else x for x in tag)
        r.add(tag)
    return frozenset(r)
def join(a, b):
    if a is TOP or b is TOP: return TOP
    if a is b or not b: return a
    if not a: return b
    r = set(a) | set(b)
    for kind in ("list", "set", "iter", "dict"):
        l = [t for t in r if t[0] == kind]
        if len(l) > 1:
            r -= set(l)
            m = l[0]
            for x in l[1:]: m = (kind,) + tuple(join(u, v) for u, v in zip(m[1:], x[1:]))
            r.add(m)
    l = [t for t in r if t[0] == "tuple"]
    if len(l) > 1:
        r -= set(l)
        if len({len(t) for t in l}) == 1 and not any(t[1] == "*" for t in l):
            m = ("tuple",) + tuple(joinall([t[i] for t in l]) for i in range(1, len(l[0])))
        else: m = ("tuple", "*", joinall([elem_tuple(t) for t in l]))
        r.add(m)
    if len(r) > LIMIT: return TOP
    return cap(frozenset(r))
def joinall(l):
    r = BOT
    for x in l: r = join(r, x)
    return r
def elem_tuple(t): return t[2] if t[1:2] == ("*",) else joinall(t[1:])

def T(*tag): return frozenset([tag])
NONE = T("none"); INT = T("int"); FLOAT = T("float"); BOOL = T("bool"); STR = T("str"); BYTES = T("bytes"); UNBOUND = ("unbound",)
EXT = T("ext"); NUM = frozenset([("int",), ("float",)])
def LIST(e): return cap(T("list", e))
def ITER(e): return cap(T("iter", e))
BASIC = {"none": type(None), "int": int, "float": float, "bool": bool, "str": str, "bytes": bytes, "bytearray": bytearray, "complex": complex, "list": list, "tuple": tuple, "dict": dict, "set": set, "func": type(bind)}

STRRET = {}
for m in "capitalize casefold center expandtabs format format_map join ljust lower lstrip replace rjust rstrip strip swapcase title translate upper zfill removeprefix removesuffix".split(): STRRET[m] = "self"
for m in "split rsplit splitlines".split(): STRRET[m] = "list"
for m in "partition rpartition".split(): STRRET[m] = "tuple"
for m in "find rfind index rindex count".split(): STRRET[m] = "int"
for m in "startswith endswith isalnum isalpha isascii isdecimal isdigit isidentifier islower isnumeric isprintable isspace istitle isupper".split(): STRRET[m] = "bool"

class Report:
    def __init__(self, rule, prop, construct, message, where):
        self.rule, self.prop, self.construct, self.message, self.where = rule, prop, construct, message, where

class Program:
    def __init__(self, repo, pkg="pyx"):
        self.repo = repo
        self.modules = {}
        self.classes = {}   # node -> Class
        self.funcs = {}     # node -> Func
        self.augvalues = {} # augmented assignment -> kinds of the value
        self.sets = {}      # attribute assigned -> kinds of its object
        self.augs = {}      # augmented assignment -> kinds of its target
        self.wild = {}      # attributes set on unknown objects
        self.wildnames = set()
        self.attrnames = set()
        self.reports = []
        self.reporting = False
        self.counts = {}
        self.methods = {}   # name -> functions
        self.changed = False
        self.callees = {}   # call -> what it can reach
        self.phase = 0; self.depth = 0; self.frozen = 0; self.specials = {}
        root = os.path.join(repo, pkg)
        for dirpath, dirs, files in sorted(os.walk(root)):
            dirs.sort()
            for f in sorted(files):
                if not f.endswith(".py"): continue
                path = os.path.join(dirpath, f)
                rel = os.path.relpath(path, repo)[:-3].replace(os.sep, ".")
                ispkg = rel.endswith(".__init__")
                name = rel[:-9] if ispkg else rel
                with open(path, encoding="utf-8") as fh: tree = ast.parse(fh.read(), path)
                self.modules[name] = Module(name, path, tree, name if ispkg else name.rsplit(".", 1)[0])
        for name, m in self.modules.items():
            if "." in name and name.rsplit(".", 1)[0] in self.modules:
                self.modules[name.rsplit(".", 1)[0]].submodules[name.rsplit(".", 1)[1]] = m
        self.declare()

    # --- declarations: classes, functions, names of attributes ---
    def declare(self):
        def walk(node, module, cls, fn):
            for ch in ast.iter_child_nodes(node):
                if isinstance(ch, ast.ClassDef):
                    c = Class(ch.name, ch, module, cls if cls is not None else None)
                    c.fn = fn
                    self.classes[ch] = c
                    self.attrnames.add(ch.name)
                    walk(ch, module, c, fn)
                elif isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    f = Func(ch.name, ch, module, cls, fn)
                    self.funcs[ch] = f
                    self.attrnames.add(ch.name)
                    if cls is not None: self.methods.setdefault(ch.name, []).append(f)
                    for d in ch.decorator_list:
                        if isinstance(d, ast.Name) and d.id == "staticmethod": f.kind = "static"
                        elif isinstance(d, ast.Name) and d.id == "classmethod": f.kind = "class"
                        elif isinstance(d, ast.Name) and d.id == "property": f.property = True
                        else: f.opaque = True
                    scope(f)
                    walk(ch, module, None, f)
                elif isinstance(ch, ast.Lambda):
                    f = Func("<lambda>", ch, module, None, fn)
                    f.defcls = cls
                    self.funcs[ch] = f
                    scope(f)
                    walk(ch, module, None, f)
                else:
                    if isinstance(ch, ast.Attribute) and isinstance(ch.ctx, ast.Store):
                        self.attrnames.add(ch.attr)
                    if isinstance(ch, ast.Name) and isinstance(ch.ctx, ast.Store): self.attrnames.add(ch.id)
                    if isinstance(ch, ast.keyword) and ch.arg: self.attrnames.add(ch.arg)
                    if isinstance(ch, ast.alias): self.attrnames.add((ch.asname or ch.name).split(".")[0])
                    if isinstance(ch, ast.Constant) and isinstance(ch.value, str) and ch.value.isidentifier(): self.attrnames.add(ch.value)
                    walk(ch, module, cls, fn)
        def scope(f):
            names = set(f.pos) | set(f.kwonly) | ({f.vararg} if f.vararg else set()) | ({f.kwarg} if f.kwarg else set())
            glob = set(); nonl = set()
            def bound(n):
                for ch in ast.iter_child_nodes(n):
                    if isinstance(ch, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                        names.add(ch.name)
                        for d in ch.decorator_list: bound(d)
                        continue
                    if isinstance(ch, ast.Lambda): continue
                    if isinstance(ch, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                        for w in ast.walk(ch):
                            if isinstance(w, ast.NamedExpr): names.add(w.target.id)
                        continue
                    if isinstance(ch, ast.Name) and isinstance(ch.ctx, (ast.Store, ast.Del)): names.add(ch.id)
                    elif isinstance(ch, ast.Global): glob.update(ch.names)
                    elif isinstance(ch, ast.Nonlocal): nonl.update(ch.names)
                    elif isinstance(ch, ast.ExceptHandler) and ch.name: names.add(ch.name)
                    elif isinstance(ch, ast.alias): names.add((ch.asname or ch.name).split(".")[0])
                    elif isinstance(ch, (ast.Yield, ast.YieldFrom)): f.gen = True
                    bound(ch)
            body = f.node.body if isinstance(f.node.body, list) else [f.node.body]
            for s in body: bound(ast.Module([s], []) if isinstance(s, ast.stmt) else ast.Expr(s))
            f.globals = glob
            f.nonlocals = nonl
            f.locals = names - glob - nonl
        for m in self.modules.values(): walk(m.tree, m, None, None)

    def note(self, kind, n=1): self.counts[kind] = self.counts.get(kind, 0) + n

    # --- running ---
    def run(self, maxpasses=9):
        self.passes = 0
        for self.phase in (0, 1):
            for i in range(maxpasses):
                self.changed = False
                self.once()
                self.passes += 1
                if not self.changed and i > 0: break
        self.reporting = True
        self.reports = []; self.counts = {}
        self.once()
        self.mixtures()
        self.reporting = False
        return self

    def once(self):
        for m in self.modules.values():
            Exec(self, m, None, None).module()
        for node, f in list(self.funcs.items()):
            if isinstance(node, ast.Lambda): continue
            if f.parent is None: self.function(f)

    def mixtures(self):
        "variables, attributes, parameters and results which are text at one place and bytes at another"
        S = {("str",), ("bytes",)}
        def twokinds(c):
            "the class works on text or on bytes, as derived classes tell"
            ex = Exec(self, c.module, None, c)
            ks = {ex.kindofclass(d) for d in c.related()} - {None}
            return len(ks) > 1
        def look(d, owner, what, module, line):
            for k, v in d.items():
                if v is TOP: continue
                self.note("kinds of variables")
                if S <= v: self.reports.append(Report("kinds", "C28", "%s: %s %s is text and bytes" % (owner, what, k), "%s %s is text at one place and bytes at another" % (what, k), "%s:%d" % (os.path.relpath(module.path, self.repo), line)))
        for c in self.classes.values():
            if twokinds(c): continue
            look(c.attrs, c.qual, "attribute", c.module, c.node.lineno); look(c.iattrs, c.qual, "attribute", c.module, c.node.lineno)
        for m in self.modules.values(): look(m.env, m.name, "global", m, 1)
        for f in self.funcs.values():
            if f.cls is not None and twokinds(f.cls): continue
            look({"of " + f.name: f.ret}, f.qual, "result", f.module, f.node.lineno)
            look(f.argtypes, f.qual, "parameter", f.module, f.node.lineno)

    def function(self, f):
        ex = Exec(self, f.module, f, f.cls)
        ex.runfunction()

    def setret(self, f, t):
        if self.frozen: return
        n = join(f.ret, t)
        if n != f.ret: f.ret = n; self.changed = True
    def setvar(self, d, name, t):
        if self.frozen: return
        o = d.get(name, BOT)
        if t is not TOP: t = frozenset(x for x in t if x != UNBOUND)
        n = join(o, t)
        if name not in d or n != o: d[name] = n; self.changed = True

class Dead(Exception): pass

def joinenv(a, b):
    if a is None: return b
    if b is None: return a
    r = {}
    for k in a.keys() | b.keys():
        x, y = a.get(k, _U), b.get(k, _U)
        r[k] = x if x is y else join(x, y)
    return r
_U = frozenset([UNBOUND])

class Exec:
    "abstract execution of one function or module body"
    def __init__(self, prog, module, fn, cls):
        self.p = prog; self.m = module; self.fn = fn; self.cls = cls
        self.loops = []; self.tries = []
        self.exact = False # self is no instance of a derived class

    # --- reports ---
    def name(self):
        if self.fn is not None: return self.fn.qual
        if self.cls is not None: return self.cls.qual
        return self.m.name
    def report(self, rule, node, detail, prop="C27"):
        if not self.p.reporting: return
        self.p.reports.append(Report(rule, prop, "%s: %s" % (self.name(), detail), detail,
                                     "%s:%d" % (os.path.relpath(self.m.path, self.p.repo), getattr(node, "lineno", 0))))
    def note(self, kind):
        if self.p.reporting: self.p.note(kind)

    # --- bodies ---
    def module(self):
        self.env = dict()
        self.g = True
        try: self.block(self.m.tree.body)
        except Dead: pass

    def runfunction(self):
        f = self.fn; self.g = False
        env = {}
        a = f.node.args
        self.env = None
        closed = f.name.startswith("_") and not f.name.startswith("__")
        pos = f.pos
        defaults = dict(zip(pos[len(pos)-f.ndef:], a.defaults))
        for i, p in enumerate(pos):
            if i == 0 and f.cls is not None and f.kind != "static":
                env[p] = T("class", f.cls) if f.kind == "class" or f.name == "__new__" else T("inst", f.cls)
            else:
                t = f.argtypes.get(p, BOT) if f.called or self.p.phase == 0 else TOP
                if t is not TOP: t = t - NONE
                # what the library itself never passes can be anything
                env[p] = t if t or self.p.phase == 0 and t is not TOP else TOP
        for p in f.kwonly: env[p] = TOP
        if f.vararg: env[f.vararg] = T("tuple", "*", TOP)
        if f.kwarg: env[f.kwarg] = T("dict", STR, TOP)
        for k, v in env.items(): self.p.setvar(f.allvars, k, v)
        self.env = env
        self.yields = BOT; self.rets = BOT
        if isinstance(f.node, ast.Lambda):
            t = self.ev(f.node.body)
            self.p.setret(f, TOP if f.gen else t)
            return t
        try:
            self.block(f.node.body)
            self.rets = join(self.rets, NONE)
        except Dead: pass
        if f.gen: self.p.setret(f, ITER(self.yields))
        elif f.opaque: self.p.setret(f, TOP)
        else: self.p.setret(f, self.rets)
        if self.p.reporting: self.p.note("functions")
        for n, g in self.p.funcs.items():
            if g.parent is f and not isinstance(n, ast.Lambda): self.p.function(g)

    def block(self, stmts):
        for s in stmts:
            self.stmt(s)

    # --- environment ---
    def bindname(self, name, t):
        if self.fn is not None and name in self.fn.locals:
            self.env[name] = t
            self.p.setvar(self.fn.allvars, name, t)
            for c in self.tries: c[name] = join(c.get(name, _U), t)
        elif self.fn is not None and name in self.fn.globals:
            self.p.setvar(self.m.env, name, t)
        elif self.fn is not None and name in self.fn.nonlocals:
            g = self.fn.parent
            while g is not None and name not in g.locals: g = g.parent
            if g is not None: self.p.setvar(g.allvars, name, t)
        elif self.fn is None and self.cls is not None:
            self.env[name] = t
            self.p.setvar(self.cls.attrs, name, t)
            for c in self.tries: c[name] = join(c.get(name, _U), t)
        else:
            self.env[name] = t
            self.p.setvar(self.m.env, name, t)
            for c in self.tries: c[name] = join(c.get(name, _U), t)

    def lookup(self, name, node):
        self.note("names")
        if (self.fn is None or name in self.fn.locals) and (self.fn is not None or name in self.env):
            t = self.env.get(name, _U)
            if t == _U:
                self.report("names", node, "local variable %s is used before it is set" % name)
                return BOT
            if t is not TOP and UNBOUND in t:
                t = t - _U
            return t
        if self.fn is None and self.cls is not None and name in self.cls.attrs and name in self.env:
            return self.env[name]
        g = self.fn.parent if self.fn is not None and name not in self.fn.globals else (getattr(self.cls, "fn", None) if self.fn is None and self.cls is not None else None)
        if self.fn is not None and name in self.fn.globals: g = None
        while g is not None:
            if name in g.locals: return g.allvars.get(name, BOT)
            g = g.parent
        if name in self.m.env: return self.m.env[name]
        if hasattr(builtins, name): return self.xval(getattr(builtins, name))
        if name in ("__file__", "__name__"): return STR
        if name in ("__path__", "__spec__", "__loader__", "__class__", "__builtins__", "__package__"): return TOP
        if self.p.reporting: self.report("names", node, "name %s is not defined" % name)
        return BOT if not self.p.reporting else TOP

    def xval(self, o):
        if o is None: return NONE
        if o is True or o is False: return BOOL
        for k, c in (("int", int), ("float", float), ("str", str), ("bytes", bytes)):
            if type(o) is c: return T(k)
        if inspect.ismodule(o) or callable(o): return T("x", X(o))
        if type(o) is tuple or type(o) is list or type(o) is dict: return TOP
        return EXT

    # --- statements ---
    def stmt(self, s):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None: return
        m(s)

    def s_Expr(self, s):
        t = self.ev(s.value)
        if isinstance(s.value, ast.Call):
            c = self.excclass(t)
            if c: self.report("raises", s, "exception %s is created but not raised" % c)
            if t == BOT and isinstance(s.value.func, ast.Attribute): pass

    def excclass(self, t):
        if t is TOP or not t: return None
        n = None
        for tag in t:
            if tag[0] == "inst" and tag[1].isexception(): n = tag[1].name
            elif tag[0] == "xi" and issubclass(tag[1].o, BaseException): n = tag[1].o.__name__
            else: return None
        return n

    def s_Pass(self, s): pass
    def s_Global(self, s): pass
    def s_Import(self, s):
        for a in s.names:
            top = a.name.split(".")[0]
            if a.asname: self.bindname(a.asname, self.importmod(a.name, s))
            else:
                self.importmod(a.name, s)
                self.bindname(top, self.importmod(top, s))
    def importmod(self, name, node):
        self.note("imports")
        if name in self.p.modules: return T("mod", self.p.modules[name])
        if name.split(".")[0] == "pyx":
            return TOP
        try: return T("x", X(importlib.import_module(name)))
        except Exception: return EXT
    def s_ImportFrom(self, s):
        base = s.module or ""
        if s.level:
            pk = self.m.package.split(".")
            pk = pk[:len(pk) - (s.level - 1)]
            base = ".".join(pk + ([s.module] if s.module else []))
        mod = self.p.modules.get(base)
        for a in s.names:
            self.note("imports")
            if a.name == "*":
                if mod is not None:
                    for k, v in list(mod.env.items()):
                        if not k.startswith("_"): self.bindname(k, v)
                continue
            n = a.asname or a.name
            if mod is None:
                if base.split(".")[0] == "pyx": self.bindname(n, TOP); continue
                try:
                    x = importlib.import_module(base)
                except Exception: self.bindname(n, EXT); continue
                if hasattr(x, a.name): self.bindname(n, self.xval(getattr(x, a.name)))
                else:
                    try: self.bindname(n, T("x", X(importlib.import_module(base + "." + a.name))))
                    except Exception: self.report("imports", s, "module %s has no %s" % (base, a.name)); self.bindname(n, TOP)
            elif a.name in mod.env: self.bindname(n, mod.env[a.name])
            elif a.name in mod.submodules: self.bindname(n, T("mod", mod.submodules[a.name]))
            else:
                if self.p.reporting and not self.cextension(mod, a.name): self.report("imports", s, "module %s has no %s" % (base, a.name))
                self.bindname(n, EXT if self.cextension(mod, a.name) else TOP if self.p.reporting else BOT)
    def cextension(self, mod, name):
        d = os.path.dirname(mod.path)
        return name.startswith("_") and (os.path.exists(os.path.join(d, name + ".c")) or any(f.startswith(name + ".") for f in os.listdir(d))) or name == "pykpathsea" or any(f.startswith(name + ".") or f.startswith(name+"module") for f in os.listdir(d))

    def s_FunctionDef(self, s):
        f = self.p.funcs[s]
        for d in s.args.defaults + [x for x in s.args.kw_defaults if x is not None]: self.ev(d)
        for d in s.decorator_list: self.ev(d)
        if f.opaque: t = self.decorated(f)
        else: t = T("func", f)
        self.bindname(s.name, t)
    def decorated(self, f): return TOP
    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, s):
        c = self.p.classes[s]
        bases = []
        for b in s.bases:
            t = self.ev(b)
            tags = sorted(t, key=repr) if t is not TOP else None
            if tags is None: c.unknown = True
            elif len(tags) == 1 and tags[0][0] == "class": bases.append(tags[0][1])
            elif len(tags) == 1 and tags[0][0] == "x" and isinstance(tags[0][1].o, type):
                o = tags[0][1].o
                if o is not object and o not in c.external: c.external.append(o)
            elif tags: c.unknown = True
        for k in s.keywords: self.ev(k.value); c.unknown = True
        if bases != c.bases:
            c.bases = bases
            for b in bases: b.subs.add(c)
            for k in self.p.classes.values():
                for a in ("_mro", "_rel"):
                    if hasattr(k, a): delattr(k, a)
            self.p.changed = True
        ex = Exec(self.p, self.m, None, c)
        ex.env = {}; ex.g = False
        ex.outer = self
        try: ex.block(s.body)
        except Dead: pass
        if self.p.reporting: self.p.note("classes")
        self.bindname(s.name, T("class", c))

    def s_Return(self, s):
        t = self.ev(s.value) if s.value is not None else NONE
        self.rets = join(self.rets, t)
        raise Dead()
    def s_Raise(self, s):
        if s.exc is not None:
            self.note("raises")
            t = self.ev(s.exc)
            if s.cause is not None: self.ev(s.cause)
            if t is not TOP and t:
                bad = True
                for tag in t:
                    if tag[0] in ("inst", "class") and (tag[1].isexception() or tag[1].openclass()): bad = False
                    elif tag[0] == "x" and not (isinstance(tag[1].o, type) and not issubclass(tag[1].o, BaseException)) and isinstance(tag[1].o, type): bad = False
                    elif tag[0] == "xi" and issubclass(tag[1].o, BaseException): bad = False
                if bad: self.report("raises", s, "raised object is not an exception (%s)" % show(t))
        raise Dead()
    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.lookup(t.id, t)
                if t.id in self.env: self.env[t.id] = _U
                for c in self.tries: c[t.id] = join(c.get(t.id, _U), _U)
            elif isinstance(t, ast.Subscript): self.ev(t.value); self.ev(t.slice)
            elif isinstance(t, ast.Attribute): self.ev(t.value)
    def s_Assign(self, s):
        t = self.ev(s.value)
        for x in s.targets: self.assign(x, t, s)
    def s_AnnAssign(self, s):
        if s.value is not None: self.assign(s.target, self.ev(s.value), s)
    def s_AugAssign(self, s):
        load = {ast.Name: lambda n: ast.Name(n.id, ast.Load()), ast.Attribute: lambda n: ast.Attribute(n.value, n.attr, ast.Load()), ast.Subscript: lambda n: ast.Subscript(n.value, n.slice, ast.Load())}[type(s.target)](s.target)
        ast.copy_location(load, s.target)
        l = self.ev(load); r = self.ev(s.value)
        if self.p.reporting: self.p.augs[s] = l if l is TOP else self.p.augs.get(s, frozenset()) | l if self.p.augs.get(s) is not TOP else TOP
        if self.p.reporting: self.p.augvalues[s] = TOP if r is TOP or self.p.augvalues.get(s) is TOP else self.p.augvalues.get(s, frozenset()) | r
        t = self.binop(s.op, l, r, s, s.value, aug=True)
        self.assign(s.target, t, s)
    def assign(self, x, t, node):
        if isinstance(x, ast.Name): self.bindname(x.id, t)
        elif isinstance(x, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(x.elts) if isinstance(e, ast.Starred)]
            if t is not TOP and len(t) == 1 and not star:
                tag = next(iter(t))
                if tag[0] == "tuple" and tag[1:2] != ("*",):
                    self.note("unpackings")
                    if len(tag) - 1 != len(x.elts):
                        self.report("unpack", node, "%d values for %d targets" % (len(tag)-1, len(x.elts)))
                    else:
                        for e, u in zip(x.elts, tag[1:]): self.assign(e, u, node)
                        return
            if t is not TOP and t and all(tag[0] in ("none", "int", "float", "bool", "func", "mod", "class") for tag in t):
                self.report("unpack", node, "%s cannot be unpacked" % show(t))
            e = self.elem(t, node)
            for y in x.elts: self.assign(y.value if isinstance(y, ast.Starred) else y, LIST(e) if isinstance(y, ast.Starred) else e, node)
        elif isinstance(x, ast.Attribute):
            o = self.ev(x.value)
            if self.p.reporting: self.p.sets.setdefault(x, set()).update((TOP,) if o is TOP else o)
            self.setattr(o, x.attr, t)
        elif isinstance(x, ast.Subscript):
            if self.fn is None and self.cls is None and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Name) and x.value.func.id in ("locals", "globals"):
                self.reexport(node); return
            o = self.ev(x.value); k = self.ev(x.slice)
            if o is not TOP:
                new = BOT
                for tag in o:
                    if tag[0] == "dict": new = join(new, cap(frozenset([("dict", join(tag[1], k), join(tag[2], t))])))
                    elif tag[0] == "list": new = join(new, LIST(join(tag[1], t if not isinstance(x.slice, ast.Slice) else self.elem(t, node))))
                if o and all(tag[0] in ("str", "bytes", "int", "float", "none", "tuple", "func", "mod") for tag in o):
                    self.report("subscript", node, "item assignment to %s" % show(o))
                if new: self.update(x.value, new)
        elif isinstance(x, ast.Starred): self.assign(x.value, LIST(self.elem(t, node)), node)
    def reexport(self, node):
        "locals()[name] = getattr(module, name) for the names of literal lists of this module"
        v = node.value
        src = self.ev(v.args[0]) if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "getattr" and v.args else TOP
        for st in self.m.tree.body:
            if isinstance(st, ast.For) and node in ast.walk(st) and isinstance(st.iter, ast.Name):
                for d in self.m.tree.body:
                    if isinstance(d, ast.Assign) and any(isinstance(y, ast.Name) and y.id == st.iter.id for y in d.targets) and isinstance(d.value, (ast.List, ast.Tuple)):
                        for e in d.value.elts:
                            if isinstance(e, ast.Constant) and isinstance(e.value, str):
                                t = self.attribute(src, e.value, v) if src is not TOP else TOP
                                self.bindname(e.value, t)
    def update(self, node, t):
        "a container got new items"
        if isinstance(node, ast.Name):
            n = node.id
            if self.fn is not None and n in self.fn.locals: self.bindname(n, join(self.env.get(n, BOT), t))
            elif self.fn is not None:
                g = self.fn.parent
                while g is not None:
                    if n in g.locals: self.p.setvar(g.allvars, n, t); return
                    g = g.parent
                if n in self.m.env: self.p.setvar(self.m.env, n, t)
            elif self.cls is not None: self.bindname(n, join(self.env.get(n, BOT), t))
            else: self.bindname(n, join(self.env.get(n, BOT), t))
        elif isinstance(node, ast.Attribute):
            self.setattr(self.ev(node.value), node.attr, t)
        elif isinstance(node, ast.Subscript):
            o = self.ev(node.value)
            if o is not TOP:
                for tag in o:
                    if tag[0] == "dict": self.update(node.value, cap(T("dict", tag[1], join(tag[2], t))))
                    elif tag[0] == "list": self.update(node.value, LIST(join(tag[1], t)))
    def escape(self, node):
        "a container is handed out: others may put items in"
        if isinstance(node, (ast.Name, ast.Attribute)):
            t = self.ev(node) if isinstance(node, ast.Name) else None
            if t is None or t is TOP: return
            new = frozenset(("list", TOP) if x[0] == "list" else ("dict", TOP, TOP) if x[0] == "dict" else x for x in t)
            if new != t and isinstance(node, ast.Name) and node.id in self.env: self.bindname(node.id, new)
    def setattr(self, o, name, t):
        if t is not TOP: t = frozenset(x for x in t if x != UNBOUND)
        if o is TOP:
            self.p.wildnames.add(name); self.p.setvar(self.p.wild, name, t); return
        for tag in o:
            if tag[0] == "inst": self.p.setvar(tag[1].iattrs, name, t)
            elif tag[0] == "class": self.p.setvar(tag[1].attrs, name, t)
            elif tag[0] == "mod": self.p.setvar(tag[1].env, name, t)
            elif tag[0] == "func":
                if not hasattr(tag[1], "fattrs"): tag[1].fattrs = {}
                self.p.setvar(tag[1].fattrs, name, t)

    # control flow
    def branch(self, stmts, env):
        "execute in an environment, return the resulting one"
        if env is None: return None
        old = self.env
        self.env = dict(env)
        try:
            self.block(stmts)
            r = self.env
        except Dead: r = None
        self.env = old
        return r
    def resume(self, env):
        if env is None: raise Dead()
        self.env = env
    def s_If(self, s):
        self.ev(s.test)
        a, b = self.narrow(s.test, True), self.narrow(s.test, False)
        self.resume(joinenv(self.branch(s.body, a), self.branch(s.orelse, b)))
    def s_While(self, s):
        env = self.env; out = None
        rep, self.p.reporting = self.p.reporting, False
        done = False
        for i in range(6):
            if done: self.p.reporting = rep
            self.env = dict(env)
            self.ev(s.test)
            a, b = self.narrow(s.test, True), self.narrow(s.test, False)
            if isinstance(s.test, ast.Constant) and s.test.value: b = None
            self.loops.append([None, None])
            r = self.branch(s.body, a)
            br, co = self.loops.pop()
            r = joinenv(r, co)
            out = br
            new = joinenv(env, r)
            if done: break
            done = new == env or i == 4
            env = new
        self.p.reporting = rep
        e = self.branch(s.orelse, b) if s.orelse else b
        self.resume(joinenv(e, out))
    def s_For(self, s):
        it = self.ev(s.iter)
        if it is not TOP and it and all(t[0] in ("none", "int", "float", "bool", "func", "mod") for t in it):
            self.report("iterate", s, "%s cannot be iterated" % show(it))
        e = self.elem(it, s)
        env = self.env; br = None
        rep, self.p.reporting = self.p.reporting, False
        done = False
        for i in range(6):
            if done: self.p.reporting = rep
            self.env = dict(env)
            self.loops.append([None, None])
            self.assign(s.target, e, s)
            r = self.branch(s.body, self.env)
            br, co = self.loops.pop()
            new = joinenv(env, joinenv(r, co))
            if done: break
            done = new == env or i == 4
            env = new
        self.p.reporting = rep
        x = self.branch(s.orelse, env) if s.orelse else env
        self.resume(joinenv(x, br))
    def s_Break(self, s):
        if self.loops: self.loops[-1][0] = joinenv(self.loops[-1][0], dict(self.env))
        raise Dead()
    def s_Continue(self, s):
        if self.loops: self.loops[-1][1] = joinenv(self.loops[-1][1], dict(self.env))
        raise Dead()
    def s_With(self, s):
        for i in s.items:
            t = self.ev(i.context_expr)
            r = TOP
            if t is not TOP:
                r = BOT
                for tag in (t - NONE if len(t) > 1 else t):
                    if tag[0] == "file": r = join(r, frozenset([tag]))
                    elif tag[0] == "inst":
                        m = self.getattr1(tag, "__enter__", i.context_expr)
                        if m is MISSING:
                            if not tag[1].openclass(): self.report("attributes", s, "%s cannot be used in a with statement" % tag[1].name)
                            r = TOP
                        else: r = join(r, self.callvalue(m, [], {}, False, False, s) if m is not TOP else TOP)
                    elif tag[0] in ("str", "bytes", "int", "none", "list", "dict", "tuple", "func", "mod"):
                        if len(t) == 1: self.report("attributes", s, "%s cannot be used in a with statement" % show(t))
                        r = TOP
                    else: r = TOP
            if i.optional_vars is not None: self.assign(i.optional_vars, r, s)
        self.block(s.body)
    def s_Try(self, s):
        start = dict(self.env)
        c = dict(start)
        self.tries.append(c)
        body = None
        old = self.env
        body = self.branch(s.body, self.env)
        self.tries.pop()
        outs = [self.branch(s.orelse, body) if s.orelse else body]
        f = dict(c)
        for h in s.handlers:
            self.env = dict(c)
            t = TOP
            if h.type is not None:
                self.note("handlers")
                if isinstance(h.type, ast.BoolOp): self.report("raises", h, "except clause names %s, which catches one of them only" % ast.unparse(h.type))
                et = self.ev(h.type)
                if et is not TOP:
                    for tag in et:
                        for u in ([x for y in tag[1:] if isinstance(y, frozenset) for x in y] if tag[0] == "tuple" else [tag]):
                            if u[0] in ("str", "bytes", "int", "none", "list", "mod", "func", "inst") or u[0] == "class" and not u[1].isexception() and not u[1].openclass() or u[0] == "x" and not (isinstance(u[1].o, type) and issubclass(u[1].o, BaseException)):
                                self.report("raises", h, "except clause names %s, which is no exception" % ast.unparse(h.type)); break
                    if len(et) == 1:
                        tag = next(iter(et))
                        if tag[0] == "class": t = T("inst", tag[1])
                        elif tag[0] == "x" and isinstance(tag[1].o, type): t = T("xi", tag[1])
            env = dict(self.env)
            if h.name: env[h.name] = t
            if h.name: self.p.setvar(self.fn.allvars if self.fn else self.m.env, h.name, t)
            self.tries.append(f)
            outs.append(self.branch(h.body, env))
            self.tries.pop()
        r = None
        for o in outs: r = joinenv(r, o)
        self.env = old
        if s.finalbody:
            fin = self.branch(s.finalbody, joinenv(r, f))
            if r is not None:
                self.env = r
                self.block(s.finalbody)
                return
            self.resume(None)
        self.resume(r)
    s_TryStar = s_Try
    def s_Assert(self, s):
        self.ev(s.test)
        if isinstance(s.test, ast.Tuple) and s.test.elts: self.report("raises", s, "assertion of a tuple always succeeds")
        if s.msg is not None: self.ev(s.msg)
        self.resume(self.narrow(s.test, True) if not (isinstance(s.test, ast.Constant) and not s.test.value) else None)

    # --- narrowing ---
    def narrow(self, test, truth):
        env = dict(self.env)
        ok = self.nar(test, truth, env)
        return env if ok else None
    def nar(self, test, truth, env):
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not): return self.nar(test.operand, not truth, env)
        if isinstance(test, ast.BoolOp):
            conj = isinstance(test.op, ast.And) == truth
            if conj:
                return all([self.nar(v, truth, env) for v in test.values])
            envs = []
            for v in test.values:
                e = dict(env)
                if self.nar(v, truth, e): envs.append(e)
            if not envs: return False
            r = envs[0]
            for e in envs[1:]: r = joinenv(r, e)
            env.clear(); env.update(r)
            return True
        if isinstance(test, ast.Name) and test.id in env:
            t = env[test.id]
            if t is not TOP:
                if t == T("true" if not truth else "false"): return False
                if truth: n = t - NONE
                else: n = frozenset(x for x in t if not (x[0] in ("func", "class", "mod") or x[0] == "inst" and not has(x[1], ("__bool__", "__len__"))))
                if t and not n: return False
                env[test.id] = n
            return True
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Name) and test.left.id in env:
            c = test.comparators[0]; n = test.left.id; t = env[n]
            if isinstance(c, ast.Constant) and c.value is None and isinstance(test.ops[0], (ast.Is, ast.IsNot)):
                pos = isinstance(test.ops[0], ast.Is) == truth
                if t is TOP:
                    if pos: env[n] = NONE
                    return True
                r = frozenset(x for x in t if (x == ("none",)) == pos)
                if t and not r: return False
                env[n] = r
            return True
        if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id == "isinstance" and len(test.args) == 2 and isinstance(test.args[0], ast.Name) and test.args[0].id in env:
            n = test.args[0].id; t = env[n]
            old = self.p.reporting; self.p.reporting = False
            ct = self.ev(test.args[1]); self.p.reporting = old
            cl = self.classlist(ct)
            if cl is None:
                if truth: env[n] = TOP
                return True
            if t is TOP:
                if truth:
                    r = BOT
                    for c in cl:
                        if isinstance(c, Class): r = join(r, T("inst", c))
                        else:
                            k = [k for k, v in BASIC.items() if v is c and k in ("int", "float", "bool", "str", "bytes", "complex", "none")]
                            r = join(r, T(k[0])) if k else TOP
                        if r is TOP: break
                    env[n] = r
                return True
            def yes(tag):
                "True, False or None"
                for c in cl:
                    if isinstance(c, Class):
                        if tag[0] == "inst":
                            if c in tag[1].mro(): return True
                            if c in tag[1].related() or tag[1].openclass(): return None
                    elif isinstance(c, type):
                        if tag[0] in BASIC:
                            if issubclass(BASIC[tag[0]], c): return True
                        elif tag[0] == "inst":
                            if any(issubclass(e, c) for k in tag[1].mro() for e in k.external): return True
                            if tag[1].openclass() or tag[1].externals(): return None
                            if c is object: return True
                        else: return None
                return False
            r = frozenset(x for x in t if yes(x) is not (not truth))
            if t and not r: return False
            env[n] = r
            return True
        return True
    def classlist(self, ct):
        if ct is TOP or len(ct) != 1: return None
        tag = next(iter(ct))
        if tag[0] == "class": return [tag[1]]
        if tag[0] == "x" and isinstance(tag[1].o, type): return [tag[1].o]
        if tag[0] == "tuple" and tag[1:2] != ("*",):
            r = []
            for x in tag[1:]:
                l = self.classlist(x)
                if l is None: return None
                r += l
            return r
        return None

    # --- expressions ---
    def ev(self, n):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            for ch in ast.iter_child_nodes(n):
                if isinstance(ch, ast.expr): self.ev(ch)
            return TOP
        return m(n)
    def e_Constant(self, n): return self.xval(n.value) if not n.value is Ellipsis else TOP
    def e_Name(self, n): return self.lookup(n.id, n)
    def e_Starred(self, n): return self.elem(self.ev(n.value), n)
    def e_Tuple(self, n):
        ts = [self.ev(e) for e in n.elts]
        if any(isinstance(e, ast.Starred) for e in n.elts): return cap(T("tuple", "*", joinall(ts)))
        return cap(frozenset([("tuple",) + tuple(ts)]))
    def e_List(self, n): return LIST(joinall([self.ev(e) for e in n.elts]))
    def e_Set(self, n): return cap(T("set", joinall([self.ev(e) for e in n.elts])))
    def e_Dict(self, n):
        k = v = BOT
        for a, b in zip(n.keys, n.values):
            if a is None: self.ev(b); k = v = TOP; continue
            k = join(k, self.ev(a)); v = join(v, self.ev(b))
        return cap(frozenset([("dict", k, v)]))
    def e_JoinedStr(self, n):
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                t = self.ev(v.value)
                if only(t, "bytes") and v.conversion == -1: self.report("kinds", n, "bytes are formatted as text", "C28")
                if v.format_spec is not None: self.ev(v.format_spec)
        return STR
    def e_Lambda(self, n):
        f = self.p.funcs[n]
        ex = Exec(self.p, self.m, f, None)
        f.qual = self.name() + ".<lambda>"
        # free variables are looked up when called: join over all values
        ex.runfunction()
        return T("func", f)
    def e_IfExp(self, n):
        self.ev(n.test)
        a, b = self.narrow(n.test, True), self.narrow(n.test, False)
        old = self.env
        r = BOT
        for env, x in ((a, n.body), (b, n.orelse)):
            if env is None: continue
            self.env = env
            r = join(r, self.ev(x))
        self.env = old
        return r
    def e_BoolOp(self, n):
        old = self.env
        r = BOT
        env = dict(self.env)
        for i, v in enumerate(n.values):
            self.env = env
            t = self.ev(v)
            env2 = self.narrow(v, isinstance(n.op, ast.And))
            last = i == len(n.values) - 1
            if isinstance(n.op, ast.Or) and not last and t is not TOP: t = t - NONE
            r = join(r, t)
            if env2 is None: break
            env = env2
        self.env = old
        return r
    def e_UnaryOp(self, n):
        t = self.ev(n.operand)
        if isinstance(n.op, ast.Not): return BOOL
        if t is not TOP and t and all(x[0] in ("str", "bytes", "none", "list", "dict", "tuple", "func", "mod", "class") for x in t): self.report("operators", n, "sign of %s" % show(t))
        if t is not TOP and all(x[0] in ("int", "float", "bool") for x in t): return frozenset(("int",) if x[0] == "bool" else x for x in t)
        return TOP
    def e_NamedExpr(self, n):
        t = self.ev(n.value); self.bindname(n.target.id, t); return t
    def e_Await(self, n): return TOP
    def e_Yield(self, n):
        t = self.ev(n.value) if n.value is not None else NONE
        if self.fn is not None and hasattr(self, "yields"): self.yields = join(self.yields, t)
        return TOP
    def e_YieldFrom(self, n):
        t = self.elem(self.ev(n.value), n)
        if self.fn is not None and hasattr(self, "yields"): self.yields = join(self.yields, t)
        return TOP
    def comp(self, n, f):
        old = self.env; fnlocals = self.fn.locals if self.fn is not None else None
        self.env = dict(self.env)
        ex = self
        saved = set()
        names = {w.id for g in n.generators for w in ast.walk(g.target) if isinstance(w, ast.Name)}
        allv = None
        if self.fn is not None:
            self.fn.locals = self.fn.locals | names
        else:
            gsave = {k: self.m.env[k] for k in names if k in self.m.env} if self.cls is None else {k: self.cls.attrs[k] for k in names if k in self.cls.attrs}
        try:
            for g in n.generators:
                it = self.ev(g.iter)
                if it is not TOP and it and all(t[0] in ("none", "int", "float", "bool", "func", "mod") for t in it): self.report("iterate", g.iter, "%s cannot be iterated" % show(it))
                self.bindcomp(g.target, self.elem(it, n), n)
                for c in g.ifs:
                    self.ev(c)
                    e = self.narrow(c, True)
                    if e is None: return None
                    self.env = e
            return f()
        finally:
            self.env = old
            if self.fn is not None: self.fn.locals = fnlocals
    def bindcomp(self, x, t, node):
        if isinstance(x, ast.Name):
            self.env[x.id] = t
            if self.fn is not None: self.p.setvar(self.fn.allvars, x.id, t)
        elif isinstance(x, (ast.Tuple, ast.List)):
            if t is not TOP and len(t) == 1:
                tag = next(iter(t))
                if tag[0] == "tuple" and tag[1:2] != ("*",):
                    if len(tag) - 1 == len(x.elts):
                        for e, u in zip(x.elts, tag[1:]): self.bindcomp(e, u, node)
                        return
                    self.report("unpack", node, "%d values for %d targets" % (len(tag)-1, len(x.elts)))
            e = self.elem(t, node)
            for y in x.elts: self.bindcomp(y.value if isinstance(y, ast.Starred) else y, e, node)
    def e_ListComp(self, n):
        t = self.comp(n, lambda: self.ev(n.elt)); return LIST(BOT if t is None and False else (t if t is not None else TOP))
    def e_SetComp(self, n): t = self.comp(n, lambda: self.ev(n.elt)); return cap(T("set", t)) if t is not None else T("set", TOP)
    def e_GeneratorExp(self, n): t = self.comp(n, lambda: self.ev(n.elt)); return ITER(t)
    def e_DictComp(self, n):
        r = self.comp(n, lambda: (self.ev(n.key), self.ev(n.value)))
        return cap(frozenset([("dict", r[0], r[1])])) if r else T("dict", TOP, TOP)
    def e_Slice(self, n):
        for x in (n.lower, n.upper, n.step):
            if x is not None: self.ev(x)
        return T("slice")
    def e_Subscript(self, n):
        o = self.ev(n.value); k = self.ev(n.slice)
        self.note("subscripts")
        sl = isinstance(n.slice, ast.Slice)
        if o is TOP: return TOP
        o2 = o - NONE
        if o2 and all(t[0] in ("int", "float", "bool", "func", "mod") for t in o2) or o and not o2 and isinstance(n.value, ast.Name):
            self.report("subscript", n, "%s has no items" % show(o)); return TOP
        r = BOT
        bad = 0
        for t in o2:
            if t[0] in ("str",): r = join(r, STR)
            elif t[0] == "ext": r = join(r, EXT)
            elif t[0] == "bytes": r = join(r, BYTES if sl else INT)
            elif t[0] in ("list",): r = join(r, frozenset([t]) if sl else t[1])
            elif t[0] == "tuple":
                if t[1:2] == ("*",): r = join(r, frozenset([t]) if sl else t[2])
                elif isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, int):
                    try: r = join(r, t[1:][n.slice.value])
                    except IndexError:
                        bad += 1; r = TOP
                else: r = join(r, T("tuple", "*", joinall(t[1:])) if sl else joinall(t[1:]))
            elif t[0] == "dict":
                if t[1] is not TOP and t[1] and mixed(t[1], k) and isinstance(n.ctx, ast.Load): bad += 1; self._mix = True
                r = join(r, t[2])
            elif t[0] == "inst":
                m = self.getattr1(t, "__getitem__", n)
                if m is MISSING:
                    if not t[1].openclass() and not any(hasattr(e, "__getitem__") for e in t[1].externals()): bad += 1
                    r = TOP
                else: r = join(r, self.callvalue(m, [k], {}, False, False, n) if m is not TOP else TOP)
            else: r = TOP
            if t[0] in ("str", "bytes", "list", "tuple") and k is not TOP and k and all(x[0] in ("str", "bytes", "none", "tuple", "list", "dict", "float") for x in k): bad += 1
        if o2 and bad == len(o2):
            mix = all(t[0] == "dict" for t in o2)
            self.report("kinds" if mix else "subscript", n, "%s indexed by %s" % (show(o2), show(k)), "C28" if mix else "C27")
        return r
    def elem(self, t, node):
        if t is TOP: return TOP
        r = BOT
        for x in t:
            if x[0] == "str": e = STR
            elif x[0] in ("bytes", "bytearray"): e = INT
            elif x[0] in ("list", "set", "iter"): e = x[1]
            elif x[0] == "tuple": e = elem_tuple(x)
            elif x[0] == "dict": e = x[1]
            elif x[0] == "ext": e = EXT
            elif x[0] == "file": e = BYTES if x[1] == "b" else STR if x[1] == "t" else TOP
            elif x[0] == "inst":
                m = self.getattr1(x, "__iter__", node)
                if m is MISSING:
                    m = self.getattr1(x, "__getitem__", node)
                    if m is MISSING or m is TOP: e = TOP
                    else: e = self.callvalue(m, [INT], {}, False, False, node)
                elif m is TOP: e = TOP
                else: e = self.elem(self.callvalue(m, [], {}, False, False, node), node)
            else: e = TOP
            r = join(r, e)
        return r

    # operators
    def e_BinOp(self, n):
        l = self.ev(n.left); r = self.ev(n.right)
        return self.binop(n.op, l, r, n, n.right)
    DUNDER = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "truediv", ast.FloorDiv: "floordiv", ast.Mod: "mod", ast.Pow: "pow", ast.LShift: "lshift", ast.RShift: "rshift", ast.BitOr: "or", ast.BitAnd: "and", ast.BitXor: "xor", ast.MatMult: "matmul"}
    def binop(self, op, l, r, node, rnode, aug=False):
        self.note("operators" if l is not TOP and r is not TOP else "operators on unknown values")
        if isinstance(op, ast.Mod) and l is not TOP and l and all(x[0] in ("str", "bytes") for x in l):
            left = node.left if isinstance(node, ast.BinOp) else None
            if isinstance(left, ast.Constant): self.percent(left.value, r, rnode, node)
            return l
        if l is TOP or r is TOP:
            return TOP
        if not l or not r: return BOT
        res = BOT; bad = 0; mix = False; n = 0
        ll = l - NONE if len(l) > 1 else l
        rr = r - NONE if len(r) > 1 else r
        for a in ll:
            for b in rr:
                n += 1
                t = self.bin1(op, a, b, node)
                if t == "bad": bad += 1
                elif t == "mix": bad += 1; mix = True
                else: res = join(res, t)
                if res is TOP and bad == 0: return TOP
        if n and bad == n:
            if mix: self.report("kinds", node, "%s and %s are combined" % (show(l), show(r)), "C28")
            elif ("none",) in l and len(l) == 1 or ("none",) in r and len(r) == 1:
                # values None arise from attributes to be set elsewhere
                pass
            else: self.report("operators", node, "operands %s and %s do not fit" % (show(l), show(r)))
            return TOP
        return res
    def bin1(self, op, a, b, node):
        num = ("int", "float", "bool", "complex")
        o = type(op)
        if a[0] in num and b[0] in num:
            if o in (ast.BitOr, ast.BitAnd, ast.BitXor, ast.LShift, ast.RShift): return INT
            if o is ast.Div: return FLOAT
            if "float" in (a[0], b[0]): return FLOAT
            if "complex" in (a[0], b[0]): return T("complex")
            return NUM if o is ast.Pow else INT
        txt = ("str", "bytes", "bytearray")
        if a[0] in txt and b[0] in txt:
            if o is ast.Add:
                if (a[0] == "str") != (b[0] == "str"): return "mix"
                return frozenset([a])
            return "bad"
        if o is ast.Mult and (a[0] in txt + ("list", "tuple") and b[0] in ("int", "bool")): return frozenset([a]) if a[0] != "tuple" else T("tuple", "*", elem_tuple(a))
        if o is ast.Mult and (b[0] in txt + ("list", "tuple") and a[0] in ("int", "bool")): return frozenset([b]) if b[0] != "tuple" else T("tuple", "*", elem_tuple(b))
        if a[0] in txt and b[0] in num + ("none", "list", "tuple", "dict"): return "bad"
        if b[0] in txt and a[0] in num + ("none", "list", "tuple", "dict"): return "bad"
        if a[0] == "list" and b[0] == "list" and o is ast.Add: return LIST(join(a[1], b[1]))
        if a[0] == "list" and isinstance(node, ast.AugAssign) and o is ast.Add: return LIST(join(a[1], self.elem(frozenset([b]), node)))
        if a[0] == "tuple" and b[0] == "tuple" and o is ast.Add:
            if a[1:2] != ("*",) and b[1:2] != ("*",): return cap(frozenset([a + b[1:]]))
            return cap(T("tuple", "*", join(elem_tuple(a), elem_tuple(b))))
        if a[0] in ("list", "tuple") and b[0] in ("list", "tuple") and a[0] != b[0] and o is ast.Add: return "bad"
        if a[0] == "inst" or b[0] == "inst":
            d = self.DUNDER[o]
            names = [(a, "__%s__" % d), (b, "__r%s__" % d)] + ([(a, "__i%s__" % d)] if isinstance(node, ast.AugAssign) else [])
            found = False
            res = BOT
            for x, m in names:
                if x[0] != "inst": 
                    if x[0] not in BASIC: return TOP
                    continue
                f = self.getattr1(x, m, node)
                if f is TOP: return TOP
                if f is not MISSING:
                    found = True
                    y = b if x is a else a
                    res = join(res, self.callvalue(f, [frozenset([y])], {}, False, False, node))
                elif x[1].openclass() or x[1].externals(): return TOP
            if not found: return "bad"
            return res
        return TOP
    SPEC = re.compile(r"%(?:\((?P<key>[^)]*)\))?(?P<flags>[#0\- +]*)(?P<w>\*|\d+)?(?:\.(?P<p>\*|\d+))?[hlL]?(?P<c>.)", re.S)
    def percent(self, fmt, r, rnode, node):
        self.note("formats")
        if isinstance(fmt, bytes): text = fmt.decode("latin-1")
        else: text = fmt
        keys = []; conv = []
        for m in self.SPEC.finditer(text):
            c = m.group("c")
            if c == "%": continue
            if c not in "diouxXeEfFgGcrsab":
                self.report("formats", node, "unknown conversion %s" % m.group(0)); return
            if m.group("key") is not None: keys.append(m.group("key")); continue
            if m.group("w") == "*": conv.append("d")
            if m.group("p") == "*": conv.append("d")
            conv.append(c)
        if keys:
            if isinstance(rnode, ast.Dict) and all(isinstance(k, ast.Constant) for k in rnode.keys):
                have = {k.value for k in rnode.keys}
                for k in keys:
                    if k not in have: self.report("formats", node, "format key %s is missing" % k)
            if conv: self.report("formats", node, "named and positional conversions are mixed")
            if r is not TOP and r and all(x[0] in ("str", "int", "float", "none", "tuple", "list", "bytes") for x in r): self.report("formats", node, "named conversions need a dictionary")
            return
        n = len(conv)
        args = None
        if isinstance(rnode, ast.Tuple):
            if any(isinstance(e, ast.Starred) for e in rnode.elts): return
            if len(rnode.elts) != n: self.report("formats", node, "%d conversions for %d values in %r" % (n, len(rnode.elts), text[:40])); return
            tag = next(iter(r)) if r is not TOP and len(r) == 1 else None
            args = tag[1:] if tag else None
        elif r is not TOP and r:
            if all(x[0] == "tuple" and x[1:2] != ("*",) for x in r):
                if all(len(x) - 1 != n for x in r): self.report("formats", node, "%d conversions for %d values in %r" % (n, len(next(iter(r))) - 1, text[:40])); return
                if len(r) == 1: args = next(iter(r))[1:]
            elif all(x[0] in ("str", "int", "float", "none", "list", "bytes", "inst", "bool", "class", "func", "dict") for x in r):
                if n != 1 and not (n == 0 and all(x[0] in ("dict", "inst") for x in r)): self.report("formats", node, "%d conversions for one value in %r" % (n, text[:40])); return
                args = [r]
        elif isinstance(rnode, (ast.Constant, ast.JoinedStr)):
            args = [r]
        if args is not None and len(args) == n:
            for c, t in zip(conv, args):
                if t is TOP or not t: continue
                if c in "diouxXeEfFgG" and all(x[0] in ("str", "bytes", "none", "list", "tuple", "dict", "func", "class", "mod") for x in t):
                    self.report("formats", node, "conversion %%%s of %s" % (c, show(t)))
                if isinstance(fmt, str) and c == "s" and only(t, "bytes"): self.report("kinds", node, "bytes are formatted as text", "C28")
                if isinstance(fmt, bytes) and c in "sb" and only(t, "str"): self.report("kinds", node, "text is formatted into bytes", "C28")
    def e_Compare(self, n):
        l = self.ev(n.left)
        for op, c in zip(n.ops, n.comparators):
            r = self.ev(c)
            self.note("comparisons" if l is not TOP and r is not TOP else "comparisons of unknown values")
            if isinstance(op, (ast.In, ast.NotIn)):
                if r is not TOP and r:
                    bad = [x for x in r if
                           x[0] in ("str", "bytes") and mixed(frozenset([x]), l) and not (x[0] == "bytes" and isint(l)) or
                           x[0] in ("list", "set", "tuple", "dict", "iter") and self.elemknown(x) and mixed(self.elem(frozenset([x]), n), l)]
                    if len(bad) == len(r): self.report("kinds", n, "%s searched in %s" % (show(l), show(r)), "C28")
                    elif all(x[0] in ("int", "float", "none", "func", "bool") for x in r) and not (len(r) == 1 and ("none",) in r): self.report("operators", n, "membership in %s" % show(r))
            elif isinstance(op, (ast.Eq, ast.NotEq, ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                if mixed(l, r): self.report("kinds", n, "%s and %s are compared" % (show(l), show(r)), "C28")
                elif isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                    num = ("int", "float", "bool"); 
                    if l is not TOP and r is not TOP and l and r and (all(x[0] in num for x in l) and all(x[0] in ("list", "dict", "none", "tuple", "func", "class", "mod") for x in r) or all(x[0] in num for x in r) and all(x[0] in ("list", "dict", "none", "tuple", "func", "class", "mod") for x in l)):
                        if not (l == NONE or r == NONE): self.report("operators", n, "%s and %s cannot be ordered" % (show(l), show(r)))
            l = r
        return BOOL
    def elemknown(self, x):
        return bool(joinall([y for y in x[1:2] if isinstance(y, frozenset)])) if x[0] != "tuple" else elem_tuple(x) is not TOP and bool(elem_tuple(x))

    # attributes
    def e_Attribute(self, n):
        o = self.ev(n.value)
        return self.attribute(o, n.attr, n)
    def attribute(self, o, name, n):
        self.note("attributes" if o is not TOP else "attributes of unknown objects")
        if o is TOP:
            if self.p.reporting and not self.known(name):
                self.report("attributes", n, "attribute %s does not exist in any class" % name)
            return TOP
        if not o: return BOT
        r = BOT; missing = []
        tags = o - NONE
        if not tags:
            if isinstance(n.value, ast.Name) and name not in dir(None): self.report("attributes", n, "attribute %s of None" % name)
            return TOP
        for t in tags:
            v = self.getattr1(t, name, n)
            if v is MISSING: missing.append(t)
            else: r = join(r, v)
        if len(missing) == len(tags) and not (self.p.reporting is False):
            self.report("attributes", n, "%s has no attribute %s" % (show(o), name))
        return r if not missing or r else (TOP if self.p.reporting else BOT)
    def known(self, name):
        if name in self.p.attrnames or name in EXTNAMES: return True
        return False
    def bindmethod(self, f, tag, v):
        "value v found in a class for an instance"
        if v is TOP: return TOP
        r = BOT
        for x in v:
            if x[0] == "func" and x[1].cls is not None and x[1].kind != "static":
                if x[1].property: r = join(r, x[1].ret if not x[1].opaque else TOP)
                else: r = join(r, T("bound", x[1], tag))
            elif x[0] == "func" and x[1].kind != "static" and x[1].cls is None: r = join(r, T("bound", x[1], tag))
            else: r = join(r, frozenset([x]))
        return r
    def kindofclass(self, c):
        "does the constructor of the class say what kind of data it works on?"
        v = c.attrs.get("__init__")
        if not v: return None
        kinds = {type(d.value).__name__ for x in v if x[0] == "func" for d in x[1].node.args.defaults if isinstance(d, ast.Constant) and isinstance(d.value, (str, bytes))}
        return kinds.pop() if len(kinds) == 1 else None
    def getattr1(self, t, name, node):
        k = t[0]
        if k == "inst":
            c = t[1]
            r = BOT; found = False
            for m in c.mro():
                if name in m.attrs:
                    r = join(r, self.bindmethod(None, t, m.attrs[name])); found = True
                    break
            for m in c.related():
                if name in m.iattrs: r = join(r, m.iattrs[name]); found = True
                elif m not in c.mro() and name in m.attrs and c in m.mro():
                    r = join(r, self.bindmethod(None, t, m.attrs[name])); found = True
            if not found:
                for m in c.related():
                    if name in m.attrs: r = join(r, self.bindmethod(None, t, m.attrs[name])); found = True
            if name in self.p.wild: r = join(r, self.p.wild[name]) if not found or r is TOP or name in ITERNAMES else join(r, self.p.wild[name]); found = True
            if found:
                if r is not TOP and ("str",) in r and ("bytes",) in r:
                    k = self.kindofclass(c)
                    if k and (self.exact or all(self.kindofclass(d) in (None, k) for d in c.descendants())): r = r - T("bytes" if k == "str" else "str")
                return r
            if c.openclass() or any("__getattr__" in m.attrs for m in c.related()): return TOP
            for e in c.externals():
                if hasattr(e, name): return TOP
            if any(isinstance(e, type) and not e.__module__ == "builtins" for e in c.externals()): return TOP
            if hasattr(object, name) or name in ("__dict__", "__name__", "__module__"): return TOP
            return MISSING
        if k == "super":
            c = t[1]
            for m in c.mro()[1:]:
                if name in m.attrs: return self.bindmethod(None, ("inst", c), m.attrs[name])
            r = BOT
            for d in c.descendants():
                mro = d.mro()
                for m in mro[mro.index(c)+1:]:
                    if name in m.attrs: r = join(r, self.bindmethod(None, ("inst", c), m.attrs[name])); break
            if r: return r
            if c.unknown or any(m.unknown for m in c.mro()): return TOP
            for m in c.mro():
                for e in m.external:
                    if hasattr(e, name): return TOP
            if hasattr(object, name): return T("x", X(getattr(object, name))) if name != "__init__" else T("objinit")
            return MISSING
        if k == "class":
            c = t[1]
            for m in c.mro():
                if name in m.attrs:
                    v = m.attrs[name]
                    if v is not TOP and any(x[0] == "func" and x[1].kind == "class" for x in v): return self.bindmethod(None, t, v)
                    return v
            if name in ("__name__", "__doc__", "__module__"): return STR
            if c.unknown or any(m.unknown or m.external for m in c.mro()): return TOP
            r = BOT
            for d in c.descendants():
                if name in d.attrs: r = join(r, d.attrs[name])
            if r: return r
            if name in self.p.wild: return self.p.wild[name]
            if hasattr(object, name) or hasattr(type, name): return TOP
            return MISSING
        if k == "mod":
            m = t[1]
            if name in m.env: return m.env[name]
            if name in m.submodules: return T("mod", m.submodules[name])
            if name in self.p.wild: return self.p.wild[name]
            if name in ("__file__", "__name__", "__doc__", "__path__", "__dict__"): return TOP
            if self.cextension(m, name): return EXT
            return MISSING
        if k == "x":
            try: ok = hasattr(t[1].o, name)
            except Exception: ok = True
            if ok: return self.xval(getattr(t[1].o, name))
            if inspect.ismodule(t[1].o):
                try: return T("x", X(importlib.import_module(t[1].o.__name__ + "." + name)))
                except Exception: pass
                return MISSING
            if isinstance(t[1].o, type): return MISSING
            return TOP
        if k == "xi":
            if hasattr(t[1].o, name):
                return T("xm", t[1], name)
            if inspect.isbuiltin(getattr(t[1].o, "__new__", None)) is False: return EXT
            if t[1].o.__module__ == "builtins" and issubclass(t[1].o, BaseException):
                return MISSING if not self.known(name) else TOP
            return TOP
        if k in ("str", "bytes", "int", "float", "bool", "list", "tuple", "dict", "set", "bytearray", "complex"):
            if hasattr(BASIC[k], name): return T("bm", t, name)
            return MISSING
        if k == "file": return T("bm", t, name) if name in FILEATTRS else TOP
        if k in ("func", "bound"):
            f = t[1]
            if hasattr(f, "fattrs") and name in f.fattrs: return f.fattrs[name]
            if name == "__func__" and f.kind: return T("func", f)
            if hasattr(bind, name) or k == "bound": return TOP
            return MISSING
        if k in ("regex", "match"): return T("bm", t, name)
        if k == "ext": return EXT
        return TOP

    # calls
    def e_Call(self, n):
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args and self.cls_of() is not None: return T("super", self.cls_of())
        f = self.ev(n.func)
        args = []; star = dstar = False
        for a in n.args:
            if isinstance(a, ast.Starred):
                t = self.ev(a.value)
                if t is not TOP and len(t) == 1 and next(iter(t))[0] == "tuple" and next(iter(t))[1:2] != ("*",): args += list(next(iter(t))[1:])
                else: star = True
            else: args.append(self.ev(a))
        kws = {}
        for k in n.keywords:
            t = self.ev(k.value)
            if k.arg is None: dstar = True
            else: kws[k.arg] = t
        for a in n.args: self.escape(a)
        if isinstance(n.func, ast.Name) and n.func.id == "super" and n.args:
            if args and args[0] is not TOP and len(args[0]) == 1 and next(iter(args[0]))[0] == "class": return T("super", next(iter(args[0]))[1])
            return TOP
        self.note("calls")
        if f is TOP:
            if isinstance(n.func, ast.Attribute): self.unknownmethod(n, args, kws, star, dstar)
            return TOP
        return self.callvalue(f, args, kws, star, dstar, n)
    def cls_of(self):
        f = self.fn
        while f is not None:
            if f.cls is not None: return f.cls
            f = f.parent
        return self.cls
    def unknownmethod(self, n, args, kws, star, dstar):
        name = n.func.attr
        ms = self.p.methods.get(name, [])
        for f in ms: self.record(f, args, kws, star, dstar, True, unsure=True)
        if not self.p.reporting or name in EXTNAMES or not ms: return
        others = [t for t in self.fieldvalues(name)]
        if others: return
        errs = [bind(f, len(args), star, list(kws), dstar, f.kind != "static") for f in ms]
        if any(f.opaque for f in ms): return
        self.note("calls by method name")
        # functions of modules and classes of the same name
        for m in self.p.modules.values():
            if name in m.env: return
        if all(errs): self.report("calls", n, "no method %s accepts this call: %s" % (name, errs[0]))
    def fieldvalues(self, name):
        r = [c for c in self.p.classes.values() if name in c.iattrs]
        for c in self.p.classes.values():
            if name in c.attrs:
                v = c.attrs[name]
                if v is TOP or any(x[0] != "func" for x in v): r.append(c)
        if name in self.p.wild: r.append(1)
        return r
    def record(self, f, args, kws, star, dstar, first, unsure=False):
        "argument types of the library's own calls"
        pos = f.pos[1:] if first and f.kind != "static" else f.pos
        if unsure and (f.name.startswith("__") or bind(f, len(args), star, list(kws), dstar, f.kind != "static")): return
        if not f.called: f.called = True; self.p.changed = True
        def setarg(p, t):
            # a sink handed in by the user has to be of the kind the library itself uses
            if t is not TOP or p not in ("file", "xml"): self.p.setvar(f.argtypes, p, t)
        if unsure:
            # the call may well mean another method
            for p, t in list(zip(pos, args)) + list(kws.items()):
                if p in f.pos: setarg(p, t if p in ("file", "xml") else TOP)
            return
        for p, t in zip(pos, args): setarg(p, t)
        for p, t in kws.items():
            if p in f.pos or p in f.kwonly: setarg(p, t)
        if star or dstar:
            for p in pos[len(args):]:
                if p not in kws: self.p.setvar(f.argtypes, p, TOP)
        else:
            nd = f.ndef
            for p, d in list(zip(f.pos[len(f.pos)-nd:], f.node.args.defaults)):
                if p in pos[len(args):] and p not in kws:
                    v = d.value if isinstance(d, ast.Constant) else Ellipsis
                    self.p.setvar(f.argtypes, p, T(type(v).__name__) if type(v) in (str, bytes) else NONE if v is None else TOP)
    def callvalue(self, f, args, kws, star, dstar, n):
        if f is TOP: return TOP
        if not f: return BOT
        tags = f - NONE
        if not tags:
            return TOP
        res = BOT; errs = []
        for t in tags:
            e, r = self.call1(t, args, kws, star, dstar, n)
            if e: errs.append(e)
            else: res = join(res, r)
        if len(errs) == len(tags):
            self.report("calls", n, "%s: %s" % (what(n), errs[0]))
            return TOP
        return res
    def variant(self, fn, n, bound, this=None):
        "result for the given values of parameters which are true or false"
        pos = fn.pos[1:] if bound else fn.pos
        given = dict(zip(fn.pos[len(fn.pos)-fn.ndef:], fn.node.args.defaults))
        given.update(zip(pos, n.args)); given.update({k.arg: k.value for k in n.keywords})
        ex = Exec(self.p, fn.module, fn, fn.cls)
        ex.g = False; ex.rets = BOT; ex.yields = BOT
        ex.env = {p: TOP for p in fn.pos + fn.kwonly}
        for p, v in given.items():
            if isinstance(v, ast.Constant) and isinstance(v.value, bool): ex.env[p] = T("true" if v.value else "false")
        ex.exact = this is not None
        if this is not None: ex.env[fn.pos[0]] = frozenset([this])
        rep, self.p.reporting = self.p.reporting, False
        self.p.frozen += 1
        try: ex.block(fn.node.body)
        except Dead: pass
        self.p.frozen -= 1
        self.p.reporting = rep
        return ex.rets
    def special(self, fn, tag, args, kws, n):
        "execute a short function for the arguments of this call"
        if not self.p.reporting or self.p.depth > 2 or isinstance(fn.node, ast.Lambda) or fn.gen or fn.nonlocals or fn.globals: return
        if not hasattr(fn, "size"): fn.size = sum(1 for x in ast.walk(fn.node))
        if fn.size > 90 or fn.parent is not None: return
        names = fn.pos[1:] if tag is not None and fn.kind != "static" else fn.pos
        given = dict(zip(names, args)); given.update(kws)
        if not any(v is not TOP and v & frozenset([("str",), ("bytes",)]) for v in given.values()): return
        key = (fn, tuple(sorted((k, v) for k, v in given.items() if v is not TOP and k in fn.pos)).__repr__())
        memo = self.p.specials
        if key not in memo:
            memo[key] = []
            ex = Exec(self.p, fn.module, fn, fn.cls)
            ex.g = False; ex.rets = BOT; ex.yields = BOT
            ex.env = {p: given.get(p, TOP) for p in fn.pos + fn.kwonly}
            if fn.cls is not None and fn.kind != "static" and fn.pos: ex.env[fn.pos[0]] = frozenset([tag]) if tag is not None else given.get(fn.pos[0], TOP)
            if fn.vararg: ex.env[fn.vararg] = TOP
            if fn.kwarg: ex.env[fn.kwarg] = TOP
            old, counts = self.p.reports, self.p.counts
            self.p.reports = []; self.p.counts = {}; self.p.depth += 1; self.p.frozen += 1
            try: ex.block(fn.node.body)
            except Dead: pass
            memo[key] = [r for r in self.p.reports if r.prop == "C28" or r.rule in ("attributes", "calls")]
            self.p.reports, self.p.counts = old, counts; self.p.depth -= 1; self.p.frozen -= 1
        for r in memo[key]:
            known = r.construct
            kinds = "bytes" in r.message or "str " in r.message or "text" in r.message
            self.report(r.rule if r.prop == "C28" else "kinds" if kinds else r.rule, n, "%s in %s" % (r.message, fn.qual), "C28" if kinds else r.prop)

    def call1(self, t, args, kws, star, dstar, n):
        k = t[0]
        if self.p.reporting: self.p.callees.setdefault(n, set()).add(t[1].o if k == "x" else t[1] if k in ("func", "bound", "class") else t)
        if k in ("func", "bound"):
            fn = t[1]
            if not star and not dstar: self.special(fn, t[2] if k == "bound" else None, args, kws, n)
            self.record(fn, args, kws, star, dstar, k == "bound")
            if fn.opaque: return None, TOP
            e = bind(fn, len(args), star, list(kws), dstar, k == "bound")
            r = fn.ret
            if not e and r is not TOP and k == "bound" and ("str",) in r and ("bytes",) in r and t[2][0] == "inst" and not self.p.frozen and not isinstance(fn.node, ast.Lambda) and self.kindofclass(t[2][1]): r = self.variant(fn, n, True, t[2])
            elif not e and r is not TOP and ("file", "b") in r and ("file", "t") in r and not self.p.frozen and not isinstance(fn.node, ast.Lambda): r = self.variant(fn, n, k == "bound")
            return (fn.name + " " + e if e else None), r
        if k == "class":
            c = t[1]
            if any("__new__" in m.attrs for m in c.mro()): return None, TOP
            for m in c.mro():
                if "__init__" in m.attrs:
                    v = m.attrs["__init__"]
                    if v is TOP: return None, T("inst", c)
                    for x in v:
                        if x[0] == "func":
                            self.record(x[1], args, kws, star, dstar, True)
                            e = bind(x[1], len(args), star, list(kws), dstar, True)
                            if e: return "%s %s" % (c.name, e), T("inst", c)
                    return None, T("inst", c)
                if m.external or m.unknown: return None, T("inst", c)
            if args or kws: return "%s takes no arguments" % c.name, T("inst", c)
            return None, T("inst", c)
        if k == "inst":
            m = self.getattr1(t, "__call__", n)
            if m is TOP: return None, TOP
            if m is MISSING:
                if t[1].externals(): return None, TOP
                return "%s is not callable" % show(frozenset([t])), TOP
            return None, self.callvalue(m, args, kws, star, dstar, n)
        if k == "xm": return None, BYTES if t[2] in ("tobytes", "digest") else STR if t[2] in ("hexdigest", "strftime", "isoformat") else INT if t[2] in ("wait", "poll") else EXT
        if k == "ext": return None, EXT
        if k == "objinit":
            if args or kws: return "object.__init__ takes no arguments", NONE
            return None, NONE
        if k == "bm": return self.basicmethod(t[1], t[2], args, kws, star, dstar, n)
        if k == "x": return self.xcall(t[1].o, args, kws, star, dstar, n)
        if k in ("mod", "str", "bytes", "int", "float", "list", "dict", "tuple", "bool", "set"): return "%s is not callable" % show(frozenset([t])), TOP
        return None, TOP

    def basicmethod(self, o, name, args, kws, star, dstar, n):
        k = o[0]
        obj = getattr(BASIC.get(k, object), name, None)
        if obj is not None and not star and not dstar and k not in ("file", "regex", "match"):
            e = sigcheck(obj, 1 + len(args), kws)
            if e: return "%s.%s %s" % (k, name, e), TOP
        if k in ("str", "bytes"):
            if name not in ("decode", "encode", "hex", "maketrans", "translate", "format", "format_map"):
                for a in args[:2]:
                    if mixed(frozenset([o]), a) and not isint(a): self.report("kinds", n, "%s.%s of %s" % (k, name, show(a)), "C28")
                if name == "join" and args:
                    e = self.elem(args[0], n)
                    if mixed(frozenset([o]), e): self.report("kinds", n, "%s.join of %s" % (k, show(e)), "C28")
                    elif e is not TOP and e and all(x[0] in ("int", "float", "none", "list", "tuple", "inst") for x in e): self.report("calls", n, "join of %s" % show(e))
            if name == "encode": return None, BYTES
            if name == "decode": return None, STR
            if name == "hex": return None, STR
            if name == "format":
                v = n.func.value if isinstance(n.func, ast.Attribute) else None
                if isinstance(v, ast.Constant) and isinstance(v.value, str): self.strformat(v.value, args, kws, star, dstar, n)
                return None, STR
            r = STRRET.get(name)
            if r == "self": return None, frozenset([o])
            if r == "list": return None, LIST(frozenset([o]))
            if r == "tuple": return None, T("tuple", frozenset([o]), frozenset([o]), frozenset([o]))
            if r == "int": return None, INT
            if r == "bool": return None, BOOL
            return None, TOP
        if k in ("int", "float"):
            return None, {"is_integer": BOOL, "bit_length": INT, "to_bytes": BYTES}.get(name, TOP)
        if k == "list":
            if name in ("append", "insert", "extend") and args and isinstance(n.func, ast.Attribute):
                t = args[-1] if name != "extend" else self.elem(args[-1], n)
                self.update(n.func.value, LIST(join(o[1], t)))
                return None, NONE
            if name == "pop": return None, o[1]
            if name == "copy": return None, frozenset([o])
            if name in ("index", "count"): return None, INT
            if name in ("sort", "reverse", "clear", "remove"): return None, NONE
            return None, TOP
        if k == "dict":
            if name == "keys": return None, ITER(o[1])
            if name == "values": return None, ITER(o[2])
            if name == "items": return None, ITER(T("tuple", o[1], o[2]))
            if name == "get":
                if args and o[1] is not TOP and o[1] and mixed(o[1], args[0]): self.report("kinds", n, "%s looked up in %s" % (show(args[0]), show(frozenset([o]))), "C28")
                return None, join(o[2], args[1] if len(args) > 1 else NONE)
            if name == "copy": return None, frozenset([o])
            if name == "setdefault" and args:
                v = args[1] if len(args) > 1 else NONE
                if isinstance(n.func, ast.Attribute): self.update(n.func.value, cap(frozenset([("dict", join(o[1], args[0]), join(o[2], v))])))
                return None, join(o[2], v)
            if name == "update" and isinstance(n.func, ast.Attribute):
                self.update(n.func.value, T("dict", TOP, TOP)); return None, NONE
            if name == "pop": return None, join(o[2], args[1]) if len(args) > 1 else o[2]
            return None, TOP
        if k == "set":
            if name in ("add",) and args and isinstance(n.func, ast.Attribute): self.update(n.func.value, cap(T("set", join(o[1], args[0])))); return None, NONE
            return None, TOP
        if k == "tuple": return None, INT
        if k == "file":
            txt = STR if o[1] == "t" else BYTES if o[1] == "b" else TOP
            if name in ("read", "readline", "getvalue"): return None, txt
            if name == "readlines": return None, LIST(txt) if txt is not TOP else T("list", TOP)
            if name == "write" and args:
                if o[1] == "b" and only(args[0], "str") or o[1] == "t" and only(args[0], "bytes"): self.report("kinds", n, "%s written to a %s file" % (show(args[0]), "binary" if o[1] == "b" else "text"), "C28")
                return None, INT
            if name in ("tell", "seek", "fileno"): return None, INT
            if name in ("close", "flush"): return None, NONE
            return None, TOP
        if k == "regex":
            if name in ("match", "search", "fullmatch", "sub", "subn", "split", "findall", "finditer"):
                subj = args[1] if name in ("sub", "subn") and len(args) > 1 else (args[0] if args else TOP)
                if o[1] == "str" and only(subj, "bytes") or o[1] == "bytes" and only(subj, "str"): self.report("kinds", n, "%s pattern applied to %s" % (o[1], show(subj)), "C28")
                if name in ("match", "search", "fullmatch"): return None, frozenset([("match", o[1]), ("none",)])
                if name == "sub": return None, T(o[1])
                if name == "subn": return None, frozenset([("tuple", T(o[1]), INT)])
                if name == "split": return None, T("list", TOP)
                if name == "finditer": return None, ITER(T("match", o[1]))
            return None, TOP
        if k == "match":
            if name == "group" and len(args) == 1: return None, frozenset([(o[1],), ("none",)])
            if name == "group" and not args: return None, T(o[1])
            if name in ("start", "end"): return None, INT
            if name == "groups": return None, T("tuple", "*", frozenset([(o[1],), ("none",)]))
            return None, TOP
        return None, TOP
    def strformat(self, fmt, args, kws, star, dstar, n):
        self.note("formats")
        auto = 0; idx = set(); names = set()
        try: fields = list(string.Formatter().parse(fmt))
        except ValueError as e: self.report("formats", n, "format string: %s" % e); return
        todo = [f[1] for f in fields if f[1] is not None] + [x[1] for f in fields if f[2] for x in string.Formatter().parse(f[2]) if x[1] is not None]
        for f in todo:
            first = re.split(r"[.\[]", f, maxsplit=1)[0]
            if first == "": idx.add(auto); auto += 1
            elif first.isdigit(): idx.add(int(first))
            else: names.add(first)
        if idx and max(idx) >= len(args) and not star: self.report("formats", n, "format string needs %d values, %d given" % (max(idx) + 1, len(args)))
        for x in sorted(names):
            if x not in kws and not dstar: self.report("formats", n, "format key %s is missing" % x)
        if not dstar and not star:
            if (args or kws) and not todo: self.report("formats", n, "format string %r does not use its arguments" % fmt[:40])
        for i in idx:
            if i < len(args) and only(args[i], "bytes"): self.report("kinds", n, "bytes are formatted as text", "C28")

    def xcall(self, o, args, kws, star, dstar, n):
        if not star and not dstar:
            e = sigcheck(o, len(args), kws)
            if e: return "%s %s" % (getattr(o, "__name__", o), e), TOP
        a0 = args[0] if args else TOP
        if o is open or getattr(o, "__name__", "") == "open" and getattr(o, "__module__", "") in ("io", "_io", "codecs"):
            mode = n.args[1] if len(n.args) > 1 else next((k.value for k in n.keywords if k.arg == "mode"), None)
            if mode is None: return None, T("file", "t")
            if isinstance(mode, ast.Constant) and isinstance(mode.value, str):
                b = "b" in mode.value
                if b and "encoding" in kws: return "binary mode does not take an encoding", T("file", "b")
                return None, T("file", "b" if b else "t")
            return None, T("file", "?")
        import io, subprocess, tempfile, struct, math
        if o in (io.StringIO,):
            if args and only(a0, "bytes"): self.report("kinds", n, "StringIO of bytes", "C28")
            return None, T("file", "t")
        if o is io.TextIOWrapper: return None, T("file", "t")
        if o is io.BufferedReader: return None, T("file", "b")
        if o in (io.BytesIO,):
            if args and only(a0, "str"): self.report("kinds", n, "BytesIO of text", "C28")
            return None, T("file", "b")
        nm = getattr(o, "__name__", "")
        md = getattr(o, "__module__", None)
        if o in (len, ord, hash, id): return None, INT
        if o is ord and False: pass
        if o is int:
            return None, INT
        if o is float: return None, FLOAT
        if o is bool: return None, BOOL
        if o is str:
            if len(args) == 1 and not kws and only(a0, "bytes"): self.report("kinds", n, "str of bytes", "C28")
            return None, STR
        if o in (repr, chr, hex, oct, bin, ascii, format): return None, STR
        if o is bytes:
            if len(args) == 1 and not kws and only(a0, "str"): self.report("kinds", n, "bytes of text without encoding", "C28")
            return None, BYTES
        if o is bytearray: return None, T("bytearray")
        if o in (list, sorted): return None, LIST(self.elem(a0, n) if args else BOT)
        if o is tuple: return None, cap(T("tuple", "*", self.elem(a0, n) if args else BOT)) if not (args and a0 is not TOP and all(x[0] == "tuple" for x in a0)) else a0
        if o in (set, frozenset): return None, cap(T("set", self.elem(a0, n) if args else BOT))
        if o is dict: return None, T("dict", TOP, TOP) if args or dstar else (T("dict", STR, joinall(kws.values())) if kws else T("dict", BOT, BOT))
        if o is range: return None, ITER(INT)
        if o is reversed or o is iter: return None, ITER(self.elem(a0, n))
        if o is enumerate: return None, ITER(T("tuple", INT, self.elem(a0, n)))
        if o is zip:
            if star: return None, ITER(TOP)
            return None, ITER(cap(frozenset([("tuple",) + tuple(self.elem(a, n) for a in args)])))
        if o is map: return None, ITER(TOP)
        if o is filter: return None, ITER(self.elem(args[1], n) if len(args) > 1 else TOP)
        if o in (isinstance, issubclass, callable, hasattr, any, all): 
            return None, BOOL
        if o is abs or o is round or o is sum:
            return None, (INT if o is round and len(args) == 1 and a0 is not TOP and a0 and all(x[0] in ("int", "float") for x in a0) else a0 if o is abs and a0 is not TOP and all(x[0] in ("int", "float") for x in a0) else TOP)
        if o in (max, min): return None, joinall(args) if len(args) > 1 else self.elem(a0, n)
        if o is divmod: return None, T("tuple", TOP, TOP)
        if o is print: return None, NONE
        if md == "math": return None, (INT if nm in ("floor", "ceil") else BOOL if nm.startswith("is") else FLOAT if nm in ("sin", "cos", "tan", "sqrt", "hypot", "atan2", "exp", "log", "log10", "acos", "asin", "atan", "radians", "degrees", "pow", "fabs") else TOP)
        if nm in ("pack",) and md == "_struct" or o is struct.pack: return None, BYTES
        if o is struct.unpack:
            if only(args[1] if len(args) > 1 else TOP, "str"): self.report("kinds", n, "unpack of text", "C28")
            v = n.args[0].value if n.args and isinstance(n.args[0], ast.Constant) else None
            m = re.fullmatch(r"[@=<>!]?((?:\d*[xcbB?hHiIlLqQnNefdsp])*)", v) if isinstance(v, str) else None
            if m:
                r = []
                for cnt, c in re.findall(r"(\d*)([a-zA-Z?])", m.group(1)):
                    if c == "x": continue
                    k = BYTES if c in "csp" else FLOAT if c in "efd" else BOOL if c == "?" else INT
                    r += [k]*(1 if c in "sp" else int(cnt or 1))
                if len(r) < 20: return None, cap(frozenset([("tuple",) + tuple(r)]))
            return None, T("tuple", "*", TOP)
        if md == "binascii" or md == "zlib" and nm in ("compress", "decompress"):
            if args and only(a0, "str") and not nm.startswith("a2b") and not nm.startswith("unhex"): self.report("kinds", n, "%s of text" % nm, "C28")
            return None, BYTES if md == "zlib" or nm.startswith("b2a") or nm.startswith("a2b") else TOP
        if md == "re" and nm == "compile":
            k = "str" if only(a0, "str") else "bytes" if only(a0, "bytes") else None
            return None, T("regex", k) if k else TOP
        if md == "re" and nm in ("match", "search", "sub", "split", "findall", "fullmatch"):
            s = args[2] if nm == "sub" and len(args) > 2 else (args[1] if len(args) > 1 else TOP)
            if mixed(a0, s) : self.report("kinds", n, "%s pattern applied to %s" % (show(a0), show(s)), "C28")
            k = next(iter(a0))[0] if a0 is not TOP and len(a0) == 1 else None
            if k in ("str", "bytes"):
                if nm in ("match", "search", "fullmatch"): return None, frozenset([("match", k), ("none",)])
                if nm == "sub": return None, T(k)
            return None, TOP
        if md in ("posixpath", "genericpath") or nm in ("getcwd",):
            if nm in ("join", "abspath", "basename", "dirname", "normpath", "expanduser"): return None, STR if not only(a0, "bytes") else BYTES
            if nm in ("exists", "isfile", "isdir"): return None, BOOL
            if nm == "splitext": return None, T("tuple", STR, STR)
            return None, TOP
        if o is getattr:
            if len(args) >= 2 and isinstance(n.args[1], ast.Constant) and len(args) == 2 and args[0] is not TOP: return None, TOP
            return None, TOP
        if isinstance(o, type):
            if o is type or o.__module__ == "builtins" and not issubclass(o, BaseException): return None, TOP
            return None, T("xi", X(o))
        return None, TOP

class _Missing: pass
MISSING = _Missing()
ITERNAMES = ()
FILEATTRS = set("read readline readlines write writelines close flush tell seek truncate fileno getvalue name mode".split())

def has(c, names): return any(n in m.attrs for m in c.related() for n in names) or c.openclass() or bool(c.externals())
def only(t, kind): return t is not TOP and bool(t) and all(x[0] == kind for x in t)
def isint(t): return t is not TOP and bool(t) and all(x[0] in ("int", "bool") for x in t)
def mixed(a, b):
    "one is text and the other bytes (or a number), for sure"
    if a is TOP or b is TOP or not a or not b: return False
    ka = {kindof(x) for x in a}; kb = {kindof(x) for x in b}
    if None in ka or None in kb or "none" in ka and len(ka) == 1 or "none" in kb and len(kb) == 1: return False
    ka.discard("none"); kb.discard("none")
    if ka & kb: return False
    return bool((ka | kb) & {"str", "bytes"})
def kindof(x): return {"str": "str", "bytes": "bytes", "bytearray": "bytes", "int": "int", "none": "none"}.get(x[0])
def show(t):
    if t is TOP: return "?"
    r = []
    for x in sorted(t, key=repr):
        if x[0] in ("inst", "class"): r.append(("" if x[0] == "inst" else "class ") + x[1].name)
        elif x[0] == "mod": r.append("module " + x[1].name)
        elif x[0] in ("func", "bound"): r.append("function " + x[1].name)
        elif x[0] in ("x", "xi"): r.append(repr(x[1]))
        elif x[0] in ("list", "set", "iter"): r.append("%s of %s" % (x[0], show(x[1])))
        else: r.append(x[0])
    return " or ".join(r)
def what(n):
    if isinstance(n, ast.Call):
        s = ast.unparse(n.func)
        return s if len(s) < 40 else "call"
    return type(n).__name__
SIGS = {}
def sigcheck(o, npos, kws):
    try: k = hash(o)
    except TypeError: return None
    if (id(o)) not in SIGS:
        try: SIGS[id(o)] = inspect.signature(o)
        except (ValueError, TypeError): SIGS[id(o)] = None
    s = SIGS[id(o)]
    if s is None: return None
    try: s.bind(*([0]*npos), **{k: 0 for k in kws})
    except TypeError as e: return str(e)
    return None
EXTNAMES = set()
for c in (str, bytes, bytearray, int, float, complex, list, tuple, dict, set, frozenset, type, object, BaseException, type(bind), type(re.compile("")), type(re.match("", ""))): EXTNAMES |= set(dir(c))
def _ext():
    import io, subprocess, xml.sax.handler, xml.sax.saxutils, logging, threading, queue, struct, zlib, random, tempfile, types, collections, time, configparser
    for m in (io, subprocess, xml.sax.handler, xml.sax.saxutils, xml.sax.xmlreader, logging, threading, queue, tempfile, collections, time, configparser):
        for k, v in vars(m).items():
            if isinstance(v, type): EXTNAMES.update(dir(v))
    import datetime, hashlib, shutil
    for c in (datetime.datetime, datetime.timedelta, datetime.date, type(hashlib.md5())): EXTNAMES.update(dir(c))
    EXTNAMES.update("stdin stdout stderr returncode errno strerror filename args value __name__ mode size info palette tobytes tostring getdata convert getcolors".split())
_ext()
