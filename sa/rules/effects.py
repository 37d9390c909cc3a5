"""What functions modify: interprocedural points-to and side effects of /repo/pyx.

For every function a summary: which objects reachable from its parameters it may modify in place, what its
result may be (an object reachable from a parameter or a new one), and which parameters it stores where.
Objects are named by access paths from the parameters, new objects by where they are made. Used for C26
(drawing does not modify styles and data) and C23 (defaults of parameters are not modified)."""
import ast, os
from . import names
whole = names.whole

MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "update", "setdefault", "popitem", "add", "discard", "__setitem__", "difference_update", "intersection_update", "symmetric_difference_update"}
STORERS = {"append", "extend", "insert", "update", "setdefault", "add"}
MAXPATH = 2

def child(t, field):
    "the object in a field of the object t"
    if t[0] == "n": return None
    path = t[-1]
    if path and path[-1] == "*": return t
    path = path + (field,)
    if len(path) > MAXPATH: path = path[:MAXPATH] + ("*",)
    return t[:-1] + (path,)

class Summary:
    def __init__(self):
        self.mut = {}            # token -> where
        self.ret = frozenset()   # tokens, or ("new",) for a new object
        self.stores = set()      # (token, field, token), ("new",) standing for the returned object or self of a constructor
    def key(self): return (frozenset(self.mut), self.ret, frozenset(self.stores))

class Effects:
    def __init__(self, prog):
        self.p = prog
        self.sum = {f: Summary() for f in prog.funcs.values()}
        self.data = {}           # (parameter, attribute) of protocol objects -> tokens
        self.rounds = 0
        for i in range(12):
            self.rounds += 1
            changed = False
            for f in prog.funcs.values():
                b = self.sum[f].key(); n = len(self.data), sum(map(len, self.data.values()))
                Run(self, f).go()
                if self.sum[f].key() != b or (len(self.data), sum(map(len, self.data.values()))) != n: changed = True
            if not changed: break

class Run:
    def __init__(self, ef, f):
        self.ef = ef; self.f = f; self.s = ef.sum[f]
        self.env = {}
        self.fields = {}         # (token, field) -> tokens
        a = f.node.args
        self.params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        for p in self.params: self.env[p] = frozenset([("p", p, ())])
        if a.vararg: self.env[a.vararg.arg] = frozenset([("p", "*" + a.vararg.arg, ())])
        if a.kwarg: self.env[a.kwarg.arg] = frozenset([("p", "**" + a.kwarg.arg, ())])
        self.weak = dict(self.env)   # what variables may ever be, for functions defined inside
        self.loops = []
        self.inside = set()
        self.proto = {}
        if f.cls is not None and len(f.pos) >= 3 and f.pos[1:3] == ["privatedata", "sharedata"]: self.proto = {"privatedata", "sharedata"}

    def go(self):
        body = self.f.node.body
        start = dict(self.env)
        for i in range(8):
            b = (dict(self.weak), dict(self.fields))
            self.env = dict(start)
            if isinstance(body, list): self.body(body)
            else: self.ret(self.ev(body))
            if b == (self.weak, self.fields): break
        # contents of what is returned and of the parameters
        for (t, field), vs in self.fields.items():
            for v in vs:
                if v[0] != "p": continue
                if t in self.returned: self.s.stores.add((("new",), field, v))
                elif t[0] == "p" and len(t[2]) <= 1 and t != v: self.s.stores.add((t, field, v))

    returned = frozenset()
    def ret(self, v):
        self.returned = self.returned | frozenset(t for t in v if t[0] == "n")
        self.s.ret = self.s.ret | frozenset(t if t[0] == "p" else ("new",) for t in v)

    # --- objects ---
    def load(self, v, field):
        r = set()
        for t in v:
            r |= self.fields.get((t, field), frozenset())
            r |= self.fields.get((t, "*"), frozenset())
            if field != "*" and field != "[]" or True:
                c = child(t, field)
                if c is not None: r.add(c)
            if t[0] == "p" and t[1] in self.proto and not t[2]:
                r |= self.data(t[1], field)
        return frozenset(r)
    def data(self, p, field):
        r = set()
        if p == "privatedata":
            for (q, c, a), ts in self.ef.data.items():
                if q == p and a == field and (self.f.cls in c.related() or c in self.f.cls.related()): r |= ts
        else:
            for (q, c, a), ts in self.ef.data.items():
                if q == p and a == field: r |= {("s", c.qual) + t[1:] if t[0] == "p" else t for t in ts}
        return r
    def store(self, base, field, v):
        v = frozenset(t for t in v)
        if not v: return
        for t in base:
            k = (t, field)
            self.fields[k] = self.fields.get(k, frozenset()) | v
            if t[0] == "p" and t[1] in self.proto and not t[2]:
                k = (t[1], self.f.cls, field)
                self.ef.data[k] = self.ef.data.get(k, frozenset()) | frozenset(x for x in v if x[0] == "p" and x[1] == self.f.pos[0] or x[0] == "s")
    def mutate(self, v, node, what):
        for t in v:
            if t[0] in ("p", "s") and t not in self.s.mut: self.s.mut[t] = (self.f, node.lineno, what)
    def new(self, node): return frozenset([("n", id(node), ())])

    # --- statements ---
    def body(self, ss):
        for s in ss:
            if self.env is None: break
            self.stmt(s)
    def join(self, *envs):
        envs = [e for e in envs if e is not None]
        if not envs: return None
        r = dict(envs[0])
        for e in envs[1:]:
            for k, v in e.items(): r[k] = r.get(k, frozenset()) | v
        return r
    def loop(self, s, head):
        "for and while: until the variables do not change any more"
        for i in range(6):
            before = self.env
            self.loops.append(([], []))
            head(); entry = dict(self.env)
            self.body(s.body)
            breaks, conts = self.loops.pop()
            self.env = self.join(before, self.env, *conts)
            if self.env == before: break
        head()
        self.body(s.orelse)
        self.env = self.join(self.env, *breaks)
    def stmt(self, s):
        if isinstance(s, ast.If):
            self.ev(s.test)
            b = self.env
            self.env = dict(b); self.body(s.body); e1 = self.env
            self.env = dict(b); self.body(s.orelse)
            self.env = self.join(e1, self.env)
            return
        if isinstance(s, (ast.For, ast.AsyncFor)):
            return self.loop(s, lambda: self.assign(s.target, self.load(self.ev(s.iter), "[]"), s))
        if isinstance(s, ast.While): return self.loop(s, lambda: self.ev(s.test))
        if isinstance(s, ast.Try):
            b = dict(self.env); seen = [b]
            for x in s.body:
                if self.env is None: break
                self.stmt(x)
                if self.env is not None: seen.append(dict(self.env))
            if self.env is not None: self.body(s.orelse)
            ends = [self.env]
            for h in s.handlers:
                self.env = self.join(*seen); self.body(h.body); ends.append(self.env)
            self.env = self.join(*ends)
            if s.finalbody:
                dead = self.env is None
                self.env = self.join(self.env, *seen)
                self.body(s.finalbody)
                if dead: self.env = None
            return
        if isinstance(s, (ast.Break, ast.Continue)):
            if self.loops: self.loops[-1][isinstance(s, ast.Continue)].append(self.env)
            self.env = None
            return
        if isinstance(s, ast.Raise):
            for c in (s.exc, s.cause):
                if c is not None: self.ev(c)
            self.env = None
            return
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            g = self.ef.p.funcs.get(s)
            if g is not None: self.closure(g)
            return
        if isinstance(s, ast.ClassDef): return
        if isinstance(s, ast.Assign):
            v = self.ev(s.value)
            for t in s.targets: self.assign(t, v, s)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None: self.assign(s.target, self.ev(s.value), s)
        elif isinstance(s, ast.AugAssign):
            v = self.ev(s.value)
            k = self.ef.p.augs.get(s)
            inplace = []; plain = k is whole.TOP or k is None
            for tag in (k if k is not None and k is not whole.TOP else ()):
                if tag[0] in ("list", "set", "dict", "bytearray"): inplace.append(tag)
                elif tag[0] == "inst":
                    for g in self.ef.p.funcs.values():
                        if g.name == "__i%s__" % OPS.get(type(s.op), "") and g.cls is not None and g.cls in tag[1].related(): inplace.append(g)
            load = self.ev(ast.copy_location(strip(s.target), s))
            r = self.ef.p.augvalues.get(s)
            if plain and isinstance(s.op, (ast.Add, ast.BitOr)) and (r is whole.TOP or r is None and not isinstance(s.value, ast.Constant) or r and any(x[0] in ("list", "set", "dict") for x in r)): inplace.append(("list",))
            if inplace:
                self.mutate(load, s, ast.unparse(s.target) + " is extended in place")
                if any(isinstance(x, tuple) for x in inplace): self.store(load, "[]", self.load(v, "[]"))
            if not isinstance(s.target, ast.Name): self.assign(s.target, load if inplace else v, s)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, (ast.Attribute, ast.Subscript)): self.mutate(self.ev(t.value), s, "%s is deleted" % ast.unparse(t))
        elif isinstance(s, ast.Return):
            if s.value is not None: self.ret(self.ev(s.value))
            self.env = None
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                v = self.ev(i.context_expr)
                if i.optional_vars is not None: self.assign(i.optional_vars, v, s)
            self.body(s.body)
        else:
            for ch in ast.iter_child_nodes(s):
                if isinstance(ch, ast.stmt): self.stmt(ch)
                elif isinstance(ch, ast.expr): self.ev(ch)
    def assign(self, t, v, s):
        if isinstance(t, ast.Name):
            self.env[t.id] = v
            self.weak[t.id] = self.weak.get(t.id, frozenset()) | v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts: self.assign(x.value if isinstance(x, ast.Starred) else x, self.load(v, "[]"), s)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value)
            self.mutate(b, s, "%s is assigned" % ast.unparse(t))
            self.store(b, t.attr, v)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value); self.ev(t.slice)
            self.mutate(b, s, "%s is assigned" % ast.unparse(t))
            self.store(b, "[]", v)

    # --- expressions ---
    def ev(self, e):
        if isinstance(e, ast.Name): return self.env.get(e.id, frozenset())
        if isinstance(e, ast.Attribute): return self.load(self.ev(e.value), e.attr)
        if isinstance(e, ast.Subscript):
            v = self.ev(e.value); self.ev(e.slice)
            if isinstance(e.slice, ast.Slice):
                n = self.new(e); self.store(n, "[]", self.load(v, "[]"))
                return n
            return self.load(v, "[]")
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            n = self.new(e)
            for x in e.elts:
                if isinstance(x, ast.Starred): self.store(n, "[]", self.load(self.ev(x.value), "[]"))
                else: self.store(n, "[]", self.ev(x))
            return n
        if isinstance(e, ast.Dict):
            n = self.new(e)
            for k, x in zip(e.keys, e.values):
                v = self.ev(x)
                if k is None: self.store(n, "[]", self.load(v, "[]"))
                else: self.ev(k); self.store(n, "[]", v)
            return n
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            for g in e.generators:
                self.assign(g.target, self.load(self.ev(g.iter), "[]"), e)
                for c in g.ifs: self.ev(c)
            n = self.new(e)
            if isinstance(e, ast.DictComp): self.ev(e.key); self.store(n, "[]", self.ev(e.value))
            else: self.store(n, "[]", self.ev(e.elt))
            return n
        if isinstance(e, ast.IfExp): self.ev(e.test); return self.ev(e.body) | self.ev(e.orelse)
        if isinstance(e, ast.BoolOp): return frozenset().union(*[self.ev(x) for x in e.values])
        if isinstance(e, ast.NamedExpr): v = self.ev(e.value); self.assign(e.target, v, e); return v
        if isinstance(e, ast.BinOp):
            a = self.ev(e.left); b = self.ev(e.right)
            n = self.new(e)
            if isinstance(e.op, (ast.Add, ast.Mult)): self.store(n, "[]", self.load(a, "[]") | self.load(b, "[]"))
            return n
        if isinstance(e, ast.Lambda):
            g = self.ef.p.funcs.get(e)
            if g is not None: self.closure(g)
            return frozenset()
        if isinstance(e, ast.Call): return self.call(e)
        if isinstance(e, (ast.Yield, ast.YieldFrom)):
            if e.value is not None:
                n = self.new(e); self.store(n, "[]", self.ev(e.value)); self.ret(n)
            return frozenset()
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr): self.ev(c)
            elif isinstance(c, ast.FormattedValue): self.ev(c.value)
        return frozenset()

    def closure(self, g):
        "functions defined inside: what they do to variables of this one, assuming they are called"
        if g in self.inside: return
        args = g.node.args
        saved, loops, ret = self.env, self.loops, self.ret
        self.env = dict(self.weak); self.loops = []; self.ret = lambda v: None; self.inside.add(g)
        for x in args.args + args.kwonlyargs + [y for y in (args.vararg, args.kwarg) if y is not None]: self.env[x.arg] = frozenset()
        if isinstance(g.node.body, list): self.body(g.node.body)
        else: self.ev(g.node.body)
        self.inside.discard(g)
        self.env, self.loops, self.ret = saved, loops, ret

    def call(self, e):
        args = [(self.ev(a.value), True) if isinstance(a, ast.Starred) else (self.ev(a), False) for a in e.args]
        kws = {k.arg: self.ev(k.value) for k in e.keywords if k.arg}
        recv = self.ev(e.func.value) if isinstance(e.func, ast.Attribute) else frozenset()
        if not isinstance(e.func, (ast.Attribute, ast.Name)): self.ev(e.func)
        cs = self.ef.p.callees.get(e, ())
        r = frozenset()
        n = self.new(e)
        if not cs and isinstance(e.func, ast.Attribute):
            # an object of unknown kind, like the arguments only users of the library supply
            cs = [("bm", (k,), e.func.attr) for k in ("list",) if e.func.attr in MUTATORS or e.func.attr in ("copy", "values", "items", "keys", "get")]
        for c in cs:
            if isinstance(c, whole.Func): r |= self.apply(c, e, recv, args, kws, n)
            elif isinstance(c, whole.Class):
                init = next((g for k in c.mro() for g in self.ef.p.funcs.values() if g.cls is k and g.name == "__init__"), None)
                r |= n
                if init is not None: self.apply(init, e, n, args, kws, n, True)
            elif isinstance(c, tuple) and c[0] == "bm":
                name = c[2]
                if name in MUTATORS and c[1][0] in ("list", "dict", "set", "bytearray"):
                    self.mutate(recv, e, "%s is called" % ast.unparse(e.func))
                    if name in STORERS:
                        for v, star in (args[1:] if name in ("insert", "setdefault") else args) + [(k, False) for k in kws.values()]:
                            self.store(recv, "[]", v if name in ("append", "insert", "setdefault", "add") else self.load(v, "[]"))
                if name in ("pop", "get", "setdefault", "popitem", "__getitem__"): r |= self.load(recv, "[]")
                if name in ("pop", "get", "setdefault"):
                    for v, star in args[1:]: r |= v
                if name in ("copy", "values", "items", "keys", "__iter__"):
                    self.store(n, "[]", self.load(recv, "[]")); r |= n
                    if name == "items": self.store(n, "[]", n)
            elif c in COPIERS:
                for v, star in args: self.store(n, "[]", self.load(v, "[]"))
                r |= n
            elif c is __import__("copy").copy:
                for v, star in args:
                    for (t, field), w in list(self.fields.items()):
                        if t in v: self.store(n, field, w)
                    for t in v:
                        if t[0] != "n": self.store(n, "*", frozenset([child(t, "*")]))
                r |= n
            elif c in (min, max, next):
                for v, star in args: r |= self.load(v, "[]") | v
            elif c is getattr and len(e.args) >= 2 and isinstance(e.args[1], ast.Constant): r |= self.load(args[0][0], e.args[1].value)
            elif c is setattr and args: self.mutate(args[0][0], e, "setattr")
        return r

    def apply(self, c, e, recv, args, kws, n, init=False):
        s = self.ef.sum[c]
        pos = list(c.pos)
        bound = {}
        if c.cls is not None and c.kind != "static" and pos:
            if init or isinstance(e.func, ast.Attribute) and self.isbound(c, e): bound[pos[0]] = recv; pos = pos[1:]
        rest = frozenset()
        for i, (v, star) in enumerate(args):
            if star:
                for q in pos[i:]: bound[q] = bound.get(q, frozenset()) | self.load(v, "[]")
                rest |= self.load(v, "[]")
            elif i < len(pos): bound[pos[i]] = bound.get(pos[i], frozenset()) | v
            else: rest |= v
        for k, v in kws.items(): bound[k] = bound.get(k, frozenset()) | v
        def resolve(t):
            if t[0] == "s": return frozenset([t])
            if t[1].startswith("*"): return rest if t[2][:1] == ("[]",) else frozenset()
            v = bound.get(t[1], frozenset())
            for f in t[2]:
                if f == "*":
                    todo = set(v)
                    for i in range(3): todo |= self.load(frozenset(todo), "[]") | {child(x, "*") for x in todo if x[0] != "n"} | {y for (x, fl), ys in self.fields.items() if x in todo for y in ys}
                    v = frozenset(todo)
                else: v = self.load(v, f)
            return v
        for t, why in list(s.mut.items()):
            for x in resolve(t):
                if x[0] in ("p", "s") and x not in self.s.mut: self.s.mut[x] = why
        for b, field, v in list(s.stores):
            base = n if b == ("new",) else resolve(b)
            self.store(base, field, resolve(v))
        r = frozenset()
        for t in s.ret: r |= n if t == ("new",) else resolve(t)
        return r
    def isbound(self, c, e):
        "whether a method is called on an instance (not through its class)"
        v = e.func.value
        if isinstance(v, ast.Name) and v.id not in self.env and any(k.name == v.id for k in c.cls.related()): return False
        if isinstance(v, ast.Attribute) and any(k.name == v.attr for k in c.cls.related()) and not self.ev(v): return False
        return True

COPIERS = [list, tuple, set, sorted, dict, reversed, enumerate, zip, filter, map, frozenset, iter]
OPS = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "truediv", ast.BitOr: "or", ast.BitAnd: "and"}
def strip(t):
    if isinstance(t, ast.Name): return ast.Name(t.id, ast.Load())
    if isinstance(t, ast.Attribute): return ast.Attribute(t.value, t.attr, ast.Load())
    return ast.Subscript(t.value, t.slice, ast.Load())

_cache = {}
def effects(repo):
    if repo not in _cache: _cache[repo] = Effects(names.program(repo))
    return _cache[repo]
