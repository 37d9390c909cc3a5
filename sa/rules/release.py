"""C29: files, helper processes and temporary files are released on every path

Forward may-analysis over the statements of every function: which acquired resources may still be open.
Exceptions may leave any statement which calls something. At every exit of the function (end, return,
exception) nothing may be left open which has not been handed out."""
import ast, builtins, io, os, shutil, subprocess, tempfile
from . import names

RULES = {
 "leak": "a file, process or temporary file acquired by a function is released on all its paths, exceptions included, or handed out",
 "lost": "an acquired file, process or temporary file is not given away to something which does not release it",
 "exit": "a temporary directory kept by an object outside of its constructor is registered for removal at exit before anything else may fail",
 "owner": "a class keeping an acquired resource in an attribute has a method which releases it (temporary directories: on all paths of the method)",
}
SAFE = {"len", "isinstance", "str", "repr", "int", "float", "list", "tuple", "dict", "set", "hasattr", "type", "sorted", "min", "max", "range", "zip", "enumerate", "print", "bool", "callable", "id"}
SAFEMETHODS = {"append", "format", "join", "startswith", "endswith", "strip", "rstrip", "info", "warning", "debug", "error", "insert", "extend", "setdefault", "split", "is_set", "clear", "rfind", "find", "items", "keys", "values", "lower", "upper", "is_alive"}
CLOSERS = {"file": {"close", "__exit__", "detach"}, "process": {"wait", "communicate", "__exit__"}, "path": {"cleanup"}}
PATHREL = {os.unlink, os.remove, os.rmdir, shutil.rmtree, shutil.move, os.rename, os.replace}
REMOVERS = ("unlink", "remove", "rmdir", "rmtree", "move", "rename", "replace", "removedirs")
WRAPPERS = {io.TextIOWrapper, io.BufferedReader, io.BufferedWriter}

class State(dict):
    "holder (variable) -> open resources"
    def __hash__(self): return id(self)
def joined(states):
    r = State()
    for s in states:
        if s is None: continue
        for k, v in s.items(): r[k] = r.get(k, frozenset()) | v
    return r
def without(s, acqs):
    r = State()
    for k, v in s.items():
        v = v - acqs
        if v: r[k] = v
    return r

class Res:
    __slots__ = ("node", "kind", "what")
    def __init__(self, node, kind, what): self.node, self.kind, self.what = node, kind, what

class Analysis:
    def __init__(self, prog, res):
        self.p = prog; self.res = res
        self.acq = {}           # function -> kinds it hands out
        self.ownerclass = set() # classes whose objects have to be closed
        self.consumers = {}
        self.nodes = {}
        self.stores = []        # (class, attribute, resource, function)
        self.reporting = False
        self.silent = 0
    def callees(self, n): return self.p.callees.get(n, ())

    # --- what a call acquires ---
    def acquiring(self, c):
        return bool(self.kindsof([c]))
    def kinds(self, n): return self.kindsof(self.callees(n), n)
    def kindsof(self, callees, n=None):
        r = set()
        for c in callees:
            if c in (builtins.open, io.open, os.fdopen): r.add("file")
            elif c is subprocess.Popen: r.add("process")
            elif c in (tempfile.mkdtemp, tempfile.mkstemp): r.add("path")
            elif c is tempfile.NamedTemporaryFile:
                if n is not None and any(k.arg == "delete" and isinstance(k.value, ast.Constant) and not k.value.value for k in n.keywords): r.add("path")
                r.add("file")
            elif c is tempfile.TemporaryFile: r.add("file")
            elif c is tempfile.TemporaryDirectory: r.add("path")
            elif isinstance(c, names.whole.Func): r |= self.acq.get(c, set())
            elif isinstance(c, names.whole.Class) and c in self.ownerclass: r.add("file")
        return r
    def resources(self, n):
        out = []
        for k in sorted(self.kinds(n)):
            key = (n, k)
            if key not in self.nodes: self.nodes[key] = Res(n, k, ast.unparse(n)[:60])
            out.append(self.nodes[key])
        return frozenset(out)

    def adopting(self, n):
        "calls whose result releases what it was given: wrappers and classes which close"
        cs = self.callees(n)
        if not cs: return False
        for c in cs:
            if c in WRAPPERS or getattr(c, "__module__", "") == "contextlib": continue
            if isinstance(c, names.whole.Class) and self.closes(c): continue
            return False
        return True
    def closes(self, c):
        for m in c.related():
            for f in ast.walk(m.node):
                if isinstance(f, ast.Attribute) and f.attr in ("close", "wait", "__exit__", "terminate"): return True
        return False

    # --- running ---
    def run(self):
        fs = [f for f in self.p.funcs.values()]
        for i in range(6):
            before = (dict((k, frozenset(v)) for k, v in self.acq.items()), set(self.ownerclass))
            self.stores = []
            for f in fs: self.function(f)
            if before == (dict((k, frozenset(v)) for k, v in self.acq.items()), set(self.ownerclass)): break
            self.consumers = {}
        self.reporting = True; self.stores = []
        for f in fs: self.function(f)
        for m in self.p.modules.values():
            fl = Flow(self, None, m)
            fl.finish(fl.block([s for s in m.tree.body if not isinstance(s, (ast.FunctionDef, ast.ClassDef))], State()))
        self.owners()

    def function(self, f):
        fl = Flow(self, f, f.module)
        if isinstance(f.node, ast.Lambda):
            r = fl.value(f.node.body, State(), [])
            if r: self.acq.setdefault(f, set()).update(x.kind for x in r)
            return
        fl.finish(fl.block(f.node.body, State()))
        for kind in fl.returned: self.acq.setdefault(f, set()).add(kind)

    def consumes(self, f, pname, kind):
        "whether the function releases its parameter on all paths"
        key = (f, pname, kind)
        if key in self.consumers: return self.consumers[key]
        self.consumers[key] = False
        if isinstance(f.node, ast.Lambda): return False
        r = Res(f.node, kind, "parameter " + pname)
        self.silent += 1
        fl = Flow(self, f, f.module); fl.handed = set()
        out = fl.block(f.node.body, State({pname: frozenset([r])}))
        left = [s for s in [out] + [s for k, s in fl.exits] + fl.raises[0] if s is not None and any(r in v for v in s.values())]
        self.silent -= 1
        self.consumers[key] = not left and r not in fl.handed
        return self.consumers[key]

    def owners(self):
        "attributes holding resources"
        done = set()
        for cls, attr, r, f in self.stores:
            if (cls, attr, r.kind) in done: continue
            done.add((cls, attr, r.kind))
            self.res.count("resources kept by objects")
            self.res.decided += 1
            methods = [g for g in self.p.funcs.values() if g.cls is not None and g.cls in cls.related()]
            ok = False; good = []
            for g in methods:
                if not self.releasesattr(g, attr, r.kind): continue
                if r.kind != "path" or self.consumes(g, "self." + attr, "path"): ok = True; good.append(g)
            if ok and r.kind == "path" and f.name != "__init__":
                self.res.decided += 1; self.res.count("temporary directories kept by objects")
                if not self.registered(f, r, good):
                    self.res.find("exit", "%s.%s" % (cls.qual, attr), "%s keeps the %s in the attribute %s, but does not register %s to be called at exit right away: an exception leaves it behind [rule: %s]" % (
                        f.qual, NAMES[r.kind], attr, " or ".join(g.name for g in good), RULES["exit"]), where(self.p, f.module, r.node))
            if not ok:
                self.res.find("owner", "%s.%s" % (cls.qual, attr), "no method of %s releases the %s which %s keeps in the attribute %s%s [rule: %s]" % (
                    cls.name, NAMES[r.kind], f.qual, attr, " on all its paths" if r.kind == "path" else "", RULES["owner"]), where(self.p, f.module, r.node))
    def registered(self, f, r, good):
        "whether a releasing method is registered to be called at exit before anything else may fail"
        for block in ast.walk(f.node):
            for field in ("body", "orelse", "finalbody"):
                stmts = getattr(block, field, None)
                if not isinstance(stmts, list): continue
                for i, st in enumerate(stmts):
                    if not (isinstance(st, ast.Assign) and any(n is r.node for n in ast.walk(st))): continue
                    fl = Flow(self, f, f.module)
                    for st in stmts[i+1:]:
                        for n in ast.walk(st):
                            if isinstance(n, ast.Call) and isinstance(n.func, (ast.Attribute, ast.Name)) and getattr(n.func, "attr", getattr(n.func, "id", "")) == "register" and n.args and \
                               isinstance(n.args[0], ast.Attribute) and n.args[0].attr in [g.name for g in good]: return True
                        if fl.mayraise(st): return False
        return False
    def releasesattr(self, g, attr, kind):
        self0 = g.pos[0] if g.pos else None
        def isattr(x): return isinstance(x, ast.Attribute) and x.attr == attr and isinstance(x.value, ast.Name) and x.value.id == self0
        for n in ast.walk(g.node):
            if isinstance(n, ast.Attribute) and n.attr in CLOSERS[kind] and isattr(n.value): return True
            if isinstance(n, ast.Call) and n.args and isattr(n.args[0]) and getattr(n.func, "attr", getattr(n.func, "id", "")) in REMOVERS: return True
            if isinstance(n, ast.With) and any(isattr(i.context_expr) for i in n.items): return True
        return False

NAMES = {"file": "file", "process": "helper process", "path": "temporary file or directory"}
def where(p, m, n): return "%s:%d" % (os.path.relpath(m.path, p.repo), n.lineno)

class Flow:
    def __init__(self, an, fn, module):
        self.an = an; self.fn = fn; self.module = module
        self.exits = []     # (kind, state)
        self.raises = [[]]  # states at exceptions, innermost try last
        self.loops = []
        self.returned = set(); self.handed = set()
        self.self0 = fn.pos[0] if fn is not None and fn.cls is not None and fn.pos else None
        self.qual = fn.qual if fn is not None else module.name

    def report(self, rule, r, message):
        if not self.an.reporting or self.an.silent: return
        self.an.res.find(rule, "%s: %s" % (self.qual, r.what), message + " [rule: %s]" % RULES[rule], where(self.an.p, self.module, r.node))

    def finish(self, out):
        states = [("end", out)] if out is not None else []
        states += self.exits + [("exception", s) for s in self.raises[0]]
        bad = {}
        for kind, s in states:
            for h, v in s.items():
                for r in v: bad.setdefault(r, set()).add(kind)
        if self.an.reporting and not self.an.silent:
            for r in self.an.nodes.values():
                if r.node in self.mine:
                    self.an.res.count("acquisitions"); self.an.res.decided += 1
                    if len(self.an.res.samples) < 12: self.an.res.samples.append("%s in %s: %s" % (r.kind, self.qual, "released" if r not in bad else "left open"))
        for r, kinds in bad.items():
            self.report("leak", r, "the %s acquired by %s is not released when the function is left by %s" % (NAMES[r.kind], r.what, " or ".join(sorted(kinds))))
    @property
    def mine(self):
        if not hasattr(self, "_mine"):
            body = self.fn.node if self.fn is not None else self.module.tree
            self._mine = set()
            def walk(n):
                for c in ast.iter_child_nodes(n):
                    if isinstance(c, (ast.FunctionDef, ast.ClassDef)) and not (self.fn is None and isinstance(c, ast.ClassDef)): continue
                    self._mine.add(c); walk(c)
            walk(body)
        return self._mine

    # --- statements ---
    def raised(self, s):
        if s: self.raises[-1].append(s)
    def leave(self, kind, s):
        if s: self.exits.append((kind, s))
    def block(self, stmts, s):
        for st in stmts:
            if s is None: break
            s = self.stmt(st, s)
        return s
    def mayraise(self, node):
        for n in ast.walk(node):
            if isinstance(n, ast.Call):
                f = n.func
                if isinstance(f, ast.Name) and f.id in SAFE: continue
                if isinstance(f, ast.Attribute) and f.attr in SAFEMETHODS: continue
                if self.releases(n, None): continue
                if self.an.callees(n) and all(c in WRAPPERS for c in self.an.callees(n)): continue
                return True
            if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)): return True
        return False

    def holder(self, x):
        if isinstance(x, ast.Name): return x.id
        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name): return x.value.id + "." + x.attr
        return None
    def releases(self, n, s):
        "resources which a call releases"
        f = n.func
        out = set()
        if isinstance(f, ast.Attribute):
            h = self.holder(f.value)
            if h is not None:
                if s is None:
                    if any(f.attr in c for c in CLOSERS.values()): return {True}
                else:
                    for r in s.get(h, ()):
                        if f.attr in CLOSERS[r.kind]: out.add(r)
        name = getattr(f, "attr", getattr(f, "id", ""))
        if name in REMOVERS and n.args:
            h = self.holder(n.args[0])
            if h is not None:
                if s is None: return {True}
                for r in s.get(h, frozenset()) | (s.get(h[:-5], frozenset()) if h.endswith(".name") else frozenset()):
                    if r.kind == "path": out.add(r)
        if s is not None:
            cs = [c for c in self.an.callees(n) if isinstance(c, names.whole.Func)]
            if cs and len(cs) == len(self.an.callees(n)):
                for i, a in enumerate(n.args):
                    h = self.holder(a)
                    for r in s.get(h, ()) if h is not None else ():
                        ok = True
                        for c in cs:
                            pos = c.pos[1:] if c.cls is not None and c.kind != "static" and isinstance(f, ast.Attribute) else c.pos
                            if not (i < len(pos) and self.an.consumes(c, pos[i], r.kind)): ok = False
                        if ok: out.add(r)
                # methods releasing an attribute of self
                if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == self.self0:
                    for h, v in s.items():
                        if h.startswith(f.value.id + ".") and all(self.an.consumes(c, (c.pos[0] if c.pos else "self") + h[len(f.value.id):], r.kind) for c in cs for r in v): out |= v
        return out

    def simple(self, st, s, exprs):
        "effects of the calls in a statement: exception edge, releases"
        rel = set()
        for e in exprs:
            for n in ast.walk(e):
                if isinstance(n, (ast.Lambda,)): continue
                if isinstance(n, ast.Call): rel |= self.releases(n, s)
        after = without(s, frozenset(rel)) if rel else s
        if any(self.mayraise(e) for e in exprs): self.raised(after if rel else s)
        return after

    def stmt(self, st, s):
        m = getattr(self, "s_" + type(st).__name__, None)
        if m is not None: return m(st, s)
        exprs = [c for c in ast.iter_child_nodes(st) if isinstance(c, ast.expr)]
        s = self.simple(st, s, exprs)
        for e in exprs: self.discard(e, s)
        return s
    def s_FunctionDef(self, st, s): return s
    s_AsyncFunctionDef = s_FunctionDef
    def s_ClassDef(self, st, s): return self.block([x for x in st.body if not isinstance(x, (ast.FunctionDef, ast.ClassDef))], s) if self.fn is None else s

    def discard(self, e, s):
        "an expression whose value is not kept"
        bad = []
        for r in self.fresh(self.value(e, s, bad), s): self.report("lost", r, "the %s acquired by %s is not kept" % (NAMES[r.kind], r.what))

    def value(self, e, s, bad):
        "resources the value of an expression is; acquired ones which get lost on the way are reported"
        if isinstance(e, ast.Name): return s.get(e.id, frozenset())
        if isinstance(e, ast.Call):
            r = self.an.resources(e)
            if self.fn is None and r and not all(self.an.acquiring(c) for c in self.an.callees(e)): r = frozenset()
            args = list(e.args) + [k.value for k in e.keywords]
            given = frozenset()
            for i, a in enumerate(args):
                if isinstance(a, ast.Starred): a = a.value
                fresh = self.fresh(self.value(a, s, bad), s)
                if fresh: given |= self.given(e, i, a, fresh)
            if isinstance(e.func, ast.Attribute):
                v = self.value(e.func.value, s, bad)
                for x in self.fresh(v, s):
                    if e.func.attr in CLOSERS[x.kind]: continue
                    if e.func.attr == "enter_context": continue
                    self.report("lost", x, "the %s acquired by %s is used without being released" % (NAMES[x.kind], x.what))
            elif not isinstance(e.func, ast.Name): self.value(e.func, s, bad)
            if self.an.adopting(e):
                held = frozenset().union(*[self.value(a.value if isinstance(a, ast.Starred) else a, s, []) for a in args]) if args else frozenset()
                return r | held
            if isinstance(e.func, ast.Attribute) and e.func.attr == "enter_context" and args: return frozenset()
            return r
        if isinstance(e, ast.IfExp):
            self.value(e.test, s, bad)
            return self.value(e.body, s, bad) | self.value(e.orelse, s, bad)
        if isinstance(e, ast.BoolOp): return frozenset().union(*[self.value(v, s, bad) for v in e.values])
        if isinstance(e, ast.NamedExpr): return self.value(e.value, s, bad)
        if isinstance(e, (ast.Tuple, ast.List)): return frozenset().union(*[self.value(v.value if isinstance(v, ast.Starred) else v, s, bad) for v in e.elts]) if e.elts else frozenset()
        if isinstance(e, ast.Lambda): return frozenset()
        if isinstance(e, ast.Attribute):
            v = self.value(e.value, s, bad)
            h = self.holder(e)
            for x in self.fresh(v, s): self.report("lost", x, "the %s acquired by %s is lost, only its attribute %s is kept" % (NAMES[x.kind], x.what, e.attr))
            if h is not None and h in s: return s[h]
            if e.attr == "name": return frozenset(x for x in v if x.kind == "path")
            return frozenset()
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                for x in self.fresh(self.value(c, s, bad), s): self.report("lost", x, "the %s acquired by %s is not kept" % (NAMES[x.kind], x.what))
            elif isinstance(c, ast.comprehension): self.discard(c.iter, s)
        return frozenset()
    def fresh(self, v, s):
        "resources acquired within the expression, held by no variable yet"
        held = frozenset().union(*s.values()) if s else frozenset()
        return v - held
    def given(self, call, i, a, fresh):
        "acquired resources given to a function"
        if self.an.adopting(call): return fresh
        cs = self.an.callees(call)
        for r in fresh:
            ok = bool(cs)
            for c in cs:
                if isinstance(c, names.whole.Func):
                    pos = c.pos[1:] if c.cls is not None and c.kind != "static" and isinstance(call.func, ast.Attribute) else c.pos
                    p = pos[i] if i < min(len(pos), len(call.args)) else call.keywords[i-len(call.args)].arg if i >= len(call.args) else None
                    if p is None or not self.an.consumes(c, p, r.kind): ok = False
                else: ok = False
            if isinstance(call.func, ast.Attribute) and call.func.attr in ("enter_context", "push", "callback"): ok = True
            if not ok: self.report("lost", r, "the %s acquired by %s is given to %s, which does not release it" % (NAMES[r.kind], r.what, ast.unparse(call.func)))
        return frozenset()

    def bind(self, t, v, s, st):
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts: s = self.bind(x.value if isinstance(x, ast.Starred) else x, v, s, st)
            return s
        h = self.holder(t)
        if isinstance(t, ast.Name):
            s = State(s)
            if v: s[h] = v
            else: s.pop(h, None)
            return s
        if isinstance(t, ast.Attribute) and h is not None and h.split(".")[0] == self.self0 and self.fn is not None:
            for r in v:
                self.an.stores.append((self.fn.cls, t.attr, r, self.fn)); self.handed.add(r)
            if v and self.fn.name == "__init__" and any("__exit__" in c.attrs or "close" in c.attrs for c in self.fn.cls.related()) and any(r.kind == "file" for r in v):
                self.an.ownerclass.update(c for c in [self.fn.cls] + self.fn.cls.descendants() if next((b for b in c.mro() if '__init__' in b.attrs), None) is self.fn.cls)
            s = without(s, v)
            return s
        for r in v:
            self.handed.add(r)
            self.report("lost", r, "the %s acquired by %s is stored in %s" % (NAMES[r.kind], r.what, ast.unparse(t)[:40]))
        return without(s, v)
    def s_Assign(self, st, s):
        pre = s
        s = self.simple(st, s, [st.value] + [t for t in st.targets if not isinstance(t, ast.Name)])
        v = self.value(st.value, s, [])
        for t in st.targets: s = self.bind(t, v, s, st)
        return s
    def s_AnnAssign(self, st, s):
        if st.value is None: return s
        s = self.simple(st, s, [st.value])
        return self.bind(st.target, self.value(st.value, s, []), s, st)
    def s_Return(self, st, s):
        if st.value is not None:
            s = self.simple(st, s, [st.value])
            v = self.value(st.value, s, [])
            for r in v: self.returned.add(r.kind); self.handed.add(r)
            s = without(s, v)
        self.doreturn("return", s)
        return None
    def doreturn(self, kind, s): self.leave(kind, s)
    def s_Raise(self, st, s):
        for e in (st.exc, st.cause):
            if e is not None: s = self.simple(st, s, [e])
        self.raised(s)
        return None
    def s_Assert(self, st, s): return s
    def s_Global(self, st, s): return s
    s_Nonlocal = s_Pass = s_Import = s_ImportFrom = s_Global
    def s_Break(self, st, s): self.loops[-1].append(("break", s)); return None
    def s_Continue(self, st, s): self.loops[-1].append(("continue", s)); return None
    def narrow(self, test, s):
        "states for a true and a false test"
        neg = False
        t = test
        while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not): neg = not neg; t = t.operand
        h = None
        if isinstance(t, (ast.Name, ast.Attribute)): h = self.holder(t)
        elif isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None:
            h = self.holder(t.left)
            if isinstance(t.ops[0], (ast.Is, ast.Eq)): neg = not neg
        if h is None or h not in s: return s, s
        none = State(s); none.pop(h)
        return (none, s) if neg else (s, none)
    def s_If(self, st, s):
        s = self.simple(st, s, [st.test]); self.discard(st.test, s)
        a, b = self.narrow(st.test, s)
        x = self.block(st.body, a); y = self.block(st.orelse, b)
        if x is None: return y
        if y is None: return x
        return joined([x, y])
    def loop(self, st, s, head):
        self.loops.append([])
        cur = s
        for i in range(4):
            body = self.block(st.body, head(cur))
            new = joined([cur, body] + [x for kind, x in self.loops[-1] if kind == "continue"])
            if new == cur: break
            cur = new
        left = self.loops.pop()
        out = None
        if not (isinstance(st, ast.While) and isinstance(st.test, ast.Constant) and st.test.value):
            out = self.block(st.orelse, cur) if st.orelse else cur
        ends = [out] + [x for kind, x in left if kind == "break"]
        ends = [x for x in ends if x is not None]
        return joined(ends) if ends else None
    def s_While(self, st, s):
        s = self.simple(st, s, [st.test]); self.discard(st.test, s)
        out = self.loop(st, s, lambda c: c)
        return out
    def s_For(self, st, s):
        s = self.simple(st, s, [st.iter])
        v = self.value(st.iter, s, [])
        for r in self.fresh(v, s): self.report("lost", r, "the %s acquired by %s is used without being released" % (NAMES[r.kind], r.what))
        return self.loop(st, s, lambda c: self.bind(st.target, frozenset(), c, st) if not isinstance(st.target, (ast.Attribute, ast.Subscript)) else c)
    s_AsyncFor = s_For
    def s_With(self, st, s): return self.within(st, 0, s)
    def within(self, st, i, s):
        if i == len(st.items): return self.block(st.body, s)
        it = st.items[i]
        s = self.simple(st, s, [it.context_expr])
        v = self.value(it.context_expr, s, [])
        held = frozenset(x for x in v if x.kind != "path" or any(c is tempfile.TemporaryDirectory for c in self.an.callees(x.node) or ()))
        if it.optional_vars is not None and v: s = self.bind(it.optional_vars, v, s, st)
        elif v: s = State(s); s["with %d" % id(it)] = v
        n = len(self.exits); k = len(self.loops[-1]) if self.loops else 0
        self.raises.append([])
        out = self.within(st, i+1, s)
        rs = self.raises.pop()
        for x in rs: self.raised(without(x, held))
        self.exits[n:] = [(kd, without(x, held)) for kd, x in self.exits[n:]]
        if self.loops: self.loops[-1][k:] = [(kd, without(x, held)) for kd, x in self.loops[-1][k:]]
        return None if out is None else without(out, held)
    s_AsyncWith = s_With
    def s_Try(self, st, s):
        n = len(self.exits); k = len(self.loops[-1]) if self.loops else 0
        self.raises.append([])
        out = self.block(st.body, s)
        rs = self.raises.pop()
        outs = []
        caught = joined(rs + [s]) if rs else s
        self.raises.append([])
        if st.orelse and out is not None: out = self.block(st.orelse, out)
        outs.append(out)
        catchall = False
        for h in st.handlers:
            if h.type is None or isinstance(h.type, ast.Name) and h.type.id in ("Exception", "BaseException"): catchall = True
            outs.append(self.block(h.body, caught))
        inner = self.raises.pop()
        if not catchall: inner += rs
        outs = [o for o in outs if o is not None]
        out = joined(outs) if outs else None
        if st.finalbody:
            pend = self.exits[n:]; del self.exits[n:]
            lp = self.loops[-1][k:] if self.loops else []
            if self.loops: del self.loops[-1][k:]
            for x in inner:
                y = self.final(st.finalbody, x)
                if y is not None: self.raised(y)
            for kind, x in pend:
                y = self.final(st.finalbody, x)
                if y is not None: self.leave(kind, y)
            for kind, x in lp:
                y = self.final(st.finalbody, x)
                if y is not None: self.loops[-1].append((kind, y))
            if out is not None: out = self.final(st.finalbody, out)
            return out
        for x in inner: self.raised(x)
        return out
    def final(self, body, s): return self.block(body, s)

def example(res):
    root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "examples")
    import re
    p = names.program(root)
    r = type(res)()
    Analysis(p, r).run()
    got = {f.where for f in r.findings}
    for m in p.modules.values():
        for i, line in enumerate(open(m.path), 1):
            w = "%s:%d" % (os.path.relpath(m.path, root), i)
            bad = re.search(r"# release$", line)
            if bad: res.count("examples recognised")
            if bad and w not in got: res.broken.append("example %s is not reported" % w)
            if not bad and w in got: res.broken.append("example %s is reported" % w)

def c29(repo, res, tier):
    p = names.program(repo)
    a = Analysis(p, res)
    a.run()
    example(res)
    res.rules.update(RULES)
    for f in p.funcs.values(): res.functions.add(f.qual)
    for f, k in a.acq.items(): res.samples.append("%s hands out %s" % (f.qual, ", ".join(sorted(k))))
    res.count("functions handing out resources", len(a.acq))
