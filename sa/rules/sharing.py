"""C26: graph styles and data keep no per-graph information; C23: defaults of parameters are never modified

Both rest on the side effects found by effects.py."""
import ast, os
from . import names, effects
HERE = os.path.dirname(os.path.abspath(__file__))
whole = names.whole

RULES26 = {
 "modified": "no method of a style or data but __init__ modifies the instance, anything reachable from it, or what another style keeps in the shared data on behalf of its instance",
 "outside": "no attribute of a style or data instance is assigned elsewhere than in its own __init__",
 "undeclared": "shared data a style accesses is data it sets itself, declares to need or to provide, or data kept by the providers of what it needs",
 "unset": "shared data a style declares to provide is set by it, and not later than the other styles read it",
 "provider": "shared data a style needs has a provider, and every default provider provides what it is registered for",
}
RULES23 = {
 "defaultmodified": "the default of a parameter, which exists once for all calls, is not modified in place by the function or what it calls",
 "defaultkept": "the default of a parameter which an instance keeps is not modified in place by the methods of the class",
}
STAGES = ["columnnames", "adjustaxis", "selectstyle", "initdrawpoints", "drawpoint", "donedrawpoints", "key_pt"]

def kind(prog, quals): return [c for c in prog.classes.values() if c.qual in quals]
def family(bases):
    r = set()
    for b in bases: r |= {b} | set(b.descendants())
    return r
def at(prog, f, line):
    "the place in a function or class"
    path = f.module.path
    i = path.rfind("/pyx/")
    return "%s:%d" % (path[i+1:], line)
def shown(t): return "".join([t[1]] + ["[…]" if x in ("[]", "*") else "." + x for x in t[2]])

def literal(prog, cls, name):
    "the list of names a class declares"
    for k in cls.mro():
        for s in k.node.body:
            if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets):
                try: return list(ast.literal_eval(s.value))
                except ValueError: return names_of(prog, k, s.value)
    return []
def names_of(prog, cls, e):
    "lists built from literals and the declarations of other classes"
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add): return names_of(prog, cls, e.left) + names_of(prog, cls, e.right)
    if isinstance(e, (ast.List, ast.Tuple)): return [x.value for x in e.elts]
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
        for k in prog.classes.values():
            if k.name == e.value.id and k.module is cls.module: return literal(prog, k, e.attr)
    raise ValueError("declaration %s of %s is not understood" % (ast.unparse(e), cls.qual))

class Find:
    def __init__(self): self.items = []; self.counts = {}
    def find(self, rule, construct, message, where): self.items.append((rule, construct, message, where))
    def count(self, rule, n=1): self.counts[rule] = self.counts.get(rule, 0) + n

def modified(prog, ef, out):
    sets = {}
    for label, quals in (("style", ("graph.style._style",)), ("data", ("graph.data._data",))):
        bases = kind(prog, quals)
        if not bases: out.find("anchor", quals[0], "class not found", ""); continue
        cl = family(bases); sets[label] = cl
        for f, s in ef.sum.items():
            if f.cls not in cl or f.name in ("__init__", "__new__") or not f.pos or f.kind == "static": continue
            out.count("methods of styles and data")
            for t, (g, line, what) in sorted(s.mut.items(), key=lambda i: (str(i[0]), i[1][1])):
                if t[0] == "p" and t[1] == f.pos[0]: out.find("modified", f.qual, "%s is modified: in %s %s" % (shown(t), g.qual, what), at(prog, g, line))
                elif t[0] == "s": out.find("modified", f.qual, "what %s keeps in the shared data is modified (%s): in %s %s" % (t[1], shown(t[1:]), g.qual, what), at(prog, g, line))
        out.count("classes of styles and data", len(cl))
    # the class which draws data by styles: what it is constructed with stays as it is
    for c in kind(prog, ("graph.graph.plotitem",)):
        init = next((f for f in prog.funcs.values() if f.cls is c and f.name == "__init__"), None)
        if init is None or len(init.pos) < 4: out.find("anchor", c.qual, "constructor not understood", ""); continue
        given = set(init.pos[2:4])
        kept = {field: v for b, field, v in ef.sum[init].stores if b in (("new",), ("p", init.pos[0], ())) and v[1] in given}
        for f, s in ef.sum.items():
            if f.cls is not c or not f.pos: continue
            out.count("methods drawing data")
            for t, (g, line, what) in sorted(s.mut.items(), key=lambda i: str(i[0])):
                if f is init and t[1] in given or t[0] == "p" and t[1] == f.pos[0] and t[2][:1] and t[2][0] in kept:
                    out.find("modified", f.qual, "%s is modified: in %s %s" % (shown(t), g.qual, what), at(prog, g, line))
    # assignments from elsewhere
    cl = set().union(*sets.values()) if sets else set()
    for f in prog.funcs.values():
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                k = prog.sets.get(n)
                if k is None: continue
                out.count("attribute assignments")
                if f.cls in cl and f.name == "__init__" and isinstance(n.value, ast.Name) and f.pos and n.value.id == f.pos[0]: continue
                hit = [t for t in k if isinstance(t, tuple) and t[0] == "inst" and t[1] in cl]
                if hit and not within(f, cl) and not own(prog, f, n.value): out.find("outside", f.qual, "%s of a %s is assigned" % (ast.unparse(n), hit[0][1].qual), at(prog, f, n.lineno))
    return sets

def within(f, cl):
    while f is not None:
        if f.cls in cl: return True
        f = f.parent if isinstance(f.parent, whole.Func) else None
def own(prog, f, e):
    "a variable holding nothing but objects the function has created"
    if not isinstance(e, ast.Name) or e.id in f.pos + f.kwonly: return False
    made = []
    for n in ast.walk(f.node):
        if isinstance(n, ast.Name) and n.id == e.id and isinstance(n.ctx, ast.Store): made.append(n)
    ok = [t for n in ast.walk(f.node) if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and prog.callees.get(n.value) and all(isinstance(c, whole.Class) for c in prog.callees[n.value]) for t in n.targets]
    return bool(made) and all(any(m is t for t in ok) for m in made)

def shared(prog, sets, out):
    styles = sets.get("style", ())
    info = {}
    for c in styles:
        # the names of each method of the class, inherited ones included, as they are read and written
        seen = {}
        for k in reversed(c.mro()):
            for f in prog.funcs.values():
                if f.cls is k: seen[f.name] = f
        acc = {}
        for name, f in seen.items():
            r = []
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "sharedata": r.append((n.attr, isinstance(n.ctx, ast.Load), n, f))
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("getattr", "setattr", "hasattr") and n.args and isinstance(n.args[0], ast.Name) and n.args[0].id == "sharedata":
                    r.append((n.args[1].value if isinstance(n.args[1], ast.Constant) else None, n.func.id != "setattr", n, f))
            calls = {n.func.attr for n in ast.walk(f.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and (n.func.value.id == f.pos[:1] or n.func.value.id in f.pos[:1])}
            supers = [g for n in ast.walk(f.node) if isinstance(n, ast.Call) for g in prog.callees.get(n, ()) if isinstance(g, whole.Func) and g.cls in c.mro() and g is not f and g.name == name]
            acc[name] = (r, calls, supers)
        stages = {}
        for i, stage in enumerate(STAGES):
            todo = [stage]; done = set()
            while todo:
                m = todo.pop()
                if m in done or m not in acc: continue
                done.add(m); stages.setdefault(m, i)
                todo += acc[m][1]
        info[c] = (acc, stages)
    declared = {c: (literal(prog, c, "needsdata"), literal(prog, c, "providesdata")) for c in styles}
    registered = {}    # default providers
    for f in [n for m in prog.modules.values() for n in ast.walk(m.tree) if isinstance(n, ast.Call)]:
        if any(isinstance(g, whole.Func) and g.name == "registerdefaultprovider" for g in prog.callees.get(f, ())) and len(f.args) == 2:
            cs = [c for c in styles if isinstance(f.args[0], ast.Call) and c in prog.callees.get(f.args[0], ())]
            if len(cs) != 1: out.find("anchor", "registerdefaultprovider", "call not understood", ""); continue
            try: names_ = names_of(prog, cs[0], f.args[1])
            except ValueError: out.find("anchor", "registerdefaultprovider", "call not understood", ""); continue
            for n in names_:
                out.count("default providers")
                registered[n] = cs[0]
                if n not in declared[cs[0]][1]: out.find("provider", cs[0].qual, "registered for %s, which it does not declare to provide" % n, at(prog, cs[0], f.lineno))
    setat = {}   # name -> class -> stage
    own_ = {c: {attr for r, calls, supers in info[c][0].values() for attr, load, n, f in r if not load} | set(declared[c][1]) for c in styles}
    def available(c, seen):
        r = set(own_[c])
        for n in declared[c][0]:
            r.add(n)
            ps = [registered[n]] if n in registered else [q for q in styles if n in declared[q][1]]
            got = [available(q, seen | {q}) for q in ps if q not in seen]
            if got: r |= set.intersection(*got)
        return r
    for c in styles:
        acc, stages = info[c]; needs, provides = declared[c]
        avail = available(c, {c})
        for m, (r, calls, supers) in acc.items():
            every = list(r)
            for g in supers:
                every += [(n.attr, isinstance(n.ctx, ast.Load), n, g) for n in ast.walk(g.node) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "sharedata"]
            for attr, load, n, f in every:
                out.count("accesses to shared data")
                if attr is None: continue
                if attr not in avail:
                    out.find("undeclared", "%s.%s" % (c.qual, m), "sharedata.%s is %s, but neither needed nor provided" % (attr, "read" if load else "set"), at(prog, f, n.lineno))
                if not load and m in stages:
                    d = setat.setdefault(attr, {})
                    d[c] = min(d.get(c, 99), stages[m])
    for c in styles:
        for n in declared[c][1]:
            out.count("provided data")
            if c not in setat.get(n, {}): out.find("unset", c.qual, "%s is declared to be provided, but never set" % n, at(prog, c, c.node.lineno))
    for c in styles:
        acc, stages = info[c]; needs, provides = declared[c]
        for m, (r, calls, supers) in acc.items():
            if m not in stages: continue
            for attr, load, n, f in r:
                if not load or attr not in needs + provides: continue
                for q in styles:
                    if attr in declared[q][1] and q in setat.get(attr, {}) and setat[attr][q] > stages[m] and (q is c or attr not in provides):
                        out.find("unset", "%s.%s" % (c.qual, m), "sharedata.%s is read before %s sets it in %s" % (attr, q.qual, STAGES[setat[attr][q]]), at(prog, f, n.lineno))
    every = {n for c in styles for n in declared[c][1]}
    for c in styles:
        for n in declared[c][0]:
            out.count("needed data")
            if n not in every: out.find("provider", c.qual, "%s is needed, but no style provides it" % n, at(prog, c, c.node.lineno))

def defaults(prog, ef, out):
    for f, s in ef.sum.items():
        a = f.node.args
        if isinstance(f.node, ast.Lambda): continue     # made anew whenever the lambda is
        outer = f.cls is not None or f in toplevel(prog)
        if not outer: continue
        ps = a.posonlyargs + a.args
        ds = list(zip(ps[len(ps)-len(a.defaults):], a.defaults)) + [(k, d) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        for p, d in ds:
            if isinstance(d, ast.Constant) or isinstance(d, ast.UnaryOp): continue
            out.count("defaults which are objects")
            for t, (g, line, what) in s.mut.items():
                if t[0] == "p" and t[1] == p.arg: out.find("defaultmodified", f.qual, "the default %s of %s is modified (%s): in %s %s" % (ast.unparse(d), p.arg, shown(t), g.qual, what), at(prog, g, line))
            if f.name != "__init__" or f.cls is None: continue
            for b, field, v in s.stores:
                if v[0] != "p" or v[1] != p.arg or b not in (("new",), ("p", f.pos[0], ())): continue
                out.count("defaults kept by instances")
                for g, s2 in ef.sum.items():
                    if g.cls is None or g.cls not in f.cls.related() or not g.pos or g.name == "__init__": continue
                    for t, (h, line, what) in s2.mut.items():
                        if t[0] == "p" and t[1] == g.pos[0] and t[2][:1] == (field,):
                            out.find("defaultkept", f.qual, "the default %s of %s, kept as %s, is modified by %s (%s): in %s %s" % (ast.unparse(d), p.arg, field, g.qual, shown(t), h.qual, what), at(prog, h, line))
_top = {}
def toplevel(prog):
    if prog not in _top: _top[prog] = {prog.funcs.get(n) for m in prog.modules.values() for n in m.tree.body if isinstance(n, ast.FunctionDef)}
    return _top[prog]

_ex = {}
def run(repo, prop):
    prog = names.program(repo); ef = effects.effects(repo)
    out = Find()
    if prop == "C26":
        sets = modified(prog, ef, out); shared(prog, sets, out)
    else: defaults(prog, ef, out)
    return prog, ef, out
def report(repo, res, prop, rules):
    root = os.path.join(HERE, "examples26")
    p, e, x = run(root, prop)
    want = set(); got = {(r, w.rsplit("/", 1)[-1]) for r, c, m, w in x.items}
    for m in p.modules.values():
        for i, line in enumerate(open(m.path), 1):
            for r in line.rsplit("# ", 1)[1].split() if "# " in line else ():
                if r in rules: want.add((r, "%s:%d" % (os.path.basename(m.path), i)))
    for w in sorted(want):
        res.count("examples recognised")
        if w not in got: res.broken.append("example %s: rule %s does not report" % (w[1], w[0]))
    for g in sorted(got - want): res.broken.append("example %s: unexpected report of rule %s" % (g[1], g[0]))
    prog, ef, out = run(repo, prop)
    res.rules.update(rules)
    for k, n in out.counts.items(): res.count(k, n); res.decided += n
    seen = set()
    for rule, construct, message, w in out.items:
        if rule == "anchor": res.broken.append("%s: %s" % (construct, message)); continue
        if (rule, construct, w) in seen: continue
        seen.add((rule, construct, w))
        res.find(rule, construct, message + " [rule: " + rules[rule] + "]", w)
    res.count("functions with side effects on parameters", sum(1 for s in ef.sum.values() if s.mut))
    for f in ef.sum: res.functions.add(f.qual)
    k = [f for f, s in ef.sum.items() if s.mut and f.cls is not None][::40]
    res.samples += ["%s modifies %s" % (f.qual, ", ".join(sorted(shown(t) if t[0] == "p" else t[1] for t in ef.sum[f].mut)[:4])) for f in k]

def c26(repo, res, tier): report(repo, res, "C26", RULES26)
def c23(repo, res, tier): report(repo, res, "C23", RULES23)
