"""C27, C28: names, attributes, calls, formats and raises fit (whole-program analysis of the kinds of values)"""
import os, re, sys
from .. import whole
HERE = os.path.dirname(os.path.abspath(__file__))
TEXT = {
    "names": "every name read is bound in its scope or a builtin, and no local variable is read where no assignment reaches it",
    "imports": "every imported module and name exists",
    "attributes": "every attribute read exists on all kinds of values its object can have",
    "calls": "every call can be accepted by all functions it can reach (positional, keyword and missing arguments)",
    "formats": "every format string fits its arguments",
    "raises": "raised values are exceptions, created exceptions are raised, except clauses catch what they name",
    "unpack": "unpacked sequences have the number of elements taken",
    "iterate": "iterated values are iterable",
    "subscript": "subscripted values support it",
    "operators": "operators are applied to kinds of values which support them",
    "kinds": "bytes and str are never combined, compared, searched, written or mixed",
}
UNKNOWN = ["attributes of unknown objects", "operators on unknown values", "comparisons of unknown values"]
CACHE = {}
def program(repo):
    if repo not in CACHE:
        sys.setrecursionlimit(20000)
        CACHE[repo] = whole.Program(repo).run()
    return CACHE[repo]

def example(res):
    "the rules find the planted mistakes in the examples and nothing else"
    root = os.path.join(HERE, "examples")
    p = whole.Program(root).run()
    got = {}
    for r in p.reports:
        f, l = r.where.rsplit(":", 1)
        got.setdefault((f, int(l)), set()).add(r.rule)
    want = {}
    for m in p.modules.values():
        for i, line in enumerate(open(m.path), 1):
            mt = re.search(r"# (\w+)$", line)
            if mt and mt.group(1) != "release": want[os.path.relpath(m.path, root), i] = mt.group(1)
    for k, rule in want.items():
        res.count("examples recognised")
        if rule not in got.get(k, ()): res.broken.append("example %s:%d: rule %s does not report (%s)" % (k + (rule, got.get(k))))
    for k in got:
        if k not in want: res.broken.append("example %s:%d: unexpected report %s" % (k + (got[k],)))

def check(repo, res, prop, counted):
    p = program(repo)
    example(res)
    for r in p.reports:
        if r.prop == prop: res.find(r.rule, r.construct, r.message + " [rule: " + TEXT[r.rule] + "]", r.where)
        if r.prop == prop: res.rules[r.rule] = TEXT[r.rule]
    for c in counted:
        n = p.counts.get(c, 0)
        res.count(c, n); res.decided += n
    for c in UNKNOWN: res.undecided += ["%d %s" % (p.counts.get(c, 0), c)]
    for k, v in TEXT.items():
        if (k == "kinds") == (prop == "C28"): res.rules[k] = v
    for f in p.funcs.values(): res.functions.add(f.qual)
    res.samples += ["%s(%s) -> %s" % (f.qual, ", ".join("%s: %s" % (k, whole.show(v)) for k, v in list(f.argtypes.items())[:4]), whole.show(f.ret))
                    for f in list(p.funcs.values())[100:1500:140]]

def c27(repo, res, tier):
    check(repo, res, "C27", ["names", "imports", "attributes", "calls", "calls by method name", "attributes of unknown objects", "formats", "raises", "handlers", "unpackings", "subscripts", "operators", "classes"])
def c28(repo, res, tier):
    check(repo, res, "C28", ["comparisons", "operators", "formats", "kinds of variables", "calls"])
