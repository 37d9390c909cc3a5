# Laws of rationals, ticks, merging of tick lists and partitions (C11).
from math import log, floor, ceil
from pyx.graph.axis import tick, parter

N, D, M, E = integer("n"), pos("d"), integer("m"), pos("e")
SIGNS = [(a, b) for a in (1, -1) for b in (1, -1)]
def val(r): return r.num/r.denom
def R(n, d): return tick.rational((n, d))

def law_value():
    same(float(R(N, D)), N/D); same(str(R(3, 4)), "3/4")
    same(outcome(lambda: R(1, 0)), ("raise", "ZeroDivisionError"))

def law_copy(k=[(1, 3), (-2, 7), (12345678901234567, 1), (1, 10**12 + 1)]):
    """a copy of a rational is exact"""
    for x in (R(*k), tick.tick(k, ticklevel=1)):
        same(val(tick.rational(x)), k[0]/k[1]); same(val(tick.tick(x)), k[0]/k[1], "tick"); same(val(tick.rational(x, power=-2)), (k[1]/k[0])**2, "power")
    t = tick.tick(tick.tick(k, ticklevel=1, labellevel=2)); same((t.ticklevel, t.labellevel), (0, 0))

def law_product(s=SIGNS):
    a, b = R(N, s[0]*D), R(M, s[1]*E)
    v, w = N/(s[0]*D), M/(s[1]*E)
    r = a*b
    same(val(r), v*w); same((val(a), val(b)), (v, w), "operands")
    a *= b
    same(val(a), v*w, "in place"); same(val(b), w, "operand")

def law_quotient(s=SIGNS):
    m = s[1]*pos("mm")
    a, b = R(N, s[0]*D), R(m, E)
    v, w = N/(s[0]*D), m/E
    r = a/b
    same(val(r), v/w); same((val(a), val(b)), (v, w), "operands")
    a /= b
    same(val(a), v/w, "in place"); same(val(b), w, "operand")

POWERS = [(p, s) for p in (-3, -2, -1, 0, 1, 2, 3, 4) for s in (1, -1)]
def law_power(k=POWERS):
    p, s = k
    n = s*pos("nn")
    r = tick.rational((n, D), power=p)
    same(val(r), (n/D)**p)
    t = tick.tick((n, D), power=p, ticklevel=1, labellevel=None)
    same(val(t), (n/D)**p, "tick")

OPS = [(o, s) for o in ("lt", "gt", "le", "ge", "eq", "ne") for s in SIGNS]
def compare(o, a, b):
    if o == "lt": return a < b
    if o == "gt": return a > b
    if o == "le": return a <= b
    if o == "ge": return a >= b
    if o == "eq": return a == b
    return a != b
def law_compare(k=OPS):
    """comparisons of rationals are those of their values, for every sign of the denominators"""
    o, s = k
    a, b = N/(s[0]*D), M/(s[1]*E)
    same(bool(compare(o, R(N, s[0]*D), R(M, s[1]*E))), compare(o, a, b))
    x = num("x")
    same(bool(compare(o, R(N, s[0]*D), x)), compare(o, a, x), "number")

def law_compare_results(o=["lt", "gt", "le", "ge", "eq", "ne"]):
    """comparisons of results of the arithmetics"""
    p, q = -pos("p"), -pos("q")
    a, b = R(N, D)/R(p, E), R(M, D)
    same(bool(compare(o, a, b)), compare(o, N/D/(p/E), M/D), "quotient")
    a = R(N, D); a /= R(p, E)
    same(bool(compare(o, a, b)), compare(o, N/D/(p/E), M/D), "quotient in place")
    a = tick.rational((p, E), power=-1)
    same(bool(compare(o, a, b)), compare(o, E/p, M/D), "power")

def law_abs(s=SIGNS):
    n = s[0]*pos("nn")
    same(val(abs(R(n, s[1]*D))), pos("nn")/D)

def law_zero_sum():
    """adding a zero gives the value; needed by the adjustment of axes"""
    same(R(N, D) + 0, N/D); same(tick.tick((N, D)) + 0.0, N/D)

STRINGS = [("1", 1, 1), ("-1", -1, 1), ("+7", 7, 1), ("1.5", 3, 2), ("-1.5", -3, 2), ("-0.5", -1, 2), (".25", 1, 4), ("-.25", -1, 4), ("3.", 3, 1), ("1.2e3", 1200, 1), ("1.2E3", 1200, 1),
           ("1.2e+3", 1200, 1), ("12e-3", 12, 1000), ("-12.5e-1", -5, 4), ("1/3", 1, 3), ("-1/3", -1, 3), ("1/-3", -1, 3), ("1.2/3.4", 12, 34), ("1e2/3e-1", 1000, 3), (" 2 ", 2, 1), ("0.001", 1, 1000),
           ("0", 0, 1), ("1.05", 21, 20), ("2/ 4", 1, 2), ("10.010", 1001, 100)]
def law_strings(k=STRINGS):
    s, n, d = k
    r = tick.rational(s)
    same(val(r), n/d); same((r.num == int(r.num), r.denom == int(r.denom)), (True, True), "integers")
    t = tick.tick(s, ticklevel=1)
    same(val(t), n/d, "tick")
    for p in (2, -1) if n else (2,):
        same(val(tick.rational(s, power=p)), (n/d)**p, "power")

BAD = ["1e2e3", "1.2.3", "1/2/3", "a", "1.x", "1ea", "--1", "1/0", "x/2"]
def law_bad_strings(s=BAD):
    check(outcome(lambda: tick.rational(s))[0] == "raise")

FLOATS = [(0.5, 1, 2), (-0.25, -1, 4), (1e-20, 1, 10**20), (1.5e10, 15*10**9, 1), (3, 3, 1), (-7, -7, 1), (1e15, 10**15, 1), (0.1, 1, 10)]
def law_floats(k=FLOATS):
    x, n, d = k
    same(val(tick.rational(x)), n/d)

def law_float_precision():
    same(val(tick.rational(1.23456, floatprecision=3)), 123/100); same(val(tick.rational(1.23456, floatprecision=5)), 12346/10000)
    check(outcome(lambda: tick.rational(1.5, floatprecision=-1))[0] == "raise")

# --- ticks ---------------------------------------------------------------------------------------------------------
def law_tick():
    t = tick.tick((N, D))
    same((t.ticklevel, t.labellevel, t.label, t.labelattrs), (0, 0, None, []))
    t = tick.tick((N, D), ticklevel=1, labellevel=2, label="a", labelattrs=["b"])
    same((t.ticklevel, t.labellevel, t.label, t.labelattrs), (1, 2, "a", ["b"]))

LEVELS = [(a, b) for a in (None, 0, 1, 2) for b in (None, 0, 1, 2)]
def lower(a, b): return b if a is None else a if b is None else min(a, b)
def law_merge(k=LEVELS):
    """the lower level wins, None means no tick; the label of the first, if there is one"""
    a, b = k
    for la, lb in ((None, None), (None, "y"), ("x", None), ("x", "y"), ("", "y"), ("x", ""), (None, "")):
        t, u = tick.tick((N, D), ticklevel=a, labellevel=b, label=la), tick.tick((N, D), ticklevel=b, labellevel=a, label=lb)
        t.merge(u)
        same((t.ticklevel, t.labellevel), (lower(a, b), lower(a, b)), "levels")
        same(t.label, la if la is not None else lb, "label"); same((u.ticklevel, u.labellevel, u.label), (b, a, lb), "other"); same(val(t), N/D)
        t = tick.tick((N, D), ticklevel=a, labellevel=None, label=la); t.merge(tick.tick((N, D), ticklevel=b, labellevel=None, label=lb))
        same((t.ticklevel, t.labellevel), (lower(a, b), None), "tick level")
        t = tick.tick((N, D), labellevel=a, ticklevel=None, label=la); t.merge(tick.tick((N, D), labellevel=b, ticklevel=None, label=lb))
        same((t.ticklevel, t.labellevel), (None, lower(a, b)), "label level")

def subsets(n): return [[i for i in range(n) if m >> i & 1] for m in range(1 << n)]
LISTS = [(a, b) for a in subsets(4) for b in subsets(4)]
def law_mergelists(k=LISTS):
    """for all orders of two lists of up to four ticks: the result is the ordered union, equal ticks are merged, the lists are kept"""
    a, b = k
    x, s = num("x0"), pos("s0")
    p = [x, x + s, x + s + pos("s1"), x + s + pos("s1") + pos("s2")]
    l1 = [tick.tick((p[i], 1), ticklevel=1, labellevel=None, label="a%d" % i) for i in a]
    l2 = [tick.tick((p[i]*2, 2), ticklevel=0, labellevel=2) for i in b]
    c1, c2 = list(l1), list(l2)
    r = tick.mergeticklists(l1, l2)
    u = [i for i in range(4) if i in a or i in b]
    same([val(t) for t in r], [p[i] for i in u], "positions")
    same([t.ticklevel for t in r], [0 if i in b else 1 for i in u], "tick levels")
    same([t.labellevel for t in r], [2 if i in b else None for i in u], "label levels")
    same([t.label for t in r], ["a%d" % i if i in a else None for i in u], "labels")
    check(len(l1) == len(c1) and all([l1[i] is c1[i] for i in range(len(c1))]), "first list")
    check(len(l2) == len(c2) and all([l2[i] is c2[i] for i in range(len(c2))]), "second list")

def law_mergelists_first(k=[(a, b) for a in subsets(3) for b in subsets(3)]):
    """without merging, ticks of the first list are kept as they are"""
    a, b = k
    x, s = num("x0"), pos("s0")
    p = [x, x + s, x + s + pos("s1")]
    l1 = [tick.tick((p[i], 1), ticklevel=None, labellevel=3, label="a") for i in a]
    r = tick.mergeticklists(l1, [tick.tick((p[i], 1)) for i in b], mergeequal=0)
    u = [i for i in range(3) if i in a or i in b]
    same([val(t) for t in r], [p[i] for i in u])
    same([(t.ticklevel, t.labellevel, t.label) for t in r], [(None, 3, "a") if i in a else (0, 0, None) for i in u])

def law_maxlevels(k=LEVELS):
    a, b = k
    t = [tick.tick((1, 1), ticklevel=a, labellevel=b), tick.tick((2, 1), ticklevel=b, labellevel=None), tick.tick((3, 1), ticklevel=None, labellevel=None)]
    m = lambda *l: max([0] + [i + 1 for i in l if i is not None])
    same(seqv(tick.maxlevels(t)), (m(a, b), m(b)))

# --- partitions ----------------------------------------------------------------------------------------------------
def law_linear_dists():
    r = lambda l: [(t.num, t.denom) for t in l]
    p = parter.linear(["1", "0.5"]); same(r(p.ticklist), [(1, 1), (5, 10)]); same(r(p.labellist), [(1, 1)])
    p = parter.linear(labeldists=["1", "0.5"]); same(r(p.labellist), [(1, 1), (5, 10)]); same(r(p.ticklist), [(1, 1)])
    p = parter.linear(["1", "0.5"], ["2"]); same(r(p.labellist), [(2, 1)]); same(r(p.ticklist), [(1, 1), (5, 10)])

EXT = [(a, b) for a in (False, True) for b in (False, True)]
def law_linear_extend(k=EXT):
    """the range is extended to the multiples of the distance, at the ends which may be extended only"""
    p = parter.linear(["1"], epsilon=num("eps"))
    lo, hi = num("lo"), num("hi")
    mi, ma = p.extendminmax(lo, hi, R(N, D), k[0], k[1])
    same(mi, N/D*floor(lo/(N/D) + num("eps")) if k[0] else lo); same(ma, N/D*ceil(hi/(N/D) - num("eps")) if k[1] else hi)

RANGES = [(0, 10, "1"), (-3, 2, "0.5"), (0.3, 2.1, "0.25"), (-1, -0.4, "0.2"), (0.1, 0.2, "1"), (1, 1, "1"), (-2, 1.9999999999999, "1/3")]
def law_linear_ticks(k=RANGES):
    """the ticks are all the multiples of the distance in the range, as exact rationals, in order"""
    lo, hi, d = k
    p = parter.linear([d])
    q = tick.rational(d)
    t = p.getticks(lo, hi, q, ticklevel=1, labellevel=2)
    same([val(x) for x in t], [i*q.num/q.denom for i in range(-40, 41) if lo <= i*q.num/q.denom <= hi or abs(i*q.num/q.denom - hi) < 1e-12])
    same([(x.ticklevel, x.labellevel) for x in t], [(1, 2)]*len(t))

def law_linear_partition():
    """ticks and labels of each distance get the level of the distance; there is one partition only"""
    p = parter.linear(["1", "0.5", "0.25"], ["2", "1"], extendtick=None)
    f = p.partfunctions(0, 2, True, True)
    check(len(f) == 1)
    t = f[0]()
    same([val(x) for x in t], [i*0.25 for i in range(9)]); same([x.ticklevel for x in t], [0, 2, 1, 2, 0, 2, 1, 2, 0]); same([x.labellevel for x in t], [0, None, None, None, 1, None, None, None, 0])
    same(f[0](), None)
    e = [(0, None, 0), (1, None, 0.5), (None, 0, 1), (None, 1, 0.5), (1, 0, 1)]
    for et, el, v in e:
        t = parter.linear(["1", "0.5"], ["1", "0.5"], extendtick=et, extendlabel=el).partfunctions(0.1, 2.6 if v == 1 else 2.9, True, True)[0]()
        same([val(t[0]), val(t[-1])], [0, 3], "extended")
        t = parter.linear(["1", "0.5"], ["1", "0.5"], extendtick=et, extendlabel=el).partfunctions(0.1, 2.9, False, False)[0]()
        same([val(t[0]), val(t[-1])], [0.5, 2.5], "not extended")
        t = parter.linear(["1", "0.5"], ["1", "0.5"], extendtick=et, extendlabel=el).partfunctions(0.1, 2.9, True, False)[0]()
        same([val(t[0]), val(t[-1])], [0, 2.5], "extended below")

AUTO = [(0, 1, 0), (0, 9, 0), (0, 10, 1), (0, 0.5, -1), (2, 95, 1), (0, 0.05, -2), (-500, 400, 2)]
def law_autolinear(k=AUTO):
    """the distances of the variants, scaled by increasing or decreasing powers of ten"""
    lo, hi, e = k
    got = []
    trust("pyx.graph.axis.parter.linear.partfunctions", lambda self, min, max, extendmin, extendmax: [lambda: got.append(([t.num/t.denom for t in self.ticklist], min, max, extendmin, extendmax))])
    up, down = parter.autolinear().partfunctions(lo, hi, True, False)
    for i in range(5): up()
    for i in range(5): down()
    b = 10**e
    v = [[1, 0.5], [2, 1], [2.5, 1.25], [5, 2.5]]
    same([g[0] for g in got[:5]], [[x*b for x in l] for l in v] + [[10*b, 5*b]], "more")
    same([g[0] for g in got[5:]], [[x*b/10 for x in l] for l in v[::-1]] + [[5*b/100, 2.5*b/100]], "less")
    same(got[0][1:], (lo, hi, True, False)); same(got[9][1:], (lo, hi, True, False))
    check(outcome(lambda: parter.autolinear().partfunctions(1, 1, True, True))[0] == "raise")

def law_autolinear_independent():
    """partitioning has no effect on later partitionings"""
    p = parter.autolinear()
    a = p.partfunctions(0, 1, True, True)[0](); p.partfunctions(0, 1, True, True)[0]()
    f = p.partfunctions(0, 1, True, True)
    f[0](); f[0](); f[0](); f[0](); f[0](); f[1](); f[1]()
    b = p.partfunctions(0, 1, True, True)[0]()
    same([(val(x), x.ticklevel, x.labellevel) for x in a], [(val(x), x.ticklevel, x.labellevel) for x in b])

LOGS = [(1, 10), (1.5, 90), (0.15, 23), (2, 30), (0.03, 0.7)]
def law_log_ticks(k=[(r, s) for r in LOGS for s in (1, -1)]):
    """the ticks are the given positions times powers of the exponent in the range, also for negative ranges"""
    (lo, hi), s = k
    p = parter.logarithmic([parter.logarithmic.pre1exp])
    t = p.getticks(lo, hi, parter.logarithmic.pre125exp, ticklevel=1, labellevel=2) if s > 0 else p.getticks(-hi, -lo, parter.logarithmic.pre125exp, ticklevel=1, labellevel=2)
    e = [m*10**i for i in (-3, -2, -1, 0, 1, 2) for m in (1, 2, 5) if lo <= m*10**i*(1 + 1e-13) and m*10**i <= hi*(1 + 1e-13)]
    if s < 0: e = [-x for x in e[::-1]]
    same([val(x) for x in t], e); same([(x.ticklevel, x.labellevel) for x in t], [(1, 2)]*len(t))

LOGX = [(2, 30, 1, 100, "pre1exp"), (2, 30, 2, 30, "pre1to9exp"), (1.5, 35, 1, 40, "pre1to9exp"), (3, 30, 2, 50, "pre125exp"), (0.7, 0.8, 0.5, 1, "pre125exp"), (1, 10, 1, 10, "pre1exp")]
def law_log_extend(k=[(l, e, s) for l in LOGX for e in EXT for s in (1, -1)]):
    (lo, hi, elo, ehi, n), e, s = k
    p = parter.logarithmic([parter.logarithmic.pre1exp])
    if s > 0:
        a, b = p.extendminmax(lo, hi, getattr(parter.logarithmic, n), e[0], e[1])
        c, d = (elo if e[0] else lo), (ehi if e[1] else hi)
    else:
        b, a = p.extendminmax(-hi, -lo, getattr(parter.logarithmic, n), e[0], e[1])
        c, d = -(elo if e[1] else lo), -(ehi if e[0] else hi)
    check(abs(a - c) < 1e-9*abs(c), "minimum"); check(abs(b - d) < 1e-9*abs(d), "maximum")
    check(outcome(lambda: p.extendminmax(-1, 1, parter.logarithmic.pre1exp, True, True))[0] == "raise")
    check(outcome(lambda: p.getticks(-1, 1, parter.logarithmic.pre1exp))[0] == "raise")

def law_log_lists():
    """labels default to the ticks and ticks to the labels"""
    a, b, c = parter.logarithmic.pre1exp, parter.logarithmic.pre125exp, parter.logarithmic.pre1to9exp
    p = parter.logarithmic([a, c]); check(p.ticklist[0] is a and p.ticklist[1] is c and len(p.labellist) == 1 and p.labellist[0] is a)
    p = parter.logarithmic(labelpreexps=[b, c]); check(p.labellist[0] is b and p.labellist[1] is c and len(p.ticklist) == 1 and p.ticklist[0] is b)
    p = parter.logarithmic([a], [b, c]); check(p.ticklist[0] is a and len(p.ticklist) == 1 and len(p.labellist) == 2 and p.labellist[0] is b and p.labellist[1] is c)
    same([[val(x) for x in y.pres] for y in (a, b, c)], [[1], [1, 2, 5], [1, 2, 3, 4, 5, 6, 7, 8, 9]]); same((a.exp, b.exp, c.exp), (10, 10, 10))

def law_autolog():
    """first the variants, backwards; then increasing exponents"""
    got = []
    trust("pyx.graph.axis.parter.linear.partfunctions", lambda self, min, max, extendmin, extendmax: [lambda: got.append((self.ticklist, self.labellist, self.extendtick, self.extendlabel, self.epsilon, min, max, extendmin, extendmax))])
    a, b = parter.logarithmic.pre1exp, parter.logarithmic.pre125exp
    v = [([a, b], [b]), ([b], None)]
    p = parter.autologarithmic(variants=v, extendtick=num("et"), extendlabel=num("el"), epsilon=num("eps"), autoexponent=7)
    f, g = p.partfunctions(num("lo"), num("hi"), 0, 1)
    f(); f(); same(f(), None, "no more variants"); check(len(got) == 2)
    check(got[0][0][0] is b and len(got[0][0]) == 1 and got[0][1][0] is b and len(got[0][1]) == 1)
    check(got[1][0][0] is a and got[1][0][1] is b and got[1][1][0] is b)
    g(); g()
    for i, e in ((2, 49), (3, 343)):
        check(len(got[i][0]) == 2 and got[i][0][1] is a); same(got[i][0][0].exp, e); same([val(x) for x in got[i][0][0].pres], [1])
        check(len(got[i][1]) == 1 and got[i][1][0] is got[i][0][0])
    for x in got: same(x[2:], (num("et"), num("el"), num("eps"), num("lo"), num("hi"), 0, 1))
