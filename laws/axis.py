# Laws of axes: ranges, conversion, bar axes, positioners of subaxes, linked axes, rates (C10).
from math import log, exp
from pyx import graph, unit, path
from pyx.graph import axis
from pyx.graph.axis import axis as ax, positioner, rater, painter, tick, timeaxis

A, B, X = num("a"), num("b"), num("x")
REV = [False, True]

class notexter:
    def labels(self, ticks):
        for t in ticks:
            if t.label is None: t.label = "label"

def mk(cls, **kw): return cls(painter=None, linkpainter=None, texter=notexter(), **kw)

def data(mi, ma): return ax.axisdata(min=mi, max=ma)

# --- conversion --------------------------------------------------------------------------------------------------
def law_linear_convert(rev=REV):
    """a linear axis maps min to 0 and max to 1 and is affine in between"""
    a = axis.linear(reverse=rev)
    lo, w = num("lo"), pos("w")
    d = data(lo, lo + w)
    s = (lambda v: 1 - v) if rev else (lambda v: v)
    same(a.convert(d, lo), s(0)); same(a.convert(d, lo + w), s(1))
    t = num("t")
    same(a.convert(d, lo + t*w), s(t))

def law_sized_convert(rev=REV):
    lo, w, t = num("lo"), pos("w"), num("t")
    s = (lambda v: 1 - v) if rev else (lambda v: v)
    for a in (axis.sizedlinear(size=num("size"), reverse=rev), axis.autosizedlinear(reverse=rev)):
        same(a.convert(data(lo, lo + w), lo + t*w), s(t))

SIGN = [(r, s) for r in REV for s in (1, -1)]
def law_log_convert(k=SIGN):
    """a logarithmic axis maps min to 0 and max to 1 and is affine in the logarithm; the range may be negative"""
    rev, sign = k
    a = axis.logarithmic(reverse=rev)
    p, f = pos("p"), pos("f")
    lo, hi = p, p*(1 + f)
    d = data(lo, hi) if sign > 0 else data(-hi, -lo)
    s = (lambda v: 1 - v) if rev else (lambda v: v)
    x = pos("xx")
    if sign > 0:
        same(a.convert(d, lo), s(0)); same(a.convert(d, hi), s(1))
        same(a.convert(d, x), s((log(x) - log(lo))/(log(hi) - log(lo))))
    else:
        same(a.convert(d, -hi), s(0)); same(a.convert(d, -lo), s(1))
        same(a.convert(d, -x), s((log(x) - log(hi))/(log(lo) - log(hi))))

def law_aliases():
    check(axis.lin is axis.linear); check(axis.log is axis.logarithmic)
    check(axis.sizedlin is axis.sizedlinear); check(axis.autosizedlin is axis.autosizedlinear)

# --- range ---------------------------------------------------------------------------------------------------------
def law_init(c=["linear", "logarithmic"]):
    """fixed limits are kept; exchanged limits denote a reversed axis"""
    cls = getattr(axis, c)
    w = pos("w")
    a = cls(min=A, max=A + w)
    same((a.min, a.max), (A, A + w)); check(not a.reverse)
    a = cls(min=A + w, max=A)
    same((a.min, a.max), (A, A + w), "exchanged"); check(a.reverse, "exchanged")
    a = cls(min=A + w, max=A, reverse=1)
    same((a.min, a.max), (A, A + w), "exchanged, reversed"); check(not a.reverse, "exchanged, reversed")
    a = cls(min=A)
    same((a.min, a.max), (A, None))
    d = a.createdata("n")
    same((d.min, d.max), (A, None))
    a = cls(max=A)
    same((a.min, a.max), (None, A))
    d = a.createdata("n")
    same((d.min, d.max), (None, A))

def law_adjust(c=["linear", "logarithmic", "sizedlinear", "autosizedlinear"]):
    """the range of data grows to contain all values that are numbers"""
    a = mk(getattr(axis, c))
    d = a.createdata("n")
    same((d.min, d.max), (None, None))
    v, w = num("v1"), num("v2")
    a.adjustaxis(d, [v], None, "n")
    same((d.min, d.max), (v, v), "first")
    a.adjustaxis(d, ["nan-string", w, None, [1]], None, "n")
    same((d.min, d.max), (min(v, w), max(v, w)), "second")
    a.adjustaxis(d, [num("v3"), num("v4")], None, "n")
    same((d.min, d.max), (min(v, w, num("v3"), num("v4")), max(v, w, num("v3"), num("v4"))), "third")
    a.adjustaxis(d, [], None, "n")
    same((d.min, d.max), (min(v, w, num("v3"), num("v4")), max(v, w, num("v3"), num("v4"))), "no data")
    check(a.min is None and a.max is None, "the axis itself keeps no range")

def law_adjust_fixed(c=["linear", "logarithmic", "sizedlinear", "autosizedlinear"]):
    """limits given to the axis are not changed by data"""
    cls = getattr(axis, c)
    v, w = num("v1"), num("v2")
    a = mk(cls, min=A, max=A + pos("w"))
    d = a.createdata("n"); a.adjustaxis(d, [v, w], None, "n")
    same((d.min, d.max), (A, A + pos("w")), "both")
    a = mk(cls, min=A)
    d = a.createdata("n"); a.adjustaxis(d, [v, w], None, "n")
    same((d.min, d.max), (A, max(v, w)), "min")
    a = mk(cls, max=A)
    d = a.createdata("n"); a.adjustaxis(d, [v, w], None, "n")
    same((d.min, d.max), (min(v, w), A), "max")

def law_autosize():
    """an auto-sized axis has the size of its range; a sized axis the given one"""
    v, w = num("v1"), pos("w")
    a = mk(axis.autosizedlinear)
    d = a.createdata("n"); same(d.size, 0, "no range")
    a.adjustaxis(d, [v, v + w], None, "n"); same(d.size, w)
    a = mk(axis.autosizedlinear, min=v, max=v + w)
    same(a.createdata("n").size, w, "fixed")
    a = mk(axis.sizedlinear, size=num("size"))
    d = a.createdata("n"); same(d.size, num("size"))
    a.adjustaxis(d, [v, v + w], None, "n"); same(d.size, num("size"), "after data")
    same(mk(axis.sizedlinear).createdata("n").size, 1, "default")

def law_fallback():
    """an empty range is replaced by the fallback range"""
    a = mk(axis.linear, parter=None, fallbackrange=num("f"))
    d = data(A, A); a.create(d, None, None, "n")
    same((d.min, d.max), (A - num("f")/2, A + num("f")/2), "width")
    a = mk(axis.linear, parter=None, fallbackrange=(num("f0"), num("f1")))
    d = data(A, A); a.create(d, None, None, "n")
    same((d.min, d.max), (num("f0"), num("f1")), "range")
    a = mk(axis.linear, parter=None)
    same(outcome(lambda: a.create(data(A, A), None, None, "n")), ("raise", "RuntimeError"), "none")
    same(outcome(lambda: a.create(data(None, A), None, None, "n")), ("raise", "RuntimeError"), "no minimum")
    same(outcome(lambda: a.create(data(A, None), None, None, "n")), ("raise", "RuntimeError"), "no maximum")
    d = data(A, A + pos("w"))
    mk(axis.linear, parter=None, fallbackrange=num("f")).create(d, None, None, "n")
    same((d.min, d.max), (A, A + pos("w")), "unused")

def law_manualticks():
    """without partitioning the ticks are the given ones, and the range grows to contain them; the given ticks are not changed"""
    t1, t2 = tick.tick((1, 2)), tick.tick((7, 2))
    a = mk(axis.linear, parter=None, manualticks=[t2, t1])
    lo, hi = num("lo"), num("lo") + pos("w")
    d = data(lo, hi)
    a.create(d, None, None, "n")
    same((d.min, d.max), (min(lo, 0.5), max(hi, 3.5)))
    same([(t.num, t.denom) for t in d.ticks], [(1, 2), (7, 2)])
    same((t1.label, t2.label), (None, None), "given ticks")
    same(outcome(lambda: axis.linear(manualticks=[t1, tick.tick((2, 4))])), ("raise", "ValueError"), "equal ticks")

def law_divisor():
    """a divisor scales the labels only: the ticks are at their positions on the axis, and given ticks are not changed"""
    t1, t2 = tick.tick((1, 2)), tick.tick((7, 2))
    a = mk(axis.linear, parter=None, manualticks=[t2, t1], divisor=3)
    lo, hi = num("lo"), num("lo") + pos("w")
    d = data(lo, hi)
    a.create(d, None, None, "n")
    same([float(t) for t in d.ticks], [1.5, 10.5])
    same((d.min, d.max), (min(lo, 1.5), max(hi, 10.5)))
    same((t1.num, t1.denom, t2.num, t2.denom), (1, 2, 7, 2), "given ticks")
    d2 = data(lo, hi)
    a.create(d2, None, None, "n")
    same([float(t) for t in d2.ticks], [1.5, 10.5], "second time")
    same([float(t) for t in d.ticks], [1.5, 10.5], "first again")

def law_rated(rev=REV):
    """the ticks of the axis are a partition the parter has offered for the range, in units of the divisor"""
    got = []
    class parter1:
        def partfunctions(self, mi, ma, extendmin, extendmax):
            got.append((mi, ma, extendmin, extendmax))
            parts = [[tick.tick((1, 1)), tick.tick((2, 1))], None]
            return [lambda: parts.pop(0)]
    rates = []
    class rater1:
        def rateticks(self, a, ticks): return 1
        def raterange(self, v, n): rates.append(v); return 0
    w = pos("w")
    a = mk(axis.linear, parter=parter1(), rater=rater1(), reverse=rev, divisor=2)
    d = data(A, A + w)
    a.create(d, None, None, "n")
    same(got, [(A/2, (A + w)/2, True, True)])
    same([float(t) for t in d.ticks], [2, 4])
    same(rates, [2/w], "used part of the range")
    same((d.min, d.max), (min(A, 2), max(A + w, 4)), "range")
    a = mk(axis.linear, parter=parter1(), rater=rater1(), reverse=rev, min=A)
    a.create(data(A, A + w), None, None, "n")
    same(got[1], (A, A + w, False, True)); same(rates[1], 1/w)
    a = mk(axis.linear, parter=parter1(), rater=rater1(), reverse=rev, max=A + w)
    a.create(data(A, A + w), None, None, "n")
    same(got[2], (A, A + w, True, False))

# --- subaxes -------------------------------------------------------------------------------------------------------
class basepos:
    def vbasepath(self, v1=None, v2=None): return ("basepath", v1, v2)
    def vgridpath(self, v): return ("gridpath", v)
    def vtickpoint_pt(self, v, axis=None): return ("tickpoint", v)
    def vtickdirection(self, v, axis=None): return ("tickdirection", v)

class part:
    vmin, vmax, vminover, vmaxover = num("vmin"), num("vmax"), num("vminover"), num("vmaxover")

def law_subpositioner():
    """a subaxis is placed on its part of the parent axis"""
    p = ax.subaxispositioner(basepos(), part)
    f = lambda v: part.vmin*(1 - v) + part.vmax*v
    v, w = num("v"), num("w")
    same(p.vgridpath(v), ("gridpath", f(v))); same(p.vtickpoint_pt(v), ("tickpoint", f(v))); same(p.vtickdirection(v), ("tickdirection", f(v)))
    same(p.vtickpoint_pt(v, axis=None), ("tickpoint", f(v))); same(p.vtickdirection(v, axis=None), ("tickdirection", f(v)))
    same(p.vbasepath(), ("basepath", part.vminover, part.vmaxover))
    same(p.vbasepath(v1=v), ("basepath", f(v), part.vmaxover)); same(p.vbasepath(v2=w), ("basepath", part.vminover, f(w)))
    same(p.vbasepath(v, w), ("basepath", f(v), f(w)))

DIST, FIRST, LAST = pos("dist"), pos("firstdist"), pos("lastdist")
S = [None, pos("s1"), pos("s2")]

def bars(sizes, reverse=0, cls=axis.bar, **kw):
    sub = {}
    names = "abc"[:len(sizes)]
    for n, s in zip(names, sizes):
        sub[n] = mk(axis.linear, parter=None, min=num("min" + n), max=num("min" + n) + pos("w" + n)) if s is None else mk(axis.sizedlinear, size=s, parter=None, min=num("min" + n), max=num("min" + n) + pos("w" + n))
    a = cls(subaxes=sub, dist=DIST, firstdist=FIRST, lastdist=LAST, reverse=reverse, painter=None, linkpainter=None, **kw)
    d = a.createdata("bar")
    a.adjustaxis(d, [(n, num("v")) for n in names], None, "bar")
    return a, d, list(names)

SIZES = [(c, r) for c in ([None], [S[1]], [None, None], [S[1], None], [S[1], S[2]], [None, S[1], S[2]]) for r in REV]
def law_bar_places(k=SIZES):
    """the subaxes of a bar axis follow each other, separated by dist, from firstdist to 1-lastdist, each with the share of its size"""
    sizes, rev = k
    a, d, names = bars(sizes, rev)
    if rev: names = names[::-1]
    w = {n: (1 if s is None else s) for n, s in zip("abc", sizes)}
    a.create(d, basepos(), None, "bar")
    same(d.names, names)
    total = FIRST + LAST + DIST*(len(names) - 1) + sum([w[n] for n in names])
    same(d.size, total)
    p = FIRST
    over = 0
    for i, n in enumerate(names):
        s = d.subaxes[n]
        same(s.vmin, p/total, "start"); p = p + w[n]
        same(s.vmax, p/total, "end")
        same(s.vminover, over, "covered from")
        over = 1 if i == len(names) - 1 else (p + DIST/2)/total
        same(s.vmaxover, over, "covered to"); p = p + DIST
        v = num("t")
        same(a.convert(d, (n, num("min" + n) + zeroone("t1")*pos("w" + n))), s.vmin + zeroone("t1")*(s.vmax - s.vmin), "convert")
        same(s.positioner.vtickpoint_pt(v), ("tickpoint", s.vmin + v*(s.vmax - s.vmin)), "position")
    same(s.vmax, 1 - LAST/total, "last")

def law_bar_outside():
    """values outside of the subaxis, and discrete values without one, cannot be converted"""
    a, d, names = bars([None, None])
    a.create(d, basepos(), None, "bar")
    same(outcome(lambda: a.convert(d, (None, num("v")))), ("raise", "ValueError"))
    for v in (-1e-3, 1.001):
        same(outcome(lambda: a.convert(d, ("a", num("mina") + v*pos("wa")))), ("raise", "ValueError"))
    same(outcome(lambda: a.convert(d, ("z", num("v")))), ("raise", "KeyError"))
    a = axis.bar(subaxes={"a": mk(axis.linear, parter=None, min=0, max=1)}, epsilon=None, painter=None)
    d = a.createdata("n"); a.adjustaxis(d, [("a", 0)], None, "n"); a.create(d, basepos(), None, "n")
    s = d.subaxes["a"]
    same(a.convert(d, ("a", num("v"))), s.vmin + num("v")*(s.vmax - s.vmin), "no check")

def law_bar_adjust():
    """each subaxis gets the data of its own name only; missing subaxes are default ones"""
    sub = {"a": mk(axis.linear), "b": mk(axis.linear), "c": None}
    a = axis.bar(subaxes=sub, painter=None)
    d = a.createdata("bar")
    v = [num("v%d" % i) for i in range(4)]
    a.adjustaxis(d, [("a", v[0]), ("b", v[1]), ("a", v[2]), (None, v[3]), ("c", v[3])], None, "bar")
    same(d.names, ["a", "b"])
    same((d.subaxes["a"].data.min, d.subaxes["a"].data.max), (min(v[0], v[2]), max(v[0], v[2])))
    same((d.subaxes["b"].data.min, d.subaxes["b"].data.max), (v[1], v[1]))
    a = axis.bar(painter=None)
    d = a.createdata("bar")
    a.adjustaxis(d, [("q", v[0])], None, "bar"); a.adjustaxis(d, [("p", v[1]), ("q", v[2])], None, "bar")
    same(d.names, ["q", "p"]); check(d.subaxes["q"].axis is a.defaultsubaxis)
    same((d.subaxes["q"].data.min, d.subaxes["q"].data.max), (min(v[0], v[2]), max(v[0], v[2])))
    for x in ("ab", 3, ("a", 1, 2), ["a"]):
        check(outcome(lambda: a.adjustaxis(a.createdata("n"), [x], None, "bar"))[0] == "raise", "not a pair")

def law_bar_sized():
    """sizes of subaxes enter when they change with data"""
    a = axis.bar(subaxes={"a": mk(axis.autosizedlinear, parter=None), "b": mk(axis.autosizedlinear, parter=None)}, dist=DIST, firstdist=FIRST, lastdist=LAST, painter=None)
    d = a.createdata("bar")
    x, y, w, v = num("x"), num("y"), pos("w"), pos("v")
    a.adjustaxis(d, [("a", x), ("b", y)], None, "bar")
    same(d.size, FIRST + LAST + DIST)
    a.adjustaxis(d, [("b", y + v), ("a", x + w)], None, "bar")
    same(d.size, FIRST + LAST + DIST + w + v)
    a.create(d, basepos(), None, "bar")
    same(d.subaxes["a"].vmin, FIRST/d.size); same(d.subaxes["a"].vmax, (FIRST + w)/d.size)
    same(d.subaxes["b"].vmin, (FIRST + w + DIST)/d.size); same(d.subaxes["b"].vmax, 1 - LAST/d.size)

def law_bar_dists():
    """by default half of the distance is before the first and behind the last subaxis"""
    a = axis.bar(dist=DIST)
    same((a.dist, a.firstdist, a.lastdist), (DIST, DIST/2, DIST/2))
    a = axis.bar(dist=DIST, firstdist=0, lastdist=LAST)
    same((a.dist, a.firstdist, a.lastdist), (DIST, 0, LAST))
    a = axis.split()
    same((a.dist, a.firstdist, a.lastdist), (0.5, 0, 0))
    a = axis.nestedbar(dist=DIST)
    same((a.dist, a.firstdist, a.lastdist), (DIST, DIST/2, DIST/2)); same(a.defaultsubaxis.dist, 0)

def law_nested():
    """a nested bar axis passes the second level of the values to its bar axes"""
    inner = axis.bar(subaxes={"x": mk(axis.linear, parter=None, min=0, max=1), "y": mk(axis.linear, parter=None, min=0, max=1)}, dist=0, painter=None, linkpainter=None)
    a = axis.nestedbar(defaultsubaxis=inner, dist=DIST, painter=None, linkpainter=None)
    d = a.createdata("n")
    a.adjustaxis(d, [("a", ("x", 0)), ("a", ("y", 0)), ("b", ("x", 0))], None, "n")
    same(d.names, ["a", "b"]); same(d.subaxes["a"].data.names, ["x", "y"]); same(d.subaxes["b"].data.names, ["x"])
    a.create(d, basepos(), None, "n")
    t = zeroone("t")
    size = 3 + 2*DIST
    same(a.convert(d, ("a", ("x", t))), (DIST/2 + t)/size); same(a.convert(d, ("a", ("y", t))), (DIST/2 + 1 + t)/size)
    same(a.convert(d, ("b", ("x", t))), (DIST*1.5 + 2 + t)/size)

def law_bar_linked():
    """linked bar axes are at the places of the axis they are linked to"""
    a, d, names = bars([S[1], None])
    a.create(d, basepos(), None, "bar")
    places = []
    trust("pyx.graph.axis.axis.subaxispositioner.__init__", lambda self, base, sub: places.append((base, sub)))
    b2 = basepos()
    a.createlinked(d, b2, None, "bar2", None)
    check(len(places) == 2); check(places[0][0] is b2 and places[1][0] is b2)
    check(places[0][1] is d.subaxes["a"] and places[1][1] is d.subaxes["b"])

# --- anchored axes -------------------------------------------------------------------------------------------------
def law_anchored():
    """an anchored axis is created before it is used, once, and places values by the positioner"""
    made = []
    a = ax.anchoredaxis(mk(axis.linear, parter=None), None, "n")
    a.adjustaxis([A, A + pos("w")])
    a.setpositioner(basepos2())
    a.setcreatecall(lambda: (made.append(1), a.create()))
    v = (X - A)/pos("w")
    same(a.tickpoint_pt(X), (2*v, 3*v)); same(made, [1])
    same(a.convert(X), v); same(a.gridpath(X), ("gridpath", v)); same(a.tickdirection(X), ("tickdirection", v))
    same(a.basepath(X, A), ("basepath", v, 0)); same(a.basepath(), ("basepath", None, None))
    same(a.basepath(x1=X), ("basepath", v, None)); same(a.basepath(x2=X), ("basepath", None, v))
    t = a.tickpoint(X)
    same((unit.topt(t[0]), unit.topt(t[1])), (2*v, 3*v))
    same(a.vtickpoint_pt(X), (2*X, 3*X))
    t = a.vtickpoint(X)
    same((unit.topt(t[0]), unit.topt(t[1])), (2*X, 3*X))
    same(a.vbasepath(A, B), ("basepath", A, B)); same(a.vgridpath(X), ("gridpath", X)); same(a.vtickdirection(X), ("tickdirection", X))
    same(made, [1], "created once")
    a.adjustaxis([A - 1]); same(a.data.min, A, "range of a created axis")

class basepos2(basepos):
    def vtickpoint_pt(self, v, axis=None): return 2*v, 3*v

def law_linked():
    """a linked axis has the range of the other axis and creates it first"""
    made = []
    a = ax.anchoredaxis(mk(axis.linear, parter=None), None, "n")
    a.setpositioner(basepos2())
    a.setcreatecall(lambda: (made.append("a"), a.create()))
    l = axis.linkedaxis(a, "m")
    l.setpositioner(basepos2())
    l.setcreatecall(lambda: (made.append("l"), l.create()))
    a.adjustaxis([A, A + pos("w")])
    v = (X - A)/pos("w")
    same(l.convert(X), v); same(made, ["l", "a"])
    check(l.data is a.data); check(l.axis is a.axis); check(l.painter is a.axis.linkpainter)
    l = axis.linkedaxis(a, painter=tagged("painter", 1)); same(l.painter, tagged("painter", 1))
    l = axis.linkedaxis(painter=tagged("painter", 1)); l.setlinkedaxis(a); same(l.painter, tagged("painter", 1))

# --- rates ---------------------------------------------------------------------------------------------------------
def law_cube():
    """the rate is zero at the optimum, and the weight at the left and right values; both scaled by the density"""
    o, l, r, w, d = num("o"), pos("l"), pos("r"), num("weight"), pos("d")
    c = rater.cube(o, o - l, o + r, weight=w)
    same(c.rate(o*d, d), 0); same(c.rate((o - l)*d, d), w); same(c.rate((o + r)*d, d), w)
    t = pos("t")
    same(c.rate((o - t*l)*d, d), w*t**3); same(c.rate((o + t*r)*d, d), w*t**3)
    o = pos("o2")
    c = rater.cube(o, weight=w)
    same((c.left, c.right), (0, 3*o))

def law_distance():
    """the mean of the rates of the distances; zero at the optimum, linear above, reciprocal below"""
    unit.set(uscale=pos("us"), vscale=pos("vs"), wscale=pos("ws"), xscale=pos("xs"))
    o, w, d = pos("o"), num("weight"), pos("d")
    r = rater.distance(o*unit.v_cm, weight=w)
    opt = unit.topt(o*unit.v_cm)/d
    same(r.rate([opt], d), 0); same(r.rate([opt*(1 + pos("t"))], d), w*pos("t")); same(r.rate([opt/(1 + pos("t"))], d), w*pos("t"))
    same(r.rate([opt*(1 + pos("t")), opt/(1 + pos("s"))], d), w*(pos("t") + pos("s"))/2)

def law_rateticks():
    """ticks are counted for their own and all higher levels"""
    class cnt:
        def __init__(self, n, w): self.n, self.weight = n, w
        def rate(self, value, density): return self.n*value*density
    a, b, c, w, v, u, d = num("ra"), num("rb"), num("rc"), pos("rw"), pos("rv"), pos("ru"), num("d")
    r = rater.rater([cnt(a, w), cnt(b, v)], [cnt(c, u)], None, density=d)
    t = lambda tl, ll: tick.tick((1, 1), ticklevel=tl, labellevel=ll)
    same(r.rateticks(None, [t(0, 0), t(1, None), t(1, 1), t(0, None), t(None, 0), t(2, None)]), (2*a + 4*b + 2*c)*d/(w + v + u))
    same(r.rateticks(None, [t(0, None)]), a*d/w)
    same(r.rateticks(None, [t(None, None)]), None)
    same(r.rateticks(None, []), None)

def law_ratelayout():
    """the distances are those of subsequent labels"""
    class lab:
        def __init__(self, n): self.n = n
        def boxdistance_pt(self, other): return uf("dist", self.n, other.n)
    class dist:
        def rate(self, distances, density): return ("rated", list(distances), density)
    class canvas1: labels = [lab(1), lab(2), lab(3)]
    r = rater.rater([], [], None, distance=dist(), density=num("d"))
    same(r.ratelayout(canvas1), ("rated", [uf("dist", 1, 2), uf("dist", 2, 3)], num("d")))
    class canvas2: labels = [lab(1)]
    same(r.ratelayout(canvas2), None)
    class canvas3: labels = None
    same(r.ratelayout(canvas3), 0)

def law_log_create():
    """a logarithmic axis falls back to linear partitioning when no logarithmic one is possible"""
    class parter0:
        def partfunctions(self, mi, ma, extendmin, extendmax): return [lambda p=[[tick.tick((1, 1)), tick.tick((2, 1))], None]: p.pop(0)]
    class parter2:
        def partfunctions(self, mi, ma, extendmin, extendmax):
            return [lambda p=[[tick.tick((3, 1)), tick.tick((4, 1))], [tick.tick((5, 1)), tick.tick((6, 1))], None]: p.pop(0)]
    class rater1:
        def rateticks(self, a, ticks): return 1
        def raterange(self, v, n): return 0
        def ratelayout(self, canvas): return None
    a = mk(axis.logarithmic, parter=parter0(), rater=rater1(), linearparter=None)
    d = data(1, 10); a.create(d, None, None, "n"); same([float(t) for t in d.ticks], [1, 2])
    class painter1:
        def paint(self, canvas, data, axis, positioner): pass
    a = axis.logarithmic(parter=parter2(), rater=rater1(), linearparter=parter0(), painter=painter1(), texter=notexter())
    d = data(1, 10); a.create(d, None, None, "n"); same([float(t) for t in d.ticks], [1, 2], "linear")
    a = axis.logarithmic(parter=parter2(), rater=rater1(), linearparter=None, painter=painter1(), texter=notexter())
    check(outcome(lambda: a.create(data(1, 10), None, None, "n"))[0] == "raise", "no linear partition")

def law_selection(k=["linear", "logarithmic"]):
    """the partition with the lowest sum of rates is painted and used, its ticks extend the range, the others have no influence"""
    class parter1:
        def partfunctions(self, mi, ma, extendmin, extendmax):
            def part(n): return [tick.tick((n, 1)), tick.tick((n + 10, 1))]
            return [lambda p=[part(2), part(3), None]: p.pop(0), lambda p=[part(4), None]: p.pop(0)]
    painted = []
    class painter1:
        def paint(self, canvas, data, axis, positioner): painted.append(data.ticks[0].num); canvas.n = data.ticks[0].num
    class rater1:
        def rateticks(self, a, ticks): return {2: 1, 3: 1.5, 4: 7}[ticks[0].num]
        def raterange(self, v, n): return 0
        def ratelayout(self, canvas): return {2: 1, 3: 0.25, 4: 0}[canvas.n]
    a = getattr(axis, k)(parter=parter1(), rater=rater1(), painter=painter1(), texter=notexter())
    d = data(12 - pos("w") if k == "linear" else 12/(1 + pos("w")), 12)
    c = a.create(d, None, None, "n")
    same(c.n, 3); same([float(t) for t in d.ticks], [3, 13]); same(d.max, 13, "range"); same(d.min, min(3, 12 - pos("w") if k == "linear" else 12/(1 + pos("w")))); same(painted, [2, 3])

def law_bar_extent():
    """a bar axis extends as far as its subaxes do"""
    class sub(ax._axis):
        painter, linkpainter = None, "link"
        def __init__(self, e): self.e = e
        def createdata(self, errorname): return data(0, 1)
        def adjustaxis(self, *args): pass
        def create(self, data, positioner, textengine, errorname):
            c = painter.axiscanvas(None, None); c.extent_pt = self.e; return c
        def createlinked(self, data, positioner, textengine, errorname, linkpainter):
            c = painter.axiscanvas(None, None); c.extent_pt = 2*self.e; return c
    a = axis.bar(subaxes={"a": sub(pos("ea")), "b": sub(pos("eb"))}, painter=None)
    d = a.createdata("n"); a.adjustaxis(d, [("a", 0), ("b", 0)], None, "n")
    same(a.create(d, basepos(), None, "n").extent_pt, max(pos("ea"), pos("eb")))
    same(a.createlinked(d, basepos(), None, "n", None).extent_pt, 2*max(pos("ea"), pos("eb")), "linked")
