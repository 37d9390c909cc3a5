# Laws of lengths and unit conversion (C02).
from pyx import unit

M = {"m": 1, "cm": 0.01, "mm": 0.001, "inch": 0.0254, "pt": 0.0254/72}
CONV = {"m": unit.tom, "cm": unit.tocm, "mm": unit.tomm, "inch": unit.toinch, "pt": unit.topt}
UNITS = ["m", "cm", "mm", "inch", "pt"]

def scales():
    unit.set(uscale=pos("us"), vscale=pos("vs"), wscale=pos("ws"), xscale=pos("xs"))

def gen(n):
    """a length with all five contributions (in metres)"""
    return (unit.length(num(n + "t"), "t", "m") + unit.length(num(n + "u"), "u", "m") + unit.length(num(n + "v"), "v", "m")
            + unit.length(num(n + "w"), "w", "m") + unit.length(num(n + "x"), "x", "m"))

def parts(l):
    return (l.t, l.u, l.v, l.w, l.x)

def law_constructor(u=["m", "cm", "mm", "inch", "pt"]):
    f = num("f")
    for i, t in enumerate("tuvwx"):
        same(parts(unit.length(f, t, u)), tuple(f*M[u] if i == j else 0 for j in range(5)), t)
    same(parts(unit.length(f, unit=u)), (0, f*M[u], 0, 0, 0), "default type")

def law_default_unit(u=["m", "cm", "mm", "inch", "pt"]):
    scales()
    f = num("f")
    unit.set(defaultunit=u)
    same(parts(unit.length(f)), (0, f*M[u], 0, 0, 0), "length")
    same(unit.tom(f), f*M[u]*num("us"), "number")
    same(parts(unit.length(f, "w", "mm")), (0, 0, 0, f/1000, 0), "explicit")

def law_conversion():
    scales()
    l = gen("a")
    total = num("at") + num("au")*num("us") + num("av")*num("vs") + num("aw")*num("ws") + num("ax")*num("xs")
    for u in UNITS:
        same(CONV[u](l), total/M[u], u)

def law_conversion_of_numbers():
    scales()
    f = num("f")
    for u in UNITS:
        same(CONV[u](f), f*0.01*num("us")/M[u], u)
        same(CONV[u](f), CONV[u](unit.length(f)), u + " length")

def law_set_is_selective():
    unit.set(uscale=3); unit.set(vscale=5); unit.set(wscale=7); unit.set(xscale=11)
    same(unit.tom(gen("a")), num("at") + 3*num("au") + 5*num("av") + 7*num("aw") + 11*num("ax"))
    unit.set(vscale=2)
    same(unit.tom(gen("a")), num("at") + 3*num("au") + 2*num("av") + 7*num("aw") + 11*num("ax"), "again")

def law_initial_scales():
    same(unit.tom(gen("a")), num("at") + num("au") + num("av") + num("aw") + num("ax"))

def law_addition():
    scales()
    a, b, f = gen("a"), gen("b"), num("f")
    same(parts(a + b), tuple(x + y for x, y in zip(parts(a), parts(b))), "lengths")
    same(parts(a - b), tuple(x - y for x, y in zip(parts(a), parts(b))), "difference")
    n = parts(unit.length(f))
    same(parts(a + f), tuple(x + y for x, y in zip(parts(a), n)), "number right")
    same(parts(f + a), tuple(x + y for x, y in zip(parts(a), n)), "number left")
    same(parts(a - f), tuple(x - y for x, y in zip(parts(a), n)), "number subtracted")
    same(parts(f - a), tuple(y - x for x, y in zip(parts(a), n)), "subtracted from number")
    same(parts(sum([a, b])), parts(a + b), "sum")
    same(parts(-a), tuple(-x for x in parts(a)), "negation")

def law_multiples():
    scales()
    a, b, k = gen("a"), gen("b"), num("k")
    same(parts(a*k), tuple(x*k for x in parts(a)), "right")
    same(parts(k*a), tuple(x*k for x in parts(a)), "left")
    assume(k != 0)
    same(parts(a/k), tuple(x/k for x in parts(a)), "quotient")
    scales()
    same(a/b, unit.tom(a)/unit.tom(b), "ratio")

def law_comparison():
    scales()
    a, b, f = gen("a"), gen("b"), num("f")
    same(a == b, unit.tom(a) == unit.tom(b), "eq")
    same(a < b, unit.tom(a) < unit.tom(b), "lt")
    same(a > b, unit.tom(a) > unit.tom(b), "gt")
    same(a <= b, unit.tom(a) <= unit.tom(b), "le")
    same(a >= b, unit.tom(a) >= unit.tom(b), "ge")
    same(a < f, unit.tom(a) < unit.tom(f), "lt number")
    same(a == f, unit.tom(a) == unit.tom(f), "eq number")

def law_operands_unchanged():
    scales()
    a, b, k = gen("a"), gen("b"), num("k")
    assume(k != 0)
    before = snapshot((a, b))
    a + b; a - b; a*k; k*a; a/k; -a; k - a; k + a; a < b; a == b; unit.topt(a)
    same(before, snapshot((a, b)))
    check(disjoint(a, -a), "fresh negation")
    check(disjoint(a, a*1), "fresh multiple")
    check(disjoint(a, a + 0), "fresh sum")

NAMES = [("u", "pt"), ("u", "m"), ("u", "mm"), ("u", "cm"), ("u", "inch"), ("t", "pt"), ("t", "m"), ("t", "mm"), ("t", "cm"), ("t", "inch"),
         ("v", "pt"), ("v", "m"), ("v", "mm"), ("v", "cm"), ("v", "inch"), ("w", "pt"), ("w", "m"), ("w", "mm"), ("w", "cm"), ("w", "inch"),
         ("x", "pt"), ("x", "m"), ("x", "mm"), ("x", "cm"), ("x", "inch")]

def law_predefined():
    for t, u in NAMES:
        same(parts(getattr(unit, t + "_" + u)), parts(unit.length(1, t, u)), t + "_" + u)
    for u in UNITS:
        same(parts(getattr(unit, u)), parts(unit.length(1, "u", u)), u)

def law_str():
    a = gen("a")
    same(str(a), "(%f t + %f u + %f v + %f w + %f x) m" % parts(a))
