# Laws of normalised path segments and their composition (C06).
from math import sin, cos, atan2, sqrt, hypot, degrees, radians
from pyx import normpath as np, trafo, bbox, path, unit, mathutils

A, B, C, D, E, F, G, H = num("a"), num("b"), num("c"), num("d"), num("e"), num("f"), num("g"), num("h")
T = num("t")

def line(): return np.normline_pt(A, B, C, D)
def curve(): return np.normcurve_pt(A, B, C, D, E, F, G, H)
MAKE = {"line": line, "curve": curve}
KINDS = ["line", "curve"]

def bern(p, t):
    if len(p) == 2: return (1-t)*p[0] + t*p[1]
    return (1-t)**3*p[0] + 3*(1-t)**2*t*p[1] + 3*(1-t)*t**2*p[2] + t**3*p[3]

def ref(k, t):
    if k == "line": return (bern((A, C), t), bern((B, D), t))
    return (bern((A, C, E, G), t), bern((B, D, F, H), t))

def ctrl(i):
    if isinstance(i, np.normline_pt): return ("L", i.x0_pt, i.y0_pt, i.x1_pt, i.y1_pt)
    return ("C", i.x0_pt, i.y0_pt, i.x1_pt, i.y1_pt, i.x2_pt, i.y2_pt, i.x3_pt, i.y3_pt)

def at(i, t): return seqv(i.at_pt([t])[0])

def law_at(k=KINDS):
    i = MAKE[k]()
    p = i.at_pt([T, 0, 1])
    same(len(p), 3, "number")
    same(seqv(p[0]), ref(k, T), "at")
    same(seqv(p[1]), ref(k, 0), "at begin")
    same(seqv(p[2]), ref(k, 1), "at end")
    same(seqv(i.atbegin_pt()), ref(k, 0), "begin")
    same(seqv(i.atend_pt()), ref(k, 1), "end")

def law_polynomials():
    c = curve()
    x, y = ref("curve", T)
    same(c.x_pt(T), x); same(c.y_pt(T), y)
    dx, dy = derivative(x, T), derivative(y, T)
    same(c.xdot_pt(T), dx, "xdot"); same(c.ydot_pt(T), dy, "ydot")
    ddx, ddy = derivative(dx, T), derivative(dy, T)
    same(c.xddot_pt(T), ddx, "xddot"); same(c.yddot_pt(T), ddy, "yddot")
    same(c.xdddot_pt(T), derivative(ddx, T), "xdddot"); same(c.ydddot_pt(T), derivative(ddy, T), "ydddot")

def law_reversed(k=KINDS):
    i = MAKE[k]()
    r = i.reversed()
    same(at(r, T), ref(k, 1-T), "reversed")
    same(ctrl(i), ctrl(MAKE[k]()), "original unchanged")
    same(ctrl(r.reversed()), ctrl(i), "twice")

def law_segments(k=KINDS):
    i = MAKE[k]()
    a, b, c, d = num("p1"), num("p2"), num("p3"), num("p4")
    s = i.segments([a, b, c, d])
    same(len(s), 3, "number")
    same(at(s[0], T), ref(k, a + (b-a)*T), "first")
    same(at(s[1], T), ref(k, b + (c-b)*T), "second")
    same(at(s[2], T), ref(k, c + (d-c)*T), "third")
    same(outcome(lambda: i.segments([a])), ("raise", "ValueError"), "too few")
    same(ctrl(i), ctrl(MAKE[k]()), "original unchanged")

def law_split():
    c = curve()
    s = num("s")
    l, r = c._split(s)
    same(at(l, T), ref("curve", s*T), "left")
    same(at(r, T), ref("curve", s + (1-s)*T), "right")
    same(at(l, 1), at(r, 0), "joint")
    l, r = c._split()
    same(at(l, T), ref("curve", T/2), "left half")
    same(at(r, T), ref("curve", (1+T)/2), "right half")

def law_transformed(k=KINDS):
    i = MAKE[k]()
    t = trafo.trafo_pt(((num("m11"), num("m12")), (num("m21"), num("m22"))), (num("v1"), num("v2")))
    same(at(i.transformed(t), T), t.apply_pt(*ref(k, T)), "transformed")
    same(ctrl(i), ctrl(MAKE[k]()), "original unchanged")

def law_modified(k=KINDS):
    i = MAKE[k]()
    x, y = num("x"), num("y")
    b, e = i.modifiedbegin_pt(x, y), i.modifiedend_pt(x, y)
    same(ctrl(b)[0:3], (ctrl(i)[0], x, y), "begin"); same(ctrl(b)[3:], ctrl(i)[3:], "rest of begin")
    same(ctrl(e)[-2:], (x, y), "end"); same(ctrl(e)[:-2], ctrl(i)[:-2], "rest of end")
    same(ctrl(i), ctrl(MAKE[k]()), "original unchanged")

def tangent(k, t):
    x, y = ref(k, T)
    return subst(derivative(x, T), T, t), subst(derivative(y, T), T, t)

def law_rotation(k=KINDS):
    i = MAKE[k]()
    rs = i.rotation([0, T])
    same(len(rs), 2, "number")
    for t, r in zip((0, T), rs):
        dx, dy = tangent(k, t)
        w = atan2(dy, dx)
        same(r.apply_pt(1, 0), (cos(w), sin(w)), "direction")
        same(r.apply_pt(0, 1), (-sin(w), cos(w)), "normal")
        same(r.apply_pt(0, 0), (0, 0), "no translation")

def law_trafo(k=KINDS):
    i = MAKE[k]()
    ts = i.trafo([0, T])
    same(len(ts), 2, "number")
    for t, r in zip((0, T), ts):
        dx, dy = tangent(k, t)
        w = atan2(dy, dx)
        x, y = ref(k, t)
        same(r.apply_pt(0, 0), (x, y), "position")
        same(r.apply_pt(1, 0), (x + cos(w), y + sin(w)), "direction")
        same(r.apply_pt(0, 1), (x - sin(w), y + cos(w)), "normal")

def law_curvature():
    same(seqv(line().curvature_pt([T, 0])), (0, 0), "line")
    dx, dy = tangent("curve", T)
    assume(dx*dx + dy*dy > 0)
    ddx, ddy = derivative(dx, T), derivative(dy, T)
    k = curve().curvature_pt([T])
    same(len(k), 1)
    same(k[0]*sqrt(dx*dx + dy*dy)**3, dx*ddy - dy*ddx, "curvature")

def law_line_length():
    eps = pos("eps")
    l = hypot(C-A, D-B)
    assume(l > 0)
    same(line().arclen_pt(eps), l, "arclen"); same(line().arclen_pt(eps, upper=True), l, "upper")
    u, v = num("u"), num("v")
    same(seqv(line().arclentoparam_pt([u, v], eps)), (u/l, v/l), "arclentoparam")
    ps, tot = line()._arclentoparam_pt([u, v], eps)
    same((seqv(ps), tot), ((u/l, v/l), l), "_arclentoparam")
    ls, tot = line()._paramtoarclen_pt([u, v], eps)
    same((seqv(ls), tot), ((u*l, v*l), l), "paramtoarclen")

def law_boxes():
    same(line().bbox().highrestuple_pt(), (min(A, C), min(B, D), max(A, C), max(B, D)), "line")
    same(line().cbox().highrestuple_pt(), (min(A, C), min(B, D), max(A, C), max(B, D)), "line cbox")
    same(curve().cbox().highrestuple_pt(), (min(A, C, E, G), min(B, D, F, H), max(A, C, E, G), max(B, D, F, H)), "curve cbox")

def law_curve_box():
    t = zeroone("u")
    b = curve().bbox().highrestuple_pt()
    x, y = ref("curve", t)
    check(b[0] <= x + 1e-6 and x <= b[2] + 1e-6 and b[1] <= y + 1e-6 and y <= b[3] + 1e-6, "covers")
    s = np.normcurve_pt(B, A, D, C, F, E, H, G).bbox().highrestuple_pt()
    same(s, (b[1], b[0], b[3], b[2]), "axes exchanged")

def law_pathitem():
    i = line().pathitem()
    check(isclass(i, path.lineto_pt)); same((i.x_pt, i.y_pt), (C, D))
    i = curve().pathitem()
    check(isclass(i, path.curveto_pt)); same((i.x1_pt, i.y1_pt, i.x2_pt, i.y2_pt, i.x3_pt, i.y3_pt), (C, D, E, F, G, H))

# --- subdivision used for arc lengths and intersections -----------------------------------------------

def law_subparam():
    u = num("u")
    same(np._leftnormcurve_pt(A, B, C, D, E, F, G, H).subparamtoparam(u), u/2, "left curve")
    same(np._rightnormcurve_pt(A, B, C, D, E, F, G, H).subparamtoparam(u), (1+u)/2, "right curve")

def law_subparam_line():
    l1, l2, l3 = pos("l1"), pos("l2"), pos("l3")
    u = zeroone("u")
    got = []
    def roots(*c):
        got.append(c); return [num("root")]
    trust("pyx.mathutils.realpolyroots", roots)
    l = np._leftnormline_pt(A, B, C, D, l1, l2, l3).subparamtoparam(u)
    r = np._rightnormline_pt(A, B, C, D, l1, l2, l3).subparamtoparam(u)
    same((l, r), (num("root")/2, (1+num("root"))/2), "halves")
    for c in got:
        # the arc length of the control polygon, as cubic in its parameter
        p = c[0]*T**3 + c[1]*T**2 + c[2]*T + c[3]
        same(p, bern((0, l1, l1+l2, l1+l2+l3), T) - u*(l1+l2+l3), "polynomial")

def law_subparam_line_outside():
    u = pos("u")
    same(np._leftnormline_pt(A, B, C, D, 1, 2, 3).subparamtoparam(-u), -u/2, "left")
    same(np._rightnormline_pt(A, B, C, D, 1, 2, 3).subparamtoparam(-u), (1-u)/2, "right")
    same(np._leftnormline_pt(A, B, C, D, 1, 2, 3).subparamtoparam(1+u), (1+u)/2, "left above")

def law_leftline_length():
    l = np._leftnormline_pt(A, B, C, D, 1, 2, 3)
    same((l.arclen_pt(1e-5), l.arclen_pt(1e-5, upper=True)), (hypot(C-A, D-B), 6))

def isline(i): return isinstance(i, np.normline_pt)

def law_split_replaces(k=[False, True]):
    # a straight curve: halves are lines, with the lengths of their control polygons
    c = np.normcurve_pt(0, 0, 3, 4, 6, 8, 9, 12)
    l, r = c._split(epsilon=1e-5, intersect=k)
    check(isinstance(l, np._leftnormline_pt) and not isinstance(l, np._rightnormline_pt), "left"); check(isinstance(r, np._rightnormline_pt), "right")
    same(ctrl(l), ("L", 0, 0, 9/2, 6), "left half"); same(ctrl(r), ("L", 9/2, 6, 9, 12), "right half")
    same((l.l1_pt, l.l2_pt, l.l3_pt), (5/2, 5/2, 5/2), "lengths"); same((r.l1_pt, r.l2_pt, r.l3_pt), (5/2, 5/2, 5/2), "lengths")
    c = np.normcurve_pt(0, 0, 0, 40, 40, 40, 40, 0)
    l, r = c._split(epsilon=1e-5, intersect=k)
    check(isinstance(l, np._leftnormcurve_pt), "left curve"); check(isinstance(r, np._rightnormcurve_pt), "right curve")
    same(at(l, T), at(c, T/2), "left curve"); same(at(r, T), at(c, (1+T)/2), "right curve")

def law_split_backwards():
    # a curve running back on a line must not become a line for intersections
    c = np.normcurve_pt(0, 0, 40, 0, -40, 0, 10, 0)
    l, r = c._split(epsilon=1e-5, intersect=True)
    check(not isline(l) or not isline(r), "still a curve")

def law_intersect_lines_regular():
    l, m = line(), np.normline_pt(E, F, G, H)
    det = (C-A)*(H-F) - (D-B)*(G-E)
    assume(abs(det) >= 1)
    p, q = zeroone("p"), zeroone("q")
    # lines through a common point at p, q
    x, y = num("x"), num("y")
    l = np.normline_pt(x - p*A, y - p*B, x + (1-p)*A, y + (1-p)*B)
    m = np.normline_pt(x - q*C, y - q*D, x + (1-q)*C, y + (1-q)*D)
    assume(abs(A*D - B*C) >= 1)
    r = l.intersect(m, 1e-5)
    same(len(r), 1, "one crossing")
    same((r[0][0], r[0][1]), (p, q), "crossing")

def law_intersect_lines_swap():
    # exchanging the roles of x and y leaves the parameters as they are
    eps = 1e-5
    for a, b in [((0, 0, 0, 1), (0, 2, 4, 6)), ((3, 4, 3, 4), (0, 0, 6, 8)), ((1, 7, 1, 7), (1, 7, 1, 7)), ((0, 0, 4, 4), (2, 2, 8, 8)), ((0, 0, 4, 2), (10, 5, 6, 3)),
                 ((0, 0, 4, 2), (8, 4, 2, 1)), ((2, 9, 2, 9), (0, 9, 8, 9)), ((2, 9, 2, 9), (2, 0, 2, 18)), ((0, 0, 4, 0), (1, -1, 1, 3)), ((0, 0, 4, 0), (9, -1, 9, 3))]:
        i = np.normline_pt(*a).intersect(np.normline_pt(*b), eps)
        s = np.normline_pt(a[1], a[0], a[3], a[2]).intersect(np.normline_pt(b[1], b[0], b[3], b[2]), eps)
        same([seqv(x) for x in i], [seqv(x) for x in s], "axes exchanged")
        for p, q in i:
            x, y = at(np.normline_pt(*a), p)
            u, v = at(np.normline_pt(*b), q)
            check(abs(x-u) < 2*eps and abs(y-v) < 2*eps, "common point")

def law_intersect_lines_expected():
    eps = 1e-5
    def found(a, b): return len(np.normline_pt(*a).intersect(np.normline_pt(*b), eps))
    same(found((3, 4, 3, 4), (0, 0, 6, 8)), 1, "short on long")
    same(found((0, 0, 6, 8), (3, 4, 3, 4)), 1, "long with short")
    same(found((1, 7, 1, 7), (1, 7, 1, 7)), 1, "short on short")
    same(found((1, 7, 1, 7), (1, 8, 1, 8)), 0, "short apart")
    same(found((3, 5, 3, 5), (0, 0, 6, 8)), 0, "short off long")
    same(found((0, 0, 4, 4), (2, 2, 8, 8)), 1, "overlapping")
    same(found((0, 0, 4, 4), (8, 8, 2, 2)), 1, "overlapping backwards")
    same(found((0, 0, 4, 4), (8, 8, 5, 5)), 0, "colinear apart")
    same(found((0, 0, 8, 8), (2, 2, 5, 5)), 1, "contained")
    same(found((2, 2, 5, 5), (0, 0, 8, 8)), 1, "containing")
    same(found((0, 0, 4, 0), (9, -1, 9, 3)), 0, "no crossing a")
    same(found((0, 0, 4, 0), (2, 1, 2, 3)), 0, "no crossing b")

def law_intersect_symmetric():
    l = np.normline_pt(0, 0, 4, 0)
    trust("pyx.normpath.normcurve_pt.intersect", lambda self, other, epsilon: [(num("u"), num("v"))])
    same([seqv(x) for x in l.intersect(curve(), 1e-5)], [(num("v"), num("u"))], "line with curve")

# --- normsubpaths -------------------------------------------------------------------------------------

def sub():
    return np.normsubpath([np.normline_pt(A, B, C, D), np.normcurve_pt(C, D, 1, 2, 3, 4, E, F), np.normline_pt(E, F, G, H)], epsilon=None)
def closed():
    return np.normsubpath([np.normline_pt(A, B, C, D), np.normline_pt(C, D, E, F)], closed=1, epsilon=None)

def pos_on(s, p):
    """position at a parameter, from the definition"""
    i = 0
    while i < len(s) - 1 and p >= i+1: i += 1
    return at(s.normsubpathitems[i], p - i)

PARAMS = [-1/2, 0, 1/4, 1, 3/2, 2, 11/4, 3, 7/2]

def law_sub_at():
    s = sub()
    same([seqv(x) for x in s.at_pt(PARAMS)], [pos_on(s, p) for p in PARAMS], "at")
    same([seqv(x) for x in s.at_pt([5/2, 1/2])], [pos_on(s, 5/2), pos_on(s, 1/2)], "order")
    same((seqv(s.atbegin_pt()), seqv(s.atend_pt())), ((A, B), (G, H)), "ends")
    same([seqv(x) for x in closed().at_pt([1/2, 5/2, 3])], [(A + (C-A)/2, B + (D-B)/2), (E + (A-E)/2, F + (B-F)/2), (A, B)], "closed")

def matrix(t): return t.apply_pt(0, 0) + t.apply_pt(1, 0) + t.apply_pt(0, 1)

def law_sub_local(m=["rotation", "trafo", "curvature_pt"]):
    s = sub()
    ps = [5/2, 1/2, 1, 3/2]
    if m == "curvature_pt":
        assume((F-B) > 0)
    got = getattr(s, m)(ps)
    same(len(got), 4, "number")
    exp = [getattr(s.normsubpathitems[i], m)([t])[0] for i, t in ((2, 1/2), (0, 1/2), (1, 0), (1, 1/2))]
    if m != "curvature_pt":
        got = [matrix(x) for x in got]; exp = [matrix(x) for x in exp]
    same(got, exp, m)

def law_sub_reversed():
    r = sub().reversed()
    same([ctrl(i) for i in r.normsubpathitems], [("L", G, H, E, F), ("C", E, F, 3, 4, 1, 2, C, D), ("L", C, D, A, B)])
    check(not r.closed, "open")
    r = closed().reversed()
    check(r.closed, "closed")
    # a closed one runs backwards from the same point
    same([ctrl(i) for i in r.normsubpathitems][:3], [("L", A, B, E, F), ("L", E, F, C, D), ("L", C, D, A, B)])

def law_sub_transformed():
    t = trafo.trafo_pt(((num("m11"), num("m12")), (num("m21"), num("m22"))), (num("v1"), num("v2")))
    s = sub()
    r = s.transformed(t)
    same([ctrl(i) for i in r.normsubpathitems], [ctrl(i.transformed(t)) for i in s.normsubpathitems])
    check(not r.closed)
    r = closed().transformed(t)
    check(r.closed, "closed")
    same([ctrl(i) for i in r.normsubpathitems][:3], [ctrl(i.transformed(t)) for i in closed().normsubpathitems], "closed")

def law_sub_close():
    c = closed()
    same([ctrl(i) for i in c.normsubpathitems], [("L", A, B, C, D), ("L", C, D, E, F), ("L", E, F, A, B)], "closing line")
    check(c.closed, "closed")
    same(outcome(lambda: c.close()), ("raise", "NormpathException"), "twice")
    same(outcome(lambda: np.normsubpath([], epsilon=None).close()), ("raise", "NormpathException"), "empty")

def law_sub_join():
    s = np.normsubpath([line()], epsilon=None)
    o = np.normsubpath([np.normline_pt(E, F, G, H)], epsilon=None)
    j = s.joined(o)
    same([ctrl(i) for i in j.normsubpathitems], [("L", A, B, C, D), ("L", C, D, E, F), ("L", E, F, G, H)], "joined")
    same((len(s), len(o)), (1, 1), "operands")
    s.join(o)
    same([ctrl(i) for i in s.normsubpathitems], [ctrl(i) for i in j.normsubpathitems], "join")
    same(outcome(lambda: s.join(closed())), ("raise", "NormpathException"), "closed")

def law_sub_bbox():
    s = sub()
    b = bbox.empty()
    for i in s.normsubpathitems: b += i.bbox()
    same(s.bbox().highrestuple_pt(), b.highrestuple_pt())
    same(np.normsubpath([], epsilon=None).bbox().llx_pt, None, "empty")

CUTS = [[0, 3], [1/2, 1], [1/2, 3/2], [1/4, 1/2, 5/2], [0, 1, 2, 3], [5/2, 1/2], [1/2, 5/2, 3/2], [3, 0], [1/2, 5/2, 3/4, 11/4], [-1/2, 7/2], [2, 1], [1, 1/2]]

def pieces(cut):
    """expected pieces as lists of (item index, begin, end)"""
    n = 3
    def loc(p):
        i = min(max(int(p), 0), n-1) if p > 0 else 0
        return i, p - i
    out = []
    for p, q in zip(cut[:-1], cut[1:]):
        i, s = loc(p); j, e = loc(q)
        r = []
        if i == j: r.append((i, s, e))
        elif i < j:
            r.append((i, s, 1))
            for k in range(i+1, j): r.append((k, 0, 1))
            r.append((j, 0, e))
        else:
            r.append((i, s, 0))
            for k in range(i-1, j, -1): r.append((k, 1, 0))
            r.append((j, 1, e))
        out.append(r)
    return out

def law_sub_segments(cut=CUTS):
    s = sub()
    u = num("u")
    got = s.segments(cut)
    exp = pieces(cut)
    same(len(got), len(exp), "number")
    for g, e in zip(got, exp):
        same(len(g.normsubpathitems), len(e), "items")
        for x, (i, p, q) in zip(g.normsubpathitems, e):
            same(at(x, u), at(s.normsubpathitems[i], p + (q-p)*u), "points")
        check(not g.closed, "open")
    same([ctrl(i) for i in s.normsubpathitems], [ctrl(i) for i in sub().normsubpathitems], "original unchanged")

def law_sub_segments_closed():
    c = closed()
    r = c.segments([0, 1/2, 3/2, 3])
    same([[ctrl(i) for i in s.normsubpathitems] for s in r],
         [[("L", C + (E-C)/2, D + (F-D)/2, E, F), ("L", E, F, A, B), ("L", A, B, A + (C-A)/2, B + (D-B)/2)],
          [("L", A + (C-A)/2, B + (D-B)/2, C, D), ("L", C, D, C + (E-C)/2, D + (F-D)/2)]], "joined at the closing point")
    r = c.segments([1/2, 3/2, 5/2])
    same([len(s.normsubpathitems) for s in r], [2, 2], "not joined")
    r = c.segments([0, 3])
    same([[ctrl(i) for i in s.normsubpathitems] for s in r], [[("L", A, B, C, D), ("L", C, D, E, F), ("L", E, F, A, B)]], "all")

# --- appending with finite accuracy -------------------------------------------------------------------

def law_append_line():
    s = np.normsubpath(epsilon=1/10)
    s.append(np.normline_pt(A, B, A+3, B+4))
    same([ctrl(i) for i in s.normsubpathitems], [("L", A, B, A+3, B+4)], "long"); check(s.skippedline is None, "nothing skipped")
    s.append(np.normline_pt(A+3, B+4, A+3+3/100, B+4+4/100))
    same(len(s.normsubpathitems), 1, "short"); same(ctrl(s.skippedline), ("L", A+3, B+4, A+3+3/100, B+4+4/100), "skipped")
    same(seqv(s.atend_pt()), (A+3+3/100, B+4+4/100), "end")
    s.append(np.normline_pt(A+3+3/100, B+4+4/100, A+3+3/100, B+10))
    same([ctrl(i) for i in s.normsubpathitems], [("L", A, B, A+3, B+4), ("L", A+3, B+4, A+3+3/100, B+10)], "taken into account")
    check(s.skippedline is None, "used")

def law_append_limit():
    # the accuracy itself is long enough
    s = np.normsubpath(epsilon=5)
    s.append(np.normline_pt(A, B, A+3, B+4))
    same(len(s.normsubpathitems), 1)

def law_append_accumulates():
    s = np.normsubpath(epsilon=1/10)
    s.append(np.normline_pt(A, B, A+3/50, B+4/50-2/50))
    s.append(np.normline_pt(A+3/50, B+2/50, A+6/50, B+4/50))
    same([ctrl(i) for i in s.normsubpathitems], [("L", A, B, A+6/50, B+4/50)])

def law_append_closed():
    s = np.normsubpath([np.normline_pt(0, 0, 3, 0), np.normline_pt(3, 0, 3, 3)], closed=1, epsilon=1/10)
    same(outcome(lambda: s.append(np.normline_pt(0, 0, 5, 0))), ("raise", "NormpathException"))

def law_flush():
    s = np.normsubpath([np.normline_pt(A, B, A+3, B+4), np.normline_pt(A+3, B+4, A+3+3/100, B+4+4/100)], epsilon=1/10)
    s.flushskippedline()
    check(s.skippedline is None, "gone")
    same([ctrl(i) for i in s.normsubpathitems], [("L", A, B, A+3+3/100, B+4+4/100)], "end moved")

def law_append_curve():
    s = np.normsubpath(epsilon=1/100)
    trust("pyx.mathutils.realpolyroots", lambda *c: [])
    c = np.normcurve_pt(0, 0, 3, 4, 6, -8, 15, 8)
    s.append(c)
    same([ctrl(i) for i in s.normsubpathitems], [ctrl(c)], "regular")
    s = np.normsubpath(epsilon=1/100)
    s.append(np.normcurve_pt(A, B, A + 1/1000, B, A + 1/1000, B, A, B+1/1000))
    same(len(s.normsubpathitems), 0, "short"); same(ctrl(s.skippedline), ("L", A, B, A, B+1/1000), "short")

def law_append_curve_derivative():
    # control points on the end points are moved towards the next control point
    trust("pyx.mathutils.realpolyroots", lambda *c: [])
    e = 1/100
    s = np.normsubpath(epsilon=e)
    s.append(np.normcurve_pt(A, B, A, B, A+3, B+4, A+6, B+16))
    same([ctrl(i) for i in s.normsubpathitems], [("C", A, B, A + 3*e/5/2.9, B + 4*e/5/2.9, A+3, B+4, A+6, B+16)], "begin")
    s = np.normsubpath(epsilon=e)
    s.append(np.normcurve_pt(A, B, A+3, B+4, A+6, B+8, A+6, B+8))
    same([ctrl(i) for i in s.normsubpathitems], [("C", A, B, A+3, B+4, A+6 - 3*e/5/2.9, B+8 - 4*e/5/2.9, A+6, B+8)], "end")
    s = np.normsubpath(epsilon=e)
    s.append(np.normcurve_pt(A, B, A, B, A+6, B+8, A+6, B+8))
    same([ctrl(i) for i in s.normsubpathitems], [("C", A, B, A + 6*e/10/2.9, B + 8*e/10/2.9, A+6 - 6*e/10/2.9, B+8 - 8*e/10/2.9, A+6, B+8)], "both")
    s = np.normsubpath(epsilon=e)
    s.append(np.normcurve_pt(A, B, A, B, A, B, A+6, B+8))
    same([ctrl(i) for i in s.normsubpathitems], [("C", A, B, A + 6*e/10/2.9, B + 8*e/10/2.9, A, B, A+6, B+8)], "both at begin")

def law_append_curve_extrema():
    got = []
    def roots(*c):
        got.append(c); return []
    trust("pyx.mathutils.realpolyroots", roots)
    p = (0, 1, 3, 4+A*A, 6, -8-B*B, 15, 8)
    np.normsubpath(epsilon=1/100).append(np.normcurve_pt(*p))
    same(len(got), 1, "asked once")
    dx = derivative(bern(p[0::2], T), T); dy = derivative(bern(p[1::2], T), T)
    d = derivative(dx*dx + dy*dy, T)
    c = got[0]
    q = c[0]*T**3 + c[1]*T**2 + c[2]*T + c[3]
    # proportional to the derivative of the squared speed
    same(q*subst(d, T, 0), d*c[3], "polynomial")

# --- normpaths ----------------------------------------------------------------------------------------

def npath():
    return np.normpath([sub(), np.normsubpath([np.normline_pt(0, 0, A, 5), np.normline_pt(A, 5, 7, B)], epsilon=None), np.normsubpath([np.normline_pt(D, 1, 2, C)], epsilon=None)])

def law_path_at():
    n = npath()
    pp = [np.normpathparam(n, 1, 3/2), np.normpathparam(n, 0, 1/2), np.normpathparam(n, 2, 1), np.normpathparam(n, 0, 5/2)]
    same([seqv(x) for x in n.at_pt(pp)], [pos_on(n[i], p) for i, p in ((1, 3/2), (0, 1/2), (2, 1), (0, 5/2))], "several")
    same(seqv(n.at_pt(pp[0])), pos_on(n[1], 3/2), "one")
    same((seqv(n.atbegin_pt()), seqv(n.atend_pt())), ((A, B), (2, C)), "ends")
    same((n.begin().normsubpathindex, n.begin().normsubpathparam), (0, 0), "begin")
    same((n.end().normsubpathindex, n.end().normsubpathparam), (2, 1), "end")
    same(outcome(lambda: np.normpath([]).atbegin_pt()), ("raise", "NormpathException")); same(outcome(lambda: np.normpath([]).atend_pt()), ("raise", "NormpathException"))
    same(outcome(lambda: np.normpath([]).begin()), ("raise", "NormpathException")); same(outcome(lambda: np.normpath([]).end()), ("raise", "NormpathException"))

def law_path_local(m=["rotation_pt", "trafo_pt", "rotation", "trafo"]):
    n = npath()
    pp = [np.normpathparam(n, 1, 3/2), np.normpathparam(n, 0, 1/2), np.normpathparam(n, 2, 1), np.normpathparam(n, 0, 5/2)]
    got = getattr(n, m)(pp)
    sm = m.replace("_pt", "")
    same([matrix(x) for x in got], [matrix(getattr(n[i], sm)([p])[0]) for i, p in ((1, 3/2), (0, 1/2), (2, 1), (0, 5/2))])

def law_path_tangent():
    n = npath()
    l = pos("l")
    pp = [np.normpathparam(n, 1, 3/2), np.normpathparam(n, 0, 1/2)]
    trust("pyx.normpath._epsilon", None)
    trust("pyx.path.path.normpath", lambda self, epsilon=None: np.normpath([np.normsubpath([np.normline_pt(self.pathitems[0].x_pt, self.pathitems[0].y_pt, self.pathitems[1].x_pt, self.pathitems[1].y_pt)], epsilon=None)]))
    for t, (i, p) in zip(n.tangent_pt(pp, l), ((1, 3/2), (0, 1/2))):
        tr = n[i].trafo([p])[0]
        same(ctrl(t.normsubpaths[0].normsubpathitems[0]), ("L",) + tr.apply_pt(0, 0) + tr.apply_pt(l, 0), "tangent")

def law_path_reversed():
    r = npath().reversed()
    same([[ctrl(i) for i in s.normsubpathitems] for s in r.normsubpaths], [[ctrl(i) for i in s.reversed().normsubpathitems] for s in (npath()[2], npath()[1], npath()[0])])

def law_path_transformed():
    t = trafo.trafo_pt(((num("m11"), num("m12")), (num("m21"), num("m22"))), (num("v1"), num("v2")))
    n = npath()
    same([[ctrl(i) for i in s.normsubpathitems] for s in n.transformed(t).normsubpaths], [[ctrl(i.transformed(t)) for i in s.normsubpathitems] for s in n.normsubpaths])

def law_path_join():
    n, m = npath(), npath()
    k = n.joined(m)
    same(len(k), 5, "subpaths")
    same([ctrl(i) for i in k[2].normsubpathitems], [("L", D, 1, 2, C), ("L", 2, C, A, B)] + [ctrl(i) for i in m[0].normsubpathitems], "joined")
    same([[ctrl(i) for i in s.normsubpathitems] for s in k.normsubpaths[3:]], [[ctrl(i) for i in s.normsubpathitems] for s in m.normsubpaths[1:]], "rest")
    k = n << m
    same(len(k), 5, "operator")
    n.join(m)
    same([[ctrl(i) for i in s.normsubpathitems] for s in k.normsubpaths], [[ctrl(i) for i in s.normsubpathitems] for s in n.normsubpaths], "in place")
    same(outcome(lambda: np.normpath([]).join(m)), ("raise", "NormpathException")); same(outcome(lambda: m.join(np.normpath([]))), ("raise", "NormpathException"))

def law_path_add():
    n, m = npath(), np.normpath([np.normsubpath([line()], epsilon=None)])
    k = n + m
    same([[ctrl(i) for i in s.normsubpathitems] for s in k.normsubpaths], [[ctrl(i) for i in s.normsubpathitems] for s in n.normsubpaths + m.normsubpaths])
    same((len(n), len(m)), (3, 1), "operands")

def law_path_bbox():
    n = npath()
    b = bbox.empty()
    for s in n.normsubpaths: b += s.bbox()
    same(n.bbox().highrestuple_pt(), b.highrestuple_pt())

def items(n): return [[ctrl(i) for i in s.normsubpathitems] for s in n.normsubpaths]

SPLITS = [[(0, 1/2)], [(1, 1/2)], [(2, 1/2)], [(0, 1/2), (2, 1/2)], [(0, 1/2), (0, 5/2)], [(0, 1/2), (1, 1/2), (2, 1/2)]]

def law_path_split(cut=SPLITS):
    """pieces of increasing parameters put together are the path"""
    n = npath()
    r = n.split_pt([np.normpathparam(n, i, p) for i, p in cut])
    same(len(r), len(cut) + 1, "number")
    u = num("u")
    # the pieces run from each cut to the next
    allp = [(0, 0)] + cut + [(2, 1)]
    k = 0
    for q in r:
        (i0, p0), (i1, p1) = allp[k], allp[k+1]
        k += 1
        e = []
        for i in range(i0, i1+1):
            e.append(n[i].segments([p0 if i == i0 else 0, p1 if i == i1 else len(n[i])])[0])
        same(items(q), [[ctrl(i) for i in s.normsubpathitems] for s in e], "piece")
    same(items(n), items(npath()), "original unchanged")

def law_path_split_backwards():
    n = npath()
    r = n.split_pt([np.normpathparam(n, 2, 1/2), np.normpathparam(n, 0, 1/2)])
    same(len(r), 3, "number")
    same(items(r[1]), [[("L", D + (2-D)/2, 1 + (C-1)/2, D, 1)], [ctrl(i) for i in n[1].reversed().normsubpathitems], [ctrl(i) for i in n[0].segments([3, 1/2])[0].normsubpathitems]], "backwards")

def lines():
    return np.normpath([np.normsubpath([np.normline_pt(0, 0, 3, 4), np.normline_pt(3, 4, 3, 14)], epsilon=1e-5), np.normsubpath([np.normline_pt(20, 0, 26, 8), np.normline_pt(26, 8, 26, 6)], epsilon=1e-5)])

ARCS = [-5/2, 0, 2, 5, 10, 15, 20, 25, 26, 27, 29]
def expected(l):
    if l < 5: return (0, l/5)
    if l < 15: return (0, 1 + (l-5)/10)
    if l < 25: return (1, (l-15)/10)
    return (1, 1 + (l-25)/2)

def law_arclen():
    n = lines()
    same(n.arclen_pt(), 27, "total"); same(n.normsubpaths[0].arclen_pt(), 15, "subpath")
    r = n.arclentoparam_pt(ARCS)
    same([(p.normsubpathindex, p.normsubpathparam) for p in r], [expected(l) for l in ARCS], "arclentoparam")
    p = n.arclentoparam_pt(20)
    same((p.normsubpathindex, p.normsubpathparam), expected(20), "single")
    same(seqv(n.paramtoarclen_pt(r)), tuple(ARCS), "paramtoarclen")
    same(seqv(n.normsubpaths[1].arclentoparam_pt([11, 5])), (3/2, 1/2), "normsubpath")
    same([seqv(x) for x in n.at_pt([10, n.arclentoparam_pt(20), 2])], [(3, 9), (23, 4), (6/5, 8/5)], "at mixed")

def law_params():
    n = lines()
    p, q = n.arclentoparam_pt(10), n.arclentoparam_pt(16)
    def a(x): return n.paramtoarclen_pt(x)
    one = unit.t_pt
    same(a(p + q), 26, "sum"); same(a(q - p), 6, "difference"); same(a(p + 3*one), 13, "plus length"); same(a(3*one + p), 13, "length plus"); same(a(p - 3*one), 7, "minus length")
    same(a(25*one - p), 15, "length minus"); same(a(p*2), 20, "times"); same(a(2*p), 20, "factor"); same(a(p/2), 5, "divided"); same(a(-p), -10, "negative")
    check(p < q, "order"); check(not q < p, "order"); check(p <= q and q > p and q >= p and p == n.arclentoparam_pt(10) and p != q, "comparisons")
    check(p < 11*one and p > 9*one and p == 10*one and not (p == 11*one), "with lengths")
    same(p.arclen_pt(), 10, "arclen_pt"); same(unit.topt(p.arclen()), 10, "arclen")
