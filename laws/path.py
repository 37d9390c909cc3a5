# Laws of path elements in their representations (C05).
from math import sin, cos, radians, pi
from pyx import path, normpath as np, bbox, unit

# point before the element and start of the subpath
def start(): return path.context(num("x"), num("y"), num("sx"), num("sy"))
def state(c): return (c.x_pt, c.y_pt, c.subfirstx_pt, c.subfirsty_pt)

def seg(i):
    """control points of a segment, by its own output"""
    if isinstance(i, np.normline_pt): return ("L", i.x0_pt, i.y0_pt, i.x1_pt, i.y1_pt)
    return ("C", i.x0_pt, i.y0_pt, i.x1_pt, i.y1_pt, i.x2_pt, i.y2_pt, i.x3_pt, i.y3_pt)

X, Y, SX, SY = num("x"), num("y"), num("sx"), num("sy")
A, B, C, D, E, F = num("a"), num("b"), num("c"), num("d"), num("e"), num("f")

# kind -> (element, segments, state after, PostScript, SVG with inverted y axis, SVG)
ITEMS = {
 "moveto": lambda: (path.moveto_pt(A, B), [], (A, B, A, B), "%g %g moveto\n" % (A, B), "M%g %g" % (A, -B), "M%g %g" % (A, B)),
 "lineto": lambda: (path.lineto_pt(A, B), [("L", X, Y, A, B)], (A, B, SX, SY), "%g %g lineto\n" % (A, B), "L%g %g" % (A, -B), "L%g %g" % (A, B)),
 "curveto": lambda: (path.curveto_pt(A, B, C, D, E, F), [("C", X, Y, A, B, C, D, E, F)], (E, F, SX, SY),
                     "%g %g %g %g %g %g curveto\n" % (A, B, C, D, E, F), "C%g %g %g %g %g %g" % (A, -B, C, -D, E, -F), "C%g %g %g %g %g %g" % (A, B, C, D, E, F)),
 "rmoveto": lambda: (path.rmoveto_pt(A, B), [], (X+A, Y+B, X+A, Y+B), "%g %g rmoveto\n" % (A, B), "m%g %g" % (A, -B), "m%g %g" % (A, B)),
 "rlineto": lambda: (path.rlineto_pt(A, B), [("L", X, Y, X+A, Y+B)], (X+A, Y+B, SX, SY), "%g %g rlineto\n" % (A, B), "l%g %g" % (A, -B), "l%g %g" % (A, B)),
 "rcurveto": lambda: (path.rcurveto_pt(A, B, C, D, E, F), [("C", X, Y, X+A, Y+B, X+C, Y+D, X+E, Y+F)], (X+E, Y+F, SX, SY),
                      "%g %g %g %g %g %g rcurveto\n" % (A, B, C, D, E, F), "c%g %g %g %g %g %g" % (A, -B, C, -D, E, -F), "c%g %g %g %g %g %g" % (A, B, C, D, E, F)),
 "multilineto": lambda: (path.multilineto_pt([(A, B), (C, D)]), [("L", X, Y, A, B), ("L", A, B, C, D)], (C, D, SX, SY),
                         "%g %g lineto\n%g %g lineto\n" % (A, B, C, D), "L%g %gL%g %g" % (A, -B, C, -D), "L%g %gL%g %g" % (A, B, C, D)),
 "multilineto0": lambda: (path.multilineto_pt([]), [], (X, Y, SX, SY), "", "", ""),
 "multicurveto": lambda: (path.multicurveto_pt([(A, B, C, D, E, F), (F, E, D, C, B, A)]), [("C", X, Y, A, B, C, D, E, F), ("C", E, F, F, E, D, C, B, A)], (B, A, SX, SY),
                          "%g %g %g %g %g %g curveto\n%g %g %g %g %g %g curveto\n" % (A, B, C, D, E, F, F, E, D, C, B, A),
                          "C%g %g %g %g %g %gC%g %g %g %g %g %g" % (A, -B, C, -D, E, -F, F, -E, D, -C, B, -A),
                          "C%g %g %g %g %g %gC%g %g %g %g %g %g" % (A, B, C, D, E, F, F, E, D, C, B, A)),
 "multicurveto0": lambda: (path.multicurveto_pt([]), [], (X, Y, SX, SY), "", "", ""),
}
KINDS = ["moveto", "lineto", "curveto", "rmoveto", "rlineto", "rcurveto", "multilineto", "multilineto0", "multicurveto", "multicurveto0"]

def existing():
    """a normpath with one segment ending at the current point"""
    return np.normpath([np.normsubpath([np.normline_pt(num("p"), num("q"), X, Y)], epsilon=None)])

def law_normpath(k=KINDS):
    i, segs, after, ps, svg, svg0 = ITEMS[k]()
    n = existing()
    c = start()
    i.updatenormpath(n, c)
    same(state(c), after, "current point")
    got = [seg(s) for sp in n.normsubpaths for s in sp.normsubpathitems][1:]
    if k in ("moveto", "rmoveto"):
        check(len(n.normsubpaths) == 2, "new subpath")
        same(got, [], "no segment")
    else:
        check(len(n.normsubpaths) == 1, "same subpath")
        same(got, segs, "segments")
    check(not n.normsubpaths[-1].closed, "open")

def law_normpath_after_closepath(k=["lineto", "curveto", "rlineto", "rcurveto", "multilineto", "multicurveto"]):
    i, segs, after, ps, svg, svg0 = ITEMS[k]()
    n = existing()
    n.normsubpaths[-1].closed = 1
    c = start()
    i.updatenormpath(n, c)
    same(state(c), after, "current point")
    same([seg(s) for s in n.normsubpaths[-1].normsubpathitems], segs, "segments")
    check(len(n.normsubpaths) == 2 and not n.normsubpaths[-1].closed and n.normsubpaths[0].closed, "new subpath")

def law_bbox_state(k=KINDS):
    i, segs, after, ps, svg, svg0 = ITEMS[k]()
    c = start()
    b = bbox.bbox_pt(num("p"), num("q"), num("r"), num("s"))
    i.updatebbox(b, c)
    same(state(c), after)

def law_svg(k=KINDS):
    i, segs, after, ps, svg, svg0 = ITEMS[k]()
    c = start()
    same(i.returnSVGdata(True, False, c), svg, "inverted")
    same(state(c), after, "current point")
    c = start()
    same(i.returnSVGdata(False, False, c), svg0, "not inverted")
    same(state(c), after, "current point not inverted")

def law_ps(k=KINDS):
    i, segs, after, ps, svg, svg0 = ITEMS[k]()
    f = newfile()
    i.outputPS(f, None)
    same(text(f), ps)

def law_item_unchanged(k=KINDS):
    i, segs, after, ps, svg, svg0 = ITEMS[k]()
    s = snapshot(i)
    i.updatenormpath(existing(), start()); i.updatebbox(bbox.bbox_pt(0, 0, 1, 1), start()); i.returnSVGdata(True, False, start()); i.outputPS(newfile(), None)
    same(s, snapshot(i))

def bern(t, p): return p[0]*(1-t)**3 + 3*p[1]*t*(1-t)**2 + 3*p[2]*t*t*(1-t) + p[3]*t**3

def law_bbox_lines(k=["moveto", "lineto", "rmoveto", "rlineto", "multilineto"]):
    i, segs, after, ps, svg, svg0 = ITEMS[k]()
    b = bbox.bbox_pt(num("p"), num("q"), num("p") + pos("r"), num("q") + pos("s"))
    e = b.copy()
    i.updatebbox(b, start())
    for s in segs:
        e.includepoint_pt(s[3], s[4])
    if not segs: e.includepoint_pt(after[0], after[1])
    same(b.highrestuple_pt(), e.highrestuple_pt())

def law_bbox_curves(k=["curveto", "rcurveto", "multicurveto"]):
    i, segs, after, ps, svg, svg0 = ITEMS[k]()
    c = start()
    b = bbox.empty()
    i.updatebbox(b, c)
    t = zeroone("t")
    eps = 1e-6
    for s in segs:
        px, py = s[1::2], s[2::2]
        check(b.llx_pt - eps <= bern(t, px) and bern(t, px) <= b.urx_pt + eps, "covers x")
        check(b.lly_pt - eps <= bern(t, py) and bern(t, py) <= b.ury_pt + eps, "covers y")
    xs = [v for s in segs for v in s[1::2]]
    ys = [v for s in segs for v in s[2::2]]
    check(b.llx_pt >= min(xs) - eps and b.urx_pt <= max(xs) + eps and b.lly_pt >= min(ys) - eps and b.ury_pt <= max(ys) + eps, "within control polygon")

def law_bbox_curve_extrema():
    # control points x: 0 -> extremum inside
    for p, lo, hi in (((0, 1, 1, 0), 0, 0.75), ((0, -1, -1, 0), -0.75, 0), ((0, 1, 2, 3), 0, 3), ((1, 0, 1, 0), None, None), ((0, 3, -2, 1), None, None),
                      ((5, 5, 5, 5), 5, 5), ((0, 2, 1, 0), None, None), ((3, 0, 0, 3), 0.75, 3)):
        for k in range(2):
            b = bbox.empty()
            c = path.context(p[0], 0, 0, 0) if k == 0 else path.context(0, p[0], 0, 0)
            q = (p[1], 0, p[2], 0, p[3], 0) if k == 0 else (0, p[1], 0, p[2], 0, p[3])
            path.curveto_pt(*q).updatebbox(b, c)
            v = (b.llx_pt, b.urx_pt) if k == 0 else (b.lly_pt, b.ury_pt)
            if lo is not None: same(v, (lo, hi), "extremum")

def law_closepath():
    i = path.closepath()
    c = start()
    b = bbox.bbox_pt(num("p"), num("q"), num("r"), num("s"))
    i.updatebbox(b, c)
    same(state(c), (SX, SY, SX, SY), "bbox")
    same(b.highrestuple_pt(), (num("p"), num("q"), num("r"), num("s")), "bbox extent")
    c = start()
    same(i.returnSVGdata(True, False, c), "Z", "SVG")
    same(state(c), (SX, SY, SX, SY), "SVG state")
    f = newfile()
    i.outputPS(f, None)
    same(text(f), "closepath\n", "PS")
    n = np.normpath([np.normsubpath([np.normline_pt(SX, SY, A, B), np.normline_pt(A, B, X, Y)], epsilon=None)])
    c = start()
    i.updatenormpath(n, c)
    same(state(c), (SX, SY, SX, SY), "normpath")
    check(n.normsubpaths[-1].closed, "closed")
    same([seg(s) for s in n.normsubpaths[-1].normsubpathitems], [("L", SX, SY, A, B), ("L", A, B, X, Y), ("L", X, Y, SX, SY)], "closing line")

def law_first_moveto():
    i = path.moveto_pt(A, B)
    same(state(i.createcontext()), (A, B, A, B), "context")
    same(i.createbbox().highrestuple_pt(), (A, B, A, B), "bbox")
    n = i.createnormpath(epsilon=None)
    check(len(n.normsubpaths) == 1, "one subpath")
    n = i.createnormpath()
    path.lineto_pt(A + 3, B + 4).updatenormpath(n, i.createcontext())
    same([seg(s) for s in n.normsubpaths[0].normsubpathitems], [("L", A, B, A + 3, B + 4)], "starts the subpath")

def law_first_must_set_current_point(k=["lineto", "curveto", "rmoveto", "rlineto", "rcurveto", "multilineto", "multicurveto"]):
    i = ITEMS[k]()[0]
    same(outcome(lambda: i.createcontext())[0], "raise", "context")
    same(outcome(lambda: i.createbbox())[0], "raise", "bbox")
    same(outcome(lambda: i.createnormpath())[0], "raise", "normpath")
    same(outcome(lambda: path.closepath().createcontext())[0], "raise", "closepath")

def law_relative_equals_absolute(k=["moveto", "lineto", "curveto"]):
    r = ITEMS["r" + k]()[0]
    if k == "curveto": a = path.curveto_pt(X+A, Y+B, X+C, Y+D, X+E, Y+F)
    else: a = getattr(path, k + "_pt")(X+A, Y+B)
    m, n = existing(), existing()
    c, d = start(), start()
    r.updatenormpath(m, c); a.updatenormpath(n, d)
    same((state(c), [[seg(i) for i in s.normsubpathitems] for s in m.normsubpaths]), (state(d), [[seg(i) for i in s.normsubpathitems] for s in n.normsubpaths]), "normpath")
    b, e = bbox.bbox_pt(0, 0, 1, 1), bbox.bbox_pt(0, 0, 1, 1)
    r.updatebbox(b, start()); a.updatebbox(e, start())
    same(b.highrestuple_pt(), e.highrestuple_pt(), "bbox")

# --- arcs -----------------------------------------------------------------------------------------

ANGLES = [(0, 90), (30, 50), (10, 200), (0, 360), (350, 10), (90, 45), (-30, 30), (20, 420), (0, 800), (200, -100), (45, 45 + 45)]

def sweepangle(cls, a1, a2):
    """angle by which the arc turns, PostScript definition up to full turns"""
    d = a2 - a1 if cls == "arc" else a1 - a2
    if d < 0:
        while d <= 0: d += 360
    return d

def onc(m, r, w): return (m[0] + r*cos(radians(w)), m[1] + r*sin(radians(w)))

def isarc(segs, m, r, a1, total, sgn, label):
    """segs are Bezier curves of equal angle on the circle around m from angle a1, altogether turning by total"""
    n = len(segs)
    check(n > 0, label + " not empty")
    if n == 0: return
    same(segs[0][1:3], onc(m, r, a1), label + " start")
    same(segs[-1][7:9], onc(m, r, a1 + sgn*total), label + " end")
    for i, s in enumerate(segs):
        check(s[0] == "C", label + " curve")
        w1, w2 = a1 + sgn*total*i/n, a1 + sgn*total*(i+1)/n
        same(s[1:3], onc(m, r, w1), label + " joint")
        same(s[7:9], onc(m, r, w2), label + " joint end")
        # the control points lie on the tangents, in direction of the turn
        d1 = (s[3] - s[1], s[4] - s[2])
        same(d1[0]*cos(radians(w1)) + d1[1]*sin(radians(w1)), 0, label + " tangent start")
        check(sgn*(-d1[0]*sin(radians(w1)) + d1[1]*cos(radians(w1))) > 0, label + " turn start")
        d2 = (s[7] - s[5], s[8] - s[6])
        same(d2[0]*cos(radians(w2)) + d2[1]*sin(radians(w2)), 0, label + " tangent end")
        check(sgn*(-d2[0]*sin(radians(w2)) + d2[1]*cos(radians(w2))) > 0, label + " turn end")
        # the middle of the curve is on the circle
        same((bern(0.5, s[1::2]), bern(0.5, s[2::2])), onc(m, r, (w1+w2)/2), label + " middle")

def law_arc_normpath(case=[("arc", a) for a in ANGLES] + [("arcn", a) for a in ANGLES]):
    kind, (a1, a2) = case
    m, r = (num("mx"), num("my")), pos("r")
    i = getattr(path, kind + "_pt")(m[0], m[1], r, a1, a2)
    sgn = 1 if kind == "arc" else -1
    turn = sweepangle(kind, a1, a2)
    if turn > 720: turn -= 360*((turn//360) - 1)
    n = existing()
    c = start()
    i.updatenormpath(n, c)
    s = [seg(s) for s in n.normsubpaths[-1].normsubpathitems][1:]
    check(len(n.normsubpaths) == 1, "same subpath")
    same(s[0], ("L", X, Y) + onc(m, r, a1), "connecting line")
    isarc(s[1:], m, r, a1, turn, sgn, "appended")
    e = onc(m, r, a2)
    same(state(c), e + (SX, SY), "current point")
    # as the first element
    n = i.createnormpath(epsilon=None)
    isarc([seg(s) for s in n.normsubpaths[0].normsubpathitems], m, r, a1, turn, sgn, "first")
    same(state(i.createcontext()), e + onc(m, r, a1), "context")
    # after closepath
    n = existing()
    n.normsubpaths[-1].closed = 1
    i.updatenormpath(n, start())
    check(len(n.normsubpaths) == 2, "new subpath after closepath")
    s = [seg(s) for s in n.normsubpaths[-1].normsubpathitems]
    same(s[0], ("L", X, Y) + onc(m, r, a1), "connecting line after closepath")
    isarc(s[1:], m, r, a1, turn, sgn, "after closepath")

def law_arc_bbox(case=[("arc", a) for a in ANGLES] + [("arcn", a) for a in ANGLES]):
    kind, (a1, a2) = case
    m, r = (num("mx"), num("my")), pos("r")
    i = getattr(path, kind + "_pt")(m[0], m[1], r, a1, a2)
    sgn = 1 if kind == "arc" else -1
    turn = sweepangle(kind, a1, a2)
    b = i.createbbox()
    # reference: end points and the extrema passed
    e = bbox.empty()
    e.includepoint_pt(*onc(m, r, a1)); e.includepoint_pt(*onc(m, r, a2))
    for k in range(-20, 20):
        w = 90*k
        if 0 <= (w - a1)*sgn and (w - a1)*sgn <= turn:
            q = k % 4
            e.includepoint_pt(m[0] + (r if q == 0 else -r if q == 2 else 0), m[1] + (r if q == 1 else -r if q == 3 else 0))
    same(b.highrestuple_pt(), e.highrestuple_pt(), "first")
    u = bbox.bbox_pt(num("p"), num("q"), num("p") + pos("pp"), num("q") + pos("qq"))
    v = u + e
    c = start()
    i.updatebbox(u, c)
    same(u.highrestuple_pt(), v.highrestuple_pt(), "appended")
    same(state(c), onc(m, r, a2) + (SX, SY), "current point")

def law_arc_svg(case=[("arc", a) for a in ANGLES] + [("arcn", a) for a in ANGLES]):
    kind, (a1, a2) = case
    m, r = (num("mx"), num("my")), pos("r")
    i = getattr(path, kind + "_pt")(m[0], m[1], r, a1, a2)
    sgn = 1 if kind == "arc" else -1
    turn = sweepangle(kind, a1, a2)
    if turn > 720: turn -= 360*((turn//360) - 1)
    n = int(turn/350) + 1
    for inverse in (True, False):
        for first in (True, False):
            z = -1 if inverse else 1
            s = onc(m, r, a1)
            t = ("M" if first else "L") + "%g %g" % (s[0], z*s[1])
            for k in range(n):
                p = onc(m, r, a1 + sgn*turn*(k+1)/n)
                # a positive angle in the coordinates written
                t += "A%g %g 0 %s %s %g %g" % (r, r, "1" if turn/n > 180 else "0", "1" if z*sgn > 0 else "0", p[0], z*p[1])
            c = start()
            same(i.returnSVGdata(inverse, first, c), t, "data %s %s" % (inverse, first))
            same(state(c), onc(m, r, a2) + (SX, SY), "current point %s %s" % (inverse, first))

def law_arc_ps(kind=["arc", "arcn"]):
    i = getattr(path, kind + "_pt")(A, B, C, D, E)
    f = newfile()
    i.outputPS(f, None)
    same(text(f), "%g %g %g %g %g " % (A, B, C, D, E) + kind + "\n")

def law_arct_ps():
    f = newfile()
    path.arct_pt(A, B, C, D, E).outputPS(f, None)
    same(text(f), "%g %g %g %g %g arct\n" % (A, B, C, D, E))

def unitvector(x, y):
    from math import hypot
    l = hypot(x, y)
    return x/l, y/l

def law_arct():
    # the arc touches both tangents and has the radius requested
    from math import hypot
    r = pos("r")
    p1, p2 = (A, B), (C, D)
    t1, t2 = (A-X, B-Y), (C-A, D-B)
    cross = t1[0]*t2[1] - t1[1]*t2[0]
    assume(cross != 0)
    items = path.arct_pt(A, B, C, D, r)._pathitems(X, Y)
    check(len(items) == 2, "line and arc")
    l, a = items
    check(isclass(l, path.lineto_pt), "line")
    m = (a.x_pt, a.y_pt)
    same(a.r_pt, r, "radius")
    u1, u2 = unitvector(*t1), unitvector(*t2)
    # distance of the centre from both tangents, on the inner side
    s = 1 if cross > 0 else -1
    same(u1[0]*(m[1]-B) - u1[1]*(m[0]-A), s*r, "distance from first tangent")
    same(u2[0]*(m[1]-B) - u2[1]*(m[0]-A), s*r, "distance from second tangent")
    # the line ends where the arc begins, at the foot on the first tangent
    f1 = (m[0] + s*r*u1[1], m[1] - s*r*u1[0])
    f2 = (m[0] + s*r*u2[1], m[1] - s*r*u2[0])
    same((l.x_pt, l.y_pt), f1, "line end")
    same(onc(m, r, a.angle1), f1, "arc start")
    same(onc(m, r, a.angle2), f2, "arc end")
    check(isclass(a, path.arc_pt) == (cross > 0), "direction")
    check((a.angle2 > a.angle1) == (cross > 0), "angles")

def law_arct_delegates():
    i = path.arct_pt(3, 1, 4, 5, 1)
    n, n2 = existing(), existing()
    c, c2 = path.context(1, 1, SX, SY), path.context(1, 1, SX, SY)
    i.updatenormpath(n, c)
    for j in i._pathitems(1, 1): j.updatenormpath(n2, c2)
    same((state(c), [seg(s) for s in n.normsubpaths[-1].normsubpathitems]), (state(c2), [seg(s) for s in n2.normsubpaths[-1].normsubpathitems]), "normpath")
    b, b2 = bbox.empty(), bbox.empty()
    c, c2 = path.context(1, 1, SX, SY), path.context(1, 1, SX, SY)
    i.updatebbox(b, c)
    for j in i._pathitems(1, 1): j.updatebbox(b2, c2)
    same((state(c), b.highrestuple_pt()), (state(c2), b2.highrestuple_pt()), "bbox")
    c, c2 = path.context(1, 1, SX, SY), path.context(1, 1, SX, SY)
    same(i.returnSVGdata(True, False, c), "".join([j.returnSVGdata(True, False, c2) for j in i._pathitems(1, 1)]), "SVG")
    same(state(c), state(c2), "SVG state")

def law_arct_degenerate():
    for x1, y1, x2, y2 in ((X, Y, A, B), (A, B, A, B)):
        items = path.arct_pt(x1, y1, x2, y2, pos("r"))._pathitems(X, Y)
        same([(i.x_pt, i.y_pt) for i in items], [(x1, y1)])

# --- whole paths ------------------------------------------------------------------------------------

def sample():
    return path.path(path.moveto_pt(A, B), path.lineto_pt(C, D), path.rcurveto_pt(1, 2, 3, 4, 5, 7), path.closepath(), path.rlineto_pt(3, 4), path.rmoveto_pt(E, F), path.rlineto_pt(4, 3))

def law_path_ps():
    f = newfile()
    sample().outputPS(f, None)
    same(text(f), "%g %g moveto\n%g %g lineto\n1 2 3 4 5 7 rcurveto\nclosepath\n3 4 rlineto\n%g %g rmoveto\n4 3 rlineto\n" % (A, B, C, D, E, F))

def law_path_svg():
    same(sample().returnSVGdata(), "M%g %gL%g %gc1 -2 3 -4 5 -7Zl3 -4m%g %gl4 -3" % (A, -B, C, -D, E, -F), "inverted")
    same(sample().returnSVGdata(inverse_y=False), "M%g %gL%g %gc1 2 3 4 5 7Zl3 4m%g %gl4 3" % (A, B, C, D, E, F), "not inverted")
    same(path.path().returnSVGdata(), "", "empty")

def law_path_pdf():
    f = newfile()
    sample().outputPDF(f, None)
    # curve end C+5, D+7; closepath back to A, B; then the line A+3, B+4 and a subpath at A+3+E, B+4+F
    same(text(f), ("%f %f m\n%f %f l\n%f %f %f %f %f %f c\nh\n" % (A, B, C, D, C+1, D+2, C+3, D+4, C+5, D+7))
         + ("%f %f m\n%f %f l\n" % (A, B, A+3, B+4)) + ("%f %f m\n%f %f l\n" % (A+3+E, B+4+F, A+7+E, B+7+F)))

def law_path_bbox_lines():
    p = path.path(path.moveto_pt(A, B), path.rlineto_pt(C, D), path.lineto_pt(E, F), path.closepath(), path.rlineto_pt(1, 2))
    e = bbox.empty()
    for q in ((A, B), (A+C, B+D), (E, F), (A+1, B+2)): e.includepoint_pt(*q)
    same(p.bbox().highrestuple_pt(), e.highrestuple_pt())
    check(not path.path().bbox(), "empty")

def law_special_paths():
    same([(i.x_pt, i.y_pt) for i in path.line_pt(A, B, C, D)], [(A, B), (C, D)], "line")
    c = path.curve_pt(A, B, C, D, E, F, 1, 2)
    same((c[0].x_pt, c[0].y_pt, c[1].x1_pt, c[1].y1_pt, c[1].x2_pt, c[1].y2_pt, c[1].x3_pt, c[1].y3_pt), (A, B, C, D, E, F, 1, 2), "curve")
    r = path.rect_pt(A, B, C, D)
    same([(i.x_pt, i.y_pt) for i in r.pathitems[:-1]], [(A, B), (A+C, B), (A+C, B+D), (A, B+D)], "rect")
    check(isinstance(r[-1], path.closepath), "rect closed")

def law_circle():
    r = pos("r")
    c = path.circle_pt(A, B, r)
    b = c.bbox()
    same(b.highrestuple_pt(), (A-r, B-r, A+r, B+r), "extent")
    check(isinstance(c[-1], path.closepath), "closed")
    f = c.normpath(epsilon=None).normsubpaths[0]
    check(f.closed, "normpath closed")
    same(f.atbegin_pt(), (A+r, B), "begin")
    same(f.atend_pt(), (A+r, B), "end")

def law_ellipse():
    a, b, w = pos("a1"), pos("b1"), num("w")
    e = path.ellipse_pt(A, B, a, b, w)
    c = path.circle_pt(0, 0, 1).normpath(epsilon=None).path()
    ci, si = cos(radians(w)), sin(radians(w))
    def tr(x, y): return (A + ci*a*x - si*b*y, B + si*a*x + ci*b*y)
    check(isinstance(e.pathitems[-1], path.closepath), "closed")
    for i, j in zip(e.pathitems, c.pathitems):
        if isinstance(j, path.curveto_pt):
            same((i.x1_pt, i.y1_pt) + (i.x2_pt, i.y2_pt) + (i.x3_pt, i.y3_pt), tr(j.x1_pt, j.y1_pt) + tr(j.x2_pt, j.y2_pt) + tr(j.x3_pt, j.y3_pt), "curve")
        elif isinstance(j, path.moveto_pt) or isinstance(j, path.lineto_pt):
            same((i.x_pt, i.y_pt), tr(j.x_pt, j.y_pt), "point")

# --- the normpath writes what it is -------------------------------------------------------------------

def np2():
    s1 = np.normsubpath([np.normline_pt(A, B, C, D), np.normcurve_pt(C, D, 1, 2, 3, 4, E, F)], epsilon=None)
    s2 = np.normsubpath([np.normline_pt(1, 1, X, Y), np.normline_pt(X, Y, 3, 5), np.normline_pt(3, 5, 1, 1)], epsilon=None)
    s2.closed = 1
    return np.normpath([s1, s2])

def law_normpath_output():
    f, g = newfile(), newfile()
    np2().outputPS(f, None); np2().outputPDF(g, None)
    same(text(f), "%g %g moveto\n%g %g lineto\n1 2 3 4 %g %g curveto\n1 1 moveto\n%g %g lineto\n3 5 lineto\nclosepath\n" % (A, B, C, D, E, F, X, Y), "PS")
    same(text(g), "%f %f m\n%f %f l\n%f %f %f %f %f %f c\n%f %f m\n%f %f l\n%f %f l\nh\n" % (A, B, C, D, 1, 2, 3, 4, E, F, 1, 1, X, Y, 3, 5), "PDF")
    same(np2().returnSVGdata(), "M%g %gL%g %gC1 -2 3 -4 %g %gM1 -1L%g %gL3 -5Z" % (A, -B, C, -D, E, -F, X, -Y), "SVG")
    same(np2().returnSVGdata(inverse_y=False), "M%g %gL%g %gC1 2 3 4 %g %gM1 1L%g %gL3 5Z" % (A, B, C, D, E, F, X, Y), "SVG not inverted")

def law_normpath_path_roundtrip():
    p = np2().path()
    q = p.normpath(epsilon=None)
    f, g = newfile(), newfile()
    np2().outputPDF(f, None); q.outputPDF(g, None)
    # moveto elements of the path are represented by segments which are not written
    h = newfile()
    p.outputPS(h, None)
    k = newfile()
    np2().outputPS(k, None)
    same(text(h), text(k), "path")
    same(text(f), text(g), "normpath")
