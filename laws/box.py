# Laws of boxes: corners, transformation, alignment, extent and distances (C08).
from math import sqrt, hypot
from pyx import box, trafo, unit, bbox, path

X, Y, W, H = num("x"), num("y"), pos("w"), pos("h")
CX, CY = num("cx"), num("cy")
PX = [num("p%d" % i) for i in range(8)]

def scales():
    unit.set(uscale=pos("us"), vscale=pos("vs"), wscale=pos("ws"), xscale=pos("xs"))

def pt(x): return unit.topt(x)

def corners(p): return [seqv(c) for c in p.corners]

def rect(): return box.rect_pt(X, Y, W, H, abscenter_pt=(CX-X, CY-Y))

def triangle(): return box.polygon_pt(corners=[(PX[0], PX[1]), (PX[2], PX[3]), (PX[4], PX[5])], center=(CX, CY))

RECT = [(X, Y), (X+W, Y), (X+W, Y+H), (X, Y+H)]

# --- construction ----------------------------------------------------------------------------------------------
def law_rect():
    r = box.rect_pt(X, Y, W, H)
    same(corners(r), RECT); same(seqv(r.center), (X, Y))
    a, b, c, d = num("ra"), num("rb"), num("rc"), num("rd")
    r = box.rect_pt(X, Y, W, H, relcenter=(a, b), abscenter_pt=(c, d))
    same(corners(r), RECT); same(seqv(r.center), (X + a*W + c, Y + b*H + d))
    same(outcome(lambda: box.rect_pt(X, Y, W, H, corners=RECT)), ("raise", "ValueError"))
    same(outcome(lambda: box.rect_pt(X, Y, W, H, center=(a, b))), ("raise", "ValueError"))

def law_rect_lengths():
    scales()
    a, b, c, d = num("ra"), num("rb"), num("rc"), num("rd")
    r = box.rect(X, Y, W, H, relcenter=(a, b), abscenter=(c, d))
    x, y, w, h = pt(X), pt(Y), pt(W), pt(H)
    same(corners(r), [(x, y), (x+w, y), (x+w, y+h), (x, y+h)])
    same(seqv(r.center), (x + a*w + pt(c), y + b*h + pt(d)))
    r = box.rect(X, Y, W, H)
    same(corners(r), [(x, y), (x+w, y), (x+w, y+h), (x, y+h)])
    same(seqv(r.center), (x, y))

def law_polygon():
    p = box.polygon_pt(corners=[(PX[0], PX[1]), (PX[2], PX[3]), (PX[4], PX[5])])
    same(seqv(p.center), ((PX[0]+PX[2]+PX[4])/3, (PX[1]+PX[3]+PX[5])/3))
    same(corners(p), [(PX[0], PX[1]), (PX[2], PX[3]), (PX[4], PX[5])])
    p = box.polygon_pt(corners=[(PX[0], PX[1]), (PX[2], PX[3]), (PX[4], PX[5]), (PX[6], PX[7])])
    same(seqv(p.center), ((PX[0]+PX[2]+PX[4]+PX[6])/4, (PX[1]+PX[3]+PX[5]+PX[7])/4))
    same(seqv(triangle().center), (CX, CY))

def law_polygon_lengths():
    scales()
    p = box.polygon(corners=[(PX[0], PX[1]), (PX[2], PX[3]), (PX[4], PX[5])], center=(CX, CY))
    same(corners(p), [(pt(PX[0]), pt(PX[1])), (pt(PX[2]), pt(PX[3])), (pt(PX[4]), pt(PX[5]))])
    same(seqv(p.center), (pt(CX), pt(CY)))
    p = box.polygon(corners=[(PX[0], PX[1]), (PX[2], PX[3]), (PX[4], PX[5])])
    same(seqv(p.center), (pt(PX[0]+PX[2]+PX[4])/3, pt(PX[1]+PX[3]+PX[5])/3))

def law_bbox():
    b = rect().bbox()
    same((b.llx_pt, b.lly_pt, b.urx_pt, b.ury_pt), (X, Y, X+W, Y+H))
    b = triangle().bbox()
    same((b.llx_pt, b.lly_pt, b.urx_pt, b.ury_pt), (min(PX[0], PX[2], PX[4]), min(PX[1], PX[3], PX[5]), max(PX[0], PX[2], PX[4]), max(PX[1], PX[3], PX[5])))

def law_path():
    np = rect().path().normpath()
    n = path.path(path.moveto_pt(X, Y), path.lineto_pt(X+W, Y), path.lineto_pt(X+W, Y+H), path.lineto_pt(X, Y+H), path.closepath())
    same(rect().path(), n)
    scales()
    r = pos("r")
    same(rect().path(centerradius=r),
         path.path(path.arc_pt(CX, CY, pt(r), 0, 360), path.closepath(),
                   path.moveto_pt(X, Y), path.lineto_pt(X+W, Y), path.lineto_pt(X+W, Y+H), path.lineto_pt(X, Y+H), path.closepath()))
    same(outcome(lambda: rect().path(bezierradius=r)), ("raise", "ValueError"))
    same(outcome(lambda: rect().path(beziersoftness=r)), ("raise", "ValueError"))

# --- transformation ------------------------------------------------------------------------------------------
def tr(n): return trafo.trafo_pt(((num("m11"+n), num("m12"+n)), (num("m21"+n), num("m22"+n))), (num("v1"+n), num("v2"+n)))

def law_transform():
    r = rect()
    t, u = tr("a"), tr("b")
    r.transform(t, u)
    same(corners(r), [seqv(u.apply_pt(*t.apply_pt(*c))) for c in RECT])
    same(seqv(r.center), seqv(u.apply_pt(*t.apply_pt(CX, CY))))
    r = rect()
    r.transform(t, u, keep_anchor=True)
    same(corners(r), [seqv(u.apply_pt(*t.apply_pt(*c))) for c in RECT])
    same(seqv(r.center), (CX, CY))
    r = rect()
    r.transform()
    same(corners(r), RECT); same(seqv(r.center), (CX, CY))

def law_reltransform():
    r = rect()
    t, u = tr("a"), tr("b")
    r.reltransform(t, u)
    def m(x, y):
        x, y = u.apply_pt(*t.apply_pt(x-CX, y-CY))
        return (x+CX, y+CY)
    same(corners(r), [m(*c) for c in RECT])
    same(seqv(r.center), m(CX, CY))

def law_successive():
    r = rect()
    same([(seqv(p), seqv(q)) for p, q in r.successivepoints()], [(RECT[3], RECT[0]), (RECT[0], RECT[1]), (RECT[1], RECT[2]), (RECT[2], RECT[3])])
    r.transform(trafo.translate_pt(PX[0], PX[1]))
    m = [(x+PX[0], y+PX[1]) for x, y in RECT]
    same([(seqv(p), seqv(q)) for p, q in r.successivepoints()], [(m[3], m[0]), (m[0], m[1]), (m[1], m[2]), (m[2], m[3])], "after translation")

# --- alignment -------------------------------------------------------------------------------------------------
A = pos("a")
DIRS = [(1, 0), (0, 1), (-1, 0), (0, -1), (3, 4), (-4, 3), (-5, -12), (8, -15), (2, 0), (1, 3)]

def least(ps, dx, dy):
    return min(*[x*dx + y*dy for x, y in ps])

POLYGONS = [[(-7, -5), (6, -5), (6, 8), (-7, 8)], [(-9, -4), (8, -7), (1, 9)], [(-6, -6), (3, -8), (9, 0), (2, 7), (-8, 3)]]
CASES = [(p, d) for p in [0, 1, 2] for d in DIRS]

def law_linealign(k=CASES):
    """the line at distance a from the centre in the given direction touches the box, which moves in this direction only"""
    q, d = POLYGONS[k[0]], k[1]
    n = sqrt(d[0]*d[0] + d[1]*d[1])
    dx, dy = d[0]/n, d[1]/n
    l = A + CX*dx + CY*dy - least(q, dx, dy)
    r = box.polygon_pt(corners=q, center=(CX, CY))
    same(seqv(r.linealignvector_pt(A, *d)), (l*dx, l*dy), "vector")
    same(corners(r), q, "not moved"); same(seqv(r.center), (CX, CY), "centre kept")

def law_align_moves(k=["line", "circle"]):
    """the box moves by the vector found, all its corners and its centre alike"""
    r, s = rect(), rect()
    trust("pyx.box.polygon_pt.alignvector_pt", lambda self, *a: (num("vx"), num("vy")))
    t = getattr(r, k + "align_pt")(A, num("ex"), num("ey"))
    check(t is r, "returns itself")
    same(corners(r), [(x+num("vx"), y+num("vy")) for x, y in RECT], "moved")
    same(seqv(r.center), (CX+num("vx"), CY+num("vy")), "centre moved")

def law_linealign_point():
    ex, ey = num("ex"), num("ey")
    for dx, dy in [(1, 0), (0, 1), (-1, 0), (0, -1), (3/5, 4/5), (-5/13, 12/13), (8/17, -15/17)]:
        l = A + (CX-ex)*dx + (CY-ey)*dy
        same(seqv(rect().linealignpointvector_pt(A, dx, dy, ex, ey)), (l*dx, l*dy))

def law_circlealign_point(sign=[1, -1]):
    ex, ey = num("ex"), num("ey")
    assume(A > 1/1000)
    for dx, dy in [(1, 0), (0, 1), (-1, 0), (0, -1), (3/5, 4/5), (-5/13, 12/13), (8/17, -15/17)]:
        v = rect().circlealignpointvector_pt(sign*A, dx, dy, ex, ey)
        off = (ex-CX)*dy - (ey-CY)*dx
        if off*off < A*A: check(v is not None, "reaches the circle")
        if off*off > A*A: check(v is None, "passes the circle")
        if v is not None:
            same(v[0]*dy - v[1]*dx, 0, "direction")
            same(hypot(ex+v[0]-CX, ey+v[1]-CY), A, "on the circle")
            check(sign*((ex+v[0]-CX)*dx + (ey+v[1]-CY)*dy) >= 0, "far side")

CIRCLE = [(p, d) for p in [0, 1, 2] for d in [(1, 0), (0, 1), (-1, 0), (0, -1), (3, 4), (-5, -12)]]

def polydistance(q, x, y):
    """distance of a point from the border of a polygon"""
    def seg(p1, p2):
        gx, gy = p2[0]-p1[0], p2[1]-p1[1]
        t = max(0, min(1, ((x-p1[0])*gx + (y-p1[1])*gy)/(gx*gx + gy*gy)))
        return hypot(x-p1[0]-t*gx, y-p1[1]-t*gy)
    return min(*[seg(q[i-1], q[i]) for i in range(len(q))])

def law_circlealign(k=CIRCLE):
    """the circle of radius a around the centre touches the moved box, which lies in the given direction"""
    q, d = POLYGONS[k[0]], k[1]
    for i in range(len(q)):
        x1, y1, x2, y2 = q[i-1] + q[i]
        assume((x2-x1)*(CY-y1) - (y2-y1)*(CX-x1) > 0)
    n = sqrt(d[0]*d[0] + d[1]*d[1])
    dx, dy = d[0]/n, d[1]/n
    r = box.polygon_pt(corners=q, center=(CX, CY))
    vx, vy = r.circlealignvector_pt(A, *d)
    same(corners(r), q, "not moved"); same(seqv(r.center), (CX, CY), "centre kept")
    same(vx*dy - vy*dx, 0, "moved along the direction")
    same(polydistance(q, CX-vx, CY-vy), A, "touches the circle")
    m = pos("more")
    check(polydistance(q, CX-vx-m*dx, CY-vy-m*dy) >= A, "on the far side")

def law_align_lengths(k=["line", "circle"]):
    scales()
    a, ex, ey = num("la"), num("ex"), num("ey")
    vx, vy = num("vx"), num("vy")
    calls = []
    def vec(self, *args):
        calls.append(seqv(args)); return vx, vy
    trust("pyx.box.polygon_pt.%salignvector_pt" % k, vec)
    r = rect()
    v = getattr(r, k + "alignvector")(a, ex, ey)
    same((pt(v[0]), pt(v[1])), (vx, vy), "vector")
    s = getattr(r, k + "align")(a, ex, ey)
    check(s is r, "returns itself")
    same(corners(r), [(x+vx, y+vy) for x, y in RECT], "moved")
    r = rect()
    s = getattr(r, k + "align_pt")(pt(a), ex, ey)
    check(s is r, "returns itself")
    same(corners(r), [(x+vx, y+vy) for x, y in RECT], "moved")
    same(seqv(r.center), (CX+vx, CY+vy))
    same(calls, [(pt(a), ex, ey)]*3, "arguments")

def rectdistance(px, py, x, y):
    """distance of a point outside the rectangle at x, y"""
    return hypot(max(x-px, 0, px-x-W), max(y-py, 0, py-y-H))

def law_align_equal(k=["line", "circle"]):
    """all boxes move by the same vector, which is the one leading furthest"""
    ex, ey = num("ex"), num("ey")
    v = [(num("v%dx" % i), num("v%dy" % i)) for i in range(3)]
    ps = [box.rect_pt(X+i, Y-i, W, H) for i in range(3)]
    calls = []
    def vec(self, *args):
        calls.append(seqv(args))
        for i in range(3):
            if self is ps[i]: return v[i]
    trust("pyx.box.polygon_pt.%salignvector_pt" % k, vec)
    a = num("la")
    getattr(box, k + "alignequal_pt")(ps, a, ex, ey)
    w = v[0]
    if w[0]*ex + w[1]*ey < v[1][0]*ex + v[1][1]*ey: w = v[1]
    if w[0]*ex + w[1]*ey < v[2][0]*ex + v[2][1]*ey: w = v[2]
    for i in range(3):
        same(seqv(ps[i].corners[0]), (X+i+w[0], Y-i+w[1]), "corner %d" % i)
        same(seqv(ps[i].corners[2]), (X+i+W+w[0], Y-i+H+w[1]), "corner %d" % i)
        same(seqv(ps[i].center), (X+i+w[0], Y-i+w[1]), "center %d" % i)
    same(calls, [(a, ex, ey)]*3, "arguments")

def law_align_equal_lengths(k=["line", "circle"]):
    scales()
    calls = []
    trust("pyx.box.%salignequal_pt" % k, lambda ps, *args: calls.append((ps, seqv(args))))
    ps = [rect()]
    a, ex, ey = num("la"), num("ex"), num("ey")
    getattr(box, k + "alignequal")(ps, a, ex, ey)
    same(len(calls), 1)
    check(calls[0][0] is ps)
    same(calls[0][1], (pt(a), ex, ey))

# --- extent and tiling -----------------------------------------------------------------------------------------
def most(ps, dx, dy):
    return max(*[x*dx + y*dy for x, y in ps])

def law_extent(d=DIRS):
    n = sqrt(d[0]*d[0] + d[1]*d[1])
    r = rect()
    same(r.extent_pt(*d), (most(RECT, *d) - least(RECT, *d))/n)
    same(seqv(r.center), (CX, CY), "centre kept"); same(corners(r), RECT, "corners kept")
    r.transform(trafo.translate_pt(PX[0], PX[1]))
    same(r.extent_pt(*d), (most(RECT, *d) - least(RECT, *d))/n, "after translation")

def law_extent_lengths():
    scales()
    e = num("e")
    calls = []
    def ext(self, *args):
        calls.append(seqv(args)); return e
    trust("pyx.box.polygon_pt.extent_pt", ext)
    ex, ey = num("ex"), num("ey")
    same(pt(rect().extent(ex, ey)), e)
    same(calls, [(ex, ey)])

def law_tile():
    """tiled boxes are a plus the largest extent apart"""
    e = [pos("e0"), pos("e1"), pos("e2")]
    ps = [box.rect_pt(X+i, Y-i, W, H) for i in range(3)]
    def ext(self, *args):
        same(seqv(args), (num("ex"), num("ey")), "direction")
        for i in range(3):
            if self is ps[i]: return e[i]
    trust("pyx.box.polygon_pt.extent_pt", ext)
    a, ex, ey = num("la"), num("ex"), num("ey")
    d = box.tile_pt(ps, a, ex, ey)
    same(d, a + max(e[0], e[1], e[2]))
    for i in range(3):
        same(seqv(ps[i].corners[1]), (X+i+W + i*d*ex, Y-i + i*d*ey), "box %d" % i)
        same(seqv(ps[i].center), (X+i + i*d*ex, Y-i + i*d*ey), "center %d" % i)

def law_tile_lengths():
    scales()
    calls = []
    def tile(ps, *args):
        calls.append((ps, seqv(args))); return num("r")
    trust("pyx.box.tile_pt", tile)
    ps = [rect()]
    a, ex, ey = num("la"), num("ex"), num("ey")
    same(pt(box.tile(ps, a, ex, ey)), num("r"))
    same(len(calls), 1); check(calls[0][0] is ps); same(calls[0][1], (pt(a), ex, ey))

# --- distances ---------------------------------------------------------------------------------------------------
def law_pointdistance():
    px, py = num("px"), num("py")
    r = rect()
    out = rectdistance(px, py, X, Y)
    ins = min(px-X, X+W-px, py-Y, Y+H-py)
    same(r.pointdistance_pt(px, py), out if out > 0 else ins)

def law_pointdistance_triangle():
    px, py = num("px"), num("py")
    def seg(x1, y1, x2, y2):
        l = (x2-x1)*(x2-x1) + (y2-y1)*(y2-y1)
        if l == 0: return hypot(px-x1, py-y1)
        t = ((px-x1)*(x2-x1) + (py-y1)*(y2-y1))/l
        t = max(0, min(1, t))
        return hypot(px-x1-t*(x2-x1), py-y1-t*(y2-y1))
    same(triangle().pointdistance_pt(px, py), min(seg(*PX[0:4]), seg(*PX[2:6]), seg(PX[4], PX[5], PX[0], PX[1])))

def law_distance_lengths():
    scales()
    calls = []
    def dist(self, *args):
        calls.append(seqv(args)); return num("r")
    trust("pyx.box.polygon_pt.pointdistance_pt", dist)
    trust("pyx.box.polygon_pt.boxdistance_pt", dist)
    px, py = num("px"), num("py")
    same(pt(rect().pointdistance(px, py)), num("r"))
    o = rect()
    same(pt(rect().boxdistance(o)), num("r"))
    same(calls[0], (pt(px), pt(py)))
    same(len(calls), 2); check(calls[1][0] is o)

def law_boxdistance_apart():
    """rectangles without a common point"""
    r, o = rect(), box.rect_pt(num("x2"), num("y2"), pos("w2"), pos("h2"))
    x, y, w, h = num("x2"), num("y2"), num("w2"), num("h2")
    gx, gy = max(x-X-W, X-x-w), max(y-Y-H, Y-y-h)
    gap = 1e-4*(W + H + w + h)
    assume(W > 1e-3); assume(H > 1e-3); assume(w > 1e-3); assume(h > 1e-3)
    if gx > gap or gy > gap:
        same(r.boxdistance_pt(o), hypot(max(gx, 0), max(gy, 0)))

def law_boxdistance_crossing():
    r, o = rect(), box.rect_pt(num("x2"), num("y2"), pos("w2"), pos("h2"))
    x, y, w, h = num("x2"), num("y2"), num("w2"), num("h2")
    # a corner of one inside the other, and no corner the other way round
    assume(X < x); assume(x < X+W); assume(Y < y); assume(y < Y+H)
    assume(x+w > X+W)
    same(outcome(lambda: r.boxdistance_pt(o)), ("raise", "BoxCrossError"))
    same(outcome(lambda: o.boxdistance_pt(r)), ("raise", "BoxCrossError"))

def law_boxdistance_enclosing():
    r, o = rect(), box.rect_pt(num("x2"), num("y2"), pos("w2"), pos("h2"))
    x, y, w, h = num("x2"), num("y2"), num("w2"), num("h2")
    assume(X < x); assume(x+w < X+W); assume(Y < y); assume(y+h < Y+H)
    d = min(x-X, y-Y, X+W-x-w, Y+H-y-h)
    assume(d > 0.001)
    same(r.boxdistance_pt(o), d); same(o.boxdistance_pt(r), d)
