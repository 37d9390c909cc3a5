# Laws of bounding boxes (C03).
from pyx import bbox, trafo, unit, path

def box(n):
    """an arbitrary box with ordered corners"""
    x, y, w, h = num(n + "x"), num(n + "y"), pos(n + "w"), pos(n + "h")
    return bbox.bbox_pt(x, y, x + w, y + h)

def corners(b): return (b.llx_pt, b.lly_pt, b.urx_pt, b.ury_pt)
def isempty(b): return b.llx_pt is None

def scales():
    unit.set(uscale=pos("us"), vscale=pos("vs"), wscale=pos("ws"), xscale=pos("xs"))

def join(a, b):
    return (min(a[0], b[0]), min(a[1], b[1]), max(a[2], b[2]), max(a[3], b[3]))

def law_corners():
    same(box("a").highrestuple_pt(), corners(box("a")))
    x, y, u, v = num("x"), num("y"), num("u"), num("v")
    same(bbox.bbox_pt(x, y, u, v).highrestuple_pt(), (x, y, u, v), "pt")
    scales()
    same(bbox.bbox(x, y, u, v).highrestuple_pt(), (unit.topt(x), unit.topt(y), unit.topt(u), unit.topt(v)), "lengths")

def law_union():
    a, b = box("a"), box("b")
    same((a + b).highrestuple_pt(), join(corners(a), corners(b)), "+")
    ca, cb = corners(a), corners(b)
    c = a
    c += b
    same(c.highrestuple_pt(), join(ca, cb), "+=")
    same(corners(b), cb, "+= operand")

def law_union_keeps_operands():
    a, b = box("a"), box("b")
    ca, cb = corners(a), corners(b)
    c = a + b
    same((corners(a), corners(b)), (ca, cb))
    check(disjoint(c, a) and disjoint(c, b), "fresh")
    e = bbox.empty()
    check(disjoint(a + e, a), "fresh with empty")
    check(disjoint(e + a, a), "fresh to empty")

def law_union_neutral():
    a, e = box("a"), bbox.empty()
    same((a + e).highrestuple_pt(), corners(box("a")), "right")
    same((e + a).highrestuple_pt(), corners(box("a")), "left")
    check(isempty(bbox.empty() + bbox.empty()), "both")
    a += e
    same(a.highrestuple_pt(), corners(box("a")), "+= right")
    f = bbox.empty()
    f += a
    same(f.highrestuple_pt(), corners(box("a")), "+= left")
    f += box("b")
    same(a.highrestuple_pt(), corners(box("a")), "+= left fresh")

def inside(b, x, y):
    if isempty(b): return False
    return b.llx_pt <= x and x <= b.urx_pt and b.lly_pt <= y and y <= b.ury_pt

def law_intersection():
    a, b = box("a"), box("b")
    x, y = num("x"), num("y")
    ina, inb = inside(a, x, y), inside(b, x, y)
    same(inside(a*b, x, y), ina and inb, "*")
    same(inside(bbox.empty()*b, x, y), False, "empty *")
    same(inside(a*bbox.empty(), x, y), False, "* empty")
    same(bool(a*b), bool(a.intersects(b)), "empty when disjoint")
    a *= b
    same(inside(a, x, y), ina and inb, "*=")
    c = box("c")
    c *= bbox.empty()
    check(isempty(c), "*= empty")
    d = bbox.empty()
    d *= b
    check(isempty(d), "empty *=")

def law_intersection_corners():
    # of two overlapping boxes
    x, y, p, q, r, s = num("x"), num("y"), pos("p"), pos("q"), pos("r"), pos("s")
    a = bbox.bbox_pt(x, y, x + p + q, y + r + s)
    b = bbox.bbox_pt(x + p, y + r, x + p + q + 1, y + r + s + 2)
    same((a*b).highrestuple_pt(), (x + p, y + r, x + p + q, y + r + s), "ab")
    same((b*a).highrestuple_pt(), (x + p, y + r, x + p + q, y + r + s), "ba")

def law_intersects():
    a, b = box("a"), box("b")
    common = (max(a.llx_pt, b.llx_pt) <= min(a.urx_pt, b.urx_pt)) and (max(a.lly_pt, b.lly_pt) <= min(a.ury_pt, b.ury_pt))
    same(bool(a.intersects(b)), common, "boxes")
    check(not a.intersects(bbox.empty()), "empty")
    check(not bbox.empty().intersects(a), "empty left")

def law_bool():
    check(bool(box("a")), "box")
    check(not bbox.empty(), "empty")
    check(not bbox.empty().copy(), "copy of empty")

def law_includepoint():
    a = box("a")
    x, y = num("x"), num("y")
    c = corners(a)
    a.includepoint_pt(x, y)
    same(a.highrestuple_pt(), join(c, (x, y, x, y)), "box")
    e = bbox.empty()
    e.includepoint_pt(x, y)
    same(e.highrestuple_pt(), (x, y, x, y), "empty")

def law_copy_and_set():
    a, b = box("a"), box("b")
    c = a.copy()
    c += b
    same(a.highrestuple_pt(), corners(box("a")), "copy independent")
    d = bbox.empty()
    d.set(a)
    same(d.highrestuple_pt(), corners(box("a")), "set")
    d += b
    same(a.highrestuple_pt(), corners(box("a")), "set independent")
    d.set(bbox.empty())
    check(isempty(d), "set empty")

def sym(n):
    return trafo.trafo_pt(((num(n + "11"), num(n + "12")), (num(n + "21"), num(n + "22"))), (num(n + "1"), num(n + "2")))

def law_transform(kind=["scale", "rotate", "general"]):
    a = box("a")
    if kind == "scale": t = trafo.trafo_pt(((num("p"), 0), (0, num("q"))), (num("u"), num("v")))
    elif kind == "rotate": t = trafo.trafo_pt(((0, num("p")), (num("q"), 0)), (num("u"), num("v")))
    else: t = sym("t")
    c = corners(a)
    ps = [t.apply_pt(x, y) for x in (c[0], c[2]) for y in (c[1], c[3])]
    xs, ys = [p[0] for p in ps], [p[1] for p in ps]
    expect = (min(xs), min(ys), max(xs), max(ys))
    r = a.transformed(t)
    same(r.highrestuple_pt(), expect, "transformed")
    same(corners(a), c, "operand")
    check(disjoint(r, a), "fresh")
    a.transform(t)
    same(a.highrestuple_pt(), expect, "transform")

def law_transform_empty():
    t = sym("t")
    e = bbox.empty()
    check(isempty(e.transformed(t)), "transformed")
    e.transform(t)
    check(isempty(e), "transform")
    check(isempty(e.enlarged(1)) and isempty(e.enlarged_pt(1)), "enlarged")
    e.enlarge(1); e.enlarge_pt(1)
    check(isempty(e), "enlarge")
    e.enlarge(1, 1, 1, 1, 1); e.enlarge_pt(1, 1, 1, 1, 1)
    check(isempty(e), "enlarge each")
    check(isempty(e.enlarged(1, 1, 1, 1, 1)) and isempty(e.enlarged_pt(1, 1, 1, 1, 1)), "enlarged each")

def law_enlarge():
    scales()
    a = box("a")
    x0, y0, x1, y1 = corners(a)
    g, b, l, t, r = num("g"), num("b"), num("l"), num("t"), num("r")
    G, B, L, TT, R = unit.topt(g), unit.topt(b), unit.topt(l), unit.topt(t), unit.topt(r)
    same(a.enlarged_pt().highrestuple_pt(), (x0, y0, x1, y1), "none pt")
    same(a.enlarged().highrestuple_pt(), (x0, y0, x1, y1), "none")
    same(a.enlarged_pt(g).highrestuple_pt(), (x0-g, y0-g, x1+g, y1+g), "all pt")
    same(a.enlarged(g).highrestuple_pt(), (x0-G, y0-G, x1+G, y1+G), "all")
    same(a.enlarged_pt(g, b, l, t, r).highrestuple_pt(), (x0-l, y0-b, x1+r, y1+t), "each pt")
    same(a.enlarged(g, b, l, t, r).highrestuple_pt(), (x0-L, y0-B, x1+R, y1+TT), "each")
    same(a.enlarged_pt(g, bottom_pt=b).highrestuple_pt(), (x0-g, y0-b, x1+g, y1+g), "bottom pt")
    same(a.enlarged_pt(g, left_pt=l).highrestuple_pt(), (x0-l, y0-g, x1+g, y1+g), "left pt")
    same(a.enlarged_pt(g, top_pt=t).highrestuple_pt(), (x0-g, y0-g, x1+g, y1+t), "top pt")
    same(a.enlarged_pt(g, right_pt=r).highrestuple_pt(), (x0-g, y0-g, x1+r, y1+g), "right pt")
    same(a.enlarged(g, bottom=b).highrestuple_pt(), (x0-G, y0-B, x1+G, y1+G), "bottom")
    same(a.enlarged(g, left=l).highrestuple_pt(), (x0-L, y0-G, x1+G, y1+G), "left")
    same(a.enlarged(g, top=t).highrestuple_pt(), (x0-G, y0-G, x1+G, y1+TT), "top")
    same(a.enlarged(g, right=r).highrestuple_pt(), (x0-G, y0-G, x1+R, y1+G), "right")
    same(a.enlarged(g, bottom=0, left=0, top=0, right=0).highrestuple_pt(), (x0, y0, x1, y1), "zero")
    same(a.enlarged_pt(g, 0, 0, 0, 0).highrestuple_pt(), (x0, y0, x1, y1), "zero pt")
    same(corners(a), (x0, y0, x1, y1), "operand")

def law_enlarge_in_place():
    scales()
    g, b, l, t, r = num("g"), num("b"), num("l"), num("t"), num("r")
    for label, kw in (("all", {}), ("each", dict(bottom=b, left=l, top=t, right=r)), ("bottom", dict(bottom=b)), ("left", dict(left=l)),
                      ("top", dict(top=t)), ("right", dict(right=r)), ("zero", dict(bottom=0, left=0, top=0, right=0))):
        a = box("a")
        n = a.enlarged(g, **kw)
        a.enlarge(g, **kw)
        same(corners(a), corners(n), label)
        c = box("a")
        pkw = {}
        for k in kw: pkw[k + "_pt"] = kw[k]
        n = c.enlarged_pt(g, **pkw)
        c.enlarge_pt(g, **pkw)
        same(corners(c), corners(n), label + " pt")

def law_accessors():
    a = box("a")
    x0, y0, x1, y1 = corners(a)
    same((a.left_pt(), a.bottom_pt(), a.right_pt(), a.top_pt()), (x0, y0, x1, y1), "edges")
    same((a.width_pt(), a.height_pt()), (x1-x0, y1-y0), "extent")
    same(a.center_pt(), ((x0+x1)/2, (y0+y1)/2), "center")
    scales()
    same(tuple(unit.topt(l) for l in (a.left(), a.bottom(), a.right(), a.top())), (x0, y0, x1, y1), "edges as lengths")
    same((unit.topt(a.width()), unit.topt(a.height())), (x1-x0, y1-y0), "extent as lengths")
    same(tuple(unit.topt(l) for l in a.center()), ((x0+x1)/2, (y0+y1)/2), "center as lengths")
    # true lengths
    same((a.left().t*72/0.0254, a.left().u), (x0, 0), "true length")

def law_lowres():
    from math import floor, ceil
    a = box("a")
    x0, y0, x1, y1 = corners(a)
    same(a.lowrestuple_pt(), (floor(x0), floor(y0), ceil(x1), ceil(y1)))

def law_empty_has_no_coordinates(m=["left", "bottom", "right", "top", "width", "height", "center", "left_pt", "bottom_pt", "right_pt", "top_pt",
                                    "width_pt", "height_pt", "center_pt", "lowrestuple_pt", "highrestuple_pt", "rect", "path"]):
    same(outcome(lambda: getattr(bbox.empty(), m)()), ("raise", "ValueError"))

def law_rect():
    a = box("a")
    x0, y0, x1, y1 = corners(a)
    for r in (a.rect(), a.path()):
        b = r.bbox()
        same(b.highrestuple_pt(), (x0, y0, x1, y1), "covers")
        p = [(i.x_pt, i.y_pt) for i in r.pathitems[:-1]]
        check(isinstance(r.pathitems[-1], path.closepath), "closed")
        check((x0, y0) in p, "ll"); check((x1, y0) in p, "lr"); check((x1, y1) in p, "ur"); check((x0, y1) in p, "ul")
        n = r.normpath_pt() if hasattr(r, "normpath_pt") else None
        # consecutive corners share an edge
        for i in range(4):
            q, s = p[i], p[(i+1) % 4]
            check((q[0] == s[0]) != (q[1] == s[1]), "edge")
