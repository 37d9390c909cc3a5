# Laws of operations which exist for lengths and for plain points (C07).
from pyx import unit, path, normpath as np, trafo, bbox, box, canvas, connector, mesh, bitmap, text, metapost, svgfile, style
from pyx.metapost import path as mp

A, B, C, D, E, F = num("a"), num("b"), num("c"), num("d"), num("e"), num("f")

def scales():
    unit.set(uscale=pos("us"), vscale=pos("vs"), wscale=pos("ws"), xscale=pos("xs"))

def pt(x): return unit.topt(x)

# --- path elements and paths: class -> kinds of the arguments (l: length, n: number) ----------------------
CLASSES = [("moveto", "ll"), ("lineto", "ll"), ("curveto", "llllll"), ("rmoveto", "ll"), ("rlineto", "ll"), ("rcurveto", "llllll"),
           ("arc", "lllnn"), ("arcn", "lllnn"), ("arct", "lllll"), ("line", "llll"), ("curve", "llllllll"), ("rect", "llll"), ("circle", "lll")]
NAMES = ["g1", "g2", "g3", "g4", "g5", "g6", "g7", "g8"]

def law_path(k=CLASSES):
    scales()
    name, kinds = k
    args = [num(n) for n, x in zip(NAMES, kinds)]
    o = getattr(path, name)(*args)
    p = getattr(path, name + "_pt")(*[pt(a) if x == "l" else a for a, x in zip(args, kinds)])
    same(struct(o), struct(p), name)
    check(isinstance(o, getattr(path, name + "_pt")), "is a " + name)
    # any kind of length, not just numbers
    args = [num(n)*unit.w_inch if x == "l" else num(n) for n, x in zip(NAMES, kinds)]
    o = getattr(path, name)(*args)
    same(struct(o), struct(getattr(path, name + "_pt")(*[pt(a) if x == "l" else a for a, x in zip(args, kinds)])), name + " lengths")

def law_ellipse():
    scales()
    got = []
    def init(self, *args, **kwargs): got.append(args)
    trust("pyx.path.ellipse_pt.__init__", init)
    path.ellipse(A, B, C, D, E)
    same([seqv(g) for g in got], [(pt(A), pt(B), pt(C), pt(D), E)])

# --- paths: every length variant, the normpath functions being given ---------------------------------------

class stub:
    def __init__(self): self.calls = []
    def call(self, name, args):
        self.calls.append((name,) + tuple(args))
        return tagged("result", name)

METHODS = [("arclen", 0), ("arclentoparam", 1), ("at", 1), ("atbegin", 0), ("atend", 0), ("paramtoarclen", 1), ("rotation", 1), ("split", 1), ("tangent", 2), ("trafo", 1)]

def law_path_methods(k=METHODS):
    """path methods are the ones of the normpath of the same name"""
    name, n = k
    for m in (name, name + "_pt"):
        calls = []
        def record(*args):
            calls.append(args); return tagged("result", m)
        trust("pyx.path.path.normpath", lambda self, *a: fields(**{m: record}))
        p = path.path()
        args = [[num("p1"), num("p3")], num("p2")][:n]
        same(getattr(p, m)(*args), tagged("result", m), m + " result")
        same([seqv(c) for c in calls], [tuple(args)], m + " arguments")

def law_path_curvature():
    calls = []
    def record(self, *args):
        calls.append(args); return tagged("result", 1)
    trust("pyx.path.path.normpath", lambda self, *a: np.normpath([]))
    trust("pyx.normpath.normpath.curvature_pt", record)
    same(path.path().curvature_pt([num("p")]), tagged("result", 1)); same([seqv(c) for c in calls], [([num("p")],)])

def law_path_tangent_default():
    trust("pyx.path.path.normpath", lambda self, *a: np.normpath([]))
    calls = []
    def record(self, *args): calls.append(args)
    trust("pyx.normpath.normpath.tangent", record)
    path.path().tangent([num("p")])
    path.path().tangent([num("p")], length=A)
    same([seqv(c) for c in calls], [([num("p")], 1), ([num("p")], A)])

# --- normpaths -----------------------------------------------------------------------------------------------

def lines():
    return np.normpath([np.normsubpath([np.normline_pt(0, 0, 3, 4), np.normline_pt(3, 4, 3, 14)], epsilon=1e-5), np.normsubpath([np.normline_pt(20, 0, 26, 8), np.normline_pt(26, 8, 26, 6)], epsilon=1e-5)])
def lp(x_pt): return x_pt*unit.t_pt
def param(p): return (p.normsubpathindex, p.normsubpathparam)
def matrix(t): return t.apply_pt(0, 0) + t.apply_pt(1, 0) + t.apply_pt(0, 1)

def law_normpath_arclen():
    scales()
    n = lines()
    same(pt(n.arclen()), n.arclen_pt(), "arclen")
    same([param(p) for p in n.arclentoparam([lp(10), lp(16), lp(2)])], [param(p) for p in n.arclentoparam_pt([10, 16, 2])], "arclentoparam")
    same(param(n.arclentoparam(lp(16))), param(n.arclentoparam_pt(16)), "single arclentoparam")
    ps = n.arclentoparam_pt([10, 16])
    same([pt(l) for l in n.paramtoarclen(ps)], n.paramtoarclen_pt(ps), "paramtoarclen")
    same(pt(n.paramtoarclen(ps[0])), n.paramtoarclen_pt(ps[0]), "single paramtoarclen")
    same(pt(ps[1].arclen()), ps[1].arclen_pt(), "arclen of a parameter")

def law_normpath_points():
    scales()
    n = lines()
    same([(pt(x), pt(y)) for x, y in n.at([lp(10), lp(16)])], [seqv(p) for p in n.at_pt([10, 16])], "at")
    p = n.arclentoparam_pt(16)
    x, y = n.at(p)
    same((pt(x), pt(y)), seqv(n.at_pt(p)), "at a parameter")
    x, y = n.at(lp(12))
    same((pt(x), pt(y)), seqv(n.at_pt(12)), "at a length")
    x, y = n.atbegin()
    same((pt(x), pt(y)), seqv(n.atbegin_pt()), "atbegin")
    x, y = n.atend()
    same((pt(x), pt(y)), seqv(n.atend_pt()), "atend")

def law_normpath_local(m=["rotation", "trafo"]):
    scales()
    n = lines()
    same([matrix(t) for t in getattr(n, m)([lp(10), lp(16)])], [matrix(t) for t in getattr(n, m + "_pt")([10, 16])], m)
    same(matrix(getattr(n, m)(lp(16))), matrix(getattr(n, m + "_pt")(16)), m + " single")

def items(n): return [[seqv(i.atbegin_pt()) + seqv(i.atend_pt()) for i in s.normsubpathitems] for s in n.normsubpaths]

def law_normpath_split():
    scales()
    n = lines()
    same([items(q) for q in n.split([lp(10), lp(16)])], [items(q) for q in n.split_pt([10, 16])], "split")
    same([items(q) for q in n.split(lp(16))], [items(q) for q in n.split_pt(16)], "split at one")

def law_normpath_tangent():
    scales()
    n = lines()
    same([items(t) for t in n.tangent([lp(10), lp(16)], 5*unit.t_pt)], [items(t) for t in n.tangent_pt([10, 16], 5)], "tangent")
    same(items(n.tangent(lp(16), 5*unit.t_pt)), items(n.tangent_pt(16, 5)), "single")
    same(items(n.tangent(lp(16), length=5*unit.t_pt)), items(n.tangent_pt(16, length_pt=5)), "keyword")
    x0, y0 = n.at_pt(16)
    i = n.tangent_pt(16, 5).normsubpaths[0].normsubpathitems[0]
    same(seqv(i.atbegin_pt()) + seqv(i.atend_pt()), (x0, y0, x0 + 3, y0 + 4), "from the point on")

# --- transformations, bounding boxes --------------------------------------------------------------------------

TRAFOS = [("rotate", "n", "ll"), ("scale", "nn", "ll"), ("slant", "nn", "ll"), ("translate", "ll", "")]
def law_trafo(k=[0, 1, 2, 3]):
    scales()
    name, first, centre = TRAFOS[k]
    args = [pos(n) for n, x in zip(NAMES, first)]
    o = getattr(trafo, name)(*args)
    same(matrix(o), matrix(getattr(trafo, name + "_pt")(*[pt(a) if x == "l" else a for a, x in zip(args, first)])), name)
    if centre:
        same(matrix(getattr(trafo, name)(*args, x=A, y=B)), matrix(getattr(trafo, name + "_pt")(*args, x=pt(A), y=pt(B))), name + " around a point")

TMETHODS = [("rotated", "n", "ll"), ("scaled", "nn", "ll"), ("slanted", "nn", "ll"), ("translated", "ll", "")]
def law_trafo_methods(k=[0, 1, 2, 3]):
    scales()
    t = trafo.trafo_pt(((1, 2), (3, 4)), (5, 6))
    name, first, centre = TMETHODS[k]
    args = [pos(n) for n, x in zip(NAMES, first)]
    same(matrix(getattr(t, name)(*args)), matrix(getattr(t, name + "_pt")(*[pt(a) if x == "l" else a for a, x in zip(args, first)])), name)
    if centre: same(matrix(getattr(t, name)(*args, x=A, y=B)), matrix(getattr(t, name + "_pt")(*args, x=pt(A), y=pt(B))), name + " around a point")

def law_trafo_vector():
    scales()
    same(matrix(trafo.trafo(((1, 2), (3, 4)), (A, B))), matrix(trafo.trafo_pt(((1, 2), (3, 4)), (pt(A), pt(B)))), "constructor")
    x, y = trafo.trafo_pt(((1, 2), (3, 4)), (5, 6)).apply(A, B)
    same((pt(x), pt(y)), trafo.trafo_pt(((1, 2), (3, 4)), (5, 6)).apply_pt(pt(A), pt(B)), "apply")

def bb(): return bbox.bbox_pt(1, 2, 5, 7)
def law_bbox():
    scales()
    same(bbox.bbox(A, B, A+1, B+2).highrestuple_pt(), bbox.bbox_pt(pt(A), pt(B), pt(A+1), pt(B+2)).highrestuple_pt(), "constructor")
    same((pt(bb().left()), pt(bb().right()), pt(bb().top()), pt(bb().bottom())), (bb().left_pt(), bb().right_pt(), bb().top_pt(), bb().bottom_pt()), "edges")
    same((pt(bb().width()), pt(bb().height())), (bb().width_pt(), bb().height_pt()), "extent")
    x, y = bb().center()
    same((pt(x), pt(y)), bb().center_pt(), "center")

def law_bbox_enlarge(k=[0, 1]):
    scales()
    kw = [{}, {"left": C, "top": E}][k]
    b, c = bb(), bb()
    b.enlarge(A, **kw); c.enlarge_pt(pt(A), **{k + "_pt": pt(v) for k, v in kw.items()})
    same(b.highrestuple_pt(), c.highrestuple_pt(), "in place")
    same(bb().enlarged(A, **kw).highrestuple_pt(), bb().enlarged_pt(pt(A), **{k + "_pt": pt(v) for k, v in kw.items()}).highrestuple_pt(), "copy")
    b, c = bb(), bb()
    b.enlarge(A, bottom=B, right=D); c.enlarge_pt(pt(A), bottom_pt=pt(B), right_pt=pt(D))
    same(b.highrestuple_pt(), c.highrestuple_pt(), "other edges")

# --- boxes --------------------------------------------------------------------------------------------------------

def law_box_constructors():
    scales()
    same([seqv(c) for c in box.polygon([(A, B), (C, D), (E, F)]).corners], [seqv(c) for c in box.polygon_pt([(pt(A), pt(B)), (pt(C), pt(D)), (pt(E), pt(F))]).corners], "corners")
    same(box.polygon([(A, B), (C, D), (E, F)]).center, box.polygon_pt([(pt(A), pt(B)), (pt(C), pt(D)), (pt(E), pt(F))]).center, "center")
    same(seqv(box.polygon([(A, B), (C, D)], center=(E, F)).center), (pt(E), pt(F)), "given center")
    r = box.rect(A, B, C, D, relcenter=(E, F), abscenter=(1, 2))
    q = box.rect_pt(pt(A), pt(B), pt(C), pt(D), relcenter=(E, F), abscenter_pt=(pt(1), pt(2)))
    same((r.corners, r.center), (q.corners, q.center), "rect")

def pbox(): return box.rect_pt(10, 20, 30, 40, relcenter=(1/2, 1/2))

def law_box_align(k=["circlealign", "linealign"]):
    scales()
    vec = []
    def f(self, *args):
        vec.append(args); return (num("vx"), num("vy"))
    trust("pyx.box.polygon_pt." + k + "vector_pt", f)
    b, c, d = pbox(), pbox(), pbox()
    x, y = getattr(b, k + "vector")(A, C, D)
    same((pt(x), pt(y)), (num("vx"), num("vy")), "vector")
    same([seqv(v) for v in vec], [(pt(A), C, D)], "arguments")
    check(getattr(b, k)(A, C, D) is b, "itself"); check(getattr(c, k + "_pt")(pt(A), C, D) is c, "itself")
    same([seqv(v) for v in vec[1:]], [(pt(A), C, D), (pt(A), C, D)], "arguments of align")
    same((b.corners, b.center), (c.corners, c.center), "moved alike")
    d.transform(trafo.translate_pt(num("vx"), num("vy")))
    same((b.corners, b.center), (d.corners, d.center), "moved by the vector")

def law_box_measures():
    scales()
    trust("pyx.box.polygon_pt.extent_pt", lambda self, *a: uf("ext", *a))
    trust("pyx.box.polygon_pt.pointdistance_pt", lambda self, *a: uf("pd", *a))
    trust("pyx.box.polygon_pt.boxdistance_pt", lambda self, *a: uf("bd"))
    same(pt(pbox().extent(C, D)), uf("ext", C, D), "extent")
    same(pt(pbox().pointdistance(A, B)), uf("pd", pt(A), pt(B)), "pointdistance")
    same(pt(pbox().boxdistance(pbox())), uf("bd"), "boxdistance")

def law_box_groups():
    scales()
    got = []
    def f(*args):
        got.append(args[1:]); return uf("delta", args[1])
    trust("pyx.box.circlealignequal_pt", f); trust("pyx.box.linealignequal_pt", f); trust("pyx.box.tile_pt", f)
    box.circlealignequal([pbox()], A, C, D); box.linealignequal([pbox()], A, C, D)
    same(pt(box.tile([pbox()], A, C, D)), uf("delta", pt(A)), "tile result")
    same([seqv(g) for g in got], [(pt(A), C, D), (pt(A), C, D), (pt(A), C, D)], "arguments")

# --- text, connectors, meshes, metapost, bitmaps ------------------------------------------------------------------

class engine:
    def __init__(self): self.calls = []
    def text(self, *args, **kwargs):
        self.calls.append(("text", args, kwargs)); return canvas.canvas()
    def text_pt(self, *args, **kwargs):
        self.calls.append(("text_pt", args, kwargs)); return canvas.canvas()

def law_canvas_text(k=["text", "text_pt"]):
    e = engine()
    c = canvas.canvas(textengine=e)
    getattr(c, k)(A, B, "expr", unknown("attrs"))
    getattr(c, k)(A, B, "expr", textattrs=unknown("attrs"), singlecharmode=True)
    same([seqv(x[1]) for x in e.calls], [(A, B, "expr", unknown("attrs")), (A, B, "expr")], "arguments")
    same([x[0] for x in e.calls], [k, k], "kind")
    same(e.calls[1][2], {"textattrs": unknown("attrs"), "singlecharmode": True}, "keywords")
    same(len(c.items), 2, "inserted")

def law_text_engines(k=["SingleEngine", "UnicodeEngine"]):
    scales()
    calls = []
    class eng(getattr(text, k)):
        def __init__(self): pass
        def text_pt(self, *args, **kwargs):
            calls.append((args, kwargs)); return tagged("box")
    e = eng()
    same(e.text(A, B, unknown("expr"), textattrs=C), tagged("box"), "result")
    same([seqv(a) for a, kw in calls], [(pt(A), pt(B), unknown("expr"))], "arguments")
    same([kw for a, kw in calls], [{"textattrs": C}], "keywords")

def law_parbox():
    scales()
    same(struct(text.parbox(A)), struct(text.parbox_pt(pt(A))), "width")
    same(struct(text.parbox(A, baseline=text.parbox.middle)), struct(text.parbox_pt(pt(A), text.parbox_pt.middle)), "baseline")

CONN = {"line": {}, "curve": {"relangle1": A, "relangle2": B, "absangle1": C, "absangle2": D, "absbulge": E, "relbulge": F},
        "arc": {"relangle": A, "absbulge": B, "relbulge": C}, "twolines": {"absangle1": A, "absangle2": B, "relangle1": C, "relangle2": D, "relangleM": E, "length1": F, "length2": num("g"), "bezierradius": num("h"), "arcradius": num("i")}}
LENGTHS = ("absbulge", "length1", "length2", "bezierradius", "arcradius")

def law_connectors(k=["line", "curve", "arc", "twolines"]):
    scales()
    got = []
    def f(self, box1, box2, **kw): got.append((box1, box2, kw))
    trustkw("pyx.connector.%s_pt.__init__" % k, f)
    getattr(connector, k)(unknown("box1"), unknown("box2"), boxdists=[num("d1"), num("d2")], **CONN[k])
    same(len(got), 1, "one")
    b1, b2, kw = got[0]
    same((b1, b2), (unknown("box1"), unknown("box2")), "boxes")
    same(seqv(kw["boxdists"]), (pt(num("d1")), pt(num("d2"))), "distances")
    for n, v in CONN[k].items(): same(kw[n], pt(v) if n in LENGTHS else v, n)

CONN0 = ["line", "curve", "arc", "twolines"]
def law_connector_defaults(k=CONN0):
    """leaving out parameters is the same for both"""
    got = []
    def f(self, box1, box2, **kw): got.append(kw)
    scales()
    trustkw("pyx.connector.%s_pt.__init__" % k, f)
    getattr(connector, k)(unknown("box1"), unknown("box2"))
    kw = got[0]
    same(seqv(kw["boxdists"]), (0, 0), "distances")
    for n in LENGTHS:
        if n in kw: check(kw[n] is None or kw[n] == 0, n)

def law_mesh_node():
    scales()
    same(struct(mesh.node((A, B), unknown("v"))), struct(mesh.node_pt([pt(A), pt(B)], unknown("v"))))

def law_metapost():
    scales()
    same(struct(mp.beginknot(A, B, C), "next"), struct(mp.beginknot_pt(pt(A), pt(B), C), "next"), "beginknot")
    same(struct(mp.beginknot(A, B, angle=180), "next"), struct(mp.beginknot_pt(pt(A), pt(B), angle=2*acos0()), "next"), "beginknot angle")
    same(struct(mp.endknot(A, B, C), "next"), struct(mp.endknot_pt(pt(A), pt(B), C), "next"), "endknot")
    same(struct(mp.smoothknot(A, B), "next"), struct(mp.smoothknot_pt(pt(A), pt(B)), "next"), "smoothknot")
    same(struct(mp.roughknot(A, B, C, D), "next"), struct(mp.roughknot_pt(pt(A), pt(B), C, D), "next"), "roughknot")
    same(struct(mp.controlcurve((A, B), (C, D))), struct(mp.controlcurve_pt((pt(A), pt(B)), (pt(C), pt(D)))), "controlcurve")
def acos0():
    from math import acos
    return acos(0)

def law_bitmap():
    scales()
    got = []
    def f(self, **kw): got.append(kw)
    trustkw("pyx.bitmap.bitmap_pt.__init__", f)
    bitmap.bitmap(A, B, unknown("image"), width=C, height=D, ratio=E)
    bitmap.bitmap(A, B, unknown("image"), height=D)
    bitmap.bitmap(A, B, unknown("image"), width=C)
    same([(kw["xpos_pt"], kw["ypos_pt"], kw["image"]) for kw in got], [(pt(A), pt(B), unknown("image"))]*3, "position")
    same([(kw["width_pt"], kw["height_pt"]) for kw in got], [(pt(C), pt(D)), (None, pt(D)), (pt(C), None)], "size")
    same(got[0]["ratio"], E, "ratio")

def law_bitmap_size():
    im = fields(size=(20, 40), info={"dpi": (72, 144)})
    trust("pyx.bitmap.bitmap_trafo.__init__", lambda self, t, image, **kw: setattr(self, "t", t))
    def m(**kw): return matrix(bitmap.bitmap_pt(A, B, im, **kw).t)
    same(m(width_pt=C, height_pt=D), (A, B, A+C, B, A, B+D), "both")
    same(m(width_pt=C), (A, B, A+C, B, A, B+2*C), "width")
    same(m(height_pt=D), (A, B, A+D/2, B, A, B+D), "height")
    same(m(width_pt=C, ratio=4), (A, B, A+C, B, A, B+C/4), "width and ratio")
    same(m(height_pt=D, ratio=4), (A, B, A+4*D, B, A, B+D), "height and ratio")
    same(m(), (A, B, A+20, B, A, B+20), "resolution")
    same(outcome(lambda: m(width_pt=C, height_pt=D, ratio=3)), ("raise", "ValueError"), "all"); same(outcome(lambda: m(ratio=3)), ("raise", "ValueError"), "ratio only")

def law_svgfile():
    scales()
    got = []
    def f(self, **kw): got.append(kw)
    trustkw("pyx.svgfile.svgfile_pt.__init__", f)
    svgfile.svgfile(A, B, "file", width=C, height=D, ratio=E)
    svgfile.svgfile(A, B, "file", height=D)
    svgfile.svgfile(A, B, "file", C, None, E)
    same([(kw["x_pt"], kw["y_pt"], kw["filename"], kw["width_pt"], kw["height_pt"], kw["ratio"]) for kw in got],
         [(pt(A), pt(B), "file", pt(C), pt(D), E), (pt(A), pt(B), "file", None, pt(D), None), (pt(A), pt(B), "file", pt(C), None, E)], "arguments")

def law_linewidth():
    scales()
    same(style._defaultlinewidth_pt, unit.topt(style._defaultlinewidth)/num("ws"), "default")
