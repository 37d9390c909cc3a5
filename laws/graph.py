# Laws of graph coordinates (C09).
from math import sqrt, hypot, sin, cos, pi
from pyx import graph, unit, path, trafo, bbox, canvas
from pyx.graph import axis, graph as gg
from pyx.graph.axis import positioner

W, H, X0, Y0 = pos("w"), pos("h"), num("x0"), num("y0")
VX, VY, VZ, UX, UY, UZ = num("vx"), num("vy"), num("vz"), num("ux"), num("uy"), num("uz")

def scales():
    unit.set(uscale=pos("us"), vscale=pos("vs"), wscale=pos("ws"), xscale=pos("xs"))

def pt(x): return unit.topt(x)

def makexy(flipped=False, **kw):
    return graph.graphxy(xpos=X0, ypos=Y0, width=W, height=H, flipped=flipped, **kw)

FLIP = [False, True]

def place(fl, vx, vy):
    if fl: vx, vy = vy, vx
    return pt(X0) + vx*pt(W), pt(Y0) + vy*pt(H)

def law_vpos(fl=FLIP):
    scales()
    g = makexy(fl)
    same(seqv(g.vpos_pt(VX, VY)), place(fl, VX, VY))
    x, y = g.vpos(VX, VY)
    same((pt(x), pt(y)), place(fl, VX, VY))

def law_init_sizes():
    scales()
    r = pos("r")
    g = graph.graphxy(width=W, ratio=r)
    same((pt(g.width), pt(g.height)), (pt(W), pt(W)/r)); same((g.width_pt, g.height_pt), (pt(W), pt(W)/r), "points")
    g = graph.graphxy(height=H, ratio=r)
    same((pt(g.width), pt(g.height)), (pt(H)*r, pt(H))); same((g.width_pt, g.height_pt), (pt(H)*r, pt(H)), "points")
    same(outcome(lambda: graph.graphxy()), ("raise", "ValueError"))
    g = graph.graphxy(xpos=X0, ypos=Y0, width=W, height=H, ratio=r)
    same((g.xpos_pt, g.ypos_pt, g.width_pt, g.height_pt), (pt(X0), pt(Y0), pt(W), pt(H)))
    g = graph.graphxy(width=W)
    same(g.width_pt, g.height_pt*(sqrt(5)+1)/2, "golden mean")

def conv(self, x): return uf("convert", self.errorname, x)

def law_pos(fl=FLIP):
    scales()
    trust("pyx.graph.axis.axis.anchoredaxis.convert", conv)
    g = makexy(fl)
    x, y = num("x"), num("y")
    p = place(fl, conv(g.axes["x"], x), conv(g.axes["y"], y))
    same(seqv(g.pos_pt(x, y)), p, "points")
    q = g.pos(x, y)
    same((pt(q[0]), pt(q[1])), p, "lengths")
    p = place(fl, conv(g.axes["x2"], x), conv(g.axes["y2"], y))
    same(seqv(g.pos_pt(x, y, xaxis=g.axes["x2"], yaxis=g.axes["y2"])), p, "points, given axes")
    q = g.pos(x, y, xaxis=g.axes["x2"], yaxis=g.axes["y2"])
    same((pt(q[0]), pt(q[1])), p, "lengths, given axes")
    p = place(fl, conv(g.axes["x"], x), conv(g.axes["y2"], y))
    same(seqv(g.pos_pt(x, y, yaxis=g.axes["y2"])), p, "points, given y axis")
    q = g.pos(x, y, yaxis=g.axes["y2"])
    same((pt(q[0]), pt(q[1])), p, "lengths, given y axis")

def law_geodesic(fl=FLIP):
    scales()
    g = makexy(fl)
    a, b = place(fl, VX, VY), place(fl, UX, UY)
    same(struct(g.vgeodesic(VX, VY, UX, UY)), struct(path.line_pt(*(a + b))))
    same(struct(g.vgeodesic_el(VX, VY, UX, UY)), struct(path.lineto_pt(*b)))

def law_cap(fl=FLIP):
    scales()
    g = makexy(fl)
    l = num("l")
    x, y = place(fl, VX, VY)
    hor, ver = struct(path.line_pt(x-l/2, y, x+l/2, y)), struct(path.line_pt(x, y-l/2, x, y+l/2))
    same(struct(g.vcap_pt(0, l, VX, VY)), ver if fl else hor)
    same(struct(g.vcap_pt(1, l, VX, VY)), hor if fl else ver)
    same(outcome(lambda: g.vcap_pt(2, l, VX, VY)), ("raise", "ValueError"))

def law_flat():
    g = makexy()
    same(g.vzindex(VX, VY), 0)
    check(g.vangle(VX, VY, UX, UY, num("wx"), num("wy")) > 0)

def ends(p):
    return [seqv(i) for i in (p.atbegin_pt(), p.atend_pt())]

def anchors(g, ext=True):
    """positions all axes, which are not painted"""
    def create(self, *args): return fields(extent_pt=uf("extent", self), layers={}, items=[])
    trust("pyx.graph.axis.axis._regularaxis._create", lambda self, data, positioner, *a: fields(extent_pt=uf("extent", positioner.x1_pt, positioner.y1_pt), layers={}, items=[]))
    trust("pyx.graph.axis.axis._axis.createlinked", lambda self, data, positioner, *a: fields(extent_pt=uf("extent", positioner.x1_pt, positioner.y1_pt), layers={}, items=[]))

AXES = [(n, f) for n in ("x", "x2", "y", "y2") for f in FLIP]

def linecoords(p):
    """end points of a straight path of two items"""
    i = p.pathitems
    same(len(i), 2, "two items")
    return (i[0].x_pt, i[0].y_pt), (i[1].x_pt, i[1].y_pt)

def law_axis_position(k=AXES):
    """ticks, base line and grid lines of an axis pass through the places of its values"""
    n, fl = k
    scales()
    g = makexy(fl)
    anchors(g)
    g.doaxispositioner(n)
    a = g.axes[n]
    v, w = num("v"), num("w")
    # the other coordinate is the one of the border of the graph at which the axis is placed
    second = len(n) > 1
    if fl and n[0] == "x" or fl and n[0] == "y": pass
    def at(v, other): return place(fl, v, other) if n[0] == "x" else place(fl, other, v)
    border = 1 if second else 0
    if fl and n[0] == "x": border = 1 - border
    same(seqv(a.vtickpoint_pt(v)), at(v, border), "tick")
    p = a.vtickpoint(v)
    same((pt(p[0]), pt(p[1])), at(v, border), "tick as length")
    same(linecoords(a.vbasepath(v, w)), (at(v, border), at(w, border)), "base line")
    same(linecoords(a.vbasepath(v)), (at(v, border), at(1, border)), "base line from")
    same(linecoords(a.vbasepath(v2=w)), (at(0, border), at(w, border)), "base line to")
    same(linecoords(a.vbasepath()), (at(0, border), at(1, border)), "whole base line")
    p, q = linecoords(a.vgridpath(v))
    check((p == at(v, 0) and q == at(v, 1)) or (p == at(v, 1) and q == at(v, 0)), "grid line")
    dx, dy = a.vtickdirection(v)
    same(dx*dx + dy*dy, 1, "unit tick direction")
    c, t = at(v, 1/2), at(v, border)
    m = (c[0]-t[0])*dx + (c[1]-t[1])*dy
    check(m > 0, "ticks point inside"); same((c[0]-t[0])*dy - (c[1]-t[1])*dx, 0, "ticks orthogonal")

def law_axis_methods(k=AXES):
    """positions for axis values are the ones for the relative coordinate the value is converted to"""
    n, fl = k
    scales()
    g = makexy(fl)
    anchors(g)
    trust("pyx.graph.axis.axis.linear.convert", lambda self, data, x: uf("conv", x))
    a = g.axes[n]
    x, y = num("x"), num("y")
    cx, cy = uf("conv", x), uf("conv", y)
    same(seqv(a.tickpoint_pt(x)), seqv(a.vtickpoint_pt(cx)))
    p = a.tickpoint(x)
    same((pt(p[0]), pt(p[1])), seqv(a.vtickpoint_pt(cx)), "tickpoint")
    same(seqv(a.tickdirection(x)), seqv(a.vtickdirection(cx)))
    same(struct(a.gridpath(x)), struct(a.vgridpath(cx)), "gridpath")
    same(struct(a.basepath()), struct(a.vbasepath()), "basepath")
    same(struct(a.basepath(x)), struct(a.vbasepath(cx)), "basepath from")
    same(struct(a.basepath(x2=y)), struct(a.vbasepath(v2=cy)), "basepath to")
    same(struct(a.basepath(x, y)), struct(a.vbasepath(cx, cy)), "basepath part")
    same(a.convert(x), cx)

HELPERS = ["basepath", "vbasepath", "gridpath", "tickpoint_pt", "tickpoint", "vtickpoint_pt", "vtickpoint", "tickdirection", "vtickdirection"]
CLASSHELPERS = [(c, n, h) for c in ("xy", "xyz") for n in "xyz"[:len(c)] for h in HELPERS]

class proj:
    def __init__(self, sx=1, sy=1): self.sx = sx; self.sy = sy
    def point(self, x, y, z): return uf("px", x, y, z), uf("py", x, y, z)
    def zindex(self, x, y, z): return self.sx*x + self.sy*y
    def angle(self, *c): return uf("angle", *c)

def makexyz(sx=1, sy=1, **kw):
    return graph.graphxyz(xpos=X0, ypos=Y0, size=W, xscale=pos("xs3"), yscale=pos("ys3"), zscale=pos("zs3"), projector=proj(sx, sy), **kw)

def law_helpers(k=CLASSHELPERS):
    """the helper of an axis at the graph is the method of this axis"""
    c, n, h = k
    g = makexy() if c == "xy" else makexyz()
    trust("pyx.graph.axis.axis.anchoredaxis." + h, lambda self, *a: tagged(h, self.errorname, seqv(a)))
    v = num("v")
    if not (c == "xyz" and n in "xy" and h == "vtickdirection"):
        same(getattr(g, n + h)(v), tagged(h, n, (v,)))

OUTER = [(n, f) for n in ("x3", "x4", "y3", "y4", "x5", "y6") for f in FLIP]
def law_outer_axis(k=OUTER):
    """further axes are placed outside of the previous axis on their side, at the distance asked for"""
    n, fl = k
    scales()
    d = pos("d")
    prev = n[0] + {"3": "", "4": "2", "5": "3", "6": "4"}[n[1]]
    kw = {n: axis.linear()}
    if n[1] in "56": kw[prev] = axis.linear()
    g = graph.graphxy(xpos=X0, ypos=Y0, width=W, height=H, flipped=fl, axesdist=d, **kw)
    anchors(g)
    g.doaxispositioner(n)
    a, b = g.axes[n], g.axes[prev]
    dx, dy = b.vtickdirection(0)
    same(seqv(a.vtickdirection(0)), seqv(b.vtickdirection(0)), "tick direction")
    v = num("v")
    x, y = b.vtickpoint_pt(v)
    e = b.canvas.extent_pt + pt(d)
    same(seqv(a.vtickpoint_pt(v)), (x-dx*e, y-dy*e), "outside of the previous axis")
    same(linecoords(a.vgridpath(v)), linecoords(b.vgridpath(v)), "grid")

def law_axisat(n=["x", "y"]):
    """an axis at a value of the other axis is translated onto it"""
    scales()
    g = makexy()
    anchors(g)
    g.doaxispositioner(n)
    a = g.axes[n]
    c = canvas.canvas()
    inner = canvas.canvas()
    c.layer("ticks").insert(inner)
    a.canvas = c
    a.canvas.extent_pt = 0
    v = num("v")
    g.axisatv(a, v)
    l = a.canvas.layers["ticks"]
    same(len(l.items), 1)
    t = l.items[0].trafo
    w = num("w")
    p = t.apply_pt(*a.vtickpoint_pt(w))
    same(seqv(p), place(False, w, v) if n == "x" else place(False, v, w))

def law_axesat():
    """xaxisat and yaxisat are values of the other axis"""
    scales()
    trust("pyx.graph.axis.axis.linear.convert", lambda self, data, x: uf("conv", self.min, x))
    got = []
    trust("pyx.graph.graph.graphxy.axisatv", lambda self, a, v: got.append((a, v)))
    g = graph.graphxy(width=W, height=H, xaxisat=num("xat"), yaxisat=num("yat"), x=axis.linear(min=1, max=2), y=axis.linear(min=3, max=5))
    anchors(g)
    g.dolayout()
    same(len(got), 2)
    check(got[0][0] is g.axes["x"] and got[1][0] is g.axes["y"])
    same(got[0][1], uf("conv", 3, num("xat"))); same(got[1][1], uf("conv", 1, num("yat")))
    check("x2" not in g.axes and "y2" not in g.axes)

def law_oneat(k=["x", "y"]):
    scales()
    trust("pyx.graph.axis.axis.linear.convert", lambda self, data, x: uf("conv", self.min, x))
    got = []
    trust("pyx.graph.graph.graphxy.axisatv", lambda self, a, v: got.append((a, v)))
    g = graph.graphxy(width=W, height=H, x=axis.linear(min=1, max=2), y=axis.linear(min=3, max=5), **{k + "axisat": num("at")})
    anchors(g)
    g.dolayout()
    same(len(got), 1)
    check(got[0][0] is g.axes[k])
    same(got[0][1], uf("conv", 3 if k == "x" else 1, num("at")))
    check((k + "2") not in g.axes); check({"x": "y2", "y": "x2"}[k] in g.axes)

AXARGS = [(c, n) for c in ("xy", "xyz") for n in "xyz"[:len(c)]]
def law_axis_arguments(k=AXARGS):
    """arguments starting with the axis name are arguments of this axis"""
    c, n = k
    make = makexy if c == "xy" else makexyz
    g = make(**{n: axis.linear(reverse=1, min=3), n + "_min": num("mi"), n + "_title": "T"})
    a = g.axes[n].axis
    same(a.min, num("mi")); same(a.title, "T"); same(a.reverse, 1)
    g = make(**{n + "_min": num("mi"), n + "_title": "T"})
    a = g.axes[n].axis
    same(a.min, num("mi"), "default axis"); same(a.title, "T", "default axis")
    if n != "z":
        g = make(**{n + "2_painter": tagged("painter", 1)})
        same(g.axes[n + "2"].painter, tagged("painter", 1), "linked axis")
        check(g.axes[n + "2"].linkedto is g.axes[n], "linked axis")

def law_default_axes(c=["xy", "xyz"]):
    """missing axes are linear ones, opposite axes are linked to the given one"""
    make = makexy if c == "xy" else makexyz
    for n in "xy":
        g = make()
        check(isclass(g.axes[n].axis, axis.linear)); check(g.axes[n + "2"].linkedto is g.axes[n])
        g = make(**{n: axis.log()})
        check(isclass(g.axes[n].axis, axis.log)); check(g.axes[n + "2"].linkedto is g.axes[n])
        g = make(**{n + "2": axis.log()})
        check(isclass(g.axes[n + "2"].axis, axis.log)); check(g.axes[n].linkedto is g.axes[n + "2"])
        g = make(**{n: axis.log(), n + "2": axis.linear()})
        check(isclass(g.axes[n].axis, axis.log)); check(isclass(g.axes[n + "2"].axis, axis.linear))
        g = make(**{n + "2": None})
        check((n + "2") not in g.axes); check(isclass(g.axes[n].axis, axis.linear))
    same(outcome(lambda: make(q=axis.linear())), ("raise", "ValueError"))
    same(outcome(lambda: make(x1=axis.linear())), ("raise", "ValueError"))
    same(outcome(lambda: make(xx=axis.linear())), ("raise", "ValueError"))

def law_keygraph(fl=FLIP):
    """a key graph is placed beyond the outermost axis on the right side"""
    scales()
    d = pos("d")
    n = "x" if fl else "y"
    names = ["", "3"] if fl else ["2", "4"]
    for k in (1, 2):
        kw = {n + names[1]: axis.linear()} if k == 2 else {}
        g = graph.graphxy(xpos=X0, ypos=Y0, width=W, height=H, flipped=fl, axesdist=d, **kw)
        anchors(g)
        p = g.autokeygraphtrafo(None).apply_pt(0, 0)
        a = g.axes[n + names[k-1]]
        same(seqv(p), (a.vtickpoint_pt(0)[0] + a.canvas.extent_pt + pt(d), pt(Y0)), "axes %d" % k)
        same(g.autokeygraphattrs()["direction"], "vertical"); same(pt(g.autokeygraphattrs()["length"]), pt(H))
    if not fl:
        g = graph.graphxy(xpos=X0, ypos=Y0, width=W, height=H, axesdist=d, y2=None)
        same(seqv(g.autokeygraphtrafo(None).apply_pt(0, 0)), (pt(X0) + pt(W) + pt(d), pt(Y0)), "no axis")

def law_background():
    scales()
    got = []
    trust("pyx.canvas.canvas.draw", lambda self, p, attrs: got.append((self, p, attrs)))
    g = makexy(backgroundattrs=[tagged("attr", 1)])
    g.dobackground(); g.dobackground()
    same(len(got), 1, "once")
    check(got[0][0] is g.layer("background")); same(got[0][1], path.rect_pt(pt(X0), pt(Y0), pt(W), pt(H))); same(got[0][2], [tagged("attr", 1)])

# --- keys -----------------------------------------------------------------------------------------------------
class keystub:
    def __init__(self, hpos, vpos, hdist, vdist, hin, vin):
        self.hpos = hpos; self.vpos = vpos; self.hdist = hdist; self.vdist = vdist; self.hinside = hin; self.vinside = vin
    def paint(self, items):
        c = canvas.canvas()
        c.fill(path.rect_pt(num("kx"), num("ky"), pos("kw"), pos("kh")))
        return c

KEYS = [(g, h, v, hi, vi) for g in ("xy", "xyz") for h in (0, 1/2, 1) for v in (0, 1) for hi in (0, 1) for vi in (0, 1)]
def law_key(k=KEYS):
    """inside, the key is placed between the borders; outside, beyond them"""
    gk, h, v, hi, vi = k
    scales()
    hd, vd = num("hd"), num("vd")
    trust("pyx.canvas.canvas.bbox", lambda self: bbox.bbox_pt(num("kx"), num("ky"), num("kx")+pos("kw"), num("ky")+pos("kh")))
    key = keystub(h, v, hd, vd, hi, vi)
    g = makexy(key=key) if gk == "xy" else makexyz(key=key)
    g.dokey()
    item = g.layers["key"].items[0] if gk == "xy" else g.items[-1]
    x, y = item.trafo.apply_pt(num("kx"), num("ky"))
    width, height = (pt(W), pt(H)) if gk == "xy" else (pt(W), pt(W))
    def low(p, size, key, at, dist, inside):
        if inside: return p + dist + at*(size - key - 2*dist)
        if at == 0: return p - dist - key
        if at == 1: return p + size + dist
        return p + (size-key)/2
    same(x, low(pt(X0), width, pos("kw"), h, pt(hd), hi), "horizontal")
    same(y, low(pt(Y0), height, pos("kh"), v, pt(vd), vi), "vertical")

# --- one dimension ---------------------------------------------------------------------------------------------
ONE = ["vertical", "horizontal"]
def makex(d):
    return graph.graphx(xpos=X0, ypos=Y0, length=W, size=H, direction=d)

def oneplace(d, vx):
    if d == "horizontal": return pt(X0) + vx*pt(W), pt(Y0) + pt(H)/2
    return pt(X0) + pt(H)/2, pt(Y0) + vx*pt(W)

def law_one(d=ONE):
    scales()
    trust("pyx.graph.axis.axis.anchoredaxis.convert", lambda self, x: conv(self, x) if self.errorname == "x" else x)
    g = makex(d)
    x = num("x")
    c = conv(g.axes["x"], x)
    same(seqv(g.vpos_pt(VX)), oneplace(d, VX), "vpos_pt")
    p = g.vpos(VX); same((pt(p[0]), pt(p[1])), oneplace(d, VX), "vpos")
    same(seqv(g.pos_pt(x)), oneplace(d, c), "pos_pt")
    p = g.pos(x); same((pt(p[0]), pt(p[1])), oneplace(d, c), "pos")
    same(linecoords(g.vgeodesic(VX, UX)), (oneplace(d, VX), oneplace(d, UX)), "geodesic")
    l = num("l")
    p = oneplace(d, VX)
    e = (0, l/2) if d == "vertical" else (l/2, 0)
    same(linecoords(g.vcap_pt(0, l, VX)), ((p[0]-e[0], p[1]-e[1]), (p[0]+e[0], p[1]+e[1])), "cap")

def law_one_errors():
    same(outcome(lambda: graph.graphx(length=W, y=axis.linear())), ("raise", "ValueError"))
    same(outcome(lambda: graph.graphx(length=W, direction="diagonal")), ("raise", "ValueError"))

# --- three dimensions ----------------------------------------------------------------------------------------
def place3(vx, vy, vz):
    x, y, z = 2*pos("xs3")*(vx-1/2), 2*pos("ys3")*(vy-1/2), 2*pos("zs3")*(vz-1/2)
    return pt(X0) + uf("px", x, y, z)*pt(W), pt(Y0) + uf("py", x, y, z)*pt(W)

def law_vpos3():
    scales()
    g = makexyz()
    same(seqv(g.vpos_pt(VX, VY, VZ)), place3(VX, VY, VZ))
    p = g.vpos(VX, VY, VZ); same((pt(p[0]), pt(p[1])), place3(VX, VY, VZ))

def law_pos3():
    scales()
    trust("pyx.graph.axis.axis.anchoredaxis.convert", conv)
    g = makexyz()
    x, y, z = num("x"), num("y"), num("z")
    c = [conv(g.axes[n], v) for n, v in zip("xyz", (x, y, z))]
    same(seqv(g.pos_pt(x, y, z)), place3(*c))
    p = g.pos(x, y, z); same((pt(p[0]), pt(p[1])), place3(*c), "pos")
    a = g.axes
    c = [conv(a["x2"], x), conv(a["y2"], y), conv(a["x"], z)]
    same(seqv(g.pos_pt(x, y, z, xaxis=a["x2"], yaxis=a["y2"], zaxis=a["x"])), place3(*c), "given axes")
    p = g.pos(x, y, z, xaxis=a["x2"], yaxis=a["y2"], zaxis=a["x"]); same((pt(p[0]), pt(p[1])), place3(*c), "pos, given axes")

def law_geodesic3():
    scales()
    g = makexyz()
    same(linecoords(g.vgeodesic(VX, VY, VZ, UX, UY, UZ)), (place3(VX, VY, VZ), place3(UX, UY, UZ)))
    same(struct(g.vgeodesic_el(VX, VY, VZ, UX, UY, UZ)), struct(path.lineto_pt(*place3(UX, UY, UZ))))

def law_cap3(c=[0, 1, 2]):
    scales()
    g = makexyz()
    l = num("l")
    e = [0, 0, 0]; e[c] = l/2/pt(W)
    same(linecoords(g.vcap_pt(c, l, VX, VY, VZ)), (place3(VX-e[0], VY-e[1], VZ-e[2]), place3(VX+e[0], VY+e[1], VZ+e[2])))
    same(outcome(lambda: g.vcap_pt(3, l, VX, VY, VZ)), ("raise", "ValueError"))

def law_gridpaths3():
    scales()
    g = makexyz()
    def frame(*ps): return struct(path.path(path.moveto_pt(*ps[0]), *([path.lineto_pt(*p) for p in ps[1:]] + [path.closepath()])))
    c = [(0, 0), (1, 0), (1, 1), (0, 1)]
    same(struct(g.xvgridpath(VX)), frame(*[place3(VX, a, b) for a, b in c]))
    same(struct(g.yvgridpath(VY)), frame(*[place3(a, VY, b) for a, b in c]))
    same(struct(g.zvgridpath(VZ)), frame(*[place3(a, b, VZ) for a, b in c]))

def law_direction3():
    scales()
    g = makexyz()
    a, b = place3(VX, VY, VZ), place3(UX, UY, UZ)
    d = hypot(b[0]-a[0], b[1]-a[1])
    same(seqv(g.vtickdirection(VX, VY, VZ, UX, UY, UZ)), ((b[0]-a[0])/d, (b[1]-a[1])/d))

AXES3 = [(n, sx, sy) for n in ("x", "x2", "x3", "x4", "y", "y2", "y3", "y4", "z", "z2", "z3", "z4") for sx in (1, -1) for sy in (1, -1)]
ZPLACES = {"z": (0, 0), "z2": (1, 0), "z3": (0, 1), "z4": (1, 1)}

def law_axis3(k=AXES3):
    """ticks and base line of an axis are at the edge of the graph the axis belongs to; grid planes and visibility are those of the edge"""
    n, sx, sy = k
    scales()
    kw = {n: axis.linear()} if n not in ("x", "y", "z", "x2", "y2") else {}
    g = makexyz(sx, sy, **kw)
    anchors(g)
    g.doaxispositioner(n)
    a = g.axes[n]
    v, w = num("v"), num("w")
    d = "xyz".index(n[0])
    number = int(n[1:] or "1")
    # the nearer one of the two edges gets the first axis
    if d == 2: edge = ZPLACES[n]
    else:
        s = (sy if d == 0 else sx)
        near = 1 if s < 0 else 0
        edge = (near if number % 2 else 1-near, 0 if number < 3 else 1)
    def at(v, e):
        return place3(v, *e) if d == 0 else place3(e[0], v, e[1]) if d == 1 else place3(e[0], e[1], v)
    same(seqv(a.vtickpoint_pt(v)), at(v, edge), "tick")
    same(linecoords(a.vbasepath(v, w)), (at(v, edge), at(w, edge)), "base line")
    same(linecoords(a.vbasepath()), (at(0, edge), at(1, edge)), "whole base line")
    same(struct(a.vgridpath(v)), struct([g.xvgridpath, g.yvgridpath, g.zvgridpath][d](v)), "grid")
    p = at(v, edge)
    q = at(v, (1-edge[0], edge[1]) if d != 2 else (1-edge[0], 1-edge[1]))
    l = hypot(q[0]-p[0], q[1]-p[1])
    same(seqv(a.vtickdirection(v)), ((q[0]-p[0])/l, (q[1]-p[1])/l), "tick direction")
    planes = {0: (("y", edge[0]), ("z", edge[1])), 1: (("x", edge[0]), ("z", edge[1])), 2: (("x", edge[0]), ("y", edge[1]))}[d]
    show = [getattr(g, "p%s%dshow" % pl) for pl in planes]
    check(a.hidden == (not (show[0] or show[1])), "visible with one of its planes")

def law_order3(k=[(1, 1), (1, -1), (-1, 1), (-1, -1)]):
    g = makexyz(*k)
    same((g.xorder, g.yorder), (1 if k[1] < 0 else 0, 1 if k[0] < 0 else 0))

def angles():
    return num("phi"), num("theta")

def dot(a, b): return a[0]*b[0] + a[1]*b[1] + a[2]*b[2]

def law_projectors():
    phi, theta = angles()
    D = pos("dist")
    for p in (gg.graphxyz.central(D, phi, theta), gg.graphxyz.parallel(phi, theta)):
        same((dot(p.a, p.a), dot(p.b, p.b), dot(p.a, p.b)), (1, 1, 0), "orthonormal")
        f, t = phi*pi/180, theta*pi/180
        e = (cos(f)*cos(t), sin(f)*cos(t), sin(t))
        same((dot(p.a, e), dot(p.b, e)), (0, 0), "orthogonal to the line of sight")
        same(p.a[2], 0, "horizontal image axis")
        # right-handed with the direction to the viewer
        same((p.a[1]*p.b[2]-p.a[2]*p.b[1], p.a[2]*p.b[0]-p.a[0]*p.b[2], p.a[0]*p.b[1]-p.a[1]*p.b[0]), e, "right-handed")
    p = gg.graphxyz.central(D, phi, theta)
    same(seqv(p.eye), (D*e[0], D*e[1], D*e[2]))
    q = gg.graphxyz.parallel(phi, theta)
    same(seqv(q.c), (-e[0], -e[1], -e[2]))
    p, q = gg.graphxyz.central(D, phi, theta, anglefactor=1), gg.graphxyz.parallel(phi, theta, anglefactor=1)
    e = (cos(phi)*cos(theta), sin(phi)*cos(theta), sin(theta))
    same(seqv(p.eye), (D*e[0], D*e[1], D*e[2]), "radians"); same(seqv(q.c), (-e[0], -e[1], -e[2]), "radians")

def law_parallel():
    phi, theta = angles()
    q = gg.graphxyz.parallel(phi, theta)
    r = (num("x"), num("y"), num("z"))
    same(seqv(q.point(*r)), (dot(q.a, r), dot(q.b, r)))
    same(q.zindex(*r), dot(q.c, r))

def law_central():
    """a point, its image in the image plane and the eye are on a line"""
    phi, theta = angles()
    D = pos("dist")
    p = gg.graphxyz.central(D, phi, theta)
    r = (num("x"), num("y"), num("z"))
    u, v = p.point(*r)
    i = [u*p.a[k] + v*p.b[k] - p.eye[k] for k in range(3)]
    j = [r[k] - p.eye[k] for k in range(3)]
    same((i[1]*j[2]-i[2]*j[1], i[2]*j[0]-i[0]*j[2], i[0]*j[1]-i[1]*j[0]), (0, 0, 0), "on a line")
    same(p.zindex(*r), sqrt(dot(j, j)) - D)

def law_angle(k=["central", "parallel"]):
    """cosine of the angle between a plane and the line of sight"""
    phi, theta = angles()
    p = gg.graphxyz.central(pos("dist"), phi, theta) if k == "central" else gg.graphxyz.parallel(phi, theta)
    c = [num("c%d" % i) for i in range(9)]
    a = [c[3+i]-c[i] for i in range(3)]; b = [c[6+i]-c[i] for i in range(3)]
    n = (a[1]*b[2]-a[2]*b[1], a[2]*b[0]-a[0]*b[2], a[0]*b[1]-a[1]*b[0])
    assume(dot(n, n) > 0)
    s = [c[i]-p.eye[i] for i in range(3)] if k == "central" else p.c
    same(p.angle(*c), dot(s, n)/sqrt(dot(n, n))/(sqrt(dot(s, s)) if k == "central" else 1))

def law_visibility():
    """a border plane is in front of the data if and only if the viewer is on its outer side"""
    phi, theta = num("phi"), num("theta")
    g = graph.graphxyz(size=W, xscale=pos("xs3"), yscale=pos("ys3"), zscale=pos("zs3"), projector=gg.graphxyz.parallel(phi, theta))
    c = g.projector.c
    for i, n in enumerate("xyz"):
        check(getattr(g, "p%s0show" % n) == (c[i] > 0), n + "0"); check(getattr(g, "p%s1show" % n) == (c[i] < 0), n + "1")

def law_vangle3():
    g = makexyz()
    c = [num("c%d" % i) for i in range(9)]
    s = [pos("xs3"), pos("ys3"), pos("zs3")]*3
    same(g.vangle(*c), uf("angle", *[2*f*(v-1/2) for f, v in zip(s, c)]))

def law_keygraph3():
    scales()
    d = pos("d")
    g = makexyz(axesdist=d)
    trust("pyx.graph.graph.graphxyz.doaxes", lambda self: None)
    trust("pyx.canvas.canvas.bbox", lambda self: bbox.bbox_pt(num("llx"), num("lly"), num("urx"), num("ury")))
    same(seqv(g.autokeygraphtrafo(None).apply_pt(0, 0)), (num("urx") + pt(d), (num("lly") + num("ury") - pt(W))/2))
    same(g.autokeygraphattrs()["direction"], "vertical"); same(pt(g.autokeygraphattrs()["length"]), pt(W))

def law_vzindex3():
    g = makexyz(num("zx"), num("zy")) if False else makexyz(1, 1)
    s = (pos("xs3"), pos("ys3"), pos("zs3"))
    same(g.vzindex(VX, VY, VZ), (2*s[0]*(VX-1/2) + 2*s[1]*(VY-1/2))/sqrt(dot(s, s)))

# --- positioners -----------------------------------------------------------------------------------------------
def law_pathpositioner():
    scales()
    p = path.line_pt(num("a"), num("b"), num("c"), num("d"))
    for dirn in (1, -1):
        q = positioner.pathpositioner(p, dirn)
        l = hypot(num("c")-num("a"), num("d")-num("b"))
        assume(l > 1)
        v, w = zeroone("v"), zeroone("w")
        def at(v): return (num("a") + v*(num("c")-num("a")), num("b") + v*(num("d")-num("b")))
        same(seqv(q.vtickpoint_pt(v)), at(v), "tick")
        same(seqv(q.vtickdirection(v)), (-dirn*(num("d")-num("b"))/l, dirn*(num("c")-num("a"))/l), "direction")
    check(q.vbasepath() is p)

def law_pathpositioner_base():
    """the base line between two positions is the part of the path between these arc lengths"""
    p = path.line_pt(num("a"), num("b"), num("c"), num("d"))
    q = positioner.pathpositioner(p)
    v, w = zeroone("v"), zeroone("w")
    got = []
    def split(self, params):
        got.append(seqv(params))
        return [tagged("part", i) for i in range(len(params)+1)]
    def toparam(self, l):
        return [uf("param", unit.topt(x)) for x in l] if not isinstance(l, unit.length) else uf("param", unit.topt(l))
    trust("pyx.normpath.normpath.split", lambda self, params: split(self, params if isinstance(params, list) or isinstance(params, tuple) else [params]))
    trust("pyx.normpath.normpath.arclentoparam", toparam)
    a = q.arclen_pt
    same(q.vbasepath(v), tagged("part", 1)); same(q.vbasepath(v2=w), tagged("part", 0)); same(q.vbasepath(v, w), tagged("part", 1))
    same(got, [(uf("param", v*a),), (uf("param", w*a),), (uf("param", v*a), uf("param", w*a))])

def law_linepositioner():
    a, b, c, d = num("a"), num("b"), num("c"), num("d")
    q = positioner.lineaxispos_pt(a, b, c, d, (num("tx"), num("ty")), lambda v: tagged("grid", v))
    v, w = num("v"), num("w")
    def at(v): return (a + v*(c-a), b + v*(d-b))
    same(seqv(q.vtickpoint_pt(v)), at(v)); same(seqv(q.vtickdirection(v)), (num("tx"), num("ty")))
    same(linecoords(q.vbasepath(v, w)), (at(v), at(w))); same(linecoords(q.vbasepath(v)), (at(v), (c, d)))
    same(linecoords(q.vbasepath(v2=w)), ((a, b), at(w))); same(linecoords(q.vbasepath()), ((a, b), (c, d)))
    same(q.vgridpath(v), tagged("grid", v))
