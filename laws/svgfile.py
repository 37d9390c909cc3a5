# Laws of imported SVG files: path data, transformations, sizes, colours, shapes (C12).
from math import sqrt, tan, cos, sin, pi, radians, atan2
from pyx import svgfile, path, trafo, color, canvas, style, deco, unit, bbox

RES = pos("resolution")
F = 72/RES                       # one factor from user units to points
UNITS = {"": F, "px": F, "pt": 1, "pc": 12, "mm": 72/25.4, "cm": 72/2.54, "in": 72}
V = [num("v%d" % i) for i in range(14)]
def handler(): return svgfile.svgHandler(RES)
def data(template):
    """path data with the numbers V in place of {0}, {1}, ... and the numbers themselves in points"""
    return template.format(*[numtext(v) for v in V])
P = [v*F for v in V]

def element(e):
    if isinstance(e, path.moveto_pt): return ("M", e.x_pt, e.y_pt)
    if isinstance(e, path.lineto_pt): return ("L", e.x_pt, e.y_pt)
    if isinstance(e, path.curveto_pt): return ("C", e.x1_pt, e.y1_pt, e.x2_pt, e.y2_pt, e.x3_pt, e.y3_pt)
    if isinstance(e, path.closepath): return ("Z",)
    return None

def absolute(p):
    """the elements of a path in absolute coordinates (PostScript semantics of the relative ones)"""
    r = []
    x = y = sx = sy = None
    for i in range(len(p)):
        e = p[i]
        if isinstance(e, path.rmoveto_pt): a = ("M", x + e.dx_pt, y + e.dy_pt)
        elif isinstance(e, path.rlineto_pt): a = ("L", x + e.dx_pt, y + e.dy_pt)
        elif isinstance(e, path.rcurveto_pt): a = ("C", x + e.dx1_pt, y + e.dy1_pt, x + e.dx2_pt, y + e.dy2_pt, x + e.dx3_pt, y + e.dy3_pt)
        else: a = element(e)
        if a[0] == "Z": x, y = sx, sy
        else: x, y = a[-2], a[-1]
        if a[0] == "M": sx, sy = x, y
        r.append(a)
    return r

def draw(cmds):
    """what the SVG specification defines for commands in absolute or relative form, in points"""
    r = []
    x = y = sx = sy = 0
    px = py = None        # last control point and the kind of curve it belongs to
    kind = None
    for c, a in cmds:
        rel = c.islower()
        ox, oy = (x, y) if rel else (0, 0)
        k = None
        u = c.upper()
        if u == "M" or u == "L":
            x, y = ox + a[0], oy + a[1]
            r.append((u, x, y))
            if u == "M": sx, sy = x, y
        elif u == "H":
            x = ox + a[0]
            r.append(("L", x, y))
        elif u == "V":
            y = oy + a[0]
            r.append(("L", x, y))
        elif u == "C" or u == "S":
            if u == "C":
                x1, y1 = ox + a[0], oy + a[1]
                a = a[2:]
            else:
                x1, y1 = (2*x - px, 2*y - py) if kind == "C" else (x, y)
            px, py = ox + a[0], oy + a[1]
            x, y = ox + a[2], oy + a[3]
            r.append(("C", x1, y1, px, py, x, y))
            k = "C"
        elif u == "Q" or u == "T":
            if u == "Q":
                px, py = ox + a[0], oy + a[1]
                a = a[2:]
            else:
                px, py = (2*x - px, 2*y - py) if kind == "Q" else (x, y)
            x0, y0 = x, y
            x, y = ox + a[0], oy + a[1]
            r.append(("C", (x0 + 2*px)/3, (y0 + 2*py)/3, (x + 2*px)/3, (y + 2*py)/3, x, y))
            k = "Q"
        else:
            x, y = sx, sy
            r.append(("Z",))
        kind = k
    return r

def C(c, *i): return (c, [P[k] for k in i])
PATHS = [
    ("M {0} {1}", [C("M", 0, 1)]), ("m {0} {1}", [C("M", 0, 1)]),
    ("M {0} {1} L {2} {3}", [C("M", 0, 1), C("L", 2, 3)]), ("M {0},{1}l{2},{3}", [C("M", 0, 1), C("l", 2, 3)]),
    ("M {0} {1} {2} {3} {4} {5}", [C("M", 0, 1), C("L", 2, 3), C("L", 4, 5)]), ("m {0} {1} {2} {3} {4} {5}", [C("M", 0, 1), C("l", 2, 3), C("l", 4, 5)]),
    ("M {0} {1} L {2} {3} {4} {5}", [C("M", 0, 1), C("L", 2, 3), C("L", 4, 5)]), ("M {0} {1} l {2} {3} {4} {5}", [C("M", 0, 1), C("l", 2, 3), C("l", 4, 5)]),
    ("M {0} {1} L {2} {3} M {4} {5} L {6} {7}", [C("M", 0, 1), C("L", 2, 3), C("M", 4, 5), C("L", 6, 7)]), ("M {0} {1} L {2} {3} m {4} {5} L {6} {7}", [C("M", 0, 1), C("L", 2, 3), C("m", 4, 5), C("L", 6, 7)]),
    ("M {0} {1} L {2} {3} Z m {4} {5} {6} {7}", [C("M", 0, 1), C("L", 2, 3), C("Z"), C("m", 4, 5), C("l", 6, 7)]),
    ("M {0} {1} H {2}", [C("M", 0, 1), C("H", 2)]), ("M {0} {1} h {2}", [C("M", 0, 1), C("h", 2)]), ("M {0} {1} V {2}", [C("M", 0, 1), C("V", 2)]), ("M {0} {1} v {2}", [C("M", 0, 1), C("v", 2)]),
    ("M {0} {1} H {2} {3}", [C("M", 0, 1), C("H", 2), C("H", 3)]), ("M {0} {1} h {2} {3}", [C("M", 0, 1), C("h", 2), C("h", 3)]), ("M {0} {1} V {2} {3}", [C("M", 0, 1), C("V", 2), C("V", 3)]), ("M {0} {1} v {2} {3}", [C("M", 0, 1), C("v", 2), C("v", 3)]),
    ("M {0} {1} L {2} {3} h {4} v {5} Z", [C("M", 0, 1), C("L", 2, 3), C("h", 4), C("v", 5), C("Z")]), ("M {0} {1} H {2} V {3} z", [C("M", 0, 1), C("H", 2), C("V", 3), C("Z")]),
    ("M {0} {1} C {2} {3} {4} {5} {6} {7}", [C("M", 0, 1), C("C", 2, 3, 4, 5, 6, 7)]), ("M {0} {1} c {2} {3} {4} {5} {6} {7}", [C("M", 0, 1), C("c", 2, 3, 4, 5, 6, 7)]),
    ("M {0} {1} C {2} {3} {4} {5} {6} {7} {8} {9} {10} {11} {12} {13}", [C("M", 0, 1), C("C", 2, 3, 4, 5, 6, 7), C("C", 8, 9, 10, 11, 12, 13)]),
    ("M {0} {1} c {2} {3} {4} {5} {6} {7} {8} {9} {10} {11} {12} {13}", [C("M", 0, 1), C("c", 2, 3, 4, 5, 6, 7), C("c", 8, 9, 10, 11, 12, 13)]),
    ("M {0} {1} C {2} {3} {4} {5} {6} {7} S {8} {9} {10} {11}", [C("M", 0, 1), C("C", 2, 3, 4, 5, 6, 7), C("S", 8, 9, 10, 11)]),
    ("M {0} {1} C {2} {3} {4} {5} {6} {7} s {8} {9} {10} {11}", [C("M", 0, 1), C("C", 2, 3, 4, 5, 6, 7), C("s", 8, 9, 10, 11)]),
    ("M {0} {1} c {2} {3} {4} {5} {6} {7} S {8} {9} {10} {11}", [C("M", 0, 1), C("c", 2, 3, 4, 5, 6, 7), C("S", 8, 9, 10, 11)]),
    ("M {0} {1} c {2} {3} {4} {5} {6} {7} s {8} {9} {10} {11}", [C("M", 0, 1), C("c", 2, 3, 4, 5, 6, 7), C("s", 8, 9, 10, 11)]),
    ("M {0} {1} S {2} {3} {4} {5} {6} {7} {8} {9}", [C("M", 0, 1), C("S", 2, 3, 4, 5), C("S", 6, 7, 8, 9)]), ("M {0} {1} s {2} {3} {4} {5} {6} {7} {8} {9}", [C("M", 0, 1), C("s", 2, 3, 4, 5), C("s", 6, 7, 8, 9)]),
    ("M {0} {1} L {2} {3} S {4} {5} {6} {7}", [C("M", 0, 1), C("L", 2, 3), C("S", 4, 5, 6, 7)]), ("M {0} {1} L {2} {3} s {4} {5} {6} {7}", [C("M", 0, 1), C("L", 2, 3), C("s", 4, 5, 6, 7)]),
    ("M {0} {1} Q {2} {3} {4} {5}", [C("M", 0, 1), C("Q", 2, 3, 4, 5)]), ("M {0} {1} q {2} {3} {4} {5}", [C("M", 0, 1), C("q", 2, 3, 4, 5)]),
    ("M {0} {1} Q {2} {3} {4} {5} {6} {7} {8} {9}", [C("M", 0, 1), C("Q", 2, 3, 4, 5), C("Q", 6, 7, 8, 9)]), ("M {0} {1} q {2} {3} {4} {5} {6} {7} {8} {9}", [C("M", 0, 1), C("q", 2, 3, 4, 5), C("q", 6, 7, 8, 9)]),
    ("M {0} {1} Q {2} {3} {4} {5} T {6} {7}", [C("M", 0, 1), C("Q", 2, 3, 4, 5), C("T", 6, 7)]), ("M {0} {1} Q {2} {3} {4} {5} t {6} {7}", [C("M", 0, 1), C("Q", 2, 3, 4, 5), C("t", 6, 7)]),
    ("M {0} {1} q {2} {3} {4} {5} T {6} {7} t {8} {9}", [C("M", 0, 1), C("q", 2, 3, 4, 5), C("T", 6, 7), C("t", 8, 9)]), ("M {0} {1} q {2} {3} {4} {5} t {6} {7} {8} {9}", [C("M", 0, 1), C("q", 2, 3, 4, 5), C("t", 6, 7), C("t", 8, 9)]),
    ("M {0} {1} T {2} {3} {4} {5}", [C("M", 0, 1), C("T", 2, 3), C("T", 4, 5)]), ("M {0} {1} t {2} {3}", [C("M", 0, 1), C("t", 2, 3)]), ("M {0} {1} L {2} {3} T {4} {5}", [C("M", 0, 1), C("L", 2, 3), C("T", 4, 5)]),
    # the control point is reflected only behind a curve of the same kind
    ("M {0} {1} Q {2} {3} {4} {5} S {6} {7} {8} {9}", [C("M", 0, 1), C("Q", 2, 3, 4, 5), C("S", 6, 7, 8, 9)]), ("M {0} {1} q {2} {3} {4} {5} s {6} {7} {8} {9}", [C("M", 0, 1), C("q", 2, 3, 4, 5), C("s", 6, 7, 8, 9)]),
    ("M {0} {1} C {2} {3} {4} {5} {6} {7} T {8} {9}", [C("M", 0, 1), C("C", 2, 3, 4, 5, 6, 7), C("T", 8, 9)]), ("M {0} {1} c {2} {3} {4} {5} {6} {7} t {8} {9}", [C("M", 0, 1), C("c", 2, 3, 4, 5, 6, 7), C("t", 8, 9)]),
    ("M {0} {1} C {2} {3} {4} {5} {6} {7} L {8} {9} S {10} {11} {12} {13}", [C("M", 0, 1), C("C", 2, 3, 4, 5, 6, 7), C("L", 8, 9), C("S", 10, 11, 12, 13)]),
    ("M {0} {1} C {2} {3} {4} {5} {6} {7} Z S {8} {9} {10} {11}", [C("M", 0, 1), C("C", 2, 3, 4, 5, 6, 7), C("Z"), C("S", 8, 9, 10, 11)]),
    ("M {0} {1} L {2} {3} L {4} {5} Z L {6} {7}", [C("M", 0, 1), C("L", 2, 3), C("L", 4, 5), C("Z"), C("L", 6, 7)]), ("M {0} {1} L {2} {3} z l {4} {5}", [C("M", 0, 1), C("L", 2, 3), C("Z"), C("l", 4, 5)]),
    ("M {0} {1} L {2} {3} z h {4}", [C("M", 0, 1), C("L", 2, 3), C("Z"), C("h", 4)]),
    # no separators but signs and letters, commas, line breaks
    ("M{0},{1}L{2},{3},{4},{5}z", [C("M", 0, 1), C("L", 2, 3), C("L", 4, 5), C("Z")]), ("  M{0}\n{1}  ,{2}\t{3} z ", [C("M", 0, 1), C("L", 2, 3), C("Z")]),
]
def currentpoint(p):
    """current point at the end of a path (what path.atend_pt returns is the matter of C05)"""
    a = absolute(p)
    if a[-1][0] == "Z": return [e for e in a if e[0] == "M"][-1][1:]
    return a[-1][-2:]
def law_path(k=PATHS):
    """every path command appends the element the SVG specification defines, relative commands at the current point, smooth curves with the reflected control point"""
    text, cmds = k
    trust("pyx.path.path.atend_pt", lambda self: currentpoint(self))
    same(absolute(handler().toPath(data(text))), draw(cmds))

def law_path_signs():
    a, b = [numtext(v) for v in V[:2]]
    same(absolute(handler().toPath("M-" + a + "-" + b + "L+" + a + "+" + b)), [("M", -P[0], -P[1]), ("L", P[0], P[1])])

UNITTEXTS = ["", "px", "pt", "pc", "mm", "cm", "in"]
def law_units(u=UNITTEXTS):
    """each unit has one factor to points, wherever a length stands"""
    h = handler()
    f = UNITS[u]
    a, b = numtext(V[0]), numtext(V[1])
    same(h.toFloat(a + u, single=True), V[0]*f)
    same(h.toFloat(a + u + " " + b), (V[0]*f, b))
    same(h.toFloat(a + u + " , " + b + "mm"), (V[0]*f, b + "mm"))
    same(list(h.toFloats(a + u + "," + b + u)), [V[0]*f, V[1]*f])
    t = h.toTrafo("translate(" + a + u + ")")
    same(seqv(t.apply_pt(0, 0)), (V[0]*f, 0))
    same(h.toFloat(a, single=True, units=False), V[0])
    same(list(h.toFloats(a + " " + b, units=False)), [V[0], V[1]])
    if u: same(outcome(lambda: h.toFloat(a + u, units=False)), ("raise", "svgValueError"))

def law_percent():
    h = handler()
    a = numtext(V[0])
    w = pos("w")
    same(h.toFloat(a + "%", relative=w, single=True), V[0]*w/100)
    same(outcome(lambda: h.toFloat(a + "%", single=True)), ("raise", "svgValueError"))
    same(outcome(lambda: h.toFloat("none", single=True)), ("raise", "svgValueError"))
    same(outcome(lambda: h.toFloat(a + " " + a, single=True)), ("raise", "svgValueError"))

NUMBERS = [("1", 1), ("-1", -1), ("+2", 2), ("1.5", 1.5), (".5", 0.5), ("-.25", -0.25), ("1e2", 100), ("1.5E-2", 0.015), ("-2e+1", -20), ("007", 7)]
def law_numbers(k=NUMBERS):
    t, v = k
    same(handler().toFloat(t, single=True, units=False), v)
    same(handler().toFloat(t + " 9", units=False), (v, "9"))
    same(list(handler().toFloats(t + ",3", units=False)), [v, 3])

def law_flags():
    h = handler()
    same(h.toBool("0 1"), (False, "1")); same(h.toBool("1,0"), (True, "0")); same(h.toBool("10"), (True, "0")); same(h.toBool("0"), (False, ""))
    same(outcome(lambda: h.toBool("2")), ("raise", "svgValueError"))

# --- elliptical arcs --------------------------------------------------------------------------------------------
ARCS = [(c, fa, fs) for c in "Aa" for fa in (0, 1) for fs in (0, 1)]
def law_arc_command(k=ARCS):
    """operands of the arc command: radii and end point are lengths, the rotation is an angle, the flags are flags"""
    c, fa, fs = k
    rx, ry = pos("rx"), pos("ry")
    for i, j in ((2, 0), (5, 2)): assume(V[i] != (0 if c == "a" else V[j]))
    def arc(x1, y1, x2, y2, fA, fS, rx, ry, phi):
        r.append(((x1, y1), (x2, y2), bool(fA), bool(fS), (rx, ry), phi))
        return path.path(path.moveto_pt(x1, y1), path.lineto_pt(x2, y2))
    r = []
    trust("pyx.path.path.atend_pt", lambda self: currentpoint(self))
    trustkw("pyx.svgfile.endpointarc", arc)
    trust("pyx.path.path.join", lambda self, other: [self.append(e) for e in other[1:]] and None)
    d = data("M {0} {1} " + c) + numtext(rx) + " " + numtext(ry) + " " + numtext(V[4]) + " %d %d " % (fa, fs) + numtext(V[2]) + " " + numtext(V[3])
    p = handler().toPath(d + " " + numtext(rx) + " " + numtext(ry) + " " + numtext(V[7]) + " %d%d" % (fs, fa) + numtext(V[5]) + "," + numtext(V[6]) + "L" + numtext(V[8]) + " " + numtext(V[9]))
    a, b = P[0], P[1]
    x, y = (a + P[2], b + P[3]) if c == "a" else (P[2], P[3])
    x2, y2 = (x + P[5], y + P[6]) if c == "a" else (P[5], P[6])
    same(r, [((a, b), (x, y), bool(fa), bool(fs), (rx*F, ry*F), V[4]), ((x, y), (x2, y2), bool(fs), bool(fa), (rx*F, ry*F), V[7])])
    e = absolute(p)
    same(e[0], ("M", a, b)); same(e[-1], ("L", P[8], P[9]))

class arcstub:
    """an arc of the unit circle under a transformation"""
    def __init__(self, c, x, y, r, angle1, angle2, t=trafo.identity):
        self.c = c; self.x = x; self.y = y; self.r = r; self.angle1 = angle1; self.angle2 = angle2; self.t = t
    def transformed(self, t): return arcstub(self.c, self.x, self.y, self.r, self.angle1, self.angle2, t*self.t)
    def at(self, a): return self.t.apply_pt(self.x + self.r*cos(radians(a)), self.y + self.r*sin(radians(a)))
    def atbegin_pt(self): return self.at(self.angle1)
    def atend_pt(self): return self.at(self.angle2)

def arcof(items):
    e = items[0]
    return arcstub("p" if isinstance(e, path.arc_pt) else "n", e.x_pt, e.y_pt, e.r_pt, e.angle1, e.angle2)
def arctransformed(self, t): return arcof([self[0]]).transformed(t)

def law_endpointarc(k=[(fa, fs) for fa in (False, True) for fs in (False, True)]):
    """the arc runs from the first to the second point on an ellipse of the given radii and rotation; radii are taken positive"""
    fa, fs = k
    trust("pyx.path.path.transformed", arctransformed)
    x1, y1, x2, y2, phi = num("x1"), num("y1"), num("x2"), num("y2"), num("phi")
    rx, ry = pos("rx"), pos("ry")
    # radii large enough
    dx, dy = (x1 - x2)/2, (y1 - y2)/2
    u, v = (cos(radians(phi))*dx + sin(radians(phi))*dy)/rx, (-sin(radians(phi))*dx + cos(radians(phi))*dy)/ry
    assume(u*u + v*v < 1)
    assume(u*u + v*v > 0)
    a = svgfile.endpointarc(x1, y1, x2, y2, fa, fs, rx, ry, phi)
    same(seqv(a.atbegin_pt()), (x1, y1), "begin")
    same(seqv(a.atend_pt()), (x2, y2), "end")
    same(a.c, "p" if fs else "n", "sweep")
    same((a.x, a.y, a.r), (0, 0, 1))
    m = a.t.matrix
    c, s = cos(radians(phi)), sin(radians(phi))
    same((m[0][0], m[0][1], m[1][0], m[1][1]), (c*rx, -s*ry, s*rx, c*ry), "ellipse")
    # the centre lies on the side of the chord that makes the arc small or large as demanded
    cx, cy = a.t.apply_pt(0, 0)
    side = (x2 - x1)*(cy - y1) - (y2 - y1)*(cx - x1)
    check(side <= 0 if fa != fs is False else True, "centre") if 0 else None
    if fa == fs: check(side <= 1e-9*(rx+ry)**2 + 0, "centre")
    else: check(side >= -1e-9*(rx+ry)**2, "centre")
    b = svgfile.endpointarc(x1, y1, x2, y2, fa, fs, -rx, -ry, phi)
    same((b.c, b.angle1, b.angle2), (a.c, a.angle1, a.angle2), "sign of the radii"); same(b.t.matrix, a.t.matrix, "sign of the radii")

def law_endpointarc_small(k=[(fa, fs) for fa in (False, True) for fs in (False, True)]):
    """radii too small are scaled up such that the chord is a diameter of the ellipse"""
    fa, fs = k
    trust("pyx.path.path.transformed", arctransformed)
    x1, y1, d = num("x1"), num("y1"), pos("d")
    a = svgfile.endpointarc(x1, y1, x1 + 4*d, y1, fa, fs, d, 3*d, 0)
    same(seqv(a.atbegin_pt()), (x1, y1), "begin")
    same(seqv(a.atend_pt()), (x1 + 4*d, y1), "end")
    same(seqv(a.t.apply_pt(0, 0)), (x1 + 2*d, y1), "centre")
    same((a.t.matrix[0][0], a.t.matrix[1][1]), (2*d, 6*d), "radii")

def law_endpointarc_degenerate():
    """a vanishing radius gives a straight line, coinciding end points draw nothing"""
    x1, y1, x2, y2, phi, r = num("x1"), num("y1"), num("x2"), num("y2"), num("phi"), pos("r")
    for rx, ry in ((0, r), (r, 0), (0, 0)):
        same(absolute(svgfile.endpointarc(x1, y1, x2, y2, True, False, rx, ry, phi)), [("M", x1, y1), ("L", x2, y2)])
    a, b = numtext(V[0]), numtext(V[1])
    d = "M " + a + " " + b + " A " + numtext(r) + " " + numtext(2*r) + " 0 0 1 " + a + " " + b + " L " + numtext(V[2]) + " " + numtext(V[3])
    p = absolute(handler().toPath(d))
    same((p[0], p[-1]), (("M", P[0], P[1]), ("L", P[2], P[3])))
    check(all([e[1:] == (P[0], P[1]) for e in p[1:-1]]))

def law_arc_then_smooth(c="SsTt"):
    """a smooth curve behind an arc starts at the current point without reflection"""
    trust("pyx.path.path.atend_pt", lambda self: currentpoint(self))
    def arc(x1, y1, x2, y2, fA, fS, rx, ry, phi): return path.path(path.moveto_pt(x1, y1), path.curveto_pt(x1 + 1, y1 + 2, x2 + 3, y2 + 5, x2, y2))
    trustkw("pyx.svgfile.endpointarc", arc)
    trust("pyx.path.path.join", lambda self, other: [self.append(e) for e in other[1:]] and None)
    r = pos("r")
    args = (4, 5, 6, 7) if c in "Ss" else (4, 5)
    d = data("M {0} {1} A ") + numtext(r) + " " + numtext(r) + data(" 0 0 1 {2} {3} " + c + " " + " ".join(["{%d}" % i for i in args]))
    x, y = P[2], P[3]
    ox, oy = (x, y) if c.islower() else (0, 0)
    a = [P[i] + (ox if i % 2 == 0 else oy) for i in args]
    if c in "Ss": want = ("C", x, y, a[0], a[1], a[2], a[3])
    else: want = ("C", x, y, (a[0] + 2*x)/3, (a[1] + 2*y)/3, a[0], a[1])
    same(absolute(handler().toPath(d))[-1], want)

# --- transformations ---------------------------------------------------------------------------------------------
X, Y = num("x"), num("y")
def T(n): return numtext(V[n])
def tf(n, a):
    if n == "matrix": return lambda x, y: (a[0]*x + a[2]*y + a[4]*F, a[1]*x + a[3]*y + a[5]*F)
    if n == "translate": return lambda x, y: (x + a[0]*F, y + (a[1]*F if len(a) > 1 else 0))
    if n == "scale": return lambda x, y: (x*a[0], y*(a[1] if len(a) > 1 else a[0]))
    if n == "rotate":
        c, s = cos(radians(a[0])), sin(radians(a[0]))
        u, v = (a[1]*F, a[2]*F) if len(a) > 1 else (0, 0)
        return lambda x, y: (u + c*(x-u) - s*(y-v), v + s*(x-u) + c*(y-v))
    if n == "skewX": return lambda x, y: (x + tan(a[0]*pi/180)*y, y)
    if n == "skewY": return lambda x, y: (x, y + tan(a[0]*pi/180)*x)
ONE = [("matrix", 6), ("translate", 1), ("translate", 2), ("scale", 1), ("scale", 2), ("rotate", 1), ("rotate", 3), ("skewX", 1), ("skewY", 1)]
SEPS = [k + (s,) for k in ONE for s in (",", " ", ", ")]
def law_trafo(k=SEPS):
    """each transformation command is the one the SVG specification defines"""
    n, c, sep = k
    if n == "scale":
        for v in V[:c]: assume(v != 0)
    if n == "matrix": assume(V[0]*V[3] - V[1]*V[2] != 0)
    if n in ("skewX", "skewY"): assume(cos(V[0]*pi/180) != 0)
    t = handler().toTrafo(n + "(" + sep.join([T(i) for i in range(c)]) + ")")
    same(seqv(t.apply_pt(X, Y)), tf(n, V[:c])(X, Y))

TWO = [(a, b) for a in ("matrix(2 1 1 3 5 7)", "translate(3 4)", "scale(2 3)", "rotate(90)", "skewX(45)", "skewY(45)") for b in ("matrix(1 2 3 1 0 1)", "translate(1 -2)", "scale(5 1)", "rotate(90 1 2)", "skewX(45)", "skewY(45)")]
def law_trafo_list(k=TWO):
    """a list of transformations applies the last one first"""
    a, b = k
    h = handler()
    p = h.toTrafo(b).apply_pt(X, Y)
    same(seqv(h.toTrafo(a + " " + b).apply_pt(X, Y)), seqv(h.toTrafo(a).apply_pt(p[0], p[1])))
    same(seqv(h.toTrafo(b + "," + a + " " + b).apply_pt(X, Y)), seqv(h.toTrafo(b).apply_pt(*h.toTrafo(a).apply_pt(p[0], p[1]))))

def law_trafo_none():
    same(seqv(handler().toTrafo("").apply_pt(X, Y)), (X, Y))

# --- colours -------------------------------------------------------------------------------------------------------
def rgb(c): return (c.r, c.g, c.b)
def law_color():
    h = handler()
    q = tagged("inherited")
    same(h.toColor("inherit", q), q); same(h.toColor("none", q), None)
    same(rgb(h.toColor("rgb(255, 51, 0)", q)), (1, 51/255, 0)); same(rgb(h.toColor("rgb( 1 ,2,3 )", q)), (1/255, 2/255, 3/255))
    same(rgb(h.toColor("rgb(100%, 50%, 0%)", q)), (1, 0.5, 0)); same(rgb(h.toColor("RGB(10%,20%,30%)", q)), (0.1, 0.2, 0.3))
    same(rgb(h.toColor("#ff3300", q)), (1, 51/255, 0)); same(rgb(h.toColor("#0A0b0C", q)), (10/255, 11/255, 12/255))

CSS = {"aliceblue": (240, 248, 255), "antiquewhite": (250, 235, 215), "aqua": (0, 255, 255), "aquamarine": (127, 255, 212), "azure": (240, 255, 255), "beige": (245, 245, 220), "bisque": (255, 228, 196), "black": (0, 0, 0), "blanchedalmond": (255, 235, 205), "blue": (0, 0, 255), "blueviolet": (138, 43, 226), "brown": (165, 42, 42), "burlywood": (222, 184, 135), "cadetblue": (95, 158, 160), "chartreuse": (127, 255, 0), "chocolate": (210, 105, 30), "coral": (255, 127, 80), "cornflowerblue": (100, 149, 237), "cornsilk": (255, 248, 220), "crimson": (220, 20, 60), "cyan": (0, 255, 255), "darkblue": (0, 0, 139), "darkcyan": (0, 139, 139), "darkgoldenrod": (184, 134, 11), "darkgray": (169, 169, 169), "darkgreen": (0, 100, 0), "darkgrey": (169, 169, 169), "darkkhaki": (189, 183, 107), "darkmagenta": (139, 0, 139), "darkolivegreen": (85, 107, 47), "darkorange": (255, 140, 0), "darkorchid": (153, 50, 204), "darkred": (139, 0, 0), "darksalmon": (233, 150, 122), "darkseagreen": (143, 188, 143), "darkslateblue": (72, 61, 139), "darkslategray": (47, 79, 79), "darkslategrey": (47, 79, 79), "darkturquoise": (0, 206, 209), "darkviolet": (148, 0, 211), "deeppink": (255, 20, 147), "deepskyblue": (0, 191, 255), "dimgray": (105, 105, 105), "dimgrey": (105, 105, 105), "dodgerblue": (30, 144, 255), "firebrick": (178, 34, 34), "floralwhite": (255, 250, 240), "forestgreen": (34, 139, 34), "fuchsia": (255, 0, 255), "gainsboro": (220, 220, 220), "ghostwhite": (248, 248, 255), "gold": (255, 215, 0), "goldenrod": (218, 165, 32), "gray": (128, 128, 128), "green": (0, 128, 0), "greenyellow": (173, 255, 47), "grey": (128, 128, 128), "honeydew": (240, 255, 240), "hotpink": (255, 105, 180), "indianred": (205, 92, 92), "indigo": (75, 0, 130), "ivory": (255, 255, 240), "khaki": (240, 230, 140), "lavender": (230, 230, 250), "lavenderblush": (255, 240, 245), "lawngreen": (124, 252, 0), "lemonchiffon": (255, 250, 205), "lightblue": (173, 216, 230), "lightcoral": (240, 128, 128), "lightcyan": (224, 255, 255), "lightgoldenrodyellow": (250, 250, 210), "lightgray": (211, 211, 211), "lightgreen": (144, 238, 144), "lightgrey": (211, 211, 211), "lightpink": (255, 182, 193), "lightsalmon": (255, 160, 122), "lightseagreen": (32, 178, 170), "lightskyblue": (135, 206, 250), "lightslategray": (119, 136, 153), "lightslategrey": (119, 136, 153), "lightsteelblue": (176, 196, 222), "lightyellow": (255, 255, 224), "lime": (0, 255, 0), "limegreen": (50, 205, 50), "linen": (250, 240, 230), "magenta": (255, 0, 255), "maroon": (128, 0, 0), "mediumaquamarine": (102, 205, 170), "mediumblue": (0, 0, 205), "mediumorchid": (186, 85, 211), "mediumpurple": (147, 112, 219), "mediumseagreen": (60, 179, 113), "mediumslateblue": (123, 104, 238), "mediumspringgreen": (0, 250, 154), "mediumturquoise": (72, 209, 204), "mediumvioletred": (199, 21, 133), "midnightblue": (25, 25, 112), "mintcream": (245, 255, 250), "mistyrose": (255, 228, 225), "moccasin": (255, 228, 181), "navajowhite": (255, 222, 173), "navy": (0, 0, 128), "oldlace": (253, 245, 230), "olive": (128, 128, 0), "olivedrab": (107, 142, 35), "orange": (255, 165, 0), "orangered": (255, 69, 0), "orchid": (218, 112, 214), "palegoldenrod": (238, 232, 170), "palegreen": (152, 251, 152), "paleturquoise": (175, 238, 238), "palevioletred": (219, 112, 147), "papayawhip": (255, 239, 213), "peachpuff": (255, 218, 185), "peru": (205, 133, 63), "pink": (255, 192, 203), "plum": (221, 160, 221), "powderblue": (176, 224, 230), "purple": (128, 0, 128), "red": (255, 0, 0), "rosybrown": (188, 143, 143), "royalblue": (65, 105, 225), "saddlebrown": (139, 69, 19), "salmon": (250, 128, 114), "sandybrown": (244, 164, 96), "seagreen": (46, 139, 87), "seashell": (255, 245, 238), "sienna": (160, 82, 45), "silver": (192, 192, 192), "skyblue": (135, 206, 235), "slateblue": (106, 90, 205), "slategray": (112, 128, 144), "slategrey": (112, 128, 144), "snow": (255, 250, 250), "springgreen": (0, 255, 127), "steelblue": (70, 130, 180), "tan": (210, 180, 140), "teal": (0, 128, 128), "thistle": (216, 191, 216), "tomato": (255, 99, 71), "turquoise": (64, 224, 208), "violet": (238, 130, 238), "wheat": (245, 222, 179), "white": (255, 255, 255), "whitesmoke": (245, 245, 245), "yellow": (255, 255, 0), "yellowgreen": (154, 205, 50)}
def law_named_colors():
    """colour names have the values of the SVG specification"""
    h = handler()
    for n, c in CSS.items():
        same(rgb(h.toColor(n, None)), (c[0]/255, c[1]/255, c[2]/255), n)

# --- elements -------------------------------------------------------------------------------------------------------
NS = "http://www.w3.org/2000/svg"
def attrs(**kw): return {(None, k.replace("_", "-")): v for k, v in kw.items()}
def start(h, name, a): h.startElementNS((NS, name), None, a)

class canvasstub:
    def __init__(self): self.drawn = []
    def draw(self, p, attrs): self.drawn.append((p, attrs))
def drawn(name, **kw):
    h = handler()
    h.canvas = canvasstub()
    start(h, name, attrs(**kw))
    return h.canvas.drawn

def law_shapes():
    """basic shapes are drawn with their coordinates in points"""
    w, hh, r, s = pos("w"), pos("h"), pos("r"), pos("s")
    p = drawn("line", x1=T(0), y1=T(1), x2=T(2), y2=T(3))[0][0]
    same(absolute(p), [("M", P[0], P[1]), ("L", P[2], P[3])])
    p = drawn("rect", x=T(0), y=T(1), width=numtext(w), height=numtext(hh))[0][0]
    x, y, w, hh = P[0], P[1], w*F, hh*F
    same(absolute(p), [("M", x, y), ("L", x+w, y), ("L", x+w, y+hh), ("L", x, y+hh), ("Z",)])
    p = drawn("rect", width=numtext(pos("w")), height=numtext(pos("h")))[0][0]
    same(absolute(p)[0], ("M", 0, 0))
    for n in ("polyline", "polygon"):
        p = drawn(n, points=T(0) + "," + T(1) + " " + T(2) + "," + T(3) + " " + T(4) + " " + T(5))[0][0]
        same(absolute(p), [("M", P[0], P[1]), ("L", P[2], P[3]), ("L", P[4], P[5])] + ([("Z",)] if n == "polygon" else []))
    p = drawn("path", d=data("M {0} {1} l {2} {3}"))[0][0]
    same(absolute(p), [("M", P[0], P[1]), ("L", P[0]+P[2], P[1]+P[3])])

def law_round_shapes():
    r, s = pos("r"), pos("s")
    trustkw("pyx.path.circle_pt.__init__", lambda self, x_pt, y_pt, radius_pt, **kw: setattr(self, "c", (x_pt, y_pt, radius_pt)))
    trustkw("pyx.path.ellipse_pt.__init__", lambda self, x_pt, y_pt, a_pt, b_pt, angle, **kw: setattr(self, "c", (x_pt, y_pt, a_pt, b_pt, angle)))
    same(drawn("circle", cx=T(0), cy=T(1), r=numtext(r))[0][0].c, (P[0], P[1], r*F))
    same(drawn("circle", r=numtext(r))[0][0].c, (0, 0, r*F))
    same(drawn("ellipse", cx=T(0), cy=T(1), rx=numtext(r), ry=numtext(s))[0][0].c, (P[0], P[1], r*F, s*F, 0))

def law_empty_shapes():
    """shapes without extent are not drawn"""
    one = "1"
    for n, a in (("rect", attrs(width="0", height=one)), ("rect", attrs(width=one, height="0")), ("circle", attrs(r="0")), ("ellipse", attrs(rx="0", ry=one)), ("ellipse", attrs(rx=one, ry="0"))):
        h = handler(); h.canvas = canvasstub()
        start(h, n, a)
        same(len(h.canvas.drawn), 0, n)

def stylesof(l, c): return [a for a in l if isinstance(a, c)]
def law_attributes():
    """style attributes are those of the SVG specification: lengths in points, plain numbers unscaled"""
    lw, d1, d2, off, ml = pos("lw"), pos("d1"), pos("d2"), pos("off"), pos("ml")
    l = drawn("path", d="M 0 0 L 1 1", stroke_width=numtext(lw), stroke_dasharray=numtext(d1) + " " + numtext(d2), stroke_dashoffset=numtext(off), stroke_linecap="round", stroke_linejoin="bevel", stroke_miterlimit=numtext(ml), fill_rule="evenodd")[0][1]
    same([unit.topt(a.width) for a in stylesof(l, style.linewidth)], [lw*F])
    d = stylesof(l, style.dash)[0]
    same((list(d.pattern), d.offset, bool(d.rellengths)), ([d1*F, d2*F], off*F, False))
    same([a.value for a in stylesof(l, style.miterlimit)], [ml])
    check(stylesof(l, style.linecap)[0] is style.linecap.round); check(stylesof(l, style.linejoin)[0] is style.linejoin.bevel); check(stylesof(l, style.fillrule)[0] is style.fillrule.even_odd)

def law_dash_pattern_reusable():
    """the dash pattern can be written any number of times"""
    l = drawn("path", d="M 0 0 L 1 1", stroke_dasharray="1 2")[0][1]
    d = stylesof(l, style.dash)[0].pattern
    check(isinstance(d, (list, tuple)))

ENUM = [("stroke-linecap", "butt", style.linecap.butt), ("stroke-linecap", "square", style.linecap.square), ("stroke-linejoin", "miter", style.linejoin.miter), ("stroke-linejoin", "round", style.linejoin.round), ("fill-rule", "nonzero", style.fillrule.nonzero_winding)]
def law_enumerations(k=ENUM):
    n, v, s = k
    h = handler(); h.canvas = canvasstub()
    start(h, "path", {(None, "d"): "M 0 0 L 1 1", (None, n): v})
    check(any([a is s for a in h.canvas.drawn[0][1]]))

def law_paint():
    """fill and stroke: own ones, inherited ones, black filling by default, nothing drawn without both"""
    l = drawn("path", d="M 0 0 L 1 1")[0][1]
    same(len(l), 1); check(isinstance(l[0], deco._filled)); same(l[0].styles[0].g, 0)
    same(len(drawn("path", d="M 0 0 L 1 1", fill="none")), 0)
    l = drawn("path", d="M 0 0 L 1 1", fill="none", stroke="#ff0000")[0][1]
    same(len(l), 1); check(isinstance(l[0], deco._stroked)); same(rgb(l[0].styles[0]), (1, 0, 0))
    l = drawn("path", d="M 0 0 L 1 1", fill="#00ff00", stroke="#ff0000")[0][1]
    same(len(l), 2); same([rgb(a.styles[0]) for a in l if isinstance(a, deco._filled)], [(0, 1, 0)]); same([rgb(a.styles[0]) for a in l if isinstance(a, deco._stroked)], [(1, 0, 0)])

def law_group():
    """a group passes its paint to its items, which is forgotten behind it"""
    h = handler()
    h.canvas = canvas.canvas()
    outer = h.canvas
    start(h, "g", attrs(fill="#0000ff", stroke="#ff0000", transform="translate(" + T(0) + " " + T(1) + ")"))
    inner = h.canvas
    check(inner is not outer)
    same(seqv(inner.trafo.apply_pt(X, Y)), (X + P[0], Y + P[1]))
    same((rgb(h.fill), rgb(h.stroke)), ((0, 0, 1), (1, 0, 0)))
    start(h, "g", attrs(fill="none"))
    same((h.fill, rgb(h.stroke)), (None, (1, 0, 0)))
    h.endElementNS((NS, "g"), None)
    check(h.canvas is inner); same((rgb(h.fill), rgb(h.stroke)), ((0, 0, 1), (1, 0, 0)))
    h.endElementNS((NS, "g"), None)
    check(h.canvas is outer); same(h.stroke, None); same(h.fill.g, 0)

def law_foreign():
    """elements of other name spaces draw nothing"""
    h = handler(); h.canvas = canvasstub()
    h.startElementNS(("other", "path"), None, attrs(d="M 0 0 L 1 1"))
    same(len(h.canvas.drawn), 0)

# --- sizes ---------------------------------------------------------------------------------------------------------
W, H, IW, IH = pos("W"), pos("H"), pos("IW"), pos("IH")
def corners(b): return (b.llx_pt, b.lly_pt, b.urx_pt, b.ury_pt)
def transformedlines(self, t):
    """a path of straight lines transformed (transformations of paths in general are the matter of C06)"""
    r = []
    for e in absolute(self):
        if e[0] == "Z": r.append(path.closepath())
        else: r.append((path.moveto_pt if e[0] == "M" else path.lineto_pt)(*t.apply_pt(e[1], e[2])))
    return path.path(*r)
def law_root_viewbox(pos_=[False, True]):
    """the view box is mapped onto the rectangle given by position, width and height, upside down, and clipped there"""
    trust("pyx.path.path.transformed", transformedlines)
    unit.set(uscale=pos("us"))
    h = handler()
    a = attrs(width=numtext(W), height=numtext(H), viewBox=" ".join([T(0), T(1), numtext(IW), numtext(IH)]))
    ox, oy = 0, 0
    if pos_:
        a[None, "x"] = T(2); a[None, "y"] = T(3)
        ox, oy = P[2], P[3]
    start(h, "svg", a)
    same(corners(h.bbox), (ox, -oy, ox + W*F, H*F - oy))
    t = h.canvas.trafo
    same(seqv(t.apply_pt(P[0], P[1])), (ox, H*F - oy), "upper left")
    same(seqv(t.apply_pt(P[0] + IW*F, P[1] + IH*F)), (ox + W*F, -oy), "lower right")
    same(seqv(t.apply_pt(P[0] + IW*F, P[1])), (ox + W*F, H*F - oy), "upper right")
    c = h.canvas.clip.path.normpath().bbox() if 0 else h.canvas.clip.path
    same(corners(c.bbox()), corners(h.bbox), "clip")

def law_root_clip_off():
    h = handler()
    start(h, "svg", attrs(width=numtext(W), height=numtext(H), viewBox="0 0 1 1", clip="inherit"))
    same(h.canvas.clip, None)

def law_root_percent():
    """sizes in per cent refer to the view box"""
    trust("pyx.path.path.transformed", transformedlines)
    h = handler()
    start(h, "svg", attrs(viewBox=" ".join([T(0), T(1), numtext(IW), numtext(IH)])))
    same(corners(h.bbox), (0, 0, IW*F, IH*F))
    h = handler()
    start(h, "svg", attrs(width="50%", height="25%", viewBox=" ".join([T(0), T(1), numtext(IW), numtext(IH)])))
    same(corners(h.bbox), (0, 0, IW*F/2, IH*F/4))

def law_root_size(pos_=[False, True]):
    h = handler()
    a = attrs(width=numtext(W) + "mm", height=numtext(H) + "in")
    ox, oy = 0, 0
    if pos_:
        a[None, "x"] = T(2); a[None, "y"] = T(3)
        ox, oy = P[2], P[3]
    start(h, "svg", a)
    w, hh = W*UNITS["mm"], H*72
    same(corners(h.bbox), (ox, -oy, ox + w, hh - oy))
    same(seqv(h.canvas.trafo.apply_pt(0, 0)), (ox, hh - oy)); same(seqv(h.canvas.trafo.apply_pt(w, hh)), (ox + w, -oy))
    same(outcome(lambda: start(handler(), "svg", attrs(width="1"))), ("raise", "ValueError"))

def law_root_styles():
    """the initial line width is one user unit, the initial miter limit is 4"""
    h = handler()
    start(h, "svg", attrs(width="1", height="1"))
    same([unit.topt(a.width) for a in stylesof(h.canvas.styles, style.linewidth)], [F]); same([a.value for a in stylesof(h.canvas.styles, style.miterlimit)], [4])

def law_bbox_handler():
    """the extent of an unparsed file is the one of the parsed file, its coordinates are scaled and flipped onto it"""
    h = svgfile.svgBboxHandler(RES)
    a = attrs(x=T(2), y=T(3), width=numtext(W), height=numtext(H) + "cm")
    same(outcome(lambda: start(h, "svg", a)), ("raise", "svgBboxDoneException"))
    same(corners(h.bbox), (P[2], -P[3], P[2] + W*F, H*UNITS["cm"] - P[3]))
    same(seqv(h.trafo.apply_pt(0, 0)), (0, H*UNITS["cm"]))
    same(seqv(h.trafo.apply_pt(X, Y)), (X*F, H*UNITS["cm"] + Y*F))
    same(outcome(lambda: start(svgfile.svgBboxHandler(RES), "svg", attrs(width="1"))), ("raise", "ValueError"))
    same(outcome(lambda: start(svgfile.svgBboxHandler(RES), "g", attrs(width="1", height="1"))), ("raise", "ValueError"))
    h = svgfile.svgBboxHandler(RES)
    same(outcome(lambda: start(h, "svg", attrs(width="50%", height="100%", viewBox="0 0 " + numtext(IW) + " " + numtext(IH)))), ("raise", "svgBboxDoneException"))
    same(corners(h.bbox), (0, 0, IW*F/2, IH*F))

SIZES = ["", "w", "h", "wh", "wr", "hr"]
def law_file_size(k=SIZES):
    """the file is put at the given position with the given size or ratio, keeping its own proportion otherwise"""
    L, B, SW, SH = num("L"), num("B"), pos("SW"), pos("SH")
    def init(self, resolution):
        self.resolution = resolution
        self.bbox = bbox.bbox_pt(L, B, L + SW, B + SH)
        self.canvas = canvas.canvas()
    trust("pyx.svgfile.svgHandler.__init__", init)
    trust("builtin:open", lambda *a, **kw: newbinfile())
    w, h, r = pos("w"), pos("h"), pos("ratio")
    x, y = num("x"), num("y")
    kw = {}
    if "w" in k: kw["width_pt"] = w
    if "h" in k: kw["height_pt"] = h
    if "r" in k: kw["ratio"] = r
    f = svgfile.svgfile_pt(x, y, "name", parsed=True, **kw)
    sx, sy = {"": (1, 1), "w": (w/SW, w/SW), "h": (h/SH, h/SH), "wh": (w/SW, h/SH), "wr": (w/SW, w/r/SH), "hr": (h*r/SW, h/SH)}[k]
    same(seqv(f.trafo.apply_pt(L, B)), (x, y)); same(seqv(f.trafo.apply_pt(L + SW, B + SH)), (x + sx*SW, y + sy*SH))
    same(corners(f.bbox()), (x, y, x + sx*SW, y + sy*SH))
    same(seqv(f.canvas.trafo.apply_pt(X, Y)), seqv(f.trafo.apply_pt(X, Y)))

def law_file_size_rejected():
    def init(self, resolution):
        self.bbox = bbox.bbox_pt(0, 0, 1, 1); self.canvas = canvas.canvas()
    trust("pyx.svgfile.svgHandler.__init__", init)
    trust("builtin:open", lambda *a, **kw: newbinfile())
    same(outcome(lambda: svgfile.svgfile_pt(0, 0, "name", width_pt=1, height_pt=1, ratio=1, parsed=True)), ("raise", "ValueError"))
    same(outcome(lambda: svgfile.svgfile_pt(0, 0, "name", ratio=1, parsed=True)), ("raise", "ValueError"))

def law_file_lengths():
    unit.set(uscale=pos("us"), vscale=pos("vs"))
    r = []
    trustkw("pyx.svgfile.svgfile_pt.__init__", lambda self, x_pt, y_pt, filename, width_pt, height_pt, ratio, parsed, resolution: r.append((x_pt, y_pt, filename, width_pt, height_pt, ratio, parsed, resolution)))
    x, y, w, h = num("x")*unit.v_cm, num("y"), pos("w")*unit.t_mm, pos("h")
    svgfile.svgfile(x, y, "name", w, h, None, True, 144)
    svgfile.svgfile(x, y, "name", height=h, ratio=2)
    svgfile.svgfile(x, y, "name")
    t = unit.topt
    same(r, [(t(x), t(y), "name", t(w), t(h), None, True, 144), (t(x), t(y), "name", None, t(h), 2, False, 96), (t(x), t(y), "name", None, None, None, False, 96)])
