# Drawings and the marks they stand for, common to the laws of the output formats.
from pyx import canvas, path, deco, style, color, trafo, document, pswriter, pdfwriter, svgwriter, unit, attr, bbox
from pyx.font.font import T1builtinfont, T1font, T1text_pt

def setup():
    trust("os.environ.get", lambda *a: "0")
    trust("time.gmtime", lambda *a: 0)
    trust("time.asctime", lambda *a: "Thu Jan  1 00:00:00 1970")
    trust("time.strftime", lambda *a: "197001010000")

def nobbox():
    "the size of paths is of no relevance"
    for n in ("pyx.path.path.bbox", "pyx.normpath.normpath.bbox", "pyx.normpath.normsubpath.bbox", "pyx.font.font.T1text_pt.bbox"):
        trust(n, lambda self: bbox.bbox_pt(0, 0, 100, 100))

def doc(c, n=1): return document.document([document.page(c) for i in range(n)])

def eps(c, **kw):
    f = newbinfile()
    pswriter.EPSwriter(doc(c), f, **kw)
    return text(f)

def ps(d, **kw):
    f = newbinfile()
    pswriter.PSwriter(d, f, **kw)
    return text(f)

def pdffile(d, **kw):
    f = newbinfile()
    pdfwriter.PDFwriter(d, f, **kw)
    return text(f)

def pdf(c, compress=False, **kw): return pdffile(doc(c), compress=compress, **kw)

def svg(c, **kw):
    f = newbinfile()
    svgwriter.SVGwriter(doc(c), f, **kw)
    return text(f)

def marks(fmt, c, **kw):
    if fmt == "PS": return pspage(eps(c, **kw))
    if fmt == "PDF": return pdfpages(pdf(c, **kw))
    if fmt == "SVG": return svgpage(svg(c, **kw))

FORMATS = ["PS", "PDF", "SVG"]

# --- expected marks ---
ID = (1, 0, 0, 1, 0, 0)
def mul(m, n): return (m[0]*n[0]+m[1]*n[2], m[0]*n[1]+m[1]*n[3], m[2]*n[0]+m[3]*n[2], m[2]*n[1]+m[3]*n[3],
                       m[4]*n[0]+m[5]*n[2]+n[4], m[4]*n[1]+m[5]*n[3]+n[5])
def app(m, p):
    r = ()
    for i in range(0, len(p), 2): r = r + (m[0]*p[i]+m[2]*p[i+1]+m[4], m[1]*p[i]+m[3]*p[i+1]+m[5])
    return r
def moved(m, segs): return tuple([(s[0],) + app(m, s[1:]) for s in segs])

LW = 0.566929
BLACK = ("rgb", 0, 0, 0)
RED = ("rgb", 1, 0, 0)

def state(**kw):
    d = {"ctm": ID, "color": BLACK, "fill": None, "alpha": 1, "falpha": None, "lw": LW, "cap": 0, "join": 0, "miter": 10, "dash": ((), 0), "clips": (), "rule": 0}
    d.update(kw)
    return d

def strokemark(segs, s):
    return ("stroke", moved(s["ctm"], segs), s["ctm"][:4], s["color"], s["alpha"], s["lw"], s["cap"], s["join"], s["miter"], s["dash"], s["clips"])
def fillmark(segs, s):
    return ("fill", moved(s["ctm"], segs), s["rule"], s["color"] if s["fill"] is None else s["fill"], s["alpha"] if s["falpha"] is None else s["falpha"], s["clips"])

# a path with lines, a curve and a closed part
SEGS = (("M", num("a"), num("b")), ("L", num("c"), num("d")), ("C", num("e"), num("f"), num("g"), num("h"), num("i"), num("j")), ("Z",), ("M", num("k"), num("l")), ("L", num("m"), num("n")))
def thepath():
    return path.path(path.moveto_pt(num("a"), num("b")), path.lineto_pt(num("c"), num("d")),
                     path.curveto_pt(num("e"), num("f"), num("g"), num("h"), num("i"), num("j")), path.closepath(),
                     path.moveto_pt(num("k"), num("l")), path.lineto_pt(num("m"), num("n")))
SEGS2 = (("M", num("p"), num("q")), ("L", num("r"), num("s")), ("L", num("t"), num("u")), ("Z",))
def secondpath():
    return path.path(path.moveto_pt(num("p"), num("q")), path.lineto_pt(num("r"), num("s")), path.lineto_pt(num("t"), num("u")), path.closepath())

# --- attributes ---
def plain(w): return unit.length(w, unit="pt", type="t")

# name -> (attribute, change of the state, kind: s = stroke, f = fill)
ATTRS = {
 "linewidth": lambda: (style.linewidth(pos("w")*unit.t_pt), {"lw": pos("w")}, "s"),
 "round cap": lambda: (style.linecap.round, {"cap": 1}, "s"),
 "square cap": lambda: (style.linecap.square, {"cap": 2}, "s"),
 "round join": lambda: (style.linejoin.round, {"join": 1}, "s"),
 "bevel join": lambda: (style.linejoin.bevel, {"join": 2}, "s"),
 "miterlimit": lambda: (style.miterlimit(pos("ml")), {"miter": pos("ml")}, "s"),
 "dash": lambda: (style.dash([pos("d1"), pos("d2")], offset=num("off"), rellengths=0), {"dash": ((pos("d1"), pos("d2")), num("off"))}, "s"),
 "even odd": lambda: (style.fillrule.even_odd, {"rule": 1}, "f"),
 "red": lambda: (color.rgb(1, 0, 0), {"color": RED}, "sf"),
 "grey": lambda: (color.gray(1), {"color": ("rgb", 1, 1, 1)}, "sf"),
 "transparency": lambda: (color.transparency(0.25), {"alpha": 0.75}, "sf"),
}
ATTRNAMES = ["linewidth", "round cap", "square cap", "round join", "bevel join", "miterlimit", "dash", "even odd", "red", "grey", "transparency"]

def pathattr(name, fmt):
    return ATTRS[name]()

# paths which are transformed have to be definite, as too short parts are dropped
def boxpath(): return path.path(path.moveto_pt(1, 2), path.lineto_pt(50, 2), path.lineto_pt(50, 60), path.closepath())
def boxclip(): return canvas.clip(boxpath())
CLIPSEGS = (("M", 1, 2), ("L", 50, 2), ("L", 50, 60), ("Z",))
def triangle(): return path.path(path.moveto_pt(-3, 4), path.lineto_pt(30, 5), path.lineto_pt(20, -40))
TRISEGS = (("M", -3, 4), ("L", 30, 5), ("L", 20, -40))

def thetrafo(): return trafo.trafo_pt(((2, 1), (-1, 3)), (num("tx"), num("ty")))
def definitetrafo(): return trafo.trafo_pt(((2, 1), (-1, 3)), (5, 7))
TM1 = (2, -1, 1, 3, 5, 7)
TM = (2, -1, 1, 3, num("tx"), num("ty"))

def errors(m): return [x for x in m if x[0] == "error"]

# --- texts ---
class fakemetric:
    "metric of a font"
    def width_ds(self, glyphname): return 500
    def width_pt(self, glyphnames, size_pt): return 0.5*len(glyphnames)*size_pt
    def height_pt(self, glyphnames, size_pt): return 0.7*size_pt
    def depth_pt(self, glyphnames, size_pt): return -0.2*size_pt
    def resolveligatures(self, glyphnames): return glyphnames
    def resolvekernings(self, glyphnames, size_pt=None):
        r = []
        for i, g in enumerate(glyphnames):
            if i:
                k = {("A", "V"): -125, ("V", "A"): -100}.get((glyphnames[i-1], g))
                r.append(None if k is None else k if size_pt is None else k*size_pt/1000)
            r.append(g)
        return r
    def writePDFfontinfo(self, file, seriffont=False, symbolfont=True): file.write("/Flags 4\n")

UNICODE = {"A": "A", "V": "V", "b": "b", "(": "parenleft", "\\": "backslash", "<": "less", "&": "ampersand", "x": "x"}
def helvetica(): return T1builtinfont("Helvetica", fakemetric())
def glyphs(fmt, t): return tuple([c if fmt == "SVG" else UNICODE[c] for c in t])
def textmark(fmt, items, x, y, size, s, font="Helvetica", slant=0):
    "mark of a text, numbers being distances between its characters"
    out = ()
    for i in items: out = out + (glyphs(fmt, i) if isinstance(i, str) else ((i, 0),))
    col = s["color"] if s["fill"] is None else s["fill"]
    return ("text", out, font, mul((size, 0, slant*size, size, x, y), s["ctm"]), col, s["alpha"] if s["falpha"] is None else s["falpha"], s["clips"])

class faketype1:
    "a Type 1 font with square glyphs"
    name = "Squares"
    fontmatrix = trafo.trafo_pt(((0.001, 0), (0, 0.001)))
    encoding = ["g%d" % i for i in range(256)]
    def getstrippedfont(self, glyphnames, charcodes): return self
    def getglyphinfo(self, glyphname, flex=True): return (500, 0, 0, 0, 400, 400)
    def getglyphpath_pt(self, x_pt, y_pt, glyph, size_pt, convertcharcode=False, flex=True):
        class glyphpath: pass
        g = glyphpath()
        w = 0.4*size_pt
        g.path = path.path(path.moveto_pt(x_pt, y_pt), path.lineto_pt(x_pt+w, y_pt), path.lineto_pt(x_pt+w, y_pt+w), path.closepath())
        g.wx_pt = 0.5*size_pt
        g.wy_pt = 0
        return g
    def outputPS(self, file, writer): file.write("% font Squares\n")
    def outputPDF(self, file, writer): file.write("<<\n/Length 4\n>>\nstream\nabcd\nendstream\n")
    def writePDFfontinfo(self, file): file.write("/Flags 4\n")

def squarefont(metric=None): return T1font(faketype1(), metric)
def squaresegs(x, y, size, n, slant=0, extra=()):
    "the paths of n glyphs"
    r = ()
    for i in range(n):
        if i: x = x + 0.5*size + (extra[i-1] if extra else 0)
        w = 0.4*size
        r = r + (("M", x, y), ("L", x+w, y), ("L", x+w+slant*w, y+w), ("Z",))
    return r

# --- things which can be put on a canvas ---
from pyx import bitmap, mesh, pattern
from pyx.deco import deco as _decobase

class orn(_decobase, attr.attr):
    "a decorator which draws an ornament and cuts the path"
    def decorate(self, dp, texrunner):
        dp.ensurenormpath()
        dp.ornaments.draw(triangle(), [deco.stroked([color.rgb.blue]), deco.filled])
        dp.excluderange(dp.path.begin() + 20*unit.t_pt, dp.path.begin() + 30*unit.t_pt)

class cut(_decobase, attr.attr):
    "a decorator which cuts the upper part of the path"
    def decorate(self, dp, texrunner):
        dp.ensurenormpath()
        dp.excluderange(dp.path.begin() + 70*unit.t_pt, dp.path.begin() + 200*unit.t_pt)
def cutpath(): return path.path(path.moveto_pt(0, 0), path.lineto_pt(50, 0), path.lineto_pt(50, 80), path.lineto_pt(0, 80), path.lineto_pt(0, 10))

def smallimage(mode="RGBA"): return bitmap.image(2, 1, mode, bytes(range(2*len(mode))))
def triangularmesh():
    n = [mesh.node_pt((1, 2), color.rgb.red), mesh.node_pt((11, 2), color.rgb.blue), mesh.node_pt((5, 22), color.rgb.green)]
    return mesh.mesh([mesh.element(n)])
def thepattern():
    p = pattern.pattern()
    p.stroke(path.line_pt(0, 0, 10, 10), [color.rgb.green])
    p.fill(path.rect_pt(2, 2, 3, 3), [color.rgb.blue])
    return p

def inner(*attrs):
    def make(c):
        s = c.insert(canvas.canvas([a() for a in attrs]))
        s.stroke(boxpath())
        s.fill(triangle(), [color.rgb.green])
    return make

def withtext(*attrs):
    def make(c):
        s = c.insert(canvas.canvas([a() for a in attrs]))
        s.insert(helvetica().text_pt(3, 4, "Vb", 7))
        s.stroke(boxpath())
        s.insert(helvetica().text_pt(3, 4, "b", 5))
    return make

def deep(c):
    s = c.insert(canvas.canvas([color.rgb.red, definitetrafo()]))
    t = s.insert(canvas.canvas())
    u = t.insert(canvas.canvas([style.linewidth(3*unit.t_pt), boxclip()]))
    u.insert(helvetica().text_pt(3, 4, "x", 7))
    u.stroke(boxpath(), [color.rgb.green, trafo.translate_pt(1, 2), style.linecap.round])
    t.insert(helvetica().text_pt(3, 4, "A", 10))
    s.fill(boxpath())

def layered(c):
    b = c.layer("top")
    b.stroke(boxpath(), [color.rgb.red])
    a = c.layer("bottom", below="top")
    a.fill(boxpath())
    c.layer("group.first").stroke(triangle())

def insertedtwice(c):
    s = canvas.canvas()
    s.insert(helvetica().text_pt(3, 4, "b", 7))
    s.stroke(boxpath())
    c.insert(s, [trafo.translate_pt(3, 4)])
    c.insert(s, [color.rgb.blue])

from pyx import epsfile, pdfextra
EPSFILE = b"""%!PS-Adobe-3.0 EPSF-3.0
%%BoundingBox: 10 20 110 70
%%EndComments
newpath 10 20 moveto 110 20 lineto 110 70 lineto closepath fill
%%EOF
"""
def theepsfile(**kw):
    trust("builtin:open", lambda *a, **kw: newbinfile(EPSFILE))
    return epsfile.epsfile(plain(5), plain(7), "some.eps", **kw)

ALL = ("PS", "PDF", "SVG")
# name -> (formats, what it does with the canvas)
ITEMS = {
 "nothing": (ALL, lambda c: None),
 "stroke": (ALL, lambda c: c.stroke(boxpath())),
 "fill": (ALL, lambda c: c.fill(boxpath())),
 "styled stroke": (ALL, lambda c: c.stroke(boxpath(), [style.linewidth(2*unit.t_pt), style.linecap.round, style.linestyle.dashed, color.rgb.red])),
 "styled fill": (ALL, lambda c: c.fill(boxpath(), [style.fillrule.even_odd, color.cmyk.Red, color.transparency(0.5)])),
 "transformed": (ALL, lambda c: c.stroke(boxpath(), [definitetrafo(), color.gray(0.5)])),
 "both": (ALL, lambda c: c.draw(boxpath(), [deco.stroked, deco.filled, color.rgb.red])),
 "both apart": (ALL, lambda c: c.draw(boxpath(), [deco.stroked([color.rgb.red, style.linewidth(3*unit.t_pt)]), deco.filled([color.rgb.blue, color.transparency(0.5)])])),
 "both, one apart": (ALL, lambda c: c.draw(boxpath(), [deco.stroked, deco.filled([color.rgb.blue])])),
 "ornaments": (ALL, lambda c: c.stroke(path.line_pt(0, 0, 100, 0), [orn(), color.rgb.red, style.linewidth(3*unit.t_pt)])),
 "ornaments, filled": (ALL, lambda c: c.draw(path.line_pt(0, 0, 100, 0), [orn(), deco.stroked([color.rgb.green]), deco.filled([color.rgb.blue])])),
 "cut": (ALL, lambda c: c.draw(cutpath(), [cut(), deco.stroked, deco.filled])),
 "cut and styled": (ALL, lambda c: c.draw(cutpath(), [cut(), deco.stroked([color.rgb.green]), deco.filled([color.rgb.blue, style.fillrule.even_odd])])),
 "arrow": (ALL, lambda c: c.stroke(path.line_pt(0, 0, 100, 0), [deco.earrow, color.rgb.red])),
 "text": (ALL, lambda c: c.insert(helvetica().text_pt(5, 6, "Vb", 12))),
 "kerned text": (ALL, lambda c: c.insert(helvetica().text_pt(5, 6, "AVA", 12, kerning=True, slant=0.2))),
 "type 1": (ALL, lambda c: c.insert(squarefont(fakemetric()).text_pt(5, 6, "AV", 12))),
 "empty canvas": (ALL, lambda c: c.insert(canvas.canvas([color.rgb.red, definitetrafo(), boxclip()]))),
 "plain canvas": (ALL, inner()),
 "canvas with style": (ALL, inner(lambda: color.rgb.red, lambda: style.linewidth(3*unit.t_pt), lambda: color.transparency(0.5), lambda: style.linestyle.dotted)),
 "canvas with trafo": (ALL, inner(definitetrafo)),
 "canvas with clip": (ALL, inner(boxclip)),
 "clipped away": (ALL, lambda c: c.insert(canvas.canvas([color.rgb.red, style.linewidth(3*unit.t_pt), boxclip()])).fill(path.rect_pt(200, 200, 10, 10))),
 "moved and clipped away": (ALL, lambda c: c.insert(canvas.canvas([color.rgb.red, boxclip(), definitetrafo()])).stroke(path.rect_pt(200, 200, 10, 10))),
 "canvas with trafo and clip": (ALL, inner(definitetrafo, boxclip, lambda: style.fillrule.even_odd)),
 "canvas with clip and trafo": (ALL, inner(boxclip, definitetrafo, lambda: color.gray(0.3))),
 "plain canvas with text": (ALL, withtext()),
 "red canvas with text": (ALL, withtext(lambda: color.rgb.red)),
 "moved canvas with text": (ALL, withtext(definitetrafo, boxclip)),
 "deep": (ALL, deep),
 "layers": (ALL, layered),
 "inserted twice": (ALL, insertedtwice),
 "bitmap": (ALL, lambda c: c.insert(bitmap.bitmap_pt(1, 2, smallimage(), height_pt=10))),
 "plain bitmap": (("PS", "PDF"), lambda c: c.insert(bitmap.bitmap_pt(1, 2, smallimage("CMYK"), height_pt=10, compressmode=None, PSbinexpand=2))),
 "stored bitmap": (("PS",), lambda c: c.insert(bitmap.bitmap_pt(1, 2, smallimage("CMYK"), height_pt=10, compressmode=None, PSstoreimage=1, PSmaxstrlen=3))),
 "palette": (ALL, lambda c: c.insert(bitmap.bitmap_pt(1, 2, bitmap.image(2, 1, "P", bytes([0, 1]), palette=bitmap.palette("RGB", bytes(range(6)))), height_pt=10))),
 "mesh": (("PS", "PDF"), lambda c: c.insert(triangularmesh())),
 "eps file": (("PS",), lambda c: c.insert(theepsfile())),
 "scaled eps file": (("PS",), lambda c: c.insert(theepsfile(width=plain(50), height=plain(75), align="tr"))),
 "moved eps file": (("PS",), lambda c: c.insert(canvas.canvas([trafo.translate_pt(3, 4)])).insert(theepsfile(scale=0.5, clip=0, translatebbox=0))),
 "text field": (("PDF",), lambda c: c.insert(pdfextra.textfield(plain(5), plain(7), plain(50), plain(20), "name", defaultvalue="a\nb"))),
 "red text field": (("PDF",), lambda c: c.insert(canvas.canvas([color.rgb.red, definitetrafo()])).insert(pdfextra.textfield(plain(5), plain(7), plain(50), plain(20), "name", multiline=1))),
 "radio buttons": (("PDF",), lambda c: c.insert(pdfextra.radiobuttons([(plain(5), plain(7)), (plain(25), plain(7))], "name", ["a", "b"], defaultvalue="b"))),
 "check box": (("PDF",), lambda c: c.insert(pdfextra.checkbox(plain(5), plain(7), "name", defaulton=1))),
 "choice field": (("PDF",), lambda c: c.insert(pdfextra.choicefield(plain(5), plain(7), plain(50), plain(20), "name", ["a", "b"], defaultvalue="b"))),
 "pattern": (ALL, lambda c: c.fill(boxpath(), [thepattern()])),
 "pattern on canvas": (ALL, lambda c: c.insert(canvas.canvas([thepattern()])).fill(boxpath())),
}
ITEMNAMES = list(ITEMS.keys())

def items(): return [(f, n) for n in ITEMNAMES for f in ITEMS[n][0]]
