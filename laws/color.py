# Laws of colours (C04).
import colorsys
from pyx import color

def ctx(s, f): return fields(strokeattr=s, fillattr=f)

def out(c, method, context):
    f = newfile()
    getattr(c, method)(f, None, context, None)
    return text(f)

def make(kind):
    if kind == "gray": return color.gray(zeroone("a")), ("a",)
    if kind == "rgb": return color.rgb(zeroone("a"), zeroone("b"), zeroone("c")), ("a", "b", "c")
    if kind == "hsb": return color.hsb(zeroone("a"), zeroone("b"), zeroone("c")), ("a", "b", "c")
    return color.cmyk(zeroone("a"), zeroone("b"), zeroone("c"), zeroone("d")), ("a", "b", "c", "d")

ATTRS = {"gray": ("g",), "rgb": ("r", "g", "b"), "hsb": ("h", "s", "b"), "cmyk": ("c", "m", "y", "k")}

def comps(c, kind): return tuple(getattr(c, n) for n in ATTRS[kind])

def law_components(kind=["gray", "rgb", "hsb", "cmyk"]):
    c, n = make(kind)
    same(comps(c, kind), tuple(num(x) for x in n))
    same(comps(getattr(color, kind)(), kind), (0,)*len(n), "default")

def law_range(kind=["gray", "rgb", "hsb", "cmyk"]):
    cls = getattr(color, kind)
    n = len(ATTRS[kind])
    names = ("a", "b", "c", "d")[:n]
    ok = True
    for x in names: ok = ok and (0 <= num(x)) and (num(x) <= 1)
    r = outcome(lambda: cls(*[num(x) for x in names]))
    same(r[0] == "ok", ok, "accepted exactly within [0, 1]")
    for i in range(n):
        a = [0.5]*n
        a[i] = 1 + pos("e")
        same(outcome(lambda: cls(*a)), ("raise", "ValueError"), "above %d" % i)
        a[i] = -pos("e")
        same(outcome(lambda: cls(*a)), ("raise", "ValueError"), "below %d" % i)
        a[i] = 1
        same(outcome(lambda: cls(*a))[0], "ok", "one %d" % i)
        a[i] = 0
        same(outcome(lambda: cls(*a))[0], "ok", "zero %d" % i)

OPS = {"gray": ("setgray", "G", "g"), "rgb": ("setrgbcolor", "RG", "rg"), "cmyk": ("setcmykcolor", "K", "k"), "hsb": ("sethsbcolor", None, None)}

def law_ps(kind=["gray", "rgb", "hsb", "cmyk"]):
    c, n = make(kind)
    fmt = " ".join(["%f"]*len(n)) + " "
    v = tuple(num(x) for x in n)
    for s in (True, False):
        for f in (True, False):
            same(out(c, "processPS", ctx(s, f)), fmt % v + OPS[kind][0] + "\n", "%s %s" % (s, f))

def law_pdf(kind=["gray", "rgb", "cmyk"]):
    c, n = make(kind)
    v = tuple(num(x) for x in n)
    fmt = " ".join(["%f"]*len(n)) + " "
    S, F = fmt % v + OPS[kind][1] + "\n", fmt % v + OPS[kind][2] + "\n"
    same(out(c, "processPDF", ctx(True, True)), S + F, "both")
    same(out(c, "processPDF", ctx(True, False)), S, "stroke")
    same(out(c, "processPDF", ctx(False, True)), F, "fill")
    same(out(c, "processPDF", ctx(False, False)), "", "none")

def law_pdf_hsb():
    h, s, b = unit("a"), unit("b"), unit("c")
    R, G, B = unit("r"), unit("g"), unit("bb")
    trust("colorsys.hsv_to_rgb", lambda x, y, z: (R, G, B) if (x, y, z) == (h, s, b) else (0, 0, 0))
    c = color.hsb(h, s, b)
    v = "%f %f %f " % (R, G, B)
    same(out(c, "processPDF", ctx(True, True)), v + "RG\n" + v + "rg\n", "both")
    same(out(c, "processPDF", ctx(True, False)), v + "RG\n", "stroke")
    same(out(c, "processPDF", ctx(False, True)), v + "rg\n", "fill")

def law_svg(kind=["gray", "rgb", "cmyk", "hsb"]):
    c = {"gray": color.gray(1), "rgb": color.rgb(1, 0, 0.5), "cmyk": color.cmyk(0, 1, 0.5, 0), "hsb": color.hsb(0, 1, 1)}[kind]
    hexa = {"gray": "#fff", "rgb": "#ff007f", "cmyk": "#ff007f", "hsb": "#f00"}[kind]
    if kind == "hsb": trust("colorsys.hsv_to_rgb", lambda x, y, z: (1, 0, 0))
    for s in (True, False):
        for f in (True, False):
            x = fields(strokeattr=s, fillattr=f, strokecolor="old", fillcolor="old")
            c.processSVGattrs({}, None, x, None)
            same((x.strokecolor, x.fillcolor), (hexa if s else "old", hexa if f else "old"), "%s %s" % (s, f))

# --- conversions --------------------------------------------------------------------------------

def law_gray_conversion():
    c, n = make("gray")
    a = num("a")
    same(comps(c.rgb(), "rgb"), (a, a, a), "rgb")
    same(comps(c.cmyk(), "cmyk"), (0, 0, 0, 1-a), "cmyk")
    same(comps(c.hsb(), "hsb"), (0, 0, a), "hsb")
    same(comps(c.gray(), "gray"), (a,), "gray")
    same(comps(c.grey(), "gray"), (a,), "grey")

def law_rgb_conversion():
    c, n = make("rgb")
    r, g, b = num("a"), num("b"), num("c")
    same(comps(c.rgb(), "rgb"), (r, g, b), "rgb")
    same(comps(c.gray(), "gray"), (0.3*r + 0.59*g + 0.11*b,), "gray")
    same(comps(c.grey(), "gray"), (0.3*r + 0.59*g + 0.11*b,), "grey")
    k = min(1-r, 1-g, 1-b)
    same(comps(c.cmyk(), "cmyk"), (1-r-k, 1-g-k, 1-b-k, k), "cmyk")
    trust("colorsys.rgb_to_hsv", lambda x, y, z: ((x+y)/4, (y+z)/5, (z+x)/6))
    same(comps(c.hsb(), "hsb"), ((r+g)/4, (g+b)/5, (b+r)/6), "hsb")

def law_rgb_conversion_devicefunctions():
    # black generation and under colour removal as configured
    c, n = make("rgb")
    r, g, b = num("a"), num("b"), num("c")
    color.set(UCRc=lambda x: x/2, UCRm=lambda x: x/3, UCRy=lambda x: x/5, BG=lambda x: x/7)
    k = min(1-r, 1-g, 1-b)
    clip = lambda x: min(1, max(0, x))
    same(comps(c.cmyk(), "cmyk"), (clip(1-r-k/2), clip(1-g-k/3), clip(1-b-k/5), k/7), "all")
    color.set(UCRm=lambda x: x/11)
    same(comps(c.cmyk(), "cmyk"), (clip(1-r-k/2), clip(1-g-k/11), clip(1-b-k/5), k/7), "selective")

def law_cmyk_conversion():
    c, n = make("cmyk")
    C, M, Y, K = num("a"), num("b"), num("c"), num("d")
    same(comps(c.cmyk(), "cmyk"), (C, M, Y, K), "cmyk")
    same(comps(c.rgb(), "rgb"), (1-min(1, C+K), 1-min(1, M+K), 1-min(1, Y+K)), "rgb")
    same(comps(c.gray(), "gray"), (1-min(1, 0.3*C + 0.59*M + 0.11*Y + K),), "gray")
    same(comps(c.grey(), "gray"), (1-min(1, 0.3*C + 0.59*M + 0.11*Y + K),), "grey")
    trust("colorsys.rgb_to_hsv", lambda x, y, z: ((x+y)/4, (y+z)/5, (z+x)/6))
    same(comps(c.hsb(), "hsb"), comps(c.rgb().hsb(), "hsb"), "hsb")

def law_hsb_conversion():
    c, n = make("hsb")
    h, s, b = num("a"), num("b"), num("c")
    trust("colorsys.hsv_to_rgb", lambda x, y, z: ((x+y)/4, (y+z)/5, (z+x)/6))
    R = ((h+s)/4, (s+b)/5, (b+h)/6)
    same(comps(c.hsb(), "hsb"), (h, s, b), "hsb")
    same(comps(c.rgb(), "rgb"), R, "rgb")
    same(comps(c.cmyk(), "cmyk"), comps(color.rgb(*R).cmyk(), "cmyk"), "cmyk")
    same(comps(c.gray(), "gray"), comps(color.rgb(*R).gray(), "gray"), "gray")
    same(comps(c.grey(), "gray"), comps(color.rgb(*R).gray(), "gray"), "grey")

def law_roundtrip_cmyk():
    # rgb -> cmyk -> rgb with the default device functions
    c, n = make("rgb")
    same(comps(c.cmyk().rgb(), "rgb"), comps(c, "rgb"))

def law_conversion_keeps_colour(kind=["gray", "rgb", "cmyk", "hsb"]):
    trust("colorsys.hsv_to_rgb", lambda x, y, z: ((x+y)/4, (y+z)/5, (z+x)/6))
    trust("colorsys.rgb_to_hsv", lambda x, y, z: ((x+y)/4, (y+z)/5, (z+x)/6))
    c, n = make(kind)
    s = snapshot(c)
    c.rgb(); c.cmyk(); c.hsb(); c.gray()
    same(s, snapshot(c))
    check(disjoint(getattr(c, kind)(), c), "fresh")

def law_8bit(kind=["gray", "rgb", "cmyk"]):
    c, n = make(kind)
    same(c.to8bitbytes(), bytesof(*[int(num(x)*255) for x in n]))

def law_8bit_hsb():
    h, s, b = unit("a"), unit("b"), unit("c")
    c = color.hsb(h, s, b)
    r = outcome(lambda: c.to8bitbytes())
    # hue, saturation and brightness are no device colour space: either encode as rgb or refuse
    check(r[0] == "ok" or r[1] in ("RuntimeError", "AttributeError"), "")

def law_colorspace():
    same(color.gray(0).colorspacestring(), "/DeviceGray", "gray")
    same(color.rgb(0, 0, 0).colorspacestring(), "/DeviceRGB", "rgb")
    same(color.cmyk(0, 0, 0, 0).colorspacestring(), "/DeviceCMYK", "cmyk")
    same(outcome(lambda: color.hsb(0, 0, 0).colorspacestring())[0], "raise", "hsb")

def law_hexstring():
    for (r, g, b, full, short) in ((1, 0, 0.5, "#ff007f", "#ff007f"), (1, 0, 0, "#ff0000", "#f00"), (0.2, 0.4, 0.6, None, "#369"),
                                   (0, 0, 0, "#000000", "#000"), (1, 1, 0.9, "#ffffe5", "#ffffe5")):
        c = color.rgb(r, g, b)
        if full is not None: same(c.tohexstring(cssstrip=0), full, "full")
        if full is not None: same(c.tohexstring(cssstrip=0, addhash=0), full[1:], "no hash")
        if full is not None: same(c.tohexstring(), short, "css")

def law_fromhexstring():
    for s, v in (("#ff8000", (255, 128, 0)), ("0a141e", (10, 20, 30)), ("#369", (51, 102, 153)), ("f01", (255, 0, 17)), (" #010203 ", (1, 2, 3))):
        same(comps(color.rgbfromhexstring(s), "rgb"), tuple(x/255 for x in v), s)
    for s in ("#ff80", "ff800", "#", "#1234567"):
        same(outcome(lambda: color.rgbfromhexstring(s))[0], "raise", "reject " + s)

# --- gradients --------------------------------------------------------------------------------------

def law_lineargradient(kind=["gray", "rgb", "hsb", "cmyk"]):
    n = len(ATTRS[kind])
    cls = getattr(color, kind)
    lo = [unit("l%d" % i) for i in range(n)]
    hi = [unit("h%d" % i) for i in range(n)]
    g = getattr(color, "lineargradient_" + kind)(cls(*lo), cls(*hi))
    check(isclass(g.getcolor(0), cls), "kind")
    same(comps(g.getcolor(0), kind), tuple(lo), "start")
    same(comps(g.getcolor(1), kind), tuple(hi), "end")
    p = unit("p")
    same(comps(g.getcolor(p), kind), tuple(l + (h-l)*p for l, h in zip(lo, hi)), "between")

def law_functiongradient(kind=["gray", "rgb", "hsb", "cmyk"]):
    n = len(ATTRS[kind])
    fs = [lambda x: x/2, lambda x: x/3, lambda x: x/5, lambda x: x/7][:n]
    g = getattr(color, "functiongradient_" + kind)(*fs)
    p = unit("p")
    same(comps(g.getcolor(p), kind), tuple(f(p) for f in fs), "positional")
    if kind == "gray": return
    kw = dict(zip(["f_" + a for a in ATTRS[kind]], fs))
    g = getattr(color, "functiongradient_" + kind)(**kw)
    same(comps(g.getcolor(p), kind), tuple(f(p) for f in fs), "keywords")

def law_select():
    lo, hi = unit("l"), unit("h")
    g = color.lineargradient_gray(color.gray(lo), color.gray(hi))
    same(g.select(0, 1).g, lo, "single")
    for m in (2, 3, 5):
        for i in range(m):
            same(g.select(i, m).g, lo + (hi-lo)*i/(m-1), "%d of %d" % (i, m))
    n = integer("n")
    assume(n > 1)
    same(g.select(0, n).g, lo, "first")
    same(g.select(n-1, n).g, hi, "last")

def law_gradient_conversion():
    lo, hi, p = unit("l"), unit("h"), unit("p")
    g = color.lineargradient_gray(color.gray(lo), color.gray(hi))
    v = lo + (hi-lo)*p
    same(comps(color.rgbgradient(g).getcolor(p), "rgb"), (v, v, v), "rgb")
    same(comps(color.cmykgradient(g).getcolor(p), "cmyk"), (0, 0, 0, 1-v), "cmyk")
    same(comps(color.rgbgradient(g).select(0, 3), "rgb"), (lo, lo, lo), "select")

ENDS = {"Gray": (("gray", 1), ("gray", 0)), "Grey": (("gray", 1), ("gray", 0)), "ReverseGray": (("gray", 0), ("gray", 1)),
        "ReverseGrey": (("gray", 0), ("gray", 1)),
        "Rainbow": (("hsb", 0, 1, 1), ("hsb", 2/3, 1, 1)), "ReverseRainbow": (("hsb", 2/3, 1, 1), ("hsb", 0, 1, 1)),
        "Hue": (("hsb", 0, 1, 1), ("hsb", 1, 1, 1)), "ReverseHue": (("hsb", 1, 1, 1), ("hsb", 0, 1, 1))}
RGB = {"Red": (1, 0, 0), "Green": (0, 1, 0), "Blue": (0, 0, 1), "White": (1, 1, 1), "Black": (0, 0, 0)}

def law_predefined(name=["Gray", "Grey", "ReverseGray", "ReverseGrey", "Rainbow", "ReverseRainbow", "Hue", "ReverseHue"]):
    g = getattr(color.gradient, name)
    lo, hi = ENDS[name]
    same(comps(g.getcolor(0), lo[0]), lo[1:], "start")
    same(comps(g.getcolor(1), hi[0]), hi[1:], "end")

def law_predefined_rgb():
    for a in RGB:
        for b in RGB:
            if not hasattr(color.gradient, a + b): continue
            g = getattr(color.gradient, a + b)
            same(comps(g.getcolor(0), "rgb"), RGB[a], "start " + a + b)
            same(comps(g.getcolor(1), "rgb"), RGB[b], "end " + a + b)

def law_predefined_reverse():
    p = unit("p")
    G = color.gradient
    for a, b, kind in ((G.Gray, G.ReverseGray, "gray"), (G.Rainbow, G.ReverseRainbow, "hsb"), (G.Hue, G.ReverseHue, "hsb"), (G.BlackYellow, G.YellowBlack, "rgb"), (G.Jet, G.ReverseJet, "rgb")):
        for q in (0, 1, 0.25, 0.5, 0.75, 0.125, 0.9):
            same(comps(a.getcolor(q), kind), comps(b.getcolor(1-q), kind), "%s" % q)

def law_named():
    same(comps(color.rgb.red, "rgb"), (1, 0, 0), "red"); same(comps(color.rgb.green, "rgb"), (0, 1, 0), "green"); same(comps(color.rgb.blue, "rgb"), (0, 0, 1), "blue")
    same(comps(color.rgb.white, "rgb"), (1, 1, 1), "white"); same(comps(color.rgb.black, "rgb"), (0, 0, 0), "black")
    same(color.gray.black.g, 0, "gray black"); same(color.gray.white.g, 1, "gray white")
    same(comps(color.cmyk.Cyan, "cmyk"), (1, 0, 0, 0), "Cyan"); same(comps(color.cmyk.Magenta, "cmyk"), (0, 1, 0, 0), "Magenta")
    same(comps(color.cmyk.Yellow, "cmyk"), (0, 0, 1, 0), "Yellow"); same(comps(color.cmyk.Black, "cmyk"), (0, 0, 0, 1), "Black")
    same(comps(color.cmyk.White, "cmyk"), (0, 0, 0, 0), "White"); same(comps(color.cmyk.Red, "cmyk"), (0, 1, 1, 0), "Red")
    same(comps(color.cmyk.Green, "cmyk"), (1, 0, 1, 0), "Green"); same(comps(color.cmyk.Blue, "cmyk"), (1, 1, 0, 0), "Blue")

# --- transparency ------------------------------------------------------------------------------------

def law_transparency():
    v = unit("v")
    t = color.transparency(v)
    same(out(t, "processPS", ctx(True, True)), "%f .setshapealpha\n" % (1-v), "PS")
    for s in (True, False):
        for f in (True, False):
            x = fields(strokeattr=s, fillattr=f, strokeopacity="old", fillopacity="old")
            t.processSVGattrs({}, None, x, None)
            same((x.strokeopacity, x.fillopacity), ((1-v) if s else "old", (1-v) if f else "old"), "SVG %s %s" % (s, f))

class Registry:
    def __init__(self): self.added = []; self.resources = []
    def add(self, o): self.added.append(o)
    def addresource(self, type, name, o, procset=None): self.resources.append((type, name, o))

def law_transparency_pdf():
    v = unit("v")
    t = color.transparency(v)
    for s in (True, False):
        for f in (True, False):
            if not s and not f: continue
            r = Registry()
            g = newfile()
            t.processPDF(g, None, ctx(s, f), r)
            same(len(r.added), 1, "one object")
            same(len(r.resources), 1, "one resource")
            same(r.resources[0][0], "ExtGState", "resource type")
            check(r.resources[0][2] is r.added[0], "same object")
            same(text(g), "/" + r.resources[0][1] + " gs\n", "operator uses the registered name")
            h = newfile()
            r.added[0].write(h, None, None)
            same(text(h), "<< /Type /ExtGState " + ("/CA %f " % (1-v) if s else "") + ("/ca %f " % (1-v) if f else "") + ">>\n", "dictionary %s %s" % (s, f))
