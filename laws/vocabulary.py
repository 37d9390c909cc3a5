# Laws of the drawing vocabulary of the output formats (C18).
from laws.pagelib import *

def law_stroke(fmt=FORMATS):
    setup(); nobbox()
    c = canvas.canvas()
    c.stroke(thepath())
    same(marks(fmt, c), (strokemark(SEGS, state()), ("page",)))

def law_fill(fmt=FORMATS):
    setup(); nobbox()
    c = canvas.canvas()
    c.fill(thepath())
    same(marks(fmt, c), (fillmark(SEGS, state()), ("page",)))

def law_draw(fmt=FORMATS):
    setup(); nobbox()
    c = canvas.canvas()
    c.draw(thepath(), [deco.stroked, deco.filled])
    same(marks(fmt, c), (fillmark(SEGS, state()), strokemark(SEGS, state()), ("page",)))

CASES = [(f, n) for f in FORMATS for n in ATTRNAMES]

def law_pathattr(case=CASES):
    "an attribute of the path"
    setup(); nobbox()
    fmt, n = case
    a, st, kind = ATTRS[n]()
    for k in "sf":
        c = canvas.canvas()
        if k == "s": c.stroke(thepath(), [a])
        else: c.fill(thepath(), [a])
        same(marks(fmt, c), ((strokemark if k == "s" else fillmark)(SEGS, state(**st)), ("page",)), k)

def law_ownattr(case=CASES):
    "an attribute of the stroke or of the fill only"
    setup(); nobbox()
    fmt, n = case
    a, st, kind = ATTRS[n]()
    if "s" in kind:
        c = canvas.canvas()
        c.draw(thepath(), [deco.stroked([a]), deco.filled])
        same(marks(fmt, c), (fillmark(SEGS, state()), strokemark(SEGS, state(**st)), ("page",)), "stroked, both")
        c = canvas.canvas()
        c.draw(thepath(), [deco.stroked([a])])
        same(marks(fmt, c), (strokemark(SEGS, state(**st)), ("page",)), "stroked")
    if "f" in kind:
        c = canvas.canvas()
        c.draw(thepath(), [deco.stroked, deco.filled([a])])
        same(marks(fmt, c), (fillmark(SEGS, state(**st)), strokemark(SEGS, state()), ("page",)), "filled, both")
        c = canvas.canvas()
        c.draw(thepath(), [deco.filled([a])])
        same(marks(fmt, c), (fillmark(SEGS, state(**st)), ("page",)), "filled")

def law_canvasattr(case=CASES):
    "an attribute of the canvas"
    setup(); nobbox()
    fmt, n = case
    a, st, kind = ATTRS[n]()
    c = canvas.canvas()
    s = c.insert(canvas.canvas([a]))
    s.stroke(thepath())
    s.fill(thepath())
    same(marks(fmt, c), (strokemark(SEGS, state(**st)), fillmark(SEGS, state(**st)), ("page",)))

def law_reset(case=[(f, n) for f in FORMATS for n in ("solid", "rellength", "zero")]):
    "dashes depending on the line width, and their removal"
    setup(); nobbox()
    fmt, n = case
    c = canvas.canvas()
    if n == "solid":
        s = c.insert(canvas.canvas([style.linestyle.dashed]))
        s.stroke(thepath(), [style.linestyle.solid])
        want = {"dash": ((), 0)}
    elif n == "rellength":
        c.stroke(thepath(), [style.dash([1.5, 2.5], offset=num("off"), rellengths=1), style.linewidth(1.5*unit.t_pt)])
        want = {"dash": ((1.5*1.5/LW, 2.5*1.5/LW), num("off")), "lw": 1.5}
    else:
        c.stroke(thepath(), [style.linestyle.dotted])
        want = {"dash": ((0, 2), 0), "cap": 1}
    got = marks(fmt, c)
    same(len(got), 2)
    g = got[0]
    w = strokemark(SEGS, state(**want))
    # the offset is of no relevance without dashes
    same(g[:9] + g[10:], w[:9] + w[10:])
    same(len(g[9][0]), len(w[9][0]))
    check(all([abs(x-y) < 1e-4 for x, y in zip(g[9][0], w[9][0])]), 'lengths of the dashes')
    if w[9][0]: same(g[9][1], w[9][1])

# name -> (attribute of the canvas, attribute of what is within, change of the state)
OVERRIDES = {
 "linewidth": lambda: (style.linewidth(3*unit.t_pt), style.linewidth(1.5*unit.t_pt), {"lw": 1.5}),
 "normal linewidth": lambda: (style.linewidth(3*unit.t_pt), style.linewidth.normal, {"lw": LW}),
 "butt cap": lambda: (style.linecap.round, style.linecap.butt, {"cap": 0}),
 "miter join": lambda: (style.linejoin.bevel, style.linejoin.miter, {"join": 0}),
 "miterlimit": lambda: (style.miterlimit(3), style.miterlimit(10), {"miter": 10}),
 "miterlimit 1": lambda: (style.miterlimit(3), style.miterlimit(1), {"miter": 1}),
 "dash without offset": lambda: (style.dash([1, 2], offset=5, rellengths=0), style.dash([3, 4, 5], rellengths=0), {"dash": ((3, 4, 5), 0)}),
 "dash with offset": lambda: (style.dash([1, 2], offset=5, rellengths=0), style.dash([3, 4], offset=2, rellengths=0), {"dash": ((3, 4), 2)}),
 "dash with negative offset": lambda: (style.dash([1, 2], offset=5, rellengths=0), style.dash([3, 4], offset=-2, rellengths=0), {"dash": ((3, 4), -2)}),
 "dash with zero": lambda: (style.dash([1, 2], offset=5, rellengths=0), style.dash([0, 4], offset=0.5, rellengths=0), {"dash": ((0, 4), 0.5)}),
 "nonzero": lambda: (style.fillrule.even_odd, style.fillrule.nonzero_winding, {"rule": 0}),
 "black": lambda: (color.rgb.red, color.rgb.black, {"color": BLACK}),
 "white": lambda: (color.rgb.red, color.gray.white, {"color": ("rgb", 1, 1, 1)}),
 "opaque": lambda: (color.transparency(0.25), color.transparency(0), {"alpha": 1}),
 "invisible": lambda: (color.transparency(0.25), color.transparency(1), {"alpha": 0}),
}

def law_override(case=[(f, n, i) for f in FORMATS for n in OVERRIDES for i in (False, True)]):
    "an attribute replaces the one of the surrounding canvas, also when it returns to the default"
    setup(); nobbox()
    trust("logging.Logger.warning", lambda *a: None)
    fmt, n, inner = case
    a, b, st = OVERRIDES[n]()
    c = canvas.canvas()
    s = c.insert(canvas.canvas([a]))
    if inner:
        t = s.insert(canvas.canvas([b]))
        t.stroke(boxpath())
        t.fill(boxpath())
    else:
        if n != "nonzero": s.stroke(boxpath(), [b])
        if "rule" in st or "color" in st or "alpha" in st: s.fill(boxpath(), [b])
    w = ()
    if inner or n != "nonzero": w = w + (strokemark(CLIPSEGS, state(**st)),)
    if inner or "rule" in st or "color" in st or "alpha" in st: w = w + (fillmark(CLIPSEGS, state(**st)),)
    same(marks(fmt, c), w + (("page",),))

STROKEATTRS = ["linewidth", "round cap", "bevel join", "miterlimit", "dash", "red"]

def law_canvastrafo(fmt=FORMATS):
    "the transformation of a canvas applies to its paths and strokes"
    setup(); nobbox()
    c = canvas.canvas()
    s = c.insert(canvas.canvas([thetrafo()]))
    s.stroke(thepath())
    s.fill(secondpath())
    c.stroke(secondpath())
    same(marks(fmt, c), (strokemark(SEGS, state(ctm=TM)), fillmark(SEGS2, state(ctm=TM)), strokemark(SEGS2, state()), ("page",)))

def law_insertattrs(fmt=FORMATS):
    "attributes given when a canvas is inserted"
    setup(); nobbox()
    c = canvas.canvas()
    s = canvas.canvas()
    s.stroke(thepath())
    c.insert(s, [definitetrafo(), style.linecap.round, boxclip()])
    same(marks(fmt, c), (strokemark(SEGS, state(ctm=TM1, cap=1, clips=((CLIPSEGS, 0),))), ("page",)))
    # trafo and clip in the other order
    c = canvas.canvas()
    c.insert(s, [boxclip(), definitetrafo()])
    same(marks(fmt, c), (strokemark(SEGS, state(ctm=TM1, clips=((moved(TM1, CLIPSEGS), 0),))), ("page",)))

def law_nestedtrafo(fmt=FORMATS):
    setup(); nobbox()
    c = canvas.canvas()
    a = c.insert(canvas.canvas([trafo.translate_pt(num("tx"), num("ty")), color.rgb.red]))
    b = a.insert(canvas.canvas([trafo.scale_pt(pos("sx"), pos("sy"), 0, 0), style.linewidth(2*unit.t_pt)]))
    b.stroke(thepath())
    b.fill(thepath(), [color.rgb.blue])
    a.stroke(secondpath())
    m = (pos("sx"), 0, 0, pos("sy"), num("tx"), num("ty"))
    same(marks(fmt, c), (strokemark(SEGS, state(ctm=m, lw=2, color=RED)), fillmark(SEGS, state(ctm=m, fill=("rgb", 0, 0, 1))),
                         strokemark(SEGS2, state(ctm=(1, 0, 0, 1, num("tx"), num("ty")), color=RED)), ("page",)))

def law_pathtrafo(fmt=FORMATS):
    "a transformation given for a path transforms the path only"
    setup(); nobbox()
    c = canvas.canvas()
    c.stroke(triangle(), [thetrafo()])
    same(marks(fmt, c), (strokemark(moved(TM, TRISEGS), state()), ("page",)))

def law_clip(fmt=FORMATS):
    setup(); nobbox()
    c = canvas.canvas()
    s = c.insert(canvas.canvas([boxclip()]))
    s.stroke(thepath())
    s.fill(secondpath())
    c.fill(secondpath())
    cl = ((CLIPSEGS, 0),)
    same(marks(fmt, c), (strokemark(SEGS, state(clips=cl)), fillmark(SEGS2, state(clips=cl)), fillmark(SEGS2, state()), ("page",)))

def law_twoclips(fmt=FORMATS):
    setup(); nobbox()
    c = canvas.canvas()
    s = c.insert(canvas.canvas([boxclip()])).insert(canvas.canvas([canvas.clip(triangle())]))
    s.stroke(thepath())
    same(marks(fmt, c), (strokemark(SEGS, state(clips=((CLIPSEGS, 0), (TRISEGS, 0)))), ("page",)))

COLORS = [("rgb", lambda: color.rgb(0.2, 0.4, 1)), ("gray", lambda: color.gray(0.6)), ("cmyk", lambda: color.cmyk(0, 1, 0.8, 0)), ("hsb", lambda: color.hsb(0.5, 1, 1)),
          ("gradient", lambda: color.gradient.WhiteRed.getcolor(0.4)), ("named", lambda: color.cmyk.OliveGreen)]

def asmark(c, fmt):
    if fmt != "SVG":
        if isinstance(c, color.cmyk): return ("cmyk", c.c, c.m, c.y, c.k)
    r = c.rgb()
    return ("rgb", r.r, r.g, r.b)

def hsbcase(c, fmt): return fmt == "PS" and isinstance(c, color.hsb)

def law_color(case=[(f, n[0], k) for f in FORMATS for n in COLORS for k in ("stroke", "fill", "both", "canvas")]):
    setup(); nobbox()
    fmt, n, k = case
    trust("colorsys.hsv_to_rgb", lambda h, s, v: (0, 1, 1))
    col = dict(COLORS)[n]()
    c = canvas.canvas()
    if k == "stroke": c.stroke(thepath(), [col])
    elif k == "fill": c.fill(thepath(), [col])
    elif k == "both": c.draw(thepath(), [deco.stroked, deco.filled, col])
    else: c.insert(canvas.canvas([col])).draw(thepath(), [deco.stroked, deco.filled])
    got = marks(fmt, c)
    want = asmark(col, fmt)
    same(len(got), 2 if k in ("stroke", "fill") else 3)
    for g in got[:-1]:
        a = g[3]
        if a[0] == "hsb":
            # the only format with this colour space
            check(fmt == "PS", "colour space")
            same(a, ("hsb", col.h, col.s, col.b))
        else:
            same(a[0], want[0])
            # eight bits are good enough
            check(all([abs(x-y) < 0.5/255 + 1e-5 for x, y in zip(a[1:], want[1:])]), "%s %s" % (n, k))

# --- texts ---
X, Y, S = num("x"), num("y"), pos("s")
def law_text(fmt=FORMATS):
    setup(); nobbox()
    c = canvas.canvas()
    c.insert(helvetica().text_pt(X, Y, "Ab(&\\<x", S))
    same(marks(fmt, c), (textmark(fmt, ["Ab(&\\<x"], X, Y, S, state()), ("page",)))

TEXTCASES = [("plain", {}, ["AVA"]), ("kerning", {"kerning": True}, ["A", -0.125*S, "V", -0.1*S, "A"]), ("spaced", {"spaced_pt": pos("sp")}, ["A", pos("sp"), "V", pos("sp"), "A"]),
             ("both", {"kerning": True, "spaced_pt": pos("sp")}, ["A", -0.125*S + pos("sp"), "V", -0.1*S + pos("sp"), "A"]), ("slant", {"slant": pos("sl")}, ["AVA"])]
def law_textoptions(case=[(f, n) for f in FORMATS for n in range(5)]):
    setup(); nobbox()
    fmt, n = case
    name, kw, items = TEXTCASES[n]
    c = canvas.canvas()
    c.insert(helvetica().text_pt(X, Y, "AVA", S, **kw))
    same(marks(fmt, c), (textmark(fmt, items, X, Y, S, state(), slant=kw.get("slant", 0)), ("page",)), name)

def law_textattrs(fmt=FORMATS):
    "attributes of the canvas apply to the texts in it"
    setup(); nobbox()
    c = canvas.canvas()
    f = helvetica()
    c.insert(f.text_pt(1, 2, "A", 10))
    s = c.insert(canvas.canvas([thetrafo(), color.rgb.red, color.transparency(0.25), boxclip()]))
    assume(S != 10)
    s.insert(f.text_pt(X, Y, "Vx", S))
    s.stroke(secondpath())
    s.insert(f.text_pt(X, Y, "b", 7))
    c.insert(f.text_pt(1, 2, "x", 10))
    assume(S != 7)
    st = state(ctm=TM, color=RED, alpha=0.75, clips=((CLIPSEGS, 0),))
    same(marks(fmt, c), (textmark(fmt, ["A"], 1, 2, 10, state()), textmark(fmt, ["Vx"], X, Y, S, st), strokemark(SEGS2, st), textmark(fmt, ["b"], X, Y, 7, st),
                         textmark(fmt, ["x"], 1, 2, 10, state()), ("page",)))

def law_fontfile(fmt=FORMATS):
    "a text of a font given by a font file"
    setup(); nobbox()
    for enc in (True, False):
        c = canvas.canvas()
        c.insert(squarefont(fakemetric()).text_pt(X, Y, "AV" if enc else [65, 66], S, **({} if enc else {"decoding": None})))
        got = marks(fmt, c, textaspath=False)
        same(len(got), 2)
        g = got[0]
        w = textmark(fmt, ["AV"], X, Y, S, state(), font="Squares")
        same(g[:1] + g[2:], w[:1] + w[2:])
        if enc: same(g[1], w[1])

PATHTEXTS = [("plain", {}, ()), ("kerning", {"kerning": True}, (-0.125*S, -0.1*S)), ("spaced", {"spaced_pt": pos("sp")}, (pos("sp"), pos("sp"))),
             ("both", {"kerning": True, "spaced_pt": pos("sp")}, (-0.125*S + pos("sp"), -0.1*S + pos("sp")))]
def law_textaspath(case=[(f, n) for f in FORMATS for n in range(4)]):
    "a text of a font given by a font file as path"
    setup(); nobbox()
    fmt, n = case
    name, kw, extra = PATHTEXTS[n]
    c = canvas.canvas()
    s = c.insert(canvas.canvas([color.rgb.red]))
    s.insert(squarefont(fakemetric()).text_pt(X, Y, "AVA", S, **kw))
    same(marks(fmt, c, textaspath=True), (fillmark(squaresegs(X, Y, S, 3, extra=extra), state(color=RED)), ("page",)))

def law_slantedpath(fmt=FORMATS):
    setup(); nobbox()
    c = canvas.canvas()
    c.insert(squarefont(fakemetric()).text_pt(20, 30, "AVA", 10, slant=0.25))
    same(marks(fmt, c, textaspath=True), (fillmark(squaresegs(20, 30, 10, 3, slant=0.25), state()), ("page",)))

def law_builtinaspath(fmt=FORMATS):
    "fonts without font file stay text"
    setup(); nobbox()
    trust("logging.Logger.warning", lambda *a: None)
    c = canvas.canvas()
    f = helvetica()
    c.insert(f.text_pt(X, Y, "AV", S))
    c.stroke(secondpath())
    c.insert(f.text_pt(X, Y, "x", S))
    same(marks(fmt, c, textaspath=True), (textmark(fmt, ["AV"], X, Y, S, state()), strokemark(SEGS2, state()), textmark(fmt, ["x"], X, Y, S, state()), ("page",)))
