# Laws of shared resources (C21): drawings side by side in a file look as they do alone.
from laws.pagelib import *

def font2(): return T1builtinfont("Times-Roman", fakemetric())
class othertype1(faketype1):
    name = "Others"

F = {}
def fonts():
    if "h" not in F:
        F["h"] = helvetica(); F["t"] = font2(); F["s"] = squarefont(fakemetric()); F["o"] = T1font(othertype1(), fakemetric())
    return F

def say(font, *args, **kw): return lambda c: c.insert(fonts()[font].text_pt(*args, **kw))

def many(first, last):
    "a text with many different characters"
    g = dict([(chr(i), "glyph%d" % i) for i in range(1000, 1600)])
    return say("h", 1, 2, "".join([chr(i) for i in range(first, last)]), 10, decoding=g)

def twopatterns(i):
    p = pattern.pattern(xstep=None if i != 2 else 20*unit.t_pt, trafo=None if i != 3 else trafo.rotate(30), bbox=None if i != 4 else bbox.bbox_pt(0, 0, 7, 8))
    p.fill(path.rect_pt(2, 2, 3, 3 if i else 4), [color.rgb.blue])
    return p

def themesh(i):
    cs = [color.rgb.red, color.rgb.blue, color.rgb.green]
    n = [mesh.node_pt((1, 2), cs[i % 3]), mesh.node_pt((11, 2), color.rgb.blue), mesh.node_pt((5, 22 if i < 3 else 23), color.rgb.green)]
    return mesh.mesh([mesh.element(n)])

def dropped(w, h, mode, off, **kw):
    n = w*h*len(mode)
    return lambda c: c.insert(bitmap.bitmap_pt(3, 4, bitmap.image(w, h, mode, bytes([off+i for i in range(n)])), height_pt=10, **kw))

def filled(*attrs): return lambda c: c.fill(boxpath(), list(attrs))
def stroked(*attrs): return lambda c: c.stroke(boxpath(), list(attrs))
def clipped(p): return lambda c: c.insert(canvas.canvas([canvas.clip(p)])).stroke(boxpath())

P = [twopatterns(i) for i in range(5)]

def closepattern(xstep=20, ystep=20, angle=30, w=3):
    p = pattern.pattern(xstep=xstep*unit.t_pt, ystep=ystep*unit.t_pt, trafo=trafo.rotate(angle), bbox=bbox.bbox_pt(0, 0, 7, 8))
    p.fill(path.rect_pt(2, 2, w, 3), [color.rgb.blue])
    return p
Q = [closepattern(), closepattern(xstep=20.003), closepattern(ystep=20.003), closepattern(angle=30.3), closepattern(w=3.003)]

# kind -> (formats, drawings)
FAMILIES = {
 "sizes": (ALL, [say("h", 1, 2, "A", 10), say("h", 1, 2, "A", 12), say("h", 1, 2, "Vx", 10)]),
 "slants": (ALL, [say("h", 1, 2, "A", 10), say("h", 1, 2, "A", 10, slant=0.25), say("h", 1, 2, "A", 10, slant=-0.125), say("s", 1, 2, "A", 10, slant=0.25)]),
 "close slants": (ALL, [say("h", 1, 2, "A", 10, slant=0.26), say("h", 1, 2, "A", 10, slant=0.264), say("s", 1, 2, "A", 10, slant=0.26), say("s", 1, 2, "A", 10, slant=0.264)]),
 "fonts": (ALL, [say("h", 1, 2, "A", 10), say("t", 1, 2, "A", 10), say("s", 1, 2, "A", 10), say("o", 1, 2, "A", 10)]),
 "codes": (("PS", "PDF"), [say("s", 1, 2, "AV", 10), say("s", 1, 2, [65, 66], 10, decoding=None), say("s", 1, 2, [40, 92, 200], 10, decoding=None), say("o", 1, 2, [65], 10, decoding=None)]),
 "spaced": (ALL, [say("h", 1, 2, "AVA", 10), say("h", 1, 2, "AVA", 10, kerning=True), say("h", 1, 2, "AVA", 10, spaced_pt=0.5)]),
 "many glyphs": (("PS", "PDF"), [many(1000, 1200), many(1150, 1300), many(1040, 1050), many(1300, 1500)]),
 "transparencies": (ALL, [filled(color.transparency(0.5)), filled(color.transparency(0.25)), stroked(color.transparency(0.5)), stroked(color.transparency(0.25)), filled()]),
 "close transparencies": (ALL, [filled(color.transparency(0.5)), filled(color.transparency(0.5003)), stroked(color.transparency(0.5003))]),
 "close patterns": (("PS", "PDF"), [filled(p) for p in Q]),
 "patterns": (("PS", "PDF"), [filled(p) for p in P] + [filled(color.rgb.red)]),
 "SVG patterns": (("SVG",), [filled(P[0]), filled(P[1]), filled(P[3]), filled()]),
 "meshes": (("PS", "PDF"), [lambda c: c.insert(themesh(0)), lambda c: c.insert(themesh(1)), lambda c: c.insert(themesh(3))]),
 "bitmaps": (ALL, [dropped(2, 1, "L", 1), dropped(2, 1, "L", 2), dropped(1, 2, "L", 1), dropped(2, 1, "RGB", 1), dropped(2, 1, "RGBA", 1), dropped(2, 1, "LA", 1), dropped(3, 1, "LA", 1), dropped(3, 1, "L", 1)]),
 "stored bitmaps": (("PS",), [dropped(2, 1, "L", 1, PSstoreimage=1, compressmode=None), dropped(2, 1, "L", 2, PSstoreimage=1, compressmode=None), dropped(1, 2, "RGB", 1, PSstoreimage=1, compressmode=None), dropped(2, 1, "L", 1)]),
 "clips": (ALL, [clipped(boxpath()), clipped(path.rect_pt(0, 0, 5, 5)), stroked()]),
}

# drawings which need not differ
COINCIDE = ["fonts", "stored bitmaps"]

def alone(fmt, draw):
    c = canvas.canvas()
    draw(c)
    return pictures(marks(fmt, c))[:-1]

PAIRS = [(f, n, i) for n in FAMILIES for f in FAMILIES[n][0] for i in range(len(FAMILIES[n][1]))]

def law_side(case=PAIRS):
    "two drawings on a page look as they do alone"
    setup(); nobbox()
    trust("logging.Logger.warning", lambda *a: None)
    fmt, n, i = case
    l = FAMILIES[n][1]
    a = alone(fmt, l[i])
    same(errors(a), [])
    for j in range(len(l)):
        b = alone(fmt, l[j])
        if i != j and n not in COINCIDE: check(a != b, "different drawings")
        c = canvas.canvas()
        l[i](c)
        l[j](c)
        same(pictures(marks(fmt, c)), a + b + (("page",),))

def law_pages(case=[(f, n) for n in FAMILIES for f in FAMILIES[n][0] if f != "SVG"]):
    "drawings on several pages look as they do alone"
    setup(); nobbox()
    trust("logging.Logger.warning", lambda *a: None)
    fmt, n = case
    l = FAMILIES[n][1]
    w = ()
    pages = []
    for d in l + [l[0]]:
        c = canvas.canvas()
        d(c)
        pages.append(document.page(c))
        w = w + alone(fmt, d) + (("page",),)
    d = document.document(pages)
    same(pictures(pspage(ps(d)) if fmt == "PS" else pdfpages(pdffile(d, compress=False))), w)

def law_all(case=[(f, n) for f in FORMATS for n in range(4)]):
    "many kinds of drawings on a page"
    setup(); nobbox()
    trust("logging.Logger.warning", lambda *a: None)
    fmt, k = case
    c = canvas.canvas()
    w = ()
    for n in FAMILIES:
        fm, l = FAMILIES[n]
        if fmt not in fm or n == "many glyphs": continue
        d = l[k % len(l)]
        w = w + alone(fmt, d)
        d(c)
    same(pictures(marks(fmt, c)), w + (("page",),))
