# Laws of the bounding boxes of what is drawn (C19).
from laws.pagelib import *

class recording(canvas.canvas):
    "a canvas which keeps the bounding boxes it was told"
    def __init__(self, *args):
        super().__init__(*args)
        self.seen = []
    def note(self, process, args):
        b = bbox.empty()
        process(*args[:-1], b)
        self.seen.append(b)
        args[-1].set(args[-1] + b)
    def processPS(self, *args): self.note(super().processPS, args)
    def processPDF(self, *args): self.note(super().processPDF, args)
    def processSVG(self, *args): self.note(super().processSVG, args)

def inside(b, r):
    "rectangle r within the bounding box"
    l = b.highrestuple_pt()
    return l[0] <= r[0]+1e-3 and l[1] <= r[1]+1e-3 and l[2] >= r[2]-1e-3 and l[3] >= r[3]-1e-3

def agree(b, r):
    return all([abs(x-y) < 1e-3 for x, y in zip(b.highrestuple_pt(), r)])

def hull(pts):
    return (min(pts[0::2]), min(pts[1::2]), max(pts[0::2]), max(pts[1::2]))

def common(a, b):
    r = (max(a[0], b[0]), max(a[1], b[1]), min(a[2], b[2]), min(a[3], b[3]))
    return r if r[0] <= r[2] and r[1] <= r[3] else None

def union(rs):
    rs = [r for r in rs if r is not None]
    if not rs: return None
    return (min([r[0] for r in rs]), min([r[1] for r in rs]), max([r[2] for r in rs]), max([r[3] for r in rs]))

def textrect(m):
    "the rectangle of a text in the metric used here"
    w = 0
    for g in m[1]:
        if isinstance(g, str): w = w + 0.5
        elif isinstance(g, tuple): w = w + g[0]/m[3][0]
        else: raise ValueError("glyph")
    t = m[3]
    if t[1] == 0: t = (t[0], 0, 0, t[3], t[4], t[5]) # the metric does not know of slanted glyphs
    return app(t, (0, -0.2, w, -0.2, w, 0.7, 0, 0.7))

def rectangle(m, widths):
    "the rectangle of a mark"
    k = m[0]
    if k == "stroke" or k == "fill":
        pts = ()
        for s in m[1]: pts = pts + s[1:]
        r = hull(pts)
        if k == "stroke" and widths:
            a, b, c, d = m[2]
            x, y = 0.5*m[5]*(abs(a)+abs(c)), 0.5*m[5]*(abs(b)+abs(d))
            r = (r[0]-x, r[1]-y, r[2]+x, r[3]+y)
    elif k == "text": r = hull(textrect(m))
    elif k == "picture": r = hull(app(m[-3], (0, 0, 1, 0, 1, 1, 0, 1)))
    elif k == "shading":
        d = m[1] if m[1][0] == "dict" else m[1][1]
        d = dict(d[1:])["Decode"]
        t = m[3] if m[1][0] == "dict" else m[2]
        r = hull(app(t, (d[0], d[2], d[1], d[2], d[1], d[3], d[0], d[3])))
    else: return None
    for cp, rule in m[-1]:
        pts = ()
        for s in cp: pts = pts + s[1:]
        r = r and common(r, hull(pts))
    return r

# these contain more than the rectangles around their parts
EMPTY = ["nothing", "empty canvas", "clipped away", "moved and clipped away"]
LOOSE = ["arrow", "ornaments", "ornaments, filled", "canvas with trafo", "canvas with trafo and clip", "canvas with clip and trafo", "moved canvas with text", "deep", "type 1"]

FIELDS = {
 "text field": [(5, 7, 55, 27)],
 "red text field": [(5, 7, 55, 27)],
 "radio buttons": [(5, 5, 15, 15), (25, 5, 35, 15)],
 "check box": [(5, 5, 15, 15)],
 "choice field": [(5, 7, 55, 27)],
}

def law_drawn(case=[x for x in items() if not (x[0] == "PDF" and x[1] in EMPTY) and x[1] not in FIELDS]):
    "bounding box of what is output"
    setup()
    trust("logging.Logger.warning", lambda *a: None)
    fmt, n = case
    r = recording()
    ITEMS[n][1](r)
    m = pictures(marks(fmt, r))
    if fmt == "PS" or fmt == "PDF": check(len(r.seen) == 1, "asked once")
    e = union([rectangle(x, True) for x in m])
    b = r.seen[0]
    if e is None:
        check(not b, "nothing drawn")
    else:
        check(inside(b, e), "all drawn is within")
        if n not in LOOSE: check(agree(b, e), "nothing else")

def law_asked(case=[x for x in items() if not (x[0] == "PDF" and x[1] in EMPTY) and x[1] not in FIELDS]):
    "bounding box without output, which leaves widths of strokes out"
    setup()
    trust("logging.Logger.warning", lambda *a: None)
    fmt, n = case
    r = canvas.canvas()
    ITEMS[n][1](r)
    e = union([rectangle(x, False) for x in pictures(marks(fmt, r))])
    b = r.bbox()
    if e is None: check(not b, "nothing drawn")
    else:
        check(inside(b, e), "all drawn is within")
        if n not in LOOSE: check(agree(b, e), "nothing else")

def law_fields(n=list(FIELDS)):
    "fields of forms are where they have been placed"
    setup()
    r = recording()
    ITEMS[n][1](r)
    e = union(FIELDS[n])
    if n == "red text field":
        # transformed as the canvas
        e = hull(app((2, -1, 1, 3, 5, 7), (e[0], e[1], e[2], e[1], e[2], e[3], e[0], e[3])))
    t = pdf(r)
    same(pdferrors(t), ())
    check(agree(r.seen[0], e) and agree(r.bbox(), e), "bounding box")
    a = pdfentry(t, "Root", "Pages", "Kids", 0, "Annots")
    check(len(a) == len(FIELDS[n]), "one annotation for each")
    for i in range(len(a)):
        b = pdfentry(t, "Root", "Pages", "Kids", 0, "Annots", i, "Rect")
        if n == "red text field": same(b, app((2, -1, 1, 3, 5, 7), FIELDS[n][0]))
        else: check(all([abs(x-y) < 1e-3 for x, y in zip(b, FIELDS[n][i])]), "rectangle")

# --- boxes of the files ---
def numbers(t, key): return pscomments(t, key)

def outside(b, e): return b[0] <= e[0]+1e-3 and b[1] <= e[1]+1e-3 and b[2] >= e[2]-1e-3 and b[3] >= e[3]-1e-3
def close(b, e): return all([abs(x-y) < 1e-2 for x, y in zip(b, e)])
SHORT = ["stroke", "fill", "both apart", "canvas with style", "canvas with clip", "deep", "text", "mesh", "bitmap", "canvas with trafo and clip"]
PAGES = {"plain": {"bboxenlarge": 0}, "enlarged": {"bboxenlarge": plain(10)}, "default": {}, "own": {"bbox": bbox.bbox_pt(-1000, -1000, 2000, 2000)}}

def law_filebox(case=[(n, k) for n in SHORT for k in PAGES]):
    "boxes of the pages written"
    setup()
    n, kind = case
    for fmt in ITEMS[n][0]:
        c = canvas.canvas()
        ITEMS[n][1](c)
        e = union([rectangle(x, True) for x in pictures(marks(fmt, c))])
        narrow = union([rectangle(x, False) for x in pictures(marks(fmt, c))])
        d = document.document([document.page(c, **PAGES[kind])])
        f = newbinfile()
        if fmt == "PS":
            pswriter.EPSwriter(d, f)
            t = text(f)
            check(len(numbers(t, "%%BoundingBox:")) == 1 and len(numbers(t, "%%HiResBoundingBox:")) == 1, "one of both")
            lo, b = numbers(t, "%%BoundingBox:")[0], numbers(t, "%%HiResBoundingBox:")[0]
            check(outside(lo, b) and all([x == int(x) for x in lo]) and all([abs(x-y) < 1 for x, y in zip(lo, b)]), "integers")
        elif fmt == "PDF":
            pdfwriter.PDFwriter(d, f, compress=False)
            b = pdfentry(text(f), "Root", "Pages", "Kids", 0, "MediaBox")
            check(pdfentry(text(f), "Root", "Pages", "Kids", 0, "CropBox") is None, "no crop box")
            g = newbinfile()
            pdfwriter.PDFwriter(d, g, compress=False, writebbox=True)
            same(pdfentry(text(g), "Root", "Pages", "Kids", 0, "CropBox"), b)
        else:
            svgwriter.SVGwriter(d, f)
            a = dict(svgroot(text(f)))
            v = [float(x) for x in a["viewBox"].split()]
            same((a["x"], a["y"], a["width"], a["height"]), tuple([x + "pt" for x in a["viewBox"].split()]))
            b = (v[0], -v[1]-v[3], v[0]+v[2], -v[1])
        if kind == "own": check(close(b, (-1000, -1000, 2000, 2000)), "own bounding box")
        else:
            check(outside(b, e), "all is within")
            k = {"plain": 0, "enlarged": 10, "default": 1}[kind]
            if n not in LOOSE: check(close(b, union([e, (narrow[0]-k, narrow[1]-k, narrow[2]+k, narrow[3]+k)])), "nothing else")

def law_pageboxes(n=["stroke", "canvas with style", "text"]):
    "boxes of several pages"
    setup()
    pages = []
    rects = []
    for i in range(3):
        c = canvas.canvas([trafo.translate_pt(100*i, -50*i)])
        ITEMS[n][1](c)
        rects.append(union([rectangle(x, True) for x in pspage(eps(c))]))
        pages.append(document.page(c, bboxenlarge=0))
    d = document.document(pages)
    t = ps(d, writebbox=True)
    bs = numbers(t, "%%PageBoundingBox:")
    check(len(bs) == 3, "one for each page")
    for b, e in zip(bs, rects): check(outside(b, e) and all([abs(x-y) < 1.001 for x, y in zip(b, e)]), "box of the page")
    check(close(numbers(t, "%%HiResBoundingBox:")[0], union(rects)), "box of the document")
    lo = numbers(t, "%%BoundingBox:")[0]
    check(outside(lo, union(rects)) and all([abs(x-y) < 1.001 for x, y in zip(lo, union(rects))]), "integers")
    p = pdffile(d, compress=False, writebbox=True)
    for i in range(3):
        check(close(pdfentry(p, "Root", "Pages", "Kids", i, "MediaBox"), rects[i]), "media box")
        check(close(pdfentry(p, "Root", "Pages", "Kids", i, "CropBox"), rects[i]), "crop box")

PAPERS = {"A4": document.paperformat.A4, "Letter": document.paperformat.Letter}
def law_paperboxes(case=[(p, r) for p in PAPERS for r in (0, 1)]):
    "boxes of pages on paper"
    setup()
    p, rotated = case
    paper = PAPERS[p]
    for fit in (0, 1):
        c = canvas.canvas()
        c.stroke(boxpath(), [style.linewidth(4*unit.t_pt)])
        c.insert(helvetica().text_pt(5, 6, "Vb", 12))
        d = document.document([document.page(c, paperformat=paper, rotated=rotated, fittosize=fit, bboxenlarge=plain(5))])
        m = pspage(ps(d))
        e = union([rectangle(x, True) for x in m])
        t = ps(d, writebbox=True)
        b = numbers(t, "%%HiResBoundingBox:")[0]
        w, h = unit.topt(paper.width), unit.topt(paper.height)
        check(outside(b, e), "all is within")
        check(outside((0, 0, w, h), b), "on the paper")
        check(abs(b[0]+b[2]-w) < 0.01 and abs(b[1]+b[3]-h) < 0.01, "centered")
        if fit:
            g = unit.topt(1*unit.t_cm)
            check(abs(b[0]-g) < 0.01 or abs(b[1]-g) < 0.01, "as large as possible")
            check(b[0] > g-0.01 and b[1] > g-0.01, "margins")
        q = pdffile(d, compress=False)
        check(close(pdfentry(q, "Root", "Pages", "Kids", 0, "MediaBox"), (0, 0, w, h)), "paper")
