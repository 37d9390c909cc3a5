# Laws of the structure of the output (C16): whatever is opened is closed, in the right order.
from laws.pagelib import *

def law_balanced(case=items()):
    "no error in the structure of the page, whatever is put on it"
    setup()
    trust("logging.Logger.warning", lambda *a: None)
    fmt, n = case
    c = canvas.canvas()
    ITEMS[n][1](c)
    c.stroke(boxpath())
    m = marks(fmt, c)
    same(errors(m), [])
    same(m[-2:], (strokemark(CLIPSEGS, state()), ("page",)))
    if fmt == "PDF": same(pdferrors(pdf(c)), ())

# --- documents ---
PAGEOPTIONS = {
 "plain": {},
 "paper": {"paperformat": document.paperformat.A4},
 "rotated": {"paperformat": document.paperformat.A5, "rotated": 1},
 "fit": {"paperformat": document.paperformat.Letter, "fittosize": 1},
 "corner": {"paperformat": document.paperformat.A4, "centered": 0},
 "named": {"pagename": "title page"},
 "own box": {"bbox": bbox.bbox_pt(0, 0, 200, 200)},
}
OPTNAMES = list(PAGEOPTIONS.keys())

def content(c):
    c.stroke(boxpath())
    c.insert(helvetica().text_pt(1, 2, "AV", 10))
    c.insert(canvas.canvas([color.rgb.red])).fill(triangle())

def law_document(case=[(f, n) for f in ("PS", "PDF") for n in OPTNAMES]):
    "pages of a document contain what was put on them"
    setup(); nobbox()
    trust("logging.Logger.warning", lambda *a: None)
    fmt, n = case
    for others in (False, True):
        pages = []
        for i in range(2):
            c = canvas.canvas()
            content(c)
            pages.append(document.page(c, **PAGEOPTIONS[n if i or not others else "plain"]))
        d = document.document(pages)
        for kw in ({}, {"title": "a (title"}, {"writebbox": True}):
            if fmt == "PS": m = pspage(ps(d, **kw))
            else: m = pdfpages(pdffile(d, compress=False, **kw))
            same(errors(m), [])
            same(len(m), 8)
            same([x[0] for x in m], ["stroke", "text", "fill", "page"]*2)
            if fmt == "PDF": same(pdferrors(pdffile(d, compress=False, **kw)), ())
            t = m[4][2]
            # the same movement for the whole page
            c = t[0]**2 + t[1]**2
            check(abs(t[0]*t[3] - t[1]*t[2] - c) < 1e-3, "similarity")
            if n in ("paper", "fit"): check(abs(t[1]) < 1e-3 and t[0] > 0, "upright")
            if n == "rotated": check(abs(t[0]) < 1e-3 and t[1] > 0, "rotated")
            if n != "fit": check(abs(c - 1) < 1e-3, "size")

def law_epspages(n=[0, 2]):
    "one page in a file for inclusion"
    setup()
    f = newbinfile()
    d = document.document([document.page(canvas.canvas()) for i in range(n)])
    for w in (pswriter.EPSwriter, svgwriter.SVGwriter): check(outcome(lambda: w(d, f))[0] == "raise", "number of pages")
