# Laws of the structure of PDF files (C20).
from laws.pagelib import *

PDFITEMS = [n for n in ITEMNAMES if "PDF" in ITEMS[n][0]]

def valid(t):
    same(pdferrors(t), ())
    same(errors(pdfpages(t)), [])
    same(pdfentry(t, "Root", "Type"), "Catalog")
    same(pdfentry(t, "Info", "Creator")[0], "str")

def law_valid(n=PDFITEMS):
    "objects, offsets and lengths, whatever is drawn"
    setup(); nobbox()
    trust("logging.Logger.warning", lambda *a: None)
    for kw in ({}, {"compress": True}, {"stripfonts": False}, {"textaspath": True}):
        if "textaspath" in kw and ("text" in n or n == "deep" or n == "inserted twice"): continue # no glyphs to draw
        c = canvas.canvas()
        ITEMS[n][1](c)
        c.stroke(boxpath())
        f = newbinfile()
        pdfwriter.PDFwriter(doc(c), f, **kw)
        valid(text(f))

def law_symbolic(compress=[False, True]):
    "whatever numbers are written"
    setup(); nobbox()
    c = canvas.canvas()
    c.stroke(thepath(), [style.linewidth(pos("w")*unit.t_pt), color.gray(0.5)])
    c.fill(secondpath(), [color.transparency(0.25)])
    c.insert(canvas.canvas([thetrafo()])).stroke(boxpath())
    d = document.document([document.page(c), document.page(c)])
    f = newbinfile()
    pdfwriter.PDFwriter(d, f, compress=compress)
    valid(text(f))

def content(i):
    c = canvas.canvas()
    c.stroke(boxpath())
    c.insert(helvetica().text_pt(1, 2, "AV"[:1+i % 2], 10))
    if i != 1: c.insert(canvas.canvas([color.transparency(0.5), thepattern()])).fill(triangle())
    if i != 2: c.insert(squarefont().text_pt(1, 2, [65, 66+i], 10, decoding=None))
    if i != 0: c.insert(bitmap.bitmap_pt(1, 2, smallimage(), height_pt=10))
    return c

def law_pages(n=[1, 2, 3, 5]):
    "number of pages"
    setup(); nobbox()
    trust("logging.Logger.warning", lambda *a: None)
    for kw in ({}, {"compress": True}, {"writebbox": True, "compress": False}):
        f = newbinfile()
        pdfwriter.PDFwriter(document.document([document.page(content(i)) for i in range(n)]), f, **kw)
        t = text(f)
        valid(t)
        same(pdfentry(t, "Root", "Pages", "Count"), n)
        check(len(pdfentry(t, "Root", "Pages", "Kids")) == n, "pages")
        check(len([m for m in pdfpages(t) if m[0] == "page"]) == n, "pages")

def decoded(s):
    "characters of a PDF string"
    if s is None: return None
    check(s[0] == "str", "string")
    r = "".join(s[1:])
    if r[:2] == "\xfe\xff":
        o = ""
        for i in range(2, len(r), 2): o = o + chr(ord(r[i])*256 + ord(r[i+1]))
        return o
    return r

STRINGS = ["plain text", "a (b", "c) d", "()", "back\\slash", "trailing\\", "line\nend", "tab\t", "[a] <b> {c} /d %e", "\u00e4\u00df", "\u0394 x\u20ac", "~\x7f", "0\u01111", "\r"]
def law_info(s=STRINGS):
    "document information"
    setup(); nobbox()
    c = canvas.canvas()
    c.stroke(boxpath())
    for i in range(4):
        kw = {["title", "author", "subject", "keywords"][i]: s, "compress": False}
        t = pdf(c, **kw)
        same(pdferrors(t), ())
        for k in range(4):
            key = ["Title", "Author", "Subject", "Keywords"][k]
            v = decoded(pdfentry(t, "Info", key))
            if k == i: same(v, s)
            else: check(v is None, "not given")

def law_fieldstrings(s=STRINGS):
    "strings of form fields"
    setup()
    c = canvas.canvas()
    for i in range(4):
        c = canvas.canvas()
        if i == 0: c.insert(pdfextra.textfield(plain(5), plain(7), plain(50), plain(20), s, defaultvalue=s))
        elif i == 1: c.insert(pdfextra.choicefield(plain(5), plain(7), plain(50), plain(20), s, ["a", s], defaultvalue=s))
        elif i == 2: c.insert(pdfextra.checkbox(plain(5), plain(7), s))
        else: c.insert(pdfextra.radiobuttons([(plain(5), plain(7)), (plain(25), plain(7))], s, ["a", "b"], defaultvalue="b"))
        t = pdf(c)
        valid(t)
        for k in ("T", "TU", "TM"):
            same(decoded(pdfentry(t, "Root", "AcroForm", "Fields", 0, k)), s)
        if i < 2:
            same(decoded(pdfentry(t, "Root", "AcroForm", "Fields", 0, "V")), s)
        if i == 1: same([decoded(x) for x in pdfentry(t, "Root", "AcroForm", "Fields", 0, "Opt")], ["a", s])

def law_forms():
    "all fields belong to the form of the document, the annotations to their page"
    setup()
    pages = []
    for i in range(3):
        c = canvas.canvas()
        c.stroke(boxpath())
        if i != 1:
            c.insert(pdfextra.textfield(plain(5), plain(7), plain(50), plain(20), "text %d" % i))
            c.insert(pdfextra.checkbox(plain(5), plain(37), "box %d" % i))
            c.insert(pdfextra.radiobuttons([(plain(5), plain(7)), (plain(25), plain(7))], "buttons %d" % i, ["a", "b"], defaultvalue="b"))
        pages.append(document.page(c))
    t = pdffile(document.document(pages), compress=False)
    valid(t)
    check(len(pdfentry(t, "Root", "AcroForm", "Fields")) == 6, "all fields")
    names = ["text 0", "box 0", "buttons 0", "text 2", "box 2", "buttons 2"]
    same([decoded(pdfentry(t, "Root", "AcroForm", "Fields", i, "T")) for i in range(6)], names)
    for i in range(3):
        a = pdfentry(t, "Root", "Pages", "Kids", i, "Annots")
        if i == 1: check(a is None, "no annotations")
        else:
            check(len(a) == 4, "annotations of the page")
            same(decoded(pdfentry(t, "Root", "Pages", "Kids", i, "Annots", 0, "T")), "text %d" % i)

def law_catalog(fullscreen=[False, True]):
    setup(); nobbox()
    c = canvas.canvas()
    c.stroke(boxpath())
    t = pdf(c, fullscreen=fullscreen)
    valid(t)
    check(pdfentry(t, "Root", "PageMode") == ("FullScreen" if fullscreen else None), "mode")
    check(pdfentry(t, "Root", "AcroForm") is None, "no form")
    check(pdfentry(t, "Root", "Pages", "Kids", 0, "Annots") is None, "no annotations")
    check(pdfentry(t, "Root", "Pages", "Kids", 0, "Rotate") is None, "not rotated")

def law_fonts(n=[1, 2]):
    "fonts contain what the pages refer to"
    setup(); nobbox()
    f = squarefont()
    pages = []
    for i in range(n):
        c = canvas.canvas()
        c.insert(f.text_pt(1, 2, [65+20*i, 70, 67], 10, decoding=None))
        pages.append(document.page(c))
    t = pdffile(document.document(pages), compress=False)
    valid(t)
    for i in range(n):
        at = ("Root", "Pages", "Kids", i, "Resources", "Font", "Squares")
        same(pdfentry(t, *at, "Type"), "Font")
        same(pdfentry(t, *at, "Subtype"), "Type1")
        same(pdfentry(t, *at, "BaseFont"), "Squares")
        same(pdfentry(t, *at, "FirstChar"), 65)
        same(pdfentry(t, *at, "LastChar"), max(70, 65+20*(n-1)))
        codes = [70, 67] + [65+20*k for k in range(n)]
        w = pdfentry(t, *at, "Widths")
        same(w, tuple([500 if k in codes else 0 for k in range(65, max(codes)+1)]))
        same(pdfentry(t, *at, "FontDescriptor", "Type"), "FontDescriptor")
        same(pdfentry(t, *at, "FontDescriptor", "FontName"), "Squares")
        check(pdfentry(t, *at, "FontDescriptor", "FontFile") is not None, "font file")

def law_encodings():
    "encodings of fonts list the characters used"
    setup(); nobbox()
    pages = []
    f = squarefont(fakemetric())
    for i in range(2):
        c = canvas.canvas()
        c.insert(f.text_pt(1, 2, "AV" if i else "Vb", 10))
        pages.append(document.page(c))
    t = pdffile(document.document(pages), compress=False)
    valid(t)
    m = pdfpages(t)
    same([x[1] for x in m if x[0] == "text"], [("V", "b"), ("A", "V")])

def law_creation(case=[0, 3600, -3600, 19800, -12600, 34200]):
    "date of the creation"
    setup(); nobbox()
    trust("os.environ.get", lambda *a: None)
    trust("time.localtime", lambda *a: 0)
    trust("value:time.timezone", case)
    c = canvas.canvas()
    c.stroke(boxpath())
    s = decoded(pdfentry(pdf(c), "Info", "CreationDate"))
    # offset is that of the local time
    o = -case
    e = "Z00'00'" if not o else ("+" if o > 0 else "-") + "%02d'%02d'" % (abs(o)//3600, abs(o)//60 % 60)
    same(s, "D:197001010000" + e)
