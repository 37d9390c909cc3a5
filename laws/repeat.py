# Laws of repeated output (C22): the same drawing gives the same file, whatever addresses, hashes, times, random numbers and orders of sets are.
from laws.pagelib import *
from laws.resources import FAMILIES

def clock(n):
    trust("os.environ.get", lambda *a: None)
    trust("value:time.timezone", 0)
    trust("time.localtime", lambda *a: n)
    trust("time.gmtime", lambda *a: n)
    trust("time.asctime", lambda *a: "DATE%dETAD" % n)
    trust("time.strftime", lambda *a: "DATE%dETAD" % n)

def write(fmt, n, c, **kw):
    "the file with the time in the declared creation date removed"
    clock(n)
    if fmt != "SVG": kw["title"] = "the title"
    if fmt == "PDF": kw["author"] = "the author"
    t = eps(c, **kw) if fmt == "PS" else pdf(c, **kw) if fmt == "PDF" else svg(c, **kw)
    return without(t, b"%%%%CreationDate: DATE%dETAD" % n, b"/CreationDate (D:DATE%dETADZ00'00')" % n)

def drawn(fmt, n, draw):
    c = canvas.canvas()
    draw(c)
    return write(fmt, n, c)

CASES = [(f, n) for n in ITEMNAMES for f in ITEMS[n][0] if f in FORMATS]
def law_written_twice(case=CASES):
    "writing a canvas does not change what is written the next time"
    fmt, name = case
    c = canvas.canvas()
    ITEMS[name][1](c)
    ITEMS["text"][1](c)
    a = write(fmt, 1, c)
    another()
    same(a, write(fmt, 2, c), label="the file written again is the same")

def law_drawn_twice(case=CASES):
    "a drawing gives the same file in another run of the program"
    fmt, name = case
    if fmt == "PDF": allow("ValueError")
    same(afresh(lambda: drawn(fmt, 1, ITEMS[name][1])), afresh(lambda: drawn(fmt, 2, ITEMS[name][1])), label="the file of the same drawing is the same")

FCASES = [(f, n) for n in FAMILIES for f in FAMILIES[n][0]]
def drawall(name, c):
    for x in FAMILIES[name][1]: x(c)
def law_families(case=FCASES):
    "names and orders of shared resources are the same in each run"
    fmt, name = case
    if name == "codes": nobbox()
    same(afresh(lambda: drawn(fmt, 1, lambda c: drawall(name, c))), afresh(lambda: drawn(fmt, 2, lambda c: drawall(name, c))), label="the file of the same drawing is the same")

def law_families_again(case=FCASES):
    "shared resources written again have the same names and order"
    fmt, name = case
    if name == "codes": nobbox()
    c = canvas.canvas()
    drawall(name, c)
    b = write(fmt, 1, c)
    another()
    same(b, write(fmt, 2, c), label="the file written again is the same")
