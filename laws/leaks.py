# Laws of the scope of attributes (C17).
from laws.pagelib import *

def probe(c):
    c.stroke(boxpath())
    c.insert(helvetica().text_pt(1, 2, "A", 10))
    c.fill(boxpath())

def probemarks(fmt, s): return (strokemark(CLIPSEGS, s), textmark(fmt, ["A"], 1, 2, 10, s), fillmark(CLIPSEGS, s))

def law_after(case=items()):
    "what is put on the canvas later looks as if nothing had been before"
    setup()
    trust("logging.Logger.warning", lambda *a: None)
    fmt, n = case
    c = canvas.canvas()
    probe(c)
    ITEMS[n][1](c)
    probe(c)
    m = marks(fmt, c)
    w = probemarks(fmt, state())
    same(m[:3], w)
    same(m[-4:], w + (("page",),))

def law_within(case=items()):
    "likewise within a canvas having attributes"
    setup()
    trust("logging.Logger.warning", lambda *a: None)
    fmt, n = case
    c = canvas.canvas()
    s = c.insert(canvas.canvas([color.rgb.red, style.linewidth(4*unit.t_pt), color.transparency(0.25), definitetrafo(), style.linejoin.round]))
    probe(s)
    ITEMS[n][1](s)
    probe(s)
    probe(c)
    m = marks(fmt, c)
    w = probemarks(fmt, state(color=RED, lw=4, alpha=0.75, ctm=TM1, join=1))
    same(m[:3], w)
    same(m[-7:], w + probemarks(fmt, state()) + (("page",),))

def law_twice(case=items()):
    "two writes of the same canvas yield the same drawing"
    setup(); nobbox()
    trust("logging.Logger.warning", lambda *a: None)
    fmt, n = case
    c = canvas.canvas()
    c.stroke(boxpath())
    ITEMS[n][1](c)
    same(marks(fmt, c), marks(fmt, c))

class noting(canvas.canvas):
    "a canvas which notes whether processing it changed what is known about the surrounding"
    def note(self, process, args):
        before = struct(args[2], "selectedfont") # may have been selected for good without attributes
        process(*args)
        self.pair = (before, struct(args[2], "selectedfont"))
    def processPS(self, *args): self.note(super().processPS, args)
    def processPDF(self, *args): self.note(super().processPDF, args)
    def processSVG(self, *args): self.note(super().processSVG, args)

def law_surrounding(case=items()):
    "what is known about the surrounding of a canvas is kept while it is processed"
    setup()
    trust("logging.Logger.warning", lambda *a: None)
    fmt, n = case
    for attrs in [], [color.rgb.red, style.linewidth(4*unit.t_pt), style.fillrule.even_odd, definitetrafo()]:
        c = canvas.canvas()
        o = c.insert(canvas.canvas([color.rgb.blue, style.linewidth(2*unit.t_pt)]))
        k = o.insert(noting(attrs))
        probe(k)
        ITEMS[n][1](k)
        probe(o)
        marks(fmt, c)
        same(*k.pair)
