# Laws of attribute lists: exclusive, sorting, clear and change rules, accepted kinds (C25).
from pyx import attr, style, deco, deformer, color, trafo, canvas, pattern, path, unit
from pyx import text as textm
from pyx import box

class plain(attr.attr):
    def __init__(self, name): self.name = name
class ex(attr.exclusiveattr):
    def __init__(self, name):
        attr.exclusiveattr.__init__(self, ex)
        self.name = name
class subex(ex): pass
class late(attr.exclusiveattr):
    def __init__(self, name):
        attr.exclusiveattr.__init__(self, late)
        self.name = name
class sb(attr.sortbeforeattr):
    def __init__(self, name):
        attr.sortbeforeattr.__init__(self, [ex, late])
        self.name = name
class sbe(attr.sortbeforeexclusiveattr):
    def __init__(self, name):
        attr.sortbeforeexclusiveattr.__init__(self, sbe, [ex, late])
        self.name = name
class sbe1(attr.sortbeforeexclusiveattr):
    """exclusive class and class to be sorted before overlap"""
    def __init__(self, name):
        attr.sortbeforeexclusiveattr.__init__(self, sbe1, [ex, sbe1])
        self.name = name

class grouped: pass
class one(grouped, attr.exclusiveattr):
    def __init__(self, name):
        attr.exclusiveattr.__init__(self, one)
        self.name = name
class two(grouped, attr.exclusiveattr):
    def __init__(self, name):
        attr.exclusiveattr.__init__(self, two)
        self.name = name
class allof(attr.exclusiveattr):
    """takes the place of several attributes"""
    def __init__(self, name):
        attr.exclusiveattr.__init__(self, grouped)
        self.name = name
class sortedall(attr.sortbeforeexclusiveattr):
    def __init__(self, name):
        attr.sortbeforeexclusiveattr.__init__(self, grouped, [ex, late])
        self.name = name

def items():
    r = {}
    r["g1"] = one("g1"); r["g2"] = two("g2"); r["G"] = allof("G"); r["H"] = sortedall("H")
    for n in ("p1", "p2"): r[n] = plain(n)
    for n in ("e1", "e2", "e3"): r[n] = ex(n)
    r["f1"] = subex("f1")
    for n in ("l1", "l2"): r[n] = late(n)
    for n in ("b1", "b2"): r[n] = sb(n)
    for n in ("s1", "s2", "s3"): r[n] = sbe(n)
    for n in ("t1", "t2"): r[n] = sbe1(n)
    r["C"] = attr.clear
    r["cE"] = attr.clearclass(ex)
    r["cF"] = attr.clearclass(subex)
    r["cP"] = attr.clearclass(plain)
    r["cS"] = attr.clearclass(sbe)
    return r

def names(l): return [a.name for a in l]

MERGE = [
    ("", ""), ("p1", "p1"), ("p1 p2", "p1 p2"), ("p1 p1", "p1 p1"),
    # exclusive: the last wins and takes the last place
    ("e1 e2", "e2"), ("e1 p1 e2", "p1 e2"), ("p1 e1 p2", "p1 e1 p2"), ("e1 e2 e3", "e3"), ("e1 l1 e2 l2", "e2 l2"), ("e1 l1 e2", "l1 e2"), ("e1 e1", "e1"),
    ("g1 g2", "g1 g2"), ("g1 g2 G", "G"), ("g1 p1 g2 e1 G", "p1 e1 G"), ("G g1", "G g1"), ("g2 e1 g1 H", "H e1"), ("g1 g2 H", "H"), ("p1 g1 g2 p2 H l1", "p1 p2 H l1"),
    ("f1 e1", "e1"), ("e1 f1", "f1"), ("p1 e1 e2 p2", "p1 e2 p2"),
    # sorting: before the first of the classes named, behind all others
    ("b1", "b1"), ("p1 b1", "p1 b1"), ("e1 b1", "b1 e1"), ("p1 e1 p2 b1", "p1 b1 e1 p2"), ("e1 l1 b1", "b1 e1 l1"), ("l1 e1 b1", "b1 l1 e1"), ("l1 p1 b1", "b1 l1 p1"),
    ("b1 b2", "b1 b2"), ("b1 e1 b2", "b1 b2 e1"), ("f1 b1", "b1 f1"), ("b1 e1", "b1 e1"),
    # sorting and exclusive
    ("s1", "s1"), ("s1 s2", "s2"), ("s1 p1 s2", "p1 s2"), ("e1 s1", "s1 e1"), ("s1 e1 s2", "s2 e1"), ("s1 p1 e1 p2 s2", "p1 s2 e1 p2"), ("e1 s1 l1 s2", "s2 e1 l1"), ("p1 e1 p2 l1 s1", "p1 s1 e1 p2 l1"),
    ("s1 s2 s3", "s3"), ("p1 s1", "p1 s1"), ("t1 t2", "t2"), ("p1 t1 p2 e1 t2", "p1 t2 p2 e1"), ("e1 t1 t2", "t2 e1"),
    # clearing
    ("p1 e1 C", ""), ("p1 e1 C p2", "p2"), ("C p1", "p1"), ("C", ""), ("p1 e1 cE", "p1"), ("p1 f1 cE", "p1"), ("p1 e1 f1 cE", "p1"), ("p1 e1 cF", "p1 e1"), ("p1 p2 e1 cP", "e1"), ("cE e1", "e1"), ("e1 cE e2", "e2"),
    ("s1 e1 cE", "s1"), ("p1 s1 e1 cS", "p1 e1"), ("e1 cP", "e1"), ("cP", ""), ("p1 p2 p1 cP", ""),
]
def law_merge(k=MERGE):
    """every rule of merging attributes: exclusive, sorting, sorting and exclusive, clearing of everything and of one kind"""
    given, want = k
    r = items()
    l = [r[n] for n in given.split()]
    got = attr.mergeattrs(l)
    same(names(got), want.split())
    same(len(l), len(given.split()), "argument unchanged")
    check(all([a is b for a, b in zip(l, [r[n] for n in given.split()])]), "argument unchanged")
    check(all([a is r[n] for a, n in zip(got, want.split())]), "items themselves")

def law_merge_rejects():
    """only attributes can be merged"""
    for x in (None, 1, "red", [plain("p")], attr.attr, attr.changelist([])):
        same(outcome(lambda: attr.mergeattrs([plain("p"), x])), ("raise", "TypeError"), str(type(x)))

def law_merge_result_is_new():
    """the list returned is never the list given"""
    for given in ("", "p1", "p1 p2", "e1", "cP", "C"):
        r = items()
        l = [r[n] for n in given.split()]
        check(attr.mergeattrs(l) is not l, given)

def law_getattrs():
    r = items()
    l = [r[n] for n in "p1 e1 f1 l1 s1 p2".split()]
    same(names(attr.getattrs(l, [plain])), ["p1", "p2"])
    same(names(attr.getattrs(l, [ex])), ["e1", "f1"])
    same(names(attr.getattrs(l, [subex])), ["f1"])
    same(names(attr.getattrs(l, [plain, late])), ["p1", "l1", "p2"])
    same(names(attr.getattrs(l, [])), [])
    same(names(attr.getattrs([], [plain])), [])
    same(len(l), 6)

CHECKS = [("", "P", 1), ("p1", "P", 1), ("p1 p2 p1", "P", 1), ("e1", "P", 0), ("p1 e1", "P", 0), ("e1 p1", "P", 0), ("p1 e1 p2", "P", 0), ("f1 e1", "E", 1), ("f1 e1", "F", 0), ("f1", "F", 1), ("e1 p1 f1", "EP", 1),
          ("p1", "", 0), ("", "", 1), ("p1 p2 e1", "P", 0), ("p1 l1 e1", "PE", 0), ("e1 e1", "F", 0)]
def law_check(k=CHECKS):
    """an attribute of a kind not accepted is rejected wherever it stands in the list"""
    l, c, ok = k
    r = items()
    l = [r[n] for n in l.split()]
    c = [{"P": plain, "E": ex, "F": subex}[x] for x in c]
    same(outcome(lambda: attr.checkattrs(l, c))[0] != "raise", bool(ok))
    if not ok:
        same(outcome(lambda: attr.checkattrs(l, c)), ("raise", "TypeError"))
        same(outcome(lambda: attr.refineattrs(l, [], c)), ("raise", "TypeError"), "refine")

def law_refine():
    r = items()
    d = [r["s1"], r["e1"]]
    same(attr.refineattrs(None, d, [ex]), None)
    same(outcome(lambda: attr.refineattrs(None, d, [ex], allow_none=False))[0], "raise")
    same(names(attr.refineattrs([], d, [ex])), ["s1", "e1"])
    same(names(attr.refineattrs([r["e2"]], d, [ex])), ["s1", "e2"])
    same(names(attr.refineattrs([r["s2"], r["e2"]], d, [ex, sbe])), ["s2", "e2"])
    same(names(attr.refineattrs([r["s2"], r["p1"]], d, [plain, sbe], allow_none=False)), ["s2", "e1", "p1"])
    same(names(attr.refineattrs([r["C"]], d, [attr.attr])), [])
    same(names(d), ["s1", "e1"], "defaults unchanged")

# --- changeable attributes ------------------------------------------------------------------------------------
def law_changelist(n=[1, 2, 3, 5]):
    c = ["item%d" % i for i in range(n)]
    for i in range(2*n + 2):
        same(attr.changelist(c).select(i, 2*n + 2), "item%d" % (i % n), "cyclic")
        same(attr.changelist(c, cyclic=0).select(i, 2*n + 2), "item%d" % i if i < n else None, "not cyclic")
        same(attr.changelist(c, cyclic=1).select(i, i + 1), "item%d" % (i % n), "last")
        same(attr.changelist(c, cyclic=0).select(i, i + 1), "item%d" % i if i < n else None, "last")
    same(len(c), n)

def law_multichange():
    a, b = attr.changelist(["a1", "a2"]), attr.changelist(["b1", "b2", "b3"])
    m = attr.multichangeattr({1: a, 2: a, 3: b})
    same([m.select(i, 2) for i in range(2)], ["a1", "a2"])
    same([m.select(i, 3) for i in range(3)], ["b1", "b2", "b3"])
    same(m.select(0, 1), "a1")
    same(outcome(lambda: m.select(0, 4)), ("raise", "KeyError"))

class ix(attr.changeattr):
    def select(self, index, total): return ("selected", index, total)

def law_select():
    """changeable attributes select, fixed attributes stay, and nothing is drawn when a changeable attribute is exhausted"""
    r = items()
    l = [r["p1"], ix(), r["e1"], ix()]
    s = attr.selectattrs(l, 2, 7)
    check(s[0] is r["p1"]); check(s[2] is r["e1"]); same(len(s), 4)
    same((s[1], s[3]), (("selected", 2, 7), ("selected", 2, 7)))
    check(isinstance(l[1], ix), "list unchanged"); check(s is not l)
    same(attr.selectattrs(None, 0, 1), None)
    same(attr.selectattrs([], 0, 1), [])
    two = attr.changelist([r["p1"], r["p2"]], cyclic=0)
    same(attr.selectattrs([r["e1"], two], 2, 3), None)
    same(attr.selectattrs([two, r["e1"]], 2, 3), None)
    same(names(attr.selectattrs([r["e1"], two], 1, 3)), ["e1", "p2"])
    same(attr.selectattr(ix(), 3, 5), ("selected", 3, 5))
    check(attr.selectattr(r["p1"], 3, 5) is r["p1"])
    same(attr.selectattr(two, 2, 3), None)
    same(attr.selectattr(two, 0, 3).name, "p1")
    same(attr.selectattr(None, 0, 3), None)
    same(outcome(lambda: attr.changeattr().select(0, 1)), ("raise", "RuntimeError"))

# --- declarations of the attribute classes of the library ------------------------------------------------------
def lib():
    from pyx.deco import stroked, filled, earrow, barrow
    r = {
     "cap1": style.linecap.butt, "cap2": style.linecap.round, "cap.clear": style.linecap.clear,
     "join1": style.linejoin.miter, "join2": style.linejoin.bevel, "join.clear": style.linejoin.clear,
     "miter1": style.miterlimit.lessthan60deg, "miter2": style.miterlimit.lessthan11deg, "miter.clear": style.miterlimit.clear,
     "dash1": style.dash([1, 2]), "dash2": style.dash([3], offset=1), "dash.clear": style.dash.clear,
     "ls1": style.linestyle.dashed, "ls2": style.linestyle.dotted, "ls.clear": style.linestyle.clear,
     "lw1": style.linewidth.thick, "lw2": style.linewidth.thin, "lw.clear": style.linewidth.clear,
     "rule1": style.fillrule.even_odd, "rule2": style.fillrule.nonzero_winding, "rule.clear": style.fillrule.clear,
     "red": color.rgb.red, "grey": color.grey.black, "cmyk": color.cmyk.Blue, "color.clear": color.clear,
     "tp1": color.transparency(0.5), "tp2": color.transparency(0.25),
     "stroked": stroked, "stroked2": stroked([color.rgb.red]), "stroked.clear": stroked.clear,
     "filled": filled, "filled2": filled([color.rgb.red]), "filled.clear": filled.clear,
     "earrow": earrow.normal, "barrow": barrow.normal, "arrow.clear": deco.arrow.clear,
     "hatch1": deco.linehatched(0.1, 45), "hatch2": deco.linehatched(0.2, 45), "hatch.clear": deco.linehatched.clear,
     "brace": deco.brace(), "brace.clear": deco.brace.clear,
     "cycloid": deformer.cycloid(), "cycloid.clear": deformer.cycloid.clear,
     "smooth": deformer.smoothed(1), "corner": deformer.cornersmoothed(1), "smooth.clear": deformer.smoothed.clear, "corner.clear": deformer.cornersmoothed.clear,
     "parallel": deformer.parallel(1), "parallel.clear": deformer.parallel.clear,
     "rotate": trafo.rotate(10), "scale": trafo.scale(2), "trafo.clear": trafo.trafo_pt.clear if hasattr(trafo.trafo_pt, "clear") else attr.clearclass(trafo.trafo_pt),
     "clear": attr.clear, "plain": plain("x"), "linecapclass": style.linecap,
    }
    return r

DECL = [
    ("cap1 cap2", "cap2"), ("join1 join2", "join2"), ("miter1 miter2", "miter2"), ("dash1 dash2", "dash2"), ("ls1 ls2", "ls2"), ("lw1 lw2", "lw2"), ("rule1 rule2", "rule2"),
    ("cap1 join1 miter1 cap2 join2", "miter1 cap2 join2"), ("cap1 dash1 ls1", "cap1 dash1 ls1"),
    ("red grey", "grey"), ("red tp1 cmyk", "tp1 cmyk"), ("tp1 tp2", "tp2"), ("red tp1", "red tp1"), ("cmyk red lw1", "red lw1"),
    ("ls1 lw1", "lw1 ls1"), ("dash1 lw1", "lw1 dash1"), ("lw2 ls1 lw1", "lw1 ls1"), ("cap1 dash1 red ls1 lw1", "cap1 lw1 dash1 red ls1"), ("red lw1", "red lw1"),
    ("cap1 join1 cap.clear", "join1"), ("cap1 join1 join.clear", "cap1"), ("miter1 cap1 miter.clear", "cap1"), ("dash1 ls1 dash.clear", "ls1"), ("dash1 ls1 ls.clear", "dash1"), ("lw1 cap1 ls1 lw.clear", "cap1 ls1"),
    ("rule1 red rule.clear", "red"), ("red rule1 tp1 color.clear", "rule1 tp1"), ("cap1 lw1 red clear", ""),
    ("stroked stroked2", "stroked2"), ("filled filled2", "filled2"), ("stroked filled", "stroked filled"), ("stroked filled stroked.clear", "filled"), ("stroked filled filled.clear", "stroked"), ("stroked2 earrow stroked.clear", "earrow"),
    ("filled2 stroked filled", "stroked filled"),
    ("earrow barrow", "earrow barrow"), ("barrow earrow earrow", "barrow earrow earrow"), ("earrow stroked barrow arrow.clear", "stroked"),
    ("hatch1 hatch2", "hatch2"), ("filled hatch1", "hatch1"), ("hatch1 filled", "hatch1 filled"), ("filled hatch1 red hatch2", "red hatch2"), ("stroked hatch1 earrow hatch.clear", "stroked earrow"), ("filled stroked hatch1", "stroked hatch1"),
    ("brace stroked brace.clear", "stroked"), ("brace brace", "brace brace"),
    ("cycloid smooth cycloid.clear", "smooth"), ("cycloid smooth smooth.clear", "cycloid"), ("cycloid parallel parallel.clear", "cycloid"), ("corner smooth parallel corner.clear", "parallel"), ("cycloid cycloid", "cycloid cycloid"), ("smooth parallel", "smooth parallel"),
    ("rotate scale", "rotate scale"), ("scale rotate", "scale rotate"), ("rotate red scale", "rotate red scale"),
]
def law_declared(k=DECL):
    """which attributes of the library exclude, clear and precede each other"""
    given, want = k
    r = lib()
    got = attr.mergeattrs([r[n] for n in given.split()])
    same(len(got), len(want.split()))
    check(all([a is r[n] for a, n in zip(got, want.split())]), "order")

# --- text attributes -------------------------------------------------------------------------------------------
def textattrs():
    return {
     "left": textm.halign.left, "center": textm.halign.center, "right": textm.halign.right, "halign.clear": textm.halign.clear,
     "bl": textm.halign.boxleft, "bc": textm.halign.boxcenter, "fl": textm.halign.flushleft, "fr": textm.halign.flushright,
     "math": textm.mathmode, "math.clear": textm.clearmathmode, "ph": textm.phantom, "ph.clear": textm.clearphantom,
     "pb": textm.parbox(3), "pb2": textm.parbox(4), "pb.clear": textm.parbox.clear,
     "top": textm.valign.top, "middle": textm.valign.middle, "valign.clear": textm.valign.clear, "base": textm.valign.baseline,
     "vs": textm.vshift.topzero, "vs2": textm.vshift.middlezero, "ma": textm.vshift.mathaxis, "vs.clear": textm.vshift.clear,
     "size": textm.size.small, "size2": textm.size.large, "size.clear": textm.size.clear,
     "red": color.rgb.red, "rot": trafo.rotate(1),
    }
TEXT = [
    ("left right", "right"), ("left center right", "right"), ("bl bc", "bc"), ("fl fr", "fr"), ("bl fl", "bl fl"), ("center red halign.clear", "red"), ("left bl halign.clear", "bl"),
    ("math math", "math"), ("math red math.clear", "red"), ("ph ph.clear", ""), ("math ph ph.clear", "math"), ("math ph math.clear", "ph"),
    ("pb pb2", "pb2"), ("math pb", "pb math"), ("bl pb", "pb bl"), ("red math pb fl", "red pb math fl"), ("pb math pb.clear", "math"), ("pb valign.clear", "pb"),
    ("pb top", "top pb"), ("top middle", "middle"), ("math top", "top math"), ("bl pb top", "top pb bl"), ("pb math top valign.clear", "pb math"), ("top pb middle", "middle pb"), ("top base red", "red"), ("top pb pb.clear", "top"),
    ("top vs", "vs top"), ("pb vs", "vs pb"), ("math vs", "vs math"), ("vs ma", "vs ma"), ("bl top vs", "vs top bl"), ("vs ma red vs.clear", "red"), ("vs math vs.clear", "math"),
    ("math size", "size math"), ("vs size", "size vs"), ("ma math size red", "size ma math red"), ("red size math", "red size math"), ("size math size.clear", "math"), ("size vs pb top size.clear", "top vs pb") if 0 else ("pb size", "pb size"),
    ("center rot red", "center rot red"),
]
def law_text_declared(k=TEXT):
    """which text attributes exclude, clear and precede each other"""
    given, want = k
    r = textattrs()
    got = attr.mergeattrs([r[n] for n in given.split()])
    same(len(got), len(want.split()))
    check(all([a is r[n] for a, n in zip(got, want.split())]), "order")

# --- operations reject what they do not accept ------------------------------------------------------------------
def bad(op, a):
    p = path.line_pt(0, 0, 1, 1)
    c = canvas.canvas()
    if op == "stroke": c.stroke(p, [a])
    elif op == "fill": c.fill(p, [a])
    elif op == "draw": c.draw(p, [a])
    elif op == "canvas": canvas.canvas([a])
    elif op == "insert": c.insert(canvas.canvas(), [a])
    elif op == "stroked": deco.stroked([a])
    elif op == "filled": deco.filled([a])
    elif op == "arrow": deco.arrow([a])
    elif op == "linehatched": deco.linehatched(0.1, 45, strokestyles=[a])
    elif op == "hatched": pattern.hatched(1, 45, strokestyles=[a])
    elif op == "crosshatched": pattern.crosshatched(1, 45, strokestyles=[a])
    elif op == "shownormpath": deco.shownormpath(normline_attrs=[a])
    elif op == "set": c.set([a])
REJECT = [("stroke", "linecapclass"), ("draw", "plain"), ("fill", "plain"), ("canvas", "plain"), ("canvas", "stroked"), ("canvas", "earrow"), ("canvas", "smooth"), ("insert", "filled"), ("stroked", "rule1"), ("stroked", "earrow"), ("stroked", "rotate"), ("stroked", "filled"),
          ("filled", "lw1"), ("filled", "dash1"), ("filled", "stroked"), ("arrow", "smooth"), ("arrow", "rotate"), ("linehatched", "rule1"), ("linehatched", "earrow"), ("hatched", "filled"), ("hatched", "rule1"), ("crosshatched", "rotate"), ("crosshatched", "stroked"),
          ("shownormpath", "rule1")]
def law_rejected(k=REJECT):
    """attributes of a kind an operation does not accept raise TypeError"""
    op, a = k
    same(outcome(lambda: bad(op, lib()[a])), ("raise", "TypeError"))
ACCEPT = [("stroke", "rotate"), ("fill", "smooth"), ("draw", "parallel") if 0 else ("draw", "scale"), ("stroke", "lw1"), ("stroke", "red"), ("stroke", "earrow"), ("fill", "rule1"), ("fill", "red"), ("draw", "stroked"), ("draw", "tp1"), ("canvas", "rotate"), ("canvas", "red"), ("canvas", "lw1"), ("insert", "scale"), ("insert", "red"), ("stroked", "red"), ("stroked", "tp1"), ("stroked", "dash1"),
          ("filled", "red"), ("filled", "rule1"), ("filled", "tp2"), ("arrow", "red"), ("arrow", "stroked"), ("arrow", "lw1"), ("arrow", "rule1"), ("linehatched", "red"), ("linehatched", "dash1"), ("hatched", "lw2"), ("crosshatched", "red"), ("shownormpath", "red")]
def law_accepted(k=ACCEPT):
    """attributes of the documented kinds are accepted"""
    op, a = k
    trust("path.path.bbox", lambda *a: unknown("bbox"))
    same(outcome(lambda: bad(op, lib()[a]))[0] != "raise", True)
