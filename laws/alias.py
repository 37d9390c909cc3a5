# Laws of sharing (C23): operations leave their operands alone and share nothing which can be changed with them.
import math
from pyx import path, normpath, trafo, unit, bbox, color, deformer, connector, box, attr, style
from pyx.normpath import normline_pt, normcurve_pt, normsubpath

N = normpath.normpath

def mutables(o):
    "the parts of a geometric object which can be changed in place"
    if isinstance(o, list): r = [o]
    elif isinstance(o, tuple): r = []
    elif isinstance(o, N): return [o, o.normsubpaths] + sum([mutables(n) for n in o.normsubpaths], [])
    elif isinstance(o, normsubpath): return [o, o.normsubpathitems]
    elif isinstance(o, path.path): return [o, o.pathitems] + (mutables(o._normpath) if o._normpath is not None else [])
    elif isinstance(o, bbox.bbox_pt): return [o]
    elif isinstance(o, normpath.normpathparam): return []
    elif isinstance(o, unit.length): return []
    elif isinstance(o, trafo.trafo_pt): return [x for x in [o.matrix, o.vector] if isinstance(x, list)]
    else: return []
    for x in o: r = r + mutables(x)
    return r

def unshared(a, b, what=""):
    m = mutables(b)
    for x in mutables(a):
        for y in m: check(x is not y, what + " shared")

def nspa(): return normsubpath([normline_pt(0, 0, 10, 0), normcurve_pt(10, 0, 20, 0, 20, 10, 20, 20), normline_pt(20, 20, 0, 30)])
def nspl(): return normsubpath([normline_pt(0, 0, 10, 0), normline_pt(10, 0, 10, 20)])
def nspb(): return normsubpath([normline_pt(5, -5, 5, 15)])
def nspc(): return normsubpath([normline_pt(40, 0, 50, 0), normline_pt(50, 0, 50, 10)], closed=1)
def nsps():
    n = normsubpath([normline_pt(60, 0, 70, 0)])
    n.append(normline_pt(70, 0, 70.000001, 0))
    return n
def nspe(): return normsubpath([])
def nspt(): return normsubpath([normline_pt(60, 0, 60.001, 0)])

NSPS = {"lines": nspl, "open": nspa, "line": nspb, "closed": nspc, "short end": nsps, "empty": nspe, "tiny": nspt}
NPS = {"lines": lambda: N([nspl()]), "more lines": lambda: N([nspl(), nspb(), nspl()]), "one": lambda: N([nspa()]), "two": lambda: N([nspa(), nspb()]), "closed": lambda: N([nspc()]), "mixed": lambda: N([nspb(), nspc(), nspa(), nsps()]), "none": lambda: N(), "short": lambda: N([nsps()]), "tiny": lambda: N([nspt()])}
PS = {"line": lambda: path.line_pt(0, 0, 10, 0), "curves": lambda: path.path(path.moveto_pt(0, 0), path.lineto_pt(10, 0), path.curveto_pt(20, 0, 20, 10, 20, 20), path.moveto_pt(5, -5), path.lineto_pt(5, 15)),
      "lines": lambda: path.path(path.moveto_pt(0, 0), path.lineto_pt(10, 0), path.lineto_pt(10, 20), path.moveto_pt(5, -5), path.lineto_pt(5, 15)),
      "rect": lambda: path.rect_pt(1, 2, 30, 40), "empty": lambda: path.path()}

T = trafo.trafo_pt(((2, 1), (0, 3)), (5, 7))

# operations on a normpath or path which return something
UNARY = {
 "copy": lambda p: p.copy(), "reversed": lambda p: p.reversed(), "transformed": lambda p: p.transformed(T), "arclen": lambda p: p.arclen_pt(), "bbox": lambda p: p.bbox(), "path": lambda p: p.path(),
 "begin": lambda p: p.begin(), "end": lambda p: p.end(), "atbegin": lambda p: p.atbegin_pt(), "atend": lambda p: p.atend(),
 "split begin": lambda p: p.split([p.begin()]), "split end": lambda p: p.split([p.end()]), "split both": lambda p: p.split([p.begin(), p.end()]), "split back": lambda p: p.split([p.end(), p.begin()]),
 "split inside": lambda p: p.split([p.begin() + 3*unit.t_pt]), "split twice": lambda p: p.split([p.begin() + 3*unit.t_pt, p.begin() + 4*unit.t_pt]), "split nothing": lambda p: p.split([]),
 "split lengths": lambda p: p.split_pt([2, 1]), "arclentoparam": lambda p: p.arclentoparam([1*unit.t_pt, 0]), "paramtoarclen": lambda p: p.paramtoarclen([p.begin(), p.end()]),
 "rotation": lambda p: p.rotation(p.begin()), "tangent": lambda p: p.tangent([p.begin(), p.end()]), "trafo": lambda p: p.trafo(p.begin()), "curvature": lambda p: p.curvature_pt([p.begin()]), "at": lambda p: p.at([p.begin(), p.end()]),
}
BINARY = {"add": lambda p, q: p + q, "joined": lambda p, q: p.joined(q), "shift": lambda p, q: p << q, "intersect": lambda p, q: p.intersect(q)}

# arc lengths of curves are found by subdivision, which depends on their coordinates
CURVED = ("one", "two", "mixed", "curves", "arc", "open")
LENGTHS = ("arclen", "split inside", "split twice", "split lengths", "arclentoparam", "paramtoarclen")

def attempt(f):
    r = outcome(f)
    return None if r[0] == "raise" else r[1]

def independent(f, *args):
    "the result of f shares nothing with its operands and with what it returned before"
    before = snapshot(args)
    r = attempt(lambda: f(*args))
    same(snapshot(args), before, "operands")
    unshared(r, list(args), "operand")
    first = snapshot(r)
    s = attempt(lambda: f(*args))
    same(snapshot(args), before, "operands")
    same(snapshot(r), first, "earlier result")
    unshared(r, s, "earlier result")
    return r

def law_normpath(n=[(a, b) for a in UNARY for b in NPS if a not in LENGTHS or b not in CURVED]):
    "operations on a normpath"
    independent(UNARY[n[0]], NPS[n[1]]())

def law_path(n=[(a, b) for a in UNARY for b in PS if (a not in LENGTHS or b not in CURVED) and a != "copy" and a != "path"]):
    "operations on a path"
    p = PS[n[1]]()
    attempt(p.normpath) # the normalized path is kept
    independent(UNARY[n[0]], p)

def law_normpath_two(n=[(o, a, b) for o in BINARY for a in NPS for b in ("one", "mixed", "closed", "none", "short") if o != "intersect" or a not in CURVED and b not in CURVED]):
    "operations on two normpaths"
    p, q = NPS[n[1]](), NPS[n[2]]()
    independent(BINARY[n[0]], p, q)

def law_path_two(n=[(o, a, b) for o in BINARY for a in PS for b in PS if o != "intersect" or a not in CURVED and b not in CURVED]):
    "operations on two paths"
    p, q = PS[n[1]](), PS[n[2]]()
    attempt(p.normpath); attempt(q.normpath)
    independent(BINARY[n[0]], p, q)

def law_both(n=[(o, a, b) for o in BINARY for a in ("line", "curves") for b in ("one", "mixed") if o != "intersect"]):
    "operations on paths and normpaths"
    p, q = PS[n[1]](), NPS[n[2]]()
    attempt(p.normpath)
    independent(BINARY[n[0]], p, q)
    independent(BINARY[n[0]], q, p)

# --- operations in place ---
def iadd(p, q): p += q
INPLACE = {"+=": iadd, "join": lambda p, q: p.join(q)}
def law_inplace(n=[(o, a, b) for o in INPLACE for a in NPS for b in NPS] + [(o, a, b) for o in INPLACE for a in PS for b in list(PS.keys()) + ["one", "mixed"]] + [(o, a, b) for o in INPLACE for a in ("one", "two") for b in ("line", "curves")]):
    "operations in place change the object itself only"
    o, a, b = n
    p = (NPS if a in NPS else PS)[a]()
    q = (NPS if b in NPS else PS)[b]()
    attempt(q.normpath) # the normalized path is kept
    before = snapshot(q)
    attempt(lambda: INPLACE[o](p, q))
    same(snapshot(q), before, "argument")
    unshared(p, q, "argument")

def law_itself(n=[(o, a) for o in INPLACE for a in ("one", "two", "short")] + [("+=", a) for a in PS]):
    "a path is added to itself"
    o, a = n
    p = (NPS if a in NPS else PS)[a]()
    q = (NPS if a in NPS else PS)[a]()
    INPLACE[o](p, p)
    r = (NPS if a in NPS else PS)[a]()
    INPLACE[o](q, r)
    same(p, q)

# --- subpaths ---
def halves(n): return [len(n)*i/4 for i in range(5)]
SUB = {
 "copy": lambda n: n.copy(), "reversed": lambda n: n.reversed(), "transformed": lambda n: n.transformed(T), "segments": lambda n: n.segments([0, len(n)]), "more segments": lambda n: n.segments(halves(n)),
 "inner segments": lambda n: n.segments([len(n)*0.25, len(n)*0.75]), "reversed segments": lambda n: n.segments([len(n), 0]), "pathitems": lambda n: n.pathitems(), "at": lambda n: n.at_pt([0, len(n)]), "bbox": lambda n: n.bbox(),
 "closed segments": lambda n: n.segments([0, len(n)/2, len(n)]), "arclen": lambda n: n.arclen_pt(), "arclentoparam": lambda n: n.arclentoparam_pt([0, 1]), "trafo": lambda n: n.trafo([0]),
}
def law_sub(n=[(a, b) for a in SUB for b in NSPS if a not in LENGTHS or b not in CURVED]):
    "operations on a normsubpath"
    independent(SUB[n[0]], NSPS[n[1]]())

def law_sub_joined(n=[(a, b) for a in NSPS for b in NSPS]):
    a, b = NSPS[n[0]](), NSPS[n[1]]()
    independent(lambda p, q: p.joined(q), a, b)
    before = snapshot(b)
    attempt(lambda: a.join(b))
    same(snapshot(b), before, "argument")
    unshared(a, b, "argument")

def law_construct():
    "the items a path is made of are taken, not the list"
    l = [normline_pt(0, 0, 10, 0)]
    n = normsubpath(l)
    n.append(normline_pt(10, 0, 20, 0))
    same(len(l), 1)
    l = [path.moveto_pt(1, 2), path.lineto_pt(3, 4)]
    p = path.path(*l)
    p.append(path.lineto_pt(1, 2))
    same(len(l), 2)
    l = [(1, 2), (3, 4)]
    m = path.path(path.moveto_pt(1, 2), path.multilineto_pt(l))
    before = snapshot(l)
    m.normpath(); m.bbox(); m.transformed(T)
    same(snapshot(l), before)
    a, b = normsubpath(), normsubpath()
    a.append(normline_pt(0, 0, 10, 0))
    same(len(b), 0, "default")
    a, b = N(), N()
    a.append(nspa())
    same(len(b), 0, "default"); same(len(N()), 0, "default")
    a, b = path.path(), path.path()
    a.append(path.moveto_pt(1, 2))
    same(len(b), 0, "default")

def law_kept():
    "the normalized path of a path follows the changes of the path"
    p = path.line_pt(0, 0, 10, 0)
    old = p.normpath()
    before = snapshot(old)
    p.append(path.lineto_pt(10, 10)); same(p.normpath(), path.path(path.moveto_pt(0, 0), path.lineto_pt(10, 0), path.lineto_pt(10, 10)).normpath())
    same(snapshot(old), before)
    old = p.normpath(); before = snapshot(old)
    p.extend([path.lineto_pt(0, 10)]); same(len(p.normpath()[0]), 3)
    same(snapshot(old), before)
    old = p.normpath(); before = snapshot(old)
    p += path.line_pt(3, 4, 5, 6); same(len(p.normpath()), 2)
    same(snapshot(old), before)
    old = p.normpath(); before = snapshot(old)
    p.join(path.line_pt(3, 4, 5, 9)); same(len(p.normpath()[1]), 3)
    same(snapshot(old), before)
    n = p.normpath(epsilon=1e-3)
    check(n is not p.normpath())
    unshared(n, p.normpath())

# --- deformers, connectors ---
DEFORM = {
 "cycloid": lambda p: deformer.cycloid(radius=0.5*unit.t_pt, halfloops=2, skipfirst=1*unit.t_pt, skiplast=1*unit.t_pt).deform(p),
 "too long a cycloid": lambda p: deformer.cycloid(radius=500*unit.t_pt).deform(p),
 "skipping": lambda p: deformer.cycloid(skipfirst=500*unit.t_pt).deform(p),
 "corners": lambda p: deformer.cornersmoothed(radius=1*unit.t_pt).deform(p),
 "large corners": lambda p: deformer.cornersmoothed(radius=1000*unit.t_pt).deform(p),
 "parallel": lambda p: deformer.parallel(0*unit.t_pt).deform(p),
 "transformed": lambda p: T.deform(p),
}
DEFOUT = [("cycloid", "line"), ("cycloid", "closed"), ("cycloid", "lines"), ("corners", "closed"), ("corners", "lines"), ("large corners", "closed"), ("large corners", "lines")] # lengths of sequences depending on arc lengths
def law_deform(n=[(a, b) for a in DEFORM for b in ("line", "tiny", "closed", "lines", "none") if (a, b) not in DEFOUT]):
    "deformers"
    a, b = n
    maxloop(300)
    p = {"line": lambda: N([nspb()]), "tiny": lambda: N([nspt()]), "closed": lambda: N([nspc()]), "lines": lambda: N([normsubpath([normline_pt(0, 0, 10, 0), normline_pt(10, 0, 10, 10)]), nspb()]), "none": lambda: N()}[b]()
    trust("logging.Logger.warning", lambda *x: None)
    independent(DEFORM[a], p)

# --- bounding boxes ---
def bba(): return bbox.bbox_pt(1, 2, 30, 40)
def bbb(): return bbox.bbox_pt(10, -20, 20, 400)
BB = {"box": bba, "other": bbb, "empty": lambda: bbox.empty()}
BBONE = {"copy": lambda b: b.copy(), "transformed": lambda b: b.transformed(T), "enlarged": lambda b: b.enlarged(1*unit.t_pt), "enlarged_pt": lambda b: b.enlarged_pt(1, 2), "not enlarged": lambda b: b.enlarged(), "rect": lambda b: b.rect(), "center": lambda b: b.center(), "width": lambda b: b.width(), "tuple": lambda b: b.highrestuple_pt()}
BBTWO = {"add": lambda a, b: a + b, "mul": lambda a, b: a*b, "intersects": lambda a, b: a.intersects(b)}
def bbiadd(a, b): a += b
def bbimul(a, b): a *= b
BBIN = {"+=": bbiadd, "*=": bbimul, "set": lambda a, b: a.set(b)}
def law_bbox(n=[(a, b) for a in BBONE for b in BB]): independent(BBONE[n[0]], BB[n[1]]())
def law_bbox_two(n=[(o, a, b) for o in BBTWO for a in BB for b in BB]): independent(BBTWO[n[0]], BB[n[1]](), BB[n[2]]())
def law_bbox_inplace(n=[(o, a, b) for o in BBIN for a in BB for b in BB]):
    a, b = BB[n[1]](), BB[n[2]]()
    before = snapshot(b)
    BBIN[n[0]](a, b)
    same(snapshot(b), before, "argument")
    after = snapshot(a)
    b.includepoint_pt(1000, 1000)
    same(snapshot(a), after, "independent")
def law_bbox_fresh():
    "an empty bounding box is a new one"
    a, b = bbox.empty(), bbox.empty()
    a += bba()
    same(snapshot(b), snapshot(bbox.empty()))
    for p in (path.path(), N(), path.line_pt(1, 2, 3, 4)):
        x, y = p.bbox(), p.bbox()
        before = snapshot(y)
        x.includepoint_pt(1000, 2000)
        same(snapshot(y), before); same(snapshot(p.bbox()), before)

# --- transformations, lengths, colours ---
TONE = {"inverse": lambda t: t.inverse(), "mirrored": lambda t: t.mirrored(30), "rotated": lambda t: t.rotated(30), "rotated at": lambda t: t.rotated_pt(30, 1, 2), "scaled": lambda t: t.scaled(2), "scaled at": lambda t: t.scaled_pt(2, 3, 1, 2),
 "slanted": lambda t: t.slanted(2), "translated": lambda t: t.translated(1*unit.t_pt, 2), "translated_pt": lambda t: t.translated_pt(1, 2), "product": lambda t: t*T, "other product": lambda t: T*t, "apply": lambda t: t.apply_pt(1, 2), "apply length": lambda t: t.apply(1, 2)}
TS = {"general": lambda: trafo.trafo_pt(((2, 1), (0, 3)), (5, 7)), "identity": lambda: trafo.identity, "rotate": lambda: trafo.rotate(30), "lists": lambda: trafo.trafo_pt([[2, 1], [0, 3]], [5, 7])}
def law_trafo(n=[(a, b) for a in TONE for b in TS]):
    t = TS[n[1]]()
    before = snapshot(trafo.identity)
    independent(TONE[n[0]], t)
    same(snapshot(trafo.identity), before)
    same(snapshot(T), snapshot(trafo.trafo_pt(((2, 1), (0, 3)), (5, 7))))

def lengths(): return 3*unit.t_pt + 2*unit.v_cm - 1*unit.x_mm
LEN = {"neg": lambda a, b: -a, "add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a*3, "rmul": lambda a, b: 3*a, "div": lambda a, b: a/2, "number": lambda a, b: a + 1, "rsub": lambda a, b: 1 - a, "quotient": lambda a, b: a/b,
 "eq": lambda a, b: a == b, "lt": lambda a, b: a < b, "topt": lambda a, b: unit.topt(a), "str": lambda a, b: str(a), "length": lambda a, b: unit.length(a)}
def law_length(n=list(LEN.keys())):
    a, b = lengths(), 5*unit.w_inch
    before = snapshot((a, b))
    attempt(lambda: LEN[n](a, b))
    same(snapshot((a, b)), before)
    if n in ("add", "sub"): check(LEN[n](a, b) is not a and LEN[n](a, b) is not b)
def length_iadd(a, b):
    c = a
    c += b
    c -= 2*b
    c *= 3
    return a
def law_length_inplace():
    a, b = lengths(), 5*unit.w_inch
    before = snapshot((a, b))
    length_iadd(a, b)
    same(snapshot((a, b)), before)

COL = {"gray": lambda: color.gray(0.25), "rgb": lambda: color.rgb(0.25, 0.5, 0.75), "hsb": lambda: color.hsb(0.25, 0.5, 0.75), "cmyk": lambda: color.cmyk(0.25, 0.5, 0.75, 0.125)}
COLOPS = {"gray": lambda c: c.gray(), "rgb": lambda c: c.rgb(), "hsb": lambda c: c.hsb(), "cmyk": lambda c: c.cmyk(), "bytes": lambda c: c.to8bitbytes(), "hex": lambda c: c.tohexstring(), "space": lambda c: c.colorspacestring()}
def law_color(n=[(a, b) for a in COLOPS for b in COL]):
    c = COL[n[1]]()
    before = snapshot(c)
    attempt(lambda: COLOPS[n[0]](c))
    same(snapshot(c), before)
GRAD = [color.gradient.Rainbow, color.gradient.Gray, color.rgbgradient(color.gradient.Rainbow), color.cmykgradient(color.gradient.RedBlue)]
def law_gradient(i=[0, 1, 2, 3]):
    g = GRAD[i]
    before = snapshot(g)
    x = g.getcolor(0.25)
    first = snapshot(x)
    y = g.getcolor(0.75)
    z = g.select(1, 3)
    same(snapshot(g), before); same(snapshot(x), first)
    check(x is not y)
