# Laws of Type 1 charstrings (C14).
from pyx import path, trafo
from pyx.font import t1file

def font(glyphs={}, subrs={}):
    """a font without file; charstrings are not encrypted, glyphs and subrs are command lists"""
    trust("pyx.font.t1file.T1File.__init__", lambda self: None)
    trust("pyx.font.t1file.T1File._charstringdecode", lambda self, code: code)
    trust("pyx.font.t1file.T1File._charstringencode", lambda self, code: code)
    f = t1file.T1File()
    def expand(cmds):
        r = []
        for c in cmds: r.append(command(f, c) if isinstance(c, str) else c)
        return r
    trust("pyx.font.t1file.T1File.getglyphcmds", lambda self, g: expand(glyphs[g]))
    trust("pyx.font.t1file.T1File.getsubrcmds", lambda self, s: expand(subrs[s]))
    return f
CODES = {"hstem": [1], "vstem": [3], "vmoveto": [4], "rlineto": [5], "hlineto": [6], "vlineto": [7], "rrcurveto": [8], "closepath": [9], "callsubr": [10], "return": [11],
         "hsbw": [13], "endchar": [14], "rmoveto": [21], "hmoveto": [22], "vhcurveto": [30], "hvcurveto": [31],
         "dotsection": [12, 0], "vstem3": [12, 1], "hstem3": [12, 2], "seac": [12, 6], "sbw": [12, 7], "div": [12, 12], "callothersubr": [12, 16], "pop": [12, 17], "setcurrentpoint": [12, 33]}
def command(f, name):
    return f._cmds(bytes(CODES[name]))[0]

def absolute(p):
    """the elements of a path but movetos nothing follows"""
    r = []
    for e in p:
        if isinstance(e, path.moveto_pt):
            while len(r) and r[len(r)-1][0] == "M": r.pop()
            r.append(("M", e.x_pt, e.y_pt))
        elif isinstance(e, path.lineto_pt): r.append(("L", e.x_pt, e.y_pt))
        elif isinstance(e, path.curveto_pt): r.append(("C", e.x1_pt, e.y1_pt, e.x2_pt, e.y2_pt, e.x3_pt, e.y3_pt))
        elif isinstance(e, path.closepath): r.append(("Z",))
        else: r.append(None)
    while len(r) and r[len(r)-1][0] == "M": r.pop()
    return r
T = trafo.trafo_pt(((num("m11"), num("m12")), (num("m21"), num("m22"))), (num("mx"), num("my")))
def mapped(elements, t=T):
    r = []
    for e in elements:
        q = [e[0]]
        for i in range(1, len(e), 2): q = q + list(seqv(t.apply_pt(e[i], e[i+1])))
        r.append(tuple(q))
    return r
def run(cmds, glyphs={}, subrs={}, flex=True):
    """path and context of a character"""
    glyphs = dict(glyphs); glyphs["test"] = cmds
    f = font(glyphs, subrs)
    c = t1file.T1context(f, flex=flex)
    p = path.path()
    f.updateglyphpath("test", p, T, c)
    return p, c
SB, WX = num("sb"), num("wx")
A = [num("a%d" % i) for i in range(8)]
def prog(*cmds): return [SB, WX, "hsbw", 5, 7, "rmoveto"] + list(cmds)
X, Y = SB + 5, 7

def law_hsbw():
    p, c = run([SB, WX, "hsbw", A[0], A[1], "rlineto", "endchar"])
    same(absolute(p), mapped([("M", SB, 0), ("L", SB + A[0], A[1])]))
    same((c.x, c.y, c.wx, c.wy), (SB + A[0], A[1], WX, 0))
    same(len(c.t1stack), 0)
def law_sbw():
    p, c = run(A[:4] + ["sbw", A[4], A[5], "rlineto", "endchar"])
    same(absolute(p), mapped([("M", A[0], A[1]), ("L", A[0] + A[4], A[1] + A[5])]))
    same((c.x, c.y, c.wx, c.wy), (A[0] + A[4], A[1] + A[5], A[2], A[3]))

COMMANDS = ["rmoveto", "hmoveto", "vmoveto", "rlineto", "hlineto", "vlineto", "rrcurveto", "vhcurveto", "hvcurveto", "hstem", "vstem", "hstem3", "vstem3", "dotsection", "closepath"]
def law_command(name=COMMANDS):
    """the path of each command and the current point, shown by a line drawn behind it"""
    n = {"rmoveto": 2, "hmoveto": 1, "vmoveto": 1, "rlineto": 2, "hlineto": 1, "vlineto": 1, "rrcurveto": 6, "vhcurveto": 4, "hvcurveto": 4, "hstem": 2, "vstem": 2, "hstem3": 6, "vstem3": 6, "dotsection": 0, "closepath": 0}[name]
    a = A[:n]
    p, c = run(prog(1, 2, "rlineto", *(a + [name, 3, 4, "rlineto", "endchar"])))
    x, y = X + 1, Y + 2
    before = [("M", X, Y), ("L", x, y)]
    d, e, = {"rmoveto": lambda: (a[0], a[1]), "hmoveto": lambda: (a[0], 0), "vmoveto": lambda: (0, a[0]), "rlineto": lambda: (a[0], a[1]), "hlineto": lambda: (a[0], 0), "vlineto": lambda: (0, a[0]),
             "rrcurveto": lambda: (a[0]+a[2]+a[4], a[1]+a[3]+a[5]), "vhcurveto": lambda: (a[1]+a[3], a[0]+a[2]), "hvcurveto": lambda: (a[0]+a[1], a[2]+a[3])}.get(name, lambda: (0, 0))()
    middle = []
    if name.endswith("moveto"): middle = [("M", x+d, y+e)]
    elif name.endswith("lineto"): middle = [("L", x+d, y+e)]
    elif name == "rrcurveto": middle = [("C", x+a[0], y+a[1], x+a[0]+a[2], y+a[1]+a[3], x+d, y+e)]
    elif name == "vhcurveto": middle = [("C", x, y+a[0], x+a[1], y+a[0]+a[2], x+d, y+e)]
    elif name == "hvcurveto": middle = [("C", x+a[0], y, x+a[0]+a[1], y+a[2], x+d, y+e)]
    elif name == "closepath": middle = [("Z",), ("M", x, y)]
    same(absolute(p), mapped(before + middle + [("L", x+d+3, y+e+4)]))
    same((c.x, c.y, c.wx, c.wy), (x+d+3, y+e+4, WX, 0))
    same(len(c.t1stack), 0); same(len(c.psstack), 0)
def law_command_state(name=COMMANDS):
    """a command of one character has no influence on another one"""
    f = font({"test": prog(*(A[:6] + [name]))})
    before = struct(command(f, name))
    c = t1file.T1context(f)
    f.updateglyphpath("test", path.path(), T, c)
    same(struct(command(f, name)), before)

def law_div():
    """the quotient is a real number"""
    assume(A[1] != 0)
    p, c = run(prog(A[0], A[1], "div", A[2], "rlineto", A[3], A[0], A[1], "div", "rlineto"))
    same(absolute(p), mapped([("M", X, Y), ("L", X + A[0]/A[1], Y + A[2]), ("L", X + A[0]/A[1] + A[3], Y + A[2] + A[0]/A[1])]))

# --- subroutines
STANDARD = {0: [3, 0, "callothersubr", "pop", "pop", "setcurrentpoint", "return"], 1: [0, 1, "callothersubr", "return"], 2: [0, 2, "callothersubr", "return"], 3: ["return"]}
def law_subr():
    subrs = {4: [A[1], "rlineto", "return"], 5: [A[2], "hlineto", 4, "callsubr", "return"]}
    p, c = run(prog(A[0], 4, "callsubr", A[3], "vlineto", A[4], 5, "callsubr"), subrs={4: [A[1], "rlineto", "return"], 5: [A[2], "rlineto", A[5], 6, "callsubr", "return"], 6: ["hmoveto", 1, 2, "rlineto", "return"]})
    x1, y1 = X + A[0], Y + A[1]
    y2 = y1 + A[3]
    x3, y3 = x1 + A[4], y2 + A[2]
    same(absolute(p), mapped([("M", X, Y), ("L", x1, y1), ("L", x1, y2), ("L", x3, y3), ("M", x3 + A[5], y3), ("L", x3 + A[5] + 1, y3 + 2)]))
    same(len(c.t1stack), 0)
def law_hint_replacement():
    """hint replacement calls the given subroutine, which does not touch the path"""
    subrs = dict(STANDARD); subrs[4] = [A[0], A[1], "hstem", "return"]
    p, c = run(prog(1, 2, "rlineto", 4, 1, 3, "callothersubr", "pop", "callsubr", A[2], A[3], "rlineto"), subrs=subrs)
    same(absolute(p), mapped([("M", X, Y), ("L", X + 1, Y + 2), ("L", X + 1 + A[2], Y + 2 + A[3])]))
    same((len(c.t1stack), len(c.psstack)), (0, 0))
def flexprog(d, size, end):
    r = [1, "callsubr"]
    for x, y in d: r = r + [x, y, "rmoveto", 2, "callsubr"]
    return r + [size] + list(end) + [0, "callsubr"]
FLEX = [True, False]
def law_flex(flex=FLEX):
    """two curves through the points of a flex section, or a line without flex"""
    d = [(num("fx%d" % i), num("fy%d" % i)) for i in range(7)]
    x, y = X + 1, Y + 2
    q = []
    for dx, dy in d:
        x, y = x + dx, y + dy
        q.append((x, y))
    p, c = run(prog(*([1, 2, "rlineto"] + flexprog(d, 50, (x, y)) + [A[0], A[1], "rlineto"])), subrs=STANDARD, flex=flex)
    if flex: r = [("C",) + q[1] + q[2] + q[3], ("C",) + q[4] + q[5] + q[6]]
    else: r = [("L",) + q[6]]
    same(absolute(p), mapped([("M", X, Y), ("L", X + 1, Y + 2)] + r + [("L", x + A[0], y + A[1])]))
    same((len(c.t1stack), len(c.psstack)), (0, 0))
def law_flex_twice():
    d = [(num("fx%d" % i), num("fy%d" % i)) for i in range(7)]
    x, y = X, Y
    r = [("M", X, Y), ("L", X, Y)]
    cmds = [0, 0, "rlineto"]
    for k in range(2):
        q = []
        for dx, dy in d:
            x, y = x + dx, y + dy
            q.append((x, y))
        cmds = cmds + flexprog(d, 50, (x, y))
        r = r + [("C",) + q[1] + q[2] + q[3], ("C",) + q[4] + q[5] + q[6]]
        if k == 0:
            cmds = cmds + [3, 4, "rlineto"]
            x, y = x + 3, y + 4
            r.append(("L", x, y))
    p, c = run(prog(*cmds), subrs=STANDARD)
    same(absolute(p), mapped(r))

# --- composed characters
GLYPHS = {"A": [num("sba"), num("wa"), "hsbw", 10, "hmoveto", 11, 12, "rlineto", "endchar"], "acute": [num("asb"), num("wacute"), "hsbw", 20, "vmoveto", 21, 22, "rlineto", "endchar"],
          "grave": [num("asb"), 5, "hsbw", "endchar"], "Z": [0, 0, "hsbw", "endchar"], "one": [0, 0, "hsbw", "endchar"]}
def law_seac():
    """base and accent, the accent having its side bearing point at the given offset from the one of the character"""
    adx, ady = num("adx"), num("ady")
    p, c = run([SB, WX, "hsbw", num("asb"), adx, ady, 65, 194, "seac"], GLYPHS)
    sba = num("sba")
    x, y = SB + adx, ady
    same(absolute(p), mapped([("M", sba + 10, 0), ("L", sba + 21, 12), ("M", x, y + 20), ("L", x + 21, y + 42)]))
def law_seac_width():
    """the width is the one of the composed character"""
    p, c = run([SB, WX, "hsbw", num("asb"), 1, 2, 65, 194, "seac"], GLYPHS)
    same((c.wx, c.wy), (WX, 0))
def law_standard_encoding():
    e = t1file.adobestandardencoding
    same(len(e), 256)
    same([e[i] for i in [32, 39, 48, 57, 65, 90, 96, 97, 122, 126, 127, 161, 169, 174, 177, 180, 182, 183, 193, 194, 195, 196, 197, 198, 199, 200, 202, 203, 205, 206, 207, 208, 225, 232, 241, 245, 248, 251]],
         ["space", "quoteright", "zero", "nine", "A", "Z", "quoteleft", "a", "z", "asciitilde", None, "exclamdown", "quotesingle", "fi", "endash", "periodcentered", "paragraph", "bullet",
          "grave", "acute", "circumflex", "tilde", "macron", "breve", "dotaccent", "dieresis", "ring", "cedilla", "hungarumlaut", "ogonek", "caron", "emdash", "AE", "Lslash", "ae", "dotlessi", "lslash", "germandbls"])

# --- what is used
def used(cmds, glyphs={}, subrs={}):
    glyphs = dict(glyphs); glyphs["test"] = cmds
    f = font(glyphs, subrs)
    sg, su = set(), set()
    f.gatherglyphcalls("test", sg, su, t1file.T1context(f))
    return sorted(sg), sorted(su)
def law_gather_subrs():
    """all subroutines called, also by other subroutines"""
    subrs = {4: [1, "hlineto", "return"], 5: [6, "callsubr", 7, "return"], 6: ["return"], 7: [4, 4, "rlineto", "return"], 8: ["return"]}
    same(used(prog(1, 2, "rlineto", 4, "callsubr", 1, 2, 3, 4, 5, 6, "rrcurveto", "closepath", "endchar"), subrs=subrs), ([], [4]))
    same(used(prog(5, "callsubr", "callsubr"), subrs=subrs), ([], [5, 6, 7]))
    same(used(prog(1, 2, "hstem", 1, 2, "vstem", 3, 4, "rlineto"), subrs=subrs), ([], []))
def law_gather_hints():
    subrs = dict(STANDARD); subrs[4] = [1, 2, "hstem", 5, "callsubr", "return"]; subrs[5] = ["return"]
    same(used(prog(1, 2, "rlineto", 4, 1, 3, "callothersubr", "pop", "callsubr", 3, 4, "rlineto"), subrs=subrs), ([], [4, 5]))
def law_gather_flex():
    d = [(k, k) for k in range(7)]
    subrs = dict(STANDARD); subrs[9] = ["return"]
    same(used(prog(*(flexprog(d, 50, (21, 21)) + [1, 2, "rlineto", 9, "callsubr"])), subrs=subrs), ([], [0, 1, 2, 9]))
def law_gather_seac():
    """base and accent, and what they need"""
    glyphs = dict(GLYPHS)
    glyphs["A"] = prog(4, "callsubr", "endchar"); glyphs["acute"] = prog(5, "callsubr", "endchar")
    same(used([0, 0, "hsbw", 0, 1, 2, 65, 194, "seac"], glyphs, {4: ["return"], 5: ["return"], 6: ["return"]}), (["A", "acute"], [4, 5]))
    glyphs["acute"] = [0, 0, "hsbw", 1, 2, 3, 49, 193, "seac"]
    same(used([0, 0, "hsbw", 0, 1, 2, 65, 194, "seac"], glyphs, {4: ["return"], 5: ["return"], 6: ["return"]}), (["A", "acute", "grave", "one"], [4]))

# --- numbers and codes
def law_code(name=list(CODES.keys())):
    """each command has its code in both directions"""
    f = font()
    c = f._cmds(bytes(CODES[name]))
    same(len(c), 1)
    same(str(c[0]), name)
    same(f._code(c), bytes(CODES[name]))
    same(f._code([1, c[0], 2, c[0]]), bytes([140] + CODES[name] + [141] + CODES[name]))
    d = f._cmds(bytes([140] + CODES[name] + [141] + CODES[name]))
    same((len(d), d[0], str(d[1]), d[2], str(d[3])), (4, 1, name, 2, name))
RANGES = [(-107, 107), (108, 1131), (-1131, -108), (1132, 2**31 - 1), (-2**31, -1132)]
def law_number(r=RANGES):
    """decoding is inverse to encoding"""
    f = font()
    v = integer("v")
    assume(r[0] <= v); assume(v <= r[1])
    code = f._code([v])
    same(len(code), 1 if r[1] == 107 else 2 if abs(r[0]) < 1132 and abs(r[1]) < 1132 else 5)
    same(f._cmds(code), [v])
BOUNDS = [0, 107, 108, 363, 364, 1131, 1132, -107, -108, -363, -364, -1131, -1132, 2**31 - 1, -2**31, 65536, -65536, 256, -256, 1 << 24, -(1 << 24)]
def law_number_bounds(v=BOUNDS):
    f = font()
    same(f._cmds(f._code([v])), [v])
    same(f._cmds(f._code([1, v, v, 2])), [1, v, v, 2])
def law_number_decoding():
    """the four formats"""
    f = font()
    b = [byte("b%d" % i) for i in range(4)]
    for first in [32, 33, 138, 139, 140, 245, 246]: same(f._cmds(bytesof(first)), [first - 139])
    for first in [247, 248, 249, 250]: same(f._cmds(bytesof(first, b[0])), [(first - 247)*256 + b[0] + 108])
    for first in [251, 252, 253, 254]: same(f._cmds(bytesof(first, b[0])), [-(first - 251)*256 - b[0] - 108])
    v = 256*(256*(256*b[0] + b[1]) + b[2]) + b[3]
    same(f._cmds(bytesof(255, b[0], b[1], b[2], b[3])), [v - 2**32 if b[0] > 127 else v])

# --- whole characters
FLEXES = [True, False]
def law_glyphpath(flex=FLEXES):
    """outline and width in points"""
    seen = []
    f = font()
    f.fontmatrix = trafo.trafo_pt(((num("m11"), num("m12")), (num("m21"), num("m22"))))
    f.encoding = {65: "Aname"}
    def update(self, glyph, p, t, context):
        seen.append((glyph, seqv(t.apply_pt(num("tx"), num("ty"))), context.flex))
        context.x, context.y, context.wx, context.wy = 1, 2, num("wx"), num("wy")
    trust("pyx.font.t1file.T1File.updateglyphpath", update)
    s, x, y = pos("s"), num("x"), num("y")
    def expected(u, v): return (s*(num("m11")*u + num("m12")*v), s*(num("m21")*u + num("m22")*v))
    g = f.getglyphpath_pt(x, y, "name", s, flex=flex)
    h = f.getglyphpath_pt(x, y, 65, s, convertcharcode=True, flex=flex)
    e = expected(num("tx"), num("ty"))
    same(seen, [(k, (e[0] + x, e[1] + y), flex) for k in ["name", "Aname"]])
    same((g.wx_pt, g.wy_pt), expected(num("wx"), num("wy")))
    same((h.wx_pt, h.wy_pt), expected(num("wx"), num("wy")))

# --- subsets of fonts
DATA1 = "%!PS\n/FontName /Test def\n/FontMatrix [0.001 0 0 0.001 0 0] readonly def\n"
def law_stripped():
    """glyphs named and those of the character codes, the parts of composed ones, and .notdef are kept with all their subroutines"""
    trust("pyx.font.t1file.T1File.__init__", lambda self, *a: setattr(self, "args", a))
    f = t1file.T1File()
    f.encoding = ["A", "B", "C"]
    f.encodingstart = f.encodingend = 0
    f.data1 = f.data3 = ""
    def gather(self, g, sg, su, context):
        if g == "B": sg.add("accent"); su.add(7)
        elif g == "X": su.add(8)
    kept = []
    trust("pyx.font.t1file.T1File.gatherglyphcalls", gather)
    def data2(self, subrs=None, glyphs=None):
        kept.append((sorted(subrs), sorted(glyphs)))
        return b"data2"
    trust("pyx.font.t1file.T1File.getdata2", data2)
    trust("pyx.font.t1file.T1File._eexecencode", lambda self, d: d)
    f.getstrippedfont(set(["X"]), set([1]))
    same(kept, [([7, 8], [".notdef", "B", "X", "accent"])])
SUBSETS = [(None, None), ([0], ["a"]), ([5], ["b"]), ([4, 6], ["a", "c"]), ([], [])]
ORDERS = [(True, k) for k in SUBSETS] + [(False, k) for k in SUBSETS]
def law_data2(k=ORDERS):
    """subroutines keep their numbers, unused ones are empty; if one of the first four is used, all of them are"""
    first, (subrs, glyphs) = k
    f = font()
    f.subrs = [b"s%d" % i for i in range(8)]
    f.glyphs = {"a": b"A1", "b": b"B22", "c": b"C"}
    f.glyphlist = ["a", "b", "c"]
    f.hasflexhintsubrs = True
    f.emptysubr = b"!"
    f.subrrdtoken = f.glyphrdtoken = b"RD"; f.subrnptoken = b"NP"; f.glyphndtoken = b"ND"
    f._data2 = b"<SSS|CC>" if first else b"<CC|SSS>"
    f.subrsstart, f.subrsend, f.charstringsstart, f.charstringsend = (1, 4, 5, 7) if first else (4, 7, 1, 3)
    r = f.getdata2(None if subrs is None else set(subrs), None if glyphs is None else set(glyphs))
    u = list(range(8)) if subrs is None else [0, 1, 2, 3] if 0 in subrs else subrs
    n = max(u) + 1 if len(u) else 0
    s = b"%d array\n" % n
    for i in range(n): s = s + (b"dup %d 2 RD s%d NP\n" % (i, i) if i in u else b"dup %d 1 RD ! NP\n" % i)
    g = ["a", "b", "c"] if glyphs is None else glyphs
    c = b"%d dict dup begin\n" % len(g)
    for n in g: c = c + b"/%s %d RD %s ND\n" % (n.encode("ascii"), len(f.glyphs[n]), f.glyphs[n])
    c = c + b"end\n"
    same(r, b"<" + s + b"|" + c + b">" if first else b"<" + c + b"|" + s + b">")
