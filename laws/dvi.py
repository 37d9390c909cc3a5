# Laws of DVI, VF and TFM files (C13).
import struct as packing
from pyx import reader, config, canvas, deco, trafo, color, path
from pyx.dvi import dvifile, texfont, tfmfile, vffile

NUM, DEN = 25400000, 473628672            # the units of TeX: scaled points
CONV = 72/72.27/65536                     # PostScript points per scaled point
TFM = packing.pack(">12H", 12, 2, 1, 0, 1, 1, 1, 1, 0, 0, 0, 0) + packing.pack(">6L", 0, 10 << 20, 0, 0, 0, 0)
def W(name, c): return uf("W", name, c)

def be(b, signed=False):
    """the number of big-endian bytes"""
    v = 0
    for x in b: v = 256*v + x
    if signed and b[0] > 127: v = v - 256**len(b)
    return v
def sym(n, name="b"): return [byte(name + str(i)) for i in range(n)]
def const(v, n):
    return [(v >> (8*(n-1-i))) & 255 for i in range(n)]

def preamble(num=const(NUM, 4), den=const(DEN, 4), mag=const(1000, 4), comment=[88, 89]):
    return [247, 2] + num + den + mag + [len(comment)] + comment
BOP = [139] + 40*[0] + [255, 255, 255, 255]
EOP = [140]
def fntdef(k, name, size=655360, design=655360, head=None):
    if head is None: head = [243, k]
    return head + [0, 0, 0, 0] + const(size, 4) + const(design, 4) + [0, len(name)] + [ord(c) for c in name]

def setup(codes, vfs={}):
    """the DVI program given by codes, and fonts without metric but the widths W"""
    trust("builtin:open", lambda *a, **kw: newbinfile(bytesof(*codes)))
    def fopen(filename, formats, ascii=False):
        if formats[0] is config.format.tfm: return newbinfile(TFM)
        if filename in vfs: return newbinfile(vfs[filename])
        raise FileNotFoundError(filename)
    trust("pyx.config.open", fopen)
    trust("pyx.dvi.texfont.TeXfont.getwidth_dvi", lambda self, c: W(self.name, c))
    trust("pyx.dvi.texfont.TeXfont.getwidth_pt", lambda self, c: W(self.name, c)*CONV)
    trust("pyx.dvi.texfont.TeXfont.getheight_pt", lambda self, c: 1)
    trust("pyx.dvi.texfont.TeXfont.getdepth_pt", lambda self, c: 1)

def page(codes, vfs={}, single=False):
    setup(preamble() + BOP + codes + EOP, vfs)
    return dvifile.DVIfile("name").readpage(singlecharmode=single)

def inner(c, r):
    for item in c.items:
        if isinstance(item, texfont.TeXtext_pt):
            x = item.x_pt
            for code in item.charcodes:
                r.append(("char", item.font.name, code, x, item.y_pt, item.size_pt))
                x = x + W(item.font.name, code)*CONV
        elif isinstance(item, deco.decoratedpath):
            b = item.path.bbox()
            r.append(("rule", b.llx_pt, b.lly_pt, b.urx_pt - b.llx_pt, b.ury_pt - b.lly_pt, item.fillstyles is not None and item.strokestyles is None))
        elif isinstance(item, canvas.canvas):
            r.append(("begin", item.styles, seqv(item.trafo.apply_pt(num("tx"), num("ty")))))
            inner(item, r)
            r.append(("end",))
        else:
            r.append(("other", item))
    return r
def shown(c):
    """what a page shows, character by character"""
    return inner(c, [])
def char(name, code, x, y, size=655360): return ("char", name, code, x*CONV, -y*CONV, size*CONV)
def rule(x, y, w, h): return ("rule", x*CONV, -y*CONV, w*CONV, h*CONV, True)

# a prefix giving all registers a value of its own, and a suffix showing them all
H0, V0, WW, XX, YY, ZZ = 1000, 2000, 30, 40, -50, 600
PREFIX = [144] + const(H0 - WW - XX, 2) + [158] + const(V0 - YY - ZZ, 2) + [148, WW, 153, XX, 162, 256 + YY, 168] + const(ZZ, 2)
DOT = [137, 0, 0, 0, 1, 0, 0, 0, 2]
SUFFIX = DOT + [147] + DOT + [152] + DOT + [161] + DOT + [166] + DOT
def dots(h=H0, v=V0, w=WW, x=XX, y=YY, z=ZZ):
    r = []
    for p in [(h, v), (h+w, v), (h+w+x, v), (h+w+x, v+y), (h+w+x, v+y+z)]: r.append(rule(p[0], p[1], 2, 1))
    return r

MOVES = []
for n in [1, 2, 3, 4]:
    MOVES = MOVES + [(142+n, n, "h", ""), (147+n, n, "h", "w"), (152+n, n, "h", "x"), (156+n, n, "v", ""), (161+n, n, "v", "y"), (166+n, n, "v", "z")]
def law_move(k=MOVES):
    """right, down, w, x, y, z with operands of one to four signed bytes"""
    op, n, direction, register = k
    b = sym(n)
    p = page(PREFIX + [op] + b + SUFFIX)
    d = be(b, True)
    kw = {}
    if direction == "h": kw["h"] = H0 + d
    else: kw["v"] = V0 + d
    if register: kw[register] = d
    same(shown(p), dots(**kw))
REPEATS = [(147, "h", WW), (152, "h", XX), (161, "v", YY), (166, "v", ZZ)]
def law_move_again(k=REPEATS):
    """w0, x0, y0 and z0 move by the register, which they keep"""
    op, direction, d = k
    p = page(PREFIX + [op, op] + SUFFIX)
    same(shown(p), dots(**({"h": H0 + 2*d} if direction == "h" else {"v": V0 + 2*d})))
def law_start():
    """all registers are zero at the beginning of a page"""
    same(shown(page(SUFFIX)), dots(0, 0, 0, 0, 0, 0))
    setup(preamble() + BOP + PREFIX + [141] + EOP + BOP + SUFFIX + EOP)
    f = dvifile.DVIfile("name")
    same(shown(f.readpage()), [])
    same(shown(f.readpage()), dots(0, 0, 0, 0, 0, 0))

def law_nop():
    p = page([138] + PREFIX + [138, 138] + SUFFIX + [138])
    same(shown(p), dots())
    p = page(fntdef(0, "f") + [138, 171, 138, 65, 138, 66, 138] + EOP)
    same(shown(p), [char("f", 65, 0, 0), char("f", 66, W("f", 65), 0)])
def law_nop_outside():
    setup([138, 138] + preamble() + [138] + BOP + EOP + [138, 138] + BOP + DOT + EOP + [138, 248])
    f = dvifile.DVIfile("name")
    same(shown(f.readpage()), [])
    same(shown(f.readpage()), [rule(0, 0, 2, 1)])
    same(f.readpage(), None)

# --- stack
def law_push():
    """pop restores all six registers, without the stack moves between have no effect"""
    change = [145, 1, 2, 3, 159, 4, 5, 6, 148, 7, 153, 8, 162, 9, 167, 10]
    p = page(PREFIX + [141] + change + [142] + SUFFIX)
    same(shown(p), dots())
    q = page(PREFIX + [141] + change + [141] + change + [142, 142] + SUFFIX)
    same(shown(q), dots())
    p = page(PREFIX + [141] + SUFFIX + [142] + SUFFIX)
    same(shown(p), dots() + dots())
    p = page(PREFIX + [141, 143, 5, 141, 157, 6, 142] + SUFFIX + [142] + SUFFIX)
    same(shown(p), dots(h=H0+5) + dots())
def law_push_chars():
    """text before push, between push and pop, and behind pop"""
    p = page(fntdef(1, "f") + PREFIX + [172, 1, 141, 2, 141, 3, 142, 4, 142, 5] + DOT)
    w = [W("f", k) for k in range(6)]
    same(shown(p), [char("f", 1, H0, V0), char("f", 2, H0+w[1], V0), char("f", 3, H0+w[1]+w[2], V0),
                    char("f", 4, H0+w[1]+w[2], V0), char("f", 5, H0+w[1], V0), rule(H0+w[1]+w[5], V0, 2, 1)])

# --- characters
SETS = [([0], 0), ([65], 65), ([127], 127), ([128, 0], 0), ([128, 200], 200), ([128, 255], 255), ([129, 1, 2], 258), ([129, 255, 254], 65534), ([130, 1, 2, 3], 66051), ([130, 255, 255, 255], 16777215), ([131, 0, 0, 1, 2], 258), ([131, 1, 2, 3, 4], 16909060)]
PUTS = [([133, 0], 0), ([133, 200], 200), ([134, 1, 2], 258), ([134, 255, 254], 65534), ([135, 1, 2, 3], 66051), ([136, 1, 2, 3, 4], 16909060)]
def law_set_char(k=SETS):
    """characters are put at the current position, which then is moved by their width"""
    op, code = k
    p = page(fntdef(0, "f") + fntdef(1, "g") + PREFIX + [172] + op + SUFFIX)
    same(shown(p), [char("g", code, H0, V0)] + dots(h=H0 + W("g", code)))
    p = page(fntdef(0, "f") + fntdef(1, "g") + PREFIX + [172] + op + [65] + op + SUFFIX)
    same(shown(p), [char("g", code, H0, V0), char("g", 65, H0 + W("g", code), V0), char("g", code, H0 + W("g", code) + W("g", 65), V0)] + dots(h=H0 + 2*W("g", code) + W("g", 65)))
def law_put_char(k=PUTS):
    """put leaves the position as it is, also within text"""
    op, code = k
    p = page(fntdef(0, "f") + PREFIX + [171] + op + SUFFIX)
    same(shown(p), [char("f", code, H0, V0)] + dots())
    p = page(fntdef(0, "f") + PREFIX + [171, 7] + op + [8] + op + op + [9] + SUFFIX)
    w = [W("f", c) for c in [7, 8, 9]]
    same(shown(p), [char("f", 7, H0, V0), char("f", code, H0+w[0], V0), char("f", 8, H0+w[0], V0)] + 2*[char("f", code, H0+w[0]+w[1], V0)]
         + [char("f", 9, H0+w[0]+w[1], V0)] + dots(h=H0+w[0]+w[1]+w[2]))
def law_text_interrupted():
    """text continues where moves, rules, fonts and specials leave the position"""
    for op, dh, dv in [([143, 17], 17, 0), ([157, 18], 0, 18), ([147], WW, 0), ([152], XX, 0), ([161], 0, YY), ([166], 0, ZZ), ([148, 19], 19, 0), ([153, 19], 19, 0), ([162, 19], 0, 19), ([167, 19], 0, 19)]:
        p = page(fntdef(0, "f") + PREFIX + [171, 1, 2] + op + [3, 4] + DOT)
        w = [W("f", k) for k in range(5)]
        same(shown(p), [char("f", 1, H0, V0), char("f", 2, H0+w[1], V0), char("f", 3, H0+w[1]+w[2]+dh, V0+dv), char("f", 4, H0+w[1]+w[2]+dh+w[3], V0+dv), rule(H0+w[1]+w[2]+w[3]+w[4]+dh, V0+dv, 2, 1)])
def law_text_order():
    """what is drawn keeps its order"""
    p = page(fntdef(0, "f") + fntdef(1, "g") + [171, 1] + [132, 0, 0, 0, 3, 0, 0, 0, 4] + [2, 172, 1] + DOT + [3])
    f1, f2, g1 = W("f", 1), W("f", 2), W("g", 1)
    same(shown(p), [char("f", 1, 0, 0), rule(f1, 0, 4, 3), char("f", 2, f1+4, 0), char("g", 1, f1+4+f2, 0), rule(f1+4+f2+g1, 0, 2, 1), char("g", 3, f1+4+f2+g1, 0)])
def law_single():
    """in single character mode each character is an item of its own"""
    p = page(fntdef(0, "f") + [171, 1, 2, 3], single=True)
    same([seqv(i.charcodes) for i in p.items], [(1,), (2,), (3,)])
    same(shown(p), [char("f", 1, 0, 0), char("f", 2, W("f", 1), 0), char("f", 3, W("f", 1)+W("f", 2), 0)])

# --- rules
RULES = [(132, True), (137, False)]
def law_rule(k=RULES):
    """height and width are signed, only positive ones show a rule; a set rule moves by the width in any case"""
    op, advance = k
    h, w = sym(4, "h"), sym(4, "w")
    p = page(PREFIX + [op] + h + w + SUFFIX)
    height, width = be(h, True), be(w, True)
    r = []
    if height > 0 and width > 0: r = [rule(H0, V0, width, height)]
    same(shown(p), r + dots(h=H0 + width if advance else H0))

# --- fonts
def law_font_select():
    """all 64 short font numbers"""
    for k in [0, 1, 2, 31, 62, 63]:
        p = page(fntdef(k, "f") + fntdef(64, "g") + [171 + k, 1])
        same(shown(p), [char("f", 1, 0, 0)])
FONTNUMS = [(1, [200]), (1, [255]), (2, [1, 2]), (2, [255, 254]), (3, [1, 2, 3]), (3, [255, 254, 253]), (4, [1, 2, 3, 4]), (4, [255, 255, 255, 251])]
def law_font_number(k=FONTNUMS):
    """font numbers of one to four bytes, those of four bytes signed, mean the same font when defined and when used"""
    n, b = k
    p = page(fntdef(0, "f", head=[242 + n] + b) + fntdef(7, "g") + [178, 1, 234 + n] + b + [1] + SUFFIX)
    same(shown(p)[:2], [char("g", 1, 0, 0), char("f", 1, W("g", 1), 0)])
def law_font_number_value(k=FONTNUMS):
    n, b = k
    seen = []
    trustkw("pyx.dvi.dvifile.DVIfile.definefont", lambda self, cmdnr, num, c, q, d, fontname: seen.append((num, c, q, d, fontname)))
    c, s, d = sym(4, "c"), sym(4, "s"), sym(4, "d")
    page([242 + n] + b + c + s + d + [2, 3, 97, 98, 99, 100, 101])
    same(seen, [(be(b, n == 4), be(c, True), be(s, True), be(d, True), "abcde")])
FONTUSES = [1, 2, 3, 4]
def law_font_use_value(n=FONTUSES):
    seen = []
    trustkw("pyx.dvi.dvifile.DVIfile.usefont", lambda self, fontnum, id1234, fontmap: seen.append(fontnum))
    b = sym(n)
    page([234 + n] + b + [174])
    same(seen, [be(b, n == 4), 3])
def law_font_size():
    """the size of a font is its scaled size, the design size is the one of the metric file"""
    s = [byte("s1"), byte("s2"), byte("s3")]
    p = page([243, 0, 0, 0, 0, 0, 0] + s + const(655360, 4) + [0, 1, 102] + [171, 1])
    same(shown(p), [char("f", 1, 0, 0, be(s))])
def law_font_flush():
    """text is completed in its own font before another one is used, also when fonts are defined in between"""
    p = page(fntdef(0, "f") + fntdef(1, "g") + [171, 1, 2] + fntdef(2, "h") + [3, 172, 4, 173, 5, 171, 6])
    f = [W("f", k) for k in range(4)]
    same(shown(p), [char("f", 1, 0, 0), char("f", 2, f[1], 0), char("f", 3, f[1]+f[2], 0), char("g", 4, f[1]+f[2]+f[3], 0),
                    char("h", 5, f[1]+f[2]+f[3]+W("g", 4), 0), char("f", 6, f[1]+f[2]+f[3]+W("g", 4)+W("h", 5), 0)])
def law_font_redefined():
    """a font file is read anew for each definition"""
    p = page(fntdef(0, "f") + fntdef(1, "f", 1310720) + [171, 1, 172, 1])
    same(shown(p), [char("f", 1, 0, 0), char("f", 1, W("f", 1), 0, 1310720)])

# --- specials
def special(text, n=1): return [238 + n] + const(len(text), n) + [ord(c) for c in text]
SPECIALS = [1, 2, 3, 4]
def law_special_length(n=SPECIALS):
    """the length of a special has one to four bytes"""
    p = page(fntdef(0, "f") + PREFIX + [171, 1] + special("PyX:marker a@1", n) + [2] + SUFFIX)
    w = [W("f", k) for k in range(3)]
    same(shown(p), [char("f", 1, H0, V0), char("f", 2, H0+w[1], V0)] + dots(h=H0+w[1]+w[2]))
    same(list(p.markers.keys()), ["a@1"])
def law_special_foreign():
    """specials of others do nothing"""
    for s in ["header=l3backend-dvips.pro", "ps: gsave", "pyx:marker a", ""]:
        p = page(fntdef(0, "f") + PREFIX + [171, 1] + special(s) + [2] + SUFFIX)
        w = [W("f", k) for k in range(3)]
        same(shown(p), [char("f", 1, H0, V0), char("f", 2, H0+w[1], V0)] + dots(h=H0+w[1]+w[2]))
        same(p.markers, {})
def law_special_long():
    """a length of more than 255 bytes"""
    p = page(special("x"*300, 2) + DOT)
    same(shown(p), [rule(0, 0, 2, 1)])
COLORS = [("cmyk {0} {1} {2} {3}", "cmyk"), ("gray {0}", "gray"), ("hsb {0} {1} {2}", "hsb"), ("rgb {0} {1} {2}", "rgb"),
          ("texnamed PineGreen", "PineGreen"), ("texnamed Black", "Black"),
          ("pyxcolor cmyk({0},{1},{2},{3})", "cmyk"), ("pyxcolor pyx.color.rgb({0},{1},{2})", "rgb"), ("pyxcolor color.hsb({0}, {1}, {2})", "hsb"), ("pyxcolor gray({0})", "gray"), ("pyxcolor grey({0})", "gray"),
          ("pyxcolor cmyk.PineGreen", "PineGreen"), ("pyxcolor pyx.color.cmyk.Black", "Black"), ("pyxcolor color.rgb.red", "red")]
def law_special_color(k=COLORS):
    """text behind the beginning of a colour has this colour, text behind its end has not"""
    template, model = k
    q = [unit("c%d" % i) for i in range(4)]
    for v in q: assume(v < 1)
    p = page(fntdef(0, "f") + PREFIX + [171, 1] + special("PyX:color_begin " + template.format(*[numtext(v) for v in q])) + [2, 3] + special("PyX:color_end") + [4] + SUFFIX)
    if model == "cmyk": c = color.cmyk(*q)
    elif model == "gray": c = color.gray(q[0])
    elif model == "hsb": c = color.hsb(*q[:3])
    elif model == "rgb": c = color.rgb(*q[:3])
    elif model == "red": c = color.rgb.red
    else: c = getattr(color.cmyk, model)
    w = [W("f", k) for k in range(5)]
    s = shown(p)
    same([e for e in s if e[0] != "begin"], [char("f", 1, H0, V0), char("f", 2, H0+w[1], V0), char("f", 3, H0+w[1]+w[2], V0), ("end",), char("f", 4, H0+w[1]+w[2]+w[3], V0)] + dots(h=H0+w[1]+w[2]+w[3]+w[4]))
    same(s[1][0], "begin")
    same(len(s[1][1]), 1)
    same(classname(s[1][1][0]), classname(c))
    same(struct(s[1][1][0]), struct(c))
    same(s[1][2], (num("tx"), num("ty")))
def law_special_RGB():
    p = page(special("PyX:color_begin RGB 255 0 51") + DOT + special("PyX:color_end"))
    s = shown(p)
    same(struct(s[0][1][0]), struct(color.rgb(1, 0, 51/255)))
    same(s[1:], [rule(0, 0, 2, 1), ("end",)])
BADCOLORS = ["foo 1 2", "texnamed NoSuchColor", "pyxcolor yuv(1,2,3)", "pyxcolor cmyk.NoSuch", "pyxcolor rgb(0.1,0.2,0.3,0.4)", "pyxcolor gray(0.1,0.2,0.3)"]
def law_special_color_rejected(t=BADCOLORS):
    same(outcome(lambda: page(special("PyX:color_begin " + t))), ("raise", "RuntimeError"))
def law_special_unknown():
    same(outcome(lambda: page(special("PyX:foo 1"))), ("raise", "RuntimeError"))
TRAFOS = ["rotate", "scale"]
def law_special_trafo(k=TRAFOS):
    """rotation and scaling have the current position as their fixed point"""
    a, b = num("a"), pos("b")
    args = numtext(a) if k == "rotate" else numtext(b) + " " + numtext(b)
    p = page(fntdef(0, "f") + PREFIX + [171, 1] + special("PyX:%s_begin %s" % (k, args)) + [2] + special("PyX:%s_end" % k) + [3])
    w = [W("f", k) for k in range(4)]
    s = shown(p)
    x, y = (H0+w[1])*CONV, -V0*CONV
    t = trafo.rotate_pt(a, x, y) if k == "rotate" else trafo.scale_pt(b, b, x, y)
    same(s, [char("f", 1, H0, V0), ("begin", [], seqv(t.apply_pt(num("tx"), num("ty")))), char("f", 2, H0+w[1], V0), ("end",), char("f", 3, H0+w[1]+w[2], V0)])
def law_special_scale():
    a, b = pos("a"), pos("b")
    p = page(PREFIX + special("PyX:scale_begin %s %s" % (numtext(a), numtext(b))) + DOT + special("PyX:scale_end"))
    t = p.items[0].trafo
    x, y = H0*CONV, -V0*CONV
    same(seqv(t.apply_pt(x, y)), (x, y))
    same(seqv(t.apply_pt(x + num("tx"), y + num("ty"))), (x + a*num("tx"), y + b*num("ty")))
def law_special_marker():
    """markers keep the current position"""
    b = sym(2)
    p = page([144] + b + [158, 1, 2] + special("PyX:marker a") + [143, 1] + special("PyX:marker B9@") + SUFFIX)
    same(list(p.markers.keys()), ["a", "B9@"])
    for name, x in [("a", be(b, True)), ("B9@", be(b, True) + 1)]:
        m = p.markers[name]
        same((m[0].t, m[1].t), (x*CONV/72*0.0254, -258*CONV/72*0.0254))
def law_special_marker_sub():
    """markers within transformed parts are transformed"""
    p = page([143, 10] + special("PyX:scale_begin 2 3") + [143, 7, 157, 9] + special("PyX:marker a") + special("PyX:scale_end"))
    m = p.markers["a"]
    same((m[0].t, m[1].t), ((10+2*7)*CONV/72*0.0254, -3*9*CONV/72*0.0254))
BADMARKERS = [["PyX:marker a b"], ["PyX:marker a-b"], ["PyX:marker a.b"], ["PyX:marker a", "PyX:marker a"], ["PyX:marker"]]
def law_special_marker_rejected(t=BADMARKERS):
    codes = []
    for s in t: codes = codes + special(s)
    same(outcome(lambda: page(codes)), ("raise", "RuntimeError"))
def law_special_nested():
    p = page(special("PyX:color_begin gray 0.5") + DOT + special("PyX:color_begin gray 0.25") + DOT + special("PyX:color_end") + DOT + special("PyX:color_end") + DOT)
    d = rule(0, 0, 2, 1)
    same([e if e[0] != "begin" else struct(e[1][0]) for e in shown(p)], [struct(color.gray(0.5)), d, struct(color.gray(0.25)), d, ("end",), d, ("end",), d])

# --- files
def law_preamble():
    """units and magnification are those of the preamble"""
    n, d, m = sym(4, "n"), sym(4, "d"), sym(4, "m")
    assume(be(n) > 0); assume(be(d) > 0); assume(be(m) > 0)
    setup(preamble(n, d, m, [1, 2, 3, 4, 5]) + BOP + [143, 100] + EOP)
    f = dvifile.DVIfile("name")
    f.readpage()
    same(f.pyxconv, be(n)/be(d)*1e-7/0.0254*72*be(m)/1000)
    same(f.tfmconv, 254/be(n)*1e5*be(d)/473628672/16)
BADPRE = [[247, 3], [139], [248], [0], [246], [255]]
def law_preamble_rejected(c=BADPRE):
    """only no-ops come before the preamble, which is of version two"""
    setup(c + preamble())
    same(outcome(lambda: dvifile.DVIfile("name")), ("raise", "DVIError"))
BADPAGE = [139, 247, 248, 249, 250, 255]
def law_page_rejected(c=BADPAGE):
    """commands not allowed within a page"""
    same(outcome(lambda: page([c])), ("raise", "DVIError"))
BADBETWEEN = [0, 127, 128, 132, 137, 140, 141, 142, 143, 147, 171, 234, 239, 247, 249, 250]
def law_between_rejected(c=BADBETWEEN):
    setup(preamble() + [c] + BOP + EOP)
    f = dvifile.DVIfile("name")
    same(outcome(lambda: f.readpage()), ("raise", "DVIError"))
def law_page_numbers():
    """the ten numbers of a page are compared to the expected ones"""
    b = sym(4)
    bop = [139] + const(1, 4) + b + 32*[0] + [255, 255, 255, 255]
    setup(preamble() + bop + DOT + EOP)
    same(shown(dvifile.DVIfile("name").readpage([1, be(b)] + 8*[0])), [rule(0, 0, 2, 1)])
    setup(preamble() + bop + DOT + EOP)
    same(outcome(lambda: dvifile.DVIfile("name").readpage([1, be(b) + 1] + 8*[0])), ("raise", "DVIError"))
    setup(preamble() + bop + DOT + EOP)
    same(outcome(lambda: dvifile.DVIfile("name").readpage([1, be(b)] + 7*[0] + [1])), ("raise", "DVIError"))
def law_page_attrs():
    setup(preamble() + BOP + DOT + EOP)
    t = trafo.translate_pt(num("a"), num("b"))
    p = dvifile.DVIfile("name").readpage(attrs=[t, color.rgb.red])
    same(seqv(p.trafo.apply_pt(num("x"), num("y"))), (num("x") + num("a"), num("y") + num("b")))
    same(struct(p.styles[0]), struct(color.rgb(1, 0, 0)))
def law_fontmap():
    fm = {"f": unknown("mapline")}
    setup(preamble() + BOP + fntdef(0, "f") + [171, 1, 143, 1, 2, 133, 3] + EOP)
    p = dvifile.DVIfile("name").readpage(fontmap=fm)
    check(len(p.items) > 1)
    for i in p.items: same(i.fontmap, fm)

# --- virtual fonts
def vf(packets, ds=10 << 20, comment=[7], fonts=None):
    if fonts is None: fonts = vfont(0, "b") + vfont(1, "c")
    return bytesof(*([247, 202, len(comment)] + comment + [0, 0, 0, 0] + const(ds, 4) + fonts + packets + [248, 248, 248, 248]))
def vfont(k, name, s=1 << 20, d=10 << 20, head=None):
    if head is None: head = [243, k]
    return head + [0, 0, 0, 0] + const(s, 4) + const(d, 4) + [0, len(name)] + [ord(c) for c in name]
def packet(c, dvi): return [len(dvi), c, 0, 0, 0] + dvi
def longpacket(c, dvi): return [242] + const(len(dvi), 4) + const(c, 4) + [0, 0, 0] + dvi
FIX = 655360/(1 << 20)                 # the unit of lengths in a virtual font of 10pt, in DVI units
PACKETS = [packet, longpacket]
def law_vf_char(k=PACKETS):
    """a virtual character is replaced by its packet at the current position, which then moves by the width of the virtual character"""
    f = vf(k(65, [1, 2]) + k(66, [3]))
    p = page(fntdef(0, "v") + PREFIX + [171, 65, 66, 133, 66] + SUFFIX, {"v": f})
    va, vb, b1 = W("v", 65), W("v", 66), W("b", 1)
    same(shown(p), [char("b", 1, H0, V0), char("b", 2, H0 + b1, V0), char("b", 3, H0 + va, V0), char("b", 3, H0 + va + vb, V0)] + dots(h=H0+va+vb))
def law_vf_code():
    """in the long form codes have four bytes"""
    f = vf(packet(200, [1]) + longpacket(258, [2]))
    p = page(fntdef(0, "v") + [171, 128, 200, 129, 1, 2], {"v": f})
    same(shown(p), [char("b", 1, 0, 0), char("b", 2, W("v", 200), 0)])
VFMOVES = [(143, "h", ""), (148, "h", "w"), (153, "h", "x"), (157, "v", ""), (162, "v", "y"), (167, "v", "z")]
def law_vf_move(k=VFMOVES):
    """moves in packets are relative to the size of the virtual font, registers of the page come back behind the packet"""
    op, direction, reg = k
    b = byte("b0")
    again = {"": [], "w": [147], "x": [152], "y": [161], "z": [166]}[reg]
    f = vf(packet(65, [1, op, b, 2] + again + [3]))
    p = page(fntdef(0, "v") + PREFIX + [171, 65] + SUFFIX, {"v": f})
    d = be([b], True)*FIX
    b1, b2 = W("b", 1), W("b", 2)
    dh, dv = (d, 0) if direction == "h" else (0, d)
    if reg: e, g = 2*dh, 2*dv
    else: e, g = dh, dv
    same(shown(p), [char("b", 1, H0, V0), char("b", 2, H0 + b1 + dh, V0 + dv), char("b", 3, H0 + b1 + b2 + e, V0 + g)] + dots(h=H0 + W("v", 65)))
def law_vf_stack():
    """the stack of a packet is its own"""
    f = vf(packet(65, [141, 143, 5, 1, 142, 2, 141]))
    p = page(fntdef(0, "v") + PREFIX + [171, 141, 65, 142] + SUFFIX, {"v": f})
    same(shown(p), [char("b", 1, H0 + 5*FIX, V0), char("b", 2, H0, V0)] + dots())
VFRULES = [(132, True), (137, False)]
def law_vf_rule(k=VFRULES):
    """rules in packets have the size of the virtual font"""
    op, advance = k
    f = vf(packet(65, [op, 0, 0, 0, 32, 0, 0, 0, 16, 1]))
    p = page(fntdef(0, "v") + PREFIX + [171, 65] + SUFFIX, {"v": f})
    same(shown(p), [rule(H0, V0, 16*FIX, 32*FIX), char("b", 1, H0 + 16*FIX if advance else H0, V0)] + dots(h=H0 + W("v", 65)))
def law_vf_fonts():
    """a packet starts with the first font of the virtual font, and the page goes on with its own"""
    f = vf(packet(65, [1, 172, 2]) + packet(66, [3]))
    p = page(fntdef(0, "v") + fntdef(1, "f") + [171, 65, 66, 172, 4], {"v": f})
    va, vb = W("v", 65), W("v", 66)
    same(shown(p), [char("b", 1, 0, 0), char("c", 2, W("b", 1), 0), char("b", 3, va, 0), char("f", 4, va + vb, 0)])
def law_vf_fontnum(k=FONTNUMS):
    n, b = k
    f = vf(packet(65, [1, 234 + n] + b + [2]), fonts=vfont(0, "b") + vfont(0, "c", head=[242 + n] + b))
    p = page(fntdef(0, "v") + [171, 65], {"v": f})
    same(shown(p), [char("b", 1, 0, 0), char("c", 2, W("b", 1), 0)])
def law_vf_after():
    """text before a virtual character and behind it"""
    f = vf(packet(65, [1, 143, 3]))
    p = page(fntdef(0, "f") + fntdef(1, "v") + [171, 9, 172, 65, 171, 8], {"v": f})
    same(shown(p), [char("f", 9, 0, 0), char("b", 1, W("f", 9), 0), char("f", 8, W("f", 9) + W("v", 65), 0)])
def law_vf_empty():
    f = vf(packet(65, []) + packet(66, [1]))
    p = page(fntdef(0, "v") + [171, 65, 66], {"v": f})
    same(shown(p), [char("b", 1, W("v", 65), 0)])
def law_vf_nested():
    """virtual fonts within virtual fonts"""
    outer = vf(packet(65, [66, 143, 1, 67]), fonts=vfont(0, "i"))
    f = vf(packet(66, [1, 157, 2]) + packet(67, [2]))
    p = page(fntdef(0, "v") + [171, 65] + SUFFIX, {"v": outer, "i": f})
    same(shown(p), [char("b", 1, 0, 0), char("b", 2, W("i", 66) + FIX, 0)] + dots(W("v", 65), 0, 0, 0, 0, 0))
def law_vf_size():
    """sizes of the fonts in a virtual font are relative to its own size"""
    f = vf(packet(65, [1, 172, 1, 143, 4, 2]), fonts=vfont(0, "b", 1 << 20) + vfont(1, "c", 1 << 19))
    p = page(fntdef(0, "v", 2*655360) + [171, 65], {"v": f})
    same(shown(p), [char("b", 1, 0, 0, 2*655360), char("c", 1, W("b", 1), 0, 655360), char("c", 2, W("b", 1) + W("c", 1) + 8*FIX, 0, 655360)])
BADVF = [[247, 201, 0, 0, 0, 0, 0, 0, 16, 0, 0, 248], [248], [243], [247, 202, 0, 0, 0, 0, 0, 0, 160, 0, 0, 247], [247, 202, 0, 0, 0, 0, 0, 0, 160, 0, 0, 249]]
def law_vf_rejected(c=BADVF):
    same(outcome(lambda: vffile.vffile(newbinfile(bytesof(*c)), 1, 1, 1)), ("raise", "VFError"))
def law_vf_header():
    cs, ds = sym(4, "c"), sym(4, "d")
    f = vffile.vffile(newbinfile(bytesof(*([247, 202, 3, 1, 2, 3] + cs + ds + [248]))), 1, 1, 1)
    same((f.cs, f.ds), (be(cs), be(ds)))
def law_vf_widths():
    t = sym(3, "t")
    f = vffile.vffile(newbinfile(bytesof(*([247, 202, 0, 0, 0, 0, 0, 0, 160, 0, 0] + [2, 65] + t + [7, 8] + [242, 0, 0, 0, 1, 0, 0, 1, 2] + t + [9, 248]))), 1, 1, 1)
    same((f.widths[65], f.widths[258]), (be(t), be(t)))
    same((f.getchar(65), f.getchar(258)), (bytesof(7, 8), bytesof(9)))

# --- operands
READERS = [("readint32", 4, True), ("readuint32", 4, False), ("readint24", 3, True), ("readuint24", 3, False), ("readint16", 2, True), ("readuint16", 2, False), ("readchar", 1, True), ("readuchar", 1, False)]
def law_reader(k=READERS):
    name, n, signed = k
    b = sym(n)
    r = reader.bytesreader(bytesof(*([1] + b + [9, 8])))
    same(r.readuchar(), 1)
    same(getattr(r, name)(), be(b, signed))
    same(r.tell(), 1 + n)
    same(r.read(2), bytesof(9, 8))
WIDTHS = [1, 2, 3, 4]
def law_reader_int(n=WIDTHS):
    b = sym(n)
    r = reader.bytesreader(bytesof(*(b + b + b + [7])))
    same(r.readint(n, 1), be(b, True)); same(r.readint(n), be(b)); same(r.readint(n, 0), be(b))
    same(r.readuchar(), 7)
def law_reader_string():
    """strings of a fixed size carry their length"""
    b = sym(5)
    r = reader.bytesreader(bytesof(*([3] + b + [7])))
    same(r.readstring(6), bytesof(*b[:3]))
    same(r.readuchar(), 7)
    r = reader.bytesreader(bytesof(6, 1, 2, 3, 4, 5, 6))
    same(outcome(lambda: r.readstring(6)), ("raise", "AssertionError"))
def law_reader_end():
    for n, name in [(4, "readint32"), (4, "readuint32"), (3, "readint24"), (3, "readuint24"), (2, "readint16"), (2, "readuint16"), (1, "readchar"), (1, "readuchar")]:
        r = reader.bytesreader(bytesof(*((n-1)*[1])))
        same(outcome(lambda: getattr(r, name)()), ("raise", "struct.error"))

# --- metrics
def law_tfm():
    """each metric is found by the index of the character"""
    ww, hh, dd, ii = [sym(4, c) for c in "whdi"]
    info = [1, 0x21, 1 << 2, 0]
    head = packing.pack(">12H", 6+2+1+2+3+2+2, 2, 65, 65, 2, 3, 2, 2, 0, 0, 0, 0) + packing.pack(">2L", 123456, 10 << 20)
    f = tfmfile.TFMfile(newbinfile(head + bytesof(*(info + [0, 0, 0, 0] + ww + 8*[0] + hh + [0, 0, 0, 0] + dd + [0, 0, 0, 0] + ii))))
    c = f.char_info[65]
    same((f.checksum, f.designsize), (123456, 10 << 20))
    same(f.width[c.width_index], be(ww, True)); same(f.height[c.height_index], be(hh, True))
    same(f.depth[c.depth_index], be(dd, True)); same(f.italic[c.italic_index], be(ii, True))
INFOS = [(0x01234567, 1, 2, 3, 17, 1, 0x67), (-1, 255, 15, 15, 63, 3, 255), (-2147483648, 128, 0, 0, 0, 0, 0), (0x7F10FC00, 127, 1, 0, 63, 0, 0), (0x000F0300, 0, 0, 15, 0, 3, 0)]
def law_tfm_info(k=INFOS):
    c = tfmfile.char_info_word(k[0])
    same((c.width_index, c.height_index, c.depth_index, c.italic_index, c.tag, c.remainder), (k[1] % 256, k[2], k[3], k[4], k[5], k[6]))
def law_tfm_missing():
    """a character without a width does not exist, the others are found behind it"""
    head = packing.pack(">12H", 6+2+3+3+1+1+1, 2, 65, 67, 3, 1, 1, 1, 0, 0, 0, 0) + packing.pack(">2L", 0, 10 << 20)
    f = tfmfile.TFMfile(newbinfile(head + packing.pack(">3L", 1 << 24, 0, 2 << 24) + packing.pack(">6L", 0, 11, 22, 0, 0, 0)))
    same([f.char_info[c] is None for c in range(65, 68)], [False, True, False])
    same([f.width[f.char_info[c].width_index] for c in [65, 67]], [11, 22])
def law_tfm_tables():
    """all tables in their order"""
    n = [2, 3, 4, 5, 6, 7, 8, 9]
    head = packing.pack(">12H", 6+2+1+2+3+4+5+6+7+8+9, 2, 10, 10, 2, 3, 4, 5, 6, 7, 8, 9) + packing.pack(">2L", 0, 10 << 20)
    body = [1 << 24]
    for k in n: body = body + [100*k + i for i in range(k)]
    f = tfmfile.TFMfile(newbinfile(head + packing.pack(">45L", *body)))
    same([f.width, f.height, f.depth, f.italic, f.lig_kern, f.kern, f.exten, f.param], [[100*k + i for i in range(k)] for k in n])
def law_tfm_header():
    """a longer header names coding scheme, family and face"""
    head = packing.pack(">12H", 6+18+1+1+1+1, 18, 1, 0, 1, 1, 1, 1, 0, 0, 0, 0) + packing.pack(">2L", 0, 10 << 20)
    f = tfmfile.TFMfile(newbinfile(head + bytes([3]) + b"ABC" + bytes(36) + bytes([2]) + b"XY" + bytes(17) + bytes([1, 0, 0, 0]) + packing.pack(">4L", 5, 6, 7, 8)))
    same((f.charcoding, f.fontfamily, f.sevenbitsave, f.face), (b"ABC", b"XY", 1, "MRR"))
    same((f.width, f.height, f.depth, f.italic), ([5], [6], [7], [8]))
FACES = [(0, "MRR"), (1, "MIR"), (2, "BRR"), (3, "BIR"), (4, "LRR"), (5, "LIR"), (6, "MRC"), (7, "MIC"), (11, "LIC"), (12, "MRE"), (17, "LIE"), (18, None), (255, None)]
def law_tfm_face(k=FACES):
    head = packing.pack(">12H", 6+18+1+1+1+1, 18, 1, 0, 1, 1, 1, 1, 0, 0, 0, 0) + packing.pack(">2L", 0, 10 << 20)
    f = tfmfile.TFMfile(newbinfile(head + bytes(60) + bytes([0, 0, 0, k[0]]) + packing.pack(">4L", 5, 6, 7, 8)))
    same(f.face, k[1])
def law_tfm_rejected():
    def attempt(*h):
        return outcome(lambda: tfmfile.TFMfile(newbinfile(packing.pack(">12H", *h) + packing.pack(">2L", 0, 10 << 20) + bytes(400))))
    same(attempt(13, 2, 1, 0, 1, 1, 1, 1, 0, 0, 0, 0), ("raise", "RuntimeError"))
    same(attempt(11, 2, 1, 0, 1, 1, 1, 1, 0, 0, 0, 0), ("raise", "RuntimeError"))
    same(attempt(12+256, 2, 1, 256, 1, 1, 1, 1, 0, 0, 0, 0), ("raise", "RuntimeError"))

QS = [(10 << 20, 1), (5 << 20, 1), (123 << 18, 1), (50 << 20, 1), (127 << 20, 1)]
def law_width(k=QS):
    """widths are rounded as TeX does, with an integer product"""
    q, tfmconv = k
    def init(self):
        self.q = q; self.tfmconv = 1/16
    trust("pyx.dvi.texfont.TeXfont.__init__", init)
    f = texfont.TeXfont()
    for length in [0, 1, 1 << 20, 777777, -333333, -(1 << 20), (1 << 24) - 1, -(1 << 24)]:
        z = q >> 4
        shift = 20
        while z >= 8388608: z = z >> 1; shift = shift - 1
        same(f._convert_tfm_to_dvi(length), (length*z) >> shift)
METRICS = ["width", "height", "depth", "italic"]
def law_metric(k=METRICS):
    def init(self):
        self.q = pos("q"); self.tfmconv = pos("t"); self.pyxconv = pos("p")
        class info: width_index, height_index, depth_index, italic_index = 0, 1, 2, 3
        class tfm:
            char_info = {65: info}
            width = [10, 11, 12, 13]; height = [20, 21, 22, 23]; depth = [30, 31, 32, 33]; italic = [40, 41, 42, 43]
        self.TFMfile = tfm
    trust("pyx.dvi.texfont.TeXfont.__init__", init)
    trust("pyx.dvi.texfont.TeXfont._convert_tfm_to_dvi", lambda self, l: uf("dvi", l))
    trust("pyx.dvi.texfont.TeXfont._convert_tfm_to_pt", lambda self, l: uf("pt", l))
    f = texfont.TeXfont()
    v = {"width": 10, "height": 21, "depth": 32, "italic": 43}[k]
    same(getattr(f, "get%s_dvi" % k)(65), uf("dvi", v))
    same(getattr(f, "get%s_pt" % k)(65), uf("pt", v))
def law_text():
    """the box of a text"""
    class F:
        def getwidth_pt(self, c): return pos("w%d" % c)
        def getheight_pt(self, c): return pos("h%d" % c)
        def getdepth_pt(self, c): return pos("d%d" % c)
    x, y = num("x"), num("y")
    t = texfont.TeXtext_pt(F(), x, y, [1, 2], 10)
    b = t.bbox()
    same((b.llx_pt, b.lly_pt, b.urx_pt, b.ury_pt), (x, y - max(pos("d1"), pos("d2")), x + pos("w1") + pos("w2"), y + max(pos("h1"), pos("h2"))))
def law_checks():
    """the checksum, when there is one, and the design size have to be those of the metric file"""
    def attempt(c, d, tc):
        t = packing.pack(">12H", 12, 2, 1, 0, 1, 1, 1, 1, 0, 0, 0, 0) + packing.pack(">6L", tc, 10 << 20, 0, 0, 0, 0)
        trust("pyx.config.open", lambda *a: newbinfile(t))
        return outcome(lambda: texfont.TeXfont("f", c, 10 << 20, d, 1, 1))[0]
    same(attempt(0, 10 << 20, 0), "ok"); same(attempt(5, 10 << 20, 5), "ok"); same(attempt(0, 10 << 20, 5), "ok"); same(attempt(5, 10 << 20, 0), "ok")
    same(attempt(4, 10 << 20, 5), "raise"); same(attempt(5, 11 << 20, 5), "raise"); same(attempt(5, 9 << 20, 5), "raise")
