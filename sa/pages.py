"""Reading PostScript, PDF and SVG output (with symbolic numbers in it) as the list of marks it puts on the page.

A mark is a tuple starting with its kind:
  ("fill", path, rule, colour, alpha, clips)
  ("stroke", path, matrix, colour, alpha, linewidth, cap, join, miter, dash, clips)
  ("text", string, font, matrix, colour, clips), ("image", ...), ("shading", ...), ("object", ...)
  ("error", what) for output which violates the structure of the format.
Paths are in page coordinates."""
from fractions import Fraction
from . import terms as T
from .terms import N, G, S, X, Unsupported, num, ZERO, ONE, gamma, sconcat

class Bad(Exception): pass

# --- text ------------------------------------------------------------------------------------------

def atoms(v):
    """characters and symbolic parts"""
    out = []
    for p in (v.parts if isinstance(v, S) else (v,)):
        if isinstance(p, str): out.extend(p)
        elif isinstance(p, bytes): out.extend(p.decode("latin-1"))
        elif isinstance(p, S): out.extend(atoms(p))
        else: out.append(p)
    return out

def spread(v, run):
    """run on each alternative of a text with conditional parts"""
    if isinstance(v, G): return gamma(v.c, spread(v.a, run), spread(v.b, run))
    if isinstance(v, S):
        for i, p in enumerate(v.parts):
            if isinstance(p, G):
                e = b"" if v.byt else ""
                pre, post = v.parts[:i], v.parts[i+1:]
                return gamma(p.c, spread(sconcat(e, *pre, p.a, *post), run), spread(sconcat(e, *pre, p.b, *post), run))
    return run(v)

def partof(p):
    from . import builtins_
    return builtins_.numeric(p)

def numberof(frag):
    """number denoted by a token, or None"""
    if not frag: return None
    if all(isinstance(c, str) for c in frag):
        t = "".join(frag)
        try: return num(Fraction(t))
        except (ValueError, ZeroDivisionError): return None
    sign = 1
    f = list(frag)
    if isinstance(f[0], str) and f[0] in "+-":
        sign = -1 if f[0] == "-" else 1; f = f[1:]
    if len(f) == 1 and partof(f[0]):
        x = f[0][2]
        return T.neg(x) if sign < 0 else x
    return None

def constval(x):
    c = x.const()
    return None if c is None else int(c) if c == int(c) else c

def textof(frag):
    if all(isinstance(c, str) for c in frag): return "".join(frag)
    return S(tuple(merge(frag)), False)

def merge(frag):
    out = []
    for c in frag:
        if isinstance(c, str) and out and isinstance(out[-1], str): out[-1] += c
        else: out.append(c)
    return out

WS = " \t\r\n\f\0"
DELIM = "()<>[]{}/%"

class Name(str):
    pass

class Word:
    """executable name"""
    __slots__ = ("t",)
    def __init__(self, t): self.t = t
    def __repr__(self): return "Word(%r)" % (self.t,)

class Lit:
    """literal name"""
    __slots__ = ("t",)
    def __init__(self, t): self.t = t
    def __repr__(self): return "/%s" % (self.t,)
    def __eq__(self, o): return isinstance(o, Lit) and o.t == self.t
    def __hash__(self): return hash(self.t) if isinstance(self.t, str) else 0

class Str:
    __slots__ = ("t",)
    def __init__(self, t): self.t = t

def atoms_(r):
    out = []
    for c in r: out.extend(c if isinstance(c, str) else [c])
    return out

def concrete(a): return all(isinstance(c, str) for c in a)

def ascii85(a):
    """data of a text in ASCII85"""
    a = [c for c in a if c not in ("\n", " ")]
    if not concrete(a): return a
    import base64
    if any(len(c) != 1 or not ("!" <= c <= "u" or c == "z") for c in a): raise Bad("character in ASCII85 data")
    try: return list(base64.a85decode("".join(a)).decode("latin-1"))
    except ValueError: raise Bad("ASCII85 data")

def asciihex(a):
    a = [c for c in a if c not in ("\n", " ")]
    if not concrete(a): return a
    try: return list(bytes.fromhex("".join(a) + "0"*(len(a) % 2)).decode("latin-1"))
    except ValueError: raise Bad("hexadecimal data")

def inflated(a):
    if len(a) == 1 and compressed(a[0]): return atoms(compressed(a[0]))
    if a and concrete(a):
        import zlib
        try: return list(zlib.decompress("".join(a).encode("latin-1")).decode("latin-1"))
        except zlib.error: pass
    raise Bad("data with FlateDecode are not compressed")

def decoded(a, filters):
    for f in filters:
        a = {"ASCII85Decode": ascii85, "ASCIIHexDecode": asciihex, "FlateDecode": inflated}[f](a)
    return tuple(merge(a))

class Lexer:
    def __init__(self, a, pos=0):
        self.a = a; self.i = pos; self.comments = []
    def peek(self, k=0): return self.a[self.i+k] if self.i+k < len(self.a) else None
    def ws(self):
        while self.i < len(self.a):
            c = self.a[self.i]
            if isinstance(c, str) and c in WS: self.i += 1
            elif c == "%":
                j = self.i
                while self.i < len(self.a) and self.a[self.i] not in ("\n", "\r"): self.i += 1
                t = textof(self.a[j:self.i])
                self.comments.append(t)
                if isinstance(t, str) and t.startswith("%%BeginData:"): self.datalines(t)
            else: return
    def datalines(self, t):
        """number of lines of the data, as announced"""
        w = t[12:].split()
        if w[1:] != ["ASCII", "Lines"]: self.comments.append("%%BadData"); return
        k = self.i + 1; n = 0; line = []
        while k < len(self.a):
            if self.a[k] == "\n":
                n += 1
                line = []
            else: line.append(self.a[k])
            if line == list("%%EndData"):
                if n != int(w[0]): self.comments.append("%%%%BadData: %d lines instead of %s" % (n, w[0]))
                return
            k += 1
    def looking(self, t): return self.a[self.i:self.i+len(t)] == list(t)
    def token(self):
        """next token or None"""
        self.ws()
        if self.i >= len(self.a): return None
        c = self.a[self.i]
        if isinstance(c, str):
            if c in "[]{}":
                self.i += 1; return c
            if c == "(": return self.string()
            if c == "<":
                if self.peek(1) == "<": self.i += 2; return "<<"
                if self.peek(1) == "~":
                    j = self.i + 2
                    k = j
                    while k < len(self.a) and self.a[k:k+2] != ["~", ">"]: k += 1
                    if k >= len(self.a): raise Bad("ASCII85 string not closed")
                    self.i = k + 2
                    return Str(tuple(merge(ascii85(self.a[j:k]))))
                j = self.i + 1
                k = j
                while k < len(self.a) and self.a[k] != ">":
                    k += 1
                if k >= len(self.a): raise Bad("hex string not closed")
                self.i = k + 1
                return Str(tuple(merge(asciihex(self.a[j:k]))))
            if c == ">":
                if self.peek(1) == ">": self.i += 2; return ">>"
                raise Bad("unexpected >")
            if c == ")": raise Bad("unexpected )")
            if c == "/":
                self.i += 1
                return Lit(textof(self.run()))
        f = self.run()
        n = numberof(f)
        if n is not None: return n
        return Word(textof(f))
    def run(self):
        j = self.i
        while self.i < len(self.a):
            c = self.a[self.i]
            if isinstance(c, str) and (c in WS or c in DELIM): break
            self.i += 1
        return self.a[j:self.i]
    def string(self):
        depth = 0
        out = []
        while True:
            if self.i >= len(self.a): raise Bad("string not closed")
            c = self.a[self.i]; self.i += 1
            if c == "\\":
                d = self.peek()
                if isinstance(d, str) and d.isdigit():
                    k = ""
                    while len(k) < 3 and isinstance(self.peek(), str) and self.peek() in "01234567": k += self.peek(); self.i += 1
                    out.append(chr(int(k, 8) & 255) if k else "")
                elif isinstance(d, tuple):
                    # \ooo with a symbolic code
                    self.i += 1
                    out.append(("chr", d[2]) if d[0] == "fmt" and d[1] == "%03o" else ("esc", d))
                elif d is None: raise Bad("string not closed")
                else:
                    self.i += 1
                    out.append({"n": "\n", "r": "\r", "t": "\t", "b": "\b", "f": "\f", "\n": ""}.get(d, d))
                continue
            if c == "(":
                depth += 1
                if depth == 1: continue
            if c == ")":
                depth -= 1
                if not depth: return Str(tuple(merge(out)))
            out.append(c)

# --- geometry --------------------------------------------------------------------------------------

IDENT = (ONE, ZERO, ZERO, ONE, ZERO, ZERO)
FLIP = (ONE, ZERO, ZERO, num(-1), ZERO, ZERO)

def mul(m, n):
    """apply m first, then n"""
    a, b, c, d, e, f = m
    A, B, C, D, E, F = n
    s = lambda x, y, z=ZERO: T.add(T.add(x, y), z)
    return (s(T.mul(a, A), T.mul(b, C)), s(T.mul(a, B), T.mul(b, D)), s(T.mul(c, A), T.mul(d, C)), s(T.mul(c, B), T.mul(d, D)),
            s(T.mul(e, A), T.mul(f, C), E), s(T.mul(e, B), T.mul(f, D), F))

def app(m, x, y):
    return (T.add(T.add(T.mul(x, m[0]), T.mul(y, m[2])), m[4]), T.add(T.add(T.mul(x, m[1]), T.mul(y, m[3])), m[5]))

class GS:
    """graphics state"""
    def __init__(self, ctm=IDENT):
        black = ("rgb", ZERO, ZERO, ZERO)
        self.d = dict(ctm=ctm, stroke=black, fill=black, lw=ONE, cap=ZERO, join=ZERO, miter=num(10), dash=((), ZERO), clips=(),
                      salpha=ONE, falpha=ONE, font=None, cs=None, SCS=None)
    def copy(self):
        g = GS.__new__(GS); g.d = dict(self.d); return g
    def __getattr__(self, n): return self.d[n]

def gray(x): return ("rgb", x, x, x)

def codes(parts, enc=None):
    """items of a text: characters (codes) or the names an encoding gives them"""
    out = []
    for c in atoms(S(tuple(parts), False)):
        if isinstance(c, str): out.append(enc(ord(c)) if enc else c)
        elif isinstance(c, tuple) and c[0] == "chr": out.append(enc(c[1]) if enc else ("chr", c[1]))
        else: out.append(c)
    return tuple(out)

class Page:
    """common part: path construction and marks"""
    def __init__(self, ctm=IDENT):
        self.joined = None
        self.gs = GS(ctm); self.stack = []; self.path = []; self.cur = None; self.start = None
        self.marks = []
    def error(self, t): self.marks.append(("error", t))
    def moveto(self, x, y):
        self.cur = self.start = (x, y); self.joined = None
        p = app(self.gs.ctm, x, y)
        if self.path and self.path[-1][0] == "M": self.path.pop()
        self.path.append(("M",) + p)
    def lineto(self, x, y):
        if self.cur is None: raise Bad("no current point")
        self.reopen()
        self.cur = (x, y); self.path.append(("L",) + app(self.gs.ctm, x, y))
    def curveto(self, *c):
        if self.cur is None: raise Bad("no current point")
        self.reopen()
        self.cur = (c[4], c[5])
        m = self.gs.ctm
        self.path.append(("C",) + app(m, c[0], c[1]) + app(m, c[2], c[3]) + app(m, c[4], c[5]))
    def reopen(self):
        if self.path and self.path[-1][0] == "Z": self.path.append(("M",) + app(self.gs.ctm, *self.cur))
    def close(self):
        if self.cur is None: raise Bad("no current point")
        if self.path and self.path[-1][0] != "Z": self.path.append(("Z",))
        self.cur = self.start
    def rect(self, x, y, w, h):
        self.moveto(x, y); self.lineto(T.add(x, w), y); self.lineto(T.add(x, w), T.add(y, h)); self.lineto(x, T.add(y, h)); self.close()
    def pathv(self):
        p = list(self.path)
        if p and p[-1][0] == "M": p.pop()
        return tuple(p)
    def newpath(self): self.joined = None; self.path = []; self.cur = self.start = None
    def fill(self, rule):
        self.marks.append(("fill", self.pathv(), rule, self.gs.fill, self.gs.falpha, self.gs.clips))
    def stroke(self):
        g = self.gs
        self.marks.append(("stroke", self.pathv(), g.ctm[:4], g.stroke, g.salpha, g.lw, g.cap, g.join, g.miter, g.dash, g.clips))
    def clip(self, rule):
        self.gs.d["clips"] = self.gs.clips + ((self.pathv(), rule),)

# --- PostScript ------------------------------------------------------------------------------------

class Proc:
    def __init__(self, toks): self.toks = toks

MARK = object()

class PS(Page):
    def __init__(self, a):
        Page.__init__(self)
        self.lex = Lexer(a); self.op = []; self.saves = []
        self.dstack = [{}]; self.fonts = {}; self.joined = None
    def pop(self, kind=None):
        if not self.op: raise Bad("stack underflow")
        v = self.op.pop()
        if kind is N and not isinstance(v, N): raise Bad("number expected")
        return v
    def nums(self, k):
        r = [self.pop(N) for i in range(k)]
        return r[::-1]
    def matrix(self):
        m = self.pop()
        if not isinstance(m, tuple) or len(m) != 6: raise Bad("matrix expected")
        return m
    def run(self):
        while True:
            t = self.lex.token()
            if t is None: break
            self.exec(t)
        if self.stack: self.error("%d gsave without grestore" % len(self.stack))
        if self.saves: self.error("save without restore")
        if self.op: self.error("%d operands left" % len(self.op))
        return self
    def exec(self, t):
        if t == "{":
            self.op.append(self.proc()); return
        if isinstance(t, (N, Lit, Str, Proc)): self.op.append(t); return
        if t in ("[", "<<"): self.op.append((MARK, t)); return
        if t in ("]", ">>"):
            items = []
            while True:
                if not self.op: raise Bad("unmatched " + t)
                v = self.op.pop()
                if isinstance(v, tuple) and v and v[0] is MARK:
                    if (v[1], t) not in (("[", "]"), ("<<", ">>")): raise Bad("unmatched " + t)
                    break
                items.append(v)
            items.reverse()
            if t == "]": self.op.append(tuple(items))
            else:
                if len(items) % 2: raise Bad("odd number of dictionary entries")
                self.op.append({k.t: v for k, v in zip(items[::2], items[1::2])})
            return
        if t == "}": raise Bad("unmatched }")
        w = t.t
        for d in reversed(self.dstack):
            if w in d:
                v = d[w]
                if isinstance(v, Proc): self.call(v)
                else: self.op.append(v)
                return
        f = getattr(self, "o_" + w.replace(".", "_"), None) if isinstance(w, str) else None
        if f is None: raise Bad("unknown operator %s" % (w,))
        f()
    def proc(self):
        toks = []
        while True:
            t = self.lex.token()
            if t is None: raise Bad("unmatched {")
            if t == "}": return Proc(toks)
            if t == "{": t = self.proc()
            toks.append(t)
    def call(self, p):
        if not isinstance(p, Proc): raise Bad("procedure expected")
        for x in p.toks:
            if isinstance(x, Proc): self.op.append(x)
            else: self.exec(x)
    def o_gsave(self): self.stack.append((self.gs.copy(), list(self.path), self.cur, self.start))
    def o_grestore(self):
        if not self.stack: raise Bad("grestore without gsave")
        self.gs, self.path, self.cur, self.start = self.stack.pop()
    def o_save(self):
        # the dictionaries (local virtual memory) are restored as well
        self.saves.append((len(self.stack), [(d, dict(d)) for d in self.dstack + [self.fonts]]))
        self.o_gsave(); self.op.append(("save", len(self.saves)))
    def o_restore(self):
        v = self.pop()
        if not (isinstance(v, tuple) and v and v[0] == "save") or not self.saves: raise Bad("restore without save")
        d, dicts = self.saves.pop()
        for old, content in dicts: old.clear(); old.update(content)
        if len(self.stack) != d+1: self.error("gsave open at restore")
        del self.stack[d+1:]
        self.o_grestore()
    def o_newpath(self): self.newpath()
    def o_moveto(self): self.moveto(*self.nums(2))
    def o_lineto(self): self.lineto(*self.nums(2))
    def o_curveto(self): self.curveto(*self.nums(6))
    def rel(self, k):
        if self.cur is None: raise Bad("no current point")
        v = self.nums(k)
        return [T.add(x, self.cur[i % 2]) for i, x in enumerate(v)]
    def o_rmoveto(self):
        v = self.rel(2); c = self.cur; j = self.joined
        self.moveto(*v)
        if j is not None: self.joined = (None, (T.add(j[1][0], T.sub(v[0], c[0])), T.add(j[1][1], T.sub(v[1], c[1]))), j[2])
    def o_rlineto(self): self.lineto(*self.rel(2))
    def o_rcurveto(self): self.curveto(*self.rel(6))
    def o_closepath(self): self.close()
    def o_stroke(self): self.stroke(); self.newpath()
    def o_fill(self): self.fill(ZERO); self.newpath()
    def o_eofill(self): self.fill(ONE); self.newpath()
    def o_clip(self): self.clip(ZERO)
    def o_eoclip(self): self.clip(ONE)
    def o_rectclip(self):
        r = self.nums(4)
        self.newpath(); self.rect(*r); self.clip(ZERO); self.newpath()
    def o_rectfill(self):
        r = self.nums(4); s = (self.path, self.cur, self.start)
        self.newpath(); self.rect(*r); self.fill(ZERO); self.path, self.cur, self.start = s
    def o_setlinewidth(self): self.gs.d["lw"] = self.pop(N)
    def o_setlinecap(self): self.gs.d["cap"] = self.pop(N)
    def o_setlinejoin(self): self.gs.d["join"] = self.pop(N)
    def o_setmiterlimit(self): self.gs.d["miter"] = self.pop(N)
    def o_setdash(self):
        o = self.pop(N); self.gs.d["dash"] = (self.pop(), o)
    def color(self, c): self.gs.d["stroke"] = self.gs.d["fill"] = c
    def o_setgray(self): self.color(gray(self.pop(N)))
    def o_setrgbcolor(self): self.color(("rgb",) + tuple(self.nums(3)))
    def o_setcmykcolor(self): self.color(("cmyk",) + tuple(self.nums(4)))
    def o_sethsbcolor(self): self.color(("hsb",) + tuple(self.nums(3)))
    def o__setshapealpha(self): self.gs.d["salpha"] = self.gs.d["falpha"] = self.pop(N)
    def o_concat(self): self.gs.d["ctm"] = mul(self.matrix(), self.gs.ctm)
    def o_matrix(self): self.op.append(IDENT)
    def o_translate(self):
        x, y = self.nums(2); self.gs.d["ctm"] = mul((ONE, ZERO, ZERO, ONE, x, y), self.gs.ctm)
    def o_scale(self):
        x, y = self.nums(2); self.gs.d["ctm"] = mul((x, ZERO, ZERO, y, ZERO, ZERO), self.gs.ctm)
    def o_showpage(self):
        self.marks.append(("page",))
    def findfont(self, n):
        if n not in self.fonts:
            self.fonts[n] = {"FID": ZERO, "FontName": Lit(n), "Base": n, "Encoding": None, "FontMatrix": (num(Fraction(1, 1000)), ZERO, ZERO, num(Fraction(1, 1000)), ZERO, ZERO)}
        return self.fonts[n]
    def o_findfont(self): self.op.append(self.findfont(self.name()))
    def o_definefont(self):
        d = self.pop(); n = self.name()
        if not isinstance(d, dict) or "FontMatrix" not in d: raise Bad("font dictionary expected")
        if d.get("FontName") != Lit(n): self.error("name of font %s" % n)
        self.fonts[n] = d; self.op.append(d)
    def o_scalefont(self):
        s = self.pop(N); d = self.pop()
        self.op.append(dict(d, FontMatrix=mul(d["FontMatrix"], (s, ZERO, ZERO, s, ZERO, ZERO))))
    def o_setfont(self):
        d = self.pop(); self.gs.d["font"] = (d, ONE)
    def o_selectfont(self):
        s = self.pop(N); self.gs.d["font"] = (self.findfont(self.name()), s)
    def name(self):
        n = self.pop()
        if not isinstance(n, Lit): raise Bad("name expected")
        return n.t
    def o_show(self):
        s = self.pop()
        if not isinstance(s, Str): raise Bad("string expected")
        if self.cur is None: raise Bad("no current point")
        if self.gs.font is None: raise Bad("text without font")
        g = self.gs; d, size = g.font
        enc = d["Encoding"]
        if isinstance(enc, tuple):
            def enc(c, e=d["Encoding"]):
                if not isinstance(c, int) or c >= len(e): raise Bad("character code %s not in the encoding" % (c,))
                return e[c].t
        items = codes(s.t, enc)
        k = num(1000)
        m = mul(tuple(T.mul(k, x) for x in d["FontMatrix"]), (size, ZERO, ZERO, size, ZERO, ZERO))
        at = self.cur
        rest = (d["Base"], g.ctm[:4], g.fill, g.falpha, g.clips)
        j = self.joined
        if j is not None and j[1] is not None and j[2] == rest and self.marks and self.marks[-1][0] == "text":
            # continued after a relative movement
            self.marks[-1] = ("text", self.marks[-1][1] + ((T.add(j[1][0], ZERO), j[1][1]),) * (j[1] != (ZERO, ZERO)) + items) + self.marks[-1][2:]
        else:
            self.marks.append(("text", items, d["Base"], mul(mul(m, (ONE, ZERO, ZERO, ONE) + tuple(at)), g.ctm), g.fill, g.falpha, g.clips))
        # after show the current point is behind the text
        adv = T.natom("app", "advance", S(("adv", str(len(self.marks))), False))
        self.moveto(T.add(at[0], adv), at[1])
        self.joined = (None, (ZERO, ZERO), rest)
    def o_def(self):
        v = self.pop(); k = self.pop()
        if not isinstance(k, Lit): raise Bad("name expected by def")
        self.dstack[-1][k.t] = v
    def o_store(self): self.o_def()
    def o_dict(self): self.pop(N); self.op.append({})
    def o_begin(self):
        d = self.pop()
        if not isinstance(d, dict): raise Bad("dictionary expected")
        self.dstack.append(d)
    def o_end(self):
        if len(self.dstack) == 1: raise Bad("end without begin")
        self.dstack.pop()
    def o_maxlength(self): self.op.append(num(len(self.pop())))
    def o_length(self): self.op.append(num(len(self.pop())))
    def o_readonly(self): pass
    def o_userdict(self): self.op.append(self.dstack[0])
    def o_countdictstack(self): self.op.append(num(len(self.dstack)))
    def o_count(self): self.op.append(num(len(self.op)))
    def o_languagelevel(self): self.op.append(num(2))
    def o_where(self):
        k = self.name()
        for d in reversed(self.dstack):
            if k in d: self.op += [d, True]; return
        if hasattr(self, "o_" + k): self.op += [{}, True]
        else: self.op.append(False)
    def o_repeat(self):
        p = self.pop()
        for i in range(self.int()): self.call(p)
    def o_setstrokeadjust(self): self.bool()
    def o_setoverprint(self): self.bool()
    def o_put(self):
        v = self.pop(); k = self.pop(); d = self.pop()
        if not isinstance(d, dict): raise Bad("dictionary expected by put")
        d[k.t if isinstance(k, Lit) else k] = v
    def o_get(self):
        k = self.pop(); d = self.pop()
        if isinstance(d, tuple) and isinstance(k, N) and constval(k) is not None:
            if not 0 <= constval(k) < len(d): raise Bad("rangecheck in get")
            self.op.append(d[int(constval(k))]); return
        if not isinstance(d, dict) or not isinstance(k, Lit) or k.t not in d: raise Bad("get")
        self.op.append(d[k.t])
    def o_forall(self):
        p = self.pop(); d = self.pop()
        for k, v in list(d.items()):
            self.op += [Lit(k), v]; self.call(p)
    def bool(self):
        b = self.pop()
        if not isinstance(b, bool): raise Bad("boolean expected")
        return b
    def o_eq(self):
        a, b = self.pop(), self.pop(); self.op.append(a == b)
    def o_ne(self):
        a, b = self.pop(), self.pop(); self.op.append(a != b)
    def o_and(self): a, b = self.bool(), self.bool(); self.op.append(a and b)
    def o_or(self): a, b = self.bool(), self.bool(); self.op.append(a or b)
    def o_not(self): self.op.append(not self.bool())
    def o_true(self): self.op.append(True)
    def o_false(self): self.op.append(False)
    def o_if(self):
        p = self.pop()
        if self.bool(): self.call(p)
    def o_ifelse(self):
        q = self.pop(); p = self.pop(); self.call(p if self.bool() else q)
    def o_roll(self):
        k = self.int(); n = self.int()
        if n > len(self.op): raise Bad("stack underflow")
        if n:
            a = self.op[-n:]; k %= n
            self.op[-n:] = a[-k:] + a[:-k] if k else a
    def o_index(self):
        n = self.int()
        if n >= len(self.op): raise Bad("stack underflow")
        self.op.append(self.op[-1-n])
    def int(self):
        from . import builtins_
        v = constval(self.pop(N))
        if v is None or v != int(v): raise Bad("integer expected")
        return int(v)
    def o_add(self):
        b, a = self.pop(N), self.pop(N); self.op.append(T.add(a, b))
    def o_sub(self):
        b, a = self.pop(N), self.pop(N); self.op.append(T.sub(a, b))
    def o_mul(self):
        b, a = self.pop(N), self.pop(N); self.op.append(T.mul(a, b))
    def o_exch(self):
        a = self.pop(); b = self.pop(); self.op += [a, b]
    def o_dup(self):
        a = self.pop(); self.op += [a, a]
    def o_pop(self): self.pop()
    def o_bind(self): pass
    def o_load(self):
        k = self.name()
        for d in reversed(self.dstack):
            if k in d: self.op.append(d[k]); return
        self.op.append(("load", k))
    def o_currentfile(self): self.op.append(("currentfile",))
    def o_filter(self):
        k = self.pop(); s = self.pop()
        self.op.append(("filter", s, k.t))
    def o_setcolorspace(self): self.gs.d["cs"] = self.frozen(self.pop())
    def o_makepattern(self):
        m = self.matrix(); d = self.pop()
        self.op.append(("pattern", d, m))
    def o_setpattern(self):
        p = self.pop(); self.color(("pattern",) + (self.frozen(p),))
    def frozen(self, v):
        if isinstance(v, dict): return ("dict",) + tuple((k, self.frozen(x)) for k, x in sorted(v.items()))
        if isinstance(v, tuple): return tuple(self.frozen(x) for x in v)
        if isinstance(v, Lit): return v.t
        if isinstance(v, Str): return v.t
        if isinstance(v, Proc): return ("proc",) + tuple(self.frozen(x) for x in v.toks)
        if isinstance(v, Word): return v.t
        return v
    def data(self, d):
        """data following the operator in the file"""
        s = d.get("DataSource") if isinstance(d, dict) else None
        fl = []
        while isinstance(s, tuple) and s and s[0] == "filter": fl.append(s[2]); s = s[1]
        if s != ("currentfile",): return None
        L = self.lex
        if isinstance(L.peek(), str) and L.peek() in WS: L.i += 1
        end = "~>" if fl and fl[-1] == "ASCII85Decode" else ">"
        j = L.i
        while L.i < len(L.a) and not L.looking(end): L.i += 1
        if L.i >= len(L.a): raise Bad("end of data missing")
        r = tuple(merge(L.a[j:L.i]))
        L.i += len(end)
        return decoded(list(atoms_(r)), fl[::-1])
    def strings(self, d):
        """data in strings of the file"""
        s = d.get("DataSource") if isinstance(d, dict) else None
        fl = []
        while isinstance(s, tuple) and s and s[0] == "filter": fl.append(s[2]); s = s[1]
        if isinstance(s, Proc):
            # called until there are no more data
            parts = []
            n = len(self.op)
            while len(parts) < 10000:
                try:
                    self.call(s)
                    x = self.pop(Str)
                except Bad: break
                parts.append(x)
            del self.op[n:]
            s = tuple(parts)
        if isinstance(s, Str): s = (s,)
        if isinstance(s, tuple) and s and all(isinstance(x, Str) for x in s): return decoded([c for x in s for c in atoms_(x.t)], fl[::-1])
        return None
    def o_shfill(self):
        d = self.pop()
        self.marks.append(("shading", self.frozen(d), self.data(d), self.gs.ctm, self.gs.clips))
    def o_image(self):
        d = self.pop()
        dd = d.get("DataDict", d) if isinstance(d, dict) else d
        self.marks.append(("image", self.frozen(d), self.data(dd) or self.strings(dd), self.gs.cs, self.gs.ctm, self.gs.salpha, self.gs.clips))

DSC = {"Resource", "Prolog", "Setup", "PageSetup", "Defaults", "Data", "Document", "Font", "Procset", "Feature"}

def dsc(comments):
    """errors in the nesting of the document structuring comments"""
    err = []; open_ = []
    for c in comments:
        t = c if isinstance(c, str) else c.parts[0] if isinstance(c.parts[0], str) else ""
        if t.startswith("%%Begin"):
            open_.append(t[7:].split(":")[0].strip())
        elif t.startswith("%%End") and t[5:].split(":")[0].strip() not in ("Comments",):
            k = t[5:].split(":")[0].strip()
            if not open_ or open_[-1] != k: err.append(("error", "%%End" + k + " without %%Begin"))
            else: open_.pop()
        elif t.startswith("%%BadData"): err.append(("error", t))
    for k in open_: err.append(("error", "%%Begin" + k + " without %%End"))
    return err

def pscomments(v, key):
    """numbers in the comments with this key"""
    def run(v):
        p = PS(atoms(v))
        try: p.run()
        except Bad: pass
        out = []
        for c in p.lex.comments:
            parts = (c,) if isinstance(c, str) else c.parts
            if not isinstance(parts[0], str) or not parts[0].startswith(key): continue
            l = Lexer(atoms_((parts[0][len(key):],) + tuple(parts[1:])))
            r = []
            while True:
                try: t = l.token()
                except Bad: t = None
                if t is None: break
                r.append(t if isinstance(t, N) else S(("?",), False))
            out.append(tuple(r))
        return tuple(out)
    return spread(v, run)

def pspage(v):
    def run(v):
        p = PS(atoms(v))
        try: p.run()
        except Bad as e: p.error(str(e))
        p.marks.extend(dsc(p.lex.comments))
        return tuple(p.marks)
    return spread(v, run)

# --- PDF -------------------------------------------------------------------------------------------

class Ref_:
    __slots__ = ("n",)
    def __init__(self, n): self.n = n
    def __repr__(self): return "%d R" % self.n

class Stream:
    def __init__(self, d, data): self.d = d; self.data = data

def lengths(a):
    """length of the text before each atom"""
    from . import builtins_
    out = [ZERO]; k = 0; base = ZERO
    for c in a:
        if isinstance(c, str): k += 1
        elif isinstance(c, tuple) and c and c[0] == "chr": k += 1
        else: base = T.add(base, builtins_.partlen(None, c, None))
        out.append(T.add(base, num(k)))
    return out

def compressed(c):
    """content of data compressed by zlib, or None"""
    if isinstance(c, X) and c.op == "call" and c.args[0] == "ext:zlib.compress":
        a = c.args[1]
        return a[0] if isinstance(a, tuple) else a
    return None

class PDFfile:
    def __init__(self, v):
        self.a = atoms(v); self.lex = Lexer(self.a); self.objects = {}; self.offsets = {}; self.errors = []; self.trailer = None
        try: self.parse()
        except Bad as e: self.errors.append(str(e))
    def integer(self, t, what):
        c = t.const() if isinstance(t, N) else None
        if c is None or c.denominator != 1: raise Bad(what + " expected")
        return int(c)
    def value(self, t=None):
        L = self.lex
        if t is None: t = L.token()
        if t == "<<":
            d = {}
            while True:
                k = L.token()
                if k is None: raise Bad("dictionary not closed")
                if k == ">>": return d
                if not isinstance(k, Lit): raise Bad("name expected as key")
                if k.t in d: raise Bad("key %s twice in a dictionary" % (k.t,))
                d[k.t] = self.value()
        if t == "[":
            r = []
            while True:
                t = L.token()
                if t is None: raise Bad("array not closed")
                if t == "]": return tuple(r)
                r.append(self.value(t))
        if isinstance(t, N):
            c = t.const()
            if c is not None and c.denominator == 1 and c >= 0:
                i = L.i
                g = L.token()
                if isinstance(g, N) and g.const() == 0:
                    r = L.token()
                    if isinstance(r, Word) and r.t == "R": return Ref_(int(c))
                L.i = i
            return t
        if isinstance(t, (Lit, Str)): return t
        if isinstance(t, Word) and t.t in ("true", "false", "null"): return t.t
        if t is None: raise Bad("unexpected end")
        raise Bad("unexpected %s" % (t.t if isinstance(t, Word) else t,))
    def parse(self):
        L = self.lex
        if not L.looking("%PDF-1."): raise Bad("header missing")
        pos = lengths(self.a)
        self.pos = pos
        self.xref = None
        while True:
            L.ws()
            if L.i >= len(self.a): raise Bad("trailer missing")
            at = pos[L.i]
            t = L.token()
            if isinstance(t, Word) and t.t == "xref": break
            n = self.integer(t, "object number")
            if self.integer(L.token(), "generation") != 0: raise Bad("generation")
            w = L.token()
            if not (isinstance(w, Word) and w.t == "obj"): raise Bad("obj expected")
            if n in self.objects: self.errors.append("object %d twice" % n)
            v = self.value()
            w = L.token()
            if isinstance(w, Word) and w.t == "stream":
                if L.looking("\r\n"): L.i += 2
                elif L.peek() == "\n": L.i += 1
                else: raise Bad("end of line after stream")
                v = Stream(v, self.stream(v, pos))
                w = L.token()
                if not (isinstance(w, Word) and w.t == "endstream"): raise Bad("endstream expected")
                w = L.token()
            if not (isinstance(w, Word) and w.t == "endobj"): raise Bad("endobj expected")
            self.objects[n] = v; self.offsets[n] = at
        xpos = at
        first = self.integer(L.token(), "first object"); count = self.integer(L.token(), "number of objects")
        if first != 0: self.errors.append("cross-reference table does not start at 0")
        ents = []
        for k in range(count):
            o = L.token(); g = L.token(); f = L.token()
            if not isinstance(o, N) or not isinstance(f, Word): raise Bad("cross-reference entry")
            ents.append((o, g, f.t))
        if not ents or ents[0][2] != "f": self.errors.append("free entry missing")
        for n, (o, g, f) in enumerate(ents):
            if n == 0: continue
            if n not in self.objects: self.errors.append("entry %d without object" % n)
            elif T.sub(o, self.offsets[n]).const() != 0: self.errors.append("offset of object %d" % n)
        for n in self.objects:
            if n >= count: self.errors.append("object %d missing in the cross-reference table" % n)
        w = L.token()
        if not (isinstance(w, Word) and w.t == "trailer"): raise Bad("trailer expected")
        self.trailer = self.value()
        if not isinstance(self.trailer, dict): raise Bad("trailer dictionary")
        if not (isinstance(self.trailer.get("Size"), N) and self.trailer["Size"].const() == count): self.errors.append("Size of the trailer")
        for k in ("Root",):
            if not isinstance(self.trailer.get(k), Ref_): self.errors.append(k + " of the trailer")
        w = L.token()
        if not (isinstance(w, Word) and w.t == "startxref"): raise Bad("startxref expected")
        o = L.token()
        if not isinstance(o, N) or T.sub(o, xpos).const() != 0: self.errors.append("position of the cross-reference table")
        L.comments.clear(); L.ws()
        if not L.comments or L.comments[-1] != "%%EOF": self.errors.append("%%EOF missing")
        self.refs()
    def stream(self, d, pos):
        L = self.lex
        n = d.get("Length") if isinstance(d, dict) else None
        if isinstance(n, Ref_): raise Unsupported("indirect stream length")
        if not isinstance(n, N): raise Bad("stream without length")
        start = pos[L.i]
        i = L.i
        while i <= len(self.a):
            if T.sub(T.sub(pos[i], start), n).const() == 0: break
            i += 1
        if i > len(self.a): raise Bad("stream length differs from the data")
        data = self.a[L.i:i]
        L.i = i
        if not (L.looking("\nendstream") or L.looking("\r\nendstream") or L.looking("endstream")): raise Bad("stream length differs from the data")
        f = d.get("Filter")
        if isinstance(f, tuple) and len(f) == 1: f = f[0]
        if f is not None and f.t == "FlateDecode": return inflated(data)
        if f is None and any(compressed(c) for c in data): raise Bad("compressed data without filter")
        return data
    def refs(self):
        used = set()
        def walk(v):
            if isinstance(v, Ref_):
                if v.n not in self.objects: self.errors.append("reference to missing object %d" % v.n)
                used.add(v.n)
            elif isinstance(v, dict):
                for x in v.values(): walk(x)
            elif isinstance(v, tuple):
                for x in v: walk(x)
            elif isinstance(v, Stream): walk(v.d)
        for v in self.objects.values(): walk(v)
        walk(self.trailer)
        for n in self.objects:
            if n not in used: self.errors.append("object %d not referenced" % n)
    def get(self, v): return self.objects.get(v.n) if isinstance(v, Ref_) else v
    def pages(self):
        root = self.get(self.trailer.get("Root"))
        if not isinstance(root, dict) or root.get("Type") != Lit("Catalog"): raise Bad("catalog")
        p = self.get(root.get("Pages"))
        if not isinstance(p, dict) or p.get("Type") != Lit("Pages"): raise Bad("page tree")
        kids = p.get("Kids", ())
        if not (isinstance(p.get("Count"), N) and p["Count"].const() == len(kids)): raise Bad("page count")
        out = []
        for k in kids:
            pg = self.get(k)
            if not isinstance(pg, dict) or pg.get("Type") != Lit("Page"): raise Bad("page")
            if not isinstance(pg.get("Parent"), Ref_) or self.get(pg["Parent"]) is not p: raise Bad("parent of a page")
            out.append(pg)
        return out
    def resolved(self, v, depth=6):
        """value with references replaced by the objects"""
        if depth < 0: return "..."
        if isinstance(v, Ref_): return self.resolved(self.objects.get(v.n), depth-1)
        if isinstance(v, dict): return ("dict",) + tuple((k, self.resolved(x, depth-1)) for k, x in sorted(v.items()) if k not in ("Parent", "Length", "Filter", "P"))
        if isinstance(v, tuple): return tuple(self.resolved(x, depth-1) for x in v)
        if isinstance(v, Lit): return v.t
        if isinstance(v, Str): return ("str",) + v.t
        if isinstance(v, Stream): return ("stream", self.resolved(v.d, depth-1), tuple(merge(v.data)))
        return v

class Content(Page):
    def __init__(self, pdf, a, res, ctm=IDENT):
        Page.__init__(self, ctm)
        self.pdf = pdf; self.lex = Lexer(a); self.res = res; self.op = []; self.mode = "page"; self.pend = None; self.mc = 0
        self.tm = self.tlm = None
    def resource(self, kind, name):
        d = self.pdf.get(self.res.get(kind)) if isinstance(self.res, dict) else None
        if not isinstance(d, dict) or name.t not in d: raise Bad("resource %s %s missing" % (kind, name.t))
        r = self.pdf.get(d[name.t])
        if r is None: raise Bad("resource %s %s missing" % (kind, name.t))
        return r
    def run(self):
        while True:
            t = self.lex.token()
            if t is None: break
            if isinstance(t, Word) and t.t not in ("true", "false", "null"):
                self.exec(t.t)
            else:
                self.op.append(self.value(t))
        if self.stack: self.error("%d q without Q" % len(self.stack))
        if self.mode == "text": self.error("BT without ET")
        if self.mode == "path": self.error("path without painting operator")
        if self.mc: self.error("BMC without EMC")
        if self.op: self.error("operands left")
        return self
    def value(self, t):
        if t == "[":
            r = []
            while True:
                t = self.lex.token()
                if t is None: raise Bad("array not closed")
                if t == "]": return tuple(r)
                r.append(self.value(t))
        if t == "<<":
            d = {}
            while True:
                k = self.lex.token()
                if k is None: raise Bad("dictionary not closed")
                if k == ">>": return d
                d[k.t] = self.value(self.lex.token())
        if isinstance(t, (N, Lit, Str)): return t
        if isinstance(t, Word): return t.t
        raise Bad("unexpected %s" % (t,))
    def nums(self, k):
        if len(self.op) != k or not all(isinstance(x, N) for x in self.op): raise Bad("wrong operands")
        r = self.op; self.op = []
        return r
    def args(self, k):
        if len(self.op) != k: raise Bad("wrong number of operands")
        r = self.op; self.op = []
        return r
    PATHOPS = {"m", "l", "c", "v", "y", "h", "re"}
    PAINT = {"S", "s", "f", "F", "f*", "B", "B*", "b", "b*", "n"}
    CLIP = {"W", "W*"}
    STATE = {"w", "J", "j", "M", "d", "ri", "i", "gs", "g", "G", "rg", "RG", "k", "K", "cs", "CS", "sc", "scn", "SC", "SCN"}
    TEXTOPS = {"Tm", "Td", "TD", "T*", "Tj", "TJ", "Tf", "Tc", "Tw", "Tz", "TL", "Tr", "Ts", "'", '"'}
    def exec(self, w):
        if self.mode == "path" and w not in self.PATHOPS | self.PAINT | self.CLIP:
            self.error("%s within a path" % w); self.mode = "page"
        if self.mode == "page" and w in self.PAINT | self.CLIP and w != "n": self.error("%s without path" % w)
        if self.mode == "text" and not (w in self.STATE | self.TEXTOPS or w in ("ET", "BMC", "BDC", "EMC", "MP", "DP")):
            self.error("%s within a text object" % w)
        if self.mode != "text" and w in ("Tm", "Td", "TD", "T*", "Tj", "TJ", "'", '"', "ET"): self.error("%s outside a text object" % w)
        f = getattr(self, "o_" + {"f*": "fe", "B*": "Be", "b*": "be", "W*": "We", "T*": "Tstar", "F": "f"}.get(w, w), None)
        if f is None: raise Bad("unknown operator %s" % (w,))
        f()
        if self.op: self.error("operands left at " + w); self.op = []
        if w in self.PATHOPS: self.mode = "path"
        elif w in self.PAINT: self.mode = "page"
    def o_q(self): self.args(0); self.stack.append(self.gs.copy())
    def o_Q(self):
        self.args(0)
        if not self.stack: raise Bad("Q without q")
        self.gs = self.stack.pop()
    def o_cm(self): self.gs.d["ctm"] = mul(tuple(self.nums(6)), self.gs.ctm)
    def o_w(self): self.gs.d["lw"], = self.nums(1)
    def o_J(self): self.gs.d["cap"], = self.nums(1)
    def o_j(self): self.gs.d["join"], = self.nums(1)
    def o_M(self): self.gs.d["miter"], = self.nums(1)
    def o_i(self): self.nums(1)
    def o_ri(self): self.args(1)
    def o_d(self): self.gs.d["dash"] = tuple(self.args(2))
    def o_gs(self):
        n, = self.args(1)
        d = self.resource("ExtGState", n)
        for k, v in d.items():
            if k == "CA": self.gs.d["salpha"] = v
            elif k == "ca": self.gs.d["falpha"] = v
            elif k == "LW": self.gs.d["lw"] = v
            elif k == "Type": pass
            else: raise Unsupported("graphics state parameter " + k)
    def o_g(self): self.gs.d["fill"] = gray(*self.nums(1))
    def o_G(self): self.gs.d["stroke"] = gray(*self.nums(1))
    def o_rg(self): self.gs.d["fill"] = ("rgb",) + tuple(self.nums(3))
    def o_RG(self): self.gs.d["stroke"] = ("rgb",) + tuple(self.nums(3))
    def o_k(self): self.gs.d["fill"] = ("cmyk",) + tuple(self.nums(4))
    def o_K(self): self.gs.d["stroke"] = ("cmyk",) + tuple(self.nums(4))
    def o_cs(self): self.gs.d["cs"] = self.args(1)[0].t; self.gs.d["fill"] = ("initial", self.gs.cs)
    def o_CS(self): self.gs.d["SCS"] = self.args(1)[0].t; self.gs.d["stroke"] = ("initial", self.gs.SCS)
    def scn(self, cs):
        a = self.args(len(self.op))
        if cs == "Pattern":
            if not a or not isinstance(a[-1], Lit): raise Bad("pattern name expected")
            return ("pattern", self.pdf.resolved(self.resource("Pattern", a[-1])))
        if not all(isinstance(x, N) for x in a): raise Bad("colour %s in colour space %s" % ([getattr(x, "t", x) for x in a], cs))
        return ("colour", cs) + tuple(a)
    def o_sc(self): self.gs.d["fill"] = self.scn(self.gs.cs)
    def o_scn(self): self.gs.d["fill"] = self.scn(self.gs.cs)
    def o_SC(self): self.gs.d["stroke"] = self.scn(self.gs.SCS)
    def o_SCN(self): self.gs.d["stroke"] = self.scn(self.gs.SCS)
    def o_m(self): self.moveto(*self.nums(2))
    def o_l(self): self.lineto(*self.nums(2))
    def o_c(self): self.curveto(*self.nums(6))
    def o_v(self): a = self.nums(4); self.curveto(*self.cur, *a)
    def o_y(self): a = self.nums(4); self.curveto(*a, a[2], a[3])
    def o_h(self): self.args(0); self.close()
    def o_re(self): self.rect(*self.nums(4))
    def paint(self, fill=None, stroke=False, close=False):
        self.args(0)
        if close: self.close()
        if fill is not None: self.fill(fill)
        if stroke: self.stroke()
        if self.pend is not None: self.clip(self.pend); self.pend = None
        self.newpath()
    def o_S(self): self.paint(stroke=True)
    def o_s(self): self.paint(stroke=True, close=True)
    def o_f(self): self.paint(ZERO)
    def o_fe(self): self.paint(ONE)
    def o_B(self): self.paint(ZERO, True)
    def o_Be(self): self.paint(ONE, True)
    def o_b(self): self.paint(ZERO, True, True)
    def o_be(self): self.paint(ONE, True, True)
    def o_n(self): self.paint()
    def o_W(self): self.args(0); self.pend = ZERO
    def o_We(self): self.args(0); self.pend = ONE
    def o_BT(self): self.args(0); self.mode = "text"; self.tm = self.tlm = IDENT
    def o_ET(self): self.args(0); self.mode = "page"
    def o_BMC(self): self.args(1); self.mc += 1
    def o_BDC(self): self.args(2); self.mc += 1
    def o_MP(self): self.args(1)
    def o_DP(self): self.args(2)
    def o_EMC(self):
        self.args(0)
        if not self.mc: raise Bad("EMC without BMC")
        self.mc -= 1
    def o_Tf(self):
        f, s = self.args(2)
        self.gs.d["font"] = (self.resource("Font", f), s)
    def o_Tm(self): self.tm = self.tlm = tuple(self.nums(6))
    def o_Td(self):
        x, y = self.nums(2)
        self.tm = self.tlm = mul((ONE, ZERO, ZERO, ONE, x, y), self.tlm)
    def textmark(self, items):
        if self.gs.font is None: raise Bad("text without font")
        g = self.gs; f, size = g.font
        f = self.pdf.get(f)
        if not isinstance(f, dict) or f.get("Type") != Lit("Font"): raise Bad("font expected")
        base = f.get("BaseFont"); e = self.pdf.get(f.get("Encoding")); enc = None
        if isinstance(e, dict) and "Differences" in e:
            d = {}; k = 0
            for x in self.pdf.get(e["Differences"]):
                if isinstance(x, N):
                    k = constval(x)
                else: d[k] = x.t; k += 1
            def enc(c):
                if c not in d: raise Bad("character code %s not in the encoding" % (c,))
                return d[c]
        def check(c):
            k = c if isinstance(c, int) else ord(c)
            lo, hi, w = constval(f["FirstChar"]), constval(f["LastChar"]), self.pdf.get(f["Widths"])
            if len(w) != hi-lo+1: raise Bad("widths of font %s" % (base,))
            if not lo <= k <= hi: raise Bad("character code %d outside of the widths" % k)
        out = ()
        for x in items:
            if isinstance(x, N): out += ((T.mul(T.neg(x), T.mul(size, num(Fraction(1, 1000)))), ZERO),)
            else:
                if "FirstChar" in f:
                    for c in atoms(S(tuple(x.t), False)):
                        if isinstance(c, str): check(c)
                out += codes(x.t, enc)
        self.marks.append(("text", out, base.t if isinstance(base, Lit) else base, mul((size, ZERO, ZERO, size, ZERO, ZERO), mul(self.tm, g.ctm)), g.fill, g.falpha, g.clips))
    def o_Tj(self):
        s, = self.args(1)
        if not isinstance(s, Str): raise Bad("string expected")
        self.textmark((s,))
    def o_TJ(self):
        s, = self.args(1)
        if not isinstance(s, tuple) or not all(isinstance(x, (N, Str)) for x in s): raise Bad("array of strings and numbers expected")
        self.textmark(s)
    def o_Do(self):
        n, = self.args(1)
        o = self.resource("XObject", n)
        g = self.gs
        if isinstance(o, Stream) and o.d.get("Subtype") == Lit("Form"):
            m = o.d.get("Matrix", IDENT)
            c = Content(self.pdf, o.data, self.pdf.get(o.d.get("Resources", self.res)), mul(m, g.ctm))
            c.gs.d = dict(g.d); c.gs.d["ctm"] = mul(m, g.ctm)
            try: c.run()
            except Bad as e: c.error(str(e))
            self.marks.extend(c.marks)
        else:
            self.marks.append(("image", self.pdf.resolved(o), g.ctm, g.falpha, g.clips))
    def o_sh(self):
        n, = self.args(1)
        self.marks.append(("shading", self.pdf.resolved(self.resource("Shading", n)), self.gs.ctm, self.gs.falpha, self.gs.clips))

def pdfpages(v):
    """marks of all pages (errors of the file first)"""
    def run(v):
        f = PDFfile(v)
        errs = tuple(("error", e) for e in f.errors)
        if f.trailer is None: return errs + (("error", "no trailer"),)
        out = []
        try:
            for p in f.pages():
                c = f.get(p.get("Contents"))
                if not isinstance(c, Stream): raise Bad("page contents")
                pg = Content(f, c.data, f.get(p.get("Resources", {})))
                try: pg.run()
                except Bad as e: pg.error(str(e))
                out.extend(pg.marks)
                out.append(("page",))
        except Bad as e: out.append(("error", str(e)))
        return errs + tuple(out)
    return spread(v, run)

def pdferrors(v):
    def run(v): return tuple(PDFfile(v).errors)
    return spread(v, run)

def pdfentry(v, path):
    """value at a path of keys from the trailer (page numbers as integers)"""
    def run(v):
        f = PDFfile(v)
        if f.trailer is None: return ("error", "no trailer")
        x = f.trailer
        for k in path:
            x = f.get(x)
            if isinstance(x, Stream): x = x.d
            if isinstance(x, dict): x = x.get(k)
            elif isinstance(x, tuple) and isinstance(k, int) and k < len(x): x = x[k]
            else: return None
        return f.resolved(x)
    return spread(v, run)

# --- SVG -------------------------------------------------------------------------------------------

class XML:
    """element tree of a text"""
    def __init__(self, a):
        self.a = a; self.i = 0
    def parse(self):
        stack = [("", {}, [])]
        a = self.a
        while self.i < len(a):
            c = a[self.i]
            if c != "<":
                j = self.i
                while self.i < len(a) and a[self.i] != "<": self.i += 1
                frag = a[j:self.i]
                if any(not isinstance(x, str) or x not in WS for x in frag): stack[-1][2].append(textof(self.entities(frag)))
                continue
            if a[self.i+1] in ("?", "!"):
                if a[self.i+1] == "!" and "".join(x for x in a[self.i:self.i+9] if isinstance(x, str)).startswith("<![CDATA["):
                    while a[self.i:self.i+3] != list("]]>"): self.i += 1
                    self.i += 3
                    continue
                while self.i < len(a) and a[self.i] != ">": self.i += 1
                self.i += 1
                continue
            if a[self.i+1] == "/":
                self.i += 2
                n = self.name()
                if len(stack) == 1: raise Bad("</%s> without element" % n)
                if stack[-1][0] != n: raise Bad("</%s> closes <%s>" % (n, stack[-1][0]))
                e = stack.pop(); stack[-1][2].append(e)
                self.skip()
                if self.i >= len(a) or a[self.i] != ">": raise Bad("> expected")
                self.i += 1
                continue
            self.i += 1
            n = self.name()
            attrs = {}
            while True:
                self.skip()
                if self.i >= len(a): raise Bad("element not closed")
                if a[self.i] == ">": self.i += 1; stack.append((n, attrs, [])); break
                if a[self.i:self.i+2] == ["/", ">"]: self.i += 2; stack[-1][2].append((n, attrs, [])); break
                k = self.name()
                if not k: raise Bad("attribute name expected in <%s>" % n)
                if a[self.i] != "=": raise Bad("= expected")
                q = a[self.i+1]
                if q not in ("'", '"'): raise Bad("quote expected")
                j = self.i + 2
                self.i = j
                while self.i < len(a) and a[self.i] != q: self.i += 1
                if self.i >= len(a): raise Bad("attribute value not closed")
                if "<" in a[j:self.i]: raise Bad("< in an attribute value")
                if k in attrs: raise Bad("attribute %s twice" % k)
                attrs[k] = self.entities(a[j:self.i])
                self.i += 1
        if len(stack) != 1: raise Bad("<%s> not closed" % stack[-1][0])
        roots = [x for x in stack[0][2] if isinstance(x, tuple)]
        if len(roots) != 1: raise Bad("%d root elements" % len(roots))
        return roots[0]
    def skip(self):
        while self.i < len(self.a) and self.a[self.i] in WS: self.i += 1
    def name(self):
        j = self.i
        while self.i < len(self.a) and isinstance(self.a[self.i], str) and self.a[self.i] not in WS + "=/>": self.i += 1
        return "".join(self.a[j:self.i])
    def entities(self, frag):
        out = []; i = 0
        while i < len(frag):
            if frag[i] == "&":
                j = i
                while j < len(frag) and frag[j] != ";": j += 1
                if j >= len(frag): raise Bad("entity")
                e = textof(frag[i+1:j])
                if isinstance(e, str) and e.startswith("#x"): out.append(chr(int(e[2:], 16)))
                elif isinstance(e, str) and e.startswith("#"): out.append(chr(int(e[1:])))
                elif e in ("amp", "lt", "gt", "quot", "apos"): out.append({"amp": "&", "lt": "<", "gt": ">", "quot": '"', "apos": "'"}[e])
                else: raise Bad("entity %s" % (e,))
                i = j + 1
            else: out.append(frag[i]); i += 1
        return out

def svgnumbers(a):
    """words and numbers of path data, transformations and lists"""
    out = []; i = 0
    while i < len(a):
        c = a[i]
        if isinstance(c, str) and (c in WS or c == ","): i += 1; continue
        if isinstance(c, str) and c.isalpha():
            j = i
            while i < len(a) and isinstance(a[i], str) and a[i].isalpha(): i += 1
            out.append("".join(a[j:i])); continue
        if isinstance(c, str) and c in "()": out.append(c); i += 1; continue
        j = i
        if isinstance(c, str) and c in "+-": i += 1
        if i < len(a) and not isinstance(a[i], str): i += 1
        else:
            dot = False
            while i < len(a) and isinstance(a[i], str) and (a[i].isdigit() or a[i] == "." and not dot): dot = dot or a[i] == "."; i += 1
            if i < len(a) and a[i] == "e" and i+1 < len(a) and (a[i+1] in ("-", "+") or isinstance(a[i+1], str) and a[i+1].isdigit()):
                i += 2
                while i < len(a) and isinstance(a[i], str) and a[i].isdigit(): i += 1
        n = numberof(a[j:i])
        if n is None:
            if i == j: i += 1
            raise Bad("number expected: %s" % (textof(a[j:i]),))
        out.append(n)
    return out

NAMED = {"black": (0, 0, 0), "white": (255, 255, 255), "red": (255, 0, 0)}

class SVG(Page):
    def __init__(self): Page.__init__(self, FLIP); self.ids = {}; self.gs.d["stroke"] = None; self.gs.d["curcolor"] = None
    def collect(self, e):
        n, attrs, ch = e
        if "id" in attrs:
            k = self.txt(attrs["id"])
            if k in self.ids: self.error("id %s twice" % (k,))
            self.ids[k] = e
        for c in ch:
            if isinstance(c, tuple): self.collect(c)
    def txt(self, frag): return textof(frag)
    def num(self, frag):
        n = numberof(frag)
        if n is None: raise Bad("number expected: %s" % (textof(frag),))
        return n
    def colour(self, frag):
        t = self.txt(frag)
        if t == "none": return None
        if isinstance(t, str):
            if t in NAMED: return ("rgb",) + tuple(num(Fraction(x, 255)) for x in NAMED[t])
            if t.startswith("#") and len(t) == 4: return ("rgb",) + tuple(num(Fraction(int(x*2, 16), 255)) for x in t[1:])
            if t.startswith("#") and len(t) == 7: return ("rgb",) + tuple(num(Fraction(int(t[k:k+2], 16), 255)) for k in (1, 3, 5))
        k = self.ref(frag)
        if k is not None: return ("pattern", self.paintserver(k))
        raise Bad("colour %s" % (t,))
    def ref(self, frag):
        frag = list(frag)
        return textof(frag[5:-1]) if frag[:5] == list("url(#") and frag[-1:] == [")"] else None
    def paintserver(self, k):
        e = self.ids.get(k)
        if e is None: raise Bad("reference to missing id %s" % k)
        return frozenelement(e)
    def transform(self, frag):
        m = IDENT
        t = svgnumbers(frag); i = 0
        while i < len(t):
            k = t[i]
            if t[i+1] != "(": raise Bad("transform")
            j = t.index(")", i)
            v = t[i+2:j]; i = j + 1
            if k == "matrix" and len(v) == 6: n = tuple(v)
            elif k == "translate": n = (ONE, ZERO, ZERO, ONE, v[0], v[1] if len(v) > 1 else ZERO)
            elif k == "scale": n = (v[0], ZERO, ZERO, v[1] if len(v) > 1 else v[0], ZERO, ZERO)
            else: raise Unsupported("transform %s" % k)
            m = mul(n, m)
        return m
    def state(self, attrs):
        """apply presentation attributes; group opacity is returned"""
        d = self.gs.d
        if "transform" in attrs: d["ctm"] = mul(self.transform(attrs["transform"]), d["ctm"])
        for k, v in attrs.items():
            if k == "stroke": d["stroke"] = self.colour(v)
            elif k == "fill": d["fill"] = self.colour(v)
            elif k == "stroke-width": d["lw"] = self.num(v)
            elif k == "stroke-linecap": d["cap"] = num(("butt", "round", "square").index(self.txt(v)))
            elif k == "stroke-linejoin": d["join"] = num(("miter", "round", "bevel").index(self.txt(v)))
            elif k == "stroke-miterlimit": d["miter"] = self.num(v)
            elif k == "stroke-dasharray": d["dash"] = (() if self.txt(v) == "none" else tuple(svgnumbers(v)), d["dash"][1])
            elif k == "stroke-dashoffset": d["dash"] = (d["dash"][0], self.num(v))
            elif k == "stroke-opacity": d["salpha"] = self.num(v)
            elif k == "fill-opacity": d["falpha"] = self.num(v)
            elif k == "fill-rule": d["rule"] = {"nonzero": ZERO, "evenodd": ONE}[self.txt(v)]
            elif k == "opacity": d["group"] = T.mul(d.get("group", ONE), self.num(v))
            elif k == "clip-path":
                e = self.ids.get(self.ref(v))
                if e is None or e[0] != "clipPath": raise Bad("clip path %s missing" % (self.txt(v),))
                d["clips"] = d["clips"] + self.clippath(e, d["ctm"])
    def clippath(self, e, ctm):
        out = []
        for c in e[2]:
            if not isinstance(c, tuple) or c[0] != "path": raise Unsupported("clip path content")
            rule = {"nonzero": ZERO, "evenodd": ONE}[self.txt(c[1].get("clip-rule", list("nonzero")))]
            s = SVG(); s.gs.d["ctm"] = ctm
            if "transform" in c[1]: s.gs.d["ctm"] = mul(self.transform(c[1]["transform"]), ctm)
            s.data(c[1].get("d", []))
            out.append((s.pathv(), rule))
        if len(out) != 1: raise Unsupported("clip path with %d paths" % len(out))
        return tuple(out)
    def data(self, frag):
        t = svgnumbers(frag); i = 0; cmd = None
        while i < len(t):
            if isinstance(t[i], str):
                w = t[i]
                # several commands may follow each other without numbers in between
                for ch in w[:-1]:
                    if ch in "zZ": self.close()
                    else: raise Bad("path data " + w)
                cmd = w[-1]; i += 1
                if cmd in "zZ": self.close(); cmd = None; continue
            if cmd is None: raise Bad("path data")
            k = {"m": 2, "l": 2, "c": 6, "h": 1, "v": 1}.get(cmd.lower())
            if k is None: raise Unsupported("path command " + cmd)
            v = t[i:i+k]; i += k
            if len(v) != k or any(isinstance(x, str) for x in v): raise Bad("path data")
            if cmd.lower() in "hv":
                c = self.cur
                x = T.add(v[0], c[0 if cmd == "h" else 1]) if cmd in "hv" else v[0]
                self.lineto(*((x, c[1]) if cmd in "hH" else (c[0], x)))
                continue
            if cmd.islower():
                c = self.cur or (ZERO, ZERO)
                v = [T.add(x, c[j % 2]) for j, x in enumerate(v)]
            if cmd in "mM": self.moveto(*v); cmd = "l" if cmd == "m" else "L"
            elif cmd in "lL": self.lineto(*v)
            else: self.curveto(*v)
    def walk(self, e):
        n, attrs, ch = e
        save = self.gs.copy()
        if n == "defs" or n == "metadata" or n == "title": return
        self.state(attrs)
        d = self.gs.d
        if n in ("g", "svg"):
            for c in ch:
                if isinstance(c, tuple): self.walk(c)
                else: self.error("text within " + n)
        elif n == "path":
            self.newpath()
            self.data(attrs.get("d", []))
            g = d.get("group", ONE)
            if d["fill"] is not None:
                self.marks.append(("fill", self.pathv(), d.get("rule", ZERO), d["fill"], T.mul(d["falpha"], g), d["clips"]))
            if d["stroke"] is not None:
                m = d["ctm"]
                # the coordinate system of the page has the y axis upwards
                self.marks.append(("stroke", self.pathv(), mul(FLIP, m)[:4], d["stroke"], T.mul(d["salpha"], g), d["lw"], d["cap"], d["join"], d["miter"], d["dash"], d["clips"]))
        elif n == "text":
            size = self.num(attrs["font-size"])
            out = ()
            for c in ch:
                if isinstance(c, tuple):
                    if c[0] != "tspan" or not set(c[1]) <= {"dx", "dy"}: raise Bad("element %s within text" % c[0])
                    out += ((self.num(c[1].get("dx", ["0"])), T.neg(self.num(c[1].get("dy", ["0"])))),)
                    for x in c[2]: out += codes((x,))
                else: out += codes((c,))
            m = mul((size, ZERO, ZERO, T.neg(size), self.num(attrs["x"]), self.num(attrs["y"])), d["ctm"])
            self.marks.append(("text", out, self.txt(attrs.get("font-family", [])), m, d["fill"], T.mul(d["falpha"], d.get("group", ONE)), d["clips"]))
        elif n == "image":
            self.marks.append(("image", tuple((k, self.txt(v)) for k, v in sorted(attrs.items()) if k != "transform"), d["ctm"], T.mul(d["falpha"], d.get("group", ONE)), d["clips"]))
        else: self.marks.append(("object", frozenelement(e), d["ctm"], d["clips"]))
        self.gs = save

def frozenelement(e):
    n, attrs, ch = e
    return (n, tuple((k, textof(v)) for k, v in sorted(attrs.items())), tuple(c if not isinstance(c, tuple) else frozenelement(c) for c in ch))

def svgpage(v):
    def run(v):
        s = SVG()
        try:
            root = XML(atoms(v)).parse()
            if root[0] != "svg": raise Bad("root element " + root[0])
            s.collect(root)
            s.walk(root)
        except Bad as e: s.error(str(e))
        s.marks.append(("page",))
        return tuple(s.marks)
    return spread(v, run)

def svgroot(v):
    """attributes of the root element"""
    def run(v):
        try: r = XML(atoms(v)).parse()
        except Bad as e: return ("error", str(e))
        return tuple((k, textof(x)) for k, x in sorted(r[1].items()))
    return spread(v, run)

# --- pictures --------------------------------------------------------------------------------------

COMPONENTS = {"DeviceGray": 1, "DeviceRGB": 3, "DeviceCMYK": 4}

def octets(d):
    if d is None: raise Bad("no data of the image")
    a = atoms_(d)
    if not concrete(a): raise Bad("data of the image not known")
    return [ord(c) for c in a]

def inverse(m):
    a, b, c, d, e, f = m
    det = T.sub(T.mul(a, d), T.mul(b, c))
    q = lambda x: T.div(x, det)
    return (q(d), q(T.neg(b)), q(T.neg(c)), q(a), q(T.sub(T.mul(c, f), T.mul(d, e))), q(T.sub(T.mul(b, e), T.mul(a, f))))

def inumber(x):
    c = x.const() if isinstance(x, N) else None
    if c is None or c.denominator != 1: raise Bad("integer expected")
    return int(c)

def pixels(space, data, n):
    """colours of n pixels, with the alpha values left as further components"""
    if isinstance(space, tuple) and space and space[0] in ("Indexed", "array") and "Indexed" in space[:2]:
        if space[0] == "array": space = space[1:]
        base, last, table = space[1:4]
        if isinstance(table, tuple) and table and table[0] == "stream": table = table[2]
        elif isinstance(table, tuple) and table and table[0] == "str": table = table[1:]
        table = octets(table); k = COMPONENTS[base]
        if len(table) != k*(inumber(last)+1): raise Bad("length of the table of colours")
        if len(data) != n: raise Bad("length of the data of the image")
        return base, [tuple(table[k*i:k*i+k]) for i in data]
    k = COMPONENTS[space]
    if len(data) != k*n: raise Bad("length of the data of the image (%d instead of %d)" % (len(data), k*n))
    return space, [tuple(data[k*i:k*i+k]) for i in range(n)]

def picture(m):
    """("picture", width, height, colour space, pixels, alpha values or None, matrix of the unit square, alpha, clips)"""
    from . import terms
    if len(m) == 7:
        # PostScript
        _, d, data, cs, ctm, alpha, clips = m
        d = dict(d[1:])
        data = octets(data)
        al = None
        if inumber(d["ImageType"]) == 3:
            md = dict(d["MaskDict"][1:]); inter = inumber(d["InterleaveType"]); d = dict(d["DataDict"][1:])
            if inter != 1: raise Bad("interleave type")
            if any(md[k] != d[k] for k in ("Width", "Height", "ImageMatrix")): raise Bad("mask and image differ")
            if tuple(inumber(x) for x in md["Decode"]) != (1, 0): raise Bad("decoding of the mask")
            k = COMPONENTS[cs] + 1
            al = data[::k]
            if len(data) % k: raise Bad("length of the data")
            data = [x for i in range(0, len(data), k) for x in data[i+1:i+k]]
        w, h = inumber(d["Width"]), inumber(d["Height"])
        if inumber(d["BitsPerComponent"]) != 8: raise Bad("bits per component")
        dec = tuple(inumber(x) for x in d["Decode"])
        if dec != ((0, 255) if isinstance(cs, tuple) else (0, 1)*COMPONENTS[cs]): raise Bad("decoding of the image")
        space, px = pixels(cs, data, w*h)
        if al is not None and len(al) != w*h: raise Bad("length of the alpha channel")
        im = d["ImageMatrix"]
        if im and im[0] == "array": im = im[1:]
        mat = mul(mul((num(w), ZERO, ZERO, num(-h), ZERO, num(h)), inverse(im)), ctm)
        return ("picture", num(w), num(h), space, tuple(px), None if al is None else tuple(al), mat, alpha, clips)
    _, o, ctm, alpha, clips = m
    if o and o[0] == "stream":
        d = dict(o[1][1:])
        w, h = inumber(d["Width"]), inumber(d["Height"])
        if inumber(d["BitsPerComponent"]) != 8: raise Bad("bits per component")
        space, px = pixels(d["ColorSpace"], octets(o[2]), w*h)
        al = None
        if "SMask" in d:
            sd = dict(d["SMask"][1][1:])
            if (inumber(sd["Width"]), inumber(sd["Height"])) != (w, h): raise Bad("mask and image differ")
            if sd["ColorSpace"] != "DeviceGray": raise Bad("colour space of a mask")
            al = octets(d["SMask"][2])
            if len(al) != w*h: raise Bad("length of the alpha channel")
        return ("picture", num(w), num(h), space, tuple(px), None if al is None else tuple(al), ctm, alpha, clips)
    # SVG
    a = dict(o)
    x, y, w, h = [T.num(terms.Fraction(a[k])) for k in ("x", "y", "width", "height")]
    if a.get("preserveAspectRatio") != "none": raise Bad("aspect ratio")
    mat = mul(mul((w, ZERO, ZERO, T.neg(h), x, T.add(y, h)), ctm), IDENT)
    mat = tuple(mat)
    u = a["xlink:href"]
    pre = "data:image/png;base64,"
    if not isinstance(u, str) or not u.startswith(pre): raise Bad("data of the image")
    import base64
    w, h, space, px, al = png(base64.b64decode(u[len(pre):]))
    return ("picture", num(w), num(h), space, px, al, mat, alpha, clips)

def png(b):
    import struct, zlib
    if b[:8] != b"\x89PNG\r\n\x1a\n": raise Bad("signature of the PNG file")
    i = 8; ch = []
    while i < len(b):
        n, = struct.unpack("!I", b[i:i+4]); k = b[i+4:i+8]; d = b[i+8:i+8+n]
        if len(d) != n or b[i+8+n:i+12+n] != struct.pack("!I", zlib.crc32(k + d)): raise Bad("chunk of the PNG file")
        ch.append((k, d)); i += 12 + n
    names = [k for k, d in ch]
    w, h, bits, mode, c, f, il = struct.unpack("!2I5B", ch[0][1])
    if names != ([b"IHDR", b"PLTE", b"IDAT", b"IEND"] if mode == 3 else [b"IHDR", b"IDAT", b"IEND"]): raise Bad("chunks of the PNG file")
    d = dict(ch)
    k = {0: 1, 2: 3, 3: 1, 4: 2, 6: 4}[mode]
    if (bits, c, f, il) != (8, 0, 0, 0): raise Bad("header of the PNG file")
    try: raw = zlib.decompress(d[b"IDAT"])
    except zlib.error: raise Bad("data of the PNG file")
    if len(raw) != h*(1+w*k) or any(raw[j*(1+w*k)] for j in range(h)): raise Bad("data of the PNG file")
    px = [tuple(raw[j*(1+w*k)+1+x*k:j*(1+w*k)+1+x*k+k]) for j in range(h) for x in range(w)]
    al = None
    if mode in (4, 6): al = tuple(p[-1] for p in px); px = [p[:-1] for p in px]
    if mode == 3: t = d[b"PLTE"]; px = [tuple(t[3*p[0]:3*p[0]+3]) for p in px]
    return w, h, "DeviceGray" if mode in (0, 4) else "DeviceRGB", tuple(px), al

def tonum(v):
    if isinstance(v, int) and not isinstance(v, bool): return num(v)
    if isinstance(v, tuple): return tuple(tonum(x) for x in v)
    return v

def pictures(marks):
    out = []
    for m in marks:
        if isinstance(m, tuple) and m and m[0] == "image":
            try: m = tonum(picture(m))
            except (Bad, KeyError) as e: m = ("error", "image: %s" % e)
        out.append(m)
    return tuple(out)

# --- extent ----------------------------------------------------------------------------------------

def tmin(*v):
    r = v[0]
    for x in v[1:]: r = T.func("min", r, x)
    return r
def tmax(*v):
    r = v[0]
    for x in v[1:]: r = T.func("max", r, x)
    return r

def points(path):
    return [(p[k], p[k+1]) for p in path for k in range(1, len(p), 2)]

def extent(marks):
    """smallest rectangles with the marks: ((llx, lly, urx, ury), ...) each mark's, strokes widened, clips as rectangles"""
    out = []
    for m in marks:
        if m[0] not in ("fill", "stroke"): continue
        pts = points(m[1])
        if not pts: continue
        llx, lly = tmin(*[p[0] for p in pts]), tmin(*[p[1] for p in pts])
        urx, ury = tmax(*[p[0] for p in pts]), tmax(*[p[1] for p in pts])
        if m[0] == "stroke":
            a, b, c, d = m[2]
            h = T.div(m[5], num(2))
            ab = lambda x: T.func("abs", x)
            wx = T.mul(h, T.add(ab(a), ab(c))); wy = T.mul(h, T.add(ab(b), ab(d)))
            llx, lly, urx, ury = T.sub(llx, wx), T.sub(lly, wy), T.add(urx, wx), T.add(ury, wy)
        r = [llx, lly, urx, ury]
        clips = []
        for cp, rule in m[-1]:
            cpts = points(cp)
            clips.append((tmin(*[p[0] for p in cpts]), tmin(*[p[1] for p in cpts]), tmax(*[p[0] for p in cpts]), tmax(*[p[1] for p in cpts])))
        out.append((tuple(r), tuple(clips)))
    return tuple(out)
