"""abstract transformers of the Python builtins and of list/dict/str/file methods"""
from fractions import Fraction
from . import terms as T
from .terms import (N, B, G, X, S, Ref, MISSING, Unsupported, num, ZERO, ONE, gamma, bnot, band, bor, opaque,
                    sconcat, isbool, tonum)
import struct as _struct

def _i():
    from . import interp
    return interp

def ssort(I, items, st, keyf=None, reverse=False):
    I_ = _i()
    import ast
    items = list(items)
    keys = [I.call(keyf, [x], {}, st) if keyf is not None else x for x in items]
    n = len(items)
    pairs = list(zip(keys, items))
    # insertion network
    for i in range(1, n):
        for j in range(i, 0, -1):
            a, b = pairs[j-1], pairs[j]
            if reverse: c = I.truth(I.compare(ast.Lt(), a[0], b[0], st), st)
            else: c = I.truth(I.compare(ast.Lt(), b[0], a[0], st), st)
            c = I.decide(c, st)
            if c is True: pairs[j-1], pairs[j] = b, a
            elif c is False: break
            else:
                pairs[j-1] = (gamma(c, b[0], a[0]), gamma(c, b[1], a[1]))
                pairs[j] = (gamma(c, a[0], b[0]), gamma(c, a[1], b[1]))
    return [p[1] for p in pairs]

def builtin(I, name, args, kw, st):
    im = _i()
    h = I.intrinsics.get("builtin:" + name)
    if h is not None:
        r = h(I, args, kw, st)
        if r is not NotImplemented: return r
    if name.startswith("law."): return I.lawfuncs[name[4:]](I, args, kw, st)
    if name.startswith("math."):
        def go(vals, i, s):
            if i == len(args):
                ns = []
                for v in vals:
                    if not isinstance(v, (N, bool, B, X)): I.raise_(s, "TypeError", "number required by " + name)
                    ns.append(tonum(v))
                fn = im.MATH[name[5:]]
                if I.divguard and fn == "sqrt": I.raise_if(T.lt(ns[0], ZERO), s, "ValueError")
                if fn == "log" and len(ns) == 2: return T.div(T.func("log", ns[0]), T.func("log", ns[1]))
                if fn == "radians": return T.div(T.mul(ns[0], T.natom("const", "pi")), num(180))
                if fn == "degrees": return T.div(T.mul(ns[0], num(180)), T.natom("const", "pi"))
                if fn == "hypot": return T.sqrt(T.add(T.mul(ns[0], ns[0]), T.mul(ns[1], ns[1])))
                try: return T.func(fn, *ns)
                except T.DivZero: I.raise_(s, "ValueError", "math domain error")
            return I.dist(args[i], s, lambda x, s2: go(vals + [x], i+1, s2))
        if any(isinstance(a, Ref) for a in args):
            args = [I.callmethod(a, "__float__", [], {}, st) if isinstance(a, Ref) else a for a in args]
        return go([], 0, st)
    f = globals().get("b_" + name.replace(".", "_"))
    if f is None:
        if name.startswith("object."):
            return None
        if name.startswith("exc."):
            return None
        if name == "dict.fromkeys":
            r = I.mkdict(st)
            for k in I.iterate(args[0], st): I.setitem(r, k, args[1] if len(args) > 1 else None, st)
            return r
        for p in ("str", "bytes", "list", "dict", "tuple", "float", "int"):
            if name.startswith(p + ".") and args:
                return I.method(args[0], name[len(p)+1:], args[1:], kw, st)
        raise Unsupported("builtin " + name)
    return f(I, args, kw, st)

def b_abs(I, a, kw, st):
    def f(x, s):
        if isinstance(x, Ref): return I.callmethod(x, "__abs__", [], {}, s)
        if isinstance(x, (str, bytes, tuple)) or x is None: I.raise_(s, "TypeError", "abs")
        x = tonum(x)
        sg = I.sign(x, s)
        if sg in ("+", "0+"): return x
        if sg in ("-", "0-"): return T.neg(x)
        return T.func("abs", x)
    return I.dist(a[0], st, f)

def _boolseq(I, a, st):
    return [I.truth(x, st) for x in I.iterate(a[0], st)]
def b_all(I, a, kw, st): return band(*_boolseq(I, a, st))
def b_any(I, a, kw, st): return bor(*_boolseq(I, a, st))
def b_bool(I, a, kw, st): return I.truth(a[0], st) if a else False
def b_callable(I, a, kw, st):
    im = _i()
    v = a[0]
    if isinstance(v, (im.Func, im.ClassV, im.Bound, im.Builtin, im.Method)): return True
    if isinstance(v, Ref):
        c = I.cell(st, v.id)
        return isinstance(c, im.Inst) and I.lookup(c.cls, "__call__", st) is not MISSING
    if isinstance(v, X): return T.bterm("app", "callable", v)
    return False
def b_chr(I, a, kw, st):
    k = I.intconst(a[0])
    if k is not None: return chr(k)
    return S((("fmt", "%c", a[0]),))
def b_ord(I, a, kw, st):
    if isinstance(a[0], (str, bytes)) and len(a[0]) == 1: return num(ord(a[0]))
    if isinstance(a[0], N): I.raise_(st, "TypeError", "ord")
    if isinstance(a[0], (str, bytes)) and len(a[0]) != 1: I.raise_(st, "TypeError", "ord() expected a character")
    if isinstance(a[0], S) and a[0].byt and len(a[0].parts) == 1 and isinstance(a[0].parts[0], tuple) and a[0].parts[0][0] == "chr": return a[0].parts[0][1]
    return T.natom("app", "ord", a[0])
def b_dict(I, a, kw, st):
    r = I.mkdict(st)
    if a:
        src = a[0]
        if isinstance(src, Ref) and isinstance(I.cell(st, src.id), _i().DictC):
            st.heap[r.id] = I.cell(st, src.id)
        else:
            for kv in I.iterate(src, st):
                k, v = I.iterate(kv, st)
                I.setitem(r, k, v, st)
    for k, v in kw.items(): I.setitem(r, k, v, st)
    return r
def b_divmod(I, a, kw, st):
    x, y = tonum(a[0]), tonum(a[1])
    return (T.func("floordiv", x, y), T.func("mod", x, y))
def b_enumerate(I, a, kw, st):
    start = kw.get("start", a[1] if len(a) > 1 else ZERO)
    return tuple((T.add(num(i), start), x) for i, x in enumerate(I.iterate(a[0], st)))
def b_filter(I, a, kw, st):
    r = []
    for x in I.iterate(a[1], st):
        c = I.decide(I.truth(I.call(a[0], [x], {}, st) if a[0] is not None else x, st), st)
        if c is True: r.append(x)
        elif c is not False: raise _i().SplitNeeded(c)
    return I.mklist(st, r)
def b_map(I, a, kw, st):
    cols = [I.iterate(x, st) for x in a[1:]]
    return I.mklist(st, [I.call(a[0], list(t), {}, st) for t in zip(*cols)])
def b_zip(I, a, kw, st):
    return tuple(zip(*[I.iterate(x, st) for x in a]))
def b_reversed(I, a, kw, st):
    return tuple(reversed(I.iterate(a[0], st)))
def b_sorted(I, a, kw, st):
    rev = I.truth(kw.get("reverse", False), st)
    return I.mklist(st, ssort(I, I.iterate(a[0], st), st, kw.get("key"), rev is True))
def b_range(I, a, kw, st):
    ks = [I.intconst(x) for x in a]
    if None in ks:
        if any(isinstance(x, G) or (isinstance(x, N) and len(x.t) == 1 and any(T._byid[i].op == "ite" for m in x.t for i, e in m)) for x in a):
            for x in a:
                if isinstance(x, G): raise _i().SplitNeeded(x.c)
                if isinstance(x, N):
                    for m in x.t:
                        for i, e in m:
                            if T._byid[i].op == "ite":
                                c = I.decide(T._byid[i].args[0], st)
                                if isinstance(c, bool): continue
                                raise _i().SplitNeeded(T._byid[i].args[0])
        raise Unsupported("symbolic range")
    r = range(*ks)
    if len(r) > 5000: raise Unsupported("large range")
    return tuple(num(i) for i in r)
def b_len(I, a, kw, st):
    im = _i()
    v = a[0]
    if isinstance(v, G): return I.dist(v, st, lambda x, s: b_len(I, [x], {}, s))
    if isinstance(v, (str, bytes, tuple)): return num(len(v))
    if isinstance(v, Ref):
        c = I.cell(st, v.id)
        if isinstance(c, im.GCell): return I.cellsplit(v, st, lambda s: b_len(I, a, kw, s))
        if isinstance(c, im.Seq): return num(len(c.c))
        if isinstance(c, im.DictC):
            n = ZERO
            for k, x in c.d.values():
                n = T.add(n, tonum(I.presence(x)))
            return n
        if isinstance(c, im.SetC): return num(len(c.d))
        if isinstance(c, im.Inst):
            m = I.lookup(c.cls, "__len__", st)
            if m is not MISSING: return I.call(I.bind(m, v, c.cls, st), [], {}, st)
            if "__native__" in c.f: return b_len(I, [c.f["__native__"]], {}, st)
        I.raise_(st, "TypeError", "len")
    if isinstance(v, S):
        if all(isinstance(p, (str, bytes)) or (isinstance(p, tuple) and p and p[0] == "chr") for p in v.parts):
            return num(sum(len(p) if isinstance(p, (str, bytes)) else 1 for p in v.parts))
        r = ZERO
        for p in v.parts: r = T.add(r, partlen(I, p, st))
        return r
    if isinstance(v, X): return T.natom("app", "len", v)
    I.raise_(st, "TypeError", "len of %s" % T.show(v))
def partlen(I, p, st):
    if isinstance(p, (str, bytes)): return num(len(p))
    if isinstance(p, tuple) and p and p[0] == "chr": return ONE
    if isinstance(p, G): return gamma(p.c, b_len(I, [p.a], {}, st), b_len(I, [p.b], {}, st))
    if isinstance(p, X): return T.natom("app", "len", p)
    return T.natom("app", "len", S((p,), False))

def slicetext(I, o, start, stop, st):
    """part of a text between positions which are lengths of leading parts of the text (None if they are not)"""
    pos = []
    at = ZERO
    for k, p in enumerate(o.parts):
        pos.append((at, k, p))
        at = T.add(at, partlen(I, p, st))
    pos.append((at, len(o.parts), None))
    def find(x):
        if x is None: return None
        if not isinstance(x, N): return False
        for at, k, p in pos:
            d = T.sub(x, at).const()
            if d is None: continue
            d = int(d)
            if d == 0: return (k, 0)
            if isinstance(p, (str, bytes)) and 0 < d < len(p): return (k, d)
        return False
    a, b = find(start), find(stop)
    if a is False or b is False: return None
    a = a or (0, 0); b = b or (len(o.parts), 0)
    out = [b"" if o.byt else ""]
    for k, p in enumerate(o.parts):
        if (k, 0) < (a[0], 0) or k > b[0] or k == b[0] and not b[1]: continue
        lo = a[1] if k == a[0] else 0
        hi = b[1] if k == b[0] else None
        out.append(p[lo:hi] if isinstance(p, (str, bytes)) else p)
    return sconcat(*out)

def numeric(p):
    """part of a text made of the characters of a number only"""
    return isinstance(p, tuple) and p and p[0] == "fmt" and (p[1][0] == "%" and p[1][-1] in "dioxXeEfFgG" or p[1] in ("!s", "!r", "%s", "{}", "{:}")) and isinstance(p[2], N)

def b_max(I, a, kw, st, which="max"):
    import ast
    if len(a) == 1: items = I.iterate(a[0], st)
    else: items = list(a)
    if not items:
        if "default" in kw: return kw["default"]
        I.raise_(st, "ValueError", which + " of empty sequence")
    if "key" not in kw and all(isinstance(x, (N, bool, X)) for x in items):
        return T.func(which, *[tonum(x) for x in items])
    key = kw.get("key")
    best = items[0]
    bk = I.call(key, [best], {}, st) if key is not None else best
    for x in items[1:]:
        k = I.call(key, [x], {}, st) if key is not None else x
        op = ast.Lt() if which == "min" else ast.Gt()
        c = I.decide(I.truth(I.compare(op, k, bk, st), st), st)
        best = gamma(c, x, best); bk = gamma(c, k, bk)
    return best
def b_min(I, a, kw, st): return b_max(I, a, kw, st, "min")
def b_sum(I, a, kw, st):
    import ast
    r = a[1] if len(a) > 1 else kw.get("start", ZERO)
    for x in I.iterate(a[0], st): r = I.binop(ast.Add, r, x, st)
    return r
def b_getattr(I, a, kw, st):
    if not isinstance(a[1], str): raise Unsupported("getattr name")
    if len(a) == 3:
        h = I.hasattr(a[0], a[1], st)
        return I.branch(h, st, lambda s: I.getattr(a[0], a[1], s), lambda s: a[2])
    return I.getattr(a[0], a[1], st)
def b_hasattr(I, a, kw, st):
    if not isinstance(a[1], str): raise Unsupported("hasattr name")
    return I.hasattr(a[0], a[1], st)
def b_setattr(I, a, kw, st):
    if isinstance(a[1], G):
        return I.dist(a[1], st, lambda n, s: I.setattr(a[0], n, a[2], s))
    if not isinstance(a[1], str): raise Unsupported("setattr name")
    I.setattr(a[0], a[1], a[2], st)
def b_delattr(I, a, kw, st): raise Unsupported("delattr")
def b_vars(I, a, kw, st): return I.getattr(a[0], "__dict__", st)
def b_dir(I, a, kw, st): raise Unsupported("dir")
def b_globals(I, a, kw, st): raise Unsupported("globals")
def b_hash(I, a, kw, st):
    if I.run and not isinstance(a[0], N): return T.natom("app", "hash", I.freeze(a[0], st), num(I.run))
    return T.natom("app", "hash", I.freeze(a[0], st))
def b_id(I, a, kw, st):
    if isinstance(a[0], Ref): return T.natom("app", "id", num(a[0].id + I.run*10**9))
    return T.natom("app", "id", I.freeze(a[0], st))
def b_int(I, a, kw, st):
    if not a: return ZERO
    if len(a) > 1:
        b = I.intconst(a[1])
        if isinstance(a[0], (str, bytes)) and b is not None:
            try: return num(int(a[0], b))
            except ValueError: I.raise_(st, "ValueError", "int")
        return T.natom("app", "int", a[0], a[1])
    def f(v, s):
        if isinstance(v, bool): return num(int(v))
        if isinstance(v, N):
            if intlike(I, v): return v
            return T.func("trunc", v)
        if isinstance(v, (str, bytes)):
            r = numbertext(I, v)
            if r is not None: return r
            try: return num(int(v))
            except ValueError: I.raise_(s, "ValueError", "int")
        if isinstance(v, Ref): return I.callmethod(v, "__int__", [], {}, s)
        if isinstance(v, (X, S)): return T.natom("app", "int", v)
        if isinstance(v, B): return tonum(v)
        I.raise_(s, "TypeError", "int")
    return I.dist(a[0], st, f)
def intlike(I, v):
    for m, c in v.t.items():
        if c.denominator != 1: return False
        for i, e in m:
            at = T._byid[i]
            if e < 0: return False
            if at.op == "sym" and at.args[0] in I.intsyms: continue
            if at.op in ("floor", "ceil", "trunc", "round", "band", "bor", "bxor", "rshift", "lshift"): continue
            if at.op in ("mod", "floordiv") and all(intlike(I, x) for x in at.args): continue
            if at.op == "app" and at.args[0] in ("int", "len", "ord"): continue
            if at.op == "ite" and intlike(I, at.args[1]) and intlike(I, at.args[2]): continue
            if at.op in ("min", "max", "abs") and all(intlike(I, x) for x in at.args): continue
            return False
    return True
def numbertext(I, v):
    """number denoted by a text which stands for any decimal number (law function numtext)"""
    if not I.numtexts: return None
    if isinstance(v, bytes): v = v.decode("latin1")
    t = v.strip(); neg = False
    if t[:1] in "+-" and t: neg, t = t[0] == "-", t[1:]
    if t in I.numtexts:
        x = I.numtexts[t]
        return T.neg(x) if neg else x
    if any(k in v for k in I.numtexts): raise Unsupported("number text used in part")
    return None
def b_float(I, a, kw, st):
    if not a: return ZERO
    def f(v, s):
        if isinstance(v, (N, bool, B)): return tonum(v)
        if isinstance(v, (str, bytes)):
            r = numbertext(I, v)
            if r is not None: return r
            try:
                float(v)
                from fractions import Fraction as F
                try: return num(F(v if isinstance(v, str) else v.decode()))
                except ValueError: return num(float(v))
            except ValueError: I.raise_(s, "ValueError", "float")
        if isinstance(v, Ref): return I.callmethod(v, "__float__", [], {}, s)
        if isinstance(v, X): return tonum(v)
        if isinstance(v, S): return T.natom("app", "float", v)
        I.raise_(s, "TypeError", "float")
    return I.dist(a[0], st, f)
def b_str(I, a, kw, st):
    if not a: return ""
    if isinstance(a[0], (bytes,)) and (len(a) > 1 or kw):
        enc = a[1] if len(a) > 1 else kw.get("encoding", "utf-8")
        return a[0].decode(enc)
    if len(a) > 1: return opaque("decode", I.freeze(a[0], st))
    if isinstance(a[0], Ref) and isinstance(I.cell(st, a[0].id), _i().Inst) and any(b.native == "exception" for b in I.cell(st, a[0].id).cls.mro()):
        return opaque("excstr", I.unfold(a[0], st))
    r = I.fmt("!s", a[0], st)
    return r
def b_repr(I, a, kw, st): return I.fmt("!r", a[0], st)
def b_bytes(I, a, kw, st):
    if not a: return b""
    v = a[0]
    if isinstance(v, bytes): return v
    if isinstance(v, S) and v.byt: return v
    if isinstance(v, str):
        if len(a) < 2 and "encoding" not in kw: I.raise_(st, "TypeError", "string argument without an encoding")
        return v.encode(a[1] if len(a) > 1 else kw["encoding"])
    k = I.intconst(v)
    if k is not None: return bytes(k)
    if isinstance(v, (X, N, S)): return opaque("bytes", v)
    parts = []
    for x in I.iterate(v, st):
        k = I.intconst(x)
        if k is not None:
            if not 0 <= k < 256: I.raise_(st, "ValueError", "bytes")
            parts.append(bytes([k]))
        else: parts.append(("chr", x))
    return sconcat(b"", *parts) if parts else b""
def b_bytearray(I, a, kw, st):
    v = b_bytes(I, a, kw, st)
    if isinstance(v, bytes): return I.mklist(st, [num(x) for x in v])
    if isinstance(v, S): return I.mklist(st, bytelist(v))
    return v
def b_array_array(I, a, kw, st):
    """arrays of bytes, modelled as lists"""
    if a[0] not in ("B",): raise Unsupported("array of " + T.show(a[0]))
    if len(a) < 2: return I.mklist(st, [])
    v = a[1]
    if isinstance(v, str): I.raise_(st, "TypeError", "cannot use a str to initialize an array with typecode 'B'")
    if isinstance(v, S): return I.mklist(st, bytelist(v))
    return I.mklist(st, I.iterate(v, st))
def bytelist(v):
    r = []
    for p in v.parts:
        if isinstance(p, bytes): r.extend(num(x) for x in p)
        elif isinstance(p, tuple) and p[0] == "chr": r.append(p[1])
        else: raise Unsupported("bytes of symbolic length")
    return r
def b_list(I, a, kw, st): return I.mklist(st, I.iterate(a[0], st) if a else [])
def b_tuple(I, a, kw, st): return tuple(I.iterate(a[0], st)) if a else ()
def b_set(I, a, kw, st):
    return I.alloc(st, _i().SetC({I.key(x): x for x in (I.iterate(a[0], st) if a else [])}))
b_frozenset = b_set
def b_object(I, a, kw, st): return I.alloc(st, _i().Inst(I.objc, {}))
def b_round(I, a, kw, st):
    if isinstance(a[0], N) and intlike(I, a[0]): return a[0]
    return T.func("round", *[tonum(x) for x in a])
def b_pow(I, a, kw, st): return T.power(tonum(a[0]), tonum(a[1]))
def b_print(I, a, kw, st):
    if "file" in kw:
        sep = kw.get("sep", " "); out = []
        for i, x in enumerate(a):
            if i: out.append(sep)
            out.append(I.fmt("!s", x, st))
        out.append(kw.get("end", "\n"))
        I.callmethod(kw["file"], "write", [sconcat("", *out)], {}, st)
def b_iter(I, a, kw, st):
    if isinstance(a[0], Ref) and isinstance(I.cell(st, a[0].id), _i().IterC): return a[0]
    return I.alloc(st, _i().IterC(tuple(I.iterate(a[0], st))))
def b_next(I, a, kw, st):
    im = _i()
    v = a[0]
    if isinstance(v, Ref):
        c = I.cell(st, v.id)
        if isinstance(c, im.GCell): return I.cellsplit(v, st, lambda s: b_next(I, a, kw, s))
        if isinstance(c, im.Seq):  # generator result
            if not c.c:
                if len(a) > 1: return a[1]
                I.raise_(st, "StopIteration")
            st.heap[v.id] = im.Seq(c.c[1:])
            return c.c[0]
        if isinstance(c, im.IterC):
            if c.pos >= len(c.items):
                if len(a) > 1: return a[1]
                I.raise_(st, "StopIteration")
            st.heap[v.id] = im.IterC(c.items, c.pos+1)
            return c.items[c.pos]
        if isinstance(c, im.Inst): return I.callmethod(v, "__next__", [], {}, st)
    if isinstance(v, tuple): return v[0]
    raise Unsupported("next")
def b_type(I, a, kw, st):
    im = _i()
    v = a[0]
    if isinstance(v, G): return I.dist(v, st, lambda x, s: b_type(I, [x], {}, s))
    if v is None: return I.types["NoneType"]
    if isinstance(v, Ref):
        c = I.cell(st, v.id)
        if isinstance(c, im.GCell): return I.cellsplit(v, st, lambda s: b_type(I, a, kw, s))
        if isinstance(c, im.Inst): return c.cls
        if isinstance(c, im.Seq): return I.types["list"]
        if isinstance(c, im.DictC): return I.types["dict"]
        if isinstance(c, im.SetC): return I.types["set"]
    if isinstance(v, (str, S)): return I.types["bytes" if isinstance(v, S) and v.byt else "str"]
    if isinstance(v, bytes): return I.types["bytes"]
    if isinstance(v, bool) or isinstance(v, B): return I.types["bool"]
    if isinstance(v, N): return I.types["int" if intlike(I, v) else "float"]
    if isinstance(v, tuple): return I.types["tuple"]
    if isinstance(v, im.ClassV): return I.types["type"]
    return opaque("type", I.freeze(v, st))
def b_issubclass(I, a, kw, st):
    ts = a[1] if isinstance(a[1], tuple) else (a[1],)
    if isinstance(a[0], _i().ClassV): return any(t in a[0].mro() for t in ts)
    return T.bterm("app", "issubclass", I.freeze(a[0], st), repr(a[1]))
def b_isinstance(I, a, kw, st):
    im = _i()
    v, t = a
    if isinstance(v, G): return I.dist(v, st, lambda x, s: b_isinstance(I, [x, t], {}, s))
    if isinstance(t, Ref): t = tuple(I.iterate(t, st))
    if isinstance(t, tuple): return bor(*[b_isinstance(I, [v, x], {}, st) for x in t])
    if isinstance(v, Ref):
        c = I.cell(st, v.id)
        if isinstance(c, im.GCell): return I.cellsplit(v, st, lambda s: b_isinstance(I, a, kw, s))
        if isinstance(c, im.Inst): return isinstance(t, im.ClassV) and t in c.cls.mro()
        if isinstance(t, im.ClassV):
            return t.native == "object" or t.native == {im.Seq: "list", im.DictC: "dict", im.SetC: "set"}.get(type(c))
        return False
    if isinstance(t, (im.Builtin, im.Ext)):
        tn = t.name
        if tn in ("numbers.Number",): return isinstance(v, (N, bool, B)) if not isinstance(v, X) else T.bterm("app", "isinstance", v, tn)
        if isinstance(v, X): return T.bterm("app", "isinstance", v, tn)
        return False
    if isinstance(v, X): return T.bterm("app", "isinstance", v, repr(t))
    if not isinstance(t, im.ClassV): raise Unsupported("isinstance of %r" % (t,))
    n = t.native
    if n == "object": return True
    if isinstance(v, str): return n == "str"
    if isinstance(v, bytes): return n == "bytes"
    if isinstance(v, S): return n == ("bytes" if v.byt else "str")
    if isbool(v): return n in ("bool", "int")
    if isinstance(v, N): return n == ("int" if intlike(I, v) else "float")
    if isinstance(v, tuple): return n == "tuple"
    if isinstance(v, im.ClassV): return n == "type"
    return False
def b_property(I, a, kw, st): return _i().Wrap("property", a[0], a[1] if len(a) > 1 else None)
def b_staticmethod(I, a, kw, st): return _i().Wrap("staticmethod", a[0])
def b_classmethod(I, a, kw, st): return _i().Wrap("classmethod", a[0])
def b_slice(I, a, kw, st):
    if len(a) == 1: return ("slice", None, a[0], None)
    return ("slice",) + tuple(a) + ((None,) if len(a) == 2 else ())
def b_open(I, a, kw, st): return opaque("open", *[I.freeze(x, st) for x in a])
def b_functools_reduce(I, a, kw, st):
    items = I.iterate(a[1], st)
    if len(a) > 2: r = a[2]
    else: r, items = items[0], items[1:]
    for x in items: r = I.call(a[0], [r, x], {}, st)
    return r
def b_functools_total_ordering(I, a, kw, st): return a[0]
def b_functools_partial(I, a, kw, st): raise Unsupported("partial")
def b_itertools_chain(I, a, kw, st):
    r = []
    for x in a: r.extend(I.iterate(x, st))
    return tuple(r)
def b_itertools_tee(I, a, kw, st):
    im = _i(); items = tuple(I.iterate(a[0], st))
    return tuple(I.alloc(st, im.IterC(items)) for i in range(I.intconst(a[1]) if len(a) > 1 else 2))
def b_itertools_accumulate(I, a, kw, st):
    r = []
    for x in I.iterate(a[0], st):
        r.append(x if not r else I.call(a[1], [r[-1], x], {}, st) if len(a) > 1 else I.binop(__import__("ast").Add, r[-1], x, st))
    return tuple(r)
def b_itertools_repeat(I, a, kw, st): return (a[0],)*(I.intconst(a[1]) if len(a) > 1 else 10000)
def b_os_path_join(I, a, kw, st):
    import posixpath
    if all(isinstance(x, str) for x in a): return posixpath.join(*a)
    return opaque("ext:os.path.join", *[I.freeze(x, st) for x in a])
def b_math_isinf(I, a, kw, st): return False
def b_math_isnan(I, a, kw, st): return False
def b_copy_copy(I, a, kw, st):
    im = _i()
    def f(v, s):
        if isinstance(v, Ref):
            c = I.cell(s, v.id)
            if isinstance(c, im.GCell): return I.cellsplit(v, s, lambda s2: f(v, s2))
            if isinstance(c, im.Inst):
                m = I.lookup(c.cls, "__copy__", s)
                if m is not MISSING: return I.call(I.bind(m, v, c.cls, s), [], {}, s)
            return I.alloc(s, c)
        return v
    return I.dist(a[0], st, f)
def b_io_BytesIO(I, a, kw, st):
    return I.alloc(st, _i().FileC(a[0] if a else b"", 0))
def b_io_StringIO(I, a, kw, st):
    return I.alloc(st, _i().FileC(a[0] if a else "", 0))
def _binascii(fn, arg):
    import binascii
    def go(I, a, kw, st):
        if len(a) == 1 and isinstance(a[0], (bytes, str)):
            if isinstance(a[0], str) and fn in ("b2a_hex", "hexlify"): I.raise_(st, "TypeError", "bytes required by binascii." + fn)
            try: return getattr(binascii, fn)(a[0])
            except Exception: I.raise_(st, "ValueError", "binascii." + fn)
        return opaque("call", "ext:binascii." + fn, *I.freezeargs(a, kw, st))
    return go
def b_sadigest_hexdigest(I, a, kw, st):
    import hashlib
    if isinstance(a[0], bytes): return hashlib.sha1(a[0]).hexdigest()
    if isinstance(a[0], str): I.raise_(st, "TypeError", "bytes required by hashlib")
    return opaque("call", "sa.digest", *I.freezeargs(a, kw, st))

def b_zlib_compress(I, a, kw, st):
    import zlib
    if isinstance(a[0], str): I.raise_(st, "TypeError", "bytes required by zlib.compress")
    if isinstance(a[0], bytes): return zlib.compress(a[0])
    return opaque("call", "ext:zlib.compress", *I.freezeargs(a, kw, st))

def b_zlib_crc32(I, a, kw, st):
    import zlib
    if isinstance(a[0], bytes) and len(a) == 1: return num(zlib.crc32(a[0]))
    return opaque("call", "ext:zlib.crc32", *I.freezeargs(a, kw, st))

def b_base64_b64encode(I, a, kw, st):
    import base64
    if isinstance(a[0], bytes) and len(a) == 1: return base64.b64encode(a[0])
    return opaque("call", "ext:base64.b64encode", *I.freezeargs(a, kw, st))

for _n in ("b2a_base64", "b2a_hex", "hexlify", "a2b_hex", "unhexlify"): globals()["b_binascii_" + _n] = _binascii(_n, None)
def b_struct_calcsize(I, a, kw, st): return num(_struct.calcsize(a[0]))
def b_struct_pack(I, a, kw, st):
    f = a[0]
    if isinstance(f, bytes): f = f.decode()
    order = "@"
    if f[0] in "<>!=@":
        order = f[0]; f = f[1:]
    if order in "@": 
        if any(c in "lLqQ" for c in f): raise Unsupported("native struct size")
        order = "<"
    if order == "=": order = "<"
    import re
    parts = []; i = 1
    for cnt, code in re.findall(r"(\d*)([a-zA-Z])", f):
        for _ in range(int(cnt) if cnt and code not in "s" else 1):
            v = a[i]; i += 1
            size = {"B": 1, "b": 1, "H": 2, "h": 2, "I": 4, "i": 4, "L": 4, "l": 4, "Q": 8, "q": 8}.get(code)
            if size is None: raise Unsupported("struct code")
            bs = [("chr", T.func("mod", T.func("floordiv", tonum(v), num(256**k)), num(256))) for k in range(size)]
            if order in ">!": bs.reverse()
            for b in bs:
                k = I.intconst(b[1])
                parts.append(bytes([k]) if k is not None else b)
    return sconcat(b"", *parts)
def b_struct_unpack(I, a, kw, st):
    f = a[0]
    if isinstance(f, bytes): f = f.decode()
    order = "@"
    if f[0] in "<>!=@":
        order = f[0]; f = f[1:]
    if order in "@": 
        if any(c in "lLqQ" for c in f): raise Unsupported("native struct size")
        order = "<"
    if order == "=": order = "<"
    import re
    data = a[1]
    bl = [num(x) for x in data] if isinstance(data, bytes) else bytelist(data) if isinstance(data, S) else None
    if bl is None: raise Unsupported("unpack")
    out = []; pos = 0
    for cnt, code in re.findall(r"(\d*)([a-zA-Z])", f):
        for _ in range(int(cnt) if cnt else 1):
            size = {"B": 1, "b": 1, "H": 2, "h": 2, "I": 4, "i": 4, "L": 4, "l": 4, "Q": 8, "q": 8, "x": 1}.get(code)
            if size is None: raise Unsupported("struct code " + code)
            bs = bl[pos:pos+size]; pos += size
            if len(bs) < size: I.raise_(st, "struct.error", "wrong number of bytes")
            if code == "x": continue
            if order == "<": bs = list(bs)[::-1]
            v = ZERO
            for b in bs: v = T.add(T.mul(v, num(256)), b)
            if code.islower():
                v = T.sub(v, natite(T.lt(bs[0], num(128)), ZERO, num(256**size)))
            out.append(v)
    if pos != len(bl): I.raise_(st, "struct.error", "wrong number of bytes")
    return tuple(out)
def natite(c, a, b):
    return gamma(c, a, b)

# --- methods ------------------------------------------------------------------------------------------
def method(I, o, name, args, kw, st):
    im = _i()
    if isinstance(o, (str, bytes, S)): return strmethod(I, o, name, args, kw, st)
    if isinstance(o, tuple): return seqmethod(I, o, name, args, kw, st)
    if isinstance(o, (im.PatV, im.MatchV)): return remethod(I, o, name, args, kw, st)
    if isinstance(o, N):
        if name == "is_integer": return I.equal(T.func("floor", o), o, st)
        raise Unsupported("number method " + name)
    if isinstance(o, im.InstDict): return instdict(I, o, name, args, kw, st)
    c = I.cell(st, o.id)
    if isinstance(c, im.GCell): return I.cellsplit(o, st, lambda s: method(I, o, name, args, kw, s))
    if isinstance(c, im.Seq): return listmethod(I, o, c, name, args, kw, st)
    if isinstance(c, im.DictC): return dictmethod(I, o, c, name, args, kw, st)
    if isinstance(c, im.SetC): return setmethod(I, o, c, name, args, kw, st)
    if isinstance(c, im.FileC): return filemethod(I, o, c, name, args, kw, st)
    if isinstance(c, im.IterC):
        if name == "__next__": return b_next(I, [o], {}, st)
        return o
    raise Unsupported("method " + name)

def rearg(I, v, st):
    """constant argument of a regular expression function"""
    if isinstance(v, (str, bytes)) or v is None: return v
    if isinstance(v, (N, bool)):
        k = I.intconst(tonum(v))
        if k is not None: return k
    if isinstance(v, tuple): return tuple(rearg(I, x, st) for x in v)
    raise Unsupported("regular expression on a symbolic text")
def reval(I, v, st):
    im = _i()
    if v is None or isinstance(v, (str, bytes, bool)): return v
    if isinstance(v, int): return num(v)
    if isinstance(v, tuple): return tuple(reval(I, x, st) for x in v)
    if isinstance(v, list): return I.mklist(st, [reval(I, x, st) for x in v])
    if isinstance(v, dict):
        r = I.mkdict(st)
        for k, x in v.items(): I.setitem(r, k, reval(I, x, st), st)
        return r
    import re
    if isinstance(v, re.Match): return im.MatchV(v)
    if isinstance(v, re.Pattern): return im.PatV(v)
    raise Unsupported("regular expression result")
def _redo(I, f, args, kw, st):
    try: return reval(I, f(*[rearg(I, x, st) for x in args], **{k: rearg(I, x, st) for k, x in kw.items()}), st)
    except (TypeError, IndexError, ValueError) as e: I.raise_(st, type(e).__name__, "regular expression")
def remethod(I, o, name, args, kw, st):
    im = _i()
    if isinstance(o, im.MatchV):
        if name not in ("group", "groups", "groupdict", "start", "end", "span"): raise Unsupported("match." + name)
        return _redo(I, getattr(o.m, name), args, kw, st)
    if name in ("sub", "subn") and args and not isinstance(args[0], (str, bytes)):
        if name == "subn": raise Unsupported("subn with a function")
        src = rearg(I, args[1], st)
        out, pos = src[:0], 0
        for m in o.p.finditer(src):
            out = I.binop(_i().ast.Add(), I.binop(_i().ast.Add(), out, src[pos:m.start()], st), I.call(args[0], [im.MatchV(m)], {}, st), st)
            pos = m.end()
        return I.binop(_i().ast.Add(), out, src[pos:], st)
    if name == "finditer":
        try: return I.mklist(st, [im.MatchV(m) for m in o.p.finditer(*[rearg(I, x, st) for x in args])])
        except TypeError as e: I.raise_(st, "TypeError", "regular expression")
    if name not in ("match", "search", "findall", "split", "sub", "subn", "fullmatch"): raise Unsupported("pattern." + name)
    return _redo(I, getattr(o.p, name), args, kw, st)
def b_re_compile(I, a, kw, st):
    import re
    if isinstance(a[0], _i().PatV): return a[0]
    return _redo(I, re.compile, a, kw, st)
def _remod(name):
    def f(I, a, kw, st):
        flags = kw.pop("flags", None)
        n = 3 if name in ("sub", "subn") else 2
        if flags is None and len(a) > n: a, flags = a[:n], a[-1]
        return remethod(I, b_re_compile(I, a[:1] + ([flags] if flags is not None else []), {}, st), name, a[1:], kw, st)
    return f
for _n in ("match", "search", "finditer", "findall", "split", "sub", "subn", "fullmatch"): globals()["b_re_" + _n] = _remod(_n)
def b_re_escape(I, a, kw, st):
    import re
    return _redo(I, re.escape, a, kw, st)

def instdict(I, o, name, args, kw, st):
    im = _i()
    c = I.cell(st, o.ref.id)
    if name == "update":
        for a in args:
            if isinstance(a, im.InstDict):
                for k, v in I.cell(st, a.ref.id).f.items(): I.setattr(o.ref, k, v, st)
            else:
                d = I.cell(st, a.id)
                for k, v in d.d.values(): I.setattr(o.ref, k, v, st)
        for k, v in kw.items(): I.setattr(o.ref, k, v, st)
        return None
    if name == "copy": return I.mkdict(st, {("k", k): (k, v) for k, v in c.f.items()})
    if name == "items": return tuple((k, v) for k, v in c.f.items())
    if name == "keys": return tuple(c.f)
    if name == "get": return c.f.get(args[0], args[1] if len(args) > 1 else None)
    raise Unsupported("__dict__." + name)

def seqmethod(I, o, name, args, kw, st):
    if name == "index":
        def go(i, s):
            if i == len(o): I.raise_(s, "ValueError", "not in list")
            c = bor(I.is_(o[i], args[0], s), I.truth(I.equal(o[i], args[0], s), s))
            return I.branch(c, s, lambda s: num(i), lambda s: go(i+1, s))
        return go(0, st)
    if name == "count":
        n = ZERO
        for x in o: n = T.add(n, tonum(I.truth(I.equal(x, args[0], st), st)))
        return n
    raise Unsupported("tuple method " + name)

def listmethod(I, o, c, name, args, kw, st):
    im = _i()
    def put(items): st.heap[o.id] = im.Seq(tuple(items))
    if name == "tobytes": return b_bytes(I, [c.c], {}, st)
    if name == "append":
        put(c.c + (args[0],)); return None
    if name == "extend":
        if isinstance(args[0], G):
            return I.dist(args[0], st, lambda x, s: listmethod(I, o, I.cell(s, o.id), "extend", [x], kw, s))
        put(c.c + tuple(I.iterate(args[0], st))); return None
    if name == "insert":
        l = list(c.c); k = I.intconst(args[0])
        if k is None:
            if isinstance(args[0], (str, bytes, tuple, type(None))): I.raise_(st, "TypeError", "insert index")
            raise Unsupported("insert index")
        l.insert(k, args[1]); put(l); return None
    if name == "pop":
        l = list(c.c)
        if not l: I.raise_(st, "IndexError", "pop from empty list")
        k = I.intconst(args[0]) if args else -1
        if k is None: raise Unsupported("pop index")
        if not -len(l) <= k < len(l): I.raise_(st, "IndexError", "pop index")
        v = l.pop(k); put(l); return v
    if name in ("index", "count"): return seqmethod(I, c.c, name, args, kw, st)
    if name == "remove":
        k = seqmethod(I, c.c, "index", args, kw, st)
        def rm(k, s):
            i = I.intconst(k)
            if i is None: raise Unsupported("symbolic remove")
            l = list(I.cell(s, o.id).c); del l[i]; s.heap[o.id] = im.Seq(tuple(l))
        if I.intconst(k) is None:
            # split on each position
            def go(i, s):
                if i == len(c.c): raise im.Dead()
                cd = bor(I.is_(c.c[i], args[0], s), I.truth(I.equal(c.c[i], args[0], s), s))
                return I.branch(cd, s, lambda s: rm(num(i), s), lambda s: go(i+1, s))
            return go(0, st)
        rm(k, st); return None
    if name == "sort":
        rev = I.truth(kw.get("reverse", False), st)
        put(ssort(I, c.c, st, kw.get("key"), rev is True)); return None
    if name == "reverse": put(c.c[::-1]); return None
    if name == "copy": return I.mklist(st, c.c)
    if name == "clear": put(()); return None
    if name == "__len__": return num(len(c.c))
    if name == "__getitem__": return I.getitem(o, args[0], st)
    if name == "__contains__": return I.contains(o, args[0], st)
    if name == "__iter__": return b_iter(I, [o], {}, st)
    if name == "__add__": return I.mklist(st, c.c + tuple(I.iterate(args[0], st)))
    I.raise_(st, "AttributeError", "list." + name)

def dictmethod(I, o, c, name, args, kw, st):
    im = _i()
    if name == "get":
        k = I.key(args[0])
        d = args[1] if len(args) > 1 else None
        if isinstance(args[0], G): return I.dist(args[0], st, lambda x, s: dictmethod(I, o, I.cell(s, o.id), name, [x] + args[1:], kw, s))
        if k in c.d:
            v = c.d[k][1]
            def f(v):
                if v is MISSING: return d
                if isinstance(v, G) and I.contains_missing(v): return gamma(v.c, f(v.a), f(v.b))
                return v
            return f(v)
        if I.keysymbolic(k):
            h = I.contains(o, args[0], st)
            return I.branch(h, st, lambda s: I.getitem(o, args[0], s), lambda s: d)
        return d
    if name == "keys": return tuple(I.iterate(o, st))
    if name in ("values", "items"):
        I.iterate(o, st)
        return tuple(v for k, v in c.d.values()) if name == "values" else tuple((k, v) for k, v in c.d.values())
    if name == "update":
        for a in args:
            if isinstance(a, G):
                I.dist(a, st, lambda x, s: dictmethod(I, o, I.cell(s, o.id), "update", [x], {}, s)); continue
            if isinstance(a, im.InstDict):
                for k, v in I.cell(st, a.ref.id).f.items(): I.setitem(o, k, v, st)
                continue
            ac = I.cell(st, a.id) if isinstance(a, Ref) else None
            if isinstance(ac, im.DictC):
                for k, v in ac.d.values(): I.setitem(o, k, v, st)
            else:
                for kv in I.iterate(a, st):
                    k, v = I.iterate(kv, st); I.setitem(o, k, v, st)
        for k, v in kw.items(): I.setitem(o, k, v, st)
        return None
    if name == "setdefault":
        h = I.contains(o, args[0], st)
        d = args[1] if len(args) > 1 else None
        def no(s):
            I.setitem(o, args[0], d, s); return d
        return I.branch(h, st, lambda s: I.getitem(o, args[0], s), no)
    if name == "pop":
        h = I.contains(o, args[0], st)
        def yes(s):
            v = I.getitem(o, args[0], s); I.delitem(o, args[0], s); return v
        def no(s):
            if len(args) > 1: return args[1]
            I.raise_(s, "KeyError")
        return I.branch(h, st, yes, no)
    if name == "copy": return I.alloc(st, c)
    if name == "clear": st.heap[o.id] = im.DictC({}); return None
    if name == "__contains__": return I.contains(o, args[0], st)
    if name == "__getitem__": return I.getitem(o, args[0], st)
    if name == "__setitem__": return I.setitem(o, args[0], args[1], st)
    if name == "__iter__": return b_iter(I, [o], {}, st)
    raise Unsupported("dict." + name)

def setmethod(I, o, c, name, args, kw, st):
    im = _i()
    if name == "add":
        d = dict(c.d); d.setdefault(I.key(args[0]), args[0]); st.heap[o.id] = im.SetC(d); return None
    if name in ("update",):
        d = dict(c.d)
        for a in args:
            for x in I.iterate(a, st): d.setdefault(I.key(x), x)
        st.heap[o.id] = im.SetC(d); return None
    if name in ("discard", "remove"):
        d = dict(c.d)
        if I.key(args[0]) not in d and name == "remove": I.raise_(st, "KeyError")
        d.pop(I.key(args[0]), None); st.heap[o.id] = im.SetC(d); return None
    if name == "copy": return I.alloc(st, c)
    if name == "pop":
        if not c.d: I.raise_(st, "KeyError")
        d = dict(c.d); x = I.setitems(c)[0]
        del d[I.key(x)]; st.heap[o.id] = im.SetC(d); return x
    if name == "clear": st.heap[o.id] = im.SetC({}); return None
    if name == "union":
        d = dict(c.d)
        for a in args:
            for x in I.iterate(a, st): d.setdefault(I.key(x), x)
        return I.alloc(st, im.SetC(d))
    raise Unsupported("set." + name)

def filemethod(I, o, c, name, args, kw, st):
    im = _i()
    if name == "write":
        v = args[0]
        byt = isinstance(c.s, bytes) or (isinstance(c.s, S) and c.s.byt)
        if isinstance(v, G):
            return I.dist(v, st, lambda x, s: filemethod(I, o, I.cell(s, o.id), "write", [x], kw, s))
        if isinstance(v, str) and byt or isinstance(v, bytes) and not byt:
            I.raise_(st, "TypeError", "write of %s to %s file" % (type(v).__name__, "binary" if byt else "text"))
        if isinstance(v, S) and v.byt != byt and any(isinstance(p, (str, bytes)) for p in v.parts):
            I.raise_(st, "TypeError", "write of text/bytes to the wrong kind of file")
        if v is None or isinstance(v, (N, tuple, bool)): I.raise_(st, "TypeError", "write of no string")
        if not isinstance(v, (str, bytes, S)): v = S((v,), byt)
        st.heap[o.id] = im.FileC(sconcat(c.s, v), c.pos, c.flags)
        return ZERO
    if name in ("read", "readline"):
        data = c.s
        if not isinstance(data, (bytes, str, S)): return opaque("read", data)
        if isinstance(data, (bytes, str)):
            bl = list(data) if isinstance(data, str) else [bytes([b]) for b in data]
        else:
            bl = []
            for p in data.parts:
                if isinstance(p, str): bl.extend(p)
                elif isinstance(p, bytes): bl.extend(bytes([b]) for b in p)
                elif isinstance(p, tuple) and p[0] == "chr": bl.append(p)
                else: raise Unsupported("read of symbolic length")
        if name == "readline": raise Unsupported("readline")
        n = I.intconst(args[0]) if args and args[0] is not None else None
        if args and args[0] is not None and n is None: raise Unsupported("read of symbolic size")
        part = bl[c.pos:] if n is None or n < 0 else bl[c.pos:c.pos+n]
        st.heap[o.id] = im.FileC(c.s, c.pos+len(part), c.flags)
        return sconcat(b"" if isinstance(data, bytes) or isinstance(data, S) and data.byt else "", *part)
    if name == "tell":
        if c.pos: return num(c.pos)
        return b_len(I, [c.s], {}, st)
    if name == "getvalue": return c.s
    if name == "seek":
        k = I.intconst(args[0])
        if k is None: raise Unsupported("seek")
        if len(args) > 1:
            w = I.intconst(args[1])
            if w == 1: k += c.pos
            elif w == 2: k += I.intconst(b_len(I, [c.s], {}, st))
        st.heap[o.id] = im.FileC(c.s, k, c.flags); return num(k)
    if name in ("close", "flush"): return None
    if name in ("__enter__",): return o
    if name in ("__exit__",): return None
    raise Unsupported("file." + name)

def strmethod(I, o, name, args, kw, st):
    im = _i()
    args = list(args)
    if any(isinstance(a, G) for a in args):
        j = next(i for i, a in enumerate(args) if isinstance(a, G))
        return I.dist(args[j], st, lambda x, s: strmethod(I, o, name, args[:j] + [x] + args[j+1:], kw, s))
    if name == "join":
        items = I.iterate(args[0], st)
        out = []
        byt = isinstance(o, bytes) or isinstance(o, S) and o.byt
        for i, x in enumerate(items):
            if i: out.append(o)
            if isinstance(x, (N, tuple)) or x is None: I.raise_(st, "TypeError", "join of no string")
            if isinstance(x, bytes) and not byt or isinstance(x, str) and byt: I.raise_(st, "TypeError", "join bytes/str")
            out.append(x)
        return sconcat(b"" if byt else "", *out)
    if name == "format":
        if isinstance(o, S): raise Unsupported("symbolic format")
        import string
        parts = []; auto = 0
        for lit, field, spec, conv in string.Formatter().parse(o):
            parts.append(lit)
            if field is None: continue
            head = field.replace("[", ".").split(".")[0]
            if head == "":
                k = auto; auto += 1
            elif head.isdigit(): k = int(head)
            else: k = head
            if isinstance(k, int):
                if k >= len(args): I.raise_(st, "IndexError", "format index")
                v = args[k]
            else:
                if k not in kw: I.raise_(st, "KeyError", "format key " + k)
                v = kw[k]
            rest = field[len(head):]
            if rest:
                for p in rest.replace("]", "").replace("[", ".").split(".")[1:]:
                    v = I.getattr(v, p, st)
            if conv == "r": parts.append(I.fmt("!r", v, st))
            elif spec: parts.append(I.fmt("{:%s}" % spec, v, st))
            else: parts.append(I.fmt("!s", v, st))
        return sconcat("", *parts)
    if isinstance(o, (str, bytes)) and all(isinstance(a, (str, bytes, bool, N, tuple, type(None))) for a in args) and all(isinstance(v, (str, bytes, bool)) for v in kw.values()):
        ca = []
        for a in args:
            if isinstance(a, N):
                k = I.intconst(a)
                if k is None: break
                ca.append(k)
            elif isinstance(a, tuple) and not all(isinstance(x, (str, bytes)) for x in a): break
            else: ca.append(a)
        else:
            if not hasattr(o, name): I.raise_(st, "AttributeError", "%s.%s" % (type(o).__name__, name))
            try: r = getattr(o, name)(*ca, **kw)
            except (TypeError, ValueError, LookupError, UnicodeError) as e:
                I.raise_(st, type(e).__name__ if type(e).__name__ in I.excs else "ValueError", str(e))
            if isinstance(r, list): return I.mklist(st, r)
            if isinstance(r, bool): return r
            if isinstance(r, int): return num(r)
            return r
    if isinstance(o, S):
        if not hasattr(b"" if o.byt else "", name): I.raise_(st, "AttributeError", "str.%s" % name)
        if name == "encode" and not o.byt:
            return S(tuple(p.encode("utf-8") if isinstance(p, str) else p for p in o.parts), True)
        if name == "decode" and o.byt:
            return S(tuple(p.decode("latin-1") if isinstance(p, bytes) else p for p in o.parts), False)
        if name == "replace" and all(isinstance(x, (str, bytes)) for x in args) and len(args) == 2 and args[0] and not any(ch in "0123456789+-.eExnaif" for ch in (args[0] if isinstance(args[0], str) else args[0].decode("latin-1"))):
            if len(args[0]) == 1 and all(isinstance(p, (str, bytes)) or numeric(p) for p in o.parts):
                return sconcat(*[p.replace(*args) if isinstance(p, (str, bytes)) else p for p in o.parts])
        if name == "startswith" and isinstance(o.parts[0], (str, bytes)) and isinstance(args[0], type(o.parts[0])):
            if len(o.parts[0]) >= len(args[0]): return o.parts[0].startswith(args[0])
        if name == "endswith" and isinstance(o.parts[-1], (str, bytes)) and isinstance(args[0], type(o.parts[-1])):
            if len(o.parts[-1]) >= len(args[0]): return o.parts[-1].endswith(args[0])
    if name in ("startswith", "endswith", "isdigit"):
        return T.bterm("app", name, o, *[I.freeze(a, st) for a in args])
    return opaque("str." + name, o, *I.freezeargs(args, kw, st))

def b_functools_wraps(I, a, kw, st): return _i().Builtin("identity")
def b_identity(I, a, kw, st): return a[0]
