"""Value graph: hash-consed terms, numeric normal forms, random interpretation.

N      numeric value: sum of coeff * product(atom**exp), atoms are hash-consed (op, args)
B      boolean value that is not constant
G      gated value: G(cond, a, b)  (gamma node at a control flow join) for non-numeric values
S      text/bytes value with symbolic parts
X      opaque (uninterpreted) value
tuples, str, bytes, None, True, False stand for themselves; Ref points into the abstract heap
"""
import re
from fractions import Fraction
import math, hashlib

class Unsupported(Exception):
    pass

_ids = {}
_byid = []

class Atom:
    __slots__ = ("op", "args", "id")
    def __repr__(self):
        return show_atom(self)

def atom(op, *args):
    k = (op,) + args
    a = _ids.get(k)
    if a is None:
        a = Atom(); a.op = op; a.args = args; a.id = len(_byid)
        _ids[k] = a; _byid.append(a)
    return a

class N:
    __slots__ = ("t", "_h")
    def __init__(self, t):
        self.t = t
        self._h = None
    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h
    def __eq__(self, o):
        return self is o or (isinstance(o, N) and self.t == o.t)
    def const(self):
        if not self.t: return Fraction(0)
        if len(self.t) == 1 and () in self.t: return self.t[()]
        return None
    def __repr__(self):
        return show(self)

def num(c):
    if isinstance(c, float):
        if c != c or c in (float("inf"), float("-inf")):
            return N({((atom("const", repr(c)).id, 1),): Fraction(1)})
        c = Fraction(repr(c))
    else:
        c = Fraction(c)
    return N({(): c}) if c else N({})
ZERO, ONE = num(0), num(1)

def natom(op, *args):
    return N({((atom(op, *args).id, 1),): Fraction(1)})

def sym(name):
    return natom("sym", name)

LIMIT = 4000

def add(a, b, f=1):
    t = dict(a.t)
    for m, c in b.t.items():
        v = t.get(m, 0) + f*c
        if v: t[m] = v
        else: t.pop(m, None)
    return N(t)

def neg(a): return N({m: -c for m, c in a.t.items()})
def sub(a, b): return add(a, b, -1)

def _mulmono(m1, m2):
    d = dict(m1)
    for i, e in m2:
        v = d.get(i, 0) + e
        if v: d[i] = v
        else: d.pop(i, None)
    return d

def mul(a, b):
    ca, cb = a.const(), b.const()
    if ca is not None:
        return N({m: ca*c for m, c in b.t.items()}) if ca else ZERO
    if cb is not None:
        return N({m: cb*c for m, c in a.t.items()}) if cb else ZERO
    if len(a.t)*len(b.t) > LIMIT:
        return natom("mul", *sorted((a, b), key=hash))
    res = {}
    extra = []
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            d = _mulmono(m1, m2)
            red = None
            for i, e in d.items():
                if e > 1 or e < -1:
                    at = _byid[i]
                    if at.op == "sqrt":
                        red = red or []
                        red.append((i, e))
                elif e and _byid[i].op == "inv":
                    pass
            if red:
                f = N({(): c1*c2})
                for i, e in red:
                    q, r = divmod(abs(e), 2)
                    base = power(_byid[i].args[0], q if e > 0 else -q)
                    f = mul(f, base)
                    if r: d[i] = 1 if e > 0 else -1
                    else: del d[i]
                extra.append(mul(f, N({tuple(sorted(d.items())): Fraction(1)})))
                continue
            m = tuple(sorted(d.items()))
            v = res.get(m, 0) + c1*c2
            if v: res[m] = v
            else: res.pop(m, None)
    r = N(res)
    for e in extra: r = add(r, e)
    return r

class DivZero(Exception):
    pass

def _primitive(p):
    """split p into coeff * monomial * normalised polynomial"""
    # gcd monomial
    monos = list(p.t)
    common = dict(monos[0])
    for m in monos[1:]:
        d = dict(m)
        for i in list(common):
            if i not in d: del common[i]
            elif (d[i] > 0) == (common[i] > 0): common[i] = min(common[i], d[i], key=abs)
            else: del common[i]
    lead = p.t[min(monos)]
    inv = {i: -e for i, e in common.items()}
    q = {}
    for m, c in p.t.items():
        q[tuple(sorted(_mulmono(m, inv.items()).items()))] = c/lead
    return lead, tuple(sorted(common.items())), N(q)

def inverse(p):
    c = p.const()
    if c is not None:
        if not c: raise DivZero()
        return N({(): 1/c})
    if len(p.t) == 1:
        (m, c), = p.t.items()
        r = N({(): 1/c})
        for i, e in m:
            at = _byid[i]
            if at.op == "inv" and e > 0:
                r = mul(r, power(at.args[0], e))
            else:
                r = mul(r, N({((i, -e),): Fraction(1)}))
        return r
    lead, mono, q = _primitive(p)
    r = natom("inv", q)
    if mono: r = mul(r, N({tuple((i, -e) for i, e in mono): Fraction(1)}))
    return mul(r, N({(): 1/lead}))

def div(a, b):
    if len(b.t) > 1:
        # exact cancellation of a common polynomial factor
        la, ma, qa = _primitive(a) if a.t else (None, None, None)
        lb, mb, qb = _primitive(b)
        if la is not None and qa == qb:
            return mul(N({ma: la/lb}), N({tuple((i, -e) for i, e in mb): Fraction(1)}))
    return mul(a, inverse(b))

def power(a, e):
    if isinstance(e, N):
        ce = e.const()
        if ce is None: return natom("pow", a, e)
        e = ce
    e = Fraction(e)
    if e.denominator == 1:
        e = int(e)
        if abs(e) > 40: return natom("pow", a, num(e))
        if e < 0: return power(inverse(a), -e)
        r = ONE
        for _ in range(e): r = mul(r, a)
        return r
    if e == Fraction(1, 2): return sqrt(a)
    if e == Fraction(-1, 2): return inverse(sqrt(a))
    if e.denominator == 2 and abs(e) < 10:
        n = e - Fraction(1, 2)
        return mul(power(a, n), sqrt(a))
    return natom("pow", a, num(e))

def sqrt(a):
    c = a.const()
    if c is not None and c >= 0:
        n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if n*n == c.numerator and d*d == c.denominator:
            return num(Fraction(n, d))
    return natom("sqrt", a)

def func(name, *args):
    """numeric intrinsic"""
    cs = [a.const() for a in args]
    if name == "sqrt": return sqrt(args[0])
    if name == "abs":
        if cs[0] is not None: return num(abs(cs[0]))
        a = args[0]
        if a.t[min(a.t)] < 0: a = neg(a)
        return natom("abs", a)
    if name in ("sin", "tan", "cos", "atan", "asin"):
        if cs[0] == 0: return ONE if name == "cos" else ZERO
        a = args[0]
        if a.t and a.t[min(a.t)] < 0:
            r = natom(name, neg(a))
            return r if name == "cos" else neg(r)
        return natom(name, a)
    if name in ("min", "max"):
        flat = []
        for a in args:
            if len(a.t) == 1:
                (m, c), = a.t.items()
                if c == 1 and len(m) == 1 and m[0][1] == 1 and _byid[m[0][0]].op == name:
                    flat.extend(_byid[m[0][0]].args); continue
            flat.append(a)
        best = None; rest = []
        for a in flat:
            c = a.const()
            if c is not None:
                best = c if best is None else (min if name == "min" else max)(best, c)
            elif a not in rest: rest.append(a)
        if best is not None: rest.append(num(best))
        if len(rest) == 1: return rest[0]
        return natom(name, *sorted(rest, key=lambda x: (hash(x), repr(x))))
    if name in ("floor", "trunc", "ceil") and cs[0] is None:
        c = closedvalue(args[0])
        if c is not None and abs(c-round(c)) > 1e-7: return num(getattr(math, name)(c))
    if name == "floor" and cs[0] is not None: return num(math.floor(cs[0]))
    if name == "ceil" and cs[0] is not None: return num(math.ceil(cs[0]))
    if name == "trunc" and cs[0] is not None: return num(math.trunc(cs[0]))
    if name == "round" and len(cs) == 1 and cs[0] is not None: return num(round(cs[0]))
    if name in ("mod", "floordiv") and None not in cs:
        if cs[1] == 0: raise DivZero()
        return num(cs[0] % cs[1] if name == "mod" else cs[0] // cs[1])
    if name in ("band", "bor", "bxor", "lshift", "rshift") and None not in cs and all(c.denominator == 1 for c in cs):
        a, b = map(int, cs)
        return num({"band": lambda: a & b, "bor": lambda: a | b, "bxor": lambda: a ^ b,
                    "lshift": lambda: a << b, "rshift": lambda: a >> b}[name]())
    if name == "bxor":
        flat = []
        for a in args:
            if len(a.t) == 1:
                (m, c), = a.t.items()
                if c == 1 and len(m) == 1 and m[0][1] == 1 and _byid[m[0][0]].op == "bxor":
                    flat.extend(_byid[m[0][0]].args); continue
            flat.append(a)
        rest = []; k = 0
        for a in flat:
            c = a.const()
            if c is not None and c.denominator == 1: k ^= int(c)
            elif a in rest: rest.remove(a)
            else: rest.append(a)
        if k: rest.append(num(k))
        if not rest: return ZERO
        if len(rest) == 1: return rest[0]
        return natom(name, *sorted(rest, key=lambda x: (hash(x), repr(x))))
    if name == "lshift" and cs[1] is not None: return mul(args[0], num(1 << int(cs[1])))
    if name == "rshift" and cs[1] is not None: return func("floordiv", args[0], num(1 << int(cs[1])))
    if name == "log" and cs[0] == 1: return ZERO
    if name == "exp" and cs[0] == 0: return ONE
    if name == "log" and cs[0] is not None and cs[0] <= 0: raise DivZero()
    if name == "floordiv" and cs[1] == 1: return func("floor", args[0])
    return natom(name, *args)

# --- booleans -------------------------------------------------------------------------------

class B:
    __slots__ = ("op", "args", "_h")
    tab = {}
    def __repr__(self): return show(self)

def bterm(op, *args):
    k = (op,) + args
    b = B.tab.get(k)
    if b is None:
        b = B(); b.op = op; b.args = args; B.tab[k] = b
    return b

def _norm(p):
    """p scaled by a positive constant"""
    lead = abs(p.t[min(p.t)])
    return N({m: c/lead for m, c in p.t.items()})

def closedvalue(p):
    """numerical value of a term without symbols (None if it has any)"""
    if len(p.t) > 12: return None
    if any(i not in _closed and not _isclosed(_byid[i]) for m in p.t for i, e in m): return None
    try: v = float(Eval({}).ev(p))
    except Exception: return None
    return v if abs(v) < 1e12 else None
_closed = set()
_notclosed = set()
def _isclosed(a):
    if a.id in _closed: return True
    if a.id in _notclosed: return False
    ok = a.op in ("const", "sqrt", "sin", "cos", "exp", "log", "inv", "pow", "tan", "asin", "acos", "atan", "atan2", "abs") and all(
        isinstance(x, (str, float, int, Fraction)) if not isinstance(x, N) else all(_isclosed(_byid[i]) for m in x.t for i, e in m) for x in a.args)
    (_closed if ok else _notclosed).add(a.id)
    return ok

def lt(a, b):
    p = sub(a, b)
    c = p.const()
    if c is not None: return c < 0
    c = closedvalue(p)
    if c is not None and abs(c) > 1e-9: return c < 0
    return bterm("lt", _norm(p))

def identity(a):
    "the object whose id() the number is, or None"
    if len(a.t) == 1:
        (m, c), = a.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            at = _byid[m[0][0]]
            if at.op == "app" and at.args[0] == "id" and isinstance(at.args[1], N): return at.args[1]
    return None

def eqn(a, b):
    p = sub(a, b)
    c = p.const()
    if c is not None: return c == 0
    # objects existing at the same time have different ids
    if identity(a) is not None and identity(b) is not None: return False
    lead = p.t[min(p.t)]
    return bterm("eq", N({m: c/lead for m, c in p.t.items()}))

def bnot(a):
    if a is True: return False
    if a is False: return True
    if isinstance(a, B) and a.op == "not": return a.args[0]
    return bterm("not", a)

def band(*xs):
    r = []
    for x in xs:
        if x is False: return False
        if x is True: continue
        for y in (x.args if isinstance(x, B) and x.op == "and" else (x,)):
            if y not in r: r.append(y)
    for y in r:
        if bnot(y) in r: return False
    if not r: return True
    if len(r) == 1: return r[0]
    return bterm("and", *r)

def bor(*xs):
    r = []
    for x in xs:
        if x is True: return True
        if x is False: continue
        for y in (x.args if isinstance(x, B) and x.op == "or" else (x,)):
            if y not in r: r.append(y)
    for y in r:
        if bnot(y) in r: return True
    if not r: return False
    if len(r) == 1: return r[0]
    return bterm("or", *r)

def bite(c, a, b):
    if c is True: return a
    if c is False: return b
    if a == b: return a
    if a is True and b is False: return c
    if a is False and b is True: return bnot(c)
    if a is True: return bor(c, b)
    if a is False: return band(bnot(c), b)
    if b is True: return bor(bnot(c), a)
    if b is False: return band(c, a)
    return bterm("bite", c, a, b)

# --- other values ---------------------------------------------------------------------------

class G:
    __slots__ = ("c", "a", "b")
    def __init__(self, c, a, b):
        self.c = c; self.a = a; self.b = b
    def __hash__(self): return hash((self.c, self.a, self.b))
    def __eq__(self, o):
        return self is o or (isinstance(o, G) and self.c == o.c and self.a == o.a and self.b == o.b)
    def __repr__(self): return show(self)

class X:
    """opaque value"""
    __slots__ = ("op", "args", "_h")
    tab = {}
    def __repr__(self): return show(self)

def opaque(op, *args):
    k = (op,) + args
    x = X.tab.get(k)
    if x is None:
        x = X(); x.op = op; x.args = args; X.tab[k] = x
    return x

class S:
    """symbolic str (or bytes when byt)"""
    __slots__ = ("parts", "byt")
    def __init__(self, parts, byt=False):
        self.parts = parts; self.byt = byt
    def __hash__(self): return hash((self.parts, self.byt))
    def __eq__(self, o): return isinstance(o, S) and self.parts == o.parts and self.byt == o.byt
    def __repr__(self): return show(self)

class Ref:
    __slots__ = ("id",)
    def __init__(self, id): self.id = id
    def __hash__(self): return hash(("ref", self.id))
    def __eq__(self, o): return isinstance(o, Ref) and o.id == self.id
    def __repr__(self): return "<obj %d>" % self.id

class Missing:
    """unbound local / absent attribute on one side of a join"""
    def __repr__(self): return "<unbound>"
MISSING = Missing()

def sconcat(*vals):
    parts = []
    byt = False
    def put(p):
        nonlocal byt
        if isinstance(p, S):
            byt = byt or p.byt
            for q in p.parts: put(q)
        elif isinstance(p, (str, bytes)):
            byt = byt or isinstance(p, bytes)
            if p:
                if parts and type(parts[-1]) is type(p): parts[-1] = parts[-1] + p
                else: parts.append(p)
        else:
            parts.append(p)
    for v in vals: put(v)
    if not parts: return b"" if byt else ""
    if len(parts) == 1 and isinstance(parts[0], (str, bytes)): return parts[0]
    return S(tuple(parts), byt)

def isnum(v): return isinstance(v, N)

def tonum(v):
    if isinstance(v, N): return v
    if v is True: return ONE
    if v is False: return ZERO
    if isinstance(v, X): return natom("x", v)
    if isinstance(v, B): return natom("ite", v, ONE, ZERO)
    if isinstance(v, G): return gamma(v.c, tonum(v.a), tonum(v.b))
    raise TypeError("not numeric: %r" % (v,))

def isbool(v): return v is True or v is False or isinstance(v, B)

def gamma(c, a, b):
    if c is True: return a
    if c is False: return b
    if a is b: return a
    if type(a) is type(b) and not isinstance(a, (tuple,)) and a == b: return a
    if isinstance(a, N) and isinstance(b, N):
        if a == b: return a
        if isinstance(c, B) and c.op == "not": return natom("ite", c.args[0], b, a)
        return natom("ite", c, a, b)
    if isbool(a) and isbool(b): return bite(c, a, b)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and type(a) is type(b):
        if a == b: return a
        return tuple(gamma(c, x, y) for x, y in zip(a, b))
    if isinstance(c, B) and c.op == "not": return gamma(c.args[0], b, a)
    if isinstance(a, G) and a.c == c: a = a.a
    if isinstance(b, G) and b.c == c: b = b.b
    if type(a) is type(b) and a == b: return a
    return G(c, a, b)

def has_opaque(v, memo=None):
    """does the term contain an opaque part (other than free symbols)?"""
    if memo is None: memo = {}
    def w(v):
        k = id(v)
        if k in memo: return memo[k]
        memo[k] = False
        r = False
        if isinstance(v, N):
            r = any(w(_byid[i]) for m in v.t for i, e in m)
        elif isinstance(v, Atom):
            r = v.op == "x" or any(w(a) for a in v.args)
        elif isinstance(v, X): r = v.op not in ("tagged", "symv") or any(w(a) for a in v.args)
        elif isinstance(v, B): r = any(w(a) for a in v.args)
        elif isinstance(v, G): r = w(v.c) or w(v.a) or w(v.b)
        elif isinstance(v, S): r = any(w(a) for a in v.parts)
        elif isinstance(v, tuple): r = any(w(a) for a in v)
        memo[k] = r
        return r
    return w(v)

# --- printing --------------------------------------------------------------------------------

def show_atom(a, depth=4):
    if a.op == "sym": return a.args[0]
    if a.op == "const": return a.args[0]
    if depth <= 0: return "..."
    return "%s(%s)" % (a.op, ", ".join(show(x, depth-1) for x in a.args))

def show(v, depth=4):
    if depth <= 0: return "..."
    if isinstance(v, N):
        if not v.t: return "0"
        out = []
        for m, c in list(sorted(v.t.items()))[:12]:
            f = [show_atom(_byid[i], depth) + ("" if e == 1 else "^%d" % e) for i, e in m]
            if c == 1 and f: s = "*".join(f)
            elif c == -1 and f: s = "-" + "*".join(f)
            else:
                cs = str(c) if len(str(c)) < 12 else "%.6g" % float(c)
                s = "*".join([cs] + f)
            out.append(s)
        if len(v.t) > 12: out.append("...")
        return " + ".join(out).replace("+ -", "- ")
    if isinstance(v, B):
        if v.op == "lt": return "[%s < 0]" % show(v.args[0], depth-1)
        if v.op == "eq": return "[%s = 0]" % show(v.args[0], depth-1)
        return "%s(%s)" % (v.op, ", ".join(show(x, depth-1) for x in v.args))
    if isinstance(v, G): return "(%s ? %s : %s)" % (show(v.c, depth-1), show(v.a, depth-1), show(v.b, depth-1))
    if isinstance(v, X): return "%s(%s)" % (v.op, ", ".join(show(x, depth-1) for x in v.args))
    if isinstance(v, S): return "+".join(show(p, depth-1) for p in v.parts)
    if isinstance(v, Atom): return show_atom(v, depth)
    if type(v) is tuple: return "(%s)" % ", ".join(show(x, depth-1) for x in v[:12])
    s = repr(v)
    return s if len(s) < 80 else s[:77] + "..."

# --- random interpretation ---------------------------------------------------------------------

class Undefined(Exception):
    """the term has no value at this valuation"""

class NeedSym(Exception):
    pass

def _hashnum(*key):
    h = hashlib.sha256(repr(key).encode()).digest()
    return Fraction(int.from_bytes(h[:4], "big") % 20001 - 10000, 997)

def rnd(x):
    if isinstance(x, Fraction): x = float(x)
    if isinstance(x, float):
        if x == 0 or x != x: return 0.0
        return float("%.6g" % x) if abs(x) > 1e-9 else 0.0
    if isinstance(x, (tuple, list)): return tuple(rnd(y) for y in x)
    return x

def _isq(x):
    if isinstance(x, Fraction) and x >= 0:
        n, d = math.isqrt(x.numerator), math.isqrt(x.denominator)
        if n*n == x.numerator and d*d == x.denominator: return Fraction(n, d)
    if x < 0:
        if x > -1e-9: return 0.0
        raise Undefined("sqrt of negative")
    return math.sqrt(x)

class Eval:
    """evaluates terms at one valuation (symbol name -> Fraction)"""
    def __init__(self, valuation, heap=None, objrepr=None, strict=False):
        self.val = valuation
        self.strict = strict    # inexact numbers have no value
        self.memo = {}
        self.keep = []
        self.objrepr = objrepr

    def atom(self, a):
        k = a.id
        if k in self.memo:
            r = self.memo[k]
            if isinstance(r, Undefined): raise r
            return r
        try:
            r = self._atom(a)
            if self.strict and isinstance(r, float): raise Undefined("inexact")
            if isinstance(r, float) and (math.isinf(r) or math.isnan(r)) and a.op != "const":
                raise Undefined("overflow")
        except Undefined as e:
            self.memo[k] = e
            raise
        except (OverflowError, ValueError, ZeroDivisionError) as e:
            u = Undefined(str(e)); self.memo[k] = u
            raise u
        self.memo[k] = r
        return r

    def _atom(self, a):
        op = a.op
        if op == "sym":
            try: return self.val[a.args[0]]
            except KeyError: raise NeedSym(a.args[0])
        if op == "const":
            return {"pi": math.pi, "e": math.e}.get(a.args[0]) or float(a.args[0])
        if op == "ite":
            return self.ev(a.args[1] if self.ev(a.args[0]) else a.args[2])
        if op == "x":
            r = self.ev(a.args[0])
            if isinstance(r, (Fraction, float)): return r
            return _hashnum(rnd(r))
        args = [self.ev(x) for x in a.args]
        if op == "inv":
            if args[0] == 0: raise Undefined("division by zero")
            return 1/args[0]
        if op == "mul": return args[0]*args[1]
        if op == "pow":
            if isinstance(args[1], Fraction) and args[1].denominator == 1 and abs(args[1]) < 200:
                if args[0] == 0 and args[1] < 0: raise Undefined("division by zero")
                return args[0]**int(args[1])
            if args[0] < 0: raise Undefined("power of negative")
            return float(args[0])**float(args[1])
        if op == "sqrt": return _isq(args[0])
        if op == "abs": return abs(args[0])
        if op == "min": return min(args)
        if op == "max": return max(args)
        if self.strict and op in ("floor", "ceil", "trunc", "round", "mod", "floordiv") and any(isinstance(x, float) for x in args): raise Undefined("close")
        if op in ("floor", "ceil", "trunc"): return Fraction(getattr(math, op)(args[0]))
        if op == "round": return Fraction(round(args[0])) if len(args) == 1 else Fraction(round(args[0], int(args[1])))
        if op == "mod": return args[0] % args[1]
        if op == "floordiv": return Fraction(args[0] // args[1])
        if op in ("band", "bor", "bxor", "lshift", "rshift"):
            if any(isinstance(x, float) or x.denominator != 1 for x in args): raise Undefined("bit operation")
            if op == "bxor":
                x = 0
                for y in args: x ^= int(y)
                return Fraction(x)
            x, y = int(args[0]), int(args[1])
            if op in ("lshift", "rshift") and not 0 <= y < 500: raise Undefined("shift")
            return Fraction({"band": lambda: x & y, "bor": lambda: x | y, "bxor": lambda: x ^ y,
                             "lshift": lambda: x << y, "rshift": lambda: x >> y}[op]())
        if op in ("sin", "cos", "tan", "atan", "asin", "acos", "exp", "log", "atan2", "log10", "sinh", "cosh", "tanh", "hypot",
                  "radians", "degrees"):
            return getattr(math, op)(*[float(x) for x in args])
        if op == "app":
            return _hashnum(tuple(rnd(x) for x in args))
        raise Unsupported("eval " + op)

    def ev(self, v):
        if isinstance(v, N):
            k = ("n", id(v))
            if k in self.memo:
                r = self.memo[k]
                if isinstance(r, Undefined): raise r
                return r
            self.keep.append(v)
            s = Fraction(0)
            try:
                for m, c in v.t.items():
                    p = c
                    for i, e in m:
                        x = self.atom(_byid[i])
                        if e < 0 and x == 0: raise Undefined("division by zero")
                        p = p * x**e
                    s = s + p
                if isinstance(s, Fraction) and s.denominator.bit_length() > 800:
                    s = float(s)
            except OverflowError as e:
                u = Undefined("overflow"); self.memo[k] = u
                raise u
            except Undefined as e:
                self.memo[k] = e
                raise
            self.memo[k] = s
            return s
        if v is None or isinstance(v, (bool, str, bytes)): return v
        if isinstance(v, B):
            k = ("b", id(v))
            if k in self.memo: return self.memo[k]
            self.memo[k] = r = self._b(v)
            return r
        if isinstance(v, G):
            return self.ev(v.a if self.truth(v.c) else v.b)
        if isinstance(v, tuple):
            return ("T",) + tuple(self.ev(x) for x in v)
        if isinstance(v, S):
            out = b"" if v.byt else ""
            for p in v.parts:
                x = self.part(p)
                if isinstance(x, str) and isinstance(out, bytes): x = x.encode("latin-1", "replace")
                if isinstance(x, bytes) and isinstance(out, str): x = x.decode("latin-1")
                out += x
            return out
        if isinstance(v, X):
            if v.op == "numof": return self.ev(v.args[0])
            if v.op == "symv": return ("S", v.args[0])
            return ("X", v.op) + tuple(self.ev(x) for x in v.args)
        if isinstance(v, Atom): return self.atom(v)
        if v is MISSING: return ("missing",)
        if self.objrepr is not None:
            return self.objrepr(self, v)
        return ("V", repr(v))

    def truth(self, v):
        r = self.ev(v)
        if isinstance(r, tuple) and r and r[0] in ("X", "S"): return _hashnum(rnd(r)) > 0
        if isinstance(r, tuple) and r and r[0] in ("T", "L"): return len(r) > 1
        if isinstance(r, tuple): return True
        return bool(r)

    def part(self, p):
        if isinstance(p, (str, bytes)): return p
        if isinstance(p, tuple) and p and p[0] == "fmt":
            x = self.ev(p[2])
            spec = p[1]
            return fmt_value(spec, x)
        if isinstance(p, tuple) and p and p[0] == "chr":
            x = self.ev(p[1])
            return bytes([int(x) & 255]) if isinstance(x, (Fraction, float)) else b"?"
        if isinstance(p, tuple) and p and p[0] == "case":
            x = self.ev(p[2])
            return getattr(x, p[1])() if isinstance(x, (str, bytes)) else str(x)
        x = self.ev(p)
        if isinstance(x, (str, bytes)): return x
        if isinstance(x, Fraction): return str(int(x)) if x.denominator == 1 else repr(float(x))
        return str(rnd(x))

    def _b(self, v):
        op = v.op
        if op == "lt":
            x = self.ev(v.args[0])
            if isinstance(x, float) and self.strict and abs(x) < 1e-8: raise Undefined("close")
            if isinstance(x, float) and abs(x) < 1e-11: return False
            return x < 0
        if op == "eq":
            x = self.ev(v.args[0])
            if isinstance(x, float):
                if self.strict and abs(x) < 1e-8: raise Undefined("close")
                return abs(x) < 1e-11
            return x == 0
        if op == "not": return not self.truth(v.args[0])
        if op == "and": return all(self.truth(x) for x in v.args)
        if op == "or": return any(self.truth(x) for x in v.args)
        if op == "bite": return self.truth(v.args[1] if self.truth(v.args[0]) else v.args[2])
        if op == "eqv": return same_value(self.ev(v.args[0]), self.ev(v.args[1]))
        if op == "isv":
            a, b = self.ev(v.args[0]), self.ev(v.args[1])
            return same_value(a, b)
        if op == "truthy": return self.truth(v.args[0])
        if op == "bsym":
            try: return self.val[v.args[0]] > 0
            except KeyError: raise NeedSym(v.args[0])
        if op == "app": return _hashnum(tuple(rnd(self.ev(x)) for x in v.args)) > 0
        raise Unsupported("eval " + op)

def fmt_value(spec, x):
    if isinstance(x, tuple): x = str(rnd(x))
    if spec == "!s":
        if isinstance(x, Fraction): return str(int(x)) if x.denominator == 1 else repr(float(x))
        return str(x)
    if spec == "!r":
        if isinstance(x, Fraction): return str(int(x)) if x.denominator == 1 else repr(float(x))
        return repr(x)
    try:
        if spec.startswith("%"):
            if spec[-1] in "dioxXc" and isinstance(x, (Fraction, float)):
                if spec[-1] == "c": return chr(int(x))
                return spec % int(x)
            if spec[-1] in "sr":
                if isinstance(x, Fraction): x = int(x) if x.denominator == 1 else float(x)
                return spec % (x,)
            return spec % (float(x) if isinstance(x, Fraction) else x,)
        if spec.startswith("{"):
            if isinstance(x, Fraction): x = int(x) if (x.denominator == 1 and spec[-2:-1] not in "eEfFgG") else float(x)
            return spec.format(x)
    except (TypeError, ValueError, OverflowError):
        raise Undefined("format %r of %r" % (spec, x))
    raise Unsupported("format " + spec)

def same_value(a, b, tol=1e-7):
    if isinstance(a, bool) or isinstance(b, bool):
        if isinstance(a, (Fraction, float)) or isinstance(b, (Fraction, float)): return float(a) == float(b)
        return a is b
    if isinstance(a, (Fraction, float)) and isinstance(b, (Fraction, float)):
        if a == b: return True
        if isinstance(a, Fraction) and isinstance(b, Fraction): return False
        a, b = float(a), float(b)
        return abs(a-b) <= tol*max(1e-3, abs(a), abs(b))
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same_value(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, (str, bytes)) and type(a) is type(b) and a != b: return same_text(a, b)
    return type(a) is type(b) and a == b

_floatre = re.compile(r"[-+]?(?:\d+\.\d*|\.\d+|\d+)(?:[eE][-+]?\d+)?")
def same_text(a, b):
    """texts which differ by floating point noise in numbers only"""
    if isinstance(a, bytes): a, b = a.decode("latin1"), b.decode("latin1")
    if "." not in a and "." not in b and "e" not in a and "e" not in b: return False
    if _floatre.sub("#", a) != _floatre.sub("#", b): return False
    for x, y in zip(_floatre.findall(a), _floatre.findall(b)):
        if x == y: continue
        if "." not in x and "." not in y and "e" not in x+y: return False
        x = float(x); y = float(y)
        if abs(x-y) > 1e-9 + 1e-6*max(abs(x), abs(y)): return False
    return True

def symbols(v, acc=None, memo=None):
    if acc is None: acc = {}
    if memo is None: memo = set()
    stack = [v]
    while stack:
        v = stack.pop()
        if id(v) in memo: continue
        memo.add(id(v))
        if isinstance(v, N): stack.extend(_byid[i] for m in v.t for i, e in m)
        elif isinstance(v, Atom):
            if v.op == "sym": acc[v.args[0]] = 1
            else: stack.extend(v.args)
        elif isinstance(v, B):
            if v.op == "bsym": acc[v.args[0]] = 1
            stack.extend(v.args)
        elif isinstance(v, X): stack.extend(v.args)
        elif isinstance(v, G): stack.extend((v.c, v.a, v.b))
        elif isinstance(v, S): stack.extend(v.parts)
        elif isinstance(v, tuple): stack.extend(v)
    return acc

def comparisons(v, limit=60):
    """the comparisons lt and eq inside of terms, in a fixed order"""
    out, memo, stack = [], set(), [v]
    while stack and len(out) < limit:
        v = stack.pop()
        if id(v) in memo: continue
        memo.add(id(v))
        if isinstance(v, N): stack.extend(_byid[i] for m in sorted(v.t) for i, e in m)
        elif isinstance(v, Atom):
            if v.op != "sym": stack.extend(v.args)
        elif isinstance(v, B):
            if v.op in ("lt", "eq"): out.append(v)
            stack.extend(v.args)
        elif isinstance(v, X): stack.extend(v.args)
        elif isinstance(v, G): stack.extend((v.c, v.a, v.b))
        elif isinstance(v, S): stack.extend(v.parts)
        elif isinstance(v, tuple): stack.extend(v)
    return out
