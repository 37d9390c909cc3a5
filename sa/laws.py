"""Laws: equations between abstract values, decided on the value graph."""
import ast, math, os, random, time
from fractions import Fraction
from . import terms as T
from .terms import N, B, G, X, S, Ref, MISSING, Unsupported, num, ZERO, ONE, gamma, bnot, band, bor, opaque
from .interp import (Interp, State, Frame, Func, Dead, AnchorMissing, Exit, Inst, Seq, FileC, Env, ClassV, Module, SplitNeeded)

SPECIAL = [Fraction(0), Fraction(1), Fraction(-1), Fraction(2), Fraction(-2), Fraction(1, 2), Fraction(3)]

class Obligation:
    def __init__(self, law, label, pc, a, b, where):
        self.law = law; self.label = label; self.pc = pc; self.a = a; self.b = b; self.where = where
        self.status = None; self.witness = None

class LawResult:
    def __init__(self, name):
        self.name = name; self.obs = []; self.undecided = None; self.called = {}; self.raises = []; self.crash = None

class LawRunner:
    def __init__(self, root, lawdir, seed=1, trials=60):
        self.I = I = Interp(root, lawdir)
        self.seed = seed; self.trials = trials
        self.cur = None
        self.kinds = {}
        L = {}
        for n in dir(self):
            if n.startswith("d_"): L[n[2:]] = getattr(self, n)
        I.lawfuncs = L

    # --- the law language ----------------------------------------------------------------------
    def d_num(self, I, a, kw, st):
        """real number (finite)"""
        self.kinds.setdefault(a[0], "num"); return T.sym(a[0])
    def d_pos(self, I, a, kw, st):
        self.kinds[a[0]] = "pos"; s = T.sym(a[0]); st.assume(T.lt(ZERO, s)) if T.lt(ZERO, s) not in st.facts else None
        return s
    def d_unit(self, I, a, kw, st):
        """number in (0, 1)"""
        self.kinds[a[0]] = "unit"; s = T.sym(a[0])
        st.assume(T.lt(ZERO, s)); st.assume(T.lt(s, ONE))
        return s
    def d_zeroone(self, I, a, kw, st):
        """number in [0, 1]"""
        self.kinds[a[0]] = "num"; s = T.sym(a[0])
        st.assume(T.bnot(T.lt(s, ZERO))); st.assume(T.bnot(T.lt(ONE, s)))
        return s
    def d_integer(self, I, a, kw, st):
        self.kinds[a[0]] = "int"; I.intsyms.add(a[0]); return T.sym(a[0])
    def d_byte(self, I, a, kw, st):
        self.kinds[a[0]] = "byte"; I.intsyms.add(a[0]); s = T.sym(a[0])
        st.assume(bnot(T.lt(s, ZERO))); st.assume(T.lt(s, num(256)))
        return s
    def d_boolean(self, I, a, kw, st):
        self.kinds[a[0]] = "bool"; return T.bterm("bsym", a[0])
    def d_unknown(self, I, a, kw, st):
        """an object nothing is known about"""
        return opaque("symv", a[0])
    def d_bytesof(self, I, a, kw, st):
        parts = [("chr", x) for x in a]
        return T.sconcat(b"", *[bytes([I.intconst(p[1])]) if I.intconst(p[1]) is not None else p for p in parts])
    def d_assume(self, I, a, kw, st):
        c = I.decide(I.truth(a[0], st), st)
        if c is False: raise Dead()
        if c is not True: st.assume(c)
    def d_same(self, I, a, kw, st):
        self.oblige(I.unfold(a[0], st), I.unfold(a[1], st), a[2] if len(a) > 2 else "", st)
    def d_check(self, I, a, kw, st):
        self.oblige(I.truth(a[0], st), True, a[1] if len(a) > 1 else "", st)
    def d_snapshot(self, I, a, kw, st): return ("snap", I.unfold(a[0], st))
    def d_newfile(self, I, a, kw, st): return I.alloc(st, FileC(""))
    def d_cmodule(self, I, a, kw, st):
        """the module made of the functions of a C source, relative to the repository"""
        from . import cfront
        from .interp import Module
        path = os.path.join(I.root, a[0])
        if not os.path.exists(path): raise AnchorMissing(a[0])
        name = "c:" + os.path.basename(path).replace(".", "_")
        if name not in I.modules:
            tree, src = cfront.Translator(path).module()
            m = Module(name, path, tree, False)
            m.envid = I.newbase(Env({"__name__": name, "__file__": path}))
            I.modules[name] = m
        return I.load(name)
    def d_pspage(self, I, a, kw, st):
        """marks of a PostScript text"""
        from . import pages
        return pages.pspage(I.unfold(a[0], st))
    def d_pscomments(self, I, a, kw, st):
        """numbers in comments of a PostScript text"""
        from . import pages
        return pages.pscomments(I.unfold(a[0], st), a[1])
    def d_pdfpages(self, I, a, kw, st):
        from . import pages
        return pages.pdfpages(I.unfold(a[0], st))
    def d_pdferrors(self, I, a, kw, st):
        from . import pages
        return pages.pdferrors(I.unfold(a[0], st))
    def d_pdfentry(self, I, a, kw, st):
        from . import pages
        return pages.pdfentry(I.unfold(a[0], st), [int(x.const()) if isinstance(x, N) else x for x in a[1:]])
    def d_svgpage(self, I, a, kw, st):
        from . import pages
        return pages.svgpage(I.unfold(a[0], st))
    def d_svgroot(self, I, a, kw, st):
        from . import pages
        return pages.svgroot(I.unfold(a[0], st))
    def d_extent(self, I, a, kw, st):
        from . import pages
        return pages.extent(a[0])
    def d_pictures(self, I, a, kw, st):
        """marks with the images as pictures"""
        from . import pages
        return pages.pictures(a[0])
    def d_another(self, I, a, kw, st):
        """from here on as if run again: other addresses, hashes, times, random numbers and orders of sets"""
        I.run += 1
    def d_afresh(self, I, a, kw, st):
        """result of a function called in another run of the program"""
        I.run += 1
        return I.call(a[0], list(a[1:]), kw, st.copy())
    def d_without(self, I, a, kw, st):
        """the text without the given pieces in its definite parts"""
        from .interp import S
        def cut(p):
            if isinstance(p, (str, bytes)):
                for x in a[1:]: p = p.replace(x, x[:0])
            return p
        t = a[0]
        if isinstance(t, (str, bytes)): return cut(t)
        if isinstance(t, S): return S(tuple(cut(p) for p in t.parts), t.byt)
        raise Unsupported("without")
    def d_newbinfile(self, I, a, kw, st): return I.alloc(st, FileC(a[0] if a else b""))
    def d_text(self, I, a, kw, st): return I.cell(st, a[0].id).s
    def d_numtext(self, I, a, kw, st):
        """constant text standing for the digits of any number: float(text) is the number"""
        k = "70%05d" % (10000 + len(I.numtexts))
        I.numtexts[k] = T.tonum(a[0])
        return k
    def d_fields(self, I, a, kw, st):
        """plain record with the given fields"""
        return I.alloc(st, Inst(I.objc, dict(kw)))
    def d_outcome(self, I, a, kw, st):
        """("ok", value) or ("raise", exception class name)"""
        save = I.sink; I.sink = []
        base = frozenset(st.pc)
        alts = []
        try:
            s = st.copy()
            try:
                v = I.call(a[0], list(a[1:]), kw, s)
                alts.append((("ok", v), s))
            except Dead: pass
            ex = I.sink
        finally: I.sink = save
        for e in ex:
            if e.kind != "raise": raise Unsupported("outcome exit")
            n = self.excname(I, e.value, e.st)
            alts.append((("raise", n), e.st))
        if not alts: raise Dead()
        return I.join(alts, base, st)
    def excname(self, I, v, st):
        if isinstance(v, Ref):
            c = I.cell(st, v.id)
            if isinstance(c, Inst): return c.cls.name
        return "?"
    def d_disjoint(self, I, a, kw, st):
        """no mutable object reachable from both"""
        r1, r2 = I.reach(a[0], st), I.reach(a[1], st)
        return not (set(r1) & set(r2))
    def d_allow(self, I, a, kw, st):
        """exceptions the law permits"""
        self.cur.allowed |= set(a)
    def d_note(self, I, a, kw, st):
        print("NOTE", self.cur.name, [T.show(I.unfold(x, st), 8) for x in a])
    def d_ignore(self, I, a, kw, st):
        I.ignore_fields = I.ignore_fields | frozenset(a)
    def d_trust(self, I, a, kw, st):
        """replace a function of the program by an uninterpreted (or given) one within this law"""
        name = a[0]
        if name.startswith("value:"): I.intrinsics[name] = a[1]
        elif len(a) > 1:
            g = a[1]
            I.intrinsics[name] = lambda I, args, kw, st, g=g: I.call(g, args, kw, st)
        else:
            I.intrinsics[name] = lambda I, args, kw, st, n=name: T.natom("app", n, *I.freezeargs(args, kw, st))
    def d_trustkw(self, I, a, kw, st):
        """like trust, but the replacement gets all parameters (defaults included) by name"""
        h = lambda I, args, kw, st, g=a[1]: I.call(g, args, kw, st)
        h.bound = True
        I.intrinsics[a[0]] = h
    def d_opaquecall(self, I, a, kw, st):
        name = a[0]
        I.intrinsics[name] = lambda I, args, kw, st, n=name: opaque("call", n, *I.freezeargs(args, kw, st))
    def d_uf(self, I, a, kw, st):
        """uninterpreted numeric function"""
        return T.natom("app", *[I.freeze(x, st) for x in a])
    def d_tagged(self, I, a, kw, st):
        return opaque("tagged", *[I.freeze(x, st) for x in a])
    d_interior = d_unit
    def d_isclass(self, I, a, kw, st):
        v = a[0]
        if isinstance(v, G):
            return gamma(v.c, self.d_isclass(I, [v.a, a[1]], kw, st), self.d_isclass(I, [v.b, a[1]], kw, st))
        if isinstance(v, Ref):
            c = I.cell(st, v.id)
            if isinstance(c, Inst): return c.cls is a[1]
        return False
    def d_maxloop(self, I, a, kw, st): I.maxloop = int(a[0].const())
    def d_classname(self, I, a, kw, st): return I.builtin("type", [a[0]], {}, st).name
    def d_struct(self, I, a, kw, st):
        """fields of an object, regardless of its own class (fields named in further arguments left out)"""
        v = a[0]
        if isinstance(v, G): return gamma(v.c, self.d_struct(I, [v.a] + list(a[1:]), kw, st), self.d_struct(I, [v.b] + list(a[1:]), kw, st))
        u = I.unfold(v, st)
        if not (isinstance(u, tuple) and u and u[0] == "O"): return u
        return ("O", tuple(f for f in u[2] if f[0] not in a[1:]))
    def d_seqv(self, I, a, kw, st):
        """sequence content regardless of list or tuple"""
        return tuple(I.iterate(a[0], st))
    def d_derivative(self, I, a, kw, st):
        return derivative(a[0], a[1])
    def d_subst(self, I, a, kw, st):
        return substitute(a[0], a[1], a[2])

    def oblige(self, a, b, label, st):
        o = Obligation(self.cur.name, label, st.pc, a, b, self.I.where())
        self.cur.obs.append(o)

    # --- running ----------------------------------------------------------------------------------
    def run_module(self, name, only=None):
        I = self.I
        m = I.load("laws." + name)
        if m is None: raise AnchorMissing("law module " + name)
        self.modkinds = dict(self.kinds)
        bad = [f for f in I.toplevel_failures if f[0] == "laws." + name]
        if bad: raise AnchorMissing("law module %s: %s" % (name, bad))
        res = []
        laws = [n.name for n in m.tree.body if isinstance(n, ast.FunctionDef) and n.name.startswith("law_")]
        for ln in laws:
            if only and only not in ln: continue
            f = I.base[m.envid].d[ln]
            res.extend(self.run_law(m, f, ln))
        return res

    def run_law(self, m, f, ln):
        I = self.I
        n = len(f.node.args.args)
        if n:
            # parametrised law: default value is a list of cases
            out = []
            cases = I.base.get(f.defaults[0].id) if isinstance(f.defaults[0], Ref) else None
            items = cases.c if isinstance(cases, Seq) else f.defaults[0]
            for c in items:
                out.append(self.run1(f, "%s[%s]" % (ln, T.show(c, 6)), [c]))
            return out
        return [self.run1(f, ln, [])]

    def run1(self, f, ln, args):
        I = self.I
        r = self.cur = LawResult(ln); r.allowed = set()
        t0 = time.time()
        st = State()
        I.sink = []; I.steps = 0; I.depth = 0; I.called = {}
        I.numtexts = {}; I.ignore_fields = frozenset(); I.intrinsics = dict(I.baseintrinsics); I.maxloop = 6
        I.divguard = 0; I.run = 0
        self.kinds = {}
        for n, k in self.modkinds.items():
            if k == "pos": self.d_pos(I, [n], {}, st)
            elif k == "unit": self.d_unit(I, [n], {}, st)
            elif k == "byte": self.d_byte(I, [n], {}, st)
            else: self.kinds[n] = k
        dead = False
        try:
            I.call(f, args, {}, st)
        except Dead: dead = True
        except (Unsupported, RecursionError) as e:
            r.undecided = "%s at %s:%d" % (e or type(e).__name__, os.path.basename(I.where()[0]), I.where()[1])
        except AnchorMissing as e: r.undecided = "missing: %s" % e
        except Exception as e:
            if os.environ.get("SA_DEBUG"): raise
            r.undecided = "internal %s: %s" % (type(e).__name__, e)
        r.kinds = dict(self.kinds)
        r.called = dict(I.called)
        ex = [e for e in I.sink if e.kind == "raise"]
        for e in ex:
            nm = self.excname(I, e.value, e.st)
            if nm in r.allowed: continue
            c = I.cell(e.st, e.value.id) if isinstance(e.value, Ref) else None
            msg = c.f.get("args", ("",)) if isinstance(c, Inst) else ""
            if e.where[0].startswith(I.lawdir or "!") and r.undecided is None and not self.stdcause(e):
                pass
            o = Obligation(ln, "no %s%s at %s:%d" % (nm, self.msg(msg), os.path.relpath(e.where[0], I.root), e.where[1]), e.st.pc, False, True, e.where)
            o.israise = True
            r.obs.append(o)
        r.wall = time.time()-t0
        for o in r.obs: self.decide(o, r.kinds)
        return r
    def stdcause(self, e): return False
    def msg(self, m):
        if isinstance(m, tuple) and m and isinstance(m[0], str) and m[0]: return "(%s)" % m[0]
        return ""

    # --- deciding --------------------------------------------------------------------------------
    def decide(self, o, kinds):
        if not getattr(o, "israise", False) and teq(o.a, o.b):
            o.status = "proved"; return
        syms = T.symbols((o.a, o.b) + tuple(o.pc))
        opq = T.has_opaque(o.a) or T.has_opaque(o.b)
        rng = random.Random("%s/%s" % (self.seed, o.law))
        names = sorted(syms)
        tried = valid = 0
        diff = None
        miss = 0
        bounds = self.symbolbounds(o.pc)
        try:
            for t in range(self.trials*12):
                if valid >= self.trials: break
                tried += 1
                val = {}
                mode = t % 4
                for n in names:
                    k = kinds.get(n, "num")
                    val[n] = pick(rng, k, mode)
                    if n in bounds and tried % 3: val[n] = inside(rng, bounds[n], k, val[n])
                ev = T.Eval(val)
                try:
                    if not all(ev.truth(c) for c in o.pc): continue
                    va = ev.ev(o.a); vb = ev.ev(o.b)
                except T.Undefined:
                    miss += 1
                    continue
                valid += 1
                if not T.same_value(va, vb):
                    diff = (val, va, vb); break
        except (Unsupported, RecursionError) as e:
            o.status = "undecided"; o.reason = str(e); return
        except Exception as e:
            if os.environ.get("SA_DEBUG"): raise
            o.status = "undecided"; o.reason = "evaluation: %r" % (e,); return
        if diff is None:
            diff = self.boundary(o, kinds, names, rng)
        if diff is None:
            if getattr(o, "israise", False):
                o.status = "proved" if valid == 0 else "violated"
                if valid == 0 and tried and miss: o.status = "vacuous"
                return
            o.status = "equal" if valid >= 3 else "vacuous"
            return
        o.witness = diff
        if (opq or (getattr(o, "israise", False) and any(T.has_opaque(c) for c in o.pc))):
            o.status = "opaque"
            return
        o.status = "violated"

    def symbolbounds(self, pc):
        """bounds of single symbols by the path condition"""
        facts = set()
        def add(c):
            if isinstance(c, T.B):
                if c.op == "and":
                    for x in c.args: add(x)
                else: facts.add(c)
        for c in pc: add(c)
        class st: pass
        st.facts = frozenset(facts)
        r = {}
        for L, b in self.I.factbounds(st).items():
            if len(L.t) == 1:
                (m, c), = L.t.items()
                if len(m) == 1 and m[0][1] == 1 and T._byid[m[0][0]].op == "sym": r[T._byid[m[0][0]].args[0]] = b
        return r

    def boundary(self, o, kinds, names, rng):
        """valuations at which comparisons of the obligation change: the two sides have to agree there, too"""
        if not names: return None
        comps = T.comparisons((o.a, o.b) + tuple(o.pc), 40)
        budget = 160
        for c in comps:
            p = c.args[0]
            ps = sorted(T.symbols(p))
            if not ps: continue
            done = 0
            for attempt in range(6):
                if done >= 2 or budget <= 0: break
                val = {n: pick(rng, kinds.get(n, "num"), (attempt + 1) % 4) for n in names}
                x = rng.choice(ps)
                if kinds.get(x) == "bool": continue
                root = solve(p, val, x)
                if root is None: continue
                k = kinds.get(x, "num")
                if k in ("int", "byte"): points = {Fraction(math.floor(root) + i) for i in (-1, 0, 1, 2)}
                else:
                    s = max(1, abs(root))
                    points = [root, root + s/10**12, root - s/10**12, root + s/10**6, root - s/10**6, root + s/10**4, root - s/10**4]
                hit = False
                for v in sorted(points):
                    if k in ("pos", "unit") and v <= 0 or k == "unit" and v >= 1 or k == "byte" and not 0 <= v <= 255: continue
                    w = dict(val); w[x] = v
                    ev = T.Eval(w, strict=True)
                    budget -= 1
                    try:
                        if not all(ev.truth(c) for c in o.pc): continue
                        va, vb = ev.ev(o.a), ev.ev(o.b)
                    except (T.Undefined, Unsupported, RecursionError): continue
                    except Exception:
                        if os.environ.get("SA_DEBUG"): raise
                        continue
                    hit = True
                    if not T.same_value(va, vb): return (w, va, vb)
                if hit: done += 1
        return None

def solve(p, val, x):
    """a value of the symbol x at which p vanishes (secant method)"""
    def f(v):
        w = dict(val); w[x] = v
        try: return T.Eval(w).ev(p)
        except (T.Undefined, Unsupported, RecursionError, TypeError): return None
    x0, x1 = val[x], val[x] + Fraction(1, 7)
    y0, y1 = f(x0), f(x1)
    for i in range(12):
        if not isinstance(y0, (Fraction, float)) or not isinstance(y1, (Fraction, float)): return None
        if y1 == 0 or isinstance(y1, float) and abs(y1) < 1e-13: return x1
        if y0 == y1: return None
        try:
            x0, x1, y0 = x1, x1 - Fraction(y1)*(x1 - x0)/(Fraction(y1) - Fraction(y0)), y1
        except (OverflowError, ValueError): return None
        if x1.denominator.bit_length() > 200: x1 = x1.limit_denominator(10**15)
        if abs(x1) > 10**9: return None
        y1 = f(x1)
    return None

def teq(a, b):
    if a is b: return True
    if type(a) is not type(b): return False
    if isinstance(a, tuple): return len(a) == len(b) and all(teq(x, y) for x, y in zip(a, b))
    try: return a == b
    except Exception: return False

def inside(rng, b, kind, old):
    """a value within (low, strict, high, strict)"""
    lo, los, hi, his = b
    if lo is None and hi is None or kind == "bool": return old
    if lo is None or hi is None:
        w = rng.choice((3, 40, 5000))
        if lo is None: lo = hi - w
        else: hi = lo + w
    if kind in ("int", "byte"):
        a = math.floor(lo) + 1 if los else math.ceil(lo)
        z = math.ceil(hi) - 1 if his else math.floor(hi)
        if a > z: return old
        return Fraction(rng.choice((a, z, rng.randint(a, z), rng.randint(a, z), rng.randint(a, z))))
    if lo >= hi: return Fraction(lo)
    if rng.random() < 0.2 and not los: return Fraction(lo)
    if rng.random() < 0.2 and not his: return Fraction(hi)
    return Fraction(lo) + Fraction(hi - lo)*Fraction(rng.randint(1, 996), 997)

def pick(rng, kind, mode):
    if kind == "bool": return Fraction(rng.choice([1, -1]))
    if kind == "unit": return Fraction(rng.randint(1, 96), 97) if mode else rng.choice([Fraction(1, 2), Fraction(1, 4), Fraction(3, 4), Fraction(1, 3)])
    if kind == "byte":
        return Fraction(rng.choice([0, 1, 127, 128, 255, 254])) if mode == 0 else Fraction(rng.randint(0, 255))
    if kind == "int":
        return Fraction(rng.choice([0, 1, -1, 2, 3])) if mode == 0 else Fraction(rng.randint(-9, 9) if mode != 2 else rng.randint(-100000, 100000))
    if mode == 0: v = rng.choice(SPECIAL)
    elif mode == 1: v = Fraction(rng.randint(-400, 400), 37)
    elif mode == 2: v = Fraction(rng.randint(-30, 30), rng.choice([1, 2, 4, 5]))
    else: v = Fraction(rng.randint(-2000, 2000), 1009)
    if kind == "pos":
        v = abs(v)
        if v == 0: v = Fraction(rng.randint(1, 50), 7)
    return v

# --- symbolic derivative of numeric terms ----------------------------------------------------------
def derivative(v, x):
    (m, c), = x.t.items()
    xid = m[0][0]
    memo = {}
    def dn(p):
        r = ZERO
        for m, c in p.t.items():
            for j, (i, e) in enumerate(m):
                da = datom(T._byid[i])
                if not da.t: continue
                rest = dict(m)
                if e == 1: del rest[i]
                else: rest[i] = e-1
                r = T.add(r, T.mul(T.N({tuple(sorted(rest.items())): c*e}), da))
        return r
    def datom(a):
        if a.id == xid: return ONE
        if a.id in memo: return memo[a.id]
        memo[a.id] = r = datom_(a)
        return r
    def datom_(a):
        if a.op in ("sym", "const", "x"): return ZERO
        if a.op == "app":
            raise Unsupported("derivative of app")
        A = a.args
        if a.op == "ite": return gamma(A[0], dn(A[1]), dn(A[2]))
        d = dn(A[0])
        self_ = T.N({((a.id, 1),): Fraction(1)})
        if not d.t and len(A) == 1: return ZERO
        if a.op == "sqrt": return T.div(d, T.mul(num(2), self_))
        if a.op == "inv": return T.neg(T.mul(d, T.mul(self_, self_)))
        if a.op == "sin": return T.mul(d, T.func("cos", A[0]))
        if a.op == "cos": return T.neg(T.mul(d, T.func("sin", A[0])))
        if a.op == "exp": return T.mul(d, self_)
        if a.op == "log": return T.div(d, A[0])
        if a.op == "pow" and not dn(A[1]).t:
            return T.mul(T.mul(A[1], T.power(A[0], T.sub(A[1], ONE))), d)
        raise Unsupported("derivative of " + a.op)
    if isinstance(v, tuple): return tuple(dn(p) for p in v)
    return dn(v)

def substitute(v, x, y):
    """v[x := y] for numeric terms"""
    (m, c), = x.t.items()
    xid = m[0][0]
    def sn(p):
        if isinstance(p, B): return T.bterm(p.op, *[sn(q) for q in p.args]) if not isinstance(p.args[0], str) else p
        if not isinstance(p, N): return p
        r = ZERO
        for m, c in p.t.items():
            t = num(c)
            for i, e in m:
                a = T._byid[i]
                if i == xid: b = y
                elif a.op in ("sym", "const", "x"): b = T.N({((i, 1),): Fraction(1)})
                elif a.op == "inv": b = T.inverse(sn(a.args[0]))
                elif a.op == "ite": b = gamma(sn(a.args[0]), sn(a.args[1]), sn(a.args[2]))
                elif a.op == "sqrt": b = T.sqrt(sn(a.args[0]))
                else: b = T.func(a.op, *[sn(q) for q in a.args]) if a.op != "app" else T.natom("app", *[sn(q) for q in a.args])
                t = T.mul(t, T.power(b, e))
            r = T.add(r, t)
        return r
    if isinstance(v, tuple): return tuple(substitute(p, x, y) for p in v)
    return sn(v)
