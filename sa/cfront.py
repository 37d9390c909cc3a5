"""C functions (of Python extension modules) as Python syntax trees, by way of the syntax tree of clang

Integers keep their C semantics: conversions between types are made explicit, unsigned arithmetic is reduced, and the values
of signed arithmetic are recorded for the law to show that they do not overflow. Memory is modelled by blocks of cells."""
import ast, json, os, subprocess, tempfile
from .terms import Unsupported

PRELUDE = '''
class SystemError_(Exception): pass
overflows = []
MOD = {8: 256, 16: 65536, 32: 4294967296, 64: 18446744073709551616}
blocks = []
class block:
    def __init__(self, cells):
        self.cells = cells
        self.freed = False
class pointer:
    def __init__(self, b, offset=0):
        self.b = b
        self.offset = offset
    def __getitem__(self, i):
        k = self.offset + i
        if self.b.freed or k < 0 or k >= len(self.b.cells): raise MemoryError("access outside of the allocated memory")
        v = self.b.cells[k]
        if v is None: raise MemoryError("access to uninitialised memory")
        return v
    def __setitem__(self, i, v):
        k = self.offset + i
        if self.b.freed or k < 0 or k >= len(self.b.cells): raise MemoryError("access outside of the allocated memory")
        self.b.cells[k] = v
def pointeradd_(p, n): return pointer(p.b, p.offset + n)
def pointersub_(p, q): return p.offset - q.offset
def unsigned_(v, bits): return v % MOD[bits]
def signed_(v, bits): return (v + MOD[bits]//2) % MOD[bits] - MOD[bits]//2
def arith_(v, bits):
    overflows.append((v, bits))
    return v
def cdiv_(a, b): return a // b if (a >= 0) == (b > 0) else -((-a) // b)
def cmod_(a, b): return a - b*cdiv_(a, b)
def malloc(n):
    p = pointer(block([None]*n))
    blocks.append(p.b)
    return p
PyMem_Malloc = PyMem_RawMalloc = malloc
def calloc(n, m):
    p = pointer(block([0]*(n*m)))
    blocks.append(p.b)
    return p
def free(p):
    if p is None: return
    if p.b.freed or p.offset != 0: raise MemoryError("invalid free")
    p.b.freed = True
PyMem_Free = PyMem_RawFree = free
def memcpy(p, q, n):
    for i in range(n): p[i] = q[i]
    return p
memmove = memcpy
def memset(p, c, n):
    for i in range(n): p[i] = c % 256
    return p
def PyBytes_FromStringAndSize(p, n):
    if n < 0: raise SystemError_("Negative size passed to PyBytes_FromStringAndSize")
    if p is None: return pybytes_([None]*n)
    return bytes([p[i] for i in range(n)])
def Py_BuildValue(fmt, *args):
    if fmt == "y#": return PyBytes_FromStringAndSize(args[0], args[1])
    raise NotImplementedError(fmt)
def PyErr_NoMemory(): raise MemoryError("no memory")
def parse_(args, fmt):
    r = []
    i = 0
    k = 0
    while k < len(fmt):
        c = fmt[k]
        k = k + 1
        if c == "y" or c == "s":
            if k < len(fmt) and fmt[k] == "#":
                k = k + 1
                cells = list(args[i])
                r.append(pointer(block(cells)))
                r.append(len(cells))
            else: raise NotImplementedError(fmt)
        elif c == "i" or c == "n" or c == "l": r.append(args[i])
        elif c == "H": r.append(args[i] % 65536)
        elif c == "I" or c == "k": r.append(args[i] % 2**32)
        elif c == "b" or c == "B": r.append(args[i] % 256)
        elif c == ":" or c == ";": break
        else: raise NotImplementedError(fmt)
        i = i + 1
    if i != len(args): raise TypeError("wrong number of arguments")
    return r
'''

INTS = {"char": (8, True), "signed char": (8, True), "unsigned char": (8, False), "short": (16, True), "unsigned short": (16, False), "int": (32, True), "unsigned int": (32, False),
        "long": (64, True), "unsigned long": (64, False), "long long": (64, True), "unsigned long long": (64, False), "_Bool": (1, False)}

class Translator:
    def __init__(self, path):
        self.path = path
        inc = []
        for v in range(20, 5, -1):
            if os.path.exists("/usr/include/python3.%d/Python.h" % v): inc = ["-I/usr/include/python3.%d" % v]; break
        with tempfile.TemporaryFile() as out:
            r = subprocess.run(["clang", "-Xclang", "-ast-dump=json", "-fsyntax-only", "-w"] + inc + [path], stdout=out, stderr=subprocess.PIPE, timeout=120)
            if r.returncode: raise Unsupported("clang: " + r.stderr.decode()[:300])
            out.seek(0); self.tree = json.load(out)
        self.typedefs = {}
        self.out = []; self.lines = []
        self.line = 0
        self.names = {}; self.used = {}
        base = os.path.basename(path)
        self.functions = []; self.tables = []
        cur = None; infile = False
        for d in self.tree["inner"]:
            loc = d.get("loc", {})
            loc = loc.get("expansionLoc", loc)
            if "file" in loc: infile = os.path.basename(loc["file"]) == base and not loc["file"].startswith("/usr")
            if d["kind"] == "TypedefDecl": self.typedefs[d["name"]] = d["type"].get("desugaredQualType", d["type"]["qualType"])
            if infile and d["kind"] == "FunctionDecl" and any(x["kind"] == "CompoundStmt" for x in d.get("inner", ())): self.functions.append(d)
            if infile and d["kind"] == "VarDecl": self.tables.append(d)

    def emit(self, text, ind): self.out.append("    "*ind + text); self.lines.append(self.line)
    def at(self, n):
        r = n.get("range", {}).get("begin", {})
        r = r.get("expansionLoc", r)
        if "line" in r: self.line = r["line"]

    # --- types
    def ctype(self, t):
        q = t.get("desugaredQualType", t["qualType"])
        for _ in range(10):
            q = q.replace("const ", "").replace("volatile ", "").replace(" const", "").strip()
            if q in self.typedefs: q = self.typedefs[q]
            else: break
        return q
    def inttype(self, n):
        q = self.ctype(n["type"])
        return INTS.get(q)
    def ispointer(self, n): return self.ctype(n["type"]).endswith(("*", "]"))

    def name(self, decl):
        k = decl["id"]
        if k not in self.names:
            n = decl.get("name", "anonymous")
            c = self.used.get(n, 0); self.used[n] = c + 1
            self.names[k] = n + "_" if c == 0 else "%s_%d" % (n, c)
        return self.names[k]

    # --- expressions
    def convert(self, e, src, dst):
        if dst is None or src is None: return e
        sb, ss = src; db, ds = dst
        if db == 1: return "(1 if %s else 0)" % e
        if ss == ds and db >= sb or ds and not ss and db > sb: return e
        return "%s(%s, %d)" % ("signed_" if ds else "unsigned_", e, db)

    def arith(self, e, t):
        if t is None: return e
        return "arith_(%s, %d)" % (e, t[0]) if t[1] else "unsigned_(%s, %d)" % (e, t[0])

    def expr(self, n):
        k = n["kind"]
        self.at(n)
        inner = n.get("inner", [])
        if k in ("ParenExpr", "ConstantExpr", "FullExpr", "ExprWithCleanups"): return self.expr(inner[0])
        if k == "IntegerLiteral": return n["value"]
        if k == "CharacterLiteral": return str(n["value"])
        if k == "StringLiteral": return repr(ast.literal_eval(n["value"]))
        if k == "DeclRefExpr":
            d = n["referencedDecl"]
            if d["kind"] in ("FunctionDecl",): return self.fname(d)
            if d["kind"] == "EnumConstantDecl": raise Unsupported("C enum")
            return self.name(d)
        if k in ("ImplicitCastExpr", "CStyleCastExpr"):
            c = n["castKind"]
            if c in ("LValueToRValue", "NoOp", "BitCast", "ArrayToPointerDecay", "FunctionToPointerDecay", "ToVoid"): return self.expr(inner[0])
            if c == "IntegralCast": return self.convert(self.expr(inner[0]), self.inttype(inner[0]), self.inttype(n))
            if c == "NullToPointer": return "None"
            if c == "IntegralToBoolean": return "(%s != 0)" % self.expr(inner[0])
            if c == "PointerToBoolean": return "(%s is not None)" % self.expr(inner[0])
            raise Unsupported("C cast " + c)
        if k == "ArraySubscriptExpr": return "%s[%s]" % (self.expr(inner[0]), self.expr(inner[1]))
        if k == "UnaryExprOrTypeTraitExpr":
            t = self.inttype({"type": n["argType"]}) if "argType" in n else None
            if n.get("name") == "sizeof" and t: return str(max(1, t[0]//8))
            raise Unsupported("C sizeof")
        if k == "ConditionalOperator": return "(%s if %s else %s)" % (self.expr(inner[1]), self.cond(inner[0]), self.expr(inner[2]))
        if k == "UnaryOperator":
            o = n["opcode"]; e = inner[0]
            if o == "!": return "(0 if %s else 1)" % self.cond(e)
            if o == "-": return self.arith("-(%s)" % self.expr(e), self.inttype(n))
            if o == "+": return self.expr(e)
            if o == "~": return self.convert("(-1 - (%s))" % self.expr(e), (64, True), self.inttype(n)) if not self.inttype(n)[1] else "(-1 - (%s))" % self.expr(e)
            if o == "*": return "%s[0]" % self.expr(e)
            if o == "&" and e["kind"] == "ArraySubscriptExpr": return "pointeradd_(%s, %s)" % (self.expr(e["inner"][0]), self.expr(e["inner"][1]))
            if o in ("++", "--"):
                t = self.expr(e)
                new = self.step(e, t, o)
                if not t.isidentifier(): raise Unsupported("C %s within an expression" % o)
                if n.get("isPostfix"): return "(%s, (%s := %s))[0]" % (t, t, new)
                return "(%s := %s)" % (t, new)
            raise Unsupported("C operator " + o)
        if k == "BinaryOperator":
            o = n["opcode"]; a, b = inner
            if o == "=":
                t = self.expr(a)
                if t.isidentifier(): return "(%s := %s)" % (t, self.expr(b))
                raise Unsupported("C assignment within an expression")
            if o == ",": return "(%s, %s)[1]" % (self.expr(a), self.expr(b))
            if o in ("&&", "||"): return "(1 if %s %s %s else 0)" % (self.cond(a), "and" if o == "&&" else "or", self.cond(b))
            x, y = self.expr(a), self.expr(b)
            if o in ("==", "!=", "<", ">", "<=", ">="):
                if self.ispointer(a) or self.ispointer(b):
                    if y == "None" or x == "None": return "(%s %s %s)" % (x, {"==": "is", "!=": "is not"}[o], y)
                    return "(pointersub_(%s, %s) %s 0)" % (x, y, o)
                return "(1 if %s %s %s else 0)" % (x, o, y)
            if self.ispointer(a) and self.ispointer(b) and o == "-": return "pointersub_(%s, %s)" % (x, y)
            if self.ispointer(a): return "pointeradd_(%s, %s%s)" % (x, "-" if o == "-" else "", "(%s)" % y)
            if self.ispointer(b): return "pointeradd_(%s, %s)" % (y, x)
            return self.binary(o, x, y, self.inttype(n))
        if k == "CallExpr":
            f = self.expr(inner[0])
            if f in ("PyArg_ParseTuple", "_PyArg_ParseTuple_SizeT"):
                targets = []
                for x in inner[3:]:
                    while x["kind"] in ("CStyleCastExpr", "ImplicitCastExpr", "ParenExpr"): x = x["inner"][0]
                    if x["kind"] != "UnaryOperator" or x["opcode"] != "&": raise Unsupported("C PyArg_ParseTuple target")
                    x = x["inner"][0]
                    targets.append(self.expr(x))
                self.emit("%s = parse_(%s, %s)" % (", ".join(targets) + ("," if len(targets) == 1 else ""), self.expr(inner[1]), self.expr(inner[2])), self.ind)
                return "1"
            return "%s(%s)" % (f, ", ".join(self.expr(x) for x in inner[1:]))
        raise Unsupported("C " + k)

    def binary(self, o, x, y, t):
        if o == "/": return "cdiv_(%s, %s)" % (x, y) if t is None or t[1] else "(%s // %s)" % (x, y)
        if o == "%": return "cmod_(%s, %s)" % (x, y) if t is None or t[1] else "(%s %% %s)" % (x, y)
        if o in ("&", "|", "^", ">>"): return "(%s %s %s)" % (x, o, y)
        if o in ("+", "-", "*", "<<"): return self.arith("(%s %s %s)" % (x, o, y), t)
        raise Unsupported("C operator " + o)

    def fname(self, d): return d["name"] if not (d["name"].startswith("_Py") and d["name"].endswith("_SizeT") and "ParseTuple" not in d["name"]) else d["name"][1:-6]
    def step(self, e, t, o):
        if self.ispointer(e): return "pointeradd_(%s, %d)" % (t, 1 if o == "++" else -1)
        it = self.inttype(e)
        v = "(%s %s 1)" % (t, o[0])
        return self.arith(v, it) if it is None or it[0] >= 32 else self.convert(v, (32, True), it)

    def cond(self, n):
        e = self.expr(n)
        if self.ispointer(n): return "(%s is not None)" % e
        return e

    # --- statements
    def stmt(self, n, ind):
        self.at(n); self.ind = ind
        k = n["kind"]; inner = n.get("inner", [])
        if k == "CompoundStmt":
            for x in inner: self.stmt(x, ind)
            if not inner: self.emit("pass", ind)
        elif k == "DeclStmt":
            done = False
            for d in inner:
                if d["kind"] != "VarDecl": raise Unsupported("C " + d["kind"])
                t = self.name(d)
                self.at(d)
                if d.get("inner"):
                    if d["inner"][0]["kind"] == "InitListExpr": raise Unsupported("C initializer list")
                    self.emit("%s = %s" % (t, self.expr(d["inner"][0])), ind); done = True
                elif self.ctype(d["type"]).endswith("]"):
                    q = self.ctype(d["type"])
                    self.emit("%s = pointer(block([None]*%d))" % (t, int(q[q.index("[")+1:-1])), ind); done = True
            if not done: self.emit("pass", ind)
        elif k == "NullStmt": self.emit("pass", ind)
        elif k == "IfStmt":
            self.emit("if %s:" % self.cond(inner[0]), ind)
            self.stmt(inner[1], ind + 1)
            if len(inner) > 2:
                self.emit("else:", ind); self.stmt(inner[2], ind + 1)
        elif k == "ForStmt":
            init, _, cond, inc, body = inner
            if init.get("kind"): self.stmt(init, ind)
            self.loop(cond, inc, body, ind)
        elif k == "WhileStmt": self.loop(inner[0], {}, inner[1], ind)
        elif k == "DoStmt":
            self.emit("while True:", ind)
            self.stmt(inner[0], ind + 1)
            self.ind = ind + 1
            self.emit("if not (%s): break" % self.cond(inner[1]), ind + 1)
        elif k == "BreakStmt": self.emit("break", ind)
        elif k == "ReturnStmt":
            e = self.expr(inner[0]) if inner else "None"
            self.emit("return %s" % e, ind)
        elif k in ("CompoundAssignOperator", "BinaryOperator", "UnaryOperator", "CallExpr", "ParenExpr", "CStyleCastExpr", "ImplicitCastExpr", "ConditionalOperator"): self.exprstmt(n, ind)
        else: raise Unsupported("C " + k)

    def loop(self, cond, inc, body, ind):
        if self.contains(body, "ContinueStmt"): raise Unsupported("C continue")
        self.emit("while True:", ind)
        self.ind = ind + 1
        if cond.get("kind"): self.emit("if not (%s): break" % self.cond(cond), ind + 1)
        self.stmt(body, ind + 1)
        if inc.get("kind"): self.stmt(inc, ind + 1)

    def contains(self, n, kind): return n.get("kind") == kind or any(self.contains(x, kind) for x in n.get("inner", []) if isinstance(x, dict))

    def exprstmt(self, n, ind):
        self.ind = ind
        while n["kind"] in ("ParenExpr",) or n["kind"] in ("CStyleCastExpr", "ImplicitCastExpr") and n.get("castKind") == "ToVoid": n = n["inner"][0]
        inner = n.get("inner", [])
        if n["kind"] == "BinaryOperator" and n["opcode"] == ",":
            self.exprstmt(inner[0], ind); self.exprstmt(inner[1], ind); return
        if n["kind"] == "BinaryOperator" and n["opcode"] == "=":
            if inner[1]["kind"] == "BinaryOperator" and inner[1]["opcode"] == "=": 
                self.exprstmt(inner[1], ind)
                self.emit("%s = %s" % (self.expr(inner[0]), self.expr(inner[1]["inner"][0])), ind); return
            self.emit("%s = %s" % self.target(inner[0], self.expr(inner[1]), ind), ind); return
        if n["kind"] == "CompoundAssignOperator":
            t = self.expr(inner[0]); y = self.expr(inner[1])
            o = n["opcode"][:-1]
            if self.ispointer(inner[0]): v = "pointeradd_(%s, %s(%s))" % (t, "-" if o == "-" else "", y)
            else:
                ct = INTS.get(self.ctype(n["computeResultType"]))
                lt = self.inttype(inner[0])
                x = self.convert(t, lt, INTS.get(self.ctype(n["computeLHSType"])))
                v = self.convert(self.binary(o, x, y, ct), ct, lt)
            self.emit("%s = %s" % (t, v), ind); return
        if n["kind"] == "UnaryOperator" and n["opcode"] in ("++", "--"):
            t = self.expr(inner[0])
            self.emit("%s = %s" % (t, self.step(inner[0], t, n["opcode"])), ind); return
        self.emit(self.expr(n), ind)

    def target(self, a, value, ind):
        """assignment to *p++ is split"""
        x = a
        while x["kind"] == "ParenExpr": x = x["inner"][0]
        if x["kind"] == "UnaryOperator" and x["opcode"] == "*":
            p = x["inner"][0]
            while p["kind"] in ("ParenExpr", "ImplicitCastExpr"): p = p["inner"][0]
            if p["kind"] == "UnaryOperator" and p["opcode"] == "++" and p.get("isPostfix"):
                t = self.expr(p["inner"][0])
                self.emit("%s[0] = %s" % (t, value), ind)
                return t, "pointeradd_(%s, 1)" % t
        return self.expr(a), value

    def module(self):
        for line in PRELUDE.strip().split("\n"): self.emit(line, 0)
        for d in self.functions:
            if d["name"].startswith("PyInit"): continue
            self.line = d.get("loc", {}).get("line", self.line)
            self.names = {}; self.used = {}
            ps = [x for x in d.get("inner", []) if x["kind"] == "ParmVarDecl"]
            self.emit("def %s(%s):" % (d["name"], ", ".join(self.name(p) for p in ps)), 0)
            self.stmt([x for x in d["inner"] if x["kind"] == "CompoundStmt"][0], 1)
            self.emit("return None", 1)
        # method tables: the names under which functions are exported
        def strip(x):
            while x["kind"] in ("ImplicitCastExpr", "CStyleCastExpr", "ParenExpr"): x = x["inner"][0]
            return x
        for d in self.tables:
            if not self.ctype(d["type"]).startswith(("PyMethodDef", "struct PyMethodDef")): continue
            for il in d.get("inner", []):
                if il["kind"] != "InitListExpr": continue
                for e in il.get("inner", []):
                    f = [strip(x) for x in e.get("inner", [])]
                    if len(f) > 1 and f[0]["kind"] == "StringLiteral" and f[1]["kind"] == "DeclRefExpr":
                        self.emit("def %s(*args): return %s(None, args)" % (ast.literal_eval(f[0]["value"]), f[1]["referencedDecl"]["name"]), 0)
        src = "\n".join(self.out) + "\n"
        tree = ast.parse(src)
        for n in ast.walk(tree):
            if hasattr(n, "lineno"):
                l = self.lines[min(n.lineno, len(self.lines)) - 1]
                n.lineno = l; n.end_lineno = l
        return tree, src
