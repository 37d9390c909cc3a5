"""plant small mechanical changes in one source file (scratch copies) and list those a check does not report
usage: mutate.py PROPERTY FILE(relative to pyx/) [number] [function filter]"""
import ast, sys, os, random, shutil, subprocess, tempfile, concurrent.futures as cf
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
prop, fn = sys.argv[1:3]
count = int(sys.argv[3]) if len(sys.argv) > 3 else 40
flt = sys.argv[4] if len(sys.argv) > 4 else ""
src = open("/repo/pyx/" + fn, encoding="utf-8").read()
tree = ast.parse(src)
lines = src.split("\n")
muts = []
def seg(n): return n.lineno == n.end_lineno
def edit(ln, a, b, new):
    l = lines[ln-1].encode("utf-8")
    return ln, (l[:a] + new.encode() + l[b:]).decode("utf-8")
def visit(n, q):
    if isinstance(n, (ast.FunctionDef, ast.ClassDef)): q = q + "." + n.name
    infn = not flt or flt in q
    if infn and getattr(n, "lineno", None):
        def sub(c, new, what):
            if seg(c): muts.append((q, what) + edit(c.lineno, c.col_offset, c.end_col_offset, new))
        if isinstance(n, ast.BinOp) and seg(n):
            ops = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}
            o = ops.get(type(n.op))
            if o:
                a, b = n.left.end_col_offset, n.right.col_offset
                l = lines[n.lineno-1].encode()[a:b].decode()
                for s in "+-*/":
                    if s in l and "//" not in l and "**" not in l and n.left.end_lineno == n.lineno == n.right.lineno:
                        muts.append((q, "op " + s + "->" + o) + edit(n.lineno, a, b, l.replace(s, o, 1))); break
        if isinstance(n, ast.Compare) and seg(n) and len(n.ops) == 1:
            a, b = n.left.end_col_offset, n.comparators[0].col_offset
            l = lines[n.lineno-1].encode()[a:b].decode()
            for s, t in ((" is not ", " is "), (" is ", " is not "), ("==", "!="), ("!=", "=="), ("<=", ">"), (">=", "<"), ("<", ">"), (">", "<"), (" not in ", " in "), (" in ", " not in ")):
                if s in l: muts.append((q, "cmp") + edit(n.lineno, a, b, l.replace(s, t, 1))); break
        if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool): sub(n, repr(n.value + 1), "const")
        if isinstance(n, ast.Constant) and isinstance(n.value, bool): sub(n, repr(not n.value), "bool")
        if isinstance(n, ast.Call) and len(n.args) > 1:
            x, y = n.args[0], n.args[1]
            if seg(n) and not isinstance(x, ast.Starred) and not isinstance(y, ast.Starred):
                g = lambda c: ast.get_source_segment(src, c)
                if g(x) != g(y): muts.append((q, "swap args") + edit(n.lineno, x.col_offset, y.end_col_offset, "%s, %s" % (g(y), g(x))))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub) and seg(n): sub(n, ast.get_source_segment(src, n.operand), "neg")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not) and seg(n): sub(n, ast.get_source_segment(src, n.operand), "not")
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign)) and seg(n) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            if ast.get_source_segment(src, n) == lines[n.lineno-1].strip(): sub(n, "pass", "drop")
        if isinstance(n, ast.BoolOp) and seg(n):
            a, b = n.values[0].end_col_offset, n.values[1].col_offset
            l = lines[n.lineno-1].encode()[a:b].decode()
            if " and " in l or " or " in l: muts.append((q, "bool op") + edit(n.lineno, a, b, l.replace(" and ", " OR ").replace(" or ", " and ").replace(" OR ", " or ")))
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and seg(n):
            at = n.attr
            for s, t in (("x", "y"), ("y", "x"), ("0", "1"), ("1", "0"), ("ll", "ur"), ("width", "height"), ("min", "max"), ("max", "min")):
                if at.startswith(s) or (s in "01" and s in at):
                    a2 = at.replace(s, t, 1)
                    if (a2 in src): muts.append((q, "attr %s->%s" % (at, a2)) + edit(n.lineno, n.end_col_offset-len(at), n.end_col_offset, a2)); break
    for c in ast.iter_child_nodes(n): visit(c, q)
visit(tree, "")
random.seed(int(os.environ.get("SEED", "1")))
ok = []
for m in muts:
    l2 = list(lines); l2[m[2]-1] = m[3]
    try: ast.parse("\n".join(l2))
    except SyntaxError: continue
    if l2 != lines: ok.append(m)
random.shuffle(ok)
ok = ok[:count]
def run(m):
    d = tempfile.mkdtemp(prefix="mut")
    try:
        shutil.copytree("/repo/pyx", d + "/pyx", ignore=shutil.ignore_patterns("__pycache__"))
        l2 = list(lines); l2[m[2]-1] = m[3]
        open(d + "/pyx/" + fn, "w", encoding="utf-8").write("\n".join(l2))
        e = dict(os.environ, SA_REPO=d, SA_NOEVIDENCE="1")
        try: r = subprocess.run([sys.executable, HERE + "/check.py", prop], env=e, capture_output=True, timeout=880, text=True)
        except subprocess.TimeoutExpired: return m, "timeout", ""
        return m, r.returncode, r.stdout
    finally: shutil.rmtree(d)
with cf.ThreadPoolExecutor(8) as ex: res = list(ex.map(run, ok))
caught = sum(r[1] == 1 for r in res)
print("mutants %d of %d, caught %d" % (len(ok), len(muts), caught))
for m, rc, out in sorted(res, key=lambda r: r[0][2]):
    if rc != 1: print("MISSED rc=%s %s:%d %s %s\n      %s\n   -> %s" % (rc, fn, m[2], m[0], m[1], lines[m[2]-1].strip(), m[3].strip()), (out.splitlines() or [""])[0][:100] if rc not in (0, 1) else "")
