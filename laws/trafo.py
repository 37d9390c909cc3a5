# Laws of affine transformations (C01).  Parsed and interpreted by sa/, never imported.
from math import sin, cos, pi
from pyx import trafo, unit

def sym(n):
    return trafo.trafo_pt(((num(n + "11"), num(n + "12")), (num(n + "21"), num(n + "22"))), (num(n + "1"), num(n + "2")))

def scales():
    unit.set(uscale=pos("us"), vscale=pos("vs"), wscale=pos("ws"), xscale=pos("xs"))

def affine(t):
    """what a transformation does to all points"""
    return (t.apply_pt(0, 0), t.apply_pt(1, 0), t.apply_pt(0, 1))

def law_product():
    s, t = sym("s"), sym("t")
    x, y = num("x"), num("y")
    same((s*t).apply_pt(x, y), s.apply_pt(*t.apply_pt(x, y)))

def law_product_associative():
    r, s, t = sym("r"), sym("s"), sym("t")
    same(affine((r*s)*t), affine(r*(s*t)))

def law_apply_is_affine():
    t = sym("t")
    x, y = num("x"), num("y")
    same(t.apply_pt(x, y), (num("t11")*x + num("t12")*y + num("t1"), num("t21")*x + num("t22")*y + num("t2")))

def law_inverse():
    t = sym("t")
    assume(num("t11")*num("t22") - num("t12")*num("t21") != 0)
    x, y = num("x"), num("y")
    same(t.inverse().apply_pt(*t.apply_pt(x, y)), (x, y), "left")
    same(t.apply_pt(*t.inverse().apply_pt(x, y)), (x, y), "right")

def law_inverse_of_singular():
    a, b, k = num("a"), num("b"), num("k")
    r = outcome(lambda: trafo.trafo_pt(((1, 2), (2, 4)), (a, b)).inverse())
    same(r[0], "raise")

def law_identity():
    x, y = num("x"), num("y")
    same(trafo.identity.apply_pt(x, y), (x, y))
    same(trafo.trafo_pt().apply_pt(x, y), (x, y), "default_pt")
    same(trafo.trafo().apply_pt(x, y), (x, y), "default")

def law_apply_lengths():
    scales()
    t = sym("t")
    x, y = num("x"), num("y")
    r = t.apply(x, y)
    same((unit.topt(r[0]), unit.topt(r[1])), t.apply_pt(unit.topt(x), unit.topt(y)))

def law_constructor_lengths():
    scales()
    m = ((num("a"), num("b")), (num("c"), num("d")))
    v = num("e"), num("f")
    same(affine(trafo.trafo(m, v)), affine(trafo.trafo_pt(m, (unit.topt(v[0]), unit.topt(v[1])))))

def law_multiply_other():
    r = outcome(lambda: sym("t")*3)
    same(r[0], "raise")

# --- named transformations ---------------------------------------------------------------------

def law_translate():
    scales()
    x, y, a, b = num("x"), num("y"), num("a"), num("b")
    same(trafo.translate_pt(a, b).apply_pt(x, y), (x+a, y+b), "pt")
    same(trafo.translate(a, b).apply_pt(x, y), (x+unit.topt(a), y+unit.topt(b)), "lengths")

def law_rotate():
    scales()
    w, x, y, a, b = num("w"), num("x"), num("y"), num("a"), num("b")
    c, s = cos(w*pi/180), sin(w*pi/180)
    same(trafo.rotate_pt(w).apply_pt(x, y), (c*x-s*y, s*x+c*y), "origin pt")
    same(trafo.rotate(w).apply_pt(x, y), (c*x-s*y, s*x+c*y), "origin")
    same(trafo.rotate_pt(w, a, b).apply_pt(a+x, b+y), (a+c*x-s*y, b+s*x+c*y), "centre pt")
    same(trafo.rotate(w, a, b).apply_pt(unit.topt(a)+x, unit.topt(b)+y), (unit.topt(a)+c*x-s*y, unit.topt(b)+s*x+c*y), "centre")

def law_scale():
    scales()
    k, l, x, y, a, b = num("k"), num("l"), num("x"), num("y"), num("a"), num("b")
    same(trafo.scale_pt(k).apply_pt(x, y), (k*x, k*y), "uniform pt")
    same(trafo.scale(k).apply_pt(x, y), (k*x, k*y), "uniform")
    same(trafo.scale_pt(k, l).apply_pt(x, y), (k*x, l*y), "pt")
    same(trafo.scale(k, l).apply_pt(x, y), (k*x, l*y), "lengths")
    same(trafo.scale_pt(k, l, a, b).apply_pt(a+x, b+y), (a+k*x, b+l*y), "centre pt")
    same(trafo.scale(k, l, a, b).apply_pt(unit.topt(a)+x, unit.topt(b)+y), (unit.topt(a)+k*x, unit.topt(b)+l*y), "centre")
    same(trafo.scale(k, None, a, b).apply_pt(unit.topt(a)+x, unit.topt(b)+y), (unit.topt(a)+k*x, unit.topt(b)+k*y), "uniform centre")

def law_mirror():
    # points of the line at the given angle through the origin stay, the normal is reversed
    w, r = num("w"), num("r")
    c, s = cos(w*pi/180), sin(w*pi/180)
    same(trafo.mirror(w).apply_pt(r*c, r*s), (r*c, r*s), "line")
    same(trafo.mirror(w).apply_pt(-r*s, r*c), (r*s, -r*c), "normal")
    same(trafo.mirror().apply_pt(num("x"), num("y")), (num("x"), -num("y")), "default")

def law_slant():
    # points are moved along the given direction proportional to their distance from the line through the centre
    scales()
    k, w, u, v, a, b = num("k"), num("w"), num("u"), num("v"), num("a"), num("b")
    c, s = cos(w*pi/180), sin(w*pi/180)
    p, q = (u*c - v*s, u*s + v*c), ((u + k*v)*c - v*s, (u + k*v)*s + v*c)
    same(trafo.slant_pt(k, w).apply_pt(*p), q, "origin pt")
    same(trafo.slant(k, w).apply_pt(*p), q, "origin")
    same(trafo.slant_pt(k).apply_pt(u, v), (u + k*v, v), "default pt")
    same(trafo.slant(k).apply_pt(u, v), (u + k*v, v), "default")
    same(trafo.slant_pt(k, w, a, b).apply_pt(a+p[0], b+p[1]), (a+q[0], b+q[1]), "centre pt")
    A, B = unit.topt(a), unit.topt(b)
    same(trafo.slant(k, w, a, b).apply_pt(A+p[0], B+p[1]), (A+q[0], B+q[1]), "centre")

# --- chaining methods: the transformation followed by the named one ------------------------------

def law_chaining():
    scales()
    t = sym("t")
    x, y, a, b, w, k, l = num("x"), num("y"), num("a"), num("b"), num("w"), num("k"), num("l")
    p = t.apply_pt(x, y)
    same(t.translated_pt(a, b).apply_pt(x, y), trafo.translate_pt(a, b).apply_pt(*p), "translated_pt")
    same(t.translated(a, b).apply_pt(x, y), trafo.translate(a, b).apply_pt(*p), "translated")
    same(t.rotated_pt(w).apply_pt(x, y), trafo.rotate_pt(w).apply_pt(*p), "rotated_pt")
    same(t.rotated(w).apply_pt(x, y), trafo.rotate(w).apply_pt(*p), "rotated")
    same(t.rotated_pt(w, a, b).apply_pt(x, y), trafo.rotate_pt(w, a, b).apply_pt(*p), "rotated_pt centre")
    same(t.rotated(w, a, b).apply_pt(x, y), trafo.rotate(w, a, b).apply_pt(*p), "rotated centre")
    same(t.mirrored(w).apply_pt(x, y), trafo.mirror(w).apply_pt(*p), "mirrored")
    same(t.scaled_pt(k).apply_pt(x, y), trafo.scale_pt(k).apply_pt(*p), "scaled_pt")
    same(t.scaled(k).apply_pt(x, y), trafo.scale(k).apply_pt(*p), "scaled")
    same(t.scaled_pt(k, l).apply_pt(x, y), trafo.scale_pt(k, l).apply_pt(*p), "scaled_pt xy")
    same(t.scaled(k, l).apply_pt(x, y), trafo.scale(k, l).apply_pt(*p), "scaled xy")
    same(t.scaled_pt(k, l, a, b).apply_pt(x, y), trafo.scale_pt(k, l, a, b).apply_pt(*p), "scaled_pt centre")
    same(t.scaled(k, l, a, b).apply_pt(x, y), trafo.scale(k, l, a, b).apply_pt(*p), "scaled centre")

def law_chaining_slanted():
    scales()
    t = sym("t")
    x, y, a, b, w, k = num("x"), num("y"), num("a"), num("b"), num("w"), num("k")
    p = t.apply_pt(x, y)
    same(t.slanted_pt(k, w).apply_pt(x, y), trafo.slant_pt(k, w).apply_pt(*p), "slanted_pt")
    same(t.slanted(k, w).apply_pt(x, y), trafo.slant(k, w).apply_pt(*p), "slanted")
    same(t.slanted_pt(k, w, a, b).apply_pt(x, y), trafo.slant_pt(k, w, a, b).apply_pt(*p), "slanted_pt centre")
    same(t.slanted(k, w, a, b).apply_pt(x, y), trafo.slant(k, w, a, b).apply_pt(*p), "slanted centre")

def law_chaining_keeps_operand():
    t = sym("t")
    before = snapshot(t)
    a, b, w, k = num("a"), num("b"), num("w"), num("k")
    t.translated(a, b); t.rotated(w, a, b); t.mirrored(w); t.scaled(k, k, a, b); t.slanted(k, w); t.translated_pt(a, b)
    t.rotated_pt(w); t.scaled_pt(k); t.slanted_pt(k); t*t
    assume(num("t11")*num("t22") - num("t12")*num("t21") != 0)
    t.inverse()
    same(before, snapshot(t))

# --- centres must be given completely ---------------------------------------------------------------

def law_half_centre():
    a = num("a")
    for f in (lambda: trafo.rotate(a, 1), lambda: trafo.rotate(a, y=1), lambda: trafo.rotate_pt(a, 1), lambda: trafo.rotate_pt(a, y=1),
              lambda: trafo.scale(a, a, 1), lambda: trafo.scale(a, a, y=1), lambda: trafo.scale_pt(a, a, 1),
              lambda: trafo.scale_pt(a, a, y=1)):
        same(outcome(f)[0], "raise")

# --- the same transformation reaches each output format ----------------------------------------------

def law_output():
    t = sym("t")
    f = newfile()
    t.processPS(f, None, None, None)
    g = newfile()
    t.processPDF(g, None, None, None)
    attrs = {}
    t.processSVGattrs(attrs, None, None, None)
    o, x, y = t.apply_pt(0, 0), t.apply_pt(1, 0), t.apply_pt(0, 1)
    m = (x[0]-o[0], x[1]-o[1], y[0]-o[0], y[1]-o[1], o[0], o[1])
    same(text(f), "[%f %f %f %f %f %f] concat\n" % m, "PS")
    same(text(g), "%f %f %f %f %f %f cm\n" % m, "PDF")
    # SVG has the y axis pointing down
    same(attrs["transform"], "matrix(%f,%f,%f,%f,%f,%f)" % (m[0], -m[1], -m[2], m[3], m[4], -m[5]), "SVG")
