# Laws of calling parametrised instances (C24): the parameters given are exchanged, the others are kept.
from pyx import deco, deformer, pattern, style, path, unit, trafo, attr, color, bbox, pswriter, pdfwriter, svgwriter, graph
from pyx.graph import axis
from pyx.graph.axis import axis as ax, painter, parter, rater, texter, tick

def va(*names): return dict([(n, "A " + n) for n in names])
def vb(*names): return dict([(n, "B " + n) for n in names])
def both(*names): return (va(*names), vb(*names))

def arrowparams():
    return ({"attrs": [color.rgb.red], "pos": num("pa"), "reversed": 1, "size": num("sa")*unit.t_pt, "angle": num("aa"), "constriction": num("ca")},
            {"attrs": [color.rgb.blue, deco.stroked.clear], "pos": num("pb"), "reversed": 0, "size": num("sb")*unit.v_pt, "angle": num("ab"), "constriction": None})
def smoothparams():
    return ({"tension": pos("ta"), "atleast": True, "lcurl": num("la"), "rcurl": None}, {"tension": pos("tb"), "atleast": False, "lcurl": None, "rcurl": num("rb")})
def hatchparams():
    return ({"dist": pos("da")*unit.t_pt, "angle": num("aa"), "strokestyles": [style.linewidth.Thick]}, {"dist": pos("db")*unit.v_cm, "angle": num("ab"), "strokestyles": [color.rgb.red]})
def linehatchparams():
    a, b = hatchparams()
    a["cross"] = 1; b["cross"] = 0
    return a, b
def stylesparams(): return ({"styles": [color.rgb.red]}, {"styles": [color.rgb.blue, style.fillrule.even_odd] if False else [color.rgb.blue]})
def patternparams():
    return ({"painttype": 2, "tilingtype": 2, "xstep": num("xa")*unit.t_pt, "ystep": num("ya")*unit.t_pt, "bbox": bbox.bbox_pt(1, 2, 3, 4), "trafo": trafo.translate_pt(num("ta"), 2), "bboxenlarge": num("ea")*unit.t_pt},
            {"painttype": 1, "tilingtype": 3, "xstep": num("xb")*unit.t_pt, "ystep": None, "bbox": None, "trafo": trafo.scale(num("tb")), "bboxenlarge": None})
def splitparams():
    a, b = both("breaklinesdist", "breaklineslength", "breaklinesattrs", "titledist", "titleattrs", "titledirection", "titlepos", "textengine")
    a["breaklinesangle"] = num("aa"); b["breaklinesangle"] = num("ab")
    return a, b
def linparterparams():
    r = lambda s, *n: ["%d/%d" % (x, 3) for x in n]
    return ({"tickdists": ["1/3", "1/6"], "labeldists": ["2/3"], "extendtick": 1, "extendlabel": 1, "epsilon": num("ea")},
            {"tickdists": ["5", "1"], "labeldists": ["7/3", "1/2"], "extendtick": None, "extendlabel": 0, "epsilon": num("eb")})
def linparterticks():
    a, b = linparterparams()
    return {"tickdists": a["tickdists"]}, {"tickdists": b["tickdists"], "labeldists": b["labeldists"], "extendtick": 2}
def linparterlabels():
    a, b = linparterparams()
    return {"labeldists": a["labeldists"]}, {"tickdists": b["tickdists"], "labeldists": b["labeldists"], "extendlabel": 2}
def logparterparams():
    p = parter.logarithmic
    return ({"tickpreexps": [p.pre1exp, p.pre125exp], "labelpreexps": [p.pre125exp], "extendtick": 1, "extendlabel": 1, "epsilon": num("ea")},
            {"tickpreexps": [p.pre125exp, p.pre1to9exp], "labelpreexps": [p.pre1to9exp], "extendtick": None, "extendlabel": 0, "epsilon": num("eb")})
def logparterticks():
    a, b = logparterparams()
    return {"tickpreexps": a["tickpreexps"]}, {"tickpreexps": b["tickpreexps"], "labelpreexps": b["labelpreexps"], "extendtick": 2}
def logparterlabels():
    a, b = logparterparams()
    return {"labelpreexps": a["labelpreexps"]}, {"tickpreexps": b["tickpreexps"], "labelpreexps": b["labelpreexps"], "extendlabel": 2}

PAINTERREST = ("titledist", "titleattrs", "titledirection", "titlepos", "textengine")
REGULAR = ("innerticklength", "outerticklength", "tickattrs", "gridattrs", "basepathattrs", "labeldist", "labelattrs", "labeldirection", "labelhequalize", "labelvequalize") + PAINTERREST
BAR = ("innerticklength", "outerticklength", "tickattrs", "basepathattrs", "namedist", "nameattrs", "namedirection", "namepos", "namehequalize", "namevequalize") + PAINTERREST

def axisparams(more):
    def params():
        d = dict(min=num("a"), max=num("a") + pos("w"), reverse=1, divisor="A divisor", title="A title", painter="A painter", texter="A texter", linkpainter="A linkpainter",
                 maxworse="A maxworse", manualticks=[], fallbackrange="A fallbackrange", parter="A parter", rater="A rater")
        e = dict(reverse=0, divisor="B divisor", title="B title", painter=None, texter="B texter", linkpainter=None, maxworse="B maxworse", manualticks=[tick.tick(1, 2)],
                 fallbackrange="B fallbackrange", parter="B parter", rater="B rater", min=num("a") - pos("v"), max=num("a") + 2*pos("w"))
        for n in more: d[n] = "A " + n; e[n] = "B " + n
        return d, e
    return params

def axisparts(more):
    "parameters of the parts of an axis"
    def params():
        d = {"painter_titledist": "A titledist", "texter_minexponent": 3, "linkpainter_tickattrs": "A tickattrs", "parter_extendtick": "A extendtick", "rater_density": "A density"}
        e = {"painter_labeldist": "B labeldist", "painter_titledist": "B titledist", "texter_labelattrs": "B labelattrs", "linkpainter_gridattrs": "B gridattrs", "parter_epsilon": "B epsilon", "rater_distance": "B distance", "title": "B title"}
        for n in more: d[n] = "A " + n; e[n] = "B " + n
        return d, e
    return params

def barparams():
    return (dict(subaxes="A subaxes", defaultsubaxis="A defaultsubaxis", dist=num("da"), firstdist=num("fa"), lastdist=num("la"), title="A title", reverse=1, epsilon=num("ea"), painter="A painter", linkpainter="A linkpainter"),
            dict(subaxes="B subaxes", defaultsubaxis="B defaultsubaxis", dist=num("db"), firstdist=num("fb"), lastdist=num("lb"), title="B title", reverse=0, epsilon=None, painter=None, linkpainter=None))
def barparts():
    return ({"defaultsubaxis_title": "A", "painter_titledist": "A titledist", "linkpainter_tickattrs": "A tickattrs"},
            {"defaultsubaxis_title": "B", "painter_titledist": "B titledist", "linkpainter_basepathattrs": "B", "title": "B"})

def texterparts():
    return ({"mantissatexter_prefix": "A", "basetexter_prefix": "B", "exponenttexter_prefix": "C"},
            {"mantissatexter_prefix": "D", "basetexter_suffix": "E", "exponenttexter_prefix": "F", "minexponent": 7})

DEFAULTTEXTER = ("multiplicationtex", "multiplicationunicode", "base", "skipmantissaunity", "minusunity", "minexponent", "minnegexponent", "uniformexponent", "mantissatexter", "basetexter", "exponenttexter", "labelattrs")

# name: (class, parameters which are given always, parameters)
KINDS = {
 "cycloid": (deformer.cycloid, (), lambda: both("radius", "halfloops", "skipfirst", "skiplast", "curvesperhloop", "sign", "turnangle")),
 "smoothed": (deformer.cornersmoothed, ("radius",), lambda: both("radius", "softness", "obeycurv", "relskipthres")),
 "parallel": (deformer.parallel, ("distance",), lambda: both("distance", "relerr", "sharpoutercorners", "dointersection", "checkdistanceparams", "lookforcurvatures", "searchstep", "debug")),
 "linesmoothed": (deformer.linesmoothed, (), smoothparams),
 "arrow": (deco.arrow, (), arrowparams),
 "stroked": (lambda **kw: deco.stroked(**kw), ("styles",), stylesparams),
 "filled": (lambda **kw: deco.filled(**kw), ("styles",), stylesparams),
 "linehatched": (deco.linehatched, ("dist", "angle"), linehatchparams),
 "brace": (deco.brace, (), lambda: both("reverse", "stretch", "dist", "fillattrs", "totalheight", "barthickness", "innerstrokesthickness", "outerstrokesthickness", "innerstrokesrelheight", "outerstrokesrelheight",
     "innerstrokesangle", "outerstrokesangle", "slantstrokesangle", "innerstrokessmoothness", "outerstrokessmoothness", "middlerelpos")),
 "pattern": (pattern.pattern, (), patternparams),
 "hatched": (pattern.hatched, ("dist", "angle"), hatchparams),
 "crosshatched": (pattern.crosshatched, ("dist", "angle"), hatchparams),
 "regular painter": (painter.regular, (), lambda: both(*REGULAR)),
 "linked painter": (painter.linked, (), lambda: both(*REGULAR)),
 "bar painter": (painter.bar, (), lambda: both(*BAR)),
 "linked bar painter": (painter.linkedbar, (), lambda: both(*BAR)),
 "split painter": (painter.split, (), splitparams),
 "linked split painter": (painter.linkedsplit, (), splitparams),
 "linear partitioner": (parter.linear, ("tickdists", "labeldists"), linparterparams),
 "linear partitioner by ticks": (parter.linear, ("tickdists",), linparterticks),
 "linear partitioner by labels": (parter.linear, ("labeldists",), linparterlabels),
 "autolinear partitioner": (parter.autolinear, (), lambda: both("variants", "extendtick", "epsilon")),
 "logarithmic partitioner": (parter.logarithmic, ("tickpreexps", "labelpreexps"), logparterparams),
 "logarithmic partitioner by ticks": (parter.logarithmic, ("tickpreexps",), logparterticks),
 "logarithmic partitioner by labels": (parter.logarithmic, ("labelpreexps",), logparterlabels),
 "autologarithmic partitioner": (parter.autologarithmic, (), lambda: both("variants", "extendtick", "extendlabel", "autoexponent", "epsilon")),
 "rater": (rater.rater, ("ticks", "labels", "range"), lambda: both("ticks", "labels", "range", "distance", "density")),
 "linear rater": (rater.linear, (), lambda: both("ticks", "labels", "range", "distance", "density")),
 "logarithmic rater": (rater.logarithmic, (), lambda: both("ticks", "labels", "range", "distance", "density")),
 "decimal texter": (texter.decimal, (), lambda: both("prefix", "infix", "suffix", "equalprecision", "decimalsep", "thousandsep", "thousandthpartsep", "plus", "minus", "period", "labelattrs")),
 "default texter": (texter.default, (), lambda: both(*DEFAULTTEXTER)),
 "parts of the default texter": (texter.default, (), texterparts),
 "rational texter": (texter.rational, (), lambda: both("prefix", "infix", "suffix", "numprefix", "numinfix", "numsuffix", "denomprefix", "denominfix", "denomsuffix", "plus", "minus", "minuspos", "over",
     "equaldenom", "skip1", "skipnum0", "skipnum1", "skipdenom1", "labelattrs")),
 "linear axis": (axis.linear, (), axisparams(())),
 "logarithmic axis": (axis.logarithmic, (), axisparams(("linearparter",))),
 "sized axis": (axis.sizedlinear, (), axisparams(("size",))),
 "auto sized axis": (axis.autosizedlinear, (), axisparams(())),
 "parts of the linear axis": (axis.linear, (), axisparts(())),
 "parts of the logarithmic axis": (axis.logarithmic, (), axisparts(("linearparter_extendtick",))),
 "parts of the sized axis": (axis.sizedlinear, (), axisparts(("size",))),
 "parts of the auto sized axis": (axis.autosizedlinear, (), axisparts(())),
 "bar axis": (axis.bar, (), barparams),
 "nested bar axis": (axis.nestedbar, (), barparams),
 "split axis": (axis.split, (), barparams),
 "parts of the bar axis": (axis.bar, (), barparts),
}

# the parameters as stored for a later call, and names, need not be the same
def content(o): return struct(o, "kwargs", "id")

def changed(d, *others):
    r = dict(d)
    for o in others:
        for k in o: r[k] = o[k]
    return r

def law_nothing(name=list(KINDS.keys())):
    "a call without parameters gives an equal instance"
    trust("logging.Logger.warning", lambda *a: None)
    cls, always, params = KINDS[name]
    a, b = params()
    if name not in ("stroked", "filled"):
        same(content(cls(**a)()), content(cls(**a)))
        d = dict([(n, a[n]) for n in always])
        same(content(cls(**d)()), content(cls(**d)))

def law_one(name=list(KINDS.keys())):
    "one parameter is exchanged"
    trust("logging.Logger.warning", lambda *a: None)
    cls, always, params = KINDS[name]
    a, b = params()
    d = dict([(n, a[n]) for n in always])
    for n in b:
        c = {n: b[n]}
        for start in (a, d):
            x = cls(**start)
            before = snapshot(x)
            y = x(**c)
            same(content(y), content(cls(**changed(start, c))), n)
            same(snapshot(x), before, "the original")

def law_all(name=list(KINDS.keys())):
    "all parameters are exchanged, one after the other"
    trust("logging.Logger.warning", lambda *a: None)
    cls, always, params = KINDS[name]
    a, b = params()
    x = cls(**a)
    for n in b: x = x(**{n: b[n]})
    same(content(x), content(cls(**changed(a, b))))
    same(content(cls(**a)(**b)), content(cls(**changed(a, b))))

METHODS = {
 "linked bar painter": (lambda: painter.linkedbar()(namedist=1), painter.linkedbar),
 "logarithmic": (lambda: axis.logarithmic()(title="x"), axis.logarithmic),
 "sized": (lambda: axis.sizedlinear()(title="x"), axis.sizedlinear),
 "auto sized": (lambda: axis.autosizedlinear()(title="x"), axis.autosizedlinear),
 "linear": (lambda: axis.linear()(title="x"), axis.linear),
 "bar": (lambda: axis.bar()(title="x"), axis.bar),
 "hatched": (lambda: pattern.hatched45(angle=2), pattern.hatched),
 "crosshatched": (lambda: pattern.crosshatched45(angle=2), pattern.crosshatched),
 "arrow": (lambda: deco.earrow(pos=0.5), deco.arrow),
 "parallel": (lambda: deformer.parallel(1)(relerr=1), deformer.parallel),
 "linear partitioner": (lambda: parter.linear([1])(epsilon=1), parter.linear),
 "logarithmic partitioner": (lambda: parter.logarithmic([parter.logarithmic.pre1exp])(epsilon=1), parter.logarithmic),
 "autologarithmic partitioner": (lambda: parter.autologarithmic()(epsilon=1), parter.autologarithmic),
}

def law_kind(name=list(METHODS.keys())):
    "the kind of the instance stays the same"
    f, cls = METHODS[name]
    check(isinstance(f(), cls), name)

def law_pattern_content():
    "a pattern keeps its drawing"
    p = pattern.pattern()
    p.fill(path.rect_pt(1, 2, 3, 4))
    q = p(tilingtype=3)
    same(len(q.items), 1)
    same(q.bbox(), p.bbox())
    q.stroke(path.line_pt(1, 2, 3, 40))
    same(len(p.items), 1, "the original")

def law_arrow_attrs():
    "attributes cleared stay cleared"
    for a in ([deco.filled.clear], [deco.stroked.clear], [deco.filled.clear, style.linestyle.clear], [deco.stroked, deco.filled([color.rgb.red])]):
        x = deco.arrow(attrs=a)
        same(content(x(pos=0.5)), content(deco.arrow(attrs=a, pos=0.5)))
        same(content(x(pos=0.5)(size=unit.t_cm)), content(deco.arrow(attrs=a, pos=0.5, size=unit.t_cm)))

def law_hatch_attrs(cls=[pattern.hatched, pattern.crosshatched, deco.linehatched]):
    for a in ([style.linewidth.clear], [style.linewidth.THICK, color.rgb.red], [style.linewidth.clear, style.linewidth.Thick]):
        same(content(cls(unit.t_pt, 45, a)(angle=30)), content(cls(unit.t_pt, 30, a)))

def law_context(k=[pswriter, pdfwriter, svgwriter]):
    "contexts called keep the values not given and leave the original as it is"
    c = k.context()
    c.one = 1; c.two = [2]
    before = snapshot(c)
    d = c(two=3, three=4)
    same(d.one, 1); same(d.two, 3); same(d.three, 4)
    same(struct(d, "two", "three", "indent"), struct(c, "two", "three", "indent"))
    same(snapshot(c), before)
    d.one = 5
    same(snapshot(c), before)

def linkedto(**kw):
    a = ax.anchoredaxis(axis.linear(title="x", linkpainter="P"), None, "axis x")
    return ax.linkedaxis(a, **kw)

def law_linkedaxis():
    "linked axes keep the axis they are linked to, their name and their painter"
    for kw in ({}, {"painter": "Q"}, {"errorname": "n", "painter": None}):
        x = linkedto(**kw)
        y = x()
        check(y.linkedto is x.linkedto); same(y.painter, x.painter); same(y.errorname, x.errorname)
        z = x(painter="R")
        check(z.linkedto is x.linkedto); same(z.painter, "R"); same(z.errorname, x.errorname)
        z = ax.linkedaxis(**kw)(painter="R")
        check(z.linkedto is None); same(z.painter, "R")

def law_linkedaxis_parts():
    "parameters of the painter of linked axes modify the painter the axis provides"
    p = painter.linked(titledist="T")
    a = ax.anchoredaxis(axis.linear(title="x", linkpainter=p), None, "axis x")
    w = content(p(labelattrs="L"))
    same(content(ax.linkedaxis(a, painter_labelattrs="L").painter), w)
    x = ax.linkedaxis(painter_labelattrs="L")
    x.setlinkedaxis(a)
    same(content(x.painter), w)
    same(content(ax.linkedaxis(a)(painter_labelattrs="L").painter), w)
    same(content(ax.linkedaxis(painter=p, painter_labelattrs="L").painter), w)
    same(content(p), content(painter.linked(titledist="T")))

def law_parts():
    "parameters of parts modify the parts the kind of axis has by default"
    same(content(axis.linear(painter_titledist="T").painter), content(painter.regular(titledist="T")))
    same(content(axis.linear(linkpainter_titledist="T").linkpainter), content(painter.linked(titledist="T")))
    same(content(axis.logarithmic(parter_extendtick=5).parter), content(parter.autologarithmic(extendtick=5)))
    same(content(axis.logarithmic(linearparter_epsilon=5).linearparter), content(parter.autolinear(extendtick=None, epsilon=5)))
    same(content(axis.logarithmic(rater_density=5).rater), content(rater.logarithmic(density=5)))
    same(content(axis.linear(texter_minexponent=5).texter), content(texter.default(minexponent=5)))
    same(content(axis.bar(painter_titledist="T").painter), content(painter.bar(titledist="T")))
    same(content(axis.bar(linkpainter_titledist="T").linkpainter), content(painter.linkedbar(titledist="T")))
    same(content(axis.split(painter_titledist="T").painter), content(painter.split(titledist="T")))
    same(content(axis.split(linkpainter_titledist="T").linkpainter), content(painter.linkedsplit(titledist="T")))
    same(content(axis.nestedbar(defaultsubaxis_dist=2).defaultsubaxis), content(axis.bar(dist=2, painter=None, linkpainter=None)))
    same(content(axis.autosizedlinear(parter_epsilon=2).parter), content(parter.autolinear(extendtick=None, epsilon=2)))
