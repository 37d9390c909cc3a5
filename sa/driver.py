"""command line driver: runs the checkers of one property, writes evidence, reports"""
import sys, os, json, time, importlib, traceback, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SA_REPO", "/repo")

class Finding:
    """one violated rule instance"""
    def __init__(self, rule, construct, message, where=""):
        self.rule = rule; self.construct = construct; self.message = message; self.where = where
    @property
    def key(self): return "%s:%s" % (self.rule, self.construct)

class Result:
    def __init__(self):
        self.findings = []
        self.counts = {}        # rule -> number of instances analysed
        self.decided = 0        # obligations decided
        self.undecided = []     # texts
        self.functions = set()
        self.samples = []
        self.rules = {}
        self.broken = []
    def count(self, rule, n=1): self.counts[rule] = self.counts.get(rule, 0) + n
    def find(self, rule, construct, message, where=""):
        self.findings.append(Finding(rule, construct, message, where))
    def merge(self, o):
        self.findings += o.findings
        for k, v in o.counts.items(): self.count(k, v)
        self.decided += o.decided; self.undecided += o.undecided; self.functions |= o.functions
        self.samples += o.samples; self.rules.update(o.rules); self.broken += o.broken

def run_laws(modname, seed, tier, only=None, verbose=False):
    from . import laws, interp
    res = Result()
    R = laws.LawRunner(REPO, os.path.join(HERE, "laws"), seed, 60 if tier == "quick" else 400)
    res.rules["laws/" + modname] = "value graphs of both sides of each law have the same value number"
    try:
        lrs = R.run_module(modname, only)
    except interp.AnchorMissing as e:
        res.broken.append(str(e)); return res
    for lr in lrs:
        rule = "law:%s.%s" % (modname, lr.name)
        res.count("laws/" + modname)
        if lr.undecided:
            res.undecided.append("%s: %s" % (rule, lr.undecided))
        res.functions |= set(lr.called)
        fns = ", ".join("%s (%s:%d)" % (k, os.path.relpath(p, REPO), l) for k, (p, l) in list(lr.called.items())[:6])
        if verbose:
            print("%-50s %6.2fs %s %s" % (lr.name, getattr(lr, "wall", 0), "%d ok " % sum(o.status in ("proved", "equal") for o in lr.obs) + " ".join("%s:%s" % (o.label or "=", o.status) for o in lr.obs if o.status not in ("proved", "equal")), lr.undecided or ""))
        done = set()
        for o in lr.obs:
            if o.status in ("proved", "equal"):
                res.decided += 1
                res.count("obligations by normal form" if o.status == "proved" else "obligations by random interpretation")
                if len(res.samples) < 3: 
                    from . import terms as T
                    res.samples.append("%s %s: %s" % (rule, o.label, T.show(o.a, 5)[:200]))
            elif o.status == "violated":
                res.decided += 1
                from . import terms as T
                val, va, vb = o.witness
                lab = re.sub(r" at [\w/.]+:\d+$", "", o.label)
                key = "%s %s" % (lr.name, lab)
                if key in done: continue
                done.add(key)
                wit = ", ".join("%s=%s" % kv for kv in sorted(val.items()))
                if getattr(o, "israise", False):
                    msg = "law requires %s, but it is raised for %s [via %s]" % (o.label, wit, fns)
                else:
                    msg = "%s: value graphs differ: %s  versus  %s (e.g. %s gives %s vs %s) [via %s]" % (
                        o.label, T.show(o.a, 7)[:400], T.show(o.b, 7)[:400], wit, short(va), short(vb), fns)
                res.find("law:" + modname, key, msg, "%s:%d" % (os.path.basename(o.where[0]), o.where[1]))
            else:
                res.undecided.append("%s %s: %s" % (rule, o.label, o.status + " " + getattr(o, "reason", "")))
    return res

def short(v):
    s = repr(v)
    s = re.sub(r"Fraction\((-?\d+), 1\)", r"\1", s)
    s = re.sub(r"Fraction\((-?\d+), (\d+)\)", r"\1/\2", s)
    return s if len(s) < 300 else s[:297] + "..."

def load_known():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p): return []
    return json.load(open(p))["findings"]

def main(argv):
    from . import registry
    verbose = "-v" in argv
    argv = [a for a in argv if a != "-v"]
    prop = argv[0]
    only = argv[1] if len(argv) > 1 else None
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    spec = registry.PROPS[prop]
    res = Result()
    try:
        for kind, name in spec["checkers"]:
            if kind == "laws": res.merge(run_laws(name, seed, tier, only, verbose))
            else:
                mod = importlib.import_module("sa.rules." + kind)
                r = Result()
                getattr(mod, name)(REPO, r, tier)
                res.merge(r)
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s internal error" % prop)
        return 3
    known = {k["key"]: k for k in load_known() if k["property"] == prop and k.get("status", "known") == "known"}
    viol = []
    seen = set()
    for f in res.findings:
        if f.key in seen: continue
        seen.add(f.key)
        if f.key in known:
            print("KNOWN-FINDING: property=%s %s: %s" % (prop, f.key, known[f.key]["what"]))
        else: viol.append(f)
    total = res.decided
    mins = registry.load_minimum(HERE).get(prop)
    if not only:
        if mins is not None and total < mins["decided"]*0.6 and not viol:
            res.broken.append("only %d obligations decided, %d confirmed" % (total, mins["decided"]))
        for k, n in (mins or {}).get("counts", {}).items():
            if k.startswith("obligations by"): continue
            if res.counts.get(k, 0) < n*0.6 and not viol:
                res.broken.append("rule %s matched %d instances, %d confirmed" % (k, res.counts.get(k, 0), n))
    wall = time.time()-t0
    ev = dict(property=prop, tier=tier, seed=seed, level="other", wall_s=round(wall, 3), violations=len(viol),
              coverage=dict(explanation=spec.get("explain", "") + " Rules: " + "; ".join("%s = %s" % kv for kv in sorted(res.rules.items())),
                            obligations_decided=total, rule_instances=res.counts, undecided=res.undecided[:200],
                            undecided_count=len(res.undecided),
                            functions_analysed=len(res.functions), functions=sorted(res.functions)[:400], samples=res.samples[:12],
                            known_findings=sorted(k for k in seen if k in known)),
              assumptions=spec.get("assumptions", []))
    scratch = only or os.environ.get("SA_NOEVIDENCE")
    if not scratch:
        d = os.path.join(HERE, "evidence"); os.makedirs(d, exist_ok=True)
        tmp = os.path.join(d, ".%s.%d" % (prop, os.getpid()))
        with open(tmp, "w") as f: json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(d, prop + ".json"))
    print("property %s: %d obligations decided, %d undecided, %d functions, counts %s, %.1fs" % (
        prop, total, len(res.undecided), len(res.functions), res.counts, wall))
    if verbose:
        for u in res.undecided: print("  undecided", u)
    for f in viol:
        print("  [%s] %s %s: %s" % (f.rule, f.where, f.construct, f.message))
    if viol:
        rp = "-" if scratch else os.path.join(HERE, "evidence", prop + ".violations.txt")
        if not scratch:
            with open(rp, "w") as fh:
                for f in viol: fh.write("%s\n  at %s\n  %s\n" % (f.key, f.where, f.message))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    if res.broken:
        for b in res.broken: print("ANALYSIS-BROKEN property=%s %s" % (prop, b))
        return 2
    return 0
