"""Running one property check: evidence, known findings, exit status."""
import json
import os
import re
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Ctx:
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.t0 = time.time()
        self.findings = {}
        self.obligations = 0
        self.instances = {}
        self.rules = []
        self.functions = set()
        self.samples = []
        self.counts = {}
        self._P = {}
        self.broken = []

    # -- program ------------------------------------------------------
    def program(self, ndebug=True):
        import ir
        if ndebug not in self._P:
            self._P[ndebug] = ir.load_core(ndebug)
        return self._P[ndebug]

    # -- results ------------------------------------------------------
    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def violation(self, rule, where, msg, stack=(), trace=(), **extra):
        fn = extra.pop("fn", None)
        if fn is None:
            m = re.search(r"\(([^()]*)\)$", where)
            fn = m.group(1) if m else where
        ident = (rule, fn, msg)
        if ident not in self.findings:
            self.findings[ident] = dict(rule=rule, where=where, function=fn, message=msg, call_stack=list(stack),
                                        trace=list(trace), **extra)

    def take(self, R):
        """merge the result of an exploration."""
        for v in R.violations.values():
            self.violation(v.rule, v.where, v.msg, v.stack, v.trace, **v.extra)
        self.functions |= set(R.functions)
        self.count("top_states", len(R.tops))
        self.count("block_steps", R.steps)
        self.count("events", R.events)
        for k, v in R.notes.items():
            self.instances.setdefault(k, set()).update(v)

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def inst(self, kind, what):
        self.instances.setdefault(kind, set()).add(what)

    def floor(self, kind, n):
        """a rule that matched (almost) nothing proves nothing."""
        have = len(self.instances.get(kind, ()))
        if have < n:
            self.broken.append("rule instances of kind '%s': %d, expected at least %d" % (kind, have, n))

    def known(self):
        p = os.path.join(HERE, "known_findings.json")
        if not os.path.exists(p):
            return []
        return [k for k in json.load(open(p))["findings"] if k.get("status") == "known" and k["property"] == self.prop]

    def finish(self, level, explanation):
        rep = os.path.join(HERE, "replay")
        os.makedirs(rep, exist_ok=True)
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        known = self.known()
        fresh = []
        for ident, f in sorted(self.findings.items(), key=lambda x: repr(x[0])):
            k = [x for x in known if x["rule"] == f["rule"] and x["function"] == f["function"]
                 and x["message"] == f["message"]]
            if k:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k[0]["what"]))
                k[0]["hit"] = True
            else:
                fresh.append(f)
        for i, f in enumerate(fresh[:20]):
            path = os.path.join(rep, "%s_%d.json" % (self.prop, i))
            json.dump(f, open(path, "w"), indent=1, default=str)
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            print("  rule: %s\n  at:   %s\n  %s" % (f["rule"], f["where"], f["message"]))
            for s in f["call_stack"][-8:]:
                print("    in %s" % s)
            for s in f["trace"][-25:]:
                print("    | %s" % s)
        cov = {
            "explanation": explanation,
            "rule": "; ".join(self.rules),
            "evaluations": sum(v for k, v in self.counts.items() if k in ("events", "obligations")) or
            sum(len(v) for v in self.instances.values()),
            "distinct_nontrivial": sum(len(v) for v in self.instances.values()),
            "samples": [dict(kind=k, what=str(x)) for k, v in sorted(self.instances.items())
                        for x in sorted(v, key=str)[:6]][:60],
            "instances": {k: len(v) for k, v in sorted(self.instances.items())},
            "counts": self.counts,
            "functions_analysed": sorted(str(f) for f in self.functions)[:400],
            "violations": len(fresh),
            "known_findings": len(self.findings) - len(fresh),
        }
        ev = dict(property=self.prop, tier=self.tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1),
                  level=level, coverage=cov, wall_s=round(time.time() - self.t0, 2))
        json.dump(ev, open(os.path.join(HERE, "evidence", self.prop + ".json"), "w"), indent=1, default=str)
        print("%s: %s (%d functions, %s, %.1fs)" % (
            self.prop, "%d violation(s)" % len(fresh) if fresh else "holds", len(self.functions),
            ", ".join("%s=%s" % x for x in sorted(self.counts.items())), time.time() - self.t0))
        if fresh:
            return 1
        if self.broken:
            print("ANALYSIS-BROKEN property=%s: %s" % (self.prop, "; ".join(self.broken)))
            return 2
        return 0


def main(argv):
    prop = argv[1]
    tier = argv[2] if len(argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    sys.path.insert(0, os.path.join(HERE, "engine"))
    sys.path.insert(0, os.path.join(HERE, "checks"))
    import registry
    from ir import AnalysisBroken
    ctx = Ctx(prop, tier)
    try:
        fn, level, expl = registry.get(prop)
        fn(ctx)
        rc = ctx.finish(level, expl)
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s: %s" % (prop, e))
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    return rc
