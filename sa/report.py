"""Collecting obligations, violations and evidence of one check run."""
import json
import os
import sys
import time

from .repo import AnalysisError

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.json")


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rules = {}        # rule -> {text, obligations, discharged}
        self.viol = []
        self.samples = {}
        self.analysed = {}
        self.assumptions = []
        self.selftests = 0

    def rule(self, rid, text):
        self.rules.setdefault(rid, {"rule": text, "obligations": 0, "discharged": 0})

    def ob(self, rid, construct, ok, where="", msg=""):
        """One obligation of rule `rid` on `construct` (a stable key)."""
        r = self.rules[rid]
        r["obligations"] += 1
        if ok:
            r["discharged"] += 1
            s = self.samples.setdefault(rid, [])
            if len(s) < 3:
                s.append("%s @ %s" % (construct, where))
        else:
            self.viol.append({"rule": rid, "construct": construct,
                              "where": where, "message": msg})
        return ok

    def bad(self, rid, construct, where, msg):
        return self.ob(rid, construct, False, where, msg)

    def good(self, rid, construct, where=""):
        return self.ob(rid, construct, True, where)

    def floor(self, rid, n):
        got = self.rules[rid]["obligations"]
        if got < n:
            raise AnalysisError("rule %s matched only %d sites (at least %d were "
                                "confirmed by hand): the analysis lost its anchors"
                                % (rid, got, n))

    def count(self, what, n):
        self.analysed[what] = self.analysed.get(what, 0) + n

    def selftest(self, ok, what):
        self.selftests += 1
        if not ok:
            raise AnalysisError("self test failed: %s" % what)

    def assume(self, text):
        self.assumptions.append(text)

    # ------------------------------------------------------------------
    def finish(self):
        known = []
        if os.path.exists(KNOWN):
            with open(KNOWN, encoding="utf-8") as f:
                known = json.load(f)["findings"]
        known = [k for k in known if k["property"] == self.prop]
        new = []
        seen_known = {}
        for v in self.viol:
            for k in known:
                if k["rule"] == v["rule"] and k["construct"] == v["construct"]:
                    seen_known.setdefault((k["rule"], k["construct"]), k)
                    break
            else:
                new.append(v)
        tot = sum(r["obligations"] for r in self.rules.values())
        dis = sum(r["discharged"] for r in self.rules.values())
        for rid, r in self.rules.items():
            print("  [%s] %s: %d obligations, %d discharged -- %s" % (
                self.prop, rid, r["obligations"], r["discharged"], r["rule"]))
        for k in seen_known.values():
            print("KNOWN-FINDING: property=%s %s: %s" % (
                self.prop, k["construct"], k["what"]))
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed,
            "level": "other",
            "coverage": {
                "explanation": "static analysis of the current working tree of "
                               "/repo; every count below was measured in this run",
                "obligations": tot, "discharged": dis,
                "rules": self.rules, "samples": self.samples,
                "analysed": self.analysed,
                "self_tests_passed": self.selftests,
                "known_findings": [k["construct"] for k in seen_known.values()],
                "exhaustive": True,
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 3),
            "violations": len(new),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w",
                  encoding="utf-8") as f:
            json.dump(ev, f, indent=1, sort_keys=True, default=str)
        if new:
            rp = os.path.join(VERIF, "evidence", self.prop + ".violations.json")
            with open(rp, "w", encoding="utf-8") as f:
                json.dump(new, f, indent=1)
            for v in new:
                print("  %s: %s: [%s] %s: %s" % (
                    self.prop, v["where"], v["rule"], v["construct"], v["message"]))
            print("VIOLATION property=%s replay=%s" % (
                self.prop, os.path.relpath(rp, VERIF)))
            return 1
        print("OK property=%s obligations=%d discharged=%d" % (self.prop, tot, dis))
        return 0


def run(prop, fn):
    chk = Check(prop)
    try:
        from .repo import Repo
        repo = Repo()
        chk.count("modules", len(repo.modules))
        chk.count("functions", len(repo.functions))
        chk.count("classes", len(repo.classes))
        fn(chk, repo)
        return chk.finish()
    except AnalysisError as e:
        # A violation found before the analysis lost an anchor still counts.
        if chk.viol:
            rc = chk.finish()
            if rc == 1:
                return 1
        print("ANALYSIS-BROKEN property=%s: %s" % (prop, e))
        return 3
    except Exception:
        import traceback
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s: internal error" % prop)
        return 3
