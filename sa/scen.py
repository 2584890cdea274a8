"""Runs the cases of an abstract-interpretation rule and reports obligations.

Violations are located by the functions whose abstract interpretation is
specific to the violating cases (most violating, fewest discharged cases)."""
import math

from .par import pmap


def run_cases(chk, cx, lab, cases, judge, home=""):
    """judge(case) -> [(rule, construct, ok, msg)]; rule None = undecided (why in
    `construct`). `home`: the file meant to implement the property, if one."""
    cx.vals

    def one(case):
        lab.I.used = set()
        out = judge(case)
        return out, sorted((f.qual, cx.repo.where(f.node, f.module)) for f in lab.I.used)
    fail, good, und, res, names = {}, {}, {}, [], {}
    nfail = 0
    for out, used in pmap(one, cases):
        names.update(used)
        bad = any(r is not None and not ok for r, _, ok, _ in out)
        nfail += bad
        for q, _ in used:
            d = fail if bad else good
            d[q] = d.get(q, 0) + 1
        res.append((out, used))
    for out, used in res:
        spot = None
        for rule, construct, ok, msg in out:
            if rule is None:
                und[construct] = und.get(construct, 0) + 1
                continue
            where = ""
            if not ok:
                if spot is None:
                    cand = [u for u in used if not u[0].endswith("__init__")
                            and "/ast.py" not in u[1] and "/error.py" not in u[1]] or used
                    cand = [u for u in cand if home in u[1]] or cand
                    rank = sorted(cand, key=lambda u: -fail.get(u[0], 0) / math.sqrt(
                        max(1, nfail * (fail.get(u[0], 0) + good.get(u[0], 0)))))
                    spot = rank[:3]
                where = spot[0][1] if spot else ""
                msg += "  [functions involved: %s]" % ", ".join(s[0] for s in spot)
            chk.ob(rule, construct, ok, where, msg)
    chk.count("cases", len(cases))
    chk.count("interpreted functions", len(names))
    for k, n in und.items():
        chk.count("undecided: %s" % k, n)
    return sum(und.values())
