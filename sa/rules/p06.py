"""P06: statements, loops, functions, structs and interfaces do what they say."""
import re

from ..ctx import Ctx
from ..absint import Undecided
from ..whole import Whole
from ..lab import S, show
from ..refsem import Ref, Cell, Refused
from ..scen import run_cases
from ..mcsem import Poly, Bad, Machine, words, poly_of
from .. import programs as P


def logtext(ws):
    out = []
    for w in ws:
        out.append("".join(x if isinstance(x, str) else str(poly_of(x)) for x in w.parts))
    return " ".join(out)


def split(files):
    return {p: [words(t) for t in ts] for p, ts in files.items()}


def initial(sc):
    m = {}
    for x in "abcd":
        m[x] = Poly({("n",): 1, (): sc.get(x, 0)})
    for x in "pqr":
        m[x] = sc.get(x, False)
    return m


def expected(src, entries, sc):
    ref = Ref({k: Cell(v) for k, v in initial(sc).items()},
              {"n": Poly.atom("n")})
    ref.run(src)
    for p in entries:
        body, env = ref.ifaces[p]
        from ..refsem import Env
        ref.block(body, Env(env), None)
    return {k: ref.top[k].v for k in "abcdpqr"}, ref.log


def actual(files, entries, sc, fuel=3000):
    init = {S(k): (Poly.const(int(v)) if isinstance(v, bool) else v)
            for k, v in initial(sc).items()}
    m = Machine(init, files, fuel=fuel)
    m.strict = True
    for p in ["main"] + entries:
        if p not in files:
            raise Bad("no function file %s" % p)
        m.run(files[p])
    return ({k: m.scores[S(k)] for k in "abcdpqr"},
            [logtext(w) for w in m.log if not (w[0].text == "scoreboard")])


def differ(src, entries, split_files, tier):
    """First difference between the commands and the program's meaning."""
    n = 0
    for sc in P.scenarios(src, tier):
        want, wlog = expected(src, entries, sc)
        at = ", ".join("%s=%s" % (k, ("n%+d" % v) if not isinstance(v, bool) else v)
                       for k, v in sc.items())
        try:
            got, glog = actual(split_files, entries, sc)
        except Bad as e:
            return n, "with %s: %s" % (at, e)
        n += 1
        if glog != wlog:
            return n, "with %s, executes %s instead of %s" % (at, glog, wlog)
        for k in want:
            w = want[k]
            w = Poly.const(int(w)) if isinstance(w, bool) else w
            if got[k] != w:
                return n, "with %s, %s becomes %s instead of %s" % (at, k, got[k], w)
    return n, None


def short(src, pre=(P.FPRE, P.PRE)):
    for p in pre:
        if src.startswith(p):
            src = "..." + src[len(p):]
            break
    return re.sub(r"\n", "\\\\n", src.strip("\n"))


def listing(files):
    return " | ".join("%s: %s" % (p, "; ".join(
        show(t) for t in ts if not show(t).startswith(("#", "scoreboard objectives"))))
        for p, ts in files.items())[:1500]


def judge_program(lab, rules, src, entries, tier, **cfg):
    accept, run = rules
    out = []

    def thunk():
        lab.start({"main": src})
        return lab.run_compiler(**cfg)
    for kind, v, trace in lab.I.run(thunk):
        if kind == "undecided":
            out.append((None, v, True, ""))
        elif kind == "raise":
            if not trace:
                out.append((accept, short(src), False, "the compiler refuses it (%s)" % v.name))
        else:
            out.append((accept, short(src), True, ""))
            try:
                n, d = differ(src, entries, split(v), tier)
            except (Undecided, Refused) as e:
                out.append((None, "oracle: %s" % e, True, ""))
                continue
            out.append((run, short(src), d is None,
                        "" if d is None else "%s (commands: %s)" % (d, listing(v))))
    return out


def check(chk, repo):
    cx = Ctx(repo)
    chk.rule("R1", "a loop runs its body exactly while its condition holds, re-evaluated "
                   "before every round; `for` runs once per element, in order")
    chk.rule("R2", "a call runs the body once with the given (or default) arguments, hands back "
                   "its result, and changes the caller's variables only through references")
    chk.rule("R3", "definitions, assignments, references, structs and branches keep exactly the "
                   "variables they name")
    chk.rule("R4", "an interface file runs the interface's body")
    chk.rule("R5", "a correct program is accepted")
    chk.rule("R6", "statements that share functions and variables do not disturb each other")
    lab = Whole(cx)
    cases = [("R1", s, []) for s in P.loops() + P.fors()]
    cases += [("R2", s, []) for s in P.functions()]
    cases += [("R3", s, []) for s in P.structs() + P.misc()]
    cases += [("R6", s, []) for s in P.histories(chk.tier)]
    cases += [("R4", s, e) for s, e in P.interfaces()]

    def judge(case):
        rule, src, entries = case
        return judge_program(lab, ("R5", rule), src, entries, chk.tier, optimizer=False)
    run_cases(chk, cx, lab, cases, judge)
    chk.assume("integers start at known offsets from the unknown literal n; booleans are 0 or 1")
    for r, n in (("R1", 60), ("R2", 150), ("R3", 25), ("R4", 7), ("R5", 400), ("R6", 150)):
        chk.floor(r, n)
