"""P05: conditions select exactly what they say."""
import itertools
import re

from ..ctx import Ctx
from ..absint import Lin
from ..lab import Lab, S, show, log_words
from ..scen import run_cases
from ..mcsem import Poly, Bad, words

CMP = ["<", "<=", ">", ">=", "==", "!="]
MAXI, MINI = 2 ** 31 - 1, -2 ** 31


def spec_of(text):
    return " ".join(re.findall(r"<=|>=|==|!=|[-+*]=|[a-zA-Z]+|#?\d+|[-+*()<>]", text))


def py_of(text):
    return text.replace("#", "")


def variables(text):
    return sorted(set(re.findall(r"\b[abcpqr]\b", text)) | (
        {"tb"} if re.search(r"\btb\b", text) else set()))


def atoms():
    out = ["p", "not p", "True", "False"]
    for op in CMP:
        out += ["a%sb" % op, "a%sn" % op, "n%sa" % op, "a%s#3" % op]
    out += ["a-b+c<n", "n>=a+#1", "a+#1==b", "b!=a-#1", "#1<#2", "#2==#3",
            "p==q", "p!=q", "p==True", "p!=True", "False==p", "False!=p",
            "(a<b)==p", "p!=(a<n)", "(a<b)==(b<c)", "(not p)==q", "q==(not p)",
            "(not p)!=(not q)", "(p and q)==r", "(not (p and q))==r",
            "n<=a<b", "a<b<c", "a==b==c", "n-#1<a<n+#1", "a<n<b", "n<a!=b", "n<=a<=n+#1",
            "a>=n and a<=n", "a>n-#1 and a<n+#1 and b!=a",
            "a!=n!=b"]
    return out


SMALL = ["p", "not p", "q", "True", "False", "a<b", "a!=b", "a<n", "a>n", "a<=n", "a>=n",
         "a==n", "a!=n", "a==n+#1", "b<n", "n<a", "n<=a<=b", "p==q", "(a<b)==p",
         "a-b+c<n", "not (p and q)", "not (a<n and p)", "(p or q)", "(a<n or b<n)",
         "(p and a>n)", "not a<n", "not (a<b)", "(not p or a==n)"]


def conditions(tier):
    out = []
    for x in atoms():
        out += [x, "not (%s)" % x, "not not (%s)" % x]
    for x, y in itertools.product(SMALL, SMALL):
        for op in ("and", "or"):
            out.append("%s %s %s" % (x, op, y))
    few = ["p", "a<n", "not (q and a>n)", "b>=a", "(q or a==n)"]
    if tier == "thorough":
        few += ["not p", "a!=n", "True", "False", "a>n", "a==b", "p==q", "(p and a<=n)"]
    for x, y, z in itertools.product(few, few, few):
        out += ["%s and %s and %s" % (x, y, z), "%s or %s or %s" % (x, y, z),
                "%s and %s or %s" % (x, y, z), "%s or %s and %s" % (x, y, z),
                "%s and (%s or %s)" % (x, y, z), "not (%s or %s) and %s" % (x, y, z)]
    return list(dict.fromkeys(out))


def contexts(cond, i, tier):
    """Statements with the condition and what must be observed."""
    out = [("tb = %s NL", "set", "tb")]
    two = [("if %s : NL IN /yes NL DE", "then", None),
           ("if %s : NL IN /yes NL DE else : NL IN /no NL DE", "both", None),
           ("if %s : NL IN pass NL DE else : NL IN /no NL DE", "else", None)]
    if i < 160 or tier == "thorough":
        out += [("p = %s NL", "set", "p")] + two
    else:
        # three of the remaining contexts in turn: all of them over the set
        out += [(("p = %s NL", "set", "p"), two[0], two[1], two[2])[i % 4]]
    return out


EXTRA = [
    # the chosen branch changes what the condition was computed from
    ("if a<n : NL IN a = n NL /yes NL DE else : NL IN a = n - #9 NL /no NL DE",
     "a<n", "both"),
    ("if a<b and p : NL IN p = False NL /yes NL DE else : NL IN p = True NL a = b - #1 NL "
     "/no NL DE", "a<b and p", "both"),
    ("if p : NL IN p = not p NL /yes NL DE else : NL IN p = not p NL /no NL DE", "p", "both"),
    ("if not p : NL IN p = True NL /yes NL DE else : NL IN p = False NL /no NL DE",
     "not p", "both"),
    ("if p or q : NL IN p = False NL q = False NL /yes NL DE else : NL IN p = True NL /no NL DE",
     "p or q", "both"),
    ("if p == q : NL IN p = not p NL /yes NL DE else : NL IN q = p NL /no NL DE",
     "p == q", "both"),
    ("if a==b : NL IN a += #1 NL /yes NL /yes2 NL DE", "a==b", "then2"),
    ("if p : NL IN p = False NL /yes NL /yes2 NL DE", "p", "then2"),
]
CHAIN = [
    ("a<n", "a==n"), ("p", "q"), ("a<n", "b<n"), ("p", "not q"), ("a==b", "a<b"),
    ("not p", "a<n"), ("p and q", "p or q"), ("False", "p"), ("p", "True"),
    ("a<n", "False"),
]


def scenarios(names, bounds):
    """Value maps name -> offset relative to n (or a concrete int)."""
    ints = [x for x in names if x in "abc"]
    bools = [x for x in names if x not in "abc"]
    if bounds:
        offs = [MINI, MINI + 1, -1, 0, 2, 3, 4, MAXI - 1, MAXI]
    else:
        offs = [-2, -1, 0, 1, 2] if len(ints) < 3 else [-2, -1, 0, 1]
    for iv in itertools.product(offs, repeat=len(ints)):
        for bv in itertools.product((0, 1), repeat=len(bools)):
            d = dict(zip(ints, iv))
            d.update(zip(bools, bv))
            yield d


def check(chk, repo):
    cx = Ctx(repo)
    chk.rule("R1", "assigning a condition stores its truth value, for every order of the "
                   "scores involved")
    chk.rule("R2", "exactly the branch selected by the condition runs, once and completely, "
                   "for every order of the scores involved")
    chk.rule("R3", "a supported condition is accepted")
    chk.rule("R4", "evaluating a condition changes no variable of the program")
    lab = Lab(cx)

    def run_one(stmt, expect, watched, names, bounds, out):
        """expect(values) -> (scores {name: value}, log, skip-set)"""
        def thunk():
            lab.start()
            return lab.compile([spec_of2(stmt)]) + (dict(lab.consts),)
        for kind, v, trace in lab.I.run(thunk):
            if kind == "undecided":
                out.append((None, v, True, ""))
                continue
            if kind == "raise":
                if not trace:
                    out.append(("R3", stmt, False, "the compiler refuses it (%s)" % v.name))
                continue
            out.append(("R3", stmt, True, ""))
            tx, files, consts = v
            lab.consts = consts
            bad = {}
            done = 0
            split = [words(t) for t in tx]
            splitf = {p: [words(t) for t in ts] for p, ts in files.items()}
            try:
                for sc in scenarios(names, bounds):
                    init = {}
                    for x in "abc":
                        k = sc.get(x, 0)
                        init[S(x)] = Poly.const(k) if bounds else \
                            Poly({("n",): 1, (): k})
                    for x in ("p", "q", "r", "tb"):
                        init[S(x)] = Poly.const(sc.get(x, 0))
                    m = lab.machine(init, files=splitf)
                    m.strict = True
                    try:
                        m.run(split)
                    except Bad as e:
                        bad[watched] = "wrong commands: %s" % e
                        break
                    done += 1
                    rule, scores, log, changed = expect(sc)
                    at = ", ".join("%s=%s%s" % (
                        x, "" if bounds or x not in "abc" else "n%+d " % sc[x],
                        sc[x] if bounds or x not in "abc" else "") for x in sorted(sc))
                    for x, w in scores.items():
                        g = m.scores.get(S(x))
                        if g != Poly.const(w):
                            bad.setdefault(rule, "with %s, %s becomes %s instead of %s" % (
                                at, x, g, w))
                    if log is not None and log_words(m) != log:
                        bad.setdefault(rule, "with %s, executes %s instead of %s" % (
                            at, log_words(m), log))
                    for x in ("a", "b", "c", "p", "q", "r", "tb"):
                        if x not in changed and m.scores.get(S(x)) != init[S(x)]:
                            bad.setdefault("R4", "with %s, variable %s becomes %s" % (
                                at, x, m.scores.get(S(x))))
            except lab_undecided as e:
                out.append((None, str(e), True, ""))
                if not bad:
                    continue
            if not done and not bad:
                continue
            rules = {watched, "R4"} | set(bad)
            for r in sorted(rules):
                ok = r not in bad
                out.append((r, stmt, ok, "" if ok else "%s (commands: %s%s)" % (
                    bad[r], "; ".join(map(show, tx)),
                    "".join(" | %s: %s" % (p, "; ".join(map(show, t)))
                            for p, t in files.items()))))

    def judge(case):
        out = []
        if case[0] == "cond":
            _, cond, template, what, target = case
            stmt = template % cond
            names = variables(stmt if what == "set" and False else cond)
            bounds = "#3" in cond or "#2" in cond and "n" not in cond.replace("not", "").replace("and", "")

            def expect(sc):
                t = truth(cond, sc)
                if what == "set":
                    return "R1", {target: int(t)}, [], {target}
                log = {"then": ["yes"] if t else [], "both": ["yes"] if t else ["no"],
                       "else": [] if t else ["no"]}[what]
                return "R2", {}, log, ()
            run_one(stmt, expect, "R1" if what == "set" else "R2", names, bounds, out)
        elif case[0] == "bound":
            _, op, lit, swap, neg, template, what = case
            val = {"MAX": MAXI, "MIN": MINI}[lit]
            lits = "#%d" % val if val >= 0 else "(- #%d - #1)" % MAXI
            cond = ("%s %s a" % (lits, op)) if swap else "a %s %s" % (op, lits)
            if neg:
                cond = "not (%s)" % cond
            if neg == 2:
                cond = "(%s) and a != #5" % cond

            def expect(sc):
                t = truth(cond, sc)
                if what == "set":
                    return "R1", {"tb": int(t)}, [], {"tb"}
                return "R2", {}, ["yes"] if t else ["no"], ()
            run_one(template % cond, expect, "R1" if what == "set" else "R2", ["a"], True, out)
        elif case[0] == "extra":
            _, stmt, cond, what = case

            def expect(sc):
                t = truth(cond, sc)
                log = {"both": ["yes"] if t else ["no"],
                       "then2": ["yes", "yes2"] if t else []}[what]
                return "R2", {}, log, "abcpqr"
            run_one(stmt, expect, "R2", variables(cond), False, out)
        else:
            _, c1, c2, shape = case
            stmt = "if %s : NL IN /yes NL DE elif %s : NL IN /mid NL DE" % (c1, c2)
            if shape:
                stmt += " else : NL IN /no NL DE"

            def expect(sc):
                log = ["yes"] if truth(c1, sc) else ["mid"] if truth(c2, sc) else \
                    ["no"] if shape else []
                return "R2", {}, log, ()
            run_one(stmt, expect, "R2", variables(c1 + " " + c2), False, out)
        return out

    todo = []
    for i, c in enumerate(conditions(chk.tier)):
        for t in contexts(c, i, chk.tier):
            todo.append(("cond", c) + t)
    for op in CMP:
        for lit in ("MAX", "MIN"):
            for swap in (False, True):
                for neg in (0, 1, 2):
                    todo.append(("bound", op, lit, swap, neg, "tb = %s NL", "set"))
                    todo.append(("bound", op, lit, swap, neg,
                                 "if %s : NL IN /yes NL DE else : NL IN /no NL DE", "both"))
    todo += [("extra",) + e for e in EXTRA]
    todo += [("chain", x, y, s) for x, y in CHAIN for s in (False, True)]
    run_cases(chk, cx, lab, todo, judge)
    chk.assume("scores that hold booleans are 0 or 1 before the statement; integer scores lie "
               "at known offsets from the unknown literal n (all orders and distances the "
               "generated ranges can tell apart), or at the ends of the 32 bit range")
    for r, n in (("R1", 800), ("R2", 600), ("R3", 1500), ("R4", 1000)):
        chk.floor(r, n)


from ..absint import Undecided as lab_undecided  # noqa: E402


def truth(cond, sc):
    env = {x: bool(v) if x not in "abc" else v for x, v in sc.items()}
    env["n"] = 0
    return bool(eval(py_of(cond), {"__builtins__": {}}, env))


def spec_of2(stmt):
    """Token spec of a statement template filled with a condition."""
    parts = stmt.split()
    out = []
    for w in parts:
        if w.startswith("/") or w in ("NL", "IN", "DE", ":", "="):
            out.append(w)
        else:
            out.append(spec_of(w))
    return " ".join(out)
