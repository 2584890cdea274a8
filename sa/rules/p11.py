"""P11: compile-time code computes what it says."""
from ..ctx import Ctx
from ..absint import K
from ..whole import FsWhole
from ..ctprogs import programs
from ..scen import run_cases
from .p09 import found, where


def judge(lab, case):
    rule, text, want = case
    out = []

    def thunk():
        lab.start({"main.aca": text})
        return lab.run_compiler()
    for how, v, trace in lab.I.run(thunk):
        name = text.strip().split("\n")[0]
        if how == "undecided" and v in ("too long", "endless loop"):
            out.append((rule, name, False, "compiling does not come to an end"))
        elif how == "undecided" or trace:
            out.append((None, v if how == "undecided" else "branch", True, ""))
        elif how == "raise" and v.name != "Error":
            out.append((rule, name, False, "the compiler crashes with %s" % v.name))
        elif how == "raise":
            kind, line, mod = found(lab, v, 0)
            lines = text.split("\n")
            out.append((rule, lines[line - 1].strip() if line else name, False,
                        "a correct program is refused: %s" % where(kind, line, mod)))
        else:
            got = []
            for p, ts in v.items():
                for t in ts:
                    if not isinstance(t, K):
                        continue
                    if t.v.startswith("say "):
                        got.append(t.v)
            units = text.split("\n")
            for i, w in enumerate(want):
                g = got[i] if i < len(got) else None
                if g is None or g != w:
                    k = w.split(" ")[1]
                    src = body(units, k)
                    out.append((rule, src, False, "shows %r instead of %r" % (
                        g and g.split(" ", 2)[-1], w.split(" ", 2)[-1])))
                    break
                out.append((rule, "program", True, ""))
            else:
                out.append((rule, name, len(got) == len(want), "shows more than the program says"))
    return out


def body(lines, k):
    """The part of a program that belongs to item `k`."""
    i = next((i for i, x in enumerate(lines) if x.lstrip().startswith("/say %s " % k)), None)
    if i is None:
        return "item %s" % k
    j = i
    while j > 0 and not lines[j - 1].lstrip().startswith("/say "):
        j -= 1
    return " / ".join(x.strip() for x in lines[j:i + 1])


def check(chk, repo):
    cx = Ctx(repo)
    chk.rule("R1", "constant expressions have their value, at run level and in const functions")
    chk.rule("R2", "const functions execute their statements and bind their arguments as written")
    chk.rule("R3", "operations on lists in const functions change exactly the list they are applied to")
    chk.rule("R4", "list constructors and operations yield the elements in order")
    chk.rule("R5", "maps hold exactly one value per key, keys of different types being different, "
                   "in order of insertion")
    chk.rule("R6", "constants cross between compile-time and run-time code unchanged")
    lab = FsWhole(cx)
    run_cases(chk, cx, lab, programs(chk.tier == "thorough"), lambda c: judge(lab, c))
    for r, n in (("R1", 900), ("R2", 60), ("R3", 350), ("R4", 130), ("R5", 450), ("R6", 20)):
        chk.floor(r, n)
