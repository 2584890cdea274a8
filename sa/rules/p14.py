"""P14: modules are found, run once, shared, and bind the names an import says."""
from ..ctx import Ctx
from ..absint import Undecided
from ..whole import FsWhole
from ..modprogs import graphs, places, lookup, refused, scopes, expected
from ..refsem import Refused
from ..mcsem import Bad, words
from ..scen import run_cases
from .p06 import short
from .p09 import found, where
from .p12 import LibWorld


def shown(e):
    if isinstance(e, tuple) and e[0] == "show":
        return "show " + "".join(str(t) for t, _ in e[3])
    return e


def one(lab, case):
    return (no if case[0] in ("R5", "R7") else yes)(lab, case)


def runs(lab, files, **cfg):
    def thunk():
        lab.start(files)
        return lab.run_compiler(**cfg)
    return lab.I.run(thunk)


def yes(lab, case):
    """Judges without and with optimizer and separate init file."""
    out = yes1(lab, case, [], optimizer=False)
    if case[0] == "R2":
        rule, what, files, histories = case
        out += yes1(lab, (rule, what + ", separate init file", files, histories), ["init"], split_init=True)
    return out


def yes1(lab, case, first, **cfg):
    rule, what, files, histories = case
    out = []
    try:
        want = expected(files, histories)
    except (Undecided, Refused) as e:
        return [(None, "reference: %s" % e, True, "")]
    for how, v, trace in runs(lab, files, **cfg):
        if how == "undecided" or trace:
            out.append((None, v if how == "undecided" else "branch", True, ""))
        elif how == "raise":
            out.append(("R4", what, False, "the compiler %s" % (
                "refuses it: %s" % where(*found(lab, v, 0)) if v.name == "Error" else "crashes with %s" % v.name)))
        else:
            out.append(("R4", what, True, ""))
            try:
                texts = {p: [words(t) for t in ts] for p, ts in v.items()}
            except Undecided as e:
                out.append((None, "commands: %s" % e, True, ""))
                continue
            for h, log in zip(histories, want):
                w = LibWorld(texts)
                name = what + (" [%s]" % " ".join(h) if len(histories) > 1 else "")
                try:
                    for e in first + h:
                        w.run(texts[e])
                except Bad as e:
                    out.append((rule, name, False, str(e)))
                    continue
                except Undecided as e:
                    out.append((None, "execution: %s" % e, True, ""))
                    continue
                got = [shown(e) for e in w.events]
                i = next((i for i, (x, y) in enumerate(zip(got + [None], log + [None])) if x != y), None)
                out.append((rule, name, got == log, "" if got == log else
                            "after %s it does `%s` instead of `%s` (program: %s)" % (
                                "`%s`" % got[i - 1] if i else "nothing", got[i] if i < len(got) else "nothing",
                                log[i] if i < len(log) else "nothing",
                                "\\n".join(files["main.aca"].split("\n"))[:400])))
    return out


def no(lab, case):
    rule, what, files, kind, line, mod = case
    out = []
    for how, v, trace in runs(lab, files, optimizer=False):
        if how == "undecided" and v in ("too long", "endless loop", "recursion"):
            out.append((rule, what, False, "the compiler does not come to an end"))
        elif how == "undecided" or trace:
            out.append((None, v if how == "undecided" else "branch", True, ""))
        elif how != "raise":
            out.append((rule, what, False, "is accepted instead of reporting %s" % where(kind, line, mod)))
        elif v.name != "Error":
            out.append((rule, what, False, "the compiler crashes with %s" % v.name))
        else:
            got = found(lab, v, 0)
            out.append((rule, what, got == (kind, line, mod), "" if got == (kind, line, mod) else
                        "reports %s instead of %s" % (where(*got), where(kind, line, mod))))
    return out


def check(chk, repo):
    cx = Ctx(repo)
    chk.rule("R1", "whatever the modules import, each body runs once per run of the program, when its first "
                   "import is reached, and every importer uses the same variables")
    chk.rule("R2", "an import statement at any place runs a module that was not run yet, and binds the names it says")
    chk.rule("R3", "a module is looked up where its dots and packages say, and is the same however it is reached")
    chk.rule("R4", "correct imports are accepted")
    chk.rule("R5", "imports of what is not there, not exported or still loading are refused")
    chk.rule("R6", "a name means what the scopes around its place in the text bind it to")
    chk.rule("R7", "names out of scope, names defined twice in a scope, and results and self out of place are refused")
    lab = FsWhole(cx)
    lab.I.fuel0 = 10 ** 8
    cases = graphs(chk.tier == "thorough") + places() + lookup() + refused() + scopes()
    run_cases(chk, cx, lab, cases, lambda c: one(lab, c))
    for r, n in (("R1", 20), ("R2", 20), ("R3", 60), ("R4", 60), ("R5", 30), ("R6", 15), ("R7", 10)):
        chk.floor(r, n)
