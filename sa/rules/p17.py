"""P17: functions of binary modules get the arguments they declare."""
import re

from ..ctx import Ctx
from ..repo import Repo
from .. import absint as A
from ..absint import K
from ..absint import Undecided
from ..whole import FsWhole
from ..scen import run_cases
from ..axeprogs import programs

SAY = re.compile(r"(?:^|.* run )say (\d+) (.*)$")


def fits(got, want):
    """`want`: acceptable texts; "refused TYPE name.." allows any message that quotes
    the names."""
    if want is None:
        return got.startswith("refused ")
    for w in want:
        if not w.startswith("refused "):
            if got == w:
                return True
            continue
        _, kind, *names = w.split(" ")
        if got.startswith("refused %s " % kind) and all(
                n[1:] in got.split('"')[1::2][0] if n[0] == "~" else '"%s"' % n in got for n in names):
            return True
    return False


class UserWhole(FsWhole):
    """The complete compiler, with a binary module of the user beside the program."""

    user = None

    def _spec(self, I, a, k):
        path = self.norm(a[1] if len(a) > 1 else k["location"])
        if path != "/w/lib.py":
            return super()._spec(I, a, k)
        m = self.repo.modules[self.user]

        def run(I, a, k):
            I.execute(m)
            return A.NONE
        ex = A.Py(run)
        return A.Atom("spec", None, {"module": A.Mod(m),
                                     "loader": A.Atom("loader", None, {"exec_module": ex})})


def said(files):
    """{item: [texts]} of the say commands of the output."""
    got = {}
    for texts in files.values():
        for t in texts:
            if not isinstance(t, (str, K)):
                raise Undecided("text %r" % (t,))
            for line in (t if isinstance(t, str) else t.v).split("\n"):
                m = SAY.match(line)
                if m:
                    got.setdefault(int(m.group(1)), []).append(m.group(2))
    return got


def judge(lab, libs, case):
    rule, what, files, want, cfg = case
    lab.user = libs[files["lib.py"]]

    def thunk():
        lab.start({"main.aca": files["main.aca"], "lib.py": files["lib.py"]})
        return lab.run_compiler(**cfg)
    out = []
    for how, v, trace in lab.I.run(thunk):
        if how == "undecided" or trace:
            out.append((None, str(v) if how == "undecided" else "branch", True, ""))
        elif want == "ChopError":
            got = "accepted" if how != "raise" else v.name
            out.append((rule, what, got == want, "the declaration is refused with %s" % got if how == "raise"
                        else "the declaration is accepted"))
        elif how == "raise":
            out.append((rule, what, False, "the program is not compiled: %s" % describe(lab, v)))
        else:
            got = said(v)
            for k, (e, w, *label) in enumerate(want):
                e = label[0] if label else e
                g = got.get(k, [])
                ok = g == w if isinstance(w, list) else len(g) == 1 and fits(g[0], w)
                out.append((rule, "%s: %s" % (what, e), ok, "" if ok else "%s gives %s, expected %s" % (
                    e, " / ".join(g) or "nothing",
                    " / ".join(w) if isinstance(w, list) else " or ".join(sorted(w)) if w else "a refusal")))
    return out


def describe(lab, v):
    if v.name != "Error" or v.val is None:
        return v.name
    kw = v.val.fields.get("error_args")
    return "%s %s" % (getattr(v.val.fields.get("type"), "name", "?"),
                      [getattr(b, "v", "?") for _, b in getattr(kw, "items", ())])


def check(chk, repo):
    chk.rule("R1", "arguments reach the parameters Python's own rules bind them to; calls Python refuses are refused")
    chk.rule("R2", "a converter accepts exactly its values and hands over what they stand for (run level)")
    chk.rule("R3", "the same for compile-time values, in const functions and at run level")
    chk.rule("R4", "the first overload that accepts the arguments at the target version is called")
    chk.rule("R5", "results and commands of functions, errors on arguments, version and edition gates")
    chk.rule("R6", "methods of objects, immutable changes and named tuples")
    chk.rule("R7", "declarations that make no sense are refused when the module is loaded")
    cs = programs(chk.tier == "thorough")
    libs = {}
    for c in cs:
        libs.setdefault(c[2]["lib.py"], "acaciamc.user_lib%d" % len(libs))
    cx = Ctx(Repo(repo.root, {n: t for t, n in libs.items()}))
    lab = UserWhole(cx)
    run_cases(chk, cx, lab, cs, lambda c: judge(lab, libs, c), "tools/")
    for r, n in (("R1", 1000), ("R2", 800), ("R3", 800), ("R4", 100), ("R5", 100), ("R6", 30), ("R7", 20)):
        chk.floor(r, n)
