"""P09: mistakes are refused with the diagnostic and line that name them."""
from ..ctx import Ctx
from .. import absint as A
from ..absint import K, Inst, Tup
from ..whole import FsWhole
from ..errprogs import programs
from ..scen import run_cases
from .p06 import short

GLOBALS = "a := 1\nb := 2\nc := 3\nd := 4\np := True\nq := False\nr := True\n"


def found(lab, v, head=GLOBALS.count("\n")):
    """(diagnostic, line, module) of the error object."""
    f = v.val.fields
    t = f.get("type")
    loc = f.get("location")
    line = mod = None
    if isinstance(loc, Inst):
        lc = loc.fields.get("linecol")
        if isinstance(lc, Tup) and isinstance(lc.items[0], K):
            line = lc.items[0].v
        fl = loc.fields.get("file")
        if isinstance(fl, K):
            mod = fl.v.rpartition("/")[2].rpartition(".")[0]
    if mod == "main" and line is not None:
        line -= head
    return getattr(t, "name", None), line, mod


def where(name, line, mod):
    return "%s%s%s" % (name, "" if line is None else " at line %s" % line,
                       "" if mod in (None, "main") else " of module %s" % mod)


def constant(v):
    return Tup([K(x) for x in v]) if isinstance(v, tuple) else K(v)


def judge(lab, case):
    kind, texts, line, mod, named, cfg = case
    name = "%s: %s" % (kind, short(texts["main"], ()))
    out = []

    def thunk():
        lab.start({n.replace(".", "/") + ".aca": (GLOBALS if n == "main" else "") + t
                   for n, t in texts.items()})
        return lab.run_compiler(**{k: constant(v) for k, v in cfg.items()})
    for how, v, trace in lab.I.run(thunk):
        if how == "undecided" and v in ("too long", "endless loop"):
            out.append(("R1", name, False, "the compiler does not come to an end"))
        elif how == "undecided":
            out.append((None, v, True, ""))
        elif trace:
            continue
        elif how != "raise":
            out.append(("R2", name, True, "") if kind == "ok" else
                       ("R1", name, False, "the compiler accepts it instead of reporting %s"
                        % where(kind, line, mod)))
        elif v.name != "Error":
            out.append(("R1", name, False, "the compiler crashes with %s" % v.name))
        else:
            got = found(lab, v)
            if kind == "ok":
                out.append(("R2", name, False, "the compiler refuses it: %s" % where(*got)))
                continue
            out.append(("R1", name, got[0] == kind, "reported as %s instead of %s" % (
                where(*got), where(kind, line, mod))))
            if line is not None and got[0] == kind:
                out.append(("R3", name, got[1:] == (line, mod), "reported as %s instead of %s" % (
                    where(*got), where(kind, line, mod))))
            try:
                msg = lab.I.to_str(v.val)
            except A.AbsRaise as e:
                out.append(("R4", name, False, "its message cannot be rendered (%s)" % e.name))
                continue
            if not isinstance(msg, K):
                out.append((None, "message of %s" % kind, True, ""))
                continue
            text = msg.v
            pos = 0
            for n in named:
                i = text.find(n if len(n) == 1 and not n.isalnum() else '"%s"' % n, pos)
                if i < 0:
                    pos = None
                    break
                pos = i + len(n)
            out.append(("R4", name, pos is not None, "the message %r does not name %s" % (
                text, ", ".join(named))))
    return out


def check(chk, repo):
    cx = Ctx(repo)
    chk.rule("R1", "a program with a static mistake is refused with that mistake's diagnostic")
    chk.rule("R2", "the correct neighbours of those programs are accepted")
    chk.rule("R3", "the diagnostic is placed on the line and in the file holding the mistake")
    chk.rule("R4", "the message can be rendered and names the constructs at fault")
    lab = FsWhole(cx)
    run_cases(chk, cx, lab, programs(), lambda c: judge(lab, c))
    for r, n in (("R1", 340), ("R2", 24), ("R3", 320), ("R4", 330)):
        chk.floor(r, n)
