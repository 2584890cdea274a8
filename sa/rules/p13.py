"""P13: what the command writes is complete, placed and named as configured, and a
function of its input."""
import json
import re

from ..ctx import Ctx
from ..absint import Undecided
from ..cliworld import CliWhole
from ..packprogs import GOOD, BAD, REFUSED, MOD
from ..scen import run_cases
from ..whole import Whole
from .. import entprogs as E

OLD = {"main.mcfunction": "# old main\n", "_acacia/acalib999.mcfunction": "# stale\n",
       "note.txt": "mine\n", "sub/fn/x.mcfunction": "# old x\n", "tick.json": "{}"}
SRC = {"m.aca": MOD, "bad.aca": "x := y\n", "own.txt": "user\n", "up/own.txt": "up\n", "up/sub": "up\n"}


def defaults(**kw):
    d = dict(out="main.acaout", root="", main="main", internal="_acacia", init=None, update=False)
    d.update(kw)
    return d


# (arguments, what they mean)
LAYOUTS = [
    ([], {}), (["-o", "out"], dict(out="out")), (["--out", "fresh"], dict(out="fresh")),
    (["-o", "out", "-u"], dict(out="out", update=True)),
    (["-o", "out", "-f", "sub/fn"], dict(out="out", root="sub/fn")),
    (["-o", "out", "-f", "/sub//fn/", "-u"], dict(out="out", root="sub/fn", update=True)),
    (["-o", "out", "-m", "go1"], dict(out="out", main="go1")),
    (["-o", "fresh", "-i"], dict(out="fresh", init="init")),
    (["-o", "fresh", "-i", "boot", "-f", "x"], dict(out="fresh", init="boot", root="x")),
    (["-o", "fresh", "--internal-folder", "inn"], dict(out="fresh", internal="inn")),
    (["-o", "fresh", "--internal-folder", "inn", "-m", "go1", "-i", "boot", "-f", "k/l", "-O", "-d"],
     dict(out="fresh", internal="inn", main="go1", init="boot", root="k/l")),
    (["-o", "fresh", "--override-old", "-O"], dict(out="fresh", update=True)),
    (["-o", "fresh", "-v", "1.19.50"], dict(out="fresh")), (["-o", "fresh", "-v", "1.21"], dict(out="fresh")),
    (["-o", "fresh", "--max-inline-file-size", "0"], dict(out="fresh")),
    (["-o", "fresh", "-e", "--verbose"], dict(out="fresh")),
]

# options that only rename: (arguments, [(placeholder, default)])
NAMES = [
    (["-s", "zzscb"], [("zzscb", "acacia")]), (["-t", "zztag"], [("zztag", "acacia")]),
    (["-f", "zzf/zzg"], [("zzf/zzg/", "")]), (["-m", "zzmain"], [("zzmain", "main")]),
    (["--internal-folder", "zzint"], [("zzint", "_acacia")]),
    (["-i", "zzinit"], [("zzinit", "init")]),
    (["-s", "zzscb", "-t", "zztag", "-f", "zzf", "-m", "zzmain", "--internal-folder", "zzint"],
     [("zzscb", "acacia"), ("zztag", "acacia"), ("zzf/", ""), ("zzmain", "main"), ("zzint", "_acacia")]),
    (["--scoreboard", "zzscb", "--entity-tag", "zztag", "--function-folder", "zzf", "--main-file",
      "zzmain", "--init-file", "zzinit", "--internal-folder", "zzint"],
     [("zzscb", "acacia"), ("zztag", "acacia"), ("zzf/", ""), ("zzmain", "main"), ("zzint", "_acacia"),
      ("zzinit", "init")]),
]


# paths of interfaces: (path, options, is the path taken by the compiler?)
IP = [(p, a, p.lower() in (m, b) or p.lower().startswith(f + "/"))
      for a, m, f, b in (([], "main", "_acacia", None), (["-m", "go1"], "go1", "_acacia", None),
      (["-i"], "main", "_acacia", "init"), (["-i", "Boot"], "main", "_acacia", "boot"),
      (["--internal-folder", "Inn"], "main", "inn", None),
      (["-m", "GO1", "-i", "boot", "--internal-folder", "k", "-f", "sub"], "go1", "k", "boot"))
      for p in ("main", "MAIN", "go1", "Go1", "init", "boot", "BOOT", "_acacia/x", "_acacia/x/y", "_ACACIA/x",
                "inn/x", "INN/lib/x", "k/x", "main1", "amain", "a/main", "_acaciax", "x/_acacia", "x/_acacia/y",
                "init1", "a/init", "k1/x", "x/k/x", "inner/x", "tick1", "x/tick")]


def cases(deep):
    out = [("path",) + x for x in IP] + [("twice", a, b) for a, b in (
        ("x", "x"), ("a/x", "a/x"), ("a/x", "A/x"), ("x", "X"), ("x", "y"), ("a/x", "b/x"), ("a/x", "x"), ("x", "x/x"))]
    for n in GOOD:
        for args, how in LAYOUTS:
            if deep or n in ("plain", "iface") or n == "all" and "-v" not in args or len(args) in (0, 2, 4):
                out.append(("layout", n, args, defaults(**how)))
    for n in BAD:
        for args in ([], ["-o", "out"], ["-o", "out", "-u"], ["-o", "out", "-u", "-f", "sub"],
                     ["-o", "fresh"]):
            out.append(("bad", n, args))
    for r in REFUSED:
        for rest in ([], ["-u", "-o", "out"]) if "-o" not in r else ([], ["-u"]):
            out.append(("refused", r + rest))
    out += [("missing", ["-o", "out", "-u"]), ("folder", ["-o", "out", "-u"]),
            ("occupied", ["-o", "own.txt"]), ("occupied", ["-o", "own.txt", "-u"]),
            ("occupied", ["-o", "up", "-f", "sub"]), ("occupied", ["-o", "up", "-f", "sub/k"])]
    ents = E.methods() + E.news() + E.groups() + E.filters() + E.fields()
    out += [("hash", s, bool(i % 2)) for i, s in enumerate(ents[::1 if deep else 3])]
    for n in GOOD:
        for args, names in NAMES:
            if deep or n in ("all", "iface", "module"):
                out.append(("names", n, args, names))
        for args in ([], ["-O"], ["-i"]):
            out.append(("debug", n, args))
            out.append(("order", n, args))
            out.append(("again", n, args))
        for args in ([], ["-O"]):
            out.append(("split", n, args))
        for enc in ("utf-8", "utf-16", "gbk"):
            out.append(("encoding", n, enc))
    return out


def lines(text):
    return [l for l in text.split("\n") if l.strip() and not l.startswith("#")]


class Runs:
    def __init__(self, lab):
        self.lab = lab

    def go(self, program, args, extra=None, main="main.aca", **kw):
        """Run the command in a world with old output; ([status, said, before, after])."""
        files = {}
        for d in ("out", "main.acaout"):
            files.update({d + "/" + n: t for n, t in OLD.items()})
        files.update(SRC)
        if program is not None:
            files["main.aca"] = program
        files.update(extra or {})
        lab = self.lab

        def thunk():
            lab.start(files, [main] + list(args), dirs=["folder.aca"], **kw)
            before = lab.final()
            st = lab.main()
            return st, list(lab.said), before, lab.final(), list(lab.events), list(lab.opened)
        lab.I.sets_backwards = bool(kw.get("backwards"))
        try:
            res = lab.I.run(thunk)
        finally:
            lab.I.sets_backwards = False
        if len(res) != 1 or res[0][0] != "value":
            raise Undecided("%s" % (res[0][1] if res[0][0] == "undecided" else
                                    "branch" if len(res) > 1 else "raise %s" % res[0][1].name))
        return res[0][1]

    def pack(self, program, args, **kw):
        """Output files of a run into a fresh folder."""
        st, said, before, after, ev, op = self.go(program, ["-o", "fresh"] + list(args), **kw)
        if st != 0:
            raise Undecided("exit status %s: %s" % (st, said))
        return {p[len("/w/fresh/"):]: t for p, t in after.items() if p.startswith("/w/fresh/")}


def one(lab, case):
    R = Runs(lab)
    kind = case[0]
    out = []

    def ob(rule, what, ok, msg=""):
        out.append((rule, what, bool(ok), "" if ok else msg))
    try:
        globals()["k_" + kind](R, ob, *case[1:])
    except Undecided as e:
        out.append((None, "%s: %s" % (kind, e), True, ""))
    return out


def same_but(before, after, inside=()):
    """Files outside `inside` that appeared, changed or went away."""
    return sorted(p for p in set(before) | set(after)
                  if before.get(p) != after.get(p) and p not in inside)


def cmdline(args):
    return " ".join(a if a and " " not in a else repr(a) for a in args)


def k_layout(R, ob, name, args, how):
    what = "%s: acacia main.aca %s" % (name, cmdline(args))
    st, said, before, after, ev, op = R.go(GOOD[name], args)
    ob("R1", what, st == 0, "exit status %s: %s" % (st, said))
    if st != 0:
        return
    top = "/w/%s/" % how["out"]
    root = how["root"] + "/" if how["root"] else ""
    written = sorted({p for k, p in ev if k == "write"})
    # where it writes and removes
    bad = [p for p in written if not p.startswith(top)]
    bad += [p for k, p in ev if k == "remove" and (
        p + "/" != top + root or not how["update"])]
    ob("R2", what, not bad, "touches %s" % ", ".join(bad))
    rel = {p[len(top):] for p in written}
    fn = {p[len(root):-len(".mcfunction")] for p in rel
          if p.startswith(root) and p.endswith(".mcfunction")}
    odd = [p for p in rel if p != "tick.json" and not (p.startswith(root) and p.endswith(".mcfunction"))]
    ob("R3", what + " places its files", not odd, "also writes %s" % ", ".join(odd))
    want = {how["main"]}
    if how["init"]:
        want.add(how["init"])
    want |= {"iface": {"a/b/C.d", "q"}, "all": {"a/b", "go"}}.get(name, set())
    lib = {p for p in fn if p.startswith(how["internal"] + "/")}
    ob("R3", what + " writes main, init and interfaces", fn - lib == want,
       "function files %s instead of %s" % (sorted(fn - lib), sorted(want)))
    ticks = name in ("tick", "all")
    ob("R3", what + " writes tick.json", ("tick.json" in rel) == ticks,
       "tick.json is %swritten" % ("not " if ticks else ""))
    texts = {p[len(top):]: after[p] for p in written if p in after}
    lost = [p for p in written if p not in after]
    ob("R3", what + " keeps what it wrote", not lost, "%s is gone" % ", ".join(lost))
    calls = set()
    for p, t in texts.items():
        if p.endswith(".mcfunction"):
            for l in lines(t):
                calls |= set(re.findall(r"(?:^|\srun )function (\S+)", l))
    if ticks and "tick.json" in texts:
        try:
            data = json.loads(texts["tick.json"])
            ok = list(data) == ["values"] and len(data["values"]) == 1
            calls |= set(data["values"])
        except (ValueError, TypeError, KeyError):
            ok = False
        ob("R3", what + " lists the tick function", ok, "tick.json is %s" % texts["tick.json"])
        tick = texts.get((data["values"][0] if ok else "") + ".mcfunction", "")
        ob("R3", what + " ticks", "tick" in tick or "function" in tick,
           "the listed function does not run the loop: %s" % tick)
    miss = sorted(c for c in calls if c + ".mcfunction" not in texts)
    ob("R3", what + " defines the functions it calls", not miss, "no file for function %s" % ", ".join(miss))
    # nothing else changed
    kept = {p for p in before if p.startswith(top + root)} if how["update"] else set()
    other = same_but(before, after, set(written) | kept)
    ob("R2", what + " leaves other files alone", not other, "changes %s" % ", ".join(other))
    stale = sorted(p for p in kept if p in after and p not in written)
    ob("R2", what + " removes the old output", not stale, "%s remains" % ", ".join(stale))
    defined(ob, what, texts, root + (how["init"] or how["main"]) + ".mcfunction")


def defined(ob, what, texts, first):
    """Objectives are created, once, by the file to run first."""
    made = re.findall(r"^scoreboard objectives add (\S+) dummy", texts.get(first, ""), re.M)
    used = set()
    for p, t in texts.items():
        if not p.endswith(".mcfunction"):
            continue
        for l in lines(t):
            for m in re.finditer(r"scoreboard players (\w+) (\"[^\"]*\"|@\w(?:\[.*?\])?(?= )|\S+) (\S+)"
                                 r"(?: \S+ (\"[^\"]*\"|@\w(?:\[.*?\])?(?= )|\S+) (\S+))?", l):
                used.add(m.group(3))
                if m.group(1) == "operation":
                    used.add(m.group(5))
            used |= set(re.findall(r'"objective": ?"([^"]+)"', l))
            for m in re.findall(r"scores=\{([^}]*)\}", l):
                used |= {x.split("=")[0] for x in m.split(",")}
    ob("R4", what + " creates its objectives", used <= set(made),
       "%s used but never created" % ", ".join(sorted(map(str, used - set(made)))))
    ob("R4", what + " creates an objective once", len(made) == len(set(made)), "%s" % made)


def k_bad(R, ob, name, args):
    src, mention = BAD[name]
    what = "%s: acacia main.aca %s" % (name, cmdline(args))
    st, said, before, after, ev, op = R.go(src, args)
    err = " ".join(t for to, t in said if to == "err")
    ob("R1", what, st == 1 and mention in err and "crash" not in err,
       "exit status %s, says %s" % (st, said))
    ch = same_but(before, after)
    ob("R5", what, not ch, "a refused program changes %s" % ", ".join(ch))


def k_refused(R, ob, args):
    what = "acacia main.aca %s" % cmdline(args)
    st, said, before, after, ev, op = R.go(GOOD["plain"], args)
    ob("R1", what, st not in (0, None) and any(to == "err" and "crash" not in t for to, t in said),
       "exit status %s, says %s" % (st, said))
    ob("R5", what, not same_but(before, after), "changes %s" % ", ".join(same_but(before, after)))


def k_path(R, ob, path, args, taken):
    """An interface whose path the compiler's own files have is refused; others are written."""
    what = "interface %s: acacia main.aca %s" % (path, cmdline(args))
    st, said, before, after, ev, op = R.go("interface %s:\n    /say from %s\n" % (path, path), args + ["-o", "fresh"])
    if taken:
        ob("R1", what, st == 1 and any(to == "err" and path in t and "crash" not in t for to, t in said),
           "exit status %s, says %s although the path is the compiler's" % (st, said))
        ob("R5", what, not same_but(before, after), "changes %s" % ", ".join(same_but(before, after)))
        return
    ob("R1", what, st == 0, "exit status %s, says %s" % (st, said))
    root = "/w/fresh/sub/" if "-f" in args else "/w/fresh/"
    text = after.get(root + path + ".mcfunction", "")
    ob("R3", what, st != 0 or "say from " + path in text, "its file holds %r" % text[:80])


def k_twice(R, ob, a, b):
    what = "interfaces %s and %s" % (a, b)
    st, said, before, after, ev, op = R.go(
        "interface %s:\n    /say 1\ninterface %s:\n    /say 2\n" % (a, b), ["-o", "fresh"])
    if a.lower() == b.lower():      # the same file where case does not matter
        ob("R1", what, st == 1 and any(to == "err" and "crash" not in t for to, t in said),
           "exit status %s, says %s: one overwrites the other" % (st, said))
    else:
        ok = st == 0 and all("say %d" % (i + 1) in after.get("/w/fresh/%s.mcfunction" % p, "")
                             for i, p in enumerate((a, b)))
        ob("R3", what, ok, "exit status %s, %s" % (st, said))


def k_missing(R, ob, args):
    k_refused_main(R, ob, "gone.aca", args)


def k_folder(R, ob, args):
    k_refused_main(R, ob, "folder.aca", args)


def k_refused_main(R, ob, main, args):
    what = "acacia %s %s" % (main, cmdline(args))
    st, said, before, after, ev, op = R.go(None, args, main=main)
    ob("R1", what, st not in (0, None) and any(to == "err" and "crash" not in t for to, t in said),
       "exit status %s, says %s" % (st, said))
    ob("R5", what, not same_but(before, after), "changes %s" % ", ".join(same_but(before, after)))


def k_occupied(R, ob, args):
    what = "acacia main.aca %s (own.txt and up/sub are files)" % cmdline(args)
    st, said, before, after, ev, op = R.go(GOOD["iface"], args)
    ob("R1", what, st not in (0, None) and any(to == "err" and "crash" not in t for to, t in said),
       "exit status %s, says %s" % (st, said))
    ob("R5", what, not same_but(before, after), "changes %s" % ", ".join(same_but(before, after)))


def k_names(R, ob, name, args, names):
    what = "%s: acacia main.aca %s" % (name, cmdline(args))
    a = R.pack(GOOD[name], args)
    b = R.pack(GOOD[name], ["-i"] if any(x in args for x in ("-i", "--init-file")) else [])

    def ren(t):
        for x, y in names:
            t = t.replace(x, y)
        return t
    got = {ren(p): ren(t) for p, t in a.items()}
    diff = sorted(set(got) ^ set(b))
    ob("R6", what + " (files)", not diff, "files differ beyond their names: %s" % ", ".join(diff))
    for p in sorted(set(got) & set(b)):
        if got[p] != b[p]:
            x, y = [(x, y) for x, y in zip(got[p].split("\n") + [""], b[p].split("\n") + [""]) if x != y][0]
            ob("R6", what, False, "%s: %r, by default %r" % (p, x, y))
            break
    else:
        ob("R6", what, True)
    # every name follows the option
    for x, y in names:
        if x in ("zzscb", "zztag"):
            t = "\n".join("\n".join(lines(v)) for p, v in sorted(a.items()))
            pat = r"objectives add (\w+)" if x == "zzscb" else r"(?:tag=!?|tag @\S+ (?:add|remove) )(\w+)"
            bad = sorted({m for m in re.findall(pat, t) if not m.startswith(x) and m != "zz"})
            ob("R6", what + " (%s)" % x, not bad, "%s does not follow the option" % ", ".join(bad))


def k_debug(R, ob, name, args):
    what = "%s: acacia main.aca -d %s" % (name, cmdline(args))
    a, b = R.pack(GOOD[name], ["-d"] + args), R.pack(GOOD[name], args)
    x, y = ({p: lines(t) for p, t in d.items()} for d in (a, b))
    diff = sorted(p for p in set(x) | set(y) if x.get(p) != y.get(p))
    ob("R7", what, not diff, "debug comments change the commands of %s" % ", ".join(diff))


def k_order(R, ob, name, args):
    what = "%s: acacia main.aca %s" % (name, cmdline(args))
    a, b = R.pack(GOOD[name], args), R.pack(GOOD[name], args, backwards=True)
    diff = sorted(p for p in set(a) | set(b) if a.get(p) != b.get(p))
    ob("R8", what + " with other hash and directory orders", not diff,
       "the contents of %s depend on it" % ", ".join(diff))


def k_hash(R, ob, src, opt):
    """Programs with entities: the order of sets of objects does not show."""
    lab = R.lab.entities
    got = []
    for backwards in (False, True):
        def thunk():
            lab.start({"main": src})
            return {p: [repr(t) for t in ts] for p, ts in lab.run_compiler(optimizer=opt).items()}
        lab.I.sets_backwards = backwards
        try:
            res = lab.I.run(thunk)
        finally:
            lab.I.sets_backwards = False
        if len(res) != 1 or res[0][0] != "value":
            raise Undecided("a program with entities: %s" % (res[0][1] if res[0][0] == "undecided" else res[0][0]))
        got.append(res[0][1])
    a, b = got
    diff = sorted(p for p in set(a) | set(b) if a.get(p) != b.get(p))
    ob("R8", "...%s with other hash orders" % src[-150:].replace("\n", " / "), not diff,
       "the contents of %s depend on it" % ", ".join(diff))


def k_again(R, ob, name, args):
    """A compilation does not depend on an earlier one in the process."""
    what = "%s: acacia main.aca %s" % (name, cmdline(args))
    a = R.pack(GOOD[name], args)
    lab = R.lab
    other = GOOD["all"] if name != "all" else GOOD["module"]
    main = lab.main

    def twice():
        old = lab.args
        lab.args = ["other.aca", "-o", "elsewhere"]
        main()
        lab.args = old
        lab.ntok = 0
        return main()
    lab.main = twice
    try:
        b = R.pack(GOOD[name], args, extra={"other.aca": other})
    finally:
        del lab.main
    diff = sorted(p for p in set(a) | set(b) if a.get(p) != b.get(p))
    ob("R8", what + " after another compilation", not diff,
       "the contents of %s depend on it" % ", ".join(diff))


def k_split(R, ob, name, args):
    what = "%s: acacia main.aca -i %s" % (name, cmdline(args))
    a, b = R.pack(GOOD[name], args), R.pack(GOOD[name], args + ["-i"])
    init, main = lines(b.pop("init.mcfunction", "")), lines(b.get("main.mcfunction", ""))
    got = init + main
    want = lines(a.get("main.mcfunction", ""))
    ob("R7", what, got == want, "init and main together differ from the main file without -i")
    x, y = ({p: lines(t) for p, t in d.items() if p != "main.mcfunction"} for d in (a, b))
    diff = sorted(p for p in set(x) | set(y) if x.get(p) != y.get(p))
    ob("R7", what + " (rest)", not diff, "%s differ" % ", ".join(diff))
    late = [l for l in main if l.startswith("scoreboard objectives add")]
    ob("R7", what + " (main)", not late, "%s is not in the init file" % late)


def k_encoding(R, ob, name, enc):
    what = "%s: acacia main.aca --encoding %s" % (name, enc)
    st, said, before, after, ev, op = R.go(GOOD[name], ["--encoding", enc, "-o", "fresh"])
    ob("R1", what, st == 0, "exit status %s: %s" % (st, said))
    bad = sorted({p for p, mode, e in op if getattr(e, "v", None) != enc and not p.startswith(R.lab.LIB)})
    ob("R7", what, not bad, "%s opened with another encoding" % ", ".join(bad))


def check(chk, repo):
    cx = Ctx(repo)
    chk.rule("R1", "the command succeeds on correct programs and options, and otherwise exits with a "
                   "status and a diagnostic")
    chk.rule("R2", "files are written below the output folder only, and removed only below the "
                   "function folder when asked to override")
    chk.rule("R3", "the pack holds main, init, interface, tick and library files at their configured "
                   "places, and every function that is called or listed")
    chk.rule("R4", "every objective used is created by the file to run first")
    chk.rule("R5", "a refused program or option leaves every file as it was")
    chk.rule("R6", "naming options rename, and do nothing else")
    chk.rule("R7", "debug comments, a separate init file and encodings do not change the commands")
    chk.rule("R8", "the output is a function of program and options")
    lab = CliWhole(cx)
    lab.entities = Whole(cx)
    lab.entities.I.fuel0, lab.entities.I.depth0 = 3000000, 400
    run_cases(chk, cx, lab, cases(chk.tier == "thorough"), lambda c: one(lab, c))
    for r in ("R1", "R2", "R3", "R4", "R5", "R6", "R7", "R8"):
        chk.floor(r, 10)
