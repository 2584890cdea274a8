"""P07: the optimizer changes how the output is organised, never what it does."""
import itertools
import re

from ..ctx import Ctx
from ..absint import K, Lst, Undecided
from ..whole import Whole
from ..world import World, Ent
from ..lab import S
from ..scen import run_cases
from ..mcsem import Poly, Bad, words
from .. import programs as P
from .p06 import initial, logtext, split, short, listing


def world(files, sc=None, fuel=3000):
    init = {S(k): (Poly.const(int(v)) if isinstance(v, bool) else v)
            for k, v in initial(sc or {}).items()}
    w = World(init, files, fuel, [Ent("player", "player", (10, 64, 10)),
                                  Ent("cow1", "cow", (3, 4, 3)),
                                  Ent("pig1", "pig", (50, 64, 5)),
                                  Ent("pig2", "pig", (60, 64, 5))])
    w.log_context = True
    w.unknown_conditions = lambda w, ws: "air" in logtext(ws)
    return w


def outcome(files, entries, sc):
    w = world(files, sc)
    for p in entries:
        if p in files:
            w.run(files[p])
    log = [logtext(x) for x in w.log if x[0].text != "scoreboard"]
    ents = [(e.id, e.type, e.pos, tuple(sorted(e.tags))) for e in w.ents]
    return w.scores, log, ents


def same_outcome(off, on, entries_off, entries_on, sc):
    """None, or how `on` differs; None also when the reference misbehaves."""
    try:
        s0, l0, e0 = outcome(off, entries_off, sc)
    except Bad:
        return None
    try:
        s1, l1, e1 = outcome(on, entries_on, sc)
    except Bad as e:
        return str(e)
    if l0 != l1:
        return "executes %s instead of %s" % (l1, l0)
    if e0 != e1:
        d = [(a, b) for a, b in zip(e0, e1) if a != b] or [(e0, e1)]
        return "entities become %s instead of %s" % (d[0][1], d[0][0])
    for k in s0:
        if s1.get(k) != s0[k]:
            return "%s becomes %s instead of %s" % (" ".join(k), s1.get(k), s0[k])
    return None


def references(files):
    """Function paths the commands refer to."""
    for p, ts in files.items():
        for ws in ts:
            if ws and ws[0].text and ws[0].text.startswith("#"):
                continue
            for i, w in enumerate(ws[:-1]):
                if w.text == "function" and (i == 0 or ws[i - 1].text == "run"):
                    yield p, ws[i + 1].text
            if ws and ws[0].text == "schedule":
                yield p, ws[-1].text


def compiled(lab, src, **cfg):
    def thunk():
        lab.start({"main": src})
        return lab.run_compiler(**cfg)
    return lab.I.run(thunk)


def judge_src(lab, src, entries, tier):
    ref = compiled(lab, src, optimizer=False)
    if any(k != "value" for k, _, _ in ref):
        return [(None, "reference: %s" % [str(v)[:80] for k, v, _ in ref if k != "value"][0], True, "")]
    out = []
    off = split(ref[0][1])
    cfgs = [({}, ["main"])]
    if tier == "thorough":
        cfgs += [({"max_inline_file_size": 1}, ["main"]), ({"max_inline_file_size": 0}, ["main"])]
    h = sum(map(ord, src)) % 3
    if tier == "thorough" or h == 0:
        cfgs.append(({"split_init": True}, ["init", "main"]))
    if tier != "thorough" and h == 1:
        cfgs.append(({"max_inline_file_size": 1}, ["main"]))
    if tier != "thorough" and h == 2:
        cfgs[0] = ({"max_inline_file_size": 0}, ["main"])
    for cfg, first in cfgs:
        for kind, v, trace in compiled(lab, src, optimizer=True, **cfg):
            name = short(src) + (" with %s" % cfg if cfg else "")
            if kind == "undecided":
                out.append((None, v, True, ""))
                continue
            if kind == "raise":
                out.append(("R1", name, False, "the compiler fails (%s)" % v.name))
                continue
            on = split(v)
            out += refs(name, off, on, entries + ["main"])
            diff = None
            try:
                for sc in P.scenarios(src, tier):
                    diff = same_outcome(off, on, ["main"] + entries, first + entries, sc)
                    if diff:
                        diff = "with %s: %s (commands: %s)" % (
                            ", ".join("%s=%s" % x for x in sc.items()), diff, listing(v))
                        break
            except Undecided as e:
                out.append((None, "world: %s" % e, True, ""))
                continue
            out.append(("R1", name, diff is None, diff or ""))
    return out


def refs(name, off, on, entries):
    out = []
    lost = [(p, r) for p, r in references(on) if r not in on and r in off]
    out.append(("R2", name, not lost, "" if not lost else
                "%s calls %s, which is not in the output" % lost[0]))
    gone = [p for p in entries if p in off and p not in on and any(
        not (ws and ws[0].text and ws[0].text.startswith("#")) for ws in off[p])]
    out.append(("R3", name, not gone, "" if not gone else
                "the file %s is not in the output" % gone[0]))
    return out


# -- programs -------------------------------------------------------------
E = "entity E:\n  hp: int\n  def hit(d: int) -> int:\n    self.hp -= d\n    /hit ${self}\n    " \
    "result self.hp\n  inline def up():\n    self.hp += 1\n  virtual def v():\n    /ev\n" \
    "entity F extends E:\n  f: bool\n  override def v():\n    self.hp = n\n    self.f = not self.f\n" \
    "e := E(\"pig\", AbsPos(1, 2, 3))\ne.hp = a\nf := F(\"cow\", AbsPos(4, 5, 6))\nf.hp = b\n" \
    "f.f = p\ng := Engroup[E]()\ng.add(e, f)\n"
RAW = "x := a\ninterface foo:\n  x = n + 5\n  p = not p\n  /foo\n"


def opt_programs():
    out = []
    bodies = ["a = n\n/one\n/two", "/one\nb = n + 1\n/two", "p = not p\n/one", "a += b", "/only",
              "f()\n/one", "a = n\nf()", "k()\n/one\nk()", "pass", "if b < n:\n  a = n\n  /in\n/one",
              "while a < n:\n  a += 1\n  /w\n/one", "b = a\na = b + 1\np = a < b"]
    conds = ["a < n", "not a < n", "p", "not p", "a < b", "a < n and p", "a < n or p", "a + 1 < b",
             "not (p and a == b)", "a == b and b == n"]
    pre = "def f():\n  a = n + 1\n  p = not p\ndef k():\n  f()\n  b += 1\n  /k\n"
    for i, (c, b) in enumerate(itertools.product(conds, bodies)):
        out.append((pre + "if %s:\n%s\n/end" % (c, P.indent(b)), []))
        if i % 3 == 0:
            out.append((pre + "if %s:\n%s\nelse:\n%s\n/end" % (
                c, P.indent(b), P.indent(bodies[(i * 7 + 5) % len(bodies)])), []))
    for c in ("x < n", "not x < n", "p", "x < n and p", "x == b or p", "x < b"):
        for b in ("/function foo\n/one", "/one\n/function foo\n/two", "/execute as @a run function foo\n/one",
                  "/one\n/scoreboard players set a obj 3\n/two"):
            out.append((RAW + "if %s:\n%s\n/end" % (c.replace("x", "a") if "score" in b else c,
                                                    P.indent(b)), ["foo"]))
    for c in ("e.hp < n", "f.hp < n and f.f", "f.f", "not f.f", "e.hp < f.hp", "g.is_empty()",
              "g.has(e)", "not g.has(f)", "g.size() == 2", "e.hp + 1 < n"):
        for b in ("e.hp = n\nf.f = not f.f\n/one", "g.remove(e)\n/one ${e}", "e.hit(2)\nf.v()",
                  "g.clear()\nf.up()\n/one", "e = f\n/one ${e}\ne.hp += 1",
                  "for m in g:\n  m.hp += 1\n/one", "/kill ${e}\n/one"):
            out.append((E + "if %s:\n%s\n/end" % (c, P.indent(b)), []))
    for b in ("m.hp += 1", "m.hp += 1\n/x ${m}", "if m.hp < n:\n  m.hp = n\n  /x ${m}", "m.up()\nm.v()",
              "e = m\n/y ${e}", "g.remove(m)\n/x ${m}", "for k in g:\n  m.hp += k.hp\n  /x ${m} ${k}",
              "c = m.hit(1)\n/x"):
        out.append((E + "for m in g:\n%s\n/end" % P.indent(b), []))
        out.append((E + "for m in g:\n%s\nfor m in g:\n%s" % (P.indent(b), P.indent("/z ${m}")), []))
    return out


def programs(tier):
    out = opt_programs()
    allp = [(s, []) for s in P.loops() + P.fors() + P.functions() + P.structs() + P.misc()]
    allp += P.interfaces()
    k = 1 if tier == "thorough" else 5
    out = out if tier == "thorough" else out[::2]
    return out + allp[::k] + P.interfaces()


# -- function file graphs -------------------------------------------------
class Graph:
    """Builds function files of an OutputOptimized and optimizes them."""

    def __init__(self, lab, spec, limit):
        self.lab, self.spec, self.limit = lab, spec, limit

    def run(self):
        lab, I, repo = self.lab, self.lab.I, self.lab.repo
        lab.start({})
        cfg = lab.config(max_inline_file_size=self.limit)
        self.cfg = cfg
        om = I.instantiate(repo.cls("OutputOptimized"), [cfg], {})
        self.files = {n: lab.new_file() for n in self.spec}
        for n, (kind, cmds) in self.spec.items():
            f = self.files[n]
            lab.meth(f, "extend", Lst([self.command(c) for c in cmds]))
            if kind == "tick":
                lab.meth(om, "new_file", f, lab.I.getattr(om, "tick_file_path"))
            elif kind == "entry":
                lab.meth(om, "new_file", f, K(n))
            else:
                lab.meth(om, "add_lib", f)
        before = self.texts(om)
        lab.meth(om, "optimize")
        return before, self.texts(om)

    def texts(self, om):
        I = self.lab.I
        return {self.lab.meth(f, "get_path").v: self.lab.texts(I.getattr(f, "commands"))
                for f in I.iterate(I.getattr(om, "files"))}

    def cls(self, n):
        return self.lab.repo.cls(n)

    def slot(self, s):
        n, _, o = s.partition(" ")
        return self.lab.I.instantiate(self.lab.C["ScbSlot"], [K(n), K(o or "obj")], {})

    def sub(self, c):
        I = self.lab.I
        k = c[0]
        if k == "m":
            return I.instantiate(self.cls("ExecuteScoreMatch"), [self.slot(c[1]), K(c[2])],
                                 {"invert": K(len(c) > 3)})
        if k == "c":
            return I.instantiate(self.cls("ExecuteScoreComp"), [
                self.slot(c[1]), self.slot(c[2]), I.enum(self.cls("ScbCompareOp"), "LT")],
                {"invert": K(len(c) > 3)})
        if k in ("if", "unless"):
            return I.instantiate(self.cls("ExecuteCond"), [K(c[1]), K(c[2])],
                                 {"invert": K(k == "unless")})
        return I.instantiate(self.cls("ExecuteEnv"), [K(k), K(c[1])], {})

    def command(self, c):
        I = self.lab.I
        if isinstance(c, str):
            return (I.instantiate(self.cls("Comment"), [K(c)], {}) if c.startswith("#") else
                    I.instantiate(self.cls("Cmd"), [K(c)], {"suppress_special_cmd": K(True)}))
        k = c[0]
        if k == "set":
            return I.instantiate(self.cls("ScbSetConst"), [self.slot(c[1]), K(c[2])], {})
        if k == "op":
            return I.instantiate(self.cls("ScbOperation"), [
                I.enum(self.cls("ScbOp"), c[2]), self.slot(c[1]), self.slot(c[3])], {})
        if k == "call":
            return I.instantiate(self.cls("InvokeFunction"), [self.files[c[1]]], {})
        if k == "sched":
            return I.instantiate(self.cls("ScheduleFunction"), [
                self.files[c[1]], K("on_area_loaded add circle ~ ~ ~ 2 area")], {})
        if k == "ex":
            return I.instantiate(self.cls("Execute"), [Lst([self.sub(s) for s in c[1]]),
                                                       self.command(c[2])], {})
        raise Undecided("command spec %r" % (c,))


CONDS = {
    "plain": None,
    "x": [("m", "x", "..2")],
    "notx": [("m", "x", "..2", "not")],
    "xy": [("c", "x", "y")],
    "x.y": [("m", "y", "1.."), ("m", "x", "1")],
    "ent": [("if", "entity", "@e[type=pig]")],
    "blk": [("unless", "block", "~ ~ ~ air")],
    "as": [("as", "@e[type=pig]")],
    "as.x": [("as", "@e[type=pig]"), ("m", "x", "..2")],
    "x.as": [("m", "x", "..2"), ("at", "@e[type=pig]")],
    "ats": [("as", "@s")],
    "ats.x": [("m", "x", "..2"), ("as", "@s")],
    "es": [("m", "@e[type=cow,c=1]", "..2")],
}
BODIES = {
    "say": ["say 1"],
    "keep": ["say 1", ("set", "z", 5), "say 2"],
    "setx": [("set", "x", 7), "say 1"],
    "sety": ["say 1", ("set", "y", 9), "say 2"],
    "opx": ["say 1", ("op", "x", "ADD_EQ", "y"), "say 2"],
    "swap": [("op", "y", "SWAP", "x"), "say 1"],
    "condx": [("ex", [("m", "y", "1..")], ("set", "x", 9)), "say 3"],
    "tag": ["tag @e[type=pig,c=1] add t", "kill @e[type=pig,tag=!t]", "kill @e[type=cow]", "say 4"],
    "raw": ["function entry", "say 5"],
    "note": ["# only a comment"],
    "two": ["# c", "say 1", "# d", ("set", "x", 8)],
    "es": [("set", "@e[type=cow]", 9), "say @e[type=cow]"],
}


def wrap(cond, cmd):
    return cmd if CONDS[cond] is None else ("ex", CONDS[cond], cmd)


def graphs(tier):
    out = []

    def add(name, main, libs, tick=None, extra=None):
        spec = {"main": ("entry", main)}
        for n, c in libs.items():
            spec[n] = ("lib", c)
        spec["entry"] = ("entry", [("set", "x", 11), "say entry"])
        spec.update(extra or {})
        if tick:
            spec["tick"] = ("tick", tick)
        out.append((name, spec))
    for c, b in itertools.product(CONDS, BODIES):
        add("call %s %s" % (c, b), ["say 0", wrap(c, ("call", "f")), "say 9"], {"f": BODIES[b]})
        add("chain %s %s" % (c, b), [wrap(c, ("call", "f"))],
            {"f": ["say 1", wrap("x", ("call", "g")), "say 2"], "g": BODIES[b]})
        add("chain2 %s %s" % (c, b), [wrap("x", ("call", "f"))],
            {"g": BODIES[b], "f": [wrap(c, ("call", "g")), "say 2"]})
    for c, c2 in itertools.product(CONDS, repeat=2):
        add("single %s %s" % (c, c2), [wrap(c, ("call", "f"))],
            {"f": [wrap(c2, ("call", "g"))], "g": BODIES["setx"]})
    for b in BODIES:
        for c in ("plain", "x", "as"):
            add("twice %s %s" % (c, b), [wrap(c, ("call", "f")), "say 0", ("call", "f")],
                {"f": BODIES[b]})
            add("shared %s %s" % (c, b), [wrap(c, ("call", "f")), ("call", "g")],
                {"f": ["say 1", ("call", "h")], "g": ["say 2", wrap(c, ("call", "h"))], "h": BODIES[b]})
            add("tick %s %s" % (c, b), ["say 0"], {"f": BODIES[b], "dead": [("call", "dead2")],
                                                  "dead2": ["say x"]},
                tick=[wrap(c, ("call", "f")), "say t"])
            add("interface %s %s" % (c, b), ["say 0"], {"f": BODIES[b]},
                extra={"if/ace": ("entry", [wrap(c, ("call", "f")), "say i"])})
            if b == "note":
                continue
            add("sched %s %s" % (c, b), [wrap(c, ("sched", "f")), "say 0"], {"f": BODIES[b]})
            add("sched2 %s %s" % (c, b), [("sched", "f"), wrap(c, ("call", "f"))], {"f": BODIES[b]})
            add("loop %s %s" % (c, b), [("ex", CONDS["x"], ("call", "f"))],
                {"f": BODIES[b][:1] + [("op", "x", "ADD_EQ", "y"), wrap("x", ("call", "f"))]})
            add("mutual %s %s" % (c, b), [("ex", CONDS["x"], ("call", "f"))],
                {"f": [("op", "x", "ADD_EQ", "y"), wrap("x", ("call", "g"))],
                 "g": BODIES[b] + [wrap("x", ("call", "f"))]})
    add("empty", [("call", "f"), "say 1"], {"f": ["# nothing"], "g": [("call", "f")]})
    add("empty chain", [("ex", CONDS["x"], ("call", "f")), "say 1"],
        {"f": [("call", "g")], "g": ["# nothing"]})
    add("deep", [("call", "a1")], {"a%d" % i: ["say %d" % i, wrap("x" if i % 2 else "plain",
                                                                ("call", "a%d" % (i + 1)))]
                                   for i in range(1, 7)} | {"a7": [("set", "x", 50), "say 7"]})
    add("order", [("call", "f"), wrap("x", ("call", "g")), ("call", "h"), wrap("xy", ("call", "i"))],
        {"f": ["say f", ("set", "x", 1)], "g": ["say g", ("set", "x", 9), "say g2"],
         "h": ["say h", ("set", "x", 0)], "i": ["say i", ("set", "y", -1), "say i2"]})
    return out


GSC = [{"x": x, "y": y} for x in (0, 1, 3) for y in (-1, 1, 2)]


def judge_graph(lab, name, spec, limit, tier):
    g = Graph(lab, spec, limit)
    out = []
    title = "%s, limit %d" % (name, limit)
    for kind, v, trace in lab.I.run(g.run):
        if kind == "undecided":
            out.append((None, v, True, ""))
            continue
        if kind == "raise":
            out.append(("R4", title, False, "the optimizer fails (%s)" % v.name))
            continue
        off, on = ({p: [words(t) for t in ts] for p, ts in x.items()} for x in v)
        entries = [p for p in off if "acalib" not in p]
        out += refs(title, off, on, entries)
        diff = None
        try:
            for e in entries:
                for sc in GSC:
                    diff = graph_diff(off, on, e, sc)
                    if diff:
                        diff = "%s with %s: %s (commands: %s)" % (
                            e, ", ".join("%s=%s" % i for i in sc.items()), diff, listing(v[1]))
                        break
                if diff:
                    break
        except Undecided as e:
            out.append((None, "world: %s" % e, True, ""))
            continue
        out.append(("R4", title, diff is None, diff or ""))
    return out


def graph_diff(off, on, entry, sc):
    res = []
    for fs in (off, on):
        w = world(fs, {}, 400)
        for k in ("x", "y", "z"):
            w.scores[S(k)] = Poly.const(sc.get(k, 0))
        w.scores[("cow1", "obj")] = Poly.const(sc["x"])
        w.me = w.ents[0]
        try:
            if entry in fs:
                w.run(fs[entry])
        except Bad as e:
            if fs is off:
                return None
            return str(e)
        except Undecided as e:
            if "fuel" in str(e):
                return None          # does not terminate: nothing to compare
            raise
        log = [logtext(x) for x in w.log if x[0].text != "scoreboard"]
        res.append((w.scores, log, [(e.id, e.pos, tuple(sorted(e.tags))) for e in w.ents]))
    (s0, l0, e0), (s1, l1, e1) = res
    if l0 != l1:
        return "executes %s instead of %s" % (l1, l0)
    if e0 != e1:
        return "entities become %s instead of %s" % (e1, e0)
    for k in s0:
        if s1.get(k) != s0[k]:
            return "%s becomes %s instead of %s" % (k[0], s1.get(k), s0[k])
    return None


def check(chk, repo):
    cx = Ctx(repo)
    chk.rule("R1", "a program compiled with the optimizer executes the same commands, in the same "
                   "places, and leaves the same scores, tags and entities as without it")
    chk.rule("R2", "no optimized file calls a function that the optimizer removed")
    chk.rule("R3", "main, init, tick and interface files survive optimization")
    chk.rule("R4", "a graph of function files does the same from every entry after optimization")
    lab = Whole(cx)
    cases = [("src",) + x for x in programs(chk.tier)]
    gs = graphs(chk.tier)
    lims = (20, 1, 2) if chk.tier == "thorough" else (20,)
    cases += [("graph", n, s, l) for n, s in gs for l in lims]
    if chk.tier != "thorough":
        cases += [("graph", n, s, 1) for n, s in gs[::4]]

    def judge(case):
        if case[0] == "src":
            return judge_src(lab, case[1], case[2], chk.tier)
        return judge_graph(lab, case[1], case[2], case[3], chk.tier)
    run_cases(chk, cx, lab, cases, judge)
    chk.assume("the world holds one player, a cow and two pigs; integers start at known offsets "
               "from n")
    for r, n in (("R1", 100), ("R2", 300), ("R3", 300), ("R4", 300)):
        chk.floor(r, n)
