"""P12: library functions do what they promise."""
import json
import re

from ..ctx import Ctx
from ..absint import Undecided
from ..whole import FsWhole
from ..world import World, Ent, unquote
from ..mcsem import Poly, Bad, Word, words
from ..libprogs import programs, Env, num, pos_text, wrap
from ..scen import run_cases
from .p09 import found, where


class LibWorld(World):
    """Executes the commands of a program, noting each as an event."""

    def __init__(self, files):
        super().__init__({}, files, 60000, [
            Ent("al", "player", (10, 64, 10), name="al"), Ent("bob", "player", (30, 64, -5), name="bob"),
            Ent("horse", "horse", (7, 7, 7))])
        self.env_ = Env()
        self.events = []
        self.unknown_conditions = self.condition

    # environment: also rotation, dimension and anchor, all as terms
    def env(self):
        return self.me, self.pos, self.env_

    def set_env(self, env):
        self.me, self.pos, self.env_ = env

    def now(self):
        return self.env_.but(me=self.me and self.me.id, pos=self.pos)

    def to(self, env):
        self.pos, self.env_ = env.pos, env

    def enter(self, e):
        self.to(self.now().but(pos=e.pos, rot="of(%s)" % e.id, dim="of(%s)" % e.id, anchor="feet"))

    def place(self, ws):
        off = []
        for w in ws:
            m = re.fullmatch(r"([~^]?)(-?\d*\.?\d*)", w.text or "?")
            if m is None or not (m.group(1) or m.group(2)):
                raise Bad("malformed coordinate %r" % w)
            off.append((m.group(1), float(m.group(2) or 0)))
        if len({k == "^" for k, _ in off}) > 1:
            raise Bad("local and other coordinates are mixed")
        self.to(self.now().add(off))

    def align(self, axes):
        if isinstance(self.pos, str):
            self.to(self.now().but(pos="align(%s;%s)" % (self.pos, axes)))
        else:
            super().align(axes)

    def turn(self, ws):
        t = [w.text for w in ws]
        v = self.now()
        who = lambda s: ",".join(e.id for e in self.select(s))
        if t[:2] == ["rotated", "as"]:
            r = "of(%s)" % who(t[2])
        elif t[0] == "rotated":
            vh = ",".join(x[0] + (num(x[1:]) if x[1:] else "") if x.startswith("~") else num(x)
                          for x in t[1:3])
            r = v.rot + "+" + vh if "~" in vh else vh
        elif t[:2] == ["facing", "entity"]:
            r = "facing(%s,%s)from(%s)" % (who(t[2]), t[3], pos_text(v.pos))
        else:
            raise Undecided("execute %s" % " ".join(map(str, t)))
        self.to(v.but(rot=r))

    def dimension(self, name):
        self.to(self.now().but(dim=name))

    def condition(self, world, ws):
        t = " ".join(map(self.word, ws))
        env = self.now().text()
        self.events.append("test " + t + (" @ " + env if env else ""))
        return "yes" in t or "~7" in t

    def anchored(self, name):
        self.to(self.now().but(anchor=name))

    # 32 bit scores
    def put(self, slot, v):
        c = v.const_value()
        super().put(slot, v if c is None else Poly.const(wrap(c)))

    def players(self, ws):
        if ws[0].text == "operation" and len(ws) == 6 and ws[3].text in ("/=", "%="):
            a, b = self.single(ws[1], ws[2]), self.single(ws[4], ws[5])
            x, y = (v and v.const_value() for v in (a, b))
            if isinstance(x, int) and isinstance(y, int):
                if y == 0:
                    return
                q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                r = q if ws[3].text == "/=" else x - q * y
                return super().players([Word(["set"]), ws[1], ws[2], Word([str(wrap(r))])])
        if ws[0].text == "random":
            self.events.append("random %s %s" % (ws[3], ws[4]))
        return super().players(ws)

    # events
    def word(self, w):
        t = w.text if w.text is not None else repr(w)
        if t.startswith("@"):
            return "{%s}" % ",".join(sorted(e.id for e in self.select(t)))
        if re.fullmatch(r"[~^]?-?\d+\.\d*", t):
            k = t[0] if t[0] in "~^" else ""
            return k + num(t[len(k):])
        if t in ("~", "^"):
            return t
        return t

    def event(self, ws):
        out = []
        for i, w in enumerate(ws):
            if i and w.text and w.text.startswith("{"):
                rest = " ".join(x.text or "?" for x in ws[i:])
                try:
                    out.append(json.dumps(json.loads(rest), sort_keys=True))
                except ValueError:
                    raise Bad("malformed JSON: %s" % rest)
                break
            out.append(self.word(w))
        env = self.now().text()
        t = " ".join(out)
        self.events.append(t + (" @ " + env if env and not t.startswith("say #") else ""))

    def step(self, ws):
        h = ws[0].text if ws else None
        if h is None or h.startswith("#"):
            return super().step(ws)
        if h in ("tellraw", "titleraw") and any(w.text and w.text.startswith("{") for w in ws):
            i = next(i for i, w in enumerate(ws) if w.text and w.text.startswith("{"))
            rest = " ".join(w.text or "?" for w in ws[i:])
            try:
                data = json.loads(rest)
            except ValueError:
                raise Bad("malformed JSON: %s" % rest)
            to = self.word(ws[1])[1:-1]
            self.events.append(("show", to, " ".join([h] + [w.text for w in ws[2:i]]),
                                self.displayed(data)))
        elif h in ("tp", "teleport"):
            self.event(ws)
            if len(ws) == 5:
                super().step(ws)
        elif h == "kill":
            self.event(ws)
            super().step(ws)
        elif h == "tag" and len(ws) == 4:
            if not unquote(ws[3].text).startswith("acacia"):
                self.event(ws)
            super().step(ws)
        elif h == "summon":
            self.event(ws)
            super().step(ws)
        elif h == "schedule":
            self.event([Word(["area"])] + ws[1:2] + ws[2:-1]
                       if ws[1].text != "on_area_loaded" else [Word(["area"])] + ws[1:-1])
        elif h in ("execute", "function") or (h == "scoreboard" and ws[1].text == "players"):
            super().step(ws)
        elif h != "scoreboard":
            self.event(ws)

    def displayed(self, data):
        """What the reader sees: runs of text with the formatting codes in force."""
        out, fmt, col = [], set(), None
        if set(data) != {"rawtext"}:
            raise Bad("rawtext expected: %s" % data)
        for c in data["rawtext"]:
            if set(c) == {"text"}:
                t = c["text"]
            elif set(c) == {"score"}:
                v = self.single(Word([c["score"]["name"]]), Word([c["score"]["objective"]]))
                t = "" if v is None else str(v)
            elif set(c) == {"translate"}:
                t = "<%s>" % c["translate"]
            else:
                raise Undecided("rawtext %s" % sorted(c))
            i = 0
            while i < len(t):
                if t[i] == "\xa7" and i + 1 < len(t):
                    k = t[i + 1]
                    if k == "r":
                        fmt, col = set(), None
                    elif k in "lok":
                        fmt.add(k)
                    else:
                        col = k
                    i += 2
                    continue
                f = frozenset(fmt | ({col} if col else set()))
                if out and out[-1][1] == f:
                    out[-1] = (out[-1][0] + t[i], f)
                else:
                    out.append((t[i], f))
                i += 1
        return tuple(out)


def shown(e):
    if isinstance(e, tuple) and e[0] == "show":
        return "%s to {%s}: %s" % (e[2], e[1], " ".join(
            "%s%r" % ("[%s]" % "".join(sorted(f)) if f else "", t) for t, f in e[3]))
    return e


def wanted(w):
    if isinstance(w, tuple) and len(w) == 2 and isinstance(w[1], Env):
        t = w[1].text()
        return w[0] + (" @ " + t if t else "")
    return w


def squeeze(evs):
    """A condition may be tested more than once."""
    out = []
    for e in evs:
        if isinstance(e, str) and e.startswith("test ") and e in out:
            continue
        out.append(e)
    return out


def one_line(src):
    return " / ".join(src.strip().split("\n"))


def judge(lab, case):
    rule, text, items = case
    out = []

    def thunk():
        lab.start({"main.aca": text})
        return lab.run_compiler(mc_version=K_VERSION)
    for how, v, trace in lab.I.run(thunk):
        name = one_line(items[0][0]) if isinstance(items[0][0], str) else "schedule"
        if how == "undecided" or trace:
            out.append((None, v if how == "undecided" else "branch", True, ""))
        elif how == "raise" and v.name != "Error":
            out.append(("R6", name, False, "the compiler crashes with %s" % v.name))
        elif how == "raise":
            kind, line, mod = found(lab, v, 0)
            lines = text.split("\n")
            out.append(("R6", lines[line - 1].strip() if line else name, False,
                        "a correct program is refused: %s" % where(kind, line, mod)))
        else:
            out.append(("R6", "program", True, ""))
            files = {p: [words(t) for t in ts] for p, ts in v.items()}
            try:
                if rule == "R5":
                    histories(out, rule, files, items)
                else:
                    statements(out, rule, files, items)
            except Undecided as e:
                out.append((None, "commands: %s" % e, True, ""))
    return out


def statements(out, rule, files, items):
    w = LibWorld(files)
    err = None
    try:
        w.run(files["main"])
    except Bad as e:
        err = str(e)
    parts, cur = {}, None
    for e in w.events:
        if isinstance(e, str) and e.startswith("say #"):
            cur = e[5:]
            parts[cur] = []
        elif cur is not None:
            parts[cur].append(e)
    for i, (src, want) in enumerate(items):
        got = parts.get(str(i))
        if got is None:
            break
        if err and str(i + 1) not in parts and (i + 1 < len(items) or "end" not in parts):
            out.append((rule, one_line(src), False, err))
            break
        got, exp = [shown(x) for x in squeeze(got)], [shown(wanted(x)) for x in want]
        ok = got == exp
        out.append((rule, one_line(src), ok, "" if ok else "does %s instead of %s" % (
            "; ".join(got) or "nothing", "; ".join(exp) or "nothing")))


def histories(out, rule, files, items):
    tick = next((p for p in files if p.split("/")[-1] == "tick"), None)
    for h, log in items:
        w = LibWorld(files)
        name = "%s" % " ".join(h)
        try:
            w.run(files["main"])
            if h:
                del w.events[:]
            for o in h:
                w.run(files.get(tick if o == "tick" else "z/" + o, []))
        except Bad as e:
            out.append((rule, name, False, str(e)))
            continue
        got = [shown(e) for e in w.events]
        out.append((rule, name, got == log, "" if got == log else "does %s instead of %s" % (
            "; ".join(got) or "nothing", "; ".join(log) or "nothing")))


K_VERSION = (1, 20, 10)


def check(chk, repo):
    cx = Ctx(repo)
    chk.rule("R1", "formatted text shows its parts, values and fonts to the given players")
    chk.rule("R2", "arithmetic functions yield what they are named after and change nothing else")
    chk.rule("R3", "a command function issues its command with the given arguments, once")
    chk.rule("R4", "positions, offsets and rotations denote the place they are built for, and "
                   "deriving one from another leaves that one unchanged")
    chk.rule("R5", "tasks and loops call their function exactly when requested")
    chk.rule("R6", "correct uses of the library are accepted")
    lab = FsWhole(cx)
    lab.I.fuel0 = 10 ** 8
    cases = programs(chk.tier == "thorough")
    run_cases(chk, cx, lab, cases, lambda c: judge(lab, c))
    for r, n in (("R1", 60), ("R2", 120), ("R3", 40), ("R4", 60), ("R5", 30), ("R6", 12)):
        chk.floor(r, n)
