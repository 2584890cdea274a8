"""The abstract command machine with entities: tags, per-entity scores, positions,
selectors, /execute environments, summon, tag, tp and kill."""
import math

from .absint import Undecided
from .mcsem import Machine, Word, Bad, Poly, words


class Ent:
    __slots__ = ("id", "type", "pos", "tags", "attrs", "alive")

    def __init__(self, id_, type_, pos, **attrs):
        self.id, self.type, self.pos = id_, type_, tuple(map(float, pos))
        self.tags, self.attrs, self.alive = set(), attrs, True

    def __repr__(self):
        return self.id


def unquote(s):
    if len(s) >= 2 and s[0] == s[-1] == '"':
        return s[1:-1].replace('\\"', '"').replace("\\\\", "\\")
    return s


def split_args(s):
    out, cur, depth, q = [], "", 0, False
    i = 0
    while i < len(s):
        ch = s[i]
        if q and ch == "\\":
            cur += s[i:i + 2]
            i += 2
            continue
        if ch == '"':
            q = not q
        elif not q and ch in "[{":
            depth += 1
        elif not q and ch in "]}":
            depth -= 1
        if ch == "," and not depth and not q:
            out.append(cur)
            cur = ""
        else:
            cur += ch
        i += 1
    if cur:
        out.append(cur)
    return out


def parse_selector(s):
    """(variable, [(key, negated, value)])"""
    var, _, rest = s[1:].partition("[")
    if not _:
        return var, []
    if not rest.endswith("]"):
        raise Bad("malformed selector %s" % s)
    out = []
    for a in split_args(rest[:-1]):
        k, eq, v = a.partition("=")
        if not eq or not k:
            raise Bad("malformed selector argument %r in %s" % (a, s))
        neg = v.startswith("!") and not v.startswith("!.")
        out.append((k.strip(), neg, v[1:] if neg else v))
    return var, out


def within(v, o, d):
    a, b = sorted((o, o + d))
    return a <= v + 0.999 and v <= b + 0.999


def near(cand, p, c):
    """The |c| nearest (c < 0: farthest) entities."""
    if len(cand) <= 1:
        return cand[:abs(c)]
    if isinstance(p, str):
        raise Undecided("distances from %s" % p)

    def dist(e):
        return sum((x - y) ** 2 for x, y in zip(e.pos, p)) ** 0.5
    cand = sorted(cand, key=dist, reverse=c < 0)
    ds = [dist(e) for e in cand]
    if len(ds) > abs(c) and ds[abs(c) - 1] == ds[abs(c)]:
        raise Bad("which of the equally distant entities is selected is left open")
    return cand[:abs(c)]


SINGLE = {"x", "y", "z", "dx", "dy", "dz", "r", "rm", "rx", "rxm", "ry", "rym", "c", "l", "lm"}
PLAIN = {"type", "name", "m"}


class World(Machine):
    def __init__(self, scores=None, files=None, fuel=400, ents=()):
        super().__init__(scores, files, fuel)
        self.ents = list(ents)
        self.me = None
        self.pos = (0.0, 0.0, 0.0)
        self.rotated = False
        self.blocks = {}
        self.nsum = 0
        self.log_context = False
        self.unknown_conditions = None     # fn(words) -> bool
        self.scheduled = []

    # -- selectors --------------------------------------------------------
    def coord(self, txt, i):
        if txt.startswith("~"):
            return self.pos[i] + (float(txt[1:]) if txt[1:] else 0.0)
        if txt.startswith("^"):
            if self.rotated:
                raise Undecided("local coordinates after a rotation")
            return self.pos[i] + (float(txt[1:]) if txt[1:] else 0.0)
        return float(txt)

    def select(self, sel):
        var, args = parse_selector(sel)
        seen = {}
        for k, neg, v in args:
            if k in SINGLE or (k in PLAIN and not neg):
                if k in seen and (k in SINGLE or not neg):
                    raise Bad("selector argument %s is given twice in %s" % (k, sel))
                seen[k] = v
        if var == "s":
            cand = [self.me] if self.me is not None else []
        elif var in ("a", "p"):
            cand = [e for e in self.ents if e.type == "player"]
        elif var == "r":
            cand = [e for e in self.ents
                    if "type" in seen or e.type == "player"]
        elif var == "e":
            cand = list(self.ents)
        else:
            raise Undecided("selector %s" % sel)
        cand = [e for e in cand if e.alive]
        org = tuple(self.coord(seen[k], i) if k in seen else self.pos[i]
                    for i, k in enumerate("xyz"))

        def dist(e):
            return sum((p - q) ** 2 for p, q in zip(e.pos, org)) ** 0.5
        for k, neg, v in args:
            cand = [e for e in cand if self.matches(e, k, neg, v, sel)]
        if "r" in seen:
            cand = [e for e in cand if dist(e) <= float(seen["r"])]
        if "rm" in seen:
            cand = [e for e in cand if dist(e) >= float(seen["rm"])]
        if any(d in seen for d in ("dx", "dy", "dz")):
            for i, d in enumerate(("dx", "dy", "dz")):
                cand = [e for e in cand if within(e.pos[i], org[i], float(seen.get(d, 0)))]
        c = int(seen["c"]) if "c" in seen else (1 if var in ("p", "r") else None)
        if c == 0:
            raise Bad("selector limit 0")
        if c is not None:
            if var == "r":
                cand = cand[-abs(c):]      # the fixed choice function of the model
            else:
                cand = near(cand, org, c)
        return cand

    def matches(self, e, k, neg, v, sel):
        if k in ("x", "y", "z", "dx", "dy", "dz", "r", "rm", "c"):
            return True
        if k == "tag":
            v = unquote(v)
            r = (v in e.tags) if v else bool(not e.tags)
        elif k == "type":
            r = e.type == unquote(v).replace("minecraft:", "")
        elif k == "name":
            r = e.attrs.get("name", "") == unquote(v)
        elif k == "family":
            r = unquote(v) in e.attrs.get("family", ())
        elif k == "m":
            r = e.type == "player" and e.attrs.get("m") == v
        elif k == "l":
            return e.type == "player" and e.attrs.get("l", 0) <= int(v)
        elif k == "lm":
            return e.type == "player" and e.attrs.get("l", 0) >= int(v)
        elif k in ("rx", "ry"):
            return e.attrs.get(k, 0) <= float(v)
        elif k in ("rxm", "rym"):
            return e.attrs.get(k[:-1], 0) >= float(v)
        elif k == "scores":
            if not (v.startswith("{") and v.endswith("}")):
                raise Bad("malformed scores in %s" % sel)
            r = True
            for a in split_args(v[1:-1]):
                o, eq, rng = a.rpartition("=")
                key = (e.id, unquote(o))
                if key not in self.scores or not self.in_range(self.scores[key], Word([rng])):
                    r = False
        elif k == "haspermission":
            r = all((p.split("=")[0] in e.attrs.get("perm", ())) == (p.split("=")[1] == "enabled")
                    for p in split_args(v[1:-1]))
        elif k == "hasitem":
            r = all(self.has_item(e, d) for d in (
                split_args(v[1:-1]) if v.startswith("[") else [v]))
        else:
            raise Undecided("selector argument %s" % k)
        return r != neg

    def has_item(self, e, d):
        n = 0
        spec = dict(a.split("=", 1) for a in split_args(d.strip()[1:-1]))
        for it, loc, slot, data, q in e.attrs.get("items", ()):
            if it != spec.get("item"):
                continue
            if "location" in spec and spec["location"] != loc:
                continue
            if "slot" in spec and not self._in_any(slot, spec["slot"]):
                continue
            if "data" in spec and int(spec["data"]) not in (-1, data):
                continue
            n += q
        return self._in_any(n, spec.get("quantity", "1.."))

    def _in_any(self, v, rng):
        return self.in_range(Poly.const(v), Word([rng]))

    # -- scores -----------------------------------------------------------
    def holders(self, w):
        t = w.text if w.text is not None else repr(w)
        if t.startswith("@"):
            return [e.id for e in self.select(t)]
        if t == "*":
            raise Undecided("score holder *")
        return [t]

    def obj(self, w):
        return unquote(w.text if w.text is not None else repr(w))

    def players(self, ws):
        if ws[1].text is not None and not ws[1].text.startswith("@") and not (
                ws[0].text == "operation" and len(ws) > 4 and ws[4].text
                and ws[4].text.startswith("@")):
            return super().players(ws)
        op = ws[0].text
        if op in ("set", "add", "remove", "random", "reset"):
            for h in self.holders(ws[1]):
                if op == "add" and (h, self.obj(ws[2])) not in self.scores:
                    self.scores[(h, self.obj(ws[2]))] = Poly()
                super().players([ws[0], Word([h])] + ws[2:])
        elif op == "operation":
            if len(ws) != 6:
                raise Bad("scoreboard players operation takes 5 arguments")
            src = self.holders(ws[4])
            if ws[4].text.startswith("@") and len(src) > 1:
                raise Undecided("operation from several entities")
            for h in self.holders(ws[1]):
                for s in src:
                    super().players([ws[0], Word([h]), ws[2], ws[3], Word([s]), ws[5]])
        else:
            self.note([Word(["scoreboard"]), Word(["players"])] + ws)

    # -- commands ---------------------------------------------------------
    def note(self, ws):
        out = []
        for w in ws:
            t = w.text
            if t is not None and t.startswith("@"):
                out.append(Word(["{%s}" % ",".join(sorted(e.id for e in self.select(t)))]))
            else:
                out.append(w)
        if self.log_context:
            out.append(Word(["  as %s at %s" % (self.me, self.pos)]))
        self.log.append(out)

    def step(self, ws):
        h = ws[0].text if ws else None
        if h == "tag":
            self.fuel -= 1
            if len(ws) == 4 and ws[2].text in ("add", "remove"):
                t = unquote(ws[3].text)
                if not ws[1].text.startswith("@"):
                    raise Bad("tag of %r" % ws[1])
                for e in self.select(ws[1].text):
                    (e.tags.add if ws[2].text == "add" else e.tags.discard)(t)
                return
            raise Bad("malformed tag command %r" % (ws,))
        if h == "summon":
            self.fuel -= 1
            return self.summon(ws[1:])
        if h in ("tp", "teleport") and len(ws) == 5:
            self.fuel -= 1
            for e in self.select(ws[1].text):
                e.pos = tuple(self.coord(w.text, i) for i, w in enumerate(ws[2:5]))
            return
        if h == "kill" and len(ws) == 2:
            self.fuel -= 1
            for e in self.select(ws[1].text):
                e.alive = False
            self.ents = [e for e in self.ents if e.alive]
            return
        n = len(self.log)
        super().step(ws)
        if h not in ("execute", "function", "scoreboard") and len(self.log) == n + 1:
            self.note(self.log.pop())

    def summon(self, ws):
        self.nsum += 1
        t = ws[0].text
        pos = tuple(self.coord(w.text, i) for i, w in enumerate(ws[1:4])) if len(ws) > 3 else self.pos
        rest = ws[4:]
        attrs = {}
        if rest and rest[0].text is not None and _isnum(rest[0].text):
            rest = rest[2:]
        if rest:
            attrs["event"] = rest[0].text
        if len(rest) > 1:
            attrs["name"] = unquote(rest[1].text)
        e = Ent("e%d" % self.nsum, t, pos, **attrs)
        self.ents.append(e)

    def env(self):
        return self.me, self.pos, self.rotated

    def set_env(self, env):
        self.me, self.pos, self.rotated = env

    def enter(self, e):
        """The environment moves to where entity `e` is."""
        self.pos = e.pos

    def place(self, ws):
        self.pos = tuple(self.coord(w.text, j) for j, w in enumerate(ws))

    def align(self, axes):
        self.pos = tuple(float(math.floor(p)) if c in axes else p
                         for c, p in zip("xyz", self.pos))

    def turn(self, ws):
        self.rotated = True

    def anchored(self, name):
        pass

    def dimension(self, name):
        raise Undecided("execute in")

    def execute(self, ws):
        saved = self.env()
        try:
            self._execute(ws, 0)
        finally:
            self.set_env(saved)

    def _fork(self, ws, i, ents, as_, at):
        for e in ents:
            saved = self.env()
            if as_:
                self.me = e
            if at:
                self.enter(e)
            self._execute(ws, i)
            self.set_env(saved)

    def _execute(self, ws, i):
        while i < len(ws):
            h = ws[i].text
            if h == "run":
                saved = self.env()
                self.step(ws[i + 1:])
                self.set_env(saved)
                return
            if h in ("if", "unless"):
                k = ws[i + 1].text
                if k == "score":
                    o = ws[i + 4].text
                    a = self.single(ws[i + 2], ws[i + 3])
                    if o == "matches":
                        r = a is not None and self.in_range(a, ws[i + 5])
                        n = 6
                    else:
                        b = self.single(ws[i + 5], ws[i + 6])
                        if o not in ("=", "<", ">", "<=", ">="):
                            raise Bad("unknown score comparison %r" % o)
                        if a is None or b is None:
                            r = False
                        else:
                            s = self.sign(a, b)
                            r = {"=": s == 0, "<": s < 0, ">": s > 0, "<=": s <= 0,
                                 ">=": s >= 0}[o]
                        n = 7
                elif k == "entity":
                    r = bool(self.select(ws[i + 2].text))
                    n = 3
                elif k in ("block", "blocks") and self.unknown_conditions is not None:
                    n = next((j for j in range(1, len(ws) - i)
                              if ws[i + j].text in ("run", "if", "unless", "as", "at")),
                             len(ws) - i)
                    r = self.unknown_conditions(self, ws[i + 1:i + n])
                else:
                    raise Undecided("condition %s" % k)
                if r != (h == "if"):
                    return
                i += n
                continue
            if h in ("as", "at"):
                return self._fork(ws, i + 2, self.select(ws[i + 1].text), h == "as", h == "at")
            if h == "positioned":
                if ws[i + 1].text == "as":
                    return self._fork(ws, i + 3, self.select(ws[i + 2].text), False, True)
                self.place(ws[i + 1:i + 4])
                i += 4
                continue
            if h == "align":
                self.align(ws[i + 1].text)
                i += 2
                continue
            if h in ("rotated", "facing"):
                n = {"as": 3, "entity": 4}.get(ws[i + 1].text, 3 if h == "rotated" else 4)
                self.turn(ws[i:i + n])
                i += n
                continue
            if h == "in":
                self.dimension(ws[i + 1].text)
                i += 2
                continue
            if h == "anchored":
                self.anchored(ws[i + 1].text)
                i += 2
                continue
            raise Undecided("execute %s" % h)
        raise Bad("execute without run: %r" % (ws,))

    def single(self, a, b):
        hs = self.holders(a)
        if len(hs) > 1:
            raise Bad("comparing the scores of several entities")
        if not hs:
            return None
        key = (hs[0], self.obj(b))
        if key not in self.scores and a.text is not None and a.text.startswith("@"):
            return None
        return self.get(key)


def _isnum(t):
    try:
        float(t.lstrip("~^") or "0")
        return True
    except ValueError:
        return False
