"""Abstract semantics of the Minecraft commands the compiler emits.

Works on the text the compiler would write (with unknown numbers kept
symbolic), independently of the compiler's own classification of commands.
Scores are polynomials over unknown initial scores (`+ - *` exactly, `/ %` as
uninterpreted functions), which is enough to compare arithmetic lowering; for
conditions the rules give scores whose order is known.
"""
from .absint import K, Lin, Txt, Undecided


class Poly:
    """Integer polynomial over atoms (hashable)."""
    __slots__ = ("t",)

    def __init__(self, t=None):
        self.t = {m: c for m, c in (t or {}).items() if c}

    @staticmethod
    def const(c):
        return Poly({(): c})

    @staticmethod
    def atom(a):
        return Poly({(a,): 1})

    def __add__(self, o):
        t = dict(self.t)
        for m, c in o.t.items():
            t[m] = t.get(m, 0) + c
        return Poly(t)

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        t = {}
        for m, c in self.t.items():
            for n, d in o.t.items():
                k = tuple(sorted(m + n, key=repr))
                t[k] = t.get(k, 0) + c * d
        return Poly(t)

    def key(self):
        return tuple(sorted(self.t.items(), key=repr))

    def div(self, o):
        return Poly.atom(("div", self.key(), o.key()))

    def mod(self, o):
        return Poly.atom(("mod", self.key(), o.key()))

    def const_value(self):
        if not self.t:
            return 0
        if set(self.t) == {()}:
            return self.t[()]
        return None

    def __eq__(self, o):
        return isinstance(o, Poly) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        if not self.t:
            return "0"

        def at(a):
            if isinstance(a, tuple):
                return "%s(%s, %s)" % (a[0], Poly(dict(a[1])), Poly(dict(a[2])))
            return str(a)
        return " + ".join(
            ("%d" % c if not m else ("" if c == 1 else "%d*" % c) + "*".join(map(at, m)))
            for m, c in sorted(self.t.items(), key=repr))

    def sign(self):
        """sign if decided by the constants/`n` interior, else None"""
        c = self.const_value()
        if c is not None:
            return (c > 0) - (c < 0)
        return None


def poly_of(v):
    if isinstance(v, Lin):
        return Poly({(v.sym,): v.a, (): v.k})
    if isinstance(v, K) and isinstance(v.v, (int, bool)):
        return Poly.const(int(v.v))
    raise Undecided("not a number: %r" % (v,))


class Word:
    """A blank-separated word of a command: str or list of str/Val parts."""
    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = parts

    @property
    def text(self):
        if all(isinstance(p, str) for p in self.parts):
            return "".join(self.parts)
        return None

    def __repr__(self):
        return "".join(p if isinstance(p, str) else "{%r}" % (p,) for p in self.parts)


def words(t):
    """Split an abstract text into words (quoted strings kept whole)."""
    parts = [t.v] if isinstance(t, K) else list(t.parts)
    out, cur, q = [], [], False
    for p in parts:
        if not isinstance(p, str):
            cur.append(p)
            continue
        buf = ""
        i = 0
        while i < len(p):
            ch = p[i]
            if q and ch == "\\":
                buf += p[i:i + 2]
                i += 2
                continue
            if ch == '"':
                q = not q
            if ch == " " and not q:
                if buf:
                    cur.append(buf)
                    buf = ""
                if cur:
                    out.append(Word(cur))
                cur = []
            else:
                buf += ch
            i += 1
        if buf:
            cur.append(buf)
    if cur:
        out.append(Word(cur))
    return out


class Bad(Exception):
    """A command that is certainly malformed."""


def number(w):
    if w.text is not None:
        try:
            return Poly.const(int(w.text))
        except ValueError:
            raise Bad("number expected, got %r" % w.text)
    ps = [p for p in w.parts if p != ""]
    if len(ps) == 1:
        return poly_of(ps[0])
    if len(ps) == 2 and ps[0] == "-" :
        return -poly_of(ps[1])
    raise Undecided("number %r" % w)


class Machine:
    def __init__(self, scores=None, files=None, fuel=400):
        self.scores = dict(scores or {})
        self.files = files or {}      # path -> list of texts
        self.log = []                 # other commands executed, in order
        self.fuel = fuel
        self.nest = 0
        self.strict = False           # reading a score nothing has set is Bad
        self.compare = None           # fn(polyA, polyB) -> sign or None
        self.written = []

    def get(self, slot):
        if slot not in self.scores:
            if self.strict:
                raise Bad("score %s is read but nothing has set it" % slot[0])
            self.scores[slot] = Poly.atom("%s" % (slot,))
        return self.scores[slot]

    def put(self, slot, v):
        self.scores[slot] = v
        self.written.append(slot)

    def sign(self, a, b):
        if self.compare is not None:
            r = self.compare(a, b)
            if r is not None:
                return r
        s = (a - b).sign()
        if s is None:
            raise Undecided("order of %r and %r" % (a, b))
        return s

    def run(self, texts):
        self.nest += 1
        if self.nest > 150:
            raise Bad("the functions call each other without end")
        for t in texts:
            self.step(t if isinstance(t, list) else words(t))
        self.nest -= 1

    def step(self, ws):
        self.fuel -= 1
        if self.fuel < 0:
            raise Undecided("machine fuel")
        if not ws:
            return
        h = ws[0].text
        if h is None:
            self.log.append(ws)
            return
        if h.startswith("#"):
            return
        if h == "scoreboard" and len(ws) > 1 and ws[1].text == "players":
            self.players(ws[2:])
        elif h == "execute":
            self.execute(ws[1:])
        elif h == "function":
            p = " ".join(w.text or repr(w) for w in ws[1:])
            if p not in self.files:
                self.log.append(ws)
                return
            self.run(self.files[p])
        else:
            self.log.append(ws)

    def slot(self, a, b):
        return (a.text if a.text is not None else repr(a),
                b.text if b.text is not None else repr(b))

    def players(self, ws):
        op = ws[0].text
        if op in ("set", "add", "remove"):
            if len(ws) != 4:
                raise Bad("scoreboard players %s takes 3 arguments" % op)
            s, n = self.slot(ws[1], ws[2]), number(ws[3])
            self.put(s, n if op == "set" else
                     self.get(s) + n if op == "add" else self.get(s) - n)
        elif op == "operation":
            if len(ws) != 6:
                raise Bad("scoreboard players operation takes 5 arguments")
            a, o, b = self.slot(ws[1], ws[2]), ws[3].text, self.slot(ws[4], ws[5])
            y = self.get(b)
            x = self.get(a) if o != "=" else None
            if o == "=":
                self.put(a, y)
            elif o == "+=":
                self.put(a, x + y)
            elif o == "-=":
                self.put(a, x - y)
            elif o == "*=":
                self.put(a, x * y)
            elif o == "/=":
                self.put(a, x.div(y))
            elif o == "%=":
                self.put(a, x.mod(y))
            elif o == "><":
                self.put(a, y)
                self.put(b, x)
            elif o in ("<", ">"):
                s = self.sign(x, y)
                keep = s <= 0 if o == "<" else s >= 0
                self.put(a, x if keep else y)
            else:
                raise Bad("unknown scoreboard operation %r" % o)
        elif op == "random":
            s = self.slot(ws[1], ws[2])
            self.put(s, Poly.atom("random(%r,%r)#%d" % (
                number(ws[3]), number(ws[4]), self.fuel)))
        else:
            self.log.append(ws)

    def execute(self, ws):
        i = 0
        env = []
        while i < len(ws):
            h = ws[i].text
            if h == "run":
                if env:
                    self.log.append([Word(["execute"])] + env + ws[i:])
                else:
                    self.step(ws[i + 1:])
                return
            if h in ("if", "unless") and ws[i + 1].text == "score":
                a = self.slot(ws[i + 2], ws[i + 3])
                o = ws[i + 4].text
                if o == "matches":
                    r = self.in_range(self.get(a), ws[i + 5])
                    n = 6
                else:
                    b = self.slot(ws[i + 5], ws[i + 6])
                    s = self.sign(self.get(a), self.get(b))
                    if o not in ("=", "<", ">", "<=", ">="):
                        raise Bad("unknown score comparison %r" % o)
                    r = {"=": s == 0, "<": s < 0, ">": s > 0, "<=": s <= 0, ">=": s >= 0}[o]
                    n = 7
                if r != (h == "if"):
                    return
                i += n
                continue
            if h in ("if", "unless"):
                env += ws[i:i + 2]
                i += 2
                continue
            env.append(ws[i])
            i += 1
        raise Bad("execute without run: %r" % (ws,))

    def in_range(self, v, w):
        ps = list(w.parts)
        if ps and isinstance(ps[0], str) and ps[0].startswith("!"):
            ps[0] = ps[0][1:]
            return not self._in(v, Word([p for p in ps if p != ""]))
        return self._in(v, w)

    def _in(self, v, w):
        lo, hi, dots = [], [], False
        for p in w.parts:
            if isinstance(p, str) and ".." in p and not dots:
                a, b = p.split("..", 1)
                dots = True
                if a:
                    lo.append(a)
                if b:
                    hi.append(b)
            else:
                (hi if dots else lo).append(p)
        if not dots:
            return self.sign(v, number(Word(lo))) == 0
        if not lo and not hi:
            raise Bad("empty range %r" % w)
        for x in lo, hi:
            if x and isinstance(x[0], str) and len(x) == 1 and not -2 ** 31 <= int(x[0]) < 2 ** 31:
                raise Bad("range %r exceeds 32 bits" % w)
        if lo and self.sign(v, number(Word(lo))) < 0:
            return False
        if hi and self.sign(v, number(Word(hi))) > 0:
            return False
        return True
