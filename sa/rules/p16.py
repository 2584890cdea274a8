"""P16: a song made from a MIDI file is heard as the file says."""
from .. import absint as A
from ..ctx import Ctx
from ..absint import Undecided, K, Lst, Atom, Py
from ..whole import FsWhole
from ..musicprogs import cases, refused, program, expected, reference
from ..mcsem import Bad, words
from ..scen import run_cases
from .p09 import found, where
from .p12 import LibWorld


class MusicWorld(LibWorld):
    """Notes every sound played: listeners, sound, volume, pitch; and the function it is in."""

    def __init__(self, files):
        super().__init__(files)
        self.heard, self.inside, self.by = [], [], []

    def single(self, a, b):
        hs = self.holders(a)
        if len(hs) == 1 and (hs[0], self.obj(b)) not in self.scores:
            return None         # a score that was never set fulfils no condition
        return super().single(a, b)

    def step(self, ws):
        h = ws[0].text if ws else None
        if h == "function":
            self.inside.append(" ".join(w.text or "?" for w in ws[1:]))
            super().step(ws)
            self.inside.pop()
        elif h == "playsound":
            if len(ws) != 8 or [w.text for w in ws[3:6]] != ["~"] * 3:
                raise Bad("playsound with wrong arguments: %s" % " ".join(map(str, ws)))
            to = self.select(ws[2].text)
            if len(to) != 1 or to[0].pos != self.pos:
                raise Bad("the sound is not played at the place of its one listener")
            try:
                v, p = float(ws[6].text), float(ws[7].text)
            except (TypeError, ValueError):
                raise Bad("volume or pitch is not a number: %s %s" % (ws[6], ws[7]))
            self.heard.append((to[0].id, ws[1].text, v, p))
            self.by.append(self.inside[-1] if self.inside else None)
        else:
            super().step(ws)


class MusicLab(FsWhole):
    def __init__(self, cx):
        super().__init__(cx)
        self.I.fuel0 = 10 ** 8
        self.I.externs["mido.MidiFile"] = self.open_midi
        self.midis = {}

    def open_midi(self, I, a, k):
        name = (list(a) + [k[x] for x in ("filename",) if x in k] + [K(None)])[0]
        s = self.midis.get(self.text(name).rpartition("/")[2])
        if s is None:
            raise A.AbsRaise(A.Ext("builtins.FileNotFoundError"))
        if isinstance(s, str):
            cls, *args = s.split("|")
            raise A.AbsRaise(A.ExtObj("builtins." + cls, [K(int(x) if x.isdigit() else x) for x in args]))
        return Atom("midi", None, {
            "strict": True, "type": K(s.type), "ticks_per_beat": K(s.tpb),
            "tracks": Lst([Lst([self.message(m) for m in t]) for t in s.tracks])})

    @staticmethod
    def message(m):
        t, kind, at = m

        def is_cc(I, a, k):
            c = (list(a) + list(k.values()) + [K(None)])[0]
            return K(kind == "control_change" and (c.v is None or c.v == at["control"]))
        d = {"strict": True, "time": K(t), "type": K(kind), "is_cc": Py(is_cc),
             "is_meta": K(kind in ("set_tempo", "end_of_track", "track_name"))}
        d.update({n: K(v) for n, v in at.items()})
        return Atom("message", None, d)

    def produce(self, text, midis, **cfg):
        def thunk():
            self.midis = midis
            self.start({"main.aca": text})
            return self.run_compiler(mc_version=(1, 20, 10), **cfg)
        return self.I.run(thunk)


def near(want, got):
    """The notes heard in one tick, in any order."""
    exp = sorted((who, sound, p, v) for whos, sound, v, p in want for who in whos)
    got = sorted((who, sound, p, v) for who, sound, v, p in got)
    return len(exp) == len(got) and all(
        e[:2] == g[:2] and abs(e[2] - g[2]) < .0006 and abs(e[3] - g[3]) < .0051 for e, g in zip(exp, got))


def told(xs):
    return ", ".join("%s to %s at volume %.2f, pitch %.3f" % (
        x[1], x[0] if isinstance(x[0], str) else "/".join(x[0]), x[2], x[3]) for x in xs) or "nothing"


def one(lab, case):
    if case[0] == "no":
        return no(lab, *case[1:])
    name, songs, hists = case
    out = yes(lab, name, songs, hists, False)
    if len(songs) > 1:
        out += yes(lab, name + ", optimized", songs, hists[:4], True)
    return out


def yes(lab, name, songs, hists, optimizer):
    out = []
    midis = {"%d.mid" % i: s for i, (s, _) in enumerate(songs)}
    name += "".join(" (%s)" % o.text()[2:] for _, o in songs if o.d)
    for how, v, trace in lab.produce(program(songs), midis, optimizer=optimizer):
        if how == "undecided" and v in ("too long", "endless loop", "recursion", "call depth"):
            out.append(("R4", name, False, "the compiler does not come to an end"))
        elif how == "undecided" or trace:
            out.append((None, v if how == "undecided" else "branch", True, ""))
        elif how == "raise":
            out.append(("R4", name, False, "the compiler %s" % (
                "refuses it: %s" % where(*found(lab, v, 0)) if v.name == "Error" else "crashes with %s" % v.name)))
        else:
            out.append(("R4", name, True, ""))
            try:
                files = {p: [words(t) for t in ts] for p, ts in v.items()}
                listen(out, name, songs, hists, files, chunks=not optimizer)
            except Undecided as e:
                out.append((None, "commands: %s" % e, True, ""))
    return out


def listen(out, name, songs, hists, files, chunks):
    tick = next((p for p in files if p.split("/")[-1] == "tick"), None)
    lengths = None
    for j, h in enumerate(hists):
        rule = "R1" if j == 0 else "R2"
        w = MusicWorld(files)
        title = name if j == 0 else "%s [%s]" % (name, brief(h))
        try:
            w.run(files["main"])
            if lengths is None:
                lengths = [int(e.split()[2]) for e in w.events if isinstance(e, str) and e.startswith("say LENGTH")]
                for n, (s, o) in zip(lengths, songs):
                    lo, hi = reference(s, o)[1]
                    ok = lo <= n <= hi
                    out.append(("R2", name + ": LENGTH", ok, "" if ok else
                                "is %d, the last message comes %d ticks after the start" % (n, lo)))
                    if not ok:
                        return
            if w.heard:
                raise Bad("sounds are played before `play`")
            got, by = [], {}
            for e in h:
                w.fuel = 60000
                if e != "tick":
                    w.run(files["z/" + e])
                    if w.heard:
                        raise Bad("sounds are played by `%s` itself" % e)
                    continue
                w.run(files.get(tick, []))
                got.append(list(w.heard))
                for f in w.by:
                    by.setdefault(f, []).append(len(got))
                del w.heard[:], w.by[:]
        except Bad as e:
            out.append((rule, title, False, str(e)))
            continue
        want = expected(songs, lengths, h)
        i = next((i for i, (x, y) in enumerate(zip(want, got)) if not near(x, y)), None)
        out.append((rule, title, i is None, "" if i is None else "in tick %d one hears %s instead of %s" % (
            i + 1, told(got[i]), told(want[i]))))
        if j == 0 and i is None and chunks and len(songs) == 1 and songs[0][1].get("looping") != "True":
            size = int(songs[0][1].get("chunk_size"))
            per = len(set(whos for whos, *_ in (x for t in want for x in t)) and
                      next(x[0] for t in want for x in t)) if any(want) else 1
            for f, ts in by.items():
                n = sum(t != ts[-1] for t in ts) // per
                ok = f is not None and f != tick and n < size
                out.append(("R3", "%s, function %s" % (name, f), ok, "" if ok else
                            "the notes stand in the tick function itself" if f in (None, tick) else
                            "holds %d notes before those of its last tick, chunk_size is %d" % (n, size)))


def brief(h):
    out = []
    for e in h:
        if e == "tick" and out and out[-1].endswith("tick"):
            n = out[-1][:-4].rstrip("x ")
            out[-1] = "%dx tick" % (int(n or 1) + 1)
        else:
            out.append(e)
    return " ".join(out)


def no(lab, what, o, midi, want):
    text = program([(midi, o)]).split("/say")[0]
    line = text.count("\n")
    out = []
    if midi is None:
        lab.I.absent = ("mido",)
        line = 1
    try:
        for how, v, trace in lab.produce(text, {"0.mid": midi}, optimizer=False):
            if how == "undecided" or trace:
                out.append((None, v if how == "undecided" else "branch", True, ""))
            elif how != "raise":
                out.append(("R5", what, False, "is accepted"))
            elif v.name != "Error":
                out.append(("R5", what, False, "the compiler crashes with %s" % v.name))
            else:
                got = found(lab, v, 0)
                ok = got[1:] == (line, "main") and (want is None or got[0] == want) and told_why(v)
                out.append(("R5", what, ok, "" if ok else "reports %s%s instead of %s" % (
                    where(*got), "" if told_why(v) else " without a reason", where(want or "the argument", line, "main"))))
    finally:
        lab.I.absent = ()
    return out


def told_why(v):
    """The message goes on after `MIDI parser: `, and not with `None`."""
    kw = v.val.fields.get("error_args")
    return not any(isinstance(x, K) and isinstance(x.v, str) and x.v.strip().rpartition(":")[2].strip() in ("", "None")
                   for x in [b for _, b in getattr(kw, "items", ())])


def check(chk, repo):
    cx = Ctx(repo)
    chk.rule("R1", "every note of the file is heard by every listener at its tick, with its sound, volume and pitch, "
                   "and nothing else is")
    chk.rule("R2", "play, stop, delays and looping move through the song as documented, songs apart from each other")
    chk.rule("R3", "the song is divided into functions by chunk_size, whole ticks at a time")
    chk.rule("R4", "songs with correct options are accepted")
    chk.rule("R5", "faulty options and files, and a missing MIDI reader, are refused with a reason")
    lab = MusicLab(cx)
    cs = cases(chk.tier == "thorough") + [("no",) + x for x in refused()]
    run_cases(chk, cx, lab, cs, lambda c: one(lab, c), "/modules/music.py")
    for r, n in (("R1", 15), ("R2", 150), ("R3", 12), ("R4", 15), ("R5", 15)):
        chk.floor(r, n)
