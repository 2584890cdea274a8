"""MIDI songs with the notes, times, sounds and volumes they stand for, and programs
that play them; an independent reference in exact arithmetic."""
import random
from fractions import Fraction as F

SOUND = {0: "note.harp", 9: "note.bell", 13: "note.xylophone", 24: "note.guitar", 32: "note.bass",
         56: "note.chime", 73: "note.flute", 105: "note.banjo", 127: "note.snare"}


class Song:
    def __init__(self, tpb, tracks, type_=1):
        self.tpb, self.tracks, self.type = tpb, tracks, type_


def note(t, k, ch=0, v=100):
    return (t, "note_on", dict(channel=ch, note=k, velocity=v))


def off(t, k, ch=0):
    return (t, "note_off", dict(channel=ch, note=k, velocity=64))


def tempo(t, us):
    return (t, "set_tempo", dict(tempo=us))


def cc(t, c, v, ch=0):
    return (t, "control_change", dict(channel=ch, control=c, value=v))


def prog(t, p, ch=0):
    return (t, "program_change", dict(channel=ch, program=p))


def end(t=0):
    return (t, "end_of_track", {})


def meta(t, kind="track_name"):
    return (t, kind, {"name": "x"} if kind == "track_name" else {})


class Options:
    def __init__(self, **kw):
        self.d = kw

    def get(self, k):
        return self.d.get(k, {"speed": "1.0", "volume": "1.0", "note_offset": "0", "chunk_size": "500",
                              "looping": "False", "loop_interval": "50", "listener": None}.get(k, {}))

    def text(self):
        out = []
        for k, v in self.d.items():
            if isinstance(v, dict):
                v = "{%s}" % (", ".join("%s: %s" % i for i in v.items()) or ":")
            out.append(", %s=%s" % (k, v))
        return "".join(out)


class Unclear(Exception):
    """A note lies half way between two ticks."""


def reference(song, o):
    """([(tick, sound, volume, pitch)] with volume and pitch exact, (shortest, longest) LENGTH)."""
    merged = []
    for n, tr in enumerate(song.tracks):
        t = 0
        for i, (d, kind, at) in enumerate(tr):
            t += d
            merged.append((t, n, i, kind, at))
    merged.sort(key=lambda m: m[:3])
    vol = dict.fromkeys(range(16), F(100))
    ins = dict.fromkeys(range(16), 0)
    ins[9] = 127
    us, mt, gt = 500000, 0, F(0)
    speed = F(o.get("speed"))
    sounds = dict(SOUND)
    sounds.update({int(k): v.strip('"') for k, v in o.get("instrument").items()})
    factor = dict.fromkeys(range(16), F(1))
    factor.update({int(k): F(v) for k, v in o.get("channel_volume").items()})
    out = []
    step = lambda: F(us, song.tpb * 50000) / speed       # game ticks per MIDI tick
    for t, _, _, kind, at in merged:
        gt += (t - mt) * step()
        mt = t
        if kind == "set_tempo":
            us = at["tempo"]
        elif kind == "control_change" and at["control"] == 7:
            vol[at["channel"]] = F(at["value"])
        elif kind == "program_change":
            ins[at["channel"]] = at["program"]
        elif kind == "note_on" and at["velocity"]:
            c = at["channel"]
            v = F(at["velocity"]) * vol[c] * factor[c] / 127 / 127 * F(o.get("volume"))
            if v:
                out.append((tick(gt), sounds[ins[c]], float(v),
                            2.0 ** ((at["note"] + int(o.get("note_offset")) - 54) / 12 - 1)))
    return out, (int(gt), int(gt + step()) + 1)


def tick(x):
    n = int(x + F(1, 2))
    if abs(x + F(1, 2) - n) < F(1, 10 ** 6) or abs(x + F(1, 2) - n - 1) < F(1, 10 ** 6):
        raise Unclear()
    return n


def clear(song, o):
    try:
        reference(song, o)
    except Unclear:
        return False
    return True


# -- songs -------------------------------------------------------------------
C = [note(0, 60), note(0, 64), note(0, 67)]
FIXED = {
    "a scale": Song(10, [[note(0 if i == 0 else 5, 60 + i) for i in range(8)] + [end(1)]]),
    "chords": Song(10, [C + [off(4, 60), off(0, 64), off(0, 67)] + [note(0, 62), note(0, 65), off(7, 62), off(0, 65)]
                        + C + [end()]]),
    "three tracks at once": Song(12, [
        [tempo(0, 500000), meta(0), end()],
        C + [note(13, 70), note(0, 71), note(0, 72)] + [note(13, 50, 0, 20), end()],
        [note(0, 40, 1), note(13, 41, 1), note(13, 42, 1), note(13, 43, 1), end()]]),
    "tempo changes": Song(7, [
        [tempo(0, 300000), tempo(9, 900000), tempo(0, 450000), tempo(11, 1200000), end()],
        [note(4, 60 + i) for i in range(10)] + [end()]]),
    "volumes and programs": Song(10, [
        [prog(0, 24), note(1, 60), cc(0, 7, 127), note(2, 61), cc(0, 7, 64), cc(0, 10, 3), note(3, 62), cc(2, 7, 0), note(2, 63),
         cc(1, 7, 1), note(1, 64), end()],
        [prog(0, 105, 3), prog(0, 32, 3), note(3, 50, 3, 127), prog(3, 13, 3), note(0, 51, 3, 1), note(7, 52, 9), note(0, 53, 3),
         prog(0, 73, 3), note(0, 54, 3), note(0, 30, 15), end()]]),
    "drums": Song(10, [[note(0, 35, 9), note(3, 38, 9, 60), prog(0, 56, 9), note(3, 42, 9), note(0, 60), note(3, 36, 10), end()]]),
    "silent messages": Song(10, [[meta(2), note(3, 60), meta(0), note(4, 60, 0, 0), (0, "pitchwheel", dict(channel=0, pitch=8)),
                                  (2, "sysex", {}), off(1, 60), note(1, 61), (3, "polytouch", dict(channel=0, note=3, value=4)), end(20)]]),
    "one slow tick per beat": Song(1, [[note(0, 60), note(1, 61), note(2, 62), end()], [note(1, 50, 1), note(1, 51, 1), note(0, 52, 1), end()]]),
    "several MIDI ticks per game tick": Song(47, [[note(1, 40 + i, i % 3) for i in range(25)] + [end()], [note(2, 70, 4)] * 9 + [end()]]),
    "one track file": Song(10, [[tempo(0, 400000), prog(0, 9), note(0, 60), note(0, 67), note(11, 61, 1), end(3)]], 0),
    "late start": Song(10, [[note(33, 60), note(9, 61), end()], [note(35, 40, 1), end()]]),
    "no notes": Song(10, [[tempo(0, 400000), end(7)], [end()]]),
    "no messages": Song(10, [[], []]),
    "no tracks": Song(10, []),
    "high and low": Song(10, [[note(0, 0), note(3, 127), note(3, 54), note(3, 66, 0, 1), note(3, 78, 0, 127), end()]]),
}


def rnd_song(r):
    while True:
        tpb = r.choice([3, 5, 10, 12, 20])
        tracks = []
        chans = r.sample(range(16), 6)
        for n in range(r.randint(1, 4)):
            tr, mine = [], chans[n:n + 1] + ([chans[n + 3]] if n < 2 else [])
            for _ in range(r.randint(1, 12)):
                d = r.choice([0, 0, 1, 2, 3, 7])
                k = r.random()
                c = r.choice(mine)
                tr.append(note(d, r.randrange(128), c, r.choice([0, 1, 64, 127])) if k < .55 else
                          off(d, 60, c) if k < .65 else
                          prog(d, r.choice(sorted(SOUND)), c) if k < .75 else
                          cc(d, r.choice([7, 7, 10]), r.choice([0, 30, 127]), c) if k < .9 or n else
                          tempo(d, r.choice([250000, 400000, 700000])))
            tracks.append(tr + [end(r.choice([0, 3]))])
        s = Song(tpb, tracks)
        if clear(s, Options()):
            return s


def rnd_options(r, s):
    while True:
        d = {}
        for k, vs in (("speed", ["0.5", "1.5", "2.0", "3.7"]), ("volume", ["0.25", "2.0", "0.001"]),
                      ("note_offset", ["-12", "5", "24"]), ("chunk_size", ["1", "2", "3", "5"]),
                      ("listener", ["ps", "one"]), ("looping", ["True"]), ("loop_interval", ["0", "1", "7"]),
                      ("channel_volume", [{"0": "0.5"}, {"3": "0.0", "9": "2.0"}, {}]),
                      ("instrument", [{"0": '"mob.pig"'}, {"127": '"note.hat"', "24": '"a.b"'}, {}])):
            if r.random() < .3:
                d[k] = r.choice(vs)
        o = Options(**d)
        if clear(s, o):
            return o


HEAD = """import music
entity P:
    pass
ex := ExternEngroup()
ex.select(Enfilter().all_players())
ps := ex.resolve(P)
ex1 := ExternEngroup()
ex1.select(Enfilter().all_players().distance_from(AbsPos(10, 64, 10), max=3.0))
one := ex1.resolve(P)
k := 0
"""
LISTEN = {None: ("al", "bob"), "ps": ("al", "bob"), "one": ("al",)}


def program(songs):
    """songs: [(name, options)]"""
    out = HEAD
    for i, (_, o) in enumerate(songs):
        out += 'const m%d = music.Music("%d.mid"%s)\n/say LENGTH ${m%d.LENGTH}\n' % (i, i, o.text(), i)
    for i in range(len(songs)):
        for name, call in (("p", "play()"), ("p3", "play(3)"), ("p1", "play(1)"), ("d2", "play(-2)"), ("d5", "play(timer=-5)"),
                           ("v", "play(7 - 2 * k)"), ("s", "stop()"), ("e", "play(m%d.LENGTH)" % i),
                           ("e1", "play(m%d.LENGTH + 1)" % i), ("e2", "play(m%d.LENGTH + 2)" % i)):
            out += "interface z/%s%d:\n    m%d.%s\n" % (name, i, i, call)
    return out + "interface z/inc:\n    k += 1\n"


def histories(r, n, longest):
    """Of n songs: lists of interface names and `tick`s."""
    full = ["tick"] * (longest + 4)
    out = [["p%d" % i for i in range(n)] + full]
    for op in ("d2", "d5", "p3", "p1", "v", "e", "e1", "e2"):
        out.append([op + "0"] + full)
    out.append(["inc"] * 5 + ["v0"] + full)
    for _ in range(6):
        h = []
        for _ in range(r.randint(2, 5)):
            h.append(r.choice(["p", "p", "p3", "d2", "s", "v", "e"]) + str(r.randrange(n)))
            h += ["tick"] * r.choice([1, 2, 5, 11])
            h += ["inc"] * r.choice([0, 0, 1])
        out.append(h + ["tick"] * 6)
    out.append(["p0"] + full + ["p0"] + full)
    out.append(["p0"] + full * 3)
    return out


def expected(songs, lengths, h):
    """The notes heard, per tick of the history."""
    notes = []
    for (s, o) in songs:
        d = {}
        for t, *rest in reference(s, o)[0]:
            d.setdefault(t, []).append((LISTEN[o.get("listener")],) + tuple(rest))
        notes.append(d)
    timer, k, out = [None] * len(songs), 0, []
    for e in h:
        if e == "inc":
            k += 1
        elif e != "tick":
            i, op = int(e[-1]), e[:-1]
            n = lengths[i]
            timer[i] = {"p": 0, "p3": 3, "p1": 1, "d2": -2, "d5": -5, "v": 7 - 2 * k, "s": None,
                        "e": n, "e1": n + 1, "e2": n + 2}[op]
        else:
            heard = []
            for i, (_, o) in enumerate(songs):
                t, n = timer[i], lengths[i]
                if t is None:
                    continue
                heard += notes[i].get(t, [])
                if t <= n:
                    t += 1
                if t == n + 1 and o.get("looping") == "True":
                    t = -int(o.get("loop_interval"))
                timer[i] = t
            out.append(heard)
    return out


def cases(deep):
    r = random.Random(7)
    out = []
    fixed = [n for n in FIXED]
    for n in fixed:
        o = Options()
        if not clear(FIXED[n], o):
            o = Options(speed="0.93")
        assert clear(FIXED[n], o), n
        out.append((n, [(FIXED[n], o)]))
        for _ in range(3 if deep else 1):
            out.append((n + ", other options", [(FIXED[n], rnd_options(r, FIXED[n]))]))
    for i in range(40 if deep else 12):
        s = rnd_song(r)
        out.append(("random song %d" % i, [(s, rnd_options(r, s))]))
    s, t = FIXED["chords"], FIXED["drums"]
    out.append(("two songs", [(s, Options(listener="one")), (t, Options(looping="True", loop_interval="2"))]))
    out.append(("two songs, loops", [(s, Options(looping="True", loop_interval="0", chunk_size="2")),
                                     (t, Options(looping="True", chunk_size="1"))]))
    for i in range(8 if deep else 3):
        a, b = r.sample(["a scale", "chords", "volumes and programs", "drums", "tempo changes"], 2)
        x, y = FIXED[a], FIXED[b]
        o, q = rnd_options(r, x), rnd_options(r, y)
        o.d["instrument"] = {"0": '"mob.pig"', "127": '"note.hat"', "24": '"a.b"'}
        o.d["channel_volume"] = {"0": "0.25", "9": "0.5"}
        q.d.pop("instrument", 0), q.d.pop("channel_volume", 0)
        o.d["note_offset"] = "3"
        if clear(x, o) and clear(y, q):
            out.append(("%s and %s" % (a, b), [(x, o), (y, q)]))
    return [(n, songs, histories(r, len(songs), max(reference(*x)[1][1] for x in songs))) for n, songs in out]


# (what, options, song or error class, diagnostic, line offset)
def refused():
    s = FIXED["drums"]
    out = []
    for k, v in (("speed", "0.0"), ("speed", "-1.0"), ("volume", "0.0"), ("volume", "-0.5"), ("channel_volume", {"3": "-0.1"}),
                 ("channel_volume", {"16": "0.5"}), ("channel_volume", {"-1": "0.5"}), ("instrument", {"128": '"a"'}),
                 ("instrument", {"-1": '"a"'}), ("chunk_size", "0"), ("chunk_size", "-3"), ("looping", "1"),
                 ("instrument", {"1": "2"}), ("channel_volume", {"1": '"x"'}), ("note_offset", "1.5"), ("listener", '"al"'), ("speed", "k")):
        o = Options(**{k: v})
        out.append(("%s=%s" % (k, o.text().split("=", 1)[1]), o, s, None))
    out.append(("a MIDI file of type 2", Options(), Song(10, [[end()]], 2), "ANY"))
    for e in ("FileNotFoundError|2|No such file or directory", "PermissionError|13|Permission denied", "OSError|5|Input/output error",
              "OSError|MThd not found. Probably not a MIDI file", "OSError|running status without last_status", "EOFError",
              "ValueError|data byte must be in range 0..127"):
        out.append(("a file the MIDI reader rejects with %s" % e, Options(), e, "IO"))
    out.append(("mido is not installed", Options(), None, "ANY"))
    return out
