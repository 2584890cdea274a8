"""Programs that use the library modules, with what they have to do.

Every case is (rule, program, [(statement, [expected event, ...])]): the program shows
`/say #i` before its i-th statement.  Events are strings `command @ environment`, or
("show", receivers, prefix, runs) for formatted text; see rules/p12.py.
"""
import random

HEAD = """import world
import print
import math
entity C:
    hp: int
    new():
        new("cow", AbsPos(3, 4, 5))
        self.hp = 42
entity D:
    new():
        new("pig", AbsPos(10, 20, -30))
entity P:
    pass
ex := ExternEngroup()
ex.select(Enfilter().all_players())
ps := ex.resolve(P)
cs: Engroup[C]
e := C()
d := D()
cs.add(e)
a := 3
b := -4
p := True
q := False
"""


def batch(rule, items, size, head=HEAD):
    out = []
    for k in range(0, len(items), size):
        part = items[k:k + size]
        text = head
        for i, (src, _) in enumerate(part):
            text += "/say #%d\n%s\n" % (i, src)
        out.append((rule, text + "/say #end\n", [(s, w) for s, w in part]))
    return out


# -- formatted text ----------------------------------------------------------
PLAIN = frozenset()
CODE = {"red": "c", "green": "a", "blue": "9", "gold": "6"}


def runs(*rs):
    out = []
    for t, f in rs:
        if t and out and out[-1][1] == f:
            out[-1] = (out[-1][0] + t, f)
        elif t:
            out.append((t, f))
    return tuple(out)


ATOMS = [
    ('"x y"', [("x y", PLAIN)]), ('""', []), (r'"q\"\\é"', [('q"\\é', PLAIN)]),
    ('format("v%0w", a)', [("v3w", PLAIN)]),
    ('format("%0", a * 2 + 1)', [("7", PLAIN)]),
    ('format("%0 %1 %0", a - b, b * b)', [("7 16 7", PLAIN)]),
    ('format("%{k}%%%0%x%", 7, k=True)', [("1%7%x%", PLAIN)]),
    ('format("%0%1%2", p, q, not p)', [("100", PLAIN)]),
    ('format("%0%1", a > b, a == 4)', [("10", PLAIN)]),
    ('format("%0|%1", p and a > 0, q or b > 0)', [("1|0", PLAIN)]),
    ('format("%0", e.hp)', [("42", PLAIN)]),
    ('format("%{1}%{0}", "s", "%0")', [("%0s", PLAIN)]),
    ('translate("k.y")', [("<k.y>", PLAIN)]),
    ('format("%0 %1", 1.5, False)', [("1.5 0", PLAIN)]),
    ('with_font("r", "red")', [("r", frozenset("c"))]),
    ('with_font("b", bold=True, obfuscated=True)', [("b", frozenset("lk"))]),
    ('format("%0", -a)', [("-3", PLAIN)]),
]
F = [x for x in ATOMS if not x[0].startswith('"')]
FONTS = [('"green"', "", "a"), ('"default"', ", italic=True", "o"), ('"gold"', ", bold=True", "6l")]


def font(x, f):
    col, opt, codes = f
    fm = frozenset(codes)
    return ("with_font(%s, %s%s)" % (x[0], col, opt),
            [(t, g or fm) for t, g in x[1]])


def concat(x, y):
    return ("(%s + %s)" % (x[0], y[0]), x[1] + y[1])


def nest(x, y):
    return ('format("<%%0%%{k}>", %s, k=%s)' % (x[0], y[0]),
            [("<", PLAIN)] + x[1] + y[1] + [(">", PLAIN)])


def fstrings(deep):
    one = list(F)
    two = [concat(x, y) for x in F for y in F]
    two += [concat(x, y) for x in ATOMS[:3] for y in F] + [concat(y, x) for x in ATOMS[:3] for y in F]
    two += [nest(x, y) for x in ATOMS for y in ATOMS if x[0] != y[0]][::3]
    two += [font(x, f) for x in ATOMS for f in FONTS]
    fonts = [x for x in two if "with_font" in x[0]]
    rnd = random.Random(3)
    three = [font(x, f) for x in fonts for f in FONTS]
    three += [concat(rnd.choice(fonts), rnd.choice(two)) for _ in range(30)]
    three += [font(concat(rnd.choice(fonts), rnd.choice(fonts)), rnd.choice(FONTS)) for _ in range(30)]
    three += [font(nest(rnd.choice(fonts), rnd.choice(two)), rnd.choice(FONTS)) for _ in range(30)]
    if not deep:
        two, three = rnd.sample(two, 90), rnd.sample(three, 70)
    return one + two + three


def qualify(src):
    for n in ("format", "translate", "with_font"):
        src = src.replace(n + "(", "print." + n + "(")
    return src


def texts(deep):
    items = []
    k = 0
    for src, want in fstrings(deep):
        src = qualify(src)
        ev = ("show", "al,bob", "tellraw", runs(*want))
        k += 1
        if k % 3 == 0:
            items.append(("const f%d = %s\nprint.tell(f%d)" % (k, src, k), [ev]))
        else:
            items.append(("print.tell(%s)" % src, [ev]))
    rnd = random.Random(5)
    two = fstrings(False)
    for i in range(60 if deep else 30):
        x, y = rnd.choice(F), rnd.choice(two)
        items.append(("const g%d = %s\nconst h%d = %s\nprint.tell(g%d + \"-\" + h%d)" % (
            i, qualify(x[0]), i, qualify(y[0]), i, i),
            [("show", "al,bob", "tellraw", runs(*(x[1] + [("-", PLAIN)] + y[1])))]))
    show = lambda r, m, t: ("show", r, "titleraw " + m, runs((t, PLAIN)))
    items += [
        ('print.tell(print.format("50%"))', [("show", "al,bob", "tellraw", (("50%", PLAIN),))]),
        ('print.tell(print.format("%%0%%", a))', [("show", "al,bob", "tellraw", (("%0%", PLAIN),))]),
        ('print.tell("hi", ps)', [("show", "al,bob", "tellraw", (("hi", PLAIN),))]),
        ('print.tell("hi", cs)', [("show", "", "tellraw", (("hi", PLAIN),))]),
        ('print.title("T")', [show("al,bob", "title", "T")]),
        ('print.title(print.format("%0", a + 1), ps, print.SUBTITLE)',
         [show("al,bob", "subtitle", "4")]),
        ('print.title("T", mode=print.ACTIONBAR, stay_time=5)',
         ["titleraw {al,bob} times 10 5 20", show("al,bob", "actionbar", "T"),
          "titleraw {al,bob} reset"]),
        ('print.title(print.format("%0", a), fade_in=1, fade_out=3)',
         ["titleraw {al,bob} times 1 70 3", show("al,bob", "title", "3"),
          "titleraw {al,bob} reset"]),
        ('print.title("T", fade_in=10, stay_time=70, fade_out=20)', [show("al,bob", "title", "T")]),
        ("print.title_clear()", ["titleraw {al,bob} clear"]),
        ("print.title_clear(ps)", ["titleraw {al,bob} clear"]),
    ]
    return batch("R1", items, 30)


# -- positions ---------------------------------------------------------------
def num(v):
    v = float(v)
    return "%d" % v if v == int(v) else repr(v)


class Env:
    """What an execution environment is after the subcommands of a position."""

    def __init__(self, me=None, pos=(0.0, 0.0, 0.0), rot="0", dim="0", anchor="feet"):
        self.me, self.pos, self.rot, self.dim, self.anchor = me, pos, rot, dim, anchor

    def but(self, **kw):
        d = dict(me=self.me, pos=self.pos, rot=self.rot, dim=self.dim, anchor=self.anchor)
        d.update(kw)
        return Env(**d)

    def add(self, off):
        """Apply [(kind, value)] * 3."""
        if off[0][0] == "^":
            return self.but(pos="local(%s;%s;%s)" % (pos_text(self.pos), self.rot, ",".join(
                num(v) for _, v in off)))
        if isinstance(self.pos, str):
            if all(k == "" for k, _ in off):
                return self.but(pos=tuple(float(v) for _, v in off))
            return self.but(pos="rel(%s;%s)" % (self.pos, ",".join(
                k + num(v) for k, v in off)))
        return self.but(pos=tuple(float(v) + (b if k == "~" else 0.0)
                                  for (k, v), b in zip(off, self.pos)))

    def text(self):
        out = []
        if self.me is not None:
            out.append("me=%s" % self.me)
        if self.pos != (0.0, 0.0, 0.0):
            out.append("pos=" + pos_text(self.pos))
        if self.rot != "0":
            out.append("rot=" + self.rot)
        if self.dim != "0":
            out.append("dim=" + self.dim)
        if self.anchor != "feet":
            out.append("anchor=" + self.anchor)
        return " ".join(out)


def pos_text(p):
    return p if isinstance(p, str) else ",".join(num(x) for x in p)


E1, E2 = (3.5, 4.0, 5.5), (10.5, 20.0, -29.5)
ROTS = [("Rot(10, 20)", "10,20"), ("Rot(e)", "of(e1)"), ("Rot(e).offset(5)", "of(e1)+~5,~"),
        ("Rot(1, 2).abs(horizontal=3.5)", "1,2+~,3.5"),
        ("Rot.face_entity(d)", "facing(e2,feet)"), ('Rot.face_entity(d, "eyes")', "facing(e2,eyes)"),
        ("Rot(1, 2).offset(1, 2).abs(7, 8)", "7,8"), ("Rot(1.5, -2).abs()", "1.5,-2+~,~")]
OFFSETS = [
    ("Offset()", [("~", 0), ("~", 0), ("~", 0)]),
    ("Offset(1, 2, -3)", [("~", 1), ("~", 2), ("~", -3)]),
    ("Offset(y=1.5)", [("~", 0), ("~", 1.5), ("~", 0)]),
    ("Offset(x_abs=7, z=2)", [("", 7), ("~", 0), ("~", 2)]),
    ("Offset(1).abs(y=5)", [("~", 1), ("", 5), ("~", 0)]),
    ("Offset().abs(4, 5, 6)", [("", 4.5), ("", 5), ("", 6.5)]),
    ("Offset().abs(4.0, 5, 6.25).offset(z=0)", [("", 4), ("", 5), ("~", 0)]),
    ("Offset.local(1, 2.5, -3)", [("^", 1), ("^", 2.5), ("^", -3)]),
    ("Offset.local(front=2)", [("^", 0), ("^", 0), ("^", 2)]),
    ("AbsPos(1, 2, 3)", [("", 1.5), ("", 2), ("", 3.5)]),
]


def at(env, pos, who):
    return env.but(pos=pos, rot="of(%s)" % who, dim="of(%s)" % who)


def step_ops(deep):
    import math
    ops = [(".apply(%s)" % s, lambda v, o=o: v.add(o)) for s, o in OFFSETS]
    ops += [(".abs(y=9)", lambda v: v.add([("~", 0), ("", 9), ("~", 0)])),
            (".abs(1, 2, 3)", lambda v: v.add([("", 1.5), ("", 2), ("", 3.5)])),
            (".offset(1, 2, 3)", lambda v: v.add([("~", 1), ("~", 2), ("~", 3)])),
            (".offset(z=-0.5)", lambda v: v.add([("~", 0), ("~", 0), ("~", -0.5)])),
            ('.dim("nether")', lambda v: v.but(dim="nether"))]
    ops += [(".local(%s, 1, 2, 3)" % s, lambda v, r=r: turn(v, r).add(
        [("^", 1), ("^", 2), ("^", 3)])) for s, r in ROTS]
    ops += [(".local(Rot(1, 2), front=1)", lambda v: turn(v, "1,2").add(
        [("^", 0), ("^", 0), ("^", 1)]))]

    def align(axes):
        def f(v):
            if isinstance(v.pos, str):
                return v.but(pos="align(%s;%s)" % (v.pos, axes))
            return v.but(pos=tuple(float(math.floor(p)) if c in axes else p
                                   for c, p in zip("xyz", v.pos)))
        return f
    ops += [('.align("xz")', align("xz")), (".align()", align("xyz"))]
    return ops


def turn(v, rot):
    if rot.startswith("facing"):
        rot = "facing(%s)" % rot[7:-1] + "from(%s)" % pos_text(v.pos)
    return v.but(rot=rot)


STARTS = [
    ("Pos(1, 2, 3)", lambda: Env(pos=(1.5, 2.0, 3.5))),
    ("Pos(1.0, 2, 3.25)", lambda: Env(pos=(1.0, 2.0, 3.25))),
    ("Pos(-1, -2.5, 0)", lambda: Env(pos=(-0.5, -2.5, 0.5))),
    ("Pos(e)", lambda: at(Env(), E1, "e1")),
    ('Pos(d, "eyes")', lambda: at(Env(), E2, "e2").but(anchor="eyes")),
]
ABS = [
    ("AbsPos(1, 2, 3)", (1.5, 2.0, 3.5)), ("AbsPos(1.0, 2.5, -3)", (1.0, 2.5, -2.5)),
    ("AbsPos(1, 2, 3).abs(x=5)", (5.5, 2.0, 3.5)), ("AbsPos(1, 2, 3).offset(1, 2, -3)", (2.5, 4.0, 0.5)),
    ("AbsPos(1, 2, 3).offset(y=0.5).abs(z=1.0)", (1.5, 2.5, 1.0)),
]


def positions(deep):
    items = []
    rnd = random.Random(9)
    ops = step_ops(deep)
    cases = [(s, f()) for s, f in STARTS] + [(s, Env(pos=p)) for s, p in ABS]
    for s, f in STARTS[:1] + STARTS[3:]:
        for o, g in ops:
            cases.append((s + o, g(f())))
    chains = [(s + o1 + o2, g2(g1(f()))) for s, f in STARTS for o1, g1 in ops for o2, g2 in ops]
    cases += chains if deep else rnd.sample(chains, 70)
    for _ in range(300 if deep else 40):
        (s, f), n = rnd.choice(STARTS), rnd.randint(3, 4)
        v = f()
        for _ in range(n):
            o, g = rnd.choice(ops)
            s, v = s + o, g(v)
        cases.append((s, v))
    for s, v in cases:
        items.append(('world.setblock(%s, "stone")' % s, [("setblock ~ ~ ~ stone [] replace", v)]))
    # a position made from another one leaves that one as it was
    for i in range(60 if deep else 25):
        s, f = rnd.choice(STARTS)
        (o1, g1), (o2, g2), (o3, g3) = (rnd.choice(ops) for _ in range(3))
        base = g1(f())
        sb = lambda v: 'world.setblock(%s, "stone")' % v
        items.append(("const k%d = %s%s\nconst l%d = k%d%s\nconst m%d = k%d%s\n%s\n%s\n%s" % (
            i, s, o1, i, i, o2, i, i, o3, sb("k%d" % i), sb("l%d" % i), sb("m%d" % i)),
            [("setblock ~ ~ ~ stone [] replace", v) for v in (base, g2(base), g3(base))]))
    for i, (s, o) in enumerate(OFFSETS[:7]):
        base = ("offset%d" % i)
        items.append(("const %s = %s\nconst x%s = %s.offset(9, 9, 9)\nconst y%s = %s.abs(1.0, 1, 1.0)\n"
                      'world.fill(Pos(0.0, 0, 0.0), %s, "a")\nworld.fill(Pos(0.0, 0, 0.0), x%s, "a")\n'
                      'world.fill(Pos(0.0, 0, 0.0), y%s, "a")' % (
                          base, s, base, base, base, base, base, base, base),
                      ["fill ~ ~ ~ %s a [] replace" % " ".join(k + num(v) for k, v in x) for x in (
                          o, [("~", 9)] * 3, [("", 1)] * 3)]))
    for s, r in ROTS:
        items.append(("world.rotate(e, %s)" % s, [
            ("tp {e1} ~ ~ ~ ~ ~", turn(at(Env(me="e1"), E1, "e1"), r))]))
    return batch("R4", items, 40)


# -- commands ----------------------------------------------------------------
POS = Env(pos=(1.5, 2.0, 3.5))
EENV = Env(me="e1")


def commands():
    v = []

    def add(src, *want):
        v.append((src, list(want)))
    W = "world."
    for mode, m in (("", "normal"), (', "move"', "move"), (', "force"', "force"), (", None", "normal")):
        for air, k in (("", "replace"), (", no_air=True", "masked"), (", no_air=False", "replace")):
            add('world.clone(Pos(1, 2, 3), Offset(1, 2, 3), Offset(x_abs=4)%s%s)' % (mode, air),
                ("clone ~ ~ ~ ~1 ~2 ~3 4 ~0 ~0 %s %s" % (k, m), POS))
        add('world.clone_only(Pos(1, 2, 3), Offset(1, 2, 3), Offset(x_abs=4), "dirt"%s)' % mode,
            ("clone ~ ~ ~ ~1 ~2 ~3 4 ~0 ~0 filtered %s dirt []" % m, POS))
    for r, m in (("", "replace"), (', "destroy"', "destroy"), (', "hollow"', "hollow"),
                 (', "outline"', "outline"), (', "aironly"', "keep"), (', "all"', "replace")):
        add('world.fill(Pos(1, 2, 3), Offset(1), world.Block("wool", {"color": "red", "n": 2, "t": True, "f": False})%s)' % r,
            ('fill ~ ~ ~ ~1 ~0 ~0 wool ["color"="red","n"=2,"t"=true,"f"=false] %s' % m, POS))
        if "ou" not in r and "hol" not in r:
            add('world.setblock(Pos(1, 2, 3), "wool"%s)' % r, ("setblock ~ ~ ~ wool [] %s" % m, POS))
    add('world.fill_replace(Pos(1, 2, 3), Offset(1), "a", world.Block("b", {"k": "v"}))',
        ('fill ~ ~ ~ ~1 ~0 ~0 a [] replace b ["k"="v"]', POS))
    add("world.damage(e, 3)", "damage {e1} 3")
    add('world.damage(cs, 3, "fall")', "damage {e1} 3 fall")
    add('world.damage(e, 3, "attack", d)', "damage {e1} 3 attack entity {e2}")
    add('world.effect_give(e, "speed", 5)', "effect {e1} speed 5 0 false")
    add('world.effect_give(e, "speed", 5, 2, False)', "effect {e1} speed 5 2 true")
    add("world.effect_clear(cs)", "effect {e1} clear")
    add('world.enchant(e, "x")', "enchant {e1} x 1")
    add('world.enchant(e, "x", 3)', "enchant {e1} x 3")
    add('world.event_entity(e, "ev")', "event entity {e1} ev")
    add('world.msg_me(e, "hello there")', ("me hello there", EENV))
    add('world.msg_say(d, "hello there")', ("say hello there", Env(me="e2")))
    add('world.msg_tell(e, ps, "hello there")', ("tell {al,bob} hello there", EENV))
    items = [('"egg"', "egg", 0, ""), ('world.Item("egg")', "egg", 0, ""), ('world.Item("egg", 5)', "egg", 5, ""),
             ('world.Item("egg", keep_on_death=True)', "egg", 0, {"minecraft:keep_on_death": {}}),
             ('world.Item("egg", 1, can_destroy={"a", "b"}, can_place_on={"c"}, lock="lock_in_slot")',
              "egg", 1, {"minecraft:can_destroy": {"blocks": ["a", "b"]},
                         "minecraft:can_place_on": {"blocks": ["c"]},
                         "minecraft:item_lock": {"mode": "lock_in_slot"}}),
             ('world.Item("egg", lock="lock_in_inventory")', "egg", 0,
              {"minecraft:item_lock": {"mode": "lock_in_inventory"}})]
    import json
    for s, i, data, comp in items:
        c = " " + json.dumps(comp, sort_keys=True) if comp else ""
        add("world.give(ps, %s)" % s, "give {al,bob} %s 1 %d%s" % (i, data, c))
        add("world.give(ps, %s, 7)" % s, "give {al,bob} %s 7 %d%s" % (i, data, c))
        add("world.replaceitem_block(Pos(1, 2, 3), 4, %s)" % s,
            ("replaceitem block ~ ~ ~ slot.container 4 destroy %s 1 %d%s" % (i, data, c), POS))
        add('world.replaceitem_entity(e, "slot.hotbar", 4, %s, 2, True)' % s,
            "replaceitem entity {e1} slot.hotbar 4 keep %s 2 %d%s" % (i, data, c))
    add('world.replaceitem_block(Pos(1, 2, 3), 4, "egg", 3, keep_old=True)',
        ("replaceitem block ~ ~ ~ slot.container 4 keep egg 3 0", POS))
    add("world.ride_start_tp_ride(e, d)", "ride {e1} start_riding {e2} teleport_ride")
    add("world.ride_start_tp_rider(cs, d)", "ride {e1} start_riding {e2} teleport_rider until_full")
    add('world.ride_start_tp_rider(e, d, "if_group_fits")',
        "ride {e1} start_riding {e2} teleport_rider if_group_fits")
    add("world.ride_stop(e)", "ride {e1} stop_riding")
    add("world.ride_evict_riders(e)", "ride {e1} evict_riders")
    add('world.summon_rider(e, "cow")', "ride {e1} summon_rider cow *")
    add('world.summon_rider(e, "cow", "ev", "my name")', 'ride {e1} summon_rider cow ev "my name"')
    add('world.summon_rider(e, "cow", name="nm")', "ride {e1} summon_rider cow * nm")
    add('world.summon_ride(e, "cow")', "ride {e1} summon_ride cow reassign_rides *")
    add('world.summon_ride(e, "cow", "ev", "n", "skip_riders")',
        "ride {e1} summon_ride cow skip_riders ev n")
    add('world.summon_ride(e, "cow", mode="no_ride_change")',
        "ride {e1} summon_ride cow no_ride_change *")
    add("world.spread(cs, Pos(1, 2, 3), 5)", ("spreadplayers ~ ~ 0 5 {e1}", POS))
    add("world.spread(e, Pos(1, 2, 3), 5.5, 2)", ("spreadplayers ~ ~ 2 5.5 {e1}", POS))
    add("world.spread(e, Pos(1, 2, 3), 5.0, 4.0)", ("spreadplayers ~ ~ 4 5 {e1}", POS))
    add('world.summon("cow", Pos(1, 2, 3))', ("summon cow ~ ~ ~ 0 0 *", POS))
    add('world.summon("cow", Pos(1, 2, 3), "ev", "my name")',
        ('summon cow ~ ~ ~ 0 0 ev "my name"', POS))
    add('world.summon("cow", Pos(1, 2, 3), name="n", rot=Rot(5, 6))',
        ("summon cow ~ ~ ~ ~ ~ * n", POS.but(rot="5,6")))
    add('world.tag_add(cs, "t1")', "tag {e1} add t1")
    add('world.tag_remove(e, "t1")', "tag {e1} remove t1")
    add('world.tag_remove(e, "my tag")', 'tag {e1} remove "my tag"')
    add("world.tp(e, Pos(1, 2, 3))", ("tp {e1} ~ ~ ~ false", POS))
    add("world.tp(cs, Pos(d), check_for_blocks=True)", ("tp {e1} ~ ~ ~ true", at(Env(), E2, "e2")))
    for n, c, ks in (("move", "~", "xyz"), ("move_local", "^", ("left", "up", "front"))):
        for args in ((1, 2.5, -3), (0, 0, 0), (None, 1, None)):
            s = "".join(", %s=%s" % (k, x) for k, x in zip(ks, args) if x is not None)
            for chk, t in (("", "false"), (", check_for_blocks=True", "true")):
                add("world.%s(e%s%s)" % (n, s, chk), (
                    "tp {e1} %s %s" % (" ".join(c + num(x or 0) for x in args), t),
                    at(EENV, E1, "e1")))
    add("world.clear_inventory(ps)", "clear {al,bob}")
    add('world.clear(ps, "egg")', "clear {al,bob} egg -1 -1")
    add('world.clear(ps, "egg", 2, 3)', "clear {al,bob} egg 2 3")
    add("world.spawnpoint_clear(ps)", "clearspawnpoint {al,bob}")
    for m in ("survival", "creative", "adventure", "spectator", "default"):
        add('world.gamemode(ps, "%s")' % m, "gamemode %s {al,bob}" % m)
    add('world.kick("some one")', 'kick "some one"')
    add('world.kick("x", "go away")', "kick x go away")
    add('world.recipe(ps, "r", True)', "recipe give {al,bob} r")
    add('world.recipe(ps, "*", False)', "recipe take {al,bob} *")
    add("world.spawnpoint_set(ps, Pos(1, 2, 3))", ("spawnpoint {al,bob} ~ ~ ~", POS))
    add("world.xp_add_levels(ps, -5)", "xp -5L {al,bob}")
    add("world.xp_add_points(ps, 5)", "xp 5 {al,bob}")
    add("world.gamemode(cs, \"default\")", "gamemode default {}")
    add("world.kill(d)", "kill {e2}")
    for truth in (True, False):
        t = "yes" if truth else "no"
        add('if world.is_block(Pos(1, 2, 3), "%s"):\n    /say in\nelse:\n    /say out' % t,
            ("test block ~ ~ ~ %s []" % t, POS), "say in" if truth else "say out")
        add('p = not world.is_block(Pos(1, 2, 3), "%s")\nprint.tell(print.format("%%0", p))' % t,
            ("test block ~ ~ ~ %s []" % t, POS),
            ("show", "al,bob", "tellraw", runs((("0" if truth else "1"), PLAIN))))
        add('if world.is_same_area(Pos(1, 2, 3), Offset(1, 2, %s), Offset(5)):\n    /say in' % (
            "7" if truth else "8"),
            ("test blocks ~ ~ ~ ~1 ~2 ~%s ~5 ~0 ~0 all" % ("7" if truth else "8"), POS),
            *(["say in"] if truth else []))
        add('if world.is_same_area(Pos(1, 2, 3), Offset(1, 2, %s), Offset(5), True):\n    /say in\nelse:\n    /say out' % (
            "7" if truth else "8"),
            ("test blocks ~ ~ ~ ~1 ~2 ~%s ~5 ~0 ~0 masked" % ("7" if truth else "8"), POS),
            "say in" if truth else "say out")
    # what a condition guards runs where the statement stands
    for no, t in ((False, "yes"), (True, "no")):
        blk = 'world.is_block(Pos(1, 2, 3), "%s")' % t
        same = "world.is_same_area(Pos(d), Offset(1, 2, 7), Offset(5))"
        tb, ts = ("test block ~ ~ ~ %s []" % t, POS), (
            "test blocks ~ ~ ~ ~1 ~2 ~7 ~5 ~0 ~0 all", at(Env(), E2, "e2"))
        say = [] if no else ["say in"]
        add("if %s and a == a:\n    /say in" % blk, tb, *say)
        add("if %s and %s:\n    /say in" % (same, blk), ts, tb, *say)
        add("if %s or %s:\n    /say in" % (blk, same), tb, ts, "say in")
        add("if not (%s and %s):\n    /say out" % (same, blk), ts, tb, *(["say out"] if no else []))
        add("a = 1\nwhile a > 0 and %s:\n    /say in\n    a -= 1" % blk, tb, *say)
        add("p = %s\nif p:\n    /say in" % blk, tb, *say)
    for f, ok in (('is_type("cow")', True), ('is_type("pig")', False),
                  ('is_not_type("cow")', False), ('has_tag("zz")', False), ("all_players()", False)):
        add("if world.is_entity(e, Enfilter().%s):\n    /say in\nelse:\n    /say out" % f,
            "say in" if ok else "say out")
        add("p = world.is_entity(e, Enfilter().%s) and not world.is_entity(d, Enfilter().%s)\n"
            "print.tell(print.format(\"%%0\", p))" % (f, f),
            ("show", "al,bob", "tellraw", runs(("1" if ok and f in (
                'is_type("cow")',) else "0", PLAIN))))
    return v


def world_cases():
    items = commands()
    kills = [x for x in items if x[0].startswith("world.kill")]
    rest = [x for x in items if not x[0].startswith(("world.kill", "if world.is_entity", "p = world.is_entity"))]
    ent = [x for x in items if x[0].startswith(("if world.is_entity", "p = world.is_entity"))]
    return batch("R3", rest, 24) + batch("R3", ent, 6) + batch("R3", kills, 1)


# -- arithmetic --------------------------------------------------------------
def wrap(v):
    return (v + 2 ** 31) % 2 ** 32 - 2 ** 31


BIG = 2 ** 31 - 1
PAIRS = [(x, y) for x in (0, 1, 2, 7, -1, -7, 12) for y in (1, 3, -3, 5, -1)]
EDGE = [(BIG - 1, BIG), (BIG, 2), (-BIG, BIG), (-BIG - 1, 7), (1 << 30, BIG), (5, -BIG), (-5, BIG)]


def math_cases(deep):
    items = []

    def show(expr, val, pre=""):
        items.append((pre + 'print.tell(print.format("%%0", %s))' % expr,
                      [("show", "al,bob", "tellraw", runs((str(val), PLAIN)))]))
    pairs = PAIRS if deep else PAIRS[::2]
    for i, (x, y) in enumerate(pairs + EDGE):
        for f, v in (("mod", x % y), ("floordiv", x // y)):
            pre = "a = %s\nb = %d\n" % (x if x >= -BIG else "-%d - 1" % BIG, y)
            show("math.%s(a, b)" % f, v, pre)
            if i % 3 == 0 and x >= -BIG:
                show("math.%s(%d, %d)" % (f, x, y), v)
                show("math.%s(a, %d)" % (f, y), v, pre)
                show("math.%s(%d, b)" % (f, x), v, pre)
    for b in (0, 1, 2, -3, 7):
        for e in range(0, 9):
            pre = "a = %d\nb = %d\n" % (b, e)
            if e < 6 or abs(b) < 4:
                show("math.pow(a, %d)" % e, b ** e, pre)
                if e < 5:
                    show("math.pow(a, b)", b ** e, pre)
                    show("math.pow(a + 1, %d) + a" % e, (b + 1) ** e + b, pre)
                show("math.pow(%d, %d)" % (b, e), b ** e)
    for e in (9, 13, 15, 16, 23, 30):
        show("math.pow(a, %d)" % e, 2 ** e, "a = 2\n")
        show("math.pow(a, %d)" % e, (-1) ** e, "a = -1\n")
    vals = [(1, 2, 3), (3, 1, 2), (2, 3, 1), (-5, 0, -5), (7, 7, -8)]
    for x, y, z in vals:
        pre = "a = %d\nb = %d\ne.hp = %d\n" % (x, y, z)
        for n, f in (("min", min), ("max", max)):
            show("math.%s(a, b)" % n, f(x, y), pre)
            show("math.%s(a, b, e.hp)" % n, f(x, y, z), pre)
            show("math.%s(a, b, %d)" % (n, z), f(x, y, z), pre)
            show("math.%s(%d, b, a, %d)" % (n, z, z + 1), f(x, y, z, z + 1), pre)
            show("math.%s(a + 1, b * 2, a - b)" % n, f(x + 1, y * 2, x - y), pre)
            show("math.%s(%d, %d)" % (n, x, y), f(x, y))
            show("math.%s(a)" % n, x, pre)
            show("math.%s(a, %d)" % (n, BIG), f(x, BIG), pre)
            show("math.%s(-%d - 1, a)" % (n, BIG), f(x, -BIG - 1), pre)
            # the target is an operand as well
            for s, v in (("math.%s(a, b)" % n, f(x, y)), ("math.%s(b, a)" % n, f(x, y)),
                         ("math.%s(b, a + 1)" % n, f(y, x + 1)), ("math.%s(b, %d, -a)" % (n, z), f(y, z, -x)),
                         ("math.%s(b, b - 1, a * a)" % n, f(y, y - 1, x * x)),
                         ("b + math.%s(b, a)" % n, y + f(y, x)),
                         ("math.%s(b, math.%s(a, e.hp)) - a" % (n, n), f(y, x, z) - x),
                         ("math.%s(math.%s(b, a), a + b)" % (n, "max" if n == "min" else "min"),
                          f((max if n == "min" else min)(y, x), x + y))):
                items.append((pre + "a = %s\n" % s + 'print.tell(print.format("%0,%1,%2", a, b, e.hp))',
                              [("show", "al,bob", "tellraw", runs(("%d,%d,%d" % (v, y, z), PLAIN)))]))
    for x in (2, 3, -2):
        pre = "a = %d\nb = %d\n" % (x, x + 1)
        for s, v in (("math.pow(a, 3)", x ** 3), ("math.pow(a, 2) + a", x * x + x),
                     ("math.pow(b, 3) - a", (x + 1) ** 3 - x), ("math.pow(b - a, 5)", 1),
                     ("a - math.pow(a, 3)", x - x ** 3), ("math.pow(math.pow(a, 2), 3)", x ** 6),
                     ("math.mod(a, b) + math.mod(b, a)", x % (x + 1) + (x + 1) % x),
                     ("math.floordiv(b, a) - a", (x + 1) // x - x)):
            items.append((pre + "a = %s\n" % s + 'print.tell(print.format("%0,%1", a, b))',
                          [("show", "al,bob", "tellraw", runs(("%d,%d" % (v, x + 1), PLAIN)))]))
    out = batch("R2", items, 40)
    return out


def random_cases():
    items = []
    for lo, hi in ((1, 6), (-5, 5), (3, 3)):
        items.append(("a = math.randint(%d, %d)" % (lo, hi), ["random %d %d" % (lo, hi)]))
        items.append(("a = math.randint(%d, %d) * 2 - b" % (lo, hi), ["random %d %d" % (lo, hi)]))
    return batch("R2", items, 8)


# -- schedule ----------------------------------------------------------------
SHEAD = """import schedule
import print
n := 0
m := 0
def foo(x: int, k: int = 1):
    n += x * k
    /say foo
const task = schedule.Task(foo, 2, k=3)
const other = schedule.Task(foo, 5)
interface z/after0:
    task.after(0)
interface z/after1:
    task.after(1)
interface z/after2:
    m = 1
    task.after(m + 1)
interface z/cancel:
    task.cancel()
interface z/both:
    task.after(1)
    other.after(0)
interface z/has:
    if task.has_schedule():
        /say has
    else:
        /say none
"""


def schedules(deep):
    import itertools
    ops = ["after0", "after1", "after2", "cancel", "both", "has", "tick"]
    out = []
    hist = []
    for h in itertools.product(ops, repeat=3 if deep else 2):
        hist.append(list(h) + ["tick", "has", "tick", "tick", "tick"])
    if not deep:
        rnd = random.Random(7)
        for _ in range(60):
            hist.append([rnd.choice(ops) for _ in range(5)] + ["tick", "has", "tick", "tick"])
    want = []
    for h in hist:
        t = {"task": -1, "other": -1}
        log = []
        for o in h:
            if o.startswith("after"):
                t["task"] = int(o[5:])
            elif o == "cancel":
                t["task"] = -1
            elif o == "both":
                t["task"], t["other"] = 1, 0
            elif o == "has":
                log.append("say has" if t["task"] >= 0 else "say none")
            else:
                for x in t:
                    if t[x] == 0:
                        log.append("say foo")
                    if t[x] >= 0:
                        t[x] -= 1
        want.append((h, log))
    out.append(("R5", SHEAD, want))
    for iv, per in (("", 1), (", 1", 1), (", 2", 2), (", interval=3", 3), (", i", 2), (", i + 1", 3)):
        src = ("import schedule\ni := 2\ndef foo(x: int):\n    /say foo\n"
               "schedule.register_loop(foo%s, x=4)\n" % iv)
        out.append(("R5", src, [(["tick"] * 7, ["say foo"] * len(range(0, 7, per)))]))
    src = SHEAD + ("task.on_area_loaded(Pos(1, 2, 3), Offset(4, 5, 6))\n"
                   "task.on_circle_loaded(Pos(1, 2, 3), 4)\ntask.on_tickingarea(\"ar\")\n")
    out.append(("R5", src, [([], ["area on_area_loaded add ~ ~ ~ ~4 ~5 ~6 @ pos=1.5,2,3.5",
                                 "area on_area_loaded add circle ~ ~ ~ 4 @ pos=1.5,2,3.5",
                                 "area on_area_loaded add tickingarea ar"])]))
    return out


def programs(deep):
    return texts(deep) + positions(deep) + world_cases() + math_cases(deep) + random_cases() + schedules(deep)
