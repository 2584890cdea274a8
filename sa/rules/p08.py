"""P08: entities, virtual methods, groups and filters mean what the program says."""
from ..ctx import Ctx
from ..absint import Undecided
from ..whole import Whole
from ..world import World, Ent
from ..entsem import EntRef, EVal
from ..lab import S
from ..refsem import Cell, Env, Refused
from ..scen import run_cases
from ..mcsem import Poly, Bad
from .. import programs as P, entprogs as E
from .p06 import initial, logtext, split, short, listing

STOCK = [
    ("al", "player", (10, 64, 10), dict(name="al", l=5, m="c", rx=10, ry=20, perm=("camera", "movement"),
                                        tags=("t1",), scores={"obj": 3},
                                        items=(("gold", "hotbar", 2, 0, 3), ("iron", "armor", 0, 0, 1)))),
    ("bob", "player", (30, 64, -5), dict(name="bob", l=2, m="s", rx=-20, ry=100, perm=("camera",),
                                         tags=("t1", "t2"), scores={"obj": -2},
                                         items=(("gold", "hotbar", 0, 2, 1), ("gold", "armor", 1, 0, 1)))),
    ("eve", "player", (-70, 64, 15), dict(name="eve", l=4, m="a", rx=0, ry=-90)),
    ("cow1", "cow", (3, 4, 3), dict(rx=5, ry=-10, tags=("t2",), scores={"obj": 0})),
    ("cow2", "cow", (100, 4, 3), dict(name="bob", rx=-5, ry=-30, tags=("t1",))),
    ("pig1", "pig", (50, 64, 5), dict(name="al", ry=25, scores={"obj": 7})),
    ("pig2", "pig", (60, 65, 5), dict(name="bob", rx=60, tags=("t1", "t2"), scores={"obj": 3})),
    ("pig3", "pig", (-20, 64, 6), dict(tags=("t1",), items=(("gold", "hotbar", 1, 0, 2),))),
]


def stocked(cls, some):
    out = []
    for id_, t, pos, at in some:
        at = dict(at)
        tags = at.pop("tags", ())
        e = cls(id_, t, tuple(map(float, pos)), **at)
        e.tags |= set(tags)
        out.append(e)
    return out


def expected(src, entries, sc, stock):
    ref = EntRef({k: Cell(v) for k, v in initial(sc).items()}, {"n": Poly.atom("n")},
                 ents=stocked(EVal, stock))
    ref.run(src)
    for p in entries:
        body, env = ref.ifaces[p]
        ref.block(body, Env(env), None)
    return ({k: ref.top[k].v for k in "abcdpqr"}, ref.log,
            [(e.id, e.type, e.pos, e.attrs.get("name"), e.attrs.get("event")) for e in ref.ents])


def actual(files, entries, sc, stock):
    init = {S(k): (Poly.const(int(v)) if isinstance(v, bool) else v)
            for k, v in initial(sc).items()}
    w = World(init, files, 9000, stocked(Ent, stock))
    for e in w.ents:
        for o, v in e.attrs.get("scores", {}).items():
            w.scores[(e.id, o)] = Poly.const(v)
    for p in ["main"] + entries:
        if p not in files:
            raise Bad("no function file %s" % p)
        w.run(files[p])
    return ({k: w.scores[S(k)] for k in "abcdpqr"},
            [logtext(x) for x in w.log if x[0].text != "scoreboard"],
            [(e.id, e.type, e.pos, e.attrs.get("name"), e.attrs.get("event")) for e in w.ents])


def differ(src, entries, files, tier, stock):
    n = 0
    for sc in P.scenarios(src.split("\n", 2)[2] if stock is STOCK else src, tier):
        want, wlog, wents = expected(src, entries, sc, stock)
        at = ", ".join("%s=%s" % (k, ("n%+d" % v) if not isinstance(v, bool) else v)
                       for k, v in sc.items())
        try:
            got, glog, gents = actual(files, entries, sc, stock)
        except Bad as e:
            return n, "with %s: %s" % (at, e)
        n += 1
        if glog != wlog:
            return n, "with %s, executes %s instead of %s" % (at, glog, wlog)
        if gents != wents:
            return n, "with %s, leaves entities %s instead of %s" % (at, gents, wents)
        for k in want:
            w = want[k]
            w = Poly.const(int(w)) if isinstance(w, bool) else w
            if got[k] != w:
                return n, "with %s, %s becomes %s instead of %s" % (at, k, got[k], w)
    return n, None


def refusal(v):
    t = getattr(v.val, "fields", {}).get("type")
    return "%s %s" % (v.name, getattr(t, "name", ""))


def judge(lab, rule, src, entries, tier, stock, **cfg):
    out = []

    def thunk():
        lab.start({"main": src})
        return lab.run_compiler(**cfg)
    name = short(src, (E.BASE,))
    for kind, v, trace in lab.I.run(thunk):
        if kind == "undecided":
            out.append((None, v, True, ""))
        elif kind == "raise":
            if not trace:
                out.append(("R6", name, False, "the compiler refuses it (%s)" % refusal(v)))
        else:
            out.append(("R6", name, True, ""))
            try:
                n, d = differ(src, entries, split(v), tier, stock)
            except (Undecided, Refused) as e:
                out.append((None, "oracle: %r on %s" % (e, name[-300:]), True, ""))
                continue
            out.append((rule, name, d is None,
                        "" if d is None else "%s (commands: %s)" % (d, listing(v))))
    return out


def check(chk, repo):
    cx = Ctx(repo)
    chk.rule("R1", "fields belong to the entity a variable points at; assigning a variable "
                   "redirects it without touching the entities")
    chk.rule("R2", "methods run on their entity: by the declared template, virtual ones by the "
                   "entity's own template in C3 order")
    chk.rule("R3", "creating an entity summons exactly one entity and runs its `new`")
    chk.rule("R4", "groups are sets copied by value, iterated over the members at loop start")
    chk.rule("R5", "a filter selects exactly the entities passing its conditions in order")
    chk.rule("R6", "a correct program is accepted")
    lab = Whole(cx)
    lab.I.fuel0 = 3000000
    lab.I.depth0 = 400
    al = STOCK[:1]
    cases = [("R1", s, al) for s in E.fields()] + [("R2", s, al) for s in E.methods()] + \
        [("R3", s, al) for s in E.news()] + [("R4", s, al) for s in E.groups()] + \
        [("R5", s, STOCK) for s in E.filters()]
    run_cases(chk, cx, lab, cases, lambda c: judge(
        lab, c[0], c[1], [], chk.tier, c[2], optimizer=False))
    chk.assume("random selectors choose by one fixed function; entities are iterated in order "
               "of creation")
    for r, n in (("R1", 20), ("R2", 25), ("R3", 8), ("R4", 30), ("R5", 40), ("R6", 140)):
        chk.floor(r, n)
