"""Reference meaning of programs with entities: templates (fields, methods,
virtual dispatch by C3 order), entity variables, groups and filters.

An entity variable points at one entity; its declared template decides simple and
static methods, the entity's own template decides virtual ones. Groups are sets
copied by value, iterated in order of creation over the members at loop start."""
import ast
import re

from .absint import Undecided
from .mcsem import Poly
from .refsem import Ref, Cell, Const, Env, Func, Struct, Refused, blocks, _HEAD

_METH = re.compile(r"^(?P<q>(?:(?:virtual|override|static|inline|const) )*)def (?P<n>\w+)"
                   r"\((?P<a>.*)\)(?:\s*->\s*(?P<r>.+))?:$")
_NEW = re.compile(r"^(?P<q>inline )?new\((?P<a>.*)\):$")


class Tmpl:
    def __init__(self, name, parents, env):
        self.name, self.parents, self.env = name, parents, env
        self.fields, self.meths, self.new = {}, {}, None
        self.cls = type(name, tuple(p.cls for p in parents) or (object,), {"t": self})

    def mro(self):
        return [c.t for c in self.cls.__mro__ if c is not object]

    def find(self, name):
        for t in self.mro():
            if name in t.meths:
                return t.meths[name]
        return None

    def all_fields(self):
        out = {}
        for t in reversed(self.mro()):
            out.update(t.fields)
        return out


class EVal:
    """An entity of the world."""

    def __init__(self, id_, type_, pos, **attrs):
        self.id, self.type, self.pos = id_, type_, pos
        self.attrs = attrs
        self.tmpl, self.fields, self.alive = None, {}, True
        self.tags = set()


class EH:
    """What an expression of entity type denotes."""

    def __init__(self, ent, static, bound=None):
        self.ent, self.static, self.bound = ent, static, bound

    def __str__(self):
        return "{%s}" % (self.ent.id if self.ent is not None and self.ent.alive else "")


class ECell(Cell):
    def __init__(self, static, ent=None):
        self.static, self.ent = static, ent

    @property
    def v(self):
        return EH(self.ent, self.static)

    @v.setter
    def v(self, h):
        self.ent = h.ent


class Group:
    def __init__(self, static, members=()):
        self.static, self.m = static, list(members)


class Filter:
    def __init__(self, ops=()):
        self.ops = list(ops)


class Meth:
    def __init__(self, f, h):
        self.f, self.h = f, h


class EntRef(Ref):
    def __init__(self, cells, consts=None, fuel=3000, ents=()):
        super().__init__(cells, consts, fuel)
        self.ents = list(ents)
        self.nsum = 0

    # -- statements --------------------------------------------------------
    def block(self, stmts, env, ctx):
        """Statements about entities here, the others in Ref, in order."""
        i = 0
        while i < len(stmts):
            line, body = stmts[i]
            if self.own(line, body, env, ctx):
                i += 1
                continue
            j = i + 1
            while j < len(stmts) and stmts[j][0].startswith(("elif ", "else:")):
                j += 1
            super().block(stmts[i:j], env, ctx)
            i = j

    def own(self, line, body, env, ctx):
        m = re.match(r"entity (\w+)(?: extends (.*?))?:$", line)
        if m:
            ps = [env.find(b.strip()).v for b in (m.group(2) or "").split(",") if b.strip()]
            t = Tmpl(m.group(1), ps, env)
            for fl, fb in body:
                h, nw = _METH.match(fl), _NEW.match(fl)
                if h:
                    f = self.func(h, fb, env)
                    q = h.group("q").split()
                    f.kind = next((x for x in q if x in ("inline", "const")), "")
                    f.q = next((x for x in q if x in ("virtual", "override", "static")), "simple")
                    f.owner = t
                    t.meths[h.group("n")] = f
                elif nw:
                    t.new = self.args_only(nw.group("a"), fb, env)
                    t.new.owner = t
                elif fl != "pass":
                    a, ty = fl.split(":")
                    t.fields[a.strip()] = ty.strip()
            env[t.name] = Const(t)
            return True
        m = re.match(r"for (\w+) in (.*):$", line)
        if m:
            g = self.val(self.ev(m.group(2), env))
            if not isinstance(g, Group):
                return False
            for e in self.order(g.m):
                e2 = Env(env)
                e2[m.group(1)] = ECell(g.static, e)
                self.block(body, e2, ctx)
            return True
        if line.startswith("/"):
            txt = re.sub(r"\$\{(.*?)\}", lambda m: str(self.val(self.ev(m.group(1), env))),
                         line[1:])
            if any(isinstance(v, EH) for v in [self.val(self.ev(x, env)) for x in
                                               re.findall(r"\$\{(.*?)\}", line)]):
                if txt.startswith("kill {"):
                    for e in self.ents:
                        if txt[5:] == "{%s}" % e.id:
                            e.alive = False
                    self.ents = [e for e in self.ents if e.alive]
                else:
                    self.log.append(txt)
                return True
            return False
        m = re.match(r"(\w+): ([\w\[\]]+)(?: = (.*))?$", line)
        if m:
            env[m.group(1)] = self.new(m.group(2), env)
            if m.group(3):
                self.assign(env[m.group(1)], self.val(self.ev(m.group(3), env)))
            return True
        m = re.match(r"(\w+) := (.*)$", line)
        if m:
            v = self.val(self.ev(m.group(2), env))
            env[m.group(1)] = self.cell(v)
            return True
        return False

    def args_only(self, a, body, env):
        m = _HEAD.match("def new(%s):" % a)
        return self.func(m, body, env)

    def func(self, m, body, env):
        f = super().func(m, body, env)
        f.types = {}
        for a in re.findall(r"(?:[^,{(]|\{[^}]*\}|\([^)]*\))+", m.group("a")):
            x = re.match(r"\s*(&|const )?\s*(\w+)(?:: ([\w\[\]]+))?", a)
            f.types[x.group(2)] = x.group(3)
        f.q, f.owner = "", None
        return f

    def order(self, ents):
        return [e for e in self.ents if e in ents]

    # -- values --------------------------------------------------------------
    def new(self, t, env):
        if t in ("int", "bool"):
            return Cell()
        m = re.match(r"Engroup\[(\w+)\]$", t)
        if m:
            return Cell(Group(env.find(m.group(1)).v))
        s = env.find(t)
        if isinstance(s, Const) and isinstance(s.v, Tmpl):
            return ECell(s.v)
        return super().new(t, env)

    def cell(self, v):
        if isinstance(v, EH):
            return ECell(v.static, v.ent)
        if isinstance(v, Group):
            return Cell(Group(v.static, v.m))
        return super().cell(v)

    def copy(self, v):
        if isinstance(v, Struct):
            return Struct(v.tmpl, {k: self.cell(x.v) if isinstance(x, Cell) else self.copy(x)
                                   for k, x in v.f.items()})
        return v

    def assign(self, t, v):
        if isinstance(t, Cell) and isinstance(t.v, Group) and isinstance(v, Group):
            t.v.m = list(v.m)
            return
        if isinstance(t, Cell) and isinstance(v, Group):
            t.v = Group(v.static, v.m)
            return
        super().assign(t, v)

    def arith(self, op, x, y):
        if isinstance(x, Group):
            if op == "+":
                return Group(x.static, x.m + [e for e in y.m if e not in x.m])
            return Group(x.static, [e for e in x.m if e not in y.m])
        return super().arith(op, x, y)

    def declared(self, t, v, env):
        """A fresh variable of declared type `t` holding `v`."""
        if isinstance(v, EH) and t:
            return ECell(env.find(t).v, v.ent)
        return self.cell(v)

    # -- expressions -----------------------------------------------------------
    def e_Attribute(self, e, env):
        if isinstance(e.value, ast.Name):
            o = env.find(e.value.id)
        else:
            o = self.ev(e.value, env)
        o = self.val(o)
        if isinstance(o, Tmpl):
            if e.attr == "new":
                return Const(("new", o))
            return Const(o.find(e.attr))
        if isinstance(o, EH):
            f = o.static.find(e.attr)
            if f is not None:
                if f.q == "static":
                    return Const(f)
                if f.q in ("virtual", "override"):
                    f = (o.bound or o.ent.tmpl).find(e.attr)
                return Const(Meth(f, o))
            return o.ent.fields[e.attr]
        if isinstance(o, (Group, Filter)):
            return Const(("op", o, e.attr))
        return o.f[e.attr]

    def e_Subscript(self, e, env):
        if isinstance(e.value, ast.Name) and e.value.id == "Engroup":
            return Const(("group", env.find(e.slice.id).v))
        return super().e_Subscript(e, env)

    def e_Compare(self, e, env):
        return super().e_Compare(e, env)

    def pos(self, v):
        return v

    def e_Call(self, e, env):
        if isinstance(e.func, ast.Name):
            n = e.func.id
            if n == "upcast":
                h = self.val(self.ev(e.args[0], env))
                t = self.val(self.ev(e.args[1], env))
                return Const(EH(h.ent, t, t))
            if n == "AbsPos":
                v = [self.val(self.ev(a, env)).const_value() for a in e.args]
                return Const(("pos", (v[0] + .5, float(v[1]), v[2] + .5)))
            if n == "Pos":
                return Const(("pos", self.val(self.ev(e.args[0], env)).ent.pos))
            if n == "Enfilter":
                return Const(Filter())
            if n == "new":
                return self.native_new(e, env)
        f = self.ev(e.func, env)
        fv = f.v if isinstance(f, Const) else None
        if isinstance(fv, Tmpl):
            return self.construct(fv, e, env)
        if isinstance(fv, Meth):
            return self.call(fv.f, e, env, fv.h)
        if isinstance(fv, Func):
            return self.call(fv, e, env, None)
        if isinstance(fv, tuple) and fv[0] == "new":
            t = next(t for t in fv[1].mro() if t.new is not None)
            self.call(t.new, e, env, None, env.find("%self"))
            return Const(None)
        if isinstance(fv, tuple) and fv[0] == "group":
            return Cell(Group(fv[1]))
        if isinstance(fv, tuple) and fv[0] == "op":
            return self.operation(fv[1], fv[2], e, env)
        if isinstance(f, Func):
            return self.call(f, e, env, None)
        return super().e_Call(e, env)

    def call(self, f, e, env, self_, self_cell=None):
        given = {}
        for (n, _, _), a in zip(f.args, e.args):
            given[n] = self.ev(a, env)
        for k in e.keywords:
            given[k.arg] = self.ev(k.value, env)
        e2 = Env(f.env)
        for n, port, d in f.args:
            v = given.get(n, d)
            if v is None:
                raise Refused("missing argument")
            if port == "&" or isinstance(self.val(v), (Filter, tuple)):
                e2[n] = v
            elif port == "const" or f.kind == "const":
                e2[n] = Const(self.val(v))
            else:
                e2[n] = self.declared(f.types.get(n), self.val(v), f.env)
        if f.kind == "const":
            e2 = Env(e2)
            for n, _, _ in f.args:
                e2[n] = Cell(self.val(e2.up[n]))
        if self_ is not None:
            e2["self"] = Const(self_) if f.kind == "inline" else \
                ECell(f.owner or self_.static, self_.ent)
        if self_cell is not None:
            e2["%self"] = self_cell
            e2["self"] = self_cell
        ret = f.ret.lstrip("&").strip()
        ctx = {"result": None, "byref": f.ret.startswith("&")}
        self.block(f.body, e2, ctx)
        r = ctx["result"]
        if r is None:
            return Const(None)
        if isinstance(r, ECell) and not ctx["byref"] and re.match(r"\w+$", ret):
            return ECell(f.env.find(ret).v, r.ent)
        return r

    def construct(self, t, e, env):
        c = ECell(t)
        nw = next((x for x in t.mro() if x.new is not None), None)
        if nw is None:
            raise Refused("cannot create")
        c.want = t
        self.call(nw.new, e, env, None, c)
        if c.ent is None:
            raise Refused("new() does not create")
        return c

    def native_new(self, e, env):
        c = env.find("%self")
        a = {k: self.val(self.ev(x, env)) for k, x in zip(("type", "pos", "name", "event"), e.args)}
        a.update({k.arg: self.val(self.ev(k.value, env)) for k in e.keywords})
        self.nsum += 1
        attrs = {"event": a.get("event") or "*"}
        if a.get("name"):
            attrs["name"] = a["name"]
        ent = EVal("e%d" % self.nsum, a["type"], a["pos"][1], **attrs)
        ent.tmpl = c.want
        ent.fields = {k: self.new(ty, t.env) for t in reversed(ent.tmpl.mro())
                      for k, ty in t.fields.items()}
        self.ents.append(ent)
        c.ent = ent
        return Const(None)

    # -- groups and filters ------------------------------------------------------
    def operation(self, o, name, e, env):
        args = [self.val(self.ev(a, env)) for a in e.args]
        kw = {k.arg: self.val(self.ev(k.value, env)) for k in e.keywords}
        if isinstance(o, Filter):
            return Const(Filter(o.ops + [(name, args, kw)]))
        me = Cell(o)
        if name == "select":
            o.m += [x for x in self.matching(args[0], self.ents) if x not in o.m]
        elif name == "drop":
            d = self.matching(args[0], self.order(o.m))
            o.m = [x for x in o.m if x not in d]
        elif name == "filter":
            o.m = self.matching(args[0], self.order(o.m))
        elif name == "extend":
            o.m += [x for x in args[0].m if x not in o.m]
        elif name == "subtract":
            o.m = [x for x in o.m if x not in args[0].m]
        elif name == "intersect":
            o.m = [x for x in o.m if x in args[0].m]
        elif name == "copy":
            return Cell(Group(o.static, o.m))
        elif name == "clear":
            o.m = []
        elif name == "add":
            o.m += [h.ent for h in args if h.ent not in o.m]
        elif name == "remove":
            o.m = [x for x in o.m if x not in [h.ent for h in args]]
        elif name == "is_empty":
            return Const(not self.order(o.m))
        elif name == "size":
            return Const(Poly.const(len(self.order(o.m))))
        elif name == "has":
            return Const(args[0].ent in o.m)
        elif name == "to_single":
            live = self.order(o.m)
            if len(live) != 1:
                raise Refused("to_single of %d" % len(live))
            return Const(EH(live[0], o.static))
        else:
            raise Undecided("group operation %s" % name)
        return me

    def matching(self, f, cand):
        cand = list(cand)
        for name, a, k in f.ops:
            cand = self.apply(name, [self.plain(x) for x in a],
                              {n: self.plain(x) for n, x in k.items()}, cand)
        return cand

    @staticmethod
    def plain(x):
        return x.const_value() if isinstance(x, Poly) else x

    def apply(self, name, a, k, cand):
        from .world import near, within
        arg = lambda i, n, d=None: a[i] if len(a) > i else k.get(n, d)
        rng = lambda v, lo, hi: (lo is None or v >= lo) and (hi is None or v <= hi)
        sel = lambda p: [e for e in cand if p(e)]
        dist = lambda e, p: sum((x - y) ** 2 for x, y in zip(e.pos, p)) ** .5
        at = lambda e, n, d=0: e.attrs.get(n, d)
        if name == "all_players":
            return sel(lambda e: e.type == "player")
        if name == "random":
            t = arg(0, "type")
            n = arg(1, "limit", 1)
            c = sel(lambda e: t is None or e.type == t)
            return c[-n:]
        if name in ("nearest_from", "farthest_from"):
            n = arg(1, "limit", 1)
            return near(cand, arg(0, "origin")[1], n if name[0] == "n" else -n)
        if name == "has_tag":
            return sel(lambda e: all(t in e.tags for t in a))
        if name == "has_no_tag":
            return sel(lambda e: not any(t in e.tags for t in a))
        if name == "distance_from":
            p = arg(0, "origin")[1]
            return sel(lambda e: rng(dist(e, p), arg(1, "min"), arg(2, "max")))
        if name == "inside":
            p = arg(0, "origin")[1]
            d = [arg(i, n, 0) for i, n in ((1, "dx"), (2, "dy"), (3, "dz"))]
            return sel(lambda e: all(within(e.pos[i], p[i], d[i]) for i in range(3)))
        if name == "is_type":
            return sel(lambda e: e.type == a[0])
        if name == "is_not_type":
            return sel(lambda e: e.type not in a)
        if name == "rot_vertical":
            return sel(lambda e: rng(at(e, "rx"), arg(0, "min", -90), arg(1, "max", 90)))
        if name == "rot_horizontal":
            return sel(lambda e: rng(at(e, "ry"), arg(0, "min", -180), arg(1, "max", 180)))
        if name == "is_name":
            return sel(lambda e: at(e, "name", "") == a[0])
        if name == "is_not_name":
            return sel(lambda e: at(e, "name", "") not in a)
        if name == "scores":
            return sel(lambda e: a[0] in at(e, "scores", {}) and span(at(e, "scores")[a[0]], a[1]))
        if name == "level":
            return sel(lambda e: e.type == "player" and rng(at(e, "l"), arg(0, "min"), arg(1, "max")))
        if name == "is_game_mode":
            return sel(lambda e: e.type == "player" and at(e, "m") == a[0])
        if name == "is_not_game_mode":
            return sel(lambda e: e.type == "player" and at(e, "m") not in a)
        if name in ("has_permission", "has_no_permission"):
            return sel(lambda e: e.type == "player" and all(
                (p in at(e, "perm", ())) == (name == "has_permission") for p in a))
        if name == "has_item":
            item, q = a[0], arg(1, "quantity", "1..")
            data, st, sn = arg(2, "data"), arg(3, "slot_type"), arg(4, "slot_num")

            def total(e):
                return sum(n for it, loc, slot, d, n in at(e, "items", ())
                           if it == item and (data is None or d == data)
                           and (st is None or loc == st) and (sn is None or span(slot, sn)))
            return sel(lambda e: span(total(e), q))
        raise Undecided("filter %s" % name)


def span(v, r):
    """Is `v` in the range text `r` ("3", "1..", "!..4")?"""
    r = str(r).replace(" ", "")
    if r.startswith("!"):
        return not span(v, r[1:])
    if ".." not in r:
        return v == int(r)
    lo, hi = r.split("..")
    return (not lo or v >= int(lo)) and (not hi or v <= int(hi))
