"""Constant propagation over the syntax tree.

`Vals.fold(expr, scope)`     -> the one constant an expression denotes, or TOP
`Vals.possible(expr, scope)` -> (set of constants it may denote, complete flag)

Constants are Python scalars/tuples/frozensets, `EnumMember`, `Ref` (a class or
function of the tree), and the mutable tables `DictV`/`ListV`/`SetV` (insertion
ordered).  Only definitions that can be read off the source are folded: module,
class and local tables, comprehensions over folded iterables, dict()/update(),
string formatting of folded pieces, enum members and their value/name.
"""
import ast

from .repo import ClassInfo, FuncInfo, PartialFunc, Module, External, walk_own


class _Top:
    def __repr__(self):
        return "TOP"

    def __bool__(self):
        return False


TOP = _Top()


class EnumMember:
    def __init__(self, cls, name, value):
        self.cls, self.name, self.value = cls, name, value

    def __eq__(self, o):
        return isinstance(o, EnumMember) and o.cls is self.cls and o.name == self.name

    def __hash__(self):
        return hash((self.cls.id, self.name))

    def __repr__(self):
        return "%s.%s" % (self.cls.name, self.name)


class Ref:
    def __init__(self, entity):
        self.entity = entity

    def __eq__(self, o):
        return isinstance(o, Ref) and o.entity is self.entity or \
            isinstance(o, Ref) and isinstance(self.entity, External) and self.entity == o.entity

    def __hash__(self):
        return hash(getattr(self.entity, "id", None) or getattr(self.entity, "dotted", None)
                    or getattr(self.entity, "name", None))

    def __repr__(self):
        return "Ref(%r)" % (self.entity,)


class DictV:
    def __init__(self, items=()):
        self.items = list(items)   # pairs; later wins

    def get(self, k):
        r = TOP
        for a, b in self.items:
            if _same(a, k):
                r = b
        return r

    def as_dict(self):
        out = {}
        for a, b in self.items:
            out[a] = b
        return out

    def __repr__(self):
        return "DictV(%r)" % (self.items,)


class ListV:
    def __init__(self, elts):
        self.elts = list(elts)

    def __repr__(self):
        return "ListV(%r)" % (self.elts,)


class SetV:
    def __init__(self, elts):
        self.elts = list(elts)

    def __repr__(self):
        return "SetV(%r)" % (self.elts,)


def _same(a, b):
    try:
        return type(a) is type(b) and a == b or (
            isinstance(a, (int, float)) and isinstance(b, (int, float)) and a == b)
    except Exception:
        return False


def elements(v):
    """Iterate a folded container, or None."""
    if isinstance(v, (ListV, SetV)):
        return v.elts
    if isinstance(v, DictV):
        return list(v.as_dict())
    if isinstance(v, (tuple, frozenset)):
        return list(v)
    if isinstance(v, str):
        return list(v)
    if isinstance(v, range):
        return list(v) if len(v) <= 4096 else None
    if isinstance(v, Ref) and isinstance(v.entity, ClassInfo):
        return None
    return None


class Vals:
    def __init__(self, repo, cr=None):
        self.repo = repo
        self.cr = cr
        self._enum = {}
        self._busy = set()

    # -- enums ------------------------------------------------------------
    def is_enum(self, c):
        if not isinstance(c, ClassInfo):
            return False
        for k in c.mro():
            for b in k.bases:
                if isinstance(b, External) and b.dotted.split(".")[-1] in (
                        "Enum", "IntEnum", "Flag", "StrEnum"):
                    return True
        return False

    def members(self, c):
        if c not in self._enum:
            d = {}
            self._enum[c] = d
            n = 0
            for k in reversed(c.mro()):
                for name, v in k.attrs.items():
                    if name.startswith("_") or isinstance(v, ast.ClassDef):
                        continue
                    if isinstance(v, ast.Call) and isinstance(v.func, (ast.Name, ast.Attribute)) \
                            and (v.func.id if isinstance(v.func, ast.Name) else v.func.attr) == "auto":
                        n += 1
                        val = n
                    else:
                        val = self.fold(v, k.module, cls=k)
                    d[name] = EnumMember(c, name, val)
        return self._enum[c]

    # -- folding ----------------------------------------------------------
    def fold(self, e, scope, env=None, cls=None):
        key = (id(e), id(scope), id(env) if env else 0)
        if key in self._busy:
            return TOP
        self._busy.add(key)
        try:
            return self._fold(e, scope, env or {}, cls)
        finally:
            self._busy.discard(key)

    def _fold(self, e, scope, env, cls):
        F = lambda x: self.fold(x, scope, env, cls)
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, ast.Name):
            if e.id in env:
                return env[e.id]
            if cls is not None and e.id in cls.attrs:
                return self.fold(cls.attrs[e.id], cls.module, None, cls)
            return self._name(e, scope)
        if isinstance(e, ast.Attribute):
            b = F(e.value)
            if isinstance(b, EnumMember):
                if e.attr == "value":
                    return b.value
                if e.attr == "name":
                    return b.name
                return TOP
            if isinstance(b, Ref) and isinstance(b.entity, ClassInfo):
                c = b.entity
                if self.is_enum(c):
                    m = self.members(c)
                    if e.attr in m:
                        return m[e.attr]
                f = c.find(e.attr)
                if f is not None:
                    return Ref(f)
                for k in c.mro():
                    if e.attr in k.attrs:
                        v = k.attrs[e.attr]
                        if isinstance(v, ast.ClassDef):
                            return Ref(self.repo.class_of(v))
                        return self.fold(v, k.module, None, k)
                return TOP
            if isinstance(b, Ref) and isinstance(b.entity, Module):
                return self._ent(self.repo.resolve_global(b.entity, e.attr), b.entity)
            r = self.repo.resolve(e, scope)
            return self._ent(r, scope)
        if isinstance(e, ast.Tuple):
            return self._seq(e.elts, F, tuple)
        if isinstance(e, ast.List):
            return self._seq(e.elts, F, ListV)
        if isinstance(e, ast.Set):
            return self._seq(e.elts, F, SetV)
        if isinstance(e, ast.Dict):
            items = []
            for k, v in zip(e.keys, e.values):
                if k is None:
                    d = F(v)
                    if not isinstance(d, DictV):
                        return TOP
                    items.extend(d.items)
                    continue
                kk = F(k)
                if kk is TOP:
                    return TOP
                vv = F(v)
                items.append((kk, vv if vv is not TOP else _Opaque(v, scope)))
            return DictV(items)
        if isinstance(e, (ast.DictComp, ast.SetComp, ast.ListComp, ast.GeneratorExp)):
            envs = self._comp(e.generators, scope, env, cls)
            if envs is None:
                return TOP
            if isinstance(e, ast.DictComp):
                out = []
                for v in envs:
                    a = self._fold(e.key, scope, v, cls)
                    b = self._fold(e.value, scope, v, cls)
                    if a is TOP or b is TOP:
                        return TOP
                    out.append((a, b))
                return DictV(out)
            out = []
            for v in envs:
                a = self._fold(e.elt, scope, v, cls)
                if a is TOP:
                    return TOP
                out.append(a)
            return SetV(out) if isinstance(e, ast.SetComp) else ListV(out)
        if isinstance(e, ast.Subscript):
            b = F(e.value)
            if isinstance(e.slice, ast.Slice):
                lo = F(e.slice.lower) if e.slice.lower else None
                hi = F(e.slice.upper) if e.slice.upper else None
                st = F(e.slice.step) if e.slice.step else None
                if TOP in (lo, hi, st):
                    return TOP
                if isinstance(b, (str, tuple)):
                    return b[slice(lo, hi, st)]
                if isinstance(b, ListV):
                    return ListV(b.elts[slice(lo, hi, st)])
                return TOP
            i = F(e.slice)
            if i is TOP:
                return TOP
            if isinstance(b, Ref) and self.is_enum(b.entity):
                return self.members(b.entity).get(i, TOP)
            if isinstance(b, DictV):
                return b.get(i)
            if isinstance(b, ListV):
                b = tuple(b.elts)
            if isinstance(b, (str, tuple)) and isinstance(i, int):
                return b[i] if -len(b) <= i < len(b) else TOP
            return TOP
        if isinstance(e, ast.UnaryOp):
            v = F(e.operand)
            if v is TOP:
                return TOP
            try:
                if isinstance(e.op, ast.USub):
                    return -v
                if isinstance(e.op, ast.UAdd):
                    return +v
                if isinstance(e.op, ast.Invert):
                    return ~v
                if isinstance(e.op, ast.Not) and isinstance(v, (int, str, bool, type(None))):
                    return not v
            except TypeError:
                pass
            return TOP
        if isinstance(e, ast.BinOp):
            a, b = F(e.left), F(e.right)
            return self._bin(e.op, a, b)
        if isinstance(e, ast.BoolOp):
            vs = [F(v) for v in e.values]
            if any(v is TOP for v in vs):
                return TOP
            r = vs[0]
            for v in vs[1:]:
                if isinstance(e.op, ast.And):
                    r = v if _truth(r) else r
                else:
                    r = r if _truth(r) else v
            return r
        if isinstance(e, ast.IfExp):
            t = F(e.test)
            if t is TOP:
                return TOP
            return F(e.body) if _truth(t) else F(e.orelse)
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            a, b = F(e.left), F(e.comparators[0])
            if a is TOP or b is TOP:
                return TOP
            try:
                return _CMP[type(e.ops[0])](a, b)
            except Exception:
                return TOP
        if isinstance(e, ast.JoinedStr):
            out = ""
            for p in e.values:
                if isinstance(p, ast.Constant):
                    out += str(p.value)
                else:
                    v = F(p.value)
                    if not isinstance(v, (str, int, float)) or p.format_spec:
                        return TOP
                    out += repr(v) if p.conversion == ord("r") else str(v)
            return out
        if isinstance(e, ast.Call):
            return self._call(e, scope, env, cls)
        if isinstance(e, ast.Lambda):
            return _Opaque(e, scope)
        return TOP

    def _seq(self, elts, F, ctor):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = elements(F(x.value))
                if v is None:
                    return TOP
                out.extend(v)
            else:
                v = F(x)
                if v is TOP:
                    return TOP
                out.append(v)
        return ctor(out)

    def _bin(self, op, a, b):
        if a is TOP or b is TOP:
            return TOP
        if isinstance(a, ListV) and isinstance(b, ListV) and isinstance(op, ast.Add):
            return ListV(a.elts + b.elts)
        if isinstance(a, SetV) and isinstance(b, SetV):
            if isinstance(op, ast.BitOr):
                return SetV(a.elts + [x for x in b.elts if x not in a.elts])
            if isinstance(op, ast.Sub):
                return SetV([x for x in a.elts if x not in b.elts])
        if isinstance(a, DictV) and isinstance(b, DictV) and isinstance(op, ast.BitOr):
            return DictV(a.items + b.items)
        sc = (int, float, str, tuple, bool)
        if not isinstance(a, sc) or not (isinstance(b, sc)):
            return TOP
        try:
            if isinstance(op, ast.Add):
                return a + b
            if isinstance(op, ast.Sub):
                return a - b
            if isinstance(op, ast.Mult):
                return a * b
            if isinstance(op, ast.Pow) and isinstance(a, int) and isinstance(b, int) and 0 <= b < 128:
                return a ** b
            if isinstance(op, ast.LShift) and 0 <= b < 128:
                return a << b
            if isinstance(op, ast.RShift) and 0 <= b < 128:
                return a >> b
            if isinstance(op, ast.BitOr):
                return a | b
            if isinstance(op, ast.BitAnd):
                return a & b
            if isinstance(op, ast.FloorDiv) and b:
                return a // b
            if isinstance(op, ast.Div) and b:
                return a / b
            if isinstance(op, ast.Mod) and b != 0:
                return a % b
        except Exception:
            pass
        return TOP

    def _comp(self, gens, scope, env, cls):
        envs = [dict(env)]
        for g in gens:
            nxt = []
            for v in envs:
                it = self._fold(g.iter, scope, v, cls)
                if isinstance(it, Ref) and self.is_enum(it.entity):
                    els = list(self.members(it.entity).values())
                else:
                    els = elements(it)
                if els is None:
                    return None
                for x in els:
                    w = dict(v)
                    if not _bind_target(g.target, x, w):
                        return None
                    ok = True
                    for c in g.ifs:
                        t = self._fold(c, scope, w, cls)
                        if t is TOP:
                            return None
                        if not _truth(t):
                            ok = False
                    if ok:
                        nxt.append(w)
            envs = nxt
            if len(envs) > 20000:
                return None
        return envs

    def _call(self, e, scope, env, cls):
        F = lambda x: self._fold(x, scope, env, cls)
        fn = e.func
        if isinstance(fn, ast.Attribute):
            b = F(fn.value)
            args = [F(a) for a in e.args]
            if isinstance(b, DictV):
                d = b.as_dict()
                if fn.attr == "items":
                    return ListV([(k, v) for k, v in d.items()])
                if fn.attr == "keys":
                    return ListV(list(d))
                if fn.attr == "values":
                    return ListV(list(d.values()))
                if fn.attr == "copy":
                    return DictV(b.items)
                if fn.attr == "get" and args and args[0] is not TOP:
                    r = b.get(args[0])
                    if r is TOP and args[0] not in d:
                        return args[1] if len(args) > 1 else None
                    return r
                return TOP
            if isinstance(b, str) and all(not isinstance(a, _Top) for a in args):
                if fn.attr == "join":
                    els = elements(args[0])
                    if els is not None and all(isinstance(x, str) for x in els):
                        return b.join(els)
                    return TOP
                if fn.attr in ("upper", "lower", "strip", "lstrip", "rstrip", "title",
                               "capitalize", "replace", "split", "startswith", "endswith") \
                        and all(isinstance(a, (str, int)) for a in args) and not e.keywords:
                    r = getattr(b, fn.attr)(*args)
                    return ListV(r) if isinstance(r, list) else r
                if fn.attr == "format":
                    kw = {k.arg: F(k.value) for k in e.keywords if k.arg}
                    if all(isinstance(x, (str, int)) for x in list(args) + list(kw.values())) \
                            and all(k.arg for k in e.keywords):
                        try:
                            return b.format(*args, **kw)
                        except Exception:
                            return TOP
            if isinstance(b, (ListV, tuple)) and fn.attr == "index" and len(args) == 1:
                els = elements(b)
                return els.index(args[0]) if _in(args[0], els) else TOP
            if isinstance(b, (ListV, SetV)) and fn.attr == "copy":
                return type(b)(b.elts)
            r = self.repo.resolve(fn, scope)
            if isinstance(r, External) and r.dotted in ("re.compile",) and args:
                return args[0]
            if isinstance(r, FuncInfo):
                return self._call_func(r, e, scope, env, cls)
            return TOP
        r = self.repo.resolve(fn, scope)
        if isinstance(r, External) and r.dotted.startswith("builtins."):
            n = r.dotted[9:]
            args = [F(a) for a in e.args]
            if n == "dict":
                items = []
                if args:
                    if isinstance(args[0], DictV):
                        items = list(args[0].items)
                    else:
                        els = elements(args[0])
                        if els is None:
                            return TOP
                        for x in els:
                            x = elements(x)
                            if x is None or len(x) != 2:
                                return TOP
                            items.append(tuple(x))
                for k in e.keywords:
                    v = F(k.value)
                    if k.arg is None:
                        if not isinstance(v, DictV):
                            return TOP
                        items.extend(v.items)
                    else:
                        if v is TOP:
                            return TOP
                        items.append((k.arg, v))
                return DictV(items)
            if any(a is TOP for a in args):
                return TOP
            if n in ("tuple", "list", "set", "frozenset", "sorted", "reversed", "enumerate"):
                if not args:
                    els = []
                elif isinstance(args[0], Ref) and self.is_enum(args[0].entity):
                    els = list(self.members(args[0].entity).values())
                else:
                    els = elements(args[0])
                if els is None:
                    return TOP
                if n == "tuple":
                    return tuple(els)
                if n == "list":
                    return ListV(els)
                if n == "sorted":
                    try:
                        return ListV(sorted(els))
                    except TypeError:
                        return TOP
                if n == "reversed":
                    return ListV(els[::-1])
                if n == "enumerate":
                    s = args[1] if len(args) > 1 else 0
                    return ListV([(i, x) for i, x in enumerate(els, s)])
                out = []
                for x in els:
                    if x not in out:
                        out.append(x)
                return SetV(out)
            if n == "zip":
                seqs = [elements(a) for a in args]
                if any(s is None for s in seqs):
                    return TOP
                return ListV([tuple(t) for t in zip(*seqs)])
            if n == "range" and all(isinstance(a, int) for a in args) and args:
                return range(*args)
            if n == "len":
                els = elements(args[0])
                return len(els) if els is not None else TOP
            if n in ("int", "str", "float", "ord", "chr", "abs", "min", "max") and \
                    all(isinstance(a, (int, float, str)) for a in args) and not e.keywords:
                try:
                    return {"int": int, "str": str, "float": float, "ord": ord, "chr": chr,
                            "abs": abs, "min": min, "max": max}[n](*args)
                except Exception:
                    return TOP
            return TOP
        if isinstance(r, External) and r.dotted == "re.compile" and e.args:
            return F(e.args[0])
        if isinstance(r, FuncInfo):
            return self._call_func(r, e, scope, env, cls)
        return TOP

    def _call_func(self, f, e, scope, env, cls):
        """Fold a call of a function that only returns one expression."""
        body = [s for s in f.node.body if not (isinstance(s, ast.Expr)
                and isinstance(s.value, ast.Constant))]
        if len(body) != 1 or not isinstance(body[0], ast.Return) or body[0].value is None:
            return TOP
        from .util import bind
        m, sp, sk, err = bind(e, f, f.is_classmethod)
        if sp or sk or err:
            return TOP
        v = {}
        for p in f.params:
            if p.name in m:
                if isinstance(m[p.name], list):
                    return TOP
                v[p.name] = self._fold(m[p.name], scope, env, cls)
            elif p.default is not None:
                v[p.name] = self.fold(p.default, f.module)
        return self._fold(body[0].value, f, v, None)

    def _name(self, e, scope):
        f = scope if isinstance(scope, FuncInfo) else None
        while f is not None:
            if e.id in f.nested and len(self._stores(f, e.id)) == 0:
                return Ref(f.nested[e.id])
            if e.id in f.local_names():
                if e.id in [p.name for p in f.params]:
                    return TOP
                st = self._stores(f, e.id)
                if len(st) == 1 and st[0] is not None:
                    return self._mutated(self.fold(st[0], f), e.id, f, f.node.body)
                if not st:
                    r = self.repo.resolve_name(e.id, f)
                    return self._ent(r, f)
                return TOP
            f = f.parent
        r = self.repo.resolve_name(e.id, scope)
        return self._ent(r, scope)

    def _stores(self, f, name):
        from .util import local_assigns
        return local_assigns(f, name)

    def _ent(self, r, scope):
        if isinstance(r, (ClassInfo, FuncInfo, Module)):
            return Ref(r)
        if isinstance(r, External):
            if r.dotted in ("math.pi",):
                import math
                return math.pi
            if r.dotted == "math.inf":
                return float("inf")
            if r.dotted == "string.digits":
                return "0123456789"
            if r.dotted.startswith("string."):
                import string
                v = getattr(string, r.dotted[7:], TOP)
                return v if isinstance(v, str) else TOP
            return Ref(r)
        if isinstance(r, tuple) and r and r[0] == "var":
            m = self.repo.modules.get(r[1])
            if m is None:
                return TOP
            return self.module_const(m, r[2])
        if isinstance(r, tuple) and r and r[0] == "classattr":
            for k in r[1].mro():
                if r[2] in k.attrs:
                    return self.fold(k.attrs[r[2]], k.module, None, k)
        return TOP

    def module_const(self, m, name):
        sts = m.consts.get(name, [])
        # any `global` rebinding makes it opaque
        for f in m.functions:
            for n in walk_own(f.node):
                if isinstance(n, ast.Global) and name in n.names:
                    return TOP
        if len(sts) != 1:
            return TOP
        called = {st.value.func.id for st in m.tree.body if isinstance(st, ast.Expr)
                  and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Name)}
        for f in m.functions:
            if f.qual in called or name in f.local_names():
                continue
            for n in walk_own(f.node):
                if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) \
                        and isinstance(n.value, ast.Name) and n.value.id == name:
                    return TOP
                if isinstance(n, ast.Attribute) and n.attr in _MUTATORS and \
                        isinstance(n.value, ast.Name) and n.value.id == name:
                    return TOP
        return self._mutated(self.fold(sts[0].value, m), name, m, m.tree.body)

    def _mutated(self, v, name, scope, body):
        """Apply unconditional in-place updates of a table in the same body."""
        if not isinstance(v, (DictV, ListV, SetV)):
            return v
        v = type(v)(v.items if isinstance(v, DictV) else v.elts)
        return self._apply(v, name, scope, body, {})

    def _apply(self, v, name, scope, body, env):
        for st in body:
            if v is TOP:
                return TOP
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and \
                    isinstance(st.targets[0], ast.Subscript) and \
                    isinstance(st.targets[0].value, ast.Name) and st.targets[0].value.id == name:
                k = self._fold(st.targets[0].slice, scope, env, None)
                x = self._fold(st.value, scope, env, None)
                if not isinstance(v, DictV) or k is TOP:
                    return TOP
                v.items.append((k, x))
            elif isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and \
                    isinstance(st.value.func, ast.Attribute) and \
                    isinstance(st.value.func.value, ast.Name) and \
                    st.value.func.value.id == name:
                op = st.value.func.attr
                args = [self._fold(a, scope, env, None) for a in st.value.args]
                if any(a is TOP for a in args) and op in (
                        "append", "add", "update", "extend", "insert", "remove", "pop",
                        "clear", "discard", "setdefault"):
                    return TOP
                if op == "append" and isinstance(v, ListV):
                    v.elts.append(args[0])
                elif op == "add" and isinstance(v, SetV):
                    if args[0] not in v.elts:
                        v.elts.append(args[0])
                elif op == "extend" and isinstance(v, ListV):
                    els = elements(args[0])
                    if els is None:
                        return TOP
                    v.elts.extend(els)
                elif op == "update" and isinstance(v, DictV) and args and isinstance(args[0], DictV):
                    v.items.extend(args[0].items)
                elif op == "update" and isinstance(v, SetV):
                    els = elements(args[0])
                    if els is None:
                        return TOP
                    v.elts.extend(x for x in els if x not in v.elts)
                elif op in ("update", "insert", "remove", "pop", "clear", "discard",
                            "setdefault"):
                    return TOP
            elif isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and \
                    isinstance(st.value.func, ast.Name) and not st.value.args \
                    and not st.value.keywords:
                g = self.repo.resolve(st.value.func, scope)
                if isinstance(g, FuncInfo) and any(
                        isinstance(n, ast.Name) and n.id == name for n in walk_own(g.node)):
                    if name in g.local_names() or len(env) > 60:
                        return TOP
                    v = self._apply(v, name, g, g.node.body, {"": True})
            elif isinstance(st, ast.For):
                touches = any(isinstance(n, ast.Name) and n.id == name for s in st.body
                              for n in ast.walk(s))
                if touches:
                    envs = self._comp([ast.comprehension(target=st.target, iter=st.iter,
                                                         ifs=[], is_async=0)], scope, env, None)
                    if envs is None:
                        return TOP
                    for w in envs:
                        v = self._apply(v, name, scope, st.body, w)
            elif isinstance(st, (ast.If, ast.While, ast.With, ast.Try)):
                if not any(isinstance(n, ast.Name) and n.id == name
                           for n in ast.walk(st)):
                    continue
                if isinstance(st, ast.If):
                    t = self._fold(st.test, scope, env, None)
                    if t is not TOP:
                        v = self._apply(v, name, scope,
                                        st.body if _truth(t) else st.orelse, env)
                        continue
                for n in ast.walk(st):
                    if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) \
                            and isinstance(n.value, ast.Name) and n.value.id == name:
                        return TOP
                    if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and \
                            n.value.id == name and n.attr in _MUTATORS:
                        return TOP
            elif isinstance(st, ast.Assign) and len(st.targets) == 1 and \
                    isinstance(st.targets[0], ast.Name) and env is not None and \
                    st.targets[0].id != name:
                if env:
                    env[st.targets[0].id] = self._fold(st.value, scope, env, None)
            elif isinstance(st, ast.Delete):
                for n in ast.walk(st):
                    if isinstance(n, ast.Name) and n.id == name:
                        return TOP
        return v

    # -- flow-insensitive value sets --------------------------------------
    def possible(self, e, scope, depth=0, _seen=None):
        """(list of distinct constants, complete)"""
        _seen = _seen if _seen is not None else set()
        k = (id(e), id(scope))
        if k in _seen or depth > 12:
            return [], depth <= 12
        _seen.add(k)
        v = self.fold(e, scope)
        if v is not TOP:
            return [v], True
        from .util import local_assigns
        if isinstance(e, ast.IfExp):
            return self._union([e.body, e.orelse], scope, depth, _seen)
        if isinstance(e, ast.BoolOp):
            return self._union(e.values, scope, depth, _seen)
        if isinstance(e, ast.NamedExpr):
            return self.possible(e.value, scope, depth + 1, _seen)
        if isinstance(e, ast.Attribute):
            b, ok = self.possible(e.value, scope, depth + 1, set(_seen))
            if b and ok and all(isinstance(x, EnumMember) for x in b) and \
                    e.attr in ("value", "name"):
                return [getattr(x, e.attr) for x in b], True
            if self.cr is not None:
                return self._attr(e, scope, depth, _seen)
            return [], False
        if isinstance(e, ast.JoinedStr):
            outs, ok = [""], True
            for p in e.values:
                if isinstance(p, ast.Constant):
                    outs = [o + str(p.value) for o in outs]
                    continue
                vs, k = self.possible(p.value, scope, depth + 1, set(_seen))
                vs = [x for x in vs if isinstance(x, (str, int))]
                ok = ok and k
                outs = [o + str(x) for o in outs for x in vs]
            return outs, ok
        if isinstance(e, ast.Subscript):
            b, ok = self.possible(e.value, scope, depth + 1, _seen)
            out = []
            ks, kok = self.possible(e.slice, scope, depth + 1, set(_seen)) \
                if any(isinstance(x, DictV) for x in b) else ([], False)
            for x in b:
                if isinstance(x, DictV):
                    d = x.as_dict()
                    if kok and ks:
                        pick = [d[q] for q in ks if _hashable(q) and q in d]
                    else:
                        pick = list(d.values())
                    for y in pick:
                        if isinstance(y, _Opaque):
                            ok = False
                        elif y not in out:
                            out.append(y)
                else:
                    els = elements(x)
                    if els is None or isinstance(x, str):
                        ok = False
                    else:
                        out.extend(y for y in els if y not in out)
            return out, ok and bool(b)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "get":
            b, ok = self.possible(e.func.value, scope, depth + 1, _seen)
            out = []
            for x in b:
                if not isinstance(x, DictV):
                    return [], False
                out.extend(y for y in x.as_dict().values() if y not in out)
            if len(e.args) > 1:
                d, ok2 = self.possible(e.args[1], scope, depth + 1, _seen)
                out.extend(y for y in d if y not in out)
                ok = ok and ok2
            elif None not in out:
                out.append(None)
            return out, ok and bool(b)
        if isinstance(e, ast.Name):
            f = scope if isinstance(scope, FuncInfo) else None
            while f is not None and e.id not in f.local_names():
                f = f.parent
            if f is None:
                return [], False
            out, ok = [], True
            if e.id in [p.name for p in f.params]:
                o, ok = self._param(f, e.id, depth, _seen)
                out.extend(o)
            vs = self._local_defs(f, e.id)
            for d in vs:
                if d is None:
                    ok = False
                    continue
                kind, x = d
                o, k2 = self.possible(x, f, depth + 1, _seen)
                if kind == "iter":
                    o2 = []
                    for y in o:
                        els = elements(y)
                        if els is None:
                            k2 = False
                        else:
                            o2.extend(els)
                    o = o2
                out.extend(y for y in o if not _in(y, out))
                ok = ok and k2
            return out, ok
        return [], False

    def _attr(self, e, scope, depth, seen):
        """Values of an instance attribute: union over every store to it in
        the classes the receiver may have."""
        cs, ok = self.cr.receiver_classes(e.value, scope)
        cs = [c for c in cs if isinstance(c, ClassInfo)]
        if not cs:
            return [], False
        out = []
        done = set()
        for c in cs:
            fam = c.mro() + c.all_subclasses()
            for k in fam:
                if k in done:
                    continue
                done.add(k)
                for f in k.methods.values():
                    if not f.params:
                        continue
                    me = f.params[0].name
                    for n in walk_own(f.node):
                        tv = []
                        if isinstance(n, ast.Assign):
                            tv = [(t, n.value) for t in n.targets]
                        elif isinstance(n, ast.AnnAssign) and n.value is not None:
                            tv = [(n.target, n.value)]
                        for t, v in tv:
                            if isinstance(t, ast.Attribute) and t.attr == e.attr and \
                                    isinstance(t.value, ast.Name) and t.value.id == me:
                                o, k2 = self.possible(v, f, depth + 1, seen)
                                out.extend(y for y in o if not _in(y, out))
                                ok = ok and k2
                if e.attr in k.attrs and not isinstance(k.attrs[e.attr], ast.ClassDef):
                    v = self.fold(k.attrs[e.attr], k.module, None, k)
                    if v is TOP:
                        ok = False
                    elif not _in(v, out):
                        out.append(v)
        return out, ok and bool(out)

    def _union(self, es, scope, depth, seen):
        out, ok = [], True
        for x in es:
            o, k = self.possible(x, scope, depth + 1, seen)
            out.extend(y for y in o if not _in(y, out))
            ok = ok and k
        return out, ok

    def _local_defs(self, f, name):
        from .util import local_assigns
        out = []
        for v in local_assigns(f, name):
            out.append(("value", v) if v is not None else None)
        fors = [n for n in walk_own(f.node) if isinstance(n, (ast.For, ast.comprehension))
                and isinstance(n.target, ast.Name) and n.target.id == name]
        for n in fors:
            if None in out:
                out.remove(None)
            out.append(("iter", n.iter))
        return out

    def _param(self, f, name, depth, seen):
        """Values passed for a parameter at every resolvable call site."""
        if self.cr is None:
            return [], False
        out, ok, n = [], True, 0
        from .util import bind
        for call, scope, bound in self.callers(f):
            pf = self._partial.get((id(call), f))
            m, sp, sk, _err = bind(call, pf or f, bound)
            if pf is not None:
                for q, v in pf.fixed.items():
                    m.setdefault(q, v)
            x = m.get(name)
            n += 1
            if x is None or isinstance(x, list):
                p = next((q for q in f.params if q.name == name), None)
                if x is None and p is not None and p.default is not None and not sp and not sk:
                    o, k = self.possible(p.default, f.module, depth + 1, seen)
                else:
                    o, k = [], False
            else:
                o, k = self.possible(x, scope, depth + 1, seen)
            out.extend(y for y in o if not _in(y, out))
            ok = ok and k
        return out, ok and n > 0

    def callers(self, f):
        if not hasattr(self, "_callers"):
            self._callers = {}
            self._partial = {}
            for g in list(self.repo.functions) + list(self.repo.modules.values()):
                node = g.node if isinstance(g, FuncInfo) else g.tree
                for n in walk_own(node):
                    if isinstance(n, ast.Call):
                        ts, _ok = self.cr.targets(n, g)
                        for t, b in ts:
                            if isinstance(t, ClassInfo):
                                i = t.find("__init__")
                                if i is not None:
                                    self._callers.setdefault(i, []).append((n, g, True))
                            elif isinstance(t, FuncInfo):
                                if isinstance(t, PartialFunc):
                                    self._partial[id(n), t.target] = t
                                    t = t.target
                                self._callers.setdefault(t, []).append((n, g, b))
        return self._callers.get(f, [])


def _hashable(x):
    try:
        hash(x)
    except TypeError:
        return False
    return True


_MUTATORS = ("append", "add", "update", "extend", "insert", "remove", "pop",
             "clear", "discard", "setdefault", "popitem")


class _Opaque:
    """A table value that does not fold (its expression is kept)."""

    def __init__(self, node, scope):
        self.node, self.scope = node, scope

    def __repr__(self):
        return "Opaque(%s)" % ast.unparse(self.node)

    def __eq__(self, o):
        return isinstance(o, _Opaque) and o.node is self.node

    def __hash__(self):
        return hash(id(self.node))


Opaque = _Opaque


def _in(x, xs):
    for y in xs:
        if x is y:
            return True
        try:
            if type(x) is type(y) and x == y:
                return True
        except Exception:
            pass
    return False


def _truth(v):
    if isinstance(v, DictV):
        return bool(v.items)
    if isinstance(v, (ListV, SetV)):
        return bool(v.elts)
    if isinstance(v, (EnumMember, Ref, _Opaque)):
        return True
    return bool(v)


def _contains(a, b):
    els = elements(b)
    if isinstance(b, str):
        return a in b
    return _in(a, els) if els is not None else 1 / 0


_CMP = {
    ast.Eq: lambda a, b: a == b, ast.NotEq: lambda a, b: a != b,
    ast.Lt: lambda a, b: a < b, ast.LtE: lambda a, b: a <= b,
    ast.Gt: lambda a, b: a > b, ast.GtE: lambda a, b: a >= b,
    ast.Is: lambda a, b: a is b or a == b, ast.IsNot: lambda a, b: not (a is b or a == b),
    ast.In: _contains, ast.NotIn: lambda a, b: not _contains(a, b),
}


def _bind_target(t, v, env):
    if isinstance(t, ast.Name):
        env[t.id] = v
        return True
    if isinstance(t, (ast.Tuple, ast.List)):
        els = elements(v)
        if els is None or len(els) != len(t.elts):
            return False
        return all(_bind_target(a, b, env) for a, b in zip(t.elts, els))
    return False
