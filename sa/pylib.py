"""Transfer functions of the standard library (collections, itertools, functools,
operator, heapq, bisect, contextlib) for the abstract interpreter."""
import ast
import itertools as H
from . import absint as A
from .absint import (K, Lst, Tup, Dct, DDct, Deq, Itr, View, SetV, Inst, Ext, ExtObj, Py, HCM,
                     CmpKey, Part, Fn, Cls, AbsRaise, Undecided, NONE, TRUE)

LIB = {}


def lib(*names):
    def add(f):
        for n in names:
            LIB[n] = f
        return f
    return add


class Ordered:
    """An abstract value with Python's `<`, for the host's sorting algorithms."""
    __slots__ = ("I", "v")

    def __init__(self, I, v):
        self.I, self.v = I, v

    def __lt__(self, other):
        return self.I.less(self.v, other.v)


def num(v, what="number"):
    if isinstance(v, K):
        return v.v
    raise Undecided(what)


def err(n, *a):
    return AbsRaise(ExtObj("builtins." + n, list(a)), n)


# -- collections ----------------------------------------------------------
@lib("collections.deque")
def deque(I, items=None, maxlen=NONE):
    return Deq(I.iterate(items) if items is not None else (), num(maxlen))


@lib("collections.defaultdict")
def defaultdict(I, factory=NONE, *a, **k):
    d = DDct((), None if factory is NONE or isinstance(factory, K) else factory)
    I.dict_method(d, "update", list(a), k)
    return d


@lib("collections.OrderedDict")
def ordereddict(I, *a, **k):
    return I.b_dict(list(a), k)


def count_in(I, d, a, k, sign=1):
    def add(x, n):
        old = I.dget(d, x)
        I.dset(d, x, I.binop(ast.Add if sign > 0 else ast.Sub,
                             old if old is not None else K(0), n))
    if a:
        if isinstance(a[0], Dct):
            for x, n in list(a[0].items):
                add(x, n)
        else:
            for x in I.iter_of(a[0]):
                add(x, K(1))
    for x, n in k.items():
        add(K(x), n)
    return NONE


@lib("collections.Counter")
def counter(I, *a, **k):
    d = DDct((), None, "Counter")
    count_in(I, d, a, k)
    return d


def most_common(I, o, n=NONE):
    its = [Tup(x) for x in o.items]
    r = I.b_sorted([Lst(its)], {"key": Py(lambda I, a, k: a[0].items[1]), "reverse": TRUE})
    return Lst(r.items if n is NONE or n.v is None else r.items[:n.v])


COUNTER = {
    "update": lambda I, o, *a, **k: count_in(I, o, a, k),
    "subtract": lambda I, o, *a, **k: count_in(I, o, a, k, -1),
    "most_common": most_common,
    "elements": lambda I, o: Itr(k for k, n in list(o.items) for _ in range(num(n))),
    "total": lambda I, o: I.b_sum([Lst(n for _, n in o.items)], {}),
}


def counter_op(I, op, a, b):
    r = DDct(a.items, None, "Counter")
    count_in(I, r, [b], {}, 1 if op is ast.Add else -1)
    r.items = [x for x in r.items if I.compare(ast.Gt, x[1], K(0))]
    return r


@lib("collections.ChainMap")
def chainmap(I, *maps):
    maps = list(maps) or [Dct()]

    def find(k):
        for m in maps:
            v = I.dget(m, k)
            if v is not None:
                return v

    def item(I, a, k):
        v = find(a[0])
        if v is None:
            raise err("KeyError", a[0])
        return v

    def get(I, a, k):
        v = find(a[0])
        return v if v is not None else (a[1] if len(a) > 1 else NONE)

    def keys():
        return I.b_set([Lst([k for m in reversed(maps) for k, _ in m.items])], {}).items
    o = HCM(name="ChainMap")
    o.attrs = {
        "__getitem__": Py(item), "get": Py(get),
        "__contains__": Py(lambda I, a, k: K(find(a[0]) is not None)),
        "__iter__": Py(lambda I, a, k: Itr(keys())), "__len__": Py(lambda I, a, k: K(len(keys()))),
        "keys": Py(lambda I, a, k: Itr(keys())),
        "items": Py(lambda I, a, k: Itr(Tup([x, find(x)]) for x in keys())),
        "values": Py(lambda I, a, k: Itr(find(x) for x in keys())),
        "maps": Lst(maps),
        "new_child": Py(lambda I, a, k: chainmap(I, a[0] if a else Dct(), *maps)),
    }
    return o


# -- itertools ------------------------------------------------------------
@lib("itertools.chain")
def chain(I, *its):
    return Itr(x for it in its for x in I.iter_of(it))


@lib("itertools.chain.from_iterable")
def from_iterable(I, its):
    return Itr(x for it in I.iter_of(its) for x in I.iter_of(it))


@lib("itertools.repeat")
def repeat(I, x, times=None):
    return Itr(H.repeat(x) if times is None else H.repeat(x, num(times)))


@lib("itertools.islice")
def islice(I, it, *a):
    return Itr(H.islice(I.iter_of(it), *[num(x) for x in a]))


@lib("itertools.product")
def product(I, *its, repeat=K(1)):
    return Itr(Tup(x) for x in H.product(*[I.iterate(i) for i in its], repeat=num(repeat)))


@lib("itertools.zip_longest")
def zip_longest(I, *its, fillvalue=NONE):
    return Itr(Tup(x) for x in H.zip_longest(*[I.iter_of(i) for i in its], fillvalue=fillvalue))


@lib("itertools.accumulate")
def accumulate(I, it, func=NONE, initial=NONE):
    def go():
        acc = None if isinstance(initial, K) and initial.v is None else initial
        if acc is not None:
            yield acc
        for x in I.iter_of(it):
            if acc is None:
                acc = x
            elif isinstance(func, K):
                acc = I.binop(ast.Add, acc, x)
            else:
                acc = I.call(func, [acc, x], {})
            yield acc
    return Itr(go())


@lib("itertools.groupby")
def groupby(I, it, key=NONE):
    def go():
        group, last = None, None
        for x in I.iter_of(it):
            k = x if isinstance(key, K) else I.call(key, [x], {})
            if group is not None and I.compare(ast.Eq, k, last):
                group.append(x)
            else:
                if group is not None:
                    yield Tup([last, Itr(group)])
                group, last = [x], k
        if group is not None:
            yield Tup([last, Itr(group)])
    return Itr(go())


@lib("itertools.count")
def count(I, start=K(0), step=K(1)):
    def go():
        v = start
        while True:
            yield v
            v = I.binop(ast.Add, v, step)
    return Itr(go())


@lib("itertools.cycle")
def cycle(I, it):
    return Itr(H.cycle(I.iter_of(it)))


@lib("itertools.takewhile")
def takewhile(I, f, it):
    return Itr(H.takewhile(lambda x: I.truth(I.call(f, [x], {})), I.iter_of(it)))


@lib("itertools.dropwhile")
def dropwhile(I, f, it):
    return Itr(H.dropwhile(lambda x: I.truth(I.call(f, [x], {})), I.iter_of(it)))


@lib("itertools.filterfalse")
def filterfalse(I, f, it):
    return Itr(x for x in I.iter_of(it)
               if not I.truth(x if isinstance(f, K) else I.call(f, [x], {})))


@lib("itertools.starmap")
def starmap(I, f, it):
    return Itr(I.call(f, I.iterate(x), {}) for x in I.iter_of(it))


@lib("itertools.combinations")
def combinations(I, it, r):
    return Itr(Tup(x) for x in H.combinations(I.iterate(it), num(r)))


@lib("itertools.combinations_with_replacement")
def combinations_wr(I, it, r):
    return Itr(Tup(x) for x in H.combinations_with_replacement(I.iterate(it), num(r)))


@lib("itertools.permutations")
def permutations(I, it, r=NONE):
    return Itr(Tup(x) for x in H.permutations(I.iterate(it), num(r)))


@lib("itertools.compress")
def compress(I, it, sel):
    return Itr(x for x, s in zip(I.iter_of(it), I.iter_of(sel)) if I.truth(s))


@lib("itertools.pairwise")
def pairwise(I, it):
    return Itr(Tup(x) for x in H.pairwise(I.iter_of(it)))


@lib("itertools.batched")
def batched(I, it, n):
    return Itr(Tup(x) for x in H.batched(I.iter_of(it), num(n)))


@lib("itertools.tee")
def tee(I, it, n=K(2)):
    return Tup([Itr(x) for x in H.tee(I.iter_of(it), num(n))])


# -- functools ------------------------------------------------------------
@lib("functools.reduce")
def reduce(I, f, it, *init):
    its = I.iter_of(it)
    if init:
        acc = init[0]
    else:
        try:
            acc = next(its)
        except StopIteration:
            raise err("TypeError")
    for x in its:
        acc = I.call(f, [acc, x], {})
    return acc


@lib("functools.cmp_to_key")
def cmp_to_key(I, f):
    return Py(lambda I, a, k: CmpKey(f, a[0]))


@lib("functools.lru_cache", "functools.cache")
def lru_cache(I, f=None, *a, **k):
    """As a call; as a decorator, see Interp._memo."""
    kept = []

    def memo(I, args, kw):
        want = list(args) + [Tup([K(n), v]) for n, v in sorted(kw.items())]
        for have, v in kept:
            if len(have) == len(want) and all(I.same(x, y) is True for x, y in zip(have, want)):
                return v
        v = I.call(f, args, kw)
        kept.append((want, v))
        return v
    if isinstance(f, (Fn, A.Lam, Part, Py)):
        return Py(memo)
    return Py(lambda I, args, kw: lru_cache(I, args[0]))


@lib("functools.singledispatch")
def singledispatch(I, f):
    table = []

    def call(I, a, k):
        best = None
        for t, g in table:
            if I.truth(I.b_isinstance([a[0], t], {})):
                if best is None or isinstance(t, Cls) and isinstance(best[0], Cls) and \
                        best[0].cls in t.cls.mro():
                    best = (t, g)
        return I.call(best[1] if best else f, a, k)

    def register(I, a, k):
        if len(a) == 2:
            table.append((a[0], a[1]))
            return a[1]
        if isinstance(a[0], Fn):
            fn = a[0].f
            ann = fn.node.args.args[0].annotation
            if ann is None:
                raise Undecided("singledispatch")
            t = I.ev(ann, A.Frame(fn.parent, fn.module, {}, a[0].env))
            table.append((t, a[0]))
            return a[0]
        return Py(lambda I, b, k: table.append((a[0], b[0])) or b[0])
    return HCM(attrs={"__call__": Py(call), "register": Py(register)}, name="singledispatch")


# -- operator -------------------------------------------------------------
_TWO = {"add": ast.Add, "sub": ast.Sub, "mul": ast.Mult, "mod": ast.Mod,
        "floordiv": ast.FloorDiv, "truediv": ast.Div, "pow": ast.Pow, "and_": ast.BitAnd,
        "or_": ast.BitOr, "xor": ast.BitXor, "lshift": ast.LShift, "rshift": ast.RShift,
        "concat": ast.Add}
for _n, _o in _TWO.items():
    LIB["operator." + _n] = lambda I, a, b, o=_o: I.binop(o, a, b)
    LIB["operator.i" + _n.rstrip("_")] = lambda I, a, b, o=_o: I.inplace(o, a, b)
for _n, _o in {"eq": ast.Eq, "ne": ast.NotEq, "lt": ast.Lt, "le": ast.LtE, "gt": ast.Gt,
               "ge": ast.GtE, "is_": ast.Is, "is_not": ast.IsNot}.items():
    LIB["operator." + _n] = lambda I, a, b, o=_o: K(I.compare(o, a, b))
LIB["operator.contains"] = lambda I, a, b: K(I.contains(a, b))
LIB["operator.not_"] = lambda I, a: K(not I.truth(a))
LIB["operator.truth"] = lambda I, a: K(I.truth(a))
LIB["operator.neg"] = lambda I, a: I.neg(a)
LIB["operator.pos"] = lambda I, a: a
LIB["operator.index"] = lambda I, a: a
LIB["operator.abs"] = lambda I, a: I.b_abs([a], {})
LIB["operator.getitem"] = lambda I, a, b: I.subscript(a, b)
LIB["operator.setitem"] = lambda I, a, b, c: I.setitem(a, b, c) or NONE
LIB["operator.delitem"] = lambda I, a, b: I.delitem(a, b) or NONE


@lib("operator.itemgetter")
def itemgetter(I, *ks):
    if len(ks) == 1:
        return Py(lambda I, a, k: I.subscript(a[0], ks[0]))
    return Py(lambda I, a, k: Tup([I.subscript(a[0], x) for x in ks]))


@lib("operator.attrgetter")
def attrgetter(I, *ns):
    def get(I, o, n):
        for p in num(n).split("."):
            o = I.getattr(o, p)
        return o
    if len(ns) == 1:
        return Py(lambda I, a, k: get(I, a[0], ns[0]))
    return Py(lambda I, a, k: Tup([get(I, a[0], n) for n in ns]))


@lib("operator.methodcaller")
def methodcaller(I, n, *args, **kw):
    return Py(lambda I, a, k: I.call(I.getattr(a[0], num(n)), list(args), dict(kw)))


# -- heapq, bisect ----------------------------------------------------------
def _heap(name):
    def f(I, h, *a):
        import heapq
        xs = [Ordered(I, x) for x in h.items]
        try:
            r = getattr(heapq, name)(xs, *[Ordered(I, x) for x in a])
        except IndexError:
            raise err("IndexError")
        h.items[:] = [x.v for x in xs]
        return r.v if r is not None else NONE
    LIB["heapq." + name] = f


for _n in ("heappush", "heappop", "heapify", "heappushpop", "heapreplace"):
    _heap(_n)


@lib("heapq.merge")
def merge(I, *its, key=NONE, reverse=A.FALSE):
    all_ = Lst([x for i in its for x in I.iterate(i)])
    return Itr(I.b_sorted([all_], {"key": key, "reverse": reverse}).items)


@lib("heapq.nsmallest")
def nsmallest(I, n, it, key=NONE):
    return Lst(I.b_sorted([it], {"key": key}).items[:num(n)])


@lib("heapq.nlargest")
def nlargest(I, n, it, key=NONE):
    return Lst(I.b_sorted([it], {"key": key, "reverse": TRUE}).items[:num(n)])


def _bisect(name, left, insert):
    def f(I, a, x, lo=K(0), hi=NONE, key=NONE):
        its = I.iterate(a)
        ks = I.keys_of(its, {"key": key})
        if insert:
            xk = x if isinstance(key, K) else I.call(key, [x], {})
        else:
            xk = x
        l, h = num(lo), len(its) if isinstance(hi, K) and hi.v is None else num(hi)
        while l < h:
            m = (l + h) // 2
            if I.less(ks[m], xk) if left else not I.less(xk, ks[m]):
                l = m + 1
            else:
                h = m
        if insert:
            a.items.insert(l, x)
            return NONE
        return K(l)
    LIB["bisect." + name] = f


for _n, _l, _i in (("bisect", False, False), ("bisect_right", False, False),
                   ("bisect_left", True, False), ("insort", False, True),
                   ("insort_right", False, True), ("insort_left", True, True)):
    _bisect(_n, _l, _i)


# -- contextlib -------------------------------------------------------------
@lib("contextlib.suppress")
def suppress(I, *types):
    return HCM(lambda: NONE,
               lambda e: e is not None and I.exc_matches(Tup(list(types)), e), name="suppress")


@lib("contextlib.nullcontext")
def nullcontext(I, v=NONE):
    return HCM(lambda: v, lambda e: False, name="nullcontext")


@lib("contextlib.closing")
def closing(I, v):
    def leave(e):
        I.call(I.getattr(v, "close"), [], {})
        return False
    return HCM(lambda: v, leave, name="closing")


@lib("contextlib.ExitStack")
def exitstack(I):
    o = HCM(name="ExitStack")
    stack = []

    def leave(e):
        first = e
        while stack:
            f = stack.pop()
            try:
                if f(e):
                    e = None
            except AbsRaise as x:
                e = x
        if e is not None and e is not first:
            raise e
        return first is not None and e is None

    def enter_context(I, a, k):
        v = I.cm_enter(a[0])
        stack.append(lambda e: I.cm_exit(a[0], e))
        return v

    def callback(I, a, k):
        stack.append(lambda e: I.call(a[0], a[1:], k) and False)
        return a[0]

    def push(I, a, k):
        if isinstance(a[0], (HCM, Inst)):
            stack.append(lambda e: I.cm_exit(a[0], e))
        else:
            stack.append(lambda e: I.truth(I.call(a[0], [
                NONE if e is None else A.Top("type"), NONE if e is None else e.val, NONE], {})))
        return a[0]

    def pop_all(I, a, k):
        n = exitstack(I)
        n.attrs["%stack"].extend(stack)
        del stack[:]
        return n

    def close(I, a, k):
        leave(None)
        return NONE
    o.enter, o.exit = (lambda: o), leave
    o.attrs = {"enter_context": Py(enter_context), "callback": Py(callback), "push": Py(push),
               "pop_all": Py(pop_all), "close": Py(close), "%stack": stack}
    return o


class NtClass:
    """What collections.namedtuple() makes, with the interface of ClassInfo."""
    parent = None

    def __init__(self, name, fields, defaults):
        self.name, self.id = name, "namedtuple:%s:%d" % (name, id(self))
        self.ann = {f: None for f in fields}
        self.attrs, self.methods = {}, {}
        self.defaults = defaults
        self.node = ast.ClassDef(name, [], [], [], [])
        self.module = None

    def mro(self):
        return [self]

    def find(self, n):
        return None

    def find_attr(self, n):
        return None

    def alias(self, n):
        return None

    def external_bases(self):
        return [Ext("typing.NamedTuple")]


@lib("collections.namedtuple")
def namedtuple(I, name, fields, **k):
    fs = num(fields).replace(",", " ").split() if isinstance(fields, K) else [
        num(x) for x in I.iterate(fields)]
    ds = I.iterate(k["defaults"]) if "defaults" in k and not isinstance(k["defaults"], K) else []
    return Cls(NtClass(num(name), fs, dict(zip(fs[len(fs) - len(ds):], ds))))


@lib("types.SimpleNamespace")
def namespace(I, **k):
    return A.Atom("namespace", None, dict(k, strict=TRUE, unique=TRUE))


@lib("types.MappingProxyType")
def mappingproxy(I, d):
    return d


@lib("weakref.ref", "weakref.proxy")
def ref(I, o):
    return Py(lambda I, a, k: o)


# -- special methods of built-in values ---------------------------------------
def _cmp(o):
    return lambda I, a, b: K(I.compare(o, a, b))


DUNDERS = {
    "__getitem__": lambda I, a, k: I.subscript(a, k),
    "__setitem__": lambda I, a, k, v: I.setitem(a, k, v) or NONE,
    "__delitem__": lambda I, a, k: I.delitem(a, k) or NONE,
    "__contains__": lambda I, a, x: K(I.contains(a, x)),
    "__len__": lambda I, a: I.b_len([a], {}),
    "__iter__": lambda I, a: I.b_iter([a], {}),
    "__next__": lambda I, a: I.b_next([a], {}),
    "__str__": lambda I, a: I.to_str(a),
    "__repr__": lambda I, a: I.b_repr([a], {}) if not isinstance(a, Inst) else A.Txt(
        [A.Top("repr")]),
    "__hash__": lambda I, a: I.b_hash([a], {}) if not isinstance(a, Inst) else
    I.b_id([a], {}),
    "__eq__": lambda I, a, b: K(I.compare(ast.Eq, a, b)) if not isinstance(a, Inst) else
    K(a is b),
    "__ne__": lambda I, a, b: K(I.compare(ast.NotEq, a, b)),
    "__lt__": _cmp(ast.Lt), "__le__": _cmp(ast.LtE), "__gt__": _cmp(ast.Gt),
    "__ge__": _cmp(ast.GtE),
    "__add__": lambda I, a, b: I.binop(ast.Add, a, b),
    "__sub__": lambda I, a, b: I.binop(ast.Sub, a, b),
    "__mul__": lambda I, a, b: I.binop(ast.Mult, a, b),
    "__mod__": lambda I, a, b: I.binop(ast.Mod, a, b),
    "__or__": lambda I, a, b: I.binop(ast.BitOr, a, b),
    "__and__": lambda I, a, b: I.binop(ast.BitAnd, a, b),
    "__bool__": lambda I, a: K(I.truth(a)),
    "__reversed__": lambda I, a: I.b_reversed([a], {}),
}
