"""Abstract interpreter over the repository's source.

The domain: constants, enum members, linear integers `a*n+k` over an unknown
`n` taken in the interior of the 32 bit range, strings with unknown parts,
opaque atoms, abstract instances of repository classes (allocation site =
object), lists/tuples/dicts of known shape, functions, and Top.  No code of the
repository is executed: statements and expressions of its syntax trees are
interpreted by the transfer functions below.  Branches whose condition is
unknown are partitioned (both sides are analysed, up to a cap); what the domain
cannot express ends in Undecided, which a rule never reports as a violation.
"""
import ast
import copy
import re
import os
import sys

from .repo import FuncInfo, ClassInfo, Module, External, PartialFunc, walk_own

INT_MIN, INT_MAX = -2 ** 31, 2 ** 31 - 1
sys.setrecursionlimit(20000)
DEBUG = bool(os.environ.get("SA_DEBUG"))
SLACK = 4096          # how far from both ends of the range `n` is


class Undecided(Exception):
    pass


class AbsRaise(Exception):
    """A repository/builtin exception raised by the interpreted code."""

    def __init__(self, val, name=None):
        self.val = val
        self.name = name or _exc_name(val)
        Exception.__init__(self, self.name)


def _exc_name(v):
    if isinstance(v, Inst):
        return v.cls.name
    if isinstance(v, Cls):
        return v.cls.name
    if isinstance(v, Ext):
        return v.dotted.split(".")[-1]
    if isinstance(v, ExtObj):
        return v.dotted.split(".")[-1]
    return "?"


class Val:
    __slots__ = ()


class K(Val):
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return repr(self.v)


class Top(Val):
    __slots__ = ("why",)

    def __init__(self, why=""):
        self.why = why

    def __repr__(self):
        return "?%s" % self.why


class Enum(Val):
    __slots__ = ("cls", "name", "value")

    def __init__(self, cls, name, value):
        self.cls, self.name, self.value = cls, name, value

    def __repr__(self):
        return "%s.%s" % (self.cls.name, self.name)


class Lin(Val):
    __slots__ = ("sym", "a", "k")

    def __init__(self, sym, a=1, k=0):
        self.sym, self.a, self.k = sym, a, k

    def key(self):
        return (self.sym, self.a, self.k)

    def __repr__(self):
        return "<%s%s%+d>" % ("" if self.a == 1 else "%d*" % self.a, self.sym, self.k)


class Txt(Val):
    """A string with unknown parts: list of str and Val."""
    __slots__ = ("parts",)

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, Txt):
                ps = p.parts
            elif isinstance(p, K):
                ps = [p.v if isinstance(p.v, str) else str(p.v)]
            else:
                ps = [p]
            for x in ps:
                if isinstance(x, str) and out and isinstance(out[-1], str):
                    out[-1] += x
                elif x != "":
                    out.append(x)
        self.parts = out

    def __repr__(self):
        return "Txt%r" % (self.parts,)


def txt(parts):
    t = Txt(parts)
    if all(isinstance(p, str) for p in t.parts):
        return K("".join(t.parts))
    return t


class Atom(Val):
    """An opaque value, equal only to itself; `cls` if its class is known,
    `attrs` for attributes that are known."""
    __slots__ = ("name", "cls", "attrs")

    def __init__(self, name, cls=None, attrs=None):
        self.name, self.cls, self.attrs = name, cls, attrs or {}

    def __repr__(self):
        return "<%s>" % self.name


class Tup(Val):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = list(items)

    def __repr__(self):
        return "(%s)" % ", ".join(map(repr, self.items))


class Lst(Val):
    __slots__ = ("items", "born")

    def __init__(self, items=()):
        self.items = list(items)

    def __repr__(self):
        return "[%s]" % ", ".join(map(repr, self.items))


class Itr(Lst):
    """An iterator: its elements are made when they are asked for."""
    __slots__ = ("src", "kept", "ret")

    def __init__(self, src):
        self.src, self.kept, self.ret = iter(src), [], NONE

    @property
    def items(self):
        """Everything that is left."""
        for x in self.src:
            self.kept.append(x)
            if len(self.kept) > 20000:
                raise Undecided("endless iterator")
        return self.kept

    def pull(self):
        if self.kept:
            return self.kept.pop(0)
        try:
            return next(self.src)
        except StopIteration as e:
            if isinstance(e.value, Val):
                self.ret = e.value
            raise

    def each(self):
        while True:
            try:
                x = self.pull()
            except StopIteration:
                return
            yield x

    def take(self):
        out, self.kept = self.items, []
        return out

    def __repr__(self):
        return "<iterator>"


class View(Lst):
    """keys(), values() or items() of a dictionary."""
    __slots__ = ("d", "kind")

    def __init__(self, d, kind):
        self.d, self.kind = d, kind

    @property
    def items(self):
        if self.kind == "items":
            return [Tup(x) for x in self.d.items]
        return [x[self.kind == "values"] for x in self.d.items]


class Deq(Lst):
    """collections.deque"""
    __slots__ = ("maxlen",)

    def __init__(self, items=(), maxlen=None):
        self.items, self.maxlen = list(items), maxlen
        self.trim()

    def trim(self, left=True):
        if self.maxlen is not None:
            while len(self.items) > self.maxlen:
                self.items.pop(0 if left else -1)


class SetV(Val):
    __slots__ = ("items",)

    def __init__(self, items=()):
        self.items = list(items)


class Dct(Val):
    __slots__ = ("items",)

    def __init__(self, items=()):
        self.items = [list(x) for x in items]   # [key, value]

    def __repr__(self):
        return "{%s}" % ", ".join("%r: %r" % tuple(x) for x in self.items)


class DDct(Dct):
    """A dictionary with its own idea of missing keys: defaultdict (`factory`),
    Counter."""
    __slots__ = ("factory", "kind")

    def __init__(self, items=(), factory=None, kind="defaultdict"):
        Dct.__init__(self, items)
        self.factory, self.kind = factory, kind


class HCM(Val):
    """A context manager (or another helper object) of the standard library."""
    __slots__ = ("enter", "exit", "attrs", "name")

    def __init__(self, enter=None, exit=None, attrs=None, name=""):
        self.enter, self.exit, self.attrs, self.name = enter, exit, attrs or {}, name


class CmpKey(Val):
    """functools.cmp_to_key(fn)(v)"""
    __slots__ = ("fn", "v")

    def __init__(self, fn, v):
        self.fn, self.v = fn, v


class Inst(Val):
    __slots__ = ("cls", "fields")

    def __init__(self, cls, fields=None):
        self.cls = cls
        self.fields = fields if fields is not None else {}

    def __repr__(self):
        return "%s(%s)" % (self.cls.name, ", ".join(
            "%s=%s" % (k, type(v).__name__ if isinstance(v, (Inst, Lst)) else repr(v))
            for k, v in list(self.fields.items())[:5]))


class CObj(Inst):
    """A class object made by a metaclass of the repository."""
    __slots__ = ()


class Cls(Val):
    __slots__ = ("cls",)

    def __init__(self, cls):
        self.cls = cls

    def __repr__(self):
        return "class %s" % self.cls.name


class Fn(Val):
    __slots__ = ("f", "self", "env", "raw")

    def __init__(self, f, self_=None, env=None, raw=False):
        # raw: the undecorated function
        self.f, self.self, self.env, self.raw = f, self_, env, raw

    def __repr__(self):
        return "fn %s" % self.f.qual


class Lam(Val):
    __slots__ = ("node", "frame", "defaults")

    def __init__(self, node, frame, defaults=None):
        self.node, self.frame, self.defaults = node, frame, defaults or {}


class Part(Val):
    __slots__ = ("fn", "args", "kw", "method")

    def __init__(self, fn, args, kw, method=False):
        self.fn, self.args, self.kw, self.method = fn, args, kw, method


class Ext(Val):
    __slots__ = ("dotted",)

    def __init__(self, dotted):
        self.dotted = dotted

    def __repr__(self):
        return "ext %s" % self.dotted


class ExtObj(Val):
    """Instance of an external class."""
    __slots__ = ("dotted", "args")

    def __init__(self, dotted, args):
        self.dotted, self.args = dotted, args

    def real(self):
        """The exception, if it is one of Python's own with known arguments."""
        import builtins as B
        t = getattr(B, self.dotted.split(".")[-1], None) if self.dotted.startswith("builtins.") else None
        if isinstance(t, type) and issubclass(t, Exception) and all(isinstance(a, K) for a in self.args):
            try:
                return t(*[a.v for a in self.args])
            except Exception:
                return None


class ClsM(Val):
    """A class method in the body of a class made by a metaclass."""
    __slots__ = ("fn",)

    def __init__(self, fn):
        self.fn = fn


class Native(Val):
    """A compiled regular expression or a match of one."""
    __slots__ = ("obj",)

    def __init__(self, obj):
        self.obj = obj

    def method(self, n, args, kw):
        return re_call(None, getattr(self.obj, n), args, kw)


def re_call(I, fn, args, kw):
    """Call a function of `re` (the replacement may be a function of the code)."""
    import re
    args = list(args)
    if args and isinstance(args[0], (Fn, Lam, Part, Py)) or len(args) > 1 and isinstance(
            args[1], (Fn, Lam, Part, Py)):
        i = 0 if isinstance(args[0], (Fn, Lam, Part, Py)) else 1
        f, I = args[i], I or Interp.current

        def rep(m):
            r = I.call(f, [Native(m)], {})
            if not isinstance(r, K):
                raise Undecided("re.sub")
            return r.v
        a = [rep if j == i else _plain(x) for j, x in enumerate(args)]
    else:
        a = [x.obj if isinstance(x, Native) else _plain(x) for x in args]
    k = {x: _plain(v) for x, v in kw.items()}
    if any(x is _NO for x in a) or any(x is _NO for x in k.values()):
        return Top("re")
    try:
        r = fn(*a, **k)
    except (IndexError, TypeError, re.error) as e:
        raise AbsRaise(Ext("builtins." + type(e).__name__))
    if type(r).__name__ == "callable_iterator":
        return Itr(native(x) for x in r)
    return native(r)


def native(v):
    import re
    if isinstance(v, (re.Match, re.Pattern)):
        return Native(v)
    if v is None:
        return NONE
    try:
        return lift(v)
    except Exception:
        return Top("re")


class Bound(Val):
    """Method of a built-in container/str value."""
    __slots__ = ("obj", "name")

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class Mod(Val):
    __slots__ = ("m",)

    def __init__(self, m):
        self.m = m


class Py(Val):
    """A transfer function supplied by a rule: fn(interp, args, kw)."""
    __slots__ = ("fn", "name")

    def __init__(self, fn, name="py"):
        self.fn, self.name = fn, name


class Super(Val):
    __slots__ = ("cls", "obj")

    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class _Ret(Exception):
    def __init__(self, v):
        self.v = v


class _Brk(Exception):
    pass


class _Cont(Exception):
    pass


class Frame:
    def __init__(self, func, module, env, parent=None, cls=None):
        self.func = func          # FuncInfo or None (module level)
        self.module = module
        self.env = env
        self.parent = parent
        self.cls = cls            # class whose method runs (for super())
        self.glob = set()


NONE = K(None)
TRUE = K(True)
FALSE = K(False)
_CMP = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">",
        ast.GtE: ">="}


class Interp:
    def __init__(self, cx, hooks=None, max_paths=48, fuel=60000, depth=60):
        self.cx = cx
        self.repo = cx.repo
        self.hooks = hooks or {}
        self.max_paths = max_paths
        self.fuel0 = fuel
        self.depth0 = depth
        self.choices = []
        self.pos = 0
        self.trace = []
        self.globals = {}
        self._made = {}
        self._enums = {}
        self.opaque_modules = ()
        self.used = set()         # FuncInfos interpreted
        self.on_raise = None
        self.classinit = set()
        self.clsset = {}
        self._initing = 0
        self.exec_hook = None
        self.externs = {}
        self.sets_backwards = False     # the order of sets of hashed objects is arbitrary

    # -- driving ----------------------------------------------------------
    def run(self, thunk):
        """All partitions: [(kind, value, conditions)] with kind in
        value/raise/undecided."""
        out = []
        self.choices = []
        while True:
            self.pos = 0
            self.trace = []
            self.fuel = self.fuel0
            self.depth = 0
            self.globals = {}
            self._made = {}
            self.known = {}
            try:
                v = thunk()
                out.append(("value", v, list(self.trace)))
            except AbsRaise as e:
                out.append(("raise", e, list(self.trace)))
            except Undecided as e:
                out.append(("undecided", str(e), list(self.trace)))
            except RecursionError:
                out.append(("undecided", "recursion", list(self.trace)))
            except (_Brk, _Cont, _Ret):
                out.append(("undecided", "control flow", list(self.trace)))
            except (TypeError, ValueError, AttributeError, KeyError, IndexError,
                    StopIteration) as e:
                if DEBUG:
                    raise
                out.append(("undecided", "interpreter: %s %s" % (type(e).__name__, e),
                            list(self.trace)))
            if len(out) > self.max_paths:
                out.append(("undecided", "too many partitions", []))
                return out
            self.choices = self.choices[:self.pos]
            while self.choices and self.choices[-1]:
                self.choices.pop()
            if not self.choices:
                return out
            self.choices[-1] = True

    def choose(self, why, key=None):
        if key is not None and key in self.known:
            return self.known[key]
        if self.pos == len(self.choices):
            self.choices.append(False)
        c = self.choices[self.pos]
        self.pos += 1
        self.trace.append((why, c))
        if key is not None:
            self.known[key] = c
        return c

    # -- truth, equality --------------------------------------------------
    def truth(self, v, why="cond"):
        r = self.truth3(v)
        if r is None:
            if isinstance(why, ast.AST):
                why = ast.unparse(why)
            return self.choose(why, ("truth", id(v)) if isinstance(v, (Atom, Lin)) else None)
        return r

    def truth3(self, v):
        if isinstance(v, K):
            return bool(v.v)
        if isinstance(v, Itr):
            return True
        if isinstance(v, (Tup, Lst, SetV, Dct)):
            return bool(v.items)
        if isinstance(v, Native):
            return True
        if isinstance(v, Lin):
            return True if v.a == 0 and v.k else None
        if isinstance(v, Txt):
            return True if any(isinstance(p, str) and p for p in v.parts) else None
        if isinstance(v, Inst):
            f = v.cls.find("__bool__")
            if f is not None:
                return self.truth3(self.call(Fn(f, v), [], {}))
            if "%base" in v.fields:
                return self.truth3(v.fields["%base"])
            if v.cls.find("__len__") is not None:
                return self.truth3(self.call(Fn(v.cls.find("__len__"), v), [], {}))
            return True
        if isinstance(v, (Cls, Fn, Lam, Part, Enum, Mod, Py, Ext, Bound)):
            return True
        return None

    def same(self, a, b):
        """a == b : True/False/None"""
        if a is b:
            return True
        if isinstance(a, Top) or isinstance(b, Top):
            return None
        if isinstance(a, K) and isinstance(b, K):
            return a.v == b.v
        if isinstance(a, Inst) and "%base" in a.fields and a.cls.find("__eq__") is None:
            return self.same(a.fields["%base"], b)
        if isinstance(b, Inst) and "%base" in b.fields and b.cls.find("__eq__") is None:
            return self.same(a, b.fields["%base"])
        if isinstance(a, (Itr, HCM)) or isinstance(b, (Itr, HCM)):
            return False
        if isinstance(a, Enum) and isinstance(b, Enum):
            return a.cls is b.cls and a.name == b.name
        if isinstance(a, Lin) or isinstance(b, Lin):
            c = self.order(a, b)
            if c is None:
                if isinstance(a, (Lin, K)) and isinstance(b, (Lin, K)):
                    return None
                return False if not isinstance(a, Atom) and not isinstance(b, Atom) else None
            return c == 0
        if isinstance(a, Atom) or isinstance(b, Atom):
            if isinstance(a, Atom) and isinstance(b, Atom):
                return a.name == b.name
            return None
        if isinstance(a, View) or isinstance(b, View):
            return self._set_same(a, b)
        if isinstance(a, (Tup, Lst)) and type(a) is type(b):
            return self._seq_same(a.items, b.items)
        if isinstance(a, SetV) and isinstance(b, SetV):
            return self._set_same(a, b)
        if isinstance(a, Inst) or isinstance(b, Inst):
            ta = isinstance(a, Tup) or isinstance(a, Inst) and is_namedtuple(a.cls)
            tb = isinstance(b, Tup) or isinstance(b, Inst) and is_namedtuple(b.cls)
            if ta and tb and not any(isinstance(x, Inst) and x.cls.find("__eq__") is not None
                                     for x in (a, b)):
                return self._seq_same(self.iterate(a), self.iterate(b))
            for x, y in ((a, b), (b, a)):
                f = x.cls.find("__eq__") if isinstance(x, Inst) else None
                if f is not None:
                    r = self.call(Fn(f, x), [y], {})
                    if not _not_impl(r):
                        return self.truth3(r)
            if isinstance(a, Inst) and isinstance(b, Inst) and a.cls is b.cls and \
                    _dataclass(a.cls).get("eq", True) and _dataclass(a.cls):
                return self._seq_same(*[[o.fields[k] for k, _ in self.dc_fields(o.cls)]
                                        for o in (a, b)])
            return False
        if isinstance(a, Cls) and isinstance(b, Cls):
            return a.cls is b.cls
        if isinstance(a, Ext) and isinstance(b, Ext):
            return a.dotted == b.dotted
        if isinstance(a, Fn) and isinstance(b, Fn):
            return a.f is b.f and a.self is b.self
        if isinstance(a, Txt) and isinstance(b, Txt):
            return True if self._txt_eq(a, b) else None
        if isinstance(a, Txt) or isinstance(b, Txt):
            o = b if isinstance(a, Txt) else a
            if isinstance(o, K) and isinstance(o.v, str):
                return None
            return False
        if isinstance(a, Dct) and isinstance(b, Dct):
            if len(a.items) != len(b.items):
                return False
            r = True
            for k, v in a.items:
                o = self.dget(b, k)
                if o is None:
                    return False
                s = self.same(v, o)
                if s is False:
                    return False
                if s is None:
                    r = None
            return r
        return False

    def _set_same(self, a, b):
        if not isinstance(a, (View, SetV)) or not isinstance(b, (View, SetV)):
            return False
        x, y = a.items, b.items
        if len(x) != len(y):
            return False
        rs = [[self.same(p, q) for q in y] for p in x]
        if all(any(r is True for r in row) for row in rs):
            return True
        return None if any(r is None for row in rs for r in row) else False

    def _txt_eq(self, a, b):
        if len(a.parts) != len(b.parts):
            return False
        for x, y in zip(a.parts, b.parts):
            if isinstance(x, str) or isinstance(y, str):
                if x != y:
                    return False
            elif self.same(x, y) is not True:
                return False
        return True

    def _seq_same(self, xs, ys):
        if len(xs) != len(ys):
            return False
        r = True
        for x, y in zip(xs, ys):
            s = self.same(x, y)
            if s is False:
                return False
            if s is None:
                r = None
        return r

    def order(self, a, b):
        """sign of a-b for integers, or None"""
        def lin(v):
            if isinstance(v, Lin):
                return v
            if isinstance(v, K) and isinstance(v.v, (int, bool)):
                return int(v.v)
            if isinstance(v, K) and isinstance(v.v, float):
                return v.v
            return None
        x, y = lin(a), lin(b)
        if x is None or y is None:
            return None
        if not isinstance(x, Lin) and not isinstance(y, Lin):
            return (x > y) - (x < y)
        if isinstance(x, Lin) and isinstance(y, Lin):
            if x.sym == y.sym and x.a == y.a:
                return (x.k > y.k) - (x.k < y.k)
            return None
        if not isinstance(x, Lin):
            r = self.order(b, a)
            return None if r is None else -r
        # Lin against constant: n is in the interior of the range
        if abs(x.a) == 1 and abs(x.k) < SLACK:
            if y <= INT_MIN + SLACK:
                return 1
            if y >= INT_MAX - SLACK:
                return -1
        return None

    def compare(self, op, a, b):
        if op is ast.Is or op is ast.IsNot:
            r = self.identical(a, b)
            if r is None:
                r = self.choose("is", ("is", id(a), id(b)))
            return r if op is ast.Is else not r
        if op is ast.In or op is ast.NotIn:
            r = self.contains(b, a)
            return r if op is ast.In else not r
        if op in (ast.Eq, ast.NotEq):
            r = self.same(a, b)
            if r is None:
                r = self.choose("%r == %r" % (a, b), self._ck("eq", a, b))
            return r if op is ast.Eq else not r
        c = self.order(a, b)
        if c is None and isinstance(a, K) and isinstance(b, K):
            try:
                c = (a.v > b.v) - (a.v < b.v)
            except TypeError:
                raise AbsRaise(Ext("builtins.TypeError"))
        if c is None and not isinstance(a, (Top, Atom, Lin, Txt)) and not isinstance(
                b, (Top, Atom, Lin, Txt)):
            return self._compare_objects(op, a, b)
        if c is None:
            r = self._sign_choice(a, b)
            c = r
        return {ast.Lt: c < 0, ast.LtE: c <= 0, ast.Gt: c > 0, ast.GtE: c >= 0}[op]

    def _compare_objects(self, op, a, b):
        if isinstance(a, Enum) and isinstance(b, (Enum, K)) or isinstance(b, Enum) and \
                isinstance(a, K):
            xs = [x.value if isinstance(x, Enum) and self.int_enum(x.cls) else x
                  for x in (a, b)]
            if all(isinstance(x, (K, Lin)) for x in xs):
                return self.compare(op, *xs)
        seqs = [self.iterate(x) if isinstance(x, (Tup, Lst)) and not isinstance(x, (Itr, View))
                or isinstance(x, Inst) and (is_namedtuple(x.cls) or isinstance(
                    x.fields.get("%base"), Lst)) else None for x in (a, b)]
        if seqs[0] is not None and seqs[1] is not None and \
                isinstance(a, Lst) == isinstance(b, Lst):
            for x, y in zip(*seqs):
                if not self.compare(ast.Eq, x, y):
                    return self.compare(op, x, y)
            return self.compare(op, K(len(seqs[0])), K(len(seqs[1])))
        if isinstance(a, (SetV, View)) and isinstance(b, (SetV, View)):
            sub = {ast.LtE: (a, b), ast.Lt: (a, b), ast.GtE: (b, a), ast.Gt: (b, a)}[op]
            inc = all(self.contains(sub[1], x) for x in sub[0].items)
            return inc and (op in (ast.LtE, ast.GtE) or
                            len(sub[0].items) < len(sub[1].items))
        if isinstance(a, CmpKey) and isinstance(b, CmpKey):
            return self.compare(op, self.call(a.fn, [a.v, b.v], {}), K(0))
        names = {ast.Lt: ("__lt__", "__gt__"), ast.Gt: ("__gt__", "__lt__"),
                 ast.LtE: ("__le__", "__ge__"), ast.GtE: ("__ge__", "__le__")}[op]
        for x, y, n in ((a, b, names[0]), (b, a, names[1])):
            if not isinstance(x, (Inst, Enum)):
                continue
            f = x.cls.find(n)
            if f is not None:
                r = self.call(Fn(f, x), [y], {})
                if not _not_impl(r):
                    return self.truth(r)
        if isinstance(a, Inst) and isinstance(b, Inst) and a.cls is b.cls:
            dc = _dataclass(a.cls)
            if dc.get("order"):
                return self.compare(op, *[Tup([o.fields[k] for k, _ in self.dc_fields(o.cls)])
                                          for o in (a, b)])
            if any(_dotted(d).split(".")[-1] == "total_ordering"
                   for d in a.cls.node.decorator_list):
                # from the one comparison that is there, and ==
                if a.cls.find("__lt__") is not None:
                    lt = self.compare(ast.Lt, a, b)
                    if op is ast.LtE:
                        return lt or self.compare(ast.Eq, a, b)
                    if op is ast.GtE:
                        return not lt
                    return not lt and not self.compare(ast.Eq, a, b)
                for n, o in (("__le__", ast.LtE), ("__gt__", ast.Gt), ("__ge__", ast.GtE)):
                    if a.cls.find(n) is not None:
                        eq = self.compare(ast.Eq, a, b)
                        if eq:
                            return op in (ast.LtE, ast.GtE)
                        less = self.compare(o, a, b) == (o is ast.LtE)
                        return less == (op in (ast.Lt, ast.LtE))
        raise AbsRaise(Ext("builtins.TypeError"))

    def less(self, a, b):
        return self.compare(ast.Lt, a, b)

    def int_enum(self, c):
        return any(str(getattr(b, "dotted", "")).split(".")[-1] in ("IntEnum", "IntFlag", "int")
                   for b in c.external_bases())

    def _sign_choice(self, a, b):
        k = self._ck("ord", a, b)
        if k is not None and k in self.known:
            return self.known[k]
        lt = self.choose("%r < %r" % (a, b))
        c = -1 if lt else (0 if self.choose("%r == %r" % (a, b)) else 1)
        if k is not None:
            self.known[k] = c
            self.known[(k[0], k[2], k[1])] = -c
        return c

    def _ck(self, kind, a, b):
        def key(v):
            if isinstance(v, K):
                return ("k", repr(v.v))
            if isinstance(v, Lin):
                return v.key()
            return id(v)
        return (kind, key(a), key(b))

    def identical(self, a, b):
        if a is b:
            return True
        if isinstance(a, Top) or isinstance(b, Top):
            return None
        if isinstance(a, K) and isinstance(b, K):
            if a.v is None or b.v is None or isinstance(a.v, bool) or isinstance(b.v, bool):
                return a.v is b.v
            return None if a.v == b.v and type(a.v) is type(b.v) else False
        if isinstance(a, (Enum, Cls, Fn, Atom, Ext)) and type(a) is type(b):
            return self.same(a, b)
        if isinstance(a, Atom) or isinstance(b, Atom):
            if any(isinstance(x, Atom) and x.attrs.get("unique") for x in (a, b)):
                return False
            o = b if isinstance(a, Atom) else a
            at = a if isinstance(a, Atom) else b
            if isinstance(o, K) and o.v is None and at.cls is not None:
                return False
            return None
        return False

    def contains(self, c, x):
        if isinstance(c, K) and isinstance(c.v, str):
            if isinstance(x, K):
                if not isinstance(x.v, str):
                    raise AbsRaise(Ext("builtins.TypeError"))
                return x.v in c.v
            return self.choose("in")
        if isinstance(c, Txt):
            if isinstance(x, K) and any(isinstance(p, str) and x.v in p for p in c.parts):
                return True
            return self.choose("in")
        if isinstance(c, K) and isinstance(c.v, (tuple, frozenset)):
            return isinstance(x, K) and x.v in c.v
        if isinstance(c, Dct):
            return self.dget(c, x) is not None
        if isinstance(c, Inst):
            f = c.cls.find("__contains__")
            if f is not None:
                return self.truth(self.call(Fn(f, c), [x], {}))
            if isinstance(c.fields.get("%base"), Dct):
                return self.dget(c.fields["%base"], x) is not None
        if isinstance(c, HCM) and "__contains__" in c.attrs:
            return self.truth(self.call(c.attrs["__contains__"], [x], {}))
        unk = False
        for i in self.iter_of(c):
            s = self.same(i, x)
            if s:
                return True
            if s is None:
                unk = True
        if unk:
            return self.choose("in")
        return False

    # -- containers -------------------------------------------------------
    def dget(self, d, k):
        for kk, v in d.items:
            s = self.same(kk, k)
            if s is None:
                raise Undecided("dict key")
            if s:
                return v
        return None

    def dset(self, d, k, v):
        for it in d.items:
            s = self.same(it[0], k)
            if s is None:
                raise Undecided("dict key")
            if s:
                it[1] = v
                return
        d.items.append([k, v])

    def iterate(self, v):
        if isinstance(v, SetV) and self.sets_backwards and not all(
                isinstance(x, K) and isinstance(x.v, int) for x in v.items):
            return v.items[::-1]
        if isinstance(v, Itr):
            return v.take()
        if isinstance(v, (Tup, Lst, SetV)):
            return list(v.items)
        if isinstance(v, Dct):
            return [k for k, _ in v.items]
        if isinstance(v, K) and isinstance(v.v, (str, tuple, range, list, bytes)):
            return [K(x) for x in v.v]
        if isinstance(v, Inst):
            f = v.cls.find("__iter__")
            if is_namedtuple(v.cls) and f is None:
                return list(v.fields.values())
            if "%base" in v.fields and f is None:
                return self.iterate(v.fields["%base"])
            return list(self._each_of(v))
        if isinstance(v, Cls):
            ms = self.cx.vals.members(v.cls) if self.cx.vals.is_enum(v.cls) else None
            if ms is not None:
                return [self.enum(v.cls, m) for m in ms]
        if isinstance(v, HCM) and "__iter__" in v.attrs:
            return self.iterate(self.call(v.attrs["__iter__"], [], {}))
        if isinstance(v, (K, Fn, Lam, Part, Py, Enum)):
            raise AbsRaise(Ext("builtins.TypeError"))
        raise Undecided("iterate %r" % (v,))

    def _each_of(self, v):
        """The elements of an instance, through its methods."""
        f = v.cls.find("__iter__")
        if f is not None:
            r = self.call(Fn(f, v), [], {})
            if isinstance(r, Inst) and r.cls.find("__next__") is not None:
                yield from self._nexts(r)
            else:
                yield from self.iter_of(r)
        elif v.cls.find("__getitem__") is not None:
            i = 0
            while True:
                try:
                    x = self.call(Fn(v.cls.find("__getitem__"), v), [K(i)], {})
                except AbsRaise as e:
                    if e.name == "IndexError":
                        return
                    raise
                yield x
                i += 1
        elif v.cls.external_bases():
            raise Undecided("iterate %r" % (v,))
        else:
            raise AbsRaise(Ext("builtins.TypeError"))

    def _nexts(self, v):
        f = Fn(v.cls.find("__next__"), v)
        while True:
            try:
                x = self.call(f, [], {})
            except AbsRaise as e:
                if e.name == "StopIteration":
                    return
                raise
            yield x

    def iter_of(self, v):
        """A host iterator over the elements, as Python would get them."""
        if isinstance(v, Itr):
            return v.each()
        if isinstance(v, (View, Dct, SetV)):
            return self._each_item(v)
        if isinstance(v, Lst):
            return self._each_index(v)
        if isinstance(v, Inst) and not is_namedtuple(v.cls):
            if "%base" in v.fields and v.cls.find("__iter__") is None:
                return self.iter_of(v.fields["%base"])
            return self._each_of(v)
        return iter(self.iterate(v))

    def _each_index(self, v):
        i = 0
        while i < len(v.items):
            yield v.items[i]
            i += 1

    def _each_item(self, v):
        its = self.iterate(v)
        c = v.d if isinstance(v, View) else v
        for x in its:
            yield x
            if len(c.items) != len(its):
                raise AbsRaise(Ext("builtins.RuntimeError"))

    def enum(self, cls, name):
        r = self._enums.get((cls, name))
        if r is None:
            r = self._enums[(cls, name)] = self._enum(cls, name)
        return r

    def _enum(self, cls, name):
        e = None
        for c in cls.mro():
            if name in c.attrs:
                e = c.attrs[name]
                owner = c
                break
        val = Top("enum")
        if isinstance(e, ast.Call) and _dotted(e.func).split(".")[-1] == "auto" and not e.args:
            last = 0
            for m in self.cx.vals.members(cls) or ():
                if m == name:
                    break
                v = self.enum(cls, m).value
                if isinstance(v, K) and isinstance(v.v, int):
                    last = max(last, v.v)
            val = K(last + 1)
        elif e is not None and not isinstance(e, ast.ClassDef):
            try:
                val = self.ev(e, Frame(None, owner.module, {}, cls=owner))
            except (Undecided, AbsRaise):
                pass
        return Enum(cls, name, val)

    # -- names ------------------------------------------------------------
    def name(self, n, fr):
        f = fr
        while f is not None:
            if n in f.glob:
                return self.glob(f.module, n)
            if n in f.env:
                return f.env[n]
            if f.func is not None and n in f.func.local_names() and f.parent is None \
                    and n not in f.func.nested:
                r = self.repo.resolve_name(n, f.func)
                if isinstance(r, tuple) and r[0] == "local":
                    if f is fr:
                        raise AbsRaise(Ext("builtins.UnboundLocalError"))
                    raise Undecided("unbound %s" % n)
                return self.entity(r, n)
            f = f.parent
        if n == "__file__":
            return K("/pkg/" + fr.module.rel)
        if n == "__name__":
            return K(fr.module.name)
        r = None
        if fr.func is not None:
            r = self.repo.resolve_name(n, fr.func)
            if isinstance(r, tuple) and r[0] == "local":
                r = self.repo.resolve_global(fr.module, n)
        if r is None:
            r = self.repo.resolve_name(n, fr.module)
        return self.entity(r, n)

    def entity(self, r, n=""):
        if isinstance(r, FuncInfo):
            return self._made.get(r) or self.decorated(r)
        if isinstance(r, ClassInfo):
            return self.made_class(r)
        if isinstance(r, Module):
            return Mod(r)
        if isinstance(r, External):
            if r.dotted == "builtins.None":
                return NONE
            return self.ext(r.dotted)
        if isinstance(r, tuple) and r[0] == "var":
            return self.glob(self.repo.modules[r[1]], r[2])
        if isinstance(r, tuple) and r[0] == "classattr":
            return self.cls_attr(r[1], r[2])
        return Top("name %s" % n)

    _EXTK = {"math.inf": float("inf"), "math.pi": 3.141592653589793,
             "string.digits": "0123456789",
             "string.ascii_letters": "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ",
             "string.hexdigits": "0123456789abcdefABCDEF",
             "typing.TYPE_CHECKING": False, "os.pardir": "..", "os.curdir": ".", "os.sep": "/"}

    def ext(self, dotted):
        if dotted in self._EXTK:
            return K(self._EXTK[dotted])
        return Ext(dotted)

    def decorated(self, f, self_=None, env=None):
        """A function as its name refers to it (decorators applied)."""
        return Fn(f, self_, env)

    def glob(self, m, n):
        key = (m.name, n)
        if key in self.globals:
            return self.globals[key]
        if m.name not in self.globals:
            self.globals[m.name] = True
            fr = Frame(None, m, _GlobEnv(self, m))
            for st in m.tree.body:
                if isinstance(st, (ast.Import, ast.ImportFrom, ast.ClassDef)) or (
                        isinstance(st, ast.FunctionDef) and not self._registers(st, m)):
                    continue
                try:
                    if isinstance(st, ast.FunctionDef):
                        v = Fn(self.repo.func_of(st), None, None, True)
                        for d in reversed(st.decorator_list):
                            v = self.call(self.ev(d, fr), [v], {})
                        continue
                    self.stmt(st, fr)
                except (Undecided, AbsRaise):
                    for x in ast.walk(st):
                        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                            self.globals.setdefault((m.name, x.id), Top(x.id))
            if key in self.globals:
                return self.globals[key]
        return self.globals.get(key, Top("global %s" % n))

    def _registers(self, st, m):
        """Is a module-level function passed to a function of the same module by its
        decorators (which may keep it in a table)?"""
        if self.opaque_modules:
            return False
        own = {x.name for x in m.tree.body if isinstance(x, ast.FunctionDef)}
        return any(_dotted(d.func if isinstance(d, ast.Call) else d) in own
                   for d in st.decorator_list)

    # -- calls ------------------------------------------------------------
    def call(self, fn, args, kw):
        self.fuel -= 1
        if self.fuel < 0:
            raise Undecided("too long")
        if isinstance(fn, Py):
            return fn.fn(self, args, kw)
        if isinstance(fn, Fn):
            return self.call_fn(fn, args, kw)
        if isinstance(fn, Part):
            k = dict(fn.kw)
            k.update(kw)
            return self.call(fn.fn, list(fn.args) + list(args), k)
        if isinstance(fn, Cls):
            return self.instantiate(fn.cls, args, kw)
        if isinstance(fn, Bound):
            return self.bound(fn.obj, fn.name, args, kw)
        if isinstance(fn, Ext):
            return self.call_ext(fn.dotted, args, kw)
        if isinstance(fn, Lam):
            env = self._lambda_env(fn, list(args), dict(kw))
            fr = Frame(fn.frame.func, fn.frame.module, env, fn.frame, fn.frame.cls)
            return self.ev(fn.node.body, fr)
        if isinstance(fn, Inst):
            f = fn.cls.find("__call__")
            if f is not None:
                return self.call(Fn(f, fn), args, kw)
        if isinstance(fn, HCM) and "__call__" in fn.attrs:
            return self.call(fn.attrs["__call__"], args, kw)
        if isinstance(fn, (K, Tup, Lst, Dct, SetV, Txt)):
            raise AbsRaise(Ext("builtins.TypeError"))
        return self.unknown_call(fn, args, kw)

    def _lambda_env(self, fn, args, kw):
        A = fn.node.args
        env, ps = {}, [p.arg for p in A.posonlyargs + A.args]
        bad = AbsRaise(Ext("builtins.TypeError"))
        for i, p in enumerate(ps):
            if args:
                if p in kw and i >= len(A.posonlyargs):
                    raise bad
                env[p] = args.pop(0)
            elif p in kw and i >= len(A.posonlyargs):
                env[p] = kw.pop(p)
            elif p in fn.defaults:
                env[p] = fn.defaults[p]
            else:
                raise bad
        if args and not A.vararg:
            raise bad
        if A.vararg:
            env[A.vararg.arg] = Tup(args)
        for p in A.kwonlyargs:
            if p.arg in kw:
                env[p.arg] = kw.pop(p.arg)
            elif p.arg in fn.defaults:
                env[p.arg] = fn.defaults[p.arg]
            else:
                raise bad
        if A.kwarg:
            env[A.kwarg.arg] = Dct([[K(k), v] for k, v in kw.items()])
        elif kw:
            raise bad
        return env

    def _defaults(self, A, fr):
        """Values of the defaults of a lambda or a nested function."""
        out = {}
        ps = [p.arg for p in A.posonlyargs + A.args]
        for p, d in zip(ps[len(ps) - len(A.defaults):], A.defaults):
            out[p] = self.ev(d, fr)
        for p, d in zip(A.kwonlyargs, A.kw_defaults):
            if d is not None:
                out[p.arg] = self.ev(d, fr)
        return out

    def unknown_call(self, fn, args, kw):
        return Top("call")

    def hook_for(self, f):
        if f in self.hooks:
            return self.hooks[f]
        t = getattr(f, "target", None)
        if t is not None and t in self.hooks:
            return self.hooks[t]
        return None

    def call_fn(self, fn, args, kw, no_hook=False):
        f = fn.f
        if not no_hook:
            h = self.hook_for(f)
            if h is not None:
                return h(self, fn, args, kw)
        if isinstance(f, PartialFunc):
            k = {}
            fixed_frame = Frame(None, f.cls.module, {}, cls=f.cls)
            for name, e in f.fixed.items():
                k[name] = self.ev(e, fixed_frame)
            # fixed arguments come right after self
            order = [p.name for p in f.target.params]
            pos = [fn.self] if fn.self is not None else []
            rest = list(args)
            if fn.self is None and rest:
                pos = [rest.pop(0)]
            kws = dict(kw)
            for p in order[len(pos):]:
                if p in k:
                    pos.append(k.pop(p))
                else:
                    break
            pos += rest
            kws.update({a: b for a, b in k.items() if a not in kws})
            return self.call_fn(Fn(f.target), pos, kws)
        decs = [d for d in f.decorator_names() if d]
        if not fn.raw and decs and any(d.split(".")[-1] in ("lru_cache", "cache")
                                       for d in decs):
            return self._memo(fn, args, kw)
        # non-trivial decorators: apply the decorator abstractly
        if not fn.raw:
            wrap = [d for d in getattr(f.node, "decorator_list", ())
                    if not self._transparent(d, f)]
            if wrap:
                v = Fn(f, None, fn.env, True)
                fr = Frame(f.parent, f.module, {}, fn.env, f.cls)
                for d in reversed(wrap):
                    v = self.call(self.ev(d, fr), [v], {})
                a = ([fn.self] if fn.self is not None else []) + list(args)
                return self.call(v, a, kw)
        if self.depth > self.depth0:
            raise Undecided("call depth")
        self.used.add(getattr(f, "original", f))
        if fn.env is None and getattr(f, "closure", None) is not None:
            fn = Fn(f, fn.self, f.closure, fn.raw)
        env = {}
        self.bind_args(f, ([fn.self] if fn.self is not None else []) + list(args), kw, env, fn)
        fr = Frame(f, f.module, env, fn.env, f.cls or (fn.env.cls if fn.env else None))
        self.depth += 1
        try:
            if _is_gen(f.node):
                g = self.generator(f, fr)
                if "contextmanager" in [d.split(".")[-1] for d in decs]:
                    return self.gen_cm(g)
                return g
            try:
                if isinstance(f.node, ast.Lambda):
                    return self.ev(f.node.body, fr)
                self.block(f.node.body, fr)
            except _Ret as r:
                return r.v
            return NONE
        finally:
            self.depth -= 1

    def _memo(self, fn, args, kw):
        key = ("memo", id(fn.f.node), id(fn.env))
        kept = self.globals.setdefault(key, [])
        want = [x for x in ([fn.self] if fn.self is not None else []) + list(args)] + [
            Tup([K(n), v]) for n, v in sorted(kw.items())]
        for have, v in kept:
            if len(have) == len(want) and all(
                    self.same(x, y) is True for x, y in zip(have, want)):
                return v
        v = self.call_fn(Fn(fn.f, fn.self, fn.env, True), args, kw)
        kept.append((want, v))
        return v

    # -- generators -------------------------------------------------------
    def generator(self, f, fr):
        fr.run = self.trace
        return Itr(self._resumed(self.gen_body(f, fr)))

    def _resumed(self, g):
        """Run a generator's body at the depth of whoever resumes it."""
        while True:
            self.depth += 1
            if self.depth > self.depth0 + 20:
                self.depth -= 1
                raise Undecided("call depth")
            cur = getattr(self, "cur", None)
            try:
                x = next(g)
            except StopIteration as e:
                return e.value
            finally:
                self.depth -= 1
                self.cur = cur
            try:
                yield x
            except AbsRaise as e:
                self.depth += 1
                try:
                    x = g.throw(e)
                except StopIteration as r:
                    return r.value
                finally:
                    self.depth -= 1
                yield x

    def gen_body(self, f, fr):
        try:
            yield from self.gblock(f.node.body, fr)
        except _Ret as r:
            return r.v
        return NONE

    def gblock(self, body, fr):
        for st in body:
            if _has_yield(st):
                self.fuel -= 1
                if self.fuel < 0:
                    raise Undecided("too long")
                yield from self.gstmt(st, fr)
            else:
                self.stmt(st, fr)

    def gexpr(self, e, fr):
        if isinstance(e, ast.Yield):
            if e.value is not None and _has_yield(e.value):
                v = yield from self.gexpr(e.value, fr)
            else:
                v = self.ev(e.value, fr) if e.value is not None else NONE
            r = yield v
            return r if isinstance(r, Val) else NONE
        if isinstance(e, ast.YieldFrom):
            src = self.ev(e.value, fr)
            it = self.iter_of(src)
            if isinstance(src, Itr):
                while True:
                    try:
                        x = src.pull()
                    except StopIteration:
                        return src.ret
                    yield x
            for x in it:
                yield x
            return NONE
        if _has_yield(e):
            raise Undecided("yield in an expression")
        return self.ev(e, fr)

    def gstmt(self, st, fr):
        if isinstance(st, ast.Expr):
            yield from self.gexpr(st.value, fr)
        elif isinstance(st, ast.Assign):
            v = yield from self.gexpr(st.value, fr)
            for t in st.targets:
                self.assign(t, v, fr)
        elif isinstance(st, ast.AnnAssign):
            self.assign(st.target, (yield from self.gexpr(st.value, fr)), fr)
        elif isinstance(st, ast.Return):
            raise _Ret((yield from self.gexpr(st.value, fr)))
        elif isinstance(st, ast.If) and not _has_yield(st.test):
            t = self.truth(self.ev(st.test, fr), st.test)
            yield from self.gblock(st.body if t else st.orelse, fr)
        elif isinstance(st, ast.While) and not _has_yield(st.test):
            n = 0
            while self.truth(self.ev(st.test, fr), st.test):
                n += 1
                if n > 4000:
                    raise Undecided("endless loop")
                try:
                    yield from self.gblock(st.body, fr)
                except _Brk:
                    return
                except _Cont:
                    continue
            yield from self.gblock(st.orelse, fr)
        elif isinstance(st, ast.For) and not _has_yield(st.iter):
            for x in self.iter_of(self.ev(st.iter, fr)):
                self.assign(st.target, x, fr)
                try:
                    yield from self.gblock(st.body, fr)
                except _Brk:
                    return
                except _Cont:
                    continue
            yield from self.gblock(st.orelse, fr)
        elif isinstance(st, ast.With):
            yield from self.gwith(st.items, st.body, fr)
        elif isinstance(st, ast.Try):
            yield from self.gtry(st, fr)
        else:
            raise Undecided("yield in %s" % type(st).__name__)

    def gtry(self, st, fr):
        try:
            try:
                yield from self.gblock(st.body, fr)
            except AbsRaise as e:
                for h in st.handlers:
                    if self._handles(h, e, fr):
                        break
                else:
                    raise
                old = self._bind_exc(h, e, fr)
                try:
                    yield from self.gblock(h.body, fr)
                finally:
                    self._unbind_exc(h, old, fr)
            else:
                yield from self.gblock(st.orelse, fr)
        except Undecided:
            raise
        except (AbsRaise, _Ret, _Brk, _Cont):
            yield from self.gblock(st.finalbody, fr)
            raise
        except GeneratorExit:
            if fr.run is self.trace and not any(_has_yield(x) for x in st.finalbody):
                self.block(st.finalbody, fr)
            raise
        else:
            yield from self.gblock(st.finalbody, fr)

    def gwith(self, items, body, fr):
        if not items:
            yield from self.gblock(body, fr)
            return
        cm = self.ev(items[0].context_expr, fr)
        v = self.cm_enter(cm)
        if items[0].optional_vars is not None:
            self.assign(items[0].optional_vars, v, fr)
        try:
            yield from self.gwith(items[1:], body, fr)
        except AbsRaise as e:
            if self.cm_exit(cm, e):
                return
            raise
        except (_Ret, _Brk, _Cont, GeneratorExit):
            if fr.run is self.trace:
                self.cm_exit(cm, None)
            raise
        self.cm_exit(cm, None)

    def gen_cm(self, g):
        def enter():
            try:
                return g.pull()
            except StopIteration:
                raise AbsRaise(Ext("builtins.RuntimeError"))

        def leave(exc):
            try:
                if exc is None:
                    g.pull()
                else:
                    g.src.throw(exc)
            except StopIteration:
                return exc is not None
            except AbsRaise as e:
                if e is exc:
                    return False
                raise
            raise AbsRaise(Ext("builtins.RuntimeError"))
        return HCM(enter, leave)

    def cm_enter(self, cm):
        if isinstance(cm, HCM) and cm.enter is not None:
            return cm.enter()
        if isinstance(cm, Inst):
            en = cm.cls.find("__enter__")
            if en is not None and cm.cls.find("__exit__") is not None:
                return self.call(Fn(en, cm), [], {})
        if isinstance(cm, Atom) and "__exit__" in cm.attrs:
            return cm
        return Top("with")

    def cm_exit(self, cm, exc):
        """Does the manager swallow the exception?"""
        if isinstance(cm, HCM) and cm.exit is not None:
            return cm.exit(exc)
        if isinstance(cm, Inst):
            ex = cm.cls.find("__exit__")
            if ex is None or cm.cls.find("__enter__") is None:
                return False
            a = [NONE, NONE, NONE] if exc is None else [
                self.b_type([exc.val], {}), exc.val, Top("traceback")]
            if exc is not None and isinstance(exc.val, Ext):
                a[0] = exc.val
            return self.truth(self.call(Fn(ex, cm), a, {})) and exc is not None
        if isinstance(cm, Atom) and "__exit__" in cm.attrs:
            self.call(cm.attrs["__exit__"], [NONE, NONE, NONE], {})
        return False

    def _transparent(self, d, f):
        e = d.func if isinstance(d, ast.Call) else d
        n = _dotted(e).split(".")[-1]
        return n in ("staticmethod", "classmethod", "property", "abstractmethod",
                     "contextmanager", "setter", "wraps", "lru_cache", "cache", "overload",
                     "cached_property", "final", "override")

    def bind_args(self, f, args, kw, env, fn):
        kw = dict(kw)
        args = list(args)
        scope = Frame(None, f.module, {}, fn.env, f.cls)
        for p in f.params:
            if p.kind in ("pos", "posonly"):
                if args:
                    env[p.name] = args.pop(0)
                    if p.name in kw:
                        raise AbsRaise(Ext("builtins.TypeError"))
                elif p.name in kw and p.kind == "pos":
                    env[p.name] = kw.pop(p.name)
                elif p.default is not None:
                    env[p.name] = self.default(f, p, fn, scope)
                else:
                    raise AbsRaise(Ext("builtins.TypeError"))
            elif p.kind == "vararg":
                env[p.name] = Tup(args)
                args = []
            elif p.kind == "kw":
                if p.name in kw:
                    env[p.name] = kw.pop(p.name)
                elif p.default is not None:
                    env[p.name] = self.default(f, p, fn, scope)
                else:
                    raise AbsRaise(Ext("builtins.TypeError"))
            elif p.kind == "kwarg":
                env[p.name] = Dct([[K(k), v] for k, v in kw.items()])
                kw = {}
        if args or kw:
            raise AbsRaise(Ext("builtins.TypeError"))

    def default(self, f, p, fn, scope):
        """Value of a default; the same object in every call."""
        if isinstance(p.default, ast.Constant):
            return self.ev(p.default, scope)
        if fn.env is not None:
            kept = fn.env.env.get("*defaults", {}).get(id(f.node))
            if kept is not None and p.name in kept:
                return kept[p.name]
            return self.ev(p.default, scope)
        key = ("default", id(f.node), p.name)
        v = self.globals.get(key)
        if v is None:
            v = self.ev(p.default, scope)
            if isinstance(v, (Lst, Dct, SetV, Inst)):
                self.globals[key] = v
        return v

    def instantiate(self, c, args, kw):
        h = self.hooks.get(c)
        if h is not None:
            return h(self, c, args, kw)
        if self.cx.vals.is_enum(c):
            known = True
            for m in self.cx.vals.members(c) or ():
                e = self.enum(c, m)
                if args and self.same(e.value, args[0]):
                    return e
                known = known and isinstance(e.value, K)
            if known and args and isinstance(args[0], (K, Tup, Inst, Enum)):
                f = c.find("_missing_")
                if f is not None:
                    r = self.call(Fn(f, Cls(c)), args, {})
                    if r is not NONE and not (isinstance(r, K) and r.v is None):
                        return r
                raise AbsRaise(Ext("builtins.ValueError"), "ValueError")
            raise Undecided("enum lookup")
        o = Inst(c, {})
        if is_namedtuple(c):
            names = [n for k in reversed(c.mro()) for n in k.ann]
            if len(args) > len(names):
                raise AbsRaise(Ext("builtins.TypeError"))
            for n, a in zip(names, args):
                o.fields[n] = a
            for n in names[len(args):]:
                if n in kw:
                    o.fields[n] = kw[n]
                elif n in getattr(c, "defaults", ()):
                    o.fields[n] = c.defaults[n]
                elif c.find_attr(n) is not None:
                    o.fields[n] = self.cls_attr(c, n)
                else:
                    raise AbsRaise(Ext("builtins.TypeError"))
            return o
        for b in c.external_bases():
            n = str(b.dotted).split(".")[-1]
            t = {"List": Lst, "list": Lst, "dict": Dct, "Dict": Dct, "OrderedDict": Dct,
                 "defaultdict": DDct, "Counter": DDct, "set": SetV, "Set": SetV,
                 "deque": Deq}.get(n)
            if t is not None:
                o.fields["%base"] = t([])
                if n == "Counter":
                    o.fields["%base"].kind = n
            elif n == "str":
                o.fields["%base"] = self.to_str(args[0]) if args else K("")
            elif n in ("int", "float") and all(isinstance(a, K) for a in args):
                o.fields["%base"] = K({"int": int, "float": float}[n](*[a.v for a in args]))
        init = c.find("__init__")
        if _is_exc(c):
            o.fields["args"] = Tup(args)
        if init is not None:
            self.call(Fn(init, o), args, kw)
        elif _dataclass(c):
            self._dc_init(o, c, list(args), dict(kw))
        elif "%base" in o.fields:
            self._base_init(o, args, kw)
        elif _is_exc(c):
            pass
        elif args or kw:
            if not c.external_bases():
                raise AbsRaise(Ext("builtins.TypeError"))
        return o

    def _base_init(self, o, args, kw):
        b = o.fields["%base"]
        if isinstance(b, DDct) and b.kind == "Counter":
            self.dict_method(b, "update", args, kw)
        elif isinstance(b, DDct):
            b.factory = args[0] if args and args[0] is not NONE else None
            self.dict_method(b, "update", args[1:], kw)
        elif isinstance(b, Dct):
            self.dict_method(b, "update", args, kw)
        elif isinstance(b, Lst):
            b.items.extend(self.iterate(args[0]) if args else ())
        elif isinstance(b, SetV):
            self.bound(b, "update", args, {})
        return NONE

    def dc_fields(self, c):
        """[(name, class that declares it)] of a dataclass."""
        out = {}
        for k in reversed(c.mro()):
            if _dataclass(k):
                for n in k.ann:
                    a = k.ann[n]
                    if not (isinstance(a, ast.AST) and "ClassVar" in ast.unparse(a)):
                        out[n] = k
        return list(out.items())

    def _dc_init(self, o, c, args, kw):
        bad = AbsRaise(Ext("builtins.TypeError"))
        for n, k in self.dc_fields(c):
            e = k.attrs.get(n)
            opts = {}
            if isinstance(e, ast.Call) and _dotted(e.func).split(".")[-1] == "field":
                opts = {x.arg: x.value for x in e.keywords}
                e = opts.get("default")
            scope = Frame(None, k.module, {}, cls=k)
            init = not (isinstance(opts.get("init"), ast.Constant) and not opts["init"].value)
            if init and args and not _dataclass(c).get("kw_only"):
                if n in kw:
                    raise bad
                v = args.pop(0)
            elif init and n in kw:
                v = kw.pop(n)
            elif "default_factory" in opts:
                v = self.call(self.ev(opts["default_factory"], scope), [], {})
            elif e is not None:
                v = self.cls_attr(k, n) if not opts else self.ev(e, scope)
            elif init:
                raise bad
            else:
                continue
            o.fields[n] = v
        if args or kw:
            raise bad
        f = c.find("__post_init__")
        if f is not None:
            self.call(Fn(f, o), [], {})

    def ensure_class(self, c):
        """Interpret `__init_subclass__` (it may add methods to the class)."""
        if c in self.classinit:
            return
        self.classinit.add(c)
        for k in c.mro()[1:]:
            self.ensure_class(k)
        for k in c.mro()[1:]:
            f = k.methods.get("__init_subclass__")
            if f is not None:
                self._initing += 1
                try:
                    self.call_fn(Fn(f, Cls(c)), [], {})
                except (Undecided, AbsRaise):
                    pass
                finally:
                    self._initing -= 1
                break

    def in_classinit(self):
        return self._initing > 0

    def cls_attr(self, c, n, obj=None):
        self.ensure_class(c)
        for k in c.mro():
            if (k, n) in self.clsset:
                v = self.clsset[(k, n)]
                if obj is not None and isinstance(v, (Fn,)) and v.self is None:
                    return Fn(v.f, obj, v.env, v.raw)
                return v
            if n in k.methods:
                f = k.methods[n]
                if any(d and d.split(".")[-1] in ("setter", "deleter")
                       for d in f.decorator_names()):
                    f = next((x for x in k.module.functions if x.cls is k and x.name == n
                              and x.is_property), f)
                if obj is not None and any(d and d.split(".")[-1] == "cached_property"
                                           for d in f.decorator_names()):
                    v = self.call(Fn(f, obj), [], {})
                    if isinstance(obj, Inst):
                        obj.fields[n] = v
                    return v
                if f.is_static:
                    return Fn(f)
                if f.is_classmethod:
                    return Fn(f, Cls(obj.cls if isinstance(obj, Inst) else c))
                if obj is not None:
                    if f.is_property:
                        return self.call(Fn(f, obj), [], {})
                    return Fn(f, obj)
                return Fn(f)
            if n in k.attrs:
                e = k.attrs[n]
                if isinstance(e, ast.ClassDef):
                    return Cls(self.repo.class_of(e))
                if self.cx.vals.is_enum(k) and n in (self.cx.vals.members(k) or ()):
                    return self.enum(c, n)
                f = k.find(n) if k is c else k.alias(n)
                if f is not None:
                    return Fn(f, obj)
                v = self.globals.get(("class", k.id, n))
                if v is None:
                    v = self.ev(e, Frame(None, k.module, {}, cls=k))
                    self.globals[("class", k.id, n)] = v
                return v
        return None

    # -- attributes -------------------------------------------------------
    def getattr(self, o, n):
        if isinstance(o, Inst):
            if n in o.fields:
                v = o.fields[n]
                if isinstance(v, ClsM):
                    return Part(v.fn, [o], {})
                if isinstance(o, CObj) and isinstance(v, Inst):
                    g = v.cls.find("__get__")
                    if g is not None:
                        return self.call(Fn(g, v), [NONE, o], {})
                return v
            if n == "__class__":
                return Cls(o.cls)
            if n == "__dict__":
                return Dct([[K(k), v] for k, v in o.fields.items() if k[:1] not in "%*"])
            v = self.cls_attr(o.cls, n, o)
            if v is not None:
                return v
            if is_namedtuple(o.cls) and n in ("_replace", "_asdict"):
                return Bound(o, n)
            g = o.cls.find("__getattr__")
            if g is not None:
                return self.call(Fn(g, o), [K(n)], {})
            if o.fields.get("*") is not None:
                return Top("attr %s" % n)
            if "%base" in o.fields:
                return self.getattr(o.fields["%base"], n)
            if _is_exc(o.cls) and n in ("with_traceback", "add_note"):
                return Py(lambda I, a, k: o)
            if n == "_fields" and is_namedtuple(o.cls):
                return Tup([K(x) for x in o.fields])
            if n == "__str__":
                return Py(lambda I, a, k: self.to_str(o))
            if n in ("__repr__", "__eq__", "__hash__", "__ne__"):
                return Bound(o, n)
            if o.cls.external_bases() and not all(
                    str(b.dotted).split(".")[-1] in
                    ("object", "ABC", "Exception", "NamedTuple", "Generic", "Protocol")
                    for b in o.cls.external_bases()):
                return Top("attr %s" % n)
            if n in ("__init__", "__init_subclass__"):
                return Py(lambda I, a, k: NONE)
            raise AbsRaise(Ext("builtins.AttributeError"), "AttributeError")
        if isinstance(o, Cls):
            if n in ("__name__", "__qualname__"):
                return K(o.cls.name)
            if n == "__mro__":
                return Tup([Cls(c) for c in o.cls.mro()] + [Ext("builtins.object")])
            if n == "__members__" and self.cx.vals.is_enum(o.cls):
                return Dct([[K(m), self.enum(o.cls, m)]
                            for m in self.cx.vals.members(o.cls) or ()])
            if n == "_fields" and is_namedtuple(o.cls):
                return Tup([K(x) for k in reversed(o.cls.mro()) for x in k.ann])
            if n == "_make" and is_namedtuple(o.cls):
                return Py(lambda I, a, k: I.instantiate(o.cls, I.iterate(a[0]), {}))
            if self.cx.vals.is_enum(o.cls) and n in (self.cx.vals.members(o.cls) or ()):
                return self.enum(o.cls, n)
            v = self.cls_attr(o.cls, n)
            return v if v is not None else Top("class attr %s" % n)
        if isinstance(o, Enum):
            if n == "value":
                return o.value
            if n == "name":
                return K(o.name)
            v = self.cls_attr(o.cls, n, o)
            return v if v is not None else Top("enum attr")
        if isinstance(o, Mod):
            r = self.repo.resolve_global(o.m, n)
            return self.entity(r, n)
        if isinstance(o, Ext):
            if n in ("__name__", "__qualname__"):
                return K(o.dotted.split(".")[-1])
            return self.ext(o.dotted + "." + n)
        if isinstance(o, HCM):
            if n in o.attrs:
                return o.attrs[n]
            if n == "__enter__":
                return Py(lambda I, a, k: o.enter())
            raise Undecided("attribute %s of %s" % (n, o.name))
        if isinstance(o, Native):
            if not hasattr(o.obj, n):
                raise AbsRaise(Ext("builtins.AttributeError"), "AttributeError")
            v = getattr(o.obj, n)
            if not callable(v):
                return native(v) if _plain_host(v) else Top("re")
            return Py(lambda I, a, k: o.method(n, a, k))
        if isinstance(o, Atom):
            if n in o.attrs:
                return o.attrs[n]
            if o.cls is not None:
                f = o.cls.find(n)
                if f is not None and f in self.hooks:
                    return Fn(f, o)
            if "strict" in o.attrs:
                raise AbsRaise(Ext("builtins.AttributeError"), "AttributeError")
            return Top("%s.%s" % (o.name, n))
        if isinstance(o, Super):
            mro = o.obj.cls.mro() if isinstance(o.obj, Inst) else o.obj.cls.mro()
            i = mro.index(o.cls) if o.cls in mro else -1
            for k in mro[i + 1:]:
                if n in k.methods:
                    f = k.methods[n]
                    if f.is_property:
                        return self.call(Fn(f, o.obj), [], {})
                    return Fn(f, None if f.is_static else o.obj)
                if n in k.attrs:
                    f = k.alias(n)
                    if f is not None:
                        return Fn(f, o.obj)
            if isinstance(o.obj, Inst) and any(
                    str(b.dotted).split(".")[-1] == "classmethod"
                    for b in o.obj.cls.external_bases() if isinstance(b, External)):
                if n == "__init__":
                    def wrap(I, a, k):
                        o.obj.fields["%wrapped"] = a[0]
                        return NONE
                    return Py(wrap)
                if n == "__get__":
                    return Py(lambda I, a, k: Part(o.obj.fields["%wrapped"], [a[1]], {}))
            if isinstance(o.obj, Inst) and "%base" in o.obj.fields:
                if n == "__init__":
                    return Py(lambda I, a, k: I._base_init(o.obj, a, k))
                return Bound(o.obj.fields["%base"], n)
            if n == "__init__" and isinstance(o.obj, Inst) and _is_exc(o.obj.cls):
                def init_exc(I, a, k):
                    o.obj.fields["args"] = Tup(a)
                    return NONE
                return Py(init_exc)
            if n == "__setattr__" and isinstance(o.obj, Inst):
                return Py(lambda I, a, k: o.obj.fields.__setitem__(a[0].v, a[1]) or NONE)
            if n in ("__init__", "__init_subclass__", "__post_init__"):
                return Py(lambda I, a, k: NONE)
            if n == "__new__":
                return Py(lambda I, a, k: Inst(a[0].cls, {}))
            if n in ("__str__", "__repr__") and isinstance(o.obj, Inst) and _is_exc(o.obj.cls):
                return Py(lambda I, a, k: I.exc_text(o.obj))
            if n in ("__repr__", "__eq__", "__hash__", "__ne__") and isinstance(o.obj, Inst):
                return Bound(o.obj, n)
            if n == "__getattribute__" and isinstance(o.obj, Inst):
                return Py(lambda I, a, k: I.getattr(o.obj, a[0].v))
            if isinstance(o.obj, Inst) and not n.startswith("__") and not any(
                    c.external_bases() for c in mro[i + 1:]):
                raise AbsRaise(Ext("builtins.AttributeError"), "AttributeError")
            return Top("super.%s" % n)
        if isinstance(o, Tup) and len(o.items) == 4 and isinstance(o.items[0], K) and \
                o.items[0].v == "slice" and n in ("start", "stop", "step"):
            return o.items[("start", "stop", "step").index(n) + 1]
        if isinstance(o, DDct) and n == "default_factory":
            return o.factory if o.factory is not None else NONE
        if isinstance(o, Deq) and n == "maxlen":
            return K(o.maxlen)
        if isinstance(o, (Lst, Tup, Dct, SetV, Txt)):
            t = list if type(o) in (Lst, Deq, View) else tuple if isinstance(o, Tup) else \
                dict if isinstance(o, Dct) else set if isinstance(o, SetV) else None
            if t is not None and not isinstance(o, (View, Deq, DDct)) and not hasattr(t, n) \
                    and n not in ("move_to_end",):
                raise AbsRaise(Ext("builtins.AttributeError"), "AttributeError")
            return Bound(o, n)
        if isinstance(o, K) and isinstance(o.v, (str, bytes, int, float, tuple)) \
                and not isinstance(o.v, bool):
            return Bound(o, n)
        if isinstance(o, Fn):
            if n in ("__name__", "__qualname__"):
                return K(o.f.name)
            if n == "func":
                return o
            if n == "__self__" and o.self is not None:
                return o.self
            if n == "__wrapped__":
                return Fn(o.f, o.self, o.env, True)
            if n in ("cache_clear", "cache_info"):
                return Py(lambda I, a, k: I.globals.pop(
                    ("memo", id(o.f.node), id(o.env)), None) and NONE or NONE)
            v = self.globals.get(("fnattr", id(o.f.node), n))
            if v is not None:
                return v
        if isinstance(o, K) and o.v is None:
            raise AbsRaise(Ext("builtins.AttributeError"), "AttributeError")
        if isinstance(o, K):
            return Bound(o, n)
        if isinstance(o, ExtObj):
            e = o.real()
            if n == "args":
                return Tup(list(o.args))
            if n == "__class__":
                return Ext(o.dotted)
            if e is not None and not n.startswith("__"):
                if not hasattr(e, n):
                    raise AbsRaise(Ext("builtins.AttributeError"), "AttributeError")
                v = getattr(e, n)
                if v is None or isinstance(v, (str, int)):
                    return K(v)
            return Top("ext attr")
        return Top("attr %s" % n)

    def setattr(self, o, n, v):
        if isinstance(o, Inst):
            for k in o.cls.mro():
                f = None
                for cand in k.module.functions:
                    if cand.cls is k and cand.name == n and any(
                            d.endswith(".setter") for d in cand.decorator_names()):
                        f = cand
                if f is not None:
                    self.call(Fn(f, o), [v], {})
                    return
                if n in k.methods and k.methods[n].is_property:
                    raise AbsRaise(Ext("builtins.AttributeError"), "AttributeError")
            if is_namedtuple(o.cls) or _dataclass(o.cls).get("frozen"):
                raise AbsRaise(Ext("builtins.AttributeError"), "AttributeError")
            f = o.cls.find("__setattr__")
            if f is not None:
                self.call(Fn(f, o), [K(n), v], {})
                return
            o.fields[n] = v
        elif isinstance(o, Atom):
            o.attrs[n] = v
        elif isinstance(o, Fn):
            self.globals[("fnattr", id(o.f.node), n)] = v
        elif isinstance(o, (Lst, Dct, SetV, Tup)):
            raise AbsRaise(Ext("builtins.AttributeError"), "AttributeError")
        elif isinstance(o, Cls):
            if self.in_classinit():
                self.clsset[(o.cls, n)] = v
            else:
                self.globals[("class", o.cls.id, n)] = v

    def subscript(self, o, k):
        if isinstance(k, K) and isinstance(k.v, slice):
            k = Tup([K("slice"), K(k.v.start), K(k.v.stop), K(k.v.step)])
        if isinstance(o, Dct):
            v = self.dget(o, k)
            if v is None and isinstance(o, DDct):
                if o.kind == "Counter":
                    return K(0)
                if o.factory is not None:
                    v = self.call(o.factory, [], {})
                    self.dset(o, k, v)
                    return v
            if v is None:
                raise AbsRaise(ExtObj("builtins.KeyError", [k]))
            return v
        if isinstance(o, (Itr, View, SetV)):
            raise AbsRaise(Ext("builtins.TypeError"))
        if isinstance(o, (Lst, Tup)):
            if isinstance(k, Tup) and len(k.items) == 4:     # slice marker
                if isinstance(o, Deq):
                    raise AbsRaise(Ext("builtins.TypeError"))
                return type(o)(o.items[self._slice(k)])
            if isinstance(k, Enum) and self.int_enum(k.cls):
                k = k.value
            if isinstance(k, K) and not isinstance(k.v, int):
                raise AbsRaise(Ext("builtins.TypeError"))
            if isinstance(k, K) and isinstance(k.v, int):
                try:
                    return o.items[k.v]
                except IndexError:
                    raise AbsRaise(Ext("builtins.IndexError"))
            raise Undecided("index")
        if isinstance(o, K) and isinstance(o.v, (str, tuple, bytes)):
            if isinstance(k, Tup) and len(k.items) == 4:
                return K(o.v[self._slice(k)])
            if isinstance(k, K):
                try:
                    return K(o.v[k.v])
                except IndexError:
                    raise AbsRaise(Ext("builtins.IndexError"))
        if isinstance(o, Inst):
            f = o.cls.find("__getitem__")
            if f is not None:
                return self.call(Fn(f, o), [k], {})
            if is_namedtuple(o.cls):
                return self.subscript(Tup(list(o.fields.values())), k)
            if "%base" in o.fields:
                b = o.fields["%base"]
                m = o.cls.find("__missing__")
                if isinstance(b, Dct) and m is not None and self.dget(b, k) is None:
                    return self.call(Fn(m, o), [k], {})
                return self.subscript(b, k)
            if not o.cls.external_bases() and o.fields.get("*") is None:
                raise AbsRaise(Ext("builtins.TypeError"))
        if isinstance(o, Cls):
            ms = self.cx.vals.members(o.cls) if self.cx.vals.is_enum(o.cls) else None
            if ms is not None and isinstance(k, K) and k.v in ms:
                return self.enum(o.cls, k.v)
            return o
        if isinstance(o, Ext):
            return o
        if isinstance(o, HCM) and "__getitem__" in o.attrs:
            return self.call(o.attrs["__getitem__"], [k], {})
        if isinstance(o, Native):
            return o.method("__getitem__", [k], {})
        if isinstance(o, K) and (o.v is None or isinstance(o.v, (int, float))):
            raise AbsRaise(Ext("builtins.TypeError"))
        return Top("subscript")

    def _slice(self, k):
        out = []
        for x in k.items[1:]:
            if not isinstance(x, K):
                raise Undecided("slice")
            out.append(x.v)
        return slice(*out)

    # -- external/builtin calls -------------------------------------------
    def call_ext(self, d, args, kw):
        n = d.split(".")[-1]
        if d == "builtins.slice" and 0 < len(args) < 4 and not kw:
            return Tup([K("slice")] + (([NONE] + args + [NONE]) if len(args) == 1
                                       else (args + [NONE])[:3]))
        if d in self.externs:
            return self.externs[d](self, args, kw)
        f = pylib.LIB.get(d)
        if f is not None:
            try:
                return f(self, *args, **kw)
            except TypeError as e:
                if DEBUG:
                    raise
                raise Undecided("%s: %s" % (d, e))
        if d.startswith("builtins.") and d.count(".") == 2 and args and not n.startswith("__") \
                and n not in ("fromkeys", "maketrans", "from_bytes", "fromhex"):
            o = args[0]
            while isinstance(o, Inst) and "%base" in o.fields:
                o = o.fields["%base"]
            if isinstance(o, (K, Lst, Dct, SetV, Tup, Txt)):
                return self.call(self.getattr(o, n), args[1:], kw)
        if d in ("builtins.object.__setattr__",) and isinstance(args[0], Inst):
            args[0].fields[args[1].v] = args[2]
            return NONE
        if d == "builtins.object.__new__" and isinstance(args[0], Cls):
            return Inst(args[0].cls, {})
        if d in ("builtins.int.from_bytes", "builtins.str.maketrans", "builtins.bytes.fromhex",
                 "builtins.float.fromhex"):
            import builtins as B
            pa = [_plain(x) for x in args]
            pk = {x: _plain(y) for x, y in kw.items()}
            if not any(x is _NO for x in pa + list(pk.values())):
                return lift(getattr(getattr(B, d.split(".")[1]), n)(*pa, **pk))
        if d.startswith("builtins."):
            m = getattr(self, "b_" + n, None)
            if m is not None:
                return m(args, kw)
            import builtins as B
            t = getattr(B, n, None)
            if isinstance(t, type) and issubclass(t, BaseException):
                return ExtObj(d, args)
            if d.startswith("builtins.int.__") or d.startswith("builtins.str."):
                if d.startswith("builtins.int.__"):
                    ops = {"__add__": ast.Add, "__sub__": ast.Sub, "__mul__": ast.Mult,
                           "__floordiv__": ast.FloorDiv, "__mod__": ast.Mod,
                           "__neg__": None, "__pow__": ast.Pow}
                    if n in ops and ops[n] is not None and len(args) == 2:
                        return self.binop(ops[n], args[0], args[1])
                    cmpn = {"__eq__": ast.Eq, "__ne__": ast.NotEq, "__lt__": ast.Lt,
                            "__le__": ast.LtE, "__gt__": ast.Gt, "__ge__": ast.GtE}
                    if n in cmpn and len(args) == 2:
                        return K(self.compare(cmpn[n], *args))
                elif args:
                    return self.bound(args[0], n, args[1:], kw)
        if d == "builtins.dict.fromkeys":
            r = Dct([])
            for k in self.iterate(args[0]):
                self.dset(r, k, args[1] if len(args) > 1 else NONE)
            return r
        if d == "builtins.type.__new__" and len(args) == 4 and isinstance(args[0], Cls):
            return CObj(args[0].cls, {k.v: v for k, v in args[3].items})
        if d == "inspect.getmembers" and args and isinstance(args[0], CObj):
            return Lst([Tup([K(k), self.getattr(args[0], k)]) for k in sorted(args[0].fields)])
        if d in ("functools.partial",):
            return Part(args[0], args[1:], kw)
        if d in ("functools.partialmethod",):
            return Part(args[0], args[1:], kw, True)
        if d == "functools.wraps":
            return Py(lambda I, a, k: a[0])
        if d == "types.new_class":
            x = dict(zip(("name", "bases", "kwds", "exec_body"), args))
            x.update(kw)
            return self.new_class(x["name"], list(self.iterate(x.get("bases", Tup([])))),
                                  x.get("exec_body"), self.cur.module)
        if d == "types.SimpleNamespace" and not args:
            return self.namespace(kw)
        if d == "copy.copy":
            return self._shallow(args[0])
        if d == "copy.deepcopy":
            return self._deep(args[0])
        if d.startswith("typing."):
            if n == "cast":
                return args[1]
        if d.startswith("math.") and all(isinstance(a, K) for a in args):
            import math
            fn = getattr(math, n, None)
            if fn is not None:
                try:
                    return K(fn(*[a.v for a in args]))
                except Exception:
                    raise Undecided("math")
        if d.startswith("os.path.") and all(
                isinstance(a, K) and isinstance(a.v, str) for a in args) and not kw:
            import posixpath
            if n in ("split", "splitext"):
                return Tup([K(x) for x in getattr(posixpath, n)(args[0].v)])
            if n in ("join", "dirname", "basename", "normpath"):
                return K(getattr(posixpath, n)(*[a.v for a in args]))
            if n in ("realpath", "abspath"):
                return args[0]
            if n == "samefile":
                return K(args[0].v == args[1].v)
        if d.startswith("re.") and args and d.split(".")[1] in (
                "compile", "match", "fullmatch", "search", "sub", "subn", "split", "findall",
                "finditer", "escape"):
            import re
            return re_call(self, getattr(re, n), args, kw)
        if d == "json.dumps" and args:
            p = _plain(args[0])
            if p is not _NO:
                import json
                kk = {}
                for k, v in kw.items():
                    x = _plain(v)
                    if x is _NO:
                        raise Undecided("json")
                    kk[k] = x
                return K(json.dumps(p, **kk))
            return Top("json")
        return self.unknown_ext(d, args, kw)

    def _shallow(self, v):
        if isinstance(v, Inst):
            f = v.cls.find("__copy__")
            if f is not None:
                return self.call(Fn(f, v), [], {})
            r = Inst(v.cls, dict(v.fields))
            if "%base" in r.fields:
                r.fields["%base"] = self._shallow(r.fields["%base"])
            return r
        if isinstance(v, Deq):
            return Deq(v.items, v.maxlen)
        if isinstance(v, DDct):
            return DDct(v.items, v.factory, v.kind)
        if isinstance(v, (Lst, Dct, SetV)) and not isinstance(v, (Itr, View)):
            return type(v)(v.items)
        if isinstance(v, (K, Tup, Lin, Txt, Enum, Cls, Fn, Ext, Lam)):
            return v
        return Top("copy")

    def _deep(self, v, memo=None):
        memo = {} if memo is None else memo
        if id(v) in memo:
            return memo[id(v)][1]
        if isinstance(v, Tup):
            r = Tup([self._deep(x, memo) for x in v.items])
        elif isinstance(v, (Lst, Dct, SetV)) and not isinstance(v, (Itr, View)):
            r = self._shallow(v)
            memo[id(v)] = (v, r)
            if isinstance(v, Dct):
                r.items = [[self._deep(k, memo), self._deep(x, memo)] for k, x in v.items]
            else:
                r.items = [self._deep(x, memo) for x in v.items]
        elif isinstance(v, Inst):
            f = v.cls.find("__deepcopy__")
            if f is not None:
                return self.call(Fn(f, v), [Top("memo")], {})
            r = Inst(v.cls, {})
            memo[id(v)] = (v, r)
            r.fields.update((k, self._deep(x, memo)) for k, x in list(v.fields.items()))
        elif isinstance(v, (K, Lin, Txt, Enum, Cls, Fn, Ext, Lam, Mod)):
            return v
        else:
            return Top("deepcopy")
        memo[id(v)] = (v, r)
        return r

    def unknown_ext(self, d, args, kw):
        return Top("ext %s" % d)

    # each b_* is the transfer function of a builtin
    def b_len(self, a, k):
        v = a[0]
        if isinstance(v, Itr):
            raise AbsRaise(Ext("builtins.TypeError"))
        if isinstance(v, (Lst, Tup, Dct, SetV)):
            return K(len(v.items))
        if isinstance(v, K) and isinstance(v.v, (str, tuple, bytes)):
            return K(len(v.v))
        if isinstance(v, Inst):
            if is_namedtuple(v.cls):
                return K(len(v.fields))
            f = v.cls.find("__len__")
            if f is not None:
                return self.call(Fn(f, v), [], {})
            if "%base" in v.fields:
                return self.b_len([v.fields["%base"]], {})
            if not v.cls.external_bases() and v.fields.get("*") is None:
                raise AbsRaise(Ext("builtins.TypeError"))
        if isinstance(v, Cls) and self.cx.vals.is_enum(v.cls):
            return K(len(self.cx.vals.members(v.cls) or ()))
        if isinstance(v, HCM) and "__len__" in v.attrs:
            return self.call(v.attrs["__len__"], [], {})
        if isinstance(v, K):
            raise AbsRaise(Ext("builtins.TypeError"))
        return Top("len")

    def b_isinstance(self, a, k):
        r = self.isinst(a[0], a[1])
        if r is None:
            r = self.choose("isinstance %r" % (a[0],))
        return K(r)

    def isinst(self, v, c):
        if isinstance(c, Tup):
            rs = [self.isinst(v, x) for x in c.items]
            if any(r is True for r in rs):
                return True
            return None if any(r is None for r in rs) else False
        if isinstance(c, Cls):
            if isinstance(v, (Inst, Enum)):
                return c.cls in v.cls.mro()
            if isinstance(v, Atom):
                if v.cls is None:
                    return None
                if c.cls in v.cls.mro():
                    return True
                return None if v.cls in c.cls.mro() else False
            if isinstance(v, Top):
                return None
            return False
        if isinstance(c, Ext):
            n = c.dotted.split(".")[-1]
            t = {"int": int, "str": str, "bool": bool, "float": float, "tuple": tuple,
                 "list": list, "dict": dict, "bytes": bytes}.get(n)
            if isinstance(v, K) and t is not None:
                return isinstance(v.v, t)
            if isinstance(v, Lin):
                return n in ("int", "object", "Integral")
            if isinstance(v, Txt):
                return n in ("str", "object")
            if isinstance(v, Itr):
                return n in ("Iterator", "Iterable", "Generator", "GeneratorType", "object")
            if isinstance(v, View):
                return n in ("Iterable", "Collection", "object", "Sized",
                             {"keys": "KeysView", "items": "ItemsView"}.get(v.kind, ""))
            if isinstance(v, Deq):
                return n in ("deque", "object", "Iterable", "Sequence", "Sized")
            if isinstance(v, Lst):
                return n in ("list", "object", "Iterable", "Sequence", "List", "Sized",
                             "Collection", "MutableSequence")
            if isinstance(v, Tup):
                return n in ("tuple", "object", "Iterable", "Sequence", "Tuple", "Sized",
                             "Collection", "Hashable")
            if isinstance(v, SetV):
                return n in ("set", "frozenset", "object", "Iterable", "Set", "Sized",
                             "Collection", "AbstractSet", "MutableSet")
            if isinstance(v, Dct):
                return n in ("dict", "object", "Mapping", "Dict", "MutableMapping", "Iterable",
                             "Sized", "Collection") or \
                    isinstance(v, DDct) and n == v.kind or n == "OrderedDict"
            if isinstance(v, ExtObj) and v.dotted.startswith("builtins.") and \
                    c.dotted.startswith("builtins."):
                import builtins as B
                x, y = getattr(B, v.dotted[9:], None), getattr(B, n, None)
                if isinstance(x, type) and isinstance(y, type):
                    return issubclass(x, y)
            if n == "object":
                return True
            if n == "Callable":
                return isinstance(v, (Fn, Lam, Part, Py, Bound, Cls)) or (
                    isinstance(v, Inst) and v.cls.find("__call__") is not None)
            if n == "Hashable" and isinstance(v, (K, Enum)):
                return True
            if n in ("Iterable", "Sequence", "Collection") and isinstance(v, K):
                return isinstance(v.v, (str, bytes))
            if isinstance(v, Inst) and _is_exc(v.cls) and n == "BaseException":
                return True
            if isinstance(v, Inst) and n == "Iterable" and v.cls.find("__iter__") is not None:
                return True
            if isinstance(v, Enum) and n == "Enum":
                return True
            if isinstance(v, (Inst, Enum)):
                if n == "tuple" and is_namedtuple(v.cls):
                    return True
                return any(str(b.dotted).split(".")[-1].lower() == n.lower()
                           for b in v.cls.external_bases()) \
                    or n == "object"
            if isinstance(v, (Cls,)):
                return n == "type"
        return None

    def b_issubclass(self, a, k):
        if isinstance(a[1], Tup):
            return K(any(self.truth(self.b_issubclass([a[0], x], k)) for x in a[1].items))
        if isinstance(a[0], Cls) and isinstance(a[1], Ext):
            n = a[1].dotted.split(".")[-1]
            if n == "object":
                return TRUE
            if any(str(b.dotted).split(".")[-1] == n for b in a[0].cls.external_bases()):
                return TRUE
        if isinstance(a[0], Cls) and isinstance(a[1], Cls):
            return K(a[1].cls in a[0].cls.mro())
        return K(self.choose("issubclass"))

    def b_getattr(self, a, k):
        if not isinstance(a[1], K):
            return Top("getattr")
        try:
            return self.getattr(a[0], a[1].v)
        except AbsRaise as e:
            if e.name == "AttributeError" and len(a) > 2:
                return a[2]
            raise

    def b_hasattr(self, a, k):
        if not isinstance(a[1], K) or isinstance(a[0], (Top, Atom)):
            return K(self.choose("hasattr"))
        try:
            v = self.getattr(a[0], a[1].v)
        except AbsRaise as e:
            if e.name == "AttributeError":
                return FALSE
            raise
        if isinstance(v, Top):
            return K(self.choose("hasattr"))
        return TRUE

    def b_setattr(self, a, k):
        if isinstance(a[1], K):
            self.setattr(a[0], a[1].v, a[2])
            return NONE
        raise Undecided("setattr")

    def b_callable(self, a, k):
        v = a[0]
        return K(isinstance(v, (Fn, Cls, Lam, Part, Py, Bound, Ext)) or
                 isinstance(v, Inst) and v.cls.find("__call__") is not None)

    def b_super(self, a, k):
        if len(a) == 2 and isinstance(a[0], Cls) and isinstance(a[1], (Inst, Cls)):
            return Super(a[0].cls, a[1])
        fr = self.cur
        while fr is not None and fr.func is not None and fr.cls is None:
            fr = fr.parent
        if fr is None or fr.cls is None:
            raise Undecided("super")
        f = fr
        first = None
        while f is not None:
            if f.func is not None and f.func.cls is not None and f.func.params:
                first = f.env.get(f.func.params[0].name)
                break
            f = f.parent
        if not isinstance(first, (Inst, Cls)):
            raise Undecided("super self")
        return Super(f.func.cls, first)

    def b_type(self, a, k):
        if len(a) == 1 and isinstance(a[0], (Inst, Enum)):
            return Cls(a[0].cls)
        if len(a) == 1 and isinstance(a[0], K):
            return Ext("builtins.%s" % type(a[0].v).__name__)
        if len(a) == 1:
            v = a[0]
            if isinstance(v, ExtObj):
                return Ext(v.dotted)
            for t, n in ((Deq, "collections.deque"), (Itr, ""), (View, ""), (Lst, "list"),
                         (Tup, "tuple"), (DDct, ""), (Dct, "dict"), (SetV, "set"),
                         (Txt, "str"), (Lin, "int"), (Cls, "type"), (Fn, "")):
                if isinstance(v, t):
                    if not n:
                        break
                    return Ext(n if "." in n else "builtins." + n)
        return Top("type")

    def b_zip(self, a, k):
        its = [self.iter_of(v) for v in a]
        strict = "strict" in k and self.truth(k["strict"])

        def go():
            while its:
                out = []
                for i, it in enumerate(its):
                    try:
                        out.append(next(it))
                    except StopIteration:
                        if strict and (i or any(next(x, None) is not None for x in its[1:])):
                            raise AbsRaise(Ext("builtins.ValueError"), "ValueError")
                        return
                yield Tup(out)
        return Itr(go())

    def b_map(self, a, k):
        its = [self.iter_of(v) for v in a[1:]]
        return Itr(self.call(a[0], list(x), {}) for x in zip(*its))

    def b_filter(self, a, k):
        return Itr(x for x in self.iter_of(a[1])
                   if self.truth(x if isinstance(a[0], K) else self.call(a[0], [x], {})))

    def b_enumerate(self, a, k):
        s = a[1] if len(a) > 1 else k.get("start", K(0))
        if not isinstance(s, K):
            return Itr(Tup([self.binop(ast.Add, s, K(i)), x])
                       for i, x in enumerate(self.iter_of(a[0])))
        return Itr(Tup([K(i), x]) for i, x in enumerate(self.iter_of(a[0]), s.v))

    def b_range(self, a, k):
        if all(isinstance(x, K) for x in a):
            r = range(*[x.v for x in a])
            if len(r) > 4000:
                raise Undecided("range")
            return Lst(K(i) for i in r)
        raise Undecided("range")

    def b_list(self, a, k):
        return Lst(self.iterate(a[0]) if a else ())

    def b_tuple(self, a, k):
        return Tup(self.iterate(a[0]) if a else ())

    def b_iter(self, a, k):
        if len(a) == 2:
            def until():
                while True:
                    x = self.call(a[0], [], {})
                    if self.compare(ast.Eq, x, a[1]):
                        return
                    yield x
            return Itr(until())
        v = a[0]
        if isinstance(v, Itr):
            return v
        if isinstance(v, Inst) and v.cls.find("__iter__") is not None:
            r = self.call(Fn(v.cls.find("__iter__"), v), [], {})
            return r if isinstance(r, (Itr, Inst)) else Itr(self.iter_of(r))
        return Itr(self.iter_of(v))

    def b_next(self, a, k):
        it = a[0]
        try:
            if isinstance(it, Itr):
                try:
                    return it.pull()
                except StopIteration:
                    pass
            elif isinstance(it, Lst):
                raise AbsRaise(Ext("builtins.TypeError"))
            elif isinstance(it, Inst) and it.cls.find("__next__") is not None:
                return self.call(Fn(it.cls.find("__next__"), it), [], {})
            else:
                raise Undecided("next")
        except AbsRaise as e:
            if e.name != "StopIteration" or len(a) < 2:
                raise
        if len(a) > 1:
            return a[1]
        raise AbsRaise(Ext("builtins.StopIteration"))

    def b_reversed(self, a, k):
        if isinstance(a[0], Inst) and a[0].cls.find("__reversed__") is not None:
            return self.call(Fn(a[0].cls.find("__reversed__"), a[0]), [], {})
        return Itr(reversed(self.iterate(a[0])))

    def b_vars(self, a, k):
        return self.getattr(a[0], "__dict__")

    def b_format(self, a, k):
        return self.fmt(a[0], a[1] if len(a) > 1 else K(""))

    def b_bin(self, a, k):
        return K(bin(a[0].v)) if isinstance(a[0], K) else Top("bin")

    def b_hex(self, a, k):
        return K(hex(a[0].v)) if isinstance(a[0], K) else Top("hex")

    def b_oct(self, a, k):
        return K(oct(a[0].v)) if isinstance(a[0], K) else Top("oct")

    def b_ascii(self, a, k):
        return K(ascii(a[0].v)) if isinstance(a[0], K) else Top("ascii")

    def b_delattr(self, a, k):
        self.delattr(a[0], a[1].v)
        return NONE

    def b_set(self, a, k):
        out = []
        for x in (self.iter_of(a[0]) if a else ()):
            if isinstance(x, (Lst, Dct, SetV)):
                raise AbsRaise(Ext("builtins.TypeError"))
            s = [self.same(x, y) for y in out]
            if any(r is None for r in s):
                raise Undecided("set")
            if not any(s):
                out.append(x)
        return SetV(out)
    b_frozenset = b_set

    def b_dict(self, a, k):
        d = Dct()
        if a:
            if isinstance(a[0], Inst) and isinstance(a[0].fields.get("%base"), Dct):
                a = [a[0].fields["%base"]]
            if isinstance(a[0], Dct):
                for x, y in a[0].items:
                    self.dset(d, x, y)
            else:
                for p in self.iter_of(a[0]):
                    p = self.iterate(p)
                    if len(p) != 2:
                        raise AbsRaise(Ext("builtins.ValueError"), "ValueError")
                    self.dset(d, *p)
        for x, y in k.items():
            self.dset(d, K(x), y)
        return d

    def keys_of(self, its, k):
        f = k.get("key")
        if f is None or isinstance(f, K) and f.v is None:
            return list(its)
        return [self.call(f, [x], {}) for x in its]

    def b_sorted(self, a, k):
        its = self.iterate(a[0])
        ks = self.keys_of(its, k)
        rev = "reverse" in k and self.truth(k["reverse"])
        pk = [_plain(x) for x in ks]
        if any(p is _NO for p in pk):
            if any(isinstance(x, (Top, Atom, Lin, Txt)) for x in ks) and len(ks) > 1:
                raise Undecided("sorted")
            pk = [pylib.Ordered(self, x) for x in ks]
        try:
            order = sorted(range(len(its)), key=lambda i: pk[i], reverse=rev)
        except TypeError:
            raise AbsRaise(Ext("builtins.TypeError"))
        return Lst(its[i] for i in order)

    def _minmax(self, a, k, sign):
        its = self.iterate(a[0]) if len(a) == 1 else list(a)
        if not its:
            if "default" in k:
                return k["default"]
            raise AbsRaise(Ext("builtins.ValueError"), "ValueError")
        ks = self.keys_of(its, k)
        best, bk = its[0], ks[0]
        for x, xk in zip(its[1:], ks[1:]):
            c = self.order(xk, bk)
            if c is None:
                if isinstance(xk, (K, Lin)) and isinstance(bk, (K, Lin)) and not (
                        isinstance(xk, K) and isinstance(bk, K)):
                    c = self._sign_choice(xk, bk)
                elif any(isinstance(y, (Top, Atom, Txt)) for y in (xk, bk)):
                    raise Undecided("min/max")
                else:
                    c = sign if self.compare(ast.Gt if sign > 0 else ast.Lt, xk, bk) else 0
            if c * sign > 0:
                best, bk = x, xk
        return best

    def b_max(self, a, k):
        return self._minmax(a, k, 1)

    def b_min(self, a, k):
        return self._minmax(a, k, -1)

    def b_any(self, a, k):
        for x in self.iter_of(a[0]):
            if self.truth(x):
                return TRUE
        return FALSE

    def b_all(self, a, k):
        for x in self.iter_of(a[0]):
            if not self.truth(x):
                return FALSE
        return TRUE

    def b_sum(self, a, k):
        acc = a[1] if len(a) > 1 else k.get("start", K(0))
        for x in self.iterate(a[0]):
            acc = self.binop(ast.Add, acc, x)
        return acc

    def b_abs(self, a, k):
        v = a[0]
        if isinstance(v, K):
            return K(abs(v.v))
        if isinstance(v, Inst):
            f = v.cls.find("__abs__")
            if f is not None:
                return self.call(Fn(f, v), [], {})
        return Top("abs")

    def b_int(self, a, k):
        if not a:
            return K(0)
        if all(isinstance(x, K) for x in list(a) + list(k.values())):
            try:
                return K(int(*[x.v for x in a], **{x: v.v for x, v in k.items()}))
            except (ValueError, TypeError, OverflowError) as e:
                raise AbsRaise(Ext("builtins.%s" % type(e).__name__))
        if isinstance(a[0], Lin):
            return a[0]
        return Top("int")

    def b_float(self, a, k):
        if a and isinstance(a[0], K):
            try:
                return K(float(a[0].v))
            except (ValueError, TypeError, OverflowError) as e:
                raise AbsRaise(Ext("builtins.%s" % type(e).__name__))
        return Top("float")

    def b_bool(self, a, k):
        return K(self.truth(a[0]) if a else False)

    def b_str(self, a, k):
        return self.to_str(a[0]) if a else K("")

    def b_repr(self, a, k):
        r = self.rep(a[0])
        return r if isinstance(r, (K, Txt)) else Txt([r])

    def rep(self, v):
        if isinstance(v, K):
            return K(repr(v.v))
        if isinstance(v, Lin):
            return Txt([v])
        if isinstance(v, Enum):
            f = v.cls.find("__repr__")
            if f is not None:
                return self.call(Fn(f, v), [], {})
            return txt(["<%s.%s: " % (v.cls.name, v.name), self.rep(v.value), ">"])
        if isinstance(v, Inst):
            f = v.cls.find("__repr__")
            if f is not None:
                return self.call(Fn(f, v), [], {})
            if is_namedtuple(v.cls) or _dataclass(v.cls):
                ns = list(v.fields) if is_namedtuple(v.cls) else \
                    [n for n, _ in self.dc_fields(v.cls)]
                return self._rep_seq(v.cls.name + "(", ")", [
                    txt([n + "=", self.rep(v.fields[n])]) for n in ns])
            if _is_exc(v.cls):
                return self._rep_seq(v.cls.name + "(", ")", [
                    self.rep(x) for x in self.iterate(v.fields["args"])])
            if "%base" in v.fields:
                return self.rep(v.fields["%base"])
        if isinstance(v, Deq):
            return self._rep_seq("deque([", "])" if v.maxlen is None else
                                 "], maxlen=%d)" % v.maxlen, map(self.rep, v.items))
        if isinstance(v, Lst) and not isinstance(v, (Itr, View)):
            return self._rep_seq("[", "]", map(self.rep, v.items))
        if isinstance(v, Tup):
            return self._rep_seq("(", ",)" if len(v.items) == 1 else ")",
                                 map(self.rep, v.items))
        if isinstance(v, Dct) and not isinstance(v, DDct):
            return self._rep_seq("{", "}", [txt([self.rep(a), ": ", self.rep(b)])
                                            for a, b in v.items])
        if isinstance(v, SetV) and v.items:
            return self._rep_seq("{", "}", map(self.rep, self.iterate(v)))
        if isinstance(v, ExtObj):
            return self._rep_seq(v.dotted.split(".")[-1] + "(", ")", map(self.rep, v.args))
        return Txt([Top("repr")])

    def _rep_seq(self, a, b, parts):
        out = [a]
        for i, x in enumerate(parts):
            out += [", "] * (i > 0) + [x]
        return txt(out + [b])

    def exc_text(self, v):
        xs = v.fields["args"].items if isinstance(v.fields.get("args"), Tup) else []
        if not xs:
            return K("")
        return self.to_str(xs[0]) if len(xs) == 1 else self.rep(v.fields["args"])

    def fmt(self, v, spec):
        """format(v, spec)"""
        if isinstance(spec, K) and spec.v == "":
            return self.to_str(v)
        if isinstance(v, (Inst, Enum)):
            f = v.cls.find("__format__")
            if f is not None:
                return self.call(Fn(f, v), [spec], {})
        if isinstance(v, K) and isinstance(spec, K):
            try:
                return K(format(v.v, spec.v))
            except (ValueError, TypeError) as e:
                raise AbsRaise(Ext("builtins.%s" % type(e).__name__))
        if isinstance(spec, K) and not isinstance(v, (Lin, Atom, Top, Txt)):
            raise AbsRaise(Ext("builtins.TypeError"))
        return Txt([Top("fmt")])

    def b_chr(self, a, k):
        return K(chr(a[0].v)) if isinstance(a[0], K) else Top("chr")

    def b_ord(self, a, k):
        return K(ord(a[0].v)) if isinstance(a[0], K) else Top("ord")

    def b_id(self, a, k):
        v = a[0]
        kept = self.globals.setdefault(("ids",), {})
        key = (type(v.v).__name__, v.v) if isinstance(v, K) else ("o", id(v))
        if isinstance(v, (Cls, Enum)):
            key = ("c", v.cls, getattr(v, "name", None))
        if key not in kept:
            kept[key] = (1000 + len(kept), v)
        return K(kept[key][0])

    def b_hash(self, a, k):
        v = a[0]
        if isinstance(v, (Lst, Dct)):
            raise AbsRaise(Ext("builtins.TypeError"))
        if isinstance(v, Inst):
            f = v.cls.find("__hash__")
            if f is not None:
                return self.call(Fn(f, v), [], {})
        kept = self.globals.setdefault(("hashes",), [])
        for x, n in kept:
            if self.same(x, v) is True:
                return K(n)
        kept.append((v, len(kept) + 7))
        return K(len(kept) + 6)

    def b_print(self, a, k):
        return NONE

    def b_divmod(self, a, k):
        return Tup([self.binop(ast.FloorDiv, *a), self.binop(ast.Mod, *a)])

    def b_round(self, a, k):
        if all(isinstance(x, K) for x in a):
            try:
                return K(round(*[x.v for x in a], **{n: v.v for n, v in k.items()}))
            except (ValueError, TypeError, OverflowError) as e:
                raise AbsRaise(Ext("builtins.%s" % type(e).__name__))
        return Top("round")

    def b_pow(self, a, k):
        if len(a) == 3:
            if not all(isinstance(x, K) for x in a):
                return Top("pow")
            return K(pow(*[x.v for x in a]))
        return self.binop(ast.Pow, *a)

    def b_object(self, a, k):
        return Atom("object%d" % self.fuel, None, {"unique": True})

    def to_str(self, v):
        if isinstance(v, K):
            return K(str(v.v))
        if isinstance(v, Txt):
            return v
        if isinstance(v, (Inst, Enum)):
            f = v.cls.find("__str__")
            if f is not None:
                return self.call(Fn(f, v), [], {})
            if isinstance(v, Enum):
                if self.int_enum(v.cls):
                    return self.to_str(v.value)
                return K("%s.%s" % (v.cls.name, v.name))
            if isinstance(v.fields.get("%base"), (K, Txt)):
                return self.to_str(v.fields["%base"])
            if _is_exc(v.cls):
                return self.exc_text(v)
            return self.b_repr([v], {})
        if isinstance(v, (Lin, Atom, Top)):
            return Txt([v])
        if isinstance(v, (Lst, Tup, Dct, SetV)):
            return self.b_repr([v], {})
        if isinstance(v, ExtObj):
            e = v.real()
            if e is not None:
                return K(str(e))
        return Txt([Top("str")])

    # -- methods of builtin values ------------------------------------------
    def bound(self, o, n, a, k):
        if isinstance(o, Lst):
            return self.list_method(o, n, a, k)
        if isinstance(o, Dct):
            return self.dict_method(o, n, a, k)
        if n in pylib.DUNDERS:
            return pylib.DUNDERS[n](self, o, *a)
        if isinstance(o, SetV):
            if n == "add":
                s = [self.same(a[0], y) for y in o.items]
                if any(r is None for r in s):
                    raise Undecided("set")
                if not any(s):
                    o.items.append(a[0])
                return NONE
            if n == "update":
                for x in a:
                    for y in self.iterate(x):
                        self.bound(o, "add", [y], {})
                return NONE
            if n == "copy":
                return SetV(o.items)
            if n == "clear":
                o.items = []
                return NONE
            if n == "pop":
                if not o.items:
                    raise AbsRaise(Ext("builtins.KeyError"))
                return o.items.pop(-1 if self.sets_backwards else 0)
            if n in ("discard", "remove"):
                if n == "remove" and not self.contains(o, a[0]):
                    raise AbsRaise(ExtObj("builtins.KeyError", [a[0]]))
                o.items = [y for y in o.items if self.same(y, a[0]) is not True]
                return NONE
            ops = {"union": ast.BitOr, "intersection": ast.BitAnd, "difference": ast.Sub,
                   "symmetric_difference": ast.BitXor}
            if n in ops or n.replace("_update", "") in ops:
                r = SetV(o.items)
                for x in a:
                    r = self.set_op(ops[n.replace("_update", "")], r, self.b_set([x], {}))
                if n in ops:
                    return r
                o.items = r.items
                return NONE
            if n in ("issubset", "issuperset", "isdisjoint"):
                x = self.iterate(a[0])
                p, q = (o.items, x) if n != "issuperset" else (x, o.items)
                hit = [any(self.same(y, z) is True for z in q) for y in p]
                return K(not any(hit) if n == "isdisjoint" else all(hit))
            raise Undecided("set.%s" % n)
        if isinstance(o, Tup):
            if n == "index":
                return self.list_method(Lst(o.items), n, a, k)
            if n == "count":
                return K(sum(1 for x in o.items if self.same(x, a[0])))
        if isinstance(o, Inst):
            if n == "_replace":
                r = Inst(o.cls, dict(o.fields))
                r.fields.update(k)
                return r
            if n == "_asdict":
                return Dct([[K(x), y] for x, y in o.fields.items()])
        if isinstance(o, (K, Txt)):
            return self.str_method(o, n, a, k)
        return Top("method %s" % n)

    def str_method(self, o, n, a, k):
        if n == "join" and isinstance(o, K):
            parts = []
            for i, x in enumerate(self.iterate(a[0])):
                if i:
                    parts.append(o.v)
                if isinstance(x, Inst) and "%base" in x.fields:
                    x = x.fields["%base"]
                if isinstance(x, K) and not isinstance(x.v, (str, bytes)) or isinstance(
                        x, (Lst, Tup, Dct, SetV, Inst, Lin)):
                    raise AbsRaise(Ext("builtins.TypeError"))
                parts.append(x if isinstance(x, (K, Txt)) else Txt([x]))
            if isinstance(o.v, bytes) and all(isinstance(x, (K, bytes)) for x in parts):
                return K(b"".join(x.v if isinstance(x, K) else x for x in parts))
            return txt(parts)
        if n == "format" and isinstance(o, K):
            return self.str_format(o.v, a, k)
        pa = [_plain(x) for x in a]
        pk = {x: _plain(y) for x, y in k.items()}
        if isinstance(o, K) and not any(x is _NO for x in pa) and not any(
                x is _NO for x in pk.values()):
            fn = getattr(o.v, n, None)
            if fn is None:
                raise AbsRaise(Ext("builtins.AttributeError"), "AttributeError")
            try:
                return lift(fn(*pa, **pk))
            except (TypeError, ValueError, LookupError, ArithmeticError) as e:
                raise AbsRaise(Ext("builtins.%s" % type(e).__name__))
        if isinstance(o, Txt):
            if n in ("startswith",) and pa and isinstance(pa[0], (str, tuple)) and \
                    isinstance(o.parts[0], str):
                pre = o.parts[0]
                c = pa[0] if isinstance(pa[0], tuple) else (pa[0],)
                if any(pre.startswith(x) for x in c):
                    return TRUE
                if all(len(x) <= len(pre) or not x.startswith(pre) for x in c):
                    return FALSE
            if n == "endswith" and pa and isinstance(pa[0], str) and \
                    isinstance(o.parts[-1], str) and len(pa[0]) <= len(o.parts[-1]):
                return K(o.parts[-1].endswith(pa[0]))
            if n in ("lower", "upper", "strip", "replace"):
                return Txt([Top("text")])
        return Top("str.%s" % n)

    def str_format(self, s, a, k):
        import string
        out, auto = [], 0
        try:
            pieces = list(string.Formatter().parse(s))
        except ValueError:
            raise AbsRaise(Ext("builtins.ValueError"), "ValueError")
        for lit, field, spec, conv in pieces:
            out.append(lit)
            if field is None:
                continue
            if field == "":
                field = str(auto)
                auto += 1
            name, rest = (field, None) if field.isalnum() else (
                re.match(r"\w*", field).group(), re.match(r"\w*(.*)", field, re.S).group(1))
            if name.isdigit():
                if int(name) >= len(a):
                    raise AbsRaise(Ext("builtins.IndexError"), "IndexError")
                v = a[int(name)]
            elif name in k:
                v = k[name]
            else:
                raise AbsRaise(Ext("builtins.KeyError"), "KeyError")
            while rest:
                m = re.match(r"\.(\w+)", rest)
                if m is None:
                    m = re.match(r"\[([^\]]+)\]", rest)
                    if m is None:
                        raise Undecided("format field")
                    i = m.group(1)
                    v = self.subscript(v, K(int(i) if i.isdigit() else i))
                else:
                    v = self.getattr(v, m.group(1))
                rest = rest[m.end():]
            if conv == "r":
                v = self.b_repr([v], {})
            elif conv == "s":
                v = self.to_str(v)
            if spec and "{" in spec:
                sp = self.str_format(re.sub(r"\{\}", lambda _: "{%d}" % auto, spec), a, k)
                auto += spec.count("{}")
            else:
                sp = K(spec or "")
            out.append(self.fmt(v, sp))
        return txt(out)

    def iter_method(self, o, n, a):
        if n == "__next__":
            return self.b_next([o], {})
        if n == "__iter__":
            return o
        if n == "send" and a and isinstance(a[0], K) and a[0].v is None:
            return self.b_next([o], {})
        src = o.src
        if n in ("send", "throw", "close") and hasattr(src, "close"):
            if n == "close":
                src.close()
                return NONE
            try:
                if n == "throw":
                    return src.throw(AbsRaise(a[0]))
                return src.send(a[0])
            except StopIteration:
                raise AbsRaise(Ext("builtins.StopIteration"))
        raise Undecided("iterator.%s" % n)

    def list_method(self, o, n, a, k):
        if isinstance(o, Itr):
            return self.iter_method(o, n, a)
        if isinstance(o, View):
            if n == "isdisjoint":
                return self.bound(self.b_set([o], {}), n, a, k)
            raise AbsRaise(Ext("builtins.AttributeError"), "AttributeError")
        L = o.items
        if isinstance(o, Deq):
            if n == "appendleft":
                L.insert(0, a[0])
                o.trim(False)
                return NONE
            if n == "extendleft":
                for x in self.iterate(a[0]):
                    L.insert(0, x)
                    o.trim(False)
                return NONE
            if n == "popleft" or n == "pop":
                if not L:
                    raise AbsRaise(Ext("builtins.IndexError"))
                return L.pop(0 if n == "popleft" else -1)
            if n == "rotate":
                m = a[0].v if a else 1
                if L:
                    m %= len(L)
                    L[:] = L[len(L) - m:] + L[:len(L) - m]
                return NONE
            if n == "copy":
                return Deq(L, o.maxlen)
            if n in ("append", "extend"):
                L.extend(a if n == "append" else self.iterate(a[0]))
                o.trim()
                return NONE
        if n == "append":
            L.append(a[0])
            return NONE
        if n == "extend":
            L.extend(self.iterate(a[0]))
            return NONE
        if n == "copy":
            return Lst(L)
        if n == "insert":
            if not isinstance(a[0], K):
                raise Undecided("insert %r" % (a[0],))
            L.insert(a[0].v, a[1])
            return NONE
        if n == "pop":
            i = -1
            if a:
                if not isinstance(a[0], K):
                    raise Undecided("pop")
                i = a[0].v
            try:
                return L.pop(i)
            except IndexError:
                raise AbsRaise(Ext("builtins.IndexError"))
        if n == "clear":
            del L[:]
            return NONE
        if n == "reverse":
            L.reverse()
            return NONE
        if n == "sort":
            L[:] = self.b_sorted([o], k).items
            return NONE
        if n in ("remove", "index"):
            lo = a[1].v if n == "index" and len(a) > 1 else 0
            hi = a[2].v if n == "index" and len(a) > 2 else len(L)
            for i, x in enumerate(L):
                if not lo <= i < hi:
                    continue
                s = self.same(x, a[0])
                if s is None:
                    raise Undecided(n)
                if s:
                    if n == "remove":
                        del L[i]
                        return NONE
                    return K(i)
            raise AbsRaise(Ext("builtins.ValueError"), "ValueError")
        if n == "count":
            return K(sum(1 for x in L if self.same(x, a[0])))
        raise Undecided("list.%s" % n)

    def dict_method(self, o, n, a, k):
        if n == "get":
            v = self.dget(o, a[0])
            return v if v is not None else (a[1] if len(a) > 1 else NONE)
        if n == "setdefault":
            v = self.dget(o, a[0])
            if v is None:
                v = a[1] if len(a) > 1 else NONE
                self.dset(o, a[0], v)
            return v
        if n in ("items", "keys", "values"):
            return View(o, n)
        if n == "copy":
            return self._shallow(o)
        if n == "popitem":
            if not o.items:
                raise AbsRaise(Ext("builtins.KeyError"))
            last = self.truth(a[0] if a else k.get("last", TRUE))
            return Tup(o.items.pop(-1 if last else 0))
        if n == "move_to_end":
            last = self.truth(a[1] if len(a) > 1 else k.get("last", TRUE))
            for i, x in enumerate(o.items):
                if self.same(x[0], a[0]) is True:
                    o.items.insert(len(o.items) - 1 if last else 0, o.items.pop(i))
                    return NONE
            raise AbsRaise(ExtObj("builtins.KeyError", [a[0]]))
        if isinstance(o, DDct) and o.kind == "Counter" and n in pylib.COUNTER:
            return pylib.COUNTER[n](self, o, *a, **k)
        if n == "update":
            d = self.b_dict(a, k)
            for x, y in d.items:
                self.dset(o, x, y)
            return NONE
        if n == "pop":
            v = self.dget(o, a[0])
            if v is None:
                if len(a) > 1:
                    return a[1]
                raise AbsRaise(ExtObj("builtins.KeyError", [a[0]]))
            o.items = [x for x in o.items if x[1] is not v or self.same(x[0], a[0]) is not True]
            return v
        if n == "clear":
            o.items = []
            return NONE
        raise Undecided("dict.%s" % n)

    # -- expressions -------------------------------------------------------
    def ev(self, e, fr):
        self.fuel -= 1
        if self.fuel < 0:
            raise Undecided("too long")
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Undecided("expr %s" % type(e).__name__)
        return m(e, fr)

    def e_Constant(self, e, fr):
        return K(e.value)

    def e_Name(self, e, fr):
        if fr.cls is not None and fr.func is None and e.id not in fr.env:
            # class body scope
            k = fr.cls
            if e.id in k.attrs or e.id in k.methods:
                v = self.cls_attr(k, e.id)
                if v is not None:
                    return v
            r = self.repo.resolve_name(e.id, k.parent or k.module)
            if isinstance(r, tuple) and r[0] == "local":
                return Top("closure")
            return self.entity(r, e.id)
        return self.name(e.id, fr)

    def e_Attribute(self, e, fr):
        return self.getattr(self.ev(e.value, fr), e.attr)

    def e_Subscript(self, e, fr):
        o = self.ev(e.value, fr)
        k = self.ev_slice(e.slice, fr)
        return self.subscript(o, k)

    def ev_slice(self, s, fr):
        if isinstance(s, ast.Index):
            s = s.value
        if isinstance(s, ast.Slice):
            return Tup([K("slice")] + [self.ev(x, fr) if x is not None else NONE
                                       for x in (s.lower, s.upper, s.step)])
        return self.ev(s, fr)

    def e_List(self, e, fr):
        return Lst(self.elts(e.elts, fr))

    def e_Tuple(self, e, fr):
        return Tup(self.elts(e.elts, fr))

    def e_Set(self, e, fr):
        return self.b_set([Lst(self.elts(e.elts, fr))], {})

    def elts(self, es, fr):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.ev(x.value, fr)))
            else:
                out.append(self.ev(x, fr))
        return out

    def e_Dict(self, e, fr):
        d = Dct()
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.ev(v, fr)
                if isinstance(o, Inst) and isinstance(o.fields.get("%base"), Dct):
                    o = o.fields["%base"]
                if not isinstance(o, Dct):
                    raise Undecided("**")
                for x, y in o.items:
                    self.dset(d, x, y)
            else:
                kk = self.ev(k, fr)
                try:
                    vv = self.ev(v, fr)
                except Undecided:
                    vv = Top("dict value")
                self.dset(d, kk, vv)
        return d

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        v = None
        for x in e.values[:-1]:
            v = self.ev(x, fr)
            if self.truth(v, x) != isand:
                return v if not isinstance(v, (Top, Atom)) else K(not isand)
        return self.ev(e.values[-1], fr)

    def e_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            return K(not self.truth(v, e.operand))
        if isinstance(e.op, ast.USub):
            return self.neg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert) and isinstance(v, K):
            return K(~v.v)
        if isinstance(e.op, ast.Invert) and isinstance(v, Inst):
            f = v.cls.find("__invert__")
            if f is not None:
                return self.call(Fn(f, v), [], {})
        return Top("unary")

    def neg(self, v):
        if isinstance(v, K):
            return K(-v.v)
        if isinstance(v, Lin):
            return Lin(v.sym, -v.a, -v.k)
        if isinstance(v, Inst):
            f = v.cls.find("__neg__")
            if f is not None:
                return self.call(Fn(f, v), [], {})
        return Top("neg")

    def e_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        for op, c in zip(e.ops, e.comparators):
            right = self.ev(c, fr)
            if not self.compare(type(op), left, right):
                return FALSE
            left = right
        return TRUE

    def e_IfExp(self, e, fr):
        return self.ev(e.body if self.truth(self.ev(e.test, fr), e.test)
                       else e.orelse, fr)

    def e_BinOp(self, e, fr):
        return self.binop(type(e.op), self.ev(e.left, fr), self.ev(e.right, fr))

    def binop(self, op, a, b):
        if op is ast.Mod and (isinstance(a, K) and isinstance(a.v, str) or isinstance(a, Txt)):
            return self.percent(a, b)
        if isinstance(a, (Inst, Enum)) or isinstance(b, (Inst, Enum)):
            r = self._binop_objects(op, a, b)
            if r is not None:
                return r
        if isinstance(a, (SetV, View)) and isinstance(b, (SetV, View)) and op in (
                ast.BitOr, ast.BitAnd, ast.BitXor, ast.Sub):
            return self.set_op(op, a, b)
        if isinstance(a, Dct) and isinstance(b, Dct):
            if isinstance(a, DDct) and a.kind == "Counter" and op in (ast.Add, ast.Sub):
                return pylib.counter_op(self, op, a, b)
            if op is ast.BitOr:
                r = self._shallow(a)
                for x, y in b.items:
                    self.dset(r, x, y)
                return r
        if op is ast.BitOr and all(isinstance(x, (Ext, Cls)) or isinstance(x, K) and x.v is None
                                   or isinstance(x, Tup) for x in (a, b)):
            out = []
            for x in (a, b):
                out += x.items if isinstance(x, Tup) else [
                    Ext("types.NoneType") if isinstance(x, K) else x]
            return Tup(out)
        if isinstance(a, K) and isinstance(b, K):
            import operator as O
            fn = {ast.Add: O.add, ast.Sub: O.sub, ast.Mult: O.mul, ast.Div: O.truediv,
                  ast.FloorDiv: O.floordiv, ast.Mod: O.mod, ast.Pow: O.pow,
                  ast.BitAnd: O.and_, ast.BitOr: O.or_, ast.BitXor: O.xor,
                  ast.LShift: O.lshift, ast.RShift: O.rshift}.get(op)
            if fn is None:
                raise Undecided("op")
            if op is ast.Pow and isinstance(b.v, int) and abs(b.v) > 4096:
                raise Undecided("pow")
            try:
                return K(fn(a.v, b.v))
            except (TypeError, ZeroDivisionError, ValueError, OverflowError) as x:
                raise AbsRaise(Ext("builtins.%s" % type(x).__name__))
        la = isinstance(a, Lin) or isinstance(a, K) and isinstance(a.v, int)
        lb = isinstance(b, Lin) or isinstance(b, K) and isinstance(b.v, int)
        if la and lb:
            def parts(v):
                return (v.sym, v.a, v.k) if isinstance(v, Lin) else (None, 0, int(v.v))
            sa, ca, ka = parts(a)
            sb, cb, kb = parts(b)
            if op in (ast.Add, ast.Sub):
                s = 1 if op is ast.Add else -1
                if sa is None or sb is None or sa == sb:
                    c = ca + s * cb
                    return _lin(sa or sb, c, ka + s * kb)
            if op is ast.Mult:
                if sa is None:
                    return _lin(sb, ka * cb, ka * kb)
                if sb is None:
                    return _lin(sa, kb * ca, kb * ka)
            return Top("arith")
        if op is ast.Add:
            if isinstance(a, Deq) and isinstance(b, Deq):
                return Deq(a.items + b.items, a.maxlen)
            if isinstance(a, Lst) and isinstance(b, Lst) and not isinstance(
                    a, (Itr, View, Deq)) and not isinstance(b, (Itr, View, Deq)):
                return Lst(a.items + b.items)
            if isinstance(a, Tup) and isinstance(b, Tup):
                return Tup(a.items + b.items)
            if _texty(a) and (_texty(b) or isinstance(b, (Top, Atom))) or \
                    _texty(b) and isinstance(a, (Top, Atom)):
                return txt([a, b])
        if op is ast.Mult:
            for x, y in ((a, b), (b, a)):
                if isinstance(x, (Lst, Tup)) and isinstance(y, K) and isinstance(y.v, int) \
                        and not isinstance(x, (Itr, View)):
                    return type(x)(x.items * y.v)
        if not any(isinstance(x, (Top, Atom, Lin, Txt, Inst, Native, ExtObj, Ext, Cls))
                   for x in (a, b)):
            raise AbsRaise(Ext("builtins.TypeError"))
        return Top("op")

    _OPS = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "truediv",
            ast.FloorDiv: "floordiv", ast.Mod: "mod", ast.Pow: "pow", ast.BitAnd: "and",
            ast.BitOr: "or", ast.BitXor: "xor", ast.LShift: "lshift", ast.RShift: "rshift",
            ast.MatMult: "matmul"}

    def _binop_objects(self, op, a, b):
        n = self._OPS[op]
        for x, y, m in ((a, b, "__%s__" % n), (b, a, "__r%s__" % n)):
            f = x.cls.find(m) if isinstance(x, (Inst, Enum)) else None
            if f is not None:
                r = self.call(Fn(f, x), [y], {})
                if not _not_impl(r):
                    return r
        xs = []
        for x in (a, b):
            if isinstance(x, Inst) and is_namedtuple(x.cls):
                x = Tup(self.iterate(x))
            elif isinstance(x, Inst) and "%base" in x.fields:
                x = x.fields["%base"]
            elif isinstance(x, Enum) and self.int_enum(x.cls):
                x = x.value
            xs.append(x)
        if xs[0] is not a or xs[1] is not b:
            return self.binop(op, *xs)
        if any(isinstance(x, (Top, Atom)) for x in xs):
            return None
        if any(isinstance(x, Inst) and x.cls.external_bases() for x in xs):
            return None
        raise AbsRaise(Ext("builtins.TypeError"))

    def set_op(self, op, a, b):
        x, y = a.items, b.items
        if op is ast.BitOr:
            return self.b_set([Lst(list(x) + list(y))], {})
        if op is ast.BitAnd:
            return SetV([p for p in x if self.contains(SetV(y), p)])
        r = [p for p in x if not self.contains(SetV(y), p)]
        if op is ast.BitXor:
            r += [p for p in y if not self.contains(SetV(x), p)]
        return SetV(r)

    def percent(self, a, b):
        if isinstance(a, Txt):
            return Txt([Top("text")])
        args = list(b.items) if isinstance(b, Tup) else (
            list(b.fields.values()) if isinstance(b, Inst) and is_namedtuple(b.cls) else [b])
        out, i, s = [], 0, a.v
        j = 0
        import re
        if isinstance(b, Dct) and "%(" in s:
            for m in re.finditer(r"%\((\w+)\)([sdr])|%%", s):
                out.append(s[j:m.start()])
                j = m.end()
                if m.group(0) == "%%":
                    out.append("%")
                else:
                    v = self.dget(b, K(m.group(1)))
                    if v is None:
                        raise AbsRaise(Ext("builtins.KeyError"))
                    out.append(self.to_str(v))
            out.append(s[j:])
            return txt(out)
        for m in re.finditer(r"%(%|[-+#0 ]*\d*(?:\.\d+)?[sdrifgxX])", s):
            out.append(s[j:m.start()])
            j = m.end()
            spec = m.group(1)
            if spec == "%":
                out.append("%")
                continue
            if i >= len(args):
                raise AbsRaise(Ext("builtins.TypeError"))
            v = args[i]
            i += 1
            if isinstance(v, K):
                try:
                    out.append(("%" + spec) % (v.v,))
                except (TypeError, ValueError):
                    raise AbsRaise(Ext("builtins.TypeError"))
            elif spec == "s":
                out.append(self.to_str(v))
            elif spec in ("d", "i"):
                if isinstance(v, (Txt, Inst, Lst, Tup)):
                    raise AbsRaise(Ext("builtins.TypeError"))
                out.append(v)
            elif spec == "r":
                out.append(self.b_repr([v], {}))
            else:
                out.append(Top("fmt"))
        if i != len(args):
            raise AbsRaise(Ext("builtins.TypeError"))
        out.append(s[j:])
        return txt(out)

    def e_JoinedStr(self, e, fr):
        out = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                out.append(p.value)
            else:
                v = self.ev(p.value, fr)
                if p.conversion == 114:
                    v = self.b_repr([v], {})
                elif p.conversion == 115:
                    v = self.to_str(v)
                elif p.conversion == 97:
                    v = self.b_ascii([v], {})
                sp = self.ev(p.format_spec, fr) if p.format_spec is not None else K("")
                out.append(self.fmt(v, sp))
        return txt(out)

    def e_Lambda(self, e, fr):
        return Lam(e, fr, self._defaults(e.args, fr))

    def e_Starred(self, e, fr):
        raise Undecided("starred")

    def e_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def e_Yield(self, e, fr):
        raise Undecided("yield in an expression")
    e_YieldFrom = e_Yield

    def _comp(self, gens, fr, first=None):
        """The frames in which the element of a comprehension is evaluated."""
        def go(i, env):
            if i == len(gens):
                yield env
                return
            g = gens[i]
            its = first if i == 0 and first is not None else self.iter_of(self.ev(g.iter, env))
            for n, x in enumerate(its):
                self.fuel -= 1
                if self.fuel < 0 or n > 20000:
                    raise Undecided("too long")
                sub = Frame(env.func, env.module, {}, env, env.cls)
                if env.func is None:
                    sub.cls = env.cls
                self.assign(g.target, x, sub)
                if all(self.truth(self.ev(c, sub), c) for c in g.ifs):
                    yield from go(i + 1, sub)
        return go(0, fr)

    def e_ListComp(self, e, fr):
        return Lst([self.ev(e.elt, env) for env in self._comp(e.generators, fr)])

    def e_GeneratorExp(self, e, fr):
        first = self.iter_of(self.ev(e.generators[0].iter, fr))
        return Itr(self.ev(e.elt, env) for env in self._comp(e.generators, fr, first))

    def e_SetComp(self, e, fr):
        return self.b_set([self.e_ListComp(e, fr)], {})

    def e_DictComp(self, e, fr):
        d = Dct()
        for env in self._comp(e.generators, fr):
            k = self.ev(e.key, env)
            self.dset(d, k, self.ev(e.value, env))
        return d

    def e_Call(self, e, fr):
        fn = self.ev(e.func, fr)
        args = self.elts(e.args, fr)
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, fr)
            if k.arg is None:
                if not isinstance(v, Dct):
                    raise Undecided("**kw")
                for a, b in v.items:
                    if not isinstance(a, K):
                        raise Undecided("**kw")
                    kw[a.v] = b
            else:
                kw[k.arg] = v
        old = getattr(self, "cur", None)
        self.cur = fr
        try:
            return self.call(fn, args, kw)
        finally:
            self.cur = old

    # -- statements --------------------------------------------------------
    def block(self, body, fr):
        for st in body:
            self.stmt(st, fr)

    def stmt(self, st, fr):
        self.fuel -= 1
        if self.fuel < 0:
            raise Undecided("too long")
        m = getattr(self, "s_" + type(st).__name__, None)
        if m is None:
            raise Undecided("stmt %s" % type(st).__name__)
        m(st, fr)

    def s_Expr(self, st, fr):
        if isinstance(st.value, ast.Constant):
            return
        self.ev(st.value, fr)

    def s_Pass(self, st, fr):
        pass

    absent = ()  # modules that are not installed

    def s_Import(self, st, fr):
        if self.absent and any(a.name.split(".")[0] in self.absent for a in st.names):
            raise AbsRaise(Ext("builtins.ImportError"), "ImportError")

    def s_ImportFrom(self, st, fr):
        if self.absent and not st.level and (st.module or "").split(".")[0] in self.absent:
            raise AbsRaise(Ext("builtins.ImportError"), "ImportError")

    def s_Global(self, st, fr):
        fr.glob.update(st.names)

    def s_Nonlocal(self, st, fr):
        fr.env["*nonlocal"] = fr.env.get("*nonlocal", set()) | set(st.names)

    def s_Assign(self, st, fr):
        v = self.ev(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, st, fr):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, fr), fr)

    def s_AugAssign(self, st, fr):
        t = st.target
        if isinstance(t, ast.Name):
            old = self.name(t.id, fr)
            key = None
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            old = self.getattr(o, t.attr)
        else:
            o = self.ev(t.value, fr)
            key = self.ev_slice(t.slice, fr)
            old = self.subscript(o, key)
        v = self.ev(st.value, fr)
        new = self.inplace(type(st.op), old, v)
        if isinstance(t, ast.Name):
            self.assign(t, new, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(o, t.attr, new)
        else:
            self.setitem(o, key, new)

    def inplace(self, op, old, v):
        if isinstance(old, Lst) and op is ast.Add and not isinstance(old, (Itr, View)):
            self.list_method(old, "extend", [v], {})
            return old
        if isinstance(old, Lst) and op is ast.Mult and isinstance(v, K):
            old.items[:] = old.items * v.v
            return old
        if isinstance(old, SetV) and isinstance(v, (SetV, View)) and op in (
                ast.BitOr, ast.BitAnd, ast.BitXor, ast.Sub):
            old.items = self.set_op(op, old, v).items
            return old
        if isinstance(old, Dct) and op is ast.BitOr:
            self.dict_method(old, "update", [v], {})
            return old
        if isinstance(old, Inst):
            f = old.cls.find("__i%s__" % self._OPS[op])
            if f is not None:
                r = self.call(Fn(f, old), [v], {})
                if not _not_impl(r):
                    return r
            b = old.fields.get("%base")
            if isinstance(b, (Lst, SetV, Dct)) and old.cls.find("__%s__" % self._OPS[op]) is None:
                self.inplace(op, b, v)
                return old
        return self.binop(op, old, v)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            if t.id in fr.glob:
                self.globals[(fr.module.name, t.id)] = v
                return
            if t.id in fr.env.get("*nonlocal", ()):
                f = fr.parent
                while f is not None:
                    if t.id in f.env:
                        f.env[t.id] = v
                        return
                    f = f.parent
            fr.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            its = self.iterate(v)
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                i = star[0]
                tail = len(t.elts) - i - 1
                if len(its) < len(t.elts) - 1:
                    raise AbsRaise(Ext("builtins.ValueError"), "ValueError")
                for x, y in zip(t.elts[:i], its[:i]):
                    self.assign(x, y, fr)
                self.assign(t.elts[i].value, Lst(its[i:len(its) - tail]), fr)
                for x, y in zip(t.elts[i + 1:], its[len(its) - tail:]):
                    self.assign(x, y, fr)
                return
            if len(its) != len(t.elts):
                raise AbsRaise(Ext("builtins.ValueError"), "ValueError")
            for x, y in zip(t.elts, its):
                self.assign(x, y, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, fr), self.ev_slice(t.slice, fr), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr)
        else:
            raise Undecided("assign")

    def setitem(self, o, k, v):
        if isinstance(o, Dct):
            self.dset(o, k, v)
        elif isinstance(o, Lst):
            if isinstance(k, K) and isinstance(k.v, int):
                try:
                    o.items[k.v] = v
                except IndexError:
                    raise AbsRaise(Ext("builtins.IndexError"))
            elif isinstance(k, Tup) and len(k.items) == 4:
                o.items[self._slice(k)] = self.iterate(v)
            else:
                raise Undecided("setitem")
        elif isinstance(o, Inst):
            f = o.cls.find("__setitem__")
            if f is not None:
                self.call(Fn(f, o), [k, v], {})
            elif "%base" in o.fields:
                self.setitem(o.fields["%base"], k, v)
            elif not o.cls.external_bases():
                raise AbsRaise(Ext("builtins.TypeError"))
        elif isinstance(o, (Tup, SetV, K)):
            raise AbsRaise(Ext("builtins.TypeError"))

    def delitem(self, o, k):
        if isinstance(o, Dct):
            if self.dget(o, k) is None:
                raise AbsRaise(ExtObj("builtins.KeyError", [k]))
            o.items = [x for x in o.items if self.same(x[0], k) is not True]
        elif isinstance(o, Lst) and not isinstance(o, (Itr, View)):
            try:
                if isinstance(k, K):
                    del o.items[k.v]
                else:
                    del o.items[self._slice(k)]
            except IndexError:
                raise AbsRaise(Ext("builtins.IndexError"))
        elif isinstance(o, Inst) and o.cls.find("__delitem__") is not None:
            self.call(Fn(o.cls.find("__delitem__"), o), [k], {})
        elif isinstance(o, Inst) and "%base" in o.fields:
            self.delitem(o.fields["%base"], k)
        elif isinstance(o, (Tup, K, SetV)):
            raise AbsRaise(Ext("builtins.TypeError"))
        else:
            raise Undecided("del")

    def delattr(self, o, n):
        if isinstance(o, Inst):
            if n not in o.fields:
                raise AbsRaise(Ext("builtins.AttributeError"), "AttributeError")
            del o.fields[n]
        elif isinstance(o, Atom):
            o.attrs.pop(n, None)
        else:
            raise Undecided("del attribute")

    def s_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Name):
                fr.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                self.delitem(self.ev(t.value, fr), self.ev_slice(t.slice, fr))
            elif isinstance(t, ast.Attribute):
                self.delattr(self.ev(t.value, fr), t.attr)

    def s_Return(self, st, fr):
        raise _Ret(self.ev(st.value, fr) if st.value is not None else NONE)

    def s_Raise(self, st, fr):
        if st.exc is None:
            v = fr.env.get("*exc")
            if v is None:
                raise Undecided("bare raise")
            raise AbsRaise(v)
        v = self.ev(st.exc, fr)
        if isinstance(v, Cls):
            try:
                v = self.instantiate(v.cls, [], {})
            except AbsRaise:
                pass
        if st.cause is not None and isinstance(v, Inst):
            v.fields["__cause__"] = self.ev(st.cause, fr)
        raise AbsRaise(v)

    def s_If(self, st, fr):
        if self.truth(self.ev(st.test, fr), st.test):
            self.block(st.body, fr)
        else:
            self.block(st.orelse, fr)

    def s_Assert(self, st, fr):
        v = self.ev(st.test, fr)
        if self.truth3(v) is False:
            raise AbsRaise(ExtObj("builtins.AssertionError",
                                  [self.ev(st.msg, fr)] if st.msg is not None else []))

    def s_While(self, st, fr):
        for _ in range(2000):
            if not self.truth(self.ev(st.test, fr), st.test):
                self.block(st.orelse, fr)
                return
            try:
                self.block(st.body, fr)
            except _Brk:
                return
            except _Cont:
                continue
        raise Undecided("endless loop")

    def s_For(self, st, fr):
        for i, x in enumerate(self.iter_of(self.ev(st.iter, fr))):
            if i > 4000:
                raise Undecided("loop")
            self.assign(st.target, x, fr)
            try:
                self.block(st.body, fr)
            except _Brk:
                return
            except _Cont:
                continue
        self.block(st.orelse, fr)

    def s_Break(self, st, fr):
        raise _Brk()

    def s_Continue(self, st, fr):
        raise _Cont()

    def _opaque_def(self, st, fr):
        """Defined through a decorator whose result the domain keeps opaque."""
        for d in st.decorator_list:
            if isinstance(d, ast.Call):
                d = d.func
            r = None
            if isinstance(d, ast.Name):
                r = self.repo.resolve_name(d.id, fr.func or fr.module)
            elif isinstance(d, ast.Attribute) and isinstance(d.value, ast.Name):
                m = self.repo.resolve_name(d.value.id, fr.func or fr.module)
                if isinstance(m, Module):
                    r = self.repo.resolve_global(m, d.attr)
            if isinstance(r, (FuncInfo, ClassInfo)) and r.module.name in self.opaque_modules:
                fr.env[st.name] = Atom("opaque " + st.name)
                return True
        return False

    def s_FunctionDef(self, st, fr):
        if self.opaque_modules and self._opaque_def(st, fr):
            return
        f = self.repo.func_of(st)
        if st.args.defaults or any(st.args.kw_defaults):
            kept = fr.env.get("*defaults") or {}
            kept[id(f.node)] = self._defaults(st.args, fr)
            fr.env["*defaults"] = kept
        fr.env[st.name] = Fn(f, None, fr, True)
        for d in reversed(st.decorator_list):
            if self._transparent(d, f):
                continue
            v = self.ev(d, fr)
            fr.env[st.name] = self.call(v, [fr.env[st.name]], {})

    def new_class(self, name, bases, body, module):
        """types.new_class: `body` fills the namespace."""
        if not isinstance(name, K) or not all(isinstance(b, Cls) for b in bases):
            raise Undecided("class made at run time")
        node = ast.parse("class %s: pass" % name.v).body[0]
        c = ClassInfo(module, node, name.v, None)
        c.bases = [b.cls for b in bases]
        ns = Dct([])
        if body is not None:
            self.call(body, [ns], {})
        for n, v in ns.items:
            if isinstance(v, Fn) and v.self is None:
                f = copy.copy(v.f)
                f.cls, f.closure, f.original = c, v.env, v.f
                c.methods[n.v] = f
            else:
                self.clsset[(c, n.v)] = v
        return Cls(c)

    def namespace(self, kw):
        m = self.repo.modules[sorted(self.repo.modules)[0]]
        o = self.instantiate(ClassInfo(m, ast.parse("class SimpleNamespace: pass").body[0],
                                       "SimpleNamespace", None), [], {})
        o.fields.update(kw)
        return o

    def execute(self, m):
        """Run the definitions of a module now, as importing it does (they are otherwise
        taken up when used)."""
        fr = Frame(None, m, _GlobEnv(self, m))
        for st in m.tree.body:
            if isinstance(st, ast.FunctionDef):
                v = Fn(self.repo.func_of(st), None, None, True)
                for d in reversed(st.decorator_list):
                    v = self.call(self.ev(d, fr), [v], {})
                self._made[self.repo.func_of(st)] = v
            elif isinstance(st, ast.ClassDef):
                self.made_class(self.repo.class_of(st))

    def made_class(self, c):
        """A class as its name refers to it: its metaclass, if it has one, made it."""
        if c not in self._made:
            self._made[c] = None
            for kw in c.node.keywords:
                if kw.arg == "metaclass" and c.node in c.module.tree.body:
                    fr = Frame(None, c.module, _GlobEnv(self, c.module))
                    m = self.ev(kw.value, fr)
                    if isinstance(m, Cls) and m.cls.find("__new__") is not None:
                        self._made[c] = self._metaclass(m, c.node, fr)
        return self._made[c] or Cls(c)

    def s_ClassDef(self, st, fr):
        if self.opaque_modules and self._opaque_def(st, fr):
            return
        c = self.repo.class_of(st)
        v = Cls(c) if c is not None else Top("class")
        for kw in st.keywords:
            if kw.arg == "metaclass":
                m = self.ev(kw.value, fr)
                if isinstance(m, Cls) and m.cls.find("__new__") is not None:
                    v = self._metaclass(m, st, fr)
        fr.env[st.name] = v
        for d in reversed(st.decorator_list):
            fr.env[st.name] = self.call(self.ev(d, fr), [fr.env[st.name]], {})

    def _metaclass(self, meta, st, fr):
        env = {}
        body = Frame(None, fr.module, env, parent=fr)
        for x in st.body:
            if isinstance(x, ast.FunctionDef):
                v = Fn(self.repo.func_of(x), None, fr, True)
                for d in reversed(x.decorator_list):
                    if isinstance(d, ast.Name) and d.id in ("classmethod", "staticmethod"):
                        v = ClsM(v) if d.id == "classmethod" else v
                    else:
                        v = self.call(self.ev(d, fr), [v], {})
                env[x.name] = v
            else:
                self.stmt(x, body)
        new = Fn(meta.cls.find("__new__"))
        return self.call(new, [meta, K(st.name), Tup([]),
                               Dct([[K(k), v] for k, v in env.items()])], {})

    def s_Match(self, st, fr):
        v = self.ev(st.subject, fr)
        for c in st.cases:
            if self.matches(c.pattern, v, fr) and (
                    c.guard is None or self.truth(self.ev(c.guard, fr), c.guard)):
                self.block(c.body, fr)
                return

    def matches(self, p, v, fr):
        if isinstance(p, ast.MatchValue):
            return self.compare(ast.Eq, v, self.ev(p.value, fr))
        if isinstance(p, ast.MatchSingleton):
            return self.compare(ast.Is, v, K(p.value))
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.matches(p.pattern, v, fr):
                return False
            if p.name is not None:
                self.assign(ast.Name(p.name, ast.Store()), v, fr)
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.matches(x, v, fr) for x in p.patterns)
        if isinstance(p, ast.MatchSequence):
            if isinstance(v, (Top, Atom)):
                raise Undecided("match")
            if not isinstance(v, (Lst, Tup)) and not (
                    isinstance(v, Inst) and is_namedtuple(v.cls)) or isinstance(v, Itr):
                return False
            its = self.iterate(v)
            star = [i for i, x in enumerate(p.patterns) if isinstance(x, ast.MatchStar)]
            if not star:
                return len(its) == len(p.patterns) and all(
                    self.matches(x, y, fr) for x, y in zip(p.patterns, its))
            i, tail = star[0], len(p.patterns) - star[0] - 1
            if len(its) < len(p.patterns) - 1:
                return False
            if not all(self.matches(x, y, fr) for x, y in zip(p.patterns[:i], its[:i])):
                return False
            if not all(self.matches(x, y, fr) for x, y in zip(
                    p.patterns[i + 1:], its[len(its) - tail:])):
                return False
            if p.patterns[i].name is not None:
                self.assign(ast.Name(p.patterns[i].name, ast.Store()),
                            Lst(its[i:len(its) - tail]), fr)
            return True
        if isinstance(p, ast.MatchMapping):
            if not isinstance(v, Dct):
                if isinstance(v, (Top, Atom)):
                    raise Undecided("match")
                return False
            ks = [self.ev(k, fr) for k in p.keys]
            for k, x in zip(ks, p.patterns):
                y = self.dget(v, k)
                if y is None or not self.matches(x, y, fr):
                    return False
            if p.rest is not None:
                self.assign(ast.Name(p.rest, ast.Store()), Dct([
                    x for x in v.items if not any(self.same(x[0], k) for k in ks)]), fr)
            return True
        if isinstance(p, ast.MatchClass):
            c = self.ev(p.cls, fr)
            if not self.truth(self.b_isinstance([v, c], {})):
                return False
            if p.patterns:
                if isinstance(c, Ext):
                    return len(p.patterns) == 1 and self.matches(p.patterns[0], v, fr)
                if is_namedtuple(c.cls):
                    ns = [K(n) for k in reversed(c.cls.mro()) for n in k.ann]
                elif c.cls.find_attr("__match_args__") is not None:
                    ns = self.iterate(self.cls_attr(c.cls, "__match_args__"))
                elif _dataclass(c.cls):
                    ns = [K(n) for n, _ in self.dc_fields(c.cls)]
                else:
                    raise AbsRaise(Ext("builtins.TypeError"))
                for n, x in zip(ns, p.patterns):
                    if not self.matches(x, self.getattr(v, n.v), fr):
                        return False
            for n, x in zip(p.kwd_attrs, p.kwd_patterns):
                try:
                    y = self.getattr(v, n)
                except AbsRaise as e:
                    if e.name != "AttributeError":
                        raise
                    return False
                if not self.matches(x, y, fr):
                    return False
            return True
        raise Undecided("match")

    def s_Try(self, st, fr):
        try:
            try:
                self.block(st.body, fr)
            except AbsRaise as e:
                for h in st.handlers:
                    if self._handles(h, e, fr):
                        old = self._bind_exc(h, e, fr)
                        try:
                            self.block(h.body, fr)
                        finally:
                            self._unbind_exc(h, old, fr)
                        break
                else:
                    raise
            else:
                self.block(st.orelse, fr)
        except Undecided:
            raise
        except (AbsRaise, _Ret, _Brk, _Cont):
            if st.finalbody:
                self.block(st.finalbody, fr)
            raise
        else:
            self.block(st.finalbody, fr)

    def _bind_exc(self, h, e, fr):
        if isinstance(e.val, Ext):
            e.val = ExtObj(e.val.dotted, [])
        if h.name:
            fr.env[h.name] = e.val
        old = fr.env.get("*exc")
        fr.env["*exc"] = e.val
        return old

    def _unbind_exc(self, h, old, fr):
        if h.name:
            fr.env.pop(h.name, None)
        if old is None:
            fr.env.pop("*exc", None)
        else:
            fr.env["*exc"] = old

    def _handles(self, h, e, fr):
        if h.type is None:
            return True
        return self.exc_matches(self.ev(h.type, fr), e)

    def exc_matches(self, types, e):
        for c in (types.items if isinstance(types, Tup) else [types]):
            if isinstance(c, Tup):
                if self.exc_matches(c, e):
                    return True
            elif isinstance(c, Cls):
                if isinstance(e.val, Inst) and c.cls in e.val.cls.mro():
                    return True
            elif isinstance(c, Ext):
                n = c.dotted.split(".")[-1]
                if n == "BaseException" or (n == "Exception" and e.name not in (
                        "SystemExit", "KeyboardInterrupt", "GeneratorExit")):
                    return True
                import builtins as B
                a, b = getattr(B, n, None), getattr(B, e.name, None)
                if isinstance(a, type) and isinstance(b, type) and issubclass(b, a):
                    return True
                if isinstance(e.val, Inst) and any(
                        str(x.dotted).split(".")[-1] == n for x in e.val.cls.external_bases()):
                    return True
        return False

    def s_With(self, st, fr):
        self._with(st.items, st.body, fr)

    def _with(self, items, body, fr):
        if not items:
            self.block(body, fr)
            return
        cm = self.ev(items[0].context_expr, fr)
        v = self.cm_enter(cm)
        if items[0].optional_vars is not None:
            self.assign(items[0].optional_vars, v, fr)
        try:
            self._with(items[1:], body, fr)
        except AbsRaise as e:
            if self.cm_exit(cm, e):
                return
            raise
        except (_Ret, _Brk, _Cont):
            self.cm_exit(cm, None)
            raise
        self.cm_exit(cm, None)


class _GlobEnv(dict):
    """Environment of a module's top level, stored in interp.globals."""

    def __init__(self, interp, m):
        dict.__init__(self)
        self.i, self.m = interp, m

    def __contains__(self, k):
        return (self.m.name, k) in self.i.globals

    def __getitem__(self, k):
        return self.i.globals[(self.m.name, k)]

    def __setitem__(self, k, v):
        self.i.globals[(self.m.name, k)] = v

    def get(self, k, d=None):
        return self.i.globals.get((self.m.name, k), d)


class _Marker:
    pass


class _No:
    pass


_NO = _No()


def _plain(v):
    if isinstance(v, K):
        return v.v
    if isinstance(v, (Tup, Lst)):
        xs = [_plain(x) for x in v.items]
        if any(x is _NO for x in xs):
            return _NO
        return tuple(xs) if isinstance(v, Tup) else xs
    if isinstance(v, Dct):
        out = {}
        for k, x in v.items:
            a, b = _plain(k), _plain(x)
            if a is _NO or b is _NO:
                return _NO
            out[a] = b
        return out
    return _NO


def _plain_host(v):
    return v is None or isinstance(v, (str, int, float, bytes, tuple, list, dict))


def lift(p):
    if isinstance(p, tuple):
        return Tup([lift(x) for x in p])
    if isinstance(p, list):
        return Lst([lift(x) for x in p])
    if isinstance(p, dict):
        return Dct([[lift(k), lift(v)] for k, v in p.items()])
    return K(p)


def _lin(sym, a, k):
    if a == 0 or sym is None:
        return K(k)
    return Lin(sym, a, k)


def _texty(v):
    return isinstance(v, Txt) or isinstance(v, K) and isinstance(v.v, str)


def is_namedtuple(c):
    return any(str(getattr(b, "dotted", "")).split(".")[-1] == "NamedTuple"
               for b in c.external_bases()) if not isinstance(c, _Marker) else False


def _is_exc(c):
    return any(str(getattr(b, "dotted", "")).split(".")[-1] in ("Exception", "BaseException")
               for b in c.external_bases())


_gen_cache = {}


def _is_gen(fn):
    r = _gen_cache.get(fn)
    if r is None:
        r = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(fn)) \
            if not isinstance(fn, ast.Lambda) else False
        _gen_cache[fn] = r
    return r


_yield_cache = {}


def _has_yield(n):
    """A yield of the function `n` belongs to."""
    r = _yield_cache.get(n)
    if r is None:
        r = isinstance(n, (ast.Yield, ast.YieldFrom)) or any(
            _has_yield(c) for c in ast.iter_child_nodes(n)
            if not isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef,
                                  ast.AsyncFunctionDef)))
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            r = False
        _yield_cache[n] = r
    return r


def _not_impl(v):
    return isinstance(v, Ext) and v.dotted == "builtins.NotImplemented"


_dc_cache = {}


def _dataclass(c):
    """Options of the decorator `@dataclass`, {} for other classes."""
    r = _dc_cache.get(c)
    if r is None:
        r = {}
        for d in getattr(getattr(c, "node", None), "decorator_list", ()):
            if _dotted(d.func if isinstance(d, ast.Call) else d).split(".")[-1] == "dataclass":
                r = {"eq": True}
                for k in (d.keywords if isinstance(d, ast.Call) else ()):
                    r[k.arg] = getattr(k.value, "value", True)
        _dc_cache[c] = r
    return r


def _dotted(e):
    parts = []
    while isinstance(e, ast.Attribute):
        parts.append(e.attr)
        e = e.value
    if isinstance(e, ast.Name):
        parts.append(e.id)
    return ".".join(reversed(parts))


from . import pylib  # noqa: E402  (it uses the values above)
