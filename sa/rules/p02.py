"""P02: internal calls match the functions they reach; names exist."""
import ast
import builtins

from ..ctx import Ctx
from ..repo import FuncInfo, ClassInfo, Module, External, PartialFunc, walk_own, dotted
from ..util import bind, own_calls
from ..vals import EnumMember

BUILTINS = set(dir(builtins)) | {"__file__", "__name__", "__path__", "__class__",
                                 "__builtins__", "__doc__", "reveal_type"}


def check(chk, repo):
    cx = Ctx(repo)
    cr = cx.cr
    chk.rule("R1", "every call that resolves to functions of the repository binds "
                   "to each of them (arity, keywords)")
    chk.rule("R2", "an overriding method accepts what the overridden one accepts")
    chk.rule("R3", "a method looked up by a computed name exists and accepts the "
                   "arguments given")
    chk.rule("R4", "every name that is read is bound somewhere in its scopes")
    chk.rule("R5", "every attribute read from a module or class of the repository exists")
    chk.rule("R6", "every attribute read from an object of a known class exists")

    scopes = [(f, f.node) for f in repo.functions] + \
        [(m, m.tree) for m in repo.modules.values()]
    instattrs = InstAttrs(repo)

    for scope, node in scopes:
        for n in walk_own(node):
            if isinstance(n, ast.Call):
                _call(chk, cx, n, scope)
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                _name(chk, repo, n, scope)
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                _attr(chk, cx, n, scope, instattrs)
    # class bodies
    for c in repo.classes:
        sc = c.parent or c.module
        for st in c.node.body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                continue
            for n in ast.walk(st):
                if isinstance(n, ast.Call):
                    _call(chk, cx, n, sc)
    _overrides(chk, repo)
    _computed(chk, cx)
    chk.rule("R7", "keyword arguments handed over in a dictionary carry exactly the "
                   "names the receiving method takes")
    chk.rule("R8", "a constant table is only looked up with keys it has")
    _handed_over(chk, repo)
    _tables(chk, cx)
    chk.floor("R1", 1200)
    chk.floor("R2", 150)
    chk.floor("R3", 20)
    chk.floor("R4", 5000)
    chk.floor("R6", 150)
    chk.floor("R7", 4)
    chk.floor("R8", 4)
    chk.assume("objects whose class mypy cannot determine are not checked by R1/R6 "
               "unless no class of the repository could accept the call")


def _sites(f):
    return f.id if isinstance(f, (FuncInfo, ClassInfo)) else f.rel


def _sname(scope):
    return scope.id if isinstance(scope, FuncInfo) else scope.rel


def _ctor(c):
    """FuncInfo of the constructor (and whether it can be judged)."""
    for k in c.mro():
        if "__init__" in k.methods:
            # an external base before it cannot define another __init__
            return k.methods["__init__"], True
        if "__new__" in k.methods:
            return k.methods["__new__"], True
        if any(isinstance(d, ast.AST) for d in ()):
            break
    return None, not c.external_bases()


def _metaclassed(c):
    for k in c.mro():
        for kw in k.node.keywords:
            if kw.arg == "metaclass" and dotted(kw.value).split(".")[-1] != "ABCMeta":
                return True
    return False


def _call(chk, cx, n, scope):
    repo = cx.repo
    ts, ok = cx.cr.targets(n, scope)
    if not ts:
        # unknown receiver: does any method of that name accept the call?
        if isinstance(n.func, ast.Attribute):
            _unknown_recv(chk, cx, n, scope)
        return
    for t, bound in ts:
        skip = bound
        tgt = t
        if isinstance(t, ClassInfo):
            if _metaclassed(t) or t.node.decorator_list:
                continue
            tgt, can = _ctor(t)
            skip = True
            if tgt is None:
                if can and not t.external_bases() and (n.args or n.keywords):
                    if any(isinstance(a, ast.Starred) for a in n.args) or \
                            any(k.arg is None for k in n.keywords):
                        continue
                    chk.bad("R1", "%s->%s" % (_sname(scope), t.id), repo.where(n, scope),
                            "%s takes no arguments" % t.name)
                continue
        if not isinstance(tgt, FuncInfo):
            continue
        if _redecorated(tgt):
            continue
        _m, _sp, _sk, errs = bind(n, tgt, skip)
        if _sk and not _sp and not errs and tgt.cls is not None and \
                any(p.kind == "kwarg" for p in tgt.params):
            # `**` feeds the variable part: the declared ones come explicitly
            ps = tgt.params[1:] if skip else tgt.params
            errs = ["missing argument %r" % p.name for p in ps
                    if p.kind in ("pos", "posonly") and p.default is None
                    and p.name not in _m]
        chk.ob("R1", "%s->%s" % (_sname(scope), tgt.id), not errs,
               repo.where(n, scope),
               "call of %s: %s" % (tgt.qual, "; ".join(errs)))


def _redecorated(f):
    ds = f.decorator_names()
    return any(d.split(".")[-1] not in ("staticmethod", "classmethod", "abstractmethod",
                                        "property", "contextmanager", "overload",
                                        "wraps")
               for d in ds)


def _unknown_recv(chk, cx, n, scope):
    name = n.func.attr
    repo = cx.repo
    r = repo.resolve(n.func, scope)
    if r is not None:
        return
    cands = [f for f in repo.methods_named(name) if not _redecorated(f)]
    if not cands or name in COMMON or any(_redecorated(f) for f in repo.methods_named(name)):
        return
    errs = []
    for f in cands:
        e = bind(n, f, not f.is_static)[3]
        if not e:
            chk.good("R1", "%s->?.%s" % (_sname(scope), name), repo.where(n, scope))
            return
        errs.append("%s: %s" % (f.qual, e[0]))
    chk.bad("R1", "%s->?.%s" % (_sname(scope), name), repo.where(n, scope),
            "no method named %r accepts this call (%s)" % (name, errs[0]))


COMMON = set()
for _t in (str, bytes, list, dict, set, tuple, int, float, frozenset, type(open), Exception):
    COMMON |= set(dir(_t))
import io as _io  # noqa: E402
import re as _re  # noqa: E402
COMMON |= set(dir(_io.TextIOWrapper)) | set(dir(_re.compile(""))) | {"match", "group"}


def _name(chk, repo, n, scope):
    i = n.id
    if i in BUILTINS:
        return
    s = scope
    while isinstance(s, FuncInfo):
        if i in s.local_names():
            chk.good("R4", i, "")
            return
        s = s.parent
    # comprehension / lambda variables
    p = n
    while p in repo.parent_of:
        p = repo.parent_of[p]
        if isinstance(p, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for g in p.generators:
                if any(isinstance(x, ast.Name) and x.id == i for x in ast.walk(g.target)):
                    return
        elif isinstance(p, ast.Lambda):
            a = p.args
            if i in [x.arg for x in a.args + a.kwonlyargs] + \
                    [x.arg for x in (a.vararg, a.kwarg) if x]:
                return
        elif isinstance(p, ast.ClassDef):
            for st in ast.walk(p):
                if isinstance(st, ast.Name) and isinstance(st.ctx, ast.Store) and st.id == i \
                        or isinstance(st, ast.FunctionDef) and st.name == i:
                    return
    m = scope.module if isinstance(scope, FuncInfo) else scope
    if repo.resolve_global(m, i) is not None or _module_binds(m, i):
        chk.good("R4", i, "")
        return
    if _in_type_only(repo, n):
        return
    chk.bad("R4", "%s:%s" % (_sname(scope), i), repo.where(n, scope),
            "name %r is not bound in any enclosing scope" % i)


def _in_type_only(repo, n):
    """inside an annotation of a local variable (never evaluated)"""
    p, child = repo.parent_of.get(n), n
    while p is not None:
        if isinstance(p, ast.AnnAssign) and p.annotation is child:
            return repo.enclosing(p) is not None
        child, p = p, repo.parent_of.get(p)
    return False


def _module_binds(m, name):
    if not hasattr(m, "_all_binds"):
        s = set()
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Global):
                s.update(n.names)
        for n in walk_own(m.tree):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                s.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                s.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    s.add((a.asname or a.name).split(".")[0])
        m._all_binds = s
    return name in m._all_binds


class InstAttrs:
    """Names an instance of a class may carry."""

    def __init__(self, repo):
        self.repo = repo
        self.own = {}
        self.dynamic = set()
        for f in repo.functions:
            c = f.owner_class
            if c is None:
                continue
            s = self.own.setdefault(c, set())
            for n in walk_own(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    s.add(n.attr)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
                        n.func.id == "setattr":
                    self.dynamic.add(c)
        # attributes stored from anywhere (other.x = ...)
        self.anywhere = set()
        for m in repo.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and \
                        not (isinstance(n.value, ast.Name) and n.value.id == "self"):
                    self.anywhere.add(n.attr)
        self._c = {}

    def has(self, c, name):
        k = (c, name)
        if k not in self._c:
            self._c[k] = self._has(c, name)
        return self._c[k]

    def _has(self, c, name):
        if name in self.anywhere or name.startswith("__"):
            return True
        for k in c.mro():
            if name in k.methods or name in k.attrs or name in k.ann or \
                    name in self.own.get(k, ()) or k in self.dynamic:
                return True
            if any(name in [m.name for m in x.methods.values()] for x in (k,)):
                return True
            if "__getattr__" in k.methods:
                return True
            for n in k.node.body:
                if isinstance(n, ast.ClassDef) and n.name == name:
                    return True
        for b in c.external_bases():
            if not isinstance(b, External):
                return True
            d = b.dotted.split(".")[-1]
            if d in ("ABC", "object", "ABCMeta", "Generic"):
                continue
            py = {"Exception": Exception, "Enum": None, "NamedTuple": None,
                  "List": list, "Dict": dict, "list": list, "dict": dict, "tuple": tuple,
                  "type": type}.get(d)
            if py is None or hasattr(py, name):
                return True
        return False


def _attr(chk, cx, n, scope, ia):
    repo = cx.repo
    if n.attr.startswith("__"):
        return
    r = repo.resolve(n.value, scope)
    if isinstance(r, Module):
        ok = _module_binds(r, n.attr) or repo.resolve_global(r, n.attr) is not None or \
            (r.name + "." + n.attr) in repo.modules or n.attr.startswith("__")
        chk.ob("R5", "%s:%s.%s" % (_sname(scope), r.name, n.attr), ok,
               repo.where(n, scope), "module %s has no %r" % (r.name, n.attr))
        return
    if isinstance(r, ClassInfo):
        if _metaclassed(r):
            return
        ok = any(ia.has(k, n.attr) for k in [r] + r.all_subclasses()) or \
            hasattr(type, n.attr)
        if r.external_bases():
            d = {b.dotted.split(".")[-1] if isinstance(b, External) else "?"
                 for b in r.external_bases()}
            if d & {"Enum", "IntEnum"}:
                if n.attr in ("name", "value") or n.attr.startswith("_"):
                    return
                ok = n.attr in r.attrs or n.attr in r.methods
        chk.ob("R5", "%s:%s.%s" % (_sname(scope), r.id, n.attr), ok,
               repo.where(n, scope), "%s has no %r" % (r.name, n.attr))
        return
    if r is not None:
        return
    cs, ok = cx.cr.receiver_classes(n.value, scope)
    cs = {c for c in cs if isinstance(c, (ClassInfo, tuple))}
    if not cs or not ok:
        return
    names = []
    for c in cs:
        if isinstance(c, tuple):
            names.append(any(ia.has(k, n.attr) for k in c[1].mro()[1:])
                         or bool(c[1].external_bases()))
        else:
            names.append(any(ia.has(k, n.attr) for k in [c] + c.all_subclasses()))
    if _hasattr_guarded(repo, n):
        return
    chk.ob("R6", "%s:%s.%s" % (_sname(scope), "|".join(sorted(
        (c[1].name if isinstance(c, tuple) else c.name) for c in cs)), n.attr),
        any(names), repo.where(n, scope),
        "no attribute %r on objects of class %s" % (n.attr, ", ".join(
            sorted(c[1].name if isinstance(c, tuple) else c.name for c in cs))))


def _hasattr_guarded(repo, n):
    f = repo.enclosing(n)
    if f is None:
        return False
    for c in walk_own(f.node):
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == "hasattr":
            if len(c.args) == 2 and isinstance(c.args[1], ast.Constant) and \
                    c.args[1].value == n.attr:
                return True
    return False


def _overrides(chk, repo):
    for c in repo.classes:
        for name in list(c.methods) + [a for a in c.attrs if a not in c.methods]:
            if name in ("__init__", "__new__", "__init_subclass__"):
                continue
            sub = c.methods.get(name) or c.alias(name)
            if sub is None or _redecorated(sub):
                continue
            for b in c.mro()[1:]:
                if name not in b.methods and name not in b.attrs:
                    continue
                base = b.methods.get(name) or b.alias(name)
                if base is None or _redecorated(base):
                    continue
                err = _incompatible(base, sub)
                chk.ob("R2", "%s.%s<%s" % (c.id, name, b.id), not err,
                       repo.where(sub.node, sub.module), err or "")


def _incompatible(base, sub):
    def split(f):
        ps = list(f.params)
        if not f.is_static and ps and ps[0].kind in ("pos", "posonly"):
            ps = ps[1:]
        return ([p for p in ps if p.kind in ("pos", "posonly")],
                [p for p in ps if p.kind == "kw"],
                any(p.kind == "vararg" for p in ps),
                any(p.kind == "kwarg" for p in ps))
    bp, bk, bv, bw = split(base)
    sp, sk, sv, sw = split(sub)
    if bw and not bk:
        # `(*args, **kwds)`-style protocols: each class has its own arguments
        # (checked at their producers by R7)
        return None
    if base.is_property != sub.is_property:
        return None
    if len(sp) < len(bp) and not sv:
        return "takes %d positional arguments, the overridden method takes %d" % (
            len(sp), len(bp))
    for i, p in enumerate(sp[len(bp):]):
        if p.default is None and p.name not in [q.name for q in bk]:
            return "extra required argument %r" % p.name
    for i, p in enumerate(bp):
        if p.default is not None and i < len(sp) and sp[i].default is None:
            return "argument %r is required here but optional in the overridden method" \
                % sp[i].name
    for p in bk:
        if not sw and p.name not in [q.name for q in sk + sp]:
            return "keyword argument %r is not accepted" % p.name
    for p in sk:
        if p.default is None and p.name not in [q.name for q in bk]:
            return "extra required keyword argument %r" % p.name
    if bv and not sv:
        return "does not accept a variable number of arguments"
    if bw and not sw:
        return "does not accept arbitrary keyword arguments"
    return None


def _computed(chk, cx):
    """getattr(obj, <computed name>)(args...)"""
    repo = cx.repo
    for f in repo.functions:
        for c in own_calls(f):
            if not (isinstance(c.func, ast.Name) and c.func.id == "getattr"
                    and len(c.args) in (2, 3)):
                continue
            if isinstance(repo.resolve(c.func, f), (FuncInfo, ClassInfo)):
                continue
            names, complete = cx.vals.possible(c.args[1], f)
            names = [x for x in names if isinstance(x, str)]
            if not names:
                continue
            cs, ok = cx.cr.receiver_classes(c.args[0], f)
            cs = [k for k in cs if isinstance(k, ClassInfo)]
            uses = _uses_of(f, c, repo)
            if len(c.args) == 3:
                continue
            for nm in sorted(set(names)):
                if cs:
                    impls = []
                    for k in cs:
                        impls += [x for x in cx.cr.dispatch(k, nm) if x not in impls]
                    plain = any(nm in k.attrs or nm in k.ann for c0 in cs for k in c0.mro())
                    isattr = any(_stores_attr(repo, k, nm) for k in cs)
                else:
                    impls, plain, isattr = repo.methods_named(nm), False, False
                if not impls:
                    chk.ob("R3", "%s:getattr %s" % (f.id, nm), plain or isattr,
                           repo.where(c, f), "no method %r on %s" % (
                               nm, ", ".join(k.name for k in cs) or "any class"))
                    continue
                if cs:
                    lacking = [k for k in cs if not cx.cr.dispatch(k, nm)]
                    if lacking and ok:
                        chk.bad("R3", "%s:getattr %s" % (f.id, nm), repo.where(c, f),
                                "%s has no method %r" % (lacking[0].name, nm))
                        continue
                for call in uses:
                    for t in impls:
                        if _redecorated(t):
                            continue
                        errs = bind(call, t, not t.is_static)[3]
                        chk.ob("R3", "%s:getattr %s->%s" % (f.id, nm, t.id), not errs,
                               repo.where(call, f), "; ".join(errs))


def _stores_attr(repo, c, nm):
    for k in c.mro():
        for g in k.methods.values():
            for n in walk_own(g.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr == nm:
                    return True
    return False


def _uses_of(f, c, repo):
    """Calls made on the result of getattr call c (directly or via a local)."""
    p = repo.parent_of.get(c)
    if isinstance(p, ast.Call) and p.func is c:
        return [p]
    out = []
    if isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name):
        nm = p.targets[0].id
        for n in walk_own(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == nm:
                out.append(n)
    return out


def _dict_keys_returned(f):
    """list of key sets of dict displays that f returns (alone or in a tuple)"""
    out = []

    def disp(e):
        if isinstance(e, ast.Dict):
            ks = [k.value for k in e.keys if isinstance(k, ast.Constant)]
            if len(ks) == len(e.keys):
                out.append((set(ks), e))
        elif isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and \
                e.func.id == "dict" and not e.args and \
                all(k.arg for k in e.keywords):
            out.append(({k.arg for k in e.keywords}, e))
        elif isinstance(e, ast.Tuple):
            for x in e.elts:
                disp(x)
        elif isinstance(e, ast.Name):
            from ..util import local_assigns
            if e.id in f.local_names() and e.id not in [p.name for p in f.params]:
                stores = [n for n in walk_own(f.node) if isinstance(n, ast.Subscript)
                          and isinstance(n.ctx, ast.Store)
                          and isinstance(n.value, ast.Name) and n.value.id == e.id]
                if stores:
                    return
                vs = local_assigns(f, e.id)
                if len(vs) == 1 and vs[0] is not None:
                    disp(vs[0])
    for n in walk_own(f.node):
        if isinstance(n, ast.Return) and n.value is not None:
            disp(n.value)
    return out


def _replaced(m, base, c, repo):
    """Method m of base is only called by methods of base that class c replaces."""
    callers = [f for f in repo.functions for n in walk_own(f.node)
               if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == m]
    return bool(callers) and all(
        f.cls is base and f.name != m and c.find(f.name) is not f for f in callers)


def _handed_over(chk, repo):
    for base in repo.classes:
        for name, bm in base.methods.items():
            kw = [p for p in bm.params if p.kind == "kwarg"]
            if not kw or name.startswith("__"):
                continue
            fixed = {p.name for p in bm.params if p.kind != "kwarg"}
            nfixed = len([p for p in bm.params if p.kind in ("pos", "posonly")])
            sibs = [m for m in base.methods if m != name]
            if not any(_is_proto(base, m, repo) for m in sibs):
                continue
            for c in base.all_subclasses():
                cm = c.find(name)
                if cm is None or cm is bm or any(p.kind == "kwarg" for p in cm.params):
                    continue
                own = [p for p in cm.params[nfixed:]]
                allow = {p.name for p in own}
                req = {p.name for p in own if p.default is None}
                for m in sibs:
                    pm = c.find(m)
                    if pm is None or _replaced(m, base, c, repo):
                        continue
                    for keys, e in _dict_keys_returned(pm):
                        err = ""
                        if keys - allow:
                            err = "unexpected argument %s" % sorted(keys - allow)
                        elif req - keys:
                            err = "missing argument %s" % sorted(req - keys)
                        chk.ob("R7", "%s->%s.%s" % (pm.id, c.id, name), not err,
                               repo.where(e, pm), err)


def _is_proto(base, m, repo):
    for c in [base] + base.all_subclasses():
        if m in c.methods and _dict_keys_returned(c.methods[m]):
            return True
    return False


def _tables(chk, cx):
    from ..vals import DictV
    repo = cx.repo
    for f in repo.functions:
        for n in walk_own(f.node):
            if not (isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load)):
                continue
            t = cx.vals.fold(n.value, f)
            if not isinstance(t, DictV):
                continue
            tabs = [t]
            ks, kok = cx.vals.possible(n.slice, f)
            if not kok or not ks:
                continue
            for k in ks:
                if not isinstance(k, (str, int, EnumMember)):
                    continue
                ok = all(k in t.as_dict() for t in tabs)
                if not ok and _guarded_in(repo, f, n):
                    continue
                chk.ob("R8", "%s:%s[%r]" % (f.id, ast.unparse(n.value), k), ok,
                       repo.where(n, f), "the table has no entry for %r" % (k,))


def _guarded_in(repo, f, n):
    """a `key in table` test on the same expressions in the function, or a
    handler for the failed lookup"""
    a, b = ast.dump(n.value), ast.dump(n.slice)
    for c in walk_own(f.node):
        if isinstance(c, ast.Compare) and len(c.ops) == 1 and \
                isinstance(c.ops[0], (ast.In, ast.NotIn)) and \
                ast.dump(c.comparators[0]) == a and ast.dump(c.left) == b:
            return True
        if isinstance(c, ast.ExceptHandler) and c.type is not None and \
                dotted(c.type) in ("KeyError", "LookupError"):
            return True
    return False
