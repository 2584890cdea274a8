"""Small shared AST helpers."""
import ast

from .repo import FuncInfo, ClassInfo, Module, External, walk_own, dotted


def const_str(n):
    return n.value if isinstance(n, ast.Constant) and isinstance(n.value, str) else None


def own_calls(f):
    return [n for n in walk_own(f.node) if isinstance(n, ast.Call)]


def local_assigns(f, name):
    """All expressions assigned to local `name` in f (None for opaque)."""
    out = []
    for n in walk_own(f.node):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name) and t.id == name:
                    out.append(n.value)
                elif isinstance(t, (ast.Tuple, ast.List)):
                    for i, e in enumerate(t.elts):
                        if isinstance(e, ast.Name) and e.id == name:
                            if isinstance(n.value, (ast.Tuple, ast.List)) and \
                                    len(n.value.elts) == len(t.elts):
                                out.append(n.value.elts[i])
                            else:
                                out.append(None)
                        elif isinstance(e, ast.Starred) and isinstance(e.value, ast.Name) \
                                and e.value.id == name:
                            out.append(None)
        elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) \
                and n.target.id == name:
            if n.value is not None:
                out.append(n.value)
        elif isinstance(n, ast.NamedExpr) and n.target.id == name:
            out.append(n.value)
        elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) \
                and n.target.id == name:
            out.append(None)
        elif isinstance(n, (ast.For, ast.comprehension)):
            if any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(n.target)):
                out.append(None)
        elif isinstance(n, ast.With):
            for it in n.items:
                if it.optional_vars is not None and any(
                        isinstance(x, ast.Name) and x.id == name
                        for x in ast.walk(it.optional_vars)):
                    out.append(None)
        elif isinstance(n, ast.ExceptHandler) and n.name == name:
            out.append(None)
    return out


def param_names(f):
    return [p.name for p in f.params]


def values_of(expr, f, depth=0):
    """Possible expressions `expr` may stand for (expanding locals and
    conditional expressions); expressions that cannot be expanded stay."""
    if depth > 6:
        return [expr]
    if isinstance(expr, ast.IfExp):
        return values_of(expr.body, f, depth + 1) + values_of(expr.orelse, f, depth + 1)
    if isinstance(expr, ast.BoolOp):
        out = []
        for v in expr.values:
            out.extend(values_of(v, f, depth + 1))
        return out
    if isinstance(expr, ast.NamedExpr):
        return values_of(expr.value, f, depth + 1)
    if isinstance(expr, ast.Name) and isinstance(f, FuncInfo):
        if expr.id in param_names(f):
            return [expr]
        vs = local_assigns(f, expr.id) if expr.id in f.local_names() else []
        if vs and all(v is not None for v in vs):
            out = []
            for v in vs:
                out.extend(values_of(v, f, depth + 1))
            return out
    return [expr]


def bind(call, f, skip_first):
    """Bind a call's arguments to FuncInfo f's parameters.
    Returns (mapping param name -> expr, star_pos, star_kw, errors)."""
    params = list(f.params)
    if skip_first and params and params[0].kind in ("pos", "posonly"):
        params = params[1:]
    pos = [p for p in params if p.kind in ("pos", "posonly")]
    kwonly = [p for p in params if p.kind == "kw"]
    vararg = next((p for p in params if p.kind == "vararg"), None)
    kwarg = next((p for p in params if p.kind == "kwarg"), None)
    m, errors = {}, []
    star_pos = star_kw = False
    i = 0
    for a in call.args:
        if isinstance(a, ast.Starred):
            star_pos = True
            continue
        if star_pos:
            continue
        if i < len(pos):
            m[pos[i].name] = a
            i += 1
        elif vararg is not None:
            m.setdefault("*" + vararg.name, []).append(a)
        else:
            errors.append("too many positional arguments (at most %d)" % len(pos))
            break
    for k in call.keywords:
        if k.arg is None:
            star_kw = True
            continue
        cand = [p for p in pos if p.kind == "pos"] + kwonly
        p = next((p for p in cand if p.name == k.arg), None)
        if p is not None:
            if p.name in m:
                errors.append("multiple values for argument '%s'" % k.arg)
            m[p.name] = k.value
        elif kwarg is not None:
            m.setdefault("**" + kwarg.name, []).append(k)
        else:
            errors.append("unexpected keyword argument '%s'" % k.arg)
    if not star_pos and not star_kw:
        for p in pos + kwonly:
            if p.name not in m and p.default is None:
                errors.append("missing argument '%s'" % p.name)
    elif not star_kw:
        for p in kwonly:
            if p.name not in m and p.default is None:
                errors.append("missing keyword argument '%s'" % p.name)
    return m, star_pos, star_kw, errors


class CallResolver:
    """Resolve call expressions to FuncInfo/ClassInfo targets using static
    name resolution plus mypy receiver types."""

    def __init__(self, repo, types):
        self.repo = repo
        self.types = types

    def targets(self, call, scope):
        """-> (list of (FuncInfo|ClassInfo|External, bound), complete)
        bound: True when the receiver is passed implicitly."""
        fn = call.func
        repo = self.repo
        if isinstance(fn, ast.Name):
            return self._entity(repo.resolve(fn, scope), fn, scope)
        if isinstance(fn, ast.Attribute):
            r = repo.resolve(fn, scope)
            if isinstance(r, FuncInfo):
                base = repo.resolve(fn.value, scope)
                if isinstance(base, ClassInfo):
                    return [(r, r.is_classmethod)], True
                return [(r, False)], True
            if isinstance(r, (ClassInfo, External)):
                return [(r, False)], True
            return self._method(fn, scope)
        return [], False

    def _entity(self, r, fn, scope):
        if isinstance(r, FuncInfo):
            return [(r, False)], True
        if isinstance(r, (ClassInfo, External)):
            return [(r, False)], True
        return [], False

    def receiver_classes(self, expr, scope):
        m = scope.module if isinstance(scope, FuncInfo) else scope
        if isinstance(expr, ast.Name) and isinstance(scope, FuncInfo):
            f = scope
            while f is not None:
                if f.params and f.params[0].name == expr.id and f.cls is not None \
                        and not f.is_static:
                    return {f.cls}, True
                if expr.id in f.local_names():
                    break
                f = f.parent
        if isinstance(expr, ast.Call) and isinstance(expr.func, ast.Name) \
                and expr.func.id == "super" and isinstance(scope, FuncInfo):
            c = scope.owner_class
            if c is not None:
                return {("super", c)}, True
        cs, ok = self.types.classes_of(expr, m)
        if not cs and isinstance(scope, FuncInfo):
            got = self.infer(expr, scope)
            if got:
                return got, True
        return cs, ok

    # -- classes mypy does not know (untyped functions) -----------------
    def infer(self, expr, scope, depth=0, seen=None):
        """Classes an expression certainly is one of, or an empty set."""
        k = (id(expr), id(scope))
        if not hasattr(self, "_inf"):
            self._inf, self._inf_busy = {}, set()
        if k in self._inf:
            return self._inf[k]
        if k in self._inf_busy or len(self._inf_busy) > 25:
            return set()
        self._inf_busy.add(k)
        try:
            r = self._infer(expr, scope, depth, seen)
        finally:
            self._inf_busy.discard(k)
        if r or not self._inf_busy:
            self._inf[k] = r
        return r

    def _infer(self, expr, scope, depth, seen):
        cs, ok = self.types.classes_of(expr, scope.module
                                       if isinstance(scope, FuncInfo) else scope)
        if cs and ok:
            return cs
        rec = lambda e, sc=scope: self.infer(e, sc, depth + 1, seen)

        def union(es):
            out = set()
            for e, sc in es:
                r = rec(e, sc)
                if not r:
                    return set()
                out |= r
            return out
        if isinstance(expr, ast.IfExp):
            return union([(expr.body, scope), (expr.orelse, scope)])
        if isinstance(expr, ast.Name) and isinstance(scope, FuncInfo):
            f = scope
            while f is not None and expr.id not in f.local_names():
                f = f.parent
            if f is None or expr.id in param_names(f):
                if f is not None and f.params and f.params[0].name == expr.id and \
                        f.cls is not None and not f.is_static:
                    return {f.cls}
                return set()
            w = self._with_item(f, expr.id)
            if w is not None:
                return self._cm_value(w, f, depth, seen)
            vs = local_assigns(f, expr.id)
            if not vs or any(v is None for v in vs):
                return set()
            return union([(v, f) for v in vs])
        if isinstance(expr, ast.Attribute) and isinstance(expr.value, ast.Name) \
                and isinstance(scope, FuncInfo):
            base = rec(expr.value)
            base = [c for c in base if isinstance(c, ClassInfo)]
            es = []
            for c in base:
                for k in c.mro() + c.all_subclasses():
                    for g in k.methods.values():
                        if not g.params:
                            continue
                        me = g.params[0].name
                        for n in walk_own(g.node):
                            ts = n.targets if isinstance(n, ast.Assign) else \
                                [n.target] if isinstance(n, ast.AnnAssign) and n.value else []
                            for t in ts:
                                if isinstance(t, ast.Attribute) and t.attr == expr.attr \
                                        and isinstance(t.value, ast.Name) and t.value.id == me:
                                    es.append((n.value, g))
            return union(es) if es else set()
        if isinstance(expr, ast.Call):
            fn = expr.func
            r = self.repo.resolve(fn, scope)
            if isinstance(r, ClassInfo):
                return {r}
            on = None
            if isinstance(fn, ast.Attribute):
                b = self.repo.resolve(fn.value, scope)
                if isinstance(b, ClassInfo):
                    on = b
            ts, ok = self.targets(expr, scope)
            if not ok or not ts:
                return set()
            out = set()
            for t, _b in ts:
                if isinstance(t, ClassInfo):
                    out.add(t)
                    continue
                if not isinstance(t, FuncInfo):
                    return set()
                g = getattr(t, "target", t)
                if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(g.node)):
                    return set()
                rets = [n for n in walk_own(g.node) if isinstance(n, ast.Return)
                        and n.value is not None]
                if not rets:
                    return set()
                for n in rets:
                    v = n.value
                    if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and \
                            g.is_classmethod and g.params and \
                            v.func.id == g.params[0].name and on is not None:
                        out.add(on)
                        continue
                    o = self.infer(v, g, depth + 1, seen)
                    if not o:
                        return set()
                    out |= o
            return out
        return set()

    def _with_item(self, f, name):
        for n in walk_own(f.node):
            if isinstance(n, ast.With):
                for it in n.items:
                    if isinstance(it.optional_vars, ast.Name) and it.optional_vars.id == name:
                        return it.context_expr
        return None

    def _cm_value(self, e, f, depth, seen):
        if not isinstance(e, ast.Call):
            return set()
        ts, ok = self.targets(e, f)
        out = set()
        for t, _b in ts:
            g = getattr(t, "target", t)
            if not isinstance(g, FuncInfo) or not any(
                    (d or "").split(".")[-1] == "contextmanager" for d in g.decorator_names()):
                return set()
            for n in walk_own(g.node):
                if isinstance(n, ast.Yield) and n.value is not None:
                    o = self.infer(n.value, g, depth + 1, seen)
                    if not o:
                        return set()
                    out |= o
        return out

    def _method(self, fn, scope):
        cs, ok = self.receiver_classes(fn.value, scope)
        out = []
        # a member of a union whose class only knows the method through some
        # subclasses is not what the call means when another member has it
        if any(isinstance(c, ClassInfo) and c.find(fn.attr) for c in cs):
            cs = [c for c in cs if not isinstance(c, ClassInfo) or c.find(fn.attr)]
        for c in cs:
            if isinstance(c, tuple) and c[0] == "super":
                found = None
                for k in c[1].mro()[1:]:
                    if fn.attr in k.methods:
                        found = k.methods[fn.attr]
                        break
                if found is not None:
                    out.append((found, True))
                else:
                    ok = False
            elif isinstance(c, ClassInfo):
                fs = self.dispatch(c, fn.attr)
                if fs:
                    out.extend((x, not x.is_static) for x in fs)
                else:
                    ok = False
            else:
                ok = False
        seen, res = set(), []
        for t, b in out:
            if t not in seen:
                seen.add(t)
                res.append((t, b))
        return res, ok and bool(res)

    def dispatch(self, c, name):
        """All implementations a receiver of static class c may run."""
        out = []
        for k in [c] + c.all_subclasses():
            b = k.find(name)
            if b is not None and b not in out:
                out.append(b)
        return out
