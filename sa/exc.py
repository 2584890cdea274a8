"""Which exception classes may escape a function (interprocedural)."""
import ast

from .repo import FuncInfo, ClassInfo, External, walk_own, dotted


class Escapes:
    """escapes(f): {exception ClassInfo: witness}, witness = (node, callee|None)."""

    def __init__(self, cx, tracked, unknown_by_name=True, skip=None):
        self.skip = skip or (lambda call, f, exc: False)
        self.cx = cx
        self.repo = cx.repo
        self.tracked = set(tracked)
        self.by_name = unknown_by_name
        self.esc = {}
        self._sites = {}
        self._def = {}
        self._solve()

    # -- lexical handlers ------------------------------------------------
    def caught(self, node, exc, f):
        """Is an exception of class exc raised at node caught inside f?"""
        child, p = node, self.repo.parent_of.get(node)
        while p is not None and p is not f.node:
            if isinstance(p, ast.Try) and any(child is s for s in p.body):
                for h in p.handlers:
                    if self.handler_catches(h, exc, f):
                        return True
            if isinstance(p, (ast.FunctionDef, ast.Lambda)) and p is not f.node:
                break
            child, p = p, self.repo.parent_of.get(p)
        return False

    def handler_catches(self, h, exc, f):
        if h.type is None:
            return True
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        for t in ts:
            r = self.repo.resolve(t, f)
            if isinstance(r, ClassInfo) and (r is exc or exc.is_subclass_of(r)):
                return True
            d = r.dotted.split(".")[-1] if isinstance(r, External) else dotted(t)
            if d in ("Exception", "BaseException"):
                return True
            if isinstance(r, External) or r is None:
                for b in exc.external_bases():
                    if isinstance(b, External) and b.dotted.split(".")[-1] == d:
                        return True
        return False

    # -- sites -------------------------------------------------------------
    def sites(self, f):
        """(raises: [(node, cls)], calls: [(node, [FuncInfo])]) of f"""
        if f in self._sites:
            return self._sites[f]
        raises, calls = [], []
        later = self.deferred(f)
        for n in walk_own(f.node):
            if later and self._inside(n, later):
                continue
            if isinstance(n, ast.Raise):
                if n.exc is None:
                    h = self._handler_of(n, f)
                    if h is not None:
                        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                        for t in ts:
                            r = self.repo.resolve(t, f) if t is not None else None
                            if isinstance(r, ClassInfo) and r in self.tracked:
                                raises.append((n, r))
                    continue
                e = n.exc.func if isinstance(n.exc, ast.Call) else n.exc
                r = self.repo.resolve(e, f)
                if isinstance(r, ClassInfo) and r in self.tracked:
                    raises.append((n, r))
            elif isinstance(n, ast.Call):
                ts = self.targets(n, f)
                if ts:
                    calls.append((n, ts))
        self._sites[f] = raises, calls
        return self._sites[f]

    def deferred(self, f):
        """Lambdas that f returns (directly or through a local): their bodies
        run where the result of f is called."""
        if isinstance(f.node, ast.Lambda):
            return {}
        if f in self._def:
            return self._def[f]
        from .util import values_of
        out = {}
        for n in walk_own(f.node):
            if isinstance(n, ast.Return) and n.value is not None:
                for v in values_of(n.value, f):
                    if isinstance(v, ast.Lambda):
                        out[v] = FuncInfo(f.module, v, f.qual + ".<lambda>", None, f)
        self._def[f] = out
        return out

    def _inside(self, n, lambdas):
        p = self.repo.parent_of.get(n)
        while p is not None and not isinstance(p, ast.FunctionDef):
            if p in lambdas:
                return True
            p = self.repo.parent_of.get(p)
        return False

    def _handler_of(self, n, f):
        p = self.repo.parent_of.get(n)
        while p is not None and p is not f.node:
            if isinstance(p, ast.ExceptHandler):
                return p
            p = self.repo.parent_of.get(p)
        return None

    def targets(self, call, f):
        cx = self.cx
        fn = call.func
        # getattr(x, name)(...)
        if isinstance(fn, ast.Call) and isinstance(fn.func, ast.Name) and \
                fn.func.id == "getattr" and len(fn.args) >= 2:
            return self._getattr(fn, f)
        if isinstance(fn, ast.Name):
            r = self.repo.resolve_name(fn.id, f)
            if isinstance(r, tuple) and r[0] == "local":
                f = r[1]
                from .util import local_assigns
                out = []
                for v in local_assigns(f, fn.id):
                    if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and \
                            v.func.id == "getattr" and len(v.args) >= 2:
                        out += self._getattr(v, f)
                    elif isinstance(v, ast.Attribute):
                        out += self._attr(v, f)
                    elif isinstance(v, ast.Call):
                        for t, _b in cx.cr.targets(v, f)[0]:
                            if isinstance(t, FuncInfo):
                                out += list(self.deferred(
                                    getattr(t, "target", t)).values())
                return out
        ts, ok = cx.cr.targets(call, f)
        out = []
        for t, _b in ts:
            if isinstance(t, ClassInfo):
                i = t.find("__init__")
                if i is not None:
                    out.append(i)
            elif isinstance(t, FuncInfo):
                out.append(getattr(t, "target", t))
        if not ts and isinstance(fn, ast.Attribute):
            out = self._attr(fn, f)
        return out

    def _attr(self, fn, f):
        cs, ok = self.cx.cr.receiver_classes(fn.value, f)
        out = []
        for c in cs:
            if isinstance(c, ClassInfo):
                out += [getattr(x, "target", x) for x in self.cx.cr.dispatch(c, fn.attr)]
        if out or not self.by_name:
            return out
        if self.repo.resolve(fn, f) is not None:
            return []
        if cs and ok:
            return []
        return list(self.repo.methods_named(fn.attr))

    def _getattr(self, c, f):
        names, _ = self.cx.vals.possible(c.args[1], f)
        cs, ok = self.cx.cr.receiver_classes(c.args[0], f)
        cs = [k for k in cs if isinstance(k, ClassInfo)]
        out = []
        for nm in names:
            if not isinstance(nm, str):
                continue
            if cs:
                for k in cs:
                    out += [getattr(x, "target", x) for x in self.cx.cr.dispatch(k, nm)]
            else:
                out += self.repo.methods_named(nm)
        return list(dict.fromkeys(out))

    # -- solve ----------------------------------------------------------------
    def _solve(self):
        fs = list(self.repo.functions)
        for f in self.repo.functions:
            fs.extend(self.deferred(f).values())
        self.esc = {f: {} for f in fs}
        callers = {}
        for f in fs:
            r, cs = self.sites(f)
            for n, c in r:
                if not self.caught(n, c, f):
                    self.esc[f].setdefault(c, (n, None))
            for n, ts in cs:
                for t in ts:
                    callers.setdefault(t, []).append((f, n))
        todo = [f for f in fs if self.esc[f]]
        while todo:
            t = todo.pop()
            for f, n in callers.get(t, ()):
                for c in list(self.esc[t]):
                    if c not in self.esc[f] and not self.caught(n, c, f) \
                            and not self.skip(n, f, c):
                        self.esc[f][c] = (n, t)
                        todo.append(f)

    def chain(self, f, exc):
        out = []
        seen = set()
        while f is not None and f not in seen:
            seen.add(f)
            n, t = self.esc[f][exc]
            out.append("%s@%d" % (f.qual, n.lineno))
            f = t
        return " -> ".join(out)
