"""Static types of expressions, taken from mypy's semantic analysis of the
current tree (mypy is used only as a resolver: its own diagnostics are
ignored)."""
import os
import tempfile
import shutil

from .repo import AnalysisError, ClassInfo, PKG


class Types:
    """type_of(node, module) -> (frozenset of class full names, complete)

    `complete` is False when part of the type is unknown (Any)."""

    def __init__(self, repo):
        self.repo = repo
        self._map = {}
        self._classes = {}
        for c in repo.classes:
            self._classes.setdefault(c.module.name + "." + c.name, c)
            self._classes[c.module.name + "." + c.qual] = c
        self._by_line = {}
        for c in repo.classes:
            self._by_line[(c.module.name, c.name)] = c
        self._build()

    def _build(self):
        try:
            from mypy import build
            from mypy.options import Options
            from mypy.modulefinder import BuildSource
        except ImportError as e:
            raise AnalysisError("mypy is not importable: %s" % e)
        o = Options()
        o.check_untyped_defs = True
        o.ignore_missing_imports = True
        o.export_types = True
        o.preserve_asts = True
        o.incremental = False
        o.cache_dir = os.devnull
        o.show_traceback = False
        o.local_partial_types = False
        o.allow_redefinition = True
        srcs = [BuildSource(m.path, m.name, None) for m in self.repo.modules.values()
                if m.name not in self.repo.extra]
        cwd = os.getcwd()
        tmp = tempfile.mkdtemp(prefix="vt_mypy_")
        try:
            os.chdir(self.repo.root)
            o.mypy_path = [self.repo.root]
            try:
                res = build.build(srcs, o, alt_lib_path=None)
            except Exception as e:  # CompileError and friends
                raise AnalysisError("mypy could not analyse the tree: %s" % str(e)[:300])
        finally:
            os.chdir(cwd)
            shutil.rmtree(tmp, ignore_errors=True)
        self.n = 0
        from mypy.nodes import Node, Expression, MypyFile, SymbolNode
        types = res.types

        def attrs(cls, _c={}):
            if cls not in _c:
                names = []
                for k in cls.__mro__:
                    names.extend(getattr(k, "__mypyc_attrs__", ()))
                    names.extend(getattr(k, "__slots__", ()) or ())
                _c[cls] = [n for n in dict.fromkeys(names)
                           if not n.startswith("__")
                           and n not in ("info", "node", "type", "names", "fullname",
                                         "analyzed_type", "line", "column")]
            return _c[cls]

        for mod, f in res.files.items():
            if not mod.startswith(PKG):
                continue
            d = self._map.setdefault(mod, {})
            seen = set()
            todo = list(f.defs)
            while todo:
                o = todo.pop()
                if isinstance(o, (list, tuple)):
                    todo.extend(o)
                    continue
                if isinstance(o, dict):
                    todo.extend(o.values())
                    continue
                if not isinstance(o, Node) or isinstance(o, MypyFile):
                    continue
                if id(o) in seen:
                    continue
                seen.add(id(o))
                if isinstance(o, Expression):
                    t = types.get(o)
                    if t is not None and o.line >= 0 and o.end_line is not None:
                        k = (o.line, o.column, o.end_line, o.end_column)
                        d.setdefault(k, []).append(t)
                        self.n += 1
                for n in attrs(type(o)):
                    try:
                        v = getattr(o, n)
                    except AttributeError:
                        continue
                    if isinstance(v, (Node, list, tuple, dict)):
                        todo.append(v)
        if self.n < 5000:
            raise AnalysisError("mypy resolved only %d expressions" % self.n)

    def raw(self, node, module):
        k = (node.lineno, node.col_offset, node.end_lineno, node.end_col_offset)
        return self._map.get(module.name, {}).get(k, [])

    def classes_of(self, node, module):
        """(set of ClassInfo-or-fullname instances, complete flag)"""
        out, complete = set(), True
        ts = self.raw(node, module)
        if not ts:
            return out, False
        for t in ts:
            c = self._walk(t, out)
            complete = complete and c
        return out, complete

    def _walk(self, t, out):
        from mypy import types as T
        t = T.get_proper_type(t)
        if isinstance(t, T.Instance):
            fn = t.type.fullname
            out.add(self.lookup(fn, t.type))
            return True
        if isinstance(t, T.UnionType):
            ok = True
            for i in t.items:
                ok = self._walk(i, out) and ok
            return ok
        if isinstance(t, T.NoneType):
            out.add("None")
            return True
        if isinstance(t, T.TupleType):
            fb = t.partial_fallback.type.fullname
            out.add(self.lookup(fb, t.partial_fallback.type))
            return True
        if isinstance(t, T.LiteralType):
            return self._walk(t.fallback, out)
        if isinstance(t, T.TypeVarType):
            return self._walk(t.upper_bound, out)
        if isinstance(t, (T.CallableType, T.Overloaded, T.TypeType)):
            out.add("callable")
            return True
        return False

    def lookup(self, fullname, info=None):
        if fullname in self._classes:
            return self._classes[fullname]
        # local classes are named module.Class@line
        if info is not None and info.module_name.startswith(PKG):
            base = fullname.rsplit(".", 1)[-1].split("@")[0]
            c = self._by_line.get((info.module_name, base))
            if c is not None:
                return c
        return fullname
