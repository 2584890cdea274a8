"""Loader and name/class resolver for the AcaciaMC source tree.

Everything here works on the syntax trees of /repo's current working tree;
nothing of the repository is imported or executed.
"""
import ast
import os

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "acaciamc"


class AnalysisError(Exception):
    """The analysis lost an anchor it needs (reported with exit code 3)."""


class Module:
    def __init__(self, name, path, rel, source):
        self.name = name
        self.path = path
        self.rel = rel
        self.source = source
        self.tree = ast.parse(source, filename=path)
        self.is_pkg = os.path.basename(path) == "__init__.py"
        self.ns = {}          # name -> entity
        self.star = []        # star-imported module names
        self.consts = {}      # name -> list of (kind, node) statements
        self.functions = []
        self.classes = []

    def __repr__(self):
        return "<module %s>" % self.name


class External:
    def __init__(self, dotted):
        self.dotted = dotted

    def __repr__(self):
        return "<ext %s>" % self.dotted

    def __eq__(self, o):
        return isinstance(o, External) and o.dotted == self.dotted

    def __hash__(self):
        return hash(self.dotted)


class Param:
    def __init__(self, name, kind, default, annotation):
        self.name = name
        self.kind = kind      # pos, kw, vararg, kwarg, posonly
        self.default = default
        self.annotation = annotation


class FuncInfo:
    def __init__(self, module, node, qual, cls, parent):
        self.module = module
        self.node = node
        self.qual = qual      # module-relative qualified name
        self.cls = cls        # class whose body directly holds it
        self.parent = parent  # enclosing FuncInfo
        self.name = node.name if not isinstance(node, ast.Lambda) else "<lambda>"
        self.nested = {}
        self.params = _params(node.args)
        self._locals = None

    @property
    def id(self):
        return "%s:%s" % (self.module.rel, self.qual)

    @property
    def owner_class(self):
        """Class whose method this is, or that a nested function sits in."""
        f = self
        while f is not None:
            if f.cls is not None:
                return f.cls
            f = f.parent
        return None

    def decorator_names(self):
        out = []
        for d in getattr(self.node, "decorator_list", ()):
            out.append(dotted(d.func if isinstance(d, ast.Call) else d))
        return out

    @property
    def is_static(self):
        return "staticmethod" in self.decorator_names()

    @property
    def is_classmethod(self):
        return "classmethod" in self.decorator_names()

    @property
    def is_property(self):
        return "property" in self.decorator_names()

    def is_abstract_like(self):
        """abstract, or nothing but docstring / pass / NotImplementedError"""
        if any(d and d.split(".")[-1] == "abstractmethod"
               for d in self.decorator_names()):
            return True
        body = self.node.body if isinstance(self.node.body, list) else []
        rest = [st for st in body if not (
            isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant))]
        if not body:
            return False
        for st in rest:
            if isinstance(st, ast.Pass):
                continue
            if isinstance(st, ast.Raise) and st.exc is not None:
                e = st.exc.func if isinstance(st.exc, ast.Call) else st.exc
                if dotted(e) == "NotImplementedError":
                    continue
            return False
        return True

    def local_names(self):
        if self._locals is None:
            s = set(p.name for p in self.params)
            glob = set()
            for n in walk_own(self.node):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    s.add(n.id)
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not self.node:
                    s.add(n.name)
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    s.add(n.name)
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    for a in n.names:
                        s.add((a.asname or a.name).split(".")[0])
                elif isinstance(n, (ast.Global, ast.Nonlocal)):
                    glob.update(n.names)
            self._locals = s - glob
        return self._locals

    def __repr__(self):
        return "<func %s>" % self.id


class PartialFunc(FuncInfo):
    """`name = partialmethod(f, fixed...)` seen as a method of its own."""

    def __init__(self, target, call, name, cls):
        FuncInfo.__init__(self, target.module, target.node,
                          "%s.%s" % (cls.qual, name), cls, target.parent)
        self.name = name
        self.target = target
        self.fixed = {}
        own, rest = self.params[:1], list(self.params[1:])
        for a in call.args[1:]:
            if rest and rest[0].kind in ("pos", "posonly"):
                self.fixed[rest.pop(0).name] = a
        for k in call.keywords:
            if k.arg is not None:
                self.fixed[k.arg] = k.value
                for p in rest:
                    if p.name == k.arg:
                        p.default = k.value
        self.params = own + rest

    def local_names(self):
        return self.target.local_names()


class ClassInfo:
    def __init__(self, module, node, qual, parent):
        self.module = module
        self.node = node
        self.qual = qual
        self.name = node.name
        self.parent = parent  # enclosing FuncInfo or None
        self.outer = None     # enclosing ClassInfo
        self.methods = {}
        self.attrs = {}       # class level assignments name -> value node
        self.ann = {}         # class level annotations name -> node
        self.bases = []
        self.subclasses = []
        self._mro = None
        self._alias = {}

    @property
    def id(self):
        return "%s:%s" % (self.module.rel, self.qual)

    def mro(self):
        if self._mro is not None:
            return self._mro
        out = [self]
        seqs = [b.mro() for b in self.bases if isinstance(b, ClassInfo)]
        seqs.append([b for b in self.bases if isinstance(b, ClassInfo)])
        seqs = [list(s) for s in seqs if s]
        while seqs:
            for s in seqs:
                c = s[0]
                if not any(c in t[1:] for t in seqs):
                    break
            else:
                c = seqs[0][0]
            if c not in out:
                out.append(c)
            seqs = [[x for x in s if x is not c] for s in seqs]
            seqs = [s for s in seqs if s]
        return out

    def find(self, name):
        """The function run for attribute `name` of an instance: a method, a
        class level alias of a function, or a partialmethod of one."""
        for c in self.mro():
            if name in c.methods:
                return c.methods[name]
            if name in c.attrs:
                return c.alias(name)
        return None

    def alias(self, name):
        """FuncInfo behind a class level `name = function` or
        `name = partialmethod(function, ...)`, else None."""
        if name in self._alias:
            return self._alias[name]
        self._alias[name] = None
        e = self.attrs[name]
        r = None
        if isinstance(e, ast.Name):
            r = self._fn(e)
        elif isinstance(e, ast.Call) and e.args and \
                dotted(e.func).split(".")[-1] == "partialmethod":
            t = self._fn(e.args[0])
            if t is not None:
                r = PartialFunc(t, e, name, self)
        self._alias[name] = r
        return r

    def _fn(self, e):
        if isinstance(e, ast.Name):
            if e.id in self.methods:
                return self.methods[e.id]
            if e.id in self.attrs:
                return self.alias(e.id)
            r = self.module.repo.resolve_name(e.id, self.parent or self.module)
            return r if isinstance(r, FuncInfo) else None
        return None

    def find_attr(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c.attrs[name]
        return None

    def all_subclasses(self):
        out, todo = [], [self]
        while todo:
            c = todo.pop()
            for s in c.subclasses:
                if s not in out:
                    out.append(s)
                    todo.append(s)
        return out

    def is_subclass_of(self, other):
        return other in self.mro()

    def external_bases(self):
        out = []
        for c in self.mro():
            for b in c.bases:
                if not isinstance(b, ClassInfo):
                    out.append(b)
        return out

    def __repr__(self):
        return "<class %s>" % self.id


def _params(args):
    out = []
    posonly = getattr(args, "posonlyargs", [])
    pos = list(posonly) + list(args.args)
    defaults = [None] * (len(pos) - len(args.defaults)) + list(args.defaults)
    for i, (a, d) in enumerate(zip(pos, defaults)):
        out.append(Param(a.arg, "posonly" if i < len(posonly) else "pos", d, a.annotation))
    if args.vararg:
        out.append(Param(args.vararg.arg, "vararg", None, args.vararg.annotation))
    for a, d in zip(args.kwonlyargs, args.kw_defaults):
        out.append(Param(a.arg, "kw", d, a.annotation))
    if args.kwarg:
        out.append(Param(args.kwarg.arg, "kwarg", None, args.kwarg.annotation))
    return out


def dotted(node):
    """Textual dotted name of a Name/Attribute chain, else ''."""
    parts = []
    while isinstance(node, ast.Attribute):
        parts.append(node.attr)
        node = node.value
    if isinstance(node, ast.Name):
        parts.append(node.id)
        return ".".join(reversed(parts))
    return ""


def walk_own(fn):
    """Walk a function's own nodes, not descending into nested defs/classes
    (their headers - decorators, defaults - are visited; lambdas and
    comprehensions are descended into)."""
    if isinstance(fn, ast.Lambda):
        todo = [fn.body]
    elif isinstance(fn, ast.Module):
        todo = list(fn.body)
    else:
        todo = list(fn.body)
    while todo:
        n = todo.pop(0)
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            todo = list(n.decorator_list) + list(n.args.defaults) + \
                [d for d in n.args.kw_defaults if d] + todo
        elif isinstance(n, ast.ClassDef):
            todo = list(n.decorator_list) + list(n.bases) + \
                [k.value for k in n.keywords] + todo
        else:
            todo = list(ast.iter_child_nodes(n)) + todo


class Repo:
    def __init__(self, root=None, extra=None):
        """`extra`: {module name: source}, modules that users of the package may write."""
        self.root = root or REPO
        self.extra = extra or {}
        self.modules = {}
        self.functions = []
        self.classes = []
        self._func_of_node = {}
        self._class_of_node = {}
        self.parent_of = {}
        self._memo = None
        self._load()
        self._index()
        self._resolve_bases()
        self._memo = {}
        for c in self.classes:
            c._mro = c.mro()

    # -- loading ---------------------------------------------------------
    def _load(self):
        base = os.path.join(self.root, PKG)
        if not os.path.isdir(base):
            raise AnalysisError("package directory %s is missing" % base)
        for d, dirs, files in os.walk(base):
            dirs[:] = sorted(x for x in dirs if x != "__pycache__")
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                path = os.path.join(d, f)
                rel = os.path.relpath(path, self.root)
                name = rel[:-3].replace(os.sep, ".")
                if name.endswith(".__init__"):
                    name = name[:-9]
                with open(path, encoding="utf-8") as fh:
                    src = fh.read()
                try:
                    self.modules[name] = Module(name, path, rel, src)
                    self.modules[name].repo = self
                except SyntaxError as e:
                    raise AnalysisError("cannot parse %s: %s" % (rel, e))
        for name, src in self.extra.items():
            path = os.path.join(self.root, *name.split(".")) + ".py"
            self.modules[name] = Module(name, path, os.path.relpath(path, self.root), src)
            self.modules[name].repo = self
        if len(self.modules) < 40:
            raise AnalysisError("only %d modules found" % len(self.modules))

    # -- indexing --------------------------------------------------------
    def _index(self):
        for m in self.modules.values():
            for p in ast.walk(m.tree):
                for c in ast.iter_child_nodes(p):
                    self.parent_of[c] = p
            self._index_body(m, m.tree.body, "", None, None)
        for m in self.modules.values():
            self._ns(m)

    def _index_body(self, m, body, prefix, cls, parent):
        for st in body:
            self._index_stmt(m, st, prefix, cls, parent)

    def _index_stmt(self, m, st, prefix, cls, parent):
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            q = prefix + st.name
            f = FuncInfo(m, st, q, cls, parent)
            self.functions.append(f)
            m.functions.append(f)
            self._func_of_node[st] = f
            if cls is not None:
                cls.methods[st.name] = f
            elif parent is not None:
                parent.nested[st.name] = f
            self._index_body(m, st.body, q + ".", None, f)
        elif isinstance(st, ast.ClassDef):
            q = prefix + st.name
            c = ClassInfo(m, st, q, parent)
            c.outer = cls
            self.classes.append(c)
            m.classes.append(c)
            self._class_of_node[st] = c
            if parent is not None and cls is None:
                parent.nested[st.name] = c
            elif cls is not None:
                cls.attrs[st.name] = st
            self._index_body(m, st.body, q + ".", c, parent)
        else:
            if cls is not None:
                if isinstance(st, ast.Assign):
                    for t in st.targets:
                        if isinstance(t, ast.Name):
                            cls.attrs[t.id] = st.value
                elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                    cls.ann[st.target.id] = st.annotation
                    if st.value is not None:
                        cls.attrs[st.target.id] = st.value
            for sub in _sub_bodies(st):
                self._index_body(m, sub, prefix, cls, parent)

    def _ns(self, m):
        def rel_base(level):
            parts = m.name.split(".")
            if not m.is_pkg:
                parts = parts[:-1]
            if level > 1:
                parts = parts[:-(level - 1)]
            return ".".join(parts)

        def imp(node, ns, star):
            if isinstance(node, ast.Import):
                for a in node.names:
                    if a.asname:
                        ns[a.asname] = ("module", a.name)
                    else:
                        ns[a.name.split(".")[0]] = ("module", a.name.split(".")[0])
            elif isinstance(node, ast.ImportFrom):
                base = node.module or ""
                if node.level:
                    rb = rel_base(node.level)
                    base = rb + ("." + base if base else "")
                for a in node.names:
                    if a.name == "*":
                        if star is not None:
                            star.append(base)
                    else:
                        ns[a.asname or a.name] = ("from", base, a.name)
        self._imp = imp

        def scan(body):
            for st in body:
                if isinstance(st, (ast.Import, ast.ImportFrom)):
                    imp(st, m.ns, m.star)
                elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    m.ns[st.name] = self._func_of_node[st]
                elif isinstance(st, ast.ClassDef):
                    m.ns[st.name] = self._class_of_node[st]
                else:
                    for n in ast.walk(st):
                        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                            m.ns.setdefault(n.id, ("var", m.name, n.id))
                    if isinstance(st, ast.Assign):
                        for t in st.targets:
                            if isinstance(t, ast.Name):
                                m.consts.setdefault(t.id, []).append(st)
                    elif isinstance(st, ast.AnnAssign) and st.value is not None:
                        if isinstance(st.target, ast.Name):
                            m.consts.setdefault(st.target.id, []).append(st)
                    for sub in _sub_bodies(st):
                        scan(sub)
        scan(m.tree.body)
        # names assigned via `global` in functions
        for f in m.functions:
            for n in walk_own(f.node):
                if isinstance(n, ast.Global):
                    found = {}
                    for x in walk_own(f.node):
                        imp(x, found, None)
                    for g in n.names:
                        m.ns.setdefault(g, found.get(g, ("var", m.name, g)))

    def public_names(self, m):
        for st in m.tree.body:
            if isinstance(st, (ast.Assign, ast.AugAssign)):
                t = st.targets[0] if isinstance(st, ast.Assign) else st.target
                if isinstance(t, ast.Name) and t.id == "__all__":
                    try:
                        return list(ast.literal_eval(st.value))
                    except ValueError:
                        pass
        names = [n for n in m.ns if not n.startswith("_")]
        for s in m.star:
            if s in self.modules:
                names.extend(self.public_names(self.modules[s]))
        return names

    # -- name resolution -------------------------------------------------
    def resolve_global(self, m, name, _seen=None):
        if not _seen and self._memo is not None:
            k = (m, name)
            if k not in self._memo:
                self._memo[k] = self._resolve_global(m, name)
            return self._memo[k]
        return self._resolve_global(m, name, _seen)

    def _resolve_global(self, m, name, _seen=None):
        _seen = _seen or set()
        if (m.name, name) in _seen:
            return None
        _seen.add((m.name, name))
        if name in m.ns:
            return self._deref(m.ns[name], _seen)
        for s in m.star:
            if s in self.modules:
                sm = self.modules[s]
                if name in self.public_names(sm):
                    r = self.resolve_global(sm, name, _seen)
                    if r is not None:
                        return r
        if m.is_pkg and m.name + "." + name in self.modules:
            return self.modules[m.name + "." + name]
        return None

    def _deref(self, e, _seen=None):
        if isinstance(e, tuple):
            if e[0] == "module":
                if e[1] in self.modules:
                    return self.modules[e[1]]
                return External(e[1])
            if e[0] == "from":
                _, base, name = e
                if base in self.modules:
                    r = self.resolve_global(self.modules[base], name, _seen)
                    if r is not None:
                        return r
                    sub = base + "." + name
                    if sub in self.modules:
                        return self.modules[sub]
                    return External(sub)
                return External(base + "." + name)
        return e

    def resolve_name(self, name, scope):
        if self._memo is None:
            return self._resolve_name(name, scope)
        k = (scope, name, 1)
        if k not in self._memo:
            self._memo[k] = self._resolve_name(name, scope)
        return self._memo[k]

    def _resolve_name(self, name, scope):
        """Resolve a bare name seen from `scope` (FuncInfo or Module).
        Returns FuncInfo/ClassInfo/Module/External/('var',mod,name)/
        ('local',func,name)/None."""
        f = scope
        while isinstance(f, FuncInfo):
            if name in f.nested:
                return f.nested[name]
            if name in f.local_names():
                for n in walk_own(f.node):
                    if isinstance(n, (ast.Import, ast.ImportFrom)):
                        ns = {}
                        self._imp_for(f.module)(n, ns, None)
                        if name in ns:
                            return self._deref(ns[name])
                return ("local", f, name)
            if f.parent is None:
                m = f.module
                break
            f = f.parent
        else:
            m = f
        r = self.resolve_global(m, name)
        if r is not None:
            return r
        import builtins
        if hasattr(builtins, name):
            return External("builtins." + name)
        return None

    def _imp_for(self, m):
        def imp(node, ns, star):
            parts = m.name.split(".")
            if not m.is_pkg:
                parts = parts[:-1]
            if isinstance(node, ast.Import):
                for a in node.names:
                    if a.asname:
                        ns[a.asname] = ("module", a.name)
                    else:
                        ns[a.name.split(".")[0]] = ("module", a.name.split(".")[0])
            else:
                base = node.module or ""
                if node.level:
                    p = parts if node.level == 1 else parts[:-(node.level - 1)]
                    base = ".".join(p) + ("." + base if base else "")
                for a in node.names:
                    if a.name != "*":
                        ns[a.asname or a.name] = ("from", base, a.name)
        return imp

    def resolve(self, node, scope):
        """Resolve a Name/Attribute expression statically."""
        if isinstance(node, ast.Name):
            return self.resolve_name(node.id, scope)
        if isinstance(node, ast.Attribute):
            b = self.resolve(node.value, scope)
            if isinstance(b, Module):
                r = self.resolve_global(b, node.attr)
                if r is None and b.name + "." + node.attr in self.modules:
                    return self.modules[b.name + "." + node.attr]
                return r
            if isinstance(b, External):
                full = b.dotted + "." + node.attr
                if full in self.modules:
                    return self.modules[full]
                return External(full)
            if isinstance(b, ClassInfo):
                r = b.find(node.attr)
                if r is not None:
                    return r
                a = b.find_attr(node.attr)
                if a is not None:
                    return ("classattr", b, node.attr)
        return None

    def _resolve_bases(self):
        for c in self.classes:
            scope = c.parent if c.parent is not None else c.module
            for b in c.node.bases:
                base = b.value if isinstance(b, ast.Subscript) else b
                r = self.resolve(base, scope)
                if r is None and c.outer is not None and isinstance(base, ast.Name):
                    st = c.outer.attrs.get(base.id)
                    if isinstance(st, ast.ClassDef):
                        r = self._class_of_node[st]
                if isinstance(r, tuple) and r[0] == "local":
                    r = None
                c.bases.append(r if r is not None else External(dotted(base)))
        for c in self.classes:
            for b in c.bases:
                if isinstance(b, ClassInfo):
                    b.subclasses.append(c)

    # -- lookups ----------------------------------------------------------
    def module(self, name):
        full = name if name.startswith(PKG) else PKG + "." + name
        if full not in self.modules:
            raise AnalysisError("module %s vanished" % full)
        return self.modules[full]

    def cls(self, name, module=None):
        c = [x for x in self.classes if x.name == name
             and (module is None or x.module.name == PKG + "." + module)]
        if not c:
            raise AnalysisError("class %s vanished" % name)
        return c[0]

    def has_cls(self, name):
        return any(x.name == name for x in self.classes)

    def func(self, module, qual):
        m = self.module(module)
        for f in m.functions:
            if f.qual == qual:
                return f
        raise AnalysisError("function %s:%s vanished" % (m.rel, qual))

    def method(self, clsname, name, module=None):
        c = self.cls(clsname, module)
        f = c.find(name)
        if f is None:
            raise AnalysisError("method %s.%s vanished" % (clsname, name))
        return f

    def methods_named(self, name):
        return [c.methods[name] for c in self.classes if name in c.methods]

    def func_of(self, node):
        return self._func_of_node.get(node)

    def class_of(self, node):
        return self._class_of_node.get(node)

    def enclosing(self, node):
        """Enclosing FuncInfo (or None) of any ast node."""
        p = self.parent_of.get(node)
        child = node
        while p is not None:
            if isinstance(p, (ast.FunctionDef, ast.AsyncFunctionDef)):
                # decorators / defaults belong to the outside
                if child in p.body or isinstance(child, ast.arguments) is False and \
                        any(child is b for b in p.body):
                    return self._func_of_node[p]
            child, p = p, self.parent_of.get(p)
        return None

    def module_of(self, node):
        p = node
        while p in self.parent_of:
            p = self.parent_of[p]
        for m in self.modules.values():
            if m.tree is p:
                return m
        return None

    def scope_of(self, node):
        f = self.enclosing(node)
        return f if f is not None else self.module_of(node)

    def where(self, node, scope=None):
        m = None
        if isinstance(scope, FuncInfo):
            m = scope.module
        elif isinstance(scope, Module):
            m = scope
        else:
            m = self.module_of(node)
        return "%s:%d" % (m.rel if m else "?", getattr(node, "lineno", 0))


def _sub_bodies(st):
    for name in ("body", "orelse", "finalbody"):
        b = getattr(st, name, None)
        if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
            yield b
    for h in getattr(st, "handlers", ()):
        yield h.body
