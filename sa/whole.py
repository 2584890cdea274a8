"""Abstract interpretation of the complete compiler on token streams: the real
Compiler constructor, parser, generator and (optionally) the optimizer; only the
file system, the tokenizer and binary modules are replaced by abstractions."""
import os
import posixpath
import re

from . import absint as A
from .absint import K, Lst, Dct, Inst, Atom, Undecided, NONE
from .lab import Lab
from .refsem import tokens


class Whole(Lab):
    def __init__(self, cx, max_paths=48):
        super().__init__(cx, max_paths)
        r, h = self.repo, self.I.hooks
        for f in [f for f in h if f.cls is self.C["Compiler"]]:
            del h[f]
        comp = self.C["Compiler"]
        T = r.cls("Tokenizer")
        self.ints, self.bools = "abcd", "pqr"
        self.I.opaque_modules = ()
        self.I.fuel0 = 600000

        def need(c, n):
            f = c.find(n)
            if f is None:
                raise Undecided("%s.%s" % (c.name, n))
            return f
        h[need(comp, "find_module")] = self._find_module
        h[need(comp, "_open_file")] = lambda I, fn, a, k: Atom(
            "file", None, {"path": a[-1]})
        h[need(T, "__init__")] = self._tok_init
        h[need(T, "get_next_token")] = self._tok_next
        B = r.cls("BinaryModule")
        h[need(B, "execute")] = self._bin_exec

    def _find_module(self, I, fn, a, k):
        meta = a[-1] if a else list(k.values())[0]
        name = self.I.getattr(meta, "last_name")
        if name.v in self.streams:
            return K(name.v)
        if "acaciamc.modules." + name.v in self.repo.modules:
            return K(name.v + ".py")
        return NONE

    def _tok_init(self, I, fn, a, k):
        src = [x for x in a if isinstance(x, Atom) and "path" in x.attrs][0]
        fn.self.fields["%path"] = src.attrs["path"]
        return NONE

    def _tok_next(self, I, fn, a, k):
        st = self.streams[fn.self.fields["%path"].v]
        return st.pop(0) if st else self.token("END_MARKER")

    def _bin_exec(self, I, fn, a, k):
        st = self.I.getattr(fn.self, "attribute_table")
        path = next((v.v for v in list(a) + list(fn.self.fields.values())
                     if isinstance(v, K) and isinstance(v.v, str) and v.v.endswith(".py")), None)
        if path is None:
            raise Undecided("binary module path")
        b = self.repo.resolve_global(
            self.repo.modules["acaciamc.modules." + path[:-3].split("/")[-1]], "acacia_build")
        res = self.I.call(A.Fn(b), list(a), dict(k))
        init = Lst([])
        if isinstance(res, Inst):
            init = self.I.getattr(res, "init_cmds")
            res = self.I.getattr(res, "attributes")
        if not isinstance(res, Dct):
            raise Undecided("acacia_build")
        for n in I.iterate(res):
            self.meth(st, "set", n, I.subscript(res, n))
        if not path.endswith("builtins.py"):
            return init
        for n in self.ints:
            self.meth(st, "set", K(n), self.intvar(n))
        for n in self.bools:
            self.meth(st, "set", K(n), self.boolvar(n))
        return init

    def start(self, streams):
        self.counter = 0
        self.ntok = 0
        self.consts = {}
        self.streams = {n: tokens(self, t) for n, t in streams.items()}

    def config(self, **kw):
        return self.I.instantiate(self.repo.cls("Config"), [], {
            k: v if isinstance(v, A.Val) else A.Tup(list(map(K, v))) if isinstance(v, tuple)
            else K(v) for k, v in kw.items()})

    def run_compiler(self, main="main", **cfg):
        """{path: command texts} the compiler produces."""
        c = self.I.instantiate(self.C["Compiler"], [K(main), self.config(**cfg)], {})
        return self.result(c)

    def result(self, c):
        om = self.I.getattr(c, "output_mgr")
        out = {}
        for f in self.I.iterate(self.I.getattr(om, "files")):
            p = self.meth(f, "get_path")
            if not isinstance(p, K):
                raise Undecided("path")
            if p.v in out:
                raise Undecided("two files at %s" % p.v)
            out[p.v] = self.texts(self.I.getattr(f, "commands"))
        return out


class TextWhole(Whole):
    """The complete compiler including the tokenizer, on program text."""

    def __init__(self, cx, max_paths=48):
        super().__init__(cx, max_paths)
        T = self.repo.cls("Tokenizer")
        for n in ("__init__", "get_next_token"):
            self.I.hooks.pop(T.find(n), None)
        self.I.hooks[self.C["Compiler"].find("_open_file")] = self._open

    def _open(self, I, fn, a, k):
        text = self.texts_[a[-1].v].splitlines(True)

        def readline(I, a, k):
            return K(text.pop(0) if text else "")
        return Atom("file", None, {"readline": A.Py(readline), "path": a[-1],
                                   "close": A.Py(lambda I, a, k: NONE)})

    def start(self, texts):
        self.counter = self.ntok = 0
        self.consts = {}
        self.texts_ = dict(texts)
        self.streams = dict(texts)


class FsWhole(Lab):
    """The complete compiler, nothing replaced but Python's own I/O: files are read
    from and written to an abstract file system, the library modules are those of
    the repository."""

    LIB = "/pkg/acaciamc/modules"

    def __init__(self, cx, max_paths=48):
        super().__init__(cx, max_paths)
        for f in [f for f in self.I.hooks if f.cls is self.C["Compiler"]]:
            del self.I.hooks[f]
        self.I.opaque_modules = ()
        self.I.fuel0 = 3000000
        self.I.depth0 = 400
        self.lib = {}
        base = os.path.join(self.repo.root, "acaciamc", "modules")
        for f in sorted(os.listdir(base)):
            p = os.path.join(base, f)
            if os.path.isfile(p):
                with open(p, encoding="utf-8") as h:
                    self.lib[self.LIB + "/" + f] = h.read()
        x = self.I.externs
        path = lambda f: lambda I, a, k: f(self.norm(a[0]))
        x["builtins.open"] = self._open
        x["os.path.isfile"] = path(lambda p: K(p in self.fs))
        x["os.path.isdir"] = path(lambda p: K(self.isdir(p)))
        x["os.path.exists"] = path(lambda p: K(p in self.fs or self.isdir(p)))
        x["os.path.realpath"] = x["os.path.abspath"] = path(K)
        x["os.path.normpath"] = lambda I, a, k: K(posixpath.normpath(self.text(a[0])))
        x["os.path.samefile"] = lambda I, a, k: K(self.norm(a[0]) == self.norm(a[1]))
        x["os.listdir"] = path(lambda p: Lst([K(n) for n in self.listing(p)]))
        x["os.makedirs"] = x["os.mkdir"] = path(self._mkdir)
        x["os.getcwd"] = lambda I, a, k: K("/w")
        x["shutil.rmtree"] = path(self._rmtree)
        loc = self.repo.resolve_global(
            self.repo.modules["acaciamc.localization"], "localize")
        self.I.hooks.pop(loc, None)
        x["pkgutil.get_data"] = self._get_data
        x["importlib.util.spec_from_file_location"] = self._spec
        x["importlib.util.module_from_spec"] = lambda I, a, k: a[0].attrs["module"]

    def text(self, v):
        if isinstance(v, K) and isinstance(v.v, str):
            return v.v
        raise Undecided("path %r" % (v,))

    def norm(self, v):
        return posixpath.normpath(posixpath.join("/w", self.text(v)))

    def isdir(self, p):
        return p in self.dirs or any(f.startswith(p.rstrip("/") + "/")
                                     for f in list(self.fs) + list(self.dirs))

    def listing(self, p):
        p = p.rstrip("/") + "/"
        names = {f[len(p):].split("/")[0] for f in list(self.fs) + list(self.dirs)
                 if f.startswith(p)}
        return sorted(names, reverse=self.backwards)

    def _mkdir(self, p):
        self.dirs.add(p)
        return NONE

    def _rmtree(self, p):
        self.removed.append(p)
        for s in (self.fs, self.written):
            for f in [f for f in s if f == p or f.startswith(p + "/")]:
                del s[f]
        self.dirs = {d for d in self.dirs if d != p and not d.startswith(p + "/")}
        return NONE

    def _open(self, I, a, k):
        p = self.norm(a[0] if a else k["file"])
        m = a[1] if len(a) > 1 else k.get("mode", K("r"))
        mode = self.text(m)
        self.opened.append((p, mode, k.get("encoding", a[3] if len(a) > 3 else NONE)))
        if mode[0] in "wax":
            if p in self.dirs or not self.isdir(posixpath.dirname(p)):
                raise A.AbsRaise(A.Ext("builtins.FileNotFoundError"))
            self.fs[p] = ""
            self.written[p] = [] if mode[0] != "a" else self.written.get(p, [])

            def write(I, a, k):
                self.written[p].append(a[0])
                return NONE
            return self._handle(write=write)
        if p not in self.fs:
            raise A.AbsRaise(A.Ext("builtins.FileNotFoundError"))
        lines = self.fs[p].splitlines(True)

        def readline(I, a, k):
            return K(lines.pop(0) if lines else "")

        def read(I, a, k):
            r = "".join(lines)
            del lines[:]
            return K(r)
        return self._handle(readline=readline, read=read)

    def _handle(self, **meths):
        at = {n: A.Py(f) for n, f in meths.items()}
        for n in ("close", "__exit__", "flush"):
            at[n] = A.Py(lambda I, a, k: NONE)
        h = Atom("file", None, at)
        at["__enter__"] = A.Py(lambda I, a, k: h)
        return h

    def _get_data(self, I, a, k):
        p = os.path.join(self.repo.root, "acaciamc", self.text(a[1]))
        if not os.path.realpath(p).startswith(os.path.realpath(self.repo.root) + os.sep) \
                or not os.path.isfile(p):
            raise A.AbsRaise(A.Ext("builtins.FileNotFoundError"))
        with open(p, "rb") as h:
            return K(h.read())

    def _spec(self, I, a, k):
        path = self.norm(a[1] if len(a) > 1 else k["location"])
        m = self.repo.modules.get("acaciamc.modules." + posixpath.basename(path)[:-3])
        if not path.startswith(self.LIB) or m is None:
            raise Undecided("binary module %s" % path)
        ex = A.Py(lambda I, a, k: NONE)
        return Atom("spec", None, {"module": A.Mod(m),
                                   "loader": Atom("loader", None, {"exec_module": ex})})

    def start(self, files, backwards=False):
        """`files`: {path below the program's directory: text}."""
        self.counter = self.ntok = 0
        self.consts = {}
        self.fs = dict(self.lib)
        self.dirs = {"/w", "/w/out"}
        for n, t in files.items():
            self.fs[posixpath.normpath("/w/" + n)] = t
        self.written, self.opened, self.removed = {}, [], []
        self.backwards = backwards

    config = Whole.config

    def compile(self, main="main.aca", out=None, **cfg):
        """The compiler object; with `out`, its output is written there."""
        c = self.I.instantiate(self.C["Compiler"], [K(main), self.config(**cfg)], {})
        if out is not None:
            self.meth(c, "output", K(out))
        return c

    def produced(self):
        """{path: text or Txt} of the files written."""
        return {p: A.txt(parts) if parts else K("") for p, parts in self.written.items()}

    def run_compiler(self, main="main.aca", **cfg):
        return Whole.result(self, self.compile(main, **cfg))
