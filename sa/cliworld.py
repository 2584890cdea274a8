"""Abstract interpretation of the command line entry of the compiler: arguments are
parsed by the specification that the interpreted code builds, files live in an
abstract file system that notes every effect."""
import argparse
import codecs
import contextlib
import io
import posixpath

from . import absint as A
from .absint import K, Lst, Dct, Tup, Atom, Undecided, NONE
from .whole import FsWhole


class Box:
    """An abstract value on its way through argparse."""

    def __init__(self, v):
        self.v = v


def exit_(code):
    e = A.AbsRaise(A.Ext("builtins.SystemExit"), "SystemExit")
    e.code = code
    return e


class CliWhole(FsWhole):
    def __init__(self, cx):
        super().__init__(cx)
        self.I.fuel0 = 10 ** 8
        x = self.I.externs
        x["argparse.ArgumentParser"] = self._parser
        x["sys.exit"] = self._exit
        x["builtins.print"] = self._print
        x["builtins.object"] = lambda I, a, k: A.Py(lambda I, a, k: NONE)
        x["os.mkdir"] = self._mkdir1
        x["os.makedirs"] = self._makedirs
        x["os.remove"] = x["os.unlink"] = self._remove
        x["traceback.print_exc"] = lambda I, a, k: NONE
        x["traceback.format_exception_only"] = lambda I, a, k: Lst(
            [K("internal crash: %s" % (a[0] if a else "?",))])
        self.args = []

    # -- arguments
    def _out(self, v):
        if isinstance(v, K):
            return v.v
        if isinstance(v, A.Ext) and v.dotted in ("builtins.int", "builtins.str", "builtins.float"):
            return {"int": int, "str": str, "float": float}[v.dotted.split(".")[1]]
        if isinstance(v, (Lst, Tup)):
            return [self._out(x) for x in v.items]
        return Box(v)

    def _in(self, v):
        if isinstance(v, Box):
            return v.v
        if isinstance(v, list):
            return Lst([self._in(x) for x in v])
        return K(v)

    def _parser(self, I, a, k):
        p = argparse.ArgumentParser(*[self._out(x) for x in a],
                                    **{n: self._out(v) for n, v in k.items()})
        return self._group(p, p)

    def _group(self, p, g):
        def add(I, a, k):
            g.add_argument(*[self._out(x) for x in a],
                           **{n: self._out(v) for n, v in k.items()})
            return NONE

        def parse(I, a, k):
            argv = [self._out(x) for x in I.iterate(a[0])] if a and a[0] is not NONE else self.args
            try:
                with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
                    ns = p.parse_args(argv)
            except SystemExit as e:
                if e.code:
                    self.said.append(("err", "usage"))
                raise exit_(e.code)
            return Atom("args", None, {n: self._in(v) for n, v in vars(ns).items()})

        def error(I, a, k):
            self.said.append(("err", self._out(a[0])))
            raise exit_(2)
        sub = lambda n: A.Py(lambda I, a, k: self._group(p, getattr(g, n)(
            *[self._out(x) for x in a], **{m: self._out(v) for m, v in k.items()})))
        return Atom("parser", None, {
            "add_argument": A.Py(add), "parse_args": A.Py(parse), "error": A.Py(error),
            "add_argument_group": sub("add_argument_group"),
            "add_mutually_exclusive_group": sub("add_mutually_exclusive_group")})

    def _exit(self, I, a, k):
        v = a[0] if a else NONE
        if not isinstance(v, K):
            raise Undecided("exit status")
        if isinstance(v.v, str):
            self.said.append(("err", v.v))
        raise exit_(1 if isinstance(v.v, str) else v.v or 0)

    def _print(self, I, a, k):
        f = k.get("file")
        to = "err" if isinstance(f, A.Ext) and f.dotted == "sys.stderr" else "out"
        t = [I.to_str(x) for x in a]
        self.said.append((to, " ".join(x.v if isinstance(x, K) else "?" for x in t)))
        return NONE

    # -- files
    def _raise(self, n):
        raise A.AbsRaise(A.Ext("builtins." + n))

    def parent(self, p):
        d = posixpath.dirname(p)
        if d in self.fs:
            self._raise("NotADirectoryError")
        if not self.isdir(d):
            self._raise("FileNotFoundError")

    def _mkdir1(self, I, a, k):
        p = self.norm(a[0])
        if p in self.fs or self.isdir(p):
            self._raise("FileExistsError")
        self.parent(p)
        self.events.append(("mkdir", p))
        self.dirs.add(p)
        return NONE

    def _makedirs(self, I, a, k):
        p = self.norm(a[0])
        ok = k.get("exist_ok", a[2] if len(a) > 2 else K(False))
        if p in self.fs or (self.isdir(p) and not (isinstance(ok, K) and ok.v)):
            self._raise("FileExistsError")
        up = [p]
        while not self.isdir(up[-1]):
            if up[-1] in self.fs:
                self._raise("NotADirectoryError")
            up.append(posixpath.dirname(up[-1]))
        for d in up[:-1]:
            self.events.append(("mkdir", d))
            self.dirs.add(d)
        return NONE

    def _remove(self, I, a, k):
        p = self.norm(a[0])
        if p not in self.fs:
            self._raise("FileNotFoundError")
        self.events.append(("remove", p))
        del self.fs[p]
        self.written.pop(p, None)
        return NONE

    def _rmtree(self, p):
        if p in self.fs:
            self._raise("NotADirectoryError")
        if not self.isdir(p):
            self._raise("FileNotFoundError")
        self.events.append(("remove", p))
        return super()._rmtree(p)

    def _open(self, I, a, k):
        p = self.norm(a[0] if a else k["file"])
        mode = self.text(a[1] if len(a) > 1 else k.get("mode", K("r")))
        enc = k.get("encoding", a[3] if len(a) > 3 else NONE)
        if isinstance(enc, K) and isinstance(enc.v, str):
            try:
                codecs.lookup(enc.v)
            except LookupError:
                self._raise("LookupError")
        if self.isdir(p):
            self._raise("IsADirectoryError")
        if mode[0] in "wax":
            self.parent(p)
            self.events.append(("write", p))
            if mode[0] == "x" and p in self.fs:
                self._raise("FileExistsError")
        return super()._open(I, a, k)

    def start(self, files, args=(), dirs=(), **kw):
        super().start(files, **kw)
        self.dirs = {"/w"} | {posixpath.normpath("/w/" + d) for d in dirs}
        self.args = list(args)
        self.events, self.said = [], []

    def main(self):
        """Runs the command; (status, messages)."""
        f = self.repo.resolve_global(self.repo.modules["acaciamc.cli"], "main")
        try:
            v = self.I.call(A.Fn(f), [], {})
            return v.v if isinstance(v, K) and isinstance(v.v, int) and v.v else 0
        except A.AbsRaise as e:
            if e.name == "SystemExit":
                return getattr(e, "code", 0) or 0
            return "crash: %s" % e.name

    def final(self):
        """{path: text} of everything outside the library."""
        out = {}
        for p, t in self.fs.items():
            if p.startswith(self.LIB):
                continue
            if p in self.written:
                v = A.txt(self.written[p]) if self.written[p] else K("")
                if not isinstance(v, K):
                    raise Undecided("text of %s" % p)
                t = v.v
            out[p] = t
        return out
