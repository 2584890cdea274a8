"""Programs of several modules, and what they have to do: the reference executes an
import statement when it is reached, runs the body of a module the first time only,
and binds the names it says to the module's own variables and functions."""
import ast
import itertools
import posixpath
import re

from .refsem import Ref, Refused, Env, Const, blocks

SHOW = re.compile(r'print\.tell\(print\.format\("(.*?)"(?:, (.*))?\)\)$')
LIBRARY = ("print", "math", "schedule")


class Module:
    def __init__(self):
        self.env, self.hidden = None, set()

    def names(self):
        return [n for n in self.env if n not in self.hidden and not n.startswith("_")]

    def get(self, n):
        if self.env is None or n not in self.names():
            raise Refused("attribute " + n)
        return self.env[n]


class ModRef(Ref):
    """`files`: {path below /w: text}, `/w/main.aca` is the program."""

    def __init__(self, files):
        super().__init__({})
        self.files = {posixpath.normpath("/w/" + n): t for n, t in files.items()}
        self.modules, self.stack = {}, []
        self.hidden = {}

    def start(self):
        self.modules = {}
        self.top = Env()
        self.main = Env(self.top)
        self.block(blocks(self.files["/w/main.aca"]), self.main, None)

    def find(self, meta):
        dots = len(meta) - len(meta.lstrip("."))
        names = meta[dots:].split(".")
        if not dots and names[0] in LIBRARY and len(names) == 1:
            return None
        base = posixpath.normpath("/w/" + "../" * (dots - 1 if dots else 0))
        p = posixpath.join(base, *names) + ".aca"
        if p not in self.files:
            raise Refused("module " + meta)
        return p

    def load(self, meta):
        p = self.find(meta)
        if p is None:
            return None
        if p in self.stack or p == "/w/main.aca":
            raise Refused("circular")
        m = self.modules.get(p)
        if m is None:
            m = self.modules[p] = Module()
            m.env = Env(Env())
            self.hidden[id(m.env)] = m.hidden
            self.stack.append(p)
            self.block(blocks(self.files[p]), m.env, None)
            self.stack.pop()
        return m

    def bind(self, env, name, value):
        if name in env:
            raise Refused("name twice")
        env[name] = value
        if id(env) in self.hidden:
            self.hidden[id(env)].add(name)

    def extra(self, line, body, env, ctx):
        m = re.match(r"import (\S+)(?: as (\w+))?$", line)
        if m:
            mod = self.load(m.group(1))
            if mod is not None:
                self.bind(env, m.group(2) or m.group(1).split(".")[-1], Const(mod))
            return True
        m = re.match(r"from (\S+) import (.*)$", line)
        if m:
            mod = self.load(m.group(1))
            if mod is None:
                return True
            names = mod.names() if m.group(2) == "*" else m.group(2).strip("()").split(",")
            for n in names:
                n, _, alias = n.strip().partition(" as ")
                self.bind(env, alias or n, mod.get(n))
            return True
        m = SHOW.match(line)
        if m:
            args = [self.val(self.ev(x, env)) for x in ast.parse(
                "(%s,)" % m.group(2), mode="eval").body.elts] if m.group(2) else []
            text = re.sub(r"%(\d)", lambda x: str(args[int(x.group(1))]), m.group(1))
            self.log.append("show " + text)
            return True
        return False

    def e_Attribute(self, e, env):
        o = self.val(self.ev(e.value, env))
        if isinstance(o, Module):
            return o.get(e.attr)
        return o.f[e.attr]

    def new(self, t, env):
        if "." in t:
            return super().new(t.split(".")[1], env.find(t.split(".")[0]).v.env)
        return super().new(t, env)


def expected(files, histories):
    """The log of each history of entry files."""
    out = []
    for h in histories:
        r = ModRef(files)
        for e in h:
            if e == "main":
                r.start()
            else:
                body, env = r.ifaces[e]
                r.block(body, Env(env), None)
        out.append(r.log)
    return out


# -- import graphs ---------------------------------------------------------------
def module(name, k, imports, uses):
    return """/say %s starts
import print
%sn := %d
_hidden := 9
def get() -> int:
    result n
def inc():
    n += 1
inline def twice():
    inc()
    n += 1
const K = %d
struct S:
    v: int
%s/say %s ends
""" % (name, "".join(i + "\n" for i in imports), k, k * 10,
       "".join(u + "\n" for u in uses), name)


FORMS = [
    ("import %s", "%s"), ("import %s as k%s", "k%s"), ("from %s import n as n%s, inc as i%s, get as g%s", None),
    ("import .%s as r%s", "r%s"),
]


def form(i, m):
    """(import statement, [use statement])"""
    f, pre = FORMS[i % len(FORMS)]
    stmt = f.replace("%s", m)
    if pre is None:
        return stmt, ["i%s()" % m, "n%s += 2" % m, 'print.tell(print.format("%s %%0 %%1", n%s, g%s()))' % (m, m, m)]
    p = pre.replace("%s", m)
    return stmt, ["%s.inc()" % p, "%s.n += 3" % p, "%s.twice()" % p,
                  'print.tell(print.format("%s %%0 %%1 %%2", %s.n, %s.get(), %s.K))' % (m, p, p, p)]


def graphs(deep):
    out = []
    edges = [("a", "b"), ("a", "c"), ("b", "c")]
    i = 0
    for bits in itertools.product((0, 1), repeat=3):
        on = [e for e, b in zip(edges, bits) if b]
        for order in (("a",), ("b", "a"), ("a", "b", "c"), ("c", "b", "a"), ("c", "a", "b"), ("b", "c")):
            if not deep and (i % 2) and len(order) < 3:
                i += 1
                continue
            i += 1
            files = {}
            for k, m in enumerate("abc"):
                imp, use = [], []
                for j, (x, y) in enumerate(on):
                    if x == m:
                        s, u = form(i + j + k, y)
                        imp.append(s)
                        use += u
                files[m + ".aca"] = module(m, k + 1, imp, use)
            text = "import print\n/say main starts\n"
            uses = []
            for j, m in enumerate(order):
                s, u = form(i + j * 3 + 1, m)
                text += s + "\n"
                uses += u
            text += "".join(u + "\n" for u in uses + uses) + "interface go:\n" + \
                "".join("    %s\n" % u for u in uses) + "/say main ends\n"
            files["main.aca"] = text
            out.append(("R1", "%s; main imports %s" % (
                ", ".join("%s imports %s" % e for e in on) or "no edges", " ".join(order)),
                files, [["main"], ["main", "go", "main", "go"]]))
    return out


M = module("m", 4, [], [])
N = module("k", 7, ["import m as base"], ["base.inc()"])
T = 'print.tell(print.format("%%0", %s))'
HEAD = "import print\np := True\nq := False\ni := 0\n"

# what follows runs an import at a certain place: (name, text, histories)
PLACES = [
    ("in a branch that runs", "if p:\n    import m\nm.inc()\n" + T % "m.get()"),
    ("in a branch that runs, again later", "if p:\n    import m\n    m.inc()\nimport m as again\nagain.inc()\n" + T % "again.get()"),
    ("first in a branch that does not run", "if q:\n    import m as one\n    one.inc()\nimport m\nm.inc()\n" + T % "m.get()"),
    ("first in an else branch that does not run",
     "if p:\n    /say yes\nelse:\n    from m import inc as one\n    one()\nfrom m import inc, get\ninc()\n" + T % "get()"),
    ("in both branches", "if p:\n    import m as one\n    one.inc()\nelse:\n    import m as two\n    two.inc()\nimport m\n" + T % "m.get()"),
    ("in a constant branch", "if True:\n    import m as one\n    one.inc()\nif False:\n    import k\nimport m\n" + T % "m.get()"),
    ("in a loop", "while i < 3:\n    import m\n    m.inc()\n    i += 1\n" + T % "m.get()"),
    ("in a loop over values", "for x in {1, 2, 3}:\n    import m\n    m.n += x\n    " + T % "m.get()"),
    ("in a function that is not called", "def f():\n    import m\n    m.inc()\nimport m\n" + T % "m.get()"),
    ("in a function called twice", "def f() -> int:\n    import m\n    m.inc()\n    result m.get()\n" + T % "f()" + "\n" + T % "f()"),
    ("in a function, after the program", "import m\nm.n = 50\ndef f() -> int:\n    from m import get, inc as up\n    up()\n    result get()\n" + T % "f()"),
    ("in a function, before the program", "def f() -> int:\n    from m import get, inc as up\n    up()\n    result get()\n" + T % "f()" + "\nimport m\nm.n += 1\n" + T % "m.n"),
    ("in an inline function", "inline def f() -> int:\n    import m\n    m.inc()\n    result m.get()\n" + T % "f()" + "\n" + T % "f()"),
    ("in an inline function called in branches", "inline def f():\n    import m\n    m.inc()\nif q:\n    f()\nif p:\n    f()\nimport m\n" + T % "m.n"),
    ("in nested functions", "def f():\n    def g():\n        import m\n        m.inc()\n    g()\n    g()\nf()\nimport m\n" + T % "m.n"),
    ("of a module with imports, in a branch", "if q:\n    import k as one\n    one.inc()\nif p:\n    import m as two\n    two.inc()\nimport k\nimport m\nk.inc()\n"
     + T % "m.n" + "\n" + T % "k.n"),
    ("of a module with imports, in a function", "def f():\n    import k\n    k.inc()\n    " + T % "k.n" + "\nimport m\nf()\nf()\n" + T % "m.n"),
    ("with several aliases", "import m as x1\nimport m as x2\nfrom m import n as n1\nfrom m import n as n2, inc as up\nx1.inc()\nup()\nn1 += 5\nx2.n += 1\n"
     + 'print.tell(print.format("%0 %1 %2 %3", x1.n, x2.n, n1, n2))'),
    ("of one name under two aliases", "from m import n as n1, n as n2, K as k1, K as k2, K\nn1 += 1\nn2 += 1\n"
     + 'print.tell(print.format("%0 %1 %2 %3 %4", n1, n2, k1, k2, K))'),
    ("of everything", "from m import *\ninc()\ntwice()\nn += 1\n" + 'print.tell(print.format("%0 %1 %2", n, get(), K))\ns := S(v=n)\nn = 0\n' + T % "s.v"),
    ("of everything, in a function", "n := 1\ndef f() -> int:\n    from m import *\n    inc()\n    n += K\n    result n\n" + T % "f()" + "\n" + T % "f()" + "\n" + T % "n"),
    ("of names in parentheses", "from m import (n, inc as up, get)\nup()\nn += 1\n" + T % "get()"),
    ("of a struct", "import m\nfrom m import S\ns := S(v=3)\nt := m.S(v=m.n)\ns = t\nt.v = 1\n" + 'print.tell(print.format("%0 %1", s.v, t.v))'),
    ("in an interface", "interface a1:\n    import m\n    m.inc()\n    " + T % "m.n" + "\ninterface a2:\n    import k\n    from m import n\n    n += 1\n    k.inc()\n    " + T % "n"),
    ("in an interface, then the program", "interface a1:\n    import m\n    m.inc()\n    " + T % "m.n" + "\ninterface a2:\n    import k\n    k.inc()\n    " + T % "k.n"
     + "\nimport m\nm.n += 10\n"),
    ("in a function of an interface", "def f():\n    import m\n    m.inc()\n    " + T % "m.n" + "\ninterface a1:\n    f()\ninterface a2:\n    f()\n    import k\n    " + T % "k.n"),
]


def places():
    out = []
    for name, text in PLACES:
        hist = [["main"], ["main", "main"]]
        if "interface" in text:
            hist += [["main", "a1", "a1", "a2"], ["main", "a2", "a1"], ["main", "a1", "main", "a2"]]
        out.append(("R2", "import %s" % name, {"main.aca": HEAD + text + "\n", "m.aca": M, "k.aca": N}, hist))
    return out


# -- where modules are found -----------------------------------------------------
def simple(x):
    return "/say %s\nv := %d\n" % (x, len(x))


def lookup():
    tree = {"m.aca": simple("top m"), "p/m.aca": simple("package m"), "p/q/m.aca": simple("inner package m"),
            "../m.aca": simple("upper m"), "../p/m.aca": simple("upper package m"), "../../m.aca": simple("uppermost m"),
            "print.aca": simple("own print"), "p/print.aca": simple("own package print"),
            "x/y.txt": "not a module\n", "x.txt": "", "m.txt": "no\n", "p/q/r/s.aca": simple("deep"),
            "main2.aca": simple("main2"), "a_b.aca": simple("underscore"), "M.aca": simple("capital")}
    metas = ["m", "p.m", "p.q.m", ".m", ".p.m", "..m", "..p.m", "...m", ".print", "p.print", "p.q.r.s", ".p.q.r.s",
             "main2", "a_b", "M", "..w.m", "..w.p.m"]
    tree = dict(tree)
    out = []
    for m in metas:
        out.append(("R3", "import %s" % m, dict(tree, **{
            "main.aca": "import print\nimport %s as z\n%s\n" % (m, T % "z.v")}), [["main"]]))
    for x, y in itertools.combinations(metas, 2):
        out.append(("R3", "import %s, then %s" % (x, y), dict(tree, **{
            "main.aca": "import print\nimport %s as y1\nimport %s as y2\ny1.v += 100\n%s\n" % (
                x, y, 'print.tell(print.format("%0 %1", y1.v, y2.v))')}), [["main"]]))
    # relative imports of modules in packages start from the folder of the program
    for m in ("m", ".m", "p.m", ".p.q.m", "..m"):
        out.append(("R3", "a module of a package imports %s" % m, dict(tree, **{
            "p/u.aca": "import print\n/say u\nimport %s as z\n%s\n" % (m, T % "z.v"),
            "main.aca": "import p.u\nimport print\nimport m as o\n%s\n" % (T % "o.v")}), [["main"]]))
    return out


# -- refused imports ---------------------------------------------------------------
def refused():
    """(what, files, diagnostic, line, module)"""
    ok = {"m.aca": M, "k.aca": N, "p/m.aca": simple("pm"), "note.txt": "x", "p/t.acab": "/say t\n",
          "bare": "/say b\n", "q.aca/in.aca": simple("q")}
    out = []

    def add(what, text, kind, line, mod="main", **more):
        files = dict(ok, **{n.replace("__", "/") + ".aca": t for n, t in more.items()})
        files["main.aca"] = text
        out.append(("R5", what, files, kind, line, mod))
    for m in ("nothing", "p", "p.nothing", "nothing.m", "m.n", ".nothing", "..m", "p.q.m", ".p", "..p.m",
              "note", "p.t", "bare", "q"):
        add("import %s" % m, "/say a\nimport %s\n" % m, "MODULE_NOT_FOUND", 2)
        add("from %s import x" % m, "from %s import x\n" % m, "MODULE_NOT_FOUND", 1)
        add("import %s in a function" % m, "def f():\n    import %s as z\n" % m, "MODULE_NOT_FOUND", 2)
        add("import %s in a module" % m, "import u\n", "MODULE_NOT_FOUND", 2, "u", u="/say u\nimport %s as z\n" % m)
    for n in ("nothing", "_hidden", "print", "m", "int", "Pos"):
        add("from m import %s" % n, "/say a\nfrom m import %s\n" % n, "MODULE_NO_ATTRIBUTE", 2)
        add("m.%s" % n, "import m\n\nx := m.%s\n" % n, "HAS_NO_ATTRIBUTE", 3)
        add("from m import *, then %s" % n, "from m import *\nx := %s\n" % n, "NAME_NOT_DEFINED", 2) \
            if n not in ("int", "Pos", "print") else None
    for n in ("base", "m", "print"):
        add("what k imports: k.%s" % n, "import k\nk.%s.inc()\n" % n, "HAS_NO_ATTRIBUTE", 2)
        add("what k imports: from k import %s" % n, "from k import %s\n" % n, "MODULE_NO_ATTRIBUTE", 1)
        add("what k imports: from k import *, %s" % n, "from k import *\nx := %s\n" % n, "NAME_NOT_DEFINED", 2)
    for n, imp in (("inc", "from m import inc"), ("up", "from m import inc as up"), ("n", "from m import *"),
                   ("K", "from m import *"), ("z", "import m as z")):
        add("%s of a module that does `%s`" % (n, imp), "import u\nx := u.%s\n" % n, "HAS_NO_ATTRIBUTE", 2, u=imp + "\n")
        add("from u import *, %s (u does `%s`)" % (n, imp), "from u import *\nx := %s\n" % n, "NAME_NOT_DEFINED", 2, u=imp + "\n")
    add("names of a function of a module", "import u\nx := u.loc\n", "HAS_NO_ATTRIBUTE", 2, u="def f():\n    loc := 1\n")
    add("names of the importer in a module", "y := 1\nimport u\n", "NAME_NOT_DEFINED", 1, "u", u="x := y\n")
    add("names of one module in another", "import m\nimport u\n", "NAME_NOT_DEFINED", 1, "u", u="x := n\n")
    add("a module's names without qualifying", "import m\nx := n\n", "NAME_NOT_DEFINED", 2)
    add("the name of an aliased module", "import m as z\nm.inc()\n", "NAME_NOT_DEFINED", 2)
    add("the name of an aliased import", "from m import n as z\nx := n\n", "NAME_NOT_DEFINED", 2)
    add("the module of a from import", "from m import n\nm.inc()\n", "NAME_NOT_DEFINED", 2)
    add("a package of an import", "import p.m as z\np.m.v = 1\n", "NAME_NOT_DEFINED", 2)
    add("an import of a function outside", "def f():\n    import m\nf()\nm.inc()\n", "NAME_NOT_DEFINED", 4)
    add("an import of an inline function outside", "inline def f():\n    import m\nf()\nm.inc()\n", "NAME_NOT_DEFINED", 4)
    add("an import of an interface outside", "interface g:\n    import m\nm.inc()\n", "NAME_NOT_DEFINED", 3)
    add("an import of a loop outside", "for i in {1, 2}:\n    import m\nm.inc()\n", "NAME_NOT_DEFINED", 3)
    for imp in ("import m", "import p.m as m", "from m import n as m", "from m import *"):
        add("a name twice: %s" % imp, "m := 1\nn := 2\n%s\n" % imp, "SHADOWED_NAME", 3)
        add("a name twice after %s" % imp, "/say a\n%s\n%s := 2\n" % (imp, "n" if "*" in imp else "m"), "SHADOWED_NAME", 3)
    add("a module that imports itself", "import u\n", "CIRCULAR_PARSE", 2, "u", u="/say u\nimport u as z\n")
    add("a module that imports the program", "import u\n", "CIRCULAR_PARSE", 2, "u", u="/say u\nimport main\n")
    add("the program importing itself", "/say a\nfrom main import x\n", "CIRCULAR_PARSE", 2)
    add("two modules importing each other", "import u\n", "CIRCULAR_PARSE", 1, "v", u="import v\n", v="from u import x\n")
    add("modules importing each other in functions", "import u\n", "CIRCULAR_PARSE", 3, "v",
        u="def f():\n    import v\n", v="inline def g():\n    pass\nimport u\n")
    add("a module importing itself through a package", "import p.u\n", "CIRCULAR_PARSE", 1, "u", p__u="import .p.u as z\n")
    add("a mistake in a module", "/say a\n/say b\nimport u\n", "NAME_NOT_DEFINED", 2, "u", u="/say u\nx := y\n")
    add("a mistake in a module of a module", "import u\n", "WRONG_ASSIGN_TYPE", 3, "v", u="/say u\nimport v\n", v="/say v\nx := 1\nx = True\n")
    add("a mistake after an import", "import m\nimport k\n\nx := y\n", "NAME_NOT_DEFINED", 4)
    add("a mistake after an import in a function", "def f():\n    import k\n    x := y\n", "NAME_NOT_DEFINED", 3)
    add("a mistake in a module after its import", "import u\n", "NAME_NOT_DEFINED", 3, "u", u="import k\nimport m\nx := y\n")
    add("a call of a module", "import m\nm()\n", "UNCALLABLE", 2)
    add("an assignment to a module", "import m\nimport k\nm = k\n", "INVALID_ASSIGN_TARGET", 3)
    add("an assignment to a constant of a module", "import m\nm.K = 3\n", "INVALID_ASSIGN_TARGET", 2)
    return [x for x in out if x]


# -- scopes ------------------------------------------------------------------------
U = """/say u starts
import print
x := 100
w := 7
def show(t: int):
    print.tell(print.format("u %0 %1", t, x))
def setx(x: int):
    show(x)
def addx(d: int) -> int:
    x += d
    result x
inline def ix(d: int) -> int:
    x += d
    y := x * 2
    result y
inline def bump(&r: int):
    r += w
    x += 1
def outer(d: int) -> int:
    x := d
    def inner(e: int) -> int:
        x += e
        result x
    result inner(5) + inner(6)
const W = 11
const def cf(a: int) -> int:
    result a * W
/say u ends
"""
SCOPES = [
    ("a local variable hides a global one", "x := 1\ndef f() -> int:\n    x := 5\n    x += 1\n    result x\n" + T % "f()" + "\n" + T % "x"),
    ("an argument hides a global variable", "x := 1\ndef f(x: int) -> int:\n    x += 1\n    result x\n" + T % "f(7)" + "\n" + T % "x"),
    ("a function changes a global variable", "x := 1\ndef f(d: int):\n    x += d\n    x = x * 2\nf(3)\nf(4)\n" + T % "x"),
    ("a function uses the variable before hiding it", "x := 3\ndef f() -> int:\n    y := x\n    x := 10\n    x += y\n    result x\n" + T % "f()" + "\n" + T % "f()" + "\n" + T % "x"),
    ("nested functions", "x := 1\ndef f(a: int) -> int:\n    x := a\n    def g(b: int) -> int:\n        x += b\n        a += 1\n        result x + a\n    result g(2) * g(3) + x\n" + T % "f(5)" + "\n" + T % "f(6)" + "\n" + T % "x"),
    ("functions of one name in two scopes", "def f() -> int:\n    result 1\ndef g() -> int:\n    def f() -> int:\n        result 2\n    result f() * 10\n" + T % "f()" + "\n" + T % "g()" + "\n" + T % "f()"),
    ("a function uses the definitions at its place, not its caller's", "x := 1\ndef f() -> int:\n    result x\ndef g() -> int:\n    x := 50\n    result f() + x\n" + T % "g()"),
    ("an inline function uses the definitions at its place, not its caller's", "x := 1\ninline def f() -> int:\n    x += 1\n    result x\ndef g() -> int:\n    x := 50\n    y := f()\n    result y + x\n" + T % "g()" + "\n" + T % "x"),
    ("an inline function's variables are its own", "inline def f(a: int) -> int:\n    t := a * 2\n    t += 1\n    result t\nt := 5\ny := f(t) + f(t)\n" + 'print.tell(print.format("%0 %1", y, t))'),
    ("an inline function defined in a function", "def f(a: int) -> int:\n    inline def g(b: int):\n        a += b\n    g(3)\n    g(4)\n    result a\na := 1000\n" + T % "f(1)" + "\n" + T % "a"),
    ("an inline function called in another", "x := 1\ninline def g(x: int) -> int:\n    x += 1\n    result x\ninline def f(y: int) -> int:\n    z := g(y)\n    x += z\n    result g(x) + z\n" + T % "f(5)" + "\n" + T % "x"),
    ("a reference argument of an inline function", "x := 1\ny := 2\ninline def f(&x: int):\n    x += y\ndef g(y: int) -> int:\n    f(y)\n    result y\nf(x)\nf(y)\n" + 'print.tell(print.format("%0 %1 %2", x, y, g(9)))'),
    ("a constant argument of an inline function", "const k = 3\ninline def f(const k: int) -> int:\n    result k * 2\n" + T % "f(5) + k" ),
    ("a loop's variable hides a global one", "x := 1\ny := 0\nfor x in {5, 6}:\n    y += x\n    for x in {1, 2}:\n        y += x * 100\n" + 'print.tell(print.format("%0 %1", x, y))'),
    ("a variable defined in a loop's body is new in each round", "y := 0\nfor i in {1, 2, 3}:\n    t := i\n    t += 10\n    y += t\n" + T % "y"),
    ("a variable defined in a branch stays", "if p:\n    x := 3\n    /say in\nx += 1\n" + T % "x"),
    ("a variable defined in a while body stays", "while i < 3:\n    x := i * 2\n    i += 1\n" + T % "x"),
    ("an interface's variable hides a global one", "x := 1\ninterface a1:\n    x := 10\n    x += 1\n    " + T % "x" + "\ninterface a2:\n    x += 5\n    " + T % "x"),
    ("constants of scopes", "const k = 1\ndef f() -> int:\n    const k = 2\n    result k\ninterface a1:\n    const k = 3\n    " + T % "k" + "\ninterface a2:\n    " + T % "k" + "\n" + T % "f() * 10 + k"),
    ("a constant function uses the constants at its place", "const k = 4\nconst def f(a: int) -> int:\n    result a * k\ndef g() -> int:\n    const k = 100\n    result f(3) + k\n" + T % "g() + f(2)"),
    ("a constant function in a function", "const k = 4\ndef g() -> int:\n    const k = 5\n    const def f(a: int) -> int:\n        b := a\n        b += k\n        result b\n    result f(1) * f(2)\n" + T % "g() + k"),
    ("an argument of a constant function hides a constant", "const a = 4\nconst def f(a: int) -> int:\n    result a + 1\n" + T % "f(10) + a"),
    ("a local name of a constant function hides a constant", "const a = 4\nconst def f() -> int:\n    a := 7\n    a += 1\n    result a\n" + T % "f() + a"),
    ("a constant function calls another, and a module's", "import u\nconst def f(a: int) -> int:\n    result a + 1\nconst def g(a: int) -> int:\n    result f(a) * u.cf(a)\nconst w = 5\n" + T % "g(2) + w"),
    ("a constant of a module in a constant function", "import u\nfrom u import W as V\nconst W = 3\nconst def g() -> int:\n    result u.W * V + W\n" + T % "g()"),
    ("a reference hides a variable", "x := 1\ny := 2\ndef f():\n    &x = y\n    x += 10\nf()\n" + 'print.tell(print.format("%0 %1", x, y))'),
    ("a library name is hidden", "def f() -> int:\n    print := 4\n    result print\n" + T % "f()"),
    ("a builtin name is hidden in a function", "def f() -> int:\n    Pos := 4\n    result Pos\n" + T % "f()"),
    ("struct definitions of scopes", "struct S:\n    v: int\ndef f() -> int:\n    struct S:\n        w: int\n    s := S(w=3)\n    result s.w\ns := S(v=1)\n" + 'print.tell(print.format("%0 %1", s.v, f()))'),
    ("a result of a function called in a branch", "x := 0\ndef f(a: int) -> int:\n    if a > 3:\n        x := 1\n        result a\n    else:\n        result 0 - a\nif f(5) > 0:\n    x = f(2)\n" + T % "x"),
    ("names of the program and of a module", "import u\nx := 1\nw := 2\nu.show(x)\n" + T % "u.addx(5)" + "\n" + T % "u.ix(3)" + "\n" + 'print.tell(print.format("%0 %1", x, u.x))'),
    ("an argument that hides the module's variable", "import u\nx := 1\nu.setx(9)\nu.setx(x)\n" + 'print.tell(print.format("%0 %1", x, u.x))'),
    ("a module's inline function with a reference", "import u\nx := 1\nw := 1000\nu.bump(x)\nu.bump(u.x)\n" + 'print.tell(print.format("%0 %1", x, u.x))'),
    ("a module's inline function in a function", "from u import bump, x as ux\ndef f(x: int, w: int) -> int:\n    bump(x)\n    bump(w)\n    result x * 1000 + w\n" + T % "f(1, 2)" + "\n" + T % "ux"),
    ("a module's nested function", "import u\nx := 3\n" + T % "u.outer(20)" + "\n" + 'print.tell(print.format("%0 %1", x, u.x))'),
    ("a function named like one of the module it calls", "import u\ndef addx(d: int) -> int:\n    result u.addx(d) * 2\n" + T % "addx(5)" + "\n" + T % "u.x"),
    ("a module that is a local name", "x := 5\ndef f() -> int:\n    import u as x\n    result x.x\n" + T % "f()" + "\n" + T % "x"),
]

# (what, program, diagnostic, line): what is not in scope
UNSCOPED = [
    ("a local variable outside", "def f():\n    loc := 1\nf()\nx := loc\n", "NAME_NOT_DEFINED", 4),
    ("an argument outside", "def f(arg: int):\n    pass\nf(1)\nx := arg\n", "NAME_NOT_DEFINED", 4),
    ("an inline function's variable outside", "inline def f():\n    loc := 1\nf()\nx := loc\n", "NAME_NOT_DEFINED", 4),
    ("an inline function's argument outside", "inline def f(const arg: int):\n    pass\nf(1)\nx := arg\n", "NAME_NOT_DEFINED", 4),
    ("the caller's variable in an inline function", "inline def f():\n    x := loc\ndef g():\n    loc := 1\n    f()\n", "NAME_NOT_DEFINED", 2),
    ("the caller's variable in a module's inline function", "import u\nloc := 1\nu.h()\n", "NAME_NOT_DEFINED", 2),
    ("a nested function outside", "def f():\n    def g():\n        pass\nf()\ng()\n", "NAME_NOT_DEFINED", 5),
    ("a sibling function's variable", "def f():\n    loc := 1\ndef g():\n    x := loc\n", "NAME_NOT_DEFINED", 4),
    ("a loop's variable outside", "for j in {1, 2}:\n    pass\nx := j\n", "NAME_NOT_DEFINED", 3),
    ("a variable of a loop's body outside", "for i in {1, 2}:\n    loc := i\nx := loc\n", "NAME_NOT_DEFINED", 3),
    ("an interface's variable outside", "interface g:\n    loc := 1\nx := loc\n", "NAME_NOT_DEFINED", 3),
    ("an interface's variable in another", "interface g:\n    loc := 1\ninterface h:\n    x := loc\n", "NAME_NOT_DEFINED", 4),
    ("a later definition", "x := y\ny := 1\n", "NAME_NOT_DEFINED", 1),
    ("a later definition in a function", "def f():\n    x := y\ny := 1\n", "NAME_NOT_DEFINED", 2),
    ("the name being defined", "x := x + 1\n", "NAME_NOT_DEFINED", 1),
    ("two definitions of a variable", "x := 1\nx := 2\n", "SHADOWED_NAME", 2),
    ("two definitions in branches", "if p:\n    x := 1\nelse:\n    x := 2\n", "SHADOWED_NAME", 4),
    ("a variable and a function", "f := 1\ndef f():\n    pass\n", "SHADOWED_NAME", 2),
    ("a function and an inline function", "def f():\n    pass\ninline def f():\n    pass\n", "SHADOWED_NAME", 3),
    ("an argument and a local variable", "def f(x: int):\n    x := 1\n", "SHADOWED_NAME", 2),
    ("a local name of a constant function outside", "const def f() -> int:\n    loc := 1\n    result loc\nx := f()\ny := loc\n", "NAME_NOT_DEFINED", 5),
    ("a variable in a constant function", "x := 1\nconst def f() -> int:\n    result x\ny := f()\n", "NOT_CONST_NAME", 3),
    ("an unknown name in a constant function", "const def f() -> int:\n    result x\ny := f()\n", "NAME_NOT_DEFINED", 2),
    ("the caller's constant in a constant function", "const def f() -> int:\n    result k\ndef g():\n    const k = 1\n    x := f()\n", "NAME_NOT_DEFINED", 2),
    ("two constants", "const k = 1\nconst k = 2\n", "SHADOWED_NAME", 2),
    ("a constant and a reference", "const k = 1\ny := 2\n&k = y\n", "SHADOWED_NAME", 3),
    ("a struct and an entity", "struct S:\n    pass\nentity S:\n    pass\n", "SHADOWED_NAME", 3),
    ("a loop's variable and a variable of its body", "for i in {1, 2}:\n    i := 1\n", "SHADOWED_NAME", 2),
    ("a result outside functions", "result 1\n", "RESULT_OUT_OF_SCOPE", 1),
    ("a result after a function", "def f() -> int:\n    result 1\nresult 2\n", "RESULT_OUT_OF_SCOPE", 3),
    ("a result after an inline call", "inline def f() -> int:\n    result 1\nx := f()\nresult 2\n", "RESULT_OUT_OF_SCOPE", 4),
    ("a result in an interface", "interface g:\n    result 1\n", "RESULT_OUT_OF_SCOPE", 2),
    ("self outside entities", "x := self\n", "SELF_OUT_OF_SCOPE", 1),
    ("self after an entity", "entity E:\n    hp: int\n    def m():\n        self.hp = 1\nself.hp = 2\n", "SELF_OUT_OF_SCOPE", 5),
    ("self in a function after a call of a method", "entity E:\n    def m():\n        /say m\n    new():\n        new(\"cow\", AbsPos(1, 2, 3))\ne := E()\ne.m()\ndef f():\n    x := self\n", "SELF_OUT_OF_SCOPE", 9),
    ("self after an inline method", "entity E:\n    hp: int\n    inline def m():\n        self.hp = 1\n    new():\n        new(\"cow\", AbsPos(1, 2, 3))\ne := E()\ne.m()\nself.hp = 2\n", "SELF_OUT_OF_SCOPE", 9),
]


def scopes():
    out = []
    for name, text in SCOPES:
        hist = [["main"], ["main", "main"]]
        if "interface" in text:
            hist += [["main", "a1", "a2", "a1", "a2"]]
        out.append(("R6", name, {"main.aca": HEAD + text + "\n", "u.aca": U}, hist))
    n = HEAD.count("\n")
    for name, text, kind, line in UNSCOPED:
        module = "module" in name
        out.append(("R7", name, {"main.aca": (HEAD if not module else "") + text, "u.aca": "inline def h():\n    x := loc\n"},
                    kind, line + (0 if module else n), "u" if module else "main"))
    return out
