"""Common set-up for rules built on the abstract interpreter: an abstract
compiler/generator, opaque operands, and command texts."""
from . import absint as A
from .absint import K, Lin, Tup, Lst, Dct, Inst, Fn, Cls, Atom, Top, AbsRaise, Undecided
from .mcsem import Poly, Machine, Bad, poly_of


class Lab:
    def __init__(self, cx, max_paths=48):
        self.cx = cx
        self.repo = r = cx.repo
        self.C = {}
        for n in ("IntVar", "IntLiteral", "BoolVar", "BoolLiteral", "ScbSlot",
                  "Compiler", "Generator", "MCFunctionFile", "Operator"):
            self.C[n] = r.cls(n)
        self.I = A.Interp(cx, {}, max_paths)
        h = self.I.hooks
        comp = self.C["Compiler"]
        self.I.opaque_modules = ("acaciamc.tools", "acaciamc.tools.axe",
                                 "acaciamc.tools.named_tuple")
        loc = r.resolve_global(r.modules["acaciamc.localization"], "localize")
        if loc is not None:
            h[loc] = lambda I, fn, args, kw: A.Txt([Atom("localized")])
        self.counter = 0

        def fresh(prefix):
            def hook(I, fn, args, kw):
                self.counter += 1
                return self.slot("%s%d" % (prefix, self.counter))
            return hook

        def int_const(I, fn, args, kw):
            v = args[0] if args else list(kw.values())[0]
            return I.instantiate(self.C["IntVar"], [self.const_slot(v)], {})
        for n, hook in (("allocate_tmp", fresh("tmp")), ("allocate", fresh("new")),
                        ("add_int_const", int_const)):
            f = comp.find(n)
            if f is not None:
                h[f] = hook
        f = comp.find("add_file")
        if f is not None:
            h[f] = self._add_file
        self.consts = {}

    def _add_file(self, I, fn, args, kw):
        a = [x for x in args if not (isinstance(x, Atom) and x is self.compiler)]
        f = a[0] if a else kw["file"]
        path = a[1] if len(a) > 1 else kw.get("path", K(None))
        if isinstance(path, K) and path.v is None:
            path = K("lib%d" % (len(self.files) + 1))
        self.meth(f, "set_path", path)
        self.files.append((path, f))
        return K(None)

    def file_texts(self):
        """{path: command texts} of the files given to the compiler."""
        out = {}
        for p, f in self.files:
            if not isinstance(p, K):
                raise Undecided("file path %r" % (p,))
            out[p.v] = self.texts(self.I.getattr(f, "commands"))
        return out

    def start(self):
        """Reset per-partition state; call first in every thunk."""
        self.counter = 0
        self.ntok = 0
        self.consts = {}
        st = self.I.instantiate(self.repo.cls("SymbolTable"), [], {})
        for n, c in (("int", "IntType"), ("bool", "BoolType")):
            self.meth(st, "set", K(n), self.I.instantiate(self.repo.cls(c), [], {}))
        self.compiler = Atom("compiler", self.C["Compiler"], {"builtins": st})
        self.files = []

    def const_slot(self, v):
        name = "const_%d" % len(self.consts)
        for s, x in self.consts.items():
            if self.I.same(x, v) is True:
                return self.slot(s)
        self.consts[name] = v
        return self.slot(name)

    def slot(self, name):
        return self.I.instantiate(self.C["ScbSlot"], [K(name), K("obj")], {})

    def intvar(self, name):
        return self.I.instantiate(self.C["IntVar"], [self.slot(name)], {})

    def boolvar(self, name):
        return self.I.instantiate(self.C["BoolVar"], [self.slot(name)], {})

    def intlit(self, v):
        return self.I.instantiate(self.C["IntLiteral"], [v], {})

    def op(self, name):
        return self.I.enum(self.C["Operator"], name)

    def meth(self, obj, name, *args, **kw):
        return self.I.call(self.I.getattr(obj, name), list(args), kw)

    def node(self, clsname, **attrs):
        return Atom(clsname, self.repo.cls(clsname, "ast"), dict(attrs))

    def generator(self, env=None):
        """A Generator for an unnamed module whose scope holds `env`."""
        f = self.new_file()
        g = self.I.instantiate(self.C["Generator"],
                               [Atom("root", None, {"lineno": K(1), "col": K(0)}),
                                f, K("main"), self.compiler], {})
        scope = self.I.getattr(self.I.getattr(g, "ctx"), "scope")
        for n, v in (env or {}).items():
            self.meth(scope, "set", K(n), v)
        return g, f

    # -- parser on token streams ------------------------------------------
    def token(self, t, value=None):
        """Token whose type has text `t` (the TokenType value)."""
        TT = self.repo.cls("TokenType", "tokenizer")
        ty = None
        for m in self.cx.vals.members(TT) or ():
            e = self.I.enum(TT, m)
            if isinstance(e.value, K) and e.value.v == t:
                ty = e
        if ty is None:
            raise Undecided("token %s" % t)
        self.ntok += 1
        return self.I.instantiate(self.repo.cls("Token", "tokenizer"),
                                  [ty, K(1), K(self.ntok), value or K(None)], {})

    def lex(self, spec):
        """Tokens from a compact description: words separated by blanks;
        a word that is not a token text is an identifier; `#3` an integer."""
        out = []
        for w in spec.split():
            if w == "NL":
                out.append(self.token("NEW_LINE"))
            elif w == "IN":
                out.append(self.token("INDENT"))
            elif w == "DE":
                out.append(self.token("DEDENT"))
            elif w.startswith("/"):
                if w in ("/", "/="):
                    out.append(self.token(w))
                    continue
                out.append(self.token("COMMAND_BEGIN"))
                out.append(self.token("TEXT_BODY", K(w[1:])))
                out.append(self.token("COMMAND_END"))
            elif w.startswith("@"):
                out.append(self.token("INTERFACE_PATH", K(w[1:])))
            elif w.startswith("#"):
                out.append(self.token("INTEGER", K(int(w[1:]))))
            else:
                try:
                    out.append(self.token(w))
                except Undecided:
                    out.append(self.token("IDENTIFIER", K(w)))
        return out

    def parser(self, toks):
        """An abstract Parser reading the given tokens."""
        self.stream = list(toks)
        end = self.token("END_MARKER")

        def nxt(I, fn, args, kw):
            return self.stream.pop(0) if self.stream else end
        T = self.repo.cls("Tokenizer")
        f = T.find("get_next_token")
        if f is None:
            raise Undecided("tokenizer interface")
        self.I.hooks[f] = nxt
        return self.I.instantiate(self.repo.cls("Parser"), [Atom("tokenizer", T)], {})

    def parse(self, spec, rule="expr"):
        p = self.parser(self.lex(spec) if isinstance(spec, str) else spec)
        return self.meth(p, rule)

    def new_file(self):
        return self.I.instantiate(self.C["MCFunctionFile"], [], {})

    def texts(self, cmds):
        """Texts of a list of Command values (strings are raw commands)."""
        out = []
        for c in self.I.iterate(cmds):
            if isinstance(c, (K, A.Txt)):
                out.append(c)
                continue
            if not isinstance(c, Inst):
                raise Undecided("command %r" % (c,))
            t = self.meth(c, "resolve")
            if not isinstance(t, (K, A.Txt)):
                raise Undecided("command text %r" % (t,))
            out.append(t)
        return out

    def machine(self, scores=None, **kw):
        m = Machine(scores, **kw)
        for s, v in self.consts.items():
            m.scores[(s, "obj")] = poly_of(v)
        return m

    def compile(self, stmts, ints="abcdt", bools=("p", "q", "r", "tb"), extra=None):
        """Abstractly compile statements (token specs); returns
        (texts of the main file, {path: texts of other files})."""
        env = {x: self.intvar(x) for x in ints}
        env.update({x: self.boolvar(x) for x in bools})
        env["n"] = self.intlit(Lin("n"))
        env.update(extra or {})
        g, f = self.generator(env)
        for s in stmts:
            self.meth(g, "visit", self.parse(s, "statement"))
        return self.texts(self.I.getattr(f, "commands")), self.file_texts()


def S(name):
    return (name, "obj")


def show(t):
    return t.v if isinstance(t, K) else "".join(
        p if isinstance(p, str) else repr(p) for p in t.parts)


def log_words(m):
    """Executed opaque commands of a machine as texts."""
    return [" ".join("".join(p if isinstance(p, str) else repr(p) for p in w.parts)
                     for w in ws) for ws in m.log]
