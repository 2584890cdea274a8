"""P10: the text of a program is read as the lexical structure says."""
import itertools

from ..ctx import Ctx
from .. import absint as A
from ..absint import K, Inst, Tup, Atom, Py, NONE
from ..lab import Lab
from ..lexref import lex, KEYWORDS, COLORS, NEW
from ..scen import run_cases

OPS = "()[]{}:,+-*/%><=.@&!"
CHARS = [chr(i) for i in range(32, 127)] + list("\té中²٣\u00a0😀\x7f§\u200b")


class LexLab(Lab):
    def __init__(self, cx):
        super().__init__(cx)
        self.I.opaque_modules = ()
        self.I.fuel0 = 400000
        self.T = self.repo.cls("Tokenizer")

    def read(self, text, version):
        lines = text.splitlines(True)
        src = Atom("file", None, {"readline": Py(lambda I, a, k: K(lines.pop(0) if lines else ""))})
        t = self.I.instantiate(self.T, [src, Tup([K(x) for x in version])], {})
        out = []
        while len(out) < 4 * len(text) + 20:
            k = self.meth(t, "get_next_token")
            kind = self.I.getattr(self.I.getattr(k, "type"), "value")
            val = self.I.getattr(k, "value")
            ln, col = self.I.getattr(k, "lineno"), self.I.getattr(k, "col")
            for v in (kind, val, ln, col):
                if not isinstance(v, K):
                    raise A.Undecided("token")
            out.append((kind.v, val.v, ln.v, col.v))
            if kind.v == "END_MARKER":
                return out
        return out


def same(a, b):
    return a[:3] == b[:3] and type(a[1]) is type(b[1]) and a[3] in (None, b[3])


def show(toks):
    return " ".join(t[0] if t[1] is None else "%s(%r)" % t[:2] for t in toks)


def compare(want, got):
    """(ok, explanation) of the token lists."""
    for i, (a, b) in enumerate(itertools.zip_longest(want, got)):
        if a is None or b is None or not same(a, b):
            f = lambda t: "nothing" if t is None else "%s at %s:%s" % (show([t]), t[2], t[3])
            return False, "token %d is %s instead of %s" % (i + 1, f(b), f(a))
    return True, ""


def judge(lab, case):
    rule, texts, version = case
    out = []
    for text in texts:
        want, err = lex(text, version)
        if want is not None:
            want = [t if t[0] != "TEXT_BODY" else t[:3] + (None,) for t in want]

        def thunk():
            lab.counter = lab.ntok = 0
            return lab.read(text, version)
        for how, v, trace in lab.I.run(thunk):
            if how == "undecided" and v in ("too long", "endless loop"):
                out.append((rule, repr(text), False, "the tokenizer does not come to an end"))
            elif how == "undecided" or trace:
                out.append((None, v if how == "undecided" else "branch", True, ""))
            elif how == "raise" and v.name != "Error":
                out.append((rule, repr(text), False, "the tokenizer crashes with %s" % v.name))
            elif how == "raise":
                f = v.val.fields
                loc = f["location"].fields.get("linecol")
                got = (getattr(f.get("type"), "name", None),) + tuple(
                    getattr(x, "v", None) for x in getattr(loc, "items", ()))
                ok = err is not None and all(e is None or e == g for e, g in zip(err, got))
                out.append((rule, repr(text), ok, "refused with %s instead of %s" % (
                    got, err or "being read as " + show(want))))
            elif err is not None:
                out.append((rule, repr(text), False, "read as %s instead of refused with %s" % (
                    show(v), err)))
            else:
                ok, why = compare(want, v)
                out.append((rule, repr(text), ok, why))
    return out


def units():
    u = [c for c in CHARS if c not in '"']
    u += ["\\" + c for c in CHARS]
    u += ["\\x41", "\\x4", "\\x4g", "\\u4e2d", "\\u4E2", "\\U0001f600", "\\U0010ffff", "\\U00110000",
          "\\ud7ff", "\\ud800", "\\udfff", "\\ue000", "\\X41", "${x}", "${x}${y}", "$${x}", "\\${x}",
          "\\\\${x}", "$x", "$", "{x}", "}", "${ x }", "${x + 1}", "${f(1, {2})}", '${"b"}',
          '${"b${c}d"}', '${{"b": 1}["b"]}', "${x", "${", "${x)}", "${(x}", "${}}", "\\#(red)",
          "\\#(red, bold)", "\\#( gold ,italic)", "\\#()", "\\#(foo)", "\\#(red,)", "\\#(red",
          "\\#(red,x", "\\#x", "\\#", "\\##", "\\#\\#(k)", "\\#(Red)", "a\\", "\\n", "\\\\n",
          "#c", "#* c *#", "  two  ", "*", "* /", "\\*/", "\\\\", "\\\\\\"]
    return u


def gen():
    out = []

    def add(rule, texts, version=(1, 20, 0)):
        texts = list(dict.fromkeys(texts))
        out.extend((rule, texts[i:i + 25], version) for i in range(0, len(texts), 25))
    U = units()
    pairs = ["a\\", "\\\\", "\\$", "$", "${x}", "\\x41", "\\#(red)", "\\#", '\\"', " ", "{", "}", "q"]
    both = ["".join(p) for p in itertools.product(pairs, repeat=2)]
    # strings
    add("R1", ['s = "a%sb" + c\n' % u for u in U + both])
    add("R1", ['"%s"' % u for u in U + both] + ['""', '"', '"" ""', '"a"b', 'f("", "")', '"a" "b"',
        '"a\nb"', '"a\\\nb"', '"${x}\n', '"${x\n}"', '"${ f(\n1) }"', '"${"${"${x}"}"}"', '"${"a}"',
        '"${#c\n}"', '"${ #* c *# x}"', '"a${x}" "${y}b"', '"${x \\\n}"'])
    # commands
    add("R2", ["/say %s" % u for u in U + both] + ["/a%sz\nx\n" % u for u in U + ['"']])
    add("R2", ["/*a%sz*/\nx\n" % u for u in U + both + ['"', "\n", "\n\n ", "${x +\n y}", "${(\n)}",
        "${ #c\n x}", "${\n", "${ #* \n *# x}"]])
    add("R2", ["/", "/\n", "/*", "/**/", "/*/", "/* a", "/* a\n", "/* a\n b */ c", "/* a */ # c\n",
               "  /a", "a /b", "a\\\n/b", "(\n/b)", "if x:\n    /a\n    /*b\n c*/\nd", "/a\n/b\n",
               "/*a*/\n/*b*/", "/a # b", "/a #* b", "/a \\\nb", "/${x}", "/${ {1} } x", "/${[1,\n2]}",
               "/*${[1,\n2]}*/", "/* ${x", "/* ${", "#* c *# /a", "\\\n/a", "/a /* b */", "/*a*//b"])
    # operators: every pair and the triples that could be read in two ways
    add("R3", ["a%s%sb" % p for p in itertools.product(CHARS, OPS) if p[0] not in '"#\\'])
    add("R3", ["a%s%sb" % (b, c) for b in OPS for c in CHARS if c not in '"#\\'])
    add("R3", ["f(a %s b)" % "".join(p) for p in itertools.product("=<>!:+-*/%", repeat=3)])
    add("R3", ["a%sb" % c for c in CHARS] + ["%s" % c for c in CHARS] + [" %s" % c for c in CHARS])
    # brackets
    add("R3", ["x " + "".join(p) for n in (1, 2, 3, 4)
               for p in itertools.product("([{)]}", repeat=n) if n < 4 or p[0] in "([{"][::3]
        + ["".join(p) for n in (1, 2, 3) for p in itertools.product("([{)]}", repeat=n)])
    # numbers and names
    digs = ["0", "1", "9", "07", "10", "0b", "0b1", "0B10", "0b2", "0b12", "0o7", "0O17", "0o8",
            "0x", "0xf", "0XFf", "0xg", "0b_", "1.5", "1.", "1.x", ".5", "1.5.2", "0.5", "00.50",
            "0x1.5", "0b1.1", "0o1.1", "1e5", "1_0", "1a", "123456789012345678901", "2147483648",
            "1 .5", "1. 5", "0 x1", "1٣", "٣", "²", "0b1f", "0o79", "00", "0_", "1.0a", "0.0"]
    add("R3", digs + ["-%s" % d for d in digs] + ["f(%s)\n" % d for d in digs]
        + ["a%s" % d for d in digs])
    names = sorted(KEYWORDS)
    add("R3", ["%s" % k for k in names] + ["%s1" % k for k in names] + ["_%s" % k for k in names]
        + ["%s_x(%s)" % (k, k) for k in names] + [k.swapcase() for k in names]
        + ["é", "éa", "a中1", "_", "__a1", "a٣", "aé", "a-b", "x\u00a0y", "a²"])
    # indentation, blank lines, comments, continuation
    parts = ["a", "b:", "", "# c", "/d"]
    ind = ["", "  ", "    "]
    lines = [i + p for i in ind for p in ("a", "# c")] + [""]
    add("R4", ["\n".join(p) + e for p in itertools.product(lines, repeat=3) for e in ("\n", "")])
    add("R4", ["\n".join(i + "a" for i in p) for p in itertools.product(ind, repeat=4)])
    add("R4", ["\n".join(x) for x in itertools.product(["a", " a"], parts + ["   x"], ["", "b", " b"])])
    com = ["#* c *#", "#* c\n d *#", "#*\n*#", "#**#", "#*#", "#* *", "#* c", "#", "#c", "##", "#* # *#",
           "#* #* *#", "#* *# *#", "#* c\n\n  d\n *#", "#* c *##", "#*", "#***#", "#* ** *#"]
    add("R4", [t % c for c in com for t in (
        "%s", "%s\n", "a %s", "a %s\n", "a %s b\n", "if a:\n  b %s\n  c\n", "if a:\n  b\n%s\nc\n",
        "f(%s)", "f(a, %s\n b)", "  %s\na", "a\\\n%s", "a %s\n  b", '"a%s"')])
    add("R4", ["a \\\n b", "a\\\nb\nc", "a \\\n\n b", "a \\", "a \\ ", "a \\ b", "a \\# c", "\\\na", "\\\n\n",
               "if a:\n  b \\\nc\n  d", "  \\\n a", "a \\\n  \\\n b", "f(a \\\n b)", "f(\na\n  b\n)\nc", "f(\n",
               "f(\n\n)\n", "x\n  y\n z", "x\n  y\nz\n", "\n\n a\n", "a\n\n\n", "", "\n", " ", "  \n ",
               "x = {\n  1,\n2\n}\n  y", "x = [\n# c\n]\n", "f(\\\n)", "a\n\tb", "(a\n))", "x (\n  [}\n"])
    # paths after `interface`
    add("R5", ["interface a%sb:\n  pass" % c for c in CHARS] + ["interface %s:" % c for c in CHARS]
        + ["interface a/b-c.d_e/F9:\n", "interface\n", "interface", "interface  x:\n", "interface \\\n x:",
           'interface "a b":\n  x', 'interface "a${x}":', 'interface "', "interface # c\n", "interface #* c *# x:",
           "interfaces x", "interface interface:", "interface a b:", "interface a:b", "(interface\n x)",
           "interface (x):", "interface x\ninterface y\n", "interface if:", "interface 1.5:", 'interface ""'])
    # fonts and versions
    fonts = sorted(COLORS) + ["material_" + n for n in sorted(NEW)] + ["material_x", "quartz", "k", "0"]
    for v in ((1, 19, 70), (1, 19, 80), (1, 20, 0), (1, 21)):
        add("R1", ['"\\#(%s)"' % f for f in fonts] + ["/\\#(%s, reset) x" % f for f in fonts[::4]], v)
    return out


def check(chk, repo):
    cx = Ctx(repo)
    chk.rule("R1", "a string literal is read as its characters, escapes, fonts and formatted expressions")
    chk.rule("R2", "a command is read up to its end, line breaks of long commands becoming spaces")
    chk.rule("R3", "operators, numbers, names, keywords and brackets are read by longest match, at "
                   "their line and column; anything else is refused there")
    chk.rule("R4", "indentation, comments, continuation and line ends group lines into blocks and statements")
    chk.rule("R5", "the path of an interface is read as one token")
    lab = LexLab(cx)
    n = run_cases(chk, cx, lab, gen(), lambda c: judge(lab, c))
    for r, k in (("R1", 600), ("R2", 600), ("R3", 2500), ("R4", 900), ("R5", 180)):
        chk.floor(r, k)
