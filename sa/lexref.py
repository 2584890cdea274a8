"""Reference of the lexical structure: an independent, whole-text lexer.

Tokens are (kind, value, line, column).  The column is None where it is a matter of
taste (line ends, indentation, the delimiters of strings)."""
import re

KEYWORDS = set("True False None def interface inline entity extends self if elif else while "
               "pass and or not result import as from for in struct virtual override const "
               "static new".split())
TWO = ["==", "!=", ">=", "<=", "+=", "-=", "*=", "/=", "%=", "->", ":="]
ONE = "()[]{}:,+-*/%><=.@&"
COLORS = dict(black="0", dark_blue="1", dark_green="2", dark_aqua="3", dark_red="4",
              dark_purple="5", gold="6", gray="7", dark_gray="8", blue="9", green="a", aqua="b",
              red="c", light_purple="d", yellow="e", white="f", minecoin_gold="g",
              reset="r", bold="l", italic="o", obfuscated="k")
NEW = dict(quartz="h", iron="i", netherite="j", redstone="m", copper="n", gold="p",
           emerald="q", diamond="s", lapis="t", amethyst="u")
PATH = re.compile(r"[A-Za-z0-9._/-]+")
CLOSE = {"(": ")", "[": "]", "{": "}"}


class LexError(Exception):
    def __init__(self, kind, line, col=None):
        super().__init__(kind)
        self.what = (kind, line, col)


class Lexer:
    def __init__(self, text, version=(1, 20, 0)):
        self.s, self.v = text, version
        self.i = 0
        self.out = []
        self.indents = [0]
        self.fresh = True       # at the start of a logical line
        self.content = False    # the logical line has a token
        self.path = None        # "interface" was read: a path has to follow
        self.spaces = None

    # -- position ---------------------------------------------------------
    def at(self, i=None):
        i = self.i if i is None else i
        return self.s.count("\n", 0, i) + 1, i - (self.s.rfind("\n", 0, i) + 1) + 1

    def see(self, t):
        return self.s.startswith(t, self.i)

    @property
    def c(self):
        return self.s[self.i:self.i + 1]

    def fail(self, kind, i=None, col=True):
        ln, c = self.at(i)
        raise LexError(kind, ln, c if col else None)

    def emit(self, kind, value=None, i=None, col=True):
        if self.fresh:
            self.indent()
        ln, c = self.at(i)
        self.out.append((kind, value, ln, c if col else None))
        self.content = True

    def indent(self):
        self.fresh = False
        n = self.spaces
        if n > self.indents[-1]:
            self.indents.append(n)
            self.out.append(("INDENT", None, self.at()[0], None))
        elif n in self.indents:
            while self.indents[-1] != n:
                self.indents.pop()
                self.out.append(("DEDENT", None, self.at()[0], None))
        else:
            self.fail("INVALID_DEDENT", col=False)

    # -- the text ---------------------------------------------------------
    def run(self):
        while True:
            self.fresh, self.content, self.path = True, False, None
            m = re.compile(" *").match(self.s, self.i)
            self.spaces = len(m.group())
            self.i = m.end()
            self.code(None, False)
            if self.content:
                if self.path is not None:
                    self.fail("INTERFACE_PATH_EXPECTED", col=False)
                self.out.append(("NEW_LINE", None, self.at()[0], None))
            if not self.c:
                break
            self.i += 1
        ln = self.at()[0] + 1
        self.out += [("DEDENT", None, ln, None)] * (len(self.indents) - 1)
        self.out.append(("END_MARKER", None, ln, None))
        return self.out

    def code(self, end, multi):
        """Tokens up to the end of the logical line, or to the bracket `end` (`multi`:
        it may be on another line; None: within a formatted expression of one line)."""
        start = self.i - 1
        while True:
            c = self.c
            if not c or c == "\n":
                if end is None:
                    return
                if not multi:
                    self.fail("UNCLOSED_FEXPR", col=False)
                if not c:
                    if multi == "cmd":
                        raise LexError("UNCLOSED_FEXPR", None)
                    self.fail("UNCLOSED_BRACKET", start)
                self.i += 1
            elif c == " ":
                self.i += 1
            elif self.see("#*"):
                j = self.s.find("*#", self.i + 2)
                if j < 0:
                    self.fail("UNCLOSED_LONG_COMMENT", col=False)
                self.i = j + 2
            elif c == "#":
                while self.c not in ("", "\n"):
                    self.i += 1
            elif c == "\\":
                if self.fresh:
                    self.indent()
                n = self.s[self.i + 1:self.i + 2]
                if n == "\n" and not (end and not multi):
                    self.i += 2
                elif end and not multi:
                    self.fail("UNCLOSED_FEXPR", col=False)
                else:
                    self.fail("CHAR_AFTER_CONTINUATION" if n else "EOF_AFTER_CONTINUATION",
                              col=False)
            elif self.path is not None and c != '"':
                m = PATH.match(self.s, self.i)
                if not m:
                    self.fail("INTERFACE_PATH_EXPECTED")
                self.emit("INTERFACE_PATH", m.group())
                self.i, self.path = m.end(), None
            elif c in "0123456789":
                self.number()
            elif c.isalpha() or c == "_":
                b = self.i
                while self.c and (self.c.isalpha() or self.c in "_0123456789"):
                    self.i += 1
                w = self.s[b:self.i]
                if w in KEYWORDS:
                    self.emit(w, None, b)
                    if w == "interface":
                        self.path = b
                else:
                    self.emit("IDENTIFIER", w, b)
            elif c == "/" and not self.content and end is None:
                self.command()
            elif c == '"':
                self.path = None
                self.string()
            elif self.s[self.i:self.i + 2] in TWO:
                self.emit(self.s[self.i:self.i + 2])
                self.i += 2
            elif c in ")]}":
                if end is None:
                    self.fail("UNMATCHED_BRACKET")
                if c != end:
                    self.fail("UNMATCHED_BRACKET_PAIR")
                return
            elif c in ONE:
                self.emit(c)
                self.i += 1
                if c in CLOSE:
                    self.code(CLOSE[c], multi if end and multi != "cmd" else True if end is None
                              else multi)
                    self.emit(CLOSE[c])
                    self.i += 1
            else:
                self.fail("INVALID_CHAR")

    def number(self):
        b = self.i
        m = re.compile(r"0[bB]([01]*)|0[oO]([0-7]*)|0[xX]([0-9A-Fa-f]*)|(\d+\.\d+)|(\d+)",
                       re.A).match(self.s, b)
        self.i = m.end()
        for k, base in ((1, 2), (2, 8), (3, 16)):
            if m.group(k) is not None:
                if not m.group(k):
                    self.fail("INTEGER_REQUIRED")
                self.emit("INTEGER", int(m.group(k), base), b)
        if m.group(4):
            self.emit("FLOAT", float(m.group(4)), b)
        if m.group(5):
            self.emit("INTEGER", int(m.group(5)), b)

    def fexpr(self, multi):
        self.emit("DOLLAR_LBRACE", None)
        self.i += 2
        self.code("}", multi)
        self.emit("}")
        self.i += 1

    def unit(self):
        """One character or escape sequence, as text."""
        s, i = self.s, self.i
        if s[i] != "\\":
            self.i += 1
            return s[i]
        n = s[i + 1:i + 2]
        if n == "\\" or n == "$":
            self.i += 2
            return n
        if n == "#":
            m = re.compile(r"\(([^)\n]*)").match(s, i + 2)
            if not m:
                self.i += 2
                return "\xa7"
            fonts = [f.strip() for f in m.group(1).split(",")]
            closed = s[m.end():m.end() + 1] == ")"
            out = ""
            for k, f in enumerate(fonts):
                if not closed and k == len(fonts) - 1:
                    self.fail("UNCLOSED_FONT", i + 2)
                code = COLORS.get(f)
                if code is None and self.v >= (1, 19, 80) and f.startswith("material_"):
                    code = NEW.get(f[9:])
                if code is None:
                    self.fail("INVALID_FONT", i + 2)
                out += "\xa7" + code
            self.i = m.end() + 1
            return out
        if n in ("x", "u", "U") and n:
            k = {"x": 2, "u": 4, "U": 8}[n]
            h = s[i + 2:i + 2 + k]
            if not re.fullmatch("[0-9a-fA-F]{%d}" % k, h) or int(h, 16) > 0x10ffff \
                    or 0xd800 <= int(h, 16) < 0xe000:
                self.fail("INVALID_UNICODE_ESCAPE", col=False)
            self.i += 2 + k
            return chr(int(h, 16))
        self.i += 1
        return "\\"

    def text(self, stop, multi, quote=False):
        """The pieces of a string or command up to where `stop()` holds."""
        buf, b = "", None

        def flush():
            if buf:
                self.emit("TEXT_BODY", buf, b)
        while not stop():
            if self.see("${"):
                flush()
                buf = ""
                self.fexpr(multi)
                continue
            if not buf:
                b = self.i
            if quote and self.see('\\"'):
                buf += '"'
                self.i += 2
            elif multi == "cmd" and self.c == "\n":
                buf += " "
                self.i += 1
            else:
                buf += self.unit()
        flush()

    def string(self):
        b = self.i
        self.emit("STRING_BEGIN", None, col=False)
        self.i += 1

        def stop():
            if self.c in ("", "\n"):
                self.fail("UNCLOSED_QUOTE", b, col=False)
            return self.c == '"'
        self.text(stop, False, True)
        self.i += 1
        self.emit("STRING_END", None, b, col=False)

    def command(self):
        b = self.i
        self.emit("COMMAND_BEGIN")
        if self.see("/*"):
            self.i += 2

            def stop():
                if not self.c:
                    self.fail("UNCLOSED_LONG_COMMAND", b, col=False)
                return self.see("*/")
            self.text(stop, "cmd")
            self.emit("COMMAND_END", None, col=False)
            self.i += 2
        else:
            self.i += 1
            self.text(lambda: self.c in ("", "\n"), False)
            self.emit("COMMAND_END", None, col=False)


def lex(text, version=(1, 20, 0)):
    """(tokens, None) or (None, (error, line, column or None))."""
    try:
        return Lexer(text, version).run(), None
    except LexError as e:
        return None, e.what
