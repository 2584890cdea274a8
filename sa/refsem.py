"""Reference meaning of small Acacia programs (the oracle of the rules that
interpret the compiler on whole programs), and their token form.

Written from the language's documentation, not from the compiler: variables are
cells, normal functions take copies, `&` passes the cell itself, `const` a
compile-time value; structs are bundles of cells copied by value; `interface`
bodies run when their file is executed."""
import ast
import re

from .mcsem import Poly
from .absint import Undecided

_HEAD = re.compile(r"^(?P<q>(?:inline|const)\s+)?def (?P<n>\w+)\((?P<a>.*)\)"
                   r"(?:\s*->\s*(?P<r>.+))?:$")


class Refused(Exception):
    pass


def blocks(src):
    """[(line, [children])] by indentation."""
    root = []
    stack = [(-1, root)]
    for raw in src.strip("\n").split("\n"):
        if not raw.strip():
            continue
        ind = len(raw) - len(raw.lstrip())
        while stack[-1][0] >= ind:
            stack.pop()
        node = (raw.strip(), [])
        stack[-1][1].append(node)
        stack.append((ind, node[1]))
    return root


class Cell:
    def __init__(self, v=None):
        self.v = v


class Struct:
    def __init__(self, tmpl, fields):
        self.tmpl, self.f = tmpl, fields


class Const:
    """A compile-time value (int Poly, bool, str, list, dict)."""

    def __init__(self, v):
        self.v = v


class Func:
    def __init__(self, kind, args, ret, body, env):
        self.kind, self.args, self.ret, self.body, self.env = kind, args, ret, body, env


class Env(dict):
    def __init__(self, up=None):
        self.up = up

    def find(self, n):
        e = self
        while e is not None:
            if n in e:
                return e[n]
            e = e.up
        raise Refused("name " + n)


def ptext(v):
    if isinstance(v, bool):
        return str(int(v))
    return str(v)


class Ref:
    def __init__(self, cells, consts=None, fuel=3000):
        self.top = Env()
        self.top.update(cells)
        for k, v in (consts or {}).items():
            self.top[k] = Const(v)
        self.log = []
        self.ifaces = {}
        self.fuel = fuel

    def run(self, src):
        self.block(blocks(src), Env(self.top), None)

    # -- statements --------------------------------------------------------
    def extra(self, line, body, env, ctx):
        """Executes a statement of an extension."""
        return False

    def block(self, stmts, env, ctx):
        i = 0
        while i < len(stmts):
            self.fuel -= 1
            if self.fuel < 0:
                raise Undecided("reference fuel")
            line, body = stmts[i]
            i += 1
            if self.extra(line, body, env, ctx):
                continue
            if line.startswith("/"):
                self.log.append(re.sub(r"\$\{(.*?)\}", lambda m: ptext(
                    self.val(self.ev(m.group(1), env))), line[1:]))
                continue
            m = re.match(r"if (.*):$", line)
            if m:
                chain = [(m.group(1), body)]
                while i < len(stmts) and stmts[i][0].startswith("elif "):
                    chain.append((stmts[i][0][5:-1], stmts[i][1]))
                    i += 1
                if i < len(stmts) and stmts[i][0] == "else:":
                    chain.append((None, stmts[i][1]))
                    i += 1
                for c, b in chain:
                    if c is None or self.val(self.ev(c, env)):
                        self.block(b, env, ctx)
                        break
                continue
            m = re.match(r"while (.*):$", line)
            if m:
                while self.val(self.ev(m.group(1), env)):
                    self.fuel -= 1
                    if self.fuel < 0:
                        raise Undecided("reference fuel")
                    self.block(body, env, ctx)
                continue
            m = re.match(r"for (\w+) in (.*):$", line)
            if m:
                for x in self.val(self.ev(m.group(2), env)):
                    e = Env(env)
                    e[m.group(1)] = Const(x)
                    self.block(body, e, ctx)
                continue
            m = _HEAD.match(line)
            if m:
                env[m.group("n")] = self.func(m, body, env)
                continue
            m = re.match(r"struct (\w+)(?: extends (.*?))?:$", line)
            if m:
                fields = {}
                for b in (m.group(2) or "").split(","):
                    if b.strip():
                        fields.update(env.find(b.strip()).v[1])
                for fl, _ in body:
                    if fl != "pass":
                        a, t = fl.split(":")
                        fields[a.strip()] = t.strip()
                env[m.group(1)] = Const(("struct", fields, env))
                continue
            m = re.match(r"interface (\S+):$", line)
            if m:
                self.ifaces[m.group(1)] = (body, env)
                continue
            if line == "pass":
                continue
            m = re.match(r"result (.*)$", line)
            if m:
                v = self.ev(m.group(1), env)
                ctx["result"] = v if ctx["byref"] else self.cell(self.val(v))
                continue
            m = re.match(r"&\s*(\w+)(?:: \w+)? = (.*)$", line)
            if m:
                env[m.group(1)] = self.ev(m.group(2), env)
                continue
            if line.startswith("const ") and not _HEAD.match(line):
                for part in re.split(r", (?=\w+ = )", line[6:]):
                    m = re.match(r"(\w+)(?:: \w+)? = (.*)$", part)
                    env[m.group(1)] = Const(self.val(self.ev(m.group(2), env)))
                continue
            m = re.match(r"(\w+) := (.*)$", line)
            if m:
                env[m.group(1)] = self.cell(self.val(self.ev(m.group(2), env)))
                continue
            m = re.match(r"(\w+): (\w+)(?: = (.*))?$", line)
            if m:
                v = None
                if m.group(3):
                    v = self.val(self.ev(m.group(3), env))
                env[m.group(1)] = self.cell(v) if v is not None else self.new(m.group(2), env)
                continue
            m = re.match(r"([\w.]+(?:\([^=]*\)(?:\.\w+)*)?) ([-+*/%]?)= (.*)$", line)
            if m:
                t = self.ev(m.group(1), env)
                v = self.val(self.ev(m.group(3), env))
                if m.group(2):
                    v = self.arith(m.group(2), self.val(t), v)
                self.assign(t, v)
                continue
            self.ev(line, env)

    def func(self, m, body, env):
        args = []
        for a in re.findall(r"(?:[^,{(]|\{[^}]*\}|\([^)]*\))+", m.group("a")):
            x = re.match(r"\s*(&|const )?\s*(\w+)(?:: ([\w\[\]]+))?(?:\s*=\s*(.*))?$", a)
            args.append((x.group(2), (x.group(1) or "").strip(),
                         Const(self.val(self.ev(x.group(4), env))) if x.group(4) else None))
        r = (m.group("r") or "").strip()
        return Func((m.group("q") or "").strip(), args, r, body, env)

    def new(self, t, env):
        if t in ("int", "bool"):
            return Cell()
        s = env.find(t).v
        return Struct(t, {k: self.new(ft, s[2]) for k, ft in s[1].items()})

    def copy(self, v):
        if isinstance(v, Struct):
            return Struct(v.tmpl, {k: x.__class__(x.v) if isinstance(x, Cell) else self.copy(x)
                                   for k, x in v.f.items()})
        return v

    def cell(self, v):
        return self.copy(v) if isinstance(v, Struct) else Cell(v)

    def assign(self, t, v):
        if isinstance(t, Struct):
            c = self.copy(v)
            for k in t.f:
                self.assign(t.f[k], c.f[k] if isinstance(c.f[k], Struct) else c.f[k].v)
        elif isinstance(t, Cell):
            t.v = v
        else:
            raise Refused("assign to constant")

    def val(self, x):
        if isinstance(x, (Cell, Const)):
            return x.v
        return x

    # -- expressions -------------------------------------------------------
    def ev(self, text, env):
        e = ast.parse(text, mode="eval").body if isinstance(
            text, str) else text
        return getattr(self, "e_" + type(e).__name__)(e, env)

    def e_Constant(self, e, env):
        v = e.value
        return Const(Poly.const(v) if isinstance(v, int) and not isinstance(v, bool) else v)

    def e_Name(self, e, env):
        return env.find(e.id)

    def e_Attribute(self, e, env):
        o = self.ev(e.value, env)
        o = self.val(o)
        return o.f[e.attr]

    def e_Set(self, e, env):
        return Const([self.val(self.ev(x, env)) for x in e.elts])

    def e_List(self, e, env):
        return self.e_Set(e, env)

    def e_Dict(self, e, env):
        return Const({self.val(self.ev(k, env)): self.val(self.ev(v, env))
                      for k, v in zip(e.keys, e.values)})

    def e_UnaryOp(self, e, env):
        v = self.val(self.ev(e.operand, env))
        if isinstance(e.op, ast.Not):
            return Const(not v)
        return Const(-v if isinstance(e.op, ast.USub) else v)

    def arith(self, op, x, y):
        if op == "+":
            return x + y
        if op == "-":
            return x - y
        if op == "*":
            return x * y
        raise Undecided("reference division")

    def e_BinOp(self, e, env):
        x, y = self.val(self.ev(e.left, env)), self.val(self.ev(e.right, env))
        return Const(self.arith({ast.Add: "+", ast.Sub: "-", ast.Mult: "*"}.get(
            type(e.op), "?"), x, y))

    def e_Compare(self, e, env):
        xs = [self.val(self.ev(x, env)) for x in [e.left] + e.comparators]
        r = True
        for op, x, y in zip(e.ops, xs, xs[1:]):
            if isinstance(x, bool):
                s = int(x) - int(y)
            else:
                s = (x - y).sign()
                if s is None:
                    raise Undecided("reference order")
            r = r and {ast.Lt: s < 0, ast.LtE: s <= 0, ast.Gt: s > 0, ast.GtE: s >= 0,
                       ast.Eq: s == 0, ast.NotEq: s != 0}[type(op)]
        return Const(r)

    def e_BoolOp(self, e, env):
        xs = [self.val(self.ev(x, env)) for x in e.values]
        return Const(all(xs) if isinstance(e.op, ast.And) else any(xs))

    def e_Subscript(self, e, env):
        o = self.val(self.ev(e.value, env))
        k = self.val(self.ev(e.slice, env))
        if isinstance(o, list):
            return Const(o[k.const_value()])
        return Const(o[k])

    def e_Call(self, e, env):
        f = self.ev(e.func, env)
        if isinstance(f, Const) and isinstance(f.v, tuple):
            s = self.new(ast.unparse(e.func), env)
            vals = {k: self.ev(a, env) for k, a in zip(f.v[1], e.args)}
            vals.update({k.arg: self.ev(k.value, env) for k in e.keywords})
            for k, v in vals.items():
                self.assign(s.f[k], self.val(v))
            return s
        given = {}
        for (n, _, _), a in zip(f.args, e.args):
            given[n] = self.ev(a, env)
        for k in e.keywords:
            given[k.arg] = self.ev(k.value, env)
        e2 = Env(f.env)
        for n, port, d in f.args:
            v = given.get(n, d)
            if v is None:
                raise Refused("missing argument")
            e2[n] = v if port == "&" else Const(self.val(v)) if port == "const" \
                or f.kind == "const" else self.cell(self.val(v))
        ctx = {"result": None, "byref": f.ret.startswith("&")}
        if f.kind == "const":
            e2 = Env(e2)
            for n, _, _ in f.args:
                e2[n] = Cell(self.val(e2.up[n]))
        self.block(f.body, e2, ctx)
        r = ctx["result"]
        return r if r is not None else Const(None)


# -- tokens ---------------------------------------------------------------------

_TOK = re.compile(r"\s*(?:(?P<str>\"[^\"]*\")|(?P<num>\d+)|(?P<id>[A-Za-z_]\w*)|"
                  r"(?P<op><=|>=|==|!=|[-+*/%]=|->|:=|[-+*/%<>=.,:(){}\[\]&@]))")


def expr_words(s):
    out, pos = [], 0
    while pos < len(s):
        m = _TOK.match(s, pos)
        if not m:
            if not s[pos:].strip():
                break
            raise Undecided("token at %r" % s[pos:])
        pos = m.end()
        if m.group("num"):
            out.append(("#", int(m.group("num"))))
        elif m.group("str"):
            out.append(("str", m.group("str")[1:-1]))
        elif m.group("id"):
            out.append(("w", m.group("id")))
        else:
            out.append(("w", m.group("op")))
    return out


def tokens(lab, src):
    """Token objects of program text (the subset the rules use)."""
    from .absint import K, Lin
    out = []

    def word(kind, v):
        if kind == "#":
            out.append(lab.token("INTEGER", K(v)))
        elif kind == "str":
            out.append(lab.token("STRING_BEGIN"))
            text(v)
            out.append(lab.token("STRING_END"))
        elif kind == "w" and v == "n" and getattr(lab, "symbolic", True):
            out.append(lab.token("INTEGER", Lin("n")))
        else:
            try:
                if v in ("INDENT", "DEDENT", "NEW_LINE"):
                    raise Undecided("")
                out.append(lab.token(v))
            except Undecided:
                out.append(lab.token("IDENTIFIER", K(v)))

    def text(v):
        pos = 0
        for m in re.finditer(r"\$\{(.*?)\}", v):
            if m.start() > pos:
                out.append(lab.token("TEXT_BODY", K(v[pos:m.start()])))
            out.append(lab.token("DOLLAR_LBRACE"))
            for w in expr_words(m.group(1)):
                word(*w)
            out.append(lab.token("}"))
            pos = m.end()
        if pos < len(v):
            out.append(lab.token("TEXT_BODY", K(v[pos:])))

    def emit(stmts):
        for line, body in stmts:
            if line.startswith("/"):
                out.append(lab.token("COMMAND_BEGIN"))
                text(line[1:])
                out.append(lab.token("COMMAND_END"))
                out.append(lab.token("NEW_LINE"))
                continue
            m = re.match(r"interface (\S+):$", line)
            if m:
                out.append(lab.token("interface"))
                out.append(lab.token("INTERFACE_PATH", K(m.group(1))))
                out.append(lab.token(":"))
            else:
                for w in expr_words(line):
                    word(*w)
            out.append(lab.token("NEW_LINE"))
            if body:
                out.append(lab.token("INDENT"))
                emit(body)
                out.append(lab.token("DEDENT"))
    emit(blocks(src))
    return out
