"""P04: integer arithmetic is lowered to commands that compute it."""
import ast
import itertools

from ..ctx import Ctx
from ..absint import K, Lin, Inst
from ..lab import Lab, S
from ..scen import run_cases
from ..mcsem import Poly, Bad

ATOMS = ["n", "#3", "#-2", "a", "b"]
KINDS = ["n", "#7", "-#2", "a", "b", "(a+b)", "-a", "(a-#5)", "(a*n)", "((a-b)*(c+d))"]
OPS = "+-*/%"


def spec_of(text):
    """Spaced token spec of an expression text."""
    out = ""
    for ch in text:
        out += " %s " % ch if ch in "+-*/%()=" else ch
    return out


def oracle(text):
    """Meaning of an expression text (Python's grammar for these operators
    is the documented one)."""
    names = {"a", "b", "c", "d", "t", "n"}

    def ev(e):
        if isinstance(e, ast.Expression):
            return ev(e.body)
        if isinstance(e, ast.Name):
            return Poly.atom("n" if e.id == "n" else e.id)
        if isinstance(e, ast.Constant):
            return Poly.const(e.value)
        if isinstance(e, ast.UnaryOp):
            v = ev(e.operand)
            return -v if isinstance(e.op, ast.USub) else v
        a, b = ev(e.left), ev(e.right)
        if isinstance(e.op, ast.Add):
            return a + b
        if isinstance(e.op, ast.Sub):
            return a - b
        if isinstance(e.op, ast.Mult):
            return a * b
        x, y = a.const_value(), b.const_value()
        if x is not None and y is not None:
            if y == 0:
                raise ZeroDivisionError
            q = abs(x) // abs(y)
            q = q if (x >= 0) == (y >= 0) else -q
            return Poly.const(q if isinstance(e.op, ast.Div) else x - q * y)
        return a.div(b) if isinstance(e.op, ast.Div) else a.mod(b)
    return ev(ast.parse(text.replace("#", ""), mode="eval"))


def cases(tier):
    out = []
    for k in KINDS:
        out.append(("t", "=", k))
        out.append(("a", "=", k))
        out.append(("t", "=", "-" + k))
        out.append(("t", "=", "+" + k))
        for op in OPS:
            out.append(("a", op + "=", k))
    for x, y in itertools.product(KINDS, KINDS):
        for op in OPS:
            out.append(("t", "=", x + op + y))
    alias = KINDS if tier == "thorough" else ["n", "a", "b", "(a+b)", "((a-b)*(c+d))"]
    for x, y in itertools.product(alias, alias):
        for op in OPS:
            out.append(("a", "=", x + op + y))
            if y != x:
                out.append(("b", "=", x + op + y))
    for o1, o2 in itertools.product(OPS, OPS):
        out.append(("t", "=", "a" + o1 + "b" + o2 + "c"))
        out.append(("t", "=", "a" + o1 + "#3" + o2 + "b"))
        out.append(("t", "=", "a" + o1 + "(b" + o2 + "c)"))
        if tier == "thorough":
            for o3 in OPS:
                out.append(("t", "=", "a" + o1 + "b" + o2 + "c" + o3 + "d"))
                out.append(("a", "=", "(a" + o1 + "b)" + o2 + "(c" + o3 + "a)"))
                out.append(("a", o1 + "=", "b" + o2 + "(a" + o3 + "n)"))
    for x, y in itertools.product((7, -7, 6), (2, -2, 3, -3)):
        for op in "/%":
            out.append(("t", "=", "#%d%s#%d" % (x, op, y) if x > 0 else
                        "(-#%d)%s#%d" % (-x, op, y)))
    seen, res = set(), []
    for c in out:
        if c not in seen:
            seen.add(c)
            res.append(c)
    return res


def check(chk, repo):
    cx = Ctx(repo)
    chk.rule("R1", "the commands emitted for an integer assignment, interpreted over "
                   "unknown scores, leave the target with the value of the expression")
    chk.rule("R2", "the commands emitted for an integer assignment change no other variable")
    chk.rule("R3", "a supported integer expression is accepted")
    lab = Lab(cx)

    def judge(case):
        stmts = case
        show = "; ".join("%s %s %s" % (t, op, x) for t, op, x in stmts)
        out = []

        def thunk():
            lab.start()
            env = {x: lab.intvar(x) for x in "abcdt"}
            env["n"] = lab.intlit(Lin("n"))
            g, f = lab.generator(env)
            for t, op, x in stmts:
                lab.meth(g, "visit", lab.parse("%s %s %s NL" % (t, op, spec_of(x)),
                                               "statement"))
            tx = lab.texts(lab.I.getattr(f, "commands"))
            m = lab.machine({S(x): Poly.atom(x) for x in "abcdt"})
            m.strict = True
            try:
                m.run(tx)
            except Bad as e:
                return ("bad", str(e), tx)
            return ("ok", m, tx)
        wants = {x: Poly.atom(x) for x in "abcdt"}
        try:
            for t, op, x in stmts:
                want = oracle(x)
                if op != "=":
                    base = wants[t]
                    want = {"+": lambda: base + want, "-": lambda: base - want,
                            "*": lambda: base * want, "/": lambda: base.div(want),
                            "%": lambda: base.mod(want)}[op[0]]()
                wants[t] = want
        except ZeroDivisionError:
            return out
        for kind, v, trace in lab.I.run(thunk):
            if kind == "undecided":
                out.append((None, v, True, ""))
                continue
            if kind == "raise":
                # with an unknown literal the range check may fail
                if trace or _overflow(v):
                    continue
                out.append(("R3", show, False, "the compiler refuses it (%s)" % v.name))
                continue
            if v[0] == "bad":
                out.append(("R1", show, False, "wrong commands: %s" % v[1]))
                continue
            out.append(("R3", show, True, ""))
            m, tx = v[1], v[2]
            changed = {t for t, _, _ in stmts}
            for x in "abcdt":
                got = m.scores.get(S(x))
                ok = got == wants[x]
                rule = "R1" if x in changed else "R2"
                out.append((rule, "%s : %s" % (show, x), ok, "" if ok else
                            "%s becomes %s instead of %s (commands: %s)" % (
                                x, got, wants[x], "; ".join(map(_show, tx)))))
        return out
    todo = []
    for t, op, x in cases(chk.tier):
        todo.append([(t, op, x.replace("#-", "-#"))])
    run_cases(chk, cx, lab, todo, judge)
    chk.assume("scoreboard operations are interpreted over the integers (wrap-around of the "
               "32 bit range is a ring homomorphism for + - *; / and % are uninterpreted)")
    chk.floor("R1", 200)
    chk.floor("R2", 600)
    chk.floor("R3", 200)


def _overflow(e):
    f = e.val.fields.get("type") if isinstance(e.val, Inst) else None
    return f is not None and "OVERFLOW" in repr(f)


def _show(t):
    return t.v if isinstance(t, K) else "".join(
        p if isinstance(p, str) else repr(p) for p in t.parts)
