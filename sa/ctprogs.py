"""Programs of compile-time code together with the texts their /say commands have
to show; the expected values are computed here by a small reference model."""
import itertools
import operator
import re

# a const function cannot name the type of strings: they are handed over in a list
TYPE, AT = {"str": "list"}, {"str": "[0]"}
MIN, MAX = -2 ** 31, 2 ** 31 - 1


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


ARITH = {"+": operator.add, "-": operator.sub, "*": operator.mul,
         "/": tdiv, "%": lambda a, b: a - b * tdiv(a, b)}
CMP = {"==": operator.eq, "!=": operator.ne, "<": operator.lt, ">": operator.gt,
       "<=": operator.le, ">=": operator.ge}


def show(v):
    if isinstance(v, bool):
        return "true" if v else "false"
    return str(v)


def typ(v):
    return "bool" if isinstance(v, bool) else "int" if isinstance(v, int) else \
        "float" if isinstance(v, float) else "str"


class Batch:
    """Collects expressions (value known) into programs."""

    def __init__(self, rule, size=14):
        self.rule, self.size, self.items = rule, size, []

    def both(self, expr, value, pre=""):
        """The expression, at run level and inside a const function."""
        self.items.append((pre, expr, value, None))
        self.items.append((pre, expr, value, typ(value)))

    def func(self, body, value, type_=None, pre="", args=""):
        """A const function with the given body lines, called with `args`."""
        self.items.append((pre, (body, args), value, type_ or typ(value)))

    def run(self, code, value, pre=""):
        """Run-level code ending in a /say."""
        self.items.append((pre, code, value, "run"))

    def programs(self):
        out = []
        for i in range(0, len(self.items), self.size):
            text, want, pres = "", [], []
            for k, (pre, e, v, t) in enumerate(self.items[i:i + self.size]):
                if pre and pre not in pres:
                    pres.append(pre)
                if t is None:
                    text += "/say %d ${%s}\n" % (k, e)
                elif t == "run":
                    text += e.replace("@", str(k)) + "\n"
                elif isinstance(e, tuple):
                    params, _, body = e[0].rpartition("|")
                    lines = ["    " + x for x in body.strip("\n").split("\n")]
                    if t == "str":
                        lines = [re.sub("result (.*)", r"result {\1}", x) for x in lines]
                    text += "const def f%d(%s) -> %s:\n%s\n/say %d ${f%d(%s)%s}\n" % (
                        k, params, TYPE.get(t, t), "\n".join(lines), k, k, e[1], AT.get(t, ""))
                else:
                    text += "const def f%d() -> %s:\n    result %s\n/say %d ${f%d()%s}\n" % (
                        k, TYPE.get(t, t), "{%s}" % e if t == "str" else e, k, k, AT.get(t, ""))
                for s in (v if isinstance(v, list) else [v]):
                    want.append("say %d %s" % (k, show(s)))
            out.append((self.rule, "".join(p + "\n" for p in pres) + text, want))
        return out


def thin(seq, deep, step):
    """Every element in the thorough tier, every `step`-th one otherwise."""
    return [x for i, x in enumerate(seq) if deep or i % step == 0]


def expressions(deep):
    b = Batch("R1", 24)
    vals = [0, 1, 7, -7, 3, -2, MAX, MIN]
    for op, f in ARITH.items():
        for x, y in thin(itertools.product(vals, repeat=2), deep, 1 if op in '/%' else 3):
            if op in "/%" and y == 0:
                continue
            v = f(x, y)
            if MIN < v <= MAX:
                b.both("%s %s %s" % (lit(x), op, lit(y)), v)
    b.both("2 + 3 * 4 - 6 / 4 % 3", 2 + 12 - 1)
    b.both("-(2 - 5) * +2", 6)
    b.both("10 - 4 - 3", 3)
    b.both("100 / 7 / 2", 7)
    for o1, o2 in itertools.product(CMP, repeat=2):
        for t in itertools.product((1, 2), repeat=3):
            if sum(t) == 4 or o1 == o2:
                b.both("%d %s %d %s %d" % (t[0], o1, t[1], o2, t[2]),
                       CMP[o1](t[0], t[1]) and CMP[o2](t[1], t[2]))
    tf = [("True", True), ("False", False)]
    for (s, x), (t, y) in itertools.product(tf, repeat=2):
        b.both("%s and %s" % (s, t), x and y)
        b.both("%s or %s" % (s, t), x or y)
        b.both("not %s or %s" % (s, t), not x or y)
        b.both("not (%s and %s)" % (s, t), not (x and y))
        b.both("%s == %s" % (s, t), x == y)
        b.both("%s != %s" % (s, t), x != y)
        for u, z in tf:
            b.both("%s and %s or %s" % (s, t, u), x and y or z)
            b.both("%s or %s and %s" % (s, t, u), x or y and z)
            b.both("%s and %s and %s" % (s, t, u), x and y and z)
            b.both("%s or %s or %s" % (s, t, u), x or y or z)
    fl = [0.5, 2.0, -1.25, 4.0]
    for op in "+-*/":
        f = operator.truediv if op == "/" else ARITH[op]
        for x, y in itertools.product(fl, fl):
            b.both("%s %s %s" % (flit(x), op, flit(y)), float(f(x, y)))
        for x in fl:
            for n in (3, -2):
                b.both("%s %s %s" % (flit(x), op, lit(n)), float(f(x, n)))
                b.both("%s %s %s" % (lit(n), op, flit(x)), float(f(n, x)))
    for x, y in ((7.5, 2.0), (7.5, 2), (7, 2.5), (0.5, 2.0)):
        b.both("%s %% %s" % (x, y), float(x % y))
    b.both("-0.5", -0.5)
    b.both("--1.5", 1.5)
    b.both("float(3)", 3.0)
    b.both('"a" + "b" + ""', "ab")
    b.both('"a" "b" "${1}"', "ab1")
    b.both('"${1}${-2} ${True}${not True} ${0.5} ${None} ${"x"}"', "1-2 truefalse 0.5 None x")
    b.both('"${"${"a" + "${1 + 1}"}b"}"', "a2b")
    b.both('"${1 + 2 * 3}" + "q"', "7q")
    return b.programs()


def lit(n):
    return "(%d - 1)" % (n + 1) if n == MIN else str(n) if n >= 0 else "(%d)" % n


def flit(x):
    return str(x) if x >= 0 else "(%s)" % x


def control():
    b = Batch("R2", 16)
    b.func("x := 1\nif True:\n    x = 2\nelse:\n    x = 3\nresult x", 2)
    b.func("x := 1\nif False:\n    x = 2\nelif x == 1:\n    x = 4\nelse:\n    x = 3\nresult x", 4)
    b.func("x := 1\nif False:\n    x = 2\nelif x == 2:\n    x = 4\nelse:\n    x = 3\nresult x", 3)
    b.func("x := 1\nif x > 1:\n    x = 2\nresult x", 1)
    for n in (0, 1, 5):
        b.func("i := 0\ns := 0\nwhile i < %d:\n    i += 1\n    s += i * i\nresult s" % n,
               sum(k * k for k in range(n + 1)))
        b.func('s := ""\nfor i in list.range(%d):\n    s += "${i}"\nresult s' % n,
               "".join(map(str, range(n))))
        b.func('s := ""\nfor i in list.range(%d):\n    for j in list.range(i):\n        s += '
               '"${i}${j} "\nresult s + "."' % n,
               "".join("%d%d " % (i, j) for i in range(n) for j in range(i)) + ".")
    b.func("i := 7\nn := 0\nwhile i != 1:\n    n += 1\n    if i % 2 == 0:\n        i /= 2\n    else:\n"
           "        i = 3 * i + 1\nresult n", 16)
    for op, f in ARITH.items():
        b.func("x := 17\nx %s= 5\nresult x" % op, f(17, 5))
        b.func("x := -17\ny := x\nx %s= 5\nresult y" % op, -17)
    b.func('s := "a"\nt := s\ns += "b"\nresult s + t', "aba")
    b.func("x := 1\n&r = x\nr = 5\nresult x", 5)
    b.func("x := 1\n&r = x\nx = 6\nresult r", 6)
    b.func("x := 1\n&r: int = x\nr += 1\nresult x", 2)
    b.func("x := 1\ny := 2\n&r = x\n&q = r\nq = y\ny = 9\nresult x", 2)
    b.func("x: int = 3\ny: float = 0.5\nresult \"${x}${y}\"", "30.5")
    b.func("result 1\nresult 2", 2)
    b.func("x := 0\nfor i in {3, 4}:\n    y := i * 2\n    x += y\nresult x", 14)
    b.func("i := 5\nfor i in {1, 2}:\n    pass\nresult i", 5)
    b.func("x := 1\nfor i in {1, 2}:\n    x = i\nresult x", 2)
    b.func("i := 0\nwhile i < 3:\n    y := i\n    i += 1\nresult y", 2)
    b.func("s := 0\nfor k in {5: 1, 6: 2}:\n    s = s * 10 + k\nresult s", 56)
    b.func("result ({1: \"a\"})[1]", "a", "str")
    # arguments
    b.func("x: int, y: int|result x * 10 + y", 12, args="1, 2")
    b.func("x: int, y: int|result x * 10 + y", 21, args="y=1, x=2")
    b.func("x: int, y = 4|result x * 10 + y", 14, args="1")
    b.func("x: int, y = 4|result x * 10 + y", 15, args="1, y=5")
    b.func("x = 3, y = 4|result x * 10 + y", 37, args="y=7")
    b.func("x = 3|x += 1\nresult x", 4)
    b.func("x: float|result x", 3.0, "float", args="3.0")
    b.func("x: list|x = x.copy()\nx.append(1)\nresult x.size()", 2, "int", args="{5}")
    for v, e in ((1, "1"), (True, "True"), ("s", '"s"'), (0.5, "0.5")):
        b.func("x|result x", v, args=e)
    pre = ("const def inc(x: int) -> int:\n    x += 1\n    result x\n"
           "const def twice(x: int) -> int:\n    result inc(inc(x))\n"
           "const def add1(l: list):\n    k := l.copy()\n    k.append(1)\n"
           "const def put(m: map):\n    k := m.copy()\n    k[1] = 7\n"
           "const def mk() -> list:\n    result {1, 2}\n"
           "const C = 5\nconst L = {4, 5}\nconst M = {1: 2}\n"
           "const def getc(n: int) -> int:\n    result C * n\n"
           "const def none():\n    pass")
    b.func("x := 1\ny := twice(x)\nresult x * 10 + y", 13, pre=pre)
    b.func("x := 1\nresult inc(x) + inc(x=x + 1)", 5, pre=pre)
    b.func("l := {5}\nadd1(l)\nresult l.size()", 1, pre=pre)
    b.func("m := {1: 2}\nput(m)\nresult m[1]", 2, pre=pre)
    b.func("add1(L)\nresult L.size()", 2, pre=pre)
    b.func("put(M)\nresult M[1]", 2, pre=pre)
    b.func("l := L.copy()\nl.append(6)\nresult l.size() * 10 + L.size()", 32, pre=pre)
    b.func("l := mk()\nl.append(1)\nresult mk().size() * 10 + l.size()", 23, pre=pre)
    b.func("result getc(2) + getc(n=3)", 25, pre=pre)
    b.func("result \"${none()}\"", "None", pre=pre)
    b.func("x := C\nx += 1\nresult x * 10 + C", 65, pre=pre)
    b.run("const Y@ = mk()\nfor i in Y@:\n    /say @ ${i}", [1, 2], pre=pre)
    b.run("x@ := twice(C)\nconst z@ = inc(C) + C\n/say @ ${z@}", 11, pre=pre)
    b.run("if twice(1) == 3:\n    /say @ y\nelse:\n    /say @ n", "y", pre=pre)
    return b.programs()


class Cells:
    """Reference of the mutable list: elements are cells."""

    def __init__(self, vals):
        self.c = [[v] for v in vals]

    def vals(self):
        return [c[0] for c in self.c]


def list_ops():
    """(acacia text, model step(list model l, other m, out))"""
    def ext(l, vals):
        l.c.extend([v] for v in list(vals))

    def sl(*a):
        return lambda l, m, o: setl(l, l.vals()[slice(*a)])

    def setl(l, vals):
        l.c = [[v] for v in vals]
    ops = [
        ("l.append(9)", lambda l, m, o: l.c.append([9])),
        ("l.append(l[0] + m[0])", lambda l, m, o: l.c.append([l.c[0][0] + m.c[0][0]])),
        ("l.insert(0, 8)", lambda l, m, o: l.c.insert(0, [8])),
        ("l.insert(1, 8)", lambda l, m, o: l.c.insert(1, [8])),
        ("l.insert(-1, 7)", lambda l, m, o: l.c.insert(-1, [7])),
        ("l.extend({5, 6})", lambda l, m, o: ext(l, [5, 6])),
        ("l.extend(l)", lambda l, m, o: ext(l, l.vals())),
        ("l.extend(m)", lambda l, m, o: ext(l, m.vals())),
        ("l.extend({3: 1, 4: 2})", lambda l, m, o: ext(l, [3, 4])),
        ("m.extend(l)", lambda l, m, o: ext(m, l.vals())),
        ("l.reverse()", lambda l, m, o: l.c.reverse()),
        ("l.pop(0)", lambda l, m, o: l.c.pop(0)),
        ("o += \"<${l.pop(-1)}>\"", lambda l, m, o: o.append("<%s>" % l.c.pop(-1)[0])),
        ("o += \"<${l.pop(1)}>\"", lambda l, m, o: o.append("<%s>" % l.c.pop(1)[0])),
        ("l[0] = 4", lambda l, m, o: l.c[0].__setitem__(0, 4)),
        ("l[-1] += 1", lambda l, m, o: l.c[-1].__setitem__(0, l.c[-1][0] + 1)),
        ("l[1] = m[0]", lambda l, m, o: l.c[1].__setitem__(0, m.c[0][0])),
        ("m[0] = 6", lambda l, m, o: m.c[0].__setitem__(0, 6)),
        ("l = {1, 7}", lambda l, m, o: setl(l, [1, 7])),
        ("l = m.copy()", lambda l, m, o: setl(l, m.vals())),
        ("m = l.copy()", lambda l, m, o: setl(m, l.vals())),
        ("l = l.slice(2)", sl(2)),
        ("l = l.slice(1, None)", sl(1, None)),
        ("l = l.slice(None, -1)", sl(None, -1)),
        ("l = l.slice(None, None, -1)", sl(None, None, -1)),
        ("l = l.slice(0, 3, 2)", sl(0, 3, 2)),
        ("l = l.cycle(2)", lambda l, m, o: setl(l, l.vals() * 2)),
        ("m = list(l).copy()", lambda l, m, o: setl(m, l.vals())),
        ("o += \"${l.size()}\"", lambda l, m, o: o.append(str(len(l.c)))),
        ("if True:\n    &r = l[0]\n    r = 3", None),
        ("for v in l:\n    o += \"${v},\"", lambda l, m, o: o.append(
            "".join("%s," % v for v in l.vals()))),
        ("for v in m:\n    l.append(v * 2)", lambda l, m, o: ext(l, [v * 2 for v in m.vals()])),
    ]
    return [(t, f) for t, f in ops if f is not None]


def lists(deep):
    b = Batch("R3", 12)
    ops = list_ops()
    seqs = [(x,) for x in ops] + thin(itertools.product(ops, repeat=2), deep, 3)
    seqs += [p for i, p in enumerate(itertools.product(ops, repeat=3)) if i % (37 if deep else 1999) == 0]
    for seq in seqs:
        l, m, o = Cells([1, 2, 3]), Cells([10, 20]), []
        try:
            for _, f in seq:
                f(l, m, o)
        except IndexError:
            continue
        if any(t.startswith("l.insert(1") and len(seq) > 1 for t, _ in seq) and len(l.c) < 3:
            continue
        body = "l := {1, 2, 3}\nm := {10, 20}\no := \"\"\n" + "\n".join(t for t, _ in seq)
        body += ("\no += \";\"\nfor v in l:\n    o += \"${v} \"\no += \";\"\nfor v in m:\n    o += \"${v} \"\n"
                 "result o")
        b.func(body, "%s;%s;%s" % ("".join(o), "".join("%s " % v for v in l.vals()),
                                   "".join("%s " % v for v in m.vals())), "str")
    b.func("l := {1, 2}\n&r = l[0]\nr = 9\nresult l[0]", 9, "int")
    b.func("l := {1, 2}\n&r = l[0]\nl.reverse()\nr = 9\nresult l[1]", 9, "int")
    b.func("l := {1, 2}\n&r = l\nr.append(4)\nresult l.size()", 3, "int")
    b.func("l := {1, 2}\n&r = l\nl = {4}\nresult r.size()", 1, "int")
    b.func("l := {1, 2}\nx := l[0]\nx = 9\nresult l[0]", 1, "int")
    b.func("l := {1, 2}\nx := l[0]\nl[0] = 9\nresult x", 1, "int")
    b.func("l := {1, 2}\nk := l.copy()\n&r = k[0]\nr = 5\nresult l[0]", 1, "int")
    b.func("l := {}\nl.extend({1})\nresult l.size()", 1, "int")
    b.func("l := {{1, 2}, {3}}\nresult l[0][1] * 10 + l[1][0]", 23, "int")
    b.func("l := {{1, 2}, {3}}\nl[1].append(4)\nresult l[1].size()", 2, "int")
    # run level
    R = Batch("R4", 14)
    for e, v in [("list.range(4)", range(4)), ("list.range(2, 5)", range(2, 5)), ("list.range(5, 2)", []),
                 ("list.range(5, 0, -2)", range(5, 0, -2)), ("list.range(0, 7, 3)", range(0, 7, 3)),
                 ("list.range(-2)", []), ("list.repeat(7, 3)", [7] * 3), ("list.repeat(7, 0)", []),
                 ("list.geometric(1, 2, 4)", [1, 2, 4, 8]), ("list.geometric(5, -1, 3)", [5, -5, 5]),
                 ("list.geometric(5, 2, 0)", []), ("list({3, 1})", [3, 1]), ("list({3: 1, 2: 5})", [3, 2]),
                 ("{1, 2} + {3}", [1, 2, 3]), ("{1, 2} * 2", [1, 2, 1, 2]), ("{1} * 0", []),
                 ("{1, 2}.cycle(3)", [1, 2] * 3), ("{1, 2, 3}.copy()", [1, 2, 3]),
                 ("{1, 2, 3}.slice(2)", [1, 2]), ("{1, 2, 3}.slice(-1)", [1, 2]),
                 ("{1, 2, 3, 4}.slice(1, 3)", [2, 3]), ("{1, 2, 3, 4}.slice(None, 3)", [1, 2, 3]),
                 ("{1, 2, 3, 4}.slice(1, None)", [2, 3, 4]),
                 ("{1, 2, 3, 4}.slice(None, None, -1)", [4, 3, 2, 1]),
                 ("{1, 2, 3, 4}.slice(3, 0, -2)", [4, 2]), ("{1, 2, 3, 4}.slice(0, None, 3)", [1, 4])]:
        v = list(v)
        R.run("for i in %s:\n    /say @ ${i}\n/say @ n${(%s).size()}" % (e, e), v + ["n%d" % len(v)])
        if " + " not in e and " * " not in e:
            R.func("o := \"\"\nfor i in %s:\n    o += \"${i} \"\nresult o" % e,
                   "".join("%d " % x for x in v), "str")
        if v:
            R.run("const l@ = %s\n/say @ ${l@[0]} ${l@[-1]} ${l@[%d]}" % (e, -len(v)),
                  "%d %d %d" % (v[0], v[-1], v[0]))
    R.run("const l@ = {1}\nconst k@ = l@ + {2}\n/say @ ${l@.size()}${k@.size()}", "12")
    R.run('const l@ = {1, 2.5, "s", True, None}\nfor i in l@:\n    /say @ ${i}', [1, 2.5, "s", True, "None"])
    R.run("const l@ = {{1, 2}, {3}}\nfor i in l@:\n    for j in i:\n        /say @ ${j}", [1, 2, 3])
    R.run("for i in {4, 5}:\n    x@ := i\n    /say @ ${i}", [4, 5])
    return b.programs() + R.programs()


def map_ops():
    def put(m, k, v):
        m[k] = v
    return [
        ("m[1] = 9", lambda m, o: m.__setitem__(1, 9) if 1 in m else 1 / 0),
        ("m[1] += 5", lambda m, o: m.__setitem__(1, m[1] + 5) if 1 in m else 1 / 0),
        ("m.update({1: 8, 5: 6})", lambda m, o: m.update({1: 8, 5: 6})),
        ("m.update({})" if False else "m.update({4: 4})", lambda m, o: m.update({4: 4})),
        ("o += \"<${m.pop(2)}>\"", lambda m, o: o.append("<%s>" % m.pop(2)) if 2 in m else 1 / 0),
        ("o += \"<${m.pop(3, 77)}>\"", lambda m, o: o.append("<%s>" % m.pop(3, 77))),
        ("o += \"<${m.set_default(6, 66)}>\"", lambda m, o: o.append("<%s>" % m.setdefault(6, 66))),
        ("o += \"<${m.set_default(2)}>\"", lambda m, o: o.append("<%s>" % m.setdefault(2))),
        ("m.clear()", lambda m, o: m.clear()),
        ("o += \"<${m.get(2)}>\"", lambda m, o: o.append("<%s>" % m.get(2))),
        ("o += \"<${m.get(6, 55)}>\"", lambda m, o: o.append("<%s>" % m.get(6, 55))),
        ("o += \"<${m.has(1)}${m.has(6)}>\"", lambda m, o: o.append(
            "<%s%s>" % (show(1 in m), show(6 in m)))),
        ("o += \"${m.size()}\"", lambda m, o: o.append(str(len(m)))),
        ("k := m.copy()\nk.update({9: 9})", None),
        ("for q in m:\n    o += \"${q}:${m[q]},\"", lambda m, o: o.append(
            "".join("%s:%s," % x for x in m.items()))),
        ("for q in m.keys():\n    o += \"${q}-\"", lambda m, o: o.append("".join("%s-" % x for x in m))),
        ("for q in m.values():\n    o += \"${q}+\"", lambda m, o: o.append(
            "".join("%s+" % x for x in m.values()))),
        ("m = {2: 3}", lambda m, o: (m.clear(), m.update({2: 3}))),
        ("m = m.copy()", lambda m, o: None),
        ("m = map({7, 8}, {70, 80})", lambda m, o: (m.clear(), m.update({7: 70, 8: 80}))),
        ("m = map.from_keys({7, 2}, 0)", lambda m, o: (m.clear(), m.update({7: 0, 2: 0}))),
    ]


def maps(deep):
    b = Batch("R5", 12)
    ops = [x for x in map_ops() if x[1] is not None]
    seqs = [(x,) for x in ops] + thin(itertools.product(ops, repeat=2), deep, 3)
    seqs += [p for i, p in enumerate(itertools.product(ops, repeat=3)) if i % (13 if deep else 599) == 0]
    for seq in seqs:
        m, o = {1: 10, 2: 20, 3: 30}, []
        try:
            for _, f in seq:
                f(m, o)
        except ZeroDivisionError:
            continue
        body = "m := {1: 10, 2: 20, 3: 30}\no := \"\"\n" + "\n".join(t for t, _ in seq)
        body += "\no += \";\"\nfor q in m:\n    o += \"${q}:${m[q]} \"\nresult o"
        b.func(body, "%s;%s" % ("".join(o), "".join("%s:%s " % x for x in m.items())), "str")
    b.func("m := {1: 2}\n&r = m[1]\nr = 5\nresult m[1]", 5, "int")
    b.func("m := {1: 2}\nk := m.copy()\nk[1] = 5\nk.update({2: 2})\nresult m[1] * 10 + m.size()", 21, "int")
    b.func("m := {1: 2}\nk := m.values()\nk[0] = 5\nresult m[1]", 2, "int")
    b.func("m := {1: 2}\nk := m.keys()\nk[0] = 5\nresult m[1]", 2, "int")
    b.func("m := {1: {2: 3}}\nresult m[1][2]", 3, "int")
    R = Batch("R5", 14)
    n = 0
    keys = [("1", 1), ("True", ("b", True)), ("1.0", ("f", 1.0)), ('"1"', "1"), ("{1}", (1,)),
            ("{True}", (("b", True),)), ("0", 0), ("False", ("b", False)), ('""', ""), ("{1, 2}", (1, 2)),
            ("{2, 1}", (2, 1)), ('"True"', "True"), ("2", 2), ("0.5", ("f", .5))]
    for (s, x), (t, y) in itertools.product(keys, repeat=2):
        d = {x: 5}
        d[y] = 6
        for make in ("{%s: 5, %s: 6}" % (s, t), "map({%s, %s}, {5, 6})" % (s, t)):
            for where in ("run", "func"):
                n += 1
                if n % 3 and not deep and x != y:
                    continue
                if where == "run":
                    R.run("const m@ = %s\n/say @ ${m@.size()} ${m@[%s]} ${m@.get(%s)}" % (make, s, t),
                          "%d %d %d" % (len(d), d[x], d[y]))
                else:
                    R.func("m := %s\nresult \"${m.size()} ${m[%s]} ${m.get(%s)}\"" % (make, s, t),
                           "%d %d %d" % (len(d), d[x], d[y]), "str")
    R.run("const m@ = {3: 1, 1: 2, 2: 3}\nfor k in m@:\n    /say @ ${k}${m@[k]}", ["31", "12", "23"])
    R.run("const m@ = {3: 1, 1: 2}\nfor k in m@.keys():\n    /say @ ${k}", [3, 1])
    R.run("const m@ = {3: 1, 1: 2}\nfor k in m@.values():\n    /say @ ${k}", [1, 2])
    R.run("const m@ = {3: 1}\nconst n@ = m@.copy()\n/say @ ${n@[3]} ${n@.has(3)} ${n@.has(1)} ${n@.get(1)} "
          "${n@.get(1, 4)}", "1 true false None 4")
    R.run('const m@ = {"a": {1: {5}}}\n/say @ ${m@["a"][1][0]}', 5)
    R.run('const m@ = map.from_keys({"a", 2}, 4)\n/say @ ${m@["a"]}${m@[2]}', "44")
    R.run('const m@ = map.from_keys({"a"})\n/say @ ${m@["a"]}', "None")
    R.run('const m@ = map({1, 2, 3}, {4, 5})\n/say @ ${m@.size()}', 2)
    return b.programs() + R.programs()


def scopes():
    """Constants and the borders between compile-time and run-time code."""
    b = Batch("R6", 10)
    pre = "import math"
    b.run("const a@ = 5\nconst b@ = a@ * 2\nx@ := b@\n/say @ ${b@}", 10)
    b.run("const a@: float = 2.0\n/say @ ${a@ / 4}", 0.5)
    b.run("inline def g@(const n):\n    /say @ ${n}\n    /say @ ${n + 1}\ng@(4)", [4, 5])
    b.run("inline def g@(const n = 2, const m = 3):\n    /say @ ${n}${m}\ng@()\ng@(m=5)\ng@(7)", ["23", "25", "73"])
    b.run("inline def g@(const l: list):\n    for i in l:\n        /say @ ${i}\ng@({7, 8})", [7, 8])
    b.run("const def h@(l: list) -> list:\n    q := l.copy()\n    q.reverse()\n    result q\nconst k@ = {1, 2}\n"
          "const r@ = h@(k@)\n/say @ ${k@[0]}${r@[0]}", "12")
    b.run("const def h@(m: map) -> map:\n    q := m.copy()\n    q.update({1: 9})\n    result q\nconst k@ = {1: 2}\n"
          "const r@ = h@(k@)\n/say @ ${k@[1]}${r@[1]}", "29")
    b.run("const def h@(n: int) -> list:\n    l := {}\n    i := 0\n    while i < n:\n        l.append(i)\n"
          "        i += 1\n    result l\nfor i in h@(3):\n    /say @ ${i}", [0, 1, 2])
    b.run("const def h@(d = {1}) -> int:\n    q := d.copy()\n    q.append(2)\n    result q.size()\n/say @ ${h@()}${h@()}", "22")
    b.run("entity E@:\n    static inline def f(const n):\n        /say @ ${n}\nE@.f(3)", 3)
    b.run("entity E@:\n    static const def f(n: int) -> int:\n        result n + 1\n/say @ ${E@.f(3)}", 4)
    b.run("const def h@(f: float) -> float:\n    result f * 2\n/say @ ${h@(3.0)}", 6.0)
    b.run("const L@ = {1, 2, 3}\nconst def s@() -> int:\n    t := 0\n    for i in L@:\n        t += i\n"
          "    result t\n/say @ ${s@()}", 6)
    b.run("const def a@(x: int) -> int:\n    result x + 1\nconst def b@(x: int) -> int:\n"
          "    y := a@(x) * 2\n    result a@(y)\n/say @ ${b@(1)}", 5)
    b.run("const def h@(b: bool) -> list:\n    s := \"n\"\n    if b:\n        s = \"y\"\n    result {s}\n"
          "/say @ ${h@(1 < 2)[0]}${h@(not True)[0]}", "yn")
    b.run("const def h@(n: int) -> None:\n    pass\n/say @ ${h@(1)}", "None")
    return b.programs()


def programs(deep=False):
    return expressions(deep) + control() + lists(deep) + maps(deep) + scopes()
