"""Program shapes used by the rules that interpret the compiler on programs."""
import itertools
import re

LOOP_CONDS = [
    "a < n", "a <= n", "not a >= n", "not (a > n)", "a < n and b < n", "a < n or b < n",
    "not (a >= n or p)", "a < n and p", "a < n and not p", "a + b < n + c", "a * c < c * c",
    "c > a", "a <= b < n", "n - 2 <= a < n", "(a < n) == q", "not (a < n) != q",
    "not (a >= n and b >= n)", "a != n and a != n + 1 and a <= n", "up(a) < n", "up(a) <= up(b)",
    "less(a, n)", "not less(n, a)", "less(a, n) and less(b, n)", "ref(a) < n", "keep(a < n)",
    "a - n < 0", "0 > a - n", "-a > -n", "a < K", "a < m[1]", "s.x < n", "s.x + a < n + a",
]
PRE = """
const K = n
const m = {1: n, 2: n}
struct S:
  x: int
  y: bool
s := S()
s.x = a
s.y = p
def up(v: int) -> int:
  result v + 1
def less(v: int, w: int) -> bool:
  result v < w
inline def ref(&v) -> int:
  result v
inline def keep(v: bool) -> bool:
  result v
"""
LOOP_BODIES = [
    "a += 1\nb += 1\ns.x += 1\np = not p\nq = True\n/step",
    "b += 1\n/one\na = a + 1\ns.x = a\nif p:\n  p = False\n  /p\nelse:\n  p = True\nq = a < n",
]


def indent(s, k=2):
    return "\n".join(" " * k + x for x in s.strip("\n").split("\n"))


def loops():
    out = []
    for i, (c, b) in enumerate(itertools.product(LOOP_CONDS, LOOP_BODIES)):
        out.append(PRE + "while %s:\n%s\n/end" % (c, indent(b)))
    for c in ("p", "not p", "p or q", "p and q", "not (p and q)", "p == q", "p != q",
              "not p or q", "s.y", "not s.y", "keep(p)", "keep(not p)", "False", "p and a < n"):
        # at most three rounds
        out.append(PRE + "c = n - 3\nwhile %s and c < n:\n  c += 1\n  p = q\n  q = not q\n"
                   "  s.y = p\n  /r\n/end" % c)
        out.append(PRE + "c = n - 3\nwhile c < n and (%s):\n  c += 1\n  p = not q\n"
                   "  s.y = not s.y\n  /r\n/end" % c)
    out += [
        # nesting and sequencing
        "while a < n:\n  b = n - 2\n  while b < n:\n    b += 1\n    /in\n  a += 1\n  /out",
        "while a < n:\n  a += 1\n  /x\nwhile b < n:\n  b += 1\n  /y",
        "if a < n:\n  while a < n:\n    a += 1\n    /x\nelse:\n  while b < n:\n    b += 1\n    /y",
        "while a < n:\n  a += 1\n  if a < b:\n    /lt\n  elif a == b:\n    /eq\n  else:\n    /gt",
        "while a < n:\n  a += 1\n  for x in {1, 2}:\n    b += x\n    /at ${x}",
        "for x in {1, 2, 3}:\n  while a < n:\n    a += 1\n    /w ${x}\n  a = n - x",
        "def go(v: int) -> int:\n  w := v\n  while w < n:\n    w += 1\n    /g\n  result w\n"
        "b = go(a)\nc = go(b - 1)",
        "inline def go(v: int, &w: int):\n  while v < n:\n    v += 1\n    w += 1\n    /g\n"
        "go(a, b)\ngo(b, c)",
        "while a < n:\n  pass\n  a = n\n/e",
        "while False:\n  /never\n/e",
        "while a < n:\n  t := a\n  a = t + 1\n  /x\n/e",
        "while a < n:\n  a = a + b - b + 1\n  c = a * 2 - c\n/e",
        "while a < n:\n  a += 1\n  p = a < n\n  if not p:\n    /last",
        "x := a\nwhile x < n and p:\n  x += 1\n  if x == b:\n    p = False\n/e\na = x",
    ]
    return out


def fors():
    return [
        "for x in {1, 2, 3}:\n  a += x\n  /x ${x}",
        "for x in {n, 2, n}:\n  a = a * 2 + x",
        "for x in {True, False}:\n  p = x\n  if x == q:\n    /same\n  else:\n    /diff",
        "for x in {1, 2}:\n  for y in {3, 4}:\n    /p ${x} ${y}\n    a += y - x",
        "for x in {}:\n  /never\n/e",
        "for x in {1, 2}:\n  y := x\n  y += a\n  b = y",
        "const l = {1, n, 3}\nfor x in l:\n  b = x\n  if a < n:\n    a += 1\n    /i",
        "const m = {1: n, 2: 5}\nfor k in m:\n  a += k\n  b = m[k]\n  /k ${k}",
        "for x in {\"u\", \"v\"}:\n  /say ${x}",
        "if p:\n  for x in {1, 2}:\n    /t ${x}\nelse:\n  for x in {3}:\n    /f ${x}",
        "if p:\n  for x in {1, 2}:\n    p = not p\n    /t ${x}",
        "for x in {1, 2}:\n  if a < n:\n    a += x\n    /y\n  elif b < n:\n    b += x\n    /z",
        "const l = {1, 2, 3}\nfor x in {0, 1, 2}:\n  a += l[x]\n  /v ${l[x]}",
        "inline def f(const v):\n  a += v\n  /f ${v}\nfor x in {1, 5}:\n  f(x)",
        "def f(v: int):\n  a += v\n  /f\nfor x in {1, 5}:\n  f(x)",
    ]


ARGS = ["a", "n", "a + 1", "b - a", "a * b + c", "g(a)", "g(g(b))", "-a", "2", "s.x", "h(b)",
        "g(a) + h(b)", "s.x * 2 - a"]
BARGS = ["p", "not p", "True", "a < n", "p and q", "not (p and q)", "p or a == n", "a < b",
         "z(p)", "not z(q)", "s.y", "p == q"]
FPRE = PRE + """
def g(k: int) -> int:
  k += 1
  result k
inline def h(k: int) -> int:
  k += 2
  result k
def z(k: bool) -> bool:
  k = not k
  result k
"""


def functions():
    out = []
    for q in ("", "inline "):
        for x in ARGS:
            for call in ("c = f(%s, b)", "c += f(k=b, m=%s)", "c = f(%s)",
                         "if f(%s, b) < n:\n  /lt\nelse:\n  /ge", "f(%s, a)",
                         "c = a + f(%s, c) * 2"):
                out.append(FPRE + q + "def f(m: int, k = n) -> int:\n  m += k\n  d = m\n  /f\n"
                           "  t := m - k\n  k = t\n  result k + m\n" + call % x + "\n/e")
        for x in BARGS:
            for call in ("p = f(%s, q)", "q = f(k=p, m=%s)", "if f(%s):\n  /y\nelse:\n  /n",
                         "f(%s, q)", "r = p and not f(%s, r)", "while f(%s) and d < n:\n"
                         "  d = n\n  /w"):
                out.append(FPRE + q + "def f(m: bool, k = True) -> bool:\n  if m:\n    k = not k\n"
                           "    /f\n  m = k\n  result m == q\n" + call % x + "\n/e")
    out += [FPRE + t for t in (
        # by reference
        "inline def f(&v):\n  v += 1\n  /f\nf(a)\nf(b)\nf(s.x)\nf(a)",
        "inline def f(&v, &w):\n  t := v\n  v = w\n  w = t\nf(a, b)\nf(s.x, c)\nf(a, a)",
        "inline def f(&v, w):\n  v = w + 1\n  w = v\nf(a, a)\nf(b, a)",
        "inline def f(&v) -> &int:\n  v += 1\n  result v\nf(a) += n\n&x = f(b)\nx = a\nc = f(x)",
        "inline def f(const v) -> const int:\n  result v + 1\na = f(n)\nb = f(f(2))\n/x ${f(3)}",
        "inline def f(v, w = n) -> int:\n  v = v * w\n  result v\na = f(b)\nb = f(w=c, v=a)",
        "inline def f(&v = a):\n  v += 1\nf()\nf(b)\nf()",
        "inline def f(p: bool, &v: int):\n  if p:\n    v += 1\n  else:\n    v -= 1\n"
        "f(a < n, a)\nf(not q, b)\nf(True, c)",
        "inline def f(&v):\n  inline_ := v\n  inline_ += 1\n  v = v + inline_\nf(a)\nf(a)",
        # functions calling functions, shared globals
        "def f():\n  a += 1\n  /f\ndef k():\n  f()\n  b = a\n  f()\nk()\nf()\nk()",
        "def f() -> int:\n  a += 1\n  result a\nb = f()\nc = f()\nd = b + f() * f()",
        "def f(v: int) -> int:\n  result v\na = f(b) + f(c) - f(a)",
        "def f(v: int) -> int:\n  result v + 1\na = f(f(f(a)))",
        "def f(v: int, w: int) -> int:\n  result v - w\na = f(f(a, b), f(b, c))",
        "inline def f(v: int, w: int) -> int:\n  result v - w\na = f(f(a, b), f(b, c))",
        "def f(v: int) -> int:\n  v += 1\n  result v\nb = f(a)\nc = f(a) - f(v=a)",
        "def f() -> bool:\n  result p and a < n\nif f():\n  p = False\n  /y\nq = f()",
        "def f() -> bool:\n  result not (p and a < n)\nif f():\n  p = False\n  /y\nq = not f()",
        "def f(v: bool) -> int:\n  if v:\n    result n\n  else:\n    result 0\na = f(p)\nb = f(not p)",
        "def f(v: int):\n  if v < n:\n    /lt\n  elif v == n:\n    /eq\n  else:\n    /gt\n"
        "f(a)\nf(b)\nf(a + 1)",
        "def f():\n  pass\nf()\n/e",
        "def f():\n  pass\ndef k():\n  f()\nk()\n/e",
        "def f(v = n, w = True):\n  if w:\n    a = v\n  else:\n    b = v\nf()\nf(c)\nf(w=p)\n"
        "f(w=False, v=c)\nf(2, q)",
        "inline def f(v: int) -> int:\n  if p:\n    result v\n  else:\n    result n\na = f(b) + f(c)",
        "def f(v: int) -> int:\n  inline def i(w: int) -> int:\n    result w + v\n  result i(1) + i(v)"
        "\na = f(b)\nb = f(1)",
        "def f(v: int) -> int:\n  def i(w: int) -> int:\n    result w * 2\n  result i(v) + v\na = f(b)",
        "x := a\ndef f():\n  x += 1\nf()\nb = x\nf()\nc = x",
        "const c1 = n\ndef f(v: int) -> int:\n  result v + c1\na = f(a)",
        # results
        "def f(v: S) -> S:\n  v.x += 1\n  result v\nt := f(s)\na = t.x\nb = s.x\nif t.y:\n  /y",
        "inline def f(&v: S):\n  v.x += 1\n  v.y = not v.y\nf(s)\nf(s)\na = s.x\nif s.y:\n  /y",
        "inline def f(v: S) -> S:\n  v.x += 1\n  result v\nt := f(s)\na = t.x\nb = s.x",
    )]
    return out


def structs():
    P = "struct P:\n  x: int\n  y: int\nstruct Q extends P:\n  f: bool\n  i: P\n"
    return [P + t for t in (
        "u := P(x=a, y=b)\nv := u\nv.x += 1\nc = u.x\nd = v.x + v.y",
        "u := P(x=a, y=b)\nv := P(x=n, y=2)\nu = v\nv.x = 0\nc = u.x\nd = v.x",
        "u := P(x=a, y=b)\n&v = u\nv.x = n\nc = u.x\n&w = v.y\nw += 1\nd = u.y",
        "u: Q\nu.x = a\nu.y = b\nu.f = p\nu.i.x = c\nu.i.y = d\nv := u\nu.i.x = 0\n"
        "a = v.i.x\nq = v.f\nb = v.i.y",
        "u: Q\nu.i = P(x=a, y=n)\nu.f = a < n\nif u.f:\n  u.i.x = b\nelse:\n  u.i.y = b\n"
        "c = u.i.x\nd = u.i.y\nu.x = 1\nu.y = 2",
        "u := P(y=a, x=b)\na = u.x\nb = u.y",
        "u := P(x=a, y=b)\na = u.y\nb = u.x",
        "u := P(x=a, y=b)\nu.x = u.y + u.x\nu.y = u.x - u.y\na = u.x\nb = u.y",
        "u := P(x=a, y=b)\nu = P(x=u.y, y=u.x)\nc = u.x\nd = u.y",
        "def f(v: P, w = n) -> int:\n  v.x += w\n  result v.x * v.y\nu := P(x=a, y=b)\nc = f(u)\nd = f(u, a)\n"
        "a = u.x",
        "def f() -> P:\n  t := P(x=a, y=b)\n  t.x += 1\n  result t\nu := f()\nv := f()\nc = u.x + v.y\n"
        "d = f().x",
        "u := P(x=a, y=b)\nif u.x < u.y:\n  u = P(x=b, y=a)\n  /sw\na = u.x\nb = u.y",
    )]


def interfaces():
    """(program, interface paths to run after main)."""
    return [
        ("interface foo:\n  a += 1\n  /foo\n/m", ["foo"]),
        ("interface a/b_c:\n  if a < n:\n    /lt\n  else:\n    /ge\na += 1", ["a/b_c", "a/b_c"]),
        ("x := a\ninterface up:\n  x += 1\n  b = x\ninterface dn:\n  x -= 1\n  c = x",
         ["up", "up", "dn"]),
        ("def f(v: int) -> int:\n  /f\n  result v + 1\ninterface i1:\n  a = f(a)\ninterface i2:\n"
         "  b = f(a)\n  a = f(f(b))\nc = f(c)", ["i1", "i2", "i1"]),
        ("interface lp:\n  while a < n:\n    a += 1\n    /w\n/m", ["lp"]),
        ("inline def f(&v):\n  v += n\n  /f\ninterface i1:\n  f(a)\ninterface i2:\n  f(b)\n  f(a)",
         ["i1", "i2"]),
        ("p = not p\ninterface t:\n  p = not p\n  if p:\n    /on\n  else:\n    /off\n    q = p",
         ["t", "t", "t"]),
        ("interface e:\n  pass\n/m", []),
        ("interface t:\n  x := a\n  x += 1\n  b = x\ninterface u:\n  x := b\n  c = x", ["t", "u"]),
    ]


def misc():
    return [
        "x := a\ny := x\nx += 1\nb = y\nc = x",
        "&x = a\nx += 1\nb = x\na = n\nc = x",
        "x: int = a\ny: bool = p\ny = not y\nb = x\nq = y",
        "const x = n\nconst y = x + 1\na = y\nif b < y:\n  /lt ${y}",
        "const x = n, y = 2\na = x * y",
        "x := a < n\np = x\na = n\nq = x\nr = a < n",
        "x := not p\np = x\nq = x == p",
        "a = b\nb = a\nc = a + b",
        "x := a + b\na = x\nb = x - b",
        "if p:\n  x := a\n  b = x\nelse:\n  x2 := c\n  b = x2",
        "a = b + c - a * 2\nb = a - b * c\nc = -(a + b) - c",
        "p = a < n and b < n\nq = a < n or b < n\nr = not p and q\nif r:\n  /one",
        "p = a + b < c + n\nq = a * 2 == b + b\nr = p == q",
        "if a + 1 < b + 1:\n  a = b + 1\n  /x\nb = a - 1 + c",
        "if a < b:\n  if b < c:\n    /abc\n  else:\n    /ab\nelif b < c:\n  if a < c:\n    /bac\n"
        "  else:\n    /b\nelse:\n  /c",
        "if a < n:\n  pass\nelse:\n  /ge\n/e",
        "if p:\n  /a\nif not p:\n  /b\nif p and q:\n  /c\nif p or q:\n  /d",
        "if True:\n  /t\nelse:\n  /f\nif False:\n  /t2\nelse:\n  /f2",
        "if False:\n  /x\nif p and False:\n  /y\nif p or True:\n  /z",
        "a -= b\nb *= a\na += a\nb -= b\nc *= c",
        "a += b - a\nb -= a + b\nc *= a - c",
    ]


HPRE = FPRE + """
def f(m: int, k = n) -> int:
  k += m
  m += 1
  d = m
  result k
def w(k = True) -> bool:
  /w
  k = not k
  result k
inline def i(m: int, k = n) -> int:
  k += m
  m += 1
  result k * 2
inline def o(&v, k: int = 2):
  v += k
  k = v
x := a
&y = b
"""
HSTM = ["c = f(a)", "b = f(x, a)", "f(k=b, m=1)", "c = f(f(a), f(b))", "q = w()", "p = w(q)", "w()",
        "if w():\n  c = f(b)", "if a < n:\n  f(a)\nelse:\n  w(p)", "while a < n:\n  a += 1\n  c += f(a)",
        "c = i(a)", "b = i(i(a, b), c)", "o(a)", "o(y, x)", "o(x)\no(x, k=x)", "x = y", "y = x", "s.x = f(a)",
        "t := s\nt.x += 1\nb = t.x - s.x", "&r = s.x\nr += 1", "for j in {1, n}:\n  c = f(j)",
        "for j in {2, 1}:\n  x += j\n  o(y, j)", "r = a < f(b)", "if p:\n  x = f(c)\n  q = w(p)",
        "a -= b", "b = -x"]


def histories(tier):
    """Pairs and triples of statements that share functions and variables."""
    out = []
    for i, (a, b) in enumerate(itertools.product(HSTM, repeat=2)):
        if tier == "thorough" or i % 5 == 0 or a == b:
            out.append(HPRE + a + "\n" + rename(b) + "\nd += x")
    for i, t in enumerate(itertools.product(HSTM, repeat=3)):
        if i % (97 if tier == "thorough" else 397) == 0:
            out.append(HPRE + t[0] + "\n" + rename(t[1]) + "\n" + rename(t[2], "3") + "\nd += x")
    return out


def rename(s, n="2"):
    for x in ("t", "r", "j"):
        if "%s := " % x in s or "&%s = " % x in s or "for %s " % x in s:
            s = re.sub(r"\b%s\b" % x, x + n, s)
    return s


def scenarios(src, tier="quick"):
    """Initial values: offsets from n of the ints, the bools."""
    ints = [x for x in "abcd" if re.search(r"\b%s\b" % x, src)]
    bools = [x for x in "pqr" if re.search(r"\b%s\b" % x, src)]
    big = tier == "thorough"
    offs = [-2, -1, 0, 1] if len(ints) <= 2 or big else [-2, 0, 1]
    out = []
    for iv in itertools.product(offs, repeat=min(len(ints), 2)):
        for bv in itertools.product((False, True), repeat=len(bools)):
            d = dict(zip(ints, iv))
            for i, x in enumerate(ints[2:]):
                d[x] = -1 - i if (sum(iv) + sum(bv)) % 2 else i
            d.update(zip(bools, bv))
            out.append(d)
    return out[::1] if big or len(out) <= 32 else out[::len(out) // 32 + 1] + out[-3:]
