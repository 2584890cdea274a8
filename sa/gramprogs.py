"""Programs for the grammar: expressions with every pair of operators, one program per
form of statement, random derivations, and all of them with one token changed."""
import itertools
import random

BIN = ["or", "and", "==", "!=", "<", ">", "<=", ">=", "+", "-", "*", "/", "%"]
UN = ["not ", "-", "+"]

FORMS = """
x
x . y . z
f ( )
f ( a , b , )
f ( a , k = b , m = c )
f ( k = ( a ) , )
f ( g ( a ) [ b ] . c ) ( d )
a [ b , c , ] [ d ]
a [ ]
x = { }
x = { : }
x = { a , b , }
x = { a : b , c : d , }
x = { { a } , { b : { : } } }
x = ( ( a ) )
x = "s" "t"
x = "s${ a }t${ b + c }" "${ "u${ d }" }"
x = None
x = True == False
x = 1.5
self . x = self
x : int
x : int = 1
x : list [ int , y ] = { }
x := a or b
x += 1
x . y -= 2
x [ 1 ] *= 3
x /= 4
x %= 5
& x = y
& x : int = y . z
const x = 1
const x : int = 1 , y = 2
const ( x = 1 , y : int = 2 , )
const ( )
result x
result ( x )
new ( )
new ( a , k = b )
E . new ( )
a . E . new ( x , )
a ( b ) . new ( )
pass
/say
/say ${ x } b ${ { 1 } }
import a
import a as b
import . a
import . . a . b . c as d
from a import b
from . a . b import c as d , e
from a import ( b , c as d , )
from a import *
from . . b import ( )
if x : | > pass
if x : | > y | < else : | > z
if x : | > y | < elif z : | > w
if x : | > y | < elif z : | > w | < elif v : | > u | t | < else : | > s
if x : | > if y : | > z | < else : | > w | < < else : | > v
while x : | > pass
while x : | > while y : | > z | < if w : | > v
for i in x : | > pass
for i in { 1 , 2 } : | > for j in f ( i ) : | > g ( j )
interface a/b : | > pass
interface "a${ x }" : | > /say
def f ( ) : | > pass
def f ( a : int , b = 1 , c : int = 2 , ) -> int : | > result a
def f ( a : int ) : | > if a : | > pass | < result a
inline def f ( ) : | > pass
inline def f ( a , & b , const c , & d : int , const e : int = 1 , g = 2 ) -> & int : | > pass
inline def f ( ) -> const x : | > pass
inline def f ( ) -> x . y : | > def g ( ) : | > pass
const def f ( ) : | > pass
const def f ( a , b : int , c = 1 ) -> int : | > result a
entity E : | > pass
entity E extends A , B . c : | > x : int | y : E | pass
entity E : | > def f ( ) : | > pass | < virtual def g ( a : int ) : | > pass | < override inline def h ( & a ) : | > pass
entity E : | > static def f ( ) -> int : | > pass | < static const def g ( ) : | > pass | < static inline def h ( ) : | > pass
entity E : | > new ( ) : | > pass
entity E : | > x : int | new ( a : int , b = 1 ) : | > new ( ) | < y : int
entity E : | > inline new ( & a , const b ) : | > pass
entity E : | > inline def f ( ) : | > pass | < virtual inline def g ( ) : | > pass
struct S : | > pass
struct S extends A : | > x : int | y : list [ int ]
struct S extends A , B : | > pass | x : S
""".strip().split("\n")

MISTAKES = """
const def f ( a , & b ) : | > pass
def f ( const a : int ) : | > pass
def f ( & a : int ) : | > pass
def f ( ) -> & int : | > pass
const def f ( ) -> const int : | > pass
def f ( a ) : | > pass
def f ( a : int , a : int ) : | > pass
inline def f ( a , b , a ) : | > pass
inline def f ( a = 1 , b ) : | > pass
def f ( a = 1 , b : int ) : | > pass
const def f ( a = 1 , b ) : | > pass
f ( k = 1 , k = 2 )
f ( k = 1 , 2 )
f ( k = 1 , j = 2 , k )
x . y : int
x . y := 1
f ( ) : int
1 := 2
if x : | pass
if x : pass
entity E : | > const def f ( ) : | > pass
entity E : | > virtual const def f ( ) : | > pass
entity E : | > const new ( ) : | > pass
entity E : | > new ( ) : | > pass | < new ( ) : | > pass
entity E : | > new ( ) : | > pass | < x : int | inline new ( ) : | > pass
entity E : | > virtual new ( ) : | > pass
entity E : | > x = 1
entity E : | > x
entity E : | > if x : | > pass
struct S : | > def f ( ) : | > pass
struct S : | > x
struct S : | > x : int = 1
entity E extends : | > pass
struct S extends A , : | > pass
from a import b ,
from a import ( * )
from a import
from import a
import . 
import a , b
import a . b as
const x
const x = 1 ,
const x : int
& x
& x : int
& x . y = z
x = y = z
x = y := z
x == y = z
x + = 1
a < b = c
else : | > pass
elif x : | > pass
if x : | > pass | < else : | > pass | < else : | > pass
if x : | > pass | < else : | > pass | < elif y : | > pass
not x = y
x not in y
x and
x or or y
- not x
x - not y
x + not y
x == not y
not - not x
f ( , )
f ( a , , b )
a [ , ]
{ , }
{ a : b , c }
{ a , b : c }
{ : , }
{ a : }
( )
( a , b )
x .
x . if
x . 1
. x
a . new
a . new . b
x = a . new ( )
f ( a . new ( ) )
new
new . x
result
while : | > pass
for i x : | > pass
for i . j in x : | > pass
for in x : | > pass
for i in : | > pass
def ( ) : | > pass
def f : | > pass
def f ( ) | > pass
def f ( ) -> : | > pass
def f ( if : int ) : | > pass
def f ( 1 : int ) : | > pass
inline def f ( ( ) : | > pass
inline def f ( "a" ) : | > pass
const def f ( = 1 ) : | > pass
inline def f ( a . b ) : | > pass
inline def f ( & ) : | > pass
inline x = 1
inline entity E : | > pass
static def f ( ) : | > pass
virtual def f ( ) : | > pass
self : int
self := 1
x @ y
"a" : int
x -> y
x : int : int
x y
1 2
"a" x
pass pass
pass x
import a b
interface a : pass
| > pass
x | > pass
""".strip().split("\n")

SWAP = ["x", "1", "if", "(", ")", "{", "}", "[", "]", ",", ":", ".", "=", ":=", "+", "not", "and", "<", "as",
        "def", "new", "const", "&", "*", "pass", "->", '"s"', "self", "in", "/", "extends", "import", "inline",
        "else", "True", "==", "+=", "@"]


def text(words):
    """`|` ends a line, `>` indents and `<` dedents the line (one level each)."""
    lines, cur, lev = [], [], 0
    start = True
    for w in words:
        if w == "|":
            lines.append((lev, cur))
            cur, start = [], True
        elif start and w == ">":
            lev += 1
        elif start and w == "<":
            lev -= 1
        else:
            start = False
            cur.append(w)
    lines.append((lev, cur))
    return "".join("    " * max(0, n) + " ".join(ws) + "\n" for n, ws in lines)


def expressions():
    out = []
    for a, b in itertools.product(BIN, repeat=2):
        out.append("x = p %s q %s r" % (a, b))
    for a, b, c in itertools.product(["or", "and", "<", "==", "+", "-", "*", "/"], repeat=3):
        out.append("x = p %s q %s r %s s" % (a, b, c))
    for u, a in itertools.product(UN, BIN):
        out += ["x = %sp %s q" % (u, a), "x = p %s %sq" % (a, u), "x = %s(p %s q)" % (u, a)]
    for u, v in itertools.product(UN, repeat=2):
        out += ["x = %s%sp" % (u, v), "x = %s(%sp)" % (u, v), "x = %s%sp.y" % (u, v)]
    for a, b in itertools.product(BIN, repeat=2):
        out += ["x = (p %s q) %s r" % (a, b), "x = p %s (q %s r)" % (a, b)]
    for u in UN:
        out += ["x = %sf(y)" % u, "x = %sp.q[r]" % u, "x = %s{p}" % u, "x = %s1" % u]
    out += ["x = p.a.b(c)(d)[e, f].g", "x = (p + q).r", "x = (p)(q)", "x = {p}[q]", 'x = "a".b', "x = 1 .y",
            "x = (p,)", "x = f(p < q, r and s, k=not t)", "x = a[p or q, -r]", "x = {p + q: r * s, t: u}",
            "x = {p, q + r,\n     s}", "x = (p +\n  q) * r", "f(\n  a,\n  k=b\n)", "x = a[\n b,\n c\n]",
            "f(a: int)", "x = {\n  p: q,\n  r: s\n}", "def f(\n  a: int,\n  b: (\n  int\n  ) = 1\n) -> int:\n  pass",
            "x: (\n  int\n)\n", "x: int\ny: int\n", "inline def f(a: (\n int), const\n b:\n int) -> (\nint\n):\n  pass",
            "from a import (\n b,\n c as\n d\n)", "const (\n x: int = 1,\n y = 2\n)", "x = (\n  not p) and q",
            "x = (p <\n q)", "x = (p\n  .q\n  .r)", "x = (p\n  (q)\n  [r]\n  .s\n)", "x = ((p\n  ).q\n + r\n and s\n or t)", "x = (\n  - p\n .q < r)",
            "x = (\n not\n p\n + q\n)", "f(\n  (p\n   + q\n   * r), k=\n   s\n  .t\n)", '/* ${ p\n .q } */', "x = {\n p\n .q\n :\n r\n (s)\n}",
            "(x): int", "(x) := 1", "(x.y) = 1"]
    return out


def rnd_expr(r, d):
    k = r.randrange(14) if d > 0 else r.randrange(4)
    e = lambda: rnd_expr(r, d - 1)
    if k < 2:
        return r.choice("pqrs")
    if k == 2:
        return r.choice(["1", "None", "True", "2.5", "self", '"t"'])
    if k == 3:
        return r.choice(["{}", "{:}", "p.q", "f()", "a[b]"])
    if k < 7:
        return "%s %s %s" % (e(), r.choice(BIN), e())
    if k == 7:
        return "%s%s" % (r.choice(UN), e())
    if k == 8:
        return "(%s)" % e()
    if k == 9:
        return "%s.%s" % (r.choice(["p", "(%s)" % e(), "f(%s)" % e()]), r.choice("xyz"))
    if k == 10:
        return "f(%s, %s%s)" % (e(), r.choice(["", "k="]), e())
    if k == 11:
        return "a[%s%s]" % (e(), r.choice(["", ",", ", " + e()]))
    if k == 12:
        return "{%s, %s%s}" % (e(), e(), r.choice(["", ","]))
    return "{%s: %s}" % (e(), e())


def rnd_block(r, d, ind):
    out = []
    for _ in range(r.randint(1, 3)):
        out += rnd_stmt(r, d, ind)
    return out


def rnd_stmt(r, d, ind):
    p = "    " * ind
    e = lambda n=2: rnd_expr(r, n)
    k = r.randrange(18 if d > 0 else 9)
    if k < 9:
        return [p + [lambda: "x = " + e(3), lambda: "x: %s = %s" % (e(1), e()), lambda: "x := " + e(),
                     lambda: "x.y %s %s" % (r.choice(["+=", "-=", "*=", "/=", "%="]), e()), lambda: "pass",
                     lambda: "/say ${%s} z" % e(), lambda: e(), lambda: "const x = %s, y: %s = %s" % (e(), e(1), e()),
                     lambda: "result " + e()][k]()]
    b = lambda: rnd_block(r, d - 1, ind + 1)
    if k < 11:
        out = [p + "if %s:" % e()] + b()
        for _ in range(r.randrange(3)):
            out += [p + "elif %s:" % e()] + b()
        return out + ([p + "else:"] + b() if r.random() < .6 else [])
    if k == 11:
        return [p + "while %s:" % e()] + b()
    if k == 12:
        return [p + "for i in %s:" % e()] + b()
    if k == 13:
        return [p + "def f(a: %s, b: int = %s)%s:" % (e(1), e(1), r.choice(["", " -> " + e(1)]))] + b()
    if k == 14:
        return [p + "inline def f(&a, const b: %s, c=%s) -> %s%s:" % (
            e(1), e(1), r.choice(["", "&", "const "]), e(1))] + b()
    if k == 15:
        return [p + "interface a/b%d:" % r.randrange(9)] + b()
    if k == 16:
        out = [p + "entity E%s:" % r.choice(["", " extends A", " extends A, B.c"])]
        for q in r.sample(["", "virtual ", "override ", "static ", "inline ", "static const "], 3):
            out += [p + "    x: " + e(1)] + [p + "    %sdef g():" % q] + rnd_block(r, d - 1, ind + 2)
        return out + [p + "    new(a=1):"] + rnd_block(r, d - 1, ind + 2)
    return [p + "struct S:", p + "    x: " + e(1), p + "    pass"]


def mutants(r, words, n):
    spots = [(i, how) for i in range(len(words)) for how in ("del", "rep", "ins", "dup", "swap")]
    for i, how in spots if n is None else r.sample(spots, min(n, len(spots))):
        w = list(words)
        if how == "del":
            del w[i]
        elif how == "dup":
            w.insert(i, w[i])
        elif how == "swap":
            if i + 1 == len(w):
                continue
            w[i], w[i + 1] = w[i + 1], w[i]
        elif how == "rep":
            w[i] = r.choice(SWAP)
        else:
            w.insert(i, r.choice(SWAP))
        yield text(w)


def programs(deep):
    r = random.Random(11)
    out = []

    def add(rule, texts, size=20):
        texts = list(dict.fromkeys(texts))
        out.extend((rule, texts[i:i + size]) for i in range(0, len(texts), size))
    add("R1", [x if x.endswith("\n") else x + "\n" for x in expressions()])
    forms = [f.split() for f in FORMS]
    add("R2", [text(f) for f in forms])
    add("R2", [text(a + ["|"] + ["<"] * max(0, a.count(">") - a.count("<")) + b)
               for a in forms for b in r.sample(forms, 6 if deep else 2)])
    add("R4", [text(f.split()) for f in MISTAKES])
    add("R3", ["\n".join(rnd_stmt(r, 3, 0) + rnd_stmt(r, 2, 0)) + "\n" for _ in range(2500 if deep else 350)], 6)
    ms = []
    for f in forms + [f.split() for f in MISTAKES]:
        ms += mutants(r, f, None)
        for _ in range(6 if deep else 0):
            ms += mutants(r, f, None)
    add("R4", ms)
    for _ in range(4000 if deep else 250):
        ms = list(mutants(r, rnd_expr(r, 4).replace("(", " ( ").replace(")", " ) ").replace(
            "[", " [ ").replace("]", " ] ").replace(",", " , ").replace("{", " { ").replace("}", " } ").split(), 4))
        add("R4", ms)
    return out
