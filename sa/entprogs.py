"""Entity programs: templates, dispatch, groups, filters."""

BASE = """entity E:
  hp: int
  ok: bool
  new(v: int):
    new("pig", AbsPos(1, 2, 3))
    self.hp = v
    self.ok = p
  def hit(d: int) -> int:
    self.hp -= d
    /hit ${self}
    result self.hp
  inline def up(k: int) -> int:
    self.hp += k
    result self.hp + 1
  virtual def v(d: int) -> int:
    /v of E ${self}
    result self.hp + d
  virtual inline def w():
    /w of E ${self}
  static def make(v: int) -> int:
    result v + 7
entity F extends E:
  f: int
  override def v(d: int) -> int:
    self.f = d
    /v of F ${self}
    result self.hp - d
  def only() -> int:
    result self.f + self.hp
entity G extends E:
  override inline def w():
    /w of G ${self}
    self.hp += 1
entity X:
  virtual def z(k: int) -> int:
    /z of X ${self}
    result k
  def mx() -> int:
    /mx ${self}
    result self.z(5) + 1
entity H extends F, X:
  h: bool
  inline new(v: int, &o, k: bool = True):
    E.new(v=v + 1)
    self.f = v
    self.h = k
    o += 1
  override def z(k: int) -> int:
    /z of H ${self}
    self.hp += k
    result self.hp
  def hit(d: int) -> int:
    self.hp -= d + d
    /hit of H ${self}
    result self.f
"""
SIMPLE = """entity E:
  hp: int
  new(t, at, k: int):
    new(t, at)
    self.hp = k
"""


def lines(*xs):
    return "\n".join(xs) + "\n"


def fields():
    out = []
    mk = BASE + "x := E(a)\ny := F(b)\n"
    for s in (
        "c = x.hp\nd = y.hp\nq = x.ok",
        "x.hp = b\ny.f = a\nc = x.hp + y.f\nd = y.hp",
        "x.hp += y.hp\ny.hp -= x.hp\nc = x.hp\nd = y.hp",
        "x.ok = a < b\ny.ok = not x.ok\nq = y.ok and x.ok\nr = y.ok or x.ok",
        "y.f = 3\ny.hp = 4\ny.ok = p\nc = y.f\nd = y.hp\nq = y.ok",
        "z := y\nz.f = n\nc = y.f\ny.hp = 9\nd = z.hp",
        "&z = y\nz.f = n\nc = y.f\ny.hp = 9\nd = z.hp",
        "z := x\nx = y\nx.hp = n\nc = z.hp\nd = y.hp\n/is ${x} ${y} ${z}",
        "&z = x\nx = y\nx.hp = n\nc = z.hp\nd = y.hp\n/is ${x} ${y} ${z}",
        "z: E\nz = x\n/is ${z}\nz = y\nz.hp = 5\nc = y.hp\nd = x.hp\n/is ${z}",
        "z: E = y\nz.hp += 1\nc = y.hp\nx = z\n/is ${x}",
        "x = x\nc = x.hp\n/is ${x}",
        "t := x\nx = y\n/is ${x} ${t}\nc = x.hp\nd = t.hp",
        "x = E(c)\nc = x.hp\n/is ${x}",
        "y = H(c, o=d)\nc = y.hp\nd += y.f\n/is ${y}",
        "x = H(x.hp, o=d)\nc = x.hp\n/is ${x}",
        "if p:\n  x = y\nx.hp = 2\nc = y.hp\n/is ${x}",
        "while x.hp < n:\n  x.hp += 1\n  x = y\n  y.hp += 1\n  /it ${y}\nc = y.hp",
        "/kill ${x}\nz := E(c)\nc = z.hp\n/is ${y} ${z}",
        "x.hp = x.hp + x.hp\nc = x.hp\nd = -y.hp",
        "q = x.hp < y.hp\nr = x.ok == y.ok\nc = 0\nif x.hp == y.hp:\n  c = 1",
        "c = x.hp if False else 0" if 0 else "a = x.hp\nb = a\nx.hp = 0\nc = a",
        "struct S:\n  e: E\n  k: int\ns := S(e=y, k=c)\ns.e.hp = n\nc = y.hp\nd = s.k\n/is ${s.e}",
        "struct S:\n  e: E\n  k: int\ns := S(e=x)\nu := s\ns.e = y\nu.e.hp = 3\nc = x.hp\nd = y.hp\n/is ${s.e} ${u.e}",
        "def g(u: E, k: int) -> E:\n  u.hp = k\n  result u\nz := g(y, n)\nc = y.hp\nz.hp += 1\nd = y.hp\n/is ${z}",
        "def g(u: E) -> E:\n  u = x\n  u.hp += 1\n  result u\nz := g(y)\nc = y.hp\nd = x.hp\n/is ${z} ${x} ${y}",
        "e: E = y\ninline def g(&u):\n  u = x\ng(e)\n/is ${e}\nc = e.hp", "inline def g(&u):\n  u = y\ng(x)\n/is ${x}\n\n/is ${y}\nc = y.hp",
        "inline def g(&u) -> &E:\n  result u\ng(x).hp = n\nc = x.hp",
        "inline def g(u: E):\n  u.hp = n\n  /in ${u}\ng(y)\n/is ${y}\nc = y.hp",
        "inline def g(const u):\n  u.hp = n\ng(y)\nc = y.hp" if 0 else "c = x.hp + y.hp",
        "def g() -> E:\n  z := E(7)\n  result z\nx = g()\nc = x.hp\n/is ${x}",
        "def g(k: int) -> E:\n  result F(k)\nz := g(a)\nu := g(b)\nc = z.hp\nd = u.hp\n/is ${z} ${u}",
    ):
        out.append(mk + s)
    return out


def methods():
    out = []
    mk = BASE + "x := E(a)\ny := F(b)\ne: E = y\n"
    for s in (
        "c = x.hit(2)\nd = x.hp", "c = y.hit(a)\nd = y.hp", "x.hit(1)\ny.hit(2)\nc = x.hp\nd = y.hp",
        "c = x.up(3)\nd = x.hp", "c = e.up(a) + e.up(b)\nd = y.hp",
        "c = x.v(1)\nd = y.v(2)", "c = e.v(n)\nd = y.f", "e = x\nc = e.v(n)\nd = y.hp",
        "c = e.v(a) + x.v(b)", "c = e.v(1) + e.v(2)\nd = y.f", "c = e.v(e.v(3))\nd = y.f",
        "c = upcast(y, E).v(5)\nd = y.v(6)", "upcast(y, E).w()\ny.w()\ne.w()",
        "c = E.make(a)\nd = x.make(b) + F.make(1)", "y.f = 4\nc = y.only()\nd = y.f",
        "x.w()\ny.w()\nz := G(c)\nz.w()\ne = z\ne.w()\nc = z.hp",
        "h := H(c, o=d)\nc = h.v(3)\nd += h.only()\nh.w()\n/is ${h}",
        "h := H(a, o=d, k=q)\nr = h.h\nc = h.hit(b)\nd += h.hp",
        "h := H(a, o=d)\ne = h\nc = e.v(3)\nd += e.hit(2)\ne.w()\n/is ${e}",
        "h := H(a, o=d)\nf: F = h\nc = f.hit(3)\nf.w()\nd += f.v(9)",
        "h := H(a, o=d)\nc = upcast(h, E).v(3)\nupcast(h, F).w()\nd = h.f + h.z(2)",
        "h := H(a, o=d)\nu: X = h\nc = u.mx()\nd = u.z(1) + h.z(2)\nc += upcast(h, X).z(9)",
        "h := H(a, o=d)\nc = h.mx() + h.hp\nd = upcast(h, X).mx()\n/is ${h}",
        "def g(u: E) -> int:\n  u.w()\n  result u.v(1)\nc = g(x) + g(y)\nd = y.f",
        "if e.v(1) < n:\n  /less\nelse:\n  /more\ne.w()",
        "while e.v(1) > n - 4:\n  y.hp -= 1\n  e.w()\nc = y.hp",
        "c = y.v(1) - x.v(1) * 2\nd = e.hp",
        "entity I extends F:\n  inline def back(&o):\n    o = self\n    o.hp += 1\n    /back ${o} ${self}\n"
        "  inline def up2() -> int:\n    upcast(self, E).w()\n    result upcast(self, E).v(3)\n"
        "i := I(c)\nj := I(b)\ni.back(i)\nc = i.hp\nj.back(i)\nd = i.hp\na = i.up2()\nb = upcast(j, F).v(2)\n/is ${i} ${j}",
        "g := Engroup[F]()\ng.add(y)\nc = upcast(g.to_single(), E).v(3) + g.to_single().v(4)\nd = y.f\n"
        "upcast(g.to_single(), E).w()\nfor m in g:\n  a = m.v(1) + upcast(m, E).v(2)\n  b = m.f\n  upcast(m, E).hp += 2\nr = y.hp > n",
        "entity I extends F:\n  def hit(d: int) -> int:\n    /hit of I ${self}\n    result d * 2\n"
        "  inline def up(k: int) -> int:\n    result k\n  static def make(v: int) -> int:\n    result v - 7\n"
        "entity J extends I:\n  jj: int\ni := I(c)\nj := J(b)\ne = i\nc = i.hit(2) + e.hit(3) + j.hit(4)\n"
        "d = j.up(n) + upcast(j, F).up(1) + j.make(1) + upcast(i, E).hit(5)",
        "entity I:\n  new():\n    new(\"pig\", AbsPos(1, 2, 3))\n  def s() -> int:\n    result 1\n  static def t() -> int:\n    result 10\n"
        "entity J:\n  def s() -> int:\n    result 2\n  static def t() -> int:\n    result 20\n  def only() -> int:\n    result 3\n"
        "entity K extends I, J:\n  k: int\nentity L extends J:\n  def s() -> int:\n    result 5\n"
        "entity M extends K, L:\n  m: int\n"
        "u := K()\nm := M()\nc = u.s() * 100 + u.t() + u.only()\nd = upcast(u, J).s() + m.s() * 100 + m.t()\n"
        "a = upcast(m, L).s() + upcast(m, J).s() * 10",
        "entity I:\n  new():\n    new(\"pig\", AbsPos(1, 2, 3))\n  def s() -> int:\n    result 1\n  static def t() -> int:\n    result 10\n"
        "entity J extends I:\n  j: int\nentity K extends I:\n  def s() -> int:\n    result 2\n  static def t() -> int:\n    result 20\n"
        "entity L extends J, K:\n  m: int\nu := L()\nc = u.s() + u.t()\nd = upcast(u, J).s() + upcast(u, K).s() * 100 + L.t()",
        "c = a\nc += e.v(c)\nd = c",
        "x.hp = e.v(x.hp)\nc = x.hp\nd = y.f",
        "y.f = e.v(y.hp)\nc = y.f",
        "x.hit(e.v(2))\nc = x.hp\nd = y.f",
        "c = (a + b) * 2 - e.v(a * 2 - b)\nd = c",
        "e = x\ne.w()\ne = y\ne.w()\nc = e.v(0)",
        "inline def g(&u):\n  u.w()\n  c = u.v(a)\ng(e)\ng(y)",
        "s := x\nx = y\nc = s.v(1)\nd = x.v(1)",
    ):
        out.append(mk + s)
    # self-calls and dispatch inside methods
    inner = """entity A:
  n1: int
  new():
    new("pig", AbsPos(0, 0, 0))
    self.n1 = 1
    self.init()
  virtual def init():
    self.n1 = 2
    /init A ${self}
  virtual def name() -> int:
    /name A
    result 1
  def show(k: int) -> int:
    r := self.name() * 10 + k
    /show ${self}
    result r + self.n1
  def twice() -> int:
    result self.show(1) + self.show(2)
  inline def il(o: int) -> int:
    self.n1 += o
    result self.name() + self.n1
entity B extends A:
  b: int
  override def name() -> int:
    /name B
    self.n1 += 1
    result 2 + self.b
  override def init():
    self.b = 3
    self.n1 = 5
    /init B ${self}
entity C extends B:
  override def name() -> int:
    /name C
    result upcast(self, B).name() + 100
entity D extends A:
  new(k: int):
    A.new()
    self.n1 = k
    /new D ${self}
  def show(k: int) -> int:
    /show D ${self}
    result k
x := A()
y := B()
z := C()
w := D(a)
u: A
"""
    for s in (
        "c = x.show(1)\nd = y.show(2)", "c = z.show(3)\nd = w.show(4)", "c = z.twice()\nd = y.twice()",
        "u = z\nc = u.show(5)\nd = u.n1", "u = w\nc = u.show(6)\nd = u.twice()",
        "u = y\nc = u.name() + u.name()\nu = x\nd = u.name()", "c = y.il(b)\nd = z.il(a)",
        "u = z\nc = u.il(1)\nd = upcast(z, A).name() + upcast(z, B).name()",
        "c = x.n1 + y.n1 + z.n1 + w.n1\nd = y.b + z.b",
        "u = x\nu.init()\nu = y\ny.n1 = 0\nu.init()\nc = x.n1\nd = y.n1",
        "c = upcast(z, A).show(1)\nd = upcast(z, A).twice()",
        "y = z\nc = y.name()\nd = y.show(9)\n/is ${y} ${z}",
        "x = D(b)\nc = x.n1\nd = x.show(1)\n/is ${x}",
    ):
        out.append(inner + s)
    # two inheritance paths to one base (without fields)
    diamond = """entity A:
  inline new(const t):
    new(t, AbsPos(1, 2, 3))
  virtual def v() -> int:
    /v A
    result 1
  virtual def w():
    /w A
  def s():
    /s A
    self.w()
entity B extends A:
  b: int
  override def v() -> int:
    /v B
    self.b = n
    result 2
entity C extends A:
  c: int
  override def v() -> int:
    /v C
    self.c = n + 1
    result 3
  override def w():
    /w C ${self}
entity D extends B, C:
  override def w():
    /w D ${self}
entity F extends C, B:
  pass
x := D("pig")
y := F("cow")
z := C("cow")
u: A
"""
    for s in ("c = x.v()\nx.w()\nx.s()", "c = y.v()\ny.w()\ny.s()", "u = x\nc = u.v()\nu.s()\nd = x.b",
              "u = y\nc = u.v()\nu.w()\nd = y.c", "k: C = y\nc = k.v()\nk = x\nd = k.v()",
              "u = z\nc = u.v() + x.v()\nu = y\nu.w()\nd = y.v()",
              "c = upcast(x, A).v() + upcast(x, B).v() + upcast(x, C).v()\nupcast(y, A).w()\nupcast(y, B).w()"):
        out.append(diamond + s)
    return out


def news():
    out = []
    for s in (
        "entity P:\n  new(t: int):\n    /before\n    new(\"cow\", AbsPos(1, 2, 3))\n    /after ${self}\nx := P(1)\n/is ${x}",
        "entity P:\n  k: int\n  inline new(const t, &o):\n    new(t, AbsPos(1, 2, 3), name=\"bob\", event=\"ev\")\n"
        "    self.k = o\n    o += 1\nx := P(\"pig\", c)\ny := P(t=\"cow\", o=c)\na = x.k\nb = y.k\n/is ${x} ${y}",
        "entity P:\n  k: int\n  new(v: int):\n    new(\"cow\", AbsPos(1, 2, 3))\n    self.k = v\n"
        "entity Q extends P:\n  j: bool\nx := Q(a)\nb = x.k\ny: P = Q(b)\nc = y.k\n/is ${x} ${y}",
        "entity P:\n  k: int\n  new(v: int):\n    new(\"cow\", AbsPos(1, 2, 3))\n    self.k = v\n"
        "entity Q extends P:\n  new():\n    P.new(4)\n    self.k += 1\n    /q ${self}\n"
        "entity R extends Q:\n  z: int\n  inline new(&o):\n    Q.new()\n    self.z = self.k\n    o = self.z\n"
        "x := R(c)\nd = x.k\ny := Q()\nb = y.k\n/is ${x} ${y}",
        "entity P:\n  new(v: int):\n    if v < n:\n      new(\"cow\", AbsPos(1, 2, 3))\n    else:\n"
        "      new(\"pig\", AbsPos(4, 5, 6))\nx := P(a)\ny := P(b)\n/is ${x} ${y}",
        "entity P:\n  k: int\n  new(v: int):\n    new(\"cow\", AbsPos(1, 2, 3))\n    self.k = v\n"
        "def mk(v: int) -> P:\n  x := P(v)\n  x.k += 1\n  result x\nx := mk(a)\ny := mk(x.k)\nb = y.k\nc = x.k\n/is ${x} ${y}",
        "entity P:\n  k: int\n  new(v: int):\n    new(\"cow\", AbsPos(1, 2, 3))\n    self.k = v\n"
        "x := P(0)\nc = 0\nwhile c < 3:\n  c += 1\n  x = P(x.k + c)\n  /it ${x}\na = x.k",
        "entity P:\n  k: int\n  new(v: int):\n    new(\"cow\", AbsPos(1, 2, 3))\n    self.k = v\n"
        "entity Q:\n  p: int\n  new(v: int):\n    x := P(v)\n    new(\"pig\", AbsPos(4, 2, 3))\n    self.p = x.k + 1\n    /made ${x} ${self}\n"
        "q1 := Q(a)\nq2 := Q(b)\nc = q1.p\nd = q2.p\n/is ${q1} ${q2}",
        "entity P:\n  k: int\n  new(v: int):\n    new(\"cow\", AbsPos(1, 2, 3))\n    self.k = v\n"
        "x := P(1)\ny := P(2)\nx = P(x.k + y.k)\ny = x\nc = y.k\n/is ${x} ${y}",
        "entity P:\n  k: int\n  inline new(v: int):\n    new(\"cow\", AbsPos(1, 2, 3))\n    self.k = v\n"
        "x := P(1)\nx = P(x.k + 1)\nc = x.k\n/is ${x}",
        "entity P:\n  k: int\n  new(v: int):\n    new(\"cow\", AbsPos(1, 2, 3))\n    self.k = v\n"
        "def mk(v: int) -> int:\n  x := P(v)\n  /it ${x}\n  result x.k\na = mk(a)\nb = mk(b)\n"
        "c = 0\nwhile c < 2:\n  c += 1\n  y := P(c)\n  /lo ${y}\n  if c == 2:\n    q = False\nd = y.k",
        "entity P:\n  k: int\n  inline new(const at, v: int):\n    new(\"cow\", at)\n    self.k = v\n"
        "c = 0\nwhile c < 2:\n  c += 1\n  y := P(AbsPos(1, 2, 3), c)\n  z := P(AbsPos(4, 5, 6), c + 1)\n"
        "  /lo ${y} ${z}\nd = y.k\nfor i in {1, 2}:\n  u := P(AbsPos(i, i, i), i)\n  /u ${u}\n  a += u.k",
        "entity P:\n  k: int\n  new(v: int):\n    new(\"cow\", AbsPos(1, 2, 3))\n    self.k = v\n"
        "g := Engroup[P]()\nc = 0\nwhile c < 3:\n  c += 1\n  y := P(c)\n  g.add(y)\n"
        "for m in g:\n  d += m.k\n  /m ${m}",
        "entity P:\n  k: int\n  new(at):\n    new(\"cow\", at)\n" if 0 else
        "entity P:\n  k: int\n  inline new(const at, const t=\"cow\"):\n    new(t, at)\n    self.k = 2\nx := P(AbsPos(7, 8, 9))\ny := P(Pos(x), \"pig\")\n/is ${x} ${y}\nc = y.k",
    ):
        out.append(s)
    return out


def groups():
    out = []
    mk = SIMPLE.replace("new(t, at, k: int)", "inline new(const t, const at, k: int)") + \
        "entity F extends E:\n  f: int\n" \
        "x := E(\"pig\", AbsPos(1, 2, 3), a)\ny := E(\"cow\", AbsPos(4, 5, 6), b)\n" \
        "z := F(\"pig\", AbsPos(7, 8, 9), c)\ng := Engroup[E]()\n"
    show = "for m in g:\n  /g ${m}\n"
    for s in (
        "g.add(x, y)\n" + show + "c = g.size()\nq = g.is_empty()\nr = g.has(z)",
        "q = g.is_empty()\nd = g.size()\ng.add(z)\nr = g.has(z)\n" + show,
        "g.add(x, y, z)\ng.remove(y)\n" + show + "d = g.size()\nq = g.has(y)",
        "g.add(x, x)\ng.add(x)\nd = g.size()\n" + show,
        "g.add(x)\nh := Engroup[E]()\nh.add(y, z)\ng.extend(h)\nh.clear()\n" + show + "q = h.is_empty()",
        "g.add(x, y, z)\nh := Engroup[E]()\nh.add(y)\ng.subtract(h)\n" + show + "d = h.size()",
        "g.add(x, y)\nh := Engroup[E]()\nh.add(y, z)\ng.intersect(h)\n" + show + "d = h.size()",
        "g.add(x)\nh := g.copy()\nh.add(y)\n" + show + "d = h.size()",
        "g.add(x)\nh := g\nh.add(y)\n" + show + "d = h.size()",
        "g.add(x)\n&h = g\nh.add(y)\n" + show + "d = h.size()",
        "g.add(x)\nh := Engroup[E]()\nh.add(y, z)\ng += h\nh -= g\n" + show + "d = h.size()",
        "g.add(x, y)\nh := Engroup[E]()\nh.add(z)\ng = h\nh.add(x)\n" + show + "d = h.size()",
        "g.add(x, y)\ng = g\n" + show + "g.subtract(g)\nd = g.size()",
        "g.add(x, y)\ng -= g\nd = g.size()\ng += g\nq = g.is_empty()",
        "g.add(x, y)\ng.intersect(g)\nd = g.size()\ng.extend(g)\n" + show,
        "g.add(x).add(y).remove(x)\n" + show, "g.add(x, y).clear().add(z)\n" + show,
        "g.add(x, y, z)\nfor m in g:\n  m.hp += 1\nc = x.hp\nd = z.hp",
        "g.add(x, y)\nfor m in g:\n  if m.hp < n:\n    g.remove(m)\n    /rm ${m}\n" + show,
        "g.add(x)\nfor m in g:\n  g.add(y)\n  /in ${m}\n" + show,
        "g.add(x, y)\nd = 0\nfor m in g:\n  for k in g:\n    d += 1\n    /pair ${m} ${k}",
        "g.add(x, y)\nd = 0\nfor m in g:\n  d += m.hp\n  m.hp = d\nc = x.hp",
        "h := Engroup[F]()\nh.add(z)\ng.add(x)\ng.extend(h)\ng += h\nd = g.size()\nfor k in h:\n  k.f = 3\n  k.hp = 4\nd = z.f\n" + show,
        "g.add(y)\ns := g.to_single()\ns.hp = n\nd = y.hp\n/is ${s}",
        "g.add(y)\ng.to_single().hp += 3\nd = y.hp\nx = g.to_single()\n/is ${x}",
        "def add(h: Engroup[E]) -> int:\n  h.add(z)\n  result h.size()\ng.add(x)\nd = add(g)\n" + show,
        "inline def add(&h):\n  h.add(z)\n  h.remove(x)\ng.add(x)\nadd(g)\n" + show,
        "def both(u: E, v: E) -> Engroup[E]:\n  r := Engroup[E]()\n  r.add(u, v)\n  result r\ng = both(x, z)\n"
        "h := both(y, y)\n" + show + "d = h.size()",
        "g.add(x, y)\nx = y\nd = g.size()\nq = g.has(x)\n" + show,
        "g.add(x)\nx = z\nq = g.has(x)\ng.add(x)\nx = y\n" + show,
        "g.add(x, y)\nh := Engroup[E]()\nh.add(y)\nq = g.has(h.to_single())\nr = h.has(h.to_single())\ng.remove(h.to_single())\n/u ${h.to_single()}\nq = g.has(h.to_single())\n" + show,
        "if g.is_empty():\n  g.add(x)\nif not g.is_empty():\n  /some\nif g.has(x) and not g.has(y):\n  /x\nd = g.size() + 1",
        "while g.size() < 2:\n  if g.has(x):\n    g.add(y)\n  else:\n    g.add(x)\n  /more\n" + show,
        "g.add(x, y, z)\n/kill ${y}\nd = g.size()\nq = g.is_empty()\n" + show,
        "g.add(x)\nd = g.size() * 2 - g.size()\nc = d + g.size()",
        "g.add(x, y)\nc = 1\nc += g.size()\nd = c - g.size()\nq = g.size() == 2\nr = g.size() < 2",
        "struct S:\n  g: Engroup[E]\n  k: int\ns := S()\ns.g.add(x)\nt := s\nt.g.add(y)\nc = s.g.size()\nd = t.g.size()",
        "struct S:\n  g: Engroup[E]\n  k: int\ns := S(g=g)\ng.add(x)\nc = s.g.size()\nd = g.size()",
        "def f():\n  g.add(x)\n  h := Engroup[E]()\n  h.add(y)\n  d = h.size()\nf()\nf()\n" + show,
        "u := x\ng.add(u)\nu = y\ng.add(u)\nx = z\n" + show,
        "g.add(x)\nfor m in g:\n  u := m\n  u = y\n  u.hp = n\n  /in ${m} ${u}\nd = y.hp",
        "g.add(x, y)\nlast := x\nfor m in g:\n  last = m\n/last ${last}",
        "g.add(x, z)\nd = 0\ndef tick(u: E):\n  u.hp += 1\n  d += u.hp\nfor m in g:\n  tick(m)\nc = z.hp",
    ):
        out.append(mk + s)
    return out


def filters():
    """Filter chains over a fixed world."""
    pre = "entity E:\n  hp: int\nx: E\ng := Engroup[E]()\n"
    one = [
        'is_type("pig")', 'is_not_type("pig")', 'is_not_type("pig", "cow")', 'has_tag("t1")',
        'has_tag("t1", "t2")', 'has_no_tag("t1")', 'has_no_tag("t1", "t2")',
        'distance_from(AbsPos(0, 0, 0), max=20)', 'distance_from(AbsPos(0, 0, 0), min=20)',
        'distance_from(AbsPos(0, 0, 0), 3, 60)', 'nearest_from(AbsPos(0, 0, 0))',
        'nearest_from(AbsPos(0, 0, 0), 3)', 'farthest_from(AbsPos(0, 0, 0))',
        'farthest_from(AbsPos(0, 0, 0), limit=2)', 'inside(AbsPos(0, 0, 0), 12, 70, 12)',
        'inside(AbsPos(40, 60, 0), 30, 10, 30)', 'inside(AbsPos(3, 4, 3))',
        'inside(AbsPos(60, 70, 10), -20, -10, -10)', 'rot_vertical(min=0)',
        'rot_vertical(max=10)', 'rot_horizontal(-20, 30)', 'rot_horizontal(min=0)', 'is_name("bob")',
        'is_not_name("bob")', 'is_not_name("bob", "al")', 'has_item("gold")', 'has_item("gold", 3)',
        'has_item("gold", "2..")', 'has_item("gold", "..2")', 'has_item("gold", "!3")',
        'has_item("gold", "1..2")', 'has_item("gold", 1, data=2)',
        'has_item("gold", "1..", slot_type="hotbar")', 'has_item("gold", 0, slot_type="armor")',
        'has_item("gold", slot_type="hotbar", slot_num=2)', 'has_item("gold", slot_type="hotbar", slot_num="..1")',
        'has_item("gold", slot_type="hotbar", slot_num="!2")',
        'scores("obj", 3)', 'scores("obj", "3..")', 'scores("obj", "..-1")', 'scores("obj", "!3")',
        'scores("obj", "-5..5")', 'level(3)', 'level(max=4)', 'level(3, 4)',
        'all_players()', 'is_game_mode("c")', 'is_game_mode("c").is_game_mode("s")', 'all_players().is_not_game_mode("c")',
        'all_players().is_not_game_mode("c", "s")', 'has_permission("camera")',
        'all_players().has_no_permission("camera")', 'has_permission("camera", "movement")',
        'random("pig")', 'random("pig", 2)', 'random("player")',
    ]
    two = ['is_type("pig")', 'is_not_type("cow")', 'has_tag("t1")', 'has_no_tag("t2")',
           'nearest_from(AbsPos(0, 0, 0), 3)', 'farthest_from(AbsPos(0, 0, 0), limit=3)',
           'distance_from(AbsPos(0, 0, 0), max=70)', 'distance_from(AbsPos(60, 60, 0), min=5)',
           'inside(AbsPos(0, 0, 0), 100, 100, 12)', 'rot_vertical(min=0)', 'rot_horizontal(max=30)',
           'is_name("bob")', 'is_not_name("al")', 'has_item("gold")', 'scores("obj", "0..")',
           'level(max=4)', 'level(min=2)', 'all_players()', 'is_game_mode("c")',
           'has_permission("camera")', 'random(limit=2)', 'random("pig", 2)']
    out = []
    for f in one:
        out.append([f])
    n = 0
    for i, f in enumerate(two):
        for j, h in enumerate(two):
            if "random(limit" in f or ("random(limit" in h and typed(f) is None):
                continue
            if "random(\"pig" in h and typed(f) not in (None, "pig"):
                continue
            out.append([f, h])
            k = two[(i * 5 + j * 3) % len(two)]
            n += 1
            if n % 3 == 0 and "random" not in k:
                out.append([f, h, k])
    ps = []
    post = "for m in g:\n  /g ${m}\n"
    for i, c in enumerate(out):
        ch = "Enfilter()." + ".".join(c)
        ps.append((["g.select(%s)\n" % ch, "const f%d = %s\ng.select(f%d)\n" % (i, ch, i),
                    "g.select(Enfilter())\ng.filter(%s)\n" % ch,
                    "g.select(Enfilter())\ng.drop(%s)\n" % ch,
                    "g.select(Enfilter().is_type(\"pig\"))\ng.filter(%s)\n" % ch,
                    ][i % 5 if len(c) > 1 else (i % 4)]))
        if len(c) == 1:
            ps.append("g.select(Enfilter().has_tag(\"t1\"))\ng.%s(%s)\n" % (
                ("select", "filter", "drop")[i % 3], ch))
    pairs = [("rot_vertical(min=0)", "rot_vertical(max=5)"), ("rot_vertical(-20, 10)", "rot_vertical(0, 60)"),
             ("rot_horizontal(min=0)", "rot_horizontal(max=30)"), ("is_type(\"pig\")", "is_type(\"cow\")"),
             ("is_type(\"pig\")", "is_not_type(\"cow\")"), ("is_not_type(\"pig\")", "is_not_type(\"cow\")"),
             ("is_name(\"bob\")", "is_name(\"al\")"), ("is_not_name(\"bob\")", "is_not_name(\"al\")"),
             ("scores(\"obj\", \"0..\")", "scores(\"obj\", \"..3\")"), ("scores(\"obj\", \"!3\")", "scores(\"obj\", \"!0\")"),
             ("level(min=3)", "level(max=4)"), ("level(2, 4)", "level(4, 5)"),
             ("has_item(\"gold\")", "has_item(\"iron\")"), ("has_item(\"gold\")", "has_item(\"gold\", data=2)"),
             ("has_tag(\"t1\")", "has_tag(\"t2\")"), ("has_no_tag(\"t2\")", "has_tag(\"t1\")"),
             ("has_permission(\"camera\")", "has_permission(\"movement\")"),
             ("has_permission(\"camera\")", "has_no_permission(\"movement\")"),
             ("is_game_mode(\"c\")", "is_not_game_mode(\"s\")"),
             ("inside(AbsPos(0, 0, 0), 100, 100, 12)", "inside(AbsPos(40, 60, 0), 30, 10, 30)"),
             ("distance_from(AbsPos(0, 0, 0), min=20)", "distance_from(AbsPos(0, 0, 0), max=70)"),
             ("distance_from(AbsPos(0, 0, 0), max=70)", "nearest_from(AbsPos(0, 0, 0), 2)"),
             ("distance_from(AbsPos(0, 0, 0), max=70)", "nearest_from(AbsPos(60, 60, 0), 2)"),
             ("nearest_from(AbsPos(0, 0, 0), 4)", "farthest_from(AbsPos(0, 0, 0), 2)"),
             ("nearest_from(AbsPos(0, 0, 0), 4)", "nearest_from(AbsPos(60, 60, 0))"),
             ("inside(AbsPos(0, 0, 0), 100, 100, 12)", "nearest_from(AbsPos(0, 0, 0), 2)"),
             ("all_players()", "is_type(\"player\")"), ("all_players()", "all_players()")]
    for i, (f, h) in enumerate(pairs):
        for c in (f, h), (h, f), (f, h, f):
            ps.append("g.select(Enfilter().%s)\n" % ".".join(c) if i % 2 else
                      "g.select(Enfilter())\ng.filter(Enfilter().%s)\n" % ".".join(c))
        ps.append("const u{0} = Enfilter().{1}\nconst v{0} = u{0}.{2}\ng.select(u{0})\n{3}g.clear()\n"
                  "g.select(v{0})\n{3}g.clear()\ng.select(u{0})\n".format(i, f, h, post))
    ps += ["const f0 = Enfilter().is_type(\"pig\")\ng.select(f0.has_tag(\"t1\"))\n" + post + "g.clear()\ng.select(f0)\n",
           "const f = Enfilter().nearest_from(AbsPos(0, 0, 0), 3)\nconst k = f.is_type(\"pig\")\nconst l = f.has_tag(\"t1\")\n"
           "g.select(k)\n" + post + "g.clear()\ng.select(l)\n" + post + "g.clear()\ng.select(f)\n",
           "g.select(Enfilter().is_type(\"pig\"))\ng.select(Enfilter().is_type(\"cow\"))\nd = g.size()\n"]
    per = 6
    res = []
    many = SIMPLE.replace("new(t, at, k: int)", "inline new(const t, const at, k: int)") + \
        "x := E(\"pig\", AbsPos(57, 65, 6), 1)\ny := E(\"cow\", AbsPos(2, 4, 4), 2)\n" \
        "e: E = x\ng := Engroup[E]()\n"
    step = "  for m in g:\n    /g ${m}\n"
    for ops in (
        ["g.select(Enfilter().nearest_from(Pos(e), 2))"],
        ["g.select(Enfilter())", "g.filter(Enfilter().nearest_from(Pos(e), 2))"],
        ["g.select(Enfilter())", "g.drop(Enfilter().nearest_from(Pos(e), 3))"],
        ["g.select(Enfilter().nearest_from(Pos(e), 3).has_tag(\"t1\"))"],
        ["g.select(Enfilter().distance_from(Pos(e), max=40).nearest_from(AbsPos(0, 0, 0), 2).is_not_type(\"cow\"))"],
        ["g.select(Enfilter())", "g.filter(Enfilter().nearest_from(Pos(e), 4).farthest_from(AbsPos(0, 0, 0)))"],
        ["g.select(Enfilter())", "g.drop(Enfilter().farthest_from(Pos(e), 3).nearest_from(Pos(e), 2))"],
        ["h := Engroup[E]()", "h.add(e)", "g.extend(h)", "g.filter(Enfilter().nearest_from(Pos(e), 1))"],
        ["h := g.copy()", "g.add(e)", "g.subtract(h)"],
        ["h := Engroup[E]()", "h.select(Enfilter().nearest_from(Pos(e), 3))", "g.add(x, y)", "g.intersect(h)"],
    ):
        body = "".join("  %s\n" % o for o in ops)
        res.append(many + "c = 0\nwhile c < 3:\n  c += 1\n  g.clear()\n" + body + step +
                   "  e = y\n  if c > 1:\n    e = x\n")
        res.append(many + "def f(e: E):\n" + body + step + "f(x)\nf(y)\ng.clear()\nf(x)\n")
    for i in range(0, len(ps), per):
        res.append(pre + "g.clear()\n".join(p + post + "/--\n" for p in ps[i:i + per]))
    return res


def typed(f):
    if f.startswith("is_type"):
        return f.split('"')[1]
    if f.startswith("random(\""):
        return f.split('"')[1]
    if f.startswith(("level", "all_players", "is_game_mode", "has_permission")):
        return "player"
    return None
