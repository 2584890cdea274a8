"""Programs and command lines used to decide what the command line tool writes."""

MOD = """/say module
y := 5
def up(x: int) -> int:
    result x + y
"""

GOOD = {
    "empty": "",
    "plain": "a := 1\n/say hi\na = a * 7 % 3\nif a > 0:\n    /say pos\n",
    "iface": "interface a/b/C.d:\n    /say ab\ninterface q:\n    /say q\n/say main\n",
    "tick": "import schedule\ndef f():\n    /say tick\nschedule.register_loop(f)\n",
    "module": "import m\nfrom m import up as u\nx := u(3) + m.up(1)\nif x > 2:\n    import m as k\n    x = k.y\n",
    "all": '''import m
import schedule
import print
import math
x := m.up(1) * 3
n := math.mod(x, 7)
entity C:
    hp: int
    flag: bool
    new():
        new("cow", AbsPos(3, 4, 5))
        self.hp = 42
    virtual def hit(d: int):
        self.hp -= d
entity D extends C:
    new():
        new("pig", AbsPos(3, 4, 5))
        self.hp = 2
    override def hit(d: int):
        self.hp -= d * 2
e := C()
e = D()
e.hit(3)
g: Engroup[C]
g.add(e)
for i in g:
    i.hit(1)
    if i.hp > 3 and x > 2 or not i.flag:
        print.tell(print.format("%0 %1", i.hp, x + 1))
    else:
        x /= 5
def foo(k: int):
    x += k
    print.title("T")
const t = schedule.Task(foo, 2)
schedule.register_loop(foo, 3, 1)
t.after(7)
while n > 0:
    n -= 1
    /say ${e}
g.select(Enfilter().is_type("cow").has_tag("zz"))
interface a/b:
    t.after(x)
    e.hit(x)
interface go:
    g.clear()
    e = C()
''',
}

# (program, what the message has to mention)
BAD = {
    "token": ("x := 1\ny = ?\n", ":2:5: "),
    "syntax": ("x := 1\nif x:\n", ":"),
    "name": ("x := 1\nx = y\n", ":2:5: "),
    "late": ("interface a:\n    /say a\nx := 1\nx = True\n", ":4:"),
    "module": ("import nowhere\n", ":1:"),
    "broken module": ("import bad\n", "bad.aca:1:"),
    "module of itself": ("import main\n", ":1:"),
    "interface": ("interface main:\n    /say a\n", ":1:"),
    "callback": ("from m import nothing\n", ":1:"),
}

# options that must be refused: (arguments, word of the message)
REFUSED = [
    ["--scoreboard", "a b"], ["--scoreboard", "1a"], ["-f", "a/1"], ["-f", "a b"], ["-m", "a/b"],
    ["-m", "x y"], ["-v", "1"], ["-v", "x.y"], ["-v", "1.19.10"], ["-v", "1.-20"],
    ["-i", "a b"], ["--internal-folder", "a/b"], ["--internal-folder", "-x"[1:] + " "],
    ["--max-inline-file-size", "-1"], ["--max-inline-file-size", "x"], ["--nothing"],
    ["-o", "no/such/dir"], ["-i", "main"], ["-m", "Init", "-i"], ["-m", "x1", "-i", "X1"],
    ["-t", "a b"], ["-t", "a/b"], ["--encoding", "no-such-codec"],
]
