"""P15: programs are parsed by the grammar, or refused at the first wrong token."""
from ..ctx import Ctx
from .. import absint as A
from ..absint import K, Inst, Tup, Lst, Dct, Enum
from ..lab import Lab
from ..lexref import lex
from ..gramref import parse, Node
from ..gramprogs import programs
from ..scen import run_cases


class Differ(Exception):
    pass


class ParseLab(Lab):
    def __init__(self, cx):
        super().__init__(cx)
        self.I.fuel0 = 400000
        self.I.depth0 = 400
        self.kinds = None
        self.Tok = self.repo.cls("Token", "tokenizer")

    def tokens(self, toks):
        if self.kinds is None:
            TT = self.repo.cls("TokenType", "tokenizer")
            es = [self.I.enum(TT, m) for m in self.cx.vals.members(TT) or ()]
            self.kinds = {e.value.v: e for e in es if isinstance(e.value, K)}
        out, col = [], 1
        for kind, val, ln, c in toks:
            if kind not in self.kinds:
                raise A.Undecided("token %s" % kind)
            col = col if c is None else c
            out.append(self.I.instantiate(
                self.Tok, [self.kinds[kind], K(ln), K(col), K(val)], {}))
        return out

    def read(self, toks):
        return self.meth(self.parser(self.tokens(toks)), "module")

    def field(self, v, names):
        """The first of the attributes that exists."""
        for n in names:
            try:
                return self.I.getattr(v, n)
            except A.AbsRaise:
                continue
        raise A.Undecided("no attribute %s" % names[0])

    # -- comparison -------------------------------------------------------
    def agree(self, want, got, path):
        def no(what):
            raise Differ("%s is %s" % (path, what))
        if isinstance(want, Node):
            if not isinstance(got, Inst):
                no("%s instead of %s" % (brief(got), want.cls))
            if got.cls.name != want.cls:
                no("parsed as %s instead of %s" % (got.cls.name, want.cls))
            for n, x in want.f.items():
                self.agree(x, self.field(got, [n]), "%s of the %s" % (n, want.cls)
                           if path == "the program" else "%s.%s" % (path, n))
            if want.span is not None:
                self.position(want, got, path)
        elif isinstance(want, (list, tuple)):
            items = list(self.I.iterate(got)) if isinstance(got, (Lst, Tup)) else None
            if items is None or len(items) != len(want):
                no("%s instead of %d parts" % ("%d parts" % len(items) if items is not None
                                              else brief(got), len(want)))
            for i, (x, y) in enumerate(zip(want, items)):
                self.agree(x, y, path if path == "the program" else "%s[%d]" % (path, i))
        elif isinstance(want, dict):
            if not isinstance(got, Dct):
                no(brief(got))
            keys = [k.v if isinstance(k, K) else None for k, _ in got.items]
            if keys != list(want):
                no("%s instead of %s" % (keys, list(want)))
            for (k, y) in got.items:
                self.agree(want[k.v], y, "%s of %s" % (path, k.v))
        elif isinstance(got, Enum):
            if got.name != want:
                no("%s instead of %s" % (got.name, want))
        elif not isinstance(got, K) or got.v != want or type(got.v) is not type(want):
            no("%s instead of %r" % (brief(got), want))

    def position(self, want, got, path):
        at = []
        for n in ("lineno", "col"):
            v = self.field(got, [n])
            if not isinstance(v, K):
                raise A.Undecided("position")
            at.append(v.v)
        (l0, c0), (l1, c1) = want.span
        if want.exact:
            ok = at[0] == l0 and (c0 is None or at[1] == c0)
        else:
            ok = l0 <= at[0] <= l1 and (at[0] != l0 or c0 is None or at[1] >= c0) and (
                at[0] != l1 or c1 is None or at[1] <= c1)
        if not ok:
            raise Differ("%s (%s) is placed at %s:%s, it starts at %s:%s and ends at %s:%s" % (
                path, want.cls, at[0], at[1], l0, c0, l1, c1))


def brief(v):
    if isinstance(v, Inst):
        return v.cls.name
    return repr(v.v) if isinstance(v, K) else type(v).__name__


def judge(lab, case):
    rule, texts = case
    out = []
    for text in texts:
        toks, err = lex(text, (1, 20, 0))
        if toks is None:
            continue
        tree, wrong = parse(toks)
        name = repr(text)

        def thunk():
            lab.counter = lab.ntok = 0
            return lab.read(toks)
        for how, v, trace in lab.I.run(thunk):
            if how == "undecided" and v in ("too long", "endless loop", "recursion", "call depth"):
                out.append((rule, name, False, "the parser does not come to an end"))
            elif how == "undecided" or trace:
                out.append((None, v if how == "undecided" else "branch", True, ""))
            elif how == "raise" and v.name != "Error":
                out.append(("R4", name, False, "the parser crashes with %s" % v.name))
            elif how == "raise":
                f = v.val.fields
                loc = f["location"].fields.get("linecol")
                kind = getattr(f.get("type"), "name", None)
                at = [getattr(x, "v", None) for x in getattr(loc, "items", ())]
                if wrong is None:
                    out.append((rule, name, False, "refused with %s at %s" % (kind, at)))
                    continue
                ok = kind == wrong.kind and any(
                    len(at) == 2 and at[0] == w[0] and w[1] in (None, at[1]) for w in wrong.at)
                out.append(("R4", name, ok, "" if ok else "refused with %s at %s instead of %s at %s" % (
                    kind, at, wrong.kind, " or ".join("%s:%s" % w for w in wrong.at))))
            elif wrong is not None:
                out.append(("R4", name, False, "accepted instead of refused with %s at %s" % (
                    wrong.kind, " or ".join("%s:%s" % w for w in wrong.at))))
            else:
                try:
                    lab.agree(tree, v, "the program")
                    out.append((rule, name, True, ""))
                except Differ as e:
                    out.append((rule, name, False, str(e)))
                except A.Undecided as e:
                    out.append((None, "tree: %s" % e, True, ""))
    return out


def check(chk, repo):
    cx = Ctx(repo)
    chk.rule("R1", "expressions nest as precedence, associativity and brackets say")
    chk.rule("R2", "statements, blocks, declarations and their parts become the tree the grammar gives")
    chk.rule("R3", "programs derived at random from the grammar are parsed to their derivation")
    chk.rule("R4", "a program outside the grammar is refused with the fitting error at the first token "
                   "no program can have there")
    lab = ParseLab(cx)
    run_cases(chk, cx, lab, programs(chk.tier == "thorough"), lambda c: judge(lab, c), "/parser.py")
    for r, n in (("R1", 300), ("R2", 60), ("R3", 100), ("R4", 1500)):
        chk.floor(r, n)
