"""Binary modules a user of the compiler may write (Python, with the argument parser
`acaciamc.tools.axe`), together with programs that use them and the texts those have
to show. What is expected is computed here from the declarations alone: parameter
lists are bound by Python's own rules (inspect.Signature), converters by the table
below."""
import inspect
import itertools
import re

HEAD = '''from acaciamc.tools import axe, resultlib, versionlib, method_of, cmethod_of
from acaciamc.tools import ImmutableMixin, transform_immutable
from acaciamc.objects import *
from acaciamc import objects
from acaciamc.objects.integer import ctdt_int
from acaciamc.objects.string import ctdt_string
from acaciamc.mccmdgen.expr import AcaciaExpr, ConstExprCombined
from acaciamc.mccmdgen.ctexpr import CTObj, CTObjPtr, CTDataType
from acaciamc.mccmdgen.datatype import DefaultDataType
from acaciamc.error import Error, ErrorType
import acaciamc.mccmdgen.cmds as cmds

def show(v):
    if v is None:
        return "null"
    if isinstance(v, bool):
        return "b:" + str(v)
    if isinstance(v, int):
        return "i:" + str(v)
    if isinstance(v, float):
        return "f:" + str(v)
    if isinstance(v, str):
        return "s:" + v
    if isinstance(v, (list, tuple)):
        return "[" + ", ".join([show(x) for x in v]) + "]"
    if isinstance(v, dict):
        return "{" + ", ".join([show(k) + " = " + show(x) for k, x in v.items()]) + "}"
    if isinstance(v, CTObjPtr):
        return "&" + show(abs(v))
    if isinstance(v, NoneLiteral):
        return "Lnull"
    if isinstance(v, (IntLiteral, BoolLiteral, Float, String)):
        return "L" + show(v.value)
    if isinstance(v, AcaciaExpr):
        return "E:" + str(v.data_type)
    if isinstance(v, CTObj):
        return "C:" + v.cdata_type.name.replace("const_", "")
    return type(v).__name__

def attempt(f):
    def g(compiler, args, kwds):
        try:
            return f(compiler, args, kwds)
        except Error as e:
            return String("refused " + e.type.name + " " + str(e))
    return g
'''

PRE = '''import lib
n := 3
p := True
def fun():
    pass
entity Ent:
    pass
e := Ent("pig", Pos(1, 2, 3))
g := Engroup[Ent]()
'''


# -- parameter lists ---------------------------------------------------------
SPECS = ["", "a", "a b", "a b=9", "a=8 b=9", "a / b", "a b=8 / c=9", "a /", "a * b", "a * b=9",
         "* a b", "*v", "a *v", "a *v b", "a / b *v c", "**k", "a **k", "a / b * c **k",
         "a b=9 *v c=7 **k", "a=1 b=2 c=3", "a b c d=5", "a=7 / *v **k"]
VALUES_ = {"a": 11, "b": 12, "c": 13, "d": 14, "z": 26, "y": 25}


class Par:
    """One component of a parameter list."""

    def __init__(self, text):
        self.kind = "/" if text == "/" else "*" if text == "*" else "**k" if text[:2] == "**" else \
            "*v" if text[0] == "*" else "arg"
        t, _, d = text.lstrip("*").partition("=")
        self.name, self.default = t, int(d) if d else None


def signature(pars):
    P = inspect.Parameter
    out, kind = [], P.POSITIONAL_OR_KEYWORD
    if any(p.kind == "/" for p in pars):
        kind = P.POSITIONAL_ONLY
    for p in pars:
        if p.kind == "/":
            kind = P.POSITIONAL_OR_KEYWORD
        elif p.kind == "*":
            kind = P.KEYWORD_ONLY
        elif p.kind == "*v":
            out.append(P(p.name, P.VAR_POSITIONAL))
            kind = P.KEYWORD_ONLY
        elif p.kind == "**k":
            out.append(P(p.name, P.VAR_KEYWORD))
        else:
            out.append(P(p.name, kind, default=P.empty if p.default is None else p.default))
    return inspect.Signature(out)


def decorators(pars, renames=(), conv="axe.LiteralInt()"):
    out = []
    for p in pars:
        r = ", rename=%s" % renames[p.name] if p.name in renames else ""
        if p.kind == "/":
            out.append("@axe.slash")
        elif p.kind == "*":
            out.append("@axe.star")
        elif p.kind == "*v":
            out.append('@axe.star_arg("%s", %s%s)' % (p.name, conv, r))
        elif p.kind == "**k":
            out.append('@axe.kwds("%s", %s%s)' % (p.name, conv, r))
        else:
            out.append('@axe.arg("%s", %s%s%s)' % (
                p.name, conv, r, "" if p.default is None else ", default=%d" % p.default))
    return "\n".join(out)


def pyshow(v):
    if isinstance(v, (list, tuple)):
        return "[" + ", ".join(map(pyshow, v)) + "]"
    if isinstance(v, dict):
        return "{" + ", ".join("%s = %s" % (pyshow(k), pyshow(x)) for k, x in v.items()) + "}"
    if isinstance(v, str):
        return "s:" + v
    return "i:%d" % v


def calls(pars, deep):
    """Calls (positional values, keywords) of a function: every split of its arguments
    between the two, some of them left out, one too many or a wrong one."""
    args = [p.name for p in pars if p.kind == "arg"]
    star = any(p.kind == "*v" for p in pars)
    kw = any(p.kind == "**k" for p in pars)
    out = []
    for npos in range(len(args) + 3):
        pos = [100 + i for i in range(npos)]
        for r in range(len(args) + 1):
            for ks in itertools.combinations(args, r):
                for order in ([ks, ks[::-1]] if len(ks) > 1 else [ks]):
                    out.append((pos, {k: VALUES_[k] for k in order}))
                    if r >= len(args) - npos or deep:
                        out.append((pos, dict([("z", 26)] + [(k, VALUES_[k]) for k in order])))
                        if kw:
                            out.append((pos, dict([("z", 26)] + [(k, VALUES_[k]) for k in order]
                                                  + [("y", 25)])))
                        if order and order is not ks:
                            continue
                        for p in pars:      # the names of the lists are no parameters
                            if p.kind in ("*v", "**k"):
                                out.insert(len(out) // 2, (pos, dict([(p.name, 33)] + [(k, VALUES_[k]) for k in order])))
    return out


def outcome(pars, sig, pos, kw):
    """("ok", bound arguments) or ("no", {possible diagnostics})."""
    po = [n for n, p in sig.parameters.items() if p.kind == p.POSITIONAL_ONLY]
    if any(k in po for k in kw):
        return "no", {"ANY"} if all(k in po for k in kw) and len(pos) <= len(sig.parameters) else None
    try:
        b = sig.bind(*pos, **kw)
    except TypeError:
        errs = set()
        names = [n for n, p in sig.parameters.items()
                 if p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD)]
        kwok = [n for n, p in sig.parameters.items() if p.kind in (p.KEYWORD_ONLY, p.POSITIONAL_OR_KEYWORD)]
        kinds = [p.kind for p in sig.parameters.values()]
        if len(pos) > len(names) and inspect.Parameter.VAR_POSITIONAL not in kinds:
            errs.add("TOO_MANY_ARGS")
        got = names[:len(pos)]
        for k in kw:
            if k in got:
                errs.add("ARG_MULTIPLE_VALUES %s" % k)
            elif k not in kwok and inspect.Parameter.VAR_KEYWORD not in kinds:
                errs.add("UNEXPECTED_KEYWORD_ARG %s" % k)
        for n, p in sig.parameters.items():
            if n not in got and n not in kw and p.default is p.empty and \
                    p.kind not in (p.VAR_POSITIONAL, p.VAR_KEYWORD):
                errs.add("MISSING_ARG %s" % n)
        return "no", errs
    b.apply_defaults()
    return "ok", dict(b.arguments)


def call_text(f, pos, kw, fmt=str):
    return "%s(%s)" % (f, ", ".join([fmt(x) for x in pos] + ["%s=%s" % (k, fmt(v)) for k, v in kw.items()]))


def batches(items, size):
    return [items[i:i + size] for i in range(0, len(items), size)]


RENAMES = [{}, {"a": '"b1"', "b": '"a"', "v": '"rest"', "k": '"more"'},
           {"a": "axe.POSITIONAL"}, dict.fromkeys("abcv", "axe.POSITIONAL")]


def params(deep):
    """Parameter lists times calls; rule R1."""
    out = []
    for i, spec in enumerate(SPECS):
        pars = [Par(t) for t in spec.split()]
        sig = signature(pars)
        for j, ren in enumerate(RENAMES):
            if j and not deep and (i + j) % 2:
                continue
            if j and sum(p.name in ren for p in pars) < (2 if j == 3 else 1):
                continue
            to = lambda n: ren.get(n, '"%s"' % n).strip('"')
            lib = HEAD + '''
@axe.chop
%s
def f(compiler, *pos, **got):
    names = sorted(got)
    return String(" ".join([show(x) for x in pos] + [n + "=" + show(got[n]) for n in names]))

def acacia_build(compiler):
    return {"f": BinaryFunction(attempt(f))}
''' % decorators(pars, ren)
            items = []
            cs = calls(pars, deep)
            if not deep and len(cs) > 60:
                bad = [c for c in cs if outcome(pars, sig, *c)[0] == "no"]
                good = [c for c in cs if outcome(pars, sig, *c)[0] == "ok"]
                cs = good[:40] + bad[::max(1, len(bad) // 40)]
            for pos, kw in cs:
                how, r = outcome(pars, sig, pos, kw)
                if how == "no" and any(p.kind == "**k" for p in pars) and (r is None or r == {"ANY"}):
                    continue
                if how == "no":
                    want = None if r is None else {"refused " + e for e in r}
                else:
                    p = [pyshow(v) for n, v in r.items() if to(n) == "axe.POSITIONAL"]
                    rest = sorted((to(n), v) for n, v in r.items() if to(n) != "axe.POSITIONAL")
                    want = {" ".join(p + ["%s=%s" % (n, pyshow(v)) for n, v in rest])}
                items.append((call_text("lib.f", pos, kw), want))
            what = "parameters (%s)%s" % (", ".join(spec.split()), ["", " renamed", " by position"][min(j, 2)])
            for b in batches(items, 30):
                out.append(program("R1", what, lib, b))
    return out


def program(rule, what, lib, items, pre="import lib\n", **cfg):
    """items: (expression, {acceptable texts} or None for any refusal)."""
    text, want = pre, []
    for k, it in enumerate(items):
        if it[0] == "lines":
            text += it[1].replace("@", str(k)) + "\n"
            want.append((it[1], it[2]))
        else:
            text += "/say %d ${%s}\n" % (k, it[0])
            want.append(it)
    return rule, what, {"main.aca": text, "lib.py": lib}, want, cfg



# -- converters --------------------------------------------------------------
class V:
    """A value of a program: its source text, the name of its type, the constant it is
    (NOT: none), its shape at compile time and at run time."""

    def __init__(self, src, type_, const=Ellipsis, ct=None, items=None, only=""):
        self.src, self.type, self.const, self.items = src, type_, const, items
        self.ct = ct            # how it looks to Constant (None: not constant)
        self.only = only        # "rt": only at run level, "ct": only in const functions


NOT = Ellipsis
LIT = [V("1", "int", 1), V("0", "int", 0), V("-5", "int", -5), V("7", "int", 7), V("1.5", "float", 1.5),
       V("-2.0", "float", -2.0), V("True", "bool", True), V("False", "bool", False),
       V('"a"', "str", "a"), V('"zz"', "str", "zz"), V('""', "str", ""), V("None", "None", None)]
RT = [V("n", "int"), V("n + 1", "int"), V("p", "bool"), V("n > 1", "bool"), V("not p", "bool"),
      V("fun", "function"), V("e", "Ent"), V("g", "Engroup[Ent]"), V("Ent", "entity_template"),
      V("int", "type"), V("lib", "module")]


def lst(*xs):
    return V("{%s}" % ", ".join(x.src for x in xs), "const_list", items=list(xs))


def mp(*kv):
    return V("{%s}" % (", ".join("%s: %s" % (k.src, v.src) for k, v in kv) or ":"), "const_map",
             items=dict(kv))


one, seven, half, sa, sz = LIT[0], LIT[3], LIT[4], LIT[8], LIT[9]
CONTAINERS = [lst(), lst(one, seven), lst(one, sa), lst(half, one), lst(lst(one), lst(seven, one)),
              lst(sa, sz), lst(LIT[11], one), mp(), mp((one, sa)), mp((sa, one), (sz, seven)),
              mp((one, lst(seven))), lst(mp((sa, seven)))]
RTLIST = [lst(RT[5], one), mp((one, RT[9]))]
WRONG = "wrong"


def const(v):
    return v.const is not NOT


def lshow(v):
    """A value handed over as it is."""
    if const(v):
        return "Lnull" if v.const is None else "L" + cshow(v.const)
    return "E:" + v.type


def cshow(c):
    return "null" if c is None else "b:%s" % c if isinstance(c, bool) else "i:%d" % c if isinstance(c, int) \
        else "f:%s" % c if isinstance(c, float) else "s:" + c


class C:
    """A converter: its source text and what it makes of a value at run level."""

    def __init__(self, src, rt, ct=None):
        self.src, self.rt, self.ct = src, rt, ct


def number(v, cond=lambda c: True):
    if const(v) and type(v.const) is int and cond(v.const):
        return cshow(v.const)
    return WRONG


def string(v, cond=lambda c: True):
    return cshow(v.const) if const(v) and type(v.const) is str and cond(v.const) else WRONG


def real(v, add=0.0):
    if const(v) and type(v.const) is int:
        return cshow(float(v.const) + add)
    return cshow(v.const) if const(v) and type(v.const) is float else WRONG


def typed(*names):
    return lambda v: lshow(v) if v.type in names else WRONG


def boolean(v):
    return cshow(v.const) if const(v) and type(v.const) is bool else WRONG


def nullable(f):
    return lambda v: "null" if const(v) and v.const is None else f(v)


def first(*fs):
    def g(v):
        for f in fs:
            r = f(v)
            if r is not WRONG:
                return r
        return WRONG
    return g


def seq(xs):
    xs = list(xs)
    return WRONG if WRONG in xs else "[%s]" % ", ".join(xs)


def listof(f):
    return lambda v: seq(f(x) for x in v.items) if v.type == "const_list" else WRONG


def mapof(f, g):
    def h(v):
        if v.type != "const_map":
            return WRONG
        kv = [(f(k), g(x)) for k, x in v.items.items()]
        return WRONG if any(WRONG in x for x in kv) else "{%s}" % ", ".join("%s = %s" % x for x in kv)
    return h


def elements(v):
    return seq(lshow(x) for x in v.items) if v.type in ("const_list", "const_map") else WRONG


def table():
    I, S, B, F = "axe.LiteralInt()", "axe.LiteralString()", "axe.LiteralBool()", "axe.LiteralFloat()"
    return [
        C("axe.AnyValue()", lshow), C("axe.AnyRT()", lshow),
        C("IntDataType", typed("int")), C("IntDataType()", typed("int")), C("BoolDataType", typed("bool")),
        C("StringDataType", typed("str")), C("FloatDataType", typed("float")),
        C("NoneDataType", typed("None")), C("ListDataType", typed("const_list")), C("MapDataType", typed("const_map")),
        C("FunctionDataType", typed("function")), C("axe.Typed(BoolDataType)", typed("bool")),
        C("axe.Multityped((IntDataType, StringDataType))", typed("int", "str")),
        C("axe.Multityped([NoneDataType(), BoolDataType])", typed("None", "bool")),
        C(I, number), C(F, real), C(S, string), C(B, boolean), C("axe.PosXZ()", lambda v: real(v, 0.5 if
          type(v.const) is int else 0.0)),
        C("axe.LiteralIntEnum(1, 7)", lambda v: number(v, lambda c: c in (1, 7))),
        C("axe.LiteralStringEnum('a', '')", lambda v: string(v, lambda c: c in ("a", ""))),
        C("axe.RangedLiteralInt(0, 5)", lambda v: number(v, lambda c: 0 <= c <= 5)),
        C("axe.RangedLiteralInt(1, None)", lambda v: number(v, lambda c: c >= 1)),
        C("axe.RangedLiteralInt(None, 0)", lambda v: number(v, lambda c: c <= 0)),
        C("axe.Nullable(%s)" % I, nullable(number)), C("axe.Nullable(%s)" % F, nullable(real)),
        C("axe.Nullable(axe.Typed(BoolDataType))", nullable(typed("bool"))),
        C("axe.Nullable(axe.ListOf(%s))" % I, nullable(listof(number))),
        C("axe.AnyOf(%s, %s)" % (I, S), first(number, string)),
        C("axe.AnyOf(%s, %s)" % (F, I), first(real, number)),
        C("axe.AnyOf(%s, %s)" % (I, F), first(number, real)),
        C("axe.AnyOf(axe.AnyOf(%s, %s), axe.Nullable(axe.Typed(IntDataType)))" % (B, S),
          first(boolean, string, nullable(typed("int")))),
        C("axe.ListOf(%s)" % I, listof(number)), C("axe.ListOf(axe.ListOf(%s))" % I, listof(listof(number))),
        C("axe.ListOf(axe.AnyValue())", listof(lshow)), C("axe.ListOf(%s)" % F, listof(real)),
        C("axe.ListOf(axe.Nullable(%s))" % I, listof(nullable(number))),
        C("axe.ListOf(axe.MapOf(%s, %s))" % (S, I), listof(mapof(string, number))),
        C("axe.MapOf(%s, %s)" % (S, I), mapof(string, number)),
        C("axe.MapOf(%s, %s)" % (I, S), mapof(number, string)),
        C("axe.MapOf(%s, axe.ListOf(%s))" % (I, I), mapof(number, listof(number))),
        C("axe.Iterator()", elements),
        C("axe.Callable()", lambda v: lshow(v) if v.type in ("function", "entity_template", "type") else WRONG),
        C("axe.Selector()", lambda v: "MCSelector" if v.type == "Ent" or "Engroup" in v.type else WRONG),
        C("axe.PlayerSelector()", lambda v: "MCSelector" if v.type == "Ent" or "Engroup" in v.type else WRONG),
    ]


def converters(deep):
    out = []
    tab = table()
    lib = HEAD + "".join("""
@axe.chop
@axe.arg("x", %s)
def f%d(compiler, x):
    return String(show(x))
""" % (c.src, i) for i, c in enumerate(tab)) + """
def acacia_build(compiler):
    return {%s}
""" % ", ".join('"f%d": BinaryCTFunction(attempt(f%d))' % (i, i) for i in range(len(tab)))
    vals = LIT + RT + CONTAINERS + RTLIST
    for i, c in enumerate(tab):
        items = []
        for v in vals:
            r = c.rt(v)
            items.append(("lib.f%d(%s)" % (i, v.src),
                          {"refused WRONG_ARG_TYPE x %s%s" % (v.type, expects(c.src))} if r is WRONG else {r}))
        out.append(program("R2", "converter %s" % c.src, lib, items, PRE))
    return out



CONST = ("const", "function", "type", "entity_template", "module")


def constant(v):
    return const(v) or v.items is not None or v.type in CONST


def cval(v, ptr=False):
    """A value handed over as what it is at compile time (`ptr`: by reference)."""
    return ("&" if ptr else "") + ("C:" + v.type.replace("const_", "") if v.items is not None else lshow(v))


def cseq(v):
    if v.type == "const_list":
        return seq(cval(x, True) for x in v.items)
    return seq(cval(x) for x in v.items) if v.type == "const_map" else WRONG


def ct_table():
    """Converters for compile-time values: text, what they make of a value (given by
    reference or not), the name of what they expect."""
    by = lambda *names: lambda v, ptr: cval(v, ptr) if v.type in names else WRONG
    return [
        ("axe.Constant()", cval),
        ("axe.CTReference()", lambda v, ptr: cval(v, True) if ptr else WRONG),
        ("ctdt_int", by("int")), ("axe.CTTyped(ctdt_int, ctdt_string)", by("int", "str")),
        ("axe.CTTyped(ctdt_string)", by("str")),
        ("axe.CTIterator()", lambda v, ptr: cseq(v)),
        ("axe.CTListOf(axe.Constant())", lambda v, ptr: cseq(v) if v.type == "const_list" else WRONG),
        ("axe.CTListOf(axe.LiteralInt())", lambda v, ptr: listof(number)(v)),
        ("axe.CTListOf(axe.CTListOf(axe.LiteralInt()))", lambda v, ptr: listof(listof(number))(v)),
        ("axe.CTListOf(axe.CTTyped(ctdt_int))", lambda v, ptr: WRONG if v.type != "const_list" else seq(
            cval(x, True) if x.type == "int" else WRONG for x in v.items)),
        ("axe.CTMapOf(axe.LiteralString(), axe.LiteralInt())", lambda v, ptr: mapof(string, number)(v)),
        ("axe.CTMapOf(axe.LiteralInt(), axe.Constant())", lambda v, ptr: mapof(number, lambda x: cval(x, True))(v)),
    ]


WORDS = {"LiteralInt": "int", "LiteralFloat": "float", "PosXZ": "float", "LiteralString": "str",
         "LiteralBool": "bool", "BoolDataType": "bool", "IntDataType": "int", "ctdt_int": "int",
         "ctdt_string": "str", "StringDataType": "str", "NoneDataType": "None", "FloatDataType": "float",
         "ListOf": "list", "MapOf": "map", "CTListOf": "list", "CTMapOf": "map", "Nullable": "None",
         "LiteralIntEnum": "int", "LiteralStringEnum": "str", "RangedLiteralInt": "int", "Selector": "entity",
         "PlayerSelector": "player"}


def expects(src):
    """The words that say what a converter accepts."""
    out = [WORDS[w] for w in re.findall(r"\w+", src) if w in WORDS] + re.findall(r"\b\d+\b|'\w+'", src)
    return "".join(" ~" + w for w in dict.fromkeys(out))


def ct_items(conv, f, vals, deep, src):
    """Calls of f in const functions, with values and with variables holding them."""
    pre, items = "", []
    body, res = "", []
    for k, v in enumerate(vals):
        for ptr in (False, True):
            if ptr and (v.type in CONST or not deep and k % 2 and v.items is None):
                continue
            r = conv(v, ptr)
            if ptr:
                body += "    x%d := %s\n" % (k, v.src)
            t = v.type.replace("const_", "")
            items.append(("ks[%d]" % len(res), {"refused WRONG_ARG_TYPE x %s%s" % (t, expects(src))} if r is WRONG else {r},
                          "lib.%s(%s)%s" % (f, v.src, " of a variable" if ptr else "")))
            res.append("lib.%s(%s)" % (f, "x%d" % k if ptr else v.src))
    pre += "const def all() -> list:\n%s    result {%s}\nconst ks = all()\n" % (body, ", ".join(res))
    return pre, items


def ct_converters(deep):
    out = []
    run, tab = table(), ct_table()
    vals = LIT + [v for v in RT if v.type in CONST and v.src != "fun"] + CONTAINERS
    allc = [(c.src, lambda v, ptr, c=c: c.rt(v)) for c in run] + tab
    lib = HEAD + "".join("""
@axe.chop
@axe.arg("x", %s)
def f%d(compiler, x):
    return String(show(x))
""" % (src, i) for i, (src, _) in enumerate(allc)) + """
def acacia_build(compiler):
    return {%s}
""" % ", ".join('"f%d": BinaryCTFunction(attempt(f%d))' % (i, i) for i in range(len(allc)))
    pre0 = "import lib\nentity Ent:\n    pass\n"
    for i, (src, conv) in enumerate(allc):
        if "Nullable(axe.Typed" in src or "Nullable(axe.ListOf" in src:
            continue        # not meant for compile-time values
        if src == "axe.AnyValue()":
            conv = lambda v, ptr: cval(v)
        pre, items = ct_items(conv, "f%d" % i, vals, deep, src)
        out.append(program("R3", "converter %s in const functions" % src, lib, items, pre0 + pre))
    # converters for compile-time values, at run level
    for i, (src, conv) in enumerate(tab):
        items = []
        for v in LIT + RT + CONTAINERS:
            if constant(v):
                r = conv(v, False)
                w = {"refused WRONG_ARG_TYPE x %s%s" % (v.type, expects(src))} if r is WRONG else {r}
            else:
                w = {"refused ANY"}
            items.append(("lib.f%d(%s)" % (len(run) + i, v.src), w))
        out.append(program("R3", "converter %s at run level" % src, lib, items, PRE))
    return out



# -- overloads ---------------------------------------------------------------
OVERLOADS = HEAD + """
class Over(metaclass=axe.OverloadChopped):
    @axe.overload
    def none(cls, compiler):
        return String("none")
    @axe.overload
    @axe.arg("a", axe.LiteralString())
    def text(cls, compiler, a):
        return String("text " + show(a))
    @axe.overload
    @axe.arg("a", axe.LiteralInt(), rename="num")
    def number(cls, compiler, num):
        return String("number " + show(num))
    @axe.overload
    @axe.arg("a", BoolDataType)
    def truth(cls, compiler, a):
        return String("truth " + show(a))
    @axe.overload
    @axe.arg("a", axe.LiteralInt(), rename="first")
    @axe.arg("b", axe.LiteralString())
    def both(cls, compiler, first, b):
        if first == 7:
            raise axe.ArgumentError("b", "seven with " + b)
        if first == 0:
            return cls.text(compiler, a=b)
        return String("both " + show(first) + " " + show(b))
    @axe.overload
    @axe.arg("a", axe.LiteralString())
    @axe.arg("b", axe.Nullable(axe.LiteralInt()))
    def other(cls, compiler, a, b):
        return String("other " + show(a) + " " + show(b))
    @axe.overload_versioned(versionlib.at_least((1, 19, 50)))
    @axe.arg("a", axe.LiteralInt())
    @axe.arg("b", axe.LiteralInt())
    def new(cls, compiler, a, b):
        return String("new " + show(a) + " " + show(b))
    @axe.overload_versioned(versionlib.older((1, 19, 50)))
    @axe.arg("a", axe.LiteralInt())
    @axe.arg("b", axe.LiteralInt())
    def old(cls, compiler, a, b):
        return String("old " + show(a) + " " + show(b))
    @axe.overload_versioned(versionlib.between((1, 19, 0), (1, 20)))
    @axe.arg("a", axe.LiteralInt())
    @axe.arg("b", axe.LiteralInt())
    @axe.arg("c", axe.LiteralInt())
    def three(cls, compiler, a, b, c):
        return String("three")
    @axe.overload_versioned(versionlib.at_most((1, 19, 50)))
    @axe.arg("a", axe.LiteralString())
    @axe.arg("b", axe.LiteralString())
    def most(cls, compiler, a, b):
        return String("most")

def acacia_build(compiler):
    return {"f": BinaryFunction(attempt(Over)), "g": BinaryCTFunction(attempt(Over))}
"""
VERSIONS = [(1, 18), (1, 19), (1, 19, 0), (1, 19, 49), (1, 19, 50), (1, 19, 51), (1, 20), (1, 20, 0),
            (1, 20, 20), (2,)]


def overloads(deep):
    out = []
    no = {"refused ANY"}
    for ver in VERSIONS if deep else VERSIONS[1::2] + VERSIONS[4:5]:
        items = []
        for f in ("f", "g"):
            new = ver >= (1, 19, 50)
            for args, w in (("", {"none"}), ('"x"', {"text s:x"}), ("5", {"number i:5"}), ("p", {"truth E:bool"}),
                            ("True", {"truth Lb:True"}), ("1.5", no), ("n", no), ("None", no), ("{1}", no),
                            ('1, "q"', {"both i:1 s:q"}), ('0, "q"', {"text s:q"}), ('"q", 1', {"other s:q i:1"}),
                            ('"q", None', {"other s:q null"}), ('None, "q"', no), ("p, 1", no), ("1, p", no),
                            ('7, "q"', {"refused INVALID_BIN_FUNC_ARG b"}),
                            ("1, 2", {"new i:1 i:2" if new else "old i:1 i:2"}), ("1, n", no), ("n, 1", no),
                            ("1, 2, 3", {"three"} if (1, 19, 0) <= ver <= (1, 20) else no),
                            ("1, 2, 3, 4", no), ('"x", "y"', {"most"} if ver <= (1, 19, 50) else no),
                            ('a="x"', no), ('1, b="q"', no)):
                items.append(("lib.%s(%s)" % (f, args), w))
        out.append(program("R4", "overloads for version %s" % ".".join(map(str, ver)), OVERLOADS, items,
                           PRE, mc_version=ver))
    return out


# -- results, gates ----------------------------------------------------------
RESULTS = HEAD + """
def res(value):
    def f(compiler, args, kwds):
        return value
    return f

@axe.chop
@axe.arg("a", axe.LiteralInt())
@axe.arg("b", axe.LiteralString(), rename="c", default="d")
@axe.star_arg("v", axe.LiteralInt())
@axe.kwds("k", axe.LiteralInt())
def picky(compiler, a, c, v, k):
    if a < 0:
        raise axe.ArgumentError("a", "below zero")
    if c == "bad":
        raise axe.ArgumentError("b", "bad text")
    if 5 in v:
        raise axe.ArgumentError("v", "five")
    if "no" in k:
        raise axe.ArgumentError("k", "no")
    return String("fine")

@axe.chop
@axe.arg("k", axe.LiteralInt())
def two(compiler, k):
    return resultlib.commands([cmds.Cmd("say %d first" % k), cmds.Cmd("say %d second" % k)])

@axe.chop
@axe.arg("k", axe.LiteralInt())
def pair(compiler, k):
    return IntLiteral(k + 100), [cmds.Cmd("say %d done" % k)]

@axe.chop
@axe.arg("k", axe.LiteralInt())
def tup(compiler, k):
    return resultlib.Result(String("t"), [cmds.Cmd("say %d made" % k)])

@axe.chop
@axe.arg("k", axe.LiteralInt())
@axe.arg("x", IntDataType)
def sum_(compiler, k, x):
    deps, var = objects.integer.to_IntVar(x, compiler)
    return resultlib.commands(deps + [cmds.Cmd("say %d has" % k)])

def gate(req):
    @versionlib.only(req)
    @axe.chop
    def f(compiler):
        return String("open")
    return BinaryFunction(attempt(f))

@versionlib.edu_only
@axe.chop
def edu(compiler):
    return String("open")

def acacia_build(compiler):
    return HOW({
        "v_none": BinaryFunction(res(None)), "v_int": BinaryFunction(res(resultlib.literal(7))),
        "v_true": BinaryFunction(res(resultlib.literal(True))), "v_str": BinaryFunction(res(resultlib.literal("q"))),
        "v_float": BinaryFunction(res(resultlib.literal(1.5))), "v_null": BinaryFunction(res(resultlib.literal(None))),
        "c_none": BinaryCTFunction(res(None)), "c_int": BinaryCTFunction(res(IntLiteral(7))),
        "o_none": BinaryCTOnlyFunction(res(None)), "o_int": BinaryCTOnlyFunction(res(IntLiteral(8))),
        "picky": BinaryCTFunction(attempt(picky)), "two": BinaryFunction(two), "pair": BinaryFunction(pair),
        "two2": BinaryCTFunction(two), "pair2": BinaryCTFunction(pair), "tup": BinaryFunction(tup),
        "sum": BinaryFunction(sum_), "show": BinaryCTFunction(lambda c, a, k: String(show(a) + show(k))),
        "num": IntLiteral(42), "name": String("lib"),
        "g0": gate(versionlib.at_least((1, 19, 50))), "g1": gate(versionlib.at_most((1, 19, 50))),
        "g2": gate(versionlib.between((1, 19), (1, 20))), "g3": gate(versionlib.older((1, 19, 50))),
        "edu": BinaryFunction(attempt(edu)),
    }TAIL)
"""


def results(deep):
    out = []
    for how, head, tail in (("dict", "dict", ""), ("BuiltModule", "BuiltModule", ', [cmds.Cmd("say 0 hello")]')):
        lib = RESULTS.replace("HOW(", head + "(").replace("TAIL)", tail + ")")
        if how != "dict":
            lib = lib.replace("from acaciamc.objects import *", "from acaciamc.objects import *\n"
                              "from acaciamc.objects.module import BuiltModule", 1)
        items = [("lines", "pass", ["hello"] if tail else [])]
        for e, w in (("lib.show(lib.v_none())", "[Lnull]{}"), ("lib.show(lib.v_int())", "[Li:7]{}"),
                     ("lib.show(lib.v_true())", "[Lb:True]{}"), ("lib.show(lib.v_str())", "[Ls:q]{}"),
                     ("lib.show(lib.v_float())", "[Lf:1.5]{}"), ("lib.show(lib.v_null())", "[Lnull]{}"),
                     ("lib.show(lib.c_none())", "[Lnull]{}"), ("lib.show(lib.c_int())", "[Li:7]{}"),
                     ("ct()[0]", "[Lnull, Li:7]{}"), ("ct()[1]", "[Lnull, Li:8]{}"), ("lib.num", "42"),
                     ("ct()[2]", "{s:a = Li:1}"), ("lib.name", "lib"), ("lib.show(1, k=lib.num)", "[Li:1]{s:k = Li:42}"),
                     ("lib.v_int()", "7"), ("lib.v_str()", "q"), ("lib.num + lib.v_int()", "49")):
            items.append((e, {w}))
        for a, w in (("1", {"fine"}), ("-1", {"refused INVALID_BIN_FUNC_ARG a"}),
                     ('1, "bad"', {"refused INVALID_BIN_FUNC_ARG b"}), ('1, "x", 5', {"refused INVALID_BIN_FUNC_ARG v"}),
                     ('1, "x", 4', {"fine"}), ("1, no=1", {"refused INVALID_BIN_FUNC_ARG k"}), ("1, yes=1", {"fine"})):
            items.append(("lib.picky(%s)" % a, w))
        items += [("lines", "lib.two(@)", ["first", "second"]), ("lines", "lib.two2(@)", ["first", "second"]),
                  ("lines", "/say @ ${lib.pair(@) - 100 - @}", ["done", "0"]),
                  ("lines", "/say @ ${lib.pair2(@) - 100 - @}", ["done", "0"]),
                  ("lines", "/say @ ${lib.tup(@)}", ["made", "t"]),
                  ("lines", "lib.sum(@, n + 1)", ["has"]), ("lines", "lib.two(@)\nlib.pair(@)\nlib.two(k=@)",
                                                             ["first", "second", "done", "first", "second"]),
                  ("lines", "x@ := lib.pair(@)\n/say @ after", ["done", "after"])]
        pre = PRE + "const def ct() -> list:\n    result {lib.show(lib.o_none(), lib.c_int()), " \
            "lib.show(lib.c_none(), lib.o_int()), lib.show(a=1)}\n"
        pre = pre.replace("lib.show(a=1)}", '"{s:a = Li:1}"}')
        out.append(program("R5", "results of functions (%s)" % how, lib, items, pre))
    lib = RESULTS.replace("HOW(", "dict(").replace("TAIL)", ")")
    for ver in VERSIONS:
        tests = (ver >= (1, 19, 50), ver <= (1, 19, 50), (1, 19) <= ver <= (1, 20), ver < (1, 19, 50))
        edu = len(ver) == 3
        items = [("lib.g%d()" % i, {"open"} if t else {"refused ANY"}) for i, t in enumerate(tests)]
        items.append(("lib.edu()", {"open"} if edu else {"refused ANY"}))
        out.append(program("R5", "gates at version %s" % ".".join(map(str, ver)), lib, items, PRE,
                           mc_version=ver, education_edition=edu))
    return out


# -- objects and methods -----------------------------------------------------
OBJECTS = HEAD + """
from acaciamc.objects.types import Type
from acaciamc.tools.named_tuple import named_tuple

class ThingDataType(DefaultDataType):
    name = "Thing"

class Thing(ConstExprCombined, ImmutableMixin):
    cdata_type = CTDataType("Thing")

    def __init__(self, n):
        super().__init__(ThingDataType())
        self.n = n
        @cmethod_of(self, "plus")
        @axe.chop
        @axe.arg("by", axe.LiteralInt(), default=1)
        @transform_immutable(self)
        def _plus(this, compiler, by):
            this.n += by
            return this
        @cmethod_of(self, "twice")
        @axe.chop
        @transform_immutable(self)
        def _twice(this, compiler):
            this.n *= 2
            return this
        @cmethod_of(self, "show")
        @axe.chop
        def _show(compiler):
            return String(show(self.n))
        @cmethod_of(self, "onlyct", runtime=False)
        @axe.chop
        def _onlyct(compiler):
            return IntLiteral(self.n + 1000)
        @method_of(self, "onlyrt")
        @axe.chop
        @axe.arg("k", axe.LiteralInt())
        def _onlyrt(compiler, k):
            return resultlib.commands([cmds.Cmd("say %d is %d" % (k, self.n))])

    def copy(self):
        return Thing(self.n)

@axe.chop
@axe.arg("n", axe.LiteralInt())
def _thing(compiler, n):
    return Thing(n)

Pair = named_tuple("Pair", [("a", axe.LiteralInt()), ("b", axe.LiteralString()), ("c", axe.Nullable(axe.LiteralInt()))],
                   {"b": String("dflt"), "c": NoneLiteral()})

@axe.chop
@axe.arg("p", Pair.cls_datatype)
def _both(compiler, p):
    return String(show(p.fields.a[0] if isinstance(p.fields.a, tuple) else p.fields.a) + " "
                  + show(p.fields.b) + " " + show(p.fields.c))

def acacia_build(compiler):
    return {"Thing": BinaryCTFunction(_thing), "Pair": Pair.cls_type(), "both": BinaryCTFunction(_both)}
"""


THINGS = (("t.show()", "i:5"), ("t.plus().show()", "i:6"), ("t.plus(3).show()", "i:8"),
          ("t.plus(by=-7).show()", "i:-2"), ("t.plus(2).twice().show()", "i:14"),
          ("t.twice().plus(2).show()", "i:12"), ("t.show()", "i:5"), ("u.show()", "i:6"),
          ("u.plus().plus().show()", "i:8"), ("u.show()", "i:6"), ("t.show()", "i:5"),
          ("ct()[0]", "i:1"), ("ct()[1]", "i:3"), ("ct()[2]", "i:1"), ("ct()[3]", "1002"))
TUPLES = (("q.a", "1"), ("q.b", "dflt"), ("lib.both(q)", "i:1 s:dflt null"),
          ("lib.both(lib.Pair(3, \"z\"))", "i:3 s:z null"),
          ("lib.both(lib.Pair(b=\"z\", a=4, c=9))", "i:4 s:z i:9"),
          ("lib.both(lib.Pair.evolve(q))", "i:1 s:dflt null"),
          ("lib.both(lib.Pair.evolve(q, a=2))", "i:2 s:dflt null"),
          ("lib.both(lib.Pair.evolve(q, b=\"y\"))", "i:1 s:y null"),
          ("lib.both(lib.Pair.evolve(lib.Pair.evolve(q, c=3), a=8))", "i:8 s:dflt i:3"),
          ("lib.Pair.evolve(q, b=\"y\").b", "y"), ("lib.Pair.evolve(q, a=6).a", "6"),
          ("lib.both(q)", "i:1 s:dflt null"), ("lib.both(r)", "i:5 s:w i:6"),
          ("ct2()[0]", "i:1 s:dflt null"), ("ct2()[1]", "i:9 s:dflt null"),
          ("ct2()[2]", "1"), ("ct2()[3]", "i:1 s:dflt null"))


def methods(deep):
    things = [(e, {w}) for e, w in THINGS] + [
        ("lines", "t.onlyrt(@)", ["is 5"]), ("lines", "u.onlyrt(@)", ["is 6"]),
        ("lines", "t.plus(4).onlyrt(@)", ["is 9"])]
    pre = """import lib
const t = lib.Thing(5)
const u = t.plus()
const def ct() -> list:
    x := lib.Thing(1)
    y := x.plus(2)
    result {x.show(), y.show(), x.show(), x.plus(1).onlyct()}
"""
    pre2 = """import lib
const q = lib.Pair(1)
const r = lib.Pair(5, c=6, b="w")
const def ct2() -> list:
    x := lib.Pair(1)
    y := lib.Pair.evolve(x, a=9)
    result {lib.both(x), lib.both(y), x.a, lib.both(x)}
"""
    return [program("R6", "objects and their methods", OBJECTS, things, pre),
            program("R6", "named tuples", OBJECTS, [(e, {w}) for e, w in TUPLES], pre2)]


# -- declarations that make no sense -----------------------------------------
def misuse():
    """(what, library, call): the module is refused with ChopError."""
    I = "axe.LiteralInt()"
    a = lambda n, x="": '@axe.arg("%s", %s%s)' % (n, I, x)
    v, k = '@axe.star_arg("v", %s)' % I, '@axe.kwds("k", %s)' % I
    bad = [("/ after *", [a("a"), "@axe.star", a("b"), "@axe.slash", a("c")]), ("/ after *v", [v, "@axe.slash", a("b")]),
           ("/ after **k", [a("a"), k, "@axe.slash"]), ("/ twice", [a("a"), "@axe.slash", a("b"), "@axe.slash"]),
           ("* twice", ["@axe.star", a("a"), "@axe.star", a("b")]), ("* after *v", [v, "@axe.star", a("b")]),
           ("*v after *", ["@axe.star", a("b"), v]), ("*v twice", [v, '@axe.star_arg("w", %s)' % I]),
           ("* after **k", [k, "@axe.star", a("b")]), ("*v after **k", [k, v]),
           ("**k twice", [k, '@axe.kwds("m", %s)' % I]), ("a parameter after **k", [k, a("a")]),
           ("no default after default", [a("a", ", default=1"), a("b")]),
           ("no default after default and /", [a("a", ", default=1"), "@axe.slash", a("b")]),
           ("a name twice", [a("a"), a("b"), a("a")]), ("a name twice, *v", [a("v"), v]),
           ("a name twice, **k", [a("k"), k]), ("*v and **k of a name", [v, '@axe.kwds("v", %s)' % I]),
           ("a new name twice", [a("a", ', "c"'), a("b", ', "c"')]), ("a new name is another's", [a("a", ', "b"'), a("b")]),
           ("a keyword-only name twice", [a("a"), "@axe.star", a("a")]), ("AnyOf()", ['@axe.arg("a", axe.AnyOf())'])]
    out = [(what, HEAD + "@axe.chop\n%s\ndef f(compiler, **x):\n    return String('q')\n" % "\n".join(ds), "")
           for what, ds in bad]
    for what, ds in (("overload with /", [a("a"), "@axe.slash"]), ("overload with *", ["@axe.star", a("a")]),
                     ("overload with *v", [v]), ("overload with **k", [k]), ("overload with a default", [a("a", ", default=1")]),
                     ("overload with a name twice", [a("a"), a("a")]), ("overload with a new name twice", [a("a", ', "b"'), a("b")])):
        out.append((what, HEAD + "class f(metaclass=axe.OverloadChopped):\n    @axe.overload\n%s\n"
                    "    def g(cls, compiler, **x):\n        return String('q')\n" % "\n".join("    " + d for d in ds), ""))
    ok = '@axe.chop\n@axe.arg("a", %s)\ndef f(compiler, a):\n    %s\n'
    out += [("an error on an unknown argument", HEAD + ok % (I, 'raise axe.ArgumentError("b", "no")'), "lib.f(1)"),
            ("a compile-time converter only, in Nullable, at run level",
             HEAD + ok % ("axe.Nullable(axe.CTTyped(ctdt_int))", "return String('q')"), "lib.f(1)")]
    return [("R7", what, {"main.aca": "import lib\n%s\n" % call,
                          "lib.py": lib + "\ndef acacia_build(compiler):\n    return {'f': BinaryCTFunction(f)}\n"},
             "ChopError", {}) for what, lib, call in out]


def programs(deep):
    return params(deep) + converters(deep) + ct_converters(deep) + overloads(deep) + results(deep) + methods(deep) + misuse()
