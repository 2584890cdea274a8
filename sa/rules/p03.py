"""P03: the operator protocol is total and internal signals never get out."""
import ast

from ..ctx import Ctx
from ..exc import Escapes
from ..repo import FuncInfo, ClassInfo, AnalysisError, walk_own, dotted
from ..util import own_calls

SIGNALS = ("InvalidOpError", "CTRTConversionError")


def signal_classes(repo):
    """Exception classes the compiler uses internally: everything derived from
    Exception except the user-facing error class (it has an `ErrorType`)."""
    out = []
    for c in repo.classes:
        if not any(str(getattr(b, "dotted", "")).split(".")[-1] in
                   ("Exception", "BaseException") for b in c.external_bases()):
            continue
        init = c.find("__init__")
        if init is not None and any(
                p.annotation is not None and "ErrorType" in ast.unparse(p.annotation)
                for p in init.params):
            continue
        out.append(c)
    return out


def protocol(cx):
    """Methods whose base implementation only refuses: {(base class, name)}."""
    repo = cx.repo
    inv = repo.cls("InvalidOpError")
    out = {}
    for c in repo.classes:
        for name, f in c.methods.items():
            if any(isinstance(b, ClassInfo) and b.find(name) for b in c.bases):
                continue
            body = [s for s in f.node.body if not (
                isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
            refuse = len(body) == 1 and isinstance(body[0], ast.Raise) and \
                body[0].exc is not None and repo.resolve(
                    body[0].exc.func if isinstance(body[0].exc, ast.Call)
                    else body[0].exc, f) is inv
            ann = f.node.returns
            value = ann is not None and not _maybe_none(ann)
            if refuse or (value and c.all_subclasses()):
                out[(c, name)] = (f, refuse)
    return out


def _maybe_none(ann):
    if isinstance(ann, ast.Constant) and ann.value is None:
        return True
    s = ast.unparse(ann)
    return "Optional" in s or "None" in s or s.strip("'\"") in ("Any", "NoReturn")


def bool_classes(cx):
    return data_type_classes(cx).get("BoolDataType", set())


def data_type_classes(cx):
    """data type class name -> expression classes constructed with it"""
    repo = cx.repo
    base = repo.cls("AcaciaExpr")
    out = {}
    for c in [base] + base.all_subclasses():
        init = c.find("__init__")
        if init is None:
            continue
        for n in own_calls(init):
            if isinstance(n.func, ast.Attribute) and n.func.attr == "__init__" and n.args:
                a = n.args[0]
                r = repo.resolve(a.func, init) if isinstance(a, ast.Call) else None
                if isinstance(r, ClassInfo):
                    out.setdefault(r.name, set()).add(c)
    return out


def returns_none(cx, f):
    """Return node/falloff witnesses where f yields None implicitly or not."""
    g = cx.flow.cfg(getattr(f, "target", f))
    bad = []
    if g.falloff is not None and g.falloff in g.reachable:
        bad.append(("falls off its end", f.node))
    for n in g.nodes:
        if n in g.reachable and isinstance(n.ast, ast.Return) and n.kind == "stmt":
            v = n.ast.value
            if v is None or isinstance(v, ast.Constant) and v.value is None:
                bad.append(("returns None", n.ast))
    return bad


def check(chk, repo):
    cx = Ctx(repo)
    chk.rule("R1", "every implementation of an operator or conversion either "
                   "yields a value or refuses explicitly, on every path")
    chk.rule("R2", "no internal signal escapes from processing a program "
                   "(visitors, library functions, argument handling, the compiler)")
    chk.rule("R3", "every boolean expression class can be negated")

    # R1 -----------------------------------------------------------------
    prot = protocol(cx)
    if not any(n == "add" for _, n in prot) or not any(n == "cadd" for _, n in prot):
        raise AnalysisError("operator protocol not found")
    for (c, name), (bf, _ref) in sorted(prot.items(), key=lambda x: (x[0][0].id, x[0][1])):
        seen = set()
        for k in c.all_subclasses():
            if name not in k.methods and name not in k.attrs:
                continue
            f = k.find(name)
            if f is None or f in seen or f.is_abstract_like():
                continue
            seen.add(f)
            if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(f.node)):
                continue
            w = returns_none(cx, f)
            if w:
                what, node = w[0]
                chk.bad("R1", "%s.%s" % (k.qual, name), repo.where(node, f),
                        "%s %s instead of a value or a refusal" % (f.qual, what))
            else:
                chk.good("R1", "%s.%s" % (k.qual, name), repo.where(f.node, f))

    # R3 -----------------------------------------------------------------
    inv = repo.cls("InvalidOpError")
    bools = bool_classes(cx)
    base = repo.cls("AcaciaExpr")
    basenot = base.find("unarynot")
    for k in sorted(bools, key=lambda c: c.id):
        f = k.find("unarynot")
        # const classes get the run time operator from the compile time one
        c2 = k.find("cunarynot")
        own = f is not None and f is not basenot
        own2 = c2 is not None and c2.cls is not repo.cls("CTObj")
        if not own and not own2:
            chk.bad("R3", k.qual, repo.where(k.node, k.module),
                    "boolean expressions of class %s have no \"not\"" % k.name)
        else:
            chk.good("R3", k.qual, repo.where(k.node, k.module))

    # R2 -----------------------------------------------------------------
    dts = data_type_classes(cx)

    def types_of(e, f):
        cs, ok = cx.cr.receiver_classes(e, f)
        cs = [c for c in cs if isinstance(c, ClassInfo)]
        if not ok or not cs:
            return None
        out = set()
        for c in cs:
            t = {d for d, ks in dts.items() if c in ks}
            if not t:
                return None
            out |= t
        return out

    tracked = [c for c in signal_classes(repo) if c.name != "ChopError"]
    if inv not in tracked:
        raise AnalysisError("internal signals not found")
    tables = {repo.cls("SymbolTable")}
    conv = repo.cls("CTRTConversionError")

    def skip(call, f, exc):
        fn = call.func
        if not isinstance(fn, ast.Attribute):
            return False
        if exc is conv and fn.attr in ("lookup", "clookup"):
            # an attribute the compiler defined itself, asked for by its name
            if call.args and _declared_name(cx, call.args[0], f):
                return True
            # asking whether a name exists in a table of one's own
            kw = {k.arg: k.value for k in call.keywords}
            if all(isinstance(kw.get(x), ast.Constant) and kw[x].value is False
                   for x in ("use_outer", "use_builtins")) and _own_table(cx, fn.value, f):
                return True
        if exc is inv:
            if fn.attr == "unarynot":
                return True      # R3, operands are booleans
            if fn.attr == "compare" and len(call.args) >= 2:
                a = types_of(fn.value, f)
                b = types_of(call.args[1], f)
                if a and a == b and len(a) == 1:
                    return True
        return False

    es = Escapes(cx, tracked, skip=skip)
    arg_err = repo.cls("ArgumentError")
    roots = []
    for name in ("Generator", "CTExecuter"):
        c = repo.cls(name)
        for n, f in c.methods.items():
            if n.startswith("visit") or n in ("parse", "call_inline_func",
                                              "ccall_const_func", "call_function"):
                roots.append((f, ()))
    comp = repo.cls("Compiler")
    for n, f in comp.methods.items():
        roots.append((f, ()))
    chopped = set()
    for f in repo.functions:
        ds = [d for d in f.decorator_names() if d]
        if any(d.split(".")[-1] in ("chop", "overload", "overload_versioned") for d in ds):
            roots.append((f, (arg_err,)))
            chopped.add(f)
    for c in repo.classes:
        for n in ("__call__",):
            f = c.methods.get(n)
            if f is not None and c.module.name.endswith("tools.axe"):
                roots.append((f, ()))
    for f in repo.functions:
        if f.name in ("acacia_build", "execute") and f.cls is None and f.parent is None \
                and ".modules." in f.module.name:
            roots.append((f, ()))
    for f, allowed in roots:
        for exc in tracked:
            if exc in allowed:
                continue
            if exc in es.esc[f]:
                chk.bad("R2", "%s <- %s" % (f.qual, exc.name), repo.where(f.node, f),
                        "%s escapes: %s" % (exc.name, es.chain(f, exc)))
            else:
                chk.good("R2", "%s <- %s" % (f.qual, exc.name), repo.where(f.node, f))
    # the argument signal must be turned into a diagnostic where library
    # implementations are called
    chk.count("roots", len(roots))
    chk.count("protocol methods", len(prot))
    chk.count("library implementations", len(chopped))
    chk.floor("R1", 120)
    chk.floor("R2", 900)
    chk.floor("R3", 6)


def _declared_name(cx, e, f):
    """A name that comes from library code and not from the program."""
    vs, ok = cx.vals.possible(e, f)
    if ok and vs and all(isinstance(v, str) for v in vs):
        return True
    return f.parent is not None and isinstance(e, ast.Name) and _from_outside(e.id, f, set())


def _from_outside(name, f, seen):
    """The local variable only ever holds what is made of variables of the enclosing
    functions (for a library: of its declarations), nothing of it from a parameter."""
    if name in seen:
        return True
    seen.add(name)
    if any(p.name == name for p in f.params):
        return False
    defs = []
    for n in walk_own(f.node):
        if isinstance(n, (ast.For, ast.comprehension)):
            t, v = [n.target], n.iter
        elif isinstance(n, ast.Assign):
            t, v = n.targets, n.value
        elif isinstance(n, (ast.NamedExpr, ast.AnnAssign)) and n.value is not None:
            t, v = [n.target], n.value
        elif isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store):
            defs.append((n, None))
            continue
        else:
            continue
        for x in t:
            for y in ast.walk(x):
                if isinstance(y, ast.Name) and y.id == name and isinstance(y.ctx, ast.Store):
                    defs.append((y, v))
    got = {y for y, v in defs if v is not None}
    if not got or any(v is None and y not in got for y, v in defs):
        return False
    loc = f.local_names()
    for _, v in defs:
        for x in ast.walk(v) if v is not None else ():
            if isinstance(x, ast.Name) and x.id in loc and not _from_outside(x.id, f, seen):
                return False
            if isinstance(x, ast.Lambda):
                return False
    return True


def _own_table(cx, recv, f):
    """`recv` is an instance attribute that only ever holds tables made by the
    class itself (or the outer table of such a table)."""
    if not (isinstance(recv, ast.Attribute) and isinstance(recv.value, ast.Name)):
        return False
    cls = f.owner_class
    if cls is None:
        return False
    ok = False
    for m in cls.methods.values():
        for n in walk_own(m.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Attribute) and t.attr == recv.attr:
                        v = n.value
                        if isinstance(v, ast.Call) and isinstance(
                                cx.repo.resolve(v.func, m), ClassInfo):
                            ok = True
                        elif isinstance(v, ast.Attribute) and v.attr == "outer":
                            pass
                        elif isinstance(v, ast.Name):
                            pass   # restoring a saved one
                        else:
                            return False
    return ok
