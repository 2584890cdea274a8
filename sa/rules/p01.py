"""P01: every diagnostic the compiler can raise is renderable and located."""
import ast
import os
import string

from ..repo import AnalysisError, ClassInfo, FuncInfo, External, walk_own, dotted
from ..typed import Types
from ..vals import Vals
from ..util import (CallResolver, bind, const_str, own_calls, values_of,
                    param_names, local_assigns)


def load_lang(repo):
    d = os.path.join(repo.root, "acaciamc", "lang")
    if not os.path.isdir(d):
        raise AnalysisError("lang directory vanished")
    out = {}
    for f in sorted(os.listdir(d)):
        if f.endswith(".lang"):
            m = {}
            with open(os.path.join(d, f), encoding="utf-8") as fh:
                for i, line in enumerate(fh.read().splitlines(), 1):
                    line = line.strip()
                    if not line or line.startswith("#"):
                        continue
                    k, sep, v = line.partition(" = ")
                    m[k] = (v, i, bool(sep))
            out[f[:-5]] = m
    return out


def fields(text):
    """Placeholders of a str.format template; None if malformed."""
    try:
        out = set()
        for _, name, spec, _c in string.Formatter().parse(text):
            if name is not None:
                out.add(name.split(".")[0].split("[")[0])
                if spec:
                    out |= fields(spec) or set()
        return out
    except ValueError:
        return None


def percents(text):
    """Conversion characters of a printf template."""
    out, i = [], 0
    while i < len(text):
        if text[i] == "%":
            if text[i + 1:i + 2] == "%":
                i += 2
                continue
            j = i + 1
            while j < len(text) and text[j] in "-+ #0123456789.*":
                j += 1
            out.append(text[j:j + 1])
            i = j + 1
        else:
            i += 1
    return out


class Forwarders:
    """Functions that turn an ErrorType argument into a raised Error."""

    def __init__(self, repo, cr, errcls):
        self.repo, self.cr, self.errcls = repo, cr, errcls
        init = errcls.find("__init__")
        ps = init.params[1:]
        if not ps:
            raise AnalysisError("Error.__init__ takes no error type")
        self.map = {errcls: {"param": ps[0].name, "vararg": None, "own": set(),
                             "fixed": set(), "kw": any(p.kind == "kwarg" for p in ps)}}
        changed = True
        while changed:
            changed = False
            for f in repo.functions:
                if f in self.map:
                    continue
                for c in own_calls(f):
                    s = self.site(c, f)
                    if s is None:
                        continue
                    fw = self._as_forwarder(f, c, s)
                    if fw is not None:
                        self.map[f] = fw
                        changed = True
                        break

    def target(self, call, f):
        ts, _ = self.cr.targets(call, f)
        hits = [(t, b) for t, b in ts if t in self.map]
        return hits[0] if hits else None

    def site(self, call, f):
        """(forwarder, errtype expr or ('star', name), kwarg nodes, starkws)"""
        t = self.target(call, f)
        if t is None:
            return None
        fn, bound = t
        info = self.map[fn]
        callee = fn.find("__init__") if isinstance(fn, ClassInfo) else fn
        m, sp, sk, _ = bind(call, callee, True if isinstance(fn, ClassInfo) else bound)
        e = m.get(info["param"])
        if e is None and info["vararg"]:
            lst = m.get("*" + info["vararg"])
            e = lst[0] if lst else None
        if e is None:
            for a in call.args:
                if isinstance(a, ast.Starred) and isinstance(a.value, ast.Name):
                    e = ("star", a.value.id)
        own = set(p.name for p in callee.params if p.kind in ("pos", "posonly", "kw"))
        kws = {k.arg: k.value for k in call.keywords if k.arg and k.arg not in own}
        stars = [k.value for k in call.keywords if k.arg is None]
        # parameters of the forwarder that it re-passes under their own names
        for name in info["fixed"]:
            kws.setdefault(name, None)
        return fn, e, kws, stars

    def _as_forwarder(self, f, call, s):
        _fn, e, kws, stars = s
        kwp = next((p.name for p in f.params if p.kind == "kwarg"), None)
        fwd_kw = any(isinstance(x, ast.Name) and x.id == kwp for x in stars)
        base = {"own": set(), "fixed": set(k for k in kws), "kw": fwd_kw, "vararg": None,
                "param": None}
        if isinstance(e, tuple):
            va = next((p.name for p in f.params if p.kind == "vararg"), None)
            if e[1] == va:
                base["vararg"] = va
                return base
            return None
        if isinstance(e, ast.Name) and e.id in param_names(f):
            base["param"] = e.id
            return base
        return None


def dict_keys(expr, f):
    """(visible keys of a ** argument, whether that is all of them)"""
    out, ok = set(), True
    for v in values_of(expr, f):
        if isinstance(v, ast.Dict):
            for k in v.keys:
                s = const_str(k) if k is not None else None
                if s:
                    out.add(s)
                else:
                    ok = False
        elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "dict":
            out |= {k.arg for k in v.keywords if k.arg}
            if v.args or any(k.arg is None for k in v.keywords):
                ok = False
        else:
            ok = False
    if isinstance(expr, ast.Name) and isinstance(f, FuncInfo):
        for n in walk_own(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) \
                            and t.value.id == expr.id:
                        s = const_str(t.slice)
                        if s:
                            out.add(s)
                        else:
                            ok = False
            elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and \
                    n.value.id == expr.id and n.attr in ("update", "setdefault"):
                ok = False
    return out, ok


def check(chk, repo):
    types = Types(repo)
    cr = CallResolver(repo, types)
    chk.count("typed expressions", types.n)
    lang = load_lang(repo)
    loc = repo.module("localization")
    default = None
    for st in loc.consts.get("DEFAULT_LANGUAGE", []):
        default = const_str(st.value)
    if default is None or default not in lang:
        raise AnalysisError("default language not found")
    table = lang[default]
    chk.count("localization entries", len(table))
    errcls = repo.cls("Error", "error")
    errtype = repo.cls("ErrorType", "error")
    lenum = repo.cls("LocalizedEnum", "localization")

    chk.rule("R1", "every member of a localized enumeration has a text in the default language")
    chk.rule("R2", "every key passed to the localizer has a text in the default language")
    chk.rule("R3", "format arguments of a localized text match the placeholders of that text")
    chk.rule("R4", "every raised compile error supplies all placeholders of its message")
    chk.rule("R5", "message texts are well-formed templates; other languages use no extra placeholders")
    chk.rule("R6", "raw localization keys are never shown in place of their text")
    chk.rule("R7", "errors carry a position: tokenizer/parser errors set it before raising, "
                   "visitor errors pass the position-filling handler")

    # R1
    members = {}
    for c in [lenum] + lenum.all_subclasses():
        for name, v in c.attrs.items():
            s = const_str(v)
            if s is None:
                continue
            members.setdefault(c, {})[name] = s
            chk.ob("R1", "%s.%s" % (c.name, name), s in table, repo.where(v, c.module),
                   "localization key %r has no text" % s)
    chk.floor("R1", 100)

    # R5
    for k, (v, line, sep) in table.items():
        ok = sep
        if k.startswith("error.errortype."):
            ok = ok and fields(v) is not None
        chk.ob("R5", k, ok, "acaciamc/lang/%s.lang:%d" % (default, line),
               "malformed entry or template")
        for lname, lt in lang.items():
            if lname != default and k in lt:
                a, b = fields(lt[k][0]), fields(v)
                same = a is not None and (b is None or a <= b) and \
                    len(percents(lt[k][0])) == len(percents(v))
                chk.ob("R5", "%s/%s" % (lname, k), same,
                       "acaciamc/lang/%s.lang:%d" % (lname, lt[k][1]),
                       "placeholders differ from the default language")

    # localize() calls
    lz = [f for f in loc.functions if f.qual == "localize"]
    if not lz:
        raise AnalysisError("localize() vanished")
    # wrappers: functions that pass a parameter on to localize unchanged
    wrappers = {lz[0]: lz[0].params[0].name}
    for f in repo.functions:
        if f.module is loc:
            continue
        for c in own_calls(f):
            ts, _ = cr.targets(c, f)
            if any(t is lz[0] for t, _ in ts) and c.args and isinstance(c.args[0], ast.Name) \
                    and c.args[0].id in param_names(f):
                par = repo.parent_of.get(c)
                if isinstance(par, ast.Return):
                    wrappers[f] = c.args[0].id
    nloc = ncomp = 0
    vals = Vals(repo, cr)
    for m in repo.modules.values():
        for n in ast.walk(m.tree):
            if not isinstance(n, ast.Call):
                continue
            scope = repo.scope_of(n) or m
            if isinstance(scope, FuncInfo) and scope in wrappers:
                continue
            ts, _ = cr.targets(n, scope)
            w = [t for t, _b in ts if t in wrappers]
            if not w:
                continue
            nloc += 1
            a = n.args[0] if n.args else (n.keywords[0].value if n.keywords else None)
            where = repo.where(n, m)
            cons_base = "%s" % (scope.id if isinstance(scope, FuncInfo) else m.rel)
            keys = []
            for v in values_of(a, scope):
                s = const_str(v)
                if s is not None:
                    keys.append(s)
                    chk.ob("R2", "%s key %s" % (cons_base, s), s in table, where,
                           "localization key %r has no text" % s)
                else:
                    # keys computed from a value set (e.g. `<operator>.augmented`)
                    vs, _ok = vals.possible(v, scope)
                    for k in vs:
                        if isinstance(k, str):
                            ncomp += 1
                            chk.ob("R2", "%s key %s" % (cons_base, k), k in table, where,
                                   "localization key %r has no text" % k)
            # R3
            if keys:
                _format_use(chk, repo, n, scope, keys, table, where, cons_base)
    chk.count("localize() call sites", nloc)
    chk.floor("R2", 70)
    chk.floor("R3", 40)

    # R4 / R6
    fw = Forwarders(repo, cr, errcls)
    chk.count("error forwarding helpers", len(fw.map))
    if len(fw.map) < 4:
        raise AnalysisError("error helper methods not recognised")
    nsite = 0
    etmem = members.get(errtype, {})
    for f in repo.functions:
        seen_in_f = {}
        for c in own_calls(f):
            s = fw.site(c, f)
            if s is None:
                continue
            _fn, e, kws, stars = s
            if e is None or isinstance(e, tuple):
                continue
            names = set(kws)
            opaque = False
            for st in stars:
                ks, okk = dict_keys(st, f)
                names |= ks
                opaque = opaque or not okk
            where = repo.where(c, f)
            for v in values_of(e, f):
                if isinstance(v, ast.Attribute) and repo.resolve(v.value, f) is errtype:
                    nsite += 1
                    mem = v.attr
                    seen_in_f[mem] = seen_in_f.get(mem, 0) + 1
                    cons = "%s raises %s#%d" % (f.id, mem, seen_in_f[mem])
                    if mem not in etmem:
                        chk.bad("R4", cons, where, "ErrorType has no member %s" % mem)
                        continue
                    key = etmem[mem]
                    need = fields(table[key][0]) if key in table else set()
                    missing = (need or set()) - names
                    chk.ob("R4", cons, opaque or not missing, where,
                           "message %r needs %s, not supplied" % (
                               table.get(key, ("?",))[0], sorted(missing)))
            # raw keys
            args = [k.value for k in c.keywords]
            for a in args:
                for v in values_of(a, f):
                    for x in ast.walk(v):
                        if isinstance(x, ast.Attribute) and x.attr in ("value", "name"):
                            cs, _ = types.classes_of(x.value, f.module)
                            hit = [k for k in cs if isinstance(k, ClassInfo)
                                   and lenum in k.mro()]
                            if hit and x.attr == "value":
                                par = repo.parent_of.get(x)
                                chk.ob("R6", "%s shows %s.value" % (f.id, hit[0].name),
                                       _inside_localize(repo, cr, x, f, wrappers), where,
                                       "the localization key itself is put in the message")
    # helper parameters named like an operator string: raw key through a helper
    for f in repo.functions:
        for c in own_calls(f):
            ts, _ = cr.targets(c, f)
            for t, b in ts:
                if not isinstance(t, FuncInfo) or t in fw.map and fw.map[t]["param"]:
                    continue
                reach = _params_to_error(t, fw)
                if not reach:
                    continue
                mm, *_ = bind(c, t, b)
                for pn in reach:
                    e = mm.get(pn)
                    if e is None:
                        continue
                    for v in values_of(e, f):
                        for x in ast.walk(v):
                            if isinstance(x, ast.Attribute) and x.attr == "value":
                                cs, _ = types.classes_of(x.value, f.module)
                                if any(isinstance(k, ClassInfo) and lenum in k.mro() for k in cs):
                                    chk.ob("R6", "%s passes a raw key to %s" % (f.id, t.name),
                                           _inside_localize(repo, cr, x, f, wrappers),
                                           repo.where(c, f),
                                           "the localization key itself is put in the message")
    chk.rules["R6"]["obligations"] += nsite
    chk.rules["R6"]["discharged"] += nsite
    chk.floor("R4", 110)
    chk.count("error sites", nsite)

    _locations(chk, repo, cr, types, fw, errcls)


def _params_to_error(t, fw):
    out = set()
    for c in own_calls(t):
        s = fw.site(c, t)
        if s is None:
            continue
        for v in s[2].values():
            if isinstance(v, ast.Name) and v.id in param_names(t):
                out.add(v.id)
    return out


def _inside_localize(repo, cr, x, f, wrappers):
    p = repo.parent_of.get(x)
    while p is not None and not isinstance(p, ast.stmt):
        if isinstance(p, ast.Call):
            ts, _ = cr.targets(p, f)
            if any(t in wrappers for t, _b in ts):
                return True
        p = repo.parent_of.get(p)
    return False


def _format_use(chk, repo, call, scope, keys, table, where, base):
    """Check how the result of localize(key) is formatted."""
    node = call
    p = repo.parent_of.get(node)
    # through a plain local variable
    uses = [(node, p)]
    if isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name) \
            and isinstance(scope, FuncInfo):
        nm = p.targets[0].id
        vs = local_assigns(scope, nm)
        uses = []
        for x in walk_own(scope.node):
            if isinstance(x, ast.Name) and x.id == nm and isinstance(x.ctx, ast.Load):
                uses.append((x, repo.parent_of.get(x)))
        if not all(isinstance(v, ast.Call) for v in vs if v is not None):
            return
    for key in keys:
        if key not in table:
            continue
        text = table[key][0]
        f, pc = fields(text), percents(text)
        fmt_used = pct_used = False
        for x, par in uses:
            if isinstance(par, ast.Attribute) and par.attr == "format" and par.value is x:
                c = repo.parent_of.get(par)
                if isinstance(c, ast.Call):
                    fmt_used = True
                    if any(k.arg is None for k in c.keywords) or \
                            any(isinstance(a, ast.Starred) for a in c.args):
                        continue
                    have = {k.arg for k in c.keywords} | {str(i) for i in range(len(c.args))}
                    need = f if f is not None else {"<malformed>"}
                    need = {("0" if n == "" else n) for n in need}
                    chk.ob("R3", "%s formats %s" % (base, key), need <= have, where,
                           "text %r needs %s" % (text, sorted(need - have)))
            elif isinstance(par, ast.BinOp) and isinstance(par.op, ast.Mod) and par.left is x:
                pct_used = True
                rhs = par.right
                if isinstance(rhs, ast.Tuple):
                    if any(isinstance(e, ast.Starred) for e in rhs.elts):
                        continue
                    n = len(rhs.elts)
                    ok = n == len(pc)
                elif isinstance(rhs, ast.Dict):
                    continue
                else:
                    ok = len(pc) == 1
                chk.ob("R3", "%s formats %s" % (base, key), ok, where,
                       "text %r has %d conversions" % (text, len(pc)))
        if not fmt_used and not pct_used:
            # used verbatim: must not contain unexpanded conversions
            plain = not (isinstance(uses[0][1], ast.Return)) if uses else True
            if uses and all(isinstance(pp, ast.keyword) or isinstance(pp, ast.Call)
                            or isinstance(pp, ast.Return) for _x, pp in uses) and plain:
                helper = [pp for _x, pp in uses if isinstance(pp, ast.Call)]
                if helper and not _plain_sink(helper[0]):
                    continue
                bad = [c for c in pc if c in "sdr"]
                chk.ob("R3", "%s shows %s verbatim" % (base, key), not bad, where,
                       "text %r still has conversions %s" % (text, bad))


def _plain_sink(call):
    d = dotted(call.func)
    return d.rsplit(".", 1)[-1] in ("ArgumentError", "fatal", "ValueError", "Error")


def _assigns_attr(f, path):
    """Does function f (own body) assign an attribute chain ending in path?"""
    for n in walk_own(f.node):
        tg = []
        if isinstance(n, ast.Assign):
            tg = n.targets
        elif isinstance(n, (ast.AnnAssign, ast.AugAssign)):
            tg = [n.target]
        for t in tg:
            for e in (t.elts if isinstance(t, ast.Tuple) else [t]):
                if isinstance(e, ast.Attribute) and dotted(e).endswith(path):
                    return True
    # constructing a location and assigning it wholesale
    for n in walk_own(f.node):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Attribute) and t.attr == "location":
                    return True
    return False


def _reaches_assign(f, path, cr, repo, depth=4, seen=None):
    seen = seen if seen is not None else set()
    if f in seen or depth < 0:
        return False
    seen.add(f)
    if _assigns_attr(f, path):
        return True
    for c in own_calls(f):
        ts, _ = cr.targets(c, f)
        for t, _b in ts:
            if isinstance(t, FuncInfo) and _reaches_assign(t, path, cr, repo, depth - 1, seen):
                return True
    return False


def _locations(chk, repo, cr, types, fw, errcls):
    # (a) tokenizer / parser
    for mod in ("tokenizer", "parser"):
        m = repo.module(mod)
        for f in m.functions:
            k = 0
            for n in walk_own(f.node):
                if isinstance(n, ast.Raise) and n.exc is not None:
                    cs, _ = types.classes_of(n.exc, m)
                    direct = isinstance(n.exc, ast.Call) and repo.resolve(n.exc.func, f) is errcls
                    if errcls in cs or direct:
                        k += 1
                        chk.ob("R7", "%s raise#%d" % (f.id, k),
                               not direct and _reaches_assign(f, "location.linecol", cr, repo, 2),
                               repo.where(n, f),
                               "a source error is raised without its line and column")
    # (b) the root visit of a generator
    gen = repo.cls("Generator")
    for f in gen.methods.values():
        for c in own_calls(f):
            if isinstance(c.func, ast.Attribute) and c.func.attr == "visit" and c.args and \
                    _denotes(c.args[0], f, "self.node"):
                chk.ob("R7", "%s root visit" % f.id,
                       _guarded(c, f, gen, cr, repo, errcls, _BOTH), repo.where(c, f),
                       "errors of the visit are not given file and position")
    # (c) the file of tokenizer/parser errors
    comp = repo.cls("Compiler", "compiler")
    for f in comp.methods.values():
        for c in own_calls(f):
            r = repo.resolve(c.func, f)
            if isinstance(r, ClassInfo) and r.name == "Parser":
                chk.ob("R7", "%s parses a source file" % f.id,
                       _guarded(c, f, comp, cr, repo, errcls, _BOTH[:1]), repo.where(c, f),
                       "syntax errors are not given their file")


_BOTH = ("location.file", "location.linecol")


def _denotes(e, f, path):
    """Is `e` the attribute `path`, directly or through local names?"""
    for _ in range(4):
        if dotted(e) == path:
            return True
        if not isinstance(e, ast.Name):
            return False
        vs = [n.value for n in walk_own(f.node) if isinstance(n, ast.Assign)
              and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets)]
        if len(vs) != 1:
            return False
        e = vs[0]
    return False


def _guarded(c, f, cls, cr, repo, errcls, paths, depth=3):
    """Does a handler of source errors around the call, or around every call of the
    method that makes it, fill in the parts `paths` of the location?"""
    p, ch = repo.parent_of.get(c), c
    while p is not None and p is not f.node:
        if isinstance(p, ast.Try) and any(ch is s for s in p.body) and \
                _fills(p, f, cr, repo, errcls, paths):
            return True
        if isinstance(p, ast.With):
            for it in p.items:
                if isinstance(it.context_expr, ast.Call):
                    for t, _b in cr.targets(it.context_expr, f)[0]:
                        if isinstance(t, FuncInfo) and any(
                                isinstance(x, ast.Try) and any(isinstance(y, ast.Yield) for s in
                                                               x.body for y in ast.walk(s))
                                and _fills(x, t, cr, repo, errcls, paths)
                                for x in walk_own(t.node)):
                            return True
        ch, p = p, repo.parent_of.get(p)
    if depth == 0:
        return False
    callers = [(x, g) for k in cls.mro() for g in k.methods.values() for x in own_calls(g)
               if isinstance(x.func, ast.Attribute) and x.func.attr == f.name
               and dotted(x.func.value) == "self" and g is not f]
    return bool(callers) and all(
        _guarded(x, g, cls, cr, repo, errcls, paths, depth - 1) for x, g in callers)


def _fills(t, f, cr, repo, errcls, paths):
    return any(h.type is not None and repo.resolve(h.type, f) is errcls
               and _handler_reaches(h, f, cr, repo, paths) for h in t.handlers)


def _handler_reaches(h, f, cr, repo, paths=("location.file", "location.linecol")):
    res = {}
    for path in paths:
        res[path] = False
        for x in ast.walk(h):
            if isinstance(x, ast.Call):
                ts, _ = cr.targets(x, f)
                for t, _b in ts:
                    if isinstance(t, FuncInfo) and _reaches_assign(t, path, cr, repo, 3):
                        res[path] = True
            if isinstance(x, ast.Assign) and any(dotted(t).endswith(path) for t in x.targets):
                res[path] = True
    return all(res.values())
