"""Control flow graphs of functions, with short-circuit conditions split into
atomic tests, `finally` bodies duplicated per way of leaving, and calls that
never return treated as leaving by an exception."""
import ast

from .repo import walk_own


class Node:
    __slots__ = ("id", "kind", "ast", "succ", "pred")

    def __init__(self, i, kind, node):
        self.id = i
        self.kind = kind          # entry exit raise stmt test iter bind exc join
        self.ast = node
        self.succ = []            # (node, label)
        self.pred = []

    def __repr__(self):
        ln = getattr(self.ast, "lineno", "-")
        return "<%d %s %s>" % (self.id, self.kind, ln)

    def exprs(self):
        """The expressions/statements evaluated at this node itself."""
        a = self.ast
        if a is None:
            return []
        if self.kind == "iter":
            return [a.iter]
        if self.kind == "bind":
            return [a.target]
        if self.kind == "with":
            return [x.context_expr for x in a.items] + \
                [x.optional_vars for x in a.items if x.optional_vars is not None]
        if self.kind == "exc":
            return [a.type] if getattr(a, "type", None) is not None else []
        if isinstance(a, (ast.FunctionDef, ast.AsyncFunctionDef)):
            return list(a.decorator_list) + [d for d in a.args.defaults] + \
                [d for d in a.args.kw_defaults if d is not None]
        if isinstance(a, ast.ClassDef):
            return list(a.decorator_list) + list(a.bases)
        return [a]

    def walk(self):
        """AST nodes evaluated here (not entering lambdas/comprehension bodies
        is not attempted: they are included)."""
        for e in self.exprs():
            yield from ast.walk(e)

    def calls(self):
        return [n for n in self.walk() if isinstance(n, ast.Call)]


class CFG:
    def __init__(self, fn, noreturn=None):
        self.fn = fn
        self.nodes = []
        self.noreturn = noreturn or (lambda call: False)
        self.entry = self._new("entry", None)
        self.exit = self._new("exit", None)      # normal return / fall off
        self.raise_ = self._new("raise", None)   # leaves by exception
        self.falloff = None
        # context stacks
        self._loops = []
        self._finals = []
        self._handlers = []     # list of handler entry node lists
        body = fn.body if isinstance(fn.body, list) else [ast.Return(value=fn.body)]
        ends = self._block(body, [(self.entry, None)])
        if ends:
            self.falloff = self._new("join", None)
            self._link(ends, self.falloff)
            self._edge(self.falloff, self.exit, "falloff")
        self._prune()

    # -- construction --------------------------------------------------
    def _new(self, kind, a):
        n = Node(len(self.nodes), kind, a)
        self.nodes.append(n)
        return n

    def _edge(self, a, b, label=None):
        a.succ.append((b, label))
        b.pred.append((a, label))

    def _link(self, ends, n):
        for a, l in ends:
            self._edge(a, n, l)

    def _stmt_node(self, kind, a, ends):
        n = self._new(kind, a)
        self._link(ends, n)
        if self._handlers and kind not in ("join",):
            for h in self._handlers[-1]:
                self._edge(n, h, "exc")
        return n

    def _leave(self, n, target_kind, label):
        """n leaves via 'return' / 'raise' / loop exits, through finally."""
        raise NotImplementedError

    def _run_finals(self, ends, upto):
        """Duplicate the finally bodies above index `upto` (innermost first)."""
        saved_f, saved_h = self._finals, self._handlers
        for i in range(len(saved_f) - 1, upto - 1, -1):
            fb, hdepth = saved_f[i]
            self._finals = saved_f[:i]
            self._handlers = saved_h[:hdepth]
            if fb is not None:
                ends = self._block(fb, ends)
        self._finals, self._handlers = saved_f, saved_h
        return ends

    def _is_noreturn(self, node):
        for c in node.calls():
            if self.noreturn(c):
                return True
        return False

    def _to_raise(self, ends):
        """control leaves by an exception from here"""
        if self._handlers:
            hs, hdepth_f = self._handlers[-1], None
            # finals entered after the handlers
            k = len(self._finals)
            lim = self._hfinal[-1] if self._hfinal else 0
            ends = self._run_finals(ends, lim) if k > lim else ends
            for h in hs:
                for a, l in ends:
                    if not any(x is h for x, _ in a.succ):
                        self._edge(a, h, "exc")
            return
        ends = self._run_finals(ends, 0)
        self._link([(a, l or "raise") for a, l in ends], self.raise_)

    _hfinal = None

    def _block(self, stmts, ends):
        for st in stmts:
            if not ends:
                break
            ends = self._stmt(st, ends)
        return ends

    def _cond(self, e, ends):
        """-> (true_ends, false_ends)"""
        if isinstance(e, ast.BoolOp):
            if isinstance(e.op, ast.And):
                f = []
                for v in e.values:
                    ends, fe = self._cond(v, ends)
                    f.extend(fe)
                return ends, f
            t = []
            for v in e.values:
                te, ends = self._cond(v, ends)
                t.extend(te)
            return t, ends
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t, f = self._cond(e.operand, ends)
            return f, t
        n = self._stmt_node("test", e, ends)
        if isinstance(e, ast.Constant):
            return ([(n, True)], []) if e.value else ([], [(n, False)])
        return [(n, True)], [(n, False)]

    def _stmt(self, st, ends):
        if self._hfinal is None:
            self._hfinal = []
        if isinstance(st, ast.If):
            t, f = self._cond(st.test, ends)
            out = self._block(st.body, t)
            out = out + self._block(st.orelse, f)
            return out
        if isinstance(st, ast.While):
            head = self._new("join", st)
            self._link(ends, head)
            t, f = self._cond(st.test, [(head, None)])
            brk = []
            self._loops.append((head, brk, len(self._finals)))
            body = self._block(st.body, t)
            self._link(body, head)
            self._loops.pop()
            out = self._block(st.orelse, f) if st.orelse else f
            return out + brk
        if isinstance(st, (ast.For, ast.AsyncFor)):
            it = self._stmt_node("iter", st, ends)
            head = self._new("join", st)
            self._edge(it, head)
            bind = self._stmt_node("bind", st, [(head, "next")])
            brk = []
            self._loops.append((head, brk, len(self._finals)))
            body = self._block(st.body, [(bind, None)])
            self._link(body, head)
            self._loops.pop()
            f = [(head, "done")]
            out = self._block(st.orelse, f) if st.orelse else f
            return out + brk
        if isinstance(st, (ast.Break, ast.Continue)):
            n = self._stmt_node("stmt", st, ends)
            if self._loops:
                head, brk, nf = self._loops[-1]
                e = self._run_finals([(n, None)], nf)
                if isinstance(st, ast.Break):
                    brk.extend(e)
                else:
                    self._link(e, head)
            return []
        if isinstance(st, ast.Return):
            n = self._stmt_node("stmt", st, ends)
            if self._is_noreturn(n):
                self._to_raise([(n, "raise")])
                return []
            e = self._run_finals([(n, None)], 0)
            self._link([(a, l or "return") for a, l in e], self.exit)
            return []
        if isinstance(st, ast.Raise):
            n = self._stmt_node("stmt", st, ends)
            self._to_raise([(n, "raise")])
            return []
        if isinstance(st, ast.Assert):
            t, f = self._cond(st.test, ends)
            if f:
                n = self._new("stmt", ast.Pass())
                self._link(f, n)
                self._to_raise([(n, "raise")])
            return t
        if isinstance(st, (ast.With, ast.AsyncWith)):
            n = self._stmt_node("with", st, ends)
            return self._block(st.body, [(n, None)])
        if isinstance(st, ast.Try) or type(st).__name__ == "TryStar":
            fb = st.finalbody or None
            self._finals.append((fb, len(self._handlers)))
            hentries = []
            for h in st.handlers:
                hentries.append(self._new("exc", h))
            if hentries:
                self._handlers.append(hentries)
                self._hfinal.append(len(self._finals))
            pre = self._new("join", st)
            self._link(ends, pre)
            body = self._block(st.body, [(pre, None)])
            if hentries:
                self._handlers.pop()
                self._hfinal.pop()
            if st.orelse:
                body = self._block(st.orelse, body)
            out = list(body)
            for h, hn in zip(st.handlers, hentries):
                out.extend(self._block(h.body, [(hn, None)]))
            self._finals.pop()
            if fb is not None:
                out = self._block(fb, out)
            return out
        if isinstance(st, ast.Match) if hasattr(ast, "Match") else False:
            n = self._stmt_node("stmt", ast.Expr(value=st.subject), ends)
            out = []
            cur = [(n, None)]
            for c in st.cases:
                t = self._new("join", c)
                self._link(cur, t)
                out.extend(self._block(c.body, [(t, True)]))
                cur = [(t, False)]
            return out + cur
        n = self._stmt_node("stmt", st, ends)
        if not isinstance(st, (ast.FunctionDef, ast.ClassDef)) and self._is_noreturn(n):
            self._to_raise([(n, "raise")])
            return []
        return [(n, None)]

    def _prune(self):
        seen = set()
        todo = [self.entry]
        while todo:
            n = todo.pop()
            if n in seen:
                continue
            seen.add(n)
            todo.extend(s for s, _ in n.succ)
        keep = [n for n in self.nodes if n in seen or n in (self.exit, self.raise_)]
        for n in keep:
            n.pred = [(p, l) for p, l in n.pred if p in seen]
        self.nodes = keep
        self.reachable = seen

    # -- queries -------------------------------------------------------
    def returns_normally(self):
        return self.exit in self.reachable

    def node_of(self, a):
        """Graph nodes evaluating AST node `a` (finally may duplicate)."""
        if not hasattr(self, "_idx"):
            self._idx = {}
            for n in self.nodes:
                if n.kind == "join":
                    continue
                for x in n.walk():
                    self._idx.setdefault(id(x), []).append(n)
                if n.ast is not None:
                    l = self._idx.setdefault(id(n.ast), [])
                    if n not in l:
                        l.append(n)
        return self._idx.get(id(a), [])

    def reach(self, starts, avoid=(), edge_ok=None):
        """Nodes reachable from `starts` (exclusive) not passing `avoid`."""
        avoid = set(avoid)
        seen = set()
        todo = []
        for s in starts:
            for t, l in s.succ:
                if edge_ok is None or edge_ok(s, t, l):
                    todo.append(t)
        while todo:
            n = todo.pop()
            if n in seen or n in avoid:
                continue
            seen.add(n)
            for t, l in n.succ:
                if edge_ok is None or edge_ok(n, t, l):
                    todo.append(t)
        return seen

    def path_avoiding(self, src, dst, avoid, edge_ok=None):
        """Is there a path src -> dst avoiding the nodes in `avoid`?"""
        if src in avoid or dst in avoid:
            return False
        if src is dst:
            return True
        return dst in self.reach([src], avoid, edge_ok)

    def dominated_by(self, node, doms, edge_ok=None):
        """Every path entry -> node passes one of `doms` first."""
        doms = set(doms)
        if node in doms:
            return True
        return not self.path_avoiding(self.entry, node, doms, edge_ok)

    def guards(self, node):
        """Atomic tests that hold on every path reaching node:
        list of (test ast, truth)."""
        out = []
        for t in self.nodes:
            if t.kind != "test":
                continue
            for truth in (True, False):
                # remove the edge labelled `truth` of t: node unreachable?
                def ok(a, b, l, t=t, truth=truth):
                    return not (a is t and l is truth)
                if t is not node and node not in self.reach([self.entry], (), ok):
                    out.append((t.ast, truth))
        return out


class Flow:
    """CFGs of all functions, with an interprocedural never-returns fixpoint."""

    def __init__(self, repo, cr):
        self.repo = repo
        self.cr = cr
        self._nr = None
        self._cfg = {}

    def _is_nr_call(self, call):
        fn = call.func
        name = fn.attr if isinstance(fn, ast.Attribute) else \
            fn.id if isinstance(fn, ast.Name) else None
        if name == "exit" and isinstance(fn, ast.Attribute) and \
                isinstance(fn.value, ast.Name) and fn.value.id == "sys":
            return True
        if name not in self._nr_names:
            return False
        k = id(call)
        if k in self._memo:
            return self._memo[k]
        f = self.repo.scope_of(call)
        ts, ok = self.cr.targets(call, f)
        r = bool(ts) and ok and all(getattr(t, "target", t) in self._nr for t, _ in ts)
        self._memo[k] = r
        return r

    def prepare(self):
        if self._nr is not None:
            return
        self._nr = set()
        self._nr_names = set()
        while True:
            self._memo = {}
            new = set()
            for f in self.repo.functions:
                if f in self._nr or f.is_abstract_like():
                    continue
                c = CFG(f.node, self._is_nr_call)
                if not c.returns_normally() and not _is_generator(f.node):
                    new.add(f)
            if not new:
                break
            self._nr |= new
            self._nr_names |= {f.name for f in new}
        self._memo = {}

    def cfg(self, f):
        self.prepare()
        if f not in self._cfg:
            self._cfg[f] = CFG(f.node, self._is_nr_call)
        return self._cfg[f]

    def never_returns(self, f):
        self.prepare()
        return f in self._nr


def _is_generator(fn):
    return any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(fn))
