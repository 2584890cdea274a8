"""Reference grammar of Acacia on the tokens of the reference lexer: an independent
parser that yields plain trees, or the first token no program can have there."""

BIN = [(("*", "multiply"), ("/", "divide"), ("%", "mod")), (("+", "add"), ("-", "minus"))]
CMP = {"==": "equal_to", "!=": "unequal_to", ">": "greater", "<": "less",
       ">=": "greater_equal", "<=": "less_equal"}
AUG = {"+=": "add", "-=": "minus", "*=": "multiply", "/=": "divide", "%=": "mod"}


EXPR = {"BoolOp", "UnaryOp", "CompareOp", "BinOp", "Attribute", "Call", "Subscript", "Literal", "Identifier",
        "Self", "StrLiteral", "ListDef", "MapDef", "CallTable", "TypeSpec"}


class Wrong(Exception):
    """The program is refused: kinds allowed, positions allowed."""

    def __init__(self, kind, toks):
        super().__init__(kind)
        self.kind, self.at = kind, [t[2:4] for t in toks]


class Node:
    def __init__(self, cls, span, exact, **f):
        self.cls, self.span, self.exact, self.f = cls, span, exact, f


class Grammar:
    def __init__(self, toks):
        self.t, self.i = toks, 0

    # -- tokens -----------------------------------------------------------
    @property
    def k(self):
        return self.t[self.i][0]

    @property
    def tok(self):
        return self.t[self.i]

    def after(self, n=1):
        return self.t[min(self.i + n, len(self.t) - 1)][0]

    def bad(self, *also):
        raise Wrong("UNEXPECTED_TOKEN", [self.tok] + list(also))

    def take(self, kind):
        if self.k != kind:
            self.bad()
        self.i += 1
        return self.t[self.i - 1]

    def opt(self, kind):
        if self.k == kind:
            self.i += 1
            return True
        return False

    def name(self):
        return self.take("IDENTIFIER")[1]

    def node(self, cls, start, exact=False, **f):
        end = max(self.i - 1, start)
        if cls in EXPR:
            # An expression is placed where it starts; brackets around its first part may be left out.
            end = start
            while self.t[end][0] == "(":
                end += 1
        return Node(cls, (self.t[start][2:4], self.t[end][2:4]), exact, **f)

    # -- expressions ------------------------------------------------------
    def expr(self):
        return self.junction("or", "or_", lambda: self.junction("and", "and_", self.negation))

    def junction(self, word, op, part):
        s = self.i
        parts = [part()]
        while self.opt(word):
            parts.append(part())
        return parts[0] if len(parts) == 1 else self.node("BoolOp", s, operator=op, operands=parts)

    def negation(self):
        s = self.i
        if self.opt("not"):
            x = self.negation()
            return self.node("UnaryOp", s, operator="not_", operand=x)
        left, ops, rest = self.binary(2), [], []
        while self.k in CMP:
            ops.append(CMP[self.k])
            self.i += 1
            rest.append(self.binary(2))
        if not ops:
            return left
        return self.node("CompareOp", s, left=left, operators=ops, operands=rest)

    def binary(self, level):
        if level == 0:
            return self.unary()
        s = self.i
        left = self.binary(level - 1)
        ops = dict(BIN[level - 1])
        while self.k in ops:
            op = ops[self.k]
            self.i += 1
            right = self.binary(level - 1)
            left = self.node("BinOp", s, left=left, operator=op, right=right)
        return left

    def unary(self):
        s = self.i
        if self.k in "+-":
            op = "positive" if self.k == "+" else "negative"
            self.i += 1
            x = self.unary()
            return self.node("UnaryOp", s, operator=op, operand=x)
        return self.postfix()

    def postfix(self):
        s = self.i
        x = self.atom()
        while True:
            if self.k == "." and self.after() != "new":
                self.i += 1
                n = self.name()
                x = self.node("Attribute", s, object=x, attr=n)
            elif self.k == "(":
                t = self.call_table()
                x = self.node("Call", s, func=x, table=t)
            elif self.k == "[":
                subs = []
                self.bracketed("[", "]", lambda: subs.append(self.expr()))
                x = self.node("Subscript", s, object=x, subscripts=subs)
            else:
                return x

    def atom(self):
        s, k = self.i, self.k
        if k in ("INTEGER", "FLOAT", "True", "False", "None"):
            self.i += 1
            v = self.t[s][1] if k in ("INTEGER", "FLOAT") else {"True": True, "False": False}.get(k)
            return self.node("Literal", s, value=v)
        if k == "IDENTIFIER":
            self.i += 1
            return self.node("Identifier", s, name=self.t[s][1])
        if k == "self":
            self.i += 1
            return self.node("Self", s)
        if k == "STRING_BEGIN":
            return self.string()
        if k == "(":
            self.i += 1
            x = self.expr()
            self.take(")")
            x.span = (self.t[s][2:4], self.t[self.i - 1][2:4])
            return x
        if k == "{":
            return self.braces()
        self.bad()

    def string(self):
        s, parts = self.i, []
        if self.k != "STRING_BEGIN":
            self.bad()
        while self.opt("STRING_BEGIN"):
            parts += self.pieces()
            self.take("STRING_END")
        return self.node("StrLiteral", s, content=self.node("FormattedStr", s, content=parts))

    def pieces(self):
        out = []
        while True:
            if self.k == "TEXT_BODY":
                out.append(self.take("TEXT_BODY")[1])
            elif self.opt("DOLLAR_LBRACE"):
                out.append(self.expr())
                self.take("}")
            else:
                return out

    def braces(self):
        s = self.i
        self.take("{")
        if self.opt("}"):
            return self.node("ListDef", s, items=[])
        if self.opt(":"):
            self.take("}")
            return self.node("MapDef", s, keys=[], values=[])
        keys, values = [self.expr()], []
        is_map = self.opt(":")
        if is_map:
            values.append(self.expr())
        while self.opt(",") and self.k != "}":
            keys.append(self.expr())
            if is_map:
                self.take(":")
                values.append(self.expr())
        self.take("}")
        if is_map:
            return self.node("MapDef", s, keys=keys, values=values)
        return self.node("ListDef", s, items=keys)

    def bracketed(self, left, right, item):
        self.take(left)
        while self.k != right:
            item()
            if not self.opt(","):
                break
        self.take(right)

    def commas(self, item):
        item()
        while self.opt(","):
            item()

    def call_table(self):
        s = self.i
        args, kw = [], {}

        def arg():
            if self.after() == "=" and self.k != "IDENTIFIER":
                # either of the two is out of place
                self.bad(self.t[self.i + 1])
            if self.after() == "=":
                t = self.tok
                if t[1] in kw:
                    raise Wrong("ARG_MULTIPLE_VALUES", [t])
                self.i += 2
                kw[t[1]] = self.expr()
            else:
                if kw:
                    raise Wrong("POSITIONED_ARG_AFTER_KEYWORD", [self.tok])
                args.append(self.expr())
        self.bracketed("(", ")", arg)
        return self.node("CallTable", s, args=args, keywords=kw)

    def type(self):
        s = self.i
        x = self.expr()
        return self.node("TypeSpec", s, content=x)

    # -- functions --------------------------------------------------------
    def qualifier(self, kind):
        t = self.tok
        q = "const" if self.opt("const") else "by_reference" if self.opt("&") else "by_value"
        if kind != "inline" and q != "by_value":
            raise Wrong("INVALID_FUNC_PORT", [t])
        return q

    def func_data(self, kind):
        s = self.i
        table = {}

        def arg():
            a, start = self.tok, self.i
            q = self.qualifier(kind)
            n = self.name()
            ty = self.type() if self.opt(":") else None
            port = self.node("FunctionPort", start, type=ty, port=q)
            default = None
            if self.opt("="):
                default = self.expr()
            elif any(d is not None for _, d in table.values()):
                raise Wrong("NONDEFAULT_ARG_AFTER_DEFAULT", [a])
            if ty is None and default is None and kind == "normal":
                raise Wrong("DONT_KNOW_ARG_TYPE", [a])
            if n in table:
                raise Wrong("DUPLICATE_ARG_DEF", [a])
            table[n] = (port, default)
        self.bracketed("(", ")", arg)
        at = self.node("ArgumentTable", s, args=list(table), types={n: p for n, (p, _) in table.items()},
                       default={n: d for n, (_, d) in table.items()})
        ret = None
        if self.opt("->"):
            r = self.i
            q = self.qualifier(kind)
            ty = self.type()
            ret = ty if kind == "normal" else self.node("FunctionPort", r, type=ty, port=q)
        self.take(":")
        body = self.block(self.statement)
        return self.node({"normal": "NormalFuncData", "inline": "InlineFuncData",
                          "const": "ConstFuncData"}[kind], s, arg_table=at, body=body, returns=ret)

    def function(self):
        s = self.i
        kind = "inline" if self.opt("inline") else "const" if self.opt("const") else "normal"
        self.take("def")
        n = self.name()
        d = self.func_data(kind)
        return self.node("FuncDef", s, True, name=n, data=d)

    # -- statements -------------------------------------------------------
    def block(self, item):
        self.take("NEW_LINE")
        if self.k != "INDENT":
            raise Wrong("EMPTY_BLOCK", [self.tok])
        self.i += 1
        out = []
        while self.k != "DEDENT":
            out.append(item())
        self.i += 1
        return out

    def suite(self):
        self.take(":")
        return self.block(self.statement)

    def declaration(self):
        n = self.name()
        ty = self.type() if self.opt(":") else None
        self.take("=")
        return n, ty, self.expr()

    def conditional(self):
        s = self.i
        self.i += 1
        c = self.expr()
        body = self.suite()
        other = []
        if self.k == "elif":
            other = [self.conditional()]
        elif self.opt("else"):
            other = self.suite()
        return self.node("If", s, True, condition=c, body=body, else_body=other)

    def bases(self):
        out = []
        if self.opt("extends"):
            self.commas(lambda: out.append(self.expr()))
        return out

    def field(self, cls):
        s = self.i
        if self.k == "pass":
            self.i += 1
            x = self.node("Pass", s, True)
        else:
            n = self.name()
            self.take(":")
            ty = self.type()
            x = self.node(cls, s, True, name=n, type=ty)
        self.take("NEW_LINE")
        return x

    def member(self):
        s, first = self.i, self.tok
        if self.k in ("IDENTIFIER", "pass"):
            return self.field("EntityField")
        if self.k == "const" and self.after() == "new":
            raise Wrong("CONST_NEW_METHOD", [first])
        if self.k == "new" or self.k == "inline" and self.after() == "new":
            kind = "inline" if self.opt("inline") else "normal"
            self.i += 1
            d = self.func_data(kind)
            return self.node("NewMethod", s, True, data=d)
        q = "none"
        if self.k in ("virtual", "override", "static"):
            q = self.k
            self.i += 1
        if self.k == "const" and q != "static":
            raise Wrong("NONSTATIC_CONST_METHOD", [first])
        if self.k not in ("inline", "const", "def"):
            self.bad()
        f = self.function()
        return self.node("EntityMethod", s, True, content=f, qualifier=q)

    def entity(self):
        s, first = self.i, self.tok
        self.i += 1
        n = self.name()
        parents = self.bases()
        self.take(":")
        body = self.block(self.member)
        new = [m for m in body if m.cls == "NewMethod"]
        if len(new) > 1:
            raise Wrong("MULTIPLE_NEW_METHODS", [first])
        return self.node("EntityTemplateDef", s, True, name=n, parents=parents,
                         body=[m for m in body if m.cls != "NewMethod"], new_method=new[0] if new else None)

    def module_meta(self):
        dots, names = 0, []
        while self.opt("."):
            dots += 1
        names.append(self.name())
        while self.opt("."):
            names.append(self.name())
        return Node("ModuleMeta", None, False, leading_dots=dots, last_name=names[-1], parents=names[:-1])

    def alias(self):
        return self.name() if self.opt("as") else None

    def importing(self):
        s = self.i
        if self.opt("import"):
            m = self.module_meta()
            a = self.alias()
            return self.node("Import", s, True, meta=m, name=a or m.f["last_name"])
        self.take("from")
        m = self.module_meta()
        self.take("import")
        if self.opt("*"):
            return self.node("FromImportAll", s, True, meta=m)
        pairs = []

        def item():
            n = self.name()
            pairs.append((n, self.alias() or n))
        if self.k == "(":
            self.bracketed("(", ")", item)
        else:
            self.commas(item)
        return self.node("FromImport", s, True, meta=m, id2name=pairs)

    def statement(self):
        s, first, k = self.i, self.tok, self.k
        if k == "if":
            return self.conditional()
        if k == "while":
            self.i += 1
            c = self.expr()
            return self.node("While", s, True, condition=c, body=self.suite())
        if k == "for":
            self.i += 1
            n = self.name()
            self.take("in")
            x = self.expr()
            return self.node("For", s, True, name=n, expr=x, body=self.suite())
        if k == "interface":
            self.i += 1
            p = self.take("INTERFACE_PATH")[1] if self.k == "INTERFACE_PATH" else self.string()
            return self.node("InterfaceDef", s, True, path=p, body=self.suite())
        if k in ("def", "inline") or k == "const" and self.after() == "def":
            return self.function()
        if k == "entity":
            return self.entity()
        if k == "struct":
            self.i += 1
            n = self.name()
            b = self.bases()
            self.take(":")
            return self.node("StructDef", s, True, name=n, bases=b,
                             body=self.block(lambda: self.field("StructField")))
        x = self.line(s, first, k)
        self.take("NEW_LINE")
        return x

    def line(self, s, first, k):
        if k == "pass":
            self.i += 1
            return self.node("Pass", s, True)
        if k == "COMMAND_BEGIN":
            self.i += 1
            c = self.node("FormattedStr", s + 1, content=self.pieces())
            self.take("COMMAND_END")
            return self.node("Command", s, True, content=c)
        if k in ("import", "from"):
            return self.importing()
        if k == "&":
            self.i += 1
            n, ty, v = self.declaration()
            return self.node("ReferenceDef", s, True, name=n, type=ty, value=v)
        if k == "const":
            self.i += 1
            ds = []
            if self.k == "(":
                self.bracketed("(", ")", lambda: ds.append(self.declaration()))
            else:
                self.commas(lambda: ds.append(self.declaration()))
            return self.node("ConstDef", s, True, names=[d[0] for d in ds], types=[d[1] for d in ds],
                             values=[d[2] for d in ds])
        if k == "result":
            self.i += 1
            return self.node("Result", s, True, value=self.expr())
        if k == "new":
            self.i += 1
            return self.node("NewCall", s, True, primary=None, call_table=self.call_table())
        x = self.expr()
        if self.opt("="):
            return self.node("Assign", s, True, target=x, value=self.expr())
        if self.k in AUG:
            op = AUG[self.k]
            self.i += 1
            return self.node("AugmentedAssign", s, True, target=x, operator=op, value=self.expr())
        if self.k in (":", ":="):
            if x.cls != "Identifier":
                raise Wrong("INVALID_VARDEF_STMT", [first])
            if self.opt(":="):
                return self.node("AutoVarDef", s, True, target=x.f["name"], value=self.expr())
            self.i += 1
            ty = self.type()
            v = self.expr() if self.opt("=") else None
            return self.node("VarDef", s, True, target=x.f["name"], type=ty, value=v)
        if self.k == "." and self.after() == "new":
            self.i += 2
            return self.node("NewCall", s, True, primary=x, call_table=self.call_table())
        return self.node("ExprStatement", s, True, value=x)

    def module(self):
        out = []
        while self.k != "END_MARKER":
            out.append(self.statement())
        return self.node("Module", 0, body=out)


def parse(toks):
    """(tree, None) or (None, Wrong)."""
    try:
        return Grammar(toks).module(), None
    except Wrong as w:
        return None, w
