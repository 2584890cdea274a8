From 5705dc9c639bebdae249eb9839fdd40b6672e4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:42 +0000
Subject: [PATCH 01/63] fix: integer operators that involve a compound integer
 expression

The compiler argument was not passed on (or bound to the wrong parameter)
in the reflected, negated and augmented forms, so e.g. 2 + a*b, 2 - a*b,
-a and a += a*b crashed or were rejected.
---
 acaciamc/objects/integer.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/acaciamc/objects/integer.py b/acaciamc/objects/integer.py
index 8bfe8c7..b5365ef 100644
--- a/acaciamc/objects/integer.py
+++ b/acaciamc/objects/integer.py
@@ -353,11 +353,13 @@ class IntVar(VarValue):
         """
         # In this condition, we convert a (op)= b to a = a (op) b
         ## Calculate
-        value = getattr(self, STR2METHOD[operator])(other, compiler)
+        value = getattr(
+            IntOpGroup.from_intexpr(self), STR2METHOD[operator]
+        )(other, compiler)
         ## Export
         tmp = IntVar.new(compiler, tmp=True)
         res = value.export(tmp, compiler)
-        res.extend(tmp.export(self))
+        res.extend(tmp.export(self, compiler))
         return res
 
     iadd = partialmethod(_iadd_sub, '+')
@@ -527,7 +529,7 @@ class IntOpGroup(AcaciaExpr):
 
     def unaryneg(self, compiler):
         # -expr = expr * (-1)
-        return self.mul(compiler.add_int_const(-1))
+        return self.mul(IntLiteral(-1), compiler)
 
     ## BINARY (SELF ... OTHER) OPERATORS
 
@@ -558,10 +560,10 @@ class IntOpGroup(AcaciaExpr):
     def _r_add_mul(self, name: str, other, compiler):
         # a (+ or *) b is b (+ or *) a
         if isinstance(other, (IntLiteral, IntVar)):
-            return getattr(self, name)(other)
+            return getattr(self, name)(other, compiler)
         raise InvalidOpError
 
-    def _r_sub_div_mod(self, other, name, compiler):
+    def _r_sub_div_mod(self, name: str, other, compiler):
         # Convert `other` to `IntOpGroup` and use this to handle this
         # operation.
         if isinstance(other, (IntLiteral, IntVar)):
-- 
2.43.0


From 36e2222f3d322564425cbec4f41316f011b59773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:09 +0000
Subject: [PATCH 02/63] fix: evaluate the condition of a while loop before
 every iteration

Commands that compute the condition (e.g. a function call in it) were only
run once before the loop.
---
 acaciamc/mccmdgen/generator.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/acaciamc/mccmdgen/generator.py b/acaciamc/mccmdgen/generator.py
index 03766b8..9f59b34 100644
--- a/acaciamc/mccmdgen/generator.py
+++ b/acaciamc/mccmdgen/generator.py
@@ -422,7 +422,11 @@ class Generator(ASTVisitor):
 
     def visit_While(self, node: While):
         # condition
-        condition: AcaciaExpr = self.visit(node.condition)
+        # Commands that evaluate it need to run before every iteration.
+        cond_file = cmds.MCFunctionFile()
+        with self.set_mcfunc_file(cond_file):
+            condition: AcaciaExpr = self.visit(node.condition)
+        self.current_file.extend(cond_file.commands)
         if not condition.data_type.matches_cls(BoolDataType):
             self.error_c(ErrorType.WRONG_WHILE_CONDITION,
                          got=str(condition.data_type))
@@ -432,6 +436,7 @@ class Generator(ASTVisitor):
             body_file.write_debug('## Part 1. Body')
             for stmt in node.body:
                 self.visit(stmt)
+            body_file.extend(cond_file.commands)
         # process condition
         if isinstance(condition, BoolLiteral):
             # optimize when condition is known at compile time
-- 
2.43.0


From 5e7c92823a7d2dd4a59bcbd0d8e77563b3f5beae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:00 +0000
Subject: [PATCH 03/63] fix: if/else on a bool variable ran both branches when
 the first one changed it

---
 acaciamc/mccmdgen/generator.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/acaciamc/mccmdgen/generator.py b/acaciamc/mccmdgen/generator.py
index 9f59b34..edc5ae0 100644
--- a/acaciamc/mccmdgen/generator.py
+++ b/acaciamc/mccmdgen/generator.py
@@ -407,8 +407,12 @@ class Generator(ASTVisitor):
             )
             return
         # Fallback
-        dep, condition_var = to_BoolVar(condition, self.compiler, tmp=False)
-        self.current_file.extend(dep)
+        # Use a new variable, since "then" might change the value that
+        # the condition was evaluated from.
+        condition_var = BoolVar.new(self.compiler)
+        self.current_file.extend(
+            condition.export(condition_var, self.compiler)
+        )
         if has_then:
             self.current_file.write(cmds.Execute(
                 [cmds.ExecuteScoreMatch(condition_var.slot, "1")],
-- 
2.43.0


From 4f4c6e6a29aa5989c73831ce8672ac5a1ded0876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:00 +0000
Subject: [PATCH 04/63] fix: comparing a bool literal with a non-bool crashed
 the compiler

---
 acaciamc/objects/boolean.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/acaciamc/objects/boolean.py b/acaciamc/objects/boolean.py
index c28d029..f9f5395 100644
--- a/acaciamc/objects/boolean.py
+++ b/acaciamc/objects/boolean.py
@@ -162,6 +162,7 @@ class BoolLiteral(ConstExprCombined):
         true = self.value == (op is Operator.equal_to)
         if self.data_type.is_type_of(other):
             return other if true else other.unarynot(compiler)
+        raise InvalidOpError
 
     def ccompare(self, op: Operator, other: "CTObj"):
         if not (op is Operator.equal_to or op is Operator.unequal_to):
-- 
2.43.0


From 126e5eafb02b4df343658c39af14a4b6922325fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:01 +0000
Subject: [PATCH 05/63] fix: augmented assignment on an unsupported type
 crashed the compiler

---
 acaciamc/mccmdgen/expr.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/acaciamc/mccmdgen/expr.py b/acaciamc/mccmdgen/expr.py
index 74fadbe..88d2d10 100644
--- a/acaciamc/mccmdgen/expr.py
+++ b/acaciamc/mccmdgen/expr.py
@@ -186,15 +186,15 @@ class AcaciaExpr:
     def unarynot(self, compiler: "Compiler") -> "AcaciaExpr":
         raise InvalidOpError
 
-    def iadd(self, compiler: "Compiler") -> CMDLIST_T:
+    def iadd(self, other: "AcaciaExpr", compiler: "Compiler") -> CMDLIST_T:
         raise InvalidOpError
-    def isub(self, compiler: "Compiler") -> CMDLIST_T:
+    def isub(self, other: "AcaciaExpr", compiler: "Compiler") -> CMDLIST_T:
         raise InvalidOpError
-    def imul(self, compiler: "Compiler") -> CMDLIST_T:
+    def imul(self, other: "AcaciaExpr", compiler: "Compiler") -> CMDLIST_T:
         raise InvalidOpError
-    def idiv(self, compiler: "Compiler") -> CMDLIST_T:
+    def idiv(self, other: "AcaciaExpr", compiler: "Compiler") -> CMDLIST_T:
         raise InvalidOpError
-    def imod(self, compiler: "Compiler") -> CMDLIST_T:
+    def imod(self, other: "AcaciaExpr", compiler: "Compiler") -> CMDLIST_T:
         raise InvalidOpError
 
 class ConstExpr(AcaciaExpr, metaclass=ABCMeta):
-- 
2.43.0


From a3ff6ce15c480714b3901f6b2fde7daea75fa547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:01 +0000
Subject: [PATCH 06/63] fix: crash when reporting a duplicate struct attribute

---
 acaciamc/mccmdgen/generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/mccmdgen/generator.py b/acaciamc/mccmdgen/generator.py
index edc5ae0..003e071 100644
--- a/acaciamc/mccmdgen/generator.py
+++ b/acaciamc/mccmdgen/generator.py
@@ -931,7 +931,7 @@ class Generator(ASTVisitor):
             if isinstance(decl, StructField):
                 name, type_ = res
                 if name in fields:
-                    self.error_c(ErrorType.SFIELD_MULTIPLE_DEFS, name=name)
+                    self.error_c(ErrorType.SFIELD_MULTIPLE_DEFS, attr=name)
                 fields[name] = type_
             else:
                 assert isinstance(decl, Pass)
-- 
2.43.0


From 2afe3e468b60f2b8f81120aec22c9888b1f83a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:18 +0000
Subject: [PATCH 07/63] fix: operators shown as localization keys in errors of
 compile time functions

---
 acaciamc/mccmdgen/ctexecuter.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/acaciamc/mccmdgen/ctexecuter.py b/acaciamc/mccmdgen/ctexecuter.py
index d582565..973dcf3 100644
--- a/acaciamc/mccmdgen/ctexecuter.py
+++ b/acaciamc/mccmdgen/ctexecuter.py
@@ -5,6 +5,7 @@ from contextlib import contextmanager
 
 from acaciamc.ast import *
 from acaciamc.error import Error, ErrorType, SourceLocation
+from acaciamc.localization import localize
 from acaciamc.mccmdgen.ctexpr import *
 from acaciamc.mccmdgen.symbol import SymbolTable, CTRTConversionError
 from acaciamc.mccmdgen.utils import unreachable, InvalidOpError
@@ -159,7 +160,7 @@ class CTExecuter(ASTVisitor):
             return meth()
         except InvalidOpError:
             self.error_node(node, ErrorType.INVALID_OPERAND,
-                            operator=node.operator.value,
+                            operator=node.operator.localized,
                             operand=f'"{obj.cdata_type.name}"')
 
     def visit_BinOp(self, node: BinOp):
@@ -175,7 +176,7 @@ class CTExecuter(ASTVisitor):
                 rs = right.cdata_type.name
                 self.error_node(
                     node, ErrorType.INVALID_OPERAND,
-                    operator=node.operator.value,
+                    operator=node.operator.localized,
                     operand=f'"{ls}", "{rs}"'
                 )
         return res
@@ -196,7 +197,7 @@ class CTExecuter(ASTVisitor):
                     rs = right.cdata_type.name
                     self.error_node(
                         node, ErrorType.INVALID_OPERAND,
-                        operator=operator.value,
+                        operator=operator.localized,
                         operand=f'"{ls}", "{rs}"'
                     )
             if not res:
@@ -214,7 +215,7 @@ class CTExecuter(ASTVisitor):
                 self.error_node(
                     node.operands[i],
                     ErrorType.INVALID_BOOLOP_OPERAND,
-                    operator=operator.value,
+                    operator=operator.localized,
                     operand=operand.cdata_type.name
                 )
             if operand.value and operator is Operator.or_:
@@ -285,7 +286,9 @@ class CTExecuter(ASTVisitor):
             t1 = abs(target).cdata_type.name
             t2 = value.cdata_type.name
             self.error_node(node, ErrorType.INVALID_OPERAND,
-                            operator=f'{node.operator.value}=',
+                            operator=localize(
+                                f'{node.operator.value}.augmented'
+                            ),
                             operand=f'"{t1}", "{t2}"')
         target.set(res)
 
-- 
2.43.0


From cca7c774704e7db305fb3861a7be07403c89cd6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:18 +0000
Subject: [PATCH 08/63] fix: misleading error for subscripting in compile time
 functions

---
 acaciamc/mccmdgen/ctexecuter.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/acaciamc/mccmdgen/ctexecuter.py b/acaciamc/mccmdgen/ctexecuter.py
index 973dcf3..6137e93 100644
--- a/acaciamc/mccmdgen/ctexecuter.py
+++ b/acaciamc/mccmdgen/ctexecuter.py
@@ -134,17 +134,17 @@ class CTExecuter(ASTVisitor):
             self.error_node(self.curnode, ErrorType.NOT_CONST_ATTR,
                             attr=attr, type_=str(err.expr.data_type),
                             primary=primary.cdata_type.name)
-        if v is None:
-            self.error_node(
-                self.curnode,
-                ErrorType.HAS_NO_ATTRIBUTE,
-                value_type=primary.cdata_type.name, attr=attr
-            )
         return v
 
     def visit_Attribute(self, node: Attribute):
         obj: CTObj = abs(self.visit(node.object))
-        return self.attribute_of(obj, node.attr)
+        v = self.attribute_of(obj, node.attr)
+        if v is None:
+            self.error_node(
+                node, ErrorType.HAS_NO_ATTRIBUTE,
+                value_type=obj.cdata_type.name, attr=node.attr
+            )
+        return v
 
     def visit_UnaryOp(self, node: UnaryOp):
         obj: CTObj = abs(self.visit(node.operand))
-- 
2.43.0


From 6a13f8badf9f252e92a825ba0cb938196904b80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:37 +0000
Subject: [PATCH 09/63] fix: print.format crashed on "%{}"

---
 acaciamc/modules/print.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/modules/print.py b/acaciamc/modules/print.py
index d8771ce..36729a5 100644
--- a/acaciamc/modules/print.py
+++ b/acaciamc/modules/print.py
@@ -78,7 +78,7 @@ class _FStrParser:
         """Get the expr from an format
         e.g. "0" -> args[0]; "key" -> keywords["key"]
         """
-        if all(c in DIGITS for c in name):
+        if name and all(c in DIGITS for c in name):
             index = int(name)
             try:
                 expr = self.args[index]
-- 
2.43.0


From 58ad5c3f363123fdb41c7ea591d607e1a0204184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:23 +0000
Subject: [PATCH 10/63] fix: integer range strings: keep "!" and report
 malformed ranges

"!1..3" silently lost its negation and "1..2..3" crashed the compiler.
---
 acaciamc/objects/entity_filter.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/acaciamc/objects/entity_filter.py b/acaciamc/objects/entity_filter.py
index a893ae4..5538323 100644
--- a/acaciamc/objects/entity_filter.py
+++ b/acaciamc/objects/entity_filter.py
@@ -46,11 +46,13 @@ class IntRange(axe.AnyOf):
         if isinstance(origin_py, int):
             return str(origin_py)
         assert isinstance(origin_py, str)
-        origin_py = origin_py.lstrip()
+        origin_py = origin_py.strip()
+        prefix = ""
         if origin_py.startswith("!"):
-            origin_py = origin_py[1:]
+            prefix = "!"
+            origin_py = origin_py[1:].strip()
         if ".." in origin_py:
-            min_, max_ = origin_py.split("..")
+            min_, _, max_ = origin_py.partition("..")
             min_ = min_.strip()
             max_ = max_.strip()
             if not min_ and not max_:
@@ -58,10 +60,10 @@ class IntRange(axe.AnyOf):
             if (min_ and not self.check_int(min_)
                 or max_ and not self.check_int(max_)):
                 self.wrong_argument()
-            return "%s..%s" % (min_, max_)
+            return "%s%s..%s" % (prefix, min_, max_)
         else:
             if self.check_int(origin_py):
-                return origin_py
+                return prefix + origin_py
             else:
                 self.wrong_argument()
 
-- 
2.43.0


From a19d45f29d8fe2aeddee70231a7982fb050da35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:26 +0000
Subject: [PATCH 11/63] fix: crash when an argument can't be converted between
 run time and compile time

---
 acaciamc/tools/axe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acaciamc/tools/axe.py b/acaciamc/tools/axe.py
index 9ce908c..66d660f 100644
--- a/acaciamc/tools/axe.py
+++ b/acaciamc/tools/axe.py
@@ -782,7 +782,7 @@ def _get_convert(origin: _EXPR_T, converter: _CONVERTER_T):
         elif isinstance(origin, acacia.ConstExpr):
             convert = lambda: converter.cconvert(origin.to_ctexpr())
         else:
-            raise _PreconvertError(_PE_NOT_CONST)
+            raise _PreconvertError(_PE_NOT_CONST, origin)
     else:
         if isinstance(converter, CTConverter):
             convert = lambda: converter.cconvert(origin)
@@ -790,7 +790,7 @@ def _get_convert(origin: _EXPR_T, converter: _CONVERTER_T):
             try:
                 origin_rt = abs(origin).to_rt()
             except InvalidOpError:
-                raise _PreconvertError(_PE_NOT_RT)
+                raise _PreconvertError(_PE_NOT_RT, origin)
             convert = lambda: converter.convert(origin_rt)
     return convert
 
-- 
2.43.0


From d9d2dca48e2af99ca5716360529634bf48a7e7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:38 +0000
Subject: [PATCH 12/63] fix: None held in a compile time variable crashed or
 was rejected by optional arguments

---
 acaciamc/tools/axe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acaciamc/tools/axe.py b/acaciamc/tools/axe.py
index 66d660f..2d37ffc 100644
--- a/acaciamc/tools/axe.py
+++ b/acaciamc/tools/axe.py
@@ -402,7 +402,7 @@ def _exprrepr(expr: _EXPR_T) -> str:
     if isinstance(expr, acacia.AcaciaExpr):
         return str(expr.data_type)
     assert isinstance(expr, (acaciact.CTObj, acaciact.CTObjPtr))
-    return expr.cdata_type.name
+    return abs(expr).cdata_type.name
 
 class LiteralInt(UTyped):
     """Accepts an integer literal and converts it to Python `int`.
@@ -487,7 +487,7 @@ class Nullable(ConverterContainer):
         return self.converter.convert(origin)
 
     def cconvert(self, origin: acaciact.CTObj):
-        if isinstance(origin, objects.NoneLiteral):
+        if isinstance(abs(origin), objects.NoneLiteral):
             return None
         return self.converter.cconvert(origin)
 
-- 
2.43.0


From bcaf457b6a235c81eb9b319f430692a727635855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:15 +0000
Subject: [PATCH 13/63] fix: "older" version requirement was inverted

---
 acaciamc/tools/versionlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/tools/versionlib.py b/acaciamc/tools/versionlib.py
index 798ac4c..7517f58 100644
--- a/acaciamc/tools/versionlib.py
+++ b/acaciamc/tools/versionlib.py
@@ -67,7 +67,7 @@ class VersionLower(VersionRequirement):
         return "<%s" % format_version(self.version)
 
     def validate(self, version: VERSION_T) -> bool:
-        return self.version < version
+        return version < self.version
 
 def at_least(version: VERSION_T) -> VersionRequirement:
     """Requires >= the given version."""
-- 
2.43.0


From eaf0c328fbf13a7f72b4c62299495619a8832145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:36 +0000
Subject: [PATCH 14/63] fix: comparing a score beyond the 32-bit range produced
 an invalid range

---
 acaciamc/objects/boolean.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/acaciamc/objects/boolean.py b/acaciamc/objects/boolean.py
index f9f5395..7091b5b 100644
--- a/acaciamc/objects/boolean.py
+++ b/acaciamc/objects/boolean.py
@@ -289,10 +289,18 @@ class ScbMatchesCompare(CompareBase):
 
     def as_execute(self, compiler) -> Tuple[CMDLIST_T, List["_ExecuteSubcmd"]]:
         res = []
+        # `> INT_MAX` and `< INT_MIN` never hold; the bound can't be
+        # shifted by 1 since that's not a valid score.
         match_range = {
-            Operator.greater: '%d..' % (self.literal + 1),
+            Operator.greater: (
+                '!..%d' % INT_MAX if self.literal >= INT_MAX
+                else '%d..' % (self.literal + 1)
+            ),
             Operator.greater_equal: '%d..' % self.literal,
-            Operator.less: '..%d' % (self.literal - 1),
+            Operator.less: (
+                '!%d..' % INT_MIN if self.literal <= INT_MIN
+                else '..%d' % (self.literal - 1)
+            ),
             Operator.less_equal: '..%d' % self.literal,
             Operator.equal_to: str(self.literal),
             Operator.unequal_to: '!%d' % self.literal
-- 
2.43.0


From 12572d0e4ebb684a9d42163dc677f2296b4f9dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:36 +0000
Subject: [PATCH 15/63] fix: negated "and" could not be compared with another
 negated "and"

---
 acaciamc/objects/boolean.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/objects/boolean.py b/acaciamc/objects/boolean.py
index 7091b5b..0bb5b2c 100644
--- a/acaciamc/objects/boolean.py
+++ b/acaciamc/objects/boolean.py
@@ -64,7 +64,7 @@ def _bool_compare(self: AcaciaExpr, op: Operator, other: AcaciaExpr, compiler):
     elif isinstance(other, NotBoolVar):
         slot2 = other.slot
         invert = not invert
-    elif isinstance(other, (CompareBase, WildBool)):
+    elif isinstance(other, (CompareBase, WildBool, NotWildBool)):
         _dep, other_var = to_BoolVar(other, compiler)
         dep.extend(_dep)
         slot2 = other_var.slot
-- 
2.43.0


From 2c15b65d9690e6ca227003a0790b75151f1001ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:50 +0000
Subject: [PATCH 16/63] fix: integer ranges from compile time variables were
 not validated

---
 acaciamc/objects/entity_filter.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/acaciamc/objects/entity_filter.py b/acaciamc/objects/entity_filter.py
index 5538323..b1d5943 100644
--- a/acaciamc/objects/entity_filter.py
+++ b/acaciamc/objects/entity_filter.py
@@ -22,6 +22,7 @@ from .position import PosDataType
 if TYPE_CHECKING:
     from .position import Position
     from acaciamc.mccmdgen.cmds import _ExecuteSubcmd
+    from acaciamc.mccmdgen.ctexpr import CTExpr
     from acaciamc.compiler import Compiler
 
 RE_INT = re.compile(r"^[+-]?\s*\d+$")
@@ -42,7 +43,12 @@ class IntRange(axe.AnyOf):
         return RE_INT.match(value) is not None
 
     def convert(self, origin: AcaciaExpr) -> str:
-        origin_py = super().convert(origin)
+        return self._to_range(super().convert(origin))
+
+    def cconvert(self, origin: "CTExpr") -> str:
+        return self._to_range(super().cconvert(origin))
+
+    def _to_range(self, origin_py: Union[int, str]) -> str:
         if isinstance(origin_py, int):
             return str(origin_py)
         assert isinstance(origin_py, str)
-- 
2.43.0


From 7c90f2205b2deeada130eea373d464556e427c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:10 +0000
Subject: [PATCH 17/63] fix: a list range or slice with step 0 crashed the
 compiler

---
 acaciamc/lang/en_US.lang  | 6 ++++++
 acaciamc/objects/list_.py | 8 ++++++++
 2 files changed, 14 insertions(+)

diff --git a/acaciamc/lang/en_US.lang b/acaciamc/lang/en_US.lang
index b8cd93a..e3dde62 100644
--- a/acaciamc/lang/en_US.lang
+++ b/acaciamc/lang/en_US.lang
@@ -436,6 +436,12 @@ objects.function.bvm.dispatcher = <dispatcher of virtual method %s>
 
 objects.function.unknown = <unknown>
 
+### objects/list_.py ###
+
+## AcaciaList, CTConstList, ListType ##
+
+objects.list.zerostep = step must not be 0
+
 ### generator.py ###
 
 ## visit_NewCall ##
diff --git a/acaciamc/objects/list_.py b/acaciamc/objects/list_.py
index bb0b0c7..c1af049 100644
--- a/acaciamc/objects/list_.py
+++ b/acaciamc/objects/list_.py
@@ -17,6 +17,7 @@ from .types import Type
 from .integer import IntDataType, IntLiteral
 from acaciamc.tools import axe, cmethod_of
 from acaciamc.error import *
+from acaciamc.localization import localize
 from acaciamc.mccmdgen.expr import *
 from acaciamc.mccmdgen.datatype import DefaultDataType
 from acaciamc.mccmdgen.ctexpr import CTObj, CTObjPtr, CTDataType
@@ -31,6 +32,10 @@ class ListDataType(DefaultDataType):
 ctdt_constlist = CTDataType("const_list")
 ctdt_list = CTDataType("list", (ctdt_constlist,))
 
+def _check_step(step: int):
+    if step == 0:
+        raise axe.ArgumentError("step", localize("objects.list.zerostep"))
+
 class ListType(Type):
     def do_init(self):
         @cmethod_of(self, "range")
@@ -56,6 +61,7 @@ class ListType(Type):
             @axe.arg("stop", axe.LiteralInt())
             @axe.arg("step", axe.LiteralInt())
             def full(cls, compiler, start: int, stop: int, step: int):
+                _check_step(step)
                 return cls._impl(start, stop, step)
         @cmethod_of(self, "__new__")
         @axe.chop
@@ -128,6 +134,7 @@ class AcaciaList(ConstExpr):
             @axe.arg("stop", axe.Nullable(axe.LiteralInt()))
             @axe.arg("step", axe.LiteralInt())
             def full(cls, compiler, start, stop, step: int):
+                _check_step(step)
                 return cls._impl(start, stop, step)
         @cmethod_of(self, "cycle")
         @axe.chop
@@ -205,6 +212,7 @@ class CTConstList(CTObj):
             @axe.arg("stop", axe.Nullable(axe.LiteralInt()))
             @axe.arg("step", axe.LiteralInt())
             def full(cls, compiler, start, stop, step: int):
+                _check_step(step)
                 return cls._impl(start, stop, step)
         @cmethod_of(self, "cycle")
         @axe.chop
-- 
2.43.0


From cc195876ecf0e6bbabde1fb832c7385805576b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:26 +0000
Subject: [PATCH 18/63] fix: reporting an unexpected error crashed on Python
 before 3.10

---
 acaciamc/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/cli.py b/acaciamc/cli.py
index e5423b4..55469c3 100644
--- a/acaciamc/cli.py
+++ b/acaciamc/cli.py
@@ -214,7 +214,7 @@ def run(args):
         else:
             fatal(
                 localize("cli.run.unexpectederror")
-                % traceback.format_exception_only(err)[-1].strip()
+                % traceback.format_exception_only(type(err), err)[-1].strip()
             )
 
 def main():
-- 
2.43.0


From aaaf77fbaf1d0ae722f63b8b09696021d35071a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:43 +0000
Subject: [PATCH 19/63] fix: optimized output was not reproducible

---
 acaciamc/mccmdgen/optimizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/acaciamc/mccmdgen/optimizer.py b/acaciamc/mccmdgen/optimizer.py
index 8345daf..37e8369 100644
--- a/acaciamc/mccmdgen/optimizer.py
+++ b/acaciamc/mccmdgen/optimizer.py
@@ -41,7 +41,8 @@ class Optimizer(cmds.FunctionsManager, metaclass=ABCMeta):
                 _visit(ref)
         for file in self.entry_files():
             _visit(file)
-        self.files = list(visited)
+        # Keep the order so that the output is reproducible.
+        self.files = [file for file in self.files if file in visited]
 
     @property
     @abstractmethod
-- 
2.43.0


From 73571db3b91fc59920fff8ba78ef6a720c780ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:43 +0000
Subject: [PATCH 20/63] fix: module lookup depended on the order of directory
 listing

---
 acaciamc/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/compiler.py b/acaciamc/compiler.py
index ab6c4e3..0c715b2 100644
--- a/acaciamc/compiler.py
+++ b/acaciamc/compiler.py
@@ -332,7 +332,7 @@ class Compiler:
                 # meaning this `root` is invalid; continue
                 continue
             ## Step 3
-            for child in os.listdir(final):
+            for child in sorted(os.listdir(final)):
                 path = os.path.join(final, child)
                 if not os.path.isfile(path):
                     continue
-- 
2.43.0


From b937ef022b7375edf59bf180e01dc46cd38dc858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:09 +0000
Subject: [PATCH 21/63] fix: contradictory "and" of score ranges produced an
 invalid range

---
 acaciamc/objects/boolean.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/acaciamc/objects/boolean.py b/acaciamc/objects/boolean.py
index 0bb5b2c..cbba188 100644
--- a/acaciamc/objects/boolean.py
+++ b/acaciamc/objects/boolean.py
@@ -449,6 +449,8 @@ def new_and_group(operands: List[AcaciaExpr], compiler) -> AcaciaExpr:
                 rng = ranges.setdefault(slot, [INT_MIN, INT_MAX])
                 rng[0] = max(min_, rng[0])
                 rng[1] = min(max_, rng[1])
+                if rng[0] > rng[1]:  # must be False
+                    return BoolLiteral(False)
             operand = None
         elif isinstance(operand, NotWildBool):
             # `a and not (b and c)` needs a tmp var:
-- 
2.43.0


From 5aab5eaf805c8969b0c8ba3b6750854dc8a4c48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:58 +0000
Subject: [PATCH 22/63] fix: schedule.register_loop with a compound interval
 only applied its first command

---
 acaciamc/modules/schedule.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/acaciamc/modules/schedule.py b/acaciamc/modules/schedule.py
index 2e00f21..7eb329e 100644
--- a/acaciamc/modules/schedule.py
+++ b/acaciamc/modules/schedule.py
@@ -217,13 +217,16 @@ def register_loop(compiler: "Compiler", target: AcaciaCallable,
     init_cmds = [cmds.ScbSetConst(timer.slot, 0)]
     # Tick loop
     ## Call on times up AND reset timer
+    # They are put in a file since resetting the timer may need several
+    # commands and the first one of them can change the timer.
     tick_commands.extend(interval.export(timer, compiler))
-    compiler.file_tick.extend(
-        cmds.execute(
-            [cmds.ExecuteScoreMatch(timer.slot, "..0")], runs=cmd
-        )
-        for cmd in tick_commands
-    )
+    loop_file = cmds.MCFunctionFile()
+    loop_file.extend(tick_commands)
+    compiler.add_file(loop_file)
+    compiler.file_tick.write(cmds.Execute(
+        [cmds.ExecuteScoreMatch(timer.slot, "..0")],
+        runs=cmds.InvokeFunction(loop_file)
+    ))
     ## Decrease the timer by 1
     compiler.file_tick.write(cmds.ScbRemoveConst(timer.slot, 1))
     # Result
-- 
2.43.0


From a97fb88ca87756e0fed6cfebad539fc6b2a6118f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:43 +0000
Subject: [PATCH 23/63] fix: assigning a constructor call changed the variable
 before reading its arguments

---
 acaciamc/mccmdgen/generator.py      |  2 +-
 acaciamc/objects/entity_template.py |  6 ++++++
 acaciamc/objects/functions.py       |  7 +++++++
 acaciamc/objects/struct_template.py | 13 +++++++++++++
 4 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/acaciamc/mccmdgen/generator.py b/acaciamc/mccmdgen/generator.py
index 003e071..6016a37 100644
--- a/acaciamc/mccmdgen/generator.py
+++ b/acaciamc/mccmdgen/generator.py
@@ -286,7 +286,7 @@ class Generator(ASTVisitor):
         if value is not None:
             commands = value.export(target, self.compiler)
         else:
-            commands = func.initialize(target, self.compiler, **ctor_kwds)
+            commands = func.reinitialize(target, self.compiler, **ctor_kwds)
         # write commands
         self.current_file.extend(commands)
 
diff --git a/acaciamc/objects/entity_template.py b/acaciamc/objects/entity_template.py
index 054ec5a..a799f76 100644
--- a/acaciamc/objects/entity_template.py
+++ b/acaciamc/objects/entity_template.py
@@ -480,6 +480,12 @@ class EntityTemplate(ConstExprCombined, ConstructorFunction):
             )
         ]
 
+    def reinitialize(self, instance: "TaggedEntity", compiler: "Compiler",
+                     args, keywords):
+        # Summon first since the arguments may refer to the old entity.
+        new, commands = self.call(args, keywords, compiler)
+        return [*commands, *new.export(instance, compiler)]
+
     def is_subtemplate_of(self, other: "EntityTemplate") -> bool:
         # Return whether `self` is a subtemplate of `other`. A
         # template itself is considered as a subtemplate of itself.
diff --git a/acaciamc/objects/functions.py b/acaciamc/objects/functions.py
index f228af1..522ff0a 100644
--- a/acaciamc/objects/functions.py
+++ b/acaciamc/objects/functions.py
@@ -603,6 +603,13 @@ class ConstructorFunction(AcaciaCallable):
         """Initialize the `instance` and return commands to execute."""
         pass
 
+    def reinitialize(self, instance, compiler, **kwds) -> CMDLIST_T:
+        """
+        Same as `initialize` but `instance` is an existing variable, so
+        the arguments may refer to its old value.
+        """
+        return self.initialize(instance, compiler, **kwds)
+
     def pre_initialize(self, args: ARGS_T, keywords: KEYWORDS_T, compiler) \
             -> Tuple[Storable, Dict[str, Any]]:
         """
diff --git a/acaciamc/objects/struct_template.py b/acaciamc/objects/struct_template.py
index 71ef4a7..c1e86fb 100644
--- a/acaciamc/objects/struct_template.py
+++ b/acaciamc/objects/struct_template.py
@@ -71,3 +71,16 @@ class StructTemplate(ConstExprCombined, ConstructorFunction):
             return resultlib.commands(commands)
         _, c = BinaryFunction(_call_me).call(args, keywords, compiler)
         return c
+
+    def reinitialize(
+        self, instance: "Struct", compiler,
+        args: "ARGS_T", keywords: "KEYWORDS_T"
+    ):
+        # The arguments may refer to fields of `instance`: calculate all
+        # of them before changing any field.
+        new, commands = self.call(args, keywords, compiler)
+        for name, var in instance.vars.items():
+            # `self` may have fields that `instance` doesn't have.
+            if name in keywords:
+                commands.extend(new.vars[name].export(var, compiler))
+        return commands
-- 
2.43.0


From 19e7100adb637dc07bd7b70556f1785ed8d7dd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:17 +0000
Subject: [PATCH 24/63] fix: scores of different selectors were assumed to be
 different scores

---
 acaciamc/mccmdgen/cmds.py   | 40 +++++++++++++++++++++++++++----------
 acaciamc/modules/math.py    |  2 +-
 acaciamc/objects/boolean.py |  8 +++-----
 acaciamc/objects/integer.py |  2 +-
 4 files changed, 34 insertions(+), 18 deletions(-)

diff --git a/acaciamc/mccmdgen/cmds.py b/acaciamc/mccmdgen/cmds.py
index 33069a3..01d1dc9 100644
--- a/acaciamc/mccmdgen/cmds.py
+++ b/acaciamc/mccmdgen/cmds.py
@@ -42,6 +42,21 @@ class ScbSlot(NamedTuple):
             mc_str(self.objective)
         )
 
+    def is_entity(self) -> bool:
+        """Return whether this belongs to entities in the world (rather
+        than a fake player).
+        """
+        return self.target == "*" or self.target.startswith("@")
+
+    def may_alias(self, other: "ScbSlot") -> bool:
+        """Return whether 2 slots can possibly be the same score."""
+        if self.objective != other.objective:
+            return False
+        # Different selectors can select the same entity.
+        return (self.target == other.target
+                or "*" in (self.target, other.target)
+                or (self.is_entity() and other.is_entity()))
+
 class Command(metaclass=ABCMeta):
 
     is_debug = False  # only write when -d is set
@@ -93,7 +108,7 @@ class ScbSetConst(Command):
         )
 
     def scb_did_assign(self, slot: ScbSlot) -> bool:
-        return slot == self.target
+        return slot.may_alias(self.target)
 
 class ScbAddConst(Command):
     def __init__(self, target: ScbSlot, value: int):
@@ -106,7 +121,7 @@ class ScbAddConst(Command):
         )
 
     def scb_did_assign(self, slot: ScbSlot) -> bool:
-        return slot == self.target
+        return slot.may_alias(self.target)
 
 class ScbRemoveConst(Command):
     def __init__(self, target: ScbSlot, value: int):
@@ -119,7 +134,7 @@ class ScbRemoveConst(Command):
         )
 
     def scb_did_assign(self, slot: ScbSlot) -> bool:
-        return slot == self.target
+        return slot.may_alias(self.target)
 
 class ScbOp(Enum):
     ADD_EQ = "+="
@@ -147,15 +162,17 @@ class ScbOperation(Command):
 
     def scb_did_assign(self, slot: ScbSlot) -> bool:
         if self.operator is ScbOp.SWAP:
-            return slot == self.operand1 or slot == self.operand2
+            return (slot.may_alias(self.operand1)
+                    or slot.may_alias(self.operand2))
         else:
-            return slot == self.operand1
+            return slot.may_alias(self.operand1)
 
     def scb_did_read(self, slot: ScbSlot) -> bool:
         if self.operator is ScbOp.SWAP:
-            return slot == self.operand1 or slot == self.operand2
+            return (slot.may_alias(self.operand1)
+                    or slot.may_alias(self.operand2))
         else:
-            return slot == self.operand2
+            return slot.may_alias(self.operand2)
 
 class ScbRandom(Command):
     def __init__(self, target: ScbSlot, min_: int, max_: int):
@@ -170,7 +187,7 @@ class ScbRandom(Command):
         )
 
     def scb_did_assign(self, slot: ScbSlot) -> bool:
-        return slot == self.target
+        return slot.may_alias(self.target)
 
 class ScbObjAdd(Command):
     def __init__(self, name: str, display_name: Optional[str] = None):
@@ -377,7 +394,8 @@ class ExecuteScoreComp(_ExecuteSubcmd):
         self.invert = invert
 
     def scb_did_read(self, slot: ScbSlot) -> bool:
-        return slot == self.operand1 or slot == self.operand2
+        return (slot.may_alias(self.operand1)
+                or slot.may_alias(self.operand2))
 
     def resolve(self) -> str:
         return "%s score %s %s %s" % (
@@ -395,7 +413,7 @@ class ExecuteScoreMatch(_ExecuteSubcmd):
         self.invert = invert
 
     def scb_did_read(self, slot: ScbSlot) -> bool:
-        return slot == self.operand
+        return slot.may_alias(self.operand)
 
     def resolve(self) -> str:
         return "%s score %s matches %s" % (
@@ -549,7 +567,7 @@ class RawtextOutput(Command):
         )
 
     def scb_did_read(self, slot: ScbSlot) -> bool:
-        return slot in self.score_slots
+        return any(map(slot.may_alias, self.score_slots))
 
 class TitlerawTimes(Command):
     def __init__(self, player: str, fade_in: int, stay: int, fade_out: int):
diff --git a/acaciamc/modules/math.py b/acaciamc/modules/math.py
index 4a448fc..71dbf71 100644
--- a/acaciamc/modules/math.py
+++ b/acaciamc/modules/math.py
@@ -36,7 +36,7 @@ class IntXOpSelf(IntOp):
         self.x = x
 
     def scb_did_assign(self, slot: cmds.ScbSlot) -> bool:
-        return slot == self.x
+        return slot.may_alias(self.x)
 
     def resolve(self, var: IntVar) -> CMDLIST_T:
         return [cmds.ScbOperation(STR2SCBOP[self.op], self.x, var.slot)]
diff --git a/acaciamc/objects/boolean.py b/acaciamc/objects/boolean.py
index cbba188..dc342d9 100644
--- a/acaciamc/objects/boolean.py
+++ b/acaciamc/objects/boolean.py
@@ -237,11 +237,9 @@ class NotBoolVar(AcaciaExpr):
                              cmds.ScbSetConst(var.slot, 0))
             ]
         else:
-            return [
-                cmds.ScbSetConst(var.slot, 0),
-                cmds.Execute([cmds.ExecuteScoreMatch(self.slot, "0")],
-                             cmds.ScbSetConst(var.slot, 1))
-            ]
+            return _export_bool(
+                [cmds.ExecuteScoreMatch(self.slot, "0")], var, compiler
+            )
 
     def compare(self, op, other, compiler):
         if not (op is Operator.equal_to or op is Operator.unequal_to):
diff --git a/acaciamc/objects/integer.py b/acaciamc/objects/integer.py
index b5365ef..6492aad 100644
--- a/acaciamc/objects/integer.py
+++ b/acaciamc/objects/integer.py
@@ -427,7 +427,7 @@ class IntOpVar(IntOp):
         self.slot = slot
 
     def scb_did_read(self, slot: cmds.ScbSlot) -> bool:
-        return slot == self.slot
+        return slot.may_alias(self.slot)
 
     def resolve(self, var: IntVar) -> CMDLIST_T:
         return [cmds.ScbOperation(self.op, var.slot, self.slot)]
-- 
2.43.0


From 615e160ffe271439f16ca24250c0854d457d0c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:17 +0000
Subject: [PATCH 25/63] fix: inlining re-evaluated a condition on an entity's
 score after entities may have changed

---
 acaciamc/mccmdgen/optimizer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/acaciamc/mccmdgen/optimizer.py b/acaciamc/mccmdgen/optimizer.py
index 37e8369..12e3a04 100644
--- a/acaciamc/mccmdgen/optimizer.py
+++ b/acaciamc/mccmdgen/optimizer.py
@@ -126,6 +126,9 @@ class Optimizer(cmds.FunctionsManager, metaclass=ABCMeta):
                     slots.add(subcmd.operand)
                 else:
                     unreachable()
+            if any(slot.is_entity() for slot in slots):
+                # Any command may change which entity is selected.
+                return True
             for command in commands:
                 for slot in slots:
                     if command.scb_did_assign(slot):
-- 
2.43.0


From 6eddc6951b76e3535450143a4904cd64193f131f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:05 +0000
Subject: [PATCH 26/63] fix: optimizer re-evaluated a condition changed by a
 raw /function command

---
 acaciamc/mccmdgen/cmds.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/acaciamc/mccmdgen/cmds.py b/acaciamc/mccmdgen/cmds.py
index 01d1dc9..171675e 100644
--- a/acaciamc/mccmdgen/cmds.py
+++ b/acaciamc/mccmdgen/cmds.py
@@ -97,6 +97,12 @@ class Cmd(Command):
     def resolve(self) -> str:
         return self.value
 
+    def scb_did_assign(self, slot: ScbSlot) -> bool:
+        # These commands may come from the user and we do not know what
+        # exactly they do: assume that they can change any score.
+        return (self.value.lstrip(" /").partition(" ")[0]
+                in ("scoreboard", "execute", "function"))
+
 class ScbSetConst(Command):
     def __init__(self, target: ScbSlot, value: int):
         self.target = target
-- 
2.43.0


From bf939611e1ede8c0b8187ee42d12e2ba9d19d6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:07 +0000
Subject: [PATCH 27/63] fix: empty selector arguments resulted in malformed
 selectors

---
 acaciamc/mccmdgen/mcselector.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/acaciamc/mccmdgen/mcselector.py b/acaciamc/mccmdgen/mcselector.py
index c0f0d62..8519602 100644
--- a/acaciamc/mccmdgen/mcselector.py
+++ b/acaciamc/mccmdgen/mcselector.py
@@ -81,12 +81,10 @@ class MCSelector:
         var = self.var
         if var is None:
             var = "e"  # when var is not set it should be all entities
-        return "@%s%s" % (
-            var,
-            "[%s]" % ",".join(self.arg_to_str(arg, value)
-                              for arg, value in self.args.items())
-            if self.args else ""
-        )
+        # Lists of tags, types, etc. may be empty.
+        args = [self.arg_to_str(arg, value)
+                for arg, value in self.args.items() if value != []]
+        return "@%s%s" % (var, "[%s]" % ",".join(args) if args else "")
 
     def player_type(self):
         if self.has_arg("type"):
-- 
2.43.0


From b21ee887b97faac495bd93c2cd5d493b340a9271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:17 +0000
Subject: [PATCH 28/63] fix: calls of a virtual method shared one result
 variable

---
 acaciamc/objects/functions.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/acaciamc/objects/functions.py b/acaciamc/objects/functions.py
index 522ff0a..13c3fa7 100644
--- a/acaciamc/objects/functions.py
+++ b/acaciamc/objects/functions.py
@@ -513,11 +513,15 @@ class BoundVirtualMethod(ConstExprCombined, AcaciaCallable):
         file = cmds.MCFunctionFile()
         self.files.append((args, keywords, file))
         compiler.add_file(file)
-        return self.result_var, [
+        # Make a copy of `result_var`
+        result = self.result_var.data_type.new_var(compiler)
+        result.is_temporary = True
+        return result, [
             cmds.Execute(
                 [cmds.ExecuteEnv("as", self.object.to_str())],
                 cmds.InvokeFunction(file)
-            )
+            ),
+            *self.result_var.export(result, compiler)
         ]
 
     def _generate(self, compiler: "Compiler"):
-- 
2.43.0


From 751c6edf0715c0701561237cf3966117428d4c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:19 +0000
Subject: [PATCH 29/63] fix: inline virtual methods could not use self

---
 acaciamc/objects/functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acaciamc/objects/functions.py b/acaciamc/objects/functions.py
index 13c3fa7..766b092 100644
--- a/acaciamc/objects/functions.py
+++ b/acaciamc/objects/functions.py
@@ -555,7 +555,7 @@ class BoundVirtualMethod(ConstExprCombined, AcaciaCallable):
                 file.extend(_call_bm(args, keywords, only_bm))
                 continue
             # Fallback
-            for impl, (_, templates, get_self_var) in self.impls.items():
+            for bm, templates, get_self_var in self.impls.values():
                 file.write_debug(
                     "# For %s"
                     % (", ".join(template.name for template in templates))
@@ -565,7 +565,7 @@ class BoundVirtualMethod(ConstExprCombined, AcaciaCallable):
                     sel.scores(compiler.etemplate_id_scb,
                                f"!{template.runtime_id}")
                 sel_s = sel.to_str()
-                commands = _call_bm(args, keywords, impl)
+                commands = _call_bm(args, keywords, bm)
                 if not commands:
                     continue
                 f = cmds.MCFunctionFile()
-- 
2.43.0


From e72c4e5e11b3487e291094a29c7b8d4f6a552f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:21 +0000
Subject: [PATCH 30/63] fix: self was lost after calling a virtual method from
 another implementation

---
 acaciamc/objects/functions.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/acaciamc/objects/functions.py b/acaciamc/objects/functions.py
index 766b092..6f3d8e8 100644
--- a/acaciamc/objects/functions.py
+++ b/acaciamc/objects/functions.py
@@ -585,11 +585,17 @@ class BoundVirtualMethod(ConstExprCombined, AcaciaCallable):
                     self_var = get_self_var()
                     # XXX direct access to TaggedEntity.tag
                     self_tag = self_var.tag
-                    file.extend(self_var.clear())
-                    file.write(cmds.Execute(
-                        [cmds.ExecuteCond("entity", sel_s, invert=True)],
-                        runs="tag @s add %s" % self_tag
-                    ))
+                    # Only when this is the implementation to run, since
+                    # another implementation may be our caller.
+                    file.extend(
+                        cmds.Execute(
+                            [cmds.ExecuteCond("entity", sel_s, invert=True)],
+                            runs=command
+                        )
+                        for command in (
+                            *self_var.clear(), "tag @s add %s" % self_tag
+                        )
+                    )
                     file.write(cmds.Execute(
                         [cmds.ExecuteCond("entity", "@s[tag=%s]" % self_tag)],
                         runs=cmds.InvokeFunction(f)
-- 
2.43.0


From 84e73a0d014d7affdef550756c830b1bd4afcd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:24 +0000
Subject: [PATCH 31/63] fix: virtual methods of a base that is not the first
 one crashed the compiler

---
 acaciamc/objects/entity_template.py | 46 +++++++++++++++--------------
 1 file changed, 24 insertions(+), 22 deletions(-)

diff --git a/acaciamc/objects/entity_template.py b/acaciamc/objects/entity_template.py
index a799f76..27511c8 100644
--- a/acaciamc/objects/entity_template.py
+++ b/acaciamc/objects/entity_template.py
@@ -103,16 +103,28 @@ class _MethodDispatcher:
         for bound in self.bound:
             bound.add_implementation(template, implementation, get_self_var)
 
-    def register_inherit(self, template: "EntityTemplate",
-                         parent: "EntityTemplate"):
-        for impl, (templates, get_self) in self.impls.items():
-            if parent in templates:
-                templates.append(template)
-                for bound in self.bound:
-                    bound.add_implementation(template, impl, get_self)
-                break
-        else:
+    def register_inherit(self, template: "EntityTemplate"):
+        impl, get_self = self.find_impl(template)
+        self.impls[impl][0].append(template)
+        for bound in self.bound:
+            bound.add_implementation(template, impl, get_self)
+
+    def find_impl(self, template: "EntityTemplate"):
+        """Find the implementation `template` uses according to MRO."""
+        best = None
+        mro = template.mro_
+        for impl, (templates, get_self_var) in self.impls.items():
+            try:
+                i = mro.index(templates[0])
+            except ValueError:
+                pass
+            else:
+                if best is None or i < best[0]:
+                    best = i, impl, get_self_var
+        if best is None:
             unreachable("Base not found")
+        _, impl, get_self_var = best
+        return impl, get_self_var
 
     def bind_to(self, entity: "_EntityBase"):
         res = BoundVirtualMethod(
@@ -125,17 +137,7 @@ class _MethodDispatcher:
         return res
 
     def bind_to_cast(self, entity: "_EntityBase"):
-        best = None
-        mro = entity.cast_template.mro_
-        for impl, (templates, get_self_var) in self.impls.items():
-            try:
-                i = mro.index(templates[0])
-            except ValueError:
-                pass
-            else:
-                if best is None or i < best[0]:
-                    best = i, impl, get_self_var
-        _, impl, get_self_var = best
+        impl, get_self_var = self.find_impl(entity.cast_template)
         return BoundMethod(entity, self.method_name, impl, get_self_var)
 
 class _SimpleMethod:
@@ -340,7 +342,7 @@ class EntityTemplate(ConstExprCombined, ConstructorFunction):
                     raise Error(ErrorType.OVERRIDE_QUALIFIER,
                                 got=qualifier.localized, name=method)
                 _check_override(implementation, method)
-                disp = parent.method_dispatchers[method]
+                disp = m_virtual[method]
                 self.method_dispatchers[method] = disp
                 disp.register(self, implementation)
                 continue
@@ -373,7 +375,7 @@ class EntityTemplate(ConstExprCombined, ConstructorFunction):
             if method not in self.method_dispatchers:
                 # Inherited override methods
                 self.method_dispatchers[method] = disp
-                disp.register_inherit(self, parent)
+                disp.register_inherit(self)
         for method, mgr in m_simple.items():
             if method not in self.simple_methods:
                 # Inherited simple methods
-- 
2.43.0


From 66957397164dbd9216680bcab9547988c84f51b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:28 +0000
Subject: [PATCH 32/63] fix: dispatching a virtual method could also run
 implementations called before

---
 acaciamc/objects/functions.py | 42 +++++++++++++----------------------
 1 file changed, 15 insertions(+), 27 deletions(-)

diff --git a/acaciamc/objects/functions.py b/acaciamc/objects/functions.py
index 6f3d8e8..9a7c085 100644
--- a/acaciamc/objects/functions.py
+++ b/acaciamc/objects/functions.py
@@ -571,35 +571,23 @@ class BoundVirtualMethod(ConstExprCombined, AcaciaCallable):
                 f = cmds.MCFunctionFile()
                 compiler.add_file(f)
                 f.write_debug("## Helper for virtual method dispatcher")
-                f.extend(commands)
-                if get_self_var is None:
-                    file.write(cmds.Execute(
-                        [
-                            cmds.ExecuteCond("entity", sel_s, invert=True),
-                            # Make sure @s is alive:
-                            cmds.ExecuteCond("entity", "@s")
-                        ],
-                        runs=cmds.InvokeFunction(f)
-                    ))
-                else:
+                if get_self_var is not None:
+                    # This is done in the helper so that it only happens
+                    # when this is the implementation to run, since
+                    # another implementation may be our caller.
                     self_var = get_self_var()
+                    f.extend(self_var.clear())
                     # XXX direct access to TaggedEntity.tag
-                    self_tag = self_var.tag
-                    # Only when this is the implementation to run, since
-                    # another implementation may be our caller.
-                    file.extend(
-                        cmds.Execute(
-                            [cmds.ExecuteCond("entity", sel_s, invert=True)],
-                            runs=command
-                        )
-                        for command in (
-                            *self_var.clear(), "tag @s add %s" % self_tag
-                        )
-                    )
-                    file.write(cmds.Execute(
-                        [cmds.ExecuteCond("entity", "@s[tag=%s]" % self_tag)],
-                        runs=cmds.InvokeFunction(f)
-                    ))
+                    f.write("tag @s add %s" % self_var.tag)
+                f.extend(commands)
+                file.write(cmds.Execute(
+                    [
+                        cmds.ExecuteCond("entity", sel_s, invert=True),
+                        # Make sure @s is alive:
+                        cmds.ExecuteCond("entity", "@s")
+                    ],
+                    runs=cmds.InvokeFunction(f)
+                ))
 
 class ConstructorFunction(AcaciaCallable):
     def call(self, args: ARGS_T, keywords: KEYWORDS_T, compiler) -> CALLRET_T:
-- 
2.43.0


From 12012d5027ae135d2d47355c963d3e04f5f80653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:55 +0000
Subject: [PATCH 33/63] fix: filter conditions after random() and others could
 apply before them

---
 acaciamc/objects/entity_filter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acaciamc/objects/entity_filter.py b/acaciamc/objects/entity_filter.py
index b1d5943..3168763 100644
--- a/acaciamc/objects/entity_filter.py
+++ b/acaciamc/objects/entity_filter.py
@@ -406,7 +406,7 @@ class EntityFilter(ConstExprCombined, ImmutableMixin):
     def need_set_selector_var(
         self, compiler, var: SELECTORVAR_T
     ) -> MCSelector:
-        if self.data[-1].selector.is_var_set():
+        if self.next_use_new_data or self.data[-1].selector.is_var_set():
             self._new_data(compiler)
         res = self.data[-1].selector
         res.var = var
@@ -415,7 +415,7 @@ class EntityFilter(ConstExprCombined, ImmutableMixin):
     def need_set_context(
         self, compiler, *context: "_ExecuteSubcmd"
     ) -> MCSelector:
-        if self.context_occupied:
+        if self.next_use_new_data or self.context_occupied:
             self._new_data(compiler)
         self.data[-1].subcmds.extend(context)
         self.context_occupied = True
-- 
2.43.0


From 472cd7a0d96ebdba4e6d8cd5ae74453385c1233f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:57 +0000
Subject: [PATCH 34/63] fix: Enfilter.random() of a known type generated
 "type=None"

---
 acaciamc/objects/entity_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/objects/entity_filter.py b/acaciamc/objects/entity_filter.py
index 3168763..26d3cd9 100644
--- a/acaciamc/objects/entity_filter.py
+++ b/acaciamc/objects/entity_filter.py
@@ -147,7 +147,7 @@ class EntityFilter(ConstExprCombined, ImmutableMixin):
                             % (type_, self.entity_type)
                     )
             if not selector.has_arg("type"):
-                selector.type(type_)
+                selector.type(self.entity_type)
             selector.limit(limit)
             # There should be a difference between these two:
             # (Supporse there are more than 5 entities with name "xxx")
-- 
2.43.0


From a513a6215dda420e90a789c6cafc58573440f561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:00 +0000
Subject: [PATCH 35/63] fix: the last is_game_mode() of a filter replaced
 previous ones

---
 acaciamc/objects/entity_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/objects/entity_filter.py b/acaciamc/objects/entity_filter.py
index 26d3cd9..80cb34d 100644
--- a/acaciamc/objects/entity_filter.py
+++ b/acaciamc/objects/entity_filter.py
@@ -327,7 +327,7 @@ class EntityFilter(ConstExprCombined, ImmutableMixin):
         @axe.arg("mode", axe.LiteralString())
         @transform_immutable(self)
         def _is_game_mode(self: EntityFilter, compiler, mode: str):
-            selector = self.last_selector(compiler)
+            selector = self.new_if_got(compiler, "m")
             selector.game_mode(mode)
             self.entity_type = PLAYER
             return self
-- 
2.43.0


From 88552108a6669af203b92e8af5dccc878eb85b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:16 +0000
Subject: [PATCH 36/63] fix: inherited methods of a diamond did not follow the
 method resolution order

---
 acaciamc/objects/entity_template.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/acaciamc/objects/entity_template.py b/acaciamc/objects/entity_template.py
index 27511c8..d66b9e5 100644
--- a/acaciamc/objects/entity_template.py
+++ b/acaciamc/objects/entity_template.py
@@ -256,6 +256,8 @@ class EntityTemplate(ConstExprCombined, ConstructorFunction):
         self.method_dispatchers: Dict[str, _MethodDispatcher] = {}
         self.simple_methods: Dict[str, _SimpleMethod] = {}
         self.static_methods: Dict[str, AcaciaCallable] = {}
+        # own_methods: names of methods that are not inherited
+        self.own_methods = set(methods)
         self.mro_: List[EntityTemplate] = [self]  # Method Resolution Order
         # Runtime identification number
         # Mark which template an entity is using at runtime.
@@ -324,10 +326,12 @@ class EntityTemplate(ConstExprCombined, ConstructorFunction):
                                 method=method)
             for method, mgr in parent.simple_methods.items():
                 _check(m_virtual, m_static, method)
-                m_simple[method] = mgr
+                if method in parent.own_methods:
+                    m_simple[method] = mgr
             for method, impl in parent.static_methods.items():
                 _check(m_virtual, m_simple, method)
-                m_static[method] = impl
+                if method in parent.own_methods:
+                    m_static[method] = impl
         ## Make sure field names do not conflict with method names
         for attr in attr_list:
             if attr in m_virtual or attr in m_simple or attr in m_static:
-- 
2.43.0


From 0482bed0b5bf3e6b6c66ad242c7e368eedd17f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:27 +0000
Subject: [PATCH 37/63] fix: result statement outside functions crashed the
 compiler

---
 acaciamc/mccmdgen/generator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/acaciamc/mccmdgen/generator.py b/acaciamc/mccmdgen/generator.py
index 6016a37..7551a9c 100644
--- a/acaciamc/mccmdgen/generator.py
+++ b/acaciamc/mccmdgen/generator.py
@@ -941,6 +941,8 @@ class Generator(ASTVisitor):
         ))
 
     def visit_Result(self, node: Result):
+        if self.ctx.function_state == FUNC_NONE:
+            self.error_c(ErrorType.RESULT_OUT_OF_SCOPE)
         rt = self.ctx.current_function.result_type
         def _check(t: "DataType"):
             if rt is not None and not rt.matches(t):
@@ -993,8 +995,7 @@ class Generator(ASTVisitor):
                     self.error_c(ErrorType.RESULT_NOT_CONST)
                 self.ctx.inline_result = value
         else:
-            assert self.ctx.function_state == FUNC_NONE
-            self.error_c(ErrorType.RESULT_OUT_OF_SCOPE)
+            assert False, "Unexpected function state"
 
     def visit_NewCall(self, node: NewCall):
         if self.ctx.entity_new_data is None:
-- 
2.43.0


From bfab786b913f491d186219e61bb35a65f4bf71a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:37 +0000
Subject: [PATCH 38/63] fix: mistyped reference in a const function crashed the
 compiler

---
 acaciamc/mccmdgen/ctexecuter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/mccmdgen/ctexecuter.py b/acaciamc/mccmdgen/ctexecuter.py
index 6137e93..e3ea3c1 100644
--- a/acaciamc/mccmdgen/ctexecuter.py
+++ b/acaciamc/mccmdgen/ctexecuter.py
@@ -300,7 +300,7 @@ class CTExecuter(ASTVisitor):
             dt: CTDataType = self.visit(node.type)
             if not dt.is_typeof(value):
                 self.error_node(node.type, ErrorType.WRONG_REF_TYPE,
-                                anno=dt.name, got=value.cdata_type.name)
+                                anno=dt.name, got=abs(value).cdata_type.name)
         self.register_symbol(node.name, value)
 
     def visit_ExprStatement(self, node: ExprStatement):
-- 
2.43.0


From 4b1ebb756c4b248ffd00b4d49ee383da417ff231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:38 +0000
Subject: [PATCH 39/63] fix: mistyped argument inside a const function crashed
 the compiler

---
 acaciamc/objects/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/objects/functions.py b/acaciamc/objects/functions.py
index 9a7c085..5411e5e 100644
--- a/acaciamc/objects/functions.py
+++ b/acaciamc/objects/functions.py
@@ -328,7 +328,7 @@ class CTArgHandler(ArgumentHandler[
         if not dt.is_typeof(v):
             # Try implicit type conversion
             try:
-                new_value = value.cimplicitcast(dt)
+                new_value = v.cimplicitcast(dt)
             except InvalidOpError:
                 raise Error(ErrorType.WRONG_ARG_TYPE, arg=arg,
                             expect=dt.name, got=v.cdata_type.name)
-- 
2.43.0


From 0eee4d94f0b09239c6ccf15d409a85bbd136de5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:02 +0000
Subject: [PATCH 40/63] fix: const functions could change their caller's
 variables through arguments

---
 acaciamc/mccmdgen/generator.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/acaciamc/mccmdgen/generator.py b/acaciamc/mccmdgen/generator.py
index 7551a9c..6b8e55a 100644
--- a/acaciamc/mccmdgen/generator.py
+++ b/acaciamc/mccmdgen/generator.py
@@ -1252,9 +1252,8 @@ class Generator(ASTVisitor):
         with self.set_ctx(func.context):
             ctexec = CTExecuter(self.ctx.scope, self, self.file_name)
             for arg, value in arg2value.items():
-                if isinstance(value, CTObj):
-                    value = CTObjPtr(value)
-                ctexec.current_scope.set(arg, value)
+                # Arguments are passed by value
+                ctexec.current_scope.set(arg, CTObjPtr(abs(value)))
             for stmt in func.node.body:
                 ctexec.visittop(stmt)
             result = ctexec.result
-- 
2.43.0


From 8cb393eb473d2dc3b31d30a49a3699d4b8834ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:27 +0000
Subject: [PATCH 41/63] fix: definitions in loops of const functions were
 refused on the second iteration

---
 acaciamc/mccmdgen/ctexecuter.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/acaciamc/mccmdgen/ctexecuter.py b/acaciamc/mccmdgen/ctexecuter.py
index e3ea3c1..0c0e5ca 100644
--- a/acaciamc/mccmdgen/ctexecuter.py
+++ b/acaciamc/mccmdgen/ctexecuter.py
@@ -40,6 +40,8 @@ class CTExecuter(ASTVisitor):
         self.file_name = file_name
         self.builtins = generator.compiler.builtins
         self.current_scope = SymbolTable(scope, self.builtins)
+        # The nodes that defined the names of `self.current_scope`
+        self.def_nodes: Dict[str, AST] = {}
         self.result: Optional[CTExpr] = None
         self.curnode: Optional[AST] = None
 
@@ -72,16 +74,21 @@ class CTExecuter(ASTVisitor):
 
     @contextmanager
     def new_scope(self):
+        old_def_nodes = self.def_nodes
+        self.def_nodes = {}
         self.current_scope = SymbolTable(self.current_scope, self.builtins)
         yield
         self.current_scope = self.current_scope.outer
+        self.def_nodes = old_def_nodes
 
     def register_symbol(self, name: str, value: CTExpr):
         v = self.current_scope.clookup(
             name, use_outer=False, use_builtins=False
         )
-        if v is not None:
+        # A definition in a loop body may be executed many times
+        if v is not None and self.def_nodes.get(name) is not self.curnode:
             self.error_node(self.curnode, ErrorType.SHADOWED_NAME, name=name)
+        self.def_nodes[name] = self.curnode
         self.current_scope.set(name, value)
 
     ## Expression visitors
-- 
2.43.0


From cf4d6dad28aed4a12d414dac1e77d87bcc501cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:07 +0000
Subject: [PATCH 42/63] fix: escapes of surrogate code points made an output
 that cannot be written

---
 acaciamc/tokenizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/tokenizer.py b/acaciamc/tokenizer.py
index 0758b6d..3992419 100644
--- a/acaciamc/tokenizer.py
+++ b/acaciamc/tokenizer.py
@@ -664,7 +664,7 @@ class Tokenizer:
                 code.append(self.current_char)
                 self.forward()
             unicode = int(''.join(code), base=16)
-            if unicode >= 0x110000:
+            if unicode >= 0x110000 or 0xD800 <= unicode <= 0xDFFF:
                 _err()
             return chr(unicode)
         # when escape can't be recognized, just return "\\"
-- 
2.43.0


From d48da367f5126447c1ce2e185441de44cc8f9286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:11 +0000
Subject: [PATCH 43/63] fix: source files with bytes that cannot be decoded
 crashed the compiler

---
 acaciamc/compiler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/acaciamc/compiler.py b/acaciamc/compiler.py
index 0c715b2..024dc4a 100644
--- a/acaciamc/compiler.py
+++ b/acaciamc/compiler.py
@@ -439,6 +439,10 @@ class Compiler:
             if not err.location.file_set():
                 err.location.file = path
             raise
+        except UnicodeError as err:
+            error = Error(ErrorType.IO, message=str(err))
+            error.location.file = path
+            raise error
         finally:
             src_file.close()
         self.current_generator = Generator(
-- 
2.43.0


From eaf665a7e8c2ce015db423d29ef326203a5baca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:26 +0000
Subject: [PATCH 44/63] fix: extending a list by itself in a const function
 never ended

---
 acaciamc/objects/list_.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/acaciamc/objects/list_.py b/acaciamc/objects/list_.py
index c1af049..4ae5535 100644
--- a/acaciamc/objects/list_.py
+++ b/acaciamc/objects/list_.py
@@ -260,7 +260,8 @@ class CTList(CTConstList):
         @axe.arg("values", axe.CTIterator())
         @axe.slash
         def _extend(compiler, values: List["CTExpr"]):
-            self.ptrs.extend(map(self._new_element, values))
+            # NOTE `values` can be `self.ptrs`
+            self.ptrs.extend([self._new_element(v) for v in values])
         @cmethod_of(self, "append", runtime=False)
         @axe.chop
         @axe.arg("value", axe.Constant())
-- 
2.43.0


From 9f857e2cb260a65014026dd9f47bef1b38dbf75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:43 +0000
Subject: [PATCH 45/63] fix: keys 1, 1.0 and True of a map were the same in
 const functions

---
 acaciamc/objects/boolean.py | 3 ++-
 acaciamc/objects/float_.py  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/acaciamc/objects/boolean.py b/acaciamc/objects/boolean.py
index dc342d9..7179772 100644
--- a/acaciamc/objects/boolean.py
+++ b/acaciamc/objects/boolean.py
@@ -152,7 +152,8 @@ class BoolLiteral(ConstExprCombined):
         return [cmds.RawtextText("1" if self.value else "0")], []
 
     def chash(self):
-        return self.value
+        # In Python `True == 1`
+        return (ctdt_bool, self.value)
 
     def compare(self, op: Operator, other: AcaciaExpr, compiler):
         if not (op is Operator.equal_to or op is Operator.unequal_to):
diff --git a/acaciamc/objects/float_.py b/acaciamc/objects/float_.py
index c86c08c..92d0a3b 100644
--- a/acaciamc/objects/float_.py
+++ b/acaciamc/objects/float_.py
@@ -44,7 +44,8 @@ class Float(ConstExprCombined):
         return str(self)
 
     def chash(self):
-        return self.value
+        # In Python `1.0 == 1`
+        return (ctdt_float, self.value)
 
     @classmethod
     def from_int(cls, integer: IntLiteral):
-- 
2.43.0


From b2b2b4ac18c9db31e16e33c939761139f08eeb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:55 +0000
Subject: [PATCH 46/63] fix: lists with run-time values crashed const functions
 instead of being refused

---
 acaciamc/objects/list_.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/acaciamc/objects/list_.py b/acaciamc/objects/list_.py
index 4ae5535..5b5ddbf 100644
--- a/acaciamc/objects/list_.py
+++ b/acaciamc/objects/list_.py
@@ -94,8 +94,14 @@ class ListType(Type):
     def cdatatype_hook(self):
         return ctdt_constlist
 
-def list2ct(x: Iterable[ConstExpr]) -> List[CTObj]:
-    return [i.to_ctexpr() for i in x]
+def list2ct(x: Iterable[AcaciaExpr]) -> List[CTObj]:
+    res = []
+    for i in x:
+        # `list.repeat` accepts any value
+        if not isinstance(i, ConstExpr):
+            raise Error(ErrorType.ELEMENT_NOT_CONST)
+        res.append(i.to_ctexpr())
+    return res
 
 class AcaciaList(ConstExpr):
     def __init__(self, items: Iterable[ConstExpr]):
-- 
2.43.0


From 8594b9bfce0b62176fdc90605ba285b0834cec12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:55 +0000
Subject: [PATCH 47/63] fix: map.update crashed in const functions

---
 acaciamc/objects/map_.py | 2 +-
 acaciamc/tools/axe.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/acaciamc/objects/map_.py b/acaciamc/objects/map_.py
index c582c09..859d377 100644
--- a/acaciamc/objects/map_.py
+++ b/acaciamc/objects/map_.py
@@ -235,7 +235,7 @@ class CTMap(CTConstMap):
             return res
         @cmethod_of(self, "update", runtime=False)
         @axe.chop
-        @axe.arg("other", axe.MapOf(axe.Constant(), axe.Constant()))
+        @axe.arg("other", axe.CTMapOf(axe.Constant(), axe.Constant()))
         def _update(compiler, other: Dict[CTObj, CTObj]):
             for k, v in other.items():
                 self.set(k, v)
diff --git a/acaciamc/tools/axe.py b/acaciamc/tools/axe.py
index 2d37ffc..3c03933 100644
--- a/acaciamc/tools/axe.py
+++ b/acaciamc/tools/axe.py
@@ -665,7 +665,7 @@ class CTMapOf(CTTyped):
         self.key = key
         self.value = value
 
-    def get_show_name(self) -> str:
+    def crepr(self) -> str:
         k = self.key.crepr()
         v = self.value.crepr()
         return localize("axe.converter.std.ctmapof") % f"({k}: {v})"
-- 
2.43.0


From 60459384586a1434329c0f1fbebb8718280bcae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:57 +0000
Subject: [PATCH 48/63] fix: None was refused in formatted strings of const
 functions

---
 acaciamc/objects/none.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/objects/none.py b/acaciamc/objects/none.py
index c2378a5..628df9a 100644
--- a/acaciamc/objects/none.py
+++ b/acaciamc/objects/none.py
@@ -42,5 +42,5 @@ class NoneLiteral(ConstExprCombined, VarValue):
     def cdatatype_hook(self) -> CTDataType:
         return ctdt_none
 
-    def stringify(self) -> str:
+    def cstringify(self) -> str:
         return 'None'
-- 
2.43.0


From 277b8e83790cc2f80119ee9a46373fd99095d216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:48 +0000
Subject: [PATCH 49/63] fix: keep the commands of the second fstring in a
 concatenation

---
 acaciamc/modules/print.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/acaciamc/modules/print.py b/acaciamc/modules/print.py
index 36729a5..8fec645 100644
--- a/acaciamc/modules/print.py
+++ b/acaciamc/modules/print.py
@@ -167,6 +167,7 @@ class FString(ConstExprCombined):
         if isinstance(other, String):
             res.rawtext.append(cmds.RawtextText(other.value))
         elif isinstance(other, FString):
+            res.dependencies.extend(other.dependencies)
             res.rawtext.extend(other.rawtext)
         else:
             raise InvalidOpError
-- 
2.43.0


From d67ed57387b6baa066f3c32a6b040178749e00df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:50 +0000
Subject: [PATCH 50/63] fix: with_font wrapped an inner font region that starts
 the text

---
 acaciamc/modules/print.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/acaciamc/modules/print.py b/acaciamc/modules/print.py
index 8fec645..6a64980 100644
--- a/acaciamc/modules/print.py
+++ b/acaciamc/modules/print.py
@@ -285,8 +285,9 @@ def _with_font(compiler: "Compiler", text: FString, color: str,
         if isinstance(component, _FontComponent):
             if component.label == "start":
                 start_levels += 1
-                if start_levels == 1 and i > start_i:
-                    scopes.append((start_i, i))
+                if start_levels == 1:
+                    if i > start_i:
+                        scopes.append((start_i, i))
                     start_i = -1
             if component.label == "end":
                 start_levels -= 1
-- 
2.43.0


From eb6c21f188be688b771c4f4ec6dc79ffb1805e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:52 +0000
Subject: [PATCH 51/63] fix: math.mod overflowed for divisors above 2 ** 30

---
 acaciamc/modules/_math.aca | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/acaciamc/modules/_math.aca b/acaciamc/modules/_math.aca
index 7415838..7725394 100644
--- a/acaciamc/modules/_math.aca
+++ b/acaciamc/modules/_math.aca
@@ -8,7 +8,10 @@ def mod(x: int, y: int) -> int:
      * -10 % 3 == -1 while mod(-10, 3) == 2
      * -10 % -3 == mod(-10, -3) == -1
      *#
-    result (x % y + y) % y
+    res := x % y
+    if res != 0 and (res >= 0) != (y >= 0):
+        res += y
+    result res
 
 def floordiv(x: int, y: int) -> int:
     #**
-- 
2.43.0


From 36e7287546101a1ff02b47561f5ee1636009c146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:12 +0000
Subject: [PATCH 52/63] fix: formatted expressions used temporaries that later
 statements reuse

---
 acaciamc/objects/boolean.py | 3 ++-
 acaciamc/objects/integer.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/acaciamc/objects/boolean.py b/acaciamc/objects/boolean.py
index 7179772..ffc0384 100644
--- a/acaciamc/objects/boolean.py
+++ b/acaciamc/objects/boolean.py
@@ -99,7 +99,8 @@ def _export_bool(subcmds: List["_ExecuteSubcmd"], var: "BoolVar",
 
 def _bool_rawtextify(self: AcaciaExpr, compiler: "Compiler"):
     """A generic `rawtextify` implementation for bool."""
-    dependencies, var = to_BoolVar(self, compiler)
+    # The text may be shown by a later statement.
+    dependencies, var = to_BoolVar(self, compiler, tmp=False)
     return [cmds.RawtextScore(var.slot)], dependencies
 
 class BoolDataType(DefaultDataType, Storable, SupportsEntityField):
diff --git a/acaciamc/objects/integer.py b/acaciamc/objects/integer.py
index 6492aad..e691ea6 100644
--- a/acaciamc/objects/integer.py
+++ b/acaciamc/objects/integer.py
@@ -104,7 +104,8 @@ STR2PYINTOP: Dict[str, Callable[[int, int], int]] = {
 
 def _int_rawtextify(self: AcaciaExpr, compiler: "Compiler"):
     """A generic `rawtextify` implementation for int."""
-    dependencies, var = to_IntVar(self, compiler)
+    # The text may be shown by a later statement.
+    dependencies, var = to_IntVar(self, compiler, tmp=False)
     return [cmds.RawtextScore(var.slot)], dependencies
 
 class IntDataType(DefaultDataType, Storable, SupportsEntityField):
-- 
2.43.0


From 1ff86db4df05e1ef397dc806de9d068a2d7c2cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:26 +0000
Subject: [PATCH 53/63] fix: a body ran at the position its condition was
 tested at

---
 acaciamc/objects/boolean.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/acaciamc/objects/boolean.py b/acaciamc/objects/boolean.py
index ffc0384..0af8330 100644
--- a/acaciamc/objects/boolean.py
+++ b/acaciamc/objects/boolean.py
@@ -371,11 +371,22 @@ class WildBool(SupportsAsExecute):
         self.ranges = ranges
 
     def export(self, var: BoolVar, compiler):
-        res, subcmds = self.as_execute(compiler)
+        subcmds = self.subcmds + _ranges2subcmds(self.ranges)
+        res = self.dependencies.copy()
         res.extend(_export_bool(subcmds, var, compiler))
         return res
 
+    def changes_env(self) -> bool:
+        """Whether this is tested in another position, rotation, etc."""
+        return any(isinstance(s, cmds.ExecuteEnv) for s in self.subcmds)
+
     def as_execute(self, compiler):
+        if self.changes_env():
+            # What depends on this boolean must not run in the
+            # environment that this is tested in.
+            var = BoolVar.new(compiler, tmp=True)
+            _, subcmds = var.as_execute(compiler)
+            return self.export(var, compiler), subcmds
         subcmds = self.subcmds + _ranges2subcmds(self.ranges)
         return self.dependencies.copy(), subcmds
 
@@ -442,7 +453,7 @@ def new_and_group(operands: List[AcaciaExpr], compiler) -> AcaciaExpr:
     res_commands: CMDLIST_T = []
     ranges: Dict[cmds.ScbSlot, List[int]] = {}
     for operand in new_operands:
-        if isinstance(operand, WildBool):
+        if isinstance(operand, WildBool) and not operand.changes_env():
             res_subcmds.extend(operand.subcmds)
             res_commands.extend(operand.dependencies)
             for slot, min_, max_ in operand.ranges:
@@ -452,9 +463,10 @@ def new_and_group(operands: List[AcaciaExpr], compiler) -> AcaciaExpr:
                 if rng[0] > rng[1]:  # must be False
                     return BoolLiteral(False)
             operand = None
-        elif isinstance(operand, NotWildBool):
+        elif isinstance(operand, (WildBool, NotWildBool)):
             # `a and not (b and c)` needs a tmp var:
             # tmp = `not (b and c)`, self = `a and tmp`
+            # (so does a boolean tested in another environment)
             tmp = BoolVar.new(tmp=True, compiler=compiler)
             res_commands.extend(operand.export(tmp, compiler))
             operand = tmp
-- 
2.43.0


From 889564224f0bcb093023e19d3ae67cb86a078208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:56 +0000
Subject: [PATCH 54/63] fix: keep every alias when one name is imported under
 several

`from m import a as b, a as c` bound `c` only.
---
 acaciamc/ast.py                | 11 +++++++----
 acaciamc/mccmdgen/generator.py |  4 ++--
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/acaciamc/ast.py b/acaciamc/ast.py
index 0af1052..2891454 100644
--- a/acaciamc/ast.py
+++ b/acaciamc/ast.py
@@ -2,7 +2,7 @@
 
 from typing import (
     Union as _Union, List as _List, Optional as _Optional, Dict as _Dict,
-    Iterable as _Iterable
+    Tuple as _Tuple, Iterable as _Iterable
 )
 
 from acaciamc.localization import LocalizedEnum as _LocalizedEnum
@@ -334,9 +334,12 @@ class FromImport(Statement):  # import specific things from a module
     ):
         super().__init__(lineno, col)
         self.meta = meta
-        self.id2name: _Dict[str, str] = {}
-        for name, alias in zip(names, aliases):
-            self.id2name[name] = name if alias is None else alias
+        # Pairs of name in the module and name to bind. The same name
+        # may be imported more than once using different aliases.
+        self.id2name: _List[_Tuple[str, str]] = [
+            (name, name if alias is None else alias)
+            for name, alias in zip(names, aliases)
+        ]
 
 class FromImportAll(Statement):  # import everything in a module
     def __init__(self, meta: ModuleMeta, lineno, col):
diff --git a/acaciamc/mccmdgen/generator.py b/acaciamc/mccmdgen/generator.py
index 6b8e55a..3d315c6 100644
--- a/acaciamc/mccmdgen/generator.py
+++ b/acaciamc/mccmdgen/generator.py
@@ -712,13 +712,13 @@ class Generator(ASTVisitor):
     def visit_FromImport(self, node: FromImport):
         module, path = self.module_traced(node.meta, node.lineno, node.col)
         self.write_debug("Import from %s" % path)
-        for name, alias in node.id2name.items():
+        for name, alias in node.id2name:
             value = self.attribute_of(module, name)
             if value is None:
                 self.error_c(ErrorType.MODULE_NO_ATTRIBUTE,
                              attr=name, module=str(node.meta))
             self.register_symbol(alias, value)
-        self.ctx.scope.no_export.update(node.id2name.values())
+        self.ctx.scope.no_export.update(alias for _, alias in node.id2name)
 
     def visit_FromImportAll(self, node: FromImportAll):
         module, path = self.module_traced(node.meta, node.lineno, node.col)
-- 
2.43.0


From 2ec939cf5f28cf5e9d2df0a6afc7c8e5d65829da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:00 +0000
Subject: [PATCH 55/63] fix: report an output path that is occupied by a file

The compiler crashed when the output path, or a folder to be created in it,
was an existing file.
---
 acaciamc/cli.py          | 2 ++
 acaciamc/compiler.py     | 2 +-
 acaciamc/lang/en_US.lang | 1 +
 3 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/acaciamc/cli.py b/acaciamc/cli.py
index 55469c3..ec48426 100644
--- a/acaciamc/cli.py
+++ b/acaciamc/cli.py
@@ -195,6 +195,8 @@ def run(args):
         if not os.path.exists(out_up):
             fatal(localize("cli.run.outputnotfound") % out_up)
         os.mkdir(out_path)
+    elif not os.path.isdir(out_path):
+        fatal(localize("cli.run.outputnotadir") % out_path)
 
     try:
         compiler = Compiler(args.file, cfg)
diff --git a/acaciamc/compiler.py b/acaciamc/compiler.py
index 024dc4a..7da5f7a 100644
--- a/acaciamc/compiler.py
+++ b/acaciamc/compiler.py
@@ -475,8 +475,8 @@ class Compiler:
 
     def _write_file(self, content: str, path: str):
         """Write `content` to `path`."""
-        os.makedirs(os.path.dirname(path), exist_ok=True)
         try:
+            os.makedirs(os.path.dirname(path), exist_ok=True)
             with open(path, 'w', encoding=self.cfg.encoding) as f:
                 f.write(content)
         except Exception as err:
diff --git a/acaciamc/lang/en_US.lang b/acaciamc/lang/en_US.lang
index e3dde62..c11071d 100644
--- a/acaciamc/lang/en_US.lang
+++ b/acaciamc/lang/en_US.lang
@@ -98,6 +98,7 @@ cli.tryrmtree.failure = failed to remove {path}: {message}
 cli.run.filenotfound = file not found: %s
 cli.run.notafile = not a file: %s
 cli.run.outputnotfound = output directory not found: %s
+cli.run.outputnotadir = output path is not a directory: %s
 cli.run.aboveunexpectederror = the above unexpected error occurred when compiling
 cli.run.unexpectederror = unexpected error when compiling: %s
 
-- 
2.43.0


From cefde6ac2e27fe96aac8b0deb2084b2205bcf099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:04 +0000
Subject: [PATCH 56/63] fix: refuse giving the main and init files one name

Both were written to the same path, so the code of one of them was lost.
---
 acaciamc/cli.py          | 4 ++++
 acaciamc/lang/en_US.lang | 1 +
 2 files changed, 5 insertions(+)

diff --git a/acaciamc/cli.py b/acaciamc/cli.py
index ec48426..8fb22f9 100644
--- a/acaciamc/cli.py
+++ b/acaciamc/cli.py
@@ -159,6 +159,10 @@ def get_config(args) -> Config:
         if args.init_file is not _NOTGIVEN:
             assert_id(args.init_file, '--init-file')
             kwds["init_file"] = args.init_file
+        main_file = kwds.get("main_file", Config().main_file)
+        init_file = kwds.get("init_file", Config().init_file)
+        if main_file.lower() == init_file.lower():
+            fatal(localize("cli.getconfig.sameinitmain") % init_file)
     if args.internal_folder:
         assert_id(args.internal_folder, '--internal-folder')
         kwds["internal_folder"] = args.internal_folder
diff --git a/acaciamc/lang/en_US.lang b/acaciamc/lang/en_US.lang
index c11071d..361ebe2 100644
--- a/acaciamc/lang/en_US.lang
+++ b/acaciamc/lang/en_US.lang
@@ -87,6 +87,7 @@ cli.assertid.fatal = option {option}: {msg}
 cli.getconfig.invalidfunctionfolder = invalid name {name} in function folder path: {msg}
 cli.getconfig.invalidmcversion = invalid Minecraft version: %s
 cli.getconfig.mcversiontooold = Minecraft version is too low: %s, at least 1.19.50 expected
+cli.getconfig.sameinitmain = main file and init file can't have the same name: %s
 cli.getconfig.maxinlinetoolow = max inline file size must >= 0: %s
 
 ## try_rmtree ##
-- 
2.43.0


From 119c31bcb16b6d7c681db1d81c5f507ed4c64f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:07 +0000
Subject: [PATCH 57/63] fix: validate the entity tag prefix like other names

A prefix such as "a b" was inserted into commands and made them invalid.
---
 acaciamc/cli.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/acaciamc/cli.py b/acaciamc/cli.py
index 8fb22f9..a2a3cc7 100644
--- a/acaciamc/cli.py
+++ b/acaciamc/cli.py
@@ -135,6 +135,7 @@ def get_config(args) -> Config:
         assert_id(args.main_file, '--main-file')
         kwds["main_file"] = args.main_file
     if args.entity_tag:
+        assert_id(args.entity_tag, '--entity-tag')
         kwds["entity_tag"] = args.entity_tag
     if args.mc_version:
         numlist = args.mc_version.split(".")
-- 
2.43.0


From bb4977baf758f75d6800a1e35740c20c589c8e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:39 +0000
Subject: [PATCH 58/63] fix: refuse function arguments whose name is not an
 identifier

---
 acaciamc/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/parser.py b/acaciamc/parser.py
index 41f886e..b04ddab 100644
--- a/acaciamc/parser.py
+++ b/acaciamc/parser.py
@@ -937,7 +937,7 @@ class Parser:
             qualifier = self._func_port_qualifier(allowed_ports)
             # read name
             name = self.current_token.value
-            self.eat()  # eat identifier
+            self.eat(TokenType.identifier)
             # read type
             type_ = None
             if self.current_token.type is TokenType.colon:
-- 
2.43.0


From 0ab63c5ed3c33fd1a9ca3f343f7c79b18aca1b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:45 +0000
Subject: [PATCH 59/63] fix: report invalid type specifiers where they start

---
 acaciamc/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/acaciamc/parser.py b/acaciamc/parser.py
index b04ddab..e7ef46d 100644
--- a/acaciamc/parser.py
+++ b/acaciamc/parser.py
@@ -964,7 +964,8 @@ class Parser:
 
     def type_spec(self):
         """type_spec := expr"""
-        return TypeSpec(self.expr(), **self.current_pos)
+        pos = self.current_pos
+        return TypeSpec(self.expr(), **pos)
 
     def call_table(self):
         """
-- 
2.43.0


From a7187319de76ed0782a42a16ab7e3e6c31082e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:31 +0000
Subject: [PATCH 60/63] fix: handle all MIDI messages of one tick at that tick

---
 acaciamc/modules/music.py | 40 +++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/acaciamc/modules/music.py b/acaciamc/modules/music.py
index 24d6143..2b586f3 100644
--- a/acaciamc/modules/music.py
+++ b/acaciamc/modules/music.py
@@ -397,26 +397,26 @@ class Music(ConstExprCombined):
     def main_loop(self):
         # Read messages
         for i, track in enumerate(self.tracks):
-            if not track:
-                continue
-            message = track[0]
-            if message.time > self.mt - self.last_msg_mt[i]:
-                continue
-            # Handle message
-            mtype = message.type
-            if mtype == "note_on":
-                if message.velocity != 0:
-                    self.play_note(message)
-            elif mtype == "set_tempo":
-                self.bpm = 6E+7 / message.tempo
-            elif message.is_cc():
-                if message.control == 7:  # Volume
-                    self.channel_volume[message.channel] = message.value
-            elif mtype == "program_change":
-                self.channel_instrument[message.channel] = message.program
-            # Reset timer
-            self.last_msg_mt[i] = self.mt
-            track.pop(0)
+            # There can be several messages in the same MT
+            while track:
+                message = track[0]
+                if message.time > self.mt - self.last_msg_mt[i]:
+                    break
+                # Handle message
+                mtype = message.type
+                if mtype == "note_on":
+                    if message.velocity != 0:
+                        self.play_note(message)
+                elif mtype == "set_tempo":
+                    self.bpm = 6E+7 / message.tempo
+                elif message.is_cc():
+                    if message.control == 7:  # Volume
+                        self.channel_volume[message.channel] = message.value
+                elif mtype == "program_change":
+                    self.channel_instrument[message.channel] = message.program
+                # Reset timer
+                self.last_msg_mt[i] = self.mt
+                track.pop(0)
         # Time increment
         self.mt += 1
         # bpm * mt_per_beat is MT per minute. Divide it by 1200 to get MT
-- 
2.43.0


From ea20c3028f18ea6806cda28c8745cec265932906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:34 +0000
Subject: [PATCH 61/63] fix: report why a MIDI file can not be read

---
 acaciamc/modules/music.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/acaciamc/modules/music.py b/acaciamc/modules/music.py
index 2b586f3..9ab33b3 100644
--- a/acaciamc/modules/music.py
+++ b/acaciamc/modules/music.py
@@ -239,11 +239,13 @@ class MusicType(Type):
                  channel_volume: Dict[int, float], instrument: Dict[int, str]):
             try:
                 midi = mido.MidiFile(path)
-            except OSError as err:
+            except (OSError, EOFError, ValueError) as err:
+                # `mido` raises errors without `strerror` on invalid files
+                reason = getattr(err, "strerror", None) or str(err)
                 raise Error(
                     ErrorType.IO,
                     message=localize("modules.music.doinit.midiparser")
-                        % err.strerror
+                        % (reason or type(err).__name__)
                 )
             if speed <= 0:
                 raise axe.ArgumentError(
-- 
2.43.0


From 1761f11a2108e46861c7bae5aafbbcecc21a117e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:01 +0000
Subject: [PATCH 62/63] fix: axe: pass positional arguments in the order they
 are declared

Arguments renamed to axe.POSITIONAL were handed to the implementation in
the order the caller gave them (values of *args first, defaults last).
---
 acaciamc/tools/axe.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/acaciamc/tools/axe.py b/acaciamc/tools/axe.py
index 3c03933..d08cae8 100644
--- a/acaciamc/tools/axe.py
+++ b/acaciamc/tools/axe.py
@@ -882,11 +882,11 @@ class _Chopper:
     def __call__(self, compiler: "Compiler", args: List[_EXPR_T],
                  kwds: Dict[str, _EXPR_T]):
         res: Dict[str, Any] = {}
-        res_positional: List[Any] = []
+        positional: Dict[str, Any] = {}  # arguments renamed to POSITIONAL
         arg_got: List[str] = []
         def _emit(arg: Union[_Argument, _ArgumentList], value: Any):
             if arg.rename is POSITIONAL:
-                res_positional.append(value)
+                positional[arg.name] = value
             else:
                 res[arg.rename] = value
             arg_got.append(arg.name)
@@ -949,6 +949,19 @@ class _Chopper:
             _emit(self.args, [])
         if self.kwds and self.kwds.name not in arg_got:
             _emit(self.kwds, {})
+        # Pass positional ones in the order they are declared
+        all_args: List[Union[_Argument, _ArgumentList]] = []
+        all_args.extend(self.pos_only)
+        all_args.extend(self.pos_n_kw)
+        if self.args:
+            all_args.append(self.args)
+        all_args.extend(self.kw_only)
+        if self.kwds:
+            all_args.append(self.kwds)
+        res_positional = [
+            positional[arg_def.name] for arg_def in all_args
+            if arg_def.rename is POSITIONAL
+        ]
         return _call_impl(self.implementation, arg_got,
                           compiler, *res_positional, **res)
 
-- 
2.43.0


From 990c5840b4cde44a8a9374a73407cb14a4eb96e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:04 +0000
Subject: [PATCH 63/63] fix: axe: CTListOf describes its elements in messages

---
 acaciamc/tools/axe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/tools/axe.py b/acaciamc/tools/axe.py
index d08cae8..c19b3ed 100644
--- a/acaciamc/tools/axe.py
+++ b/acaciamc/tools/axe.py
@@ -628,7 +628,7 @@ class CTListOf(CTTyped):
         super().__init__(objects.list_.ctdt_constlist)
         self.converter = converter
 
-    def get_show_name(self) -> str:
+    def crepr(self) -> str:
         return (localize("axe.converter.std.ctlistof")
                 % self.converter.crepr())
 
-- 
2.43.0

