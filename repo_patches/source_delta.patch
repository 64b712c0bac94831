From 61b6e0ccf6d54930246ac5272deee4306a24ff6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:56 +0000
Subject: [PATCH 01/69] fix: emit negative constants as a unary minus so they
 are parenthesised under other operators

---
 veriloggen/verilog/to_verilog.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/veriloggen/verilog/to_verilog.py b/veriloggen/verilog/to_verilog.py
index 6e415c1..c8f6543 100644
--- a/veriloggen/verilog/to_verilog.py
+++ b/veriloggen/verilog/to_verilog.py
@@ -58,15 +58,16 @@ class VerilogCommonVisitor(object):
     def visit_Int(self, node):
         value_list = []
         value = node.value
+        negative = False
 
         if isinstance(node.value, str) and node.value.find('-') >= 0:
             pos = node.value.find('-') + 1
             value = node.value[pos:]
-            value_list.append('-')
+            negative = True
 
         if isinstance(node.value, int) and node.value < 0:
             value = abs(node.value)
-            value_list.append('-')
+            negative = True
 
         if node.width:
             value_list.append(str(node.width))
@@ -119,7 +120,8 @@ class VerilogCommonVisitor(object):
         else:
             raise ValueError("Int.base must be 2, 8, 10, or 16")
 
-        return vast.IntConst(''.join(value_list))
+        ret = vast.IntConst(''.join(value_list))
+        return vast.Uminus(ret) if negative else ret
 
     def visit_Float(self, node):
         return vast.FloatConst(str(node.value))
@@ -134,6 +136,8 @@ class VerilogCommonVisitor(object):
         return vast.IntConst('0')
 
     def visit_int(self, node):
+        if node < 0:
+            return vast.Uminus(vast.IntConst(str(abs(node))))
         return vast.IntConst(str(node))
 
     def visit_str(self, node):
-- 
2.43.0


From 7fc536ace3807655377a53f46865c84edcdd314d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:14 +0000
Subject: [PATCH 02/69] fix: emit the most negative value of a sized constant
 without a unary minus, so that it sign-extends

---
 veriloggen/verilog/to_verilog.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/veriloggen/verilog/to_verilog.py b/veriloggen/verilog/to_verilog.py
index c8f6543..343731f 100644
--- a/veriloggen/verilog/to_verilog.py
+++ b/veriloggen/verilog/to_verilog.py
@@ -67,7 +67,9 @@ class VerilogCommonVisitor(object):
 
         if isinstance(node.value, int) and node.value < 0:
             value = abs(node.value)
-            negative = True
+            # the most negative value of a width is its own negation
+            negative = not (node.width and node.signed and
+                            value == (1 << (node.width - 1)))
 
         if node.width:
             value_list.append(str(node.width))
-- 
2.43.0


From 7bc28f04b858437d04df027bd76080df6344c133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:14 +0000
Subject: [PATCH 03/69] fix: keep the width of signed literal strings such as
 8'shff

---
 veriloggen/core/vtypes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/veriloggen/core/vtypes.py b/veriloggen/core/vtypes.py
index 490d63b..3d27e75 100644
--- a/veriloggen/core/vtypes.py
+++ b/veriloggen/core/vtypes.py
@@ -106,16 +106,16 @@ def str_to_value(s):
 
 def str_to_width(s):
     targ = s.replace('_', '')
-    match = re.search(r'(.+)\'h.+', targ)
+    match = re.search(r'(.+)\'s?h.+', targ)
     if match is not None:
         return int(match.group(1), 10)
-    match = re.search(r'(.+)\'d.+', targ)
+    match = re.search(r'(.+)\'s?d.+', targ)
     if match is not None:
         return int(match.group(1), 10)
-    match = re.search(r'(.+)\'o.+', targ)
+    match = re.search(r'(.+)\'s?o.+', targ)
     if match is not None:
         return int(match.group(1), 10)
-    match = re.search(r'(.+)\'b.+', targ)
+    match = re.search(r'(.+)\'s?b.+', targ)
     if match is not None:
         return int(match.group(1), 10)
     return None
-- 
2.43.0


From 2b4c9ef870292ebeb07cf837f6d6bb4f1cdd7ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:14 +0000
Subject: [PATCH 04/69] fix: Int(True) and Int(False) are the constants 1 and
 0, not identifiers

---
 veriloggen/core/vtypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veriloggen/core/vtypes.py b/veriloggen/core/vtypes.py
index 3d27e75..c78e97a 100644
--- a/veriloggen/core/vtypes.py
+++ b/veriloggen/core/vtypes.py
@@ -819,7 +819,7 @@ class Int(_Constant):
             self.base = base
             self.signed = signed
         elif isinstance(value, int):
-            self.value = value
+            self.value = int(value)
             self.width = width
             self.base = base
             self.signed = signed if value >= 0 else value < 0
-- 
2.43.0


From 971cfa017a1a7eb87a14e5f75179e10ffdc5df9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:14 +0000
Subject: [PATCH 05/69] fix: a Float given as a Python int is emitted as a real
 constant

---
 veriloggen/verilog/to_verilog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veriloggen/verilog/to_verilog.py b/veriloggen/verilog/to_verilog.py
index 343731f..1dfe6d7 100644
--- a/veriloggen/verilog/to_verilog.py
+++ b/veriloggen/verilog/to_verilog.py
@@ -126,7 +126,7 @@ class VerilogCommonVisitor(object):
         return vast.Uminus(ret) if negative else ret
 
     def visit_Float(self, node):
-        return vast.FloatConst(str(node.value))
+        return vast.FloatConst(str(float(node.value)))
 
     def visit_Str(self, node):
         return vast.StringConst(node.value)
-- 
2.43.0


From dbe424c2b3551372b78d7e3c264e5982563a84ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:51 +0000
Subject: [PATCH 06/69] fix: emit negative real constants as a unary minus

---
 veriloggen/verilog/to_verilog.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/veriloggen/verilog/to_verilog.py b/veriloggen/verilog/to_verilog.py
index 1dfe6d7..18d80d3 100644
--- a/veriloggen/verilog/to_verilog.py
+++ b/veriloggen/verilog/to_verilog.py
@@ -126,7 +126,7 @@ class VerilogCommonVisitor(object):
         return vast.Uminus(ret) if negative else ret
 
     def visit_Float(self, node):
-        return vast.FloatConst(str(float(node.value)))
+        return self.visit_float(float(node.value))
 
     def visit_Str(self, node):
         return vast.StringConst(node.value)
@@ -146,6 +146,8 @@ class VerilogCommonVisitor(object):
         return vast.StringConst(node)
 
     def visit_float(self, node):
+        if node < 0:
+            return vast.Uminus(vast.FloatConst(str(abs(node))))
         return vast.FloatConst(str(node))
 
     def visit_list(self, node):
-- 
2.43.0


From 9db2c0ae59bd6bb2103e9641acd824507752aa7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:06 +0000
Subject: [PATCH 07/69] fix: keep an unknown second digit of a hexadecimal
 literal string (16'h0x1)

---
 veriloggen/core/vtypes.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/veriloggen/core/vtypes.py b/veriloggen/core/vtypes.py
index c78e97a..accdf9e 100644
--- a/veriloggen/core/vtypes.py
+++ b/veriloggen/core/vtypes.py
@@ -62,10 +62,11 @@ def str_to_value(s):
 
     match = re.search(r'h(.+)', targ)
     if match is not None:
-        try:
-            v = int(match.group(1), 16)
-        except:
-            v = match.group(1)
+        v = match.group(1)
+        # 'x' is an unknown digit, not part of a Python prefix '0x'
+        if re.search(r'[xXzZ]', v) is None:
+            v = int(v, 16)
+        else:
             check_int_hex(v)
         return v, 16
 
-- 
2.43.0


From 644761c4a574e8331ad2f073170dee1b30f95100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:47 +0000
Subject: [PATCH 08/69] fix: a task call is emitted as a complete statement
 with an argument list

---
 veriloggen/verilog/to_verilog.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/veriloggen/verilog/to_verilog.py b/veriloggen/verilog/to_verilog.py
index 18d80d3..9b84b9c 100644
--- a/veriloggen/verilog/to_verilog.py
+++ b/veriloggen/verilog/to_verilog.py
@@ -500,6 +500,8 @@ class VerilogCommonVisitor(object):
 
     def visit_SingleStatement(self, node):
         statement = self.visit(node.statement)
+        if isinstance(statement, vast.SingleStatement):
+            return statement
         return vast.SingleStatement(statement)
 
     # -------------------------------------------------------------------------
@@ -533,7 +535,7 @@ class VerilogCommonVisitor(object):
     def visit_TaskCall(self, node):
         name = vast.Identifier(node.name)
         args = tuple([self.visit(a) for a in node.args])
-        return vast.TaskCall(name, args)
+        return vast.SingleStatement(vast.FunctionCall(name, args))
 
     # -------------------------------------------------------------------------
     def visit_Instance(self, node):
-- 
2.43.0


From 87faf341294b70693dc9567017d5391d7d351c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:38 +0000
Subject: [PATCH 09/69] fix: a Seq Elif/Else branch with its own attributes
 does not detach the following branches

---
 veriloggen/seq/seq.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/veriloggen/seq/seq.py b/veriloggen/seq/seq.py
index ef84fbb..096e3c1 100644
--- a/veriloggen/seq/seq.py
+++ b/veriloggen/seq/seq.py
@@ -90,6 +90,7 @@ class Seq(vtypes.VeriloggenNode):
         self.last_cond = []
         self.last_kwargs = {}
         self.last_if_statement = None
+        self.last_separated = False
         self.next_else = False
         self.elif_cond = None
         self.next_kwargs = {}
@@ -126,8 +127,14 @@ class Seq(vtypes.VeriloggenNode):
             self._clear_elif_cond()
             return self
 
+        # a branch with its own attributes is emitted as a separated If statement,
+        # so that the following branches can not be attached to it.
+        separated = self.elif_cond is not None or self.next_else
+        self._clear_elif_cond()
         self._clear_last_if_statement()
-        return self._add_statement(statement, **kwargs)
+        self._add_statement(statement, **kwargs)
+        self.last_separated = separated
+        return self
 
     # -------------------------------------------------------------------------
     def add_reset(self, v):
@@ -223,7 +230,8 @@ class Seq(vtypes.VeriloggenNode):
 
         # if the true-statement has delay attributes,
         # Else statement is separated.
-        if 'delay' in self.last_kwargs and self.last_kwargs['delay'] > 0:
+        if (self.last_separated or
+                'delay' in self.last_kwargs and self.last_kwargs['delay'] > 0):
             prev_cond = self.last_cond
             ret = self.Then()
             self.last_cond = prev_cond
@@ -251,7 +259,8 @@ class Seq(vtypes.VeriloggenNode):
 
         # if the true-statement has delay attributes,
         # Else statement is separated.
-        if 'delay' in self.last_kwargs and self.last_kwargs['delay'] > 0:
+        if (self.last_separated or
+                'delay' in self.last_kwargs and self.last_kwargs['delay'] > 0):
             prev_cond = self.last_cond
             ret = self.Then()
             self.last_cond = prev_cond
@@ -719,6 +728,7 @@ class Seq(vtypes.VeriloggenNode):
 
     def _clear_last_if_statement(self):
         self.last_if_statement = None
+        self.last_separated = False
         self.next_else = False
 
     def _clear_last_cond(self):
-- 
2.43.0


From bff6e3a1c43306be8efd494a1d6523f9bd3e432e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:11 +0000
Subject: [PATCH 10/69] fix: Seq/FSM conditions: multi-bit delayed conditions,
 conditional Prev, Casex statements and branches after a delayed Elif

---
 veriloggen/fsm/fsm.py           |  4 ++--
 veriloggen/seq/seq.py           | 31 +++++++++++++++++++++++++------
 veriloggen/seq/subst_visitor.py | 13 +++++++++----
 3 files changed, 36 insertions(+), 12 deletions(-)

diff --git a/veriloggen/fsm/fsm.py b/veriloggen/fsm/fsm.py
index f7617e3..a38ff0e 100644
--- a/veriloggen/fsm/fsm.py
+++ b/veriloggen/fsm/fsm.py
@@ -10,7 +10,7 @@ from veriloggen.core.module import Module
 from veriloggen.core.submodule import Submodule
 from veriloggen.seq.subst_visitor import *
 from veriloggen.seq.reset_visitor import ResetVisitor
-from veriloggen.seq.seq import Seq, make_condition
+from veriloggen.seq.seq import Seq, make_condition, _make_bool
 
 
 _tmp_count = 0
@@ -832,7 +832,7 @@ class FSM(vtypes.VeriloggenNode):
         name_prefix = '_'.join(
             ['', self.name, 'cond', str(index), str(self.tmp_count)])
         self.tmp_count += 1
-        prev = statement
+        prev = _make_bool(statement)
         for i in range(delay):
             tmp_name = '_'.join([name_prefix, str(i + 1)])
             tmp = self.m.Reg(tmp_name, initval=0)
diff --git a/veriloggen/seq/seq.py b/veriloggen/seq/seq.py
index 096e3c1..1c1fa82 100644
--- a/veriloggen/seq/seq.py
+++ b/veriloggen/seq/seq.py
@@ -51,6 +51,19 @@ def make_condition(*cond):
     return ret
 
 
+def _make_bool(cond):
+    """ a condition value to be stored in a 1-bit register """
+    if not isinstance(cond, vtypes._Numeric):
+        return cond
+    try:
+        width = vtypes.get_width(cond)
+    except TypeError:
+        width = 0  # unknown
+    if width is None or (isinstance(width, int) and width == 1):
+        return cond
+    return vtypes.NotEq(cond, 0)
+
+
 def _get_manager_cond(cond):
     if hasattr(cond, 'current_condition'):
         cond = getattr(cond, 'current_condition', None)
@@ -91,6 +104,7 @@ class Seq(vtypes.VeriloggenNode):
         self.last_kwargs = {}
         self.last_if_statement = None
         self.last_separated = False
+        self.next_separated = False
         self.next_else = False
         self.elif_cond = None
         self.next_kwargs = {}
@@ -129,7 +143,9 @@ class Seq(vtypes.VeriloggenNode):
 
         # a branch with its own attributes is emitted as a separated If statement,
         # so that the following branches can not be attached to it.
-        separated = self.elif_cond is not None or self.next_else
+        separated = (self.next_separated or
+                     self.elif_cond is not None or self.next_else)
+        self.next_separated = False
         self._clear_elif_cond()
         self._clear_last_if_statement()
         self._add_statement(statement, **kwargs)
@@ -174,16 +190,16 @@ class Seq(vtypes.VeriloggenNode):
         else:
             name_prefix = _tmp_name(prefix)
 
-        key = '_'.join([name_prefix, str(delay)])
-        if key in self.prev_dict:
-            return self.prev_dict[key]
+        cond = make_condition(cond)
 
         p = var
         for i in range(delay):
-            cond = make_condition(cond)
             if cond is not None:
                 tmp = self.m.TmpReg(width=width, initval=initval, signed=signed)
+                # not a branch of the current If-Elif-Else chain
+                last_if_statement = self.last_if_statement
                 self._add_statement([tmp(p)], cond=cond)
+                self.last_if_statement = last_if_statement
                 p = tmp
 
             else:
@@ -235,6 +251,7 @@ class Seq(vtypes.VeriloggenNode):
             prev_cond = self.last_cond
             ret = self.Then()
             self.last_cond = prev_cond
+            self.next_separated = True
             return ret
 
         if not isinstance(self.last_if_statement, vtypes.If):
@@ -264,6 +281,7 @@ class Seq(vtypes.VeriloggenNode):
             prev_cond = self.last_cond
             ret = self.Then()
             self.last_cond = prev_cond
+            self.next_separated = True
             return ret
 
         if not isinstance(self.last_if_statement, vtypes.If):
@@ -303,6 +321,7 @@ class Seq(vtypes.VeriloggenNode):
         self._clear_last_if_statement()
         self._clear_last_cond()
         self._clear_elif_cond()
+        self.next_separated = False
         return self
 
     # -------------------------------------------------------------------------
@@ -689,7 +708,7 @@ class Seq(vtypes.VeriloggenNode):
     def _add_delayed_cond(self, statement, delay):
         name_prefix = '_'.join(['', self.name, 'cond', str(self.tmp_count)])
         self.tmp_count += 1
-        prev = statement
+        prev = _make_bool(statement)
         for i in range(delay):
             tmp_name = '_'.join([name_prefix, str(i + 1)])
             tmp = self.m.Reg(tmp_name, initval=0)
diff --git a/veriloggen/seq/subst_visitor.py b/veriloggen/seq/subst_visitor.py
index 6b2ade3..96d557f 100644
--- a/veriloggen/seq/subst_visitor.py
+++ b/veriloggen/seq/subst_visitor.py
@@ -50,7 +50,7 @@ class SubstDstVisitor(object):
         return statement
 
     def visit_Casex(self, node):
-        return self.visit(node)
+        return self.visit_Case(node)
 
     def visit_When(self, node):
         statement = self.visit(node.statement)
@@ -117,7 +117,7 @@ class SubstSrcVisitor(CollectVisitor):
         self.visit(node.statement)
 
     def visit_Casex(self, node):
-        return self.visit(node)
+        return self.visit_Case(node)
 
     def visit_When(self, node):
         self.visit(node.condition)
@@ -186,10 +186,15 @@ class SrcRenameVisitor(RenameVisitor):
         return ret
 
     def visit_Casex(self, node):
-        return self.visit(node)
+        comp = self.visit(node.comp)
+        statement = self.visit(node.statement)
+        ret = vtypes.Casex(comp)
+        ret.statement = statement
+        ret.last = node.last
+        return ret
 
     def visit_When(self, node):
-        condition = self.visit(node.condition)
+        condition = self.visit(node.condition) if node.condition is not None else ()
         statement = self.visit(node.statement)
         ret = vtypes.When(*condition)
         ret.statement = statement
-- 
2.43.0


From 61648d5ff4e70979a2c6005d81d58861b93d5a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:23 +0000
Subject: [PATCH 11/69] fix: Seq: array sources of as_module, Prev of scalar
 expressions and initial values, boolean value of delayed conditions

---
 veriloggen/core/vtypes.py |  1 +
 veriloggen/fsm/fsm.py     | 11 ++++++-----
 veriloggen/seq/seq.py     | 28 +++++++++++++++++++---------
 3 files changed, 26 insertions(+), 14 deletions(-)

diff --git a/veriloggen/core/vtypes.py b/veriloggen/core/vtypes.py
index accdf9e..a375c1f 100644
--- a/veriloggen/core/vtypes.py
+++ b/veriloggen/core/vtypes.py
@@ -1754,6 +1754,7 @@ class Cat(_SpecialOperator):
 
     def get_width(self):
         values = [get_width(v) for v in self.vars]
+        values = [1 if v is None else v for v in values]
         ret = values[0]
         for v in values[1:]:
             ret = ret + v
diff --git a/veriloggen/fsm/fsm.py b/veriloggen/fsm/fsm.py
index a38ff0e..96a7b59 100644
--- a/veriloggen/fsm/fsm.py
+++ b/veriloggen/fsm/fsm.py
@@ -540,7 +540,7 @@ class FSM(vtypes.VeriloggenNode):
                 s = src
                 a = None
                 for d, dim in enumerate(dims):
-                    i = g.TmpGenvar(prefix='i')
+                    i = self.m.TmpGenvar(prefix='i')
                     g = g.GenerateFor(i(0), i < dim, i(i + 1))
                     s = vtypes.Pointer(s, i)
                     b = None
@@ -566,6 +566,7 @@ class FSM(vtypes.VeriloggenNode):
                 # inside FSM-module
                 rep_width = (src_rename_visitor.visit(src.width)
                              if src.width is not None else None)
+                ia_width = 1 if rep_width is None else rep_width
                 rep_dims = src_rename_visitor.visit(src.dims)
                 rep_length = None
                 for rep_dim in rep_dims:
@@ -577,14 +578,14 @@ class FSM(vtypes.VeriloggenNode):
                               vtypes.Mul(rep_length, rep_width))
                 in_line = m.Input(arg_name + '_line', pack_width,
                                   signed=src.get_signed())
-                in_array = m.Wire(arg_name, rep_width, rep_length,
+                in_array = m.Wire(arg_name, rep_width, rep_dims,
                                   signed=src.get_signed())
 
                 g = m
                 ia = in_array
                 a = None
-                for rep_dim in rep_dims:
-                    i = g.TmpGenvar(prefix='i')
+                for d, rep_dim in enumerate(rep_dims):
+                    i = m.TmpGenvar(prefix='i')
                     g = g.GenerateFor(i(0), i < rep_dim, i(i + 1))
                     ia = vtypes.Pointer(ia, i)
                     b = None
@@ -604,7 +605,7 @@ class FSM(vtypes.VeriloggenNode):
                         else:
                             a += i * b
 
-                v = in_line[a * rep_width:(a + 1) * rep_width]
+                v = in_line[a * ia_width:(a + 1) * ia_width]
                 p = g.Assign(ia(v))
 
                 src_rename_dict[src.name] = in_array
diff --git a/veriloggen/seq/seq.py b/veriloggen/seq/seq.py
index 1c1fa82..12c919e 100644
--- a/veriloggen/seq/seq.py
+++ b/veriloggen/seq/seq.py
@@ -59,9 +59,11 @@ def _make_bool(cond):
         width = vtypes.get_width(cond)
     except TypeError:
         width = 0  # unknown
+    if isinstance(width, vtypes.Localparam):
+        width = width.value
     if width is None or (isinstance(width, int) and width == 1):
         return cond
-    return vtypes.NotEq(cond, 0)
+    return vtypes.Uor(cond)
 
 
 def _get_manager_cond(cond):
@@ -180,7 +182,7 @@ class Seq(vtypes.VeriloggenNode):
         signed = vtypes.get_signed(var)
 
         if not isinstance(var, vtypes._Variable):
-            width = self.m.TmpLocalparam(width)
+            width = self.m.TmpLocalparam(1 if width is None else width)
             w = self.m.TmpWire(width, signed=signed)
             w.assign(var)
             var = w
@@ -205,11 +207,18 @@ class Seq(vtypes.VeriloggenNode):
             else:
                 tmp_name = '_'.join([name_prefix, str(i + 1)])
                 if tmp_name in self.prev_dict:
-                    p = self.prev_dict[tmp_name]
+                    prev, prev_initval = self.prev_dict[tmp_name]
+                    if vtypes.equals(prev_initval, initval):
+                        p = prev
+                        continue
+                    # another initial value requires another register chain
+                    tmp = self.m.TmpReg(width, initval=initval, signed=signed)
+                    self._add_statement([tmp(p)])
+                    p = tmp
                     continue
                 tmp = self.m.Reg(
                     tmp_name, width, initval=initval, signed=signed)
-                self.prev_dict[tmp_name] = tmp
+                self.prev_dict[tmp_name] = (tmp, initval)
                 self._add_statement([tmp(p)])
                 p = tmp
 
@@ -506,7 +515,7 @@ class Seq(vtypes.VeriloggenNode):
                 s = src
                 a = None
                 for d, dim in enumerate(dims):
-                    i = g.TmpGenvar(prefix='i')
+                    i = self.m.TmpGenvar(prefix='i')
                     g = g.GenerateFor(i(0), i < dim, i(i + 1))
                     s = vtypes.Pointer(s, i)
                     b = None
@@ -532,6 +541,7 @@ class Seq(vtypes.VeriloggenNode):
                 # inside FSM-module
                 rep_width = (src_rename_visitor.visit(src.width)
                              if src.width is not None else None)
+                ia_width = 1 if rep_width is None else rep_width
                 rep_dims = src_rename_visitor.visit(src.dims)
                 rep_length = None
                 for rep_dim in rep_dims:
@@ -543,14 +553,14 @@ class Seq(vtypes.VeriloggenNode):
                               vtypes.Mul(rep_length, rep_width))
                 in_line = m.Input(arg_name + '_line', pack_width,
                                   signed=src.get_signed())
-                in_array = m.Wire(arg_name, rep_width, rep_length,
+                in_array = m.Wire(arg_name, rep_width, rep_dims,
                                   signed=src.get_signed())
 
                 g = m
                 ia = in_array
                 a = None
-                for rep_dim in rep_dims:
-                    i = g.TmpGenvar(prefix='i')
+                for d, rep_dim in enumerate(rep_dims):
+                    i = m.TmpGenvar(prefix='i')
                     g = g.GenerateFor(i(0), i < rep_dim, i(i + 1))
                     ia = vtypes.Pointer(ia, i)
                     b = None
@@ -570,7 +580,7 @@ class Seq(vtypes.VeriloggenNode):
                         else:
                             a += i * b
 
-                v = in_line[a * rep_width:(a + 1) * rep_width]
+                v = in_line[a * ia_width:(a + 1) * ia_width]
                 p = g.Assign(ia(v))
 
                 src_rename_dict[src.name] = in_array
-- 
2.43.0


From 790d49e287053dd24f0368c4d21fb84e7459689b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:42 +0000
Subject: [PATCH 12/69] fix: FSM: branch chains mixing assignments and jumps,
 delayed statements of When/State, State() without an index; Then() keeps the
 chain

---
 veriloggen/fsm/fsm.py | 77 +++++++++++++++++++++++++++----------------
 veriloggen/seq/seq.py | 12 +++----
 2 files changed, 55 insertions(+), 34 deletions(-)

diff --git a/veriloggen/fsm/fsm.py b/veriloggen/fsm/fsm.py
index 96a7b59..ef0a859 100644
--- a/veriloggen/fsm/fsm.py
+++ b/veriloggen/fsm/fsm.py
@@ -75,6 +75,8 @@ class FSM(vtypes.VeriloggenNode):
         self.last_cond = []
         self.last_kwargs = {}
         self.last_if_statement = None
+        self.last_separated = False
+        self.next_separated = False
         self.next_else = False
         self.elif_cond = None
         self.next_kwargs = {}
@@ -94,10 +96,7 @@ class FSM(vtypes.VeriloggenNode):
         else:
             index = None
 
-        self._clear_next_kwargs()
-        # self._clear_last_if_statement()
-        # self._clear_last_cond()
-        # self._clear_elif_cond()
+        self._clear_branch()
 
         if index is None:
             src = self.current
@@ -116,10 +115,7 @@ class FSM(vtypes.VeriloggenNode):
         else:
             index = None
 
-        self._clear_next_kwargs()
-        # self._clear_last_if_statement()
-        # self._clear_last_cond()
-        # self._clear_elif_cond()
+        self._clear_branch()
 
         if index is None:
             src = self.current
@@ -139,10 +135,7 @@ class FSM(vtypes.VeriloggenNode):
         else:
             index = None
 
-        self._clear_next_kwargs()
-        # self._clear_last_if_statement()
-        # self._clear_last_cond()
-        # self._clear_elif_cond()
+        self._clear_branch()
 
         if index is None:
             src = self.current
@@ -158,10 +151,7 @@ class FSM(vtypes.VeriloggenNode):
         if cond is None and 'cond' in self.next_kwargs:
             cond = self.next_kwargs['cond']
 
-        self._clear_next_kwargs()
-        # self._clear_last_if_statement()
-        # self._clear_last_cond()
-        # self._clear_elif_cond()
+        self._clear_branch()
 
         self._go(src, dst, cond, else_dst)
         return dst
@@ -199,8 +189,16 @@ class FSM(vtypes.VeriloggenNode):
             self._clear_elif_cond()
             return self
 
+        # a branch with its own attributes is emitted as a separated If statement,
+        # so that the following branches can not be attached to it.
+        separated = (self.next_separated or
+                     self.elif_cond is not None or self.next_else)
+        self.next_separated = False
+        self._clear_elif_cond()
         self._clear_last_if_statement()
-        return self._add_statement(statement, **kwargs)
+        self._add_statement(statement, **kwargs)
+        self.last_separated = separated
+        return self
 
     # -------------------------------------------------------------------------
     def add_reset(self, v):
@@ -241,10 +239,10 @@ class FSM(vtypes.VeriloggenNode):
 
         # if the true-statement has delay attributes,
         # Else statement is separated.
-        if 'delay' in self.last_kwargs and self.last_kwargs['delay'] > 0:
-            prev_cond = self.last_cond
+        if (self.last_separated or
+                'delay' in self.last_kwargs and self.last_kwargs['delay'] > 0):
             ret = self.Then()
-            self.last_cond = prev_cond
+            self.next_separated = True
             return ret
 
         # if not isinstance(self.last_if_statement, vtypes.If):
@@ -254,6 +252,8 @@ class FSM(vtypes.VeriloggenNode):
 
         if isinstance(self.last_if_statement, vtypes.If):
             self.next_else = True
+        else:
+            self.next_separated = True
 
         cond = self._make_cond(self.last_cond)
         self.next_kwargs['cond'] = cond
@@ -272,10 +272,10 @@ class FSM(vtypes.VeriloggenNode):
 
         # if the true-statement has delay attributes,
         # Else statement is separated.
-        if 'delay' in self.last_kwargs and self.last_kwargs['delay'] > 0:
-            prev_cond = self.last_cond
+        if (self.last_separated or
+                'delay' in self.last_kwargs and self.last_kwargs['delay'] > 0):
             ret = self.Then()
-            self.last_cond = prev_cond
+            self.next_separated = True
             return ret
 
         # if not isinstance(self.last_if_statement, vtypes.If):
@@ -285,6 +285,8 @@ class FSM(vtypes.VeriloggenNode):
 
         if isinstance(self.last_if_statement, vtypes.If):
             self.elif_cond = cond
+        else:
+            self.next_separated = True
 
         cond = self._make_cond(self.last_cond)
         self.next_kwargs['cond'] = cond
@@ -292,9 +294,13 @@ class FSM(vtypes.VeriloggenNode):
         return self
 
     def Then(self):
-        cond = self._make_cond(self.last_cond)
+        last_cond = self.last_cond
         self._clear_last_cond()
-        self.If(cond)
+        self.If(self._make_cond(last_cond))
+        # the branches after this statement belong to the same chain
+        self.last_cond = last_cond
+        if len(last_cond) > 1:
+            self.next_separated = True
         return self
 
     def Delay(self, delay):
@@ -319,7 +325,7 @@ class FSM(vtypes.VeriloggenNode):
 
     def State(self, index=None):
         if index is None:
-            index = fsm.current
+            index = self.current
         return State(self, index)
 
     def Clear(self):
@@ -327,6 +333,7 @@ class FSM(vtypes.VeriloggenNode):
         self._clear_last_if_statement()
         self._clear_last_cond()
         self._clear_elif_cond()
+        self.next_separated = False
         return self
 
     # -------------------------------------------------------------------------
@@ -838,7 +845,8 @@ class FSM(vtypes.VeriloggenNode):
             tmp_name = '_'.join([name_prefix, str(i + 1)])
             tmp = self.m.Reg(tmp_name, initval=0)
             self.delayed_cond[tmp_name] = tmp
-            self._add_statement([tmp(prev)], delay=i, no_delay_cond=True)
+            self._add_statement([tmp(prev)], index=index, delay=i,
+                                no_delay_cond=True)
             prev = tmp
         return prev
 
@@ -863,7 +871,8 @@ class FSM(vtypes.VeriloggenNode):
         for i in range(delay):
             tmp_name = '_'.join([name_prefix, str(i + 1)])
             tmp = self.m.Reg(tmp_name, width, initval=0, signed=signed)
-            self._add_statement([tmp(prev)], delay=i, no_delay_cond=True)
+            self._add_statement([tmp(prev)], index=index, delay=i,
+                                no_delay_cond=True)
             prev = tmp
         return left(prev)
 
@@ -871,8 +880,19 @@ class FSM(vtypes.VeriloggenNode):
     def _clear_next_kwargs(self):
         self.next_kwargs = {}
 
+    def _clear_branch(self):
+        """ a conditional jump is a branch of the current If-Elif-Else chain,
+        so that the following branches can not be attached to the last If statement """
+        if 'cond' in self.next_kwargs:
+            self._clear_last_if_statement()
+            self._clear_elif_cond()
+            self.last_separated = True
+            self.next_separated = False
+        self._clear_next_kwargs()
+
     def _clear_last_if_statement(self):
         self.last_if_statement = None
+        self.last_separated = False
         self.next_else = False
 
     def _clear_last_cond(self):
@@ -896,6 +916,7 @@ class FSM(vtypes.VeriloggenNode):
         self._clear_last_if_statement()
         self._clear_last_cond()
         self._clear_elif_cond()
+        self.next_separated = False
 
         if index is None:
             self.state_count += 1
diff --git a/veriloggen/seq/seq.py b/veriloggen/seq/seq.py
index 12c919e..1221ea5 100644
--- a/veriloggen/seq/seq.py
+++ b/veriloggen/seq/seq.py
@@ -257,9 +257,7 @@ class Seq(vtypes.VeriloggenNode):
         # Else statement is separated.
         if (self.last_separated or
                 'delay' in self.last_kwargs and self.last_kwargs['delay'] > 0):
-            prev_cond = self.last_cond
             ret = self.Then()
-            self.last_cond = prev_cond
             self.next_separated = True
             return ret
 
@@ -287,9 +285,7 @@ class Seq(vtypes.VeriloggenNode):
         # Else statement is separated.
         if (self.last_separated or
                 'delay' in self.last_kwargs and self.last_kwargs['delay'] > 0):
-            prev_cond = self.last_cond
             ret = self.Then()
-            self.last_cond = prev_cond
             self.next_separated = True
             return ret
 
@@ -304,9 +300,13 @@ class Seq(vtypes.VeriloggenNode):
         return self
 
     def Then(self):
-        cond = self._make_cond(self.last_cond)
+        last_cond = self.last_cond
         self._clear_last_cond()
-        self.If(cond)
+        self.If(self._make_cond(last_cond))
+        # the branches after this statement belong to the same chain
+        self.last_cond = last_cond
+        if len(last_cond) > 1:
+            self.next_separated = True
         return self
 
     def Delay(self, delay):
-- 
2.43.0


From 3f42736370ebcd4c1517d27a39d9aea2a8caf626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:07 +0000
Subject: [PATCH 13/69] fix: thread compiler: break/continue before a nested
 loop, calls in while conditions, descending ranges, range bounds changed in
 the loop, empty variable-length arguments

---
 veriloggen/thread/compiler.py | 56 +++++++++++++++++++++++++++++------
 1 file changed, 47 insertions(+), 9 deletions(-)

diff --git a/veriloggen/thread/compiler.py b/veriloggen/thread/compiler.py
index 5bdd1b2..e481b7d 100644
--- a/veriloggen/thread/compiler.py
+++ b/veriloggen/thread/compiler.py
@@ -258,10 +258,11 @@ class CompileVisitor(ast.NodeVisitor):
         if self.skip():
             return
 
-        # loop condition
+        # loop condition, which may consist of multiple states
+        begin_count = self.getFsmCount()
         test = self.visit(node.test)
 
-        begin_count = self.getFsmCount()
+        check_count = self.getFsmCount()
         self.incFsmCount()
         body_begin_count = self.getFsmCount()
 
@@ -270,13 +271,11 @@ class CompileVisitor(ast.NodeVisitor):
         for b in node.body:
             self.visit(b)
 
-        self.popScope()
-
         body_end_count = self.getFsmCount()
         self.incFsmCount()
         loop_exit_count = self.getFsmCount()
 
-        self.setFsm(begin_count, body_begin_count, test, loop_exit_count)
+        self.setFsm(check_count, body_begin_count, test, loop_exit_count)
         self.setFsm(body_end_count, begin_count)
 
         unresolved_break = self.getUnresolvedBreak()
@@ -290,6 +289,8 @@ class CompileVisitor(ast.NodeVisitor):
         self.clearBreak()
         self.clearContinue()
 
+        self.popScope()
+
         self.setFsmLoop(begin_count, body_end_count)
 
     def visit_For(self, node):
@@ -327,7 +328,18 @@ class CompileVisitor(ast.NodeVisitor):
 
         iter_name = self.visit(node.target)
         iter_node = self.getVariable(iter_name, store=True)
-        cond_node = vtypes.LessThan(iter_node, end_node)
+
+        # range() is evaluated only once
+        if self._is_modified_in_loop(node, node.iter.args[:2][-1]):
+            end_node = self._save_value(end_node)
+        if self._is_modified_in_loop(node, *node.iter.args[2:]):
+            step_node = self._save_value(step_node)
+
+        step_value = vtypes.raw_value(optimize(step_node))
+        if isinstance(step_value, int) and step_value < 0:
+            cond_node = vtypes.GreaterThan(iter_node, end_node)
+        else:
+            cond_node = vtypes.LessThan(iter_node, end_node)
         update_node = vtypes.Plus(iter_node, step_node)
 
         node_body = node.body
@@ -335,6 +347,24 @@ class CompileVisitor(ast.NodeVisitor):
         return self._for_range_fsm(begin_node, end_node, step_node,
                                    iter_node, cond_node, update_node, node_body)
 
+    def _is_modified_in_loop(self, node, *values):
+        """ whether a variable in the values is modified by the for-statement """
+        refs = set([n.id for value in values
+                    for n in ast.walk(value) if isinstance(n, ast.Name)])
+        for stmt in [node.target] + node.body:
+            for n in ast.walk(stmt):
+                if (isinstance(n, ast.Name) and
+                        isinstance(n.ctx, ast.Store) and n.id in refs):
+                    return True
+        return False
+
+    def _save_value(self, value):
+        var = self.getTmpVariable()
+        self.setBind(var, value)
+        self.setFsm()
+        self.incFsmCount()
+        return var
+
     def _for_range_fsm(self, begin_node, end_node, step_node,
                        iter_node, cond_node, update_node, node_body,
                        target_update=None):
@@ -362,8 +392,6 @@ class CompileVisitor(ast.NodeVisitor):
         for b in node_body:
             self.visit(b)
 
-        self.popScope()
-
         body_end_count = self.getFsmCount()
 
         # update
@@ -386,6 +414,8 @@ class CompileVisitor(ast.NodeVisitor):
         self.clearBreak()
         self.clearContinue()
 
+        self.popScope()
+
         self.setFsmLoop(check_count, body_end_count, iter_node, step_node)
 
     def _for_list(self, node):
@@ -393,6 +423,14 @@ class CompileVisitor(ast.NodeVisitor):
         target = self.getVariable(target_name, store=True)
         iterobj = self.visit(node.iter)
 
+        # list and tuple are evaluated only once
+        if (isinstance(node.iter, (ast.Tuple, ast.List)) and
+                self._is_modified_in_loop(node, node.iter)):
+            iterobj = [self._save_value(obj) for obj in iterobj]
+
+        if len(iterobj) == 0:
+            return
+
         begin_node = vtypes.Int(0)
         end_node = vtypes.Int(len(iterobj))
         step_node = vtypes.Int(1)
@@ -651,7 +689,7 @@ class CompileVisitor(ast.NodeVisitor):
                                 (len(tree.args.args), len(args)))
 
         # variable length args
-        if rest_args:
+        if tree.args.vararg is not None:
             baseobj = tree.args.vararg
             argname = (baseobj.id
                        if isinstance(baseobj, ast.Name)  # python 2
-- 
2.43.0


From 4998a566259fe7f3e15f8a309fddeaca8ec434c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:07 +0000
Subject: [PATCH 14/69] fix: optimizer: complement of a constant is signed, (a
 && ~a) is not a constant

---
 veriloggen/optimizer/optimizer.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/veriloggen/optimizer/optimizer.py b/veriloggen/optimizer/optimizer.py
index efbc516..830dfb0 100644
--- a/veriloggen/optimizer/optimizer.py
+++ b/veriloggen/optimizer/optimizer.py
@@ -10,6 +10,24 @@ import pyverilog.dataflow.optimizer as voptimizer
 from pyverilog.dataflow.dataflow import *
 
 
+class Optimizer(voptimizer.VerilogOptimizer):
+
+    def _evalOperator(self, operator, valuelist, width=32):
+        if operator == 'Unot' and isinstance(valuelist[0], int):
+            # constants are signed
+            return ~valuelist[0]
+        return voptimizer.VerilogOptimizer._evalOperator(
+            self, operator, valuelist, width)
+
+    def mergeStaticNodes(self, node):
+        if (isinstance(node, DFOperator) and node.operator in ('Land', 'Lor') and
+            any([isinstance(v, DFOperator) and v.operator == 'Unot'
+                 for v in node.nextnodes])):
+            # (a && ~a) is not always false if a has multiple bits
+            return node
+        return voptimizer.VerilogOptimizer.mergeStaticNodes(self, node)
+
+
 def try_optimize(node, width=32):
     try:
         return optimize(node, width)
@@ -20,7 +38,7 @@ def try_optimize(node, width=32):
 
 def optimize(node, width=32):
     df_tree = makeDFTree(node)
-    opt = voptimizer.VerilogOptimizer({}, default_width=width)
+    opt = Optimizer({}, default_width=width)
     opt_dfnode = opt.optimize(df_tree)
     opt_node = makeASTTree(opt_dfnode)
     return opt_node
-- 
2.43.0


From 54422eba158adc8f6d386393f85809b904d0695d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:58 +0000
Subject: [PATCH 15/69] fix: thread run/reset: keyword arguments, run/join/done
 right after reset, reset as the last statement of a branch

---
 veriloggen/thread/compiler.py | 22 ++++++++++++++++++----
 veriloggen/thread/pool.py     |  8 ++++++++
 veriloggen/thread/thread.py   | 24 ++++++++++++++++++++----
 3 files changed, 46 insertions(+), 8 deletions(-)

diff --git a/veriloggen/thread/compiler.py b/veriloggen/thread/compiler.py
index e481b7d..da924f6 100644
--- a/veriloggen/thread/compiler.py
+++ b/veriloggen/thread/compiler.py
@@ -229,8 +229,7 @@ class CompileVisitor(ast.NodeVisitor):
 
         self.pushScope()
 
-        for b in node.body:  # true statement
-            self.visit(b)
+        self._visit_branch(node.body)  # true statement
 
         self.popScope()
 
@@ -245,8 +244,7 @@ class CompileVisitor(ast.NodeVisitor):
 
         self.pushScope()
 
-        for b in node.orelse:  # false statement
-            self.visit(b)
+        self._visit_branch(node.orelse)  # false statement
 
         self.popScope()
 
@@ -254,6 +252,22 @@ class CompileVisitor(ast.NodeVisitor):
         self.setFsm(cur_count, true_count, test, false_count)
         self.setFsm(mid_count, end_count)
 
+    def _visit_branch(self, body):
+        count = self.getFsmCount()
+
+        for b in body:
+            count = self.getFsmCount()
+            self.visit(b)
+
+        # An operation that does not advance the FSM must not share its state
+        # with the statements after the branch.
+        if (not self.skip() and
+            isinstance(body[-1], ast.Expr) and
+            isinstance(body[-1].value, ast.Call) and
+                self.getFsmCount() == count):
+            self.setFsm()
+            self.incFsmCount()
+
     def visit_While(self, node):
         if self.skip():
             return
diff --git a/veriloggen/thread/pool.py b/veriloggen/thread/pool.py
index 4739ed0..7650aa1 100644
--- a/veriloggen/thread/pool.py
+++ b/veriloggen/thread/pool.py
@@ -109,6 +109,9 @@ class ThreadPool(vtypes.VeriloggenNode):
     def join(self, fsm, tid):
         """ wait for the completion """
 
+        for thread in self.threads:
+            thread._leave_reset_point(fsm)
+
         patterns = []
         for thread in self.threads:
             if thread.end_state is None:
@@ -125,6 +128,9 @@ class ThreadPool(vtypes.VeriloggenNode):
     def done(self, fsm, tid):
         """ check whethe the thread is running """
 
+        for thread in self.threads:
+            thread._leave_reset_point(fsm)
+
         patterns = []
         for thread in self.threads:
             if thread.end_state is None:
@@ -159,6 +165,8 @@ class ThreadPool(vtypes.VeriloggenNode):
                 thread.end_state, thread.start_state, reset_flag)
             thread.fsm._set_index(thread.start_state)
 
+            thread.reset_point = (fsm, fsm.current)
+
         return 0
 
     def ret(self, fsm, tid):
diff --git a/veriloggen/thread/thread.py b/veriloggen/thread/thread.py
index eafdcf2..7ebda6f 100644
--- a/veriloggen/thread/thread.py
+++ b/veriloggen/thread/thread.py
@@ -60,6 +60,7 @@ class Thread(vtypes.VeriloggenNode):
         self.vararg_regs = []
         self.vararg_set = False
         self.called = None
+        self.reset_point = None
 
     def start(self, *args, **kwargs):
         """ build up a new FSM based on the arguments """
@@ -108,6 +109,8 @@ class Thread(vtypes.VeriloggenNode):
         if not self.is_child and self.end_state is not None:
             raise ValueError('already started')
 
+        self._leave_reset_point(fsm)
+
         if self.fsm is None:
             self.fsm = FSM(self.m, self.name, self.clk, self.rst,
                            as_module=self.fsm_as_module)
@@ -134,6 +137,8 @@ class Thread(vtypes.VeriloggenNode):
         if self.end_state is None:
             raise ValueError('not started')
 
+        self._leave_reset_point(fsm)
+
         end_flag = (self.fsm.state == self.end_state)
         fsm.If(end_flag).goto_next()
 
@@ -145,6 +150,8 @@ class Thread(vtypes.VeriloggenNode):
         if self.end_state is None:
             raise ValueError('not started')
 
+        self._leave_reset_point(fsm)
+
         end_flag = (self.fsm.state == self.end_state)
 
         return end_flag
@@ -167,6 +174,8 @@ class Thread(vtypes.VeriloggenNode):
         self.fsm.goto_from(self.end_state, self.start_state, reset_flag)
         self.fsm._set_index(self.start_state)
 
+        self.reset_point = (fsm, fsm.current)
+
         return 0
 
     def ret(self, fsm):
@@ -174,6 +183,16 @@ class Thread(vtypes.VeriloggenNode):
 
         return self.return_value
 
+    def _leave_reset_point(self, fsm):
+        """ the reset takes effect at the end of the state that requests it """
+
+        if self.reset_point is None:
+            return
+
+        reset_fsm, reset_state = self.reset_point
+        if reset_fsm is fsm and reset_state == fsm.current:
+            fsm.goto_next()
+
     # --------------------------------------------------------------------------
     def add_function(self, func):
         name = func.__name__
@@ -379,7 +398,6 @@ class Thread(vtypes.VeriloggenNode):
             #    )
 
         # kwargs
-        kwargs_code = []
         for argname, arg in sorted(kwargs.items(), key=lambda x: x[0]):
             if argname in used_args:
                 raise TypeError(
@@ -416,8 +434,6 @@ class Thread(vtypes.VeriloggenNode):
                     raise ValueError(
                         'same object must be passed for non-numeric argument')
 
-            kwargs_code.append('{}={}'.format(key, key))
-
         # defaults
         defaults_size = len(tree.args.defaults)
         if defaults_size > 0:
@@ -460,7 +476,7 @@ class Thread(vtypes.VeriloggenNode):
             return self.return_value
 
         # call AST
-        args_text = ', '.join(args_code + kwargs_code)
+        args_text = ', '.join(args_code)
         call_code = ''.join([self.targ.__name__, '(', args_text, ')'])
         _call_ast = ast.parse(call_code)
 
-- 
2.43.0


From 5561b0affe0b3cb0ec32678ca34ee5927a370a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:48 +0000
Subject: [PATCH 16/69] fix: Shared.write to a part, FixedFIFO external
 interface options swapped

---
 veriloggen/thread/fifo.py   | 2 +-
 veriloggen/thread/ttypes.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/veriloggen/thread/fifo.py b/veriloggen/thread/fifo.py
index 1bfa4f2..472346d 100644
--- a/veriloggen/thread/fifo.py
+++ b/veriloggen/thread/fifo.py
@@ -283,7 +283,7 @@ class FixedFIFO(FIFO):
 
         FIFO.__init__(self, m, name, clk, rst,
                       datawidth, addrwidth, sync,
-                      external_read, external_write,
+                      external_write, external_read,
                       itype, otype,
                       ext_itype, ext_otype)
 
diff --git a/veriloggen/thread/ttypes.py b/veriloggen/thread/ttypes.py
index 2226820..9b3097e 100644
--- a/veriloggen/thread/ttypes.py
+++ b/veriloggen/thread/ttypes.py
@@ -319,7 +319,7 @@ class Shared(_MutexFunction):
 
         def getval(v, p):
             if isinstance(p, (tuple, list)):
-                return v[p[0], p[1]]
+                return vtypes.Slice(v, p[0], p[1])
             return v[p]
 
         if len(part) == 0:
-- 
2.43.0


From 6f0162b2c448cb37b364413b89ccd08b72d38244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:53 +0000
Subject: [PATCH 17/69] fix: AsyncRAM enable ignored, MultibankRAM block-burst
 wready, bcast done, write_rtl without condition, write_bank port

---
 veriloggen/thread/ram.py | 14 ++++++++++----
 veriloggen/types/ram.py  |  2 +-
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/veriloggen/thread/ram.py b/veriloggen/thread/ram.py
index feafe52..22b52c1 100644
--- a/veriloggen/thread/ram.py
+++ b/veriloggen/thread/ram.py
@@ -529,8 +529,12 @@ class MultibankRAM(RAM):
         bank.assign(addr)
         addr = addr >> self.shift
 
+        cond = make_condition(cond)
+
         for i, ram in enumerate(self.rams):
-            bank_cond = vtypes.Ands(cond, bank == i)
+            bank_cond = bank == i
+            if cond is not None:
+                bank_cond = vtypes.Ands(cond, bank_cond)
             ram.write_rtl(addr, wdata, port, bank_cond)
 
         return 0
@@ -559,6 +563,8 @@ class MultibankRAM(RAM):
         return rdata_reg
 
     def write_bank(self, fsm, bank, addr, wdata, port=0, cond=None):
+        port = vtypes.to_int(port)
+
         if cond is None:
             cond = fsm.state == fsm.current
         else:
@@ -824,10 +830,10 @@ class MultibankRAM(RAM):
             fsm.If(wvalid, wlast).goto_init()
             fsm.If(wquit).goto_init()
 
-            fsm.inc()
-
             wready = vtypes.Ors(wready, fsm.here)
 
+            fsm.inc()
+
         return wready, done
 
     def write_burst_packed(self, addr, stride, packed_length, blocksize,
@@ -898,7 +904,7 @@ class MultibankRAM(RAM):
                                            wdata, wvalid, wlast, wquit,
                                            port, cond)
             wready_list.append(wready)
-            done_list.append(done_list)
+            done_list.append(done)
 
         return wready_list[0], done_list[0]
 
diff --git a/veriloggen/types/ram.py b/veriloggen/types/ram.py
index dc0c534..6ef6b3d 100644
--- a/veriloggen/types/ram.py
+++ b/veriloggen/types/ram.py
@@ -225,4 +225,4 @@ class AsyncRAM(_RAM_RTL):
 
         _RAM_RTL.__init__(self, m, name, clk,
                           datawidth, addrwidth, numports,
-                          initvals, sync=False)
+                          initvals, sync=False, with_enable=with_enable)
-- 
2.43.0


From cbd595e25b64add449e6d3aeca8970d5d09973fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:53 +0000
Subject: [PATCH 18/69] fix: AXIM waits without operations of that direction,
 mixed pack ratios of wide DMA writes, non power-of-two narrow pack ratio

---
 veriloggen/thread/axim.py | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/veriloggen/thread/axim.py b/veriloggen/thread/axim.py
index 41c6c16..589546c 100644
--- a/veriloggen/thread/axim.py
+++ b/veriloggen/thread/axim.py
@@ -697,26 +697,48 @@ class AXIM(axi.AxiMaster, _MutexFunction):
                        local_bank_stride, local_blocksize, port, ram_method)
 
     # wait
+    def _reset_read_state(self):
+        # waited registers must be reset, even if no read operation drives them
+        self.seq.add_reset(self.read_req_busy)
+        self.seq.add_reset(self.read_data_busy)
+
+    def _reset_write_state(self):
+        # waited registers must be reset, even if no write operation drives them
+        self.seq.add_reset(self.write_req_busy)
+        self.seq.add_reset(self.write_data_busy)
+        self.waddr.seq.add_reset(self.waddr.awvalid)
+
     def dma_wait_read(self, fsm):
 
+        self._reset_read_state()
+
         fsm.If(self.read_idle).goto_next()
 
     def dma_wait_write(self, fsm):
 
+        self._reset_write_state()
+
         res = self.write_completed()
         fsm.If(self.write_idle, res).goto_next()
 
     def dma_wait_write_idle(self, fsm):
 
+        self._reset_write_state()
+
         fsm.If(self.write_idle).goto_next()
 
     def dma_wait_write_response(self, fsm):
 
+        self._reset_write_state()
+
         res = self.write_completed()
         fsm.If(res).goto_next()
 
     def dma_wait(self, fsm):
 
+        self._reset_read_state()
+        self._reset_write_state()
+
         res = self.write_completed()
         fsm.If(self.read_idle, self.write_idle, res).goto_next()
 
@@ -944,7 +966,7 @@ class AXIM(axi.AxiMaster, _MutexFunction):
         op_id = self._get_read_op_id(ram, port, ram_method)
         port = vtypes.to_int(port)
         pack_size = ram_datawidth // self.datawidth
-        log_pack_size = int(math.log(pack_size, 2))
+        log_pack_size = int(math.ceil(math.log(pack_size, 2)))
 
         if op_id in self.read_ops:
             """ already synthesized op """
@@ -1370,7 +1392,7 @@ class AXIM(axi.AxiMaster, _MutexFunction):
         op_id = self._get_write_op_id(ram, port, ram_method)
         port = vtypes.to_int(port)
         pack_size = ram_datawidth // self.datawidth
-        log_pack_size = int(math.log(pack_size, 2))
+        log_pack_size = int(math.ceil(math.log(pack_size, 2)))
 
         if op_id in self.write_ops:
             """ already synthesized op """
@@ -1543,7 +1565,8 @@ class AXIM(axi.AxiMaster, _MutexFunction):
         data_fsm.goto_next()
 
         # Data state 2
-        cond = vtypes.Ands(vtypes.Not(self.write_req_fifo.empty),
+        cond = vtypes.Ands(self.write_op_sel_buf == op_id,
+                           vtypes.Not(self.write_req_fifo.empty),
                            self.write_size_buf == 0)
         self.seq.If(data_fsm.here, cond)(
             # global_size -> local_size
-- 
2.43.0


From e18b74b4ae9e7ecdefca6cddeaa4a61e9c54793a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:08 +0000
Subject: [PATCH 19/69] fix: AXISRegister burst length, one-register files, rid
 while read data is waiting

---
 veriloggen/thread/axis.py | 6 +++---
 veriloggen/types/axi.py   | 8 +++++++-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/veriloggen/thread/axis.py b/veriloggen/thread/axis.py
index 345bbe8..cbcfbe4 100644
--- a/veriloggen/thread/axis.py
+++ b/veriloggen/thread/axis.py
@@ -79,7 +79,7 @@ class AXISRegister(AXIS):
                          for i in range(length)]
         self.length = length
         self.maskwidth = self.m.Localparam('_'.join(['', self.name, 'maskwidth']),
-                                           util.log2(length))
+                                           max(util.log2(length), 1))
         self.mask = self.m.Localparam('_'.join(['', self.name, 'mask']),
                                       vtypes.Repeat(vtypes.Int(1, 1), self.maskwidth))
         self.shift = self.m.Localparam('_'.join(['', self.name, 'shift']),
@@ -137,7 +137,7 @@ class AXISRegister(AXIS):
         fsm.If(ack)(
             maskaddr.inc(),
             rcount.dec(),
-            rlast(rcount <= 1)
+            rlast(rcount <= 2)
         )
 
         # flag reset
@@ -267,7 +267,7 @@ class AXISLiteRegister(AXISLite):
                          for i in range(length)]
         self.length = length
         self.maskwidth = self.m.Localparam('_'.join(['', self.name, 'maskwidth']),
-                                           util.log2(length))
+                                           max(util.log2(length), 1))
         self.mask = self.m.Localparam('_'.join(['', self.name, 'mask']),
                                       vtypes.Repeat(vtypes.Int(1, 1), self.maskwidth))
         self.shift = self.m.Localparam('_'.join(['', self.name, 'shift']),
diff --git a/veriloggen/types/axi.py b/veriloggen/types/axi.py
index bcb720b..5352087 100644
--- a/veriloggen/types/axi.py
+++ b/veriloggen/types/axi.py
@@ -2380,8 +2380,14 @@ class AxiSlave(object):
             )
 
         if self.rdata.rid is not None:
+            # rid must not change while the last beat of the previous request is waiting
+            self.next_rid = self.m.Reg('_'.join(['', name, 'next_rid']),
+                                       self.rdata.id_width, initval=0)
             self.seq.If(self.raddr.arvalid, self.raddr.arready)(
-                self.rdata.rid(self.raddr.arid if self.raddr.arid is not None else 0)
+                self.next_rid(self.raddr.arid if self.raddr.arid is not None else 0)
+            )
+            self.seq.If(vtypes.Ors(self.rdata.rready, vtypes.Not(self.rdata.rvalid)))(
+                self.rdata.rid(self.next_rid)
             )
 
         self.seq.If(self.wresp.bvalid, self.wresp.bready)(
-- 
2.43.0


From 947eced9ea0dc3de9c1ba7555d9240f00dd275b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:26 +0000
Subject: [PATCH 20/69] fix: width and value of negative literal strings such
 as Int("-8'd5")

---
 veriloggen/core/vtypes.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/veriloggen/core/vtypes.py b/veriloggen/core/vtypes.py
index a375c1f..8718c0a 100644
--- a/veriloggen/core/vtypes.py
+++ b/veriloggen/core/vtypes.py
@@ -825,7 +825,14 @@ class Int(_Constant):
             self.base = base
             self.signed = signed if value >= 0 else value < 0
         else:
+            # the sign of a literal string is not a part of its width and digits
+            negative = value.strip().startswith('-')
+            if negative:
+                value = value.strip()[1:]
             self.value, self.base = str_to_value(value)
+            if negative:
+                self.value = (-self.value if isinstance(self.value, int) else
+                              '-' + self.value)
             if base is not None:
                 self.base = base
             if not isinstance(self.value, int):
-- 
2.43.0


From 745513aa3486805e9d2bb153ed1f893a9229ef5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:11 +0000
Subject: [PATCH 21/69] fix: copy intrinsics reuse a stream of an earlier
 module with equal RAM names

---
 veriloggen/thread/util.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/veriloggen/thread/util.py b/veriloggen/thread/util.py
index 6f57555..5b51716 100644
--- a/veriloggen/thread/util.py
+++ b/veriloggen/thread/util.py
@@ -15,8 +15,10 @@ def copy(fsm, src_ram, dst_ram, src_addr, dst_addr, size,
 
     name = '_'.join(['copy', src_ram.name, dst_ram.name])
 
-    if name in copy_stream_cache:
-        strm = copy_stream_cache[name]
+    key = (id(src_ram.m), name)
+
+    if key in copy_stream_cache:
+        strm = copy_stream_cache[key]
 
     else:
         m = src_ram.m
@@ -26,7 +28,7 @@ def copy(fsm, src_ram, dst_ram, src_addr, dst_addr, size,
         src = strm.source('src')
         dst = src
         strm.sink(dst, 'dst')
-        copy_stream_cache[name] = strm
+        copy_stream_cache[key] = strm
 
     strm.set_source(fsm, 'src', src_ram, src_addr, size,
                     stride=src_stride, port=src_port)
@@ -42,8 +44,10 @@ def copy_pattern(fsm, src_ram, dst_ram, src_addr, dst_addr,
 
     name = '_'.join(['copy', src_ram.name, dst_ram.name])
 
-    if name in copy_pattern_stream_cache:
-        strm = copy_pattern_stream_cache[name]
+    key = (id(src_ram.m), name)
+
+    if key in copy_pattern_stream_cache:
+        strm = copy_pattern_stream_cache[key]
 
     else:
         m = src_ram.m
@@ -53,7 +57,7 @@ def copy_pattern(fsm, src_ram, dst_ram, src_addr, dst_addr,
         src = strm.source('src')
         dst = src
         strm.sink(dst, 'dst')
-        copy_pattern_stream_cache[name] = strm
+        copy_pattern_stream_cache[key] = strm
 
     strm.set_source_pattern(fsm, 'src', src_ram, src_addr, src_pattern,
                             port=src_port)
-- 
2.43.0


From dd45df7fa78e7962c9f4e6105d2110f088f3a4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:10 +0000
Subject: [PATCH 22/69] fix: copy and copy_pattern of the same RAM pair define
 the same names

---
 veriloggen/thread/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veriloggen/thread/util.py b/veriloggen/thread/util.py
index 5b51716..195ff7b 100644
--- a/veriloggen/thread/util.py
+++ b/veriloggen/thread/util.py
@@ -42,7 +42,7 @@ def copy_pattern(fsm, src_ram, dst_ram, src_addr, dst_addr,
                  src_pattern, dst_pattern,
                  src_port=0, dst_port=0):
 
-    name = '_'.join(['copy', src_ram.name, dst_ram.name])
+    name = '_'.join(['copy_pattern', src_ram.name, dst_ram.name])
 
     key = (id(src_ram.m), name)
 
-- 
2.43.0


From e749061bc4ee21ccc1123b9251b77347a46c3f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:25 +0000
Subject: [PATCH 23/69] fix: AxiSerialMemoryModel passes clk and rst to its
 channels

---
 veriloggen/types/axi.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/veriloggen/types/axi.py b/veriloggen/types/axi.py
index 5352087..f0ecb4c 100644
--- a/veriloggen/types/axi.py
+++ b/veriloggen/types/axi.py
@@ -3903,16 +3903,16 @@ class AxiSerialMemoryModel(AxiSlave):
         itype = util.t_Reg
         otype = util.t_Wire
 
-        self.waddr = AxiSlaveWriteAddress(m, name, datawidth, addrwidth,
+        self.waddr = AxiSlaveWriteAddress(m, name, clk, rst, datawidth, addrwidth,
                                           waddr_id_width, waddr_user_width, itype, otype)
-        self.wdata = AxiSlaveWriteData(m, name, datawidth, addrwidth,
+        self.wdata = AxiSlaveWriteData(m, name, clk, rst, datawidth, addrwidth,
                                        wdata_id_width, wdata_user_width, itype, otype)
-        self.wresp = AxiSlaveWriteResponse(m, name, datawidth, addrwidth,
+        self.wresp = AxiSlaveWriteResponse(m, name, clk, rst, datawidth, addrwidth,
                                            wresp_id_width, wresp_user_width, wresp_user_mode,
                                            itype, otype)
-        self.raddr = AxiSlaveReadAddress(m, name, datawidth, addrwidth,
+        self.raddr = AxiSlaveReadAddress(m, name, clk, rst, datawidth, addrwidth,
                                          raddr_id_width, raddr_user_width, itype, otype)
-        self.rdata = AxiSlaveReadData(m, name, datawidth, addrwidth,
+        self.rdata = AxiSlaveReadData(m, name, clk, rst, datawidth, addrwidth,
                                       rdata_id_width, rdata_user_width, rdata_user_mode,
                                       itype, otype)
 
-- 
2.43.0


From ae96a6900f7961133a92e8d78974b5fb159a79a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:25 +0000
Subject: [PATCH 24/69] fix: serial memory models wait for a pending response
 before taking a write address

---
 veriloggen/types/axi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/veriloggen/types/axi.py b/veriloggen/types/axi.py
index f0ecb4c..3c0169c 100644
--- a/veriloggen/types/axi.py
+++ b/veriloggen/types/axi.py
@@ -3997,7 +3997,7 @@ class AxiSerialMemoryModel(AxiSlave):
         while read_mode <= write_mode + write_delay + 10:
             read_mode += 100
 
-        self.fsm.If(self.waddr.awvalid).goto(write_mode)
+        self.fsm.If(self.waddr.awvalid, vtypes.Not(self.wresp.bvalid)).goto(write_mode)
         self.fsm.If(self.raddr.arvalid).goto(read_mode)
 
         write_count = self.m.Reg(
@@ -4406,7 +4406,7 @@ class AxiSerialMultiportMemoryModel(AxiSerialMemoryModel):
             while read_mode <= write_mode + write_delay + 10:
                 read_mode += 100
 
-            fsm.If(waddr.awvalid).goto(write_mode)
+            fsm.If(waddr.awvalid, vtypes.Not(wresp.bvalid)).goto(write_mode)
             fsm.If(raddr.arvalid).goto(read_mode)
 
             # write mode
-- 
2.43.0


From 56a387e7726dc63c2410f32f563760a7ba9dcf45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:25 +0000
Subject: [PATCH 25/69] fix: memory models size the read request FIFO by the
 read id width

---
 veriloggen/types/axi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/veriloggen/types/axi.py b/veriloggen/types/axi.py
index 3c0169c..406273c 100644
--- a/veriloggen/types/axi.py
+++ b/veriloggen/types/axi.py
@@ -2978,7 +2978,7 @@ class AxiMemoryModel(AxiSlave):
                               sync=False)
         self.rreq_fifo = FIFO(self.m, '_'.join(['', self.name, 'rreq_fifo']),
                               clk, rst,
-                              datawidth=addrwidth + 9 + waddr_id_width,
+                              datawidth=addrwidth + 9 + raddr_id_width,
                               addrwidth=req_fifo_addrwidth,
                               sync=False)
 
@@ -3568,7 +3568,7 @@ class AxiMultiportMemoryModel(AxiMemoryModel):
                            for i in range(numports)]
         self.rreq_fifos = [FIFO(self.m, '_'.join(['', self.name, 'rreq_fifo_%d' % i]),
                                 clk, rst,
-                                datawidth=addrwidth + 9 + waddr_id_width,
+                                datawidth=addrwidth + 9 + raddr_id_width,
                                 addrwidth=req_fifo_addrwidth,
                                 sync=False)
                            for i in range(numports)]
-- 
2.43.0


From 6698529722182d3758899b241dd82bbba68af2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:39 +0000
Subject: [PATCH 26/69] fix: set_memory padding, to_memory_image length and big
 endian

---
 veriloggen/types/axi.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/veriloggen/types/axi.py b/veriloggen/types/axi.py
index 406273c..28db6c4 100644
--- a/veriloggen/types/axi.py
+++ b/veriloggen/types/axi.py
@@ -4574,8 +4574,8 @@ def to_memory_image(filename, array, length=None,
         if len(array) > length:
             array = array[:length]
         elif len(array) < length:
-            np.append(array, np.zeros([length - len(array)],
-                                      dtype=array.dtype))
+            array = np.append(array, np.zeros([length - len(array)],
+                                              dtype=array.dtype))
 
     num_hex = int(math.ceil(wordwidth / 4))
     fmt = ''.join(['%0', str(num_hex), 'x\n'])
@@ -4587,7 +4587,7 @@ def to_memory_image(filename, array, length=None,
         base = array.reshape([-1, 1])
         shamt = np.arange(num, dtype=np.int64) * [wordwidth]
         if endian == 'big':
-            shamt.reverse()
+            shamt = shamt[::-1]
 
         mask = np.full([1], 2 ** wordwidth - 1, dtype=np.int64)
         data = (((zero + base) >> shamt) & mask).reshape([-1])
@@ -4606,7 +4606,7 @@ def to_memory_image(filename, array, length=None,
         base = array.reshape([-1, num])
         shamt = np.arange(num, dtype=np.int64) * [datawidth]
         if endian == 'big':
-            shamt.reverse()
+            shamt = shamt[::-1]
 
         mask = np.full([1], 2 ** datawidth - 1, dtype=np.int64)
         data = (base.reshape([-1, num]) & mask) << shamt
@@ -4678,7 +4678,7 @@ def _set_memory_wide(mem, src, mem_datawidth, src_datawidth, mem_offset,
         pads = []
         for s in src.shape[:-1]:
             pads.append((0, 0))
-        pads.append((0, num_pack - src.shape[-1]))
+        pads.append((0, num_pack - src.shape[-1] % num_pack))
 
         src = np.pad(src, pads, 'constant')
 
-- 
2.43.0


From cc1f67dc97bd840769a8bf690332c9a80549aeb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:47 +0000
Subject: [PATCH 27/69] fix: AXI stream DMA with several memories, asynchronous
 FIFOs and full FIFOs

---
 veriloggen/thread/axistreamin.py  | 17 +++++++++------
 veriloggen/thread/axistreamout.py | 35 +++++++++++++++++++++++--------
 2 files changed, 37 insertions(+), 15 deletions(-)

diff --git a/veriloggen/thread/axistreamin.py b/veriloggen/thread/axistreamin.py
index 9f59de1..7f45b09 100644
--- a/veriloggen/thread/axistreamin.py
+++ b/veriloggen/thread/axistreamin.py
@@ -645,9 +645,9 @@ class AXIStreamInFifo(AXIStreamIn):
 
         # Data FSM
         if self.read_data_fsm is not None:
-            """ new op """
-            data_fsm = self.read_data_fsm
-            data_fsm.set_index(0)
+            """ new op: its states depend on its own FIFO """
+            data_fsm = FSM(self.m, '_'.join(['', self.name, 'read_data_fsm', str(op_id)]),
+                           self.clk, self.rst, as_module=self.fsm_as_module)
 
         else:
             data_fsm = FSM(self.m, '_'.join(['', self.name, 'read_data_fsm']),
@@ -862,9 +862,14 @@ class AXIStreamInFifo(AXIStreamIn):
         fifo.enq_rtl(fifo_wdata, cond=fifo_cond)
 
         data_fsm.If(self.read_local_size_buf <= 1,
-                    cond, count == pack_size - 1).goto_init()
-        self.seq.If(data_fsm.here, self.read_local_size_buf <= 1,
-                    cond, count == pack_size - 1)(
+                    cond, count == pack_size - 1).goto_next()
+
+        # Data state 2: wait until the last word is accepted by the FIFO
+        data_fsm.If(cond)(
+            wvalid(0)
+        )
+        data_fsm.If(cond).goto_init()
+        self.seq.If(data_fsm.here, cond)(
             self.read_data_busy(0)
         )
 
diff --git a/veriloggen/thread/axistreamout.py b/veriloggen/thread/axistreamout.py
index 71c546c..63df64e 100644
--- a/veriloggen/thread/axistreamout.py
+++ b/veriloggen/thread/axistreamout.py
@@ -217,7 +217,7 @@ class AXIStreamOut(axi.AxiStreamOut, _MutexFunction):
         if self.write_data_fsm is not None:
             """ new op """
             data_fsm = self.write_data_fsm
-            data_fsm.set_index(1)
+            data_fsm.set_index(0)
 
         else:
             data_fsm = FSM(self.m, '_'.join(['', self.name, 'write_data_fsm']),
@@ -276,6 +276,8 @@ class AXIStreamOut(axi.AxiStreamOut, _MutexFunction):
             """ already synthesized op """
             return
 
+        self.write_ops.append(op_id)
+
         # Data FSM
         if self.write_data_narrow_fsm is not None:
             """ new op """
@@ -304,7 +306,7 @@ class AXIStreamOut(axi.AxiStreamOut, _MutexFunction):
         data_fsm.If(cond).goto_next()
 
         # Data state 1
-        self.seq.If(data_fsm.here)(
+        self.seq.If(data_fsm.here, self.write_op_sel_buf == op_id)(
             # local_size -> global_size
             self.write_size_buf(self.write_size_buf << log_pack_size),
         )
@@ -642,7 +644,7 @@ class AXIStreamOutFifo(AXIStreamOut):
         if self.write_data_fsm is not None:
             """ new op """
             data_fsm = self.write_data_fsm
-            data_fsm.set_index(1)
+            data_fsm.set_index(0)
 
         else:
             data_fsm = FSM(self.m, '_'.join(['', self.name, 'write_data_fsm']),
@@ -693,6 +695,10 @@ class AXIStreamOutFifo(AXIStreamOut):
             self.write_size_buf.dec()
         )
 
+        if not fifo.sync:
+            # data is valid in the cycle of deq
+            rlast = self.write_size_buf <= 1
+
         wcond = vtypes.Ands(self.write_op_sel_buf == op_id, cur_rvalid, wready)
         _ = self.write_data(rdata, rlast, cond=wcond)
 
@@ -716,6 +722,8 @@ class AXIStreamOutFifo(AXIStreamOut):
             """ already synthesized op """
             return
 
+        self.write_ops.append(op_id)
+
         # Data FSM
         if self.write_data_narrow_fsm is not None:
             """ new op """
@@ -758,8 +766,9 @@ class AXIStreamOutFifo(AXIStreamOut):
                                self.write_op_sel_buf == op_id,
                                self.write_size_buf > 0,
                                rready,
-                               vtypes.Not(cur_rvalid),
-                               vtypes.Ors(count == 0, count == pack_size - 1))
+                               *((vtypes.Not(cur_rvalid),
+                                  vtypes.Ors(count == 0, count == pack_size - 1))
+                                 if fifo.sync else (count == 0,)))
         rdata, rvalid, _ = fifo.deq_rtl(cond=deq_cond)
 
         wready = vtypes.Ors(self.tdata.tready, vtypes.Not(self.tdata.tvalid))
@@ -777,6 +786,10 @@ class AXIStreamOutFifo(AXIStreamOut):
             self.write_size_buf.dec()
         )
 
+        if not fifo.sync:
+            # data is valid in the cycle of deq
+            rlast = self.write_size_buf <= 1
+
         wcond = vtypes.Ands(data_fsm.here, self.write_op_sel_buf == op_id, wready,
                             vtypes.Ors(count > 0, cur_rvalid))
         wdata = self.m.TmpReg(fifo_datawidth, initval=0,
@@ -879,6 +892,14 @@ class AXIStreamOutFifo(AXIStreamOut):
         self.seq.If(repeat_rvalid, vtypes.Not(wready))(repeat_rvalid(1))
         cur_rvalid.assign(vtypes.Ors(rvalid, repeat_rvalid))
 
+        data_fsm.If(deq_cond)(
+            rlast(self.write_size_buf <= 1)
+        )
+
+        if not fifo.sync:
+            # data is valid in the cycle of deq
+            rlast = self.write_size_buf <= 1
+
         wcond = vtypes.Ands(data_fsm.here, self.write_op_sel_buf == op_id,
                             count == pack_size - 1, cur_rvalid, rready)
         wdata = self.m.TmpReg(self.datawidth, initval=0,
@@ -887,10 +908,6 @@ class AXIStreamOutFifo(AXIStreamOut):
         _wlast = rlast
         _ = self.write_data(_wdata, _wlast, cond=wcond)
 
-        data_fsm.If(deq_cond)(
-            rlast(self.write_size_buf <= 1)
-        )
-
         self.seq.If(data_fsm.here, deq_cond)(
             self.write_size_buf.dec()
         )
-- 
2.43.0


From 131d9d546909837cf4cf30b1b82da011ecbb4bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:17 +0000
Subject: [PATCH 28/69] fix: AXI stream output drives strb, id, user and dest

---
 veriloggen/types/axi.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/veriloggen/types/axi.py b/veriloggen/types/axi.py
index 28db6c4..0abf7e9 100644
--- a/veriloggen/types/axi.py
+++ b/veriloggen/types/axi.py
@@ -1869,13 +1869,6 @@ class AxiStreamOutData(AxiStreamInData):
                                  id_width, user_width, dest_width,
                                  itype, otype)
 
-        # default values
-        if self.tuser is not None:
-            self.tuser.assign(0)
-
-        if self.tid is not None:
-            self.tid.assign(0)
-
     def write_data(self, data, last=None, _id=None, user=None, dest=None, cond=None):
         """
         @return ack
@@ -1889,9 +1882,11 @@ class AxiStreamOutData(AxiStreamInData):
             self.tdata(data),
             self.tvalid(1),
             self.tlast(last) if self.tlast is not None else (),
-            self.tid(_id) if self.tid is not None else (),
-            self.tuser(user) if self.tuser is not None else (),
-            self.tdest(dest) if self.tdest is not None else (),
+            self.tstrb(vtypes.Repeat(vtypes.Int(1, width=1),
+                                     self.datawidth // 8)) if self.tstrb is not None else (),
+            self.tid(_id if _id is not None else 0) if self.tid is not None else (),
+            self.tuser(user if user is not None else 0) if self.tuser is not None else (),
+            self.tdest(dest if dest is not None else 0) if self.tdest is not None else (),
         )
 
         # de-assert
-- 
2.43.0


From 697d26c3d5c538456cc17cc7686207ea1b3833aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:34 +0000
Subject: [PATCH 29/69] fix: AXIMLite global base address

---
 veriloggen/thread/axim.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/veriloggen/thread/axim.py b/veriloggen/thread/axim.py
index 589546c..8f96353 100644
--- a/veriloggen/thread/axim.py
+++ b/veriloggen/thread/axim.py
@@ -1847,6 +1847,12 @@ class AXIMLite(axi.AxiLiteMaster, _MutexFunction):
 
         self.mutex = None
 
+        if self.use_global_base_addr:
+            self.global_base_addr = self.m.Reg('_'.join(['', self.name, 'global_base_addr']),
+                                               self.addrwidth, initval=0)
+        else:
+            self.global_base_addr = None
+
     def read(self, fsm, global_addr):
         if self.use_global_base_addr:
             global_addr = self.global_base_addr + global_addr
@@ -1913,10 +1919,10 @@ class AXIMLite(axi.AxiLiteMaster, _MutexFunction):
         if not self.use_global_base_addr:
             raise ValueError("global_base_addr is disabled.")
 
-        flag = self._set_flag(fsm)
-        self.seq.If(flag)(
+        self.seq.If(fsm.here)(
             self.global_base_addr(addr)
         )
+        fsm.goto_next()
 
 
 class AXIMLiteVerify(AXIMLite):
-- 
2.43.0


From 84c5a35d1e98448d67ffa761c01760d0d7f80101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:13 +0000
Subject: [PATCH 30/69] fix: stream constant folding of variable shift amounts,
 Cat, Repeat, PlusN and MulAdd

---
 veriloggen/stream/stypes.py | 52 ++++++++++++++++++++++++++++++++-----
 1 file changed, 46 insertions(+), 6 deletions(-)

diff --git a/veriloggen/stream/stypes.py b/veriloggen/stream/stypes.py
index aadec00..dfdf57d 100644
--- a/veriloggen/stream/stypes.py
+++ b/veriloggen/stream/stypes.py
@@ -357,6 +357,39 @@ class _Numeric(_Node):
     def __rshift__(self, r):
         return Srl(self, r)
 
+    def __radd__(self, r):
+        return Plus(r, self)
+
+    def __rsub__(self, r):
+        return Minus(r, self)
+
+    def __rmul__(self, r):
+        return Times(r, self)
+
+    def __rdiv__(self, r):
+        return Divide(r, self)
+
+    def __rtruediv__(self, r):
+        return Divide(r, self)
+
+    def __rmod__(self, r):
+        return Mod(r, self)
+
+    def __rand__(self, r):
+        return And(r, self)
+
+    def __ror__(self, r):
+        return Or(r, self)
+
+    def __rxor__(self, r):
+        return Xor(r, self)
+
+    def __rlshift__(self, r):
+        return Sll(r, self)
+
+    def __rrshift__(self, r):
+        return Srl(r, self)
+
     def __neg__(self):
         return Uminus(self)
 
@@ -459,6 +492,9 @@ class _Operator(_Numeric):
     latency = 1
     initiation_interval = 1
 
+    def eval(self):
+        return self
+
     def _implement(self, m, seq, svalid=None, senable=None):
         raise NotImplementedError('_implement() is not implemented.')
 
@@ -1782,8 +1818,9 @@ class Cat(_SpecialOperator):
             if not isinstance(var, int):
                 return Cat(*vars)
         ret = 0
-        for var in vars:
-            ret = (ret << var.get_width()) | var
+        for arg, var in zip(self.vars, vars):
+            width = arg.get_width()
+            ret = (ret << width) | (var & ((1 << width) - 1))
         return ret
 
 
@@ -1820,9 +1857,12 @@ class Repeat(_SpecialOperator):
     def eval(self):
         var = self.var.eval()
         times = self.times.eval()
+        if not isinstance(var, int) or not isinstance(times, int):
+            return Repeat(var, times)
+        width = self.var.get_width()
         ret = 0
-        for i in times:
-            ret = (ret << var.get_width()) | var
+        for i in range(times):
+            ret = (ret << width) | (var & ((1 << width) - 1))
         return ret
 
 
@@ -2478,7 +2518,7 @@ class _PlusN(_SpecialOperator):
         self.graph_label = 'PlusN'
 
     def eval(self):
-        vars = [var.eval() for var in self.vars]
+        vars = [var.eval() for var in self.args]
         for var in vars:
             if not isinstance(var, int):
                 return PlusN(*vars)
@@ -2585,7 +2625,7 @@ class _MulAdd(_SpecialOperator):
         m.Instance(inst, self.name('madd'), ports=ports)
 
     def eval(self):
-        vars = [var.eval() for var in self.vars]
+        vars = [var.eval() for var in self.args]
         for var in vars:
             if not isinstance(var, int):
                 return MulAdd(*vars)
-- 
2.43.0


From 03239bd03a84115ba79d1a99f8747a474abadd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:13 +0000
Subject: [PATCH 31/69] fix: stream comparisons keep all bits when aligning
 fixed points

---
 veriloggen/stream/stypes.py | 42 ++++++++++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/veriloggen/stream/stypes.py b/veriloggen/stream/stypes.py
index dfdf57d..1222933 100644
--- a/veriloggen/stream/stypes.py
+++ b/veriloggen/stream/stypes.py
@@ -526,14 +526,16 @@ class _BinaryOperator(_Operator):
         self._set_module(getattr(self.strm, 'module', None))
         self._set_seq(getattr(self.strm, 'seq', None))
 
+    def _adjust(self, m):
+        return fx.adjust(self.left.sig_data, self.right.sig_data,
+                         self.left.get_point(), self.right.get_point(),
+                         self.get_signed())
+
     def _implement(self, m, seq, svalid=None, senable=None):
         width = self.get_width()
         signed = self.get_signed()
 
-        lpoint = self.left.get_point()
-        rpoint = self.right.get_point()
-        ldata, rdata = fx.adjust(self.left.sig_data, self.right.sig_data,
-                                 lpoint, rpoint, signed)
+        ldata, rdata = self._adjust(m)
 
         enable_cond = senable
         if self.initiation_interval != 1:
@@ -993,7 +995,27 @@ def Neg(right):
     return Uminus(right)
 
 
-class LessThan(_BinaryOperator):
+class _BinaryComparator(_BinaryOperator):
+
+    def _adjust(self, m):
+        # The result is 1-bit, so that the operands must be extended
+        # before aligning the fixed point.
+        point = max(self.left.get_point(), self.right.get_point())
+        return (self._align(m, 'ldata', self.left, point),
+                self._align(m, 'rdata', self.right, point))
+
+    def _align(self, m, prefix, value, point):
+        diff = point - value.get_point()
+        if diff == 0:
+            return value.sig_data
+
+        data = m.Wire(self.name(prefix), value.get_width() + diff,
+                      signed=value.get_signed())
+        data.assign(fx.shift_left(value.sig_data, diff, value.get_signed()))
+        return data
+
+
+class LessThan(_BinaryComparator):
 
     def _set_attributes(self):
         self.width = 1
@@ -1004,7 +1026,7 @@ class LessThan(_BinaryOperator):
         return self.left.eval() < self.right.eval()
 
 
-class GreaterThan(_BinaryOperator):
+class GreaterThan(_BinaryComparator):
 
     def _set_attributes(self):
         self.width = 1
@@ -1015,7 +1037,7 @@ class GreaterThan(_BinaryOperator):
         return self.left.eval() > self.right.eval()
 
 
-class LessEq(_BinaryOperator):
+class LessEq(_BinaryComparator):
 
     def _set_attributes(self):
         self.width = 1
@@ -1026,7 +1048,7 @@ class LessEq(_BinaryOperator):
         return self.left.eval() <= self.right.eval()
 
 
-class GreaterEq(_BinaryOperator):
+class GreaterEq(_BinaryComparator):
 
     def _set_attributes(self):
         self.width = 1
@@ -1037,7 +1059,7 @@ class GreaterEq(_BinaryOperator):
         return self.left.eval() >= self.right.eval()
 
 
-class Eq(_BinaryOperator):
+class Eq(_BinaryComparator):
 
     def _set_attributes(self):
         self.width = 1
@@ -1048,7 +1070,7 @@ class Eq(_BinaryOperator):
         return self.left.eval() == self.right.eval()
 
 
-class NotEq(_BinaryOperator):
+class NotEq(_BinaryComparator):
 
     def _set_attributes(self):
         self.width = 1
-- 
2.43.0


From d2f7fcbf338d8068f797cd8c1cdf6fcf0f624f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:13 +0000
Subject: [PATCH 32/69] fix: stream Mux aligns operands of different fixed
 points

---
 veriloggen/stream/stypes.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/veriloggen/stream/stypes.py b/veriloggen/stream/stypes.py
index 1222933..401dc74 100644
--- a/veriloggen/stream/stypes.py
+++ b/veriloggen/stream/stypes.py
@@ -1892,7 +1892,14 @@ class Cond(_SpecialOperator):
 
     def __init__(self, condition, true_value, false_value):
         _SpecialOperator.__init__(self, condition, true_value, false_value)
-        self.op = vtypes.Cond
+        self.op = self._select
+
+    def _select(self, condition, true_value, false_value):
+        true_value, false_value = fx.adjust(true_value, false_value,
+                                            self.true_value.get_point(),
+                                            self.false_value.get_point(),
+                                            self.get_signed())
+        return vtypes.Cond(condition, true_value, false_value)
 
     def _set_attributes(self):
         true_value_fp = self.true_value.get_point()
-- 
2.43.0


From 7e52bc5aec35a1599f31e336e3065fae946aa187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:13 +0000
Subject: [PATCH 33/69] fix: stream LUT address covers every pattern

---
 veriloggen/stream/stypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veriloggen/stream/stypes.py b/veriloggen/stream/stypes.py
index 401dc74..b08a3ac 100644
--- a/veriloggen/stream/stypes.py
+++ b/veriloggen/stream/stypes.py
@@ -2220,7 +2220,7 @@ class LUT(_SpecialOperator):
 
         arg_data = self.address.sig_data
 
-        size = int(log(len(self.patterns), 2))
+        size = max((len(self.patterns) - 1).bit_length(), 1)
         address = m.Wire(self.name('lut_address'), width=size)
         address.assign(arg_data)
 
-- 
2.43.0


From 1cd675379893b879e05fdbfe5357f2d5a58fd882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:13 +0000
Subject: [PATCH 34/69] fix: stream FixedPoint constants are signed

---
 veriloggen/stream/stypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veriloggen/stream/stypes.py b/veriloggen/stream/stypes.py
index b08a3ac..05e9e15 100644
--- a/veriloggen/stream/stypes.py
+++ b/veriloggen/stream/stypes.py
@@ -4029,7 +4029,7 @@ class FixedPoint(_Constant):
         self.point = 0
 
     def _implement(self, m, seq, svalid=None, senable=None):
-        data = vtypes.Int(self.value, width=self.width)
+        data = vtypes.Int(self.value, width=self.width, signed=self.signed)
         self.sig_data = data
 
 
-- 
2.43.0


From 2c17c25df45f807bc28245a47989ef1d0a09aaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:13 +0000
Subject: [PATCH 35/69] fix: stream accumulator interval counter is not held in
 reset

---
 veriloggen/stream/stypes.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/veriloggen/stream/stypes.py b/veriloggen/stream/stypes.py
index 05e9e15..c8690f7 100644
--- a/veriloggen/stream/stypes.py
+++ b/veriloggen/stream/stypes.py
@@ -3138,7 +3138,10 @@ class _Accumulator(_Operator):
             if self.interval is not None:
                 current_interval_count = m.WireLike(
                     interval_count, name=self.name('current_interval_count'))
-                current_interval_count.assign(vtypes.Mux(reset_cond, 0, interval_count))
+                if self.reset is not None:
+                    current_interval_count.assign(vtypes.Mux(resetdata, 0, interval_count))
+                else:
+                    current_interval_count.assign(interval_count)
 
             current_data = m.WireLike(data, name=self.name('current_data'))
             current_data.assign(vtypes.Mux(reset_cond, initval_data, data))
@@ -3321,7 +3324,10 @@ class ReduceMul(_Accumulator):
             if self.interval is not None:
                 current_interval_count = m.WireLike(
                     interval_count, name=self.name('current_interval_count'))
-                current_interval_count.assign(vtypes.Mux(reset_cond, 0, interval_count))
+                if self.reset is not None:
+                    current_interval_count.assign(vtypes.Mux(resetdata, 0, interval_count))
+                else:
+                    current_interval_count.assign(interval_count)
 
             current_data = m.WireLike(data, name=self.name('current_data'))
             current_data.assign(vtypes.Mux(reset_cond, initval_data, data))
@@ -3486,7 +3492,10 @@ class ReduceDiv(_Accumulator):
             if self.interval is not None:
                 current_interval_count = m.WireLike(
                     interval_count, name=self.name('current_interval_count'))
-                current_interval_count.assign(vtypes.Mux(reset_cond, 0, interval_count))
+                if self.reset is not None:
+                    current_interval_count.assign(vtypes.Mux(resetdata, 0, interval_count))
+                else:
+                    current_interval_count.assign(interval_count)
 
             current_data = m.WireLike(data, name=self.name('current_data'))
             current_data.assign(vtypes.Mux(reset_cond, initval_data, data))
-- 
2.43.0


From 9db3e4aadaa456f5cab68be9c77e5fa7d795e722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:13 +0000
Subject: [PATCH 36/69] fix: stream Predicate and Reg with a fixed point

---
 veriloggen/stream/stypes.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/veriloggen/stream/stypes.py b/veriloggen/stream/stypes.py
index c8690f7..79a3297 100644
--- a/veriloggen/stream/stypes.py
+++ b/veriloggen/stream/stypes.py
@@ -4829,12 +4829,11 @@ class Predicate(_SpecialOperator):
                              (self.latency, 1))
 
         width = self.get_width()
-        point = self.get_point()
         signed = self.get_signed()
 
         arg_data = [arg.sig_data for arg in self.args]
 
-        data = fx.FixedReg(m, self.name('data'), width, point, initval=0, signed=signed)
+        data = m.Reg(self.name('data'), width, initval=0, signed=signed)
         self.sig_data = data
 
         when_cond = self.args[1].sig_data if len(self.args) == 2 else None
@@ -4855,7 +4854,7 @@ class Reg(Predicate):
         cond = fsm.here
 
         self.seq.If(cond)(
-            self.sig_data(value)
+            self.sig_data(fx.write_adjust(value, self.get_point()))
         )
 
 
-- 
2.43.0


From 91d9c9ac7ef20f2a3b012a07fa16cc3b25a2f46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:14 +0000
Subject: [PATCH 37/69] fix: stream multipattern sources and sinks: number of
 patterns and counts per pattern, conditional sinks

---
 veriloggen/thread/stream.py | 40 +++++++++++++++++++++++++++----------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/veriloggen/thread/stream.py b/veriloggen/thread/stream.py
index 39b7654..bcaf18f 100644
--- a/veriloggen/thread/stream.py
+++ b/veriloggen/thread/stream.py
@@ -2253,6 +2253,9 @@ class Stream(BaseStream):
                                        for i in range(self.max_pattern_length)]
                                       for j in range(self.max_multipattern_length)]
 
+        var.source_multipat_num_patterns_buf = self.module.Reg(
+            '_source_%s_multipat_num_patterns_buf' % prefix,
+            int(math.ceil(math.log(max(self.max_multipattern_length, 2), 2))), initval=0)
         var.source_multipat_offset_bufs = [
             self.module.Reg('_source_%s_multipat_%d_offset_buf' % (prefix, j),
                             self.addrwidth, initval=0)
@@ -2269,7 +2272,7 @@ class Stream(BaseStream):
                                            for j in range(self.max_multipattern_length)]
 
     def _synthesize_set_source_multipattern(self, var, name):
-        if var.source_pat_fsm is not None:
+        if var.source_multipat_fsm is not None:
             return
 
         source_start = vtypes.Ands(self.source_start,
@@ -2285,7 +2288,7 @@ class Stream(BaseStream):
             )
 
         self.seq.If(source_start, self.oready)(
-            var.source_multipat_num_patterns.dec()
+            var.source_multipat_num_patterns_buf(var.source_multipat_num_patterns - 1)
         )
 
         for (source_multipat_size, source_multipat_count) in zip(
@@ -2394,8 +2397,15 @@ class Stream(BaseStream):
                 )
             prev_strides = multipat_strides
 
+        if len(var.source_multipat_size_bufs) > 1:
+            for (source_multipat_count, next_size) in zip(
+                    var.source_multipat_counts[0], var.source_multipat_size_bufs[1]):
+                self.seq.If(fin_cond, var.source_multipat_fsm.here, self.oready)(
+                    source_multipat_count(next_size - 1)
+                )
+
         self.seq.If(fin_cond, var.source_multipat_fsm.here, self.oready)(
-            var.source_multipat_num_patterns.dec()
+            var.source_multipat_num_patterns_buf.dec()
         )
 
         # force flush
@@ -2407,7 +2417,7 @@ class Stream(BaseStream):
 
         # finalize
         var.source_multipat_fsm.If(fin_cond,
-                                   var.source_multipat_num_patterns == 0,
+                                   var.source_multipat_num_patterns_buf == 0,
                                    self.oready).goto_next()
 
         self.seq.If(var.source_multipat_fsm.here, self.oready)(
@@ -2945,6 +2955,9 @@ class Stream(BaseStream):
                                      for i in range(self.max_pattern_length)]
                                     for j in range(self.max_multipattern_length)]
 
+        var.sink_multipat_num_patterns_buf = self.module.Reg(
+            '_sink_%s_multipat_num_patterns_buf' % prefix,
+            int(math.ceil(math.log(max(self.max_multipattern_length, 2), 2))), initval=0)
         var.sink_multipat_offset_bufs = [
             self.module.Reg('_sink_%s_multipat_%d_offset_buf' % (prefix, j),
                             self.addrwidth, initval=0)
@@ -2968,7 +2981,7 @@ class Stream(BaseStream):
                                  vtypes.And(var.sink_mode, mode_ram_multipattern))
 
         self.seq.If(sink_start, self.oready)(
-            var.sink_multipat_num_patterns.dec()
+            var.sink_multipat_num_patterns_buf(var.sink_multipat_num_patterns - 1)
         )
 
         for (sink_multipat_offset_buf,
@@ -3054,19 +3067,19 @@ class Stream(BaseStream):
                  var.sink_multipat_cur_offsets, var.sink_multipat_size_bufs[0],
                  var.sink_multipat_stride_bufs[0], var.sink_multipat_counts[0]):
 
-            self.seq.If(var.sink_multipat_fsm.here, upcond, self.oready)(
+            self.seq.If(var.sink_multipat_fsm.here, wcond, upcond, self.oready)(
                 sink_multipat_cur_offset.add(sink_multipat_stride_buf),
                 sink_multipat_count.dec()
             )
 
             reset_cond = sink_multipat_count == 0
-            self.seq.If(var.sink_multipat_fsm.here, upcond, reset_cond, self.oready)(
+            self.seq.If(var.sink_multipat_fsm.here, wcond, upcond, reset_cond, self.oready)(
                 sink_multipat_cur_offset(0),
                 sink_multipat_count(sink_multipat_size_buf - 1)
             )
             upcond = make_condition(upcond, reset_cond)
 
-        fin_cond = upcond
+        fin_cond = make_condition(wcond, upcond)
 
         prev_offset = var.sink_multipat_offset_bufs[0]
         for multipat_offset_buf in var.sink_multipat_offset_bufs[1:]:
@@ -3091,12 +3104,19 @@ class Stream(BaseStream):
                 )
             prev_strides = multipat_strides
 
+        if len(var.sink_multipat_size_bufs) > 1:
+            for (sink_multipat_count, next_size) in zip(
+                    var.sink_multipat_counts[0], var.sink_multipat_size_bufs[1]):
+                self.seq.If(fin_cond, var.sink_multipat_fsm.here, self.oready)(
+                    sink_multipat_count(next_size - 1)
+                )
+
         self.seq.If(fin_cond, var.sink_multipat_fsm.here, self.oready)(
-            var.sink_multipat_num_patterns.dec()
+            var.sink_multipat_num_patterns_buf.dec()
         )
 
         var.sink_multipat_fsm.If(fin_cond,
-                                 var.sink_multipat_num_patterns == 0,
+                                 var.sink_multipat_num_patterns_buf == 0,
                                  self.oready).goto_init()
         var.sink_multipat_fsm.If(self.sink_stop, self.oready).goto_init()
 
-- 
2.43.0


From 6cb3542821988d68daa299819a72f2a2a536e17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:15 +0000
Subject: [PATCH 38/69] fix: overlapped stream runs under back-pressure wait
 until the sources start

---
 veriloggen/thread/stream.py | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/veriloggen/thread/stream.py b/veriloggen/thread/stream.py
index bcaf18f..ad74464 100644
--- a/veriloggen/thread/stream.py
+++ b/veriloggen/thread/stream.py
@@ -157,6 +157,8 @@ class Stream(BaseStream):
         self.source_idle_map = OrderedDict()
         self.sink_when_map = OrderedDict()
 
+        self.source_joined = False
+
         self.reduce_reset = None
         self.terminates = []
 
@@ -1440,6 +1442,8 @@ class Stream(BaseStream):
         if not var.has_parameter_data:
             var.write(var.next_parameter_data, self.source_start)
             var.has_parameter_data = True
+            if self.source_joined:
+                self._hold_parameter(var)
 
     def set_read_RAM(self, fsm, name, ram, port=0):
         """ intrinsic method to assign RAM property to a read_RAM interface """
@@ -1630,7 +1634,9 @@ class Stream(BaseStream):
         self._run(cond)
         fsm.goto_next()
 
-        fsm.If(self.busy).goto_next()
+        # 'busy' can be kept by the sinks of the previous run
+        started = self.source_busy if self.source_joined else self.busy
+        fsm.If(started).goto_next()
 
         return 0
 
@@ -1812,11 +1818,12 @@ class Stream(BaseStream):
         return vtypes.Not(self.busy)
 
     def source_join(self, fsm):
-        fsm.If(vtypes.Not(self.source_busy)).goto_next()
+        fsm.If(self.source_done(fsm)).goto_next()
         return 0
 
     def source_done(self, fsm):
-        return vtypes.Not(self.source_busy)
+        self._set_source_joined()
+        return vtypes.Not(vtypes.Ors(self.source_start, self.source_busy))
 
     def sink_join(self, fsm):
         fsm.If(vtypes.Not(self.sink_busy)).goto_next()
@@ -1825,7 +1832,23 @@ class Stream(BaseStream):
     def sink_done(self, fsm):
         return vtypes.Not(self.sink_busy)
 
+    def _set_source_joined(self):
+        """ the sources start while the items of the previous run remain in the pipeline """
+        if self.source_joined:
+            return
+
+        self.source_joined = True
+
+        for name in self.parameters:
+            var = self.var_name_map[name]
+            if var.has_parameter_data:
+                self._hold_parameter(var)
+
+    def _hold_parameter(self, var):
+        var.write(var.sig_data, vtypes.Ands(self.source_start, vtypes.Not(self.oready)))
+
     def source_join_and_run(self, fsm):
+        self._set_source_joined()
         cond = self._set_flag(fsm)
 
         self._run(cond)
-- 
2.43.0


From b838dc87a9b67722edf0770bc1e3d26158bd6a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:15 +0000
Subject: [PATCH 39/69] fix: stream variables used with a RAM, a FIFO, a
 constant or as an immediate in different runs

---
 veriloggen/thread/stream.py | 99 +++++++++++++++++++++++++------------
 1 file changed, 67 insertions(+), 32 deletions(-)

diff --git a/veriloggen/thread/stream.py b/veriloggen/thread/stream.py
index ad74464..b66788e 100644
--- a/veriloggen/thread/stream.py
+++ b/veriloggen/thread/stream.py
@@ -199,6 +199,9 @@ class Stream(BaseStream):
         self.var_name_id_map[name] = _id
 
         var.source_fsm = None
+        var.source_fifo_fsm = None
+        var.source_kind = None
+        var.source_mode_buf = None
         var.source_pat_fsm = None
         var.source_multipat_fsm = None
         var.source_generator_fsms = []
@@ -322,6 +325,8 @@ class Stream(BaseStream):
         self.var_name_id_map[name] = _id
 
         data.sink_fsm = None
+        data.sink_fifo_fsm = None
+        data.sink_immediate_fsm = None
         data.sink_pat_fsm = None
         data.sink_multipat_fsm = None
         data.sink_generator_fsms = []
@@ -1023,6 +1028,10 @@ class Stream(BaseStream):
         wenable = vtypes.Ands(source_start, self.is_root)
         var.write(wdata, wenable)
 
+        # the other memories of this variable do not overwrite the value
+        hold = self._source_wenable(var, 'empty')
+        var.write(var.sig_data, hold)
+
         var.has_source_empty = True
 
     def set_sink(self, fsm, name, ram, offset, size, stride=1, port=0):
@@ -1854,7 +1863,7 @@ class Stream(BaseStream):
         self._run(cond)
         fsm.If(vtypes.Not(self.source_busy)).goto_next()
 
-        fsm.If(self.busy).goto_next()
+        fsm.If(self.source_busy).goto_next()
 
         return 0
 
@@ -2072,7 +2081,7 @@ class Stream(BaseStream):
         )
 
         wdata = var.source_ram_rdata
-        wenable = vtypes.Ands(self.oready, self.source_busy, self.is_root)
+        wenable = self._source_wenable(var, 'ram')
         var.write(wdata, wenable)
 
         fsm_id = self.fsm_id_count
@@ -2177,7 +2186,7 @@ class Stream(BaseStream):
             )
 
         wdata = var.source_ram_rdata
-        wenable = vtypes.Ands(self.oready, self.source_busy, self.is_root)
+        wenable = self._source_wenable(var, 'ram')
         var.write(wdata, wenable)
 
         fsm_id = self.fsm_id_count
@@ -2348,7 +2357,7 @@ class Stream(BaseStream):
                 )
 
         wdata = var.source_ram_rdata
-        wenable = vtypes.Ands(self.oready, self.source_busy, self.is_root)
+        wenable = self._source_wenable(var, 'ram')
         var.write(wdata, wenable)
 
         fsm_id = self.fsm_id_count
@@ -2475,7 +2484,7 @@ class Stream(BaseStream):
             )
 
         wdata = var.source_ram_rdata
-        wenable = vtypes.Ands(self.oready, self.source_busy, self.is_root)
+        wenable = self._source_wenable(var, 'ram')
         var.write(wdata, wenable)
 
         fsm_name = '_%s_source_generator_fsm_%d' % (prefix, generator_id)
@@ -2630,8 +2639,34 @@ class Stream(BaseStream):
             vtypes.Display(fmt, dump_fifo_step, age, data)
         )
 
+    def _source_wenable(self, var, kind):
+        """ a variable can be fed by a RAM, by a FIFO or by a constant in each run """
+        wenable = vtypes.Ands(self.oready, self.source_busy, self.is_root)
+
+        # a later write has a higher priority
+        if var.source_kind is None and kind != 'empty':
+            var.source_kind = kind
+        if var.source_kind == kind and var.source_mode_buf is None:
+            return wenable
+
+        if var.source_mode_buf is None:
+            var.source_mode_buf = self.module.TmpReg(
+                mode_width, initval=0, prefix='_source_mode_buf')
+            self.seq.If(self.source_start, self.oready)(
+                var.source_mode_buf(var.source_mode)
+            )
+
+        if kind == 'fifo':
+            cond = vtypes.Uor(vtypes.And(var.source_mode_buf, mode_fifo))
+        elif kind == 'ram':
+            cond = vtypes.Uor(vtypes.And(var.source_mode_buf, vtypes.Unot(mode_fifo)))
+        else:
+            cond = vtypes.Not(vtypes.Uor(var.source_mode_buf))
+
+        return vtypes.Ands(wenable, cond)
+
     def _synthesize_set_source_fifo(self, var, name):
-        if var.source_fsm is not None:
+        if var.source_fifo_fsm is not None:
             return
 
         source_start = vtypes.Ands(self.source_start,
@@ -2643,7 +2678,7 @@ class Stream(BaseStream):
         )
 
         wdata = var.source_fifo_rdata
-        wenable = vtypes.Ands(self.oready, self.source_busy, self.is_root)
+        wenable = self._source_wenable(var, 'fifo')
         var.write(wdata, wenable)
 
         fsm_id = self.fsm_id_count
@@ -2652,34 +2687,34 @@ class Stream(BaseStream):
         prefix = self._prefix(name)
 
         fsm_name = '_%s_source_fsm_%d' % (prefix, fsm_id)
-        var.source_fsm = FSM(self.module, fsm_name, self.clock, self.reset,
+        var.source_fifo_fsm = FSM(self.module, fsm_name, self.clock, self.reset,
                              as_module=self.fsm_as_module)
 
-        var.source_fsm.If(source_start, self.oready).goto_next()
+        var.source_fifo_fsm.If(source_start, self.oready).goto_next()
 
-        self.seq.If(var.source_fsm.here, self.oready)(
+        self.seq.If(var.source_fifo_fsm.here, self.oready)(
             var.source_fifo_deq(1),
             var.source_count(var.source_size_buf)
         )
 
-        var.source_fsm.If(self.oready).goto_next()
+        var.source_fifo_fsm.If(self.oready).goto_next()
 
-        self.seq.If(var.source_fsm.here, self.oready)(
+        self.seq.If(var.source_fifo_fsm.here, self.oready)(
             var.source_fifo_deq(1),
             var.source_count.dec()
         )
-        self.seq.If(var.source_fsm.here, var.source_count == 1, self.oready)(
+        self.seq.If(var.source_fifo_fsm.here, var.source_count == 1, self.oready)(
             var.source_fifo_deq(0),
             var.source_idle(1)
         )
-        var.source_fsm.If(var.source_count == 1, self.oready).goto_init()
+        var.source_fifo_fsm.If(var.source_count == 1, self.oready).goto_init()
 
         # force flush
-        self.seq.If(var.source_fsm.here, self.source_stop, self.oready)(
+        self.seq.If(var.source_fifo_fsm.here, self.source_stop, self.oready)(
             var.source_fifo_deq(0),
             var.source_idle(1)
         )
-        var.source_fsm.If(self.source_stop, self.oready).goto_init()
+        var.source_fifo_fsm.If(self.source_stop, self.oready).goto_init()
 
     def _setup_sink_ram(self, ram, var, port, set_cond):
         if ram._id() in var.sink_id_map:
@@ -3303,7 +3338,7 @@ class Stream(BaseStream):
         )
 
     def _synthesize_set_sink_fifo(self, var, name):
-        if var.sink_fsm is not None:
+        if var.sink_fifo_fsm is not None:
             return
 
         sink_start = vtypes.Ands(self.sink_start,
@@ -3319,16 +3354,16 @@ class Stream(BaseStream):
         prefix = self._prefix(name)
 
         fsm_name = '_%s_sink_fsm_%d' % (prefix, fsm_id)
-        var.sink_fsm = FSM(self.module, fsm_name, self.clock, self.reset,
+        var.sink_fifo_fsm = FSM(self.module, fsm_name, self.clock, self.reset,
                            as_module=self.fsm_as_module)
 
-        var.sink_fsm.If(sink_start, self.oready).goto_next()
+        var.sink_fifo_fsm.If(sink_start, self.oready).goto_next()
 
-        self.seq.If(var.sink_fsm.here, self.oready)(
+        self.seq.If(var.sink_fifo_fsm.here, self.oready)(
             var.sink_count(var.sink_size),
             var.sink_size_buf(var.sink_size),
         )
-        var.sink_fsm.If(self.oready).goto_next()
+        var.sink_fifo_fsm.If(self.oready).goto_next()
 
         if name in self.sink_when_map:
             when = self.sink_when_map[name]
@@ -3338,17 +3373,17 @@ class Stream(BaseStream):
 
         rdata = var.read()
 
-        self.seq.If(var.sink_fsm.here, wcond, self.oready)(
+        self.seq.If(var.sink_fifo_fsm.here, wcond, self.oready)(
             var.sink_fifo_wdata(rdata),
             var.sink_fifo_enq(1),
             var.sink_count.dec()
         )
 
-        var.sink_fsm.If(wcond, var.sink_count == 1, self.oready).goto_init()
-        var.sink_fsm.If(self.sink_stop, self.oready).goto_init()
+        var.sink_fifo_fsm.If(wcond, var.sink_count == 1, self.oready).goto_init()
+        var.sink_fifo_fsm.If(self.sink_stop, self.oready).goto_init()
 
     def _synthesize_set_sink_immediate(self, var, name):
-        if var.sink_fsm is not None:
+        if var.sink_immediate_fsm is not None:
             return
 
         sink_start = vtypes.Ands(self.sink_start,
@@ -3364,15 +3399,15 @@ class Stream(BaseStream):
         prefix = self._prefix(name)
 
         fsm_name = '_%s_sink_fsm_%d' % (prefix, fsm_id)
-        var.sink_fsm = FSM(self.module, fsm_name, self.clock, self.reset,
+        var.sink_immediate_fsm = FSM(self.module, fsm_name, self.clock, self.reset,
                            as_module=self.fsm_as_module)
 
-        var.sink_fsm.If(sink_start, self.oready).goto_next()
+        var.sink_immediate_fsm.If(sink_start, self.oready).goto_next()
 
-        self.seq.If(var.sink_fsm.here, self.oready)(
+        self.seq.If(var.sink_immediate_fsm.here, self.oready)(
             var.sink_count(var.sink_size_buf)
         )
-        var.sink_fsm.If(self.oready).goto_next()
+        var.sink_immediate_fsm.If(self.oready).goto_next()
 
         if name in self.sink_when_map:
             when = self.sink_when_map[name]
@@ -3382,13 +3417,13 @@ class Stream(BaseStream):
 
         rdata = var.read()
 
-        self.seq.If(var.sink_fsm.here, wcond, self.oready)(
+        self.seq.If(var.sink_immediate_fsm.here, wcond, self.oready)(
             var.sink_immediate(rdata),
             var.sink_count.dec()
         )
 
-        var.sink_fsm.If(wcond, var.sink_count == 1, self.oready).goto_init()
-        var.sink_fsm.If(self.sink_stop, self.oready).goto_init()
+        var.sink_immediate_fsm.If(wcond, var.sink_count == 1, self.oready).goto_init()
+        var.sink_immediate_fsm.If(self.sink_stop, self.oready).goto_init()
 
     def _setup_read_ram(self, ram, var, port, set_cond):
         if ram._id() in var.read_ram_id_map:
-- 
2.43.0


From 673708cce019ac16b8d05dc821d962ece37837fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:01 +0000
Subject: [PATCH 40/69] fix: UART cores know their module, clock and reset, so
 that their lock operations work

---
 veriloggen/thread/uart.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/veriloggen/thread/uart.py b/veriloggen/thread/uart.py
index c85f715..3a86336 100644
--- a/veriloggen/thread/uart.py
+++ b/veriloggen/thread/uart.py
@@ -38,6 +38,9 @@ class UartTx(Submodule, _MutexFunction):
         self.tx_enable.initval = 0
         self.tx_ready = self['ready']
 
+        self.m = m
+        self.clk = clk
+        self.rst = rst
         self.mutex = None
 
     def send(self, fsm, value):
@@ -78,6 +81,9 @@ class UartRx(Submodule, _MutexFunction):
         self.rx_dout = self['dout']
         self.rx_valid = self['valid']
 
+        self.m = m
+        self.clk = clk
+        self.rst = rst
         self.mutex = None
 
     def recv(self, fsm):
-- 
2.43.0


From e94e2c084cd32219b2e7e03c2d0a1fad36b15ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:59 +0000
Subject: [PATCH 41/69] fix: modules instantiated only in the else branch of a
 generate-if are emitted

---
 veriloggen/core/module.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/veriloggen/core/module.py b/veriloggen/core/module.py
index a43a4f5..7ca9900 100644
--- a/veriloggen/core/module.py
+++ b/veriloggen/core/module.py
@@ -1489,6 +1489,11 @@ class GenerateIf(Generate):
         self.Else = GenerateIfElse(m)
         self._type_check_scope(true_scope)
 
+    def get_modules(self):
+        modules = Generate.get_modules(self)
+        modules.update(self.Else.get_modules())
+        return modules
+
 
 class GenerateIfElse(Generate):
 
-- 
2.43.0


From 4088a98affef3d2ad60703cc978f5f739f18f378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:59 +0000
Subject: [PATCH 42/69] fix: different modules of a same name at different
 levels of the hierarchy do not replace each other

---
 veriloggen/verilog/to_verilog.py | 53 +++++++++++++++++++++++++++++++-
 1 file changed, 52 insertions(+), 1 deletion(-)

diff --git a/veriloggen/verilog/to_verilog.py b/veriloggen/verilog/to_verilog.py
index 9b84b9c..790ac99 100644
--- a/veriloggen/verilog/to_verilog.py
+++ b/veriloggen/verilog/to_verilog.py
@@ -15,8 +15,16 @@ from pyverilog.ast_code_generator.codegen import ASTCodeGenerator
 # -------------------------------------------------------------------------
 def write_verilog(node, filename=None, for_verilator=False):
     visitor = VerilogModuleVisitor(for_verilator)
-    modules = tuple(node.get_modules().values())
+    modules, renamed = _resolve_module_names(node, visitor)
 
+    try:
+        return _write_modules(modules, visitor, filename)
+    finally:
+        for mod, name in renamed:
+            mod.name = name
+
+
+def _write_modules(modules, visitor, filename=None):
     module_ast_list = [visitor.visit(mod) for mod in modules
                        if not isinstance(mod, module.StubModule)]
     description = vast.Description(module_ast_list)
@@ -36,6 +44,49 @@ def write_verilog(node, filename=None, for_verilator=False):
     return code
 
 
+def _collect_modules(node, modules):
+    """ all module definitions under the node: parents come later """
+    if any(m is node for m in modules):
+        return
+    if not isinstance(node, module.StubModule):
+        for gen in node.generate.values():
+            for g in gen if isinstance(gen, (tuple, list)) else (gen,):
+                _collect_modules(g, modules)
+        for sub in node.submodule.values():
+            _collect_modules(sub, modules)
+        if isinstance(node, module.GenerateIf):
+            _collect_modules(node.Else, modules)
+    modules.append(node)
+
+
+def _resolve_module_names(node, visitor):
+    """ different definitions of a same name have different names in the code """
+    collected = []
+    _collect_modules(node, collected)
+    collected = [mod for mod in collected
+                 if not isinstance(mod, (module.StubModule, module.Generate))]
+    names = [mod.name for mod in collected]
+    renamed = []
+
+    if len(names) != len(set(names)):
+        codegen = ASTCodeGenerator()
+        owner = {}
+
+        for mod in collected:
+            orig_name = mod.name
+            # the name of the top module is never changed
+            while mod is not node and (mod.name == node.name or
+                                       (mod.name in owner and
+                                        codegen.visit(visitor.visit(mod)) !=
+                                        codegen.visit(visitor.visit(owner[mod.name])))):
+                mod.name = mod.name + '_'
+            if mod.name != orig_name:
+                renamed.append((mod, orig_name))
+            owner.setdefault(mod.name, mod)
+
+    return tuple(node.get_modules().values()), renamed
+
+
 # -------------------------------------------------------------------------
 class VerilogCommonVisitor(object):
 
-- 
2.43.0


From cc07277f70eab365149fcec694959a4ad486b362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:59 +0000
Subject: [PATCH 43/69] fix: a parameter whose value is another parameter of
 the module follows it

---
 veriloggen/core/vtypes.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/veriloggen/core/vtypes.py b/veriloggen/core/vtypes.py
index 8718c0a..40d428d 100644
--- a/veriloggen/core/vtypes.py
+++ b/veriloggen/core/vtypes.py
@@ -752,13 +752,23 @@ class _ParameterVariable(_Variable):
 
     def __init__(self, value, width=None, signed=False, name=None,
                  raw_width=None, module=None):
-        if isinstance(value, _ParameterVariable):
+        if (isinstance(value, _ParameterVariable) and
+                not self._is_visible(value, module)):
             value = value.value
         if value is None:
             raise ValueError('value must not be None.')
         _Variable.__init__(self, width=width, signed=signed, value=value, name=name,
                            raw_width=raw_width, module=module)
 
+    @staticmethod
+    def _is_visible(param, module):
+        """ a constant of the same module, or of the module around a generate block """
+        while module is not None:
+            if param.module is module:
+                return True
+            module = getattr(module, 'm', None)
+        return False
+
     def get_width(self):
         if self.width is None:
             return 32
-- 
2.43.0


From 4dba8085ff09e09a9c3abe1e02e94c4d270bc78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:59 +0000
Subject: [PATCH 44/69] fix: Submodule copies the constants its ports depend on
 and rejects unknown ports

---
 veriloggen/core/collect_visitor.py |  2 ++
 veriloggen/core/submodule.py       | 27 +++++++++++++++++++++++++++
 2 files changed, 29 insertions(+)

diff --git a/veriloggen/core/collect_visitor.py b/veriloggen/core/collect_visitor.py
index 82dc5e9..2de200c 100644
--- a/veriloggen/core/collect_visitor.py
+++ b/veriloggen/core/collect_visitor.py
@@ -57,6 +57,8 @@ class CollectVisitor(object):
         self.visit(node.width)
         if hasattr(node, 'initval'):
             self.visit(node.initval)
+        if isinstance(node, vtypes._ParameterVariable):
+            self.visit(node.value)
 
     def visit_Pointer(self, node):
         self.visit(node.var)
diff --git a/veriloggen/core/submodule.py b/veriloggen/core/submodule.py
index a804f8f..156d8c4 100644
--- a/veriloggen/core/submodule.py
+++ b/veriloggen/core/submodule.py
@@ -1,6 +1,7 @@
 from __future__ import absolute_import
 from __future__ import print_function
 import collections
+import re
 import veriloggen.core.module as module
 import veriloggen.core.vtypes as vtypes
 import veriloggen.verilog.from_verilog as from_verilog
@@ -87,12 +88,38 @@ class Submodule(vtypes.VeriloggenNode):
         as_wire = [v.name if not isinstance(v, str) else
                    v for v in as_wire]
 
+        # 'as_io' and 'as_wire' are regular expressions
+        for key in arg_ports.keys():
+            if key not in child_ports:
+                raise ValueError("No such port '%s' in module '%s'" %
+                                 (key, child.name))
+
+        for key in as_io + as_wire:
+            if not any(re.match(''.join(('^', key, '$')), name)
+                       for name in child_ports.keys()):
+                raise ValueError("No such port '%s' in module '%s'" %
+                                 (key, child.name))
+
         # collect used parameters and localparameters
         collect_visitor = CollectVisitor()
 
         for port in child_ports.values():
             collect_visitor.visit(port)
 
+        # values of parameters can refer to the other ones
+        child_consts = collections.OrderedDict(child_params)
+        child_consts.update(child.get_localparams())
+        visited = set()
+
+        while True:
+            names = [name for name in child_consts.keys()
+                     if name in collect_visitor.names and name not in visited]
+            if not names:
+                break
+            for name in names:
+                visited.add(name)
+                collect_visitor.visit(child_consts[name])
+
         used_params = collect_visitor.names
 
         # params
-- 
2.43.0


From ed38df029676efef04c169965a9418120e9c7a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:59 +0000
Subject: [PATCH 45/69] fix: re-declared names and wrong bindings of instances
 are rejected

---
 veriloggen/core/module.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/veriloggen/core/module.py b/veriloggen/core/module.py
index 7ca9900..7b13961 100644
--- a/veriloggen/core/module.py
+++ b/veriloggen/core/module.py
@@ -716,6 +716,8 @@ class Module(vtypes.VeriloggenNode):
             width = visitor.visit(obj.width)
             signed = obj.signed
             copy_obj = vtypes.Localparam(value, width, signed, name)
+            copy_obj.value = value
+            self.check_existing_identifier(copy_obj.name)
             self.add_object(copy_obj)
             ret[copy_obj.name] = copy_obj
         return ret
@@ -763,6 +765,7 @@ class Module(vtypes.VeriloggenNode):
             copy_obj.name = ''.join([prefix, copy_obj.name, postfix])
             copy_obj.value = visitor.visit(copy_obj.value)
             copy_obj.width = visitor.visit(copy_obj.width)
+            self.check_existing_identifier(copy_obj.name)
             self.add_object(copy_obj)
             ret[copy_obj.name] = copy_obj
         return ret
@@ -860,6 +863,8 @@ class Module(vtypes.VeriloggenNode):
             copy_obj.width = visitor.visit(copy_obj.width)
             copy_obj.initval = visitor.visit(copy_obj.initval)
             copy_obj.signed = obj.signed
+            self.check_existing_identifier(
+                copy_obj.name, vtypes.Input, vtypes.Output, vtypes.Inout)
             self.add_object(copy_obj)
             ret[copy_obj.name] = copy_obj
         return ret
@@ -907,6 +912,8 @@ class Module(vtypes.VeriloggenNode):
             copy_obj.name = ''.join([prefix, copy_obj.name, postfix])
             copy_obj.width = visitor.visit(copy_obj.width)
             copy_obj.signed = obj.signed
+            self.check_existing_identifier(
+                copy_obj.name, vtypes.Input, vtypes.Output, vtypes.Inout)
             self.add_object(copy_obj)
             ret[copy_obj.name] = copy_obj
         return ret
@@ -1291,6 +1298,9 @@ class Module(vtypes.VeriloggenNode):
             raise ValueError("Object '%s' is already defined." % name)
         if not isinstance(s, types):
             raise ValueError("Object '%s' is already defined." % name)
+        # both of the port and its variable are already declared
+        if name in self.io_variable and name in self.variable:
+            raise ValueError("Object '%s' is already defined." % name)
 
 
 class StubModule(vtypes.VeriloggenNode):
@@ -1363,6 +1373,9 @@ class Instance(vtypes.VeriloggenNode):
             if not isinstance(module, Module) or isinstance(module, StubModule):
                 self.params = [(None, p) for p in params]
             else:
+                if len(params) > len(module.global_constant):
+                    raise ValueError("Too many parameters for module '%s'" %
+                                     module.name)
                 self.params = [(v.name, p) for v, p in zip(
                     module.global_constant.values(), params)]
 
@@ -1390,6 +1403,9 @@ class Instance(vtypes.VeriloggenNode):
             if not isinstance(module, Module) or isinstance(module, StubModule):
                 self.ports = [(None, p) for p in ports]
             else:
+                if len(ports) > len(module.io_variable):
+                    raise ValueError("Too many ports for module '%s'" %
+                                     module.name)
                 self.ports = [(v.name, p) for v, p in zip(
                     module.io_variable.values(), ports)]
 
@@ -1402,6 +1418,12 @@ class Instance(vtypes.VeriloggenNode):
                     raise ValueError("No such port '%s' in module '%s'" %
                                      (name, module.name))
 
+        for what, args in (('Parameter', self.params), ('Port', self.ports)):
+            names = [name for name, _ in args if name is not None]
+            if len(names) != len(set(names)):
+                raise ValueError("%s of instance '%s' is given twice" %
+                                 (what, instname))
+
     def _type_check_module(self, module):
         if not isinstance(module, (Module, StubModule)):
             raise TypeError("module of Instance must be Module or StubModule, not %s" %
-- 
2.43.0


From bf7b6bff56ae01516c0e6f436787b7c4ee98a5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:02 +0000
Subject: [PATCH 46/69] fix: literal strings accept upper-case bases and digits
 and '?'

---
 veriloggen/core/vtypes.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/veriloggen/core/vtypes.py b/veriloggen/core/vtypes.py
index 40d428d..b3ce0b3 100644
--- a/veriloggen/core/vtypes.py
+++ b/veriloggen/core/vtypes.py
@@ -24,8 +24,13 @@ def op2mark(op):
     return op
 
 
+def normalize_literal(s):
+    """ base, sign and digits are case-insensitive and '?' is another 'z' """
+    return s.replace('_', '').lower().replace('?', 'z')
+
+
 def str_to_signed(s):
-    targ = s.replace('_', '')
+    targ = normalize_literal(s)
     match = re.search(r's(.+)', targ)
     if match is not None:
         return True
@@ -58,7 +63,7 @@ def check_int_bin(v):
 
 
 def str_to_value(s):
-    targ = s.replace('_', '')
+    targ = normalize_literal(s)
 
     match = re.search(r'h(.+)', targ)
     if match is not None:
@@ -106,7 +111,7 @@ def str_to_value(s):
 
 
 def str_to_width(s):
-    targ = s.replace('_', '')
+    targ = normalize_literal(s)
     match = re.search(r'(.+)\'s?h.+', targ)
     if match is not None:
         return int(match.group(1), 10)
-- 
2.43.0


From 43672eda4cd41a1dc14567933fb3f983bf965d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:02 +0000
Subject: [PATCH 47/69] fix: dataflow outputs of a variable and its previous
 values do not share a handshake

---
 veriloggen/dataflow/dataflow.py | 8 ++++++++
 veriloggen/dataflow/dtypes.py   | 7 +++++++
 2 files changed, 15 insertions(+)

diff --git a/veriloggen/dataflow/dataflow.py b/veriloggen/dataflow/dataflow.py
index 7874fc3..e545e6e 100644
--- a/veriloggen/dataflow/dataflow.py
+++ b/veriloggen/dataflow/dataflow.py
@@ -134,6 +134,14 @@ class Dataflow(object):
         max_stage = 0
         for output_var in sorted(output_vars, key=lambda x: x.object_id):
             max_stage = dtypes._max(max_stage, output_var.end_stage)
+
+        # A variable and its previous values share the valid and ready.
+        # To output them separately, each of them requires its own register.
+        sources = [id(output_var._get_source()) for output_var in output_vars
+                   if output_var.end_stage == max_stage and output_var._has_output()]
+        if len(sources) != len(set(sources)):
+            max_stage += 1
+
         self.max_stage = max_stage
 
         output_vars = sched.balance_output(output_vars, max_stage)
diff --git a/veriloggen/dataflow/dtypes.py b/veriloggen/dataflow/dtypes.py
index f66d2a4..d74ab0f 100644
--- a/veriloggen/dataflow/dtypes.py
+++ b/veriloggen/dataflow/dtypes.py
@@ -292,6 +292,10 @@ class _Numeric(_Node):
             ready = type_i(self.output_ready)
             self.output_sig_ready = ready
 
+    def _get_source(self):
+        """ node which has the valid and ready of this node """
+        return self
+
     def _has_output(self):
         if self.output_data is not None:
             return True
@@ -2053,6 +2057,9 @@ class _Prev(_UnaryOperator):
     def _get_parent_value(self):
         return self.parent_value
 
+    def _get_source(self):
+        return self.parent_value._get_source()
+
     def eval(self):
         return self
 
-- 
2.43.0


From 7c2e66b1bb31769768cc65586c7e869f0f998798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:02 +0000
Subject: [PATCH 48/69] fix: dataflow comparisons align operands of different
 binary points

---
 veriloggen/dataflow/dtypes.py | 43 ++++++++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 11 deletions(-)

diff --git a/veriloggen/dataflow/dtypes.py b/veriloggen/dataflow/dtypes.py
index d74ab0f..ab71b4d 100644
--- a/veriloggen/dataflow/dtypes.py
+++ b/veriloggen/dataflow/dtypes.py
@@ -590,11 +590,7 @@ class _BinaryOperator(_Operator):
         self.sig_valid = valid
         self.sig_ready = ready
 
-        lpoint = self.left.get_point()
-        rpoint = self.right.get_point()
-
-        ldata, rdata = fx.adjust(
-            self.left.sig_data, self.right.sig_data, lpoint, rpoint, signed)
+        ldata, rdata = self._adjust(m)
 
         lvalid = self.left.sig_valid
         rvalid = self.right.sig_valid
@@ -644,6 +640,11 @@ class _UnaryOperator(_Operator):
         self._set_module(getattr(self.df, 'module', None))
         self._set_seq(getattr(self.df, 'seq', None))
 
+    def _adjust(self, m):
+        return fx.adjust(self.left.sig_data, self.right.sig_data,
+                         self.left.get_point(), self.right.get_point(),
+                         self.get_signed())
+
     def _implement(self, m, seq):
         if self.latency != 1:
             raise ValueError("Latency mismatch '%d' vs '%s'" %
@@ -1117,7 +1118,27 @@ def Div(left, right):
     return Divide(left, right)
 
 
-class LessThan(_BinaryOperator):
+class _BinaryComparator(_BinaryOperator):
+
+    def _adjust(self, m):
+        # The result is 1-bit, so that the operands must be extended
+        # before aligning the fixed point.
+        point = max(self.left.get_point(), self.right.get_point())
+        return (self._align(m, 'ldata', self.left, point),
+                self._align(m, 'rdata', self.right, point))
+
+    def _align(self, m, prefix, value, point):
+        diff = point - value.get_point()
+        if diff == 0:
+            return value.sig_data
+
+        data = m.Wire(self.name(prefix), value.get_width() + diff,
+                      signed=value.get_signed())
+        data.assign(fx.shift_left(value.sig_data, diff, value.get_signed()))
+        return data
+
+
+class LessThan(_BinaryComparator):
 
     def _set_attributes(self):
         self.width = 1
@@ -1128,7 +1149,7 @@ class LessThan(_BinaryOperator):
         return self.left.eval() < self.right.eval()
 
 
-class GreaterThan(_BinaryOperator):
+class GreaterThan(_BinaryComparator):
 
     def _set_attributes(self):
         self.width = 1
@@ -1139,7 +1160,7 @@ class GreaterThan(_BinaryOperator):
         return self.left.eval() > self.right.eval()
 
 
-class LessEq(_BinaryOperator):
+class LessEq(_BinaryComparator):
 
     def _set_attributes(self):
         self.width = 1
@@ -1150,7 +1171,7 @@ class LessEq(_BinaryOperator):
         return self.left.eval() <= self.right.eval()
 
 
-class GreaterEq(_BinaryOperator):
+class GreaterEq(_BinaryComparator):
 
     def _set_attributes(self):
         self.width = 1
@@ -1161,7 +1182,7 @@ class GreaterEq(_BinaryOperator):
         return self.left.eval() >= self.right.eval()
 
 
-class Eq(_BinaryOperator):
+class Eq(_BinaryComparator):
 
     def _set_attributes(self):
         self.width = 1
@@ -1172,7 +1193,7 @@ class Eq(_BinaryOperator):
         return self.left.eval() == self.right.eval()
 
 
-class NotEq(_BinaryOperator):
+class NotEq(_BinaryComparator):
 
     def _set_attributes(self):
         self.width = 1
-- 
2.43.0


From 5501a0322e19e50ac3d68c8358ef833b71cce7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:02 +0000
Subject: [PATCH 49/69] fix: dataflow Mux aligns values of different binary
 points

---
 veriloggen/dataflow/dtypes.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/veriloggen/dataflow/dtypes.py b/veriloggen/dataflow/dtypes.py
index ab71b4d..8527dcd 100644
--- a/veriloggen/dataflow/dtypes.py
+++ b/veriloggen/dataflow/dtypes.py
@@ -1844,7 +1844,14 @@ class Cond(_SpecialOperator):
 
     def __init__(self, condition, true_value, false_value):
         _SpecialOperator.__init__(self, condition, true_value, false_value)
-        self.op = vtypes.Cond
+        self.op = self._select
+
+    def _select(self, condition, true_value, false_value):
+        true_value, false_value = fx.adjust(true_value, false_value,
+                                            self.true_value.get_point(),
+                                            self.false_value.get_point(),
+                                            self.get_signed())
+        return vtypes.Cond(condition, true_value, false_value)
 
     def _set_attributes(self):
         true_value_fp = self.true_value.get_point()
-- 
2.43.0


From 901534c8c1a1c4b0bf75f54c2310e6e48376374e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:03 +0000
Subject: [PATCH 50/69] fix: address width of dataflow LUTs

---
 veriloggen/dataflow/dtypes.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/veriloggen/dataflow/dtypes.py b/veriloggen/dataflow/dtypes.py
index 8527dcd..844d1c3 100644
--- a/veriloggen/dataflow/dtypes.py
+++ b/veriloggen/dataflow/dtypes.py
@@ -3,7 +3,6 @@ from __future__ import print_function
 
 from functools import partial
 from collections import OrderedDict
-from math import log
 
 import veriloggen.core.vtypes as vtypes
 import veriloggen.types.fixed as fx
@@ -1991,7 +1990,7 @@ class LUT(_SpecialOperator):
         data_cond = _and_vars(valid_cond, all_valid)
         ready_cond = _and_vars(accept, all_valid)
 
-        size = int(log(len(self.patterns), 2))
+        size = max((len(self.patterns) - 1).bit_length(), 1)
 
         inst = rom.mkROMDefinition(self.name('LUT_ROM'), self.patterns,
                                    size, width, sync=True, with_enable=True)
-- 
2.43.0


From 990a4a50aa03da032279779b48c5099c627e40de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:03 +0000
Subject: [PATCH 51/69] fix: restart value of a dataflow accumulator has the
 signedness of the accumulator

---
 veriloggen/dataflow/dtypes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/veriloggen/dataflow/dtypes.py b/veriloggen/dataflow/dtypes.py
index 844d1c3..c15cd3c 100644
--- a/veriloggen/dataflow/dtypes.py
+++ b/veriloggen/dataflow/dtypes.py
@@ -2501,6 +2501,10 @@ class _Accumulator(_UnaryOperator):
 
         if self.reset is not None or self.size is not None:
             reset_value = initval_data
+            if not signed and vtypes.get_signed(rdata):
+                # accumulated as unsigned values
+                reset_value = vtypes.Int(self.initval.value, width=self.initval.get_width(),
+                                         signed=False)
             for op in self.ops:
                 if not isinstance(op, type):
                     reset_value = op(reset_value, rdata)
-- 
2.43.0


From 23c76f962e0418a0ca15ec5897a8b66ab8927bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:03 +0000
Subject: [PATCH 52/69] fix: constant folding of dataflow Cat, Repeat and
 reflected operators

---
 veriloggen/dataflow/dtypes.py | 58 +++++++++++++++++++++++++++++------
 1 file changed, 49 insertions(+), 9 deletions(-)

diff --git a/veriloggen/dataflow/dtypes.py b/veriloggen/dataflow/dtypes.py
index c15cd3c..ced2a45 100644
--- a/veriloggen/dataflow/dtypes.py
+++ b/veriloggen/dataflow/dtypes.py
@@ -415,6 +415,39 @@ class _Numeric(_Node):
     def __rshift__(self, r):
         return Srl(self, r)
 
+    def __radd__(self, r):
+        return Plus(r, self)
+
+    def __rsub__(self, r):
+        return Minus(r, self)
+
+    def __rmul__(self, r):
+        return Times(r, self)
+
+    def __rdiv__(self, r):
+        return Divide(r, self)
+
+    def __rtruediv__(self, r):
+        return Divide(r, self)
+
+    def __rmod__(self, r):
+        return Mod(r, self)
+
+    def __rand__(self, r):
+        return And(r, self)
+
+    def __ror__(self, r):
+        return Or(r, self)
+
+    def __rxor__(self, r):
+        return Xor(r, self)
+
+    def __rlshift__(self, r):
+        return Sll(r, self)
+
+    def __rrshift__(self, r):
+        return Srl(r, self)
+
     def __neg__(self):
         return Uminus(self)
 
@@ -544,6 +577,9 @@ class _Numeric(_Node):
 class _Operator(_Numeric):
     latency = 1
 
+    def eval(self):
+        return self
+
     def _implement(self, m, seq):
         raise NotImplementedError('_implement() is not implemented.')
 
@@ -574,6 +610,11 @@ class _BinaryOperator(_Operator):
         self._set_module(getattr(self.df, 'module', None))
         self._set_seq(getattr(self.df, 'seq', None))
 
+    def _adjust(self, m):
+        return fx.adjust(self.left.sig_data, self.right.sig_data,
+                         self.left.get_point(), self.right.get_point(),
+                         self.get_signed())
+
     def _implement(self, m, seq):
         if self.latency != 1:
             raise ValueError("Latency mismatch '%d' vs '%s'" %
@@ -639,11 +680,6 @@ class _UnaryOperator(_Operator):
         self._set_module(getattr(self.df, 'module', None))
         self._set_seq(getattr(self.df, 'seq', None))
 
-    def _adjust(self, m):
-        return fx.adjust(self.left.sig_data, self.right.sig_data,
-                         self.left.get_point(), self.right.get_point(),
-                         self.get_signed())
-
     def _implement(self, m, seq):
         if self.latency != 1:
             raise ValueError("Latency mismatch '%d' vs '%s'" %
@@ -1795,8 +1831,9 @@ class Cat(_SpecialOperator):
             if not isinstance(var, int):
                 return Cat(*vars)
         ret = 0
-        for var in vars:
-            ret = (ret << var.get_width()) | var
+        for arg, var in zip(self.vars, vars):
+            width = arg.get_width()
+            ret = (ret << width) | (var & ((1 << width) - 1))
         return ret
 
 
@@ -1833,9 +1870,12 @@ class Repeat(_SpecialOperator):
     def eval(self):
         var = self.var.eval()
         times = self.times.eval()
+        if not isinstance(var, int) or not isinstance(times, int):
+            return Repeat(var, times)
+        width = self.var.get_width()
         ret = 0
-        for i in times:
-            ret = (ret << var.get_width()) | var
+        for i in range(times):
+            ret = (ret << width) | (var & ((1 << width) - 1))
         return ret
 
 
-- 
2.43.0


From c29fc1eb281c353e2ef273bfab8956a1c16c4bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:03 +0000
Subject: [PATCH 53/69] fix: always_ff, always_comb and always_latch of
 imported Verilog are not dropped

---
 veriloggen/verilog/from_verilog.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/veriloggen/verilog/from_verilog.py b/veriloggen/verilog/from_verilog.py
index 283ba86..bff4116 100644
--- a/veriloggen/verilog/from_verilog.py
+++ b/veriloggen/verilog/from_verilog.py
@@ -616,6 +616,15 @@ class VerilogReadVisitor(object):
         self.add_object(always)
         return always
 
+    def visit_AlwaysFF(self, node):
+        return self.visit_Always(node)
+
+    def visit_AlwaysComb(self, node):
+        return self.visit_Always(node)
+
+    def visit_AlwaysLatch(self, node):
+        return self.visit_Always(node)
+
     def visit_SensList(self, node):
         return [self.visit(s) for s in node.list]
 
-- 
2.43.0


From ef32fe06599f5e86c6bf1ad203fe915d36c1e9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:03 +0000
Subject: [PATCH 54/69] fix: imported event controls and scoped names

---
 veriloggen/verilog/from_verilog.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/veriloggen/verilog/from_verilog.py b/veriloggen/verilog/from_verilog.py
index bff4116..4eac612 100644
--- a/veriloggen/verilog/from_verilog.py
+++ b/veriloggen/verilog/from_verilog.py
@@ -228,7 +228,7 @@ class VerilogReadVisitor(object):
             labels = self.visit(node.scope)
 
             if not isinstance(self.m, (module.Module, ReadOnlyModule)):
-                lables.append(vtypes.AnyType(name=node.name))
+                labels.append(vtypes.AnyType(name=node.name))
                 return vtypes.Scope(*labels)
 
             m = self.m
@@ -727,7 +727,7 @@ class VerilogReadVisitor(object):
         return initial
 
     def visit_EventStatement(self, node):
-        sensitivity = self.visit(node.sens_list)
+        sensitivity = self.visit(node.senslist)
         event = vtypes.Event(*sensitivity)
         return event
 
-- 
2.43.0


From 73c260c02b4e83f42e8760f8ff70d8e426467e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:03 +0000
Subject: [PATCH 55/69] fix: conditionals and loops in the else branch of an
 imported generate-if

---
 veriloggen/verilog/from_verilog.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/veriloggen/verilog/from_verilog.py b/veriloggen/verilog/from_verilog.py
index 4eac612..5bb58aa 100644
--- a/veriloggen/verilog/from_verilog.py
+++ b/veriloggen/verilog/from_verilog.py
@@ -661,7 +661,7 @@ class VerilogReadVisitor(object):
         return vtypes.Subst(left, right, blk=False, ldelay=ldelay, rdelay=rdelay)
 
     def visit_IfStatement(self, node):
-        if isinstance(self.m, (module.GenerateFor, module.GenerateIf)):
+        if isinstance(self.m, module.Generate):
             return self._visit_GenerateIf(node)
         condition = self.visit(node.cond)
         true_statement = self.visit(node.true_statement)
@@ -677,7 +677,7 @@ class VerilogReadVisitor(object):
         return _if
 
     def visit_ForStatement(self, node):
-        if isinstance(self.m, (module.GenerateFor, module.GenerateIf)):
+        if isinstance(self.m, module.Generate):
             return self._visit_GenerateFor(node)
         pre = self.visit(node.pre)
         condition = self.visit(node.cond)
-- 
2.43.0


From 1e22edd2016683065fa95ccfea8676c5c06f0f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:17 +0000
Subject: [PATCH 56/69] fix: imported parameters follow other parameters, wire
 ports and initial values of registers are kept

---
 veriloggen/verilog/from_verilog.py | 31 +++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/veriloggen/verilog/from_verilog.py b/veriloggen/verilog/from_verilog.py
index 5bb58aa..1c12141 100644
--- a/veriloggen/verilog/from_verilog.py
+++ b/veriloggen/verilog/from_verilog.py
@@ -144,6 +144,9 @@ class VerilogReadVisitor(object):
     def pop_module(self):
         self.m = self.module_stack.pop()
 
+    def get_current_module(self):
+        return self.m if isinstance(self.m, module.Module) else None
+
     def add_object(self, obj):
         if isinstance(self.m, module.Module):
             self.m.add_object(obj)
@@ -371,7 +374,9 @@ class VerilogReadVisitor(object):
 
     def visit_Ioport(self, node):
         first = self.visit(node.first)
-        second = self.visit(node.second) if node.second is not None else None
+        # a port is a wire unless it is declared otherwise
+        second = (self.visit(node.second)
+                  if node.second is not None and not isinstance(node.second, vast.Wire) else None)
         return (first, second)
 
     def visit_Parameter(self, node):
@@ -380,7 +385,8 @@ class VerilogReadVisitor(object):
         raw_width = self.visit(node.width) if node.width is not None else None
         width = to_width(raw_width)
         signed = node.signed
-        param = vtypes.Parameter(value, width, signed, name=name, raw_width=raw_width)
+        param = vtypes.Parameter(value, width, signed, name=name, raw_width=raw_width,
+                                 module=self.get_current_module())
         self.add_object(param)
         return param
 
@@ -390,7 +396,8 @@ class VerilogReadVisitor(object):
         raw_width = self.visit(node.width) if node.width is not None else None
         width = to_width(raw_width)
         signed = node.signed
-        param = vtypes.Localparam(value, width, signed, name=name, raw_width=raw_width)
+        param = vtypes.Localparam(value, width, signed, name=name, raw_width=raw_width,
+                                  module=self.get_current_module())
         self.add_object(param)
         return param
 
@@ -400,12 +407,26 @@ class VerilogReadVisitor(object):
         raw_width = self.visit(node.width) if node.width is not None else None
         width = to_width(raw_width)
         signed = node.signed
-        param = vtypes.Supply(value, width, signed, name=name, raw_width=raw_width)
+        param = vtypes.Supply(value, width, signed, name=name, raw_width=raw_width,
+                              module=self.get_current_module())
         self.add_object(param)
         return param
 
     def visit_Decl(self, node):
-        decl = [self.visit(d) for d in node.list]
+        decl = []
+        variable = None
+        for d in node.list:
+            if isinstance(d, vast.Assign) and isinstance(variable, vtypes.Reg):
+                # initial value of a register
+                initial = vtypes.Initial(vtypes.Subst(variable, self.visit(d.right), blk=True))
+                self.add_object(initial)
+                continue
+            if (isinstance(d, vast.Wire) and isinstance(self.m, module.Module) and
+                    d.name in self.m.io_variable):
+                # a port is a wire unless it is declared otherwise
+                continue
+            variable = self.visit(d)
+            decl.append(variable)
         return decl
 
     def visit_Concat(self, node):
-- 
2.43.0


From ac6690d38e8abba511a6e7d6189cfdd0c2ca42ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:17 +0000
Subject: [PATCH 57/69] fix: delayed assignments of always blocks are emitted
 with '#'

---
 veriloggen/verilog/to_verilog.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/veriloggen/verilog/to_verilog.py b/veriloggen/verilog/to_verilog.py
index 790ac99..b0a65a7 100644
--- a/veriloggen/verilog/to_verilog.py
+++ b/veriloggen/verilog/to_verilog.py
@@ -887,8 +887,10 @@ class VerilogAlwaysVisitor(VerilogCommonVisitor):
     def visit_Subst(self, node):
         left = self.visit(node.left)
         right = self.visit(node.right)
-        ldelay = self.visit(node.ldelay) if node.ldelay else None
-        rdelay = self.visit(node.rdelay) if node.rdelay else None
+        ldelay = vast.DelayStatement(self.visit(
+            node.ldelay)) if node.ldelay else None
+        rdelay = vast.DelayStatement(self.visit(
+            node.rdelay)) if node.rdelay else None
         lvalue = vast.Lvalue(left)
         rvalue = vast.Rvalue(right)
         if node.blk:
-- 
2.43.0


From 7ad87e296e6c6e9088497223372b88e637ce1012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:17 +0000
Subject: [PATCH 58/69] fix: open ports of instances are emitted

---
 veriloggen/verilog/to_verilog.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/veriloggen/verilog/to_verilog.py b/veriloggen/verilog/to_verilog.py
index b0a65a7..12b42c3 100644
--- a/veriloggen/verilog/to_verilog.py
+++ b/veriloggen/verilog/to_verilog.py
@@ -828,7 +828,8 @@ class VerilogModuleVisitor(VerilogCommonVisitor):
         module = node.module.name
         parameterlist = [vast.ParamArg(
             p, self.bind_visitor.visit(a)) for p, a in node.params]
-        portlist = [vast.PortArg(p, self.bind_visitor.visit(a))
+        portlist = [vast.PortArg(p, self.bind_visitor.visit(a)
+                                 if a is not None else None)
                     for p, a in node.ports]
         name = node.instname
         instance = vast.Instance(module, name, portlist, parameterlist)
-- 
2.43.0


From 39d59b97b017722e346f0df5ac71daacd6400fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:36 +0000
Subject: [PATCH 59/69] fix: unary operators of pipeline expressions are not
 dropped

---
 veriloggen/pipeline/pipeline.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/veriloggen/pipeline/pipeline.py b/veriloggen/pipeline/pipeline.py
index e62d544..aca733a 100644
--- a/veriloggen/pipeline/pipeline.py
+++ b/veriloggen/pipeline/pipeline.py
@@ -613,7 +613,9 @@ class DataVisitor(_PipelineVisitor):
         return stage, cls(*data), valid, ready
 
     def visit__UnaryOperator(self, node):
-        return self.visit(node.right)
+        stage, data, valid, ready = self.pack(node.right)
+        cls = type(node)
+        return stage, cls(*data), valid, ready
 
     def visit_Pointer(self, node):
         stage, data, valid, ready = self.pack(node.var, node.pos)
-- 
2.43.0


From 44c5581ba7c28f3fdd99bdcfd01d2e84046ffd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:16 +0000
Subject: [PATCH 60/69] fix: buses without I/O ports are not listed as
 interfaces of an IP-XACT component

---
 veriloggen/types/ipxact.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/veriloggen/types/ipxact.py b/veriloggen/types/ipxact.py
index f484bd9..e10bd42 100644
--- a/veriloggen/types/ipxact.py
+++ b/veriloggen/types/ipxact.py
@@ -66,7 +66,9 @@ def to_ipxact(m, ip_name=None, ip_ver='1.0',
     slavebus = m.slavebus if hasattr(m, 'slavebus') else []
     streaminbus = m.streaminbus if hasattr(m, 'streaminbus') else []
     streamoutbus = m.streamoutbus if hasattr(m, 'streamoutbus') else []
-    bus_interfaces = masterbus + slavebus + streaminbus + streamoutbus
+    # buses without I/O ports are not interfaces of the module
+    bus_interfaces = [bus for bus in masterbus + slavebus + streaminbus + streamoutbus
+                      if not bus.noio]
 
     for bus_interface in bus_interfaces:
         if (isinstance(bus_interface.clk, vtypes._Variable) and
-- 
2.43.0


From d9b47428534c274fa712bdedd44e367634876617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:57 +0000
Subject: [PATCH 61/69] fix: pipeline sources joined by one stage are consumed
 together

---
 veriloggen/pipeline/pipeline.py | 41 ++++++++++++++++++++++++++++++---
 1 file changed, 38 insertions(+), 3 deletions(-)

diff --git a/veriloggen/pipeline/pipeline.py b/veriloggen/pipeline/pipeline.py
index aca733a..4965c61 100644
--- a/veriloggen/pipeline/pipeline.py
+++ b/veriloggen/pipeline/pipeline.py
@@ -44,6 +44,40 @@ def _connect_ready(m, var, ready):
         m.append(prev_assign)
 
 
+def _connect_ready_group(df, vars, ready):
+    """ 'vars' are ready signals of the sources which are consumed together.
+    They share their ready conditions, so that all of them or none of them is
+    consumed, even if some of them have other consumers. """
+
+    for var in vars:
+        _connect_ready(df.m, var, ready)
+
+    merged_vars = []
+    merged_conds = []
+    other_groups = []
+    for group_vars, group_conds in df.ready_groups:
+        if any(var is group_var for var in vars for group_var in group_vars):
+            merged_vars.extend(group_vars)
+            merged_conds.extend(group_conds)
+        else:
+            other_groups.append((group_vars, group_conds))
+
+    for var in vars:
+        if not any(var is merged_var for merged_var in merged_vars):
+            merged_vars.append(var)
+
+    # (condition, variables which already have the condition)
+    merged_conds.append((ready, list(vars)))
+
+    for cond, cond_vars in merged_conds:
+        for var in merged_vars:
+            if not any(var is cond_var for cond_var in cond_vars):
+                _connect_ready(df.m, var, cond)
+                cond_vars.append(var)
+
+    df.ready_groups = other_groups + [(merged_vars, merged_conds)]
+
+
 class Pipeline(vtypes.VeriloggenNode):
     """ Pipeline Generator """
 
@@ -57,6 +91,7 @@ class Pipeline(vtypes.VeriloggenNode):
         self.tmp_count = 0
         self.max_stage_id = 0
         self.vars = []
+        self.ready_groups = []
 
         self.seq = Seq(self.m, self.name, clk, rst, nohook=True)
         self.data_visitor = DataVisitor(self)
@@ -293,8 +328,7 @@ class Pipeline(vtypes.VeriloggenNode):
         if tmp_ready is not None:
             ordy = vtypes.AndList(vtypes.OrList(
                 tmp_ready, vtypes.Not(tmp_valid)), valid)
-            for r in ready:
-                _connect_ready(self.m, r, ordy)
+            _connect_ready_group(self, ready, ordy)
 
         return tmp_data, tmp_valid, tmp_ready
 
@@ -425,7 +459,8 @@ class _PipelineVariable(_PipelineNumeric):
         if ready is None:
             ready = vtypes.Int(1)
 
-        _connect_ready(ovar.df.m, ovar.ready, ready)
+        if ovar.ready is not None:
+            _connect_ready_group(ovar.df, [ovar.ready], ready)
 
         ovar.dst_data = _PipelineInterface(data, valid, ready, output=True)
 
-- 
2.43.0


From 61ca3a43ded33226cd1a13f75f8de7c2adb0008d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:36 +0000
Subject: [PATCH 62/69] fix: pipeline expressions are aligned at their
 variables and delay stages keep widths

---
 veriloggen/pipeline/pipeline.py | 87 +++++++++++++++++----------------
 1 file changed, 45 insertions(+), 42 deletions(-)

diff --git a/veriloggen/pipeline/pipeline.py b/veriloggen/pipeline/pipeline.py
index 4965c61..1e087e0 100644
--- a/veriloggen/pipeline/pipeline.py
+++ b/veriloggen/pipeline/pipeline.py
@@ -187,9 +187,18 @@ class Pipeline(vtypes.VeriloggenNode):
             raise ValueError('make_always() has been already called.')
         self.done = True
 
-        for var in self.vars:
-            if var.output_vars is not None:
-                var.make_output()
+        output_vars = [var for var in self.vars if var.output_vars is not None]
+
+        # A variable and its previous values share the valid and ready.
+        # To output them separately, each of them requires its own register.
+        output_readys = [id(var.ready) for var in output_vars
+                         if var.ready is not None and
+                         var.stage_id == self.max_stage_id]
+        if len(output_readys) != len(set(output_readys)):
+            self.max_stage_id += 1
+
+        for var in output_vars:
+            var.make_output()
 
         self.m.Always(vtypes.Posedge(self.clk))(
             vtypes.If(self.rst)(
@@ -230,6 +239,9 @@ class Pipeline(vtypes.VeriloggenNode):
 
         self.vars.append(ret)
 
+        if next_stage_id is not None and next_stage_id > self.max_stage_id:
+            self.max_stage_id = next_stage_id
+
         return ret
 
     # -------------------------------------------------------------------------
@@ -439,7 +451,7 @@ class _PipelineVariable(_PipelineNumeric):
         ovar = self
         if self.stage_id is not None:
             for i in range(self.stage_id, self.df.max_stage_id):
-                ovar = self.df.stage(ovar, preg=ovar)
+                ovar = self.df.stage(ovar, width=vtypes.get_width(ovar.data), preg=ovar)
 
         if not isinstance(data, (vtypes.Wire, vtypes.Output)):
             raise TypeError('Data signal must be Wire, not %s' %
@@ -562,6 +574,7 @@ class DataVisitor(_PipelineVisitor):
 
     def __init__(self, df):
         self.df = df
+        self.stage_id = None
 
     def pack_valid(self, lvalid, rvalid):
         if rvalid is not None and lvalid is not None:
@@ -578,46 +591,25 @@ class DataVisitor(_PipelineVisitor):
         return lready + rready
 
     def pack(self, *args):
-        rslts = [self.visit(arg) for arg in args]
-        all_stage_none = reduce(lambda t, x: t and x is None, [
-                                rslt[0] for rslt in rslts], True)
-
-        if all_stage_none:
-            data = [rslt[1] for rslt in rslts]
-            valid = reduce(self.pack_valid, [rslt[2] for rslt in rslts], None)
-            ready = reduce(self.pack_ready, [rslt[3] for rslt in rslts], [])
-            return (None, data, valid, ready)
-
-        max_stage = reduce(lambda x, y:
-                           None if x is None and y is None else
-                           x if x is not None and y is None else
-                           y if y is not None and x is None else
-                           max(x, y), [rslt[0] for rslt in rslts], None)
-
-        new_args = []
-        for rslt, arg in zip(rslts, args):
-            stage = rslt[0]
-            if stage is None:
-                new_args.append(arg)
-                continue
-            if stage == max_stage:
-                new_args.append(arg)
-                continue
-
-            diff = max_stage - stage
-            p = arg
-            for i in range(diff):
-                width = vtypes.get_width(rslt[1])
-                p = self.df.stage(p, width=width, preg=arg)
-
-            new_args.append(p)
+        if self.stage_id is None:
+            # All variables in an expression are aligned to the latest stage
+            self.stage_id = -1
+            stage_ids = [self.visit(arg)[0] for arg in args]
+            self.stage_id = reduce(max, [stage_id for stage_id in stage_ids
+                                         if stage_id is not None], -1)
+            rslts = [self.visit(arg) for arg in args]
+            self.stage_id = None
+        else:
+            rslts = [self.visit(arg) for arg in args]
 
-        new_rslts = [self.visit(arg) for arg in new_args]
-        data = [rslt[1] for rslt in new_rslts]
-        valid = reduce(self.pack_valid, [rslt[2] for rslt in new_rslts], None)
-        ready = reduce(self.pack_ready, [rslt[3] for rslt in new_rslts], [])
+        stage_id = reduce(lambda x, y: y if x is None else
+                          x if y is None else max(x, y),
+                          [rslt[0] for rslt in rslts], None)
+        data = [rslt[1] for rslt in rslts]
+        valid = reduce(self.pack_valid, [rslt[2] for rslt in rslts], None)
+        ready = reduce(self.pack_ready, [rslt[3] for rslt in rslts], [])
 
-        return (max_stage, data, valid, ready)
+        return (stage_id, data, valid, ready)
 
     def make_valid(self, valid, ready):
         if ready is not None and valid is not None:
@@ -630,7 +622,18 @@ class DataVisitor(_PipelineVisitor):
             next_valid = None
         return next_valid
 
+    def align(self, node):
+        stage_id, self.stage_id = self.stage_id, None
+        width = vtypes.get_width(node.data)
+        var = node
+        while var.stage_id < stage_id:
+            var = self.df.stage(var, width=width, preg=node)
+        self.stage_id = stage_id
+        return var
+
     def visit__PipelineVariable(self, node):
+        if self.stage_id is not None and node.stage_id is not None:
+            node = self.align(node)
         ready = [] if node.ready is None else [node.ready]
         #valid = self.make_valid(node.valid, node.ready)
         valid = node.valid
-- 
2.43.0


From ace26989c765ceb09285953a5ba840efbd01f91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:22 +0000
Subject: [PATCH 63/69] fix: simulation macros, include directories, options
 and failures of the back ends are honoured

---
 veriloggen/simulation/simulation.py | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/veriloggen/simulation/simulation.py b/veriloggen/simulation/simulation.py
index 99e41f6..0deedd3 100644
--- a/veriloggen/simulation/simulation.py
+++ b/veriloggen/simulation/simulation.py
@@ -245,19 +245,17 @@ def run_vcs(objs, display=False, top=None, outputfile=None,
 
     if include:
         for inc in include:
-            cmd.append('+incdir+')
-            cmd.append(inc)
+            cmd.append('+incdir+' + inc)
 
     if define:
         for d in define:
-            cmd.append('+define+')
             if isinstance(d, (tuple, list)):
                 if d[1] is None:
-                    cmd.append(d[0])
+                    cmd.append('+define+' + d[0])
                 else:
-                    cmd.append(''.join([d[0], '=', str(d[1])]))
+                    cmd.append(''.join(['+define+', d[0], '=', str(d[1])]))
             else:
-                cmd.append(d)
+                cmd.append('+define+' + d)
 
     if libdir:
         for l in libdir:
@@ -516,7 +514,7 @@ def run_verilator(objs, display=False, top=None, outputfile=None,
 
     if not isinstance(top, module.Module):
         for obj in objs:
-            if obj.name == top_name:
+            if isinstance(obj, module.Module) and obj.name == top_name:
                 top = obj
                 break
 
@@ -537,9 +535,9 @@ def run_verilator(objs, display=False, top=None, outputfile=None,
     cmd.append('--cc')
 
     if options is not None:
-        if isinstance(options, (tuple, list)):
+        if not isinstance(options, (tuple, list)):
             options = (options,)
-        cmd.append(options)
+        cmd.extend(options)
 
     if hasattr(top, 'verilator_dumpfile'):
         cmd.append('--trace')
@@ -550,19 +548,17 @@ def run_verilator(objs, display=False, top=None, outputfile=None,
 
     if include:
         for inc in include:
-            cmd.append('+incdir+')
-            cmd.append(inc)
+            cmd.append('+incdir+' + inc)
 
     if define:
         for d in define:
-            cmd.append('+define+')
             if isinstance(d, (tuple, list)):
                 if d[1] is None:
-                    cmd.append(d[0])
+                    cmd.append('+define+' + d[0])
                 else:
-                    cmd.append(''.join([d[0], '=', str(d[1])]))
+                    cmd.append(''.join(['+define+', d[0], '=', str(d[1])]))
             else:
-                cmd.append(d)
+                cmd.append('+define+' + d)
 
     if libdir:
         for l in libdir:
@@ -735,6 +731,9 @@ def _exec(cmd, encoding, display=False):
         p.stdout.close()
         rslt = ''.join(rslt)
 
+        if p.returncode != 0:
+            raise subprocess.CalledProcessError(p.returncode, cmd, output=rslt)
+
     else:
         b = subprocess.check_output(cmd, shell=True)
         rslt = b.decode(encoding)
-- 
2.43.0


From 912797d96b29922028d7a7809e5a4fb01d88d618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:35 +0000
Subject: [PATCH 64/69] fix: the Verilator back end is given the top module

---
 veriloggen/simulation/simulation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/veriloggen/simulation/simulation.py b/veriloggen/simulation/simulation.py
index 0deedd3..f045a52 100644
--- a/veriloggen/simulation/simulation.py
+++ b/veriloggen/simulation/simulation.py
@@ -571,6 +571,10 @@ def run_verilator(objs, display=False, top=None, outputfile=None,
     verilog_prefix = 'out'
     verilog_name = verilog_prefix + '.v'
     verilog_path = outputfile + '/' + verilog_name
+    cmd.append('--top-module')
+    cmd.append(top_name)
+    cmd.append('--prefix')
+    cmd.append('V' + verilog_prefix)
     cmd.append(verilog_path)
 
     cpp_prefix = 'sim_%s' % top_name
-- 
2.43.0


From 61f23d1fe4545474c97dee9e0527e991edff36f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:06 +0000
Subject: [PATCH 65/69] fix: statements of imported functions and tasks are not
 duplicated

---
 veriloggen/verilog/from_verilog.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/veriloggen/verilog/from_verilog.py b/veriloggen/verilog/from_verilog.py
index 1c12141..633514d 100644
--- a/veriloggen/verilog/from_verilog.py
+++ b/veriloggen/verilog/from_verilog.py
@@ -824,7 +824,7 @@ class VerilogReadVisitor(object):
                         t.raw_width = d.raw_width
                         t.raw_dims = d.raw_dims
                     else:
-                        body.append(s)
+                        body.append(d)
             else:
                 body.append(s)
 
@@ -867,7 +867,7 @@ class VerilogReadVisitor(object):
                         t.raw_width = d.raw_width
                         t.raw_dims = d.raw_dims
                     else:
-                        body.append(s)
+                        body.append(d)
             else:
                 body.append(s)
 
-- 
2.43.0


From f109dd47fa579d507f19dd7e18ae121f209a314c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:12 +0000
Subject: [PATCH 66/69] fix: stream accumulators: size the interval counter for
 the interval, not only for the data

---
 veriloggen/stream/stypes.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/veriloggen/stream/stypes.py b/veriloggen/stream/stypes.py
index 79a3297..c814879 100644
--- a/veriloggen/stream/stypes.py
+++ b/veriloggen/stream/stypes.py
@@ -3115,7 +3115,8 @@ class _Accumulator(_Operator):
         resetdata = self.reset.sig_data if self.reset is not None else None
 
         if self.interval is not None:
-            interval_count = m.Reg(self.name('interval_count'), width, initval=0)
+            interval_count = m.Reg(self.name('interval_count'),
+                                   max(width, self.interval.get_width()), initval=0)
 
         reset_cond_values = []
 
@@ -3301,7 +3302,8 @@ class ReduceMul(_Accumulator):
         resetdata = self.reset.sig_data if self.reset is not None else None
 
         if self.interval is not None:
-            interval_count = m.Reg(self.name('interval_count'), width, initval=0)
+            interval_count = m.Reg(self.name('interval_count'),
+                                   max(width, self.interval.get_width()), initval=0)
 
         reset_cond_values = []
 
@@ -3469,7 +3471,8 @@ class ReduceDiv(_Accumulator):
         resetdata = self.reset.sig_data if self.reset is not None else None
 
         if self.interval is not None:
-            interval_count = m.Reg(self.name('interval_count'), width, initval=0)
+            interval_count = m.Reg(self.name('interval_count'),
+                                   max(width, self.interval.get_width()), initval=0)
 
         reset_cond_values = []
 
@@ -3660,7 +3663,8 @@ class Counter(_Accumulator):
         resetdata = self.reset.sig_data if self.reset is not None else None
 
         if self.interval is not None:
-            interval_count = m.Reg(self.name('interval_count'), width, initval=0)
+            interval_count = m.Reg(self.name('interval_count'),
+                                   max(width, self.interval.get_width()), initval=0)
 
         reset_cond = m.Wire(self.name('reset_cond'))
         if self.reset is not None:
-- 
2.43.0


From 2ca5cb3fd2fec457ce7499f9058617fd3722096c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:12 +0000
Subject: [PATCH 67/69] fix: stream ring buffers and scratchpads take width,
 point and sign from the stored data only

---
 veriloggen/stream/stypes.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/veriloggen/stream/stypes.py b/veriloggen/stream/stypes.py
index c814879..bd3397d 100644
--- a/veriloggen/stream/stypes.py
+++ b/veriloggen/stream/stypes.py
@@ -4249,6 +4249,11 @@ class RingBuffer(_SpecialOperator):
         self.graph_label = 'RingBufferIn'
         self.graph_shape = 'box'
 
+    def _set_attributes(self):
+        self.width = self.args[0].get_width()
+        self.point = self.args[0].get_point()
+        self.signed = self.args[0].get_signed()
+
     def read(self, offset, enable=None):
         var = _RingBufferOutput(self, offset, self.num_ports, enable)
         self.read_vars.append(var)
@@ -4305,6 +4310,11 @@ class _RingBufferOutput(_SpecialOperator):
         self.graph_label = 'RingBufferOut'
         self.graph_shape = 'box'
 
+    def _set_attributes(self):
+        self.width = self.args[0].get_width()
+        self.point = self.args[0].get_point()
+        self.signed = self.args[0].get_signed()
+
     def _implement(self, m, seq, svalid=None, senable=None):
         if self.latency != 1:
             raise ValueError("Latency mismatch '%d' vs '%s'" %
@@ -4357,6 +4367,11 @@ class Scratchpad(_SpecialOperator):
         self.graph_label = 'ScratchpadIn'
         self.graph_shape = 'box'
 
+    def _set_attributes(self):
+        self.width = self.args[0].get_width()
+        self.point = self.args[0].get_point()
+        self.signed = self.args[0].get_signed()
+
     def read(self, addr, enable=None):
         var = _ScratchpadOutput(self, addr, self.num_ports, enable)
         self.read_vars.append(var)
@@ -4410,6 +4425,11 @@ class _ScratchpadOutput(_SpecialOperator):
         self.graph_label = 'ScratchpadOut'
         self.graph_shape = 'box'
 
+    def _set_attributes(self):
+        self.width = self.args[0].get_width()
+        self.point = self.args[0].get_point()
+        self.signed = self.args[0].get_signed()
+
     def _implement(self, m, seq, svalid=None, senable=None):
         if self.latency != 1:
             raise ValueError("Latency mismatch '%d' vs '%s'" %
-- 
2.43.0


From 445a771def888d0c04e0ffc774ee21bfa38fcb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:12 +0000
Subject: [PATCH 68/69] fix: stream ring buffer: a late read follows the write
 pointer through invalid items

---
 veriloggen/stream/stypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veriloggen/stream/stypes.py b/veriloggen/stream/stypes.py
index bd3397d..c482cb0 100644
--- a/veriloggen/stream/stypes.py
+++ b/veriloggen/stream/stypes.py
@@ -4329,7 +4329,7 @@ class _RingBufferOutput(_SpecialOperator):
         renable_base = _and_vars(svalid, senable)
         diff_latency = self.start_stage - self.buf.start_stage
 
-        raddr_base = seq.Prev(self.buf.waddr, diff_latency, cond=renable_base)
+        raddr_base = seq.Prev(self.buf.waddr, diff_latency, cond=senable)
         raddr_value = raddr_base + self.args[1].sig_data
         raddr_value = vtypes.Mux(raddr_value >= self.buf.length,
                                  raddr_value - self.buf.length, raddr_value)
-- 
2.43.0


From 571af447d32a43ef4687108b526d2a754ab2d7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:29 +0000
Subject: [PATCH 69/69] fix: stream ring buffer: negative offsets with any
 buffer length

---
 veriloggen/stream/stypes.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/veriloggen/stream/stypes.py b/veriloggen/stream/stypes.py
index c482cb0..6619108 100644
--- a/veriloggen/stream/stypes.py
+++ b/veriloggen/stream/stypes.py
@@ -4330,7 +4330,17 @@ class _RingBufferOutput(_SpecialOperator):
         diff_latency = self.start_stage - self.buf.start_stage
 
         raddr_base = seq.Prev(self.buf.waddr, diff_latency, cond=senable)
-        raddr_value = raddr_base + self.args[1].sig_data
+        offset = self.args[1].sig_data
+        if (self.args[1].get_signed() and
+            (self.buf.length & (self.buf.length - 1) or
+             (not isinstance(self.args[1], Int) and
+              self.args[1].get_width() < addrwidth))):
+            # A negative offset does not wrap around by the address width
+            offset_wrap = m.Wire(self.name('offset'), addrwidth)
+            offset_wrap.assign(vtypes.Mux(offset < 0, offset + self.buf.length, offset))
+            offset = offset_wrap
+
+        raddr_value = raddr_base + offset
         raddr_value = vtypes.Mux(raddr_value >= self.buf.length,
                                  raddr_value - self.buf.length, raddr_value)
 
-- 
2.43.0

