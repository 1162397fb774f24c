From 5e4d6221ed097d9d9399aa3707cf8e3a7465d5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:54 +0000
Subject: [PATCH 01/71] fix: do not disable the inner transaction macro when
 writing an inner_txn

---
 tealish/nodes.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index fae3d51..b56ae09 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1043,7 +1043,6 @@ class InnerTxn(InlineStatement):
                 node.expression.process()
 
     def write_teal(self, writer: "TealWriter") -> None:
-        self.compiler.use_inner_txns_macro = False
         writer.write(self, f"// tl:{self.line_no}: {self.line}")
         if self.compiler.use_inner_txns_macro:
             writer.write(self, "callsub _itxn_begin")
-- 
2.43.0


From ce9905a8e85e2ad68dcf047fd6635b7abaef1a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:10 +0000
Subject: [PATCH 02/71] fix: do not treat // inside a string literal as a TEAL
 comment when aligning output

---
 tealish/__init__.py | 10 ++++++----
 tealish/utils.py    | 16 ++++++++++++++++
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/tealish/__init__.py b/tealish/__init__.py
index e230474..a9ef5b8 100644
--- a/tealish/__init__.py
+++ b/tealish/__init__.py
@@ -2,7 +2,7 @@ import inspect
 from typing import List, Dict, Union, Tuple
 from .base import BaseNode
 from .nodes import Node, Program
-from .utils import TealishMap
+from .utils import TealishMap, find_unquoted
 from .types import _structs
 
 
@@ -32,9 +32,11 @@ class TealWriter:
             teal = node_or_teal
             prefix = (" " * 4) * self.level
             teal = prefix + teal
-            if " //" in teal.strip():
-                teal, comment = teal.split("//", 1)
-                teal = teal.ljust(60) + "//" + comment
+            comment_index = find_unquoted(teal.strip(), " //")
+            if comment_index >= 0:
+                comment_index = find_unquoted(teal, "//")
+                comment = teal[comment_index:]
+                teal = teal[:comment_index].ljust(60) + comment
             parent._teal.append(teal)
             self.output.append(teal)
             if hasattr(parent, "line_no"):
diff --git a/tealish/utils.py b/tealish/utils.py
index 19d665c..6cff2c8 100644
--- a/tealish/utils.py
+++ b/tealish/utils.py
@@ -2,6 +2,22 @@ from typing import Dict, List, Tuple, Optional, Union, Any
 from algosdk.source_map import SourceMap
 
 
+def find_unquoted(text: str, marker: str) -> int:
+    """Index of the first occurrence of marker outside of "string literals" or -1"""
+    quoted = False
+    i = 0
+    while i < len(text):
+        if quoted and text[i] == "\\":
+            i += 2
+            continue
+        if text[i] == '"':
+            quoted = not quoted
+        elif not quoted and text.startswith(marker, i):
+            return i
+        i += 1
+    return -1
+
+
 def minify_teal(teal_lines: List[str]) -> Tuple[List[str], Dict[int, int]]:
     source_map: Dict[int, int] = {}
     n = 1
-- 
2.43.0


From 07b99e2fd3a20ebda9c297a51e8d555a77afed4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:12 +0000
Subject: [PATCH 03/71] fix: keep # inside string literals when stripping
 inline comments

---
 tealish/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tealish/__init__.py b/tealish/__init__.py
index a9ef5b8..254445f 100644
--- a/tealish/__init__.py
+++ b/tealish/__init__.py
@@ -100,7 +100,9 @@ class TealishCompiler:
         line = self.source_lines[self.line_no].strip()
         # strip out inline comments
         if not line.startswith("#"):
-            line = line.split("#")[0]
+            comment_index = find_unquoted(line, "#")
+            if comment_index >= 0:
+                line = line[:comment_index]
         self.line_no += 1
         return line
 
-- 
2.43.0


From 7ddf9aa4bb0e5749184ffee5f50cacb5928b0766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:25 +0000
Subject: [PATCH 04/71] fix: keep escape sequences of string literals instead
 of unescaping them

---
 tealish/expression_nodes.py    | 9 +++++++--
 tealish/tealish_expressions.tx | 2 +-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index 0e55aee..ad791c4 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -1,3 +1,4 @@
+import re
 from typing import List, Optional, Union, TYPE_CHECKING
 
 from .base import BaseNode
@@ -36,8 +37,12 @@ class Integer(BaseNode):
 
 class Bytes(BaseNode):
     def __init__(self, value: str, parent: Optional[BaseNode] = None) -> None:
-        self.value = value
-        self.type = BytesType(size=len(value))
+        if value.startswith("'"):
+            escapes = {"\\'": "'", '"': '\\"'}
+            value = re.sub(r"\\.|\"", lambda m: escapes.get(m[0], m[0]), value)
+        # value is the literal text between the quotes, including escape sequences
+        self.value = value[1:-1]
+        self.type = BytesType(size=len(self.value))
         self.parent = parent
 
     def write_teal(self, writer: "TealWriter") -> None:
diff --git a/tealish/tealish_expressions.tx b/tealish/tealish_expressions.tx
index 2a21431..5d3cc88 100644
--- a/tealish/tealish_expressions.tx
+++ b/tealish/tealish_expressions.tx
@@ -44,4 +44,4 @@ NegativeGroupIndex: '-' index=INT;
 PositiveGroupIndex: '+' index=INT;
 HexBytes: value=/0x([a-fA-F0-9]+)/;
 Integer: value=/[0-9_]+/;
-Bytes: value=STRING | HexBytes;
+Bytes: value=/"(?:[^"\\]|\\.)*"|'(?:[^'\\]|\\.)*'/ | HexBytes;
-- 
2.43.0


From 85bece3cd8f88af4307211187a0f78a8deb131d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:46 +0000
Subject: [PATCH 05/71] fix: size string literals by the bytes they denote and
 refuse invalid escapes

---
 tealish/expression_nodes.py |  3 ++-
 tealish/nodes.py            |  9 ++++++---
 tealish/utils.py            | 21 +++++++++++++++++++++
 3 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index ad791c4..23f9278 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -14,6 +14,7 @@ from .types import (
     UIntType,
 )
 from .langspec import Op, type_lookup
+from .utils import decode_string_literal
 
 
 if TYPE_CHECKING:
@@ -42,7 +43,7 @@ class Bytes(BaseNode):
             value = re.sub(r"\\.|\"", lambda m: escapes.get(m[0], m[0]), value)
         # value is the literal text between the quotes, including escape sequences
         self.value = value[1:-1]
-        self.type = BytesType(size=len(self.value))
+        self.type = BytesType(size=len(decode_string_literal(self.value)))
         self.parent = parent
 
     def write_teal(self, writer: "TealWriter") -> None:
diff --git a/tealish/nodes.py b/tealish/nodes.py
index b56ae09..d7fced4 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1,4 +1,3 @@
-import ast
 import re
 import textwrap
 from typing import (
@@ -31,9 +30,10 @@ from .types import (
     get_type_instance,
 )
 from .scope import Scope
+from .utils import decode_string_literal
 
 LITERAL_INT = r"[0-9]+"
-LITERAL_BYTE_STRING = r'"(.+)"'
+LITERAL_BYTE_STRING = r'"((?:[^"\\]|\\.)+)"'
 LITERAL_BYTE_HEX = r"0x([a-fA-F0-9]+)"
 VARIABLE_NAME = r"[a-z_][a-zA-Z0-9_]*"
 
@@ -176,7 +176,10 @@ class LiteralBytes(Literal):
     value: str  # value contains quotes
 
     def type(self) -> AVMType:
-        return BytesType(size=len(ast.literal_eval(self.value)))
+        try:
+            return BytesType(size=len(decode_string_literal(self.value[1:-1])))
+        except ValueError as e:
+            raise CompileError(str(e), node=self.parent)
 
     def _tealish(self) -> str:
         return self.value
diff --git a/tealish/utils.py b/tealish/utils.py
index 6cff2c8..565997c 100644
--- a/tealish/utils.py
+++ b/tealish/utils.py
@@ -1,3 +1,4 @@
+import re
 from typing import Dict, List, Tuple, Optional, Union, Any
 from algosdk.source_map import SourceMap
 
@@ -18,6 +19,26 @@ def find_unquoted(text: str, marker: str) -> int:
     return -1
 
 
+def decode_string_literal(value: str) -> bytes:
+    """The bytes denoted by the contents (without quotes) of a TEAL string literal"""
+    simple_escapes = {"n": b"\n", "r": b"\r", "t": b"\t", "\\": b"\\", '"': b'"'}
+    output = b""
+    i = 0
+    while i < len(value):
+        if value[i] != "\\":
+            output += value[i].encode()
+            i += 1
+        elif value[i + 1 : i + 2] in simple_escapes:
+            output += simple_escapes[value[i + 1]]
+            i += 2
+        elif re.match(r"x[0-9a-fA-F]{2}", value[i + 1 : i + 4]):
+            output += bytes.fromhex(value[i + 2 : i + 4])
+            i += 4
+        else:
+            raise ValueError(f'Invalid escape sequence in string literal "{value}"')
+    return output
+
+
 def minify_teal(teal_lines: List[str]) -> Tuple[List[str], Dict[int, int]]:
     source_map: Dict[int, int] = {}
     n = 1
-- 
2.43.0


From 0bb289031ddd86c9838603d9c00a032fc8afb776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:11 +0000
Subject: [PATCH 06/71] fix: parse the bitwise & operator

---
 tealish/tealish_expressions.tx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tealish/tealish_expressions.tx b/tealish/tealish_expressions.tx
index 5d3cc88..55f031a 100644
--- a/tealish/tealish_expressions.tx
+++ b/tealish/tealish_expressions.tx
@@ -7,7 +7,7 @@ BinaryOp: a=Value op=BinaryOperator b=Value;
 BinaryOperator: '+' | '-' | '*' | '/' | '%'
     | '==' | '>=' | '<=' | '>' | '<' | '!='
     | '&&' | '||'
-    | '|' | '%' | '^'
+    | '|' | '&' | '^'
     | 'b+' | 'b-' | 'b/' | 'b*' | 'b%'
     | 'b==' | 'b!=' | 'b>=' | 'b<=' | 'b>' | 'b<'
     | 'b|' | 'b&' | 'b^';
-- 
2.43.0


From 5b2d8c6004cb9dc714619546c4cc48847b753ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:13 +0000
Subject: [PATCH 07/71] fix: the literal 0 is an integer of one byte

---
 tealish/expression_nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index 23f9278..d081dd6 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -25,7 +25,7 @@ if TYPE_CHECKING:
 class Integer(BaseNode):
     def __init__(self, value: str, parent: Optional[BaseNode] = None) -> None:
         self.value = int(value)
-        size = (((self.value).bit_length() - 1) // 8) + 1
+        size = max(1, (((self.value).bit_length() - 1) // 8) + 1)
         self.type = UIntType(size)
         self.parent = parent
 
-- 
2.43.0


From c92369b43426545d61564a02064ba92f9a1b1dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:15 +0000
Subject: [PATCH 08/71] fix: addr is a 32 byte type

---
 tealish/types.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tealish/types.py b/tealish/types.py
index 8981eb2..1bdc8f6 100644
--- a/tealish/types.py
+++ b/tealish/types.py
@@ -126,7 +126,12 @@ class BigIntType(BytesType):
 class AddrType(BytesType):
     name = "addr"
     avm_type = AVMType.bytes
-    size = 32
+
+    def __init__(self):
+        super().__init__(32)
+
+    def __str__(self) -> str:
+        return self.name
 
 
 class StructField:
-- 
2.43.0


From bb03aa920deef93ae551018524adf189369022bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:04 +0000
Subject: [PATCH 09/71] fix: casting to a bytes type without a size does not
 assert a length of 0

---
 tealish/stdlib.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tealish/stdlib.py b/tealish/stdlib.py
index 92dda3e..9542852 100644
--- a/tealish/stdlib.py
+++ b/tealish/stdlib.py
@@ -264,6 +264,9 @@ class BytesSizeAssertionWrapper(BaseNode):
 
     def write_teal(self, writer):
         writer.write(self, self.expression)
+        if not self.size:
+            # bytes of any size are allowed
+            return
         # Assert that the expression is bytes of size N
         writer.write(
             self,
-- 
2.43.0


From 9e0c22cd3d6479a35fcc0ca511ebb13e9353dd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:06 +0000
Subject: [PATCH 10/71] fix: allow Cast of values of unknown type

---
 tealish/stdlib.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/tealish/stdlib.py b/tealish/stdlib.py
index 9542852..594cd0e 100644
--- a/tealish/stdlib.py
+++ b/tealish/stdlib.py
@@ -140,6 +140,11 @@ class Cast(FunctionCall):
                 "Unncecessary use of cast. Types are known to be the same", node=self
             )
 
+        if isinstance(self.expression.type, AnyType) and isinstance(
+            self.type, (IntType, BytesType)
+        ):
+            # Any -> Int or Bytes
+            self.expression = AVMTypeAssertionWrapper(self.expression, self.type)
         if isinstance(self.expression.type, IntType) and isinstance(self.type, IntType):
             # Int -> Int
             self.expression = UIntSizeAssertionWrapper(self.expression, self.type.size)
@@ -255,6 +260,19 @@ class TypeAssertionWrapper(BaseNode):
                 writer.write(self, "assert // Error: Incorrect size for assignment")
 
 
+class AVMTypeAssertionWrapper(BaseNode):
+    def __init__(self, expression, type) -> None:
+        self.expression = expression
+        self.type = IntType() if isinstance(type, IntType) else BytesType()
+        self.parent = expression
+
+    def write_teal(self, writer):
+        writer.write(self, self.expression)
+        # These ops fail if the value is not of the expected AVM type
+        op = "itob" if isinstance(self.type, IntType) else "len"
+        writer.write(self, ["dup", op, "pop", f"// {self.type.name} Assertion"])
+
+
 class BytesSizeAssertionWrapper(BaseNode):
     def __init__(self, expression, size) -> None:
         self.expression = expression
-- 
2.43.0


From f191b5211b044624b2c03b445ab98b7b3e48fdec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:34 +0000
Subject: [PATCH 11/71] fix: support array fields of inner transactions

---
 tealish/expression_nodes.py | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index d081dd6..b45ecbb 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -569,6 +569,36 @@ class InnerTxnField(BaseNode):
         return f"Itxn.{self.field}"
 
 
+class InnerTxnArrayField(BaseNode):
+    def __init__(
+        self,
+        field: str,
+        arrayIndex: Union[Constant, Integer],
+        parent: Optional[BaseNode] = None,
+    ) -> None:
+        self.field = field
+        self.arrayIndex = arrayIndex
+        self.type = AVMType.any
+        self.parent = parent
+
+    def process(self) -> None:
+        self.type = self.get_field_type("txn", self.field)
+        if not isinstance(self.arrayIndex, Integer):
+            # index is an expression that needs to be evaluated
+            self.arrayIndex.process()
+
+    def write_teal(self, writer: "TealWriter") -> None:
+        if not isinstance(self.arrayIndex, Integer):
+            writer.write(self, self.arrayIndex)
+            writer.write(self, f"itxnas {self.field}")
+        else:
+            # index is a constant
+            writer.write(self, f"itxna {self.field} {self.arrayIndex.value}")
+
+    def _tealish(self) -> str:
+        return f"Itxn.{self.field}[{self.arrayIndex.tealish()}]"
+
+
 class StructOrBoxField(BaseNode):
     def __init__(self, name, field, parent=None) -> None:
         self.name = name
@@ -631,6 +661,7 @@ def class_provider(name: str) -> Optional[type]:
         "NegativeGroupIndex": NegativeGroupIndex,
         "GlobalField": GlobalField,
         "InnerTxnField": InnerTxnField,
+        "InnerTxnArrayField": InnerTxnArrayField,
         "StructOrBoxField": StructOrBoxField,
     }
     return classes.get(name)
-- 
2.43.0


From 9f8a8376d46a2e7e792c365b5e373078039ad8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:03 +0000
Subject: [PATCH 12/71] fix: only a line of just 'end' closes if, elif, else
 and inner_group bodies

---
 tealish/nodes.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index d7fced4..f3a3b6e 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1083,7 +1083,7 @@ class InnerGroup(InlineStatement):
     def consume(cls, compiler: "TealishCompiler", parent: Node) -> "InnerGroup":
         node = InnerGroup(compiler.consume_line(), parent, compiler=compiler)
         while True:
-            if compiler.peek().startswith("end"):
+            if compiler.peek() == "end":
                 compiler.consume_line()
                 break
             node.add_child(Statement.consume(compiler, node))
@@ -1128,7 +1128,8 @@ class IfThen(Node):
     def consume(cls, compiler: "TealishCompiler", parent: Node) -> "IfThen":
         node = IfThen("", parent, compiler=compiler)
         while True:
-            if compiler.peek().startswith(("end", "elif", "else:")):
+            line = compiler.peek()
+            if line == "end" or line.startswith(("elif ", "else:")):
                 break
             node.add_child(InlineStatement.consume(compiler, node))
         return node
@@ -1168,7 +1169,8 @@ class Elif(Node):
     def consume(cls, compiler: "TealishCompiler", parent: Optional[Node]) -> "Elif":
         node = Elif(compiler.consume_line(), parent, compiler=compiler)
         while True:
-            if compiler.peek().startswith(("end", "elif", "else:")):
+            line = compiler.peek()
+            if line == "end" or line.startswith(("elif ", "else:")):
                 break
             node.add_child(InlineStatement.consume(compiler, node))
         return node
@@ -1211,7 +1213,7 @@ class Else(Node):
     def consume(cls, compiler: "TealishCompiler", parent: Optional[Node]) -> "Else":
         node = Else(compiler.consume_line(), parent, compiler=compiler)
         while True:
-            if compiler.peek().startswith("end"):
+            if compiler.peek() == "end":
                 break
             node.add_child(InlineStatement.consume(compiler, node))
         return node
-- 
2.43.0


From 81b25418c80bbf747afe10029f7ba04d28a3adb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:32 +0000
Subject: [PATCH 13/71] fix: refuse anything but a function after a decorator
 instead of looping forever

---
 tealish/nodes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index f3a3b6e..9c96fba 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1788,6 +1788,10 @@ class DecoratedFunc(InlineStatement):
                 break
             elif compiler.peek().startswith("@"):
                 decorated_func.add_decorator(Decorator.consume(compiler, parent))
+            else:
+                raise ParseError(
+                    f"Expected a function after a decorator at line {compiler.line_no + 1}!"
+                )
         return decorated_func
 
     def process(self) -> None:
-- 
2.43.0


From 3e97d6a382f4f2f9c26902302da105c21cc36d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:35 +0000
Subject: [PATCH 14/71] fix: report an unexpected end of file as ParseError

---
 tealish/__init__.py | 16 ++++++++--------
 tealish/nodes.py    |  2 +-
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/tealish/__init__.py b/tealish/__init__.py
index 254445f..4b78475 100644
--- a/tealish/__init__.py
+++ b/tealish/__init__.py
@@ -1,6 +1,7 @@
 import inspect
 from typing import List, Dict, Union, Tuple
 from .base import BaseNode
+from .errors import ParseError
 from .nodes import Node, Program
 from .utils import TealishMap, find_unquoted
 from .types import _structs
@@ -91,12 +92,12 @@ class TealishCompiler:
         self.line_nodes = {}
         self.use_inner_txns_macro = None
 
+    def at_end(self) -> bool:
+        return self.line_no == len(self.source_lines)
+
     def consume_line(self) -> str:
-        if self.line_no == len(self.source_lines):
-            # TODO: this and the func below are Optional[str] but
-            # nodes.py uses them heavily and dont
-            # check the type is not None
-            return  # type: ignore
+        if self.at_end():
+            raise ParseError(f"Unexpected end of file at line {self.line_no}!")
         line = self.source_lines[self.line_no].strip()
         # strip out inline comments
         if not line.startswith("#"):
@@ -107,9 +108,8 @@ class TealishCompiler:
         return line
 
     def peek(self) -> str:
-        if self.line_no == len(self.source_lines):
-            # TODO: see above
-            return  # type: ignore
+        if self.at_end():
+            raise ParseError(f"Unexpected end of file at line {self.line_no}!")
         return self.source_lines[self.line_no].strip()
 
     def write(self, lines: Union[str, List[str]] = "", line_no: int = 0) -> None:
diff --git a/tealish/nodes.py b/tealish/nodes.py
index 9c96fba..81e7601 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -279,7 +279,7 @@ class Program(Node):
         expect_struct_definition = True
         exit_statement = None
         while True:
-            if compiler.peek() is None:
+            if compiler.at_end():
                 break
             n = Statement.consume(compiler, node)
             if not expect_struct_definition and isinstance(n, StructDefinition):
-- 
2.43.0


From c5a6a4e84c304f9674fe3ec424a45d539759d982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:08 +0000
Subject: [PATCH 15/71] fix: report failures to process a node as CompileError
 without printing

---
 tealish/__init__.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/tealish/__init__.py b/tealish/__init__.py
index 4b78475..0aa669f 100644
--- a/tealish/__init__.py
+++ b/tealish/__init__.py
@@ -1,7 +1,7 @@
 import inspect
 from typing import List, Dict, Union, Tuple
 from .base import BaseNode
-from .errors import ParseError
+from .errors import CompileError, ParseError
 from .nodes import Node, Program
 from .utils import TealishMap, find_unquoted
 from .types import _structs
@@ -130,10 +130,13 @@ class TealishCompiler:
         for node in self.nodes:
             try:
                 node.process()
+            except (CompileError, ParseError):
+                raise
             except Exception as e:
-                node = inspect.trace()[-1].frame.f_locals['self']
-                print(node.line_no, node.line)
-                raise e
+                # report the innermost node that could not be processed
+                trace = [frame.frame.f_locals.get("self") for frame in inspect.trace()]
+                node = [n for n in trace if isinstance(n, BaseNode)][-1]
+                raise CompileError(f"{type(e).__name__}: {e}", node=node) from e
         self.processed = True
 
     def compile(self) -> List[str]:
-- 
2.43.0


From 2a2e356edcfaeadad645b510de52543ff8602b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:44 +0000
Subject: [PATCH 16/71] fix: report unknown blocks as CompileError

---
 tealish/base.py  | 7 ++++++-
 tealish/nodes.py | 6 ++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/tealish/base.py b/tealish/base.py
index 485007b..7390686 100644
--- a/tealish/base.py
+++ b/tealish/base.py
@@ -108,7 +108,12 @@ class BaseNode:
         return blocks
 
     def get_block(self, name: str) -> "Block":
-        return self.get_blocks()[name]
+        blocks = self.get_blocks()
+        if name not in blocks:
+            raise CompileError(
+                f'Block "{name}" not declared in current scope', node=self
+            )
+        return blocks[name]
 
     def is_descendant_of(self, node_class: type) -> bool:
         return self.find_parent(node_class) is not None
diff --git a/tealish/nodes.py b/tealish/nodes.py
index 81e7601..3f8cd2c 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -480,6 +480,9 @@ class Jump(LineStatement):
     pattern = r"jump (?P<block_name>.*)$"
     block_name: str
 
+    def process(self) -> None:
+        self.get_block(self.block_name)
+
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, f"// tl:{self.line_no}: {self.line}")
         b = self.get_block(self.block_name)
@@ -786,6 +789,9 @@ class Switch(InlineStatement):
         self.expression.process()
         for node in self.options:
             node.expression.process()
+            self.get_block(node.block_name)
+        if self.else_:
+            self.get_block(self.else_.block_name)
 
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, f"// tl:{self.line_no}: {self.line}")
-- 
2.43.0


From e1ac71dd880a53941f4825a74bbaf8513d761e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:47 +0000
Subject: [PATCH 17/71] fix: report an invalid group index as CompileError

---
 tealish/expression_nodes.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index b45ecbb..2544b3c 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -439,11 +439,11 @@ class GroupTxnField(BaseNode):
         if not isinstance(self.index, Integer):
             # index is an expression that needs to be evaluated
             self.index.process()
+        elif self.index.value > 15:
+            raise CompileError("Group index > 15", node=self)
 
     def write_teal(self, writer: "TealWriter") -> None:
         if isinstance(self.index, Integer):
-            assert self.index.value >= 0, "Group index < 0"
-            assert self.index.value < 16, "Group index > 16"
             writer.write(self, f"gtxn {self.index.value} {self.field}")
         else:
             # index is a constant
@@ -475,6 +475,8 @@ class GroupTxnArrayField(BaseNode):
         if not isinstance(self.index, Integer):
             # index is an expression that needs to be evaluated
             self.index.process()
+        elif self.index.value > 15:
+            raise CompileError("Group index > 15", node=self)
         if not isinstance(self.arrayIndex, Integer):
             self.arrayIndex.process()
 
@@ -491,7 +493,6 @@ class GroupTxnArrayField(BaseNode):
                 writer.write(self, f"gtxnsa {self.field} {self.arrayIndex.value}")
         else:
             # index is a constant
-            assert self.index.value >= 0 and self.index.value < 16
             if not isinstance(self.arrayIndex, Integer):
                 # arrayIndex is an expression that needs to be evaluated
                 writer.write(self, self.arrayIndex)
-- 
2.43.0


From d6b74b13f5ca8fcf3ea8eaace1213160cd66cf05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:49 +0000
Subject: [PATCH 18/71] fix: report unknown struct field types as ParseError

---
 tealish/nodes.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 3f8cd2c..4adfd33 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1878,9 +1878,13 @@ class StructDefinition(InlineStatement):
         node.struct = StructType(node.name)
         for field in node.child_nodes:
             field_node = cast(StructFieldDefinition, field)
-            node.struct.add_field(
-                field_node.field_name, get_type_instance(field_node.data_type)
-            )
+            try:
+                field_type = get_type_instance(field_node.data_type)
+            except KeyError:
+                raise ParseError(
+                    f'Unknown type "{field_node.data_type}" at line {field_node.line_no}!'
+                )
+            node.struct.add_field(field_node.field_name, field_type)
         define_struct(node.struct)
 
         return node
-- 
2.43.0


From af80710abf3f51057ac8eb1d02ad77e5f1f2c208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:24 +0000
Subject: [PATCH 19/71] fix: Convert asserts that an int fits in the given
 number of bytes

---
 tealish/stdlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tealish/stdlib.py b/tealish/stdlib.py
index 594cd0e..599a153 100644
--- a/tealish/stdlib.py
+++ b/tealish/stdlib.py
@@ -350,7 +350,7 @@ class UIntToBytesWrapper(BaseNode):
             writer.write(self, self.expression)
             writer.write(self, "itob")
         else:
-            writer.write(self, UIntSizeAssertionWrapper(self.expression, self.size * 8))
+            writer.write(self, UIntSizeAssertionWrapper(self.expression, self.size))
             writer.write(self, "itob")
             if self.size and self.size < 8:
                 writer.write(self, f"extract {8 - self.size} {self.size}")
-- 
2.43.0


From 10ea8fc5216a205ff74d60bdfdd15d652adbad9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:27 +0000
Subject: [PATCH 20/71] fix: ToBytes fails instead of truncating values which
 do not fit

---
 tealish/stdlib.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/tealish/stdlib.py b/tealish/stdlib.py
index 599a153..13e7c5e 100644
--- a/tealish/stdlib.py
+++ b/tealish/stdlib.py
@@ -178,13 +178,22 @@ class ToBytes(FunctionCall):
             )
 
     def write_teal(self, writer: "TealWriter") -> None:
-        expression_type = self.expression.type
-        writer.write(self, self.expression)
-        if isinstance(expression_type, IntType):
-            writer.write(self, "itob")
-        if self.type.size and self.type.size < 8:
-            writer.write(self, f"extract {8 - self.type.size} {self.type.size}")
-        elif self.type.size > 8:
+        if isinstance(self.expression.type, IntType):
+            writer.write(self, UIntToBytesWrapper(self.expression, self.type.size))
+        else:
+            writer.write(self, self.expression)
+            # Assert that the bigint fits in N bytes
+            writer.write(
+                self,
+                [
+                    "dup",
+                    "len",
+                    f"pushint {self.type.size}",
+                    "<=",
+                    "assert",
+                    f"// BigInt Size Assertion: {self.type.size} bytes",
+                ],
+            )
             writer.write(self, f"// zpad({self.type.size})")
             writer.write(self, f"pushint {self.type.size}")
             writer.write(self, "bzero")
-- 
2.43.0


From e8a9f92eef4a13b988f941b5fdc75adc52f9a3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:39 +0000
Subject: [PATCH 21/71] fix: EnsureType checks every value and the AVM type of
 values of unknown type

---
 tealish/stdlib.py | 76 +++++++++++++++++++++++++++--------------------
 1 file changed, 44 insertions(+), 32 deletions(-)

diff --git a/tealish/stdlib.py b/tealish/stdlib.py
index 13e7c5e..95cd91b 100644
--- a/tealish/stdlib.py
+++ b/tealish/stdlib.py
@@ -223,14 +223,10 @@ class FromBytes(FunctionCall):
 
 
 class TypeAssertionWrapper(BaseNode):
-    def __init__(self, expression, types, return_val=True) -> None:
+    def __init__(self, expression, types) -> None:
         self.expression = expression
         self.types = types if type(types) == list else [types]
         self.type = types
-        self.dup = return_val
-        if not return_val:
-            self.dup = False
-            self.type = None
         self.incoming_types = (
             self.expression.type
             if type(self.expression.type) == list
@@ -241,32 +237,43 @@ class TypeAssertionWrapper(BaseNode):
     def write_teal(self, writer):
         writer.write(self, self.expression)
         for i, type in enumerate(self.types):
-            if (
-                isinstance(type, BytesType)
-                and type.size
-                and type.size != self.incoming_types[i].size
-            ):
-                if self.dup:
-                    # If this has a return type duplicate the value so there is something left to return
-                    writer.write(self, "dup")
-                # Assert that the expression is bytes of size N
-                writer.write(self, f"// {type} Type Assertion")
-                writer.write(self, "len")
-                writer.write(self, f"pushint {type.size}")
-                writer.write(self, "==")
-                writer.write(self, "assert // Error: Incorrect size for assignment")
-            elif (
-                isinstance(type, UIntType) and type.size != self.incoming_types[i].size
-            ):
-                if self.type:
-                    # If this has a return type duplicate the value so there is something left to return
-                    writer.write(self, "dup")
-                # Assert that the expression is an int of N*8 bits
-                writer.write(self, f"// {type} Type Assertion")
-                writer.write(self, "bitlen")
-                writer.write(self, f"pushint {type.size * 8}")
-                writer.write(self, "<=")
-                writer.write(self, "assert // Error: Incorrect size for assignment")
+            incoming_type = self.incoming_types[i]
+            # Duplicate the value so there is something left to return
+            # (the first value is on the top of the stack)
+            dup = "dup" if i == 0 else f"dig {i}"
+            if isinstance(type, BytesType):
+                if not isinstance(incoming_type, BytesType) or (
+                    type.size and type.size != incoming_type.size
+                ):
+                    # Assert that the expression is bytes of size N
+                    writer.write(self, f"// {type} Type Assertion")
+                    writer.write(self, dup)
+                    writer.write(self, "len")
+                    if type.size:
+                        writer.write(self, f"pushint {type.size}")
+                        writer.write(self, "==")
+                        writer.write(
+                            self, "assert // Error: Incorrect size for assignment"
+                        )
+                    else:
+                        writer.write(self, "pop")
+            elif isinstance(type, IntType):
+                if not isinstance(incoming_type, IntType):
+                    # Assert that the expression is an int
+                    writer.write(self, f"// {type} Type Assertion")
+                    writer.write(self, dup)
+                    writer.write(self, "itob")
+                    writer.write(self, "pop")
+                if isinstance(type, UIntType) and type.size != incoming_type.size:
+                    # Assert that the expression is an int of N*8 bits
+                    writer.write(self, f"// {type} Type Assertion")
+                    writer.write(self, dup)
+                    writer.write(self, "bitlen")
+                    writer.write(self, f"pushint {type.size * 8}")
+                    writer.write(self, "<=")
+                    writer.write(
+                        self, "assert // Error: Incorrect size for assignment"
+                    )
 
 
 class AVMTypeAssertionWrapper(BaseNode):
@@ -386,7 +393,12 @@ class EnsureType(FunctionCall):
     def process(self) -> None:
         types = [get_type_instance(a.name) for a in self.args[1:]]
         self.args[0].process()
-        self.expression = TypeAssertionWrapper(self.args[0], types, return_val=True)
+        self.expression = TypeAssertionWrapper(self.args[0], types)
+        if len(types) != len(self.expression.incoming_types):
+            raise CompileError(
+                f"Expected {len(self.expression.incoming_types)} types for {self.name}!",
+                node=self,
+            )
         self.type = types[0] if len(types) == 1 else types
 
     def write_teal(self, writer):
-- 
2.43.0


From 7ff38736ceb2071e9cea87667d019f4c17e3c6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:42 +0000
Subject: [PATCH 22/71] fix: FromBytes asserts the size when converting to a
 sized bytes type

---
 tealish/stdlib.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tealish/stdlib.py b/tealish/stdlib.py
index 95cd91b..28c2b06 100644
--- a/tealish/stdlib.py
+++ b/tealish/stdlib.py
@@ -215,6 +215,8 @@ class FromBytes(FunctionCall):
             raise CompileError(
                 f"Incorrect source type {self.expression.type} for FromBytes. Expected bytes."
             )
+        if isinstance(to_type, BytesType) and to_type.size != self.expression.type.size:
+            self.expression = BytesSizeAssertionWrapper(self.expression, to_type.size)
 
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, self.expression)
-- 
2.43.0


From 0fcee7629726150df80a92fa570e05cf84168fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:27 +0000
Subject: [PATCH 23/71] fix: do not leave the counters of nested for _ loops on
 the stack

---
 tealish/nodes.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 4adfd33..f96db91 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -485,6 +485,7 @@ class Jump(LineStatement):
 
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, f"// tl:{self.line_no}: {self.line}")
+        discard_loop_counters(self, writer)
         b = self.get_block(self.block_name)
         writer.write(self, f"b {b.label}")
 
@@ -795,6 +796,7 @@ class Switch(InlineStatement):
 
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, f"// tl:{self.line_no}: {self.line}")
+        discard_loop_counters(self, writer)
         for node in self.options:
             writer.write(self, self.expression)
             writer.write(self, node.expression)
@@ -1407,6 +1409,7 @@ class Break(LineStatement):
 
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, f"// tl:{self.line_no}: {self.line}")
+        discard_loop_counters(self, writer, self.parent_loop)
         writer.write(self, f"b {self.parent_loop.end_label}")
 
     def _tealish(self) -> str:
@@ -1584,6 +1587,10 @@ class For_Statement(InlineStatement):
         writer.write(self, f"b {self.start_label}")
         writer.write(self, "pop")
         writer.write(self, f"{self.end_label}:")
+        # The counter is left on the stack. That is harmless at the top level of the program
+        # or of a block but not within another statement or a function.
+        if not isinstance(self.parent, (Program, Block)):
+            writer.write(self, "pop // discard counter")
         writer.level -= 1
 
     def _tealish(self) -> str:
@@ -1729,6 +1736,7 @@ class Return(LineStatement):
 
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, f"// tl:{self.line_no}: {self.line}")
+        discard_loop_counters(self, writer, self.func)
         if self.args:
             for i, expression in enumerate(self.args_expressions[::-1]):
                 writer.write(self, expression)
@@ -2057,6 +2065,17 @@ class BoxDeclaration(LineStatement):
         return s + "\n"
 
 
+def discard_loop_counters(
+    node: Node, writer: "TealWriter", until: Optional[Node] = None
+) -> None:
+    """Pop the counters of the `for _` loops which are left by a jump out of them."""
+    parent = node.parent
+    while parent is not None and parent is not until:
+        if isinstance(parent, For_Statement):
+            writer.write(node, "pop // discard counter")
+        parent = parent.parent
+
+
 def split_return_args(s):
     parentheses = 0
     quotes = False
-- 
2.43.0


From e55f9e22308aefa20b305e09abdfe969545a5361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:01 +0000
Subject: [PATCH 24/71] fix: process the conditions of elif and while only once

---
 tealish/nodes.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index f96db91..12dd121 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1184,7 +1184,6 @@ class Elif(Node):
         return node
 
     def process(self) -> None:
-        self.condition.process()
         for n in self.nodes:
             n.process()
 
@@ -1446,7 +1445,6 @@ class WhileStatement(InlineStatement):
         return node
 
     def process(self) -> None:
-        self.condition.process()
         for n in self.nodes:
             n.process()
 
-- 
2.43.0


From 5422727601ac5a5259cb313cd5951f6ba9592d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:08 +0000
Subject: [PATCH 25/71] fix: resolve names to the nearest enclosing declaration

---
 tealish/base.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tealish/base.py b/tealish/base.py
index 7390686..e72b8d0 100644
--- a/tealish/base.py
+++ b/tealish/base.py
@@ -45,7 +45,8 @@ class BaseNode:
 
     def get_scope(self) -> Scope:
         scope = Scope()
-        for s in self.get_scopes():
+        # from the outermost to the current scope so that the nearest declaration wins
+        for s in reversed(self.get_scopes()):
             scope.update(s)
         return scope
 
@@ -62,7 +63,7 @@ class BaseNode:
 
     def get_slots(self) -> Dict[str, Any]:
         slots = {}
-        for s in self.get_scopes():
+        for s in reversed(self.get_scopes()):
             slots.update(s.slots)
         return slots
 
@@ -103,7 +104,7 @@ class BaseNode:
 
     def get_blocks(self) -> Dict[str, "Block"]:
         blocks = {}
-        for s in self.get_scopes():
+        for s in reversed(self.get_scopes()):
             blocks.update(s.blocks)
         return blocks
 
-- 
2.43.0


From 9734a6b4f046dcfa7c3a9e3915f43ffd7dce919b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:46 +0000
Subject: [PATCH 26/71] fix: never share slots of functions with other
 variables or use slots which do not exist

---
 tealish/__init__.py |  4 +++-
 tealish/base.py     | 15 ++++++++++++---
 tealish/scope.py    | 22 ++++++++++++++++------
 3 files changed, 31 insertions(+), 10 deletions(-)

diff --git a/tealish/__init__.py b/tealish/__init__.py
index 0aa669f..5faf01a 100644
--- a/tealish/__init__.py
+++ b/tealish/__init__.py
@@ -1,5 +1,5 @@
 import inspect
-from typing import List, Dict, Union, Tuple
+from typing import List, Dict, Set, Union, Tuple
 from .base import BaseNode
 from .errors import CompileError, ParseError
 from .nodes import Node, Program
@@ -87,6 +87,8 @@ class TealishCompiler:
         self.conditional_count = 0
         self.error_messages: Dict[int, str] = {}
         self.max_slot = 0
+        # slots used by variables of functions
+        self.func_slots: Set[int] = set()
         self.writer = TealWriter()
         self.processed = False
         self.line_nodes = {}
diff --git a/tealish/base.py b/tealish/base.py
index e72b8d0..eedec40 100644
--- a/tealish/base.py
+++ b/tealish/base.py
@@ -81,18 +81,27 @@ class BaseNode:
         scope.update(self.get_scope())
 
         max_slot: Optional[int] = None
+        in_func = "func__" in scope.name
+        func_slots = self.compiler.func_slots  # type: ignore
 
-        if "func__" in scope.name:
+        if in_func:
             # If this var is declared in a function then use the global max slot + 1
             # This is to prevent functions using overlapping slots
-            max_slot = self.parent.compiler.max_slot + 1  # type: ignore
+            max_slot = self.compiler.max_slot + 1  # type: ignore
 
         try:
             type = get_type_instance(type_name)
         except KeyError:
             raise CompileError(f'Unknown type "{type_name}"', node=self)
 
-        var = scope.declare_scratch_var(name, type, max_slot=max_slot)
+        try:
+            var = scope.declare_scratch_var(
+                name, type, max_slot=max_slot, reserved_slots=func_slots
+            )
+        except ValueError as e:
+            raise CompileError(str(e), node=self)
+        if in_func:
+            func_slots.add(var.scratch_slot)
 
         # Update max_slot on compiler
         self.compiler.max_slot = max(self.compiler.max_slot, var.scratch_slot)  # type: ignore
diff --git a/tealish/scope.py b/tealish/scope.py
index 3220150..120e651 100644
--- a/tealish/scope.py
+++ b/tealish/scope.py
@@ -1,10 +1,13 @@
-from typing import Dict, Optional, Tuple, TYPE_CHECKING
+from typing import Dict, Iterable, Optional, Tuple, TYPE_CHECKING
 from .tealish_builtins import Var, ConstValue
 from .types import TealishType
 
 if TYPE_CHECKING:
     from .nodes import Func, Block
 
+# highest slot of the scratch space
+MAX_SLOT = 255
+
 
 class Scope:
     def __init__(
@@ -41,13 +44,18 @@ class Scope:
         name: str,
         type: "TealishType",
         max_slot: Optional[int] = None,
+        reserved_slots: Iterable[int] = (),
     ) -> Var:
         if name in self.slots:
-            raise Exception(f'Redefinition of variable "{name}"')
+            raise ValueError(f'Redefinition of variable "{name}"')
+        if max_slot is None:
+            max_slot = self.find_slot(reserved_slots)
+        elif max_slot > MAX_SLOT:
+            raise ValueError("No available slots!")
 
         var = Var(name, type)
         var.slot_type = "scratch"
-        var.scratch_slot = max_slot if max_slot is not None else self.find_slot()
+        var.scratch_slot = max_slot
         self.slots[var.name] = var
         return var
 
@@ -73,17 +81,19 @@ class Scope:
     def declare_block(self, name: str, block: "Block") -> None:
         self.blocks[name] = block
 
-    def find_slot(self) -> int:
-        used_slots = [False] * 255
+    def find_slot(self, reserved_slots: Iterable[int] = ()) -> int:
+        used_slots = [False] * (MAX_SLOT + 1)
         for var in self.slots.values():
             used_slots[var.scratch_slot] = True
+        for slot in reserved_slots:
+            used_slots[slot] = True
 
         min, max = self.slot_range
         for i, occupied in enumerate(used_slots):
             if not occupied and min <= i <= max:
                 return i
 
-        raise Exception("No available slots!")
+        raise ValueError("No available slots!")
 
     def update(self, other: "Scope") -> None:
         self.functions.update(other.functions)
-- 
2.43.0


From 72338f69292857906cdd94c65c283edd34f5f898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:10 +0000
Subject: [PATCH 27/71] fix: keep the inner group flag apart from the variables
 of the program

---
 tealish/nodes.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 12dd121..58766f4 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -318,18 +318,22 @@ class Program(Node):
             self.compiler.use_inner_txns_macro = True
 
         if self.compiler.use_inner_txns_macro:
-            scope = self.get_current_scope()
-            var = scope.declare_scratch_var(
-                "inner_group_flag", IntType, self.compiler.max_slot + 1
-            )
-            self.compiler.max_slot = max(self.compiler.max_slot, var.scratch_slot)
+            # use a scope of its own because the flag is not a variable of the program
+            scope = Scope("inner_group")
+            try:
+                self.inner_group_flag = scope.declare_scratch_var(
+                    "inner_group_flag", IntType(), self.compiler.max_slot + 1
+                )
+            except ValueError as e:
+                raise CompileError(str(e), node=self)
+            self.compiler.max_slot = self.inner_group_flag.scratch_slot
 
     def write_teal(self, writer: "TealWriter") -> None:
         for n in self.child_nodes:
             n.write_teal(writer)
 
         if self.compiler.use_inner_txns_macro:
-            var = self.get_var("inner_group_flag")
+            var = self.inner_group_flag
             teal = f"""
             _itxn_group_begin:
               load {var.scratch_slot}; !; assert // ensure no group active
-- 
2.43.0


From b5267eced9202be1606fc8b2812a0907ef2c6e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:46 +0000
Subject: [PATCH 28/71] fix: apply the layout rules of blocks to decorated
 functions

---
 tealish/nodes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 58766f4..7161ae8 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -694,13 +694,13 @@ class Block(Statement):
 
             n = Statement.consume(compiler, block)
             if exit_statement:
-                if not isinstance(n, (Func, Block, Comment, Blank)):
+                if not isinstance(n, (Func, DecoratedFunc, Block, Comment, Blank)):
                     raise ParseError(
                         f"Unexpected statement at line {n.line_no}."
                         + f" Only Block and Function definitions should occure after a {exit_statement}."
                     )
             else:
-                if isinstance(n, (Func, Block)):
+                if isinstance(n, (Func, DecoratedFunc, Block)):
                     raise ParseError(
                         f"Unexpected {n} definition at line {n.line_no}. "
                         + "Block and Function definitions must occur after an exit statement (e.g. exit, switch, jump)."
-- 
2.43.0


From 662874d2a424fde3d1d519e1479c0814c96d2d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:50 +0000
Subject: [PATCH 29/71] fix: refuse functions and blocks that control would run
 into

---
 tealish/nodes.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 7161ae8..a6e2ba4 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1085,7 +1085,7 @@ class InnerTxn(InlineStatement):
 
 
 class InnerGroup(InlineStatement):
-    possible_child_nodes = [Statement]
+    possible_child_nodes = [InlineStatement]
 
     def __init__(self, line: str, parent: Node, compiler: "TealishCompiler") -> None:
         super().__init__(line, parent, compiler)
@@ -1653,13 +1653,24 @@ class Func(InlineStatement):
     @classmethod
     def consume(cls, compiler: "TealishCompiler", parent: Optional[Node]) -> "Func":
         func = Func(compiler.consume_line(), parent, compiler=compiler)
+        if not isinstance(parent, (Program, Block, Func, DecoratedFunc)):
+            raise ParseError(f"Unexpected {func} definition at line {func.line_no}.")
 
+        last_node = None
         while True:
             if compiler.peek() == "end":
                 compiler.consume_line()
                 break
-            func.add_child(InlineStatement.consume(compiler, func))
-        last_node = [n for n in func.nodes if type(n) not in {cls, Comment, Blank}][-1]
+            n = InlineStatement.consume(compiler, func)
+            if isinstance(n, Func):
+                if type(last_node) != Return:
+                    raise ParseError(
+                        f"Unexpected {n} definition at line {n.line_no}. "
+                        + "Function definitions must occur after a return statement."
+                    )
+            elif not isinstance(n, (Comment, Blank)):
+                last_node = n
+            func.add_child(n)
         if type(last_node) != Return:
             raise ParseError(
                 f"func must end with a return statement at line {compiler.line_no}!"
@@ -1798,6 +1809,10 @@ class DecoratedFunc(InlineStatement):
         cls, compiler: "TealishCompiler", parent: Optional[Node]
     ) -> "DecoratedFunc":
         decorated_func = DecoratedFunc("", parent, compiler=compiler)
+        if not isinstance(parent, (Program, Block)):
+            raise ParseError(
+                f"Unexpected {decorated_func} definition at line {compiler.line_no + 1}."
+            )
         while True:
             if compiler.peek().startswith("func "):
                 decorated_func.set_func(Func.consume(compiler, decorated_func))
-- 
2.43.0


From 23195f0b28a21caa93ddf506aea673fba380f21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:07 +0000
Subject: [PATCH 30/71] fix: accept constants as sizes and check that sizes are
 constant integers

---
 tealish/stdlib.py | 37 +++++++++++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/tealish/stdlib.py b/tealish/stdlib.py
index 28c2b06..eca11b7 100644
--- a/tealish/stdlib.py
+++ b/tealish/stdlib.py
@@ -3,7 +3,7 @@ from Cryptodome.Hash import SHA512
 from tealish import TealWriter
 from tealish.base import BaseNode
 from tealish.errors import CompileError, warning
-from tealish.expression_nodes import Integer
+from tealish.expression_nodes import Constant, Integer
 from tealish.nodes import Node
 from tealish.types import (
     AVMType,
@@ -14,6 +14,28 @@ from tealish.types import (
     UIntType,
     get_type_instance,
 )
+from tealish.utils import decode_string_literal
+
+
+def constant_int(arg: BaseNode, name: str) -> int:
+    """The value of an int argument that must be known at compile time"""
+    value = getattr(arg, "value", None)
+    if not isinstance(arg.type, IntType) or value is None:
+        raise CompileError(f"Expected a constant integer for {name}!", node=arg)
+    return int(value)
+
+
+def constant_bytes(arg: BaseNode, name: str) -> bytes:
+    """The value of a bytes argument that must be known at compile time"""
+    value = getattr(arg, "value", None)
+    if not isinstance(arg.type, BytesType) or value is None:
+        raise CompileError(f"Expected constant bytes for {name}!", node=arg)
+    if isinstance(arg, Constant):
+        # the value of a constant is the literal as written
+        if value.startswith("0x"):
+            return bytes.fromhex(value[2:])
+        value = value[1:-1]
+    return decode_string_literal(value)
 
 
 class FunctionCall(BaseNode):
@@ -73,8 +95,8 @@ class Bzero(FunctionCall):
         arg = self.args[0]
         arg.process()
         # Integer literals and some other functions set value to a constant at compile time
-        if hasattr(arg, "value"):
-            self.type = BytesType(arg.value)
+        if getattr(arg, "value", None) is not None:
+            self.type = BytesType(constant_int(arg, self.name))
         else:
             self.type = BytesType()
 
@@ -168,8 +190,9 @@ class ToBytes(FunctionCall):
 
     def process(self) -> None:
         self.args[0].process()
+        self.args[1].process()
         self.expression = self.args[0]
-        size = self.args[1].value
+        size = constant_int(self.args[1], self.name)
         self.type = BytesType(size)
         if not isinstance(self.expression.type, (IntType, BigIntType)):
             raise CompileError(
@@ -446,7 +469,8 @@ class Rpad(FunctionCall):
     def process(self) -> None:
         self.args[0].process()
         self.expression = self.args[0]
-        self.size = self.args[1].value
+        self.args[1].process()
+        self.size = constant_int(self.args[1], self.name)
         self.type = BytesType(self.size)
 
         if not isinstance(self.expression.type, (BytesType,)):
@@ -477,7 +501,8 @@ class Lpad(FunctionCall):
     def process(self) -> None:
         self.args[0].process()
         self.expression = self.args[0]
-        self.size = self.args[1].value
+        self.args[1].process()
+        self.size = constant_int(self.args[1], self.name)
         self.type = BytesType(self.size)
 
         if not isinstance(self.expression.type, (BytesType,)):
-- 
2.43.0


From 7db9d782b7ab541c39f9d80a33ce2263829b6910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:34 +0000
Subject: [PATCH 31/71] fix: accept constants for Address and ARC28Event and
 refuse anything else that is not constant bytes

---
 tealish/stdlib.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/tealish/stdlib.py b/tealish/stdlib.py
index eca11b7..f23db64 100644
--- a/tealish/stdlib.py
+++ b/tealish/stdlib.py
@@ -1,4 +1,5 @@
 from typing import List, Optional, Union
+from algosdk.encoding import is_valid_address
 from Cryptodome.Hash import SHA512
 from tealish import TealWriter
 from tealish.base import BaseNode
@@ -549,19 +550,24 @@ class Address(FunctionCall):
     def process(self) -> None:
         for arg in self.args:
             arg.process()
+        self.address = constant_bytes(self.args[0], self.name).decode(errors="replace")
+        if not is_valid_address(self.address):
+            raise CompileError(f'Invalid address "{self.address}"', node=self)
         self.type = BytesType()
 
     def write_teal(self, writer: "TealWriter") -> None:
-        value = self.args[0].value
-        writer.write(self, f"addr {value}")
+        writer.write(self, f"addr {self.address}")
 
 
 class ARC28Event(FunctionCall):
     name = "ARC28Event"
 
     def process(self) -> None:
-        self.signature = self.args[0].value
-        self.prefix = SHA512.new(self.signature.encode(), truncate="256").hexdigest()[:8]  # 4 bytes, 8 chars of hex
+        self.args[0].process()
+        signature = constant_bytes(self.args[0], self.name)
+        # only shown in a comment so it must not contain any newlines
+        self.signature = signature.decode("latin-1").encode("unicode_escape").decode()
+        self.prefix = SHA512.new(signature, truncate="256").hexdigest()[:8]  # 4 bytes, 8 chars of hex
         for arg in self.args[1:]:
             arg.process()
         self.type = BytesType()
-- 
2.43.0


From 9ec517d9b50e9e69ebfd37c96f61ca5e31e142b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:54 +0000
Subject: [PATCH 32/71] fix: refuse integers of more than 64 bits and leading
 zeros being taken for octal

---
 tealish/expression_nodes.py | 2 ++
 tealish/nodes.py            | 8 ++++++++
 2 files changed, 10 insertions(+)

diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index 2544b3c..445ec85 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -25,6 +25,8 @@ if TYPE_CHECKING:
 class Integer(BaseNode):
     def __init__(self, value: str, parent: Optional[BaseNode] = None) -> None:
         self.value = int(value)
+        if self.value.bit_length() > 64:
+            raise CompileError(f"Integer {value} is too large", node=parent)
         size = max(1, (((self.value).bit_length() - 1) // 8) + 1)
         self.type = UIntType(size)
         self.parent = parent
diff --git a/tealish/nodes.py b/tealish/nodes.py
index a6e2ba4..2853e13 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -32,6 +32,7 @@ from .types import (
 from .scope import Scope
 from .utils import decode_string_literal
 
+MAX_UINT64 = 2**64 - 1
 LITERAL_INT = r"[0-9]+"
 LITERAL_BYTE_STRING = r'"((?:[^"\\]|\\.)+)"'
 LITERAL_BYTE_HEX = r"0x([a-fA-F0-9]+)"
@@ -164,6 +165,13 @@ class LiteralInt(Literal):
     pattern = r"(?P<value>[0-9]+)$"
     value: int
 
+    def __init__(self, *args, **kwargs) -> None:
+        super().__init__(*args, **kwargs)
+        # TEAL would take leading zeros for an octal number
+        self.value = int(self.value)
+        if self.value > MAX_UINT64:
+            raise ParseError(f"Integer {self.value} is too large")
+
     def type(self) -> UIntType:
         return UIntType()
 
-- 
2.43.0


From 186e55f1b6816ca49abecc6be2a1f726cb36302f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:47 +0000
Subject: [PATCH 33/71] fix: give constants their own scope and refuse
 redefinitions in the same scope

---
 tealish/__init__.py         |  2 ++
 tealish/base.py             | 31 ++++++++++++++-----------------
 tealish/expression_nodes.py |  8 ++++----
 tealish/nodes.py            | 15 ++++++++++++++-
 tealish/scope.py            | 11 ++++++-----
 5 files changed, 40 insertions(+), 27 deletions(-)

diff --git a/tealish/__init__.py b/tealish/__init__.py
index 5faf01a..bf6e671 100644
--- a/tealish/__init__.py
+++ b/tealish/__init__.py
@@ -89,6 +89,8 @@ class TealishCompiler:
         self.max_slot = 0
         # slots used by variables of functions
         self.func_slots: Set[int] = set()
+        # names of all const statements of the program
+        self.const_names: List[str] = []
         self.writer = TealWriter()
         self.processed = False
         self.line_nodes = {}
diff --git a/tealish/base.py b/tealish/base.py
index eedec40..a2901ae 100644
--- a/tealish/base.py
+++ b/tealish/base.py
@@ -76,32 +76,29 @@ class BaseNode:
 
     def declare_scratch_var(self, name: str, type_name: str) -> Var:
         scope = self.get_current_scope()
-        # TODO: this fixed the issue of slot assignment in the `main`
-        # but i'm not sure why...
-        scope.update(self.get_scope())
-
-        max_slot: Optional[int] = None
-        in_func = "func__" in scope.name
-        func_slots = self.compiler.func_slots  # type: ignore
-
-        if in_func:
-            # If this var is declared in a function then use the global max slot + 1
-            # This is to prevent functions using overlapping slots
-            max_slot = self.compiler.max_slot + 1  # type: ignore
+        visible = self.get_scope()
+        if name in visible.slots:
+            raise CompileError(f'Redefinition of variable "{name}"', node=self)
 
         try:
             type = get_type_instance(type_name)
         except KeyError:
             raise CompileError(f'Unknown type "{type_name}"', node=self)
 
+        in_func = "func__" in scope.name
+        func_slots = self.compiler.func_slots  # type: ignore
         try:
-            var = scope.declare_scratch_var(
-                name, type, max_slot=max_slot, reserved_slots=func_slots
-            )
+            if in_func:
+                # If this var is declared in a function then use the global max slot + 1
+                # This is to prevent functions using overlapping slots
+                slot = self.compiler.max_slot + 1  # type: ignore
+            else:
+                slot = visible.find_slot(func_slots)
+            var = scope.declare_scratch_var(name, type, max_slot=slot)
         except ValueError as e:
             raise CompileError(str(e), node=self)
         if in_func:
-            func_slots.add(var.scratch_slot)
+            func_slots.add(slot)
 
         # Update max_slot on compiler
         self.compiler.max_slot = max(self.compiler.max_slot, var.scratch_slot)  # type: ignore
@@ -167,7 +164,7 @@ class BaseNode:
     def lookup_var(self, name: str) -> Var:
         return self.get_scope().lookup_var(name)
 
-    def lookup_const(self, name: str) -> Tuple["TealishType", ConstValue]:
+    def lookup_const(self, name: str) -> Tuple["TealishType", ConstValue, str]:
         return self.get_scope().lookup_const(name)
 
     def lookup_avm_constant(self, name: str) -> Tuple["TealishType", Any]:
diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index 445ec85..86bcec0 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -85,7 +85,7 @@ class Constant(BaseNode):
         type, value = None, None
         try:
             # user defined const
-            type, value = self.lookup_const(self.name)
+            type, value, self.teal_value = self.lookup_const(self.name)
         except KeyError:
             raise CompileError(
                 f'Constant "{self.name}" not declared in scope', node=self
@@ -98,9 +98,9 @@ class Constant(BaseNode):
 
     def write_teal(self, writer: "TealWriter") -> None:
         if isinstance(self.type, IntType):
-            writer.write(self, f"pushint {self.name} // {self.value}")  # type: ignore
+            writer.write(self, f"pushint {self.teal_value} // {self.value}")  # type: ignore
         elif isinstance(self.type, BytesType):
-            writer.write(self, f"pushbytes {self.name} // {self.value}")  # type: ignore
+            writer.write(self, f"pushbytes {self.teal_value} // {self.value}")  # type: ignore
         else:
             raise CompileError(f"Unexpected const type {self.type}", node=self)
 
@@ -300,7 +300,7 @@ class OpCall(BaseNode):
         for i, x in enumerate(immediates):
             x.process()
             if isinstance(x, Constant):
-                immediates[i] = x.name
+                immediates[i] = x.teal_value
             elif isinstance(x, Enum):
                 immediates[i] = x.name
             elif hasattr(x, "value") and isinstance(x.type, IntType):
diff --git a/tealish/nodes.py b/tealish/nodes.py
index 2853e13..40b8149 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -465,6 +465,10 @@ class Const(LineStatement):
     name: str
     literal: Literal
 
+    def __init__(self, *args, **kwargs) -> None:
+        super().__init__(*args, **kwargs)
+        self.compiler.const_names.append(self.name)
+
     def process(self) -> None:
         scope = self.get_current_scope()
         try:
@@ -476,7 +480,16 @@ class Const(LineStatement):
                 f"Incorrect type {self.literal.type()} for const {tealish_type}",
                 node=self,
             )
-        scope.declare_const(self.name, (self.literal.type(), self.literal.value))
+        # #define is not scoped so refer to the value if the name has several meanings
+        value = self.literal.value
+        unique = self.compiler.const_names.count(self.name) == 1
+        try:
+            scope.declare_const(
+                self.name,
+                (self.literal.type(), value, self.name if unique else str(value)),
+            )
+        except ValueError as e:
+            raise CompileError(str(e), node=self)
 
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, f"#define {self.name} {self.literal.value}")
diff --git a/tealish/scope.py b/tealish/scope.py
index 120e651..04b4285 100644
--- a/tealish/scope.py
+++ b/tealish/scope.py
@@ -24,7 +24,7 @@ class Scope:
             slot_range if slot_range is not None else (0, 200)
         )
 
-        self.consts: Dict[str, Tuple["TealishType", "ConstValue"]] = {}
+        self.consts: Dict[str, Tuple["TealishType", "ConstValue", str]] = {}
         self.blocks: Dict[str, "Block"] = {}
         self.functions: Dict[str, "Func"] = {}
 
@@ -44,12 +44,11 @@ class Scope:
         name: str,
         type: "TealishType",
         max_slot: Optional[int] = None,
-        reserved_slots: Iterable[int] = (),
     ) -> Var:
         if name in self.slots:
             raise ValueError(f'Redefinition of variable "{name}"')
         if max_slot is None:
-            max_slot = self.find_slot(reserved_slots)
+            max_slot = self.find_slot()
         elif max_slot > MAX_SLOT:
             raise ValueError("No available slots!")
 
@@ -69,11 +68,13 @@ class Scope:
             del self.slots[name]
 
     def declare_const(
-        self, name: str, const_data: Tuple["TealishType", "ConstValue"]
+        self, name: str, const_data: Tuple["TealishType", "ConstValue", str]
     ) -> None:
+        if name in self.consts:
+            raise ValueError(f'Redefinition of const "{name}"')
         self.consts[name] = const_data
 
-    def lookup_const(self, name: str) -> Tuple["TealishType", "ConstValue"]:
+    def lookup_const(self, name: str) -> Tuple["TealishType", "ConstValue", str]:
         if name not in self.consts:
             raise KeyError(f'Const "{name}" not declared in current scope')
         return self.consts[name]
-- 
2.43.0


From b863aa4a78422b43408d98133a6c9e31aa869010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:09 +0000
Subject: [PATCH 34/71] fix: refuse struct fields without a fixed size, with
 the same name or followed by other text

---
 tealish/nodes.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 40b8149..8e02796 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1864,7 +1864,7 @@ class DecoratedFunc(InlineStatement):
 class StructFieldDefinition(InlineStatement):
     pattern = (
         r"(?P<field_name>[a-z][A-Z-a-z0-9_]*): "
-        + r"(?P<data_type>[a-zA-Z][A-Z-a-z0-9_]+(\[\d+\])?)"
+        + r"(?P<data_type>[a-zA-Z][A-Z-a-z0-9_]+(\[\d+\])?)$"
     )
     field_name: str
     data_type: str
@@ -1930,6 +1930,14 @@ class StructDefinition(InlineStatement):
                 raise ParseError(
                     f'Unknown type "{field_node.data_type}" at line {field_node.line_no}!'
                 )
+            if not field_type.size:
+                raise ParseError(
+                    f'Struct field type "{field_node.data_type}" has no fixed size at line {field_node.line_no}!'
+                )
+            if field_node.field_name in node.struct.fields:
+                raise ParseError(
+                    f'Duplicate struct field "{field_node.field_name}" at line {field_node.line_no}!'
+                )
             node.struct.add_field(field_node.field_name, field_type)
         define_struct(node.struct)
 
-- 
2.43.0


From fa076787583b34a96344f399819878f423ce8638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:32 +0000
Subject: [PATCH 35/71] fix: address struct fields beyond the range of
 immediate arguments

---
 tealish/expression_nodes.py | 10 ++++++----
 tealish/nodes.py            |  9 ++++++---
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index 86bcec0..5d6cf1e 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -621,10 +621,12 @@ class StructOrBoxField(BaseNode):
     def write_teal(self, writer: "TealWriter") -> None:
         teal = ""
         if isinstance(self.object_type, StructType):
-            teal = [
-                f"load {self.var.scratch_slot}",
-                f"extract {self.offset} {self.size}",
-            ]
+            teal = [f"load {self.var.scratch_slot}"]
+            if self.offset <= 255 and self.size <= 255:
+                teal.append(f"extract {self.offset} {self.size}")
+            else:
+                # the values do not fit in immediate arguments
+                teal += [f"pushint {self.offset}", f"pushint {self.size}", "extract3"]
         elif isinstance(self.object_type, BoxType):
             teal = [
                 f"load {self.var.scratch_slot}",
diff --git a/tealish/nodes.py b/tealish/nodes.py
index 8e02796..73a6c3c 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -2014,10 +2014,13 @@ class StructOrBoxAssignment(LineStatement):
                         f"extract {8 - self.data_type.size} {self.data_type.size}"
                     )
             # struct setter one liner
+            teal += [f"load {self.var.scratch_slot}", "swap"]
+            if self.offset <= 255:
+                teal.append(f"replace {self.offset}")
+            else:
+                # the offset does not fit in an immediate argument
+                teal += [f"pushint {self.offset}", "swap", "replace3"]
             teal += [
-                f"load {self.var.scratch_slot}",
-                "swap",
-                f"replace {self.offset}",
                 f"store {self.var.scratch_slot}",
                 f"// set {self.name.value}.{self.field_name}",
             ]
-- 
2.43.0


From b33baec28be1a4cbbc13907bbcaf8f31ed82ad77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:48 +0000
Subject: [PATCH 36/71] fix: do not confuse box references with byte strings of
 the size of the struct

---
 tealish/types.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tealish/types.py b/tealish/types.py
index 1bdc8f6..8cab2b8 100644
--- a/tealish/types.py
+++ b/tealish/types.py
@@ -182,7 +182,11 @@ class BoxType(BytesType):
         self.struct_name = struct_name
         self.struct = get_struct(struct_name)
         self.fields = self.struct.fields
-        self.size = self.struct.size
+        # the value of a reference is the key of the box, which has no fixed size
+        self.size = 0
+
+    def can_hold(self, other):
+        return isinstance(other, BoxType) and other.struct_name == self.struct_name
 
 
 class ArrayType(BytesType):
-- 
2.43.0


From c8f61a9ffbd9f52e5abcc69b7b0b4add278807d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:43 +0000
Subject: [PATCH 37/71] fix: do not take the start of a builtin name for a
 constant

---
 tealish/tealish_expressions.tx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tealish/tealish_expressions.tx b/tealish/tealish_expressions.tx
index 55f031a..80cb21e 100644
--- a/tealish/tealish_expressions.tx
+++ b/tealish/tealish_expressions.tx
@@ -35,7 +35,7 @@ GlobalField: 'Global.' field=FieldName;
 StructOrBoxField: name=Name '.' field=Name;
 Value: StdLibFunctionCall | FunctionCall | Field | StructOrBoxField | UnaryOp | Group | Integer | Bytes | Constant | Enum | Variable;
 Variable: name=Name;
-Constant: name=/([A-Z][A-Z_0-9]+)/;
+Constant: name=/([A-Z][A-Z_0-9]+)\b/;
 Enum: name=/([A-Z][A-Za-z_0-9]+)/;
 Name: (/([a-z][A-Za-z_0-9]*)(\[[0-9]+\])?/ | /_/);
 StdLibFunctionName: /([A-Z][A-Za-z_0-9]+)/;
-- 
2.43.0


From 0a7176ce1b57212d63a719a24e7034f7d6579626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:58 +0000
Subject: [PATCH 38/71] fix: minify and strip TEAL by tokens instead of by
 substrings

---
 tealish/utils.py | 81 ++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 71 insertions(+), 10 deletions(-)

diff --git a/tealish/utils.py b/tealish/utils.py
index 565997c..723969a 100644
--- a/tealish/utils.py
+++ b/tealish/utils.py
@@ -39,6 +39,68 @@ def decode_string_literal(value: str) -> bytes:
     return output
 
 
+def tokenize_teal(line: str) -> List[Tuple[int, str]]:
+    """The tokens of a line of TEAL with their positions, without any comment"""
+    tokens: List[Tuple[int, str]] = []
+    start = 0
+    in_string = False
+    in_base64 = False
+
+    def end_token(end: int) -> None:
+        if start < end:
+            tokens.append((start, line[start:end]))
+
+    i = 0
+    while i < len(line):
+        c = line[i]
+        if in_string:
+            if c == "\\":
+                i += 1
+            elif c == '"':
+                in_string = False
+        elif c == '"' and start == i:
+            in_string = True
+        elif c == "/" and line.startswith("//", i) and not in_base64:
+            end_token(i)
+            return tokens
+        elif c == "(" and line[start:i] in ("base64", "b64"):
+            in_base64 = True
+        elif c == ")":
+            in_base64 = False
+        elif c == ";":
+            end_token(i)
+            tokens.append((i, c))
+            in_base64 = False
+            start = i + 1
+        elif c.isspace():
+            end_token(i)
+            if start < i:
+                in_base64 = line[start:i] in ("base64", "b64")
+            start = i + 1
+        i += 1
+    end_token(len(line))
+    return tokens
+
+
+def replace_branch_targets(line: str, replacements: Dict[str, str]) -> str:
+    output = line
+    op = None
+    # from the end so that the positions of the remaining tokens do not change
+    edits: List[Tuple[int, str]] = []
+    for position, token in tokenize_teal(line):
+        if token == ";" or (op is None and token.endswith(":")):
+            op = None
+        elif op is None:
+            op = token
+        elif op in ("b", "bz", "bnz", "callsub", "switch", "match"):
+            if token in replacements:
+                edits.append((position, token))
+    for position, token in reversed(edits):
+        end = position + len(token)
+        output = output[:position] + replacements[token] + output[end:]
+    return output
+
+
 def minify_teal(teal_lines: List[str]) -> Tuple[List[str], Dict[int, int]]:
     source_map: Dict[int, int] = {}
     n = 1
@@ -49,9 +111,10 @@ def minify_teal(teal_lines: List[str]) -> Tuple[List[str], Dict[int, int]]:
     for i, line in enumerate(teal_lines):
         i = i + 1
         line = line.strip()
-        if not (not line or line.startswith("//")):
-            if line.split("//")[0].strip().endswith(":"):
-                label = line.split("//")[0].strip()[:-1]
+        tokens = [token for _, token in tokenize_teal(line)]
+        if tokens:
+            if len(tokens) == 1 and tokens[0].endswith(":"):
+                label = tokens[0][:-1]
                 # duplicate labels get compressed into 1
                 if previous_line_is_label:
                     label_replacements[label] = previous_label
@@ -64,10 +127,7 @@ def minify_teal(teal_lines: List[str]) -> Tuple[List[str], Dict[int, int]]:
             n += 1
             output.append(line)
     source_map[n] = len(teal_lines) - 1
-    for i, line in enumerate(output):
-        for k in label_replacements:
-            if k in line:
-                output[i] = line.replace(k, label_replacements[k])
+    output = [replace_branch_targets(line, label_replacements) for line in output]
     return output, source_map
 
 
@@ -75,9 +135,10 @@ def strip_comments(teal_lines: List[str]) -> List[str]:
     output: List[str] = []
     for line in teal_lines:
         line = line.strip()
-        if not (not line or line.startswith("//")):
-            line = line.split("//")[0].strip()
-            output.append(line)
+        tokens = tokenize_teal(line)
+        if tokens:
+            position, token = tokens[-1]
+            output.append(line[: position + len(token)])
     return output
 
 
-- 
2.43.0


From f74e656da95c0053567a44ca618fe1c8eba17e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:10 +0000
Subject: [PATCH 39/71] fix: keep structs per program and start over when a
 compiler is used again

---
 tealish/__init__.py | 17 +++++++++++++++--
 tealish/nodes.py    |  4 ++++
 tealish/types.py    | 13 +++++++++----
 3 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/tealish/__init__.py b/tealish/__init__.py
index bf6e671..d066e53 100644
--- a/tealish/__init__.py
+++ b/tealish/__init__.py
@@ -4,7 +4,7 @@ from .base import BaseNode
 from .errors import CompileError, ParseError
 from .nodes import Node, Program
 from .utils import TealishMap, find_unquoted
-from .types import _structs
+from .types import StructType, use_structs
 
 
 class TealWriter:
@@ -78,6 +78,9 @@ class OneLineTealWriter:
 class TealishCompiler:
     def __init__(self, source_lines: List[str]) -> None:
         self.source_lines = source_lines
+        self.reset()
+
+    def reset(self) -> None:
         self.output: List[str] = []
         self.source_map: Dict[int, int] = {}
         self.current_output_line = 1
@@ -95,6 +98,7 @@ class TealishCompiler:
         self.processed = False
         self.line_nodes = {}
         self.use_inner_txns_macro = None
+        self.structs: Dict[str, StructType] = {}
 
     def at_end(self) -> bool:
         return self.line_no == len(self.source_lines)
@@ -127,19 +131,27 @@ class TealishCompiler:
             self.current_output_line += 1
 
     def parse(self) -> None:
+        # start over so that nothing of previous (failed) calls is left
+        self.reset()
+        use_structs(self.structs)
         node = Program.consume(self, None)
         self.nodes.append(node)
 
     def process(self) -> None:
+        if self.processed:
+            return
+        use_structs(self.structs)
         for node in self.nodes:
             try:
                 node.process()
             except (CompileError, ParseError):
+                self.nodes = []
                 raise
             except Exception as e:
                 # report the innermost node that could not be processed
                 trace = [frame.frame.f_locals.get("self") for frame in inspect.trace()]
                 node = [n for n in trace if isinstance(n, BaseNode)][-1]
+                self.nodes = []
                 raise CompileError(f"{type(e).__name__}: {e}", node=node) from e
         self.processed = True
 
@@ -148,6 +160,7 @@ class TealishCompiler:
             self.parse()
         if not self.processed:
             self.process()
+        self.writer = TealWriter()
         for node in self.nodes:
             node.write_teal(self.writer)
         self.source_map = self.writer.source_map
@@ -168,7 +181,7 @@ class TealishCompiler:
         return map
 
     def get_structs(self):
-        return dict(_structs)
+        return dict(self.structs)
 
 
 def compile_program(source: str) -> Tuple[List[str], TealishMap]:
diff --git a/tealish/nodes.py b/tealish/nodes.py
index 73a6c3c..7b33e1b 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1908,6 +1908,10 @@ class StructDefinition(InlineStatement):
                 + "StructDefinition definitions should be at the top of the file "
                 + "and only be preceeded by comments."
             )
+        if node.name in compiler.structs:
+            raise ParseError(
+                f'Redefinition of struct "{node.name}" at line {node.line_no}!'
+            )
         while True:
             if compiler.peek() == "end":
                 compiler.consume_line()
diff --git a/tealish/types.py b/tealish/types.py
index 8cab2b8..dcc6c7a 100644
--- a/tealish/types.py
+++ b/tealish/types.py
@@ -1,10 +1,11 @@
+from contextvars import ContextVar
 from enum import Enum
 import re
 from typing import Dict
 
 
-# Set of custom defined types
-_structs: Dict[str, "StructType"] = {}
+# Custom defined types of the program being compiled
+_structs: ContextVar[Dict[str, "StructType"]] = ContextVar("structs")
 
 
 class AVMType(str, Enum):
@@ -198,12 +199,16 @@ class ArrayType(BytesType):
         super().__init__(length * type.size)
 
 
+def use_structs(structs: Dict[str, StructType]) -> None:
+    _structs.set(structs)
+
+
 def define_struct(struct: StructType) -> None:
-    _structs[struct.name] = struct
+    _structs.get()[struct.name] = struct
 
 
 def get_struct(struct_name: str) -> StructType:
-    return _structs[struct_name]
+    return _structs.get()[struct_name]
 
 
 def get_type_instance(type_name):
-- 
2.43.0


From cd0a5045175ca0f2154351e3694a411476c62102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:34 +0000
Subject: [PATCH 40/71] fix: make source maps lead from assembler lines and
 from source lines

---
 tealish/__init__.py | 7 +++----
 tealish/utils.py    | 3 ++-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/tealish/__init__.py b/tealish/__init__.py
index d066e53..a9e9330 100644
--- a/tealish/__init__.py
+++ b/tealish/__init__.py
@@ -175,10 +175,9 @@ class TealishCompiler:
         return self.nodes[0].tealish()
 
     def get_map(self) -> TealishMap:
-        map = TealishMap()
-        map.teal_tealish = dict(self.source_map)
-        map.errors = dict(self.error_messages)
-        return map
+        return TealishMap(
+            {"teal_tealish": self.source_map, "errors": self.error_messages}
+        )
 
     def get_structs(self):
         return dict(self.structs)
diff --git a/tealish/utils.py b/tealish/utils.py
index 723969a..4fc72fd 100644
--- a/tealish/utils.py
+++ b/tealish/utils.py
@@ -184,7 +184,8 @@ class TealishMap:
     ) -> None:
         if not isinstance(sourcemap, SourceMap):
             sourcemap = SourceMap(sourcemap)
-        self.pc_teal = dict(sourcemap.pc_to_line)
+        # lines of the assembler are counted from 0
+        self.pc_teal = {pc: line + 1 for pc, line in sourcemap.pc_to_line.items()}
 
     def as_dict(self) -> Dict[str, Any]:
         return {
-- 
2.43.0


From 752de5f0d94e0ffa7e1ba21616bc724ec3fda3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:40 +0000
Subject: [PATCH 41/71] fix: decode uint64 arguments of public functions and
 refuse unknown completion actions

---
 tealish/nodes.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 7b33e1b..96aec5f 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -37,6 +37,17 @@ LITERAL_INT = r"[0-9]+"
 LITERAL_BYTE_STRING = r'"((?:[^"\\]|\\.)+)"'
 LITERAL_BYTE_HEX = r"0x([a-fA-F0-9]+)"
 VARIABLE_NAME = r"[a-z_][a-zA-Z0-9_]*"
+# possible values of @public(OnCompletion=...)
+ON_COMPLETIONS = [
+    "NoOp",
+    "OptIn",
+    "CloseOut",
+    "ClearState",
+    "UpdateApplication",
+    "DeleteApplication",
+    "CreateApplication",
+]
+
 
 if TYPE_CHECKING:
     from . import TealishCompiler, TealWriter
@@ -860,9 +871,9 @@ class Route(Node):
             arg_type = get_type_instance(type_name)
             if type_name == "bytes":
                 line = f"Txn.ApplicationArgs[{a}]"
-            elif type_name == "int":
+            elif isinstance(arg_type, IntType) and arg_type.size == 8:
                 line = f"FromBytes(Txn.ApplicationArgs[{a}], {type_name})"
-            elif isinstance(arg_type, IntType) and arg_type.size != 8:
+            elif isinstance(arg_type, IntType):
                 line = f"Cast(btoi(Txn.ApplicationArgs[{a}]), {type_name})"
             elif isinstance(arg_type, BytesType):
                 line = f"Cast(Txn.ApplicationArgs[{a}], {type_name})"
@@ -1823,6 +1834,13 @@ class DecoratedFunc(InlineStatement):
                 self.func.attributes[decorator.name] = {
                     m.groupdict()["key"]: m.groupdict()["value"]
                 }
+            if decorator.name == "public" and decorator.params:
+                # anything else would make the function callable with NoOp
+                completion = self.func.attributes["public"].get("OnCompletion")
+                if completion not in ON_COMPLETIONS:
+                    raise ParseError(
+                        f"Expected OnCompletion={'|'.join(ON_COMPLETIONS)} at line {decorator.line_no}!"
+                    )
         self.add_child(node)
 
     @classmethod
-- 
2.43.0


From e4541b737d07e32b3d8709d003e8c5b09822a873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:59 +0000
Subject: [PATCH 42/71] fix: refuse labels which are not unique and constants
 with builtin names

---
 tealish/__init__.py         | 18 +++++++++++++++++-
 tealish/base.py             |  7 ++++++-
 tealish/nodes.py            |  2 ++
 tealish/tealish_builtins.py | 21 +++++++++++++++++++++
 4 files changed, 46 insertions(+), 2 deletions(-)

diff --git a/tealish/__init__.py b/tealish/__init__.py
index a9e9330..3523410 100644
--- a/tealish/__init__.py
+++ b/tealish/__init__.py
@@ -3,7 +3,7 @@ from typing import List, Dict, Set, Union, Tuple
 from .base import BaseNode
 from .errors import CompileError, ParseError
 from .nodes import Node, Program
-from .utils import TealishMap, find_unquoted
+from .utils import TealishMap, find_unquoted, tokenize_teal
 from .types import StructType, use_structs
 
 
@@ -165,8 +165,24 @@ class TealishCompiler:
             node.write_teal(self.writer)
         self.source_map = self.writer.source_map
         self.output = self.writer.output
+        self.check_labels()
         return self.writer.output
 
+    def check_labels(self) -> None:
+        # labels and macros (const names) share a namespace in TEAL
+        names = set(self.const_names)
+        for i, line in enumerate(self.output):
+            statement_start = True
+            for _, token in tokenize_teal(line):
+                if statement_start and len(token) > 1 and token.endswith(":"):
+                    label = token[:-1]
+                    if label in names:
+                        raise CompileError(
+                            f'Label "{label}" is not unique at line {self.source_map[i + 1]}'
+                        )
+                    names.add(label)
+                statement_start = token == ";"
+
     def reformat(self) -> str:
         if not self.nodes:
             self.parse()
diff --git a/tealish/base.py b/tealish/base.py
index a2901ae..7267b0c 100644
--- a/tealish/base.py
+++ b/tealish/base.py
@@ -1,6 +1,6 @@
 from typing import cast, Any, Dict, List, Optional, Tuple, TYPE_CHECKING
 from tealish.errors import CompileError
-from .tealish_builtins import ConstValue, Var
+from .tealish_builtins import ConstValue, Var, assembler_names
 from .langspec import get_active_langspec, Op
 from .scope import Scope
 from .types import TealishType, get_type_instance
@@ -155,6 +155,11 @@ class BaseNode:
     def get_field_type(self, namespace: str, name: str) -> TealishType:
         return lang_spec.get_field_type(namespace, name)
 
+    def is_assembler_name(self, name: str) -> bool:
+        return name in assembler_names or any(
+            name in op.arg_enum for op in lang_spec.ops.values()
+        )
+
     def lookup_op(self, name: str) -> Op:
         return lang_spec.lookup_op(name)
 
diff --git a/tealish/nodes.py b/tealish/nodes.py
index 96aec5f..eb0bb6d 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -491,6 +491,8 @@ class Const(LineStatement):
                 f"Incorrect type {self.literal.type()} for const {tealish_type}",
                 node=self,
             )
+        if self.is_assembler_name(self.name):
+            raise CompileError(f'"{self.name}" is a builtin name', node=self)
         # #define is not scoped so refer to the value if the name has several meanings
         value = self.literal.value
         unique = self.compiler.const_names.count(self.name) == 1
diff --git a/tealish/tealish_builtins.py b/tealish/tealish_builtins.py
index d265174..5340dd9 100644
--- a/tealish/tealish_builtins.py
+++ b/tealish/tealish_builtins.py
@@ -56,3 +56,24 @@ constants: Dict[str, Tuple[TealishType, ConstValue]] = {
     "Afrz": (IntType(), 5),
     "Appl": (IntType(), 6),
 }
+
+# names which the assembler does not allow to be redefined
+# (in addition to the names of immediate arguments in the langspec)
+assembler_names = [
+    "NoOp",
+    "OptIn",
+    "CloseOut",
+    "ClearState",
+    "UpdateApplication",
+    "DeleteApplication",
+    "BlkSeed",
+    "BlkTimestamp",
+    "JSONObject",
+    "JSONString",
+    "JSONUint64",
+    "Secp256k1",
+    "Secp256r1",
+    "StdEncoding",
+    "URLEncoding",
+    "VrfAlgorand",
+]
-- 
2.43.0


From 04664c607f97052f2d20a4efb65c9ee5c8320645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:11 +0000
Subject: [PATCH 43/71] fix: refuse transaction fields, array indices and inner
 transaction fields which do not exist

---
 tealish/base.py             |  3 +++
 tealish/expression_nodes.py | 18 ++++++++++++++++++
 tealish/langspec.py         |  3 +++
 tealish/nodes.py            |  4 ++++
 4 files changed, 28 insertions(+)

diff --git a/tealish/base.py b/tealish/base.py
index 7267b0c..b4a75fe 100644
--- a/tealish/base.py
+++ b/tealish/base.py
@@ -160,6 +160,9 @@ class BaseNode:
             name in op.arg_enum for op in lang_spec.ops.values()
         )
 
+    def is_array_field(self, name: str) -> bool:
+        return name in lang_spec.txn_array_fields
+
     def lookup_op(self, name: str) -> Op:
         return lang_spec.lookup_op(name)
 
diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index 5d6cf1e..5208b6a 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -22,6 +22,18 @@ if TYPE_CHECKING:
     from .nodes import Node, Func, GenericExpression
 
 
+def check_txn_field(
+    node: BaseNode, field: str, array_index: Optional["Node"] = None
+) -> None:
+    if node.is_array_field(field) and array_index is None:
+        raise CompileError(f"Expected an array index for {field}", node=node)
+    if not node.is_array_field(field) and array_index is not None:
+        raise CompileError(f"Unexpected array index for {field}", node=node)
+    # literals are used as immediate arguments
+    if isinstance(array_index, Integer) and array_index.value > 255:
+        raise CompileError("Array index > 255", node=node)
+
+
 class Integer(BaseNode):
     def __init__(self, value: str, parent: Optional[BaseNode] = None) -> None:
         self.value = int(value)
@@ -389,6 +401,7 @@ class TxnField(BaseNode):
 
     def process(self) -> None:
         self.type = self.get_field_type("txn", self.field)
+        check_txn_field(self, self.field)
 
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, f"txn {self.field}")
@@ -411,6 +424,7 @@ class TxnArrayField(BaseNode):
 
     def process(self) -> None:
         self.type = self.get_field_type("txn", self.field)
+        check_txn_field(self, self.field, self.arrayIndex)
         if not isinstance(self.arrayIndex, Integer):
             # index is an expression that needs to be evaluated
             self.arrayIndex.process()
@@ -438,6 +452,7 @@ class GroupTxnField(BaseNode):
 
     def process(self) -> None:
         self.type = self.get_field_type("gtxn", self.field)
+        check_txn_field(self, self.field)
         if not isinstance(self.index, Integer):
             # index is an expression that needs to be evaluated
             self.index.process()
@@ -474,6 +489,7 @@ class GroupTxnArrayField(BaseNode):
 
     def process(self) -> None:
         self.type = self.get_field_type("gtxn", self.field)
+        check_txn_field(self, self.field, self.arrayIndex)
         if not isinstance(self.index, Integer):
             # index is an expression that needs to be evaluated
             self.index.process()
@@ -564,6 +580,7 @@ class InnerTxnField(BaseNode):
 
     def process(self) -> None:
         self.type = self.get_field_type("txn", self.field)
+        check_txn_field(self, self.field)
 
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, f"itxn {self.field}")
@@ -586,6 +603,7 @@ class InnerTxnArrayField(BaseNode):
 
     def process(self) -> None:
         self.type = self.get_field_type("txn", self.field)
+        check_txn_field(self, self.field, self.arrayIndex)
         if not isinstance(self.arrayIndex, Integer):
             # index is an expression that needs to be evaluated
             self.arrayIndex.process()
diff --git a/tealish/langspec.py b/tealish/langspec.py
index 45c0c3c..3e6b2a9 100644
--- a/tealish/langspec.py
+++ b/tealish/langspec.py
@@ -224,6 +224,9 @@ class LangSpec:
 
         self.global_fields: Dict[str, TealishType] = self.fields["Global"]
         self.txn_fields: Dict[str, TealishType] = self.fields["Txn"]
+        self.txn_array_fields: List[str] = (
+            self.ops["txna"].arg_enum if "txna" in self.ops else []
+        )
 
     def as_dict(self) -> Dict[str, Any]:
         return self.spec
diff --git a/tealish/nodes.py b/tealish/nodes.py
index eb0bb6d..0063d05 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1067,6 +1067,10 @@ class InnerTxn(InlineStatement):
         self.array_fields: Dict[str, List[InnerTxnFieldSetter]] = defaultdict(list)
         for node in self.child_nodes:
             node = cast(InnerTxnFieldSetter, node)
+            if node.field_name not in self.lookup_op("itxn_field").arg_enum:
+                raise CompileError(
+                    f'Unknown inner transaction field "{node.field_name}"', node=node
+                )
             if node.index is not None:
                 index = int(node.index)
                 n = len(self.array_fields[node.field_name])
-- 
2.43.0


From f93797148c254edc005a71b113b3c55ec865db13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:17 +0000
Subject: [PATCH 44/71] fix: check the immediate arguments of opcodes and know
 all of their names

---
 tealish/expression_nodes.py | 27 +++++++++++++++++++++++++++
 tealish/langspec.py         | 37 +++++++++++++++++++++++++++++++++++--
 tealish/tealish_builtins.py | 10 ----------
 3 files changed, 62 insertions(+), 12 deletions(-)

diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index 5208b6a..266d4bd 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -309,8 +309,14 @@ class OpCall(BaseNode):
         for i, arg in enumerate(self.args):
             arg.process()
         self.check_arg_types(self.name, self.args)
+        if any(kind not in ("uint8", "int8", "string") for kind, _ in op.immediate_notes):
+            raise CompileError(
+                f"The immediate arguments of {op.name} are not supported", node=self
+            )
         for i, x in enumerate(immediates):
             x.process()
+            if op.immediate_notes:
+                self.check_immediate(op, i, x)
             if isinstance(x, Constant):
                 immediates[i] = x.teal_value
             elif isinstance(x, Enum):
@@ -328,6 +334,27 @@ class OpCall(BaseNode):
         returns = op.returns_types
         self.type = returns[0] if len(returns) == 1 else returns
 
+    def check_immediate(self, op: Op, i: int, x: "Node") -> None:
+        kind, note = op.immediate_notes[i]
+        limit = 127 if kind == "int8" else 255
+        if op.arg_enum and not re.search("(group|array) index", note):
+            valid = isinstance(x, Enum) and x.name in op.arg_enum
+            if op.name in ("txn", "gtxn", "gtxns", "itxn", "gitxn"):
+                valid = valid and not self.is_array_field(x.name)
+        elif kind == "string":
+            valid = isinstance(x, (Bytes, Constant)) and isinstance(x.type, BytesType)
+        else:
+            valid = (
+                isinstance(x, (Integer, Constant))
+                and isinstance(x.type, IntType)
+                and int(x.value) <= limit
+            )
+        if not valid:
+            raise CompileError(
+                f"{x.tealish()} is not valid for immediate argument {i} of {op.name}",
+                node=self,
+            )
+
     def write_teal(self, writer: "TealWriter") -> None:
         for arg in self.args:
             writer.write(self, arg)
diff --git a/tealish/langspec.py b/tealish/langspec.py
index 3e6b2a9..54f719c 100644
--- a/tealish/langspec.py
+++ b/tealish/langspec.py
@@ -1,5 +1,6 @@
 import importlib
 import os
+import re
 import requests
 import tealish
 import json
@@ -19,9 +20,33 @@ pseudo_ops = [
         "Size": 2,
         "Args": [],
         "Returns": ["B"],
+        "ImmediateNote": "{string method signature}",
     },
 ]
 
+# names of the immediate arguments of ops without ArgEnum in langspec.json
+ecdsa_curves = ["Secp256k1", "Secp256r1"]
+array_fields = [
+    "ApplicationArgs",
+    "Accounts",
+    "Assets",
+    "Applications",
+    "Logs",
+    "ApprovalProgramPages",
+    "ClearStateProgramPages",
+]
+arg_enums = {
+    "itxnas": array_fields,
+    "gitxnas": array_fields,
+    "ecdsa_verify": ecdsa_curves,
+    "ecdsa_pk_decompress": ecdsa_curves,
+    "ecdsa_pk_recover": ecdsa_curves,
+    "base64_decode": ["URLEncoding", "StdEncoding"],
+    "json_ref": ["JSONString", "JSONUint64", "JSONObject"],
+    "vrf_verify": ["VrfAlgorand"],
+    "block": ["BlkSeed", "BlkTimestamp"],
+}
+
 
 _opcode_type_map = {
     ".": AnyType(),
@@ -118,6 +143,8 @@ class Op:
     size: int
     #: describes the args to be passed as immediate arguments to this op
     immediate_note: str
+    #: encoding and description of each immediate argument
+    immediate_notes: List[Tuple[str, str]]
     #: describes the list of names that can be used as immediate arguments
     arg_enum: List[str]
     #: describes the types returned when each arg enum is used
@@ -163,9 +190,15 @@ class Op:
             self.immediate_note = op_def["ImmediateNote"]
         else:
             self.immediate_note = ""
+        if isinstance(self.immediate_note, str):
+            notes = re.findall(r"{(\w+)([^}]*)}", self.immediate_note)
+        else:
+            # newer versions of langspec.json
+            notes = [(n["Encoding"], n["Comment"]) for n in self.immediate_note]
+        self.immediate_notes = notes
 
-        if "ArgEnum" in op_def:
-            self.arg_enum = op_def["ArgEnum"]
+        if "ArgEnum" in op_def or self.name in arg_enums:
+            self.arg_enum = op_def.get("ArgEnum", arg_enums.get(self.name))
             if "ArgEnumTypes" in op_def:
                 self.arg_enum_types = convert_args_to_types(op_def["ArgEnumTypes"])
             else:
diff --git a/tealish/tealish_builtins.py b/tealish/tealish_builtins.py
index 5340dd9..05b2428 100644
--- a/tealish/tealish_builtins.py
+++ b/tealish/tealish_builtins.py
@@ -66,14 +66,4 @@ assembler_names = [
     "ClearState",
     "UpdateApplication",
     "DeleteApplication",
-    "BlkSeed",
-    "BlkTimestamp",
-    "JSONObject",
-    "JSONString",
-    "JSONUint64",
-    "Secp256k1",
-    "Secp256r1",
-    "StdEncoding",
-    "URLEncoding",
-    "VrfAlgorand",
 ]
-- 
2.43.0


From fd8da9f47039162ff0cc2173edeaa48f44aaaf16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:11 +0000
Subject: [PATCH 45/71] fix: parse nested expressions and assignments in less
 than exponential time

---
 tealish/nodes.py          | 5 ++++-
 tealish/tx_expressions.py | 2 ++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 0063d05..eb9053c 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -639,7 +639,10 @@ class VarDeclaration(LineStatement):
 
 
 class Assignment(LineStatement):
-    pattern = r"(?P<names>([a-z_][a-zA-Z0-9_]*,?\s*)+) = (?P<expression>.*)$"
+    pattern = (
+        r"(?P<names>[a-z_][a-zA-Z0-9_]*(\s*,\s*[a-z_][a-zA-Z0-9_]*)*)\s* = "
+        r"(?P<expression>.*)$"
+    )
     names: str
     name_nodes: List[Name]
     expression: GenericExpression
diff --git a/tealish/tx_expressions.py b/tealish/tx_expressions.py
index edfc4a5..2dac52d 100644
--- a/tealish/tx_expressions.py
+++ b/tealish/tx_expressions.py
@@ -15,6 +15,8 @@ tealish_mm = metamodel_from_file(
     skipws=True,
     ws=" \t",
     debug=False,
+    # the time to parse nested expressions is exponential without memoization
+    memoization=True,
     classes=class_provider,
 )
 
-- 
2.43.0


From 600937463ae78f0c7d28574115f2068b32fc7c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:32 +0000
Subject: [PATCH 46/71] fix: keep immediate arguments, return types, box
 references and comments when formatting

---
 tealish/expression_nodes.py |  5 ++---
 tealish/nodes.py            | 32 +++++++++++++++++---------------
 2 files changed, 19 insertions(+), 18 deletions(-)

diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index 266d4bd..f0988de 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -285,6 +285,7 @@ class OpCall(BaseNode):
     ) -> None:
         self.name = name
         self.args = args
+        self.all_args = args
         self.parent = parent
         self.type: Union[AVMType, List[AVMType]] = AVMType.none
         self.nodes = args
@@ -364,9 +365,7 @@ class OpCall(BaseNode):
             writer.write(self, f"{self.name}")
 
     def _tealish(self) -> str:
-        args = [a.tealish() for a in self.args]
-        if self.immediate_args:
-            args = self.immediate_args.split(", ") + args
+        args = [a.tealish() for a in self.all_args]
         return f"{self.name}({', '.join(args)})"
 
 
diff --git a/tealish/nodes.py b/tealish/nodes.py
index eb9053c..7dccec8 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1025,12 +1025,12 @@ class InnerTxnFieldSetter(InlineStatement):
 
     def _tealish(self) -> str:
         array_index = f"[{self.index}]" if self.index is not None else ""
-        output = f"{self.field_name}{array_index}: {self.expression.tealish()}"
+        output = f"{self.field_name}{array_index}: {self.expression.tealish()}\n"
         return output
 
 
 class InnerTxn(InlineStatement):
-    possible_child_nodes = [InnerTxnFieldSetter]
+    possible_child_nodes = [InnerTxnFieldSetter, Comment]
 
     def __init__(
         self,
@@ -1050,7 +1050,7 @@ class InnerTxn(InlineStatement):
                 compiler.consume_line()
                 break
             elif compiler.peek().startswith("#"):
-                compiler.consume_line()
+                node.add_child(Comment(compiler.consume_line(), node, compiler=compiler))
             else:
                 node.add_child(
                     InnerTxnFieldSetter(
@@ -1069,7 +1069,8 @@ class InnerTxn(InlineStatement):
 
         self.array_fields: Dict[str, List[InnerTxnFieldSetter]] = defaultdict(list)
         for node in self.child_nodes:
-            node = cast(InnerTxnFieldSetter, node)
+            if not isinstance(node, InnerTxnFieldSetter):
+                continue
             if node.field_name not in self.lookup_op("itxn_field").arg_enum:
                 raise CompileError(
                     f'Unknown inner transaction field "{node.field_name}"', node=node
@@ -1120,7 +1121,7 @@ class InnerTxn(InlineStatement):
     def _tealish(self) -> str:
         output = "inner_txn:\n"
         for n in self.child_nodes:
-            output += indent(n.tealish()) + "\n"
+            output += indent(n.tealish())
         output += "end\n"
         return output
 
@@ -1738,9 +1739,9 @@ class Func(InlineStatement):
         writer.level -= 1
 
     def _tealish(self) -> str:
-        returns = (
-            (" " + (", ".join(str(r) for r in self.returns))) if self.returns else ""
-        )
+        returns = self.return_type.replace(",", ", ")
+        if returns:
+            returns = " " + returns
         output = f"func {self.name}({self.args.tealish()}){returns}:\n"
         for n in self.child_nodes:
             output += indent(n.tealish())
@@ -1903,7 +1904,7 @@ class StructFieldDefinition(InlineStatement):
         pass
 
     def _tealish(self) -> str:
-        output = f"{self.field_name}: {self.data_type}"
+        output = f"{self.field_name}: {self.data_type}\n"
         return output
 
 
@@ -1919,7 +1920,7 @@ class StructDefinition(InlineStatement):
     end
     """
 
-    possible_child_nodes = [StructFieldDefinition]
+    possible_child_nodes = [StructFieldDefinition, Comment]
     pattern = r"struct (?P<name>[A-Z][a-zA-Z_0-9]*):$"
     name: str
     struct: StructType
@@ -1944,7 +1945,7 @@ class StructDefinition(InlineStatement):
                 compiler.consume_line()
                 break
             elif compiler.peek().startswith("#"):
-                compiler.consume_line()
+                node.add_child(Comment(compiler.consume_line(), node, compiler=compiler))
             else:
                 node.add_child(
                     StructFieldDefinition(
@@ -1953,8 +1954,9 @@ class StructDefinition(InlineStatement):
                 )
 
         node.struct = StructType(node.name)
-        for field in node.child_nodes:
-            field_node = cast(StructFieldDefinition, field)
+        for field_node in node.child_nodes:
+            if not isinstance(field_node, StructFieldDefinition):
+                continue
             try:
                 field_type = get_type_instance(field_node.data_type)
             except KeyError:
@@ -1984,7 +1986,7 @@ class StructDefinition(InlineStatement):
     def _tealish(self) -> str:
         output = f"struct {self.name}:\n"
         for n in self.child_nodes:
-            output += indent(n.tealish()) + "\n"
+            output += indent(n.tealish())
         output += "end\n"
         return output
 
@@ -2140,7 +2142,7 @@ class BoxDeclaration(LineStatement):
     def _tealish(self):
         s = (
             f"box<{self.struct_name}> {self.name.tealish()} = "
-            f"{self.method}Box({self.key.tealish()})"
+            f"{self.method or ''}Box({self.key.tealish()})"
         )
         return s + "\n"
 
-- 
2.43.0


From 29ebc042586139729f03852f63c9777b7b4aed92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:08 +0000
Subject: [PATCH 47/71] fix: take quotes and escapes in string literals into
 account everywhere

---
 tealish/__init__.py |  2 +-
 tealish/nodes.py    | 17 ++++++++++++-----
 tealish/utils.py    | 16 +++++++++-------
 3 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/tealish/__init__.py b/tealish/__init__.py
index 3523410..142120d 100644
--- a/tealish/__init__.py
+++ b/tealish/__init__.py
@@ -109,7 +109,7 @@ class TealishCompiler:
         line = self.source_lines[self.line_no].strip()
         # strip out inline comments
         if not line.startswith("#"):
-            comment_index = find_unquoted(line, "#")
+            comment_index = find_unquoted(line, "#", quotes="\"'")
             if comment_index >= 0:
                 line = line[:comment_index]
         self.line_no += 1
diff --git a/tealish/nodes.py b/tealish/nodes.py
index 7dccec8..8be8f8a 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -572,7 +572,7 @@ class FunctionCallStatement(LineStatement):
 
 
 class Assert(LineStatement):
-    pattern = r'assert\((?P<arg>.*?)(, "(?P<message>.*?)")?\)$'
+    pattern = r'assert\((?P<arg>.*?)(, "(?P<message>(?:[^"\\]|\\.)*)")?\)$'
     arg: GenericExpression
     message: str
 
@@ -2160,11 +2160,18 @@ def discard_loop_counters(
 
 def split_return_args(s):
     parentheses = 0
-    quotes = False
+    quote = None
+    escaped = False
     for i in range(len(s)):
-        if s[i] == '"':
-            quotes = not quotes
-        if not quotes:
+        if quote and s[i] == "\\":
+            escaped = not escaped
+            continue
+        if quote and s[i] == quote and not escaped:
+            quote = None
+        elif not quote and s[i] in "\"'":
+            quote = s[i]
+        escaped = False
+        if not quote:
             if s[i] == "(":
                 parentheses += 1
             if s[i] == ")":
diff --git a/tealish/utils.py b/tealish/utils.py
index 4fc72fd..1850bce 100644
--- a/tealish/utils.py
+++ b/tealish/utils.py
@@ -3,17 +3,19 @@ from typing import Dict, List, Tuple, Optional, Union, Any
 from algosdk.source_map import SourceMap
 
 
-def find_unquoted(text: str, marker: str) -> int:
-    """Index of the first occurrence of marker outside of "string literals" or -1"""
-    quoted = False
+def find_unquoted(text: str, marker: str, quotes: str = '"') -> int:
+    """Index of the first occurrence of marker outside of string literals or -1"""
+    quote = None
     i = 0
     while i < len(text):
-        if quoted and text[i] == "\\":
+        if quote and text[i] == "\\":
             i += 2
             continue
-        if text[i] == '"':
-            quoted = not quoted
-        elif not quoted and text.startswith(marker, i):
+        if text[i] == quote:
+            quote = None
+        elif not quote and text[i] in quotes:
+            quote = text[i]
+        elif not quote and text.startswith(marker, i):
             return i
         i += 1
     return -1
-- 
2.43.0


From e19c0cef8390490dab8353655382b03370feada1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:59 +0000
Subject: [PATCH 48/71] fix: name the line in every compile error

---
 tealish/nodes.py  | 4 +++-
 tealish/stdlib.py | 9 ++++++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 8be8f8a..dcdfbab 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -2003,7 +2003,9 @@ class StructOrBoxAssignment(LineStatement):
     def process(self) -> None:
         self.var = self.get_var(self.name.value)
         if self.var is None:
-            raise CompileError(f"Could not find struct with name: {self.name.value}")
+            raise CompileError(
+                f"Could not find struct with name: {self.name.value}", node=self
+            )
 
         if not isinstance(self.var.tealish_type, (StructType, BoxType)):
             raise CompileError(
diff --git a/tealish/stdlib.py b/tealish/stdlib.py
index f23db64..d36ea7a 100644
--- a/tealish/stdlib.py
+++ b/tealish/stdlib.py
@@ -237,7 +237,8 @@ class FromBytes(FunctionCall):
 
         if not isinstance(self.expression.type, (BytesType,)):
             raise CompileError(
-                f"Incorrect source type {self.expression.type} for FromBytes. Expected bytes."
+                f"Incorrect source type {self.expression.type} for FromBytes. Expected bytes.",
+                node=self,
             )
         if isinstance(to_type, BytesType) and to_type.size != self.expression.type.size:
             self.expression = BytesSizeAssertionWrapper(self.expression, to_type.size)
@@ -476,7 +477,8 @@ class Rpad(FunctionCall):
 
         if not isinstance(self.expression.type, (BytesType,)):
             raise CompileError(
-                f"Incorrect type {self.expression.type} for Rpad. Expected bytes."
+                f"Incorrect type {self.expression.type} for Rpad. Expected bytes.",
+                node=self,
             )
 
     def write_teal(self, writer: "TealWriter") -> None:
@@ -508,7 +510,8 @@ class Lpad(FunctionCall):
 
         if not isinstance(self.expression.type, (BytesType,)):
             raise CompileError(
-                f"Incorrect type {self.expression.type} for Lpad. Expected bytes."
+                f"Incorrect type {self.expression.type} for Lpad. Expected bytes.",
+                node=self,
             )
 
     def write_teal(self, writer: "TealWriter") -> None:
-- 
2.43.0


From 1ffb3c6162a955ccf2689828f8306ab3426a9053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:42 +0000
Subject: [PATCH 49/71] fix: command line tools leave no partial or foreign
 output when a step fails

---
 tealish/build.py | 28 +++++++++++++----------
 tealish/cli.py   | 59 ++++++++++++++++++++++++++++++++----------------
 2 files changed, 56 insertions(+), 31 deletions(-)

diff --git a/tealish/build.py b/tealish/build.py
index a28d429..5bf3ae8 100644
--- a/tealish/build.py
+++ b/tealish/build.py
@@ -1,24 +1,28 @@
 from base64 import b64decode
 from typing import Tuple
 import json
+import os
 import subprocess
+import tempfile
 from algosdk.v2client.algod import AlgodClient
 from algosdk.source_map import SourceMap
 
 
 def assemble_with_goal(teal: str) -> Tuple[bytes, SourceMap]:
-    tmp_out_filename = "/tmp/out.tok"
-    try:
-        subprocess.check_output(
-            ["goal", "clerk", "compile", "-", "--map", "-o", tmp_out_filename],
-            input=teal.encode(),
-        )
-    except FileNotFoundError:
-        raise Exception("goal not found in path")
-    except subprocess.CalledProcessError as e:
-        raise Exception(e.output)
-    bytecode = open(tmp_out_filename, "rb").read()
-    algod_sourcemap = json.load(open(tmp_out_filename + ".map"))
+    # use a new directory so that the output is never that of another run
+    with tempfile.TemporaryDirectory() as tmp:
+        tmp_out_filename = os.path.join(tmp, "out.tok")
+        try:
+            subprocess.check_output(
+                ["goal", "clerk", "compile", "-", "--map", "-o", tmp_out_filename],
+                input=teal.encode(),
+            )
+        except FileNotFoundError:
+            raise Exception("goal not found in path")
+        except subprocess.CalledProcessError as e:
+            raise Exception(e.output)
+        bytecode = open(tmp_out_filename, "rb").read()
+        algod_sourcemap = json.load(open(tmp_out_filename + ".map"))
     return bytecode, SourceMap(algod_sourcemap)
 
 
diff --git a/tealish/cli.py b/tealish/cli.py
index 12ccefb..169ce52 100644
--- a/tealish/cli.py
+++ b/tealish/cli.py
@@ -1,7 +1,9 @@
 import json
+import os
 import pathlib
+import shutil
 import click
-from typing import List, Optional, Tuple, IO
+from typing import List, Optional, Tuple, IO, Union
 from tealish import compile_program, inspect_program, reformat_program
 from tealish.errors import CompileError, ParseError
 from tealish.langspec import (
@@ -14,6 +16,21 @@ from tealish.build import assemble_with_goal, assemble_with_algod
 from tealish.utils import TealishMap
 
 
+def _write_file(path: pathlib.Path, data: Union[str, bytes]) -> None:
+    """Write the whole file or, if anything fails, leave it as it was"""
+    path = path.resolve()
+    temporary_path = path.with_name(path.name + ".tmp")
+    try:
+        with open(temporary_path, "wb" if isinstance(data, bytes) else "w") as f:
+            f.write(data)
+        if path.exists():
+            shutil.copymode(path, temporary_path)
+        os.replace(temporary_path, path)
+    except BaseException:
+        temporary_path.unlink(missing_ok=True)
+        raise
+
+
 def _build(
     path: pathlib.Path,
     assembler: Optional[str] = None,
@@ -30,7 +47,7 @@ def _build(
         output_path = pathlib.Path(path).parent / "build"
         output_path.mkdir(exist_ok=True)
         filename = pathlib.Path(path).name
-        base_filename = filename.replace(".tl", "")
+        base_filename = filename[:-3] if filename.endswith(".tl") else filename
 
         # Teal
         teal_filename = output_path / f"{base_filename}.teal"
@@ -38,8 +55,7 @@ def _build(
             click.echo(f"Compiling {path} to {teal_filename}")
         teal, tealish_map = _compile_program(open(path).read())
         teal_string = "\n".join(teal + [""])
-        with open(teal_filename, "w") as f:
-            f.write("\n".join(teal + [""]))
+        _write_file(teal_filename, teal_string)
 
         if assembler:
             tok_filename = output_path / f"{base_filename}.teal.tok"
@@ -70,15 +86,18 @@ def _build(
                 raise click.ClickException("Sandbox is not supported yet.")
             else:
                 raise Exception()
-            with open(tok_filename, "wb") as f:
-                f.write(bytecode)
-            # Source Map
             tealish_map.update_from_teal_sourcemap(sourcemap)
             map_filename = output_path / f"{base_filename}.map.json"
+            # never leave the map of another bytecode
+            map_filename.unlink(missing_ok=True)
+            _write_file(tok_filename, bytecode)
+            # Source Map
             if not quiet:
                 click.echo(f"Writing source map to {map_filename}")
-            with open(map_filename, "w") as f:
-                f.write(json.dumps(tealish_map.as_dict()).replace("],", "],\n"))
+            _write_file(
+                map_filename,
+                json.dumps(tealish_map.as_dict()).replace("],", "],\n"),
+            )
 
 
 def _compile_program(source: str) -> Tuple[List[str], TealishMap]:
@@ -137,18 +156,21 @@ def build(
 
 
 @click.command()
-@click.argument("tealish_file", type=click.File("r+"))
+@click.argument(
+    "tealish_file",
+    type=click.Path(
+        exists=True, dir_okay=False, writable=True, path_type=pathlib.Path
+    ),
+)
 @click.pass_context
-def format(ctx: click.Context, tealish_file: IO) -> None:
+def format(ctx: click.Context, tealish_file: pathlib.Path) -> None:
     """Rewrite .tl file using standard tealish style"""
-    input = tealish_file.read()
+    input = tealish_file.read_text()
     try:
         output = reformat_program(input)
-    except ParseError as e:
+    except (ParseError, CompileError) as e:
         raise click.ClickException(str(e))
-    tealish_file.seek(0)
-    tealish_file.write(output)
-    tealish_file.truncate()
+    _write_file(tealish_file, output)
 
 
 @click.command()
@@ -159,7 +181,7 @@ def inspect(ctx: click.Context, tealish_file: IO) -> None:
     input = tealish_file.read()
     try:
         output = inspect_program(input)
-    except ParseError as e:
+    except (ParseError, CompileError) as e:
         raise click.ClickException(str(e))
     print(json.dumps(output, indent=2))
 
@@ -189,8 +211,7 @@ def langspec_fetch(ctx: click.Context, url_or_branch: str) -> None:
     Can be a URL or branch name of go-algorand
     """
     new_langspec = fetch_langspec(url_or_branch)
-    with open("langspec.json", "w") as f:
-        json.dump(new_langspec.as_dict(), f)
+    _write_file(pathlib.Path("langspec.json"), json.dumps(new_langspec.as_dict()))
 
     new_ops = new_langspec.new_ops(packaged_lang_spec)
     if new_ops:
-- 
2.43.0


From 1e4fec66b5cd9fcf37a188522ec61ddf983843ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:42 +0000
Subject: [PATCH 50/71] fix: functions can not assign to variables outside
 their scope

---
 tealish/nodes.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index dcdfbab..27593a7 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -139,6 +139,21 @@ class Node(BaseNode):
     def get_current_scope(self) -> Scope:
         return self.current_scope
 
+    def get_assignable_var(self, name: str) -> Optional[Var]:
+        """Functions can read but not assign to variables of enclosing scopes"""
+        var = self.get_var(name)
+        func = self.find_parent(Func)
+        if var is not None and func is not None:
+            for scope in self.get_scopes():
+                if name in scope.slots:
+                    break
+                if scope is func.get_current_scope():
+                    raise CompileError(
+                        f'Can not assign to variable "{name}" outside of {func.name}',
+                        node=self,
+                    )
+        return var
+
     def new_scope(
         self, name: str = "", slot_range: Optional[Tuple[int, int]] = None
     ) -> None:
@@ -665,7 +680,7 @@ class Assignment(LineStatement):
             if name.value == "_":
                 continue
 
-            var = self.get_var(name.value)
+            var = self.get_assignable_var(name.value)
             if var is None:
                 raise CompileError(
                     f'Var "{name.value}" not declared in current scope', node=self
@@ -2011,6 +2026,8 @@ class StructOrBoxAssignment(LineStatement):
             raise CompileError(
                 f"{self.name.value} is not a struct or Box reference", node=self
             )
+        if isinstance(self.var.tealish_type, StructType):
+            self.get_assignable_var(self.name.value)
         self.object_type = self.var.tealish_type
 
         struct = self.var.tealish_type
-- 
2.43.0


From 431373a645dd864d33d93075aababc84d2c329bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:45 +0000
Subject: [PATCH 51/71] fix: evaluate the expression of a switch once

---
 tealish/nodes.py | 50 +++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 49 insertions(+), 1 deletion(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 27593a7..97e854a 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1,6 +1,7 @@
 import re
 import textwrap
 from typing import (
+    Any,
     get_type_hints,
     List,
     Optional,
@@ -14,6 +15,20 @@ from typing import (
 
 from .base import BaseNode
 from .errors import CompileError, ParseError
+from .expression_nodes import (
+    Bytes,
+    Constant,
+    Enum,
+    GlobalField,
+    GroupTxnArrayField,
+    GroupTxnField,
+    Integer,
+    NegativeGroupIndex,
+    PositiveGroupIndex,
+    TxnArrayField,
+    TxnField,
+    Variable,
+)
 from .tx_expressions import parse_expression
 from .tealish_builtins import Var, constants
 from .types import (
@@ -816,6 +831,7 @@ class Switch(InlineStatement):
         super().__init__(line, parent, compiler)
         self.options: List[SwitchOption] = []
         self.else_: Optional[SwitchElse] = None
+        self.value_var: Optional[Var] = None
 
     def add_option(self, node: SwitchOption) -> None:
         self.options.append(node)
@@ -844,6 +860,11 @@ class Switch(InlineStatement):
 
     def process(self) -> None:
         self.expression.process()
+        if not is_repeatable(self.expression):
+            # evaluate the expression only once, the value is not a variable of the program
+            self.value_var = self.declare_scratch_var(
+                f"switch value {self.line_no}", "int"
+            )
         for node in self.options:
             node.expression.process()
             self.get_block(node.block_name)
@@ -853,8 +874,14 @@ class Switch(InlineStatement):
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, f"// tl:{self.line_no}: {self.line}")
         discard_loop_counters(self, writer)
-        for node in self.options:
+        if self.value_var:
             writer.write(self, self.expression)
+            writer.write(self, f"store {self.value_var.scratch_slot} // switch value")
+        for node in self.options:
+            if self.value_var:
+                writer.write(self, f"load {self.value_var.scratch_slot}")
+            else:
+                writer.write(self, self.expression)
             writer.write(self, node.expression)
             writer.write(self, "==")
             b = self.get_block(node.block_name)
@@ -2166,6 +2193,27 @@ class BoxDeclaration(LineStatement):
         return s + "\n"
 
 
+def is_repeatable(node: Any) -> bool:
+    """Whether an expression can be evaluated again with the same value and no effect."""
+    if isinstance(node, (TxnArrayField, GroupTxnField, GroupTxnArrayField)):
+        indices = [getattr(node, n, None) for n in ("index", "arrayIndex")]
+        return all(i is None or is_repeatable(i) for i in indices)
+    return isinstance(
+        node,
+        (
+            Bytes,
+            Constant,
+            Enum,
+            GlobalField,
+            Integer,
+            NegativeGroupIndex,
+            PositiveGroupIndex,
+            TxnField,
+            Variable,
+        ),
+    )
+
+
 def discard_loop_counters(
     node: Node, writer: "TealWriter", until: Optional[Node] = None
 ) -> None:
-- 
2.43.0


From a1e54db5b3ca8da911816ac25fd65a897147fff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:46 +0000
Subject: [PATCH 52/71] fix: refuse to leave an inner group before its
 transactions are submitted

---
 tealish/nodes.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 97e854a..dc1b503 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -549,6 +549,7 @@ class Jump(LineStatement):
     block_name: str
 
     def process(self) -> None:
+        check_inner_group_is_not_left(self)
         self.get_block(self.block_name)
 
     def write_teal(self, writer: "TealWriter") -> None:
@@ -859,6 +860,7 @@ class Switch(InlineStatement):
         return switch
 
     def process(self) -> None:
+        check_inner_group_is_not_left(self)
         self.expression.process()
         if not is_repeatable(self.expression):
             # evaluate the expression only once, the value is not a variable of the program
@@ -1494,6 +1496,9 @@ class Break(LineStatement):
                 f'"break" should only be used in a while loop! Line {self.line_no}'
             )
 
+    def process(self) -> None:
+        check_inner_group_is_not_left(self, self.parent_loop)
+
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, f"// tl:{self.line_no}: {self.line}")
         discard_loop_counters(self, writer, self.parent_loop)
@@ -1820,6 +1825,7 @@ class Return(LineStatement):
         self.nodes = self.args_expressions[::-1]
 
     def process(self) -> None:
+        check_inner_group_is_not_left(self, self.func)
         for n in self.nodes:
             n.process()
         for i, r in enumerate(self.func.returns):
@@ -2225,6 +2231,15 @@ def discard_loop_counters(
         parent = parent.parent
 
 
+def check_inner_group_is_not_left(node: Node, until: Optional[Node] = None) -> None:
+    """The transactions of an inner group are only submitted at its end."""
+    parent = node.parent
+    while parent is not None and parent is not until:
+        if isinstance(parent, InnerGroup):
+            raise CompileError("Can not jump out of an inner group", node=node)
+        parent = parent.parent
+
+
 def split_return_args(s):
     parentheses = 0
     quote = None
-- 
2.43.0


From 7b9398551b679f00ac558bf150078b509aa5dd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:11 +0000
Subject: [PATCH 53/71] fix: refuse conditions, ranges, indices, exit and field
 values which are not a single value of the right type

---
 tealish/base.py             | 21 ++++++++++++++++++++-
 tealish/expression_nodes.py | 10 +++++-----
 tealish/nodes.py            | 26 ++++++++++++++++----------
 3 files changed, 41 insertions(+), 16 deletions(-)

diff --git a/tealish/base.py b/tealish/base.py
index b4a75fe..d115a54 100644
--- a/tealish/base.py
+++ b/tealish/base.py
@@ -3,7 +3,7 @@ from tealish.errors import CompileError
 from .tealish_builtins import ConstValue, Var, assembler_names
 from .langspec import get_active_langspec, Op
 from .scope import Scope
-from .types import TealishType, get_type_instance
+from .types import AVMType, TealishType, get_type_instance
 
 
 if TYPE_CHECKING:
@@ -152,6 +152,25 @@ class BaseNode:
         except Exception as e:
             raise CompileError(str(e), node=self)  # type: ignore
 
+    def process_int(self, expression: "Node", name: str) -> None:
+        """Process an expression that must have a single value which is an int"""
+        self.process_value(expression, name)
+        avm_type = getattr(expression.type, "avm_type", expression.type)
+        if avm_type not in (AVMType.int, AVMType.any):
+            raise CompileError(
+                f"Incorrect type for {name}. Expected int, got {expression.type}",
+                node=self,  # type: ignore
+            )
+
+    def process_value(self, expression: "Node", name: str) -> None:
+        """Process an expression that must have a single value"""
+        expression.process()
+        if isinstance(expression.type, list):
+            raise CompileError(
+                f"Incorrect number of values ({len(expression.type)}) for {name}",
+                node=self,  # type: ignore
+            )
+
     def get_field_type(self, namespace: str, name: str) -> TealishType:
         return lang_spec.get_field_type(namespace, name)
 
diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index f0988de..d7b825c 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -453,7 +453,7 @@ class TxnArrayField(BaseNode):
         check_txn_field(self, self.field, self.arrayIndex)
         if not isinstance(self.arrayIndex, Integer):
             # index is an expression that needs to be evaluated
-            self.arrayIndex.process()
+            self.process_int(self.arrayIndex, "array index")
 
     def write_teal(self, writer: "TealWriter") -> None:
         if not isinstance(self.arrayIndex, Integer):
@@ -481,7 +481,7 @@ class GroupTxnField(BaseNode):
         check_txn_field(self, self.field)
         if not isinstance(self.index, Integer):
             # index is an expression that needs to be evaluated
-            self.index.process()
+            self.process_int(self.index, "group index")
         elif self.index.value > 15:
             raise CompileError("Group index > 15", node=self)
 
@@ -518,11 +518,11 @@ class GroupTxnArrayField(BaseNode):
         check_txn_field(self, self.field, self.arrayIndex)
         if not isinstance(self.index, Integer):
             # index is an expression that needs to be evaluated
-            self.index.process()
+            self.process_int(self.index, "group index")
         elif self.index.value > 15:
             raise CompileError("Group index > 15", node=self)
         if not isinstance(self.arrayIndex, Integer):
-            self.arrayIndex.process()
+            self.process_int(self.arrayIndex, "array index")
 
     def write_teal(self, writer: "TealWriter") -> None:
         if not isinstance(self.index, Integer):
@@ -632,7 +632,7 @@ class InnerTxnArrayField(BaseNode):
         check_txn_field(self, self.field, self.arrayIndex)
         if not isinstance(self.arrayIndex, Integer):
             # index is an expression that needs to be evaluated
-            self.arrayIndex.process()
+            self.process_int(self.arrayIndex, "array index")
 
     def write_teal(self, writer: "TealWriter") -> None:
         if not isinstance(self.arrayIndex, Integer):
diff --git a/tealish/nodes.py b/tealish/nodes.py
index dc1b503..250831e 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -569,7 +569,7 @@ class Exit(LineStatement):
     expression: GenericExpression
 
     def process(self) -> None:
-        self.expression.process()
+        self.process_int(self.expression, "exit")
 
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, f"// tl:{self.line_no}: {self.line}")
@@ -861,14 +861,14 @@ class Switch(InlineStatement):
 
     def process(self) -> None:
         check_inner_group_is_not_left(self)
-        self.expression.process()
+        self.process_value(self.expression, "switch")
         if not is_repeatable(self.expression):
             # evaluate the expression only once, the value is not a variable of the program
             self.value_var = self.declare_scratch_var(
                 f"switch value {self.line_no}", "int"
             )
         for node in self.options:
-            node.expression.process()
+            self.process_value(node.expression, "switch")
             self.get_block(node.block_name)
         if self.else_:
             self.get_block(self.else_.block_name)
@@ -1137,11 +1137,11 @@ class InnerTxn(InlineStatement):
                         + f"(expected {n}) at line {lno}!"
                     )
             else:
-                node.expression.process()
+                node.process_value(node.expression, node.field_name)
 
         for a in self.array_fields.values():
             for node in a:
-                node.expression.process()
+                node.process_value(node.expression, node.field_name)
 
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, f"// tl:{self.line_no}: {self.line}")
@@ -1274,7 +1274,8 @@ class Elif(Node):
         return node
 
     def process(self) -> None:
-        for n in self.nodes:
+        self.process_int(self.condition, "condition")
+        for n in self.child_nodes:
             n.process()
 
     def write_teal(self, writer: "TealWriter") -> None:
@@ -1429,7 +1430,7 @@ class IfStatement(InlineStatement):
         ):
             self.child_nodes[-1].next_label = self.end_label
 
-        self.condition.process()
+        self.process_int(self.condition, "condition")
 
         if self.if_then is not None:
             self.if_then.process()
@@ -1538,7 +1539,8 @@ class WhileStatement(InlineStatement):
         return node
 
     def process(self) -> None:
-        for n in self.nodes:
+        self.process_int(self.condition, "condition")
+        for n in self.child_nodes:
             n.process()
 
     def write_teal(self, writer: "TealWriter") -> None:
@@ -1594,7 +1596,9 @@ class ForStatement(InlineStatement):
 
     def process(self) -> None:
         self.var = self.declare_scratch_var(self.var_name, "int")
-        for n in self.nodes:
+        self.process_int(self.start, "start of the range")
+        self.process_int(self.end, "end of the range")
+        for n in self.child_nodes:
             n.process()
         self.del_var(self.var_name)
 
@@ -1658,7 +1662,9 @@ class For_Statement(InlineStatement):
         return node
 
     def process(self) -> None:
-        for n in self.nodes:
+        self.process_int(self.start, "start of the range")
+        self.process_int(self.end, "end of the range")
+        for n in self.child_nodes:
             n.process()
 
     def write_teal(self, writer: "TealWriter") -> None:
-- 
2.43.0


From 3785cb087d5a501d308e39403e6e0eefa139ae8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:59 +0000
Subject: [PATCH 54/71] fix: refuse relative group indices that are no unsigned
 64-bit integer

---
 tealish/expression_nodes.py    | 12 ++++++------
 tealish/tealish_expressions.tx |  4 ++--
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index d7b825c..bfce9c9 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -553,33 +553,33 @@ class GroupTxnArrayField(BaseNode):
 
 
 class PositiveGroupIndex(BaseNode):
-    def __init__(self, index: int, parent: Optional["BaseNode"] = None) -> None:
+    def __init__(self, index: Integer, parent: Optional["BaseNode"] = None) -> None:
         self.index = index
         self.type = AVMType.int
         self.parent = parent
 
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, "txn GroupIndex")
-        writer.write(self, f"pushint {self.index}")
+        writer.write(self, self.index)
         writer.write(self, "+")
 
     def _tealish(self) -> str:
-        return f"+{self.index}"
+        return f"+{self.index.tealish()}"
 
 
 class NegativeGroupIndex(BaseNode):
-    def __init__(self, index: int, parent: Optional[BaseNode] = None) -> None:
+    def __init__(self, index: Integer, parent: Optional[BaseNode] = None) -> None:
         self.index = index
         self.type = AVMType.int
         self.parent = parent
 
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, "txn GroupIndex")
-        writer.write(self, f"pushint {self.index}")
+        writer.write(self, self.index)
         writer.write(self, "-")
 
     def _tealish(self) -> str:
-        return f"-{self.index}"
+        return f"-{self.index.tealish()}"
 
 
 class GlobalField(BaseNode):
diff --git a/tealish/tealish_expressions.tx b/tealish/tealish_expressions.tx
index 80cb21e..9727f1c 100644
--- a/tealish/tealish_expressions.tx
+++ b/tealish/tealish_expressions.tx
@@ -40,8 +40,8 @@ Enum: name=/([A-Z][A-Za-z_0-9]+)/;
 Name: (/([a-z][A-Za-z_0-9]*)(\[[0-9]+\])?/ | /_/);
 StdLibFunctionName: /([A-Z][A-Za-z_0-9]+)/;
 GroupIndex: NegativeGroupIndex | PositiveGroupIndex | Expression;
-NegativeGroupIndex: '-' index=INT;
-PositiveGroupIndex: '+' index=INT;
+NegativeGroupIndex: '-' index=Integer;
+PositiveGroupIndex: '+' index=Integer;
 HexBytes: value=/0x([a-fA-F0-9]+)/;
 Integer: value=/[0-9_]+/;
 Bytes: value=/"(?:[^"\\]|\\.)*"|'(?:[^'\\]|\\.)*'/ | HexBytes;
-- 
2.43.0


From ff439517dbb2c095c0c5af9b449fe183f6439bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:24 +0000
Subject: [PATCH 55/71] fix: accept statements with " = " in a string literal

---
 tealish/nodes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 250831e..0ffed96 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -45,7 +45,7 @@ from .types import (
     get_type_instance,
 )
 from .scope import Scope
-from .utils import decode_string_literal
+from .utils import decode_string_literal, find_unquoted
 
 MAX_UINT64 = 2**64 - 1
 LITERAL_INT = r"[0-9]+"
@@ -452,7 +452,7 @@ class LineStatement(InlineStatement):
             return BoxDeclaration(line, parent, compiler=compiler)
         elif re.match(r"[a-z][a-zA-Z_0-9]*\.[a-z][a-zA-Z_0-9]* = .*", line):
             return StructOrBoxAssignment(line, parent, compiler=compiler)
-        elif " = " in line:
+        elif find_unquoted(line, " = ", "\"'") >= 0:
             return Assignment(line, parent, compiler=compiler)
         # Statement functions
         elif line.startswith("exit("):
-- 
2.43.0


From 7a6551e33d64f539853515ddcc6f4c5ac5ff91c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:38 +0000
Subject: [PATCH 56/71] fix: map the instructions of return values and inner
 groups to their statements

---
 tealish/base.py  | 14 +++++++++-----
 tealish/nodes.py |  6 ++++--
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/tealish/base.py b/tealish/base.py
index d115a54..8eab415 100644
--- a/tealish/base.py
+++ b/tealish/base.py
@@ -135,12 +135,16 @@ class BaseNode:
         return None
 
     def has_child_node(self, node_class: type) -> bool:
+        return self.find_child_node(node_class) is not None
+
+    def find_child_node(self, node_class: type) -> Optional["BaseNode"]:
         for node in getattr(self, "nodes", []):
-            if isinstance(node, node_class) or node.has_child_node(
-                node_class
-            ):  # type: ignore
-                return True
-        return False
+            if isinstance(node, node_class):
+                return node
+            child = node.find_child_node(node_class)
+            if child is not None:
+                return child
+        return None
 
     def get_current_scope(self) -> Scope:
         # TODO: Only available on Node and other subclasses
diff --git a/tealish/nodes.py b/tealish/nodes.py
index 0ffed96..7fc94dc 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -407,8 +407,10 @@ class Program(Node):
               int 0; store {var.scratch_slot}; retsub // set group flag to 0
             """
             indent_spaces = teal.index("_itxn_group_begin") - 1
+            # these lines belong to the (first) group that needs them
+            node = self.find_child_node(InnerGroup) or self
             for line in teal.splitlines():
-                writer.write(self, line[indent_spaces:])
+                writer.write(node, line[indent_spaces:])
 
     def _tealish(self) -> str:
         s = ""
@@ -1824,7 +1826,7 @@ class Return(LineStatement):
             args = split_return_args(self.args)
             for a in args:
                 arg = a.strip()
-                node = GenericExpression.parse(arg, parent, compiler)
+                node = GenericExpression.parse(arg, self, compiler)
                 self.args_expressions.append(node)
         if len(self.args_expressions) != len(self.func.returns):
             raise ParseError(f"Incorrect number of returns. Line {self.line_no}")
-- 
2.43.0


From ecf92d3d9f594633eb3b5397c0b9d1d938a2ef42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:43 +0000
Subject: [PATCH 57/71] fix: check the number of immediate arguments of opcodes
 and the arguments of bzero and pop

---
 tealish/expression_nodes.py | 5 +++++
 tealish/stdlib.py           | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index bfce9c9..040266d 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -314,6 +314,11 @@ class OpCall(BaseNode):
             raise CompileError(
                 f"The immediate arguments of {op.name} are not supported", node=self
             )
+        if len(immediates) != op.immediate_args_num:
+            raise CompileError(
+                f"Expected {op.immediate_args_num} immediate args for {op.name}!",
+                node=self,
+            )
         for i, x in enumerate(immediates):
             x.process()
             if op.immediate_notes:
diff --git a/tealish/stdlib.py b/tealish/stdlib.py
index d36ea7a..3983951 100644
--- a/tealish/stdlib.py
+++ b/tealish/stdlib.py
@@ -65,6 +65,8 @@ class Pop(FunctionCall):
     name = "pop"
 
     def process(self) -> None:
+        if self.args:
+            raise CompileError(f"Expected 0 args for {self.name}!", node=self)
         self.type = AnyType()
 
     def write_teal(self, writer: "TealWriter") -> None:
@@ -93,8 +95,11 @@ class Bzero(FunctionCall):
     name = "bzero"
 
     def process(self) -> None:
+        if len(self.args) != 1:
+            raise CompileError(f"Expected 1 args for {self.name}!", node=self)
         arg = self.args[0]
         arg.process()
+        self.check_arg_types(self.name, self.args)
         # Integer literals and some other functions set value to a constant at compile time
         if getattr(arg, "value", None) is not None:
             self.type = BytesType(constant_int(arg, self.name))
-- 
2.43.0


From 01bcd3452104732ca7a7f8e40e610fc2aad0126a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:58 +0000
Subject: [PATCH 58/71] fix: check the number and types of arguments of Tealish
 functions

---
 tealish/base.py             | 10 ++++++++++
 tealish/expression_nodes.py |  3 +++
 tealish/stdlib.py           | 24 ++++++++++++++++++++++--
 3 files changed, 35 insertions(+), 2 deletions(-)

diff --git a/tealish/base.py b/tealish/base.py
index 8eab415..c3e2e9f 100644
--- a/tealish/base.py
+++ b/tealish/base.py
@@ -166,6 +166,16 @@ class BaseNode:
                 node=self,  # type: ignore
             )
 
+    def process_bytes(self, expression: "Node", name: str) -> None:
+        """Process an expression that must have a single value which is bytes"""
+        self.process_value(expression, name)
+        avm_type = getattr(expression.type, "avm_type", expression.type)
+        if avm_type not in (AVMType.bytes, AVMType.any):
+            raise CompileError(
+                f"Incorrect type for {name}. Expected bytes, got {expression.type}",
+                node=self,  # type: ignore
+            )
+
     def process_value(self, expression: "Node", name: str) -> None:
         """Process an expression that must have a single value"""
         expression.process()
diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index 040266d..af545eb 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -268,6 +268,9 @@ class StdLibFunctionCall(BaseNode):
             raise CompileError(f'Unknown Tealish function "{self.name}"', node=self)
 
     def process(self) -> None:
+        num_args = getattr(self.func_call, "num_args", None)
+        if num_args is not None and len(self.args) != num_args:
+            raise CompileError(f"Expected {num_args} args for {self.name}!", node=self)
         self.func_call.process()
         self.type = self.func_call.type
         self.value = getattr(self.func_call, "value", None)
diff --git a/tealish/stdlib.py b/tealish/stdlib.py
index 3983951..85d5873 100644
--- a/tealish/stdlib.py
+++ b/tealish/stdlib.py
@@ -40,6 +40,9 @@ def constant_bytes(arg: BaseNode, name: str) -> bytes:
 
 
 class FunctionCall(BaseNode):
+    # number of arguments or None if it varies
+    num_args: Optional[int] = None
+
     def __init__(self, args: List["Node"], parent: Optional[BaseNode] = None) -> None:
         self.args = args
         self.parent = parent
@@ -120,6 +123,7 @@ class Convert(FunctionCall):
     """
 
     name = "Convert"
+    num_args = 2
 
     def process(self) -> None:
         self.type = get_type_instance(self.args[1].name)
@@ -158,6 +162,7 @@ class Cast(FunctionCall):
     """
 
     name = "Cast"
+    num_args = 2
 
     def process(self) -> None:
         self.type = get_type_instance(self.args[1].name)
@@ -193,6 +198,7 @@ class Cast(FunctionCall):
 
 class ToBytes(FunctionCall):
     name = "ToBytes"
+    num_args = 2
 
     def process(self) -> None:
         self.args[0].process()
@@ -231,6 +237,7 @@ class ToBytes(FunctionCall):
 
 class FromBytes(FunctionCall):
     name = "FromBytes"
+    num_args = 2
 
     def process(self) -> None:
         self.args[0].process()
@@ -446,6 +453,12 @@ class UncheckedCast(FunctionCall):
         else:
             self.type = [get_type_instance(arg.name) for arg in self.args[1:]]
         self.args[0].process()
+        values = self.args[0].type
+        num_values = len(values) if isinstance(values, list) else 1
+        if len(self.args) - 1 != num_values:
+            raise CompileError(
+                f"Expected {num_values} types for {self.name}!", node=self
+            )
 
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, self.args[0])
@@ -453,6 +466,7 @@ class UncheckedCast(FunctionCall):
 
 class Error(FunctionCall):
     name = "Error"
+    num_args = 0
 
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, "err")
@@ -460,6 +474,7 @@ class Error(FunctionCall):
 
 class SizeOf(FunctionCall):
     name = "SizeOf"
+    num_args = 1
 
     def process(self):
         type = get_type_instance(self.args[0].name)
@@ -472,6 +487,7 @@ class SizeOf(FunctionCall):
 
 class Rpad(FunctionCall):
     name = "Rpad"
+    num_args = 2
 
     def process(self) -> None:
         self.args[0].process()
@@ -505,6 +521,7 @@ class Rpad(FunctionCall):
 
 class Lpad(FunctionCall):
     name = "Lpad"
+    num_args = 2
 
     def process(self) -> None:
         self.args[0].process()
@@ -541,8 +558,10 @@ class Concat(FunctionCall):
     name = "Concat"
 
     def process(self) -> None:
+        if not self.args:
+            raise CompileError(f"Expected at least 1 arg for {self.name}!", node=self)
         for arg in self.args:
-            arg.process()
+            self.process_bytes(arg, self.name)
         self.type = BytesType()
 
     def write_teal(self, writer: "TealWriter") -> None:
@@ -554,6 +573,7 @@ class Concat(FunctionCall):
 
 class Address(FunctionCall):
     name = "Address"
+    num_args = 1
 
     def process(self) -> None:
         for arg in self.args:
@@ -577,7 +597,7 @@ class ARC28Event(FunctionCall):
         self.signature = signature.decode("latin-1").encode("unicode_escape").decode()
         self.prefix = SHA512.new(signature, truncate="256").hexdigest()[:8]  # 4 bytes, 8 chars of hex
         for arg in self.args[1:]:
-            arg.process()
+            self.process_bytes(arg, self.name)
         self.type = BytesType()
 
     def write_teal(self, writer: "TealWriter") -> None:
-- 
2.43.0


From b4175c2c5b1a8b04b88a280f6fb2a86cfaaea1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:33 +0000
Subject: [PATCH 59/71] fix: refuse operands without exactly one value for
 untyped parameters

---
 tealish/types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tealish/types.py b/tealish/types.py
index dcc6c7a..61a6b4f 100644
--- a/tealish/types.py
+++ b/tealish/types.py
@@ -46,7 +46,8 @@ class AnyType(TealishType):
     avm_type = AVMType.any
 
     def can_hold(self, other):
-        return True
+        # Any single value, but not "no value" or multiple values
+        return isinstance(other, TealishType)
 
 
 class IntType(TealishType):
-- 
2.43.0


From ae3af420df9c25a82cd0e9e899ecc9ee2418c7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:54 +0000
Subject: [PATCH 60/71] fix: refuse substring immediates the assembler rejects

---
 tealish/expression_nodes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index af545eb..f45114c 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -339,6 +339,10 @@ class OpCall(BaseNode):
                     f"{x} can not be used as an immediate argument for {op.name}",
                     node=self,
                 )
+        if op.name == "substring":
+            start, end = (int(x.value) for x in self.all_args[:2])
+            if end < start:
+                raise CompileError("substring ends before it starts", node=self)
         self.immediate_args = " ".join(map(str, immediates))
         returns = op.returns_types
         self.type = returns[0] if len(returns) == 1 else returns
-- 
2.43.0


From 3da770b2bab598f396140a3844bd51bae69830bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:56 +0000
Subject: [PATCH 61/71] fix: accept field names only as immediates

---
 tealish/expression_nodes.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index f45114c..4905145 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -121,6 +121,9 @@ class Constant(BaseNode):
 
 
 class Enum(BaseNode):
+    # name of the op if this is one of its immediate args
+    op_name: Optional[str] = None
+
     def __init__(self, name: str, parent: Optional[BaseNode] = None) -> None:
         self.name = name
         self.type: AVMType = AVMType.none
@@ -134,7 +137,9 @@ class Enum(BaseNode):
         except KeyError:
             try:
                 # op field
-                type = self.lookup_op_field(self.parent.name, self.name)
+                if self.op_name is None:
+                    raise KeyError(self.name)
+                type = self.lookup_op_field(self.op_name, self.name)
             except KeyError:
                 raise CompileError(f'Unknown builtin enum "{self.name}"', node=self)
         if not isinstance(type, (IntType, BytesType, BigIntType, AddrType)):
@@ -323,6 +328,8 @@ class OpCall(BaseNode):
                 node=self,
             )
         for i, x in enumerate(immediates):
+            if isinstance(x, Enum):
+                x.op_name = op.name
             x.process()
             if op.immediate_notes:
                 self.check_immediate(op, i, x)
-- 
2.43.0


From 9e91128e218baf0352c56250ca34bc2846acf9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:00 +0000
Subject: [PATCH 62/71] fix: write valid map files for every assertion message

---
 tealish/cli.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/tealish/cli.py b/tealish/cli.py
index 169ce52..ce75ea1 100644
--- a/tealish/cli.py
+++ b/tealish/cli.py
@@ -94,10 +94,7 @@ def _build(
             # Source Map
             if not quiet:
                 click.echo(f"Writing source map to {map_filename}")
-            _write_file(
-                map_filename,
-                json.dumps(tealish_map.as_dict()).replace("],", "],\n"),
-            )
+            _write_file(map_filename, json.dumps(tealish_map.as_dict()))
 
 
 def _compile_program(source: str) -> Tuple[List[str], TealishMap]:
-- 
2.43.0


From 2537d8d20c84b31e9888c2e93cca75c592e95927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:06 +0000
Subject: [PATCH 63/71] fix: refuse programs that are nested too deeply with a
 compiler error

---
 tealish/__init__.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/tealish/__init__.py b/tealish/__init__.py
index 142120d..06cc2dc 100644
--- a/tealish/__init__.py
+++ b/tealish/__init__.py
@@ -134,7 +134,12 @@ class TealishCompiler:
         # start over so that nothing of previous (failed) calls is left
         self.reset()
         use_structs(self.structs)
-        node = Program.consume(self, None)
+        try:
+            node = Program.consume(self, None)
+        except RecursionError:
+            raise ParseError(
+                f"The program is nested too deeply at line {self.line_no}"
+            ) from None
         self.nodes.append(node)
 
     def process(self) -> None:
@@ -162,7 +167,10 @@ class TealishCompiler:
             self.process()
         self.writer = TealWriter()
         for node in self.nodes:
-            node.write_teal(self.writer)
+            try:
+                node.write_teal(self.writer)
+            except RecursionError:
+                raise CompileError("The program is nested too deeply") from None
         self.source_map = self.writer.source_map
         self.output = self.writer.output
         self.check_labels()
@@ -188,7 +196,10 @@ class TealishCompiler:
             self.parse()
         if not self.processed:
             self.process()
-        return self.nodes[0].tealish()
+        try:
+            return self.nodes[0].tealish()
+        except RecursionError:
+            raise CompileError("The program is nested too deeply") from None
 
     def get_map(self) -> TealishMap:
         return TealishMap(
-- 
2.43.0


From 5f0d9ee8e5f0fa8bfe96773b9e74bdac80e4a92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:19 +0000
Subject: [PATCH 64/71] fix: refuse conversions of integers to more bytes than
 a byte array can hold

---
 tealish/stdlib.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tealish/stdlib.py b/tealish/stdlib.py
index 85d5873..4404136 100644
--- a/tealish/stdlib.py
+++ b/tealish/stdlib.py
@@ -18,6 +18,10 @@ from tealish.types import (
 from tealish.utils import decode_string_literal
 
 
+# largest size of a byte array
+MAX_BYTES_SIZE = 4096
+
+
 def constant_int(arg: BaseNode, name: str) -> int:
     """The value of an int argument that must be known at compile time"""
     value = getattr(arg, "value", None)
@@ -395,6 +399,10 @@ class BytesToUIntWrapper(BaseNode):
 
 class UIntToBytesWrapper(BaseNode):
     def __init__(self, expression, size) -> None:
+        if size > MAX_BYTES_SIZE:
+            raise CompileError(
+                f"Size {size} is larger than {MAX_BYTES_SIZE} bytes", node=expression
+            )
         self.expression = expression
         self.size = size
         self.type = BytesType(size)
-- 
2.43.0


From 889f5e8f28ead330d0c55ce7d1ea8634dbdadc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:21 +0000
Subject: [PATCH 65/71] fix: accept only ASCII digits in the version

---
 tealish/nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 7fc94dc..6c434fb 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -470,7 +470,7 @@ class LineStatement(InlineStatement):
 
 
 class TealVersion(LineStatement):
-    pattern = r"#pragma version (?P<version>\d+)$"
+    pattern = r"#pragma version (?P<version>[0-9]+)$"
     version: int
 
     def write_teal(self, writer: "TealWriter") -> None:
-- 
2.43.0


From 745b136bcc0cc345a25d87668a3672c3931e7a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:24 +0000
Subject: [PATCH 66/71] fix: refuse routers beyond the limits of match and
 uncover

---
 tealish/nodes.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 6c434fb..7aea228 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -917,6 +917,9 @@ class Route(Node):
         self.func = self.lookup_func(self.name)
         if "public" not in self.func.attributes:
             raise CompileError(f"{self.name} is not a public function", node=self)
+        if len(self.func.returns) > 256:
+            # uncover reaches at most 255 values below the top of the stack
+            raise CompileError(f"Too many return values of {self.name}", node=self)
         for i, (arg, type_name) in enumerate(self.func.args.args):
             a = i + 1
             arg_type = get_type_instance(type_name)
@@ -965,6 +968,9 @@ class Router(InlineStatement):
         return router
 
     def process(self) -> None:
+        if len(self.routes) > 255:
+            # match has at most 255 labels
+            raise CompileError("Too many routes", node=self)
         for node in self.child_nodes:
             node.process()
 
-- 
2.43.0


From bb0e5ed73f58d0f04039ce43e6a0d11b03319e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:18 +0000
Subject: [PATCH 67/71] fix: refuse text after the colon of elif, else, teal,
 inner_txn and inner_group instead of ignoring it

---
 tealish/nodes.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 7aea228..5e15110 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1041,6 +1041,7 @@ class TealLine(Node):
 
 class Teal(InlineStatement):
     possible_child_nodes = [TealLine]
+    pattern = r"teal:$"
 
     @classmethod
     def consume(cls, compiler: "TealishCompiler", parent: Optional[Node]) -> "Teal":
@@ -1083,6 +1084,7 @@ class InnerTxnFieldSetter(InlineStatement):
 
 class InnerTxn(InlineStatement):
     possible_child_nodes = [InnerTxnFieldSetter, Comment]
+    pattern = r"inner_txn:$"
 
     def __init__(
         self,
@@ -1180,6 +1182,7 @@ class InnerTxn(InlineStatement):
 
 class InnerGroup(InlineStatement):
     possible_child_nodes = [InlineStatement]
+    pattern = r"inner_group:$"
 
     def __init__(self, line: str, parent: Node, compiler: "TealishCompiler") -> None:
         super().__init__(line, parent, compiler)
@@ -1260,7 +1263,7 @@ class IfThen(Node):
 
 class Elif(Node):
     possible_child_nodes = [InlineStatement]
-    pattern = r"elif ((?P<modifier>not) )?(?P<condition>.*):"
+    pattern = r"elif ((?P<modifier>not) )?(?P<condition>.*):$"
     condition: GenericExpression
     modifier: str
 
@@ -1306,7 +1309,7 @@ class Elif(Node):
 
 class Else(Node):
     possible_child_nodes = [InlineStatement]
-    pattern = r"else:"
+    pattern = r"else:$"
 
     def __init__(
         self, line: str, parent: Optional[Node], compiler: Optional["TealishCompiler"]
-- 
2.43.0


From a581b6f272cd96c3c3923f7d1f69b371968c8ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:32 +0000
Subject: [PATCH 68/71] fix: refuse malformed parameter lists instead of
 ignoring what does not look like a parameter

---
 tealish/nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 5e15110..b3cbb7b 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1711,7 +1711,7 @@ class For_Statement(InlineStatement):
 
 class ArgsList(Expression):
     arg_pattern = r"(?P<arg_name>[a-z][a-z_0-9]*): (?P<arg_type>[a-zA-Z][A-Za-z_0-9<>]*(?:\[\d+\])?)"
-    pattern = rf"(?P<args>({arg_pattern}(, )?)*)"
+    pattern = rf"(?P<args>\s*({arg_pattern}\s*(,\s*(?=[a-z])|$))*)$"
     args: List[Tuple[str, TealishType]]
 
     def __init__(self, line: str) -> None:
-- 
2.43.0


From 66ab07c848d2d985eda5adb96d8510d96e944ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:05 +0000
Subject: [PATCH 69/71] fix: refuse type names followed by other characters

---
 tealish/types.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tealish/types.py b/tealish/types.py
index 61a6b4f..0a9def7 100644
--- a/tealish/types.py
+++ b/tealish/types.py
@@ -225,16 +225,16 @@ def get_type_instance(type_name):
         return UInt8Type()
     elif type_name == "uint64":
         return IntType()
-    elif m := re.match(r"bytes\[([0-9]+)\]", type_name):
+    elif m := re.fullmatch(r"bytes\[([0-9]+)\]", type_name):
         size = int(m.groups()[0])
         return BytesType(size)
-    elif m := re.match(r"box<([A-Z][a-zA-Z0-9_]+)>", type_name):
+    elif m := re.fullmatch(r"box<([A-Z][a-zA-Z0-9_]+)>", type_name):
         struct_name = m.groups()[0]
         return BoxType(struct_name=struct_name)
-    elif m := re.match(r"([A-Z][a-zA-Z0-9_]+)", type_name):
+    elif m := re.fullmatch(r"([A-Z][a-zA-Z0-9_]+)", type_name):
         struct_name = m.groups()[0]
         return get_struct(struct_name)
-    elif m := re.match(r"uint8\[([0-9]+)\]", type_name):
+    elif m := re.fullmatch(r"uint8\[([0-9]+)\]", type_name):
         size = int(m.groups()[0])
         return ArrayType(UInt8Type, size)
     else:
-- 
2.43.0


From f6685024a476e531629941488829e9d794a0252e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:06 +0000
Subject: [PATCH 70/71] fix: refuse malformed lists of return types

---
 tealish/nodes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index b3cbb7b..08c4449 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1744,11 +1744,12 @@ class Func(InlineStatement):
         scope.declare_function(self.name, self)
         self.label = scope.name + "__func__" + self.name
         self.new_scope("func__" + self.name)
-        self.return_type = self.return_type.replace(" ", "")
+        type_names = [s.strip() for s in self.return_type.split(",")]
+        self.return_type = ",".join(type_names)
         try:
             self.returns = [
                 get_type_instance(type_name)
-                for type_name in filter(None, self.return_type.split(","))
+                for type_name in (type_names if self.return_type else [])
             ]
         except KeyError as e:
             raise ParseError(str(e) + f" Line {self.line_no}")
-- 
2.43.0


From 8cccab99297e60fb9b9f6fa76eb61a7152d55152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:12 +0000
Subject: [PATCH 71/71] fix: do not leave the counters of for _ loops on the
 stack in blocks that are entered again

---
 tealish/__init__.py |  2 ++
 tealish/nodes.py    | 18 +++++++++++++-----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/tealish/__init__.py b/tealish/__init__.py
index 06cc2dc..54351e0 100644
--- a/tealish/__init__.py
+++ b/tealish/__init__.py
@@ -96,6 +96,8 @@ class TealishCompiler:
         self.const_names: List[str] = []
         self.writer = TealWriter()
         self.processed = False
+        # is there a jump to a block that begins above the jump
+        self.has_backward_jumps = False
         self.line_nodes = {}
         self.use_inner_txns_macro = None
         self.structs: Dict[str, StructType] = {}
diff --git a/tealish/nodes.py b/tealish/nodes.py
index 08c4449..e55fd4e 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -552,7 +552,7 @@ class Jump(LineStatement):
 
     def process(self) -> None:
         check_inner_group_is_not_left(self)
-        self.get_block(self.block_name)
+        note_jump(self, self.get_block(self.block_name))
 
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, f"// tl:{self.line_no}: {self.line}")
@@ -871,9 +871,9 @@ class Switch(InlineStatement):
             )
         for node in self.options:
             self.process_value(node.expression, "switch")
-            self.get_block(node.block_name)
+            note_jump(self, self.get_block(node.block_name))
         if self.else_:
-            self.get_block(self.else_.block_name)
+            note_jump(self, self.get_block(self.else_.block_name))
 
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, f"// tl:{self.line_no}: {self.line}")
@@ -1696,8 +1696,10 @@ class For_Statement(InlineStatement):
         writer.write(self, "pop")
         writer.write(self, f"{self.end_label}:")
         # The counter is left on the stack. That is harmless at the top level of the program
-        # or of a block but not within another statement or a function.
-        if not isinstance(self.parent, (Program, Block)):
+        # or of a block that is entered only once but not within another statement or a function.
+        if not isinstance(self.parent, (Program, Block)) or (
+            isinstance(self.parent, Block) and self.compiler.has_backward_jumps
+        ):
             writer.write(self, "pop // discard counter")
         writer.level -= 1
 
@@ -2249,6 +2251,12 @@ def discard_loop_counters(
         parent = parent.parent
 
 
+def note_jump(node: Node, block: Block) -> None:
+    """Without jumps to blocks above no block is entered more than once"""
+    if node.compiler is not None and block.line_no < node.line_no:
+        node.compiler.has_backward_jumps = True
+
+
 def check_inner_group_is_not_left(node: Node, until: Optional[Node] = None) -> None:
     """The transactions of an inner group are only submitted at its end."""
     parent = node.parent
-- 
2.43.0

