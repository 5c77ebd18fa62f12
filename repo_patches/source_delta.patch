From ae7ad5f1899573c90e1440befeee58eb21c86e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:42 +0000
Subject: [PATCH 01/43] fix: recognise BACKGROUNDCOLOR and INCLUDE as the first
 keyword of a SYMBOL block

---
 mappyfile/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mappyfile/parser.py b/mappyfile/parser.py
index ef2f081..b50b700 100644
--- a/mappyfile/parser.py
+++ b/mappyfile/parser.py
@@ -55,9 +55,11 @@ if use_cython:
 SYMBOL_ATTRIBUTES = {
     "ANCHORPOINT",
     "ANTIALIAS",
+    "BACKGROUNDCOLOR",
     "FILLED",
     "FONT",
     "IMAGE",
+    "INCLUDE",
     "NAME",
     "COLOR",
     "TYPE",
-- 
2.43.0


From d7862d7fa49e4ea1111d87d638da882b7bdf5f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:33 +0000
Subject: [PATCH 02/43] fix: resolve the SYMBOL ambiguity for keywords in any
 case, and accept a GRID block at the root

The check compared the text of the previous item with SYMBOL, so 'symbol circle'
failed and a *value* called SYMBOL was taken for the keyword. The GRID check was
only reached for a GRID block at the start of the text (IndexError), or for a
GRID block following a value called NAME (rejected).
---
 mappyfile/parser.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/mappyfile/parser.py b/mappyfile/parser.py
index b50b700..6f32f8f 100644
--- a/mappyfile/parser.py
+++ b/mappyfile/parser.py
@@ -205,6 +205,14 @@ class Parser:
         text = self.open_file(fn)
         return self.parse(text, fn=fn)
 
+    def _previous_token_type(self, ip: Any) -> str | None:
+        """
+        Return the terminal name of the item before the current token, or None if it
+        is not a token (or there isn't one)
+        """
+        value_stack = ip.parser_state.value_stack
+        return getattr(value_stack[-1], "type", None) if value_stack else None
+
     def parse(self, text: str, fn: str | None = None) -> Any:
         """
         Parse the Mapfile
@@ -220,14 +228,10 @@ class Parser:
                 if t.type == "UNQUOTED_STRING":
                     # Unquoted strings after SYMBOL can only be values, not attributes
                     if (
-                        ip.parser_state.value_stack[-1] == "SYMBOL"
+                        self._previous_token_type(ip) == "SYMBOL"
                         and t.value.upper() not in SYMBOL_ATTRIBUTES
                     ):
                         t.type = "UNQUOTED_STRING_VALUE"
-                elif t.type == "GRID":
-                    # Unquoted 'GRID' coming after NAME is always a value, not a composite type
-                    if ip.parser_state.value_stack[-1] == "NAME":
-                        t.type = "UNQUOTED_STRING_VALUE"
 
             tree = ip.resume_parse()
             if self.include_comments:
-- 
2.43.0


From 1655ac81c5dfbe178cf1657b62593356255785f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:33 +0000
Subject: [PATCH 03/43] fix: parse QUERYMAP STYLE NORMAL when followed by
 another keyword

---
 mappyfile/mapfile.lark | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mappyfile/mapfile.lark b/mappyfile/mapfile.lark
index 6144ea4..aedb310 100644
--- a/mappyfile/mapfile.lark
+++ b/mappyfile/mapfile.lark
@@ -65,7 +65,7 @@ hexcolor: DOUBLE_QUOTED_HEXCOLOR | SINGLE_QUOTED_HEXCOLOR
 
 extent: (int|float) (int|float) (int|float) (int|float) 
 
-!_attr_keyword: "AUTO"i | "HILITE"i | "SELECTED"i 
+!_attr_keyword: "AUTO"i | "HILITE"i | "NORMAL"i | "SELECTED"i 
 
 string: DOUBLE_QUOTED_STRING | SINGLE_QUOTED_STRING | ESCAPED_STRING
 string_pair: (string|UNQUOTED_STRING) (string|UNQUOTED_STRING)
-- 
2.43.0


From 0971576d822cea19be9e3ee7b7c575c79fda32c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:13 +0000
Subject: [PATCH 04/43] fix: accept block keywords as the unquoted value of the
 first keyword in a nested block

MAP LAYER NAME points ... was rejected, and CLASS STYLE RANGEITEM class ... was
silently read as an attribute followed by a CLASS block. Previously only GRID
after NAME was handled.
---
 mappyfile/parser.py | 61 +++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 61 insertions(+)

diff --git a/mappyfile/parser.py b/mappyfile/parser.py
index 6f32f8f..59d2334 100644
--- a/mappyfile/parser.py
+++ b/mappyfile/parser.py
@@ -68,6 +68,41 @@ SYMBOL_ATTRIBUTES = {
     "TRANSPARENT",
 }
 
+# keywords that open an object (those in the composite_type grammar rule)
+COMPOSITE_KEYWORDS = {
+    "CLASS",
+    "CLUSTER",
+    "COMPOSITE",
+    "FEATURE",
+    "GRID",
+    "JOIN",
+    "LABEL",
+    "LAYER",
+    "LEADER",
+    "LEGEND",
+    "MAP",
+    "OUTPUTFORMAT",
+    "QUERYMAP",
+    "REFERENCE",
+    "SCALEBAR",
+    "SCALETOKEN",
+    "STYLE",
+    "SYMBOL",
+    "WEB",
+}
+
+# all keywords that can be followed by something other than a single value
+BLOCK_KEYWORDS = COMPOSITE_KEYWORDS | {
+    "CONFIG",
+    "CONNECTIONOPTIONS",
+    "METADATA",
+    "PATTERN",
+    "POINTS",
+    "PROJECTION",
+    "VALIDATION",
+    "VALUES",
+}
+
 
 class Parser:
     def __init__(
@@ -213,6 +248,30 @@ class Parser:
         value_stack = ip.parser_state.value_stack
         return getattr(value_stack[-1], "type", None) if value_stack else None
 
+    def _is_block_keyword_value(self, ip: Any, t: Any) -> bool:
+        """
+        Is a word that can open a block the unquoted value of a keyword?
+        This is the case after the first keyword of a nested block (LAYER NAME grid),
+        which could also be read as an attribute (LAYER NAME) followed by a block (GRID),
+        and after SYMBOL, as SYMBOL blocks have no child objects
+        """
+        previous_type = self._previous_token_type(ip)
+        if previous_type == "UNQUOTED_STRING" and t.type in BLOCK_KEYWORDS:
+            value_stack = ip.parser_state.value_stack
+            if getattr(value_stack[-2], "data", None) != "composite_type":
+                return False
+            open_blocks = [
+                item.children[0].type
+                for item in value_stack
+                if getattr(item, "data", None) == "composite_type"
+            ]
+            # SYMBOL in a CLASS or STYLE is an attribute
+            return open_blocks[-1] != "SYMBOL" or open_blocks[-2:-1] not in (
+                ["CLASS"],
+                ["STYLE"],
+            )
+        return previous_type == "SYMBOL" and t.type in COMPOSITE_KEYWORDS
+
     def parse(self, text: str, fn: str | None = None) -> Any:
         """
         Parse the Mapfile
@@ -232,6 +291,8 @@ class Parser:
                         and t.value.upper() not in SYMBOL_ATTRIBUTES
                     ):
                         t.type = "UNQUOTED_STRING_VALUE"
+                elif self._is_block_keyword_value(ip, t):
+                    t.type = "UNQUOTED_STRING_VALUE"
 
             tree = ip.resume_parse()
             if self.include_comments:
-- 
2.43.0


From dcf1b795f571073b3a9ce2b40341cb9188dcb185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:15 +0000
Subject: [PATCH 05/43] fix: only treat INCLUDE directives as includes, and
 allow spaces and # in quoted filenames

A line with INCLUDE alone raised an IndexError, an unquoted key such as
include_items was taken for an INCLUDE, and quoted names were cut at the first space or #.
---
 mappyfile/parser.py | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/mappyfile/parser.py b/mappyfile/parser.py
index 59d2334..e9a0110 100644
--- a/mappyfile/parser.py
+++ b/mappyfile/parser.py
@@ -30,6 +30,7 @@
 from __future__ import annotations
 import os
 import logging
+import re
 from io import open
 from lark import Lark, ParseError, Tree, UnexpectedInput
 from typing import Any, IO
@@ -68,6 +69,12 @@ SYMBOL_ATTRIBUTES = {
     "TRANSPARENT",
 }
 
+# an INCLUDE directive, with an optionally quoted filename, and the rest of its line
+INCLUDE_LINE = re.compile(
+    r"""\s*INCLUDE\s*("[^"]*"|'[^']*'|(?<=\s)[^\s#"'][^\s#]*)(.*)""",
+    re.IGNORECASE | re.DOTALL,
+)
+
 # keywords that open an object (those in the composite_type grammar rule)
 COMPOSITE_KEYWORDS = {
     "CLASS",
@@ -131,20 +138,27 @@ class Parser:
 
         return Lark.open("mapfile.lark", rel_to=__file__, parser="lalr", **extra_args)
 
-    def _get_include_filename(self, line: str) -> str:
-        if "#" in line:
-            # remove any comments on the same line
-            line = line.split("#")[0]
+    def _get_include_filename(self, line: str) -> str | None:
+        """
+        Return the filename from an INCLUDE line, or None if the line
+        is not an INCLUDE directive
+        """
+        match = INCLUDE_LINE.match(line)
+        if match is None:
+            return None
+
+        inc_file_path, others = match.groups()
 
-        include_pairs = line.split()
-        if len(include_pairs) > 2:
+        if others.split("#")[0].strip():
             log.warning(
                 "Multiple include files have been found on the same line. "
                 "Only the first will be used. "
             )
-        inc_file_path = include_pairs[1]
 
-        return inc_file_path.strip("'").strip('"')
+        if inc_file_path[0] in "'\"":
+            inc_file_path = inc_file_path[1:-1]
+
+        return inc_file_path
 
     def load_includes(
         self, text: str, fn: str | None = None, _nested_includes: int = 0
@@ -156,12 +170,12 @@ class Parser:
         lines = text.split("\n")
         includes = {}
         for idx, l in enumerate(lines):
-            if l.strip().lower().startswith("include"):
+            inc_file_path = self._get_include_filename(l)
+
+            if inc_file_path is not None:
                 if _nested_includes == 5:
                     raise ValueError("Maximum nested include exceeded! (MaxNested=5)")
 
-                inc_file_path = self._get_include_filename(l)
-
                 if not os.path.isabs(inc_file_path):
                     inc_file_path = os.path.abspath(
                         os.path.join(os.path.dirname(fn), inc_file_path)
-- 
2.43.0


From 2c7c6cb50f96780c98af8b12f9602f907cbd93c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:15 +0000
Subject: [PATCH 06/43] fix: load includes from file objects without a filename

---
 mappyfile/parser.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/mappyfile/parser.py b/mappyfile/parser.py
index e9a0110..0e4057a 100644
--- a/mappyfile/parser.py
+++ b/mappyfile/parser.py
@@ -230,11 +230,10 @@ class Parser:
 
     def load(self, fp: IO[str]) -> Any:
         text = fp.read()
-        if hasattr(fp, "name"):
-            fn = (
-                fp.name
-            )  # name is a read-only attribute and may not be present on all file-like objects.
-        else:
+        # name is a read-only attribute and may not be present on all file-like objects
+        # it can also be an integer file descriptor
+        fn = getattr(fp, "name", None)
+        if not isinstance(fn, (str, os.PathLike)):
             fn = None
         return self.parse(text, fn)
 
-- 
2.43.0


From 74d5df7e125f4f0befae4ccd135f9a146bd72250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:59 +0000
Subject: [PATCH 07/43] fix: keep line breaks within strings when opening a
 Mapfile

open() translated CR and CRLF in string values to LF, so a value written with
save could change when opened again. A # comment now also ends at a CR.
---
 mappyfile/mapfile.lark | 2 +-
 mappyfile/parser.py    | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/mappyfile/mapfile.lark b/mappyfile/mapfile.lark
index aedb310..ff4d9af 100644
--- a/mappyfile/mapfile.lark
+++ b/mappyfile/mapfile.lark
@@ -164,7 +164,7 @@ REGEXP2: /\\\\.*?\\\\i?/
 
 RUNTIME_VAR: /%.*?%/
 
-COMMENT: /\#[^\n]*/
+COMMENT: /\#[^\r\n]*/
 CCOMMENT.3: /\/[*].*?[*]\//s
 
 _END: "END"i
diff --git a/mappyfile/parser.py b/mappyfile/parser.py
index 0e4057a..217529c 100644
--- a/mappyfile/parser.py
+++ b/mappyfile/parser.py
@@ -239,7 +239,8 @@ class Parser:
 
     def open_file(self, fn: str):
         try:
-            with open(fn, "r", encoding="utf-8") as f:
+            # keep any line breaks within strings as they are in the file
+            with open(fn, "r", encoding="utf-8", newline="") as f:
                 return f.read()
         except UnicodeDecodeError as ex:
             log.debug(ex)
-- 
2.43.0


From 6533b42b02893f871f64a761ab6fd4db3c389d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:51 +0000
Subject: [PATCH 08/43] fix: keep the elements of list expressions and function
 calls as written

{1.50,true,"#AABBCC"} was stored as {1.5,True,#aabbcc}, which can't be parsed again.
---
 mappyfile/transformer.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/mappyfile/transformer.py b/mappyfile/transformer.py
index 44d662b..d7b9c5f 100644
--- a/mappyfile/transformer.py
+++ b/mappyfile/transformer.py
@@ -49,7 +49,10 @@ if lark_cython:
     TOKEN_TYPES = (Token, lark_cython.Token)
 
     def update_token_value(t, value):
-        return Token.new_borrow_pos(t.type, value, t)
+        # as for standard Lark tokens str(token) remains the original text
+        token = Token.new_borrow_pos(t.type, t.value, t)
+        token.value = value
+        return token
 
 else:
     TOKEN_TYPES = Token  # type: ignore
@@ -272,6 +275,16 @@ class MapfileTransformer(Transformer):
 
         return composite_dict
 
+    def source_text(self, t) -> str:
+        """
+        Return the text of a value as it was written in the Mapfile, for elements
+        of lists and functions which are not converted to Python types
+        """
+        if isinstance(t.value, str) and not t.type.endswith("HEXCOLOR"):
+            return t.value
+
+        return str(t)
+
     def clean_string(self, val: str) -> str:
         return self.quoter.remove_quotes(val)
 
@@ -546,7 +559,7 @@ class MapfileTransformer(Transformer):
         return func
 
     def func_params(self, t):
-        params = ",".join(str(v.value) for v in t)
+        params = ",".join(self.source_text(v) for v in t)
         return params
 
     def attr_bind(self, t):
@@ -622,8 +635,8 @@ class MapfileTransformer(Transformer):
         return t
 
     def hexcolor(self, t):
-        t[0].value = self.clean_string(t[0].value).lower()
-        return t[0]
+        v = t[0]
+        return update_token_value(v, self.clean_string(v.value).lower())
 
     def num_pair(self, t):
         a, b = t
@@ -636,7 +649,7 @@ class MapfileTransformer(Transformer):
     def list(self, t):
         # http://www.mapserver.org/mapfile/expressions.html#list-expressions
         v = t[0]
-        list_values = ",".join([str(s) for s in t])
+        list_values = ",".join([self.source_text(s) for s in t])
         v.value = "{%s}" % list_values
         return v
 
-- 
2.43.0


From 7d1fec6abc6e9a3cd05159e121134cdd0a1f6319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:27 +0000
Subject: [PATCH 09/43] fix: keep the brackets, operands and grouping of
 expressions

Brackets around (a) * (b) were dropped as the text starts and ends with a bracket,
and quoted hex colours within a comparison lost their quotes. Brackets are now
added based on the type of expression rather than on its text, and numbers and
booleans in an expression are kept as written.
---
 mappyfile/transformer.py | 67 +++++++++++++++++++++-------------------
 1 file changed, 35 insertions(+), 32 deletions(-)

diff --git a/mappyfile/transformer.py b/mappyfile/transformer.py
index d7b9c5f..568914a 100644
--- a/mappyfile/transformer.py
+++ b/mappyfile/transformer.py
@@ -468,73 +468,78 @@ class MapfileTransformer(Transformer):
 
     # for expressions
 
+    def grouped(self, t, text: str):
+        """
+        Create a token for a part of an expression which is enclosed in brackets
+        """
+        return Token.new_borrow_pos("GROUPED_EXPRESSION", text, t[0])
+
+    def operation(self, t, text: str):
+        """
+        Create a token for a part of an expression
+        """
+        return Token.new_borrow_pos("OPERATION", text, t[0])
+
     def comparison(self, t):
         assert len(t) == 3
-        parts = [str(p.value) for p in t]
+        parts = [self.source_text(p) for p in t]
         v = " ".join(parts)
 
-        v = f"( {v} )"
-        t[0].value = v
-        return t[0]
+        return self.grouped(t, f"( {v} )")
 
     def and_test(self, t):
         assert len(t) == 2
-        t[0].value = f"( {t[0].value} AND {t[1].value} )"
-        return t[0]
+        a, b = map(self.source_text, t)
+        return self.grouped(t, f"( {a} AND {b} )")
 
     def or_test(self, t):
         assert len(t) == 2
-        t[0].value = f"( {t[0].value} OR {t[1].value} )"
-        return t[0]
+        a, b = map(self.source_text, t)
+        return self.grouped(t, f"( {a} OR {b} )")
 
     def compare_op(self, t):
         v = t[0]
         return v
 
     def not_expression(self, t):
-        v = t[0]
-        v.value = f"NOT {v.value}"
-        return v
+        return self.operation(t, f"NOT {self.source_text(t[0])}")
 
     def expression(self, t):
-        exp = " ".join(
-            [str(v.value) for v in t]
-        )  # convert to string for boolean expressions e.g. (true)
+        exp = " ".join([self.source_text(v) for v in t])
 
-        if not self.quoter.in_parenthesis(exp):
-            t[0].value = f"({exp})"
+        if t[0].type != "GROUPED_EXPRESSION":
+            exp = f"({exp})"
 
-        return t[0]
+        return self.grouped(t, exp)
 
     def add(self, t):
         assert len(t) == 2
-        t[0].value = f"{t[0].value} + {t[1].value}"
-        return t[0]
+        a, b = map(self.source_text, t)
+        return self.operation(t, f"{a} + {b}")
 
     def sub(self, t):
         assert len(t) == 2
-        t[0].value = f"{t[0].value} - {t[1].value}"
-        return t[0]
+        a, b = map(self.source_text, t)
+        return self.operation(t, f"{a} - {b}")
 
     def div(self, t):
         assert len(t) == 2
-        t[0].value = f"{t[0].value} / {t[1].value}"
-        return t[0]
+        a, b = map(self.source_text, t)
+        return self.operation(t, f"{a} / {b}")
 
     def mul(self, t):
         assert len(t) == 2
-        t[0].value = f"{t[0].value} * {t[1].value}"
-        return t[0]
+        a, b = map(self.source_text, t)
+        return self.operation(t, f"{a} * {b}")
 
     def power(self, t):
         assert len(t) == 2
-        t[0].value = f"{t[0].value} ^ {t[1].value}"
-        return t[0]
+        a, b = map(self.source_text, t)
+        return self.operation(t, f"{a} ^ {b}")
 
     def neg(self, t):
         assert len(t) == 1
-        t[0].value = f"-{t[0].value}"
-        return t[0]
+        return self.operation(t, f"-{self.source_text(t[0])}")
 
     def runtime_var(self, t):
         v = t[0]
@@ -554,9 +559,7 @@ class MapfileTransformer(Transformer):
         For function calls e.g. TEXT (tostring([area],"%.2f"))
         """
         func, params = t
-        func_name = func.value
-        func.value = f"({func_name}({params}))"
-        return func
+        return self.grouped(t, f"({func.value}({params}))")
 
     def func_params(self, t):
         params = ",".join(self.source_text(v) for v in t)
-- 
2.43.0


From d972579ab693a459f3238ecbf1d702cc3b3ca548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:07 +0000
Subject: [PATCH 10/43] fix: parse % in expressions as an arithmetic operator

It had the precedence of a comparison, so [a] = 5 % 2 was rewritten as ( [a] = 5 ) % 2.
---
 mappyfile/mapfile.lark   | 3 ++-
 mappyfile/transformer.py | 5 +++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/mappyfile/mapfile.lark b/mappyfile/mapfile.lark
index ff4d9af..9a42a18 100644
--- a/mappyfile/mapfile.lark
+++ b/mappyfile/mapfile.lark
@@ -88,7 +88,7 @@ expression: "(" or_test ")"
 ?or_test : (or_test ("OR"i|"||"))? and_test
 ?and_test : (and_test ("AND"i|"&&"))? comparison
 ?comparison: (comparison compare_op)? sum
-!compare_op: ">=" | "<" | "=*" | "==" | "=" | "!=" | "~" | "~*" | ">" | "%"
+!compare_op: ">=" | "<" | "=*" | "==" | "=" | "!=" | "~" | "~*" | ">"
 | "<=" | "IN"i | "NE"i | "EQ"i | "LE"i | "LT"i | "GE"i | "GT"i | "LIKE"i
 
 ?sum: product
@@ -98,6 +98,7 @@ expression: "(" or_test ")"
 ?product: unary_expr
     | product "*" unary_expr -> mul
     | product "/" unary_expr -> div
+    | product "%" unary_expr -> mod
     | product "^" unary_expr -> power
 
 ?unary_expr: atom
diff --git a/mappyfile/transformer.py b/mappyfile/transformer.py
index 568914a..eeb35d4 100644
--- a/mappyfile/transformer.py
+++ b/mappyfile/transformer.py
@@ -532,6 +532,11 @@ class MapfileTransformer(Transformer):
         a, b = map(self.source_text, t)
         return self.operation(t, f"{a} * {b}")
 
+    def mod(self, t):
+        assert len(t) == 2
+        a, b = map(self.source_text, t)
+        return self.grouped(t, f"( {a} % {b} )")
+
     def power(self, t):
         assert len(t) == 2
         a, b = map(self.source_text, t)
-- 
2.43.0


From 68a781c229c5849d984f2218c51bb3205aff0c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:46 +0000
Subject: [PATCH 11/43] fix: accept empty POINTS and PATTERN blocks

---
 mappyfile/pprint.py      |  8 +++++---
 mappyfile/transformer.py | 21 +++++++--------------
 2 files changed, 12 insertions(+), 17 deletions(-)

diff --git a/mappyfile/pprint.py b/mappyfile/pprint.py
index 636bd0f..49930a5 100644
--- a/mappyfile/pprint.py
+++ b/mappyfile/pprint.py
@@ -271,10 +271,12 @@ class PrettyPrinter:
 
         lines = []
 
-        def depth(iterable):
-            return isinstance(iterable, (tuple, list)) and max(map(depth, iterable)) + 1
+        # each pair is made up of two numbers
+        is_multipart = any(
+            not part or isinstance(part[0], (tuple, list)) for part in root_list
+        )
 
-        if depth(root_list) == 2:
+        if not is_multipart:
             # single set of points only
             root_list = [root_list]
 
diff --git a/mappyfile/transformer.py b/mappyfile/transformer.py
index eeb35d4..cad17df 100644
--- a/mappyfile/transformer.py
+++ b/mappyfile/transformer.py
@@ -177,11 +177,10 @@ class MapfileTransformer(Transformer):
             # allow for multipart features in a nested list
             existing_points = composite_dict[key_name]
 
-            if calculate_depth(existing_points) == 2:
+            # pairs are tuples, and each list of pairs is a list
+            if not existing_points or not isinstance(existing_points[0], list):
                 composite_dict[key_name] = [existing_points]
 
-            if key_name not in composite_dict:
-                composite_dict[key_name] = []
             composite_dict[key_name].append(attribute_dict[key_name])
 
         if position_dict is not None:
@@ -454,8 +453,11 @@ class MapfileTransformer(Transformer):
         pairs = [(v[0].value, v[1].value) for v in body]
 
         key_token = tokens[0]
-        value_token = tokens[1][0]  # take the first numeric value pair as the token
-        value_token.value = pairs  # set its value to all values
+        if pairs:
+            value_token = tokens[1][0]  # take the first numeric value as the token
+        else:
+            value_token = tokens[1]  # an empty block, so only END is available
+        value_token = update_token_value(value_token, pairs)  # set to all values
         tokens = (key_token, value_token)
 
         return self.attr(tokens)
@@ -784,12 +786,3 @@ class Canonize(Transformer_InPlace):
         tree.data = "composite"
         tree.children.insert(0, composite_type)
         return tree
-
-
-def calculate_depth(iterable):
-    """
-    A helper function to get the max length + 1 in a list of lists
-    """
-    return (
-        isinstance(iterable, (tuple, list)) and max(map(calculate_depth, iterable)) + 1
-    )
-- 
2.43.0


From 4edb30f986181470a4cf248086ca2a9fd0a95748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:52 +0000
Subject: [PATCH 12/43] fix: quote values of keywords according to all the
 alternatives in the schema

---
 mappyfile/pprint.py | 159 +++++++++++++++++++++++---------------------
 mappyfile/quoter.py |  36 ++++++++++
 2 files changed, 118 insertions(+), 77 deletions(-)

diff --git a/mappyfile/pprint.py b/mappyfile/pprint.py
index 49930a5..8f577da 100644
--- a/mappyfile/pprint.py
+++ b/mappyfile/pprint.py
@@ -354,96 +354,101 @@ class PrettyPrinter:
     def is_expression(self, option):
         return "description" in option and (option["description"] == "expression")
 
-    def check_options_list(self, options_list, value):
-        for option in options_list:
-            if "enum" in option and value.lower() in option["enum"]:
-                if value.lower() == "end":
-                    # in GEOTRANSFORM "end" is an attribute value
-                    return self.quoter.add_quotes(value)
-                return value.upper()
-
-            if self.is_expression(option):
-                if value.endswith("'i") or value.endswith('"i'):
-                    return value
-
-        if self.quoter.in_slashes(value):
-            return value
-
-        return self.quoter.add_quotes(value)
-
-    def format_value(self, attr: str, attr_props, value: Any) -> Any:
+    def get_options(self, attr_props: dict) -> list[dict]:
         """
-        TODO - refactor and add more specific tests (particularly for expressions)
+        Get a flat list of all the alternatives allowed for a property,
+        including any alternatives that are nested in other alternatives
         """
-        if isinstance(value, bool):
-            return str(value).upper()
+        options = [attr_props]
 
-        if any(i in ["enum"] for i in attr_props):
-            if isinstance(value, dict) and not value:
-                raise ValueError(
-                    f"The property {attr} has an empty dictionary as a value"
-                )
+        for k in ("oneOf", "anyOf", "allOf"):
+            for option in attr_props.get(k, []):
+                options += self.get_options(option)
 
-            if not isinstance(value, numbers.Number):
-                if attr == "compop":
-                    return self.quoter.add_quotes(str(value))
-                return str(value).upper()  # value is from a set list, no need for quote
+        return options
 
+    def format_string(self, attr: str, attr_props: dict, value: str) -> str:
+        """
+        Check if a string needs quotes, by referring to the alternatives
+        allowed in the JSON schema
+        """
+        options = self.get_options(attr_props)
+        enums = [option for option in options if "enum" in option]
+
+        if any(value.lower() in option["enum"] for option in enums):
+            if value.lower() == "end" or attr == "compop":
+                # in GEOTRANSFORM "end" is an attribute value
+                return self.quoter.add_quotes(value)
+            return value.upper()
+
+        if attr_props.get("type") == "string" and not enums:
+            # a plain string
+            if not self.is_expression(attr_props):
+                return self.quoter.add_quotes(value)
+        elif self.quoter.in_parenthesis(value):
+            return value
+        elif value.startswith("NOT ") and self.quoter.in_parenthesis(value[4:]):
+            return value
+        elif attr != "text" and self.quoter.is_attribute_binding(value):
+            # TEXT expressions are often "[field1]-[field2]" so need to leave quotes for these
             return value
 
-        if (
-            "type" in attr_props and attr_props["type"] == "string"
-        ):  # and "enum" not in attr_props
-            # check schemas for expressions and handle accordingly
-            if self.is_expression(attr_props) and self.quoter.in_slashes(value):
+        if any(self.is_expression(option) for option in options):
+            if self.quoter.is_regex(value):
                 return value
-            if self.is_expression(attr_props) and (
-                value.endswith("'i") or value.endswith('"i')
-            ):
-                # for case insensitive regex
+            if self.quoter.is_case_insensitive_string(value):
+                return value
+            if attr != "text" and self.quoter.in_braces(value):
+                # don't add quotes to list expressions such as {val1, val2}
+                return value
+
+        is_free_string = any(
+            option.get("type") == "string" and "enum" not in option
+            for option in options
+        )
+
+        if not is_free_string:
+            # a keyword with a set list of values, or numeric values
+            if self.quoter.is_runtime_variable(value):
                 return value
+            if self.quoter.is_bare_word(value):
+                return value.upper() if enums else value
 
+        return str(self.quoter.escape_quotes(self.quoter.add_quotes(value)))
+
+    def format_list_item(self, attr: str, value: Any) -> str:
+        """
+        Format one of the numbers, colors, or attribute bindings of a list
+        """
+        if isinstance(value, str):
+            if self.quoter.is_attribute_binding(value):
+                return value
             return self.quoter.add_quotes(value)
 
-        # expressions can be one of a string or an expression in brackets
-        if any(
-            i in ["oneOf", "anyOf"] for i in attr_props
-        ):  # and check that type string is in list
-            if "oneOf" in attr_props:
-                options_list = attr_props["oneOf"]
-            else:
-                options_list = attr_props["anyOf"]
-            if self.quoter.is_string(value):
-                if self.quoter.in_parenthesis(value):
-                    pass
-                elif attr == "expression" and self.quoter.in_braces(value):
-                    # don't add quotes to list expressions such as {val1, val2}
-                    pass
-                elif attr != "text" and self.quoter.in_brackets(value):
-                    # TEXT expressions are often "[field1]-[field2]" so need to leave quotes for these
-                    pass
-                elif value.startswith("NOT ") and self.quoter.in_parenthesis(value[4:]):
-                    value = f"NOT {value[4:]}"
-                else:
-                    value = self.check_options_list(options_list, value)
-
-        if isinstance(value, list):
-            new_values = []
-
-            for v in value:
-                if not isinstance(v, numbers.Number) and attr not in [
-                    "offset",
-                    "polaroffset",
-                ]:
-                    # don't add quotes to list of attributes for offset / polaroffset
-                    v = self.quoter.add_quotes(v)
-                new_values.append(v)
-
-            value = " ".join(list(map(str, new_values)))
-        else:
-            value = self.quoter.escape_quotes(value)
+        if isinstance(value, numbers.Number) and not isinstance(value, bool):
+            return str(value)
+
+        raise ValueError(f"The property {attr} has an invalid list item: {value}")
+
+    def format_value(self, attr: str, attr_props, value: Any) -> Any:
+        if isinstance(value, bool):
+            return str(value).upper()
+
+        if isinstance(value, numbers.Number):
+            if attr_props.get("type") == "string" and "enum" not in attr_props:
+                return self.quoter.add_quotes(str(value))
+            return value
+
+        if self.quoter.is_string(value):
+            return self.format_string(attr, attr_props, value)
+
+        if isinstance(value, (list, tuple)) and value:
+            return " ".join([self.format_list_item(attr, v) for v in value])
+
+        if isinstance(value, dict) and not value:
+            raise ValueError(f"The property {attr} has an empty dictionary as a value")
 
-        return value
+        raise ValueError(f"The property {attr} has an invalid value: {value}")
 
     # pylint: disable=too-many-arguments
     def process_attribute(
diff --git a/mappyfile/quoter.py b/mappyfile/quoter.py
index 3d2b690..c2cec4a 100644
--- a/mappyfile/quoter.py
+++ b/mappyfile/quoter.py
@@ -29,11 +29,23 @@
 
 from __future__ import annotations
 import logging
+import re
 from typing import Any
+from mappyfile.tokens import COMPLEX_TYPES
 
 
 log = logging.getLogger("mappyfile")
 
+# strings that can be used in a Mapfile without any quotes
+BARE_WORD = re.compile(r"[A-Za-z_][A-Za-z0-9_\-:]*")
+ATTRIBUTE_BINDING = re.compile(r"\[[a-z0-9_\xc0-\xff\-:]+\]", re.IGNORECASE)
+RUNTIME_VARIABLE = re.compile(r"%[^%\r\n]*%")
+REGEX = re.compile(r"/[^/\r\n]*/i?|\\\\((?!\\\\)[^\r\n])*\\\\i?")
+CASE_INSENSITIVE_STRING = re.compile(r"""\"(\\"|[^"])*\"i|'(\\'|[^'])*'i""")
+
+# words that would not be read as a string when used without quotes
+RESERVED_WORDS = COMPLEX_TYPES | {"config", "end", "false", "not", "null", "true"}
+
 
 class Quoter:
     """
@@ -108,6 +120,30 @@ class Quoter:
         val = val.strip()
         return self._in_quotes(val, "/")
 
+    def is_attribute_binding(self, val: str) -> bool:
+        """
+        A reference to an attribute e.g. [field1]
+        """
+        return bool(ATTRIBUTE_BINDING.fullmatch(val))
+
+    def is_runtime_variable(self, val: str) -> bool:
+        """
+        A variable to be replaced when a request is made e.g. %field1%
+        """
+        return bool(RUNTIME_VARIABLE.fullmatch(val))
+
+    def is_regex(self, val: str) -> bool:
+        return bool(REGEX.fullmatch(val))
+
+    def is_case_insensitive_string(self, val: str) -> bool:
+        """
+        A string in quotes followed by a flag e.g. "value"i
+        """
+        return bool(CASE_INSENSITIVE_STRING.fullmatch(val))
+
+    def is_bare_word(self, val: str) -> bool:
+        return bool(BARE_WORD.fullmatch(val)) and val.lower() not in RESERVED_WORDS
+
     def standardise_quotes(self, val: str) -> str:
         """
         Change the quotes used to wrap a value to the pprint default
-- 
2.43.0


From 9ad9a83762c522c8148c5674ea6979336896ca2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:31 +0000
Subject: [PATCH 13/43] fix: refuse to print blocks and lists with values that
 have no Mapfile representation

---
 mappyfile/pprint.py | 49 ++++++++++++++++++++++++++++++++++++---------
 1 file changed, 40 insertions(+), 9 deletions(-)

diff --git a/mappyfile/pprint.py b/mappyfile/pprint.py
index 8f577da..16efa05 100644
--- a/mappyfile/pprint.py
+++ b/mappyfile/pprint.py
@@ -171,6 +171,21 @@ class PrettyPrinter:
 
         return lines
 
+    def check_item(self, key: str, value: Any) -> Any:
+        """
+        Check the value of an item in a block can be written to a Mapfile
+        """
+        if value is None or isinstance(value, (dict, list, tuple)):
+            raise ValueError(f"The property {key} has an invalid value: {value}")
+        return value
+
+    def check_list(self, key: str, value: Any) -> None:
+        """
+        Check the value of a block or repeated key is a list
+        """
+        if not isinstance(value, (list, tuple)):
+            raise ValueError(f"The property {key} has an invalid value: {value}")
+
     def process_dict(self, d: dict, level: int, comments: dict) -> list[str]:
         """
         Process keys and values within a block
@@ -185,7 +200,7 @@ class PrettyPrinter:
         for k, v in d.items():
             if not self.__is_metadata(k):
                 qk = self.quoter.add_quotes(k)
-                qv = self.quoter.add_quotes(v)
+                qv = self.quoter.add_quotes(self.check_item(k, v))
                 line = self.__format_line(
                     self.whitespace(level, 2), qk, qv, aligned_max_indent
                 )
@@ -200,9 +215,11 @@ class PrettyPrinter:
         """
         lines = []
         for k, v in d.items():
+            if self.__is_metadata(k):
+                continue
             cfg_val = self.quoter.add_quotes(k.upper())
+            v = self.quoter.add_quotes(self.check_item(k, v))
             k = f"CONFIG {cfg_val}"
-            v = self.quoter.add_quotes(v)
             lines.append(self.__format_line(self.whitespace(level, 1), k, v))
         return lines
 
@@ -214,9 +231,14 @@ class PrettyPrinter:
         """
         lines = []
 
+        if self.quoter.is_string(lst):
+            # the value has been manually set to a single string
+            lst = [lst]
+        self.check_list(key, lst)
+
         for v in lst:
             k = key.upper()
-            v = self.quoter.add_quotes(v)
+            v = self.quoter.add_quotes(self.check_item(key, v))
             lines.append(
                 self.__format_line(self.whitespace(level, 1), k, v, aligned_max_indent)
             )
@@ -234,14 +256,15 @@ class PrettyPrinter:
             lines.append(f"{whitespace}{projection_comments.strip()}")
 
         if self.quoter.is_string(lst):
-            val = self.quoter.add_quotes(str(lst))
             # the value has been manually set to a single string projection
-            lines.append(f"{whitespace}{val}")
-        elif len(lst) == 1 and lst[0].upper() == "AUTO":
+            lst = [lst]
+        self.check_list(key, lst)
+
+        if len(lst) == 1 and str(lst[0]).upper() == "AUTO":
             lines.append(f"{whitespace}AUTO")
         else:
             for v in lst:
-                v = self.quoter.add_quotes(v)
+                v = self.quoter.add_quotes(self.check_item(key, v))
                 lines.append(f"{whitespace}{v}")
 
         lines.append(self.add_end_line(level, 1, key))
@@ -252,11 +275,17 @@ class PrettyPrinter:
         Process lists of pairs (e.g. PATTERN block)
         """
 
+        self.check_list(key, pair_list)
         lines = [self.add_start_line(key, level)]
 
         list_spacer = self.spacer * (level + 2)
-        pairs = [f"{list_spacer}{p[0]} {p[1]}" for p in pair_list]
-        lines += pairs
+
+        for p in pair_list:
+            self.check_list(key, p)
+            if len(p) != 2:
+                raise ValueError(f"The property {key} has an invalid pair: {p}")
+            x, y = (self.check_item(key, v) for v in p)
+            lines.append(f"{list_spacer}{x} {y}")
 
         lines.append(self.add_end_line(level, 1, key))
 
@@ -271,6 +300,8 @@ class PrettyPrinter:
 
         lines = []
 
+        self.check_list(key, root_list)
+
         # each pair is made up of two numbers
         is_multipart = any(
             not part or isinstance(part[0], (tuple, list)) for part in root_list
-- 
2.43.0


From 77551cb1beeceed5805570fe72b526bf49835862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:08 +0000
Subject: [PATCH 14/43] fix: indent METADATA, VALIDATION and CONNECTIONOPTIONS
 blocks correctly when printed on their own

---
 mappyfile/pprint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mappyfile/pprint.py b/mappyfile/pprint.py
index 16efa05..304c810 100644
--- a/mappyfile/pprint.py
+++ b/mappyfile/pprint.py
@@ -358,7 +358,7 @@ class PrettyPrinter:
             type_ = composite["__type__"]
             if type_ in ("metadata", "validation", "connectionoptions"):
                 # types are being parsed directly, and not as an attr of a parent
-                lines += self.process_key_dict(type_, composite, level=0)
+                lines += self.process_key_dict(type_, composite, level=-1)
             else:
                 lines += self._format(composite)
 
-- 
2.43.0


From b1979b150f665356c39ac04bec89eb9d1989ef0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:05 +0000
Subject: [PATCH 15/43] fix: only move block values when separating complex
 types

---
 mappyfile/dictutils.py |  3 ++-
 mappyfile/pprint.py    | 15 ++++++++-------
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/mappyfile/dictutils.py b/mappyfile/dictutils.py
index bc6e1ee..f87186a 100644
--- a/mappyfile/dictutils.py
+++ b/mappyfile/dictutils.py
@@ -317,4 +317,5 @@ def update(d1: dict, d2: dict, overwrite: bool = True) -> dict:
 
 
 def dict_move_to_end(ordered_dict, key):
-    ordered_dict.move_to_end(key)
+    # also works for standard dictionaries
+    ordered_dict[key] = ordered_dict.pop(key)
diff --git a/mappyfile/pprint.py b/mappyfile/pprint.py
index 304c810..043ebd7 100644
--- a/mappyfile/pprint.py
+++ b/mappyfile/pprint.py
@@ -322,13 +322,14 @@ class PrettyPrinter:
         return False
 
     def is_complex_type(self, composite: dict, key: str, level: int) -> bool:
-        # symbol needs special treatment
-        if key == "symbol" and level > 0:
-            return False
-        return (
-            key in COMPLEX_TYPES
-            or self.is_composite(key)
-            or self.is_hidden_container(key, composite[key])
+        value = composite[key]
+
+        if isinstance(value, dict):
+            return key in COMPLEX_TYPES or self.is_composite(value)
+
+        # simple keywords can share their name with a block e.g. STYLE SYMBOL
+        return key in ("pattern", "points", "projection") or self.is_hidden_container(
+            key, value
         )
 
     def is_hidden_container(self, key: str, val: Any) -> bool:
-- 
2.43.0


From 27a6da1265f8787a3ba8b9ad599120d85572ce0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:40 +0000
Subject: [PATCH 16/43] fix: handle non-string keys, keyword names and
 recursive copies in Mapfile dicts

---
 mappyfile/ordereddict.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/mappyfile/ordereddict.py b/mappyfile/ordereddict.py
index ab27b0d..5ebf397 100644
--- a/mappyfile/ordereddict.py
+++ b/mappyfile/ordereddict.py
@@ -57,7 +57,8 @@ class DefaultOrderedDict(OrderedDict):
         self.default_factory = default_factory
 
     def __getitem__(self, key):
-        key = key.lower()  # all keys should be lower-case to make editing easier
+        if isinstance(key, str):
+            key = key.lower()  # all keys should be lower-case to make editing easier
 
         try:
             return OrderedDict.__getitem__(self, key)
@@ -89,7 +90,13 @@ class DefaultOrderedDict(OrderedDict):
         return type(self)(self.default_factory, self)
 
     def __deepcopy__(self, memo):
-        return type(self)(self.default_factory, copy.deepcopy(list(self.items())))
+        d = type(self)(self.default_factory)
+        memo[id(self)] = d
+
+        for key, value in self.items():
+            d[copy.deepcopy(key, memo)] = copy.deepcopy(value, memo)
+
+        return d
 
     def __repr__(self):
         """
@@ -138,10 +145,10 @@ class CaseInsensitiveOrderedDict(DefaultOrderedDict):
         # pylint: disable=protected-access
         return super().setdefault(self.__class__._k(key), *args, **kwargs)
 
-    def update(self, e=None, **f):
+    def update(self, e=None, /, **f):
         if e is not None:
             super().update(self.__class__(CaseInsensitiveOrderedDict, e))
-        super().update(self.__class__(CaseInsensitiveOrderedDict, **f))
+        super().update(self.__class__(CaseInsensitiveOrderedDict, f))
 
     def _convert_keys(self):
         for k in list(self.keys()):
-- 
2.43.0


From 40d8a6d5c39c306ed9f2b9127d5bcc6ee8220c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:09 +0000
Subject: [PATCH 17/43] fix: locate validation errors within lists of values,
 repeated keywords and singleton objects

---
 mappyfile/validator.py | 47 ++++++++++++++++++++++++++++--------------
 1 file changed, 31 insertions(+), 16 deletions(-)

diff --git a/mappyfile/validator.py b/mappyfile/validator.py
index c699e8f..419d7a6 100644
--- a/mappyfile/validator.py
+++ b/mappyfile/validator.py
@@ -34,7 +34,6 @@ from collections import OrderedDict
 import logging
 import jsonschema
 import jsonref
-from mappyfile import dictutils
 from referencing import Registry, Resource
 from referencing.jsonschema import DRAFT4
 from typing import Any
@@ -210,17 +209,26 @@ class Validator:
         See https://github.com/Julian/jsonschema/issues/119
         """
 
-        if not path:
-            # error applies to the root type
-            d = rootdict
+        d = value = rootdict
+        key = d.get("__type__", "")
+        index = None
+
+        # find the keyword, and the object which contains it
+        for p in path:
+            if isinstance(value, dict):
+                d, key, index = value, p, None
+                # the path has been created from a lower-case dict
+                p = next((k for k in value if k.lower() == p), p)
+            elif index is None:
+                index = p
+            value = value[p]
+
+        is_object = isinstance(value, dict) and "__type__" in value
+
+        if is_object:
+            # the error is on an object, rather than on one of its keywords
+            d = value
             key = d["__type__"]
-        elif isinstance(path[-1], int):
-            # the error is on an object in a list
-            d = dictutils.findkey(rootdict, *path)
-            key = d["__type__"]
-        else:
-            key = path[-1]
-            d = dictutils.findkey(rootdict, *path[:-1])
 
         error_message = f"ERROR: Invalid value in {key.upper()}"
 
@@ -238,11 +246,18 @@ class Validator:
         # include position details
 
         if "__position__" in d:
-            if not path or key not in d["__position__"]:
-                # position for the root object is stored in the root of the dict
-                pd = d["__position__"]
-            else:
-                pd = d["__position__"][key]
+            # position for the object is stored in the root of the dict
+            pd = d["__position__"]
+
+            if not is_object and key in pd:
+                key_position = pd[key]
+                if isinstance(key_position, list):
+                    # a position for each time a repeatable keyword is used
+                    if index is None or index >= len(key_position):
+                        index = 0
+                    key_position = key_position[index]
+                if "line" in key_position:
+                    pd = key_position
 
             error_dict["line"] = pd.get("line")
             error_dict["column"] = pd.get("column")
-- 
2.43.0


From 88c38bbf607cc7a954e11cf3f065ed1dfba16d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:09 +0000
Subject: [PATCH 18/43] fix: validate each object using the schema for its type

---
 mappyfile/validator.py | 40 ++++++++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/mappyfile/validator.py b/mappyfile/validator.py
index 419d7a6..0d0ae4a 100644
--- a/mappyfile/validator.py
+++ b/mappyfile/validator.py
@@ -34,6 +34,7 @@ from collections import OrderedDict
 import logging
 import jsonschema
 import jsonref
+from mappyfile.tokens import COMPLEX_TYPES
 from referencing import Registry, Resource
 from referencing.jsonschema import DRAFT4
 from typing import Any
@@ -288,29 +289,44 @@ class Validator:
 
         return error_messages
 
+    def get_schema_name(self, d: Any) -> str:
+        """
+        Get the name of the schema used to validate an object
+        """
+        schema_name = "map"
+
+        if isinstance(d, dict):
+            type_ = str(d.get("__type__", schema_name)).lower()
+            if type_ in COMPLEX_TYPES - {"pattern", "points", "projection", "values"}:
+                schema_name = type_
+
+        return schema_name
+
     def validate(
         self,
         value: Any,
         add_comments: bool = False,
-        schema_name: str = "map",
+        schema_name: (str | None) = None,
         version: (float | None) = None,
     ):
         """
         verbose - also return the jsonschema error details
+        If no schema_name is provided then each object is validated using the schema for its type
         """
-        if version:
-            jsn_schema = self.get_versioned_schema(version, schema_name)
-            validator = jsonschema.Draft4Validator(schema=jsn_schema)
-        else:
-            validator = self.get_schema_validator(schema_name)
-
         error_messages = []
+        validators: dict = {}
 
-        if isinstance(value, list):
-            for d in value:
-                error_messages += self._get_errors(d, validator, add_comments)
-        else:
-            error_messages = self._get_errors(value, validator, add_comments)
+        for d in value if isinstance(value, list) else [value]:
+            name = schema_name or self.get_schema_name(d)
+
+            if name not in validators:
+                if version:
+                    jsn_schema = self.get_versioned_schema(version, name)
+                    validators[name] = jsonschema.Draft4Validator(schema=jsn_schema)
+                else:
+                    validators[name] = self.get_schema_validator(name)
+
+            error_messages += self._get_errors(d, validators[name], add_comments)
 
         return error_messages
 
-- 
2.43.0


From 19c7dd625e2dd1aef8bf121e8ef7c59aee71e098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:42 +0000
Subject: [PATCH 19/43] fix: check versions of objects nested in alternatives,
 and of root objects

---
 mappyfile/validator.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mappyfile/validator.py b/mappyfile/validator.py
index 0d0ae4a..f6e206a 100644
--- a/mappyfile/validator.py
+++ b/mappyfile/validator.py
@@ -133,6 +133,10 @@ class Validator:
         jsn_schema = self.get_expanded_schema(schema_name, version)
 
         if version:
+            if not self.is_valid_for_version(jsn_schema, version):
+                # the object itself is not available in this version
+                jsn_schema["not"] = {}
+
             # remove any properties based on minVersion and maxVersion
             properties = jsn_schema["properties"]
             jsn_schema["properties"] = self.get_versioned_properties(
@@ -159,6 +163,7 @@ class Validator:
                 for props in v:
                     if isinstance(props, dict):
                         if self.is_valid_for_version(props, version) is True:
+                            self.get_versioned_properties(props, version)
                             valid_list.append(props)
                     else:
                         valid_list.append(props)
-- 
2.43.0


From 26d77fd9c63d1cf4d7cabd32017a6df91584adf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:19 +0000
Subject: [PATCH 20/43] fix: count unparseable files as errors in the validate
 command, and limit the exit status

---
 mappyfile/cli.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mappyfile/cli.py b/mappyfile/cli.py
index 0fd14df..a8f72c6 100644
--- a/mappyfile/cli.py
+++ b/mappyfile/cli.py
@@ -219,6 +219,7 @@ def validate(_, mapfiles, expand, version):
         except Exception as ex:
             logger.exception(ex)
             click.echo(f"{fn} failed to parse successfully")
+            errors += 1
             continue
 
         validation_messages = mappyfile.validate(d, version)
@@ -238,7 +239,8 @@ def validate(_, mapfiles, expand, version):
     click.echo(
         f"{len(all_mapfiles)} file(s) validated ({validation_count} successfully)"
     )
-    sys.exit(errors)
+    # an exit status is a single byte, so larger counts could be reported as 0
+    sys.exit(min(errors, 255))
 
 
 @main.command(short_help="Export a Mapfile Schema")
-- 
2.43.0


From 6b430f9cfed2f0a5a25d8af5c0e8c596959d1f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:32 +0000
Subject: [PATCH 21/43] fix: record the position and comments of a SYMBOLSET

---
 mappyfile/mapfile.lark   |  3 ++-
 mappyfile/parser.py      | 11 +++++++++--
 mappyfile/transformer.py |  2 +-
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/mappyfile/mapfile.lark b/mappyfile/mapfile.lark
index 9a42a18..faee263 100644
--- a/mappyfile/mapfile.lark
+++ b/mappyfile/mapfile.lark
@@ -27,7 +27,7 @@
 // 
 // =================================================================
 
-start: "SYMBOLSET"i composite_body _END   -> symbolset
+start: SYMBOLSET composite_body _END   -> symbolset
      | composite+
 
 composite: composite_type composite_body _END
@@ -134,6 +134,7 @@ func_params: value ("," value)*
             | "WEB"i
             | "SYMBOL"i
 
+SYMBOLSET: "SYMBOLSET"i
 AUTO: "AUTO"i
 PATH: /([a-z0-9_]*\.*\/|[a-z0-9_]+[.\/])[a-z0-9_\/\.-]+/i
 
diff --git a/mappyfile/parser.py b/mappyfile/parser.py
index 217529c..569f665 100644
--- a/mappyfile/parser.py
+++ b/mappyfile/parser.py
@@ -210,7 +210,13 @@ class Parser:
             # when we encounter a new type that can have associated comments
             # assign all comments up to that point in the Mapfile to the node
             # for metadata we want to assign comments to the string_pair
-            if node.data in ("composite", "attr", "projection", "string_pair"):
+            if node.data in (
+                "composite",
+                "symbolset",
+                "attr",
+                "projection",
+                "string_pair",
+            ):
                 # for projection blocks capture any comments within the block
 
                 if node.data in ("projection"):
@@ -314,7 +320,8 @@ class Parser:
                 # create a dictionary using line numbers as keys, and comments as values
                 for c in self._comments:
                     self.comments_dict[c.line] = c.value.strip()
-                self._assign_comments(tree)
+                # a SYMBOLSET is the root of the tree
+                self._assign_comments(Tree("root", [tree]))
 
             return tree
         except (ParseError, UnexpectedInput) as ex:
diff --git a/mappyfile/transformer.py b/mappyfile/transformer.py
index cad17df..e12ff91 100644
--- a/mappyfile/transformer.py
+++ b/mappyfile/transformer.py
@@ -781,7 +781,7 @@ class MapfileToDict:
 class Canonize(Transformer_InPlace):
     @v_args(tree=True)
     def symbolset(self, tree):
-        composite_type = Tree("composite_type", [Token("symbolset", "symbolset")])
+        composite_type = Tree("composite_type", [tree.children.pop(0)])
 
         tree.data = "composite"
         tree.children.insert(0, composite_type)
-- 
2.43.0


From 1df301297f69721e68b8558a5372a5fc6a0badea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:40 +0000
Subject: [PATCH 22/43] fix: keep all the comments on a line, and write #
 comments after /* */ comments

---
 mappyfile/parser.py | 6 +++---
 mappyfile/pprint.py | 3 ++-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/mappyfile/parser.py b/mappyfile/parser.py
index 569f665..355819a 100644
--- a/mappyfile/parser.py
+++ b/mappyfile/parser.py
@@ -226,7 +226,7 @@ class Parser:
 
                 for line_number in line_numbers:
                     if line_number <= line:
-                        comments.append(self.comments_dict.pop(line_number))
+                        comments += self.comments_dict.pop(line_number)
 
                 if comments:
                     node.meta.comments = comments  # type: ignore
@@ -317,9 +317,9 @@ class Parser:
             tree = ip.resume_parse()
             if self.include_comments:
                 self.comments_dict = {}
-                # create a dictionary using line numbers as keys, and comments as values
+                # create a dictionary using line numbers as keys, and lists of comments as values
                 for c in self._comments:
-                    self.comments_dict[c.line] = c.value.strip()
+                    self.comments_dict.setdefault(c.line, []).append(c.value.strip())
                 # a SYMBOLSET is the root of the tree
                 self._assign_comments(Tree("root", [tree]))
 
diff --git a/mappyfile/pprint.py b/mappyfile/pprint.py
index 043ebd7..a0af9fc 100644
--- a/mappyfile/pprint.py
+++ b/mappyfile/pprint.py
@@ -527,8 +527,9 @@ class PrettyPrinter:
 
             # for multiple comments associated with an attribute
             # simply join them together as a single string
+            # a # comment ends at a line break, so these are placed last
             if isinstance(value, list):
-                value = " ".join(value)
+                value = " ".join(sorted(value, key=lambda v: v.startswith("#")))
 
             comment = self.format_comment(spacer, value)
 
-- 
2.43.0


From 3748f4ec29e627236c9bb9b5fbe748416df334f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:21 +0000
Subject: [PATCH 23/43] fix: match exact values in find and findall, and never
 add missing keys in query helpers

---
 mappyfile/dictutils.py | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/mappyfile/dictutils.py b/mappyfile/dictutils.py
index f87186a..7bccc10 100644
--- a/mappyfile/dictutils.py
+++ b/mappyfile/dictutils.py
@@ -28,6 +28,7 @@
 # =================================================================
 
 from __future__ import annotations
+import copy
 from typing import Any
 from itertools import zip_longest
 
@@ -78,7 +79,9 @@ def find(lst: list[dict], key: str, value: Any) -> dict | None:
         cmp = mappyfile.find(d["layers"], "name", "Layer2")
         assert cmp["name"] == "Layer2"
     """
-    return next((item for item in lst if item[key.lower()] == value), None)
+    k = key.lower()
+    # check for the key first, as reading a missing key can add it to the item
+    return next((item for item in lst if k in item and item[k] == value), None)
 
 
 def findall(lst: list[dict], key: str, value: Any) -> list[dict]:
@@ -94,7 +97,7 @@ def findall(lst: list[dict], key: str, value: Any) -> list[dict]:
     key: string
         The key name to search each dictionary in the list
     key: value
-        The value to search for
+        The value to search for, or a list of values
 
     Returns
     -------
@@ -136,7 +139,12 @@ def findall(lst: list[dict], key: str, value: Any) -> list[dict]:
         layers = mappyfile.findall(d["layers"], "group", "test")
         assert len(layers) == 2
     """
-    return [item for item in lst if item[key.lower()] and item[key.lower()] in value]
+    k = key.lower()
+    values = [value]
+    if isinstance(value, (list, tuple, set, frozenset)):
+        values += value
+
+    return [item for item in lst if k in item and item[k] in values]
 
 
 def findunique(lst, key):
@@ -187,12 +195,15 @@ def findunique(lst, key):
         groups = mappyfile.findunique(d["classes"], "group")
         assert groups == ["group1", "group2"]
     """
-    return sorted(
-        set((item.get(key.lower(), None) for item in lst))
-        - {
-            None,
-        }
-    )
+    values: list[Any] = []
+
+    for item in lst:
+        # values can be lists such as colors
+        value = item.get(key.lower(), None)
+        if value is not None and value not in values:
+            values.append(value)
+
+    return sorted(values)
 
 
 def findkey(d: dict, *keys: list[Any]) -> dict:
@@ -240,6 +251,9 @@ def findkey(d: dict, *keys: list[Any]) -> dict:
     if keys:
         keys_list = list(keys)
         search_key = keys_list.pop(0)
+        if isinstance(d, dict) and search_key not in d:
+            # reading a missing key can add it to the dictionary
+            d = copy.copy(d)
         return findkey(d[search_key], *keys_list)
 
     return d
-- 
2.43.0


From 70aae1a3a87c61645285c09a93d8428e2e6c15d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:21 +0000
Subject: [PATCH 24/43] fix: follow the documented rules in update for missing
 keys, None placeholders and values of differing types

---
 mappyfile/dictutils.py | 69 ++++++++++++++++++++++++------------------
 1 file changed, 40 insertions(+), 29 deletions(-)

diff --git a/mappyfile/dictutils.py b/mappyfile/dictutils.py
index 7bccc10..c4e4e8f 100644
--- a/mappyfile/dictutils.py
+++ b/mappyfile/dictutils.py
@@ -30,7 +30,6 @@
 from __future__ import annotations
 import copy
 from typing import Any
-from itertools import zip_longest
 
 
 def find(lst: list[dict], key: str, value: Any) -> dict | None:
@@ -295,41 +294,53 @@ def update(d1: dict, d2: dict, overwrite: bool = True) -> dict:
         if isinstance(v, dict):
             if v.get("__delete__", False):
                 # allow a __delete__ property to be set to delete objects
-                del d1[k]
-            else:
-                d1[k] = update(d1.get(k, {}), v, overwrite)
+                d1.pop(k, None)
+            elif isinstance(d1.get(k), dict):
+                d1[k] = update(d1[k], v, overwrite)
+            elif overwrite is True or k not in d1:
+                d1[k] = update({}, v, overwrite)
         elif isinstance(v, (tuple, list)) and all(
             isinstance(li, (none_type, dict)) for li in v  # type: ignore
         ):
             # a list of dicts and/or none_type
-            orig_list = d1.get(k, [])
-            new_list = []
-            pairs = list(zip_longest(orig_list, v, fillvalue=None))
-            for orig_item, new_item in pairs:
-                if orig_item is None:
-                    orig_item = (
-                        {}
-                    )  # can't use {} for fillvalue as only one dict created/modified!
-                if new_item is None:
-                    new_item = {}
-
-                if new_item.get("__delete__", False):
-                    d = None  # orig_list.remove(orig_item) # remove the item to delete
-                else:
-                    d = update(orig_item, new_item, overwrite)
-
-                if d is not None:
-                    new_list.append(d)
-            d1[k] = new_list
-        else:
-            if k in d1 and v == "__delete__":
-                del d1[k]
-            else:
-                if overwrite is True or k not in d1:
-                    d1[k] = v
+            orig_list = d1.get(k)
+            if not isinstance(orig_list, (tuple, list)):
+                if overwrite is False and k in d1:
+                    continue
+                orig_list = []
+            d1[k] = update_list(orig_list, v, overwrite)
+        elif isinstance(v, str) and v == "__delete__":
+            d1.pop(k, None)
+        elif overwrite is True or k not in d1:
+            d1[k] = v
     return d1
 
 
+def update_list(orig_list, updates, overwrite: bool) -> list:
+    """
+    Update a list of dicts, using the dict (or None) at the same index
+    """
+    new_list = []
+
+    for idx, item in enumerate(orig_list):
+        new_item = updates[idx] if idx < len(updates) else None
+        if new_item is None:
+            new_list.append(item)
+        elif new_item.get("__delete__", False):
+            pass  # remove the item
+        elif isinstance(item, dict):
+            new_list.append(update(item, new_item, overwrite))
+        else:
+            new_list.append(update({}, new_item, overwrite) if overwrite else item)
+
+    # add any new items
+    for new_item in updates[len(orig_list) :]:
+        if new_item is not None and not new_item.get("__delete__", False):
+            new_list.append(update({}, new_item, overwrite))
+
+    return new_list
+
+
 def dict_move_to_end(ordered_dict, key):
     # also works for standard dictionaries
     ordered_dict[key] = ordered_dict.pop(key)
-- 
2.43.0


From 6559777ca91fb812b8e2d0d59f44eb77de0219f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:32 +0000
Subject: [PATCH 25/43] fix: describe LABEL BACKGROUNDSHADOWSIZE as a pair of
 integers in the schema

---
 mappyfile/schemas/label.json | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/mappyfile/schemas/label.json b/mappyfile/schemas/label.json
index 4f781ec..f837442 100644
--- a/mappyfile/schemas/label.json
+++ b/mappyfile/schemas/label.json
@@ -79,12 +79,13 @@
       }
     },
     "backgroundshadowsize": {
+      "type": "array",
+      "items": {
+        "type": "integer"
+      },
+      "minItems": 2,
+      "maxItems": 2,
       "default": false,
-      "allOf": [
-        {
-          "$ref": "points.json"
-        }
-      ],
       "metadata": {
         "maxVersion": 6.0
       }
-- 
2.43.0


From e9bd486852a710316aba53eb2b16a88c658bc2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:59 +0000
Subject: [PATCH 26/43] fix: remove SYMBOL objects as a value of STYLE and
 CLASS SYMBOL from the schemas

---
 mappyfile/schemas/class.json | 3 ---
 mappyfile/schemas/style.json | 3 ---
 2 files changed, 6 deletions(-)

diff --git a/mappyfile/schemas/class.json b/mappyfile/schemas/class.json
index 8ee403a..6a3c380 100644
--- a/mappyfile/schemas/class.json
+++ b/mappyfile/schemas/class.json
@@ -151,9 +151,6 @@
         },
         {
           "type": "number"
-        },
-        {
-          "$ref": "symbol.json"
         }
       ],
       "metadata": {
diff --git a/mappyfile/schemas/style.json b/mappyfile/schemas/style.json
index 702d4d2..7fcf45c 100644
--- a/mappyfile/schemas/style.json
+++ b/mappyfile/schemas/style.json
@@ -298,9 +298,6 @@
         {
           "type": "number",
           "minimum": 0
-        },
-        {
-          "$ref": "symbol.json"
         }
       ]
     },
-- 
2.43.0


From 4e54afe29fe6e5a335a0be8b3259733d4b3632da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:13 +0000
Subject: [PATCH 27/43] fix: quote words used as the value of STYLE unless
 listed in the schema

---
 mappyfile/pprint.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mappyfile/pprint.py b/mappyfile/pprint.py
index a0af9fc..3458d2d 100644
--- a/mappyfile/pprint.py
+++ b/mappyfile/pprint.py
@@ -443,7 +443,8 @@ class PrettyPrinter:
             # a keyword with a set list of values, or numeric values
             if self.quoter.is_runtime_variable(value):
                 return value
-            if self.quoter.is_bare_word(value):
+            if self.quoter.is_bare_word(value) and attr not in COMPLEX_TYPES:
+                # a keyword such as STYLE followed by a word is read as a block
                 return value.upper() if enums else value
 
         return str(self.quoter.escape_quotes(self.quoter.add_quotes(value)))
-- 
2.43.0


From 4e8de13f2d56ec9eb236c6d01b964ee38eaa5b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:21 +0000
Subject: [PATCH 28/43] fix: choose quotes for METADATA, CONFIG, PROJECTION and
 repeated values so they can be read back

---
 mappyfile/pprint.py | 16 ++++++++--------
 mappyfile/quoter.py | 15 +++++++++++++++
 2 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/mappyfile/pprint.py b/mappyfile/pprint.py
index 3458d2d..e7f1b36 100644
--- a/mappyfile/pprint.py
+++ b/mappyfile/pprint.py
@@ -199,8 +199,8 @@ class PrettyPrinter:
 
         for k, v in d.items():
             if not self.__is_metadata(k):
-                qk = self.quoter.add_quotes(k)
-                qv = self.quoter.add_quotes(self.check_item(k, v))
+                qk = self.quoter.add_safe_quotes(k)
+                qv = self.quoter.add_safe_quotes(self.check_item(k, v))
                 line = self.__format_line(
                     self.whitespace(level, 2), qk, qv, aligned_max_indent
                 )
@@ -217,8 +217,8 @@ class PrettyPrinter:
         for k, v in d.items():
             if self.__is_metadata(k):
                 continue
-            cfg_val = self.quoter.add_quotes(k.upper())
-            v = self.quoter.add_quotes(self.check_item(k, v))
+            cfg_val = self.quoter.add_safe_quotes(k.upper())
+            v = self.quoter.add_safe_quotes(self.check_item(k, v))
             k = f"CONFIG {cfg_val}"
             lines.append(self.__format_line(self.whitespace(level, 1), k, v))
         return lines
@@ -238,7 +238,7 @@ class PrettyPrinter:
 
         for v in lst:
             k = key.upper()
-            v = self.quoter.add_quotes(self.check_item(key, v))
+            v = self.quoter.add_safe_quotes(self.check_item(key, v))
             lines.append(
                 self.__format_line(self.whitespace(level, 1), k, v, aligned_max_indent)
             )
@@ -264,7 +264,7 @@ class PrettyPrinter:
             lines.append(f"{whitespace}AUTO")
         else:
             for v in lst:
-                v = self.quoter.add_quotes(self.check_item(key, v))
+                v = self.quoter.add_safe_quotes(self.check_item(key, v))
                 lines.append(f"{whitespace}{v}")
 
         lines.append(self.add_end_line(level, 1, key))
@@ -456,7 +456,7 @@ class PrettyPrinter:
         if isinstance(value, str):
             if self.quoter.is_attribute_binding(value):
                 return value
-            return self.quoter.add_quotes(value)
+            return self.quoter.add_safe_quotes(value)
 
         if isinstance(value, numbers.Number) and not isinstance(value, bool):
             return str(value)
@@ -469,7 +469,7 @@ class PrettyPrinter:
 
         if isinstance(value, numbers.Number):
             if attr_props.get("type") == "string" and "enum" not in attr_props:
-                return self.quoter.add_quotes(str(value))
+                return self.quoter.add_safe_quotes(value)
             return value
 
         if self.quoter.is_string(value):
diff --git a/mappyfile/quoter.py b/mappyfile/quoter.py
index c2cec4a..4b34b7e 100644
--- a/mappyfile/quoter.py
+++ b/mappyfile/quoter.py
@@ -71,6 +71,21 @@ class Quoter:
     def _add_quotes(self, val: str, quote: str) -> str:
         return f"{quote}{val}{quote}"
 
+    def add_safe_quotes(self, val: Any) -> str:
+        """
+        Add quotes to a value, using the alternative quotes for a string that
+        contains the default ones so it can be read back unchanged
+        """
+        val = str(val)
+        if not self._has_unescaped(val, self.quote):
+            return self.add_quotes(val)
+        if not self._has_unescaped(val, self.altquote):
+            return self.add_altquotes(val)
+        return self.escape_quotes(self.add_quotes(val))
+
+    def _has_unescaped(self, val: str, char: str) -> bool:
+        return char in val.replace("\\" + char, "")
+
     def in_quotes(self, val: str) -> bool:
         return self._in_quotes(val, self.quote) or self._in_quotes(val, self.altquote)
 
-- 
2.43.0


From 323dcebd1afd5d55e86ccdd8af22e0795f7c8961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:09 +0000
Subject: [PATCH 29/43] fix: write booleans and lists as values of repeated
 keywords without quotes

---
 mappyfile/pprint.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mappyfile/pprint.py b/mappyfile/pprint.py
index e7f1b36..dee32e5 100644
--- a/mappyfile/pprint.py
+++ b/mappyfile/pprint.py
@@ -238,7 +238,11 @@ class PrettyPrinter:
 
         for v in lst:
             k = key.upper()
-            v = self.quoter.add_safe_quotes(self.check_item(key, v))
+            if isinstance(v, (bool, list, tuple)):
+                # not a string or number, so must be written without quotes
+                v = self.format_value(key, {}, v)
+            else:
+                v = self.quoter.add_safe_quotes(self.check_item(key, v))
             lines.append(
                 self.__format_line(self.whitespace(level, 1), k, v, aligned_max_indent)
             )
-- 
2.43.0


From 6bc7e3cf87b21c19e4040fb964fc2311c78b2b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:42 +0000
Subject: [PATCH 30/43] fix: print MAP blocks nested in other blocks

---
 mappyfile/tokens.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mappyfile/tokens.py b/mappyfile/tokens.py
index 57a4ed6..45be6b4 100644
--- a/mappyfile/tokens.py
+++ b/mappyfile/tokens.py
@@ -411,6 +411,7 @@ REPEATED_KEYS = ("processing", "formatoption", "include", "compfilter")
 # for example lists of layers
 OBJECT_LIST_KEYS = frozenset(
     """
+maps
 layers
 classes
 styles
-- 
2.43.0


From 15f03767960851c01dccd75754b22840370a392c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:58 +0000
Subject: [PATCH 31/43] fix: no trailing space after METADATA pairs without
 comments

---
 mappyfile/pprint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mappyfile/pprint.py b/mappyfile/pprint.py
index dee32e5..3a63e48 100644
--- a/mappyfile/pprint.py
+++ b/mappyfile/pprint.py
@@ -524,7 +524,7 @@ class PrettyPrinter:
         return comment
 
     def process_attribute_comment(self, comments: dict, key: str) -> str:
-        if key not in comments:
+        if not comments.get(key):
             comment = ""
         else:
             value = comments[key]
-- 
2.43.0


From 7f6907f6a9233d499473f575d2f544f25b38fd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:12 +0000
Subject: [PATCH 32/43] fix: create objects with case-insensitive keys

---
 mappyfile/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mappyfile/utils.py b/mappyfile/utils.py
index cf9c9c8..ee4ad13 100644
--- a/mappyfile/utils.py
+++ b/mappyfile/utils.py
@@ -31,7 +31,7 @@ from __future__ import annotations
 import codecs
 import warnings
 import functools
-from mappyfile.ordereddict import DefaultOrderedDict
+from mappyfile.ordereddict import CaseInsensitiveOrderedDict
 from mappyfile.parser import Parser
 from mappyfile.transformer import MapfileToDict
 from mappyfile.pprint import PrettyPrinter
@@ -503,7 +503,7 @@ def create(type: str, version=None) -> dict:
     except IOError as exc:
         raise SyntaxError("The mappyfile type '{type}' does not exist!") from exc
 
-    d = DefaultOrderedDict()
+    d = CaseInsensitiveOrderedDict()
     d["__type__"] = type
 
     properties = sorted(schema["properties"].items())
-- 
2.43.0


From d9d918b7e5b1e1e4212ba18bbdb24fc47da1f356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:22 +0000
Subject: [PATCH 33/43] fix: align METADATA values using all of the keys

---
 mappyfile/pprint.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/mappyfile/pprint.py b/mappyfile/pprint.py
index 3a63e48..faada04 100644
--- a/mappyfile/pprint.py
+++ b/mappyfile/pprint.py
@@ -194,7 +194,15 @@ class PrettyPrinter:
 
         aligned_max_indent = 0
         if self.align_values:
-            max_key_length = self.compute_max_key_length(d) + 2  # add length of quotes
+            # the keys are strings so may also be the names of blocks
+            max_key_length = max(
+                [
+                    len(self.quoter.add_safe_quotes(k))
+                    for k in d
+                    if not self.__is_metadata(k)
+                ],
+                default=0,
+            )
             aligned_max_indent = self.compute_aligned_max_indent(max_key_length)
 
         for k, v in d.items():
-- 
2.43.0


From f8ce986f09bd2efec866558badc1f1256a8a30c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:52 +0000
Subject: [PATCH 34/43] fix: keep two minus signs in a row apart in expressions

---
 mappyfile/transformer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mappyfile/transformer.py b/mappyfile/transformer.py
index e12ff91..e05b51d 100644
--- a/mappyfile/transformer.py
+++ b/mappyfile/transformer.py
@@ -546,7 +546,11 @@ class MapfileTransformer(Transformer):
 
     def neg(self, t):
         assert len(t) == 1
-        return self.operation(t, f"-{self.source_text(t[0])}")
+        operand = self.source_text(t[0])
+
+        # two minus signs in a row would be read as part of a word
+        space = " " if operand.startswith("-") else ""
+        return self.operation(t, f"-{space}{operand}")
 
     def runtime_var(self, t):
         v = t[0]
-- 
2.43.0


From 79dec27f921a4c01cce30fadd8ea7ec876de25d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:11 +0000
Subject: [PATCH 35/43] fix: assign comments to nodes in linear time

---
 mappyfile/parser.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mappyfile/parser.py b/mappyfile/parser.py
index 355819a..cbd2603 100644
--- a/mappyfile/parser.py
+++ b/mappyfile/parser.py
@@ -31,6 +31,7 @@ from __future__ import annotations
 import os
 import logging
 import re
+from collections import deque
 from io import open
 from lark import Lark, ParseError, Tree, UnexpectedInput
 from typing import Any, IO
@@ -221,12 +222,10 @@ class Parser:
 
                 if node.data in ("projection"):
                     line = node.meta.end_line
-                line_numbers = list(sorted(self.comments_dict.keys()))
                 comments = []
 
-                for line_number in line_numbers:
-                    if line_number <= line:
-                        comments += self.comments_dict.pop(line_number)
+                while self.comment_lines and self.comment_lines[0] <= line:
+                    comments += self.comments_dict.pop(self.comment_lines.popleft())
 
                 if comments:
                     node.meta.comments = comments  # type: ignore
@@ -320,6 +319,8 @@ class Parser:
                 # create a dictionary using line numbers as keys, and lists of comments as values
                 for c in self._comments:
                     self.comments_dict.setdefault(c.line, []).append(c.value.strip())
+                # the line numbers of the comments that are still to be assigned
+                self.comment_lines = deque(sorted(self.comments_dict))
                 # a SYMBOLSET is the root of the tree
                 self._assign_comments(Tree("root", [tree]))
 
-- 
2.43.0


From a998411b82871591a3b2f9b1d8b5cc10b0bb5ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:11 +0000
Subject: [PATCH 36/43] fix: report Mapfiles that are too deeply nested with a
 ParseError

---
 mappyfile/parser.py      | 5 ++++-
 mappyfile/transformer.py | 8 +++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/mappyfile/parser.py b/mappyfile/parser.py
index cbd2603..6b11221 100644
--- a/mappyfile/parser.py
+++ b/mappyfile/parser.py
@@ -322,7 +322,10 @@ class Parser:
                 # the line numbers of the comments that are still to be assigned
                 self.comment_lines = deque(sorted(self.comments_dict))
                 # a SYMBOLSET is the root of the tree
-                self._assign_comments(Tree("root", [tree]))
+                try:
+                    self._assign_comments(Tree("root", [tree]))
+                except RecursionError as ex:
+                    raise ParseError("The Mapfile is too deeply nested") from ex
 
             return tree
         except (ParseError, UnexpectedInput) as ex:
diff --git a/mappyfile/transformer.py b/mappyfile/transformer.py
index e05b51d..3871f55 100644
--- a/mappyfile/transformer.py
+++ b/mappyfile/transformer.py
@@ -35,7 +35,7 @@ Python dict structure
 from __future__ import annotations
 import logging
 from collections import OrderedDict
-from lark import Tree
+from lark import ParseError, Tree
 from lark.visitors import Transformer_InPlace, Transformer, v_args
 from lark.lexer import Token
 from .parser import lark_cython
@@ -767,6 +767,12 @@ class MapfileToDict:
         self.kwargs = kwargs
 
     def transform(self, tree):
+        try:
+            return self._transform(tree)
+        except RecursionError as ex:
+            raise ParseError("The Mapfile is too deeply nested") from ex
+
+    def _transform(self, tree):
         tree = Canonize().transform(tree)
 
         self.mapfile_transformer = self.transformer_class(
-- 
2.43.0


From 77299f196fd7e157201e9566e053124fc1a8115e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:17 +0000
Subject: [PATCH 37/43] fix: keep the comments of repeated keywords such as
 PROCESSING

---
 mappyfile/pprint.py      | 22 ++++++++++++++++------
 mappyfile/transformer.py |  6 ++++++
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/mappyfile/pprint.py b/mappyfile/pprint.py
index faada04..47dd77a 100644
--- a/mappyfile/pprint.py
+++ b/mappyfile/pprint.py
@@ -232,7 +232,12 @@ class PrettyPrinter:
         return lines
 
     def process_repeated_list(
-        self, key: str, lst: list[str], level: int, aligned_max_indent: int = 1
+        self,
+        key: str,
+        lst: list[str],
+        level: int,
+        aligned_max_indent: int = 1,
+        comments: (list | None) = None,
     ) -> list[str]:
         """
         Process blocks of repeated keys e.g. FORMATOPTION
@@ -244,16 +249,21 @@ class PrettyPrinter:
             lst = [lst]
         self.check_list(key, lst)
 
-        for v in lst:
+        # each item can have its own comments
+        item_comments = dict(enumerate(comments if isinstance(comments, list) else []))
+
+        for idx, v in enumerate(lst):
             k = key.upper()
             if isinstance(v, (bool, list, tuple)):
                 # not a string or number, so must be written without quotes
                 v = self.format_value(key, {}, v)
             else:
                 v = self.quoter.add_safe_quotes(self.check_item(key, v))
-            lines.append(
-                self.__format_line(self.whitespace(level, 1), k, v, aligned_max_indent)
+            line = self.__format_line(
+                self.whitespace(level, 1), k, v, aligned_max_indent
             )
+            line += self.process_attribute_comment(item_comments, idx)
+            lines.append(line)
 
         return lines
 
@@ -531,7 +541,7 @@ class PrettyPrinter:
 
         return comment
 
-    def process_attribute_comment(self, comments: dict, key: str) -> str:
+    def process_attribute_comment(self, comments: dict, key: (str | int)) -> str:
         if not comments.get(key):
             comment = ""
         else:
@@ -599,7 +609,7 @@ class PrettyPrinter:
                 )
             elif attr in REPEATED_KEYS:
                 lines += self.process_repeated_list(
-                    attr, value, level, aligned_max_indent
+                    attr, value, level, aligned_max_indent, comments.get(attr)
                 )
             elif attr == "points":
                 lines += self.format_repeated_pair_list(attr, value, level)
diff --git a/mappyfile/transformer.py b/mappyfile/transformer.py
index 3871f55..447041c 100644
--- a/mappyfile/transformer.py
+++ b/mappyfile/transformer.py
@@ -261,6 +261,12 @@ class MapfileTransformer(Transformer):
                         if key_name not in position_dict:
                             position_dict[key_name] = []
                         position_dict[key_name].append(pos)
+                    if self.include_comments and comments:
+                        # the comments of each item, in the order of the items
+                        items_comments = comments_dict.setdefault(key_name, [])
+                        missing = len(composite_dict[key_name]) - len(items_comments)
+                        items_comments += [[] for _ in range(missing)]
+                        items_comments[-1] += comments
                 else:
                     assert len(d.items()) == 1
                     if position_dict:
-- 
2.43.0


From f77a144841edd79e2b093e24cd13b12e34e28e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:34 +0000
Subject: [PATCH 38/43] fix: accept operator words such as AND and IN as
 unquoted METADATA and CONFIG values

---
 mappyfile/mapfile.lark   | 8 ++++++--
 mappyfile/transformer.py | 1 -
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/mappyfile/mapfile.lark b/mappyfile/mapfile.lark
index faee263..c7b732c 100644
--- a/mappyfile/mapfile.lark
+++ b/mappyfile/mapfile.lark
@@ -39,7 +39,7 @@ composite_body: _composite_item*
 _composite_item: (composite|attr|points|projection|pattern|values|config)
 
 !projection: "PROJECTION"i (string*|AUTO) _END
-!config: "CONFIG"i (string | UNQUOTED_STRING) (string | UNQUOTED_STRING)
+!config: "CONFIG"i _pair_item _pair_item
 
 !points: "POINTS"i num_pair* _END
 !pattern: "PATTERN"i num_pair* _END
@@ -68,7 +68,11 @@ extent: (int|float) (int|float) (int|float) (int|float)
 !_attr_keyword: "AUTO"i | "HILITE"i | "NORMAL"i | "SELECTED"i 
 
 string: DOUBLE_QUOTED_STRING | SINGLE_QUOTED_STRING | ESCAPED_STRING
-string_pair: (string|UNQUOTED_STRING) (string|UNQUOTED_STRING)
+string_pair: _pair_item _pair_item
+_pair_item: string | UNQUOTED_STRING | _operator_word
+
+// words used in expressions, these can also be unquoted strings in a pair
+!_operator_word: "AND"i | "OR"i | "IN"i | "NE"i | "EQ"i | "LE"i | "LT"i | "GE"i | "GT"i | "LIKE"i
 
 attr_bind_pair: attr_bind attr_bind
 attr_mixed_pair: attr_bind (int|float) | (int|float) attr_bind
diff --git a/mappyfile/transformer.py b/mappyfile/transformer.py
index 447041c..0fa2b38 100644
--- a/mappyfile/transformer.py
+++ b/mappyfile/transformer.py
@@ -704,7 +704,6 @@ class CommentsTransformer(Transformer_InPlace):
 
                 if isinstance(sp.children[0], TOKEN_TYPES):
                     token = sp.children[0]
-                    assert token.type == "UNQUOTED_STRING"
                     key = token.value
                 else:
                     # quoted string (double or single)
-- 
2.43.0


From acf9c35ef0e62f39e56794824b94a3ea9961407a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:49 +0000
Subject: [PATCH 39/43] fix: refuse to print a value that is not an object for
 LEGEND and other object keywords

---
 mappyfile/pprint.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mappyfile/pprint.py b/mappyfile/pprint.py
index 47dd77a..b7c588c 100644
--- a/mappyfile/pprint.py
+++ b/mappyfile/pprint.py
@@ -625,6 +625,10 @@ class PrettyPrinter:
                     raise UnboundLocalError(
                         "The Mapfile object is missing a __type__ attribute"
                     )
+                if attr in SINGLETON_COMPOSITE_NAMES:
+                    raise ValueError(
+                        f"The value of {attr.upper()} is not a Mapfile object"
+                    )
                 line = self.process_attribute(
                     type_, attr, value, level, aligned_max_indent
                 )
-- 
2.43.0


From 67d2eb3cba141738dfe0fe4887692f1f80e1f9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:24 +0000
Subject: [PATCH 40/43] =?UTF-8?q?fix:=20only=20ignore=20the=20case=20of=20?=
 =?UTF-8?q?ASCII=20letters=20when=20parsing,=20as=20in=20words=20such=20as?=
 =?UTF-8?q?=20POINT=C5=BF?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 mappyfile/parser.py | 9 ++++++++-
 mappyfile/pprint.py | 2 +-
 mappyfile/quoter.py | 4 +++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/mappyfile/parser.py b/mappyfile/parser.py
index 6b11221..0457812 100644
--- a/mappyfile/parser.py
+++ b/mappyfile/parser.py
@@ -137,7 +137,14 @@ class Parser:
                 {"propagate_positions": True, "lexer_callbacks": callbacks}
             )
 
-        return Lark.open("mapfile.lark", rel_to=__file__, parser="lalr", **extra_args)
+        # only ASCII letters are case-insensitive - the long s (U+017F) is not an S
+        return Lark.open(
+            "mapfile.lark",
+            rel_to=__file__,
+            parser="lalr",
+            g_regex_flags=re.ASCII,
+            **extra_args,
+        )
 
     def _get_include_filename(self, line: str) -> str | None:
         """
diff --git a/mappyfile/pprint.py b/mappyfile/pprint.py
index b7c588c..43e73d9 100644
--- a/mappyfile/pprint.py
+++ b/mappyfile/pprint.py
@@ -429,7 +429,7 @@ class PrettyPrinter:
         options = self.get_options(attr_props)
         enums = [option for option in options if "enum" in option]
 
-        if any(value.lower() in option["enum"] for option in enums):
+        if value.isascii() and any(value.lower() in option["enum"] for option in enums):
             if value.lower() == "end" or attr == "compop":
                 # in GEOTRANSFORM "end" is an attribute value
                 return self.quoter.add_quotes(value)
diff --git a/mappyfile/quoter.py b/mappyfile/quoter.py
index 4b34b7e..4caf92c 100644
--- a/mappyfile/quoter.py
+++ b/mappyfile/quoter.py
@@ -38,7 +38,9 @@ log = logging.getLogger("mappyfile")
 
 # strings that can be used in a Mapfile without any quotes
 BARE_WORD = re.compile(r"[A-Za-z_][A-Za-z0-9_\-:]*")
-ATTRIBUTE_BINDING = re.compile(r"\[[a-z0-9_\xc0-\xff\-:]+\]", re.IGNORECASE)
+ATTRIBUTE_BINDING = re.compile(
+    r"\[[a-z0-9_\xc0-\xff\-:]+\]", re.IGNORECASE | re.ASCII
+)
 RUNTIME_VARIABLE = re.compile(r"%[^%\r\n]*%")
 REGEX = re.compile(r"/[^/\r\n]*/i?|\\\\((?!\\\\)[^\r\n])*\\\\i?")
 CASE_INSENSITIVE_STRING = re.compile(r"""\"(\\"|[^"])*\"i|'(\\'|[^'])*'i""")
-- 
2.43.0


From 9f01c4147a283bcb0259e078478828a3f77ab419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:43 +0000
Subject: [PATCH 41/43] fix: keep letters whose upper-case is read back as
 other letters in keywords and CONFIG keys

---
 mappyfile/pprint.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/mappyfile/pprint.py b/mappyfile/pprint.py
index 43e73d9..d17b2bd 100644
--- a/mappyfile/pprint.py
+++ b/mappyfile/pprint.py
@@ -30,6 +30,7 @@
 from __future__ import annotations
 import logging
 import numbers
+import re
 from mappyfile.tokens import (
     COMPOSITE_NAMES,
     SINGLETON_COMPOSITE_NAMES,
@@ -133,11 +134,18 @@ class PrettyPrinter:
             if self.is_complex_type(composite, key, level):
                 dictutils.dict_move_to_end(composite, key)
 
+    def upper(self, key: str) -> str:
+        """
+        Write a key in upper-case, apart from any letters which would be changed
+        when they are read back e.g. the upper-case of ß is SS
+        """
+        return re.sub("[a-z\xe0-\xf6\xf8-\xfe]", lambda letter: letter.group().upper(), key)
+
     def whitespace(self, level: int, indent: int) -> str:
         return self.spacer * (level + indent)
 
     def add_start_line(self, key: str, level: int) -> str:
-        return self.whitespace(level, 1) + key.upper()
+        return self.whitespace(level, 1) + self.upper(key)
 
     def add_end_line(self, level: int, indent: int, key: str) -> str:
         end_line = self.whitespace(level, indent) + self.end
@@ -225,7 +233,7 @@ class PrettyPrinter:
         for k, v in d.items():
             if self.__is_metadata(k):
                 continue
-            cfg_val = self.quoter.add_safe_quotes(k.upper())
+            cfg_val = self.quoter.add_safe_quotes(self.upper(k))
             v = self.quoter.add_safe_quotes(self.check_item(k, v))
             k = f"CONFIG {cfg_val}"
             lines.append(self.__format_line(self.whitespace(level, 1), k, v))
@@ -253,7 +261,7 @@ class PrettyPrinter:
         item_comments = dict(enumerate(comments if isinstance(comments, list) else []))
 
         for idx, v in enumerate(lst):
-            k = key.upper()
+            k = self.upper(key)
             if isinstance(v, (bool, list, tuple)):
                 # not a string or number, so must be written without quotes
                 v = self.format_value(key, {}, v)
@@ -516,7 +524,7 @@ class PrettyPrinter:
         attr_props = self.get_attribute_properties(type_, attr)
         value = self.format_value(attr, attr_props, value)
         line = self.__format_line(
-            self.whitespace(level, 1), attr.upper(), value, aligned_max_indent
+            self.whitespace(level, 1), self.upper(attr), value, aligned_max_indent
         )
         return line
 
-- 
2.43.0


From 058f005af39bda8a8ff0c2541b7f59e8b82a4b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:58 +0000
Subject: [PATCH 42/43] fix: write infinite numbers so they can be read back,
 and refuse numbers that can't be

---
 mappyfile/pprint.py | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/mappyfile/pprint.py b/mappyfile/pprint.py
index d17b2bd..90d6b40 100644
--- a/mappyfile/pprint.py
+++ b/mappyfile/pprint.py
@@ -46,6 +46,9 @@ from typing import Any
 
 log = logging.getLogger("mappyfile")
 
+# numbers as they are written in a Mapfile
+NUMBER = re.compile(r"[+-]?(\d+(\.\d*)?|\.\d+)(e[+-]?\d+)?", re.IGNORECASE)
+
 
 # pylint: disable=too-many-arguments
 class PrettyPrinter:
@@ -314,13 +317,18 @@ class PrettyPrinter:
             self.check_list(key, p)
             if len(p) != 2:
                 raise ValueError(f"The property {key} has an invalid pair: {p}")
-            x, y = (self.check_item(key, v) for v in p)
+            x, y = (self.format_pair_item(key, v) for v in p)
             lines.append(f"{list_spacer}{x} {y}")
 
         lines.append(self.add_end_line(level, 1, key))
 
         return lines
 
+    def format_pair_item(self, key: str, value: Any) -> Any:
+        if isinstance(value, float):
+            return self.format_number(key, value)
+        return self.check_item(key, value)
+
     def format_repeated_pair_list(
         self, key: str, root_list: list[Any], level: int
     ) -> list[str]:
@@ -479,6 +487,15 @@ class PrettyPrinter:
 
         return str(self.quoter.escape_quotes(self.quoter.add_quotes(value)))
 
+    def format_number(self, attr: str, value: Any) -> str:
+        """
+        Format a number, infinity is written as a number that is too large for a float
+        """
+        text = str(value).replace("inf", "1e999")
+        if not NUMBER.fullmatch(text):
+            raise ValueError(f"The property {attr} has an invalid number: {value}")
+        return text
+
     def format_list_item(self, attr: str, value: Any) -> str:
         """
         Format one of the numbers, colors, or attribute bindings of a list
@@ -489,7 +506,7 @@ class PrettyPrinter:
             return self.quoter.add_safe_quotes(value)
 
         if isinstance(value, numbers.Number) and not isinstance(value, bool):
-            return str(value)
+            return self.format_number(attr, value)
 
         raise ValueError(f"The property {attr} has an invalid list item: {value}")
 
@@ -500,7 +517,7 @@ class PrettyPrinter:
         if isinstance(value, numbers.Number):
             if attr_props.get("type") == "string" and "enum" not in attr_props:
                 return self.quoter.add_safe_quotes(value)
-            return value
+            return self.format_number(attr, value)
 
         if self.quoter.is_string(value):
             return self.format_string(attr, attr_props, value)
-- 
2.43.0


From a11995f22ce57b694c397d6ad9c27eea74a4aba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:55 +0000
Subject: [PATCH 43/43] fix: ignore the letter case of keys and values in
 tuples when validating

---
 mappyfile/validator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mappyfile/validator.py b/mappyfile/validator.py
index f6e206a..8770b79 100644
--- a/mappyfile/validator.py
+++ b/mappyfile/validator.py
@@ -188,7 +188,7 @@ class Validator:
         return validator
 
     def convert_lowercase(self, x: Any) -> Any:
-        if isinstance(x, list):
+        if isinstance(x, (list, tuple)):
             return [self.convert_lowercase(v) for v in x]
 
         if isinstance(x, dict):
-- 
2.43.0

