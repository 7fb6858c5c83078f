From 4bba12a759a96a67dddc1cccefaed9ca7b32ac65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:52 +0000
Subject: [PATCH 01/45] fix: slices and async wildcards select nothing from
 strings

---
 jsonpath/selectors.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/jsonpath/selectors.py b/jsonpath/selectors.py
index 44007e9..29e222e 100644
--- a/jsonpath/selectors.py
+++ b/jsonpath/selectors.py
@@ -329,7 +329,11 @@ class SliceSelector(JSONPathSelector):
 
     def resolve(self, matches: Iterable[JSONPathMatch]) -> Iterable[JSONPathMatch]:
         for match in matches:
-            if not isinstance(match.obj, Sequence) or self.slice.step == 0:
+            if (
+                not isinstance(match.obj, Sequence)
+                or isinstance(match.obj, str)
+                or self.slice.step == 0
+            ):
                 continue
 
             for norm_index, obj in zip(  # noqa: B905
@@ -351,7 +355,11 @@ class SliceSelector(JSONPathSelector):
         self, matches: AsyncIterable[JSONPathMatch]
     ) -> AsyncIterable[JSONPathMatch]:
         async for match in matches:
-            if not isinstance(match.obj, Sequence) or self.slice.step == 0:
+            if (
+                not isinstance(match.obj, Sequence)
+                or isinstance(match.obj, str)
+                or self.slice.step == 0
+            ):
                 continue
 
             for norm_index, obj in zip(  # noqa: B905
@@ -423,6 +431,8 @@ class WildSelector(JSONPathSelector):
         self, matches: AsyncIterable[JSONPathMatch]
     ) -> AsyncIterable[JSONPathMatch]:
         async for match in matches:
+            if isinstance(match.obj, str):
+                continue
             if isinstance(match.obj, Mapping):
                 for key, val in match.obj.items():
                     _match = self.env.match_class(
-- 
2.43.0


From c6da9f3ebf0aa537523e2ed4ce0ff8d7d09d5668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:44 +0000
Subject: [PATCH 02/45] fix: quoted names and strings may end with an escaped
 backslash

---
 jsonpath/lex.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsonpath/lex.py b/jsonpath/lex.py
index 4c4422d..08c278f 100644
--- a/jsonpath/lex.py
+++ b/jsonpath/lex.py
@@ -99,8 +99,8 @@ class Lexer:
     def __init__(self, *, env: JSONPathEnvironment) -> None:
         self.env = env
 
-        self.double_quote_pattern = r'"(?P<G_DQUOTE>(?:(?!(?<!\\)").)*)"'
-        self.single_quote_pattern = r"'(?P<G_SQUOTE>(?:(?!(?<!\\)').)*)'"
+        self.double_quote_pattern = r'"(?P<G_DQUOTE>(?:[^"\\]|\\.)*)"'
+        self.single_quote_pattern = r"'(?P<G_SQUOTE>(?:[^'\\]|\\.)*)'"
 
         # .thing
         self.dot_property_pattern = rf"\.(?P<G_PROP>{self.key_pattern})"
-- 
2.43.0


From 49c4a50437c7258029c434bc3e08deff9bd7c95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:47 +0000
Subject: [PATCH 03/45] fix: shorthand names may contain characters outside the
 basic multilingual plane

---
 jsonpath/lex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonpath/lex.py b/jsonpath/lex.py
index 08c278f..b78dea7 100644
--- a/jsonpath/lex.py
+++ b/jsonpath/lex.py
@@ -85,7 +85,7 @@ class Lexer:
             logical _or_ tokens. By default, `or` and `||` are equivalent.
     """
 
-    key_pattern = r"[\u0080-\uFFFFa-zA-Z_][\u0080-\uFFFFa-zA-Z0-9_-]*"
+    key_pattern = r"[\u0080-\U0010FFFFa-zA-Z_][\u0080-\U0010FFFFa-zA-Z0-9_-]*"
 
     # `not` or !
     logical_not_pattern = r"(?:not\b)|!"
-- 
2.43.0


From 390d9d048e09be7f85d9af54336f5294ec267688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:52 +0000
Subject: [PATCH 04/45] fix: names starting with an identifier token are names

---
 jsonpath/lex.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/jsonpath/lex.py b/jsonpath/lex.py
index b78dea7..25d17a0 100644
--- a/jsonpath/lex.py
+++ b/jsonpath/lex.py
@@ -145,7 +145,7 @@ class Lexer:
             (TOKEN_AND, self.logical_and_pattern),
             (TOKEN_OR, self.logical_or_pattern),
             *[
-                (token, re.escape(pattern))
+                (token, self._identifier_pattern(pattern))
                 for token, pattern in sorted(
                     env_tokens, key=lambda x: len(x[1]), reverse=True
                 )
@@ -186,6 +186,16 @@ class Lexer:
             re.DOTALL,
         )
 
+    def _identifier_pattern(self, identifier: str) -> str:
+        """Return a pattern matching one of the environment's identifiers.
+
+        An identifier spelled like a name must not match a prefix of a longer name.
+        """
+        pattern = re.escape(identifier)
+        if re.match(r"[\w\u0080-\U0010FFFF]", identifier[-1]):
+            pattern += r"(?![\w\u0080-\U0010FFFF-])"
+        return pattern
+
     def tokenize(self, path: str) -> Iterator[Token]:  # noqa PLR0912
         """Generate a sequence of tokens from a JSONPath string."""
         _token = partial(Token, path=path)
-- 
2.43.0


From 47ef9d42093c682b5675356ea63a5116cc9c2fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:17 +0000
Subject: [PATCH 05/45] fix: operator words followed by a parenthesis are not
 function names

---
 jsonpath/lex.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jsonpath/lex.py b/jsonpath/lex.py
index 25d17a0..e992337 100644
--- a/jsonpath/lex.py
+++ b/jsonpath/lex.py
@@ -114,8 +114,10 @@ class Lexer:
         # /pattern/ or /pattern/flags
         self.re_pattern = r"/(?P<G_RE>.+?)/(?P<G_RE_FLAGS>[aims]*)"
 
-        # func(
-        self.function_pattern = r"(?P<G_FUNC>[a-z][a-z_0-9]+)\(\s*"
+        # func(, but not an operator word followed by a grouped expression
+        self.function_pattern = (
+            r"(?!(?:not|and|or|in|contains)\()(?P<G_FUNC>[a-z][a-z_0-9]+)\(\s*"
+        )
 
         self.rules = self.compile_rules()
 
-- 
2.43.0


From d1fd6463ea0ef49a2753498dec43188f33f85d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:22 +0000
Subject: [PATCH 06/45] fix: a reserved word ends where the name does

---
 jsonpath/lex.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/jsonpath/lex.py b/jsonpath/lex.py
index e992337..047ea1b 100644
--- a/jsonpath/lex.py
+++ b/jsonpath/lex.py
@@ -66,6 +66,9 @@ from .token import Token
 if TYPE_CHECKING:
     from . import JSONPathEnvironment
 
+# The end of a reserved word or identifier: not followed by more of a name.
+_WORD_END = r"(?![\w\u0080-\U0010FFFF-])"
+
 
 class Lexer:
     """Tokenize a JSONPath string.
@@ -88,13 +91,13 @@ class Lexer:
     key_pattern = r"[\u0080-\U0010FFFFa-zA-Z_][\u0080-\U0010FFFFa-zA-Z0-9_-]*"
 
     # `not` or !
-    logical_not_pattern = r"(?:not\b)|!"
+    logical_not_pattern = rf"(?:not{_WORD_END})|!"
 
     # && or `and`
-    logical_and_pattern = r"&&|(?:and\b)"
+    logical_and_pattern = rf"&&|(?:and{_WORD_END})"
 
     # || or `or`
-    logical_or_pattern = r"\|\||(?:or\b)"
+    logical_or_pattern = rf"\|\||(?:or{_WORD_END})"
 
     def __init__(self, *, env: JSONPathEnvironment) -> None:
         self.env = env
@@ -155,15 +158,15 @@ class Lexer:
             ],
             (TOKEN_WILD, r"\*"),
             (TOKEN_FILTER, r"\?"),
-            (TOKEN_IN, r"in\b"),
-            (TOKEN_TRUE, r"[Tt]rue\b"),
-            (TOKEN_FALSE, r"[Ff]alse\b"),
-            (TOKEN_NIL, r"[Nn]il\b"),
-            (TOKEN_NULL, r"[Nn]ull\b"),
-            (TOKEN_NONE, r"[Nn]one\b"),
-            (TOKEN_CONTAINS, r"contains\b"),
-            (TOKEN_UNDEFINED, r"undefined\b"),
-            (TOKEN_MISSING, r"missing\b"),
+            (TOKEN_IN, rf"in{_WORD_END}"),
+            (TOKEN_TRUE, rf"[Tt]rue{_WORD_END}"),
+            (TOKEN_FALSE, rf"[Ff]alse{_WORD_END}"),
+            (TOKEN_NIL, rf"[Nn]il{_WORD_END}"),
+            (TOKEN_NULL, rf"[Nn]ull{_WORD_END}"),
+            (TOKEN_NONE, rf"[Nn]one{_WORD_END}"),
+            (TOKEN_CONTAINS, rf"contains{_WORD_END}"),
+            (TOKEN_UNDEFINED, rf"undefined{_WORD_END}"),
+            (TOKEN_MISSING, rf"missing{_WORD_END}"),
             (TOKEN_LIST_START, r"\["),
             (TOKEN_RBRACKET, r"]"),
             (TOKEN_COMMA, r","),
@@ -195,7 +198,7 @@ class Lexer:
         """
         pattern = re.escape(identifier)
         if re.match(r"[\w\u0080-\U0010FFFF]", identifier[-1]):
-            pattern += r"(?![\w\u0080-\U0010FFFF-])"
+            pattern += _WORD_END
         return pattern
 
     def tokenize(self, path: str) -> Iterator[Token]:  # noqa PLR0912
-- 
2.43.0


From e2a4206a1432586b5f53022d4de0a9af1eb35612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:47 +0000
Subject: [PATCH 07/45] fix: malformed indices and slice bounds are syntax
 errors

---
 jsonpath/parse.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/jsonpath/parse.py b/jsonpath/parse.py
index eaef7fc..3c1c4f2 100644
--- a/jsonpath/parse.py
+++ b/jsonpath/parse.py
@@ -356,17 +356,17 @@ class Parser:
         if not start_token.value:
             start: Optional[int] = None
         else:
-            start = int(start_token.value)
+            start = self._parse_int(start_token)
 
         if not stop_token.value:
             stop: Optional[int] = None
         else:
-            stop = int(stop_token.value)
+            stop = self._parse_int(stop_token)
 
         if not step_token.value:
             step: Optional[int] = None
         else:
-            step = int(step_token.value)
+            step = self._parse_int(step_token)
 
         return SliceSelector(
             env=self.env,
@@ -403,7 +403,7 @@ class Parser:
                     IndexSelector(
                         env=self.env,
                         token=stream.current,
-                        index=int(stream.current.value),
+                        index=self._parse_int(stream.current),
                     )
                 )
             elif stream.current.kind == TOKEN_BARE_PROPERTY:
@@ -710,6 +710,12 @@ class Parser:
 
         return left
 
+    def _parse_int(self, token: Token) -> int:
+        try:
+            return int(token.value)
+        except ValueError as err:
+            raise JSONPathSyntaxError("invalid integer", token=token) from err
+
     def _decode_string_literal(self, token: Token) -> str:
         if self.env.unicode_escape:
             if token.kind == TOKEN_SINGLE_QUOTE_STRING:
-- 
2.43.0


From 8115f4b78decd4ff093fe43d896ace86cbb384dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:52 +0000
Subject: [PATCH 08/45] fix: integer literals keep their value

---
 jsonpath/parse.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/jsonpath/parse.py b/jsonpath/parse.py
index 3c1c4f2..50ac871 100644
--- a/jsonpath/parse.py
+++ b/jsonpath/parse.py
@@ -3,6 +3,7 @@
 from __future__ import annotations
 
 import json
+import math
 import re
 from typing import TYPE_CHECKING
 from typing import Callable
@@ -526,8 +527,14 @@ class Parser:
         return StringLiteral(value=self._decode_string_literal(stream.current))
 
     def parse_integer_literal(self, stream: TokenStream) -> FilterExpression:
-        # Convert to float first to handle scientific notation.
-        return IntegerLiteral(value=int(float(stream.current.value)))
+        try:
+            return IntegerLiteral(value=int(stream.current.value))
+        except ValueError:
+            # Scientific notation, or too many digits for int().
+            value = float(stream.current.value)
+            if math.isinf(value):
+                return FloatLiteral(value=value)
+            return IntegerLiteral(value=int(value))
 
     def parse_float_literal(self, stream: TokenStream) -> FilterExpression:
         return FloatLiteral(value=float(stream.current.value))
-- 
2.43.0


From 4686d230278749030d8656e51ac63067edf65373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:56 +0000
Subject: [PATCH 09/45] fix: an invalid regular expression literal is a syntax
 error

---
 jsonpath/parse.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/jsonpath/parse.py b/jsonpath/parse.py
index 50ac871..d8b5e61 100644
--- a/jsonpath/parse.py
+++ b/jsonpath/parse.py
@@ -629,7 +629,12 @@ class Parser:
             stream.next_token()
             for flag in set(stream.current.value):
                 flags |= self.RE_FLAG_MAP[flag]
-        return RegexLiteral(value=re.compile(pattern, flags))
+        try:
+            return RegexLiteral(value=re.compile(pattern, flags))
+        except (re.error, ValueError, OverflowError, RecursionError) as err:
+            raise JSONPathSyntaxError(
+                f"invalid regular expression: {err}", token=stream.current
+            ) from err
 
     def parse_list_literal(self, stream: TokenStream) -> FilterExpression:
         stream.next_token()
-- 
2.43.0


From 06dbcb4920a6ff7a3e754fb0b7aa6a7e67b21dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:20 +0000
Subject: [PATCH 10/45] fix: match() and search() are false for every unusable
 pattern

---
 jsonpath/function_extensions/match.py  | 2 +-
 jsonpath/function_extensions/search.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsonpath/function_extensions/match.py b/jsonpath/function_extensions/match.py
index 7bc8749..242000a 100644
--- a/jsonpath/function_extensions/match.py
+++ b/jsonpath/function_extensions/match.py
@@ -17,5 +17,5 @@ class Match(FilterFunction):
         try:
             # re.fullmatch caches compiled patterns internally
             return bool(re.fullmatch(pattern, string))
-        except (TypeError, re.error):
+        except (TypeError, ValueError, OverflowError, RecursionError, re.error):
             return False
diff --git a/jsonpath/function_extensions/search.py b/jsonpath/function_extensions/search.py
index ed88635..52cf45b 100644
--- a/jsonpath/function_extensions/search.py
+++ b/jsonpath/function_extensions/search.py
@@ -17,5 +17,5 @@ class Search(FilterFunction):
         try:
             # re.search caches compiled patterns internally
             return bool(re.search(pattern, string))
-        except (TypeError, re.error):
+        except (TypeError, ValueError, OverflowError, RecursionError, re.error):
             return False
-- 
2.43.0


From 6427199dead8f890c498e87c31cffb1680b86aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:25 +0000
Subject: [PATCH 11/45] fix: the <> operator means !=

---
 jsonpath/env.py   | 2 +-
 jsonpath/parse.py | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonpath/env.py b/jsonpath/env.py
index 8980414..1bedbca 100644
--- a/jsonpath/env.py
+++ b/jsonpath/env.py
@@ -554,7 +554,7 @@ class JSONPathEnvironment:
             return self.is_truthy(left) or self.is_truthy(right)
         if operator == "==":
             return self._eq(left, right)
-        if operator == "!=":
+        if operator in ("!=", "<>"):
             return not self._eq(left, right)
         if operator == "<":
             return self._lt(left, right)
diff --git a/jsonpath/parse.py b/jsonpath/parse.py
index d8b5e61..2fd4015 100644
--- a/jsonpath/parse.py
+++ b/jsonpath/parse.py
@@ -194,6 +194,7 @@ class Parser:
             "<=",
             "<",
             "!=",
+            "<>",
             "=~",
         ]
     )
-- 
2.43.0


From 4e11a8a0f0ccd1d387b9b34a91ce6605f79399bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:56 +0000
Subject: [PATCH 12/45] fix: literals and function values must be compared
 everywhere

---
 jsonpath/parse.py | 59 ++++++++++++++++++++---------------------------
 1 file changed, 25 insertions(+), 34 deletions(-)

diff --git a/jsonpath/parse.py b/jsonpath/parse.py
index 2fd4015..e20005e 100644
--- a/jsonpath/parse.py
+++ b/jsonpath/parse.py
@@ -493,24 +493,7 @@ class Parser:
         tok = stream.next_token()
         expr = self.parse_filter_selector(stream)
 
-        if self.env.well_typed and isinstance(expr, FunctionExtension):
-            func = self.env.function_extensions.get(expr.name)
-            if (
-                func
-                and isinstance(func, FilterFunction)
-                and func.return_type == ExpressionType.VALUE
-            ):
-                raise JSONPathTypeError(
-                    f"result of {expr.name}() must be compared", token=tok
-                )
-
-        if isinstance(expr, (Literal, Nil)):
-            raise JSONPathSyntaxError(
-                "filter expression literals outside of "
-                "function expressions must be compared",
-                token=tok,
-            )
-
+        self._raise_for_uncompared(expr, tok)
         return Filter(env=self.env, token=tok, expression=BooleanExpression(expr))
 
     def parse_boolean(self, stream: TokenStream) -> FilterExpression:
@@ -543,10 +526,9 @@ class Parser:
     def parse_prefix_expression(self, stream: TokenStream) -> FilterExpression:
         tok = stream.next_token()
         assert tok.kind == TOKEN_NOT
-        return PrefixExpression(
-            operator="!",
-            right=self.parse_filter_selector(stream, precedence=self.PRECEDENCE_PREFIX),
-        )
+        right = self.parse_filter_selector(stream, precedence=self.PRECEDENCE_PREFIX)
+        self._raise_for_uncompared(right, tok)
+        return PrefixExpression(operator="!", right=right)
 
     def parse_infix_expression(
         self, stream: TokenStream, left: FilterExpression
@@ -561,18 +543,8 @@ class Parser:
             self._raise_for_non_comparable_function(right, tok)
 
         if operator not in self.INFIX_LITERAL_OPERATORS:
-            if isinstance(left, (Literal, Nil)):
-                raise JSONPathSyntaxError(
-                    "filter expression literals outside of "
-                    "function expressions must be compared",
-                    token=tok,
-                )
-            if isinstance(right, (Literal, Nil)):
-                raise JSONPathSyntaxError(
-                    "filter expression literals outside of "
-                    "function expressions must be compared",
-                    token=tok,
-                )
+            self._raise_for_uncompared(left, tok)
+            self._raise_for_uncompared(right, tok)
 
         return InfixExpression(left, operator, right)
 
@@ -744,6 +716,25 @@ class Parser:
 
         return token.value
 
+    def _raise_for_uncompared(self, expr: FilterExpression, token: Token) -> None:
+        """Raise an error if _expr_ can't be used as a test expression."""
+        if self.env.well_typed and isinstance(expr, FunctionExtension):
+            func = self.env.function_extensions.get(expr.name)
+            if (
+                isinstance(func, FilterFunction)
+                and func.return_type == ExpressionType.VALUE
+            ):
+                raise JSONPathTypeError(
+                    f"result of {expr.name}() must be compared", token=token
+                )
+
+        if isinstance(expr, (Literal, Nil)):
+            raise JSONPathSyntaxError(
+                "filter expression literals outside of "
+                "function expressions must be compared",
+                token=token,
+            )
+
     def _raise_for_non_comparable_function(
         self, expr: FilterExpression, token: Token
     ) -> None:
-- 
2.43.0


From a2da90a03b76a0f0d87e6b4594d32c1a25044c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:24 +0000
Subject: [PATCH 13/45] fix: equality never identifies a boolean with a number
 at any depth

---
 jsonpath/_equal.py | 29 +++++++++++++++++++++++++++++
 jsonpath/env.py    | 15 ++++++---------
 2 files changed, 35 insertions(+), 9 deletions(-)
 create mode 100644 jsonpath/_equal.py

diff --git a/jsonpath/_equal.py b/jsonpath/_equal.py
new file mode 100644
index 0000000..f9b40cb
--- /dev/null
+++ b/jsonpath/_equal.py
@@ -0,0 +1,29 @@
+"""Equality of JSON values."""
+
+from typing import Mapping
+from typing import Sequence
+
+
+def equal(left: object, right: object) -> bool:
+    """Return `True` if _left_ and _right_ are equal JSON values.
+
+    Python says `1 == True` and `0 == False`. In JSON a Boolean is never equal to
+    a number, at any depth.
+    """
+    if isinstance(left, bool) or isinstance(right, bool):
+        return isinstance(left, bool) and isinstance(right, bool) and left == right
+
+    if isinstance(left, str) or isinstance(right, str):
+        return left == right
+
+    if isinstance(left, Mapping) and isinstance(right, Mapping):
+        return len(left) == len(right) and all(
+            key in right and equal(value, right[key]) for key, value in left.items()
+        )
+
+    if isinstance(left, Sequence) and isinstance(right, Sequence):
+        return len(left) == len(right) and all(
+            equal(item, other) for item, other in zip(left, right)  # noqa: B905
+        )
+
+    return left == right
diff --git a/jsonpath/env.py b/jsonpath/env.py
index 1bedbca..b51060a 100644
--- a/jsonpath/env.py
+++ b/jsonpath/env.py
@@ -19,6 +19,7 @@ from typing import Type
 from typing import Union
 
 from . import function_extensions
+from ._equal import equal
 from .exceptions import JSONPathNameError
 from .exceptions import JSONPathSyntaxError
 from .exceptions import JSONPathTypeError
@@ -572,7 +573,7 @@ class JSONPathEnvironment:
             return bool(right.fullmatch(left))
         return False
 
-    def _eq(self, left: object, right: object) -> bool:  # noqa: PLR0911
+    def _eq(self, left: object, right: object) -> bool:
         if isinstance(right, NodeList):
             left, right = right, left
 
@@ -588,19 +589,15 @@ class JSONPathEnvironment:
         if left is UNDEFINED and right is UNDEFINED:
             return True
 
-        # Remember 1 == True and 0 == False in Python
-        if isinstance(right, bool):
-            left, right = right, left
-
-        if isinstance(left, bool):
-            return isinstance(right, bool) and left == right
-
-        return left == right
+        return equal(left, right)
 
     def _lt(self, left: object, right: object) -> bool:
         if isinstance(left, str) and isinstance(right, str):
             return left < right
 
+        if isinstance(left, bool) or isinstance(right, bool):
+            return False
+
         if isinstance(left, (int, float, Decimal)) and isinstance(
             right, (int, float, Decimal)
         ):
-- 
2.43.0


From 036845361e6216d6b2f594732ade9d49329bf12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:42 +0000
Subject: [PATCH 14/45] fix: membership tests accept operands of any type

---
 jsonpath/env.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/jsonpath/env.py b/jsonpath/env.py
index b51060a..819de69 100644
--- a/jsonpath/env.py
+++ b/jsonpath/env.py
@@ -10,6 +10,7 @@ from typing import Any
 from typing import AsyncIterable
 from typing import Callable
 from typing import Dict
+from typing import Hashable
 from typing import Iterable
 from typing import List
 from typing import Mapping
@@ -566,9 +567,9 @@ class JSONPathEnvironment:
         if operator == "<=":
             return self._lt(left, right) or self._eq(left, right)
         if operator == "in" and isinstance(right, (Mapping, Sequence)):
-            return left in right
+            return self._contains(right, left)
         if operator == "contains" and isinstance(left, (Mapping, Sequence)):
-            return right in left
+            return self._contains(left, right)
         if operator == "=~" and isinstance(right, re.Pattern) and isinstance(left, str):
             return bool(right.fullmatch(left))
         return False
@@ -591,6 +592,17 @@ class JSONPathEnvironment:
 
         return equal(left, right)
 
+    def _contains(
+        self, container: Union[Mapping[str, Any], Sequence[Any]], obj: object
+    ) -> bool:
+        if isinstance(container, str):
+            return isinstance(obj, str) and obj in container
+
+        if isinstance(container, Mapping):
+            return isinstance(obj, Hashable) and obj in container
+
+        return any(self._eq(obj, item) for item in container)
+
     def _lt(self, left: object, right: object) -> bool:
         if isinstance(left, str) and isinstance(right, str):
             return left < right
-- 
2.43.0


From 2f8bb04b64fe2ec0a13924b66b6a049d19c8c6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:26 +0000
Subject: [PATCH 15/45] fix: filter sub-queries see the query's root node and
 filter context

---
 jsonpath/filter.py | 60 +++++++++++++++++++++-------------------------
 jsonpath/path.py   | 34 +++++++++++++++++++++-----
 2 files changed, 55 insertions(+), 39 deletions(-)

diff --git a/jsonpath/filter.py b/jsonpath/filter.py
index 0f33cff..8ffcf74 100644
--- a/jsonpath/filter.py
+++ b/jsonpath/filter.py
@@ -521,6 +521,27 @@ class Path(FilterExpression, ABC):
         # self.path has its own cache
         return
 
+    def _evaluate(self, context: FilterContext, obj: object) -> NodeList:
+        """Return nodes found by applying this query to _obj_.
+
+        The root node and filter context are those of the query being evaluated.
+        """
+        return NodeList(
+            self.path.resolve(
+                obj, root=context.root, filter_context=context.extra_context
+            )
+        )
+
+    async def _evaluate_async(self, context: FilterContext, obj: object) -> NodeList:
+        return NodeList(
+            [
+                match
+                async for match in self.path.resolve_async(
+                    obj, root=context.root, filter_context=context.extra_context
+                )
+            ]
+        )
+
 
 class SelfPath(Path):
     """A JSONPath starting at the current node."""
@@ -535,30 +556,10 @@ class SelfPath(Path):
         return "@" + str(self.path)[1:]
 
     def evaluate(self, context: FilterContext) -> object:
-        if isinstance(context.current, str):  # TODO: refactor
-            if self.path.empty():
-                return context.current
-            return NodeList()
-        if not isinstance(context.current, (Sequence, Mapping)):
-            if self.path.empty():
-                return context.current
-            return NodeList()
-
-        return NodeList(self.path.finditer(context.current))
+        return self._evaluate(context, context.current)
 
     async def evaluate_async(self, context: FilterContext) -> object:
-        if isinstance(context.current, str):  # TODO: refactor
-            if self.path.empty():
-                return context.current
-            return NodeList()
-        if not isinstance(context.current, (Sequence, Mapping)):
-            if self.path.empty():
-                return context.current
-            return NodeList()
-
-        return NodeList(
-            [match async for match in await self.path.finditer_async(context.current)]
-        )
+        return await self._evaluate_async(context, context.current)
 
 
 class RootPath(Path):
@@ -576,12 +577,10 @@ class RootPath(Path):
         return str(self.path)
 
     def evaluate(self, context: FilterContext) -> object:
-        return NodeList(self.path.finditer(context.root))
+        return self._evaluate(context, context.root)
 
     async def evaluate_async(self, context: FilterContext) -> object:
-        return NodeList(
-            [match async for match in await self.path.finditer_async(context.root)]
-        )
+        return await self._evaluate_async(context, context.root)
 
 
 class FilterContextPath(Path):
@@ -600,15 +599,10 @@ class FilterContextPath(Path):
         return "_" + path_repr[1:]
 
     def evaluate(self, context: FilterContext) -> object:
-        return NodeList(self.path.finditer(context.extra_context))
+        return self._evaluate(context, context.extra_context)
 
     async def evaluate_async(self, context: FilterContext) -> object:
-        return NodeList(
-            [
-                match
-                async for match in await self.path.finditer_async(context.extra_context)
-            ]
-        )
+        return await self._evaluate_async(context, context.extra_context)
 
 
 class FunctionExtension(FilterExpression):
diff --git a/jsonpath/path.py b/jsonpath/path.py
index 9cf3d98..74d60c6 100644
--- a/jsonpath/path.py
+++ b/jsonpath/path.py
@@ -125,14 +125,24 @@ class JSONPath:
                 an incompatible way.
         """
         _data = load_data(data)
+        return self.resolve(_data, root=_data, filter_context=filter_context or {})
+
+    def resolve(
+        self,
+        obj: object,
+        *,
+        root: Union[Sequence[Any], Mapping[str, Any]],
+        filter_context: FilterContextVars,
+    ) -> Iterable[JSONPathMatch]:
+        """Generate matches starting at _obj_, a value found in the document _root_."""
         matches: Iterable[JSONPathMatch] = [
             JSONPathMatch(
-                filter_context=filter_context or {},
-                obj=[_data] if self.fake_root else _data,
+                filter_context=filter_context,
+                obj=[obj] if self.fake_root else obj,
                 parent=None,
                 path=self.env.root_token,
                 parts=(),
-                root=_data,
+                root=root,
             )
         ]
 
@@ -163,15 +173,27 @@ class JSONPath:
     ) -> AsyncIterable[JSONPathMatch]:
         """An async version of `finditer()`."""
         _data = load_data(data)
+        return self.resolve_async(
+            _data, root=_data, filter_context=filter_context or {}
+        )
+
+    def resolve_async(
+        self,
+        obj: object,
+        *,
+        root: Union[Sequence[Any], Mapping[str, Any]],
+        filter_context: FilterContextVars,
+    ) -> AsyncIterable[JSONPathMatch]:
+        """An async version of `resolve()`."""
 
         async def root_iter() -> AsyncIterable[JSONPathMatch]:
             yield self.env.match_class(
-                filter_context=filter_context or {},
-                obj=[_data] if self.fake_root else _data,
+                filter_context=filter_context,
+                obj=[obj] if self.fake_root else obj,
                 parent=None,
                 path=self.env.root_token,
                 parts=(),
-                root=_data,
+                root=root,
             )
 
         matches: AsyncIterable[JSONPathMatch] = root_iter()
-- 
2.43.0


From 8bf4634596d3d9603ccecb4ffdfafb70a43661c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:07 +0000
Subject: [PATCH 16/45] fix: the text of a filter keeps the parentheses around
 comparisons

---
 jsonpath/filter.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/jsonpath/filter.py b/jsonpath/filter.py
index 8ffcf74..9d78806 100644
--- a/jsonpath/filter.py
+++ b/jsonpath/filter.py
@@ -12,7 +12,6 @@ from typing import Callable
 from typing import Generic
 from typing import Iterable
 from typing import List
-from typing import Mapping
 from typing import Pattern
 from typing import Sequence
 from typing import TypeVar
@@ -286,7 +285,7 @@ class PrefixExpression(FilterExpression):
         super().__init__()
 
     def __str__(self) -> str:
-        return f"{self.operator}{self.right}"
+        return f"{self.operator}{_operand_string(self.right)}"
 
     def __eq__(self, other: object) -> bool:
         return (
@@ -334,7 +333,14 @@ class InfixExpression(FilterExpression):
     def __str__(self) -> str:
         if self.logical:
             return f"({self.left} {self.operator} {self.right})"
-        return f"{self.left} {self.operator} {self.right}"
+
+        left = _operand_string(self.left)
+        right = _operand_string(self.right)
+        if isinstance(self.left, PrefixExpression):
+            left = f"({left})"
+        if isinstance(self.right, PrefixExpression):
+            right = f"({right})"
+        return f"{left} {self.operator} {right}"
 
     def __eq__(self, other: object) -> bool:
         return (
@@ -375,6 +381,13 @@ class InfixExpression(FilterExpression):
         self.right = children[1]
 
 
+def _operand_string(operand: FilterExpression) -> str:
+    """Return _operand_ as a string, with parentheses if it is a comparison."""
+    if isinstance(operand, InfixExpression) and not operand.logical:
+        return f"({operand})"
+    return str(operand)
+
+
 PRECEDENCE_LOWEST = 1
 PRECEDENCE_LOGICAL_OR = 3
 PRECEDENCE_LOGICAL_AND = 4
@@ -446,6 +459,9 @@ class BooleanExpression(FilterExpression):
             expr = f"!{operand}"
             return f"({expr})" if parent_precedence > PRECEDENCE_PREFIX else expr
 
+        if parent_precedence >= PRECEDENCE_PREFIX:
+            return _operand_string(expression)
+
         return str(expression)
 
     def evaluate(self, context: FilterContext) -> bool:
-- 
2.43.0


From 7cda6e36e1b0adc85f1eb3a96d54d0826ea78ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:12 +0000
Subject: [PATCH 17/45] fix: the text of a query keeps the fake root and float
 literals

---
 jsonpath/filter.py | 8 ++++++++
 jsonpath/path.py   | 5 ++---
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/jsonpath/filter.py b/jsonpath/filter.py
index 9d78806..c5c0e02 100644
--- a/jsonpath/filter.py
+++ b/jsonpath/filter.py
@@ -3,6 +3,7 @@
 from __future__ import annotations
 
 import copy
+import math
 import re
 from abc import ABC
 from abc import abstractmethod
@@ -221,6 +222,13 @@ class FloatLiteral(Literal[float]):
 
     __slots__ = ()
 
+    def __str__(self) -> str:
+        if math.isinf(self.value):
+            return "1e999" if self.value > 0 else "-1e999"
+        value = repr(self.value)
+        # Without a decimal point it would be an integer literal.
+        return value if "." in value else value.replace("e", ".0e")
+
 
 class RegexLiteral(Literal[Pattern[str]]):
     """A regex literal."""
diff --git a/jsonpath/path.py b/jsonpath/path.py
index 74d60c6..c4d76ef 100644
--- a/jsonpath/path.py
+++ b/jsonpath/path.py
@@ -59,9 +59,8 @@ class JSONPath:
         self.fake_root = fake_root
 
     def __str__(self) -> str:
-        return self.env.root_token + "".join(
-            str(selector) for selector in self.selectors
-        )
+        root = self.env.fake_root_token if self.fake_root else self.env.root_token
+        return root + "".join(str(selector) for selector in self.selectors)
 
     def __eq__(self, __value: object) -> bool:
         return isinstance(__value, JSONPath) and self.selectors == __value.selectors
-- 
2.43.0


From 93cdd5e3eb52c5f6fd27833e2bb53e1596442b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:34 +0000
Subject: [PATCH 18/45] fix: the text of a query brackets every slice

---
 jsonpath/path.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jsonpath/path.py b/jsonpath/path.py
index c4d76ef..0dbfd8f 100644
--- a/jsonpath/path.py
+++ b/jsonpath/path.py
@@ -21,6 +21,7 @@ from jsonpath.match import JSONPathMatch
 from jsonpath.selectors import IndexSelector
 from jsonpath.selectors import ListSelector
 from jsonpath.selectors import PropertySelector
+from jsonpath.selectors import SliceSelector
 
 if TYPE_CHECKING:
     from io import IOBase
@@ -60,7 +61,10 @@ class JSONPath:
 
     def __str__(self) -> str:
         root = self.env.fake_root_token if self.fake_root else self.env.root_token
-        return root + "".join(str(selector) for selector in self.selectors)
+        return root + "".join(
+            f"[{selector}]" if isinstance(selector, SliceSelector) else str(selector)
+            for selector in self.selectors
+        )
 
     def __eq__(self, __value: object) -> bool:
         return isinstance(__value, JSONPath) and self.selectors == __value.selectors
-- 
2.43.0


From 5384c3a06c7d72b9ee937611206efb348b5362a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:38 +0000
Subject: [PATCH 19/45] fix: the text of a filter spells identifiers with the
 environment's tokens

---
 jsonpath/filter.py | 14 ++++++++------
 jsonpath/parse.py  |  4 ++--
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/jsonpath/filter.py b/jsonpath/filter.py
index c5c0e02..a6d1c38 100644
--- a/jsonpath/filter.py
+++ b/jsonpath/filter.py
@@ -577,7 +577,8 @@ class SelfPath(Path):
         self.volatile = True
 
     def __str__(self) -> str:
-        return "@" + str(self.path)[1:]
+        env = self.path.env
+        return env.self_token + str(self.path)[len(env.root_token) :]
 
     def evaluate(self, context: FilterContext) -> object:
         return self._evaluate(context, context.current)
@@ -619,8 +620,8 @@ class FilterContextPath(Path):
         self.volatile = False
 
     def __str__(self) -> str:
-        path_repr = str(self.path)
-        return "_" + path_repr[1:]
+        env = self.path.env
+        return env.filter_context_token + str(self.path)[len(env.root_token) :]
 
     def evaluate(self, context: FilterContext) -> object:
         return self._evaluate(context, context.extra_context)
@@ -712,14 +713,15 @@ class FunctionExtension(FilterExpression):
 class CurrentKey(FilterExpression):
     """The key/property or index associated with the current object."""
 
-    __slots__ = ()
+    __slots__ = ("token",)
 
-    def __init__(self) -> None:
+    def __init__(self, token: str = "#") -> None:
         super().__init__()
+        self.token = token
         self.volatile = True
 
     def __str__(self) -> str:
-        return "#"
+        return self.token
 
     def __eq__(self, other: object) -> bool:
         return isinstance(other, CurrentKey)
diff --git a/jsonpath/parse.py b/jsonpath/parse.py
index e20005e..9c32eba 100644
--- a/jsonpath/parse.py
+++ b/jsonpath/parse.py
@@ -18,12 +18,12 @@ from jsonpath.function_extensions.filter_function import FilterFunction
 
 from .exceptions import JSONPathSyntaxError
 from .exceptions import JSONPathTypeError
-from .filter import CURRENT_KEY
 from .filter import FALSE
 from .filter import NIL
 from .filter import TRUE
 from .filter import UNDEFINED_LITERAL
 from .filter import BooleanExpression
+from .filter import CurrentKey
 from .filter import FilterContextPath
 from .filter import FilterExpression
 from .filter import FloatLiteral
@@ -587,7 +587,7 @@ class Parser:
         )
 
     def parse_current_key(self, _: TokenStream) -> FilterExpression:
-        return CURRENT_KEY
+        return CurrentKey(self.env.key_token)
 
     def parse_filter_context_path(self, stream: TokenStream) -> FilterExpression:
         stream.next_token()
-- 
2.43.0


From 878272e10c19629c43a43fd091402d2d6d801bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:00 +0000
Subject: [PATCH 20/45] fix: every intersection filters with its own operand

---
 jsonpath/path.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/jsonpath/path.py b/jsonpath/path.py
index 0dbfd8f..70853d2 100644
--- a/jsonpath/path.py
+++ b/jsonpath/path.py
@@ -384,7 +384,7 @@ class CompoundJSONPath:
             else:
                 assert op == self.env.intersection_token
                 _objs = [match.obj for match in _matches]
-                matches = (match for match in matches if match.obj in _objs)
+                matches = _intersect(matches, _objs)
 
         return matches
 
@@ -453,7 +453,7 @@ class CompoundJSONPath:
             else:
                 assert op == self.env.intersection_token
                 _objs = [match.obj async for match in _matches]
-                matches = (match async for match in matches if match.obj in _objs)
+                matches = _aintersect(matches, _objs)
 
         return matches
 
@@ -498,6 +498,18 @@ class CompoundJSONPath:
         )
 
 
+def _intersect(
+    matches: Iterable[JSONPathMatch], objs: List[object]
+) -> Iterable[JSONPathMatch]:
+    return (match for match in matches if match.obj in objs)
+
+
+def _aintersect(
+    matches: AsyncIterable[JSONPathMatch], objs: List[object]
+) -> AsyncIterable[JSONPathMatch]:
+    return (match async for match in matches if match.obj in objs)
+
+
 T = TypeVar("T")
 
 
-- 
2.43.0


From 49095ce553b8241f61c90eeccbdbd2778defd52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:22 +0000
Subject: [PATCH 21/45] fix: compound queries read a file once

---
 jsonpath/path.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/jsonpath/path.py b/jsonpath/path.py
index 70853d2..db8d5e6 100644
--- a/jsonpath/path.py
+++ b/jsonpath/path.py
@@ -338,10 +338,12 @@ class CompoundJSONPath:
             JSONPathTypeError: If a filter expression attempts to use types in
                 an incompatible way.
         """
-        objs = self.path.findall(data, filter_context=filter_context)
+        # Files can be read only once.
+        _data = data if isinstance(data, str) else load_data(data)
+        objs = self.path.findall(_data, filter_context=filter_context)
 
         for op, path in self.paths:
-            _objs = path.findall(data, filter_context=filter_context)
+            _objs = path.findall(_data, filter_context=filter_context)
             if op == self.env.union_token:
                 objs.extend(_objs)
             else:
@@ -375,10 +377,12 @@ class CompoundJSONPath:
             JSONPathTypeError: If a filter expression attempts to use types in
                 an incompatible way.
         """
-        matches = self.path.finditer(data, filter_context=filter_context)
+        # Files can be read only once.
+        _data = data if isinstance(data, str) else load_data(data)
+        matches = self.path.finditer(_data, filter_context=filter_context)
 
         for op, path in self.paths:
-            _matches = path.finditer(data, filter_context=filter_context)
+            _matches = path.finditer(_data, filter_context=filter_context)
             if op == self.env.union_token:
                 matches = itertools.chain(matches, _matches)
             else:
@@ -425,10 +429,12 @@ class CompoundJSONPath:
         filter_context: Optional[FilterContextVars] = None,
     ) -> List[object]:
         """An async version of `findall()`."""
-        objs = await self.path.findall_async(data, filter_context=filter_context)
+        # Files can be read only once.
+        _data = data if isinstance(data, str) else load_data(data)
+        objs = await self.path.findall_async(_data, filter_context=filter_context)
 
         for op, path in self.paths:
-            _objs = await path.findall_async(data, filter_context=filter_context)
+            _objs = await path.findall_async(_data, filter_context=filter_context)
             if op == self.env.union_token:
                 objs.extend(_objs)
             else:
@@ -444,10 +450,12 @@ class CompoundJSONPath:
         filter_context: Optional[FilterContextVars] = None,
     ) -> AsyncIterable[JSONPathMatch]:
         """An async version of `finditer()`."""
-        matches = await self.path.finditer_async(data, filter_context=filter_context)
+        # Files can be read only once.
+        _data = data if isinstance(data, str) else load_data(data)
+        matches = await self.path.finditer_async(_data, filter_context=filter_context)
 
         for op, path in self.paths:
-            _matches = await path.finditer_async(data, filter_context=filter_context)
+            _matches = await path.finditer_async(_data, filter_context=filter_context)
             if op == self.env.union_token:
                 matches = _achain(matches, _matches)
             else:
-- 
2.43.0


From 840d0ba3973799e992af425d3a33e20eec9dbae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:26 +0000
Subject: [PATCH 22/45] fix: intersections do not identify booleans with
 numbers

---
 jsonpath/path.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/jsonpath/path.py b/jsonpath/path.py
index db8d5e6..ff18ce6 100644
--- a/jsonpath/path.py
+++ b/jsonpath/path.py
@@ -15,6 +15,7 @@ from typing import TypeVar
 from typing import Union
 
 from jsonpath._data import load_data
+from jsonpath._equal import equal
 from jsonpath.fluent_api import Query
 from jsonpath.match import FilterContextVars
 from jsonpath.match import JSONPathMatch
@@ -348,7 +349,7 @@ class CompoundJSONPath:
                 objs.extend(_objs)
             else:
                 assert op == self.env.intersection_token, op
-                objs = [obj for obj in objs if obj in _objs]
+                objs = [obj for obj in objs if _in(obj, _objs)]
 
         return objs
 
@@ -439,7 +440,7 @@ class CompoundJSONPath:
                 objs.extend(_objs)
             else:
                 assert op == self.env.intersection_token
-                objs = [obj for obj in objs if obj in _objs]
+                objs = [obj for obj in objs if _in(obj, _objs)]
 
         return objs
 
@@ -506,16 +507,20 @@ class CompoundJSONPath:
         )
 
 
+def _in(obj: object, objs: List[object]) -> bool:
+    return any(equal(obj, other) for other in objs)
+
+
 def _intersect(
     matches: Iterable[JSONPathMatch], objs: List[object]
 ) -> Iterable[JSONPathMatch]:
-    return (match for match in matches if match.obj in objs)
+    return (match for match in matches if _in(match.obj, objs))
 
 
 def _aintersect(
     matches: AsyncIterable[JSONPathMatch], objs: List[object]
 ) -> AsyncIterable[JSONPathMatch]:
-    return (match async for match in matches if match.obj in objs)
+    return (match async for match in matches if _in(match.obj, objs))
 
 
 T = TypeVar("T")
-- 
2.43.0


From 3d982b803d5452150ebf07a4178d514edf25a2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:51 +0000
Subject: [PATCH 23/45] fix: decode escape sequences in pointers without
 mangling other characters

---
 jsonpath/pointer.py | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/jsonpath/pointer.py b/jsonpath/pointer.py
index 3628347..9647c19 100644
--- a/jsonpath/pointer.py
+++ b/jsonpath/pointer.py
@@ -38,6 +38,23 @@ class _Undefined:
 UNDEFINED = _Undefined()
 
 
+def _unicode_escape(s: str) -> str:
+    if "\\" not in s:
+        return s
+
+    try:
+        return (
+            codecs.decode(
+                s.replace("\\/", "/").encode("ascii", "backslashreplace"),
+                "unicode-escape",
+            )
+            .encode("utf-16", "surrogatepass")
+            .decode("utf-16")
+        )
+    except UnicodeError as err:
+        raise JSONPointerError(f"invalid escape sequence: {err}") from err
+
+
 class JSONPointer:
     """Identify a single, specific value in JSON-like data, as per RFC 6901.
 
@@ -246,11 +263,7 @@ class JSONPointer:
         # UTF-16 escape sequences - possibly surrogate pairs - inside UTF-8
         # encoded strings. As per https://datatracker.ietf.org/doc/html/rfc4627
         # section 2.5.
-        return (
-            codecs.decode(s.replace("\\/", "/"), "unicode-escape")
-            .encode("utf-16", "surrogatepass")
-            .decode("utf-16")
-        )
+        return _unicode_escape(s)
 
     @classmethod
     def from_match(
@@ -296,12 +309,7 @@ class JSONPointer:
         if uri_decode:
             _parts = (unquote(p) for p in _parts)
         if unicode_escape:
-            _parts = (
-                codecs.decode(p.replace("\\/", "/"), "unicode-escape")
-                .encode("utf-16", "surrogatepass")
-                .decode("utf-16")
-                for p in _parts
-            )
+            _parts = (_unicode_escape(p) for p in _parts)
 
         __parts = tuple(_parts)
 
-- 
2.43.0


From 258994378b0d7706b0b1c3b165e4ca3ace754c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:14 +0000
Subject: [PATCH 24/45] fix: only canonical decimal integers are array indices

---
 jsonpath/pointer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/jsonpath/pointer.py b/jsonpath/pointer.py
index 9647c19..87e3787 100644
--- a/jsonpath/pointer.py
+++ b/jsonpath/pointer.py
@@ -55,6 +55,9 @@ def _unicode_escape(s: str) -> str:
         raise JSONPointerError(f"invalid escape sequence: {err}") from err
 
 
+RE_INDEX = re.compile(r"0|-?[1-9][0-9]*")
+
+
 class JSONPointer:
     """Identify a single, specific value in JSON-like data, as per RFC 6901.
 
@@ -125,8 +128,8 @@ class JSONPointer:
         )[1:]
 
     def _index(self, s: str) -> Union[str, int]:
-        # Reject non-zero ints that start with a zero.
-        if len(s) > 1 and s.startswith("0"):
+        # Only canonical decimal integers are array indices.
+        if not RE_INDEX.fullmatch(s):
             return s
 
         try:
-- 
2.43.0


From aa99b34514fca9f21c1993a831575990c42fc34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:18 +0000
Subject: [PATCH 25/45] fix: strings have no elements and '#name' is not an
 index

---
 jsonpath/pointer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/jsonpath/pointer.py b/jsonpath/pointer.py
index 87e3787..8591bf9 100644
--- a/jsonpath/pointer.py
+++ b/jsonpath/pointer.py
@@ -141,6 +141,9 @@ class JSONPointer:
             return s
 
     def _getitem(self, obj: Any, key: Any) -> Any:  # noqa: PLR0912
+        if isinstance(obj, str):
+            raise JSONPointerTypeError(f"{key}: found a string")
+
         try:
             return getitem(obj, key)
         except KeyError as err:
@@ -168,7 +171,9 @@ class JSONPointer:
                     raise JSONPointerIndexError("index out of range") from None
                 # Handle non-standard index pointer.
                 if isinstance(key, str) and key.startswith("#"):
-                    _index = int(key[1:])
+                    _index = self._index(key[1:])
+                    if not isinstance(_index, int):
+                        raise JSONPointerTypeError(f"{key}: {err}") from err
                     if _index >= len(obj):
                         raise JSONPointerIndexError(
                             f"index out of range: {_index}"
-- 
2.43.0


From 527683370662fd72b9b344f86dba2940f4a1c0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:22 +0000
Subject: [PATCH 26/45] fix: pointers with equal reference tokens are equal

---
 jsonpath/pointer.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/jsonpath/pointer.py b/jsonpath/pointer.py
index 8591bf9..0878a42 100644
--- a/jsonpath/pointer.py
+++ b/jsonpath/pointer.py
@@ -335,16 +335,22 @@ class JSONPointer:
 
     def is_relative_to(self, other: JSONPointer) -> bool:
         """Return _True_ if this pointer points to a child of _other_."""
+        tokens = self._tokens()
+        other_tokens = other._tokens()
         return (
-            len(other.parts) < len(self.parts)
-            and self.parts[: len(other.parts)] == other.parts
+            len(other_tokens) < len(tokens)
+            and tokens[: len(other_tokens)] == other_tokens
         )
 
+    def _tokens(self) -> Tuple[str, ...]:
+        """Return this pointer's reference tokens, as per RFC 6901."""
+        return tuple(str(part) for part in self.parts)
+
     def __eq__(self, other: object) -> bool:
-        return isinstance(other, JSONPointer) and self.parts == other.parts
+        return isinstance(other, JSONPointer) and self._tokens() == other._tokens()
 
     def __hash__(self) -> int:
-        return hash(self.parts)
+        return hash(self._tokens())
 
     def __repr__(self) -> str:
         return f"JSONPointer({self._s!r})"
-- 
2.43.0


From a707e2defb053d79ea8ffd403bb25f9b0ca74d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:47 +0000
Subject: [PATCH 27/45] fix: relative pointer index offsets may have many
 digits

---
 jsonpath/pointer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonpath/pointer.py b/jsonpath/pointer.py
index 0878a42..4146976 100644
--- a/jsonpath/pointer.py
+++ b/jsonpath/pointer.py
@@ -468,7 +468,7 @@ class JSONPointer:
 
 
 RE_RELATIVE_POINTER = re.compile(
-    r"(?P<ORIGIN>\d+)(?P<INDEX_G>(?P<SIGN>[+\-])(?P<INDEX>\d))?(?P<POINTER>.*)",
+    r"(?P<ORIGIN>[0-9]+)(?P<INDEX_G>(?P<SIGN>[+\-])(?P<INDEX>[0-9]+))?(?P<POINTER>.*)",
     re.DOTALL,
 )
 
-- 
2.43.0


From c06e2ef9fe3f286661144666a99bd60cfe597bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:53 +0000
Subject: [PATCH 28/45] fix: refuse the key or index of the root

---
 jsonpath/pointer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jsonpath/pointer.py b/jsonpath/pointer.py
index 4146976..17a8193 100644
--- a/jsonpath/pointer.py
+++ b/jsonpath/pointer.py
@@ -614,6 +614,8 @@ class RelativeJSONPointer:
             parts.extend(self.pointer.parts)
         else:
             assert self.pointer == "#"
+            if not parts:
+                raise RelativeJSONPointerIndexError("the root has no key or index")
             parts[-1] = f"#{parts[-1]}"
 
         return JSONPointer.from_parts(
-- 
2.43.0


From b47a8c149c13df0c9a678000b6a51b4a040afa37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:56 +0000
Subject: [PATCH 29/45] fix: do not decode the parts of a relative pointer
 twice

---
 jsonpath/pointer.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/jsonpath/pointer.py b/jsonpath/pointer.py
index 17a8193..c39bc99 100644
--- a/jsonpath/pointer.py
+++ b/jsonpath/pointer.py
@@ -618,9 +618,8 @@ class RelativeJSONPointer:
                 raise RelativeJSONPointerIndexError("the root has no key or index")
             parts[-1] = f"#{parts[-1]}"
 
-        return JSONPointer.from_parts(
-            parts, unicode_escape=unicode_escape, uri_decode=uri_decode
-        )
+        # These parts have already been decoded.
+        return JSONPointer.from_parts(parts, unicode_escape=False, uri_decode=False)
 
 
 def resolve(
-- 
2.43.0


From b77249260a69ad6b2276c521565d801bd7f1d7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:00 +0000
Subject: [PATCH 30/45] fix: relative pointers keep trailing blanks and offset
 only indices

---
 jsonpath/pointer.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/jsonpath/pointer.py b/jsonpath/pointer.py
index c39bc99..f090538 100644
--- a/jsonpath/pointer.py
+++ b/jsonpath/pointer.py
@@ -533,15 +533,15 @@ class RelativeJSONPointer:
             index = 0
 
         # Pointer or '#'. Empty string is OK.
-        _pointer = match.group("POINTER").strip()
+        _pointer = match.group("POINTER")
         pointer = (
             JSONPointer(
                 _pointer,
                 unicode_escape=unicode_escape,
                 uri_decode=uri_decode,
             )
-            if _pointer != "#"
-            else _pointer
+            if _pointer.strip() != "#"
+            else "#"
         )
 
         return (origin, index, pointer)
@@ -558,13 +558,7 @@ class RelativeJSONPointer:
             ) from err
 
     def _int_like(self, obj: Any) -> bool:
-        if isinstance(obj, int):
-            return True
-        try:
-            int(obj)
-        except ValueError:
-            return False
-        return True
+        return isinstance(obj, int) or bool(RE_INDEX.fullmatch(obj))
 
     def to(
         self,
@@ -607,7 +601,7 @@ class RelativeJSONPointer:
                 raise RelativeJSONPointerIndexError(
                     f"index offset out of range {new_index}"
                 )
-            parts[-1] = int(parts[-1]) + self.index
+            parts[-1] = new_index
 
         # Pointer or index/property
         if isinstance(self.pointer, JSONPointer):
-- 
2.43.0


From 93314673698dea59c301d7e48f1e5d9476d5c548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:17 +0000
Subject: [PATCH 31/45] fix: offsetting an index of thousands of digits is a
 relative pointer error

---
 jsonpath/pointer.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/jsonpath/pointer.py b/jsonpath/pointer.py
index f090538..4e7e2a6 100644
--- a/jsonpath/pointer.py
+++ b/jsonpath/pointer.py
@@ -596,12 +596,16 @@ class RelativeJSONPointer:
 
         # Array index offset
         if self.index and parts and self._int_like(parts[-1]):
-            new_index = int(parts[-1]) + self.index
+            try:
+                new_index = int(parts[-1]) + self.index
+                parts[-1] = str(new_index)
+            except ValueError as err:
+                # Too many digits for int() or str().
+                raise RelativeJSONPointerIndexError("index out of range") from err
             if new_index < 0:
                 raise RelativeJSONPointerIndexError(
                     f"index offset out of range {new_index}"
                 )
-            parts[-1] = new_index
 
         # Pointer or index/property
         if isinstance(self.pointer, JSONPointer):
-- 
2.43.0


From c190da88df2941b6ede544faf9ab79390f0deb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:58 +0000
Subject: [PATCH 32/45] fix: patch operations target exactly the value their
 pointer names

---
 jsonpath/patch.py | 122 +++++++++++++++++++++++++++-------------------
 1 file changed, 73 insertions(+), 49 deletions(-)

diff --git a/jsonpath/patch.py b/jsonpath/patch.py
index ce5c054..6e5a19f 100644
--- a/jsonpath/patch.py
+++ b/jsonpath/patch.py
@@ -13,6 +13,8 @@ from typing import List
 from typing import Mapping
 from typing import MutableMapping
 from typing import MutableSequence
+from typing import Optional
+from typing import Tuple
 from typing import TypeVar
 from typing import Union
 
@@ -23,10 +25,64 @@ from jsonpath.exceptions import JSONPointerError
 from jsonpath.exceptions import JSONPointerIndexError
 from jsonpath.exceptions import JSONPointerKeyError
 from jsonpath.exceptions import JSONPointerTypeError
+from jsonpath.pointer import RE_INDEX
 from jsonpath.pointer import UNDEFINED
 from jsonpath.pointer import JSONPointer
 
 
+def _array_index(target: Union[int, str]) -> Optional[int]:
+    """Return _target_ as an array index, or `None` if it is not one."""
+    if isinstance(target, str):
+        if not RE_INDEX.fullmatch(target):
+            return None
+        target = int(target)
+    return target if target >= 0 else None
+
+
+def _resolve_target(
+    pointer: JSONPointer,
+    data: Union[MutableSequence[object], MutableMapping[str, object]],
+) -> Tuple[object, Union[int, str], object]:
+    """Return the parent of the value at _pointer_, its key there and the value.
+
+    The parent is `None` if _pointer_ points to the root. The value is `UNDEFINED`
+    if there's nothing there. Non-standard key and index tokens target nothing.
+    """
+    parent, obj = pointer.resolve_parent(data)
+    if parent is None:
+        return (None, "", obj)
+
+    target = pointer.parts[-1]
+    if isinstance(parent, MutableSequence):
+        index = _array_index(target)
+        if index is None:
+            return (parent, target, UNDEFINED)
+        return (parent, index, obj)
+
+    if isinstance(parent, MutableMapping):
+        if target not in parent:
+            target = str(target)
+        if target not in parent:
+            return (parent, target, UNDEFINED)
+
+    return (parent, target, obj)
+
+
+def _insert(parent: object, target: Union[int, str], value: object) -> None:
+    """Add _value_ to _parent_ at _target_."""
+    if isinstance(parent, MutableSequence):
+        if target == "-":
+            parent.append(value)
+        elif isinstance(target, int) and target <= len(parent):
+            parent.insert(target, value)
+        else:
+            raise JSONPatchError("index out of range")
+    elif isinstance(parent, MutableMapping):
+        parent[target] = value
+    else:
+        raise JSONPatchError(f"unexpected operation on {parent.__class__.__name__!r}")
+
+
 class Op(ABC):
     """One of the JSON Patch operations."""
 
@@ -58,27 +114,13 @@ class OpAdd(Op):
         self, data: Union[MutableSequence[object], MutableMapping[str, object]]
     ) -> Union[MutableSequence[object], MutableMapping[str, object]]:
         """Apply this patch operation to _data_."""
-        parent, obj = self.path.resolve_parent(data)
+        parent, target, _ = _resolve_target(self.path, data)
         if parent is None:
             # Replace the root object.
             # The following op, if any, will raise a JSONPatchError if needed.
             return self.value  # type: ignore
 
-        target = self.path.parts[-1]
-        if isinstance(parent, MutableSequence):
-            if obj is UNDEFINED:
-                if target == "-":
-                    parent.append(self.value)
-                else:
-                    raise JSONPatchError("index out of range")
-            else:
-                parent.insert(int(target), self.value)
-        elif isinstance(parent, MutableMapping):
-            parent[target] = self.value
-        else:
-            raise JSONPatchError(
-                f"unexpected operation on {parent.__class__.__name__!r}"
-            )
+        _insert(parent, target, self.value)
         return data
 
     def asdict(self) -> Dict[str, object]:
@@ -172,18 +214,18 @@ class OpRemove(Op):
         self, data: Union[MutableSequence[object], MutableMapping[str, object]]
     ) -> Union[MutableSequence[object], MutableMapping[str, object]]:
         """Apply this patch operation to _data_."""
-        parent, obj = self.path.resolve_parent(data)
+        parent, target, obj = _resolve_target(self.path, data)
         if parent is None:
             raise JSONPatchError("can't remove root")
 
         if isinstance(parent, MutableSequence):
             if obj is UNDEFINED:
                 raise JSONPatchError("can't remove nonexistent item")
-            del parent[int(self.path.parts[-1])]
+            del parent[target]
         elif isinstance(parent, MutableMapping):
             if obj is UNDEFINED:
                 raise JSONPatchError("can't remove nonexistent property")
-            del parent[self.path.parts[-1]]
+            del parent[target]
         else:
             raise JSONPatchError(
                 f"unexpected operation on {parent.__class__.__name__!r}"
@@ -210,18 +252,18 @@ class OpReplace(Op):
         self, data: Union[MutableSequence[object], MutableMapping[str, object]]
     ) -> Union[MutableSequence[object], MutableMapping[str, object]]:
         """Apply this patch operation to _data_."""
-        parent, obj = self.path.resolve_parent(data)
+        parent, target, obj = _resolve_target(self.path, data)
         if parent is None:
             return self.value  # type: ignore
 
         if isinstance(parent, MutableSequence):
             if obj is UNDEFINED:
                 raise JSONPatchError("can't replace nonexistent item")
-            parent[int(self.path.parts[-1])] = self.value
+            parent[target] = self.value
         elif isinstance(parent, MutableMapping):
             if obj is UNDEFINED:
                 raise JSONPatchError("can't replace nonexistent property")
-            parent[self.path.parts[-1]] = self.value
+            parent[target] = self.value
         else:
             raise JSONPatchError(
                 f"unexpected operation on {parent.__class__.__name__!r}"
@@ -251,31 +293,21 @@ class OpMove(Op):
         if self.dest.is_relative_to(self.source):
             raise JSONPatchError("can't move object to one of its own children")
 
-        source_parent, source_obj = self.source.resolve_parent(data)
+        source_parent, source_target, source_obj = _resolve_target(self.source, data)
 
         if source_obj is UNDEFINED:
             raise JSONPatchError("source object does not exist")
 
-        if isinstance(source_parent, MutableSequence):
-            del source_parent[int(self.source.parts[-1])]
-        if isinstance(source_parent, MutableMapping):
-            del source_parent[self.source.parts[-1]]
+        if isinstance(source_parent, (MutableSequence, MutableMapping)):
+            del source_parent[source_target]
 
-        dest_parent, _ = self.dest.resolve_parent(data)
+        dest_parent, dest_target, _ = _resolve_target(self.dest, data)
 
         if dest_parent is None:
             # Move source to root
             return source_obj  # type: ignore
 
-        if isinstance(dest_parent, MutableSequence):
-            dest_parent.insert(int(self.dest.parts[-1]), source_obj)
-        elif isinstance(dest_parent, MutableMapping):
-            dest_parent[self.dest.parts[-1]] = source_obj
-        else:
-            raise JSONPatchError(
-                f"unexpected operation on {dest_parent.__class__.__name__!r}"
-            )
-
+        _insert(dest_parent, dest_target, source_obj)
         return data
 
     def asdict(self) -> Dict[str, object]:
@@ -298,26 +330,18 @@ class OpCopy(Op):
         self, data: Union[MutableSequence[object], MutableMapping[str, object]]
     ) -> Union[MutableSequence[object], MutableMapping[str, object]]:
         """Apply this patch operation to _data_."""
-        source_parent, source_obj = self.source.resolve_parent(data)
+        _, _, source_obj = _resolve_target(self.source, data)
 
         if source_obj is UNDEFINED:
             raise JSONPatchError("source object does not exist")
 
-        dest_parent, dest_obj = self.dest.resolve_parent(data)
+        dest_parent, dest_target, _ = _resolve_target(self.dest, data)
 
         if dest_parent is None:
             # Copy source to root
             return copy.deepcopy(source_obj)  # type: ignore
 
-        if isinstance(dest_parent, MutableSequence):
-            dest_parent.insert(int(self.dest.parts[-1]), copy.deepcopy(source_obj))
-        elif isinstance(dest_parent, MutableMapping):
-            dest_parent[self.dest.parts[-1]] = copy.deepcopy(source_obj)
-        else:
-            raise JSONPatchError(
-                f"unexpected operation on {dest_parent.__class__.__name__!r}"
-            )
-
+        _insert(dest_parent, dest_target, copy.deepcopy(source_obj))
         return data
 
     def asdict(self) -> Dict[str, object]:
@@ -340,7 +364,7 @@ class OpTest(Op):
         self, data: Union[MutableSequence[object], MutableMapping[str, object]]
     ) -> Union[MutableSequence[object], MutableMapping[str, object]]:
         """Apply this patch operation to _data_."""
-        _, obj = self.path.resolve_parent(data)
+        _, _, obj = _resolve_target(self.path, data)
         if not obj == self.value:
             raise JSONPatchTestFailure
         return data
-- 
2.43.0


From 1b58ab3ddd8fdcc7aa5893608d74dbc3c17bfaf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:31 +0000
Subject: [PATCH 33/45] fix: addne and addap differ from add only as documented

---
 jsonpath/patch.py | 43 +++++++++----------------------------------
 1 file changed, 9 insertions(+), 34 deletions(-)

diff --git a/jsonpath/patch.py b/jsonpath/patch.py
index 6e5a19f..1e1f100 100644
--- a/jsonpath/patch.py
+++ b/jsonpath/patch.py
@@ -145,21 +145,10 @@ class OpAddNe(OpAdd):
         self, data: Union[MutableSequence[object], MutableMapping[str, object]]
     ) -> Union[MutableSequence[object], MutableMapping[str, object]]:
         """Apply this patch operation to _data_."""
-        parent, obj = self.path.resolve_parent(data)
-        if parent is None:
-            # Replace the root object.
-            # The following op, if any, will raise a JSONPatchError if needed.
-            return self.value  # type: ignore
-
-        target = self.path.parts[-1]
-        if isinstance(parent, MutableSequence):
-            if obj is UNDEFINED:
-                parent.append(self.value)
-            else:
-                parent.insert(int(target), self.value)
-        elif isinstance(parent, MutableMapping) and target not in parent:
-            parent[target] = self.value
-        return data
+        parent, _, obj = _resolve_target(self.path, data)
+        if isinstance(parent, MutableMapping) and obj is not UNDEFINED:
+            return data
+        return super().apply(data)
 
 
 class OpAddAp(OpAdd):
@@ -179,25 +168,11 @@ class OpAddAp(OpAdd):
         self, data: Union[MutableSequence[object], MutableMapping[str, object]]
     ) -> Union[MutableSequence[object], MutableMapping[str, object]]:
         """Apply this patch operation to _data_."""
-        parent, obj = self.path.resolve_parent(data)
-        if parent is None:
-            # Replace the root object.
-            # The following op, if any, will raise a JSONPatchError if needed.
-            return self.value  # type: ignore
-
-        target = self.path.parts[-1]
-        if isinstance(parent, MutableSequence):
-            if obj is UNDEFINED:
-                parent.append(self.value)
-            else:
-                parent.insert(int(target), self.value)
-        elif isinstance(parent, MutableMapping):
-            parent[target] = self.value
-        else:
-            raise JSONPatchError(
-                f"unexpected operation on {parent.__class__.__name__!r}"
-            )
-        return data
+        parent, _, obj = _resolve_target(self.path, data)
+        if isinstance(parent, MutableSequence) and obj is UNDEFINED:
+            parent.append(self.value)
+            return data
+        return super().apply(data)
 
 
 class OpRemove(Op):
-- 
2.43.0


From 4dc3d1d419488b16fac2f31d543c393c39cb5609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:34 +0000
Subject: [PATCH 34/45] fix: the patch loader builds addap operations

---
 jsonpath/patch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonpath/patch.py b/jsonpath/patch.py
index 1e1f100..286fb40 100644
--- a/jsonpath/patch.py
+++ b/jsonpath/patch.py
@@ -418,7 +418,7 @@ class JSONPatch:
                     value=self._op_value(operation, "value", "addne", i),
                 )
             elif op == "addap":
-                self.addne(
+                self.addap(
                     path=self._op_pointer(operation, "path", "addap", i),
                     value=self._op_value(operation, "value", "addap", i),
                 )
-- 
2.43.0


From c951e757d003f4f59b3ed6112cdf6a025491828e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:37 +0000
Subject: [PATCH 35/45] fix: patch test operations do not identify booleans
 with numbers

---
 jsonpath/patch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonpath/patch.py b/jsonpath/patch.py
index 286fb40..92449ab 100644
--- a/jsonpath/patch.py
+++ b/jsonpath/patch.py
@@ -19,6 +19,7 @@ from typing import TypeVar
 from typing import Union
 
 from jsonpath._data import load_data
+from jsonpath._equal import equal
 from jsonpath.exceptions import JSONPatchError
 from jsonpath.exceptions import JSONPatchTestFailure
 from jsonpath.exceptions import JSONPointerError
@@ -340,7 +341,7 @@ class OpTest(Op):
     ) -> Union[MutableSequence[object], MutableMapping[str, object]]:
         """Apply this patch operation to _data_."""
         _, _, obj = _resolve_target(self.path, data)
-        if not obj == self.value:
+        if obj is UNDEFINED or not equal(obj, self.value):
             raise JSONPatchTestFailure
         return data
 
-- 
2.43.0


From 90bb4a80e46ffaab6ce96914770705e7c82799b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:41 +0000
Subject: [PATCH 36/45] fix: applying a patch does not share its values with
 the document

---
 jsonpath/patch.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/jsonpath/patch.py b/jsonpath/patch.py
index 92449ab..0c59a1c 100644
--- a/jsonpath/patch.py
+++ b/jsonpath/patch.py
@@ -119,9 +119,9 @@ class OpAdd(Op):
         if parent is None:
             # Replace the root object.
             # The following op, if any, will raise a JSONPatchError if needed.
-            return self.value  # type: ignore
+            return copy.deepcopy(self.value)  # type: ignore
 
-        _insert(parent, target, self.value)
+        _insert(parent, target, copy.deepcopy(self.value))
         return data
 
     def asdict(self) -> Dict[str, object]:
@@ -171,7 +171,7 @@ class OpAddAp(OpAdd):
         """Apply this patch operation to _data_."""
         parent, _, obj = _resolve_target(self.path, data)
         if isinstance(parent, MutableSequence) and obj is UNDEFINED:
-            parent.append(self.value)
+            parent.append(copy.deepcopy(self.value))
             return data
         return super().apply(data)
 
@@ -230,16 +230,16 @@ class OpReplace(Op):
         """Apply this patch operation to _data_."""
         parent, target, obj = _resolve_target(self.path, data)
         if parent is None:
-            return self.value  # type: ignore
+            return copy.deepcopy(self.value)  # type: ignore
 
         if isinstance(parent, MutableSequence):
             if obj is UNDEFINED:
                 raise JSONPatchError("can't replace nonexistent item")
-            parent[target] = self.value
+            parent[target] = copy.deepcopy(self.value)
         elif isinstance(parent, MutableMapping):
             if obj is UNDEFINED:
                 raise JSONPatchError("can't replace nonexistent property")
-            parent[target] = self.value
+            parent[target] = copy.deepcopy(self.value)
         else:
             raise JSONPatchError(
                 f"unexpected operation on {parent.__class__.__name__!r}"
-- 
2.43.0


From e675721922b65f60425f806ae477995c99ea4c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:52 +0000
Subject: [PATCH 37/45] fix: patching a root string does not parse it as JSON

---
 jsonpath/patch.py   |  2 +-
 jsonpath/pointer.py | 11 ++++++++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/jsonpath/patch.py b/jsonpath/patch.py
index 0c59a1c..ff2d0e8 100644
--- a/jsonpath/patch.py
+++ b/jsonpath/patch.py
@@ -49,7 +49,7 @@ def _resolve_target(
     The parent is `None` if _pointer_ points to the root. The value is `UNDEFINED`
     if there's nothing there. Non-standard key and index tokens target nothing.
     """
-    parent, obj = pointer.resolve_parent(data)
+    parent, obj = pointer._resolve_parent(data)  # noqa: SLF001
     if parent is None:
         return (None, "", obj)
 
diff --git a/jsonpath/pointer.py b/jsonpath/pointer.py
index 4e7e2a6..1e40669 100644
--- a/jsonpath/pointer.py
+++ b/jsonpath/pointer.py
@@ -248,11 +248,16 @@ class JSONPointer:
             JSONPointerTypeError: When attempting to resolve a non-index string
                 path part against a sequence.
         """
+        return self._resolve_parent(load_data(data))
+
+    def _resolve_parent(
+        self, data: Any
+    ) -> Tuple[Union[Sequence[object], Mapping[str, object], None], object]:
+        # Like `resolve_parent()`, but a string is always a JSON string.
         if not self.parts:
-            return (None, self.resolve(data))
+            return (None, data)
 
-        _data = load_data(data)
-        parent = reduce(self._getitem, self.parts[:-1], _data)
+        parent = reduce(self._getitem, self.parts[:-1], data)
 
         try:
             return (parent, self._getitem(parent, self.parts[-1]))
-- 
2.43.0


From a2bff8810413bfc6f8519d671fb7dd1a06c80d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:02 +0000
Subject: [PATCH 38/45] fix: projections never modify selected values and rank
 indices in order

---
 jsonpath/fluent_api.py | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/jsonpath/fluent_api.py b/jsonpath/fluent_api.py
index 4329e08..0e4282d 100644
--- a/jsonpath/fluent_api.py
+++ b/jsonpath/fluent_api.py
@@ -223,7 +223,7 @@ class Query:
             return None
 
         if projection == Projection.RELATIVE:
-            obj: Dict[Union[int, str], Any] = {}
+            obj = _Sparse()
             for expr in expressions:
                 path = self._env.compile(expr) if isinstance(expr, str) else expr
                 for rel_match in path.finditer(match.obj):  # type: ignore
@@ -240,7 +240,7 @@ class Query:
             return arr
 
         # Project from the root document
-        obj = {}
+        obj = _Sparse()
         for expr in expressions:
             path = self._env.compile(expr) if isinstance(expr, str) else expr
             for rel_match in path.finditer(match.obj):  # type: ignore
@@ -249,9 +249,13 @@ class Query:
         return _fix_sparse_arrays(obj)
 
 
+class _Sparse(Dict[Union[int, str], Any]):
+    """An object or array under construction, by key or index."""
+
+
 def _patch_obj(
     parts: Tuple[Union[int, str], ...],
-    obj: Mapping[Union[str, int], Any],
+    obj: _Sparse,
     value: object,
 ) -> None:
     _obj = obj
@@ -264,23 +268,20 @@ def _patch_obj(
     # We'll fix these "sparse arrays" after the patch has been applied.
     for part in parts[:-1]:
         if part not in _obj:
-            _obj[part] = {}  # type: ignore
+            _obj[part] = _Sparse()
         _obj = _obj[part]
+        if not isinstance(_obj, _Sparse):
+            # The whole of this value has been selected already.
+            return
 
-    _obj[parts[-1]] = value  # type: ignore
+    _obj[parts[-1]] = value
 
 
 def _fix_sparse_arrays(obj: Any) -> object:
     """Fix sparse arrays (dictionaries with integer keys)."""
-    if isinstance(obj, str) or not obj:
+    if not isinstance(obj, _Sparse) or not obj:
         return obj
 
-    if isinstance(obj, Sequence):
-        return [_fix_sparse_arrays(e) for e in obj]
-
-    if isinstance(obj, Mapping):
-        if isinstance(next(iter(obj)), int):
-            return [_fix_sparse_arrays(v) for v in obj.values()]
-        return {k: _fix_sparse_arrays(v) for k, v in obj.items()}
-
-    return obj
+    if isinstance(next(iter(obj)), int):
+        return [_fix_sparse_arrays(obj[i]) for i in sorted(obj)]
+    return {k: _fix_sparse_arrays(v) for k, v in obj.items()}
-- 
2.43.0


From 242278813a7d566bf2811670e30612e64500b995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:47 +0000
Subject: [PATCH 39/45] fix: read the query from the file given with
 --path-file

---
 jsonpath/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonpath/cli.py b/jsonpath/cli.py
index e79d2fd..872332e 100644
--- a/jsonpath/cli.py
+++ b/jsonpath/cli.py
@@ -242,7 +242,7 @@ def handle_path_command(args: argparse.Namespace) -> None:  # noqa: PLR0912
     if args.query is not None:
         query = args.query
     else:
-        query = args.query_file.read().strip()
+        query = args.path_file.read().strip()
 
     try:
         path = jsonpath.JSONPathEnvironment(
-- 
2.43.0


From 024d11baf2e67e2678e610ff566b815dd14acef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:50 +0000
Subject: [PATCH 40/45] fix: the command line tool reports every JSONPath error

---
 jsonpath/cli.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/jsonpath/cli.py b/jsonpath/cli.py
index 872332e..ab0ee34 100644
--- a/jsonpath/cli.py
+++ b/jsonpath/cli.py
@@ -6,6 +6,7 @@ import sys
 import jsonpath
 from jsonpath.__about__ import __version__
 from jsonpath.exceptions import JSONPatchError
+from jsonpath.exceptions import JSONPathError
 from jsonpath.exceptions import JSONPathIndexError
 from jsonpath.exceptions import JSONPathSyntaxError
 from jsonpath.exceptions import JSONPathTypeError
@@ -264,6 +265,11 @@ def handle_path_command(args: argparse.Namespace) -> None:  # noqa: PLR0912
             raise
         sys.stderr.write(f"json path index error: {err}\n")
         sys.exit(1)
+    except JSONPathError as err:
+        if args.debug:
+            raise
+        sys.stderr.write(f"json path error: {err}\n")
+        sys.exit(1)
 
     try:
         matches = path.findall(args.file)
@@ -278,6 +284,11 @@ def handle_path_command(args: argparse.Namespace) -> None:  # noqa: PLR0912
             raise
         sys.stderr.write(f"json path type error: {err}\n")
         sys.exit(1)
+    except JSONPathError as err:
+        if args.debug:
+            raise
+        sys.stderr.write(f"json path error: {err}\n")
+        sys.exit(1)
 
     indent = INDENT if args.pretty else None
     json.dump(matches, args.output, indent=indent)
-- 
2.43.0


From acf101b74c85449891ed907bf28e255a28d969c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:53 +0000
Subject: [PATCH 41/45] fix: the command line tool reports documents that are
 not text

---
 jsonpath/cli.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/jsonpath/cli.py b/jsonpath/cli.py
index ab0ee34..fc1d02b 100644
--- a/jsonpath/cli.py
+++ b/jsonpath/cli.py
@@ -273,7 +273,7 @@ def handle_path_command(args: argparse.Namespace) -> None:  # noqa: PLR0912
 
     try:
         matches = path.findall(args.file)
-    except json.JSONDecodeError as err:
+    except ValueError as err:
         if args.debug:
             raise
         sys.stderr.write(f"target document json decode error: {err}\n")
@@ -310,7 +310,7 @@ def handle_pointer_command(args: argparse.Namespace) -> None:
             unicode_escape=not args.no_unicode_escape,
             uri_decode=args.uri_decode,
         )
-    except json.JSONDecodeError as err:
+    except ValueError as err:
         if args.debug:
             raise
         sys.stderr.write(f"target document json decode error: {err}\n")
@@ -329,7 +329,7 @@ def handle_patch_command(args: argparse.Namespace) -> None:
     """Handle the `patch` sub command."""
     try:
         patch = json.load(args.patch)
-    except json.JSONDecodeError as err:
+    except ValueError as err:
         if args.debug:
             raise
         sys.stderr.write(f"patch document json decode error: {err}\n")
@@ -348,7 +348,7 @@ def handle_patch_command(args: argparse.Namespace) -> None:
             unicode_escape=not args.no_unicode_escape,
             uri_decode=args.uri_decode,
         )
-    except json.JSONDecodeError as err:
+    except ValueError as err:
         if args.debug:
             raise
         sys.stderr.write(f"target document json decode error: {err}\n")
-- 
2.43.0


From 990a4185935d6443efca693ee837a43e1e9345b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:43 +0000
Subject: [PATCH 42/45] fix: command line error messages are one line

---
 jsonpath/cli.py | 43 +++++++++++++++++++------------------------
 1 file changed, 19 insertions(+), 24 deletions(-)

diff --git a/jsonpath/cli.py b/jsonpath/cli.py
index fc1d02b..9aeb2c8 100644
--- a/jsonpath/cli.py
+++ b/jsonpath/cli.py
@@ -2,6 +2,7 @@
 import argparse
 import json
 import sys
+from typing import NoReturn
 
 import jsonpath
 from jsonpath.__about__ import __version__
@@ -237,6 +238,12 @@ def setup_parser() -> argparse.ArgumentParser:  # noqa: D103
     return parser
 
 
+def _fail(message: str) -> NoReturn:
+    """Write _message_ to the standard error stream, on one line, and exit."""
+    sys.stderr.write(" ".join(message.splitlines()) + "\n")
+    sys.exit(1)
+
+
 def handle_path_command(args: argparse.Namespace) -> None:  # noqa: PLR0912
     """Handle the `path` sub command."""
     # Empty string is OK.
@@ -253,42 +260,35 @@ def handle_path_command(args: argparse.Namespace) -> None:  # noqa: PLR0912
     except JSONPathSyntaxError as err:
         if args.debug:
             raise
-        sys.stderr.write(f"json path syntax error: {err}\n")
-        sys.exit(1)
+        _fail(f"json path syntax error: {err}")
     except JSONPathTypeError as err:
         if args.debug:
             raise
-        sys.stderr.write(f"json path type error: {err}\n")
-        sys.exit(1)
+        _fail(f"json path type error: {err}")
     except JSONPathIndexError as err:
         if args.debug:
             raise
-        sys.stderr.write(f"json path index error: {err}\n")
-        sys.exit(1)
+        _fail(f"json path index error: {err}")
     except JSONPathError as err:
         if args.debug:
             raise
-        sys.stderr.write(f"json path error: {err}\n")
-        sys.exit(1)
+        _fail(f"json path error: {err}")
 
     try:
         matches = path.findall(args.file)
     except ValueError as err:
         if args.debug:
             raise
-        sys.stderr.write(f"target document json decode error: {err}\n")
-        sys.exit(1)
+        _fail(f"target document json decode error: {err}")
     except JSONPathTypeError as err:
         # Type errors are currently only occurring are compile-time.
         if args.debug:
             raise
-        sys.stderr.write(f"json path type error: {err}\n")
-        sys.exit(1)
+        _fail(f"json path type error: {err}")
     except JSONPathError as err:
         if args.debug:
             raise
-        sys.stderr.write(f"json path error: {err}\n")
-        sys.exit(1)
+        _fail(f"json path error: {err}")
 
     indent = INDENT if args.pretty else None
     json.dump(matches, args.output, indent=indent)
@@ -313,13 +313,11 @@ def handle_pointer_command(args: argparse.Namespace) -> None:
     except ValueError as err:
         if args.debug:
             raise
-        sys.stderr.write(f"target document json decode error: {err}\n")
-        sys.exit(1)
+        _fail(f"target document json decode error: {err}")
     except JSONPointerError as err:
         if args.debug:
             raise
-        sys.stderr.write(str(err) + "\n")
-        sys.exit(1)
+        _fail(str(err))
 
     indent = INDENT if args.pretty else None
     json.dump(match, args.output, indent=indent)
@@ -332,8 +330,7 @@ def handle_patch_command(args: argparse.Namespace) -> None:
     except ValueError as err:
         if args.debug:
             raise
-        sys.stderr.write(f"patch document json decode error: {err}\n")
-        sys.exit(1)
+        _fail(f"patch document json decode error: {err}")
 
     if not isinstance(patch, list):
         sys.stderr.write(
@@ -351,13 +348,11 @@ def handle_patch_command(args: argparse.Namespace) -> None:
     except ValueError as err:
         if args.debug:
             raise
-        sys.stderr.write(f"target document json decode error: {err}\n")
-        sys.exit(1)
+        _fail(f"target document json decode error: {err}")
     except JSONPatchError as err:
         if args.debug:
             raise
-        sys.stderr.write(str(err) + "\n")
-        sys.exit(1)
+        _fail(str(err))
 
     indent = INDENT if args.pretty else None
     json.dump(patched, args.output, indent=indent)
-- 
2.43.0


From e7c2d381e742139a7b759a395da7c42756073948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:16 +0000
Subject: [PATCH 43/45] fix: patch operations don't insert at negative indices

---
 jsonpath/patch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonpath/patch.py b/jsonpath/patch.py
index ff2d0e8..65b2c00 100644
--- a/jsonpath/patch.py
+++ b/jsonpath/patch.py
@@ -74,7 +74,7 @@ def _insert(parent: object, target: Union[int, str], value: object) -> None:
     if isinstance(parent, MutableSequence):
         if target == "-":
             parent.append(value)
-        elif isinstance(target, int) and target <= len(parent):
+        elif isinstance(target, int) and 0 <= target <= len(parent):
             parent.insert(target, value)
         else:
             raise JSONPatchError("index out of range")
-- 
2.43.0


From f84edfa7ef47bd55a3d117b27a06ada08361be55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:23 +0000
Subject: [PATCH 44/45] fix: accept descendant names spelled like keywords or
 identifiers

---
 jsonpath/lex.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/jsonpath/lex.py b/jsonpath/lex.py
index 047ea1b..0e76518 100644
--- a/jsonpath/lex.py
+++ b/jsonpath/lex.py
@@ -108,6 +108,9 @@ class Lexer:
         # .thing
         self.dot_property_pattern = rf"\.(?P<G_PROP>{self.key_pattern})"
 
+        # .. or ..thing, where thing could be spelled like a keyword or identifier
+        self.descendant_pattern = rf"\.\.(?P<G_DDOT_PROP>{self.key_pattern})?"
+
         self.slice_list_pattern = (
             r"(?P<G_LSLICE_START>\-?\d*)\s*"
             r":\s*(?P<G_LSLICE_STOP>\-?\d*)\s*"
@@ -146,7 +149,7 @@ class Lexer:
             (TOKEN_DOT_PROPERTY, self.dot_property_pattern),
             (TOKEN_FLOAT, r"-?\d+\.\d*(?:[eE][+-]?\d+)?"),
             (TOKEN_INT, r"-?\d+(?P<G_EXP>[eE][+\-]?\d+)?\b"),
-            (TOKEN_DDOT, r"\.\."),
+            (TOKEN_DDOT, self.descendant_pattern),
             (TOKEN_AND, self.logical_and_pattern),
             (TOKEN_OR, self.logical_or_pattern),
             *[
@@ -215,6 +218,18 @@ class Lexer:
                     value=match.group("G_PROP"),
                     index=match.start("G_PROP"),
                 )
+            elif kind == TOKEN_DDOT:
+                yield _token(
+                    kind=TOKEN_DDOT,
+                    value="..",
+                    index=match.start(),
+                )
+                if match.group("G_DDOT_PROP"):
+                    yield _token(
+                        kind=TOKEN_BARE_PROPERTY,
+                        value=match.group("G_DDOT_PROP"),
+                        index=match.start("G_DDOT_PROP"),
+                    )
             elif kind == TOKEN_BARE_PROPERTY:
                 yield _token(
                     kind=TOKEN_BARE_PROPERTY,
-- 
2.43.0


From 00e1cc0028efbe301dee731743274f2883184f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:21 +0000
Subject: [PATCH 45/45] fix: white space before a dot doesn't swallow the dot

---
 jsonpath/lex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonpath/lex.py b/jsonpath/lex.py
index 0e76518..35a0dac 100644
--- a/jsonpath/lex.py
+++ b/jsonpath/lex.py
@@ -185,7 +185,7 @@ class Lexer:
             (TOKEN_BARE_PROPERTY, self.key_pattern),
             (TOKEN_LPAREN, r"\("),
             (TOKEN_RPAREN, r"\)"),
-            (TOKEN_SKIP, r"[ \n\t\r\.]+"),
+            (TOKEN_SKIP, r"[ \n\t\r]+|\."),
             (TOKEN_ILLEGAL, r"."),
         ]
 
-- 
2.43.0

