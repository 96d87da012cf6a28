From 958426c4c1cb895706f6162f390aaf2bd6c8e224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:15 +0000
Subject: [PATCH 01/18] fix: reject names that end with a newline

The name patterns ended in "$", which also matches before a trailing newline,
so "events\n" was accepted as an entity name and printed into the query.
---
 snuba_sdk/column.py      | 2 +-
 snuba_sdk/entity.py      | 2 +-
 snuba_sdk/expressions.py | 2 +-
 snuba_sdk/function.py    | 4 ++--
 snuba_sdk/request.py     | 2 +-
 snuba_sdk/storage.py     | 2 +-
 6 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/snuba_sdk/column.py b/snuba_sdk/column.py
index 7c120f4..a0e9b5c 100644
--- a/snuba_sdk/column.py
+++ b/snuba_sdk/column.py
@@ -11,7 +11,7 @@ class InvalidColumnError(InvalidExpressionError):
     pass
 
 
-column_name_re = re.compile(r"^[a-zA-Z_](\w|\.|:|\/|@)*(\[([^\[\]]*)\])?$")
+column_name_re = re.compile(r"^[a-zA-Z_](\w|\.|:|\/|@)*(\[([^\[\]]*)\])?\Z")
 
 
 @dataclass(frozen=True)
diff --git a/snuba_sdk/entity.py b/snuba_sdk/entity.py
index cefeca6..1bb0577 100644
--- a/snuba_sdk/entity.py
+++ b/snuba_sdk/entity.py
@@ -5,7 +5,7 @@ from typing import Optional
 from snuba_sdk.expressions import Expression
 from snuba_sdk.schema import DataModel
 
-entity_name_re = re.compile(r"^[a-zA-Z_]+$")
+entity_name_re = re.compile(r"^[a-zA-Z_]+\Z")
 
 
 class InvalidEntityError(Exception):
diff --git a/snuba_sdk/expressions.py b/snuba_sdk/expressions.py
index 8834353..805d70d 100644
--- a/snuba_sdk/expressions.py
+++ b/snuba_sdk/expressions.py
@@ -20,7 +20,7 @@ class Expression(ABC):
         raise NotImplementedError
 
 
-ALIAS_RE = re.compile(r"^[a-zA-Z0-9_\.\+\*\/:\-\[\]\(\)\@]*$")
+ALIAS_RE = re.compile(r"^[a-zA-Z0-9_\.\+\*\/:\-\[\]\(\)\@]*\Z")
 
 
 # For type hinting
diff --git a/snuba_sdk/function.py b/snuba_sdk/function.py
index 7acde77..4278cfa 100644
--- a/snuba_sdk/function.py
+++ b/snuba_sdk/function.py
@@ -25,7 +25,7 @@ class InvalidFunctionError(InvalidExpressionError):
 # wasn't worth it to import an entire parsing grammar into the SDK
 # just to accomodate that one case. Instead, allow it for now and
 # once that use case is eliminated we can remove this.
-function_name_re = re.compile(r"""^[a-zA-Z](\w|[().,+'":]| |\[|\]|\-)+$""")
+function_name_re = re.compile(r"""^[a-zA-Z](\w|[().,+'":]| |\[|\]|\-)+\Z""")
 
 
 @dataclass(frozen=True)
@@ -115,7 +115,7 @@ class Function(CurriedFunction):
     )
 
 
-identifier_re = re.compile("^[a-zA-Z_][a-zA-Z0-9_]*$")
+identifier_re = re.compile(r"^[a-zA-Z_][a-zA-Z0-9_]*\Z")
 
 
 class InvalidLambdaError(InvalidExpressionError):
diff --git a/snuba_sdk/request.py b/snuba_sdk/request.py
index b8dd7e2..2388f2f 100644
--- a/snuba_sdk/request.py
+++ b/snuba_sdk/request.py
@@ -40,7 +40,7 @@ class Flags:
         return {f: v for f, v in values.items() if v is not None}
 
 
-FLAG_RE = re.compile(r"^[a-zA-Z0-9_\.\+\*\/:\-\[\]]*$")
+FLAG_RE = re.compile(r"^[a-zA-Z0-9_\.\+\*\/:\-\[\]]*\Z")
 
 
 @dataclass
diff --git a/snuba_sdk/storage.py b/snuba_sdk/storage.py
index 429458c..38bb3e8 100644
--- a/snuba_sdk/storage.py
+++ b/snuba_sdk/storage.py
@@ -5,7 +5,7 @@ from typing import Optional
 from snuba_sdk.expressions import Expression
 from snuba_sdk.schema import DataModel
 
-storage_name_re = re.compile(r"^[a-zA-Z_]+$")
+storage_name_re = re.compile(r"^[a-zA-Z_]+\Z")
 
 
 class InvalidStorageError(Exception):
-- 
2.43.0


From a055f3fe88b35842e12b5ab7cd1e7a265491736a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:31 +0000
Subject: [PATCH 02/18] fix: check a subscripted column's base name against its
 entity's data model

Column.validate compared the full name ("tags[foo]") with the model because the
subscriptable part was only split off afterwards, so valid columns were rejected.
---
 snuba_sdk/column.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/snuba_sdk/column.py b/snuba_sdk/column.py
index a0e9b5c..e740e0e 100644
--- a/snuba_sdk/column.py
+++ b/snuba_sdk/column.py
@@ -54,8 +54,6 @@ class Column(Expression):
                     f"column '{self.name}' expects an Entity with an alias"
                 )
 
-            self.validate_data_model(self.entity)
-
         # If this is a subscriptable set these values to help with debugging etc.
         # Because this is frozen we can't set the value directly.
         if "[" in self.name:
@@ -64,6 +62,9 @@ class Column(Expression):
             super().__setattr__("subscriptable", subscriptable)
             super().__setattr__("key", key)
 
+        if self.entity is not None:
+            self.validate_data_model(self.entity)
+
     def validate_data_model(self, match: Union[Entity, Storage]) -> None:
         if match.data_model is None:
             return
-- 
2.43.0


From f3d88223ffe4d81d8da088e9308b323d91a4bcd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:34 +0000
Subject: [PATCH 03/18] fix: reject a rollup granularity of 0

Falsy granularities skipped the check of the allowed values.
---
 snuba_sdk/timeseries.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/snuba_sdk/timeseries.py b/snuba_sdk/timeseries.py
index a0612a8..2c33958 100644
--- a/snuba_sdk/timeseries.py
+++ b/snuba_sdk/timeseries.py
@@ -181,7 +181,10 @@ class Rollup:
     def validate(self) -> None:
         # The interval is used to determine how the timestamp is rolled up in the group by of the query.
         # The granularity is separate since it ultimately determines which data we retrieve.
-        if self.granularity and self.granularity not in ALLOWED_GRANULARITIES:
+        if (
+            self.granularity is not None
+            and self.granularity not in ALLOWED_GRANULARITIES
+        ):
             raise InvalidExpressionError(
                 f"granularity must be an integer and one of {ALLOWED_GRANULARITIES}"
             )
-- 
2.43.0


From d97d507e404e74454dc63fdbe1943a5e31cdf0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:37 +0000
Subject: [PATCH 04/18] fix: reject filter operators that MQL cannot express

>, <, >=, <=, IS NULL and IS NOT NULL were printed as equality.
---
 snuba_sdk/visitors.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/snuba_sdk/visitors.py b/snuba_sdk/visitors.py
index c787731..61f82f6 100644
--- a/snuba_sdk/visitors.py
+++ b/snuba_sdk/visitors.py
@@ -134,6 +134,10 @@ class ExpressionVisitor(ABC, Generic[TVisited]):
         raise NotImplementedError
 
 
+# The operators that MQL's `key:value` filters can express, with or without a leading `!`.
+MQL_OPERATORS = (Op.EQ, Op.NEQ, Op.IN, Op.NOT_IN, Op.LIKE, Op.NOT_LIKE)
+
+
 class Translation(ExpressionVisitor[str]):
     def __init__(self, use_entity_aliases: bool = False, is_mql: bool = False):
         self.use_entity_aliases = use_entity_aliases
@@ -292,10 +296,13 @@ class Translation(ExpressionVisitor[str]):
         return f"({conditions_with_op})"
 
     def _visit_condition_mql(self, cond: Condition) -> str:
+        if cond.op not in MQL_OPERATORS:
+            raise InvalidExpressionError(
+                f"operator '{cond.op.value}' is not supported in conditions in MQL"
+            )
+
         rhs = None
-        if is_unary(cond.op):
-            rhs = ""
-        elif isinstance(cond.rhs, (CurriedFunction, Function)):
+        if isinstance(cond.rhs, (CurriedFunction, Function)):
             raise InvalidExpressionError(
                 "CurriedFunction and Function are not supported in conditions in MQL"
             )
-- 
2.43.0


From 822282d198a9d5bceb2f2f3496ffab4b80339d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:39 +0000
Subject: [PATCH 05/18] fix: accept a Storage in Query.set_match, as the
 constructor does

---
 snuba_sdk/query.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snuba_sdk/query.py b/snuba_sdk/query.py
index 00507fe..3b7f576 100644
--- a/snuba_sdk/query.py
+++ b/snuba_sdk/query.py
@@ -100,7 +100,7 @@ class Query(BaseQuery):
         return new
 
     def set_match(self, match: Union[Entity, Storage, Join, Query]) -> Query:
-        if not isinstance(match, (Entity, Join, Query)):
+        if not isinstance(match, (Entity, Storage, Join, Query)):
             raise InvalidQueryError(
                 f"{match} must be a valid Entity, Storage, Join or Query"
             )
-- 
2.43.0


From a4a3920774d1e65789f4035def79514752765f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:42 +0000
Subject: [PATCH 06/18] fix: do not modify the order-by of a legacy body

json_to_snql stripped the "-" in place, so converting the same body again lost the
descending order. A tuple order-by reused the previous expression or failed.
---
 snuba_sdk/legacy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/snuba_sdk/legacy.py b/snuba_sdk/legacy.py
index f7295c7..6150ea7 100644
--- a/snuba_sdk/legacy.py
+++ b/snuba_sdk/legacy.py
@@ -320,7 +320,8 @@ def json_to_snql(body: Mapping[str, Any], entity: str) -> Request:
         order_bys = []
         for o in order_by:
             direction = Direction.ASC
-            if isinstance(o, list):
+            if isinstance(o, (list, tuple)):
+                o = list(o)
                 first = o[0]
                 if isinstance(first, str) and first.startswith("-"):
                     o[0] = first.lstrip("-")
-- 
2.43.0


From 15c34f3024a81f38462f580df9ef9cf5378891a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:45 +0000
Subject: [PATCH 07/18] fix: accept a single alternative in a legacy having, as
 in conditions

---
 snuba_sdk/legacy.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/snuba_sdk/legacy.py b/snuba_sdk/legacy.py
index 6150ea7..f0dee9c 100644
--- a/snuba_sdk/legacy.py
+++ b/snuba_sdk/legacy.py
@@ -306,7 +306,10 @@ def json_to_snql(body: Mapping[str, Any], entity: str) -> Request:
             for or_cond in cond:
                 or_conditions.append(parse_condition(or_cond))
 
-            having.append(Or(or_conditions))
+            if len(or_conditions) > 1:
+                having.append(Or(or_conditions))
+            else:
+                having.extend(or_conditions)
         else:
             having.append(parse_condition(cond))
 
-- 
2.43.0


From 497d051e213241d45af5b4ef618f78f0cabb104e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:47 +0000
Subject: [PATCH 08/18] fix: leave the alias out of the hash of functions

Functions that differ only in alias compare equal but had different hashes.
---
 snuba_sdk/function.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/snuba_sdk/function.py b/snuba_sdk/function.py
index 4278cfa..b8da0b1 100644
--- a/snuba_sdk/function.py
+++ b/snuba_sdk/function.py
@@ -44,7 +44,8 @@ class CurriedFunction(Expression):
             ]
         ]
     ] = None
-    alias: Optional[str] = None
+    # Not part of the hash since it isn't part of equality either.
+    alias: Optional[str] = field(default=None, hash=False)
 
     def validate(self) -> None:
         if not isinstance(self.function, str):
-- 
2.43.0


From 08c6683740be2b9b5494f5401bb92f978b8aa729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:50 +0000
Subject: [PATCH 09/18] fix: find expressions inside lists and tuples

Columns in array or tuple arguments were never checked against the match clause.
---
 snuba_sdk/visitors.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/snuba_sdk/visitors.py b/snuba_sdk/visitors.py
index 61f82f6..6517ddf 100644
--- a/snuba_sdk/visitors.py
+++ b/snuba_sdk/visitors.py
@@ -369,7 +369,7 @@ class ExpressionFinder(ExpressionVisitor[Set[Expression]]):
 
         if func.parameters is not None:
             for param in func.parameters:
-                if isinstance(param, Expression):
+                if isinstance(param, (Expression, list, tuple)):
                     found |= self.visit(param)
 
         return found
@@ -421,7 +421,7 @@ class ExpressionFinder(ExpressionVisitor[Set[Expression]]):
     def _visit_condition(self, cond: Condition) -> set[Expression]:
         found = self.visit(cond.lhs)
         if not is_unary(cond.op):
-            if isinstance(cond.rhs, Expression):
+            if isinstance(cond.rhs, (Expression, list, tuple)):
                 found |= self.visit(cond.rhs)
         return found
 
@@ -447,4 +447,8 @@ class ExpressionFinder(ExpressionVisitor[Set[Expression]]):
         return set()
 
     def _visit_scalar(self, value: Any) -> Set[Expression]:
-        return set()
+        found: set[Expression] = set()
+        if isinstance(value, (list, tuple)):
+            for v in value:
+                found |= self.visit(v)
+        return found
-- 
2.43.0


From ccc67f34dda9d833713556f42afa596faaf3be17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:52 +0000
Subject: [PATCH 10/18] fix: do not modify a metrics query when serializing it

---
 snuba_sdk/metrics_query.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/snuba_sdk/metrics_query.py b/snuba_sdk/metrics_query.py
index 68fa65f..1044385 100644
--- a/snuba_sdk/metrics_query.py
+++ b/snuba_sdk/metrics_query.py
@@ -97,18 +97,19 @@ class MetricsQuery(BaseQuery):
 
     def serialize(self) -> str | dict[str, Any]:
         self.validate()
-        self._optimize()
-        result = MQL_PRINTER.visit(self)
+        optimized = self._optimize()
+        result = MQL_PRINTER.visit(optimized)
         return result
 
-    def _optimize(self) -> None:
+    def _optimize(self) -> MetricsQuery:
         if (
             isinstance(self.query, (Formula, Timeseries))
             and self.query.filters is not None
         ):
             new_filters = OrOptimizer().optimize(self.query.filters)
             if new_filters is not None:
-                self.query = replace(self.query, filters=new_filters)
+                return replace(self, query=replace(self.query, filters=new_filters))
+        return self
 
 
 MQL_PRINTER = MQLPrinter()
-- 
2.43.0


From fec7ca196e38307e769ce1911a6b34e40399c57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:54 +0000
Subject: [PATCH 11/18] fix: quote and escape the aggregate parameters of
 formulas

They were printed with str(), unlike those of timeseries.
---
 snuba_sdk/metrics_visitors.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/snuba_sdk/metrics_visitors.py b/snuba_sdk/metrics_visitors.py
index 885a389..3470ecb 100644
--- a/snuba_sdk/metrics_visitors.py
+++ b/snuba_sdk/metrics_visitors.py
@@ -159,7 +159,8 @@ class FormulaMQLPrinter:
 
     def _visit_aggregate_params(self, aggregate_params: list[Any] | None) -> str:
         if aggregate_params:
-            return "(" + ", ".join(str(param) for param in aggregate_params) + ")"
+            params = [self.expression_visitor.visit(param) for param in aggregate_params]
+            return "(" + ", ".join(params) + ")"
         return ""
 
     def _visit_filters(self, filters: ConditionGroup | None) -> str:
-- 
2.43.0


From 6b4050a739af5087f783fb6844a7b9e4a91b7fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:56 +0000
Subject: [PATCH 12/18] fix: treat BooleanCondition(BooleanOp.AND, ...) like
 And when looking for required columns

---
 snuba_sdk/conditions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snuba_sdk/conditions.py b/snuba_sdk/conditions.py
index eea18b5..c1f78d5 100644
--- a/snuba_sdk/conditions.py
+++ b/snuba_sdk/conditions.py
@@ -149,7 +149,7 @@ ConditionGroup = Sequence[Union[BooleanCondition, Condition]]
 def get_first_level_and_conditions(conditions: ConditionGroup) -> ConditionGroup:
     flattened = []
     for cond in conditions:
-        if isinstance(cond, And):
+        if isinstance(cond, BooleanCondition) and cond.op == BooleanOp.AND:
             top_level = get_first_level_and_conditions(cond.conditions)
             flattened += [*top_level]
         else:
-- 
2.43.0


From ba3b73d72c6396ea2964c2786757cd30f272987c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:48 +0000
Subject: [PATCH 13/18] fix: reject function operands on either side of an MQL
 filter condition

---
 snuba_sdk/visitors.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/snuba_sdk/visitors.py b/snuba_sdk/visitors.py
index 6517ddf..a5320ed 100644
--- a/snuba_sdk/visitors.py
+++ b/snuba_sdk/visitors.py
@@ -301,12 +301,14 @@ class Translation(ExpressionVisitor[str]):
                 f"operator '{cond.op.value}' is not supported in conditions in MQL"
             )
 
-        rhs = None
-        if isinstance(cond.rhs, (CurriedFunction, Function)):
+        operands = cond.rhs if isinstance(cond.rhs, (list, tuple)) else [cond.rhs]
+        if any(isinstance(o, (CurriedFunction, Function)) for o in [cond.lhs, *operands]):
             raise InvalidExpressionError(
                 "CurriedFunction and Function are not supported in conditions in MQL"
             )
-        elif isinstance(cond.rhs, Column):
+
+        rhs = None
+        if isinstance(cond.rhs, Column):
             rhs = f"{self.visit(cond.rhs)}"
         elif is_scalar(cond.rhs):
             rhs = f"{self._stringify_scalar(cond.rhs)}"
-- 
2.43.0


From d29b80dd20cd49530c27e000f4724c02fef55387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:42 +0000
Subject: [PATCH 14/18] fix: convert nested legacy null checks to one-argument
 functions

---
 snuba_sdk/legacy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/snuba_sdk/legacy.py b/snuba_sdk/legacy.py
index f0dee9c..7b32ed7 100644
--- a/snuba_sdk/legacy.py
+++ b/snuba_sdk/legacy.py
@@ -209,7 +209,8 @@ def parse_condition(cond: Sequence[Any]) -> Condition:
 
 def parse_condition_to_function(cond: Sequence[Any]) -> Function:
     lhs, op, rhs = _parse_condition_parts(cond)
-    return Function(OPERATOR_TO_FUNCTION[op].value, (lhs, rhs))
+    parameters = (lhs,) if op in (Op.IS_NULL, Op.IS_NOT_NULL) else (lhs, rhs)
+    return Function(OPERATOR_TO_FUNCTION[op].value, parameters)
 
 
 def json_to_snql(body: Mapping[str, Any], entity: str) -> Request:
-- 
2.43.0


From 5fb036ee8531b3f677d9cd16f9ea079977d7ff62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:02 +0000
Subject: [PATCH 15/18] fix: end an unquoted MRI at whitespace instead of
 swallowing what follows

---
 snuba_sdk/mql/mql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snuba_sdk/mql/mql.py b/snuba_sdk/mql/mql.py
index b1670eb..a9ad97f 100644
--- a/snuba_sdk/mql/mql.py
+++ b/snuba_sdk/mql/mql.py
@@ -86,7 +86,7 @@ inner_filter = metric (open_brace (_ filter_expr _)? close_brace)? (group_by)?
 metric = quoted_mri / unquoted_mri / quoted_public_name / unquoted_public_name
 quoted_mri = backtick lenient_mri backtick
 lenient_mri = ~r'[^:`]+:[^/`]+/[^@,`]+@[^`]+'
-unquoted_mri = ~r'[^:\(\){}\[\]"`,]+:[^/\(\){}\[\]"`,]+/[^@\(\){}\[\]"`,]+@[^\(\){}\[\]"`,]+'
+unquoted_mri = ~r'[^:\(\){}\[\]"`,\s]+:[^/\(\){}\[\]"`,\s]+/[^@\(\){}\[\]"`,\s]+@[^\(\){}\[\]"`,\s]+'
 quoted_public_name = backtick unquoted_public_name backtick
 unquoted_public_name = ~r"([a-z_]+(?:\.[a-z_]+)*)"
 
-- 
2.43.0


From ace619810d442c3670673f165a44021dfb3faf60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:05 +0000
Subject: [PATCH 16/18] fix: do not read the start of a filter key such as
 android as the AND operator

---
 snuba_sdk/mql/mql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snuba_sdk/mql/mql.py b/snuba_sdk/mql/mql.py
index a9ad97f..9b347c2 100644
--- a/snuba_sdk/mql/mql.py
+++ b/snuba_sdk/mql/mql.py
@@ -99,7 +99,7 @@ close_brace = "}"
 comma = ","
 backtick = "`"
 colon = ":"
-and = "AND" / "and"
+and = ~r"(?:AND|and)(?![a-zA-Z0-9_.])"
 or = "OR" / "or"
 quote = "\""
 wildcard = "*"
-- 
2.43.0


From 25b115614f078a72cc5853b305e7821ca31052dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:12 +0000
Subject: [PATCH 17/18] fix: print a sample rate with as many digits as it
 needs

---
 snuba_sdk/visitors.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/snuba_sdk/visitors.py b/snuba_sdk/visitors.py
index a5320ed..c3a0925 100644
--- a/snuba_sdk/visitors.py
+++ b/snuba_sdk/visitors.py
@@ -244,6 +244,14 @@ class Translation(ExpressionVisitor[str]):
     def _visit_int_literal(self, literal: int) -> str:
         return f"{literal:d}"
 
+    def _format_sample(self, sample: float) -> str:
+        if sample % 1 == 0:
+            return f"{sample:.1f}"
+
+        formatted = f"{sample:f}"
+        # Six decimals are not enough for every sample rate: 1e-07 would become 0.000000.
+        return formatted if float(formatted) == sample else f"{sample}"
+
     def _visit_entity(self, entity: Entity) -> str:
         alias_clause = ""
         if entity.alias is not None and self.use_entity_aliases:
@@ -251,19 +259,13 @@ class Translation(ExpressionVisitor[str]):
 
         sample_clause = ""
         if entity.sample is not None:
-            if entity.sample % 1 == 0:
-                sample_clause = f" SAMPLE {entity.sample:.1f}"
-            else:
-                sample_clause = f" SAMPLE {entity.sample:f}"
+            sample_clause = f" SAMPLE {self._format_sample(entity.sample)}"
         return f"({alias_clause}{entity.name}{sample_clause})"
 
     def _visit_storage(self, storage: Storage) -> str:
         sample_clause = ""
         if storage.sample is not None:
-            if storage.sample % 1 == 0:
-                sample_clause = f" SAMPLE {storage.sample:.1f}"
-            else:
-                sample_clause = f" SAMPLE {storage.sample:f}"
+            sample_clause = f" SAMPLE {self._format_sample(storage.sample)}"
         return f"STORAGE({storage.name}{sample_clause})"
 
     def _visit_relationship(self, relationship: Relationship) -> str:
-- 
2.43.0


From cf3299c16ee9ba326167b5127d1c315fa7476e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:26 +0000
Subject: [PATCH 18/18] fix: keep the filters and group-by of a negation on the
 negation when printing MQL

---
 snuba_sdk/metrics_visitors.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/snuba_sdk/metrics_visitors.py b/snuba_sdk/metrics_visitors.py
index 3470ecb..564bbe5 100644
--- a/snuba_sdk/metrics_visitors.py
+++ b/snuba_sdk/metrics_visitors.py
@@ -191,10 +191,13 @@ class FormulaMQLPrinter:
                 f"{self._visit_aggregate_params(formula.aggregate_params)}({', '.join(param_strings)})"
             )
 
-        mql_string += f"{self._visit_filters(formula.filters)}"
-        mql_string += f"{self._visit_groupby(formula.groupby)}"
+        filters = self._visit_filters(formula.filters)
+        groupby = self._visit_groupby(formula.groupby)
+        if (filters or groupby) and formula.function_name in PREFIX_ALIASES:
+            # "-(x){...}" applies the filters to x: keep them on the negation itself
+            mql_string = f"({mql_string})"
 
-        return mql_string
+        return mql_string + filters + groupby
 
 
 class MetricVisitor(ABC, Generic[TVisited]):
-- 
2.43.0

