"""The specification tables: what each public class may hold."""
from __future__ import annotations

from typing import Any, Optional

from .model import TySpec
from .terms import T, Term, one, seq, spread, sym

P = "snuba_sdk."
COLUMN, ALIASED = P + "column.Column", P + "aliased_expression.AliasedExpression"
ENTITY, STORAGE = P + "entity.Entity", P + "storage.Storage"
FUNCTION, CURRIED = P + "function.Function", P + "function.CurriedFunction"
IDENT, LAMBDA = P + "function.Identifier", P + "function.Lambda"
COND, BOOL = P + "conditions.Condition", P + "conditions.BooleanCondition"
AND, OR = P + "conditions.And", P + "conditions.Or"
OP, BOOLOP, CONDFN = P + "conditions.Op", P + "conditions.BooleanOp", P + "conditions.ConditionFunction"
ORDERBY, LIMITBY, DIRECTION = P + "orderby.OrderBy", P + "orderby.LimitBy", P + "orderby.Direction"
REL, JOIN = P + "relationships.Relationship", P + "relationships.Join"
LIMIT, OFFSET, GRAN = P + "expressions.Limit", P + "expressions.Offset", P + "expressions.Granularity"
TOTALS, EXTRA = P + "expressions.Totals", P + "expressions.Extrapolate"
QUERY, MQUERY, DQUERY = P + "query.Query", P + "metrics_query.MetricsQuery", P + "delete_query.DeleteQuery"
REQUEST, FLAGS = P + "request.Request", P + "request.Flags"
METRIC, TS, ROLLUP, SCOPE = (P + "timeseries.Metric", P + "timeseries.Timeseries", P + "timeseries.Rollup",
                             P + "timeseries.MetricsScope")
FORMULA, ARITH = P + "formula.Formula", P + "formula.ArithmeticOperator"
MQLCTX = P + "mql_context.MQLContext"
DATAMODEL, COLUMNSET, SCOLUMN = P + "schema.DataModel", P + "schema.ColumnSet", P + "schema.Column"

LITERAL = frozenset(["NoneType", "bool", "str", "bytes", "float", "int", "date", "datetime"])
FUNCS = frozenset([FUNCTION, CURRIED])
CONDS = frozenset([COND, BOOL, AND, OR])
EXPRESSIONS = frozenset([COLUMN, ALIASED, ENTITY, STORAGE, FUNCTION, CURRIED, IDENT, LAMBDA, COND, BOOL, AND, OR,
                         ORDERBY, LIMITBY, REL, JOIN, LIMIT, OFFSET, GRAN, TOTALS, EXTRA])
SELECTABLE = frozenset([COLUMN, ALIASED]) | FUNCS
POS = (0, False, None, True)  # > 0


def ty(*atoms: Any, **kw: Any) -> TySpec:
    flat: list = []
    for a in atoms:
        flat.extend([a] if isinstance(a, str) else a)
    return TySpec(flat, **kw)


# a literal, or a list/tuple of literals and expressions, to any depth
SCALAR = ty(LITERAL, "list", "tuple")
SCALAR.elem = ty(LITERAL, "list", "tuple", EXPRESSIONS)
SCALAR.elem.elem = SCALAR.elem

PARAM = ty(LITERAL, "list", "tuple", [COLUMN, CURRIED, FUNCTION, IDENT, LAMBDA], elem=SCALAR.elem)
STR = ty("str")
NAME = ty("str", truthy=True)
OPTSTR = ty("NoneType", "str", truthy=True)


def seq_of(el: TySpec, *kinds: str, **kw: Any) -> TySpec:
    return ty(*(kinds or ("list", "tuple")), elem=el, **kw)


# (class, field) -> what the analysis may assume about a constructed object; each
# entry is what C01/C02/C04 (and the class's own constructor) establish.
FIELDS: dict = {
    (COLUMN, "name"): NAME,
    (COLUMN, "entity"): ty("NoneType", ENTITY),
    (COLUMN, "subscriptable"): OPTSTR,
    (COLUMN, "key"): ty("NoneType", "str"),
    (ALIASED, "exp"): ty(COLUMN),
    (ALIASED, "alias"): OPTSTR,
    (ENTITY, "name"): NAME,
    (ENTITY, "alias"): OPTSTR,
    (ENTITY, "sample"): ty("NoneType", "float", num=POS),
    (ENTITY, "data_model"): ty("NoneType", DATAMODEL),
    (STORAGE, "name"): NAME,
    (STORAGE, "sample"): ty("NoneType", "float", num=POS),
    (STORAGE, "data_model"): ty("NoneType", DATAMODEL),
    (CURRIED, "function"): NAME,
    (CURRIED, "initializers"): ty("NoneType", "list", "tuple", elem=ty(LITERAL, COLUMN)),
    (FUNCTION, "initializers"): ty("NoneType"),
    (CURRIED, "parameters"): ty("NoneType", "list", "tuple", elem=PARAM),
    (CURRIED, "alias"): OPTSTR,
    (IDENT, "name"): NAME,
    (LAMBDA, "identifiers"): seq_of(NAME),
    (LAMBDA, "transformation"): ty(FUNCS),
    (COND, "lhs"): ty(COLUMN, FUNCS),
    (COND, "op"): ty(OP),
    (COND, "rhs"): ty(COLUMN, FUNCS, LITERAL, "list", "tuple", elem=SCALAR.elem),
    (BOOL, "op"): ty(BOOLOP),
    (BOOL, "conditions"): seq_of(ty(CONDS), truthy=True),
    (AND, "op"): ty(BOOLOP, oneof=[T("enum", BOOLOP, "AND")]),
    (OR, "op"): ty(BOOLOP, oneof=[T("enum", BOOLOP, "OR")]),
    (ORDERBY, "exp"): ty(COLUMN, FUNCS),
    (ORDERBY, "direction"): ty(DIRECTION),
    (LIMITBY, "columns"): seq_of(ty(COLUMN), truthy=True),
    (LIMITBY, "count"): ty("int", num=(1, True, 10000, True)),
    (REL, "lhs"): ty(ENTITY),
    (REL, "rhs"): ty(ENTITY),
    (REL, "name"): NAME,
    (JOIN, "relationships"): seq_of(ty(REL), truthy=True),
    (LIMIT, "limit"): ty("int", num=(1, True, 10000, True)),
    (OFFSET, "offset"): ty("int", num=(0, True, None, True)),
    (GRAN, "granularity"): ty("int", num=(1, True, None, True)),
    (TOTALS, "totals"): ty("bool"),
    (EXTRA, "extrapolate"): ty("bool"),
    (QUERY, "match"): ty(ENTITY, STORAGE, JOIN, QUERY),
    (QUERY, "select"): ty("NoneType", "list", elem=ty(SELECTABLE)),
    (QUERY, "groupby"): ty("NoneType", "list", elem=ty(SELECTABLE)),
    (QUERY, "array_join"): ty("NoneType", "list", elem=ty(COLUMN)),
    (QUERY, "where"): ty("NoneType", "list", elem=ty(CONDS)),
    (QUERY, "having"): ty("NoneType", "list", elem=ty(CONDS)),
    (QUERY, "orderby"): ty("NoneType", "list", elem=ty(ORDERBY)),
    (QUERY, "limitby"): ty("NoneType", LIMITBY),
    (QUERY, "limit"): ty("NoneType", LIMIT),
    (QUERY, "offset"): ty("NoneType", OFFSET),
    (QUERY, "granularity"): ty("NoneType", GRAN),
    (QUERY, "totals"): ty("NoneType", TOTALS),
    (METRIC, "public_name"): ty("NoneType", "str"),
    (METRIC, "mri"): ty("NoneType", "str"),
    (METRIC, "id"): ty("NoneType", "int"),
    (TS, "metric"): ty(METRIC),
    (TS, "aggregate"): STR,
    (TS, "aggregate_params"): ty("NoneType", "list", elem=ty(LITERAL)),
    (TS, "filters"): ty("NoneType", "list", elem=ty(CONDS)),
    (TS, "groupby"): ty("NoneType", "list", elem=ty(COLUMN, ALIASED)),
    (ROLLUP, "interval"): ty("NoneType", "int", num=(10, True, None, True)),
    (ROLLUP, "totals"): ty("NoneType", "bool"),
    (ROLLUP, "orderby"): ty("NoneType", DIRECTION),
    (ROLLUP, "granularity"): ty("NoneType", "int", num=(1, True, None, True)),
    (SCOPE, "org_ids"): ty("list", elem=ty("int")),
    (SCOPE, "project_ids"): ty("list", elem=ty("int")),
    (SCOPE, "use_case_id"): ty("NoneType", "str"),
    (FORMULA, "function_name"): STR,
    (FORMULA, "parameters"): ty("NoneType", "list", "tuple"),
    (FORMULA, "aggregate_params"): ty("NoneType", "list", elem=ty(LITERAL)),
    (FORMULA, "filters"): ty("NoneType", "list", elem=ty(CONDS)),
    (FORMULA, "groupby"): ty("NoneType", "list", elem=ty(COLUMN, ALIASED)),
    (DATAMODEL, "column_set"): ty(COLUMNSET),
    (DATAMODEL, "required_time_column"): ty(SCOLUMN),
    (DATAMODEL, "required_columns"): ty("set", elem=ty(SCOLUMN)),
    (COLUMNSET, "column_names"): ty("set", elem=STR),
    (COLUMNSET, "columns"): ty("set", elem=ty(SCOLUMN)),
    (COLUMNSET, "required_columns"): ty("set", elem=ty(SCOLUMN)),
    (SCOLUMN, "name"): STR,
    (SCOLUMN, "required"): ty("bool"),
}
FIELDS[(FORMULA, "parameters")].elem = ty(FORMULA, TS, "int", "float", "str")


FLAG_FIELDS: dict = {n: ty("NoneType", "bool") for n in ("totals", "consistent", "turbo", "debug", "dry_run", "legacy")}


def enum(q: str, m: str) -> Term:
    return T("enum", q, m)
