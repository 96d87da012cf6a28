"""Objects of every kind and every public operation on them, as client programs (C13, C14)."""
from __future__ import annotations

EXTRA = """
from snuba_sdk.legacy import json_to_snql
from snuba_sdk.conditions import get_first_level_and_conditions
from snuba_sdk.query_validation import validate_required_columns
from snuba_sdk.query_optimizers.or_optimizer import OrOptimizer
"""

COMMON = """
params = [Column("p"), 1, "s", None, [1, 2], (Column("q"), "t"), Function("f2", [Column("r")]), Identifier("i")]
inits = [0.5, Column("k"), "s"]
fn = Function("f1", params, "al")
cf = CurriedFunction("g1", inits, params, "al2")
idents = ["i", "j"]
lam = Lambda(idents, Function("f3", [Identifier("i"), Column("m")]))
hi = Function("arrayMap", [lam, Column("n")])
inlist = [3, 1, 2]
c1 = Condition(Column("a"), Op.EQ, 1)
c2 = Condition(Column("a"), Op.EQ, 2)
c3 = Condition(Column("tags[b]"), Op.IN, inlist)
c4 = Condition(fn, Op.GT, Column("c"))
c5 = Condition(Column("d"), Op.IS_NULL)
orl = [c1, c2]
orc = Or(orl)
arrl = [Condition(Column("a"), Op.EQ, inlist), Condition(Column("a"), Op.EQ, [4]), Condition(Column("a"), Op.EQ, ("t", 5))]
arrc = Or(arrl)
andl = [c3, orc, c4]
andc = And(andl)
bl = [andc, c5]
bc = BooleanCondition(BooleanOp.OR, bl)
ob = OrderBy(Column("a"), Direction.DESC)
lbl = [Column("a"), Column("b")]
lb = LimitBy(lbl, 5)
al = AliasedExpression(Column("tags[z]"), "zz")
"""

SNQL = """
sel = [Column("a"), fn, cf, al, hi]
grp = [Column("a"), al]
arr = [Column("arr"), Column("arr2")]
whr = [c1, orc, andc, c3, arrc, c5]
hav = [c4, bc]
obs = [ob, OrderBy(fn, Direction.ASC)]
q = Query({match}, select=sel, groupby=grp, array_join=arr, where=whr, having=hav, orderby=obs, limitby=lb, limit=Limit(10), offset=Offset(0),
          granularity=Granularity(60), totals=Totals(True))
new_list = [Column("x"), Column("y")]
new_conds = [c3, orc]
new_obs = [ob]
"""

MATCH = {
    "entity": "Entity('events', sample=0.5)",
    "storage": "Storage('spans', sample=1.0)",
    "entity with a model": "Entity('events', data_model=model)",
    "subquery": "inner",
    "nested subquery": "Query(inner, select=[Column(n) for n in NAMES])",
}
PRE = {
    "entity": "", "storage": "",
    "entity with a model": "cols = [SColumn(n) for n in NAMES]\nmodel = DataModel(cols, SColumn('ts'))\n",
    "subquery": "insel = [Column(n) for n in NAMES]\ninner = Query(Entity('events'), select=insel, where=[c1, orc])\n",
    "nested subquery": "insel = [Column(n) for n in NAMES]\ninner = Query(Entity('events'), select=insel, where=[c1, orc])\n",
}
NAMES = ["a", "b", "c", "d", "k", "m", "n", "p", "q", "r", "arr", "arr2", "tags", "tags[b]", "tags[z]", "ts"]

JOIN = """
e1 = Entity("ea", "x", 0.5)
e2 = Entity("eb", "y")
rels = [Relationship(e1, "has", e2)]
jn = Join(rels)
sel = [Column("a", e1), Function("f1", [Column("b", e2)], "al")]
whr = [Or([Condition(Column("a", e1), Op.EQ, 1), Condition(Column("a", e1), Op.EQ, 2)]), Condition(Column("b", e2), Op.IN, [1, 2])]
q = Query(jn, select=sel, groupby=[Column("a", e1)], where=whr)
new_list = [Column("a", e2)]
new_conds = [Condition(Column("b", e2), Op.NEQ, 1)]
new_obs = [OrderBy(Column("a", e1), Direction.ASC)]
"""

QUERY_OPS = [
    "q.validate()", "q.serialize()", "q.print()", "str(q)", "q.set_match(Entity('other'))", "q.set_match(q)", "q.set_select(new_list)", "q.set_groupby(new_list)",
    "q.set_groupby([])", "q.set_array_join(new_list)", "q.set_where(new_conds)", "q.set_having(new_conds)", "q.set_orderby(new_obs)",
    "q.set_limitby(LimitBy(new_list, 3))", "q.set_limit(7)", "q.set_offset(7)", "q.set_granularity(7)", "q.set_totals(False)",
    "q.set_where(new_conds).serialize()", "Query(q, select=new_list)", "q == q.set_limit(3)", "q.set_select(1)", "q.set_limit(0)", "q.set_totals('x')",
    "q.get_fields()",
]
INVALID = {
    "column outside the match": "Query(inner, select=[Column('a'), Column('nope')], where=whr)",
    "no select": "Query(Entity('events'), where=whr, groupby=grp)",
    "totals without group-by": "Query(Entity('events'), select=sel, where=whr, totals=Totals(True))",
}
EXPR_OPS = [
    "Function('f1', params, 'al')", "CurriedFunction('g1', inits, params)", "Lambda(idents, fn)", "Condition(Column('a'), Op.IN, inlist)", "Or(orl)", "And(andl)",
    "BooleanCondition(BooleanOp.AND, bl)", "LimitBy(lbl, 5)", "fn.validate()", "cf.validate()", "lam.validate()", "c3.validate()", "andc.validate()", "lb.validate()",
    "Translation().visit(cf)", "Translation().visit(andc)", "Translation().visit(lb)", "Translation(is_mql=True).visit(c3)", "get_first_level_and_conditions(andl)",
    "OrOptimizer().optimize(bl)", "OrOptimizer().optimize(orl)", "OrOptimizer().optimize([orc, c3])", "fn == cf", "hash(c1)",
    "Function('f1', [{'a': 1}])", "Or([c1])",
]
METRICS = """
flt = [Condition(Column("a"), Op.EQ, "x"), Or([Condition(Column("b"), Op.EQ, "y"), Condition(Column("b"), Op.EQ, "z")]), And([Condition(Column("c"), Op.IN, ["u", "v"]), Condition(Column("d"), Op.NOT_LIKE, "w*")])]
gb = [Column("g"), AliasedExpression(Column("h"), "hh")]
agp = [0.5, "s"]
m = Metric("pub.name", "d:custom/mri@none", 5)
ts = Timeseries(m, "quantiles", agp, flt, gb)
ts2 = Timeseries(Metric("pub2"), "sum", None, None, gb)
fpars = [ts, ts2]
inner = Formula("divide", [ts, 2.5])
f = Formula("plus", [inner, ts2], None, flt, None)
f2 = Formula("topK", [ts], [3, "p"], flt, gb)
orgs = [1, 2]
projs = [3]
scope = MetricsScope(orgs, projs, "sessions")
roll = Rollup(interval=60, granularity=60)
maps = {"pub.name": "d:custom/mri@none", "a": 1}
"""
MQUERIES = {
    "a timeseries": "MetricsQuery(ts, t0, t1, roll, scope, Limit(5), Offset(0), Extrapolate(False), maps)",
    "a formula": "MetricsQuery(f, t0, t1, Rollup(totals=True, orderby=Direction.DESC, granularity=3600), scope, None, None, None, maps)",
    "a function": "MetricsQuery(f2, t0, t1, roll, MetricsScope([1], [2]), indexer_mappings=maps)",
    "an invalid query": "MetricsQuery(f, t0, None, roll, scope, indexer_mappings=maps)",
    "a query without mappings": "MetricsQuery(f, t0, t1, roll, scope)",
}
MQUERY_OPS = [
    "mq.validate()", "mq.serialize()", "mq.print()", "str(mq)", "mq.set_query(ts2)", "mq.set_query(f2)", "mq.set_start(t1)", "mq.set_end(t0)", "mq.set_rollup(roll)",
    "mq.set_scope(scope)", "mq.set_limit(3)", "mq.set_offset(3)", "mq.set_extrapolate(True)", "mq.set_indexer_mappings(maps)", "mq.set_query(3)", "mq.set_limit(0)",
]
METRIC_OPS = [
    "Timeseries(m, 'sum', agp, flt, gb)", "Formula('plus', fpars, agp, flt, gb)", "MetricsScope(orgs, projs)", "ts.validate()", "f.validate()", "f2.validate()", "scope.validate()",
    "roll.validate()", "m.validate()", "ts.set_metric(m)", "ts.set_aggregate('sum', agp)", "ts.set_filters(flt)", "ts.set_groupby(gb)", "ts.set_filters(None)",
    "f.set_parameters(fpars)", "f.set_filters(flt)", "f.set_groupby(gb)", "m.set_mri('x')", "m.set_public_name('x')", "m.set_id(3)", "scope.set_use_case_id('u')",
    "Formula('plus', [ts, {'a': 1}])", "ts.set_groupby(3)",
]
REQUESTS = {
    "a SnQL query": "Request('events', 'app', q, Flags(debug=True, consistent=False), 'api', tids)",
    "a metrics query": "Request('events', 'app', mq, fl, 'api', tids)",
    "a delete query": "Request('events', 'app', dq, fl, 'api', tids)",
    "no flags": "Request('events', 'app', q, None, 'api', tids)",
    "an invalid dataset": "Request('', 'app', q, fl, 'api', tids)",
}
REQ = """
q = Query(Entity("events"), select=[Column("a")], where=[orc, c3])
tids = {"org": 1, "x": "y"}
fl = Flags(turbo=True)
dcs = {"a": [1, 2], "b": ["x"]}
dq = DeleteQuery("store", dcs)
"""
REQUEST_OPS = ["r.validate()", "r.to_dict()", "r.serialize()", "r.serialize_mql()", "r.print()", "str(r)", "fl.validate()", "fl.to_dict()",
               "dq.validate()", "dq.serialize()", "dq.print()", "str(dq)", "DeleteQuery('store', dcs).serialize()"]
LEGACY = """
body = {
    "aggregations": [["count()", "", "c"], ["uniq", "user", "u"], ("max", ["a"], "mx")],
    "selected_columns": ["a", ["f", ["b", "'lit'"], "fa"], ("toStartOfDay", ["ts"], "day")],
    "arrayjoin": "arr", "groupby": ["a", ("f", ["b"], "gg")],
    "conditions": [["a", "=", 1], [["b", "IN", ["x", "y"]], ["c", "!=", "z"]], [["d", "IS NULL", None]]],
    "having": [["c", ">", 1], [["u", "=", 2], ["u", "=", 3]]],
    "orderby": ["-a", ["-f", ["b"]], "c"], "limitby": [5, "a"], "limit": 10, "offset": 0, "granularity": 60, "totals": True, "sample": 0.5,
    "organization": 1, "project": [2, 3], "debug": True, "consistent": False, "dataset": "discover", "tenant_ids": {"org": 1},
}
body2 = {"selected_columns": ["a"], "groupby": "a", "orderby": "a", "project": 1, "conditions": [], "extra": [1]}
"""
LEGACY_OPS = ["json_to_snql(body, 'plain')", "json_to_snql(body2, 'plain')", "json_to_snql(body, 'plain').serialize()", "json_to_snql({'selected_columns': []}, 'plain')"]
REQUIRED = """
cols = [SColumn("project_id", True), SColumn("a"), SColumn("ts", True)]
model = DataModel(cols, SColumn("ts"))
tc = [Condition(Column("ts"), Op.GTE, t0), And([Condition(Column("ts"), Op.LT, t1), Condition(Column("project_id"), Op.IN, [1])]), Or([Condition(Column("a"), Op.EQ, 1), Condition(Column("a"), Op.EQ, 3)])]
q = Query(Entity("events", data_model=model), select=[Column("a")], where=tc)
qo = Query(q, select=[Column("a")])
qm = Query(Entity("events", data_model=model), select=[Column("a")], where=[Condition(Column("a"), Op.EQ, 1)])
"""
REQUIRED_OPS = ["validate_required_columns(q)", "validate_required_columns(qo)", "validate_required_columns(qm)"]


def scenarios() -> list:
    """(label, set-up program, operations)"""
    out = [("expressions", COMMON, EXPR_OPS)]
    names = f"NAMES = {NAMES!r}\n"
    for k, m in MATCH.items():
        ops = QUERY_OPS
        out.append((f"query on {k}", COMMON + names + PRE[k] + SNQL.replace("{match}", m), ops))
    out.append(("query on a join", COMMON + JOIN, QUERY_OPS))
    for k, e in INVALID.items():
        src = COMMON + names + PRE["subquery"] + SNQL.replace("{match}", "Entity('events')") + f"q = {e}\n"
        out.append((f"invalid query: {k}", src, ["q.validate()", "q.serialize()", "q.print()", "str(q)", "q.set_where(new_conds)", "Query(q, select=new_list)"]))
    out.append(("metrics parts", METRICS, METRIC_OPS))
    for k, e in MQUERIES.items():
        out.append((f"metrics query on {k}", METRICS + f"mq = {e}\n", MQUERY_OPS))
    for k, e in REQUESTS.items():
        out.append((f"request with {k}", COMMON + METRICS + "mq = " + MQUERIES["a timeseries"] + "\n" + REQ + f"r = {e}\n", REQUEST_OPS))
    out.append(("legacy body", LEGACY, LEGACY_OPS))
    out.append(("required columns", REQUIRED, REQUIRED_OPS))
    return out
