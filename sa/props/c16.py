"""C16: the dictionary and the JSON text of a request."""
from __future__ import annotations

from itertools import product
from typing import Optional

from ..client import Client, Expect
from ..framework import Check, Undecided, stub
from ..spec import *
from ..terms import *

FLAGS = ["totals", "consistent", "turbo", "debug", "dry_run", "legacy"]
OPTBOOL = ty("NoneType", "bool")
DT = ty("datetime")
SRC = """
cond = Condition(Column("a"), Op.EQ, val)
"""
QUERIES = {
    "a SnQL query": ("q = Query(Entity('events'), select=[Column('z')], where=[cond])\n", "str(q.serialize())", None),
    "a SnQL subquery": ("q = Query(Query(Entity('events'), select=[Column('z')], where=[cond]), select=[Column('z')])\n", "str(q.serialize())", None),
    "a metrics query": ("q = MetricsQuery(Timeseries(Metric('pub'), 'sum', None, [cond]), t0, t1, Rollup(interval=60, granularity=60), "
                        "MetricsScope([1, 2], [3], 'u'), Limit(5), Offset(0), Extrapolate(False), {'pub': 'x'})\n",
                        "q.serialize()['mql']", "q.serialize()['mql_context']"),
    "a minimal metrics query": ("q = MetricsQuery('sum(pub)', t0, t1, Rollup(totals=True, granularity=60), MetricsScope([1], [3]), indexer_mappings={})\n",
                                None, None),
    "a delete query": ("q = DeleteQuery('store', {'a': [1, val], 'b': ['x']})\n", "q.serialize()", "delete"),
}


def plain_json(t: Term) -> Term:
    """The value a JSON text is the form of: layout options do not matter."""

    def f(x: Term) -> Optional[Term]:
        if x.k == "app" and x.a[0] == "json.dumps":
            keep = [k for k in x.a[2:] if k.a[0] not in ("indent", "sort_keys", "separators", "ensure_ascii", "default", "check_circular", "allow_nan")]
            if any(k.a[0] == "cls" for k in keep):
                raise Undecided("JSON is written by a custom encoder")
            return T("app", "json.dumps", x.a[1], *keep)
        return None

    return subst(t, f)


def run(ck: Check) -> None:
    I = ck.I
    I.field_specs = dict(FIELDS)
    cl = Client(ck, "import json\n")
    r = ck.rule("payload", "the dictionary has exactly the fields of the request, the flags that are set and, for a metrics query, its context")
    rj = ck.rule("json", "serialize, serialize_mql, print and str are the JSON form of that dictionary")
    val = stub(I.method(REQUEST, "validate").q, NONE)  # C09 decides what validation does
    ex, exj = Expect(ck, cl, r, [val]), Expect(ck, cl, rj, [val])
    base = {"d": STR, "a": STR, "p": STR, "t": ty("dict"), "val": STR, "t0": DT, "t1": DT}

    def case(label: str, qk: str, flags: str, ins: dict, fl: str) -> None:
        make, text, ctx = QUERIES[qk]
        if text is None:
            return
        src = SRC + make + f"r = Request(d, a, q, {flags}, p, t)\n"
        ds = "" if ctx == "delete" else "'dataset': d, "
        cx = f", 'mql_context': {ctx}" if ctx and ctx != "delete" else ""
        want = f"{{{fl}'query': {text}, {ds}'app_id': a, 'tenant_ids': t, 'parent_api': p{cx}}}"
        ex.eq("snuba_sdk/request.py:Request.to_dict", f"{qk}, {label}", src, "r.to_dict()", want, ordered=False, **base, **ins)
        for how in ("r.serialize()", "r.serialize_mql()", "r.print()", "str(r)"):
            exj.eq(f"snuba_sdk/request.py:Request: {how}", f"{qk}, {label}", src, how, f"json.dumps({want})", ordered=False, project=plain_json, **base, **ins)

    def fl(names: list) -> str:
        return "".join(f"**({{'{n}': {n}}} if {n} is not None else {{}}), " for n in names)

    for qk in QUERIES:
        case("no flags object", qk, "None", {}, "")
        case("default flags", qk, "Flags()", {}, "")
        for n in FLAGS:
            case(f"flag {n} set or unset", qk, f"Flags({n}={n})", {n: OPTBOOL}, fl([n]))
            case(f"flag {n} true", qk, f"Flags({n}=True)", {}, f"'{n}': True, ")
            case(f"flag {n} false", qk, f"Flags({n}=False)", {}, f"'{n}': False, ")
        for v in (True, False):
            case(f"every flag {v}", qk, "Flags(" + ", ".join(f"{n}={v}" for n in FLAGS) + ")", {}, "".join(f"'{n}': {v}, " for n in FLAGS))
        for i in range(0, 6, 2):
            two = FLAGS[i:i + 2]
            case(f"flags {two[0]} and {two[1]} set or unset", qk, f"Flags({two[0]}={two[0]}, {two[1]}={two[1]})", {n: OPTBOOL for n in two}, fl(two))
        if ck.tier == "thorough" and qk == "a SnQL query":
            for w in product([None, True, False], repeat=6):
                given = {n: v for n, v in zip(FLAGS, w) if v is not None}
                case(f"flags {given}", qk, "Flags(" + ", ".join(f"{n}={v}" for n, v in given.items()) + ")", {}, "".join(f"'{n}': {v}, " for n, v in given.items()))
    # defaults of the optional fields
    for qk in ("a SnQL query", "a metrics query", "a delete query"):
        make, text, ctx = QUERIES[qk]
        ds = "" if ctx == "delete" else "'dataset': d, "
        cx = f", 'mql_context': {ctx}" if ctx and ctx != "delete" else ""
        src = SRC + make + "r = Request(d, a, q)\n"
        ex.eq("snuba_sdk/request.py:Request.to_dict", f"{qk}, optional fields left out", src, "r.to_dict()",
              f"{{'query': {text}, {ds}'app_id': a, 'tenant_ids': {{}}, 'parent_api': '<unknown>'{cx}}}", ordered=False, **base)
        for n in (17, 130):
            tn = "{" + ", ".join(f"'t{i}': {i}" for i in range(n)) + "}"
            ex.eq("snuba_sdk/request.py:Request.to_dict", f"{qk}, {n} tenant ids", SRC + make + f"r = Request(d, a, q, None, p, {tn})\n", "r.to_dict()",
                  f"{{'query': {text}, {ds}'app_id': a, 'tenant_ids': {tn}, 'parent_api': p{cx}}}", ordered=False, **{k: v for k, v in base.items() if k != "t"})
        src = SRC + make + "t = {'org': 1, 'use': val}\nr = Request(dataset=d, app_id=a, query=q, tenant_ids=t, parent_api=p)\n"
        ex.eq("snuba_sdk/request.py:Request.to_dict", f"{qk}, tenant ids", src, "r.to_dict()",
              f"{{'query': {text}, {ds}'app_id': a, 'tenant_ids': {{'org': 1, 'use': val}}, 'parent_api': p{cx}}}", ordered=False,
              **{k: v for k, v in base.items() if k != "t"})
