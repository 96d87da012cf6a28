"""C18: the context that accompanies the MQL text of a metrics query."""
from __future__ import annotations

from itertools import product

from ..client import Client, Expect
from ..framework import Check, stub
from ..spec import *
from ..terms import *
from .c16 import plain_json

DT = ty("datetime")
INT = ty("int")
W = "snuba_sdk/metrics_query.py:MetricsQuery.serialize"
NAMES = ["start", "end", "rollup", "scope", "limit", "offset", "extrapolate", "indexer_mappings"]
ROLLUPS = {
    "interval": ("Rollup(interval=ri, granularity=rg)", "None, rg, ri, None"),
    "interval without granularity": ("Rollup(interval=ri)", "None, None, ri, None"),
    "totals": ("Rollup(totals=True, granularity=rg)", "None, rg, None, 'True'"),
    "totals false": ("Rollup(interval=ri, totals=False, granularity=rg)", "None, rg, ri, 'False'"),
    "totals and interval": ("Rollup(interval=ri, totals=True, granularity=rg)", "None, rg, ri, 'True'"),
    "ascending": ("Rollup(totals=True, orderby=Direction.ASC, granularity=rg)", "'ASC', rg, None, 'True'"),
    "ascending, totals false": ("Rollup(totals=False, orderby=Direction.ASC, granularity=rg)", "'ASC', rg, None, 'False'"),
    "descending, totals false": ("Rollup(totals=False, orderby=Direction.DESC)", "'DESC', None, None, 'False'"),
    "interval equal to the granularity": ("Rollup(interval=ri, granularity=ri)", "None, ri, ri, None"),
    "descending": ("Rollup(totals=True, orderby=Direction.DESC, granularity=rg)", "'DESC', rg, None, 'True'"),
}
SCOPES = {
    "no use case": ("MetricsScope([1, o0], [p0])", "[1, o0], [p0], None"),
    "use case": ("MetricsScope([o0], [p0, 3], u0)", "[o0], [p0, 3], u0"),
    "many organizations and projects": (f"MetricsScope({list(range(130, 0, -1))}, {list(range(1000, 1130))}, u0)", f"{list(range(130, 0, -1))}, {list(range(1000, 1130))}, u0"),
    "the same organizations and projects": ("MetricsScope([o0, o0, 2], [o0, o0, 2], u0)", "[o0, o0, 2], [o0, o0, 2], u0"),
    "nothing": ("MetricsScope([], [], '')", "[], [], ''"),
    "tags as lists": ("MetricsScope(orgs, projs, 'u')", "orgs, projs, 'u'"),
}
MANY = "{" + ", ".join(f"'m{i}': {i}" for i in range(130)) + "}"
MAPS = {"symbolic mappings": ("maps", "maps"), "empty mappings": ("{}", "{}"), "two mappings": ("{'a': 1, 'b': u0}", "{'a': 1, 'b': u0}"),
        "mappings of nothing": ("{'a': 0, '': 1, 'b': None, 'c': ''}", "{'a': 0, '': 1, 'b': None, 'c': ''}"),
        "many mappings": (MANY, MANY)}
QUERIES = {
    "a timeseries": ("Timeseries(Metric('pub', id=4), 'sum', None, [Condition(Column('k'), Op.EQ, v)], [Column('g')])",
                     "'sum(pub){k:' + Translation(is_mql=True).visit(v) + '} by (g)'"),
    "a formula": ("Formula('plus', [Timeseries(Metric('pub'), 'sum'), 2], None, None, None)", "'(sum(pub) + 2)'"),
}


def run(ck: Check) -> None:
    I = ck.I
    I.field_specs = dict(FIELDS)
    cl = Client(ck, "import json\n")
    r = ck.rule("context", "the result is the MQL text and a context in which every part of the query appears under its own key, null exactly when absent")
    rn = ck.rule("mappings", "serializing without indexer mappings raises")
    val = stub(I.method(MQUERY, "validate").q, NONE)  # C04 and C09 decide validation
    quiet = [val] + [stub(I.method(c, "validate").q, NONE) for c in (ROLLUP, SCOPE) if I.cls_by_q(c).lookup("validate")]
    rj = ck.rule("print", "the printed form is the JSON form of the serialized query")
    ex, exn, exj = Expect(ck, cl, r, quiet), Expect(ck, cl, rn, quiet), Expect(ck, cl, rj, quiet)
    base = {"t0": DT, "t1": DT, "ri": INT, "rg": INT, "o0": INT, "p0": INT, "u0": STR, "v": STR, "orgs": seq_of(INT, "list"), "projs": seq_of(INT, "list"), "maps": ty("dict"),
            "lim": INT, "off": INT, "ext": ty("bool")}
    opt = {
        "limit": {"absent": ("None", "None"), "given": ("Limit(5)", "5"), "largest": ("Limit(10000)", "10000"), "one": ("Limit(1)", "1"), "like the offset": ("Limit(7)", "7")},
        "offset": {"absent": ("None", "None"), "zero": ("Offset(0)", "0"), "given": ("Offset(7)", "7")},
        "extrapolate": {"absent": ("None", "None"), "false": ("Extrapolate(False)", "False"), "true": ("Extrapolate(True)", "True"), "symbolic": ("Extrapolate(ext)", "ext")},
    }

    def case(label: str, q: str, ro: str, sc: str, li: str, of: str, exq: str, mp: str) -> None:
        qs, qt = QUERIES[q]
        rs, rw = ROLLUPS[ro]
        ss, sw = SCOPES[sc]
        ob, gr, itv, tot = (x.strip() for x in rw.split(","))
        og, pj, uc = split(sw)
        (ls, lw), (os_, ow), (es, ew), (ms, mw) = opt["limit"][li], opt["offset"][of], opt["extrapolate"][exq], MAPS[mp]
        src = f"mq = MetricsQuery(query={qs}, start=t0, end=t1, rollup={rs}, scope={ss}, limit={ls}, offset={os_}, extrapolate={es}, indexer_mappings={ms})\n"
        want = (f"{{'mql': {qt}, 'mql_context': {{'start': t0.isoformat(), 'end': t1.isoformat(), "
                f"'rollup': {{'orderby': {ob}, 'granularity': {gr}, 'interval': {itv}, 'with_totals': {tot}}}, "
                f"'scope': {{'org_ids': {og}, 'project_ids': {pj}, 'use_case_id': {uc}}}, "
                f"'limit': {lw}, 'offset': {ow}, 'extrapolate': {ew}, 'indexer_mappings': {mw}}}}}")
        names = {n: v for n, v in base.items()}
        ex.eq(W, label, src, "mq.serialize()", want, ordered=False, **names)
        exj.eq("snuba_sdk/metrics_query.py:MetricsQuery.print", label, src, "mq.print()", f"json.dumps({want})", ordered=False, project=plain_json, **names)

    d = dict(q="a timeseries", ro="interval", sc="use case", li="given", of="given", exq="true", mp="symbolic mappings")
    dims = {"q": QUERIES, "ro": ROLLUPS, "sc": SCOPES, "li": opt["limit"], "of": opt["offset"], "exq": opt["extrapolate"], "mp": MAPS}
    title = {"q": "query", "ro": "rollup", "sc": "scope", "li": "limit", "of": "offset", "exq": "extrapolate", "mp": "mappings"}
    for k, vs in dims.items():
        for v in vs:
            case(f"{title[k]}: {v}", **{**d, k: v})
    for li, of, e in product(*(opt[k] for k in ("limit", "offset", "extrapolate"))):
        case(f"limit {li}, offset {of}, extrapolate {e}", **{**d, "li": li, "of": of, "exq": e})
    for a, b in product(ROLLUPS, SCOPES):
        case(f"rollup {a}, scope {b}, nothing optional", **{**d, "ro": a, "sc": b, "li": "absent", "of": "absent", "exq": "absent", "mp": "empty mappings"})
    if ck.tier == "thorough":
        for q, ro, sc, mp in product(QUERIES, ROLLUPS, SCOPES, MAPS):
            for li, of, e in product(*(opt[k] for k in ("limit", "offset", "extrapolate"))):
                case(f"{q}, {ro}, {sc}, {li}, {of}, {e}, {mp}", q, ro, sc, li, of, e, mp)
    # parts that agree
    case_same = [("start and end", "t0, t0", "Rollup(interval=ri, granularity=rg)"), ("the other way round", "t1, t0", "Rollup(interval=ri, granularity=rg)")]
    for label, times, ro in case_same:
        a, z = times.split(", ")
        src = f"mq = MetricsQuery(Timeseries(Metric('pub'), 'sum'), {times}, {ro}, MetricsScope([1], [2]), indexer_mappings={{}})\n"
        ex.eq(W, f"{label}", src, "[mq.serialize()['mql_context'][k] for k in ('start', 'end')]", f"[{a}.isoformat(), {z}.isoformat()]", **base)
    for q, (qs, _) in QUERIES.items():
        for op in ("mq.serialize()", "mq.print()", "Request('d', 'a', mq).to_dict()"):
            exn.raises(W, f"{q}: {op}", f"mq = MetricsQuery({qs}, t0, t1, Rollup(interval=60, granularity=60), MetricsScope([1], [2]))\n", op,
                       t0=DT, t1=DT, v=STR)


def split(s: str) -> list:
    out, depth, cur = [], 0, ""
    for ch in s:
        depth += (ch == "[") - (ch == "]")
        if ch == "," and not depth:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    return out + [cur.strip()]
