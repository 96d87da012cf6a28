"""C12: set methods return a changed copy."""
from __future__ import annotations

from typing import Any, Optional

from ..framework import Check, Undecided, expect_accept, expect_raise, facts, stub, taint
from ..model import Raised, State
from ..spec import *
from .parts import part_hook
from ..model import TySpec
from ..terms import *
from ..terms import find_unk, has_unk

# class -> method -> ([(parameter, good, bad, empty list allowed)], {field: parameter or wrapper class})
LST = lambda *a: seq_of(ty(*a), "list")
QCOND = ty(CONDS)


def table(I: Any) -> dict:
    U = I.universe
    seqish = {"list", "tuple", "otherseq", "other"}

    def no(*atoms: Any) -> TySpec:
        return ty(U - ty(*atoms).atoms)

    def lst(f: str, el: Any, empty: bool = True, none: bool = False) -> dict:
        bad: dict = {"not a sequence": ty(U - seqish - ({"NoneType"} if none else set()))}
        bad["a list with an element of another type"] = ("mixed", ty(el), no(el))
        if not empty:
            bad["an empty list"] = seq("list")
        good: dict = {"a list": seq_of(ty(el), "list", **({} if empty else {"truthy": True}))}
        if empty:
            good["an empty list"] = seq("list")
        if none:
            good["None"] = NONE
        return dict(params={f: (good, bad)}, sets={f: f})

    def val(f: str, good: Any, wrap: Optional[tuple] = None, param: Optional[str] = None, extra_ok: Any = ()) -> dict:
        bad = {"a value of another type": ty(U - (good if isinstance(good, TySpec) else ty(good)).atoms - set(extra_ok))}
        return dict(params={param or f: ({"a value of its type": good if isinstance(good, TySpec) else ty(good)}, bad)}, sets={f: wrap or (param or f)})

    def num(f: str, q: str, lo: Any, hi: Any) -> dict:
        return val(f, TySpec(["int"], num=(lo, True, hi, True)), ("wrap", q, f), extra_ok=["bool"])

    Q = {
        "set_match": val("match", [ENTITY, STORAGE, JOIN, QUERY]),
        "set_select": lst("select", SELECTABLE, empty=False),
        "set_groupby": lst("groupby", SELECTABLE),
        "set_array_join": lst("array_join", [COLUMN], empty=False),
        "set_where": lst("where", CONDS),
        "set_having": lst("having", CONDS),
        "set_orderby": lst("orderby", [ORDERBY]),
        "set_limitby": val("limitby", [LIMITBY]),
        "set_limit": num("limit", LIMIT, 1, 10000),
        "set_offset": num("offset", OFFSET, 0, None),
        "set_granularity": num("granularity", GRAN, 1, None),
        "set_totals": val("totals", ["bool"], ("wrap", TOTALS, "totals")),
    }
    for m, f in (("set_where", "where"), ("set_having", "having")):
        Q[m]["param_of"] = f
    M = {
        "set_query": val("query", [TS, FORMULA, "str"]),
        "set_start": val("start", ["datetime"]),
        "set_end": val("end", ["datetime"]),
        "set_rollup": val("rollup", [ROLLUP]),
        "set_scope": val("scope", [SCOPE]),
        "set_limit": num("limit", LIMIT, 1, 10000),
        "set_offset": num("offset", OFFSET, 0, None),
        "set_extrapolate": val("extrapolate", ["bool"], ("wrap", EXTRA, "extrapolate")),
        "set_indexer_mappings": dict(params={"indexer_mappings": ({"a dictionary": ty("dict")}, {})}, sets={"indexer_mappings": "indexer_mappings"}),
    }
    agg = dict(params={"aggregate": ({"a string": STR}, {"a value of another type": no("str")}),
                       "aggregate_params": ({"a list of literals": LST(LITERAL), "an empty list": seq("list"), "None": NONE},
                                            {"not a list": ty(U - {"NoneType", "list", "tuple", "otherseq", "other"}),
                                             "a list with something that is not a literal": ("mixed", ty(LITERAL), ty(U - LITERAL - {"other", "otherseq"}))})},
               sets={"aggregate": "aggregate", "aggregate_params": "aggregate_params"})
    G = [COLUMN, ALIASED]
    TSM = {"set_metric": val("metric", [METRIC]), "set_aggregate": agg, "set_filters": lst("filters", CONDS, none=True), "set_groupby": lst("groupby", G, none=True)}
    FM = {"set_parameters": lst("parameters", [FORMULA, TS, "int", "float", "bool"], none=True), "set_filters": lst("filters", CONDS, none=True),
          "set_groupby": lst("groupby", G, none=True)}
    MM = {"set_mri": val("mri", ["str"]), "set_public_name": val("public_name", ["str"]), "set_id": val("id", ["int"], extra_ok=["bool"])}
    SM = {"set_use_case_id": val("use_case_id", ["str"])}
    return {QUERY: Q, MQUERY: M, TS: TSM, FORMULA: FM, METRIC: MM, SCOPE: SM}


def run(ck: Check) -> None:
    I = ck.I
    rc = ck.rule("copy", "the result is a new object of the same class with the named part replaced and every other part the receiver's")
    rr = ck.rule("reject", "a value of the wrong type is rejected with an SDK error")
    selfv = sym("self")

    def call(q: str, m: str, args: dict, prep: Any = None, kw: bool = False) -> list:
        st = ck.fresh()
        I.field_specs = dict(FIELDS)
        o = ck.inp("self", ty(q))
        if prep:
            prep(st, o)
        fi = I.method(q, m)
        names = [a.arg for a in fi.node.args.args[1:]]
        vals = []
        for n, v in args.items():
            if isinstance(v, Term):
                t = v
            elif isinstance(v, tuple):
                t = I.alloc(st, "list", (spread(ck.inp(n + "_before", seq_of(v[1], "list"))), one(ck.inp("bad", v[2])), spread(ck.inp(n + "_after", seq_of(v[1], "list")))))
            else:
                t = ck.inp(n, v)
            vals.append(I.alloc(st, "list", t.a[1]) if t.k == "seq" and t.a[0] == "list" else t)
        with ck.hooked(part_hook(ck)):
            return I.call_method(o, m, vals, {}, st)

    def copy_ok(q: str, outs: list, sets: dict, args: dict) -> Optional[str]:
        fields = [f for f in I.cls_by_q(q).fields()]
        und = None
        if not outs:
            raise Undecided("no outcome")
        for st, v in outs:
            t = taint(st)
            if isinstance(v, Raised):
                if t:
                    und = t
                    continue
                return f"raises {v.exc} at {v.where} [{facts(I, st)}]"
            if v is selfv:
                return "returns the receiver itself"
            if I.types(st, v) != {q}:
                und = f"result {show(I.freeze(st, v))[:100]}"
                if not t and v.k != "unk":
                    return f"returns {show(I.freeze(st, v))[:200]}"
                continue
            for f in fields:
                r = I.getattr(v, f.name if hasattr(f, "name") else f, st.copy())
                fn = f.name if hasattr(f, "name") else f
                got = I.freeze(r[0][0], r[0][1])
                w = sets.get(fn)
                if w is None:
                    want = [T("attr", selfv, fn)]
                    known = st.oneof.get(want[0])
                    if known is not None and len(known) == 1:
                        want.append(next(iter(known)))
                elif isinstance(w, tuple):
                    inner = I.getattr(r[0][1], w[2], r[0][0])
                    if I.types(r[0][0], r[0][1]) != {w[1]}:
                        return f"{fn} becomes {show(got)[:200]} instead of a {w[1].rsplit('.', 1)[-1]}"
                    got = I.freeze(inner[0][0], inner[0][1])
                    want = [args[fn] if isinstance(args[fn], Term) else sym(fn)]
                else:
                    a = args[w]
                    want = [a if isinstance(a, Term) else sym(w)]
                if got in want:
                    continue
                if I.types(st, got) <= {"NoneType"} and I.types(st, want[0]) <= {"NoneType"}:
                    continue
                if t or has_unk(got):
                    und = t or show(find_unk(got))
                    continue
                return f"{fn} becomes {show(got)[:200]} instead of {show(want[0])}"
        if und:
            raise Undecided(f"depends on {und}")
        return None

    for q, ms in table(I).items():
        cls = q.rsplit(".", 1)[-1]
        for m, d in ms.items():
            fi = I.method(q, m)
            where = f"{fi.module.rel}:{cls}.{m}"
            pnames = list(d["params"])
            preps: list = [("", None)]
            if q == METRIC:
                preps = [(f", {f} given", (lambda st, o, f=f: st.types.__setitem__(T("attr", o, f), frozenset(["str"])))) for f in ("mri", "public_name")]
            for pl, prep in preps:
                goods = {p: d["params"][p][0] for p in pnames}
                firsts = {p: next(iter(g.values())) for p, g in goods.items()}
                for p in pnames:
                    for label, g in goods[p].items():
                        args = {**firsts, p: g}
                        ck.ob(rc, where, f"{p}: {label}{pl}", lambda: copy_ok(q, call(q, m, args, prep), d["sets"], args))
                    for label, bspec in d["params"][p][1].items():
                        args = {**firsts, p: bspec}
                        ck.ob(rr, where, f"{p}: {label}{pl}", lambda: expect_raise(I, call(q, m, args, prep)))
    # bounds of the wrapped numbers
    for q, m, good, bad in ((QUERY, "set_limit", (1, 10000), (0, -1, 10001)), (QUERY, "set_offset", (0, 5), (-1,)), (QUERY, "set_granularity", (1, 3600), (0, -1)),
                            (MQUERY, "set_limit", (1, 10000), (0, -1, 10001)), (MQUERY, "set_offset", (0, 5), (-1,))):
        d = table(I)[q][m]
        p = next(iter(d["params"]))
        where = f"{I.method(q, m).module.rel}:{q.rsplit('.', 1)[-1]}.{m}"
        for x in good:
            ck.ob(rc, where, f"{x}", lambda: copy_ok(q, call(q, m, {p: const(x)}), d["sets"], {p: const(x)}))
        for x in bad:
            ck.ob(rr, where, f"{x}", lambda: expect_raise(I, call(q, m, {p: const(x)})))
