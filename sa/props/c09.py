"""C09: nothing is emitted for an object that does not validate."""
from __future__ import annotations

from typing import Any, Optional

from ..framework import Check, Undecided, expect_accept, expect_raise, stub
from ..model import Raised, State
from ..render import Renderers
from ..spec import *
from ..terms import *
from .c04 import MQ, PART_CLASSES
from .c08 import LISTS, ORDER, SINGLE, node_hook
from .parts import *

FLAG_NAMES = tuple(FLAG_FIELDS)
PRINTER = P + "mql_visitor.MQLPrinter"


def opaque_text(ck: Check, classes: dict) -> Any:
    """Emission of an opaque part: (class, method) -> term kind."""
    qs = {}
    for (q, m), kind in classes.items():
        try:
            qs[ck.I.method(q, m).q] = (q, kind)
        except Exception:
            pass

    def h(I: Any, fi: Any, a: list, k: dict, s: State) -> Any:
        if fi.q in qs and a and I.freeze(s, a[0]).k in ("sym", "it", "attr"):
            t = T("app", fi.q.rsplit(".", 1)[-1], *[I.freeze(s, x) for x in a])
            I.inputs[t] = qs[fi.q][1]
            return [(s, t)]
        return None

    return h


def run(ck: Check) -> None:
    I = ck.I
    rd = Renderers(ck)
    r = ck.rule("emit", "an emitting method raises instead of returning text or a payload when the object is invalid")
    rr = ck.rule("request", "validating or emitting a request rejects any field, flag or query that is not valid")
    ra = ck.rule("accept", "validating a request with valid parts raises nothing")

    def loc(q: str, m: str) -> str:
        return f"{I.method(q, m).module.rel}:{q.rsplit('.', 1)[-1]}.{m}"

    # SnQL queries
    for label, exc, build in invalid_queries(ck):
        for how in ("serialize", "print", "__str__"):
            def f() -> Optional[str]:
                st = ck.fresh()
                I.field_specs = dict(FIELDS)
                outs = []
                with ck.hooked(*hooks_for(ck, exc), node_hook(rd), stub(OPT, NONE)), ck.depth(6):
                    for s, v in build(st):
                        outs += [(s, v)] if isinstance(v, Raised) else I.call_method(v, how, [], {}, s)
                return expect_raise(I, outs)

            ck.ob(r, loc(QUERY, how), label, f)
    # metrics queries
    printed = lambda I, fi, a, k, s: [(s, ck.inp("mql_payload", ty("dict")))] if fi.q == I.method(PRINTER, "visit").q and \
        I.types(s, a[0]) <= {PRINTER} else None

    def mq(how: str, over: dict, bad: Optional[str] = None, exc: str = "", gran: Any = ("int",), parse: Any = None) -> list:
        st = ck.fresh()
        I.field_specs = dict(FIELDS)
        kw = {n: over[n] if isinstance(over.get(n), Term) else ck.inp(n, over.get(n, s)) for n, s in MQ.items()}
        st.types[T("attr", kw["rollup"], "granularity")] = frozenset(gran)
        hooks = [part_hook(ck, sym(bad) if bad else None, exc), printed, stub(OPT, NONE)]
        pq = I.module_value("snuba_sdk.mql.mql", "parse_mql").a[0].q

        def hp(I_: Any, f_: Any, a: list, k: dict, s: State) -> Any:
            if f_.q == pq:
                return [(s, parse)] if isinstance(parse, Raised) else [(s, ck.inp("parsed", ty(TS, FORMULA)))]
            return None

        outs = []
        with ck.hooked(hp, *hooks):
            for s, v in I.construct(MQUERY, [], kw, st):
                outs += [(s, v)] if isinstance(v, Raised) else I.call_method(v, how, [], {}, s)
        return outs

    PI = P + "expressions.InvalidExpressionError"
    for how in ("serialize", "print"):
        w = loc(MQUERY, how)
        for n, s in MQ.items():
            bad = I.universe - s.atoms - ({"str"} if n == "query" else set())
            ck.ob(r, w, f"{n} missing or of another type", lambda: expect_raise(I, mq(how, {n: ty(bad)})))
        ck.ob(r, w, "rollup without a granularity", lambda: expect_raise(I, mq(how, {}, gran=["NoneType"])))
        for n, classes in PART_CLASSES.items():
            for q in classes:
                for exc in sorted(set(errors_of(ck, q)) | {PI}):
                    ck.ob(r, w, f"{n} is an invalid {q.rsplit('.', 1)[-1]} ({exc.rsplit('.', 1)[-1]})",
                          lambda: expect_raise(I, mq(how, {n: ty(q)}, n, exc)))
        ck.ob(r, w, "query is a string outside the MQL grammar",
              lambda: expect_raise(I, mq(how, {"query": STR}, parse=Raised(P + "mql.mql.InvalidMQLQueryError", "parse_mql"))))
        ck.ob(r, w, "query is an MQL string for an invalid object", lambda: expect_raise(I, mq(how, {"query": STR}, "parsed", PI)))
        ck.ob(ra, w, "a valid metrics query", lambda: expect_accept(I, mq(how, {})))
    # delete queries
    def dq(how: str, conds: Any) -> list:
        st = ck.fresh()
        outs = []
        for s, v in I.construct(DQUERY, [], {"storage_name": ck.inp("storage_name", STR), "column_conditions": conds(st)}, st):
            outs += [(s, v)] if isinstance(v, Raised) else I.call_method(v, how, [], {}, s)
        return outs

    vals = lambda n: ck.inp(n, seq_of(ty("str", "int"), "list", truthy=True))
    for how in ("serialize", "validate"):
        w = loc(DQUERY, how)
        ck.ob(r, w, "no conditions", lambda: expect_raise(I, dq(how, lambda st: dict_term())))
        for i in range(3):
            def conds(st: State, i: int = i) -> Term:
                return dict_term(**{f"k{j}": (seq("list") if i == j else vals(f"v{j}")) for j in range(3)})

            ck.ob(r, w, f"condition {i + 1} of 3 has no values", lambda: expect_raise(I, dq(how, conds)))
        ck.ob(ra, w, "every condition has values", lambda: expect_accept(I, dq(how, lambda st: dict_term(**{f"k{j}": vals(f"v{j}") for j in range(3)}))))
    # flags
    FM = [("validate", FLAGS), ("to_dict", FLAGS)]
    for how, q in FM:
        for n in FLAG_NAMES:
            def bf() -> list:
                st = ck.fresh()
                kw = {m: ck.inp(m, ty("NoneType", "bool") if m != n else ty(I.universe - {"NoneType", "bool"})) for m in FLAG_NAMES}
                outs = []
                for s, v in I.construct(FLAGS, [], kw, st):
                    outs += [(s, v)] if isinstance(v, Raised) else I.call_method(v, how, [], {}, s)
                return outs

            ck.ob(r if how == "to_dict" else rr, loc(FLAGS, how), f"{n} is neither a boolean nor unset", lambda: expect_raise(I, bf()))

        def gf() -> list:
            st = ck.fresh()
            kw = {m: ck.inp(m, ty("NoneType", "bool")) for m in FLAG_NAMES}
            outs = []
            for s, v in I.construct(FLAGS, [], kw, st):
                outs += [(s, v)] if isinstance(v, Raised) else I.call_method(v, how, [], {}, s)
            return outs

        ck.ob(ra, loc(FLAGS, how), "booleans and unset flags", lambda: expect_accept(I, gf()))
    # requests
    GOOD: dict = dict(dataset=const("events"), app_id=const("app-1"), parent_api=ty("str", truthy=True), tenant_ids=ty("dict"))
    EMIT = {(QUERY, "serialize"): STR, (QUERY, "print"): STR, (MQUERY, "serialize"): ty("dict"), (MQUERY, "print"): STR,
            (DQUERY, "serialize"): ty("dict"), (DQUERY, "print"): STR}
    METHODS = ("validate", "to_dict", "serialize", "serialize_mql", "print", "__str__")

    def rq(how: str, over: dict, query: str = QUERY, bad: Optional[str] = None, exc: str = "", flags: Any = None) -> list:
        st = ck.fresh()
        I.field_specs = {**FIELDS, **{(FLAGS, n): s for n, s in FLAG_FIELDS.items()}}
        kw: dict = {}
        for n, g in GOOD.items():
            v = over.get(n, g)
            kw[n] = v if isinstance(v, Term) else ck.inp(n, v)
        kw["query"] = ck.inp("query", ty(query))
        outs = []
        starts = [(st, ck.inp("flags", ty(FLAGS)))] if flags is None else flags(st)
        b = sym(bad) if bad else None
        emit = opaque_text(ck, EMIT)

        def emit_bad(I_: Any, f_: Any, a: list, k: dict, s: State) -> Any:
            """An invalid query raises when it is serialized, too."""
            if b is not None and a and f_.name in ("serialize",) and I.freeze(s, a[0]) is b:
                return [(s, Raised(exc, f_.q))]
            return None

        with ck.hooked(emit_bad, part_hook(ck, b, exc) if bad != "query" or True else None, emit):
            for s, fl in starts:
                for s2, v in I.construct(REQUEST, [], {**kw, "flags": fl}, s):
                    outs += [(s2, v)] if isinstance(v, Raised) else I.call_method(v, how, [], {}, s2)
        return outs

    notstr = ty(I.universe - {"str"})
    for how in METHODS:
        try:
            w = loc(REQUEST, how)
        except Exception:
            if how == "serialize_mql":
                continue
            raise
        rule = rr if how == "validate" else r
        for q in (QUERY, MQUERY, DQUERY):
            n = q.rsplit(".", 1)[-1]
            ck.ob(ra, w, f"all fields valid, {n}", lambda: expect_accept(I, rq(how, {}, q)))
            for f in ("dataset", "app_id", "parent_api"):
                ck.ob(rule, w, f"{n}: {f} is empty", lambda: expect_raise(I, rq(how, {f: const("")}, q)))
                ck.ob(rule, w, f"{n}: {f} is not a string", lambda: expect_raise(I, rq(how, {f: notstr}, q)))
            for f in ("dataset", "app_id"):
                for badname in ("a b", "a;b", "events\n", "`x`", "a\\b"):
                    ck.ob(rule, w, f"{n}: {f} is {badname!r}", lambda: expect_raise(I, rq(how, {f: const(badname)}, q)))
            ck.ob(rule, w, f"{n}: tenant ids are not a dictionary", lambda: expect_raise(I, rq(how, {"tenant_ids": ty(I.universe - {"dict"})}, q)))
            for exc in (P + "query_visitors.InvalidQueryError", PI, P + "metrics_query_visitors.InvalidMetricsQueryError", P + "delete_query.InvalidDeleteQueryError"):
                ck.ob(rule, w, f"{n}: the query is invalid ({exc.rsplit('.', 1)[-1]})", lambda: expect_raise(I, rq(how, {}, q, "query", exc)))
            for fn in FLAG_NAMES:
                def flags(st: State) -> list:
                    kw = {m: ck.inp("flag_" + m, ty("NoneType", "bool") if m != fn else ty(I.universe - {"NoneType", "bool"})) for m in FLAG_NAMES}
                    return I.construct(FLAGS, [], kw, st)

                ck.ob(rule, w, f"{n}: flag {fn} is not a boolean", lambda: expect_raise(I, rq(how, {}, q, flags=flags)))
