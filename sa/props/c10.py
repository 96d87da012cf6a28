"""C10: validating a query validates all of it."""
from __future__ import annotations

from typing import Any, Optional

from ..framework import Check, Undecided, expect_accept, expect_raise
from ..model import Raised, State
from ..spec import *
from ..terms import *
from .c08 import LISTS, ORDER, SINGLE
from .parts import *


# whatever a part raises, the query must not swallow it
BUILTIN = ["AssertionError", "TypeError", "AttributeError", "ValueError", "KeyError", "IndexError", "RecursionError", "NotImplementedError"]


def run(ck: Check) -> None:
    I = ck.I
    fv = I.method(QUERY, "validate")
    where = f"{fv.module.rel}:Query.validate"
    r = ck.rule("invalid", "validating a query raises when its match, any element of any clause or the query as a whole is invalid")
    ra = ck.rule("valid", "validating a query accepts it when all its parts are valid")
    rc = ck.rule("inner", "a query on an invalid inner query is rejected on construction and by set_match; other matches must be an entity, storage or join")

    def validate(build: Any, exc: Optional[str]) -> list:
        st = ck.fresh()
        I.field_specs = dict(FIELDS)
        outs = []
        with ck.hooked(*hooks_for(ck, exc)), ck.depth(6):
            for s, v in build(st):
                outs += [(s, v)] if isinstance(v, Raised) else I.call_method(v, "validate", [], {}, s)
        return outs

    for label, exc, build in invalid_queries(ck):
        ck.ob(r, where, label, lambda: expect_raise(I, validate(build, exc)))

    def valid(m: str, clauses: dict, tot: Optional[bool] = None) -> Any:
        def build(st: State) -> list:
            kw = fill(ck, st, clauses)
            kw["match"] = ck.inp("match", ty(m))
            if tot is not None:
                st.preds[T("truthy", T("attr", kw["totals"], "totals"))] = tot
            return I.construct(QUERY, [], kw, st)

        return build

    for m in MATCHES:
        n = m.rsplit(".", 1)[-1]
        ck.ob(ra, where, f"{n}, select only", lambda: expect_accept(I, validate(valid(m, MIN), None)))
        ck.ob(ra, where, f"{n}, every clause", lambda: expect_accept(I, validate(valid(m, FULL), None)))
        ck.ob(ra, where, f"{n}, totals false without a group-by", lambda: expect_accept(I, validate(valid(m, {"select": "many", "totals": "many"}, False), None)))
        ck.ob(ra, where, f"{n}, empty optional lists", lambda: expect_accept(I, validate(valid(m, {"select": "many", **{f: "empty" for f in LISTS if f != "select"}}), None)))
        for f in ORDER:
            if f in LISTS:
                ck.ob(ra, where, f"{n}, {f} a tuple", lambda: expect_accept(I, validate(valid(m, {"select": "many", f: "tuple"}), None)))
        for f in ORDER[1:]:
            if f != "totals":
                ck.ob(ra, where, f"{n}, {f} only", lambda: expect_accept(I, validate(valid(m, {"select": "many", f: "many"}), None)))
                ck.ob(ra, where, f"{n}, all but {f}", lambda: expect_accept(I, validate(valid(m, {**FULL, f: None}, False), None)))
    # the inner query
    fc = I.cls_by_q(QUERY)
    wc = f"{fv.module.rel}:Query"
    sm = f"{I.method(QUERY, 'set_match').module.rel}:Query.set_match"
    inner = sym("bad")
    for exc in errors_of(ck, ENTITY) + [P + "query_visitors.InvalidQueryError", P + "query_validation.InvalidMatchError", *BUILTIN]:
        e = exc.rsplit(".", 1)[-1]

        def ctor(exc: str = exc) -> list:
            st = ck.fresh()
            I.field_specs = dict(FIELDS)
            with ck.hooked(*hooks_for(ck, exc)):
                kw = fill(ck, st, MIN)
                kw["match"] = ck.inp("bad", ty(QUERY))
                return I.construct(QUERY, [], kw, st)

        def setm(exc: str = exc) -> list:
            st = ck.fresh()
            I.field_specs = dict(FIELDS)
            with ck.hooked(*hooks_for(ck, exc)):
                return I.call_method(ck.inp("self", ty(QUERY)), "set_match", [ck.inp("bad", ty(QUERY))], {}, st)

        ck.ob(rc, wc, f"constructed on an inner query whose validation raises {e}", lambda: expect_raise(I, ctor()))
        ck.ob(rc, sm, f"inner query whose validation raises {e}", lambda: expect_raise(I, setm()))

    def ok_inner(how: str) -> list:
        st = ck.fresh()
        I.field_specs = dict(FIELDS)
        with ck.hooked(*hooks_for(ck, None)):
            m = ck.inp("inner", ty(QUERY))
            if how == "set":
                return I.call_method(ck.inp("self", ty(QUERY)), "set_match", [m], {}, st)
            kw = fill(ck, st, MIN)
            kw["match"] = m
            return I.construct(QUERY, [], kw, st)

    ck.ob(ra, wc, "constructed on a valid inner query", lambda: expect_accept(I, ok_inner("new")))
    ck.ob(ra, sm, "valid inner query", lambda: expect_accept(I, ok_inner("set")))

    def two_levels() -> list:
        """An inner query that became invalid is found by validating the outer one."""
        st = ck.fresh()
        I.field_specs = dict(FIELDS)
        outs = []
        kw = fill(ck, st, MIN)
        kw["match"] = ck.inp("bad", ty(QUERY))
        st.types[T("attr", kw["match"], "select")] = frozenset(["list"])
        with ck.hooked(*hooks_for(ck, None)):
            built = I.construct(QUERY, [], kw, st)
        with ck.hooked(*hooks_for(ck, P + "query_visitors.InvalidQueryError")):
            for s, v in built:
                outs += [(s, v)] if isinstance(v, Raised) else I.call_method(v, "validate", [], {}, s)
        return outs

    ck.ob(r, where, "inner query invalid", lambda: expect_raise(I, two_levels()))
    bad = ty(I.universe - {ENTITY, STORAGE, JOIN, QUERY})

    def wrong(how: str) -> list:
        st = ck.fresh()
        I.field_specs = dict(FIELDS)
        m = ck.inp("m", bad)
        if how == "set":
            return I.call_method(ck.inp("self", ty(QUERY)), "set_match", [m], {}, st)
        return I.construct(QUERY, [], {"match": m}, st)

    ck.ob(rc, wc, "constructed on something else", lambda: expect_raise(I, wrong("new")))
    ck.ob(rc, sm, "something else", lambda: expect_raise(I, wrong("set")))
    ck.counters["errors_by_part"] = {q.rsplit(".", 1)[-1]: [e.rsplit(".", 1)[-1] for e in v] for q, v in ck.__dict__.get("_errors", {}).items()}
