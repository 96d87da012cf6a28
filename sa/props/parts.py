"""Parts that fail validation: hooks and invalid objects shared by C04, C09 and C10."""
from __future__ import annotations

from typing import Any, Callable, Optional

from ..framework import Check, Undecided
from ..model import FuncInfo, Raised, State, Unsupported
from ..spec import *
from ..terms import *
from .c08 import LISTS, OPT, ORDER, SINGLE

FINDER = P + "visitors.ExpressionFinder"
PART = EXPRESSIONS | {TS, FORMULA, ROLLUP, SCOPE, METRIC, QUERY, MQUERY, DQUERY, FLAGS}


def validators(ck: Check, classes: Any = PART) -> dict:
    """class -> qualified name of the function its `validate` resolves to."""
    return {q: ck.I.method(q, "validate").q for q in sorted(classes)}


def errors_of(ck: Check, q: str) -> list:
    """The exceptions that validating an object of class q can raise, found by
    interpreting its validate method on an arbitrary object of that class."""
    cache = ck.__dict__.setdefault("_errors", {})
    if q not in cache:
        st = ck.fresh()
        saved, ck.I.field_specs = ck.I.field_specs, {}
        try:
            x = ck.inp("any", ty(q))
            outs = ck.I.call_method(x, "validate", [], {}, st)
            found = {v.exc for _, v in outs if isinstance(v, Raised) and v.exc.startswith("snuba_sdk.")}
        except (Unsupported, RecursionError):
            found = set()
        finally:
            ck.I.field_specs = saved
        cache[q] = sorted(found | {P + "expressions.InvalidExpressionError"})
    return cache[q]


def part_hook(ck: Check, bad: Optional[Term] = None, exc: str = "") -> Callable:
    """Validation of a part succeeds, except that of `bad`, which raises."""
    vq = set(validators(ck).values())

    def h(I: Any, fi: FuncInfo, a: list, k: dict, s: State) -> Any:
        if fi.q not in vq or len(a) != 1 or k:
            return None
        x = I.freeze(s, a[0])
        if bad is not None and x is bad:
            return [(s, Raised(exc, fi.q))]
        return [(s, NONE)] if x.k in ("sym", "elem", "it", "attr") else None

    return h


def no_columns(I: Any, fi: FuncInfo, a: list, k: dict, s: State) -> Any:
    """The column finder finds nothing in an opaque part (C11 judges the columns)."""
    if fi.q == I.method(FINDER, "visit").q and len(a) == 2 and I.types(s, a[0]) <= {FINDER} and I.freeze(s, a[1]).k in ("sym", "elem", "it"):
        return [(s, I.alloc(s, "set", ()))]
    return None


def fill(ck: Check, st: State, clauses: dict, bad: Optional[tuple] = None) -> dict:
    """Arguments for a query.  bad = (clause, class): one element of that class, somewhere
    in the clause, is the symbol `bad`; bad = (clause, class, i, n): element i of n."""
    I, kw = ck.I, {}
    for f, v in clauses.items():
        if v is None:
            kw[f] = NONE
            continue
        if f in SINGLE:
            kw[f] = ck.inp("bad", ty(SINGLE[f][1])) if bad and bad[0] == f else ck.inp(f, ty(SINGLE[f][1]))
            continue
        el = ty(LISTS[f][2])
        kind = "tuple" if v == "tuple" else "list"
        if v == "empty":
            kw[f] = I.alloc(st, "list", ())
        elif v == "one":
            kw[f] = I.alloc(st, "list", (one(ck.inp(f, el)),))
        elif bad and bad[0] == f and len(bad) == 4:
            kw[f] = I.alloc(st, "list", tuple(one(
                ck.inp("bad", ty(bad[1])) if i == bad[2] else ck.inp(f"{f}{i}", el) if bad[3] < 9 else ck.inp(f, ty(bad[1]))) for i in range(bad[3])))
        elif bad and bad[0] == f:
            parts = (spread(ck.inp(f + "_before", seq_of(el, kind))), one(ck.inp("bad", ty(bad[1]))), spread(ck.inp(f + "_after", seq_of(el, kind))))
            kw[f] = I.alloc(st, "list", parts) if kind == "list" else T("seq", "tuple", parts)
        else:
            kw[f] = ck.inp(f, seq_of(el, kind, truthy=True))
    return kw


FULL = {f: "many" for f in ORDER}
MIN = {"select": "many"}
MATCHES = (ENTITY, STORAGE, JOIN)


def inner_query(ck: Check, st: State) -> tuple:
    """A valid subquery."""
    kw = {"match": ck.inp("inner_match", ty(ENTITY)), "select": ck.inp("inner_select", seq_of(ty(LISTS["select"][2]), "list", truthy=True))}
    outs = ck.I.construct(QUERY, [], kw, st)
    if len(outs) != 1 or isinstance(outs[0][1], Raised):
        raise Undecided("inner query")
    return outs[0]


def with_match(ck: Check, st: State, m: str) -> tuple:
    return inner_query(ck, st) if m == QUERY else (st, ck.inp("match", ty(m)))


def invalid_queries(ck: Check) -> list:
    """(label, hook for the invalid part or None, builder) for queries that must not validate."""
    I = ck.I
    out: list = []

    def whole(label: str, clauses: dict, prep: Any = None) -> None:
        for m in MATCHES + (QUERY,):
            def build(st: State, m: str = m) -> list:
                st, mt = with_match(ck, st, m)
                kw = fill(ck, st, clauses)
                kw["match"] = mt
                if prep:
                    prep(st, kw)
                return I.construct(QUERY, [], kw, st)

            out.append((f"{label} ({m.rsplit('.', 1)[-1]})", None, build))

    rest = {f: "many" for f in ORDER if f != "select"}
    whole("no select", rest)
    whole("no select and nothing else", {})
    whole("empty select", {**rest, "select": "empty"})

    def totals(st: State, kw: dict) -> None:
        st.preds[T("truthy", T("attr", kw["totals"], "totals"))] = True

    whole("totals without a group-by", {**FULL, "groupby": None}, totals)
    whole("totals with an empty group-by", {**FULL, "groupby": "empty"}, totals)
    whole("totals and select only", {"select": "many", "totals": "many"}, totals)
    for m in MATCHES:
        for exc in errors_of(ck, m):
            def build(st: State, m: str = m) -> list:
                kw = fill(ck, st, FULL)
                kw["match"] = ck.inp("bad", ty(m))
                return I.construct(QUERY, [], kw, st)

            out.append((f"match is an invalid {m.rsplit('.', 1)[-1]} ({exc.rsplit('.', 1)[-1]})", exc, build))
    for f in ORDER:
        for q in sorted(LISTS[f][2] if f in LISTS else [SINGLE[f][1]]):
            for exc in errors_of(ck, q):
                only = {"select": "many", f: "many"}
                for clauses, w, m in ((FULL, "every clause set", ENTITY), (only, "only that clause set", ENTITY), (only, "only that clause set, subquery", QUERY),
                                      *([({"select": "many", f: "tuple"}, "a tuple", ENTITY)] if f in LISTS else []),
                                      (only, "only that clause set, join", JOIN), (only, "only that clause set, storage", STORAGE)):
                    if m != ENTITY and exc != errors_of(ck, q)[0]:
                        continue

                    def build(st: State, clauses: dict = clauses, f: str = f, q: str = q, m: str = m) -> list:
                        st, mt = with_match(ck, st, m)
                        kw = fill(ck, st, clauses, (f, q))
                        kw["match"] = mt
                        return I.construct(QUERY, [], kw, st)

                    out.append((f"{f} holds an invalid {q.rsplit('.', 1)[-1]} ({exc.rsplit('.', 1)[-1]}), {w}", exc, build))
    # a column that the match clause does not have
    from .c11 import Builder, matches

    b = Builder(ck)
    for kind, (mk, badcols, _) in matches(b).items():
        for name, e in badcols[:1]:
            for f in ("select", "where", "orderby"):
                def build(st: State, mk: Any = mk, name: str = name, e: Any = e, f: str = f) -> list:
                    st, m = mk(st)
                    en = NONE
                    if e:
                        st, en = b.new(st, ENTITY, name=const(e[0]), alias=const(e[1]))
                    st, x = b.new(st, COLUMN, name=const(name), entity=en)
                    if f == "where":
                        st, x = b.new(st, COND, lhs=x, op=enum(OP, "EQ"), rhs=const(1))
                    elif f == "orderby":
                        st, x = b.new(st, ORDERBY, exp=x, direction=enum(DIRECTION, "ASC"))
                    kw = fill(ck, st, MIN)
                    kw.update({"match": m, f: b.lst(st, [x])})
                    return I.construct(QUERY, [], kw, st)

                out.append((f"{kind}: unknown column {name} in {f}", None, build))
    # the same with lists of known length, in case only some positions are looked at
    for f in LISTS:
        q = sorted(LISTS[f][2])[0]
        for n in (1, 2, 3, 4, 40, 1100):
            for i in range(n) if n < 5 else (n - 1,):
                def build(st: State, f: str = f, q: str = q, i: int = i, n: int = n) -> list:
                    kw = fill(ck, st, {"select": "one", f: "many"}, (f, q, i, n))
                    kw["match"] = ck.inp("match", ty(ENTITY))
                    return I.construct(QUERY, [], kw, st)

                out.append((f"{f}: element {i + 1} of {n} is invalid", errors_of(ck, q)[0], build))
    return out


def hooks_for(ck: Check, exc: Optional[str]) -> list:
    return [part_hook(ck, sym("bad") if exc else None, exc or ""), no_columns]
