from __future__ import annotations

from typing import Any, Optional

from ..framework import Check, Undecided, expect_accept, expect_raise, is_sdk_error, stub, taint
from ..model import Raised, State
from ..spec import *
from ..terms import EMPTY, NONE, T, Term, const, one, seq, show, spread, sym
from .construct import METRIC_CTORS, Arg, Ctor, DONTCARE_SEQ, type_obligations

GRANS = (10, 60, 3600, 86400)


def rollup(ck: Check) -> None:
    r = ck.rule("rollup", "a rollup is accepted exactly when its granularity is an allowed one or absent, its interval is at least 10 and at least the granularity, it has an interval or totals, and it is not ordered together with an interval")
    ct = Ctor(ck, ROLLUP, {})
    anyint = lambda lo, hi: ty("int", num=(lo, True, hi, True))

    def case(name: str, exp: Any, **specs: Any) -> None:
        def f() -> Optional[str]:
            st = ct.setup()
            kw = {n: (ck.inp(n, v) if not isinstance(v, Term) else v) for n, v in specs.items()}
            return exp(ck.I, ck.I.construct(ROLLUP, [], kw, st))

        ck.ob(r, ct.where, name, f)

    case("granularity of another type, interval given", expect_raise, granularity=ty(ck.I.universe - {"NoneType", "int", "bool", "float"}), interval=anyint(86400, None))
    case("granularity of another type, totals given", expect_raise, granularity=ty(ck.I.universe - {"NoneType", "int", "bool", "float"}), totals=ty("bool"))
    edges = [None] + list(GRANS) + [None]
    for a, b in zip(edges, edges[1:]):
        lo, hi = (None if a is None else a + 1), (None if b is None else b - 1)
        case(f"granularity from {lo} to {hi}, totals given", expect_raise, granularity=anyint(lo, hi), totals=ty("bool"))
        case(f"granularity from {lo} to {hi}, interval given", expect_raise, granularity=anyint(lo, hi), interval=anyint(86400, None))
    for g in (0, 1, 9, 11, 59, 61):
        case(f"granularity {g}", expect_raise, granularity=const(g), interval=anyint(86400, None))
    for g in GRANS:
        case(f"granularity {g}, interval at least that", expect_accept, granularity=const(g), interval=anyint(g, None))
        case(f"granularity {g}, interval below it", expect_raise, granularity=const(g), interval=anyint(None, g - 1))
        case(f"granularity {g}, totals, any direction", expect_accept, granularity=const(g), totals=ty("bool"), orderby=ty("NoneType", DIRECTION))
        case(f"granularity {g}, interval and totals", expect_accept, granularity=const(g), interval=anyint(g, None), totals=ty("bool"))
    case("interval at least 10, no granularity", expect_accept, interval=anyint(10, None))
    case("interval below 10", expect_raise, interval=anyint(None, 9), totals=ty("NoneType", "bool"))
    case("neither interval nor totals", expect_raise, orderby=ty("NoneType", DIRECTION), granularity=ty("NoneType", "int", oneof=[const(g) for g in GRANS] + [NONE]))
    case("interval and a direction", expect_raise, interval=anyint(10, None), orderby=ty(DIRECTION), totals=ty("NoneType", "bool"))
    case("direction of another type", expect_raise, totals=ty("bool"), orderby=ty(ck.I.universe - {"NoneType", DIRECTION}))
    case("totals of another type", expect_raise, interval=anyint(10, None), totals=ty(ck.I.universe - {"NoneType", "bool"}))
    case("interval of another type", expect_raise, interval=ty(ck.I.universe - {"NoneType", "bool", "int"}), totals=ty("NoneType", "bool"))


def metric(ck: Check) -> None:
    r = ck.rule("metric-name", "a metric needs a public name or an MRI")
    ct = Ctor(ck, METRIC, {})

    def f(exp: Any, **kw: Any) -> Optional[str]:
        st = ct.setup()
        return exp(ck.I, ck.I.construct(METRIC, [], {n: ck.inp(n, v) for n, v in kw.items()}, st))

    ck.ob(r, ct.where, "neither", lambda: f(expect_raise, public_name=ty("NoneType"), mri=ty("NoneType"), id=ty("NoneType", "int")))
    ck.ob(r, ct.where, "public name only", lambda: f(expect_accept, public_name=STR, id=ty("NoneType", "int")))
    ck.ob(r, ct.where, "MRI only", lambda: f(expect_accept, mri=STR, id=ty("NoneType", "int")))


def context(ck: Check) -> None:
    r = ck.rule("context", "an MQL context cannot be constructed without start, end, rollup, scope and indexer mappings")
    ct = Ctor(ck, MQLCTX, {})
    req = ["start", "end", "rollup", "scope", "indexer_mappings"]
    specs = dict(start=STR, end=STR, rollup=ty("dict"), scope=ty("dict"), indexer_mappings=ty("dict"),
                 limit=ty("NoneType", "int"), offset=ty("NoneType", "int"), extrapolate=ty("NoneType", "bool"))

    def f(missing: Optional[str]) -> Optional[str]:
        st = ct.setup()
        kw = {n: (NONE if n == missing else ck.inp(n, s)) for n, s in specs.items()}
        return (expect_raise if missing else expect_accept)(ck.I, ck.I.construct(MQLCTX, [], kw, st))

    ck.ob(r, ct.where, "all parts given", lambda: f(None))
    for n in req:
        ck.ob(r, ct.where, f"{n} is None", lambda: f(n))


MQ = dict(query=ty(TS, FORMULA), start=ty("datetime"), end=ty("datetime"), rollup=ty(ROLLUP), scope=ty(SCOPE),
          limit=ty("NoneType", LIMIT), offset=ty("NoneType", OFFSET), extrapolate=ty("NoneType", EXTRA), indexer_mappings=ty("NoneType", "dict"))
PART_CLASSES = {"query": (TS, FORMULA), "rollup": (ROLLUP,), "scope": (SCOPE,), "limit": (LIMIT,), "offset": (OFFSET,), "extrapolate": (EXTRA,)}


def metrics_query(ck: Check) -> None:
    I = ck.I
    fi = I.method(MQUERY, "validate")
    where = f"{fi.module.rel}:MetricsQuery.validate"
    r = ck.rule("query-parts", "a metrics query validates only when every required part is present and every part has the right type, whatever the other parts are")
    rv = ck.rule("query-part-valid", "validating a metrics query validates each part it holds and propagates the failure")
    vq = {q: I.method(q, "validate").q for q in (TS, FORMULA, ROLLUP, SCOPE, LIMIT, OFFSET, EXTRA)}

    def run(over: dict, hooks: tuple = (), gran: Any = None) -> list:
        st = ck.fresh()
        I.field_specs = dict(FIELDS)
        kw = {n: over[n] if isinstance(over.get(n), Term) else ck.inp(n, over.get(n, s)) for n, s in MQ.items()}
        g = T("attr", kw["rollup"], "granularity")
        if gran is not None:
            st.types[g] = frozenset(gran)
        outs = []
        with ck.hooked(*hooks):
            for s, v in I.construct(MQUERY, [], kw, st):
                outs += [(s, v)] if isinstance(v, Raised) else I.call_method(v, "validate", [], {}, s)
        return outs

    ok = tuple(stub(q, NONE) for q in vq.values())
    ck.ob(r, where, "all parts of the right type and valid", lambda: expect_accept(I, run({}, ok, gran=["int"])))
    for n, s in MQ.items():
        if n == "query":
            bad = I.universe - s.atoms - {"str"}
        else:
            bad = I.universe - s.atoms
        ck.ob(r, where, f"{n} missing or of another type", lambda: expect_raise(I, run({n: ty(bad)}, ok, gran=["int"])))
    ck.ob(r, where, "rollup without a granularity", lambda: expect_raise(I, run({}, ok, gran=["NoneType"])))
    for n, classes in PART_CLASSES.items():
        for c in classes:
            def fail(I_: Any, f_: Any, a: list, k: dict, s: State, c: str = c, n: str = n) -> Any:
                if f_.q in vq.values() and a and I.freeze(s, a[0]) is sym(n):
                    return [(s, Raised("snuba_sdk.probe.PartInvalid", f_.q))]
                return None

            ck.ob(rv, where, f"{n} is an invalid {c.rsplit('.', 1)[-1]}",
                  lambda: expect_raise(I, run({n: ty(c)}, (fail,) + ok, gran=["int"])))
    # an MQL string: parsed, the parsed object validated, and any failure to parse is the SDK's error
    pm = I.module_value("snuba_sdk.mql.mql", "parse_mql")
    pq = pm.a[0].q

    def with_parse(res: Any, extra: tuple = ()) -> list:
        def h(I_: Any, f_: Any, a: list, k: dict, s: State) -> Any:
            if f_.q == pq:
                if isinstance(res, Raised):
                    return [(s, res)]
                return [(s, ck.inp("parsed", ty(TS, FORMULA)))]
            return None

        return run({"query": STR}, (h,) + extra + ok, gran=["int"])

    def failp(I_: Any, f_: Any, a: list, k: dict, s: State) -> Any:
        if f_.q in vq.values() and a and I.freeze(s, a[0]) is sym("parsed"):
            return [(s, Raised("snuba_sdk.probe.PartInvalid", f_.q))]
        return None

    ck.ob(r, where, "query is an MQL string that parses", lambda: expect_accept(I, with_parse(None)))
    ck.ob(r, where, "query is a string outside the MQL grammar", lambda: expect_raise(I, with_parse(Raised("snuba_sdk.mql.mql.InvalidMQLQueryError", "parse_mql"))))
    ck.ob(rv, where, "query is an MQL string that parses to an invalid object", lambda: expect_raise(I, with_parse(None, (failp,))))


def formula(ck: Check) -> None:
    I = ck.I
    fi = I.method(FORMULA, "validate")
    where = f"{fi.module.rel}:Formula.validate"
    r = ck.rule("formula", "a formula validates only with parameters of permitted type, a timeseries among them and one consistent group-by")

    def check(exp: Any, build: Any) -> Optional[str]:
        st = ck.fresh()
        I.field_specs = dict(FIELDS)
        outs = []
        for s, v in build(st):
            outs += [(s, v)] if isinstance(v, Raised) else I.call_method(v, "validate", [], {}, s)
        return exp(I, outs)

    def mk(st: State, **kw: Any) -> list:
        kw = {n: (ck.inp(n, v) if not isinstance(v, Term) else v) for n, v in kw.items()}
        kw.setdefault("function_name", ck.inp("function_name", STR))
        kw.setdefault("aggregate_params", ck.inp("aggregate_params", ty("NoneType", "list", elem=ty(LITERAL))))
        kw.setdefault("filters", ck.inp("filters", ty("NoneType", "list", elem=ty(CONDS))))
        return I.construct(FORMULA, [], kw, st)

    notstr = ty(I.universe - {"str"})
    ck.ob(r, where, "function name of another type", lambda: check(expect_raise, lambda st: mk(st, function_name=notstr)))
    ck.ob(r, where, "no parameters", lambda: check(expect_raise, lambda st: mk(st, parameters=NONE)))
    ck.ob(r, where, "parameters of another type", lambda: check(expect_raise, lambda st: mk(st, parameters=ty(I.universe - {"list", "tuple"} - {"NoneType", "str", "bytes", "otherseq", "other"}))))
    ok = ty(FORMULA, TS, "int", "float")
    bad = ty(I.universe - {FORMULA, TS, "int", "float", "bool"})
    for kind in ("list", "tuple"):
        def shape(st: State) -> Term:
            return seq(kind, spread(ck.inp("before", ty("list", elem=ok))), one(ck.inp("bad", bad)), spread(ck.inp("after", ty("list", elem=ok))))

        ck.ob(r, where, f"{kind} with one parameter of another type", lambda: check(expect_raise, lambda st: mk(st, parameters=shape(st))))
        ck.ob(r, where, f"empty {kind}", lambda: check(expect_raise, lambda st: mk(st, parameters=seq(kind))))
        ck.ob(r, where, f"{kind} of numbers only", lambda: check(expect_raise, lambda st: mk(st, parameters=seq(kind, one(ck.inp("a", ty("int", "float"))), one(ck.inp("b", ty("int", "float")))), groupby=NONE)))

    def col(st: State, name: str) -> tuple:
        (s, v), = [o for o in I.construct(COLUMN, [], {"name": const(name)}, st) if not isinstance(o[1], Raised)]
        return s, v

    def ts(st: State, name: str, gb: Any) -> tuple:
        """A timeseries whose group-by is None or a list of the named columns."""
        groupby: Term = NONE
        if gb is not None:
            cols = []
            for g in gb:
                st, c = col(st, g)
                cols.append(c)
            groupby = I.alloc(st, "list", tuple(one(c) for c in cols))
        kw = {"metric": ck.inp(name + ".metric", ty(METRIC)), "aggregate": ck.inp(name + ".aggregate", STR), "groupby": groupby}
        st.types[T("attr", kw["metric"], "mri")] = frozenset(["str"])
        outs = [o for o in I.construct(TS, [], kw, st) if not isinstance(o[1], Raised)]
        if len(outs) != 1:
            raise Undecided("timeseries construction")
        return outs[0]

    def nest(st: State, spec: Any, name: str) -> tuple:
        """spec: ('ts', groupby) | ('f', groupby, [specs]) | number"""
        if not isinstance(spec, tuple):
            return st, const(spec)
        if spec[0] == "ts":
            return ts(st, name, spec[1])
        gb: Term = NONE
        if spec[1] is not None:
            cols = []
            for g in spec[1]:
                st, c = col(st, g)
                cols.append(c)
            gb = I.alloc(st, "list", tuple(one(c) for c in cols))
        ps = []
        for i, x in enumerate(spec[2]):
            st, v = nest(st, x, f"{name}.{i}")
            ps.append(v)
        outs = [o for o in I.construct(FORMULA, [], {"function_name": const("plus"), "parameters": seq("list", *[one(p) for p in ps]), "groupby": gb}, st)]
        if len(outs) != 1 or isinstance(outs[0][1], Raised):
            raise Undecided("formula construction")
        return outs[0]

    A, B = ["a"], ["b"]
    t = lambda gb=None: ("ts", gb)
    f = lambda gb, *ps: ("f", gb, list(ps))
    good = {
        "one timeseries": f(None, t()), "timeseries and number": f(None, t(), 5), "number and timeseries": f(None, 5, t()),
        "same group-by twice": f(None, t(A), t(A)), "group-by on the formula and a timeseries": f(A, t(A)), "one side grouped": f(None, t(), t(A)),
        "nested formula": f(None, f(None, t()), 1), "nested formula, same group-by": f(None, f(A, t(A)), t(A)),
        "two columns": f(None, t(["a", "b"]), t(["a", "b"])), "three levels": f(None, f(None, f(None, t(A))), 2),
    }
    wrong = {
        "different group-bys": f(None, t(A), t(B)), "different group-bys, later parameter": f(None, t(A), t(A), t(B)),
        "formula against timeseries": f(A, t(B)), "nested formula against timeseries": f(None, f(A, t()), t(B)),
        "two nested formulas": f(None, f(None, t(A)), f(None, t(B))), "two levels down": f(None, f(None, f(None, t(A))), t(B)),
        "subset of the columns": f(None, t(["a", "b"]), t(A)), "nested numbers only": f(None, f(None, 1, 2), 3),
        "different group-bys around a number": f(None, t(A), 3, t(B)),
    }
    for d, exp, word in ((good, expect_accept, "valid"), (wrong, expect_raise, "invalid")):
        for n, sp in d.items():
            ck.ob(r, where, f"{word}: {n}", lambda: check(exp, lambda st: [nest(st, sp, "p")]))


def run(ck: Check) -> None:
    table = {q: a for q, a in METRIC_CTORS.items() if q != ROLLUP}
    type_obligations(ck, table, "")
    rollup(ck)
    metric(ck)
    context(ck)
    metrics_query(ck)
    formula(ck)
