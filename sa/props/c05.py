"""C05: string and bytes literals are escaped wherever they can appear.

Each place a literal can stand is interpreted to the end (no boundary) with an
unconstrained string in it; the text must contain quote ++ escape(string) ++ quote,
where escape is the character homomorphism of the property."""
from __future__ import annotations

from typing import Any, Callable, Optional

from ..framework import Check, Undecided
from ..model import Raised, State
from ..render import *
from ..spec import *
from ..terms import *
from .c06 import visit

TSP, FP = P + "metrics_visitors.TimeseriesMQLPrinter", P + "metrics_visitors.FormulaMQLPrinter"


def build(ck: Check, st: State, q: str, **kw: Any) -> tuple:
    outs = [o for o in ck.I.construct(q, [], kw, st) if not isinstance(o[1], Raised)]
    if len(outs) != 1:
        raise Undecided(f"constructing {q}: {len(outs)} outcomes")
    return outs[0]


def run(ck: Check) -> None:
    I = ck.I
    rd = Renderers(ck)
    where = f"{rd.visit.module.rel}:Translation"
    r = ck.rule("escape", "for every string (or bytes) in this position the text contains the quoted, escaped string and otherwise does not depend on it")

    def text(v: Term, kind: str, mql: bool) -> Term:
        return esc(v if kind == "str" else T("app", "decode", v), mql)

    for mql in (False, True):
        lang = "MQL" if mql else "SnQL"
        for kind in ("str", "bytes"):
            def alone() -> Optional[str]:
                st = ck.fresh()
                x = ck.inp("literal", ty(kind))
                return expect_text(I, visit(ck, rd, x, mql, st=st), text(x, kind, mql))

            ck.ob(r, where, f"a {kind} alone, {lang}", alone)

            def inside(shape: Callable, want: Callable) -> Optional[str]:
                st = ck.fresh()
                I.field_specs = dict(FIELDS)
                x = ck.inp("literal", ty(kind))
                st, n = shape(st, x)
                return expect_text(I, visit(ck, rd, n, mql, hook=False, st=st), want(text(x, kind, mql)))

            for box in ("list", "tuple"):
                a, b = ("[", "]") if mql else (("array(", ")") if box == "list" else ("tuple(", ")"))
                ck.ob(r, where, f"a {kind} in a {box}, {lang}",
                      lambda: inside(lambda st, x: (st, seq(box, one(x))), lambda t: cat(const(a), t, const(b))))
                ck.ob(r, where, f"a {kind} after others in a {box}, {lang}",
                      lambda: inside(lambda st, x: (st, seq(box, one(const(1)), one(NONE), one(x))), lambda t: cat(const(a + "1, NULL, "), t, const(b))))
                ck.ob(r, where, f"a {kind} in a {box} in a {box}, {lang}",
                      lambda: inside(lambda st, x: (st, seq(box, one(seq(box, one(x))))), lambda t: cat(const(a + a), t, const(b + b))))
            if not mql:
                def fparam(st: State, x: Term) -> tuple:
                    return build(ck, st, FUNCTION, function=const("f1"), parameters=seq("list", one(const(2)), one(x)))

                def fnested(st: State, x: Term) -> tuple:
                    st, g = build(ck, st, FUNCTION, function=const("g1"), parameters=seq("tuple", one(x)))
                    return build(ck, st, FUNCTION, function=const("f1"), parameters=seq("list", one(g)))

                def flist(st: State, x: Term) -> tuple:
                    return build(ck, st, FUNCTION, function=const("f1"), parameters=seq("list", one(seq("list", one(x)))))

                def cinit(st: State, x: Term) -> tuple:
                    return build(ck, st, CURRIED, function=const("f1"), initializers=seq("list", one(x)), parameters=seq("list", one(x)))

                def cond(op: str) -> Callable:
                    def f(st: State, x: Term) -> tuple:
                        st, c = build(ck, st, COLUMN, name=const("a"))
                        return build(ck, st, COND, lhs=c, op=enum(OP, op), rhs=x)
                    return f

                def condin(box: str) -> Callable:
                    def f(st: State, x: Term) -> tuple:
                        st, c = build(ck, st, COLUMN, name=const("a"))
                        return build(ck, st, COND, lhs=c, op=enum(OP, "IN"), rhs=seq(box, one(x), one(x)))
                    return f

                def bcond(st: State, x: Term) -> tuple:
                    st, c = cond("EQ")(st, x)
                    return build(ck, st, OR, conditions=seq("list", one(c), one(c)))

                def lam(st: State, x: Term) -> tuple:
                    st, f = fparam(st, x)
                    return build(ck, st, LAMBDA, identifiers=seq("list", one(const("i"))), transformation=f)

                def order(st: State, x: Term) -> tuple:
                    st, f = fparam(st, x)
                    return build(ck, st, ORDERBY, exp=f, direction=enum(DIRECTION, "ASC"))

                ck.ob(r, where, f"a {kind} as function parameter", lambda: inside(fparam, lambda t: cat(const("f1(2, "), t, const(")"))))
                ck.ob(r, where, f"a {kind} in a nested function", lambda: inside(fnested, lambda t: cat(const("f1(g1("), t, const("))"))))
                ck.ob(r, where, f"a {kind} in a list parameter", lambda: inside(flist, lambda t: cat(const("f1(array("), t, const("))"))))
                ck.ob(r, where, f"a {kind} as curried initializer and parameter", lambda: inside(cinit, lambda t: cat(const("f1("), t, const(")("), t, const(")"))))
                for op, s in (("EQ", "="), ("NEQ", "!="), ("GT", ">"), ("LIKE", "LIKE"), ("NOT_LIKE", "NOT LIKE")):
                    ck.ob(r, where, f"a {kind} compared with {s}", lambda: inside(cond(op), lambda t: cat(const(f"a {s} "), t)))
                for box, w in (("list", "array"), ("tuple", "tuple")):
                    ck.ob(r, where, f"a {kind} in an IN {box}", lambda: inside(condin(box), lambda t: cat(const(f"a IN {w}("), t, const(", "), t, const(")"))))
                ck.ob(r, where, f"a {kind} in a boolean condition", lambda: inside(bcond, lambda t: cat(const("(a = "), t, const(" OR a = "), t, const(")"))))
                ck.ob(r, where, f"a {kind} in a lambda", lambda: inside(lam, lambda t: cat(const("(`i`) -> f1(2, "), t, const(")"))))
                ck.ob(r, where, f"a {kind} in an order-by", lambda: inside(order, lambda t: cat(const("f1(2, "), t, const(") ASC"))))
    # MQL: aggregate parameters and filters of timeseries and formulas
    rm = ck.rule("escape-mql", "string literals in aggregate parameters and filters of timeseries and formulas are quoted and escaped")
    for kind in ("str", "bytes"):
        def ts_of(st: State, **kw: Any) -> tuple:
            st, m = build(ck, st, METRIC, mri=const("m"))
            return build(ck, st, TS, metric=m, aggregate=const("agg"), **kw)

        def mql_text(mk: Callable, printer: str, want: Callable) -> Optional[str]:
            st = ck.fresh()
            I.field_specs = dict(FIELDS)
            x = ck.inp("literal", ty(kind))
            st, n = mk(st, x)
            st, p = build(ck, st, printer)
            with ck.depth(8):
                outs = I.call_method(p, "visit", [n], {}, st)
            return expect_text(I, outs, want(text(x, kind, True)))

        def lst(st: State, *xs: Term) -> Term:
            return I.alloc(st, "list", tuple(one(x) for x in xs))

        def ts_params(st: State, x: Term) -> tuple:
            return ts_of(st, aggregate_params=lst(st, const(1), x))

        def condition(st: State, x: Term, op: str = "EQ") -> tuple:
            st, c = build(ck, st, COLUMN, name=const("a"))
            return build(ck, st, COND, lhs=c, op=enum(OP, op), rhs=x)

        def ts_filter(op: str, box: Optional[str] = None, boolean: bool = False) -> Callable:
            def f(st: State, x: Term) -> tuple:
                st, c = condition(st, seq(box, one(x), one(x)) if box else x, op)
                if boolean:
                    st, c = build(ck, st, OR, conditions=seq("list", one(c), one(c)))
                return ts_of(st, filters=lst(st, c))
            return f

        def formula_of(st: State, **kw: Any) -> tuple:
            st, t = ts_of(st)
            return build(ck, st, FORMULA, function_name=const("fn"), parameters=lst(st, t), **kw)

        def fm_params(st: State, x: Term) -> tuple:
            return formula_of(st, aggregate_params=lst(st, const(1), x))

        def fm_filter(st: State, x: Term) -> tuple:
            st, c = condition(st, x)
            return formula_of(st, filters=lst(st, c))

        def fm_inner(st: State, x: Term) -> tuple:
            st, t = ts_params(st, x)
            return build(ck, st, FORMULA, function_name=const("plus"), parameters=lst(st, t, const(2)))

        w = f"{I.cls_by_q(TSP).module.rel}"
        ck.ob(rm, w + ":TimeseriesMQLPrinter", f"{kind} as aggregate parameter", lambda: mql_text(ts_params, TSP, lambda t: cat(const("agg(1, "), t, const(")(m)"))))
        for op, b in (("EQ", ""), ("NEQ", "!"), ("LIKE", ""), ("NOT_LIKE", "!")):
            ck.ob(rm, w + ":TimeseriesMQLPrinter", f"{kind} in a {op} filter", lambda: mql_text(ts_filter(op), TSP, lambda t: cat(const("agg(m){" + b + "a:"), t, const("}"))))
        for op, b in (("IN", ""), ("NOT_IN", "!")):
            for box in ("list", "tuple"):
                ck.ob(rm, w + ":TimeseriesMQLPrinter", f"{kind} in a {box} of a {op} filter",
                      lambda: mql_text(ts_filter(op, box), TSP, lambda t: cat(const("agg(m){" + b + "a:["), t, const(", "), t, const("]}"))))
        ck.ob(rm, w + ":TimeseriesMQLPrinter", f"{kind} in a boolean filter",
              lambda: mql_text(ts_filter("EQ", None, True), TSP, lambda t: cat(const("agg(m){(a:"), t, const(" OR a:"), t, const(")}"))))
        ck.ob(rm, w + ":FormulaMQLPrinter", f"{kind} as aggregate parameter", lambda: mql_text(fm_params, FP, lambda t: cat(const("fn(1, "), t, const(")(agg(m))"))))
        ck.ob(rm, w + ":FormulaMQLPrinter", f"{kind} in a filter", lambda: mql_text(fm_filter, FP, lambda t: cat(const("fn(agg(m)){a:"), t, const("}"))))
        ck.ob(rm, w + ":FormulaMQLPrinter", f"{kind} in a timeseries parameter", lambda: mql_text(fm_inner, FP, lambda t: cat(const("(agg(1, "), t, const(")(m) + 2)"))))
