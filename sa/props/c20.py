"""C20: the operator tables of the SnQL printer, the MQL parser, the MQL printer and the legacy converter agree."""
from __future__ import annotations

from itertools import product
from typing import Any

from ..client import Client, Expect
from ..framework import Check, expect_raise, is_sdk_error
from ..model import Raised
from ..spec import *
from ..terms import *
from .c19 import EXTRA as VIEW

SYMBOLS = {"GT": ">", "LT": "<", "GTE": ">=", "LTE": "<=", "EQ": "=", "NEQ": "!=", "IN": "IN", "NOT_IN": "NOT IN", "LIKE": "LIKE", "NOT_LIKE": "NOT LIKE",
           "IS_NULL": "IS NULL", "IS_NOT_NULL": "IS NOT NULL"}
FUNCTIONS = {"GT": "greater", "LT": "less", "GTE": "greaterOrEquals", "LTE": "lessOrEquals", "EQ": "equals", "NEQ": "notEquals", "IN": "in", "NOT_IN": "notIn",
             "LIKE": "like", "NOT_LIKE": "notLike", "IS_NULL": "isNull", "IS_NOT_NULL": "isNotNull"}
UNARY = ("IS_NULL", "IS_NOT_NULL")
INFIX = {"+": "plus", "-": "minus", "*": "multiply", "/": "divide"}
EXTRA = VIEW + """
from snuba_sdk.conditions import OPERATOR_TO_FUNCTION, ConditionFunction, is_unary
from snuba_sdk.formula import PREFIX_ALIASES, PREFIX_TO_INFIX, ArithmeticOperator
from snuba_sdk.metrics_visitors import FormulaMQLPrinter, TimeseriesMQLPrinter
from snuba_sdk.visitors import Translation

def write(x):
    ts = TimeseriesMQLPrinter(Translation(is_mql=True))
    return ts.visit(x) if isinstance(x, Timeseries) else FormulaMQLPrinter(ts).visit(x)

A = Timeseries(Metric(public_name="foo"), "sum")
B = Timeseries(Metric(public_name="bar"), "max")
"""
PUNCT = "!\"#$%&'*+,-./:;<=>?@[\\]^_`{|}~"


def run(ck: Check) -> None:
    I = ck.I
    I.field_specs = dict(FIELDS)
    cl = Client(ck, EXTRA, depth=200)
    full = ck.tier == "thorough"
    rs = ck.rule("symbols", "a condition operator has its documented symbol, prints as it and is found by it; no two operators share one")
    rf = ck.rule("functions", "a condition operator corresponds to the condition function of the same meaning")
    ra = ck.rule("arithmetic", "an arithmetic operator that the parser reads is printed back as the same symbol with the same operands")
    rt = ck.rule("tables", "the operators known to the parser and to the printer are the same")
    C, V, M, F = "snuba_sdk/conditions.py:Op", "snuba_sdk/visitors.py:Translation._visit_condition", "snuba_sdk/mql/mql.py:parse_mql", "snuba_sdk/metrics_visitors.py:FormulaMQLPrinter.visit"
    es, ef, ea, et = (Expect(ck, cl, r) for r in (rs, rf, ra, rt))
    # ---- conditions
    for op, sy in SYMBOLS.items():
        es.eq(C, f"value of Op.{op}", "", f"Op.{op}.value", repr(sy))
        es.eq(C, f"Op({sy!r})", "", f"Op({sy!r})", f"Op.{op}")
        rhs, lit = ("[1, 2]", "tuple(1, 2)") if op in ("IN", "NOT_IN") else ("'x'", "'x'") if "LIKE" in op else ("5", "5")
        if op in UNARY:
            es.eq(V, f"text of Op.{op}", "", f"Translation().visit(Condition(Column('a'), Op.{op}))", repr(f"a {sy}"))
            es.eq(V, f"text of Op.{op} on a function", "", f"Translation().visit(Condition(Function('count', [Column('a')]), Op.{op}))", repr(f"count(a) {sy}"))
        else:
            if op in ("IN", "NOT_IN"):
                lit = "array(1, 2)"
            es.eq(V, f"text of Op.{op}", "", f"Translation().visit(Condition(Column('a'), Op.{op}, {rhs}))", repr(f"a {sy} {lit}"))
            es.eq(V, f"text of Op.{op} on columns", "", f"Translation().visit(Condition(Function('count', [Column('a')]), Op.{op}, Column('b')))", repr(f"count(a) {sy} b"))
        ef.eq(C, f"arity of Op.{op}", "", f"is_unary(Op.{op})", str(op in UNARY))
        ef.eq(C, f"function of Op.{op}", "", f"OPERATOR_TO_FUNCTION[Op.{op}].value", repr(FUNCTIONS[op]))
        ef.eq(C, f"function named like Op.{op}", "", f"ConditionFunction.{op}.value", repr(FUNCTIONS[op]))
    es.eq(C, "operators with a symbol of their own", "", "len({o.value for o in Op})", "len(list(Op))")
    ef.eq(C, "functions with a name of their own", "", "len({f.value for f in ConditionFunction})", "len(list(ConditionFunction))")
    ef.eq(C, "operators with a function of their own", "", "len({f for f in OPERATOR_TO_FUNCTION.values()})", "len(OPERATOR_TO_FUNCTION)")
    ef.eq(C, "operators with a function", "", "[o for o in Op if o not in OPERATOR_TO_FUNCTION and o is not Op.NOT]", "[]")
    for op in ("AND", "OR"):
        es.eq(V, f"text of BooleanOp.{op}", "", f"Translation().visit(BooleanCondition(BooleanOp.{op}, [Condition(Column('a'), Op.EQ, 1), Condition(Column('b'), Op.EQ, 2)]))",
              repr(f"(a = 1 {op} b = 2)"))
        es.eq("snuba_sdk/conditions.py:BooleanOp", f"operator of {op.title()}", "", f"{op.title()}([Condition(Column('a'), Op.EQ, 1), Condition(Column('b'), Op.EQ, 1)]).op", f"BooleanOp.{op}")
    for d in ("ASC", "DESC"):
        es.eq("snuba_sdk/visitors.py:Translation._visit_orderby", f"text of Direction.{d}", "", f"Translation().visit(OrderBy(Column('a'), Direction.{d}))", repr(f"a {d}"))
        es.eq("snuba_sdk/orderby.py:Direction", f"Direction({d!r})", "", f"Direction({d!r})", f"Direction.{d}")
    # ---- arithmetic, from the text
    for sy, name in INFIX.items():
        ea.eq(M, f"{sy} read", "", f"view(parse_mql('sum(foo) {sy} max(bar)'))", f"view(Formula({name!r}, [A, B]))")
        ea.eq(F, f"{sy} read and printed", "", f"write(parse_mql('sum(foo) {sy} max(bar)'))", repr(f"(sum(foo) {sy} max(bar))"))
        ea.eq(F, f"{sy} with a number", "", f"write(parse_mql('sum(foo) {sy} 2'))", repr(f"(sum(foo) {sy} 2.0)"))
        ea.eq(F, f"{sy} printed", "", f"write(Formula({name!r}, [A, B]))", repr(f"(sum(foo) {sy} max(bar))"))
        ea.eq(F, f"{sy} of three printed", "", f"write(Formula({name!r}, [A, B, 3]))", repr(f"(sum(foo) {sy} max(bar) {sy} 3)"))
        ea.eq(F, f"{sy} by its enum", "", f"write(Formula(ArithmeticOperator.{name.upper()}.value, [A, B]))", repr(f"(sum(foo) {sy} max(bar))"))
        for sy2, name2 in INFIX.items():
            ea.eq(F, f"{sy} of {sy2}", "", f"write(parse_mql('sum(foo) {sy} (max(bar) {sy2} 3)'))", repr(f"(sum(foo) {sy} (max(bar) {sy2} 3.0))"))
    ea.eq(M, "unary - read", "", "view(parse_mql('-sum(foo)'))", "view(Formula('negate', [A]))")
    ea.eq(F, "unary - printed", "", "write(Formula('negate', [A]))", repr("-(sum(foo))"))
    ea.eq(F, "unary - read and printed", "", "write(parse_mql('-sum(foo)'))", repr("-(sum(foo))"))
    ea.eq(F, "unary - of a sum", "", "write(parse_mql('-(sum(foo) + max(bar))'))", repr("-((sum(foo) + max(bar)))"))
    # ---- completeness, from the tables
    et.eq(F, "operators of the enum printed and read back", "", "[view(parse_mql(write(Formula(o.value, [A, B])))) for o in ArithmeticOperator]",
          "[view(Formula(o.value, [A, B])) for o in ArithmeticOperator]")
    et.eq(F, "operators of the enum with a symbol", "", "sorted(o.value for o in ArithmeticOperator)", "sorted(PREFIX_TO_INFIX)")
    et.eq(F, "operators of the infix table printed and read back", "", "[view(parse_mql(write(Formula(n, [A, B])))) for n in PREFIX_TO_INFIX]",
          "[view(Formula(n, [A, B])) for n in PREFIX_TO_INFIX]")
    et.eq(F, "operators of the prefix table printed and read back", "", "[view(parse_mql(write(Formula(n, [A])))) for n in PREFIX_ALIASES]",
          "[view(Formula(n, [A])) for n in PREFIX_ALIASES]")
    et.eq(F, "symbols of the infix table", "", "len(set(PREFIX_TO_INFIX.values()))", "len(PREFIX_TO_INFIX)")
    # ---- whatever else the parser might take for an operator
    words = [a for a in PUNCT] + [a + b for a, b in product("*/+-%^<>=!&|", repeat=2)] + ["mod", "div", "plus", "x", "%%", "minus"]

    def closed(text: str, same: str) -> Any:
        outs = cl.value(f"write(parse_mql({text!r}))", cl.start())
        for s, v in outs:
            if isinstance(v, Raised):
                if not is_sdk_error(v.exc):
                    return f"{text!r} raises {v.exc} at {v.where}"
            else:
                got = I.freeze(s, v)
                if got.k == "const" and cval(got) not in (same,):
                    # is it read as something other than an operator?
                    back = cl.value(f"view(parse_mql(write(parse_mql({text!r}))))", cl.start())
                    first = cl.value(f"view(parse_mql({text!r}))", cl.start())
                    if any(isinstance(v2, Raised) for _, v2 in back) or I.freeze(*back[0]) is not I.freeze(*first[0]):
                        return f"{text!r} is printed as {cval(got)!r}"
        return None

    for w in words:
        ck.ob(rt, M, f"the text {w!r} between two aggregates", lambda: closed(f"sum(foo) {w} max(bar)", f"(sum(foo) {w} max(bar))"))
        ck.ob(rt, M, f"the text {w!r} before an aggregate", lambda: closed(f"{w}sum(foo)", f"{w}(sum(foo))"))
