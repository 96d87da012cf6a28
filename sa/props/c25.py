"""C25: what the MQL printer writes for a parsed object parses back to that object."""
from __future__ import annotations

import re

from ..client import Client
from ..framework import Check
from ..spec import *
from ..terms import *
from .c19 import EXTRA as VIEW
from .c19 import KINDS, Parsing, all_cases, spaced

EXTRA = VIEW + """
from snuba_sdk.metrics_visitors import FormulaMQLPrinter, TimeseriesMQLPrinter
from snuba_sdk.visitors import Translation

def write(x):
    ts = TimeseriesMQLPrinter(Translation(is_mql=True))
    return ts.visit(x) if isinstance(x, Timeseries) else FormulaMQLPrinter(ts).visit(x)

def conj(fs):
    '''The filters of an object, as one flat conjunction'''
    out = []
    for f in fs or []:
        if isinstance(f, BooleanCondition) and f.op == BooleanOp.AND and len(fs) == 1:
            out += [cond(c) for c in f.conditions]
        else:
            out.append(cond(f))
    return out

def flat(x):
    if isinstance(x, Timeseries):
        return ("timeseries", x.metric, x.aggregate, list(x.aggregate_params or []), conj(x.filters), list(x.groupby or []))
    if isinstance(x, Formula):
        return ("formula", x.function_name, [flat(p) for p in x.parameters or []], list(x.aggregate_params or []), conj(x.filters), list(x.groupby or []))
    return x
"""
W = "snuba_sdk/metrics_visitors.py:FormulaMQLPrinter.visit"
#: what the MQL text can carry: values without backslashes and line breaks, MRIs without quoting, numbers written without an exponent
SAFE = {
    **KINDS,
    "R": KINDS["r"],
    # not the name of an arithmetic operator: those are printed as operators
    "f": (r"[a-z][a-z0-9_]*[0-9_]", ["sum_", "p95", "by_1", "or_", "and_x2", "max_2"]),
    "v": (r'[^,\[\]"}{()\s*\\]+', ["v", "or", "and", "a:b", "x-1/y@z", "!x", "1.5", "\u00e9"]),
    "q": (r'[^"\\*\n]*', ["v", "a b", "x, y", ")}]", "", "{(", "a:b or c:d", "'", "5"]),
    "n": (r"[0-9]{1,9}(?:\.[0-9]{1,3})?", ["1", "0.5", "300", "007", "0", "12.250"]),
}

LITERAL = {
    "a string as function argument": 'topk_1(sum(foo), "abc")',
    "a backslash in a value": 'sum(foo){a:"x\\y"}',
    "a line break in a value": 'sum(foo){a:"x\ny"}',
    "a number of 23 digits": "sum(foo) * 10000000000000000000000",
    "a negation with two arguments": "negate(sum(foo), sum(bar))",
    "a quoted MRI with a space": "sum(`d:a/b c@d`)",
    "an escaped quote in a value": 'sum(foo){a:"x\\"y"}',
    "an escaped quote in a list": 'sum(foo){a:["\\"", x]}',
    "an operator in prefix form": "plus(sum(foo), 1)",
    "a negation": "-sum(foo)",
    "a negation of a sum": "-(sum(foo) + 1)",
    "a filtered negation": "(-sum(foo)){a:v}",
    "a grouped negation": "(-sum(foo)) by g",
    "a filtered and grouped negation of a sum": "(-(sum(foo) + 1)){a:v} by (g, h)",
    "a filtered negation in a sum": "1 + (-sum(foo){a:v}){b:w} / 2",
    "a negation of something filtered": "-sum(foo){a:v} by g",
    "a tag key that is a keyword": "sum(foo){by:1} by by",
    "a wildcard after white space": 'sum(foo){a:"x y*"}',
    "a wildcard in a list": 'sum(foo){a:["x*", y]}',
    "a quoted number": 'f(5, "5")(foo)',
    "three levels": "(sum(foo) / (sum(bar) - 2)){a:1 OR b:[x,y]} by (p, q)",
}


def run(ck: Check) -> None:
    I = ck.I
    I.field_specs = dict(FIELDS)
    cl = Client(ck, EXTRA, depth=400)
    ps = Parsing(ck, cl, SAFE, r"[0-9]+\.[0-9]+")
    full = ck.tier == "thorough"
    r = ck.rule("round trip", "parsing the MQL text printed for a parsed object yields that object (top-level filters compared as a conjunction)")
    cases = {n: c for n, c in all_cases(full).items() if not n.startswith("bare") and "bare metric" not in n and "a string" not in n}
    for i, (label, (t, want)) in enumerate(cases.items()):
        for k in range(8) if full else (i % 8,):
            ck.ob(r, W, f"{label} (representatives {k})", lambda: ps.compare(spaced(t, 0), k, "flat(parse_mql(write(parse_mql(mql))))", f"flat({want})"))
    # texts outside the languages above: literal, one each
    for label, text in LITERAL.items():
        ck.ob(r, W, label, lambda: ps.compare(text, 0, "flat(parse_mql(write(parse_mql(mql))))", "flat(parse_mql(mql))"))
