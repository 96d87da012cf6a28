"""C17: the MQL text of timeseries, formulas and filters."""
from __future__ import annotations

from itertools import product
from typing import Any

from ..client import Client, Expect
from ..framework import Check, stub
from ..spec import *
from ..terms import *

DT = ty("datetime")
MQ = "mq = MetricsQuery({}, t0, t1, Rollup(interval=60, granularity=60), MetricsScope([1], [2], 'u'), indexer_mappings={{}})\n"
W = "snuba_sdk/metrics_query.py:MetricsQuery.serialize"
# the oracle: how a literal and a filter are written in MQL
ORACLE = r'''
def LIT(v):
    if v is None:
        return "NULL"
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, str):
        return '"' + v.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n") + '"'
    if isinstance(v, (list, tuple)):
        return "[" + ", ".join([LIT(x) for x in v]) + "]"
    return f"{v}"
'''
POSITIVE, NEGATIVE = ["EQ", "IN", "LIKE"], ["NEQ", "NOT_IN", "NOT_LIKE"]
OTHER = ["GT", "GTE", "LT", "LTE", "IS_NULL", "IS_NOT_NULL"]
INFIX = {"plus": "+", "minus": "-", "multiply": "*", "divide": "/"}


class Gen:
    """Filters as (source, expression for the expected text)."""

    def cond(self, op: str, i: Any, value: str = "") -> tuple:
        v = value or (f"[v{i}, w{i}]" if op in ("IN", "NOT_IN") else f"v{i}")
        neg = "!" if op in NEGATIVE else ""
        return f"Condition(Column('k{i}'), Op.{op}, {v})", f"'{neg}k{i}:' + LIT({v})"

    def boolean(self, op: str, *parts: tuple) -> tuple:
        src = f"{op}([{', '.join(p[0] for p in parts)}])"
        return src, "'(' + " + f" + ' {op.upper()} ' + ".join(p[1] for p in parts) + " + ')'"

    def braces(self, parts: list) -> tuple:
        return f"[{', '.join(p[0] for p in parts)}]", "'{' + " + " + ' AND ' + ".join(p[1] for p in parts) + " + '}'"


def run(ck: Check) -> None:
    I = ck.I
    I.field_specs = dict(FIELDS)
    cl = Client(ck, ORACLE)
    full = ck.tier == "thorough"
    r1 = ck.rule("timeseries", "metric, aggregate with parameters, filters and group-by of a timeseries are all printed, in MQL order")
    r2 = ck.rule("formula", "every parameter in order, operator or function, aggregate parameters, filters and group-by of a formula are printed")
    r3 = ck.rule("filters", "filters are printed as key:value with a leading ! exactly for negations, booleans in parentheses with their own operator")
    r4 = ck.rule("reject", "an operator or a function operand that MQL filters cannot express is rejected")
    val = stub(I.method(MQUERY, "validate").q, NONE)
    E = {r: Expect(ck, cl, r, [val]) for r in (r1, r2, r3, r4)}
    ts = {"t0": DT, "t1": DT}
    g = Gen()
    strs = {f"{x}{i}": STR for i in range(6) for x in "vw"}

    def inputs(*srcs: str) -> dict:
        text = " ".join(srcs)
        import re
        names = set(re.findall(r"\b[a-z]+[0-9]*\b", text))
        out = {n: v for n, v in {**strs, **EXTRA}.items() if n in names}
        return {**out, **ts}

    EXTRA = {"m0": STR, "m1": STR, "m2": STR, "a0": NAME, "a1": NAME, "a2": NAME, "p0": ty("int", "float", "str"), "p1": ty("int", "float", "str"),
             "n0": ty("int", "float"), "n1": ty("int", "float"), "x0": ty("NoneType", "bool", "int", "float", "str"), "fn": NAME, "lst": seq_of(STR, "list")}

    def eq(rule: str, label: str, obj: str, want: str) -> None:
        E[rule].eq(W, label, MQ.format(obj), "mq.serialize()['mql']", want, **inputs(obj, want))

    def rej(label: str, obj: str) -> None:
        E[r4].raises(W, label, MQ.format(obj), "mq.serialize()['mql']", **inputs(obj))

    # ---- timeseries
    metrics = {"public name": ("Metric(m0)", "m0"), "MRI": ("Metric(mri=m0)", "m0"), "both": ("Metric('pub', m0)", "m0"), "all": ("Metric('pub', m0, 5)", "m0"),
               "name and id": ("Metric(m0, id=3)", "m0")}
    aggs = {"no parameters": ("None", "''"), "one parameter": ("[p0]", "'(' + LIT(p0) + ')'"), "two parameters": ("[p0, p1]", "'(' + LIT(p0) + ', ' + LIT(p1) + ')'"),
            "falsy parameters": ("[0, '', 0.0]", "'(0, \"\", 0.0)'"), "a false parameter": ("[False, None]", "'(FALSE, NULL)'"),
            "three": ("[1, 'a', 0.5]", "'(1, \"a\", 0.5)'")}
    f1, f2, f3 = g.cond("EQ", 0), g.cond("NOT_LIKE", 1), g.boolean("Or", g.cond("EQ", 2), g.cond("NEQ", 3))
    filts = {"no filters": ("None", "''"), "one filter": g.braces([f1]), "two filters": g.braces([f1, f2]), "three filters": g.braces([f3, f2, f1])}
    groups = {"no group-by": ("None", "''"), "one group": ("[Column('g')]", "' by (g)'"), "two groups": ("[Column('g'), Column('tags[h]')]", "' by (g, tags[h])'"),
              "an alias": ("[AliasedExpression(Column('g'), 'al'), Column('h')]", "' by (g AS `al`, h)'")}
    for mn, (ms, mw) in metrics.items():
        eq(r1, f"{mn}", f"Timeseries({ms}, a0)", f"a0 + '(' + {mw} + ')'")
    for (an, (as_, aw)), (fn, (fs, fw)), (gn, (gs, gw)) in product(aggs.items(), filts.items(), groups.items()):
        eq(r1, f"{an}, {fn}, {gn}", f"Timeseries(Metric(m0), a0, {as_}, {fs}, {gs})", f"a0 + {aw} + '(' + m0 + ')' + {fw} + {gw}")
    for n in (17, 130):
        cs = [g.cond("EQ", f"_{i}", f"'s{i}'") for i in range(n)]
        fs, fw = g.braces(cs)
        gs, gw = "[" + ", ".join(f"Column('g{i}')" for i in range(n)) + "]", "' by (" + ", ".join(f"g{i}" for i in range(n)) + ")'"
        ps, pw = str(list(range(n))), "'(" + ", ".join(map(str, range(n))) + ")'"
        eq(r1, f"{n} of everything", f"Timeseries(Metric(m0), a0, {ps}, {fs}, {gs})", f"a0 + {pw} + '(' + m0 + ')' + {fw} + {gw}")
        for b in ("And", "Or"):
            bs, bw = g.braces([g.boolean(b, *cs)])
            eq(r3, f"{b} of {n}", f"Timeseries(Metric(m0), a0, None, {bs})", f"a0 + '(' + m0 + ')' + {bw}")
        for op in ("EQ", "NEQ", "IN", "NOT_IN"):
            bs, bw = g.braces([g.cond(op, 0, str([f"v{i}" for i in range(n)]))])
            eq(r3, f"{op} of {n} values", f"Timeseries(Metric(m0), a0, None, {bs})", f"a0 + '(' + m0 + ')' + {bw}")
        ops_, opw = ", ".join(f"Timeseries(Metric('m{i}'), 'sum')" for i in range(n)), ", ".join(f"sum(m{i})" for i in range(n))
        eq(r2, f"a function of {n}, {n} of everything", f"Formula('fx', [{ops_}], {ps}, {fs}, {gs})", f"'fx' + {pw} + '({opw})' + {fw} + {gw}")
        for o, sym_ in INFIX.items():
            eq(r2, f"{o} of {n}", f"Formula('{o}', [{ops_}], None, {fs}, {gs})", "'(" + opw.replace(", ", f" {sym_} ") + f")' + {fw} + {gw}")
    # ---- formulas
    T1, T2 = ("Timeseries(Metric(m0), a0)", "a0 + '(' + m0 + ')'"), ("Timeseries(Metric(m1), a1, [p0], [" + f1[0] + "])", "a1 + '(' + LIT(p0) + ')(' + m1 + '){' + " + f1[1] + " + '}'")
    NUM = ("n0", "f'{n0}'")
    K0, K25 = ("0", "'0'"), ("2.5", "'2.5'")

    def infix(op: str, *ps: tuple) -> tuple:
        return f"Formula('{op}', [{', '.join(p[0] for p in ps)}])", "'(' + " + f" + ' {INFIX[op]} ' + ".join(p[1] for p in ps) + " + ')'"

    def call(name: str, *ps: tuple) -> tuple:
        n = f"'{name}'" if name != "fn" else "fn"
        t = "'-'" if name == "negate" else n
        return f"Formula({n}, [{', '.join(p[0] for p in ps)}])", f"{t} + '(' + " + " + ', ' + ".join(p[1] for p in ps) + " + ')'"

    operands = {"timeseries": T1, "other timeseries": T2, "number": NUM, "zero": K0, "float": K25}
    for op in INFIX:
        for (an, a), (bn, b) in product(operands.items(), operands.items()):
            if an.startswith(("number", "zero", "float")) and bn.startswith(("number", "zero", "float")):
                continue
            eq(r2, f"{op}: {an}, {bn}", *infix(op, a, b))
        eq(r2, f"{op}: three operands", *infix(op, T1, NUM, T2))
        eq(r2, f"{op}: one operand", *infix(op, T1))
        for op2 in INFIX:
            eq(r2, f"{op} with {op2} on the left", *infix(op, infix(op2, T1, NUM), T2))
            eq(r2, f"{op} with {op2} on the right", *infix(op, T1, infix(op2, T2, NUM)))
            if full:
                for op3 in INFIX:
                    eq(r2, f"{op}, {op2}, {op3} nested", *infix(op, infix(op2, infix(op3, T1, NUM), T2), infix(op3, T1, K25)))
        eq(r2, f"{op} inside a function", *call("fx", infix(op, T1, NUM), T2))
        eq(r2, f"{op} of functions", *infix(op, call("fx", T1), call("negate", T2)))
    for name in ("fx", "negate", "topK", "fn"):
        eqargs = [[T1], [T1, NUM], [T1, T2, K0], [K25, T1]]
        for ps in eqargs:
            if name == "fn":
                continue  # an unknown function name may be an operator
            eq(r2, f"function {name} of {len(ps)}", *call(name, *ps))
    # a function called nearly like an operator is still that function
    for o in [*INFIX, "negate"]:
        for near in (o.upper(), o.capitalize(), o + "_", o + "s", o[:-1], "un" + o, o + "If"):
            eq(r2, f"function {near}", *call(near, T1, NUM))
            eq(r2, f"function {near} inside an operator", *infix("plus", call(near, T2), K25))
            eq(r1, f"aggregate {near}", f"Timeseries(Metric(m0), '{near}')", f"'{near}(' + m0 + ')'")
        eq(r1, f"aggregate {o}", f"Timeseries(Metric(m0), '{o}')", f"'{o}(' + m0 + ')'")
    for (an, (as_, aw)), (fn, (fs, fw)), (gn, (gs, gw)) in product(aggs.items(), filts.items(), groups.items()):
        eq(r2, f"function, {an}, {fn}, {gn}", f"Formula('topK', [{T1[0]}, 3], {as_}, {fs}, {gs})", f"'topK' + {aw} + '(' + {T1[1]} + ', 3)' + {fw} + {gw}")
        if an == "no parameters":
            eq(r2, f"operator, {fn}, {gn}", f"Formula('divide', [{T1[0]}, 3], {as_}, {fs}, {gs})", f"'(' + {T1[1]} + ' / 3)' + {fw} + {gw}")
    inner = f"Formula('plus', [{T1[0]}, n0], None, [{f2[0]}], [Column('g')])", f"'(' + {T1[1]} + ' + ' + f'{{n0}}' + '){{' + {f2[1]} + '}} by (g)'"
    eq(r2, "filters and group-by of an inner formula", *infix("minus", inner, T2))
    eq(r2, "filters and group-by of an inner formula in a function", *call("fx", T2, inner))
    # ---- filters
    def one(label: str, *parts: tuple) -> None:
        src, want = g.braces(list(parts))
        eq(r3, f"timeseries: {label}", f"Timeseries(Metric('pub'), 'sum', None, {src})", f"'sum(pub)' + {want}")
        eq(r3, f"formula: {label}", f"Formula('plus', [Timeseries(Metric('pub'), 'sum'), 1], None, {src})", f"'(sum(pub) + 1)' + {want}")

    for op in POSITIVE + NEGATIVE:
        one(op, g.cond(op, 0))
        one(f"{op} any literal", g.cond(op, 0, "x0"))
        one(f"{op} list", g.cond(op, 0, "['a', v0]"))
        one(f"{op} tuple", g.cond(op, 0, "('a', v0, 3)"))
        one(f"{op} empty list", g.cond(op, 0, "[]"))
        one(f"{op} any list", g.cond(op, 0, "lst"))
        col = (f"Condition(Column('tags[k]'), Op.{op}, Column('z'))", f"'{'!' if op in NEGATIVE else ''}tags[k]:z'")
        one(f"{op} column", col)
    for a, b in product(POSITIVE + NEGATIVE, repeat=2):
        one(f"{a} AND {b}", g.boolean("And", g.cond(a, 0), g.cond(b, 1)))
        one(f"{a} OR {b}", g.boolean("Or", g.cond(a, 0), g.cond(b, 1)))
        if full:
            one(f"{a}, {b}", g.cond(a, 0), g.cond(b, 1))
    c = [g.cond("EQ", 0), g.cond("NEQ", 1), g.cond("IN", 2), g.cond("NOT_LIKE", 3), g.cond("LIKE", 4)]
    for o1, o2 in product(("And", "Or"), repeat=2):
        one(f"{o1} of {o2} first", g.boolean(o1, g.boolean(o2, c[0], c[1]), c[2]))
        one(f"{o1} of {o2} last", g.boolean(o1, c[2], g.boolean(o2, c[0], c[1])))
        one(f"{o1} of two {o2}", g.boolean(o1, g.boolean(o2, c[0], c[1]), g.boolean(o2, c[2], c[3])))
        one(f"{o1} of three, then {o2}", g.boolean(o1, c[0], c[1], c[2]), g.boolean(o2, c[3], c[4]))
        for o3 in ("And", "Or"):
            one(f"{o1} of {o2} of {o3}", g.boolean(o1, c[0], g.boolean(o2, g.boolean(o3, c[1], c[2]), c[3])), c[4])
    # ---- rejected filters
    fun = {"a function": "Function('f1', [Column('a')])", "a curried function": "CurriedFunction('f1', [1], [Column('a')])"}
    bad = {f"operator {op}": f"Condition(Column('a'), Op.{op}, v0)" for op in OTHER[:4]}
    bad.update({f"operator {op}": f"Condition(Column('a'), Op.{op})" for op in OTHER[4:]})
    for fn, f in fun.items():
        for op in POSITIVE + NEGATIVE:
            bad[f"{fn} left of {op}"] = f"Condition({f}, Op.{op}, 'x')"
            bad[f"{fn} right of {op}"] = f"Condition(Column('a'), Op.{op}, {f})"
        bad[f"{fn} in a list"] = f"Condition(Column('a'), Op.IN, ['x', {f}])"
        bad[f"two equalities with {fn}"] = f"Or([Condition(Column('a'), Op.EQ, 'x'), Condition(Column('a'), Op.EQ, {f})])"
    places = {
        "a filter": "[{}]", "the second filter": "[Condition(Column('k'), Op.EQ, 'x'), {}]",
        "an AND": "[And([Condition(Column('k'), Op.EQ, 'x'), {}])]", "an OR": "[Or([{}, Condition(Column('k'), Op.NEQ, 'x')])]",
        "a nested boolean": "[Or([Condition(Column('k'), Op.EQ, 'x'), And([Condition(Column('k'), Op.NEQ, 'x'), {}])])]",
    }
    for bn, b in bad.items():
        for pn, p in places.items():
            rej(f"{bn} in {pn} of a timeseries", f"Timeseries(Metric('pub'), 'sum', None, {p.format(b)})")
            if pn in ("a filter", "a nested boolean") or full:
                rej(f"{bn} in {pn} of a formula", f"Formula('plus', [Timeseries(Metric('pub'), 'sum'), 1], None, {p.format(b)})")
        rej(f"{bn} in an operand", f"Formula('plus', [1, Timeseries(Metric('pub'), 'sum', None, [{b}])])")
