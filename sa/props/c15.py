"""C15: what the OR optimizer does to a condition group, and where it is applied."""
from __future__ import annotations

from itertools import product
from typing import Any

from ..client import Client, Expect
from ..framework import Check, unvalidated
from ..render import Renderers
from ..spec import *
from ..terms import *
from .c08 import node_hook

EXTRA = "from snuba_sdk.query_optimizers.or_optimizer import OrOptimizer\n"
VAL = ty(LITERAL, [COLUMN, FUNCTION, CURRIED])
# operand i of an OR on the left-hand side l: how it is written
OPERANDS = {
    "eq": "Condition(l, Op.EQ, r{i})",
    "other": "Condition(l, {op}, r{i})",
    "lhs": "Condition(m, Op.EQ, r{i})",
    "and": "And([Condition(l, Op.EQ, r{i}), Condition(l, Op.EQ, 'n')])",
    "or": "Or([Condition(l, Op.EQ, r{i}), Condition(l, Op.EQ, 'n')])",
}
OPS = ["NEQ", "GT", "GTE", "LT", "LTE", "IN", "NOT_IN", "LIKE", "NOT_LIKE", "IS_NULL", "IS_NOT_NULL"]
LHS = {
    "a column": ("Column('a')", "Column('b')"),
    "a tag": ("Column('tags[a]')", "Column('tags[b]')"),
    "a column of a join": ("Column('a', Entity('ev', 'x'))", "Column('a', Entity('ev', 'y'))"),
    "a function": ("Function('f1', [Column('a')])", "Function('f1', [Column('b')])"),
    "a function with an alias": ("Function('f1', [Column('a')], 'al')", "Function('f1', [Column('a')], 'be')"),
    "a curried function": ("CurriedFunction('f1', [1], [Column('a')])", "CurriedFunction('f1', [2], [Column('a')])"),
    "functions with one alias": ("Function('f1', [Column('a')], 'al')", "Function('f2', [Column('a')], 'al')"),
}


def operand(k: str, i: int, op: str = "") -> str:
    e = OPERANDS[k].replace("{i}", str(i)).replace("{op}", f"Op.{op}")
    if op in ("IS_NULL", "IS_NOT_NULL"):
        return f"Condition(l, Op.{op})"
    if op in ("IN", "NOT_IN"):
        return f"Condition(l, Op.{op}, [r{i}])"
    return e


def words(ck: Check) -> list:
    """(label, operand sources)"""
    out = []
    kinds = ["eq", "lhs", "and", "or"]
    for n in (2, 3, 4) if ck.tier == "quick" else (2, 3, 4, 5):
        for w in product(kinds, repeat=n):
            if n > 3 and sum(k != "eq" for k in w) > (1 if n == 4 else 2):
                continue
            out.append((" or ".join(w), [operand(k, i) for i, k in enumerate(w)], "l" if set(w) == {"eq"} else "m" if set(w) == {"lhs"} else ""))
        for op in OPS:
            for pos in range(n):
                w = [operand("other", i, op) if i == pos else operand("eq", i) for i in range(n)]
                out.append((f"{op} in position {pos} of {n}", w, ""))
            out.append((f"{n} of {op}", [operand("other", i, op) for i in range(n)], ""))
    return out


def run(ck: Check) -> None:
    I = ck.I
    I.field_specs = dict(FIELDS)
    rd = Renderers(ck)
    cl = Client(ck, EXTRA)
    r = ck.rule("rewrite", "an OR of equalities on one left-hand side becomes one IN with every right-hand side in order; every other condition is kept")
    # validation is the matter of C09-C11
    ex = Expect(ck, cl, r, [node_hook(rd), unvalidated(QUERY)])
    W = "snuba_sdk/query.py:Query.serialize"
    full = ck.tier == "thorough"

    def query(conds: str, clause: str = "where") -> str:
        if clause == "where":
            return f"Query(Entity('events'), select=[Column('z')], where={conds})"
        return f"Query(Entity('events'), select=[Column('z')], {clause}={conds})"

    def text(conds: list, kw: str = "WHERE", sep: str = " ") -> str:
        tr = " + ' AND ' + ".join(f"Translation().visit({c})" for c in conds)
        return f"'MATCH ' + Translation().visit(Entity('events')) + {sep!r} + 'SELECT ' + Translation().visit(Column('z')) + {sep!r} + '{kw} ' + {tr}"

    def pre(lk: str) -> str:
        l, m = LHS[lk]
        return f"l = {l}\nm = {m}\n"

    # one OR condition
    for label, w, merge in words(ck):
        lks = list(LHS) if merge or full or len(w) == 2 else ["a column"]
        for lk in lks:
            if lk == "a column of a join":
                continue  # the columns of a join are compared below, on the optimizer itself
            src = pre(lk) + f"cond = Or([{', '.join(w)}])\nwhr = [cond]\nq = {query('whr')}\n"
            n = len(w)
            want = f"Condition({merge}, Op.IN, [{', '.join(f'r{i}' for i in range(n))}])" if merge else "cond"
            # one operand of any kind, the others strings
            for free in range(n) if merge or full else [n - 1]:
                inp = {f"r{i}": VAL if i == free else STR for i in range(n)}
                ex.eq(W, f"{lk}: {label}; operand {free} free", src, "q.serialize()", text([want]), **inp)
            continue
    # the same right-hand side more than once
    for pat in ("00", "001", "010", "011", "0011", "0101") + (("0110", "00100", "01210") if full else ()):
        for lk in ("a column", "a function"):
            src = pre(lk) + f"cond = Or([{', '.join(operand('eq', int(d)) for d in pat)}])\nwhr = [cond]\nq = {query('whr')}\n"
            for vn, v in (("strings", STR), ("numbers", ty("int")), ("free", VAL)):
                ex.eq(W, f"{lk}: right-hand sides {pat}, {vn}", src, "q.serialize()", text([f"Condition(l, Op.IN, [{', '.join('r' + d for d in pat)}])"]),
                      **{f"r{d}": v if d == "0" else STR for d in sorted(set(pat))})
    for a, b in (("1", "True"), ("0", "False"), ("1", "1.0"), ("0.0", "0"), ("'1'", "1")):
        for x, y in ((a, b), (b, a)):
            src = pre("a column") + f"whr = [Or([Condition(l, Op.EQ, {x}), Condition(l, Op.EQ, {y}), Condition(l, Op.EQ, {x})])]\nq = {query('whr')}\n"
            ex.eq(W, f"equal but different right-hand sides {x} and {y}", src, "q.serialize()", text([f"Condition(l, Op.IN, [{x}, {y}, {x}])"]))
    # right-hand sides that are arrays or tuples stay whole
    for pat in product(("[x{i}]", "(x{i}, 1)", "x{i}", "[]"), repeat=2):
        vs = [v.replace("{i}", str(i)) for i, v in enumerate(pat + ("[x{i}, 2]",))]
        src = pre("a column") + f"vs = [{', '.join(vs)}]\nwhr = [Or([{', '.join(f'Condition(l, Op.EQ, vs[{i}])' for i in range(3))}])]\nq = {query('whr')}\n"
        ex.eq(W, f"right-hand sides {', '.join(vs)}", src, "q.serialize()", text([f"Condition(l, Op.IN, [{', '.join(vs)}])"]), x0=STR, x1=STR, x2=STR)
    # the same condition more than once in a group
    src = pre("a column") + f"c = Condition(l, Op.EQ, r0)\no = Or([c, c])\nwhr = [c, o, c, o]\nq = {query('whr')}\n"
    ex.eq(W, "repeated conditions", src, "q.serialize()", text(["c", "Condition(l, Op.IN, [r0, r0])", "c", "Condition(l, Op.IN, [r0, r0])"]), r0=STR)
    # long disjunctions and long groups, written out
    for n in (17, 1100):
        # the longest one repeats a single condition, to keep the abstract heap small
        eqs = [f"Condition(l, Op.EQ, {i})" for i in range(n - 1)] if n < 100 else ["e"] * (n - 1)
        for last, lab in (("Condition(l, Op.EQ, r0)", ""), ("Condition(l, Op.NEQ, r0)", "another operator"), ("Condition(m, Op.EQ, r0)", "another left-hand side"),
                          ("And([Condition(l, Op.EQ, r0), Condition(l, Op.EQ, 'n')])", "an AND")):
            for rev in (False, True):
                ops = (eqs + [last]) if not rev else [last] + eqs
                vals = [str(i) if n < 100 else "7" for i in range(n - 1)]
                vals = vals + ["r0"] if not rev else ["r0"] + vals
                src = pre("a column") + f"e = Condition(l, Op.EQ, 7)\ncond = Or([{', '.join(ops)}])\nwhr = [cond]\nq = {query('whr')}\n"
                want = "cond" if lab else f"Condition(l, Op.IN, [{', '.join(vals)}])"
                ex.eq(W, f"{n} operands" + (f", the {'first' if rev else 'last'} one {lab}" if lab else f", the {'first' if rev else 'last'} one free"), src, "q.serialize()", text([want]), r0=STR)
        src = pre("a column") + f"e = Condition(l, Op.EQ, 7)\nwhr = [{', '.join(eqs)}, Or([Condition(l, Op.EQ, r0), Condition(l, Op.EQ, r1)])]\nq = {query('whr')}\n"
        ex.eq(W, f"a group of {n}, the last one rewritten", src, "q.serialize()",
              text([f"whr[{i}]" for i in range(n - 1)] + ["Condition(l, Op.IN, [r0, r1])"]) if n < 200 else
              "'MATCH ' + Translation().visit(Entity('events')) + ' SELECT ' + Translation().visit(Column('z')) + ' WHERE ' + ' AND '.join(["
              + ", ".join(f"Translation().visit(whr[{i}])" for i in range(n - 1)) + ", Translation().visit(Condition(l, Op.IN, [r0, r1]))])", r0=STR, r1=STR)
    # one AND condition is never rewritten
    for n in (2, 3):
        src = pre("a column") + f"cond = And([{', '.join(operand('eq', i) for i in range(n))}])\nwhr = [cond]\nq = {query('whr')}\n"
        ex.eq(W, f"AND of {n} equalities", src, "q.serialize()", text(["cond"]), **{f"r{i}": VAL for i in range(n)})
    # groups: every condition in its place
    parts = {
        "plain": ("Condition(l, Op.EQ, {r})", None),
        "mergeable": ("Or([Condition(l, Op.EQ, {r}), Condition(l, Op.EQ, {s})])", "Condition(l, Op.IN, [{r}, {s}])"),
        "mergeable2": ("Or([Condition(m, Op.EQ, {r}), Condition(m, Op.EQ, {s})])", "Condition(m, Op.IN, [{r}, {s}])"),
        "mixed": ("Or([Condition(l, Op.EQ, {r}), Condition(m, Op.EQ, {s})])", None),
        "and": ("And([Condition(l, Op.EQ, {r}), Condition(l, Op.EQ, {s})])", None),
        "nested": ("And([Or([Condition(l, Op.EQ, {r}), Condition(l, Op.EQ, {s})]), Condition(m, Op.GT, {r})])", None),
        "boolean": ("BooleanCondition(BooleanOp.OR, [Condition(l, Op.EQ, {r}), Condition(l, Op.EQ, {s})])", "Condition(l, Op.IN, [{r}, {s}])"),
        "booleanand": ("BooleanCondition(BooleanOp.AND, [Condition(l, Op.EQ, {r}), Condition(l, Op.EQ, {s})])", None),
    }

    def group(ws: tuple) -> tuple:
        conds, wants = [], []
        for i, k in enumerate(ws):
            a, b = parts[k]
            conds.append(a.replace("{r}", f"r{i}").replace("{s}", f"s{i}"))
            wants.append(f"whr[{i}]" if b is None else b.replace("{r}", f"r{i}").replace("{s}", f"s{i}"))
        return conds, wants

    sizes = (1, 2, 3)
    for n in sizes:
        for ws in product(parts, repeat=n):
            if n == 3 and not full and len(set(ws)) == 3 and sorted(ws) != list(ws):
                continue
            conds, wants = group(ws)
            src = pre("a column") + f"whr = [{', '.join(conds)}]\nq = {query('whr')}\n"
            inp = {f"{x}{i}": STR for i in range(n) for x in "rs"}
            ex.eq(W, "where: " + ", ".join(ws), src, "q.serialize()", text(wants), **inp)
    # the pretty form and other clauses are printed as given
    for ws in [("mergeable",), ("plain", "mergeable"), ("boolean", "mergeable2")]:
        conds, wants = group(ws)
        inp = {f"{x}{i}": STR for i in range(len(ws)) for x in "rs"}
        src = pre("a column") + f"hav = [{', '.join(conds)}]\nq = {query('hav', 'having')}\n"
        ex.eq(W, "having: " + ", ".join(ws), src, "q.serialize()", text([f"hav[{i}]" for i in range(len(ws))], "HAVING"), **inp)
        src = pre("a column") + f"whr = [{', '.join(conds)}]\nq = {query('whr')}\n"
        ex.eq(W, "having and where: " + ", ".join(ws), src + "q = Query(Entity('events'), select=[Column('z')], where=whr, having=whr)\n",
              "q.serialize()", text(wants) + " + ' HAVING ' + " + " + ' AND ' + ".join(f"Translation().visit(whr[{i}])" for i in range(len(ws))), **inp)
    metrics(ck, cl, group, pre, parts, sizes, full)


def metrics(ck: Check, cl: Client, group: Any, pre: Any, parts: Any, sizes: Any, full: bool) -> None:
    """The filters of a metrics query, printed as MQL."""
    r = ck.rule("filters", "the filters of a metrics query are rewritten in the same way and in no other")
    ex = Expect(ck, cl, r)
    W = "snuba_sdk/metrics_query.py:MetricsQuery.serialize"
    mq = "mq = MetricsQuery({}, t0, t1, Rollup(interval=60, granularity=60), MetricsScope([1], [2], 'u'), indexer_mappings={{}})\n"
    shapes = {
        "timeseries": "Timeseries(Metric('pub'), 'sum', None, flt)",
        "formula": "Formula('plus', [Timeseries(Metric('pub'), 'sum'), 1], None, flt)",
    }
    head = {"timeseries": "sum(pub)", "formula": "(sum(pub) + 1)"}
    ts = {"t0": ty("datetime"), "t1": ty("datetime")}
    for n in (1, 2):
        for ws in product([k for k in parts if k != "nested"], repeat=n):
            conds, wants = group(ws)
            for sh, e in shapes.items():
                src = pre("a column") + f"flt = [{', '.join(conds)}]\n" + mq.format(e)
                src += "whr = flt\n"
                inp = {f"{x}{i}": STR for i in range(n) for x in "rs"}
                vis = " + ' AND ' + ".join(f"MV({w})" for w in wants)
                want = f"'{head[sh]}' + '{{' + {vis} + '}}'"
                ex.eq(W, f"{sh}: " + ", ".join(ws), src + MV, "mq.serialize()['mql']", want, **inp, **ts)


MV = """
def MV(c):
    t = Translation(is_mql=True)
    if isinstance(c, Condition):
        return t._visit_condition_mql(c)
    return t._visit_boolean_condition_mql(c)
"""
