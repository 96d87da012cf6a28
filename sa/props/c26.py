"""C26: numbers are printed by conversions that keep their value."""
from __future__ import annotations

from typing import Any, Iterator, Optional

from ..client import Client
from ..framework import Check, Undecided, taint
from ..model import Raised, State
from ..spec import *
from ..terms import *

FLOAT, INT = ty("float"), ty("int")
EXTRA = """
from snuba_sdk.metrics_visitors import TimeseriesMQLPrinter, FormulaMQLPrinter
from snuba_sdk.mql_visitor import MQLPrinter
"""


def pieces(t: Term) -> Iterator[Term]:
    """The smallest pieces of a text that are converted as a whole."""
    if t.k in ("cat", "join", "seq", "one", "dict", "entry", "new", "for", "spread", "kw"):
        for c in t.a:
            yield from deep(c)
    else:
        yield t


def deep(c: Any) -> Iterator[Term]:
    if isinstance(c, Term):
        yield from pieces(c)
    elif isinstance(c, (tuple, frozenset, list)):
        for x in c:
            yield from deep(x)


def is_whole(st: State, x: Term) -> bool:
    """Is x known to be a whole number here?"""
    m = T("bin", "%", x, const(1))
    zero = [p for p, v in st.preds.items() if v and p.k == "eq" and m in p.a]
    whole_ = T("app", "is_integer", x)
    return bool(zero) or st.preds.get(whole_) is True or st.oneof.get(m) is not None or st.num.get(m) is not None or st.preds.get(T("truthy", m)) is False \
        or st.preds.get(T("truthy", whole_)) is True


def round_trips(st: State, x: Term, t: Term) -> bool:
    """Is the text known to be read back as x?"""
    f = T("app", "float", t)
    return any(v and p.k == "eq" and x in p.a and f in p.a for p, v in st.preds.items())


def keeps(I: Any, st: State, x: Term, t: Term) -> Optional[bool]:
    """Does the piece of text t, which mentions x, denote x?  None if that is not known."""
    if t is x:
        return True
    isint = I.types(st, x) <= {"int", "bool"}
    if t.k == "fmt" and t.a[0] is x:
        spec, conv = t.a[1], t.a[2]
        if not isinstance(spec, str):
            return None
        if spec in ("", "s") and conv in ("", "s", "r") or (isint and spec == "d") or (not isint and spec == ".17g" and not conv):
            return True
        if spec.endswith("f") and is_whole(st, x) or round_trips(st, x, t):
            return True
        return False
    if t.k == "app" and t.a[0] in ("str", "repr", "format") and len(t.a) == 2 and t.a[1] is x:
        return True
    if t.k == "fmt" and isinstance(t.a[0], Term) and contains(t.a[0], x):
        y = t.a[0]
        if y.k == "app" and y.a[0] in ("float",) and len(y.a) == 2 and y.a[1] is x and not isint:
            return keeps(I, st, y, t)
        if y.k == "app" and y.a[0] == "int" and len(y.a) == 2 and y.a[1] is x and isint:
            return True
        if y.k == "app" and y.a[0] in ("round", "int", "abs", "float", "math.floor", "math.ceil", "math.trunc"):
            return False
        if y.k in ("bin", "un"):
            return False
    if t.k == "app" and t.a[0] in ("rstrip", "lstrip", "strip", "replace", "split", "rsplit", "partition", "before", "after") and contains(t, x):
        return None
    if t.k == "item" or t.k == "slice":
        return False
    return None


PLACES = {
    "a literal": ("", "Translation().visit(x)"),
    "a literal in MQL": ("", "Translation(is_mql=True).visit(x)"),
    "an element of a list": ("", "Translation().visit([1, x])"),
    "an element of a tuple": ("", "Translation().visit((x, 'a'))"),
    "an element of a list in MQL": ("", "Translation(is_mql=True).visit([1, x])"),
    "a nested element": ("", "Translation().visit([[x], [2.5]])"),
    "a function parameter": ("f = Function('f1', [Column('a'), x], 'al')\n", "Translation().visit(f)"),
    "a nested function parameter": ("f = Function('f1', [Function('f2', [[x]])])\n", "Translation().visit(f)"),
    "a curried function initializer": ("f = CurriedFunction('f1', [x], [Column('a')])\n", "Translation().visit(f)"),
    "a curried function parameter": ("f = CurriedFunction('f1', [0.5], [x, Column('a')])\n", "Translation().visit(f)"),
    "a lambda": ("f = Lambda(['i'], Function('f1', [Identifier('i'), x]))\n", "Translation().visit(f)"),
    "a condition": ("c = Condition(Column('a'), Op.GT, x)\n", "Translation().visit(c)"),
    "a condition list": ("c = Condition(Column('a'), Op.IN, [x, 1])\n", "Translation().visit(c)"),
    "a condition on a function": ("c = Condition(Function('f1', [x]), Op.GT, 1)\n", "Translation().visit(c)"),
    "a query": ("q = Query(Entity('events'), select=[Function('f1', [x], 'al')])\n", "q.serialize()"),
    "a where clause": ("q = Query(Entity('events'), select=[Column('a')], where=[Condition(Column('a'), Op.GT, x)])\n", "q.serialize()"),
    "an optimized where clause": ("q = Query(Entity('events'), select=[Column('a')], where=[Or([Condition(Column('a'), Op.EQ, 'y'), Condition(Column('a'), Op.EQ, x)])])\n", "q.serialize()"),
    "a pretty query": ("q = Query(Entity('events'), select=[Column('a')], where=[Condition(Column('a'), Op.GT, x)])\n", "q.print()"),
    "a timeseries filter": ("ts = Timeseries(Metric('m'), 'sum', None, [Condition(Column('a'), Op.EQ, x)])\n", "TimeseriesMQLPrinter().visit(ts)"),
    "a timeseries filter list": ("ts = Timeseries(Metric('m'), 'sum', None, [Condition(Column('a'), Op.IN, [x, 'y'])])\n", "TimeseriesMQLPrinter().visit(ts)"),
    "an aggregate parameter": ("ts = Timeseries(Metric('m'), 'quantiles', [x, 0.5])\n", "TimeseriesMQLPrinter().visit(ts)"),
    "a formula filter": ("f = Formula('plus', [Timeseries(Metric('m'), 'sum'), Timeseries(Metric('m'), 'sum')], None, [Condition(Column('a'), Op.EQ, x)])\n", "FormulaMQLPrinter().visit(f)"),
    "a formula parameter": ("f = Formula('plus', [Timeseries(Metric('m'), 'sum'), x])\n", "FormulaMQLPrinter().visit(f)"),
    "a first formula parameter": ("f = Formula('divide', [x, Timeseries(Metric('m'), 'sum')])\n", "FormulaMQLPrinter().visit(f)"),
    "a function parameter in MQL": ("f = Formula('apdex', [Timeseries(Metric('m'), 'sum'), x])\n", "FormulaMQLPrinter().visit(f)"),
    "an aggregate parameter of a formula": ("f = Formula('topK', [Timeseries(Metric('m'), 'sum')], [x])\n", "FormulaMQLPrinter().visit(f)"),
    "a nested formula parameter": ("f = Formula('plus', [Formula('divide', [Timeseries(Metric('m'), 'sum'), x]), 1.0])\n", "FormulaMQLPrinter().visit(f)"),
}
SAMPLES = {
    "the sample rate of an entity": ("e = Entity('events', None, x)\n", "Translation().visit(e)"),
    "the sample rate of an aliased entity": ("e = Entity('events', 'e', x)\n", "Translation(use_entity_aliases=True).visit(e)"),
    "the sample rate of a storage": ("e = Storage('events', x)\n", "Translation().visit(e)"),
    "the sample rate of a query": ("q = Query(Entity('events', None, x), select=[Column('a')])\n", "q.serialize()"),
    "the sample rate of a query on a storage": ("q = Query(Storage('events', x), select=[Column('a')])\n", "q.serialize()"),
    "the sample rate in a join": ("q = Query(Join([Relationship(Entity('ea', 'a', x), 'has', Entity('eb', 'b', 0.5))]), select=[Column('c', Entity('ea', 'a', x))])\n", "q.serialize()"),
}
BOUNDED = {
    "a limit": ("q = Query(Entity('events'), select=[Column('a')], limit=Limit(x))\n", "q.serialize()"),
    "an offset": ("q = Query(Entity('events'), select=[Column('a')], offset=Offset(x))\n", "q.serialize()"),
    "a granularity": ("q = Query(Entity('events'), select=[Column('a')], granularity=Granularity(x))\n", "q.serialize()"),
    "a limit-by": ("q = Query(Entity('events'), select=[Column('a')], limitby=LimitBy([Column('a')], x))\n", "q.serialize()"),
}
CONTEXT = {
    "the interval of a rollup": ("mq = MetricsQuery(ts, t0, t1, Rollup(interval=x, granularity=60), sc, indexer_mappings={})\n", "mq.serialize()"),
    "the limit of a metrics query": ("mq = MetricsQuery(ts, t0, t1, Rollup(interval=60, granularity=60), sc, Limit(x), indexer_mappings={})\n", "mq.serialize()"),
    "the offset of a metrics query": ("mq = MetricsQuery(ts, t0, t1, Rollup(interval=60, granularity=60), sc, None, Offset(x), indexer_mappings={})\n", "mq.serialize()"),
    "an organization": ("mq = MetricsQuery(ts, t0, t1, Rollup(interval=60, granularity=60), MetricsScope([x], [1], 'u'), indexer_mappings={})\n", "mq.serialize()"),
    "a project": ("mq = MetricsQuery(ts, t0, t1, Rollup(interval=60, granularity=60), MetricsScope([1], [2, x], 'u'), indexer_mappings={})\n", "mq.serialize()"),
}
TS = "ts = Timeseries(Metric('m'), 'sum')\nsc = MetricsScope([1], [2], 'u')\n"


def run(ck: Check) -> None:
    I = ck.I
    I.field_specs = dict(FIELDS)
    cl = Client(ck, EXTRA)
    r = ck.rule("conversion", "every number that reaches a text or a payload does so unchanged, or through a conversion that keeps its value: str(), repr() or a bare {} "
                              "field, d for integers, a fixed number of decimals only for a value known to have no more")

    def judge(label: str, src: str, expr: str, spec: Any) -> None:
        def f() -> Optional[str]:
            outs: list = []
            for s in cl.setups(src, x=spec, t0=ty("datetime"), t1=ty("datetime")):
                outs += cl.value(expr, s)
            x = sym("x")
            if not outs:
                raise Undecided("no outcome")
            und = None
            for s, v in outs:
                t = taint(s)
                if isinstance(v, Raised):
                    und = und or t or f"raises {v.exc} at {v.where}"
                    continue
                v = I.freeze(s, v)
                got = [p for p in pieces(v) if contains(p, x)]
                if not got:
                    if x in s.oneof or s.num.get(x) and t:
                        und = und or "the number is a constant here"
                        continue
                    if t or has_unk(v):
                        und = und or t or show(find_unk(v))
                        continue
                    known = s.num.get(x)
                    if known is not None and known[0] is not None and known[0] == known[2]:
                        continue
                    return f"the number does not appear in {show(v)[:300]}"
                for p in got:
                    k = keeps(I, s, x, p)
                    if k is True:
                        continue
                    if k is None or t:
                        und = und or t or f"conversion {show(p)[:120]}"
                        continue
                    return f"the number is printed as {show(p)[:200]}"
            if und:
                raise Undecided(f"depends on {und}")
            return None

        ck.ob(r, expr if len(expr) < 60 else expr[:60], label, f)

    for n, (src, expr) in PLACES.items():
        judge(f"a float: {n}", src, expr, FLOAT)
        judge(f"an integer: {n}", src, expr, INT)
    for n, (src, expr) in SAMPLES.items():
        judge(n, src, expr, ty("float", num=POS))
    for n, (src, expr) in BOUNDED.items():
        judge(n, src, expr, ty("int", num=(1, True, 10000, True)))
    for n, (src, expr) in CONTEXT.items():
        judge(n, TS + src, expr, ty("int", num=(60, True, 10000, True)))
