"""C19: what parse_mql makes of an MQL text.

A text is a template: constant MQL syntax around leaves (names, values, numbers), each leaf standing
for every string of its regular language.  The grammar is read from the source; the shape of the parse
tree is computed from representatives of the leaf languages (chosen to collide with keywords and
punctuation), the visitor is interpreted with the leaves left symbolic, and the result is compared
with the object that the text denotes."""
from __future__ import annotations

import re
from itertools import product
from typing import Any, Optional

from .. import regexlang as L
from ..client import Client
from ..framework import Check, TooLong, Undecided, deadline, expect_raise, facts, taint
from ..model import Raised, State, Unsupported
from ..render import canon
from ..spec import *
from ..terms import *
from ..witness import never_differ

EXTRA = """
from snuba_sdk.mql.mql import parse_mql, InvalidMQLQueryError

def cond(c):
    if isinstance(c, BooleanCondition):
        return ("bool", c.op, [cond(x) for x in c.conditions])
    return ("cond", c.lhs, c.op, c.rhs)

def view(x):
    if isinstance(x, Timeseries):
        return ("timeseries", x.metric, x.aggregate, list(x.aggregate_params or []), [cond(f) for f in x.filters or []], list(x.groupby or []))
    if isinstance(x, Formula):
        return ("formula", x.function_name, [view(p) for p in x.parameters or []], list(x.aggregate_params or []), [cond(f) for f in x.filters or []], list(x.groupby or []))
    return x
"""
W = "snuba_sdk/mql/mql.py:parse_mql"
#: kind of leaf -> (language, representatives)
KINDS = {
    "f": (r"[a-z][a-z0-9_]*", ["sum", "p95", "by", "or", "and", "max_2"]),
    "m": (r"[a-z_]+(?:\.[a-z_]+)*", ["foo", "transaction.duration", "by", "and", "or_x", "a.by.or"]),
    "r": (r"[a-z]+:[a-z_]+/[a-z_.]+@[a-z]+", ["d:transactions/duration@millisecond", "c:custom/by.or@none"]),
    "R": (r"[^:`]+:[^/`]+/[^@,`]+@[^`]+", ["d:transactions/duration@millisecond", "d:a b/c(d){e}@f, g", "by:or and/\"x\"[1]@*"]),
    "t": (r"[a-zA-Z_][a-zA-Z0-9_.]*", ["tag", "a.b", "android", "order", "by", "OR_x", "and_1", "ANDROID"]),
    "g": (r"[a-zA-Z_][a-zA-Z0-9_.]*", ["g", "a.b", "by", "x1", "and", "or"]),
    "v": (r'[^,\[\]"}{()\s*]+', ["v", "or", "and", "a:b", "x-1/y@z", "!x", "1.5", "\u00e9\\n"]),
    "q": (r'(?:[^"\\*]|\\[^*])*', ["v", "a b", "x, y", ")}]", "", "a\\\"b", "{(", "a:b or c:d"]),
    "n": (r"[0-9]+(?:\.[0-9]+)?", ["1", "0.5", "300", "007"]),
}
LEAF = re.compile("\u00ab([a-zA-Z]\\d+)\u00bb")


def braces(f: tuple) -> str:
    return "{~" + f[0] + "~}" if f[0] else "{}"


class Gen:
    """Pieces of MQL with what they denote: pairs (template, Python expression)."""

    def __init__(self) -> None:
        self.n = 0

    def leaf(self, kind: str) -> tuple:
        self.n += 1
        return f"\u00ab{kind}{self.n}\u00bb", f"{kind}{self.n}"

    # ---------------------------------------------------------------- filters

    def key(self) -> tuple:
        t, e = self.leaf("t")
        return t, f"Column({e})"

    def value(self, how: str) -> tuple:
        """(text, value, wildcard?)"""
        if how == "unquoted":
            t, e = self.leaf("v")
            return t, e, False
        if how == "quoted":
            t, e = self.leaf("q")
            return f'"{t}"', self.text(e), False
        if how == "wildcard":
            t, e = self.leaf("v")
            return f"{t}*", f"{e} + '*'", True
        if how == "quoted wildcard":
            t, e = self.leaf("v")
            return f'"{t}*"', f"{e} + '*'", True
        ts, es = [], []
        for h in how[5:].split("+"):
            t, e, _ = self.value(h)
            ts.append(t)
            es.append(e)
        return "[~" + "~,~".join(ts) + "~]", "[" + ", ".join(es) + "]", False

    @staticmethod
    def text(e: str) -> str:
        return f"{e}.replace(chr(92) + chr(34), chr(34))"

    def factor(self, how: str = "unquoted", neg: bool = False) -> tuple:
        kt, ke = self.key()
        vt, ve, wild = self.value(how)
        op = {("list", False): "IN", ("list", True): "NOT_IN", ("wild", False): "LIKE", ("wild", True): "NOT_LIKE", ("one", False): "EQ", ("one", True): "NEQ"}[
            ("list" if how.startswith("list") else "wild" if wild else "one", neg)]
        return f"{'!' if neg else ''}{kt}~:~{vt}", f"Condition({ke}, Op.{op}, {ve})"

    def both(self, *fs: tuple, sep: str = "~,~") -> tuple:
        return sep.join(f[0] for f in fs), "And([" + ", ".join(f[1] for f in fs) + "])"

    def either(self, *fs: tuple, sep: str = " OR ") -> tuple:
        return sep.join(f[0] for f in fs), "Or([" + ", ".join(f[1] for f in fs) + "])"

    @staticmethod
    def paren(f: tuple) -> tuple:
        return f"(~{f[0]}~)", f[1]

    # ---------------------------------------------------------------- targets

    def metric(self, how: str = "name") -> tuple:
        if how == "name":
            t, e = self.leaf("m")
            return t, f"Metric(public_name={e})"
        if how == "quoted name":
            t, e = self.leaf("m")
            return f"`{t}`", f"Metric(public_name={e})"
        if how == "mri":
            t, e = self.leaf("r")
            return t, f"Metric(mri={e})"
        t, e = self.leaf("R")
        return f"`{t}`", f"Metric(mri={e})"

    def params(self, hows: tuple) -> tuple:
        ts, es = [], []
        for h in hows:
            t, e = self.leaf({"number": "n", "quoted": "q", "word": "f"}[h])
            ts.append(f'"{t}"' if h == "quoted" else t)
            es.append(f"float({e})" if h == "number" else self.text(e) if h == "quoted" else e)
        return "~,~".join(ts), "[" + ", ".join(es) + "]"

    def by(self, n: int, spaced: bool = True) -> tuple:
        """A group-by of n names; n = 0: one name in parentheses"""
        ls = [self.leaf("g") for _ in range(n or 1)]
        t = "(~" + "~,~".join(x for x, _ in ls) + "~)" if n != 1 else ls[0][0]
        return f" by {t}", [f"Column({e})" for _, e in ls]

    def aggregate(self, metric: str = "name", params: Optional[tuple] = None, inner: Any = None, ingroup: Optional[int] = None, group: Optional[int] = None,
                  outer: Any = None, outgroup: Optional[int] = None) -> tuple:
        ft, fe = self.leaf("f")
        mt, me = self.metric(metric)
        pt = pe = ""
        if params is not None:
            a, b = self.params(params)
            pt, pe = f"(~{a}~)", f", aggregate_params={b}"
        t = f"{ft}{pt}(~{mt}"
        fs, gs = [], []
        if inner is not None:
            t += braces(inner)
            fs = [inner[1]] if inner[1] else []
        if ingroup is not None:
            a, b = self.by(ingroup)
            t += a
            gs = b
        t += "~)"
        if group is not None:
            a, b = self.by(group)
            t += a
            gs = b + gs
        if outer is not None:
            t += braces(outer)
            fs = ([outer[1]] if outer[1] else []) + fs
        if outgroup is not None:
            a, b = self.by(outgroup)
            t += a
            gs = b + gs
        return t, f"Timeseries({me}, {fe}{pe}, filters=[{', '.join(fs)}] or None, groupby=[{', '.join(gs)}] or None)"

    def function(self, *args: tuple, params: Optional[tuple] = None, group: Optional[int] = None, outer: Any = None, outgroup: Optional[int] = None) -> tuple:
        ft, fe = self.leaf("f")
        pt = pe = ""
        if params is not None:
            a, b = self.params(params)
            pt, pe = f"(~{a}~)", f", aggregate_params={b}"
        t = f"{ft}{pt}(~" + "~,~".join(a[0] for a in args) + ("~)" if len(args) == 1 else ")")
        return self.dress(t, f"Formula({fe}, [{', '.join(a[1] for a in args)}]{pe}", group, outer, outgroup)

    def dress(self, t: str, head: str, group: Optional[int], outer: Any, outgroup: Optional[int]) -> tuple:
        fs, gs = [], []
        if group is not None:
            a, b = self.by(group)
            t, gs = t + a, b
        if outer is not None:
            t += braces(outer)
            fs = [outer[1]] if outer[1] else []
        if outgroup is not None:
            a, b = self.by(outgroup)
            t, gs = t + a, b + gs
        return t, f"{head}, filters=[{', '.join(fs)}] or None, groupby=[{', '.join(gs)}] or None)"

    def number(self) -> tuple:
        t, e = self.leaf("n")
        return t, f"float({e})"

    def quoted(self) -> tuple:
        t, e = self.leaf("q")
        return f'"{t}"', self.text(e)

    def minus(self, x: tuple) -> tuple:
        return f"-{x[0]}", f"-{x[1]}" if x[1].startswith("float(") else f"Formula('negate', [{x[1]}])"

    NAMES = {"+": "plus", "-": "minus", "*": "multiply", "/": "divide"}

    def arith(self, xs: list, ops: tuple) -> tuple:
        """x0 op0 x1 op1 ...: * and / bind tighter, all associate to the left"""
        t = xs[0][0] + "".join(f"~{o}~{x[0]}" for o, x in zip(ops, xs[1:]))
        terms, adds = [xs[0][1]], []
        for o, x in zip(ops, xs[1:]):
            if o in "*/":
                terms[-1] = f"Formula('{self.NAMES[o]}', [{terms[-1]}, {x[1]}])"
            else:
                adds.append(o)
                terms.append(x[1])
        e = terms[0]
        for o, x in zip(adds, terms[1:]):
            e = f"Formula('{self.NAMES[o]}', [{e}, {x}])"
        return t, e


def dressed(g: Gen, x: tuple, group: Optional[int] = None, outer: Any = None, outgroup: Optional[int] = None) -> tuple:
    """(x){...} by ...: a parenthesised expression with filters and group-by."""
    t, fs, gs = f"(~{x[0]}~)", "", ""
    if outer is not None:
        t += braces(outer)
    if outgroup is not None:
        a, b = g.by(outgroup)
        t += a
        gs = f".set_groupby([{', '.join(b)}])"
    if outer is not None and outer[1]:
        fs = f".set_filters([{outer[1]}])"
    return t, f"{x[1]}{fs}{gs}"


VALUES = ["unquoted", "quoted", "wildcard", "quoted wildcard", "list:unquoted", "list:quoted", "list:unquoted+quoted+unquoted", "list:quoted+quoted"]


def filters(g: Gen, full: bool) -> dict:
    out: dict = {}
    for v, n in product(VALUES, (False, True)):
        out[f"{'not ' if n else ''}{v}"] = g.factor(v, n)
    seps = {"comma": "~,~", "AND": " AND ", "and": " and ", "space": " "}
    ors = {"OR": " OR ", "or": " or "}
    for sn, s in seps.items():
        for v, n in product(VALUES if full else ["unquoted", "quoted", "wildcard", "list:unquoted"], (False, True)):
            out[f"{v} {n} {sn} plain"] = g.both(g.factor(v, n), g.factor(), sep=s)
            out[f"plain {sn} {v} {n}"] = g.both(g.factor(), g.factor(v, n), sep=s)
        out[f"three by {sn}"] = g.both(g.factor(), g.factor("quoted", True), g.factor("wildcard"), sep=s)
        out[f"four by {sn}"] = g.both(*[g.factor() for _ in range(4)], sep=s)
        out[f"{sn} of parentheses"] = g.both(g.paren(g.factor()), g.paren(g.factor()), sep=s)
        for on, o in ors.items():
            a, b, c, d = (g.factor() for _ in range(4))
            out[f"{sn} then {on}"] = g.either(g.both(a, b, sep=s), c, sep=o)
            out[f"{on} then {sn}"] = g.either(a, g.both(b, c, sep=s), sep=o)
            out[f"{sn} {on} {sn}"] = g.either(g.both(a, b, sep=s), g.both(c, d, sep=s), sep=o)
            out[f"({on}) {sn} plain"] = g.both(g.paren(g.either(a, b, sep=o)), c, sep=s)
            out[f"plain {sn} ({on})"] = g.both(a, g.paren(g.either(b, c, sep=o)), sep=s)
            out[f"({on}) {sn} ({on})"] = g.both(g.paren(g.either(a, b, sep=o)), g.paren(g.either(c, d, sep=o)), sep=s)
            out[f"({sn}) {on} ({sn})"] = g.either(g.paren(g.both(a, b, sep=s)), g.paren(g.both(c, d, sep=s)), sep=o)
            out[f"(({on}) {sn} plain) {on} plain"] = g.either(g.paren(g.both(g.paren(g.either(a, b, sep=o)), c, sep=s)), d, sep=o)
    for on, o in ors.items():
        for v, n in product(VALUES if full else ["unquoted", "quoted", "wildcard", "list:unquoted"], (False, True)):
            out[f"{v} {n} {on} plain"] = g.either(g.factor(v, n), g.factor(), sep=o)
            out[f"plain {on} {v} {n}"] = g.either(g.factor(), g.factor(v, n), sep=o)
        out[f"three by {on}"] = g.either(g.factor(), g.factor("quoted", True), g.factor("wildcard"), sep=o)
        out[f"{on} of parentheses"] = g.either(g.paren(g.factor()), g.paren(g.factor()), sep=o)
    out["mixed separators"] = g.both(g.factor(), g.factor(), sep=" AND ")
    a, b, c = (g.factor() for _ in range(3))
    out["comma and AND"] = (f"{a[0]}~,~{b[0]} AND {c[0]}", f"And([{a[1]}, {b[1]}, {c[1]}])")
    out["one in parentheses"] = g.paren(g.factor())
    out["one in two parentheses"] = g.paren(g.paren(g.factor("list:unquoted", True)))
    out["empty"] = ("", "")  # written {}: see aggregate()
    return out


def texts(g: Gen, full: bool) -> dict:
    """Everything that is not a filter: label -> (template, denotation)."""
    out: dict = {}
    F = g.factor
    for m in ("name", "quoted name", "mri", "quoted mri"):
        out[f"aggregate of a {m}"] = g.aggregate(m)
        out[f"bare {m}"] = (lambda x: (x[0], f"Timeseries({x[1]}, 'AGGREGATE_PLACEHOLDER')"))(g.metric(m))
        out[f"bare {m} with a filter"] = (lambda x, f: (x[0] + braces(f), f"Timeseries({x[1]}, 'AGGREGATE_PLACEHOLDER', filters=[{f[1]}])"))(g.metric(m), F())
        for p in ((), ("number",), ("quoted",), ("word",), ("number", "quoted"), ("word", "number", "quoted"), ("number", "number")):
            out[f"aggregate{p} of a {m}"] = g.aggregate(m, p)
        for p, i, ig, gr, o, og in product((None, ("number",)), (False, True), (None, 1, 2), (None, 1, 0), (False, True), (None, 1, 3)):
            if not full and (m != "name" or p is not None) and sum(x is not None and x is not False for x in (i, ig, gr, o, og)) not in (1, 5):
                continue
            out[f"aggregate{p} of a {m}, inner filter {i}, inner by {ig}, by {gr}, filter {o}, outer by {og}"] = g.aggregate(
                m, p, F("quoted") if i else None, ig, gr, F(neg=True) if o else None, og)
    ts = g.aggregate
    args = {"an aggregate": lambda: ts(), "a dressed aggregate": lambda: ts(inner=F(), outgroup=1), "a function": lambda: g.function(ts()), "a number": g.number, "a string": g.quoted,
            "a sum": lambda: g.arith([ts(), ts()], ("+",)), "a nested sum": lambda: g.paren(g.arith([ts(), ts()], ("+",))),
            "a curried aggregate": lambda: ts(params=("number", "word")), "a curried function": lambda: g.function(ts(), params=("number",)), "a negated aggregate": lambda: g.minus(ts()),
            "a negated number": lambda: g.minus(g.number()), "a product": lambda: g.arith([ts(), g.number()], ("*",)), "a dressed sum": lambda: dressed(
                g, g.paren(g.arith([ts(), ts()], ("/",))), outer=F(), outgroup=2)}
    for an, a in args.items():
        if an not in ("a number", "a string", "a negated number"):
            out[an] = a()
            out[f"{an} in parentheses"] = g.paren(a())
            out[f"{an} in two parentheses"] = g.paren(g.paren(a()))
        for p in (None, (), ("number",), ("word", "quoted")):
            out[f"function{p} of {an}"] = g.function(a(), params=p)
            out[f"function{p} of {an} and a number"] = g.function(a(), g.number(), params=p)
            out[f"function{p} of an aggregate and {an}"] = g.function(ts(), a(), params=p)
            out[f"function{p} of an aggregate, {an} and a string"] = g.function(ts(), a(), g.quoted(), params=p)
        for an2, b in args.items():
            if full:
                out[f"function of {an}, {an2}"] = g.function(ts(), a(), b())
                for o in "+-*/":
                    if an not in ("a sum", "a product") and an2 not in ("a sum", "a product"):
                        out[f"{an} {o} {an2}"] = g.arith([ts(), a(), b()], ("+", o))
    for p, gr, o, og in product((None, ("number",)), (None, 1, 2), (False, True), (None, 1, 2)):
        out[f"function{p}, by {gr}, filter {o}, outer by {og}"] = g.function(ts(), g.number(), params=p, group=gr, outer=F() if o else None, outgroup=og)
        out[f"function{p} of a function, by {gr}, filter {o}, outer by {og}"] = g.function(g.function(ts(inner=F(), ingroup=1)), params=p, group=gr, outer=F() if o else None, outgroup=og)
    for o, og in product((False, True), (None, 1, 2)):
        if o or og:
            out[f"sum in parentheses, filter {o}, by {og}"] = dressed(g, g.arith([ts(), ts()], ("-",)), outer=F() if o else None, outgroup=og)
            out[f"aggregate in parentheses, filter {o}, by {og}"] = dressed(g, ts(), outer=F() if o else None, outgroup=og)
    # the same piece in two places: neither is dropped
    for v, n in product(["unquoted", "quoted", "wildcard", "list:unquoted"], (False, True)):
        f, h = F(v, n), F()
        what = f"{'not ' if n else ''}{v}"
        out[f"equal inner and outer filter, {what}"] = ts(inner=f, outer=f)
        out[f"equal filters by AND, {what}"] = ts(outer=g.both(f, f, sep=" AND "))
        out[f"equal filters by OR, {what}"] = ts(outer=g.either(f, f))
        out[f"three filters, two equal, {what}"] = ts(inner=g.both(f, h, f))
        out[f"equal filters across OR, {what}"] = ts(outer=g.either(g.both(f, h), f))
        out[f"an inner filter equal to a part of the outer, {what}"] = ts(inner=f, outer=g.both(f, h))
        out[f"equal filters on operands and sum, {what}"] = dressed(g, g.arith([ts(inner=f), ts(outer=f)], ("+",)), outer=f)
        out[f"equal filters on argument and function, {what}"] = g.function(ts(inner=f), outer=f)
        k, val, w = g.key(), g.value("unquoted"), g.value("unquoted")
        out[f"equal keys, {what}"] = ts(outer=g.both(*[(f"{k[0]}:{x[0]}", f"Condition({k[1]}, Op.EQ, {x[1]})") for x in (val, w)]))
        out[f"a filter and its negation, {what}"] = ts(outer=g.both(*[(f"{m}{k[0]}:{val[0]}", f"Condition({k[1]}, Op.{o}, {val[1]})") for m, o in (("", "EQ"), ("!", "NEQ"))]))
    x, y, n_ = ts(), ts(inner=F(), outgroup=1), g.number()
    for o in "+-*/":
        out[f"equal operands of {o}"] = g.arith([x, x], (o,))
        out[f"equal dressed operands of {o}"] = g.arith([y, x, y], (o, o))
        out[f"equal numbers in {o}"] = g.arith([n_, x, n_], (o, o))
        out[f"equal nested operands of {o}"] = g.arith([g.paren(g.arith([x, y], (o,))), g.paren(g.arith([x, y], (o,)))], (o,))
    out["equal arguments"] = g.function(x, x, n_, n_)
    out["equal dressed arguments"] = g.function(y, y)
    g1, g2 = g.leaf("g"), g.leaf("g")
    m1 = g.metric()
    for t, names in ((f"sum({m1[0]}) by (~{g1[0]}~,~{g1[0]}~)", (g1, g1)), (f"sum({m1[0]} by {g1[0]}) by {g1[0]}", (g1, g1)), (f"sum({m1[0]} by {g1[0]}) by ({g2[0]}, {g1[0]})", (g2, g1, g1)),
                     (f"sum({m1[0]}) by ({g1[0]}, {g2[0]}, {g1[0]})", (g1, g2, g1))):
        out[f"repeated group-by {len(out)}"] = (t, f"Timeseries({m1[1]}, 'sum', groupby=[{', '.join(f'Column({e})' for _, e in names)}])")
    v1 = g.value("unquoted")
    out["equal values in a list"] = ts(outer=(f"tt:[~{v1[0]}~,~{v1[0]}~]", f"Condition(Column('tt'), Op.IN, [{v1[1]}, {v1[1]}])"))
    # nested negations
    neg = lambda z: g.minus(g.paren(g.minus(z)))
    out["double negation"] = neg(ts())
    out["triple negation"] = g.minus(g.paren(neg(ts())))
    out["double negation of a sum"] = neg(g.paren(g.arith([ts(), ts()], ("+",))))
    out["double negation in a product"] = g.arith([ts(), neg(ts())], ("*",))
    out["negated dressed negation"] = g.minus(dressed(g, g.minus(ts()), outer=F()))
    out["negated grouped negation"] = g.minus(dressed(g, g.minus(ts()), outgroup=1))
    out["negated dressed double negation"] = g.minus(dressed(g, g.minus(dressed(g, g.minus(ts()), outer=F(), outgroup=1)), outer=F("quoted")))
    for o in "+-*/":
        out[f"subtracted negation {o}"] = g.arith([ts(), g.minus(ts())], (o,))
        out[f"negated {o} of negations"] = g.minus(g.paren(g.arith([g.minus(ts()), g.minus(ts())], (o,))))
    ops = "+-*/"
    for n in (1, 2, 3) + ((4,) if full else ()):
        for os_ in product(ops, repeat=n):
            out["chain " + "".join(os_)] = g.arith([ts() for _ in range(n + 1)], os_)
            if n <= 2:
                out["chain of numbers " + "".join(os_)] = g.arith([ts()] + [g.number() for _ in range(n)], os_)
                out["chain after a number " + "".join(os_)] = g.arith([g.number()] + [ts() for _ in range(n)], os_)
                for i in range(n + 1):
                    xs = [ts() for _ in range(n + 1)]
                    xs[i] = g.minus(xs[i])
                    out[f"chain {''.join(os_)} with operand {i} negated"] = g.arith(xs, os_)
                    xs = [ts() for _ in range(n + 1)]
                    xs[i] = g.function(ts(), g.number(), outer=F(), outgroup=1)
                    out[f"chain {''.join(os_)} with operand {i} a dressed function"] = g.arith(xs, os_)
    for o1, o2 in product(ops, repeat=2):
        out[f"left nested {o1} {o2}"] = g.arith([g.paren(g.arith([ts(), ts()], (o1,))), ts()], (o2,))
        out[f"right nested {o1} {o2}"] = g.arith([ts(), g.paren(g.arith([ts(), ts()], (o2,)))], (o1,))
        out[f"negated group {o1} {o2}"] = g.arith([ts(), g.minus(g.paren(g.arith([ts(), ts()], (o2,))))], (o1,))
        for o3 in ops:
            out[f"both nested {o1} {o2} {o3}"] = g.arith([g.paren(g.arith([ts(), ts()], (o1,))), g.paren(g.arith([ts(), ts()], (o3,)))], (o2,))
    return out


M = "\u00abm1\u00bb"
BAD = [
    "", " ", "(", ")", "sum(", "sum)", f"sum({M}", f"sum {M})", f"sum({M}))", f"(sum({M})", f"sum({M}) +", f"+ sum({M})", f"sum({M}) + + sum({M})", f"sum({M}) * * sum({M})",
    f"sum({M}) sum({M})", f"sum({M}) % sum({M})", f"sum({M}) ^ 2", f"* sum({M})", f"/ sum({M})", f"sum({M}) /", "sum()", "sum(,)", f"sum({M},)", f"sum(,{M})",
    f"sum({M}){{", f"sum({M})}}", f"sum({M}){{t", f"sum({M}){{t}}", f"sum({M}){{t:}}", f"sum({M}){{:v}}", f"sum({M}){{t:v", f"sum({M}){{t:v,}}", f"sum({M}){{,t:v}}", f"sum({M}){{t:v or}}",
    f"sum({M}){{or t:v}}", f"sum({M}){{t:v OR OR u:w}}", f"sum({M}){{t:v AND}}", f"sum({M}){{t:v,,u:w}}", f"sum({M}){{(t:v}}", f"sum({M}){{t:v)}}", f"sum({M}){{()}}", f"sum({M}){{!!t:v}}",
    f"sum({M}){{t!:v}}", f"sum({M}){{t:!\"v\"}}", f"sum({M}){{t:\"v}}", f"sum({M}){{t:v\"}}", f"sum({M}){{t:[}}", f"sum({M}){{t:]}}", f"sum({M}){{t:[]}}", f"sum({M}){{t:[v,]}}",
    f"sum({M}){{t:[,v]}}", f"sum({M}){{t:[v w]}}", f"sum({M}){{t:*}}", f"sum({M}){{t:*v}}", f"sum({M}){{t:v*w}}", f"sum({M}){{t:v**}}", f"sum({M}){{t:[v*]}}", f"sum({M}){{t=v}}",
    f"sum({M}){{t-u:v}}", f"sum({M}){{\"t\":v}}", f"sum({M}) by", f"sum({M}) by ()", f"sum({M}) by (g", f"sum({M}) by g,h", f"sum({M}) by (g,)", f"sum({M}) by (,g)", f"sum({M}) by (g h)",
    f"sum({M}) by \"g\"", f"sum({M}){{t:v}}{{u:w}}", f"sum({M}) by g by h by i", f"{{t:v}}", "by g", f"`{M}", f"{M}`", f"sum(`{M})", f"sum({M}`)", "sum(`d:x`)", "sum(d:x)", "sum(Foo)", "sum(foo1)",
    "sum(foo..bar)", "sum(.foo)", "sum(foo.)", f"sum(0.5,)({M})", f"sum(,0.5)({M})", f"sum(0.5 1)({M})", f"sum(0.5)({M}", f"1. + sum({M})", f".5 + sum({M})", f"1.2.3 * sum({M})",
    f"sum[{M}]", f"sum({M});", f"sum({M}) -- 1 sum({M})", f"f(sum({M}) sum({M}))", f"f(sum({M}),)", f"f(,sum({M}))", "$x", f"sum({M}){{$t:v}}", f"sum({M}){{t:v}} by",
    f"sum({M}) + $x", "'foo'", f"sum('{M}')", "\"", f"\"abc", f"f(sum({M}), \"x)", f"sum({M}) by g)", f"sum({M}) by g}}", f"sum({M}) and sum({M})", f"sum({M}), sum({M})", f"sum({M}) = 1",
]


QUOTED = ["p  q", "  p", "p  ", "   ", "p\tq", "p\nq", "p \n q", "p , q", "( p )", "a and  b", "A OR b", "UPPER lower", "{x: \"y\"}".replace('"', "'"), "a + b", "-1", "1e5", "0.50", "null", "TRUE",
          "#c", "-- c", "/* c", "`b`", "$v", "x:y", "\u00a0p", "p\u3000q", "\u00e9\u0130", "q" * 300]


class Parsing:
    """Templates over symbolic leaves, for one analysis."""

    def __init__(self, ck: Check, cl: Client, kinds: dict = KINDS, floats: Any = None) -> None:
        self.ck, self.cl, self.I = ck, cl, ck.I
        self.kinds = kinds
        self.late = 0
        #: the language of str(float(n)) for a number n
        self.floats = L.Regex(floats, 0, "fullmatch") if floats else None
        self.langs = {k: L.Regex(rx, 0, "fullmatch") for k, (rx, _) in kinds.items()}

    def template(self, text: str, k: int, st: State) -> tuple:
        """The template as a term, its leaves bound in the state; the k-th representative of each leaf."""
        parts: list = []
        pos = 0
        memo: dict = {}
        for m in LEAF.finditer(text):
            parts.append(const(text[pos:m.start()]))
            name = m.group(1)
            if name not in memo:
                x = self.ck.inp(name, ty("str") if name[0] == "q" else ty("str", truthy=True))
                reps = self.kinds[name[0]][1]
                rep = reps[(k + len(memo)) % len(reps)] if k else reps[0]
                self.I.leaves[x] = (self.langs[name[0]], rep)
                if name[0] == "n" and self.floats is not None:
                    f = T("app", "float", x)
                    t = fmt(f, "", "", False)
                    self.I.leaves[t] = (self.floats, str(float(rep)))
                    self.I.leaf_float[t] = f
                memo[name] = x
            parts.append(memo[name])
            pos = m.end()
        parts.append(const(text[pos:]))
        return cat(*parts), memo

    def start(self, text: str, k: int) -> State:
        st = self.ck.fresh()
        self.clear()
        st.mod = self.cl.mod
        t, names = self.template(text, k, st)
        st.frames[0] = {"mql": t, **names}
        return st

    def clear(self) -> None:
        self.I.leaves.clear()
        self.I.leaf_float.clear()

    def show(self, st: State) -> str:
        t = st.frames[0]["mql"]
        return "".join(cval(p) if p.k == "const" else self.I.leaves[p][1] for p in (t.a if t.k == "cat" else [t]))

    def compare(self, text: str, k: int, expr: str, want: str) -> Optional[str]:
        try:
            # where earlier texts took too long, do not wait as long again
            with deadline(10 if self.late < 3 else 2):
                return self.compare_(self.start(text, k), expr, want)
        except (Undecided, Unsupported, TooLong, RecursionError) as e:
            self.late += isinstance(e, TooLong)
            # e.g. the parse cuts a name or value in two: what becomes of the representatives?
            st = self.start(text, k)
            rep = self.show(st)
            st.frames[0] = {"mql": const(rep), **{n: const(self.I.leaves[x][1]) for n, x in st.frames[0].items() if n != "mql"}}
            self.clear()
            with deadline(10):
                r = self.compare_(st, expr, want)
            if r is None:
                raise Undecided(str(e) or type(e).__name__)
            return r

    def compare_(self, st: State, expr: str, want: str) -> Optional[str]:
        I = self.I
        try:
            und = None
            rep = self.show(st)
            outs = self.cl.value(expr, st)
            if not outs:
                raise Undecided("no outcome")
            for s, v in outs:
                t = taint(s)
                if isinstance(v, Raised):
                    if not t:
                        return f"{rep!r} raises {v.exc} at {v.where} [{facts(I, s)}]"
                    und = und or t
                    continue
                got = canon(I, s, I.freeze(s, v))
                for s2, wv in self.cl.value(want, s.copy()):
                    if isinstance(wv, Raised):
                        raise Undecided(f"the expected value raises {wv.exc} at {wv.where}")
                    exp = canon(I, s2, I.freeze(s2, wv))
                    if canon(I, s2, got) is not exp:
                        if t or has_unk(got):
                            und = und or t or show(find_unk(got))
                        elif never_differ(I, s2, canon(I, s2, got), [exp]):
                            und = und or f"whether {show(got)[:200]} is another way to write {show(exp)[:200]}"
                        else:
                            return f"{rep!r} yields {show(got)} instead of {show(exp)} [{facts(I, s)}]"
            if und:
                raise Undecided(f"depends on {und}")
            return None
        finally:
            self.clear()

    def rejects(self, text: str, k: int, expr: str, exc: str) -> Optional[str]:
        st = self.start(text, k)
        try:
            rep = self.show(st)
            for s, v in self.cl.value(expr, st):
                if taint(s):
                    raise Undecided(f"depends on {taint(s)}")
                if not isinstance(v, Raised):
                    return f"{rep!r} is accepted as {show(self.I.freeze(s, v))}"
                if not self.raised_is(v, exc):
                    return f"{rep!r} raises {v.exc} at {v.where}"
            return None
        finally:
            self.clear()

    def raised_is(self, v: Raised, exc: str) -> bool:
        c = self.I.classes.get(v.exc)
        return v.exc == exc or (c is not None and c.subclass_of(exc))


def spaced(t: str, how: int) -> str:
    if how == 0:
        return t.replace("~", "")
    if how == 1:
        return t.replace("~", " ")
    i = [0]

    def f(m: Any) -> str:
        i[0] += 1
        return ["  ", "\n", "\t ", ""][i[0] % 4] if m.group() == "~" else [" ", "\n", "  "][i[0] % 3]

    # spaces that belong to the template, not to a leaf
    return " " + re.sub("[~ ]", f, t) + "\n"


def all_cases(full: bool) -> dict:
    g = Gen()
    cases: dict = {}
    for n, f in filters(g, full).items():
        cases[f"filter {n} on an aggregate"] = g.aggregate(outer=f)
        cases[f"filter {n} on a metric"] = g.aggregate(inner=f, outgroup=1)
        if full or " " not in n:
            cases[f"filter {n} on a sum"] = dressed(g, g.arith([g.aggregate(), g.aggregate()], ("+",)), outer=f, outgroup=2)
            cases[f"filter {n} on a function"] = g.function(g.aggregate(), g.number(), outer=f)
            cases[f"filter {n} on a bare metric"] = (lambda x: (x[0] + braces(f), f"Timeseries({x[1]}, 'AGGREGATE_PLACEHOLDER', filters=[{f[1]}] or None)"))(g.metric())
    cases.update(texts(g, full))
    return cases


def run(ck: Check) -> None:
    I = ck.I
    I.field_specs = dict(FIELDS)
    cl = Client(ck, EXTRA, depth=400)
    ps = Parsing(ck, cl)
    full = ck.tier == "thorough"
    rd = ck.rule("denotes", "the parsed object is the one that the text denotes")
    rj = ck.rule("outside", "a text outside the language raises the MQL error")
    # white space and syntax inside quotes is text
    for i, v in enumerate(QUOTED):
        texts_ = [(f'sum(foo){{t:"{v}"}}', f"Timeseries(Metric('foo'), 'sum', filters=[Condition(Column('t'), Op.EQ, {v!r})])"),
                  (f'sum(foo{{!t:"{v}"}}) by g', f"Timeseries(Metric('foo'), 'sum', filters=[Condition(Column('t'), Op.NEQ, {v!r})], groupby=[Column('g')])"),
                  (f'sum(foo){{t:["{v}", "x"]}}', f"Timeseries(Metric('foo'), 'sum', filters=[Condition(Column('t'), Op.IN, [{v!r}, 'x'])])"),
                  (f'fn(sum(foo), "{v}")', f"Formula('fn', [Timeseries(Metric('foo'), 'sum'), {v!r}])"),
                  (f'fn("{v}", 1)(foo)', f"Timeseries(Metric('foo'), 'fn', [{v!r}, 1.0])")]
        for j, (t, want) in enumerate(texts_):
            ck.ob(rd, W, f"quoted text {i}, place {j}", lambda: ps.compare(t, 0, "view(parse_mql(mql))", f"view({want})"))
    cases = all_cases(full)
    some = [(0, 0), (2, 5), (1, 1), (0, 3), (2, 2), (1, 4), (0, 6)]
    layouts = [(h, k) for h in (0, 1, 2) for k in range(8)]
    for i, (label, (t, want)) in enumerate(cases.items()):
        for h, k in layouts if full else (some[i % 7], some[(i + 1) % 7]) if "inner filter" in label else (some[i % 7], some[(i + 1) % 7], some[(i + 3) % 7]):
            ck.ob(rd, W, f"{label} (layout {h}, representatives {k})", lambda: ps.compare(spaced(t, h), k, "view(parse_mql(mql))", f"view({want})"))
    for b in BAD:
        for k in (0, 1) if M in b else (0,):
            ck.ob(rj, W, f"{b.replace(M, 'NAME')!r} ({k})", lambda: ps.rejects(b, k, "parse_mql(mql)", "snuba_sdk.mql.mql.InvalidMQLQueryError"))
