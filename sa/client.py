"""Client programs: small pieces of Python that use the package, interpreted abstractly
together with the package source.  A client builds objects of a known shape (leaves may
be symbolic inputs), calls public operations and names the results."""
from __future__ import annotations

import ast
import textwrap
from typing import Any, Optional

from .framework import Check, Undecided
from .model import AnalysisBroken, Module, Raised, State
from .stmts import NEXT, RAISE
from .terms import SET_ORDER, T, Term

PRELUDE = """
import datetime
from datetime import datetime as DT
from snuba_sdk import *
from snuba_sdk import (AliasedExpression, And, ArithmeticOperator, BooleanCondition, BooleanOp, Column, Condition, CurriedFunction, Direction,
    Entity, Extrapolate, Flags, Formula, Function, Granularity, Identifier, Join, Lambda, Limit, LimitBy, Metric, MetricsQuery, MetricsScope,
    MQLContext, Offset, Op, Or, OrderBy, Query, Relationship, Request, Rollup, Storage, Timeseries, Totals, DeleteQuery)
from snuba_sdk.schema import Column as SColumn, DataModel
from snuba_sdk.visitors import Translation
"""


class Client:
    def __init__(self, ck: Check, extra: str = "", depth: int = 24) -> None:
        self.ck, self.I, self.depth = ck, ck.I, depth
        tree = ast.parse(PRELUDE + textwrap.dedent(extra))
        self.mod = Module("client", "client.py", "client.py", tree)
        self.I.load(self.mod)
        for name in ("Query", "Column", "MetricsQuery", "Request"):
            if name not in self.mod.ns:
                raise AnalysisBroken(f"snuba_sdk.{name} is gone")

    def start(self, **inputs: Any) -> State:
        st = self.ck.fresh()
        st.mod = self.mod
        st.frames[0] = {n: (v if isinstance(v, Term) else self.ck.inp(n, v)) for n, v in inputs.items()}
        return st

    def run(self, src: str, st: State) -> list:
        """[(state, None | Raised)]; the names the program binds are in the state's frame."""
        body = ast.parse(textwrap.dedent(src)).body
        st.mod, st.cur, st.fn = self.mod, 0, None
        out = []
        with self.ck.depth(self.depth):
            for s, sig, v in self.I.exec_block(body, st):
                out.append((s, v if sig == RAISE else None))
        return out

    def setup(self, src: str, **inputs: Any) -> State:
        """The single state after a set-up program that does not raise."""
        outs = self.run(src, self.start(**inputs))
        bad = [v for _, v in outs if v is not None]
        if bad:
            raise Undecided(f"set-up raises {bad[0].exc} at {bad[0].where}")
        if len(outs) != 1:
            raise Undecided(f"set-up has {len(outs)} outcomes")
        return outs[0][0]

    def setups(self, src: str, **inputs: Any) -> list:
        """The states after a set-up program, which must not raise."""
        outs = self.run(src, self.start(**inputs))
        bad = [v for _, v in outs if v is not None]
        if bad:
            raise Undecided(f"set-up raises {bad[0].exc} at {bad[0].where}")
        if not outs or len(outs) > 128:
            raise Undecided(f"set-up has {len(outs)} outcomes")
        return [s for s, _ in outs]

    def value(self, src: str, st: State) -> list:
        """[(state, term | Raised)] of an expression."""
        e = ast.parse(src.strip(), mode="eval").body
        st.mod, st.cur, st.fn = self.mod, 0, None
        with self.ck.depth(self.depth):
            return self.I.ev(e, st)

    def get(self, st: State, name: str) -> Term:
        return st.frames[0][name]


def unordered(t: Term) -> Term:
    """Dictionaries with constant keys, in a fixed order."""
    from .terms import subst

    def f(x: Term) -> Optional[Term]:
        if x.k == "dict" and all(e.k == "entry" and e.a[0].k == "const" for e in x.a[0]):
            es = tuple(sorted((T("entry", e.a[0], unordered(e.a[1])) for e in x.a[0]), key=lambda e: repr(e.a[0])))
            return T("dict", es)
        return None

    return subst(t, f)


class Expect:
    """Obligations of the form: in every outcome of `expr` after `setup`, the value is that of `want`."""

    def __init__(self, ck: Check, cl: Client, rule: str, hooks: Any = ()) -> None:
        self.ck, self.cl, self.rule, self.hooks = ck, cl, rule, tuple(hooks)
        self.cache: dict = {}

    def start(self, src: str, inputs: dict) -> list:
        key = (SET_ORDER['reverse'], src, tuple(sorted(inputs.items(), key=lambda kv: kv[0])))
        if key not in self.cache:
            try:
                with self.ck.hooked(*self.hooks):
                    self.cache[key] = self.cl.setups(src, **inputs)
            except Undecided as e:
                self.cache[key] = e
        got = self.cache[key]
        if isinstance(got, Undecided):
            raise got
        for n, v in inputs.items():
            if not isinstance(v, Term):
                self.ck.inp(n, v)
        return [g.copy() for g in got]

    def outs(self, src: str, inputs: dict, expr: str) -> list:
        outs = []
        for st in self.start(src, inputs):
            with self.ck.hooked(*self.hooks):
                outs += self.cl.value(expr, st)
        if not outs:
            raise Undecided("no outcome")
        return outs

    def eq(self, where: str, label: str, src: str, expr: str, want: Any, ordered: bool = True, project: Any = None, **inputs: Any) -> None:
        wants = [want] if isinstance(want, str) else list(want)

        def f() -> Optional[str]:
            return self.compare(src, expr, wants, inputs, ordered, project)

        if self.ck.judge is not None:
            self.ck.judge(self, where, label, src, inputs, expr)
            return
        self.ck.ob(self.rule, where, label, f)

    def compare(self, src: str, expr: str, wants: list, inputs: dict, ordered: bool = True, project: Any = None) -> Optional[str]:
        from .framework import facts, taint
        from .render import canon
        from .terms import find_unk, has_unk, show
        from .witness import never_differ

        I = self.ck.I
        und = None
        for s, v in self.outs(src, inputs, expr):
            t = taint(s)
            if isinstance(v, Raised):
                if not t:
                    return f"raises {v.exc} at {v.where} [{facts(I, s)}]"
                und = und or t
                continue
            got = canon(I, s, I.freeze(s, v))
            if not ordered:
                got = unordered(got)
            if project:
                got = project(got)
            ok, shown, exps = False, None, []
            for w in wants:
                with self.ck.hooked(*self.hooks):
                    ws = self.cl.value(w, s.copy())
                good = bool(ws)
                for s2, wv in ws:
                    if isinstance(wv, Raised):
                        raise Undecided(f"the expected value raises {wv.exc} at {wv.where}")
                    exp = canon(I, s2, I.freeze(s2, wv))
                    if not ordered:
                        exp = unordered(exp)
                    if project:
                        exp = project(exp)
                    if has_unk(exp):
                        raise Undecided(f"the expected value depends on {show(find_unk(exp))}")
                    g2 = got if s2 is s else canon(I, s2, got)
                    shown = shown or exp
                    exps.append(exp)
                    if g2 is not exp:
                        good = False
                ok = ok or good
            if ok:
                continue
            if t or has_unk(got):
                und = und or t or show(find_unk(got))
                continue
            if never_differ(I, s, got, exps):
                und = und or f"whether {show(got)[:200]} is another way to write {show(shown)[:200]}"
                continue
            return f"yields {show(got)} instead of {show(shown)} [{facts(I, s)}]"
        if und:
            raise Undecided(f"depends on {und}")
        return None

    def raises(self, where: str, label: str, src: str, expr: str, allowed: Any = None, **inputs: Any) -> None:
        from .framework import expect_raise

        if self.ck.judge is not None:
            self.ck.judge(self, where, label, src, inputs, expr)
            return
        self.ck.ob(self.rule, where, label, lambda: expect_raise(self.ck.I, self.outs(src, inputs, expr), allowed))

    def accepts(self, where: str, label: str, src: str, expr: str, **inputs: Any) -> None:
        from .framework import expect_accept

        if self.ck.judge is not None:
            self.ck.judge(self, where, label, src, inputs, expr)
            return
        self.ck.ob(self.rule, where, label, lambda: expect_accept(self.ck.I, self.outs(src, inputs, expr)))
