"""C13: no operation modifies its receiver or arguments."""
from __future__ import annotations

from typing import Any, Optional

from ..client import Client
from ..framework import Check, Undecided, taint
from ..model import Raised, State
from ..spec import *
from ..terms import *
from . import c15, c16, c17, c18, c21, c22, c23, ops

FROZEN = sorted(EXPRESSIONS | {QUERY, DQUERY, FORMULA, METRIC, ROLLUP})
INPUTS = {"t0": ty("datetime"), "t1": ty("datetime")}


def mutations(I: Any, before: State, after: State, roots: set) -> Optional[str]:
    for oid, r in before.heap.items():
        r2 = after.heap.get(oid)
        if r2 is not None and not r2.same(r):
            o = T("obj", oid)
            name = next((n for n, v in before.frames[0].items() if v is o), None) or f"a {r.kind if r.kind != 'inst' else r.cls.name} inside it"
            return f"{name} was {show(I.freeze(before, o))[:200]} and becomes {show(I.freeze(after, o))[:200]}"
    ev = event(after.events, lambda e: e[0] == "mutate" and rooted(e[1], roots))
    if ev:
        return f"{ev[2]} of {show(ev[1])[:160]} is modified at {ev[3]}"
    return None


def event(evs: Any, ok: Any) -> Optional[tuple]:
    for e in evs:
        if ok(e):
            return e
        if e[0] == "foreach":
            for _, inner in e[2]:
                r = event(inner, ok)
                if r:
                    return r
    return None


def rooted(t: Term, roots: set) -> bool:
    while t.k in ("attr", "elem", "it", "item", "slice"):
        t = t.a[0]
    return t in roots


def judged(ex: Any, src: str, inputs: dict, expr: str) -> Optional[str]:
    """The operation of another check's client program leaves what existed before it alone."""
    I = ex.ck.I
    und = None
    for st in ex.start(src, inputs):
        before = st.copy()
        roots = {v for v in before.frames[0].values() if v.k == "sym"}
        with ex.ck.hooked(*ex.hooks):
            outs = ex.cl.value(expr, st)
        for s, _ in outs:
            m = mutations(I, before, s, roots)
            t = taint(s)
            if m and not t:
                return m
            und = und or t
    if und:
        raise Undecided(f"depends on {und}")
    return None


def run(ck: Check) -> None:
    I = ck.I
    cl = Client(ck, ops.EXTRA)
    r = ck.rule("heap", "after the operation, on every path and also when it raises, every object that existed before is as it was")
    rf = ck.rule("frozen", "assigning to or deleting an attribute of an object of an immutable class raises")
    I.field_specs = dict(FIELDS)
    for label, src, todo in ops.scenarios():
        box: dict = {}

        def start() -> State:
            rev = SET_ORDER['reverse']
            if rev not in box:
                try:
                    box[rev] = cl.setup(src, **INPUTS)
                except Exception as e:
                    box[rev] = e
            if isinstance(box[rev], Exception):
                raise Undecided(f"set-up: {box[rev]}")
            for n, v in INPUTS.items():
                ck.inp(n, v)
            return box[rev].copy()

        for op in todo:
            def f() -> Optional[str]:
                st = start()
                before = st.copy()
                outs = cl.value(op, st)
                if not outs:
                    raise Undecided("no outcome")
                roots = {v for v in before.frames[0].values() if v.k == "sym"}
                und = None
                for s, v in outs:
                    m = mutations(I, before, s, roots)
                    t = taint(s)
                    if m and not t:
                        return m
                    und = und or t
                    if not isinstance(v, Raised) and has_unk(v):
                        und = show(find_unk(v))
                if und:
                    raise Undecided(f"depends on {und}")
                return None

            ck.ob(r, op, label, f)
    ck.borrow([c15, c16, c17, c18, c21, c22, c23], r, judged)
    # immutability
    for q in FROZEN:
        c = I.cls_by_q(q)
        where = f"{c.module.rel}:{c.name}"

        def g() -> Optional[str]:
            if not I.is_frozen(c):
                return "the class is not a frozen dataclass"
            for n in ("__setattr__", "__delattr__"):
                m = c.lookup(n)
                if m is not None:
                    raise Undecided(f"{m[0].name} defines {n}")
            return None

        ck.ob(rf, where, "assigning to an attribute", g)
