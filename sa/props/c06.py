"""C06: how each type of literal is rendered."""
from __future__ import annotations

import datetime as dt
from typing import Any, Optional

from ..framework import Check, Undecided, expect_raise
from ..model import Raised, State
from ..render import *
from ..spec import *
from ..terms import *

ELEM = ty(LITERAL, "list", "tuple", EXPRESSIONS - {EXTRA})
ELEM.elem = ELEM


# dates and times written out: every sign of the offset, its fractions, the ends of the range of microseconds
H = dt.timedelta(hours=1)
ZONES = [dt.timezone.utc] + [dt.timezone(h * H) for h in (1, -1, 5.5, -3.5, 14, -12, 0.25)] + [dt.timezone(dt.timedelta(hours=5, seconds=1))]
WRITTEN = [dt.date(2021, 1, 2), dt.datetime(2021, 1, 2), dt.datetime(2021, 1, 2, 3, 4, 5, 6), dt.datetime(2021, 1, 2, 3, 4, 5, 678000),
           dt.datetime(2021, 1, 2, 3, 4, 5, fold=1), dt.date(999, 12, 31), dt.datetime(999, 1, 2, 3)] + [
    dt.datetime(*d, tzinfo=z) for z in ZONES for d in ((2021, 1, 2), (2021, 12, 31, 23, 59, 59, 999999))]


def text(v: Any) -> str:
    """The documented text: naive, in UTC."""
    if isinstance(v, dt.datetime) and v.tzinfo is not None:
        v = v.astimezone(dt.timezone.utc).replace(tzinfo=None)
    return f"toDateTime('{v.isoformat()}')"


def visit(ck: Check, rd: Renderers, x: Term, mql: bool, hook: bool = True, st: Optional[State] = None, prep: Any = None, aliases: bool = False) -> list:
    st = st if st is not None else ck.fresh()
    ck.I.field_specs = dict(FIELDS)
    ck.I.field_specs[(COND, "rhs")] = ty(COLUMN, FUNCS, LITERAL, "list", "tuple", elem=ELEM)
    if prep is not None:
        prep(st)
    o = rd.make(st, is_mql=const(mql), use_entity_aliases=const(aliases))
    with ck.hooked(*([rd.hook(x)] if hook else [])), ck.depth(2 if hook else 8):
        return ck.I.call_method(o, "visit", [x], {}, st)


def no_tzless_offset(outs: list) -> list:
    """A timezone whose offset is None is outside the property."""
    return [(s, v) for s, v in outs if not (isinstance(v, Raised) and any(t.k == "app" and t.a[0] == "utcoffset" and ts == {"NoneType"}
                                                                            for t, ts in s.types.items()))]


def run(ck: Check) -> None:
    I = ck.I
    rd = Renderers(ck)
    where = f"{rd.visit.module.rel}:Translation"
    r = ck.rule("literal", "the text of a literal is the documented one for its type, in SnQL and in MQL")
    node = sym("node")

    def lit(spec: Any, want: Any, mql: bool) -> Optional[str]:
        st = ck.fresh()
        x = spec if isinstance(spec, Term) else ck.inp("node", spec)
        outs = no_tzless_offset(visit(ck, rd, x, mql, st=st))
        return expect_text(I, outs, want)

    def instant(st: State) -> set:
        tz = I.types(st, T("bm", node, "tzinfo"))
        aware = cat(const("toDateTime('"), T("app", "isoformat", T("app", "naive_utc", node)), const("')"))
        naive = cat(const("toDateTime('"), T("app", "isoformat", node), const("')"))
        if tz <= {"NoneType"}:
            return {naive}
        if "NoneType" not in tz:
            return {aware}
        return {T("app", "either", aware, naive)}

    def bl(st: State) -> Any:
        d = I.decide(st, T("truthy", node))
        if d is None:
            raise Undecided("boolean literal")
        return const("TRUE" if d else "FALSE")

    for mql in (False, True):
        lang = "MQL" if mql else "SnQL"
        ck.ob(r, where, f"None, {lang}", lambda: lit(ty("NoneType"), const("NULL"), mql))
        ck.ob(r, where, f"None itself, {lang}", lambda: lit(NONE, const("NULL"), mql))
        ck.ob(r, where, f"True, {lang}", lambda: lit(TRUE, const("TRUE"), mql))
        ck.ob(r, where, f"False, {lang}", lambda: lit(FALSE, const("FALSE"), mql))
        ck.ob(r, where, f"any boolean, {lang}", lambda: lit(ty("bool"), bl, mql))
        ck.ob(r, where, f"any integer, {lang}", lambda: lit(ty("int"), fmt(node, "", "", False), mql))
        for n in (0, 1):
            ck.ob(r, where, f"{n}, {lang}", lambda: lit(const(n), const(str(n)), mql))
        ck.ob(r, where, f"any float, {lang}", lambda: lit(ty("float"), fmt(node, "", "", False), mql))
        for n in (0.0, 1.0):
            ck.ob(r, where, f"{n}, {lang}", lambda: lit(const(n), const(str(n)), mql))
        ck.ob(r, where, f"any date, {lang}", lambda: lit(ty("date"), cat(const("toDateTime('"), T("app", "isoformat", node), const("')")), mql))
        ck.ob(r, where, f"any datetime, {lang}", lambda: lit(ty("datetime"), instant, mql))
        for v in WRITTEN:
            ck.ob(r, where, f"{v!r}, {lang}", lambda: lit(const(v), const(text(v)), mql))
        for kind in ("list", "tuple"):
            pre, suf = ("[", "]") if mql else (("array(", ")") if kind == "list" else ("tuple(", ")"))
            ck.ob(r, where, f"any {kind}, {lang}",
                  lambda: lit(ty(kind, elem=ELEM), cat(const(pre), join(const(", "), (forseg(node, one(R(elem(node), mql=mql))),)), const(suf)), mql))
            for n in (0, 1, 2, 3):
                def sized() -> Optional[str]:
                    st = ck.fresh()
                    xs = [ck.inp(f"e{i}", ELEM) for i in range(n)]
                    x = seq(kind, *[one(e) for e in xs])
                    outs = visit(ck, rd, x, mql, st=st)
                    return expect_text(I, outs, cat(const(pre), join(const(", "), tuple(one(R(e, mql=mql)) for e in xs)), const(suf)))

                ck.ob(r, where, f"{kind} of {n} element(s), {lang}", sized)
            # nested, without the boundary
            def nested() -> Optional[str]:
                st = ck.fresh()
                a, b = ck.inp("a", ty("int")), ck.inp("b", ty("int"))
                x = seq(kind, one(seq(kind, one(a), one(NONE))), one(b))
                outs = visit(ck, rd, x, mql, hook=False, st=st)
                f = lambda v: fmt(v, "", "", False)
                return expect_text(I, outs, cat(const(pre + pre), f(a), const(", NULL" + suf + ", "), f(b), const(suf)))

            ck.ob(r, where, f"{kind} in a {kind}, {lang}", nested)
    r2 = ck.rule("not-a-literal", "a value that is neither an expression nor a literal is rejected, also inside lists and tuples")
    bad = I.universe - EXPRESSIONS - LITERAL - {"list", "tuple"}
    for mql in (False, True):
        lang = "MQL" if mql else "SnQL"
        ck.ob(r2, where, f"alone, {lang}", lambda: expect_raise(I, visit(ck, rd, ck.inp("node", ty(bad)), mql, st=_fresh_with(ck, "node", bad)), lambda e: True))
        for kind in ("list", "tuple"):
            def inner() -> Optional[str]:
                st = ck.fresh()
                x = seq(kind, spread(ck.inp("before", ty("list", elem=ELEM))), one(ck.inp("bad", ty(bad))), spread(ck.inp("after", ty("list", elem=ELEM))))
                return expect_raise(I, visit(ck, rd, x, mql, st=st), lambda e: True)

            ck.ob(r2, where, f"inside a {kind}, {lang}", inner)
    ck.counters["renderers_found"] = {f.q: sorted(x.rsplit(".", 1)[-1] for x in a) for f, a in rd.table.items()}


def _fresh_with(ck: Check, name: str, atoms: Any) -> State:
    st = ck.fresh()
    ck.inp(name, ty(atoms))
    return st
