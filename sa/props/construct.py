"""C01-C04: what constructors accept.

Each constructor is interpreted on abstract argument shapes: all arguments of
permitted type (must not raise), one argument of any other type (must raise), one
element of any other type anywhere in a sequence (must raise), values on either
side of each numeric bound, and unconstrained strings whose accepted language is
read off the branch facts and compared with the documented one."""
from __future__ import annotations

from typing import Any, Callable, Optional

from ..framework import Check, Undecided, expect_accept, expect_raise, facts, taint
from ..model import Raised, State, TySpec, Unsupported
from ..spec import *
from ..terms import NONE, T, Term, const, contains, one, seq, show, spread, sym

LIST = ("list", "tuple")
# sequence kinds the constructors take or leave without the property saying so
DONTCARE_SEQ = frozenset(["str", "bytes", "otherseq", "other"])


class Arg:
    """ok: permitted; elem_ok: permitted element atoms; dc: atoms left open."""

    def __init__(self, ok: TySpec, dc: Any = (), elem_dc: Any = (), nested: bool = False, name_like: bool = False) -> None:
        self.ok, self.dc, self.elem_dc, self.nested = ok, frozenset(dc), frozenset(elem_dc), nested
        self.name_like = name_like


def num(lo: Any, hi: Any) -> tuple:
    return (lo, True, hi, True)


CTORS: dict = {
    COLUMN: dict(name=Arg(NAME, name_like=True), entity=Arg(ty("NoneType"), dc=[ENTITY])),
    ALIASED: dict(exp=Arg(ty(COLUMN)), alias=Arg(OPTSTR, name_like=True)),
    ENTITY: dict(name=Arg(NAME, name_like=True), alias=Arg(OPTSTR), sample=Arg(ty("NoneType", "float", num=POS)),
                 data_model=Arg(ty("NoneType", DATAMODEL))),
    STORAGE: dict(name=Arg(NAME, name_like=True), sample=Arg(ty("NoneType", "float", num=POS)),
                  data_model=Arg(ty("NoneType", DATAMODEL))),
    CURRIED: dict(function=Arg(NAME, name_like=True),
                  initializers=Arg(ty("NoneType", "list", "tuple", elem=ty(LITERAL, COLUMN)), dc=DONTCARE_SEQ),
                  parameters=Arg(ty("NoneType", "list", "tuple", elem=PARAM), dc=DONTCARE_SEQ, nested=True),
                  alias=Arg(OPTSTR, name_like=True)),
    FUNCTION: dict(function=Arg(NAME, name_like=True),
                   parameters=Arg(ty("NoneType", "list", "tuple", elem=PARAM), dc=DONTCARE_SEQ, nested=True),
                   alias=Arg(OPTSTR, name_like=True)),
    IDENT: dict(name=Arg(NAME, name_like=True)),
    LAMBDA: dict(identifiers=Arg(seq_of(NAME), name_like=True), transformation=Arg(ty(FUNCS))),
    COND: dict(lhs=Arg(ty(COLUMN, FUNCS)), op=Arg(ty(OP, oneof=[enum(OP, "EQ"), enum(OP, "IN"), enum(OP, "GT")])),
               rhs=Arg(ty(COLUMN, FUNCS, LITERAL, "list", "tuple", elem=SCALAR.elem), nested=True)),
    BOOL: dict(op=Arg(ty(BOOLOP)), conditions=Arg(seq_of(ty(CONDS)))),
    AND: dict(conditions=Arg(seq_of(ty(CONDS)))),
    OR: dict(conditions=Arg(seq_of(ty(CONDS)))),
    ORDERBY: dict(exp=Arg(ty(COLUMN, FUNCS)), direction=Arg(ty(DIRECTION))),
    LIMITBY: dict(columns=Arg(seq_of(ty(COLUMN), truthy=True), dc=DONTCARE_SEQ),
                  count=Arg(ty("int", num=num(1, 10000)), dc=["bool"])),
    LIMIT: dict(limit=Arg(ty("int", num=num(1, 10000)), dc=["bool"])),
    OFFSET: dict(offset=Arg(ty("int", num=num(0, None)), dc=["bool"])),
    GRAN: dict(granularity=Arg(ty("int", num=num(1, None)), dc=["bool"])),
    TOTALS: dict(totals=Arg(ty("bool"))),
    EXTRA: dict(extrapolate=Arg(ty("bool"))),
    REL: dict(lhs=Arg(ty(ENTITY)), name=Arg(NAME), rhs=Arg(ty(ENTITY))),
    JOIN: dict(relationships=Arg(seq_of(ty(REL), truthy=True))),
}
METRIC_CTORS: dict = {
    METRIC: dict(public_name=Arg(ty("NoneType", "str")), mri=Arg(STR, dc=["NoneType"]), id=Arg(ty("NoneType", "int"), dc=["bool"])),
    TS: dict(metric=Arg(ty(METRIC)), aggregate=Arg(STR),
             aggregate_params=Arg(ty("NoneType", "list", elem=ty(LITERAL))),
             filters=Arg(ty("NoneType", "list", elem=ty(CONDS))),
             groupby=Arg(ty("NoneType", "list", elem=ty(COLUMN, ALIASED)))),
    ROLLUP: dict(interval=Arg(ty("NoneType", "int"), dc=["bool"]), totals=Arg(ty("bool")),
                 orderby=Arg(ty("NoneType")), granularity=Arg(ty("NoneType"))),
    SCOPE: dict(org_ids=Arg(ty("list", elem=ty("int")), elem_dc=["bool"]),
                project_ids=Arg(ty("list", elem=ty("int")), elem_dc=["bool"]),
                use_case_id=Arg(ty("NoneType", "str"))),
}


#: whose optional arguments depend on each other (decided by rules of their own)
NONE_LINKED = frozenset([ROLLUP, METRIC, COND])


class Ctor:
    """One run of a constructor on abstract arguments."""

    def __init__(self, ck: Check, q: str, args: dict) -> None:
        self.ck, self.I, self.q, self.args = ck, ck.I, q, args
        self.cls = ck.I.cls_by_q(q)
        self.where = f"{self.cls.module.rel}:{self.cls.name}"

    def setup(self) -> State:
        st = self.ck.fresh()
        self.I.field_specs = dict(FIELDS)
        # entities in joins carry aliases (Relationship establishes it)
        return st

    def run(self, st: State, over: dict) -> list:
        kw = {}
        for n, a in self.args.items():
            if n in over:
                if over[n] is not None:
                    kw[n] = over[n]
            else:
                kw[n] = self.ck.inp(n, a.ok)
        self.fix_entities(st, kw)
        self.extra(st, kw)
        return self.I.construct(self.q, [], kw, st)

    def fix_entities(self, st: State, kw: dict) -> None:
        if self.q == REL:
            for n in ("lhs", "rhs"):
                if kw[n].k == "sym" and T("attr", kw[n], "alias") not in st.types and self.I.inputs[kw[n]].atoms == {ENTITY}:
                    st.types[T("attr", kw[n], "alias")] = frozenset(["str"])

    def extra(self, st: State, kw: dict) -> None:
        if self.q in (BOOL, AND, OR):
            c = kw.get("conditions")
            if c is not None and c.k == "sym" and self.I.types(st, c) <= {"list", "tuple"}:
                st.num[T("app", "len", c)] = (2, True, None, True)
                st.preds[T("truthy", c)] = True
        if self.q == TS and kw["metric"].k == "sym":
            st.types[T("attr", kw["metric"], "mri")] = frozenset(["str"])

    def sig(self, st: State) -> frozenset:
        """The facts of a path about the contents of names (decided by C03)."""
        names = [sym(n) for n, a in self.args.items() if a.name_like]
        out = set()
        for d in (st.preds, st.oneof, st.notin):
            for t, v in d.items():
                if t.k == "truthy" and t.a[0] in names:
                    continue
                if any(contains(t, n) for n in names) or (self.q == JOIN and _mentions(t, ("alias", "name"))):
                    out.add((t, v))
        return frozenset(out)

    def drop_name_dependent(self, outs: list) -> list:
        """Leave out the raising paths that an accepted object's names never take."""
        good = {self.sig(s) for s, v in outs if not isinstance(v, Raised)}
        return [(s, v) for s, v in outs if not isinstance(v, Raised) or self.sig(s) in good or not good]


def _mentions(t: Any, names: tuple) -> bool:
    if isinstance(t, Term):
        if t.k == "attr" and t.a[1] in names:
            return True
        return any(_mentions(x, names) for x in t.a)
    if isinstance(t, (tuple, frozenset)):
        return any(_mentions(x, names) for x in t)
    return False


def universe(ck: Check) -> frozenset:
    return ck.I.universe


def bad_atoms(ck: Check, a: Arg) -> frozenset:
    return universe(ck) - a.ok.atoms - a.dc


def accept_case(ct: Ctor) -> Optional[str]:
    st = ct.setup()
    outs = ct.run(st, {})
    return expect_accept(ct.I, ct.drop_name_dependent(outs))


def accept_none(ct: Ctor, args: list) -> Optional[str]:
    """Optional arguments may be None."""
    st = ct.setup()
    return expect_accept(ct.I, ct.drop_name_dependent(ct.run(st, {n: NONE for n in args})))


def reject_type(ct: Ctor, arg: str) -> Optional[str]:
    st = ct.setup()
    t = ct.ck.inp(arg, ty(bad_atoms(ct.ck, ct.args[arg])))
    return expect_raise(ct.I, ct.run(st, {arg: t}))


def with_bad(ct: Ctor, arg: str, kind: str, bad: Term) -> Term:
    a = ct.args[arg]
    pre, suf = ct.ck.inp(f"{arg}.before", ty("list", elem=a.ok.elem)), ct.ck.inp(f"{arg}.after", ty("list", elem=a.ok.elem))
    return seq(kind, spread(pre), one(bad), spread(suf))


def reject_elem(ct: Ctor, arg: str, kind: str) -> Optional[str]:
    st = ct.setup()
    a = ct.args[arg]
    bad = ct.ck.inp("bad", ty(universe(ct.ck) - a.ok.elem.atoms - a.elem_dc))
    return expect_raise(ct.I, ct.run(st, {arg: with_bad(ct, arg, kind, bad)}))


def reject_nested(ct: Ctor, arg: str, kind: str, inner: str) -> Optional[str]:
    st = ct.setup()
    a = ct.args[arg]
    el = a.ok.elem.elem
    bad = ct.ck.inp("bad", ty(universe(ct.ck) - el.atoms))
    pre, suf = ct.ck.inp("inner.before", ty("list", elem=el)), ct.ck.inp("inner.after", ty("list", elem=el))
    nested = seq(inner, spread(pre), one(bad), spread(suf))
    return expect_raise(ct.I, ct.run(st, {arg: with_bad(ct, arg, kind, nested)}))


#: sequences of these lengths are also given element by element, so that a rule that looks at
#: some positions only is seen for what it is
LENGTHS = (1, 2, 3, 5, 40, 1100)


def written_out(ct: Ctor, arg: str, kind: str, n: int, bad: Optional[int]) -> Optional[str]:
    """A sequence of n elements, the one at index `bad` of another type."""
    st = ct.setup()
    a = ct.args[arg]
    good = ct.ck.inp("good", a.ok.elem)
    el = [good] * n
    if bad is not None:
        el[bad] = ct.ck.inp("bad", ty(universe(ct.ck) - a.ok.elem.atoms - a.elem_dc))
    outs = ct.run(st, {arg: seq(kind, *[one(x) for x in el])})
    return expect_raise(ct.I, outs) if bad is not None else expect_accept(ct.I, _nameless(ct, outs))


def _nameless(ct: Ctor, outs: list) -> list:
    good = sym("good")
    keep = {(ct.sig(s), _about(s, good)) for s, v in outs if not isinstance(v, Raised)}
    return [(s, v) for s, v in outs if not isinstance(v, Raised) or (ct.sig(s), _about(s, good)) in keep or not keep]


def _about(st: State, x: Term) -> frozenset:
    """What a path knows of the contents of a string element."""
    return frozenset((t, v) for d in (st.preds, st.oneof, st.notin) for t, v in d.items() if contains(t, x) and t.k != "truthy")


def type_obligations(ck: Check, table: dict, prefix: str) -> None:
    acc = ck.rule("accept", "a constructor given arguments of permitted type, bounds and names has no raising path")
    rej = ck.rule("reject-type", "a constructor given an argument of any other type raises an SDK error on every path")
    rel = ck.rule("reject-element", "a constructor given a sequence with an element of any other type at any position raises on every path")
    for q, args in table.items():
        ct = Ctor(ck, q, args)
        ck.ob(acc, ct.where, "all arguments of permitted type", lambda: accept_case(ct))
        optional = [n for n, a in args.items() if "NoneType" in a.ok.atoms and q not in NONE_LINKED]
        for n in optional:
            ck.ob(acc, ct.where, f"{n} is None", lambda: accept_none(ct, [n]))
        if len(optional) > 1:
            ck.ob(acc, ct.where, "every optional argument is None", lambda: accept_none(ct, optional))
        for arg, a in args.items():
            ck.ob(rej, ct.where, f"{arg} of another type", lambda: reject_type(ct, arg))
            if a.ok.elem is None:
                continue
            for kind in ("list", "tuple"):
                if kind not in a.ok.atoms:
                    continue
                ck.ob(rel, ct.where, f"{arg} is a {kind} with one element of another type", lambda: reject_elem(ct, arg, kind))
                for n in LENGTHS:
                    if n == 1 and q in (BOOL, AND, OR):
                        continue
                    ck.ob(acc, ct.where, f"{arg} is a {kind} of {n} permitted elements", lambda: written_out(ct, arg, kind, n, None))
                    for i in sorted({n - 1} if n > 100 else {0, 1, n // 2, n - 2, n - 1} & set(range(n))):
                        ck.ob(rel, ct.where, f"{arg} is a {kind} of {n}, element {i} of another type", lambda: written_out(ct, arg, kind, n, i))
                if a.nested and a.ok.elem.elem is not None:
                    for inner in ("list", "tuple"):
                        ck.ob(rel, ct.where, f"{arg} is a {kind} holding a {inner} with one element of another type",
                              lambda: reject_nested(ct, arg, kind, inner))
