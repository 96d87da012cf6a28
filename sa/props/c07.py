"""C07: the SnQL text of each kind of expression, one level at a time."""
from __future__ import annotations

from itertools import product
from typing import Any, Optional

from ..client import Client, Expect
from ..framework import Check, Undecided
from ..model import Raised, State
from ..render import *
from ..spec import *
from ..terms import *
from .c26 import is_whole
from .c06 import ELEM, visit

OPS = {"GT": ">", "LT": "<", "GTE": ">=", "LTE": "<=", "EQ": "=", "NEQ": "!=", "IN": "IN", "NOT_IN": "NOT IN", "LIKE": "LIKE",
       "NOT_LIKE": "NOT LIKE", "IS_NULL": "IS NULL", "IS_NOT_NULL": "IS NOT NULL"}
UNARY = ("IS_NULL", "IS_NOT_NULL")
c = const


def each(s: Term, t: Term) -> tuple:
    return (forseg(s, one(t)),)


def samples(I: Any, st: State, x: Term) -> list:
    """SAMPLE texts that keep the value: one decimal only for whole numbers (see C26)."""
    out = [cat(c(" SAMPLE "), T("fmt", x, "f", "")), cat(c(" SAMPLE "), T("fmt", x, "", ""))]
    whole = [p for p, v in st.preds.items() if v and p.k == "eq" and contains(p, x)] + \
            [t for t, vs in st.oneof.items() if contains(t, x) and t is not x] + \
            [t for t, v in st.preds.items() if v is False and t.k == "truthy" and contains(t, x)] + \
            [t for t, n in st.num.items() if t is not x and contains(t, x)]
    if whole or is_whole(st, x):
        out.append(cat(c(" SAMPLE "), T("fmt", x, ".1f", "")))
    return out


def run(ck: Check) -> None:
    I = ck.I
    rd = Renderers(ck)
    where = f"{rd.visit.module.rel}:Translation"
    r = ck.rule("template", "the text of an expression is exactly the documented arrangement of the texts of its parts")
    n = sym("node")
    A = lambda f: T("attr", n, f)

    def case(label: str, atom: str, want: Any, fields: dict = {}, aliases: bool = False, both: bool = True) -> None:
        """fields: field -> atoms the field is assumed to have, or a single value."""

        def f() -> Optional[str]:
            st = ck.fresh()
            x = ck.inp("node", ty(atom))

            def prep(s: State) -> None:
                for k, v in fields.items():
                    t = A(k) if isinstance(k, str) else k
                    if isinstance(v, Term):
                        s.oneof[t] = frozenset([v])
                        s.types[t] = I.types(s, v)
                    else:
                        s.types[t] = frozenset(v)
                        if frozenset(v) <= {"list", "tuple"} and (atom, k) in NONEMPTY:
                            s.preds[T("truthy", t)] = True

            outs = visit(ck, rd, x, False, st=st, prep=prep, aliases=aliases)
            return expect_text(I, outs, want)

        ck.ob(r, where, label, f)

    NONEMPTY = {(LIMITBY, "columns"), (JOIN, "relationships"), (BOOL, "conditions"), (AND, "conditions"), (OR, "conditions")}
    S, N = ["str"], ["NoneType"]
    name = lambda q: q.rsplit(".", 1)[-1]
    for al in (False, True):
        Ra = lambda t: R(t, aliases=al)
        w = ", entity aliases in use" if al else ""
        asal = lambda: cat(c(" AS `"), A("alias"), c("`"))
        case("aliased column without alias" + w, ALIASED, Ra(A("exp")), {"alias": N}, al)
        case("aliased column with alias" + w, ALIASED, cat(Ra(A("exp")), asal()), {"alias": S}, al)
        case("column without entity" + w, COLUMN, A("name"), {"entity": N}, al)
        ent = T("attr", A("entity"), "alias")
        case("column with entity" + w, COLUMN, cat(ent, c("."), A("name")) if al else A("name"), {"entity": [ENTITY], ent: S}, al)
        for q in (CURRIED, FUNCTION):
            for init, par, alias in product((0, 1) if q == CURRIED else (0,), (0, 1), (0, 1)):
                parts = [A("function")]
                if init:
                    parts += [c("("), join(c(", "), each(A("initializers"), Ra(elem(A("initializers"))))), c(")")]
                if par:
                    parts += [c("("), join(c(", "), each(A("parameters"), Ra(elem(A("parameters"))))), c(")")]
                if alias:
                    parts += [asal()]
                for kind in (("list", "tuple") if init or par else ("list",)):
                    case(f"{name(q)} {'with' if init else 'without'} initializers, {'with' if par else 'without'} parameters, "
                         f"{'with' if alias else 'without'} alias ({kind}){w}", q, cat(*parts),
                         {"initializers": [kind] if init else N, "parameters": [kind] if par else N, "alias": S if alias else N}, al)
        case("identifier" + w, IDENT, cat(c("`"), A("name"), c("`")), {}, al)
        for kind in ("list", "tuple"):
            ids = A("identifiers")
            case(f"lambda ({kind})" + w, LAMBDA, cat(c("("), join(c(", "), each(ids, cat(c("`"), elem(ids), c("`")))), c(") -> "), Ra(A("transformation"))),
                 {"identifiers": [kind]}, al)
        for alias, sample in product((0, 1), (0, 1)):
            head = cat(c("("), A("alias"), c(": "), A("name")) if alias and al else cat(c("("), A("name"))
            want = (lambda st: [cat(head, s, c(")")) for s in samples(I, st, A("sample"))]) if sample else cat(head, c(")"))
            case(f"entity {'with' if alias else 'without'} alias, {'with' if sample else 'without'} sample" + w, ENTITY, want,
                 {"alias": S if alias else N, "sample": ["float"] if sample else N}, al)
        case("storage without sample" + w, STORAGE, cat(c("STORAGE("), A("name"), c(")")), {"sample": N}, al)
        case("storage with sample" + w, STORAGE, lambda st: [cat(c("STORAGE("), A("name"), s, c(")")) for s in samples(I, st, A("sample"))],
             {"sample": ["float"]}, al)
        case("relationship" + w, REL, cat(Ra(A("lhs")), c(" -["), A("name"), c("]-> "), Ra(A("rhs"))), {}, al)
        for kind in ("list", "tuple"):
            case(f"join ({kind})" + w, JOIN, join(c(", "), each(A("relationships"), Ra(elem(A("relationships"))))), {"relationships": [kind]}, al)
        for op, s in OPS.items():
            if op in UNARY:
                case(f"condition {s}" + w, COND, cat(Ra(A("lhs")), c(" " + s)), {"op": enum(OP, op), "rhs": N}, al)
            else:
                case(f"condition {s}" + w, COND, cat(Ra(A("lhs")), c(f" {s} "), Ra(A("rhs"))), {"op": enum(OP, op)}, al)
        for q, ops in ((BOOL, ("AND", "OR")), (AND, ("AND",)), (OR, ("OR",))):
            for op, kind in product(ops, ("list", "tuple")):
                cs = A("conditions")
                case(f"{name(q)} {op} ({kind})" + w, q, cat(c("("), join(c(f" {op} "), each(cs, Ra(elem(cs)))), c(")")),
                     {"op": enum(BOOLOP, op), "conditions": [kind]}, al)
        for d in ("ASC", "DESC"):
            case(f"order by {d}" + w, ORDERBY, cat(Ra(A("exp")), c(" " + d)), {"direction": enum(DIRECTION, d)}, al)
        for kind in ("list", "tuple"):
            cols = A("columns")
            case(f"limit by ({kind})" + w, LIMITBY, cat(fmt(A("count"), "", "", False), c(" BY "), join(c(","), each(cols, Ra(elem(cols))))), {"columns": [kind]}, al)
        for q, f in ((LIMIT, "limit"), (OFFSET, "offset"), (GRAN, "granularity")):
            case(f"{name(q)}" + w, q, fmt(A(f), "", "", False), {}, al)

        def tot(st: State) -> Any:
            d = I.decide(st, T("truthy", A("totals")))
            return [T("fmt", A("totals"), "", "")] + ([c(str(d))] if d is not None else [])

        case("totals" + w, TOTALS, tot, {}, al)
    # objects of known, small sizes, interpreted from their constructors
    r2 = ck.rule("sizes", "the same for sequences of zero to three, 17 and 130 elements and for particular values")

    def built(label: str, q: str, kw: Any, want: Any) -> None:
        def f() -> Optional[str]:
            st = ck.fresh()
            I.field_specs = dict(FIELDS)
            k2, w2 = kw(ck), want(ck)
            outs = []
            for s, v in I.construct(q, [], k2, st):
                if isinstance(v, Raised):
                    continue
                o = rd.make(s)
                top = I.freeze(s, v)
                with ck.hooked(rd.hook(top)):
                    outs += I.call_method(o, "visit", [v], {}, s)
            return expect_text(I, outs, w2)

        ck.ob(r2, where, label, f)

    ident = lambda i: "xyz"[i] if i < 3 else f"x{i}"
    lit = lambda ck, k: [ck.inp(f"p{i}", PARAM if k <= 3 else ty(COLUMN)) for i in range(k)]
    for k in (0, 1, 2, 3, 17, 130):
        for kind in ("list", "tuple"):
            built(f"function with {k} parameter(s) ({kind})", FUNCTION,
                  lambda ck: dict(function=c("f1"), parameters=seq(kind, *[one(p) for p in lit(ck, k)])),
                  lambda ck: cat(c("f1("), join(c(", "), tuple(one(R(p)) for p in lit(ck, k))), c(")")))
            built(f"curried function with {k} initializer(s) and no parameters ({kind})", CURRIED,
                  lambda ck: dict(function=c("f1"), initializers=seq(kind, *[one(ck.inp(f"i{i}", ty(LITERAL, COLUMN) if k <= 3 else ty(COLUMN))) for i in range(k)])),
                  lambda ck: cat(c("f1("), join(c(", "), tuple(one(R(sym(f"i{i}"))) for i in range(k))), c(")")))
            if k >= 2:
                for q in (AND, OR):
                    built(f"{name(q)} of {k} conditions ({kind})", q,
                          lambda ck: dict(conditions=seq(kind, *[one(ck.inp(f"c{i}", ty(CONDS))) for i in range(k)])),
                          lambda ck: cat(c("("), join(c(f" {'AND' if q == AND else 'OR'} "), tuple(one(R(sym(f"c{i}"))) for i in range(k))), c(")")))
            if k >= 1:
                built(f"limit by of {k} columns ({kind})", LIMITBY,
                      lambda ck: dict(columns=seq(kind, *[one(ck.inp(f"c{i}", ty(COLUMN))) for i in range(k)]), count=c(7)),
                      lambda ck: cat(c("7 BY "), join(c(","), tuple(one(R(sym(f"c{i}"))) for i in range(k)))))
                built(f"lambda of {k} identifiers ({kind})", LAMBDA,
                      lambda ck: dict(identifiers=seq(kind, *[one(c(ident(i))) for i in range(k)]), transformation=ck.inp("t", ty(FUNCS))),
                      lambda ck: cat(c("(" + ", ".join("`" + ident(i) + "`" for i in range(k)) + ") -> "), R(sym("t"))))
    col = lambda ck: ck.inp("lhs", ty(COLUMN, FUNCS))
    for v in (NONE, FALSE, TRUE, c(0), c(0.0), c(""), seq("list"), seq("tuple")):
        for op in ("EQ", "NEQ", "IN"):
            built(f"condition {OPS[op]} with right side {show(v)}", COND, lambda ck: dict(lhs=col(ck), op=enum(OP, op), rhs=v),
                  lambda ck: cat(R(sym("lhs")), c(f" {OPS[op]} "), R(v)))
        built(f"function with parameter {show(v)}", FUNCTION, lambda ck: dict(function=c("f1"), parameters=seq("list", one(v))),
              lambda ck: cat(c("f1("), R(v), c(")")))
    for v in (NONE, FALSE, c(0), c("")):
        built(f"curried function with initializer {show(v)}", CURRIED, lambda ck: dict(function=c("f1"), initializers=seq("list", one(v)), parameters=seq("list")),
              lambda ck: cat(c("f1("), R(v), c(")()")))
    for v in (FALSE, TRUE):
        built(f"totals {show(v)}", TOTALS, lambda ck: dict(totals=v), lambda ck: c(str(cval(v))))
    built("offset 0", OFFSET, lambda ck: dict(offset=c(0)), lambda ck: c("0"))
    for k in (1, 2, 3):
        def rels(ck: Check, k: int = k) -> list:
            return [ck.inp(f"r{i}", ty(REL)) for i in range(k)]

        built(f"join of {k} relationship(s)", JOIN, lambda ck: dict(relationships=seq("list", *[one(x) for x in rels(ck)])),
              lambda ck: join(c(", "), tuple(one(R(x)) for x in rels(ck))))
    cl = Client(ck)
    ex = Expect(ck, cl, r2)
    for k in (17, 130):
        en = lambda i: "e" + chr(97 + i // 26) + chr(97 + i % 26)
        rels_ = ", ".join(f"Relationship(Entity('{en(i)}', 'a{i}'), 'r', Entity('{en(i + 1)}', 'a{i + 1}'))" for i in range(k))
        text = ", ".join(f"(a{i}: {en(i)}) -[r]-> (a{i + 1}: {en(i + 1)})" for i in range(k))
        ex.eq("snuba_sdk/visitors.py:Translation", f"join of {k} relationships", "", f"Query(Join([{rels_}]), select=[Column('z', Entity('eaa', 'a0'))]).print()",
              repr(f"MATCH {text}\nSELECT a0.z"))
        I.field_specs = dict(FIELDS)
    ck.counters["renderers_found"] = {f.q: sorted(x.rsplit(".", 1)[-1] for x in a) for f, a in rd.table.items()}
