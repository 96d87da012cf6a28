"""C11: every column of a query is checked against the match clause.

A query is built in which one column, at one place, is not acceptable to the match
clause; everything around it is arbitrary.  Validating the query, interpreted from
Query.validate down through the column finder and the match rules, must raise."""
from __future__ import annotations

from typing import Any, Callable, Optional

from ..framework import Check, Undecided, expect_accept, expect_raise
from ..model import Raised, State
from ..spec import *
from ..terms import *
from .c08 import LISTS, ORDER, SINGLE
from .parts import no_columns, part_hook

c = const


class Builder:
    def __init__(self, ck: Check) -> None:
        self.ck, self.I, self.n = ck, ck.I, 0
        self.mode: Optional[tuple] = None  # (position, length) of written-out sequences

    def new(self, st: State, q: str, **kw: Any) -> tuple:
        kw = {k: (self.lst(st, v) if isinstance(v, list) else self.I.alloc(st, "list", tuple(v[1])) if isinstance(v, tuple) else v) for k, v in kw.items()}
        outs = [(s, v) for s, v in self.I.construct(q, [], kw, st) if not isinstance(v, Raised)]
        if len(outs) != 1:
            raise Undecided(f"constructing {q.rsplit('.', 1)[-1]}: {len(outs)} outcomes")
        return outs[0]

    def lst(self, st: State, items: list) -> Term:
        return self.I.alloc(st, "list", tuple(one(x) for x in items))

    def around(self, st: State, x: Term, el: Any, kind: str = "list") -> Term:
        """x somewhere in a sequence of arbitrary other elements."""
        self.n += 1
        if self.mode:
            i, n = self.mode
            q = el[0] if len(el) == 1 else next(t for t in (FUNCTION, COND, *el) if t in el)
            segs = tuple(one(x) if j == i else one(const(j)) if q == "int" else one(self.ck.inp(f"el{self.n}_{j}", ty(q))) for j in range(n))
            return self.I.alloc(st, "list", segs) if kind == "list" else seq("tuple", *segs)
        b, a = self.ck.inp(f"before{self.n}", seq_of(ty(el), "list")), self.ck.inp(f"after{self.n}", seq_of(ty(el), "list"))
        segs = (spread(b), one(x), spread(a))
        return self.I.alloc(st, "list", segs) if kind == "list" else seq("tuple", *segs)


def contexts(b: Builder) -> dict:
    """kind of clause element -> [(label, place(st, column) -> (st, element))]"""
    ck = b.ck
    NUM = ["int"]

    def fn(st: State, p: Term, kind: str = "list") -> tuple:
        return b.new(st, FUNCTION, function=c("f1"), parameters=b.around(st, p, NUM, kind))

    def cond(st: State, lhs: Term, rhs: Term, op: str = "EQ") -> tuple:
        return b.new(st, COND, lhs=lhs, op=enum(OP, op), rhs=rhs)

    def free(n: str = "free") -> Term:
        b.n += 1
        return ck.inp(f"{n}{b.n}", ty(FUNCTION))

    params: list = [("column", lambda st, x: (st, x))]
    params.append(("function parameter", lambda st, x: fn(st, x)))
    params.append(("function parameter in a tuple", lambda st, x: fn(st, x, "tuple")))
    params.append(("curried parameter", lambda st, x: b.new(st, CURRIED, function=c("f1"), initializers=[c(1)], parameters=b.around(st, x, NUM))))
    params.append(("initializer", lambda st, x: b.new(st, CURRIED, function=c("f1"), initializers=b.around(st, x, NUM), parameters=[c(1)])))
    params.append(("initializer without parameters", lambda st, x: b.new(st, CURRIED, function=c("f1"), initializers=b.around(st, x, NUM))))

    def lam(st: State, x: Term) -> tuple:
        st, f = fn(st, x)
        return b.new(st, LAMBDA, identifiers=seq("list", *[one(c(i)) for i in ("i", "zz", "a", "x", "tags")]), transformation=f)

    def in_fn(inner: Callable) -> Callable:
        def g(st: State, x: Term) -> tuple:
            st, y = inner(st, x)
            return fn(st, y)

        return g

    def seqp(kind: str) -> Callable:
        return lambda st, x: (st, b.around(st, x, NUM, kind))

    def chain(*fs: Callable) -> Callable:
        def g(st: State, x: Term) -> tuple:
            for f in fs:
                st, x = f(st, x)
            return st, x

        return g

    selectable = list(params)
    selectable.append(("aliased column", lambda st, x: b.new(st, ALIASED, exp=x, alias=c("al"))))
    selectable.append(("function with alias", lambda st, x: b.new(st, FUNCTION, function=c("f1"), parameters=b.around(st, x, NUM), alias=c("al"))))
    selectable.append(("lambda body", in_fn(lam)))
    selectable.append(("list parameter", in_fn(seqp("list"))))
    selectable.append(("tuple parameter", in_fn(seqp("tuple"))))
    selectable.append(("list in a tuple parameter", in_fn(chain(seqp("list"), seqp("tuple")))))
    selectable.append(("function in a list parameter", in_fn(chain(fn, seqp("list")))))
    selectable.append(("two functions deep", chain(fn, fn)))
    selectable.append(("three functions deep", chain(fn, fn, fn)))
    selectable.append(("initializer of an inner function", chain(params[4][1], fn)))
    selectable.append(("lambda inside a lambda", in_fn(chain(lambda st, x: lam(st, x), lambda st, x: lam(st, x)))))
    funcs = [(l, f) for l, f in selectable if l not in ("column", "aliased column")]
    colfun = [(l, f) for l, f in selectable if l != "aliased column"]
    conds: list = []
    for l, f in colfun:
        conds.append((f"left side: {l}", chain(f, lambda st, x: cond(st, x, c(1)))))
        conds.append((f"right side: {l}", chain(f, lambda st, x: cond(st, free(), x))))
    for kind in ("list", "tuple"):
        conds.append((f"right side: {kind}", chain(seqp(kind), lambda st, x: cond(st, free(), x, "IN"))))
        conds.append((f"right side: function in a {kind}", chain(fn, seqp(kind), lambda st, x: cond(st, free(), x, "NOT_IN"))))
        conds.append((f"right side: {kind} in a {kind}", chain(seqp(kind), seqp(kind), lambda st, x: cond(st, free(), x, "IN"))))
    for op in ("GT", "LT", "GTE", "LTE", "NEQ", "IN", "NOT_IN", "LIKE", "NOT_LIKE"):
        conds.append((f"left side of {op}", lambda st, x, op=op: cond(st, x, c("v") if "LIKE" in op else c(1), op)))
        conds.append((f"right side of {op}", lambda st, x, op=op: cond(st, free(), x, op)))
    for op in ("IS_NULL", "IS_NOT_NULL"):
        conds.append((f"left side of {op}", lambda st, x, op=op: b.new(st, COND, lhs=x, op=enum(OP, op))))

    def boolean(q: str, op: Optional[str] = None) -> Callable:
        def g(st: State, x: Term) -> tuple:
            st, k = cond(st, free(), c(1))
            kw = {"op": enum(BOOLOP, op)} if op else {}
            b.n += 1
            if b.mode:
                i, n = b.mode
                return b.new(st, q, conditions=[x if j == i else k for j in range(max(n, 2))], **kw)
            rest = ck.inp(f"rest{b.n}", seq_of(ty(COND), "list"))
            lst = b.I.alloc(st, "list", (one(k), spread(rest), one(x), one(k)))
            return b.new(st, q, conditions=lst, **kw)

        return g

    left = lambda st, x: cond(st, x, c(1))
    right = lambda st, x: cond(st, free(), x)
    for q, op in ((AND, None), (OR, None), (BOOL, "AND"), (BOOL, "OR")):
        n = q.rsplit(".", 1)[-1] + (f" {op}" if op else "")
        conds.append((f"{n}, left side", chain(left, boolean(q, op))))
        conds.append((f"{n}, right side", chain(right, boolean(q, op))))
    conds.append(("And inside an Or", chain(left, boolean(AND), boolean(OR))))
    conds.append(("Or inside an And", chain(left, boolean(OR), boolean(AND))))
    conds.append(("Or inside an And inside an Or", chain(right, boolean(OR), boolean(AND), boolean(OR))))
    order = [(l, chain(f, lambda st, x: b.new(st, ORDERBY, exp=x, direction=enum(DIRECTION, "ASC")))) for l, f in colfun]
    limitby = [("column", lambda st, x: b.new(st, LIMITBY, columns=b.around(st, x, [COLUMN]), count=c(5)))]
    col = [("column", lambda st, x: (st, x))]
    return {"select": selectable, "groupby": selectable, "array_join": col, "where": conds, "having": conds, "orderby": order, "limitby": limitby}


def matches(b: Builder) -> dict:
    """kind -> (build match(st), [bad columns], [good columns]); a column is (name, entity or None)"""

    def model(st: State) -> tuple:
        cols = []
        for n in ("a", "tags", "ts", "Up", "d.x"):
            st, x = b.new(st, SCOLUMN, name=c(n))
            cols.append(x)
        return b.new(st, DATAMODEL, columns=cols, required_time_column=cols[2])

    def ent(st: State) -> tuple:
        st, m = model(st)
        return b.new(st, ENTITY, name=c("ent"), data_model=m)

    def sto(st: State) -> tuple:
        st, m = model(st)
        return b.new(st, STORAGE, name=c("sto"), data_model=m)

    def free(q: str) -> Callable:
        return lambda st: b.new(st, q, name=c("e"))

    def sub(st: State) -> tuple:
        st, e = b.new(st, ENTITY, name=c("inner"))
        st, x = b.new(st, COLUMN, name=c("a"))
        st, y = b.new(st, COLUMN, name=c("tags[k]"))
        st, f = b.new(st, FUNCTION, function=c("f1"), parameters=[x], alias=c("al"))
        st, g = b.new(st, CURRIED, function=c("g1"), initializers=[c(1)], parameters=[x], alias=c("al2"))
        st, h = b.new(st, FUNCTION, function=c("h1"), parameters=[x])
        return b.new(st, QUERY, match=e, select=[x, y, f, g, h])

    def sub2(st: State) -> tuple:
        st, q = sub(st)
        st, x = b.new(st, COLUMN, name=c("al"))
        return b.new(st, QUERY, match=q, select=[x])

    def joined(st: State) -> tuple:
        st, e1 = b.new(st, ENTITY, name=c("ea"), alias=c("x"))
        st, e2 = b.new(st, ENTITY, name=c("eb"), alias=c("y"))
        st, e3 = b.new(st, ENTITY, name=c("ec"), alias=c("z"))
        st, r1 = b.new(st, REL, lhs=e1, name=c("has"), rhs=e2)
        st, r2 = b.new(st, REL, lhs=e1, name=c("is"), rhs=e3)
        return b.new(st, JOIN, relationships=[r1, r2])

    def shape(*rels: tuple) -> Callable:
        def f(st: State) -> tuple:
            rs = []
            for (n1, a1), (n2, a2) in rels:
                st, e1 = b.new(st, ENTITY, name=c(n1), alias=c(a1))
                st, e2 = b.new(st, ENTITY, name=c(n2), alias=c(a2))
                st, r1 = b.new(st, REL, lhs=e1, name=c("has"), rhs=e2)
                rs.append(r1)
            return b.new(st, JOIN, relationships=rs)
        return f

    def on_join(st: State) -> tuple:
        st, j = joined(st)
        st, e1 = b.new(st, ENTITY, name=c("ea"), alias=c("x"))
        st, x = b.new(st, COLUMN, name=c("a"), entity=e1)
        st, f = b.new(st, FUNCTION, function=c("f1"), parameters=[x], alias=c("al"))
        return b.new(st, QUERY, match=j, select=[x, f])

    def modelled(st: State) -> tuple:
        st, e = ent(st)
        st, x = b.new(st, COLUMN, name=c("ts"))
        return b.new(st, QUERY, match=e, select=[x])

    def empty_model(st: State) -> tuple:
        st, t = b.new(st, SCOLUMN, name=c("ts"))
        st, m = b.new(st, DATAMODEL, columns=[], required_time_column=t)
        return b.new(st, ENTITY, name=c("ent"), data_model=m)

    A, B, C = ("ea", "x"), ("eb", "y"), ("ec", "z")
    return {
        "join of an entity with itself": (shape((A, A)), [("a", None), ("a", ("ea", "w")), ("a", ("eb", "x"))], [("a", A)]),
        "join of an entity with itself under another alias": (shape((A, ("ea", "y"))), [("a", None), ("a", ("ea", "w")), ("a", ("eb", "x"))], [("a", A), ("b", ("ea", "y"))]),
        "join of two": (shape((A, B)), [("a", None), ("a", ("ea", "z")), ("a", ("ea", "y")), ("a", ("eb", "x"))], [("a", A), ("b", B)]),
        "join chain": (shape((A, B), (B, C), (C, ("ea", "w"))), [("a", None), ("a", ("ea", "v")), ("a", ("ea", "y")), ("a", ("eb", "w"))], [("a", ("ea", "w")), ("b", B), ("c", C)]),
        "subquery on a join": (on_join, [("zz", None), ("x.a", None), ("f1", None), ("ea", None), ("x", None)], [("a", None), ("al", None)]),
        "subquery on an entity with a model": (modelled, [("a", None), ("zz", None), ("tags[k]", None)], [("ts", None)]),
        "entity with an empty model": (empty_model, [("ts", None), ("a", None)], []),
        "entity with a model": (ent, [("zz", None), ("zz[a]", None), ("a.b", None), ("zz", ("ent", "e")), ("zz", ("o", "o"))],
                                [("a", None), ("tags[zz]", None), ("a", ("ent", "e")), ("a", ("o", "o"))]),
        "storage with a model": (sto, [("zz", None), ("zz[a]", None), ("zz", ("sto", "s")), ("zz", ("o", "o"))], [("ts", None), ("tags[k]", None), ("a", ("o", "o"))]),
        "entity without a model": (free(ENTITY), [], [("zz", None), ("zz[a]", None)]),
        "storage without a model": (free(STORAGE), [], [("zz", None), ("zz[a]", None)]),
        "subquery": (sub, [("zz", None), ("f1", None), ("h1", None), ("tags", None), ("tags[j]", None), ("zz", ("inner", "i"))], [("a", None), ("a", ("inner", "i")), ("al", None), ("al2", None), ("tags[k]", None)]),
        "nested subquery": (sub2, [("a", None), ("zz", None)], [("al", None)]),
        "join": (joined, [("a", None), ("a", ("ea", "w")), ("a", ("eb", "x")), ("a", ("other", "z"))],
                 [("a", ("ea", "x")), ("b", ("eb", "y")), ("c", ("ec", "z"))]),
    }


# names close to the acceptable ones
_MODEL = [(n, None) for n in ("A", "aa", "_a", "x.a", "a.a", "a:b", "a/b", "a@b", "ta", "tagss", "Tags[k]", "tags.k", "tags:k", "a.b[c]", "up", "UP", "U", "Upp",
                              "d", "x", "d.y", "d.x.y", "d:x", "dx", "zz[a]", "zz[tags]", "contains", "None", "ent", "sto")]
_MODEL_OK = [(n, None) for n in ("Up", "Up[k]", "d.x", "d.x[k]", "a[zz]", "tags[]", "tags[a.b:c]", "ts")]
NEAR = {
    "entity with a model": (_MODEL, _MODEL_OK),
    "storage with a model": (_MODEL, _MODEL_OK),
    "subquery": ([(n, None) for n in ("A", "aa", "a.b", "x.a", "AL", "al.x", "al1", "a.al", "al3", "tag", "tags[K]", "tags[kk]", "tags[]", "tags.k", "Tags[k]", "a[k]", "al[k]", "g1", "inner",
                                      "None", "f", "x")], []),
    "nested subquery": ([(n, None) for n in ("AL", "al2", "al.x", "al[k]", "f1", "inner")], []),
    "join": ([("a", e) for e in (("eax", "x"), ("e", "x"), ("EA", "x"), ("xea", "x"), ("ea", "X"), ("ea", "xx"), ("ea", "y"), ("x", "x"), ("ea", "ea"), ("eb", "z"), ("ec", "y"))],
             [("a", ("eb", "y")), ("a[k]", ("ec", "z")), ("x", ("ea", "x"))]),
}


POSITIONS = [(0, 1), (0, 2), (1, 2), (2, 4), (11, 12)]


def run(ck: Check) -> None:
    I = ck.I
    b = Builder(ck)
    fv = I.method(QUERY, "validate")
    where = f"{fv.module.rel}:Query.validate"
    r = ck.rule("reject", "a query with one unacceptable column, wherever it stands among arbitrary other elements, does not validate")
    ra = ck.rule("accept", "a query whose columns are acceptable to the match clause validates")

    def col(st: State, spec: tuple) -> tuple:
        name, e = spec
        if e is None:
            return b.new(st, COLUMN, name=c(name))
        st, en = b.new(st, ENTITY, name=c(e[0]), alias=c(e[1]))
        return b.new(st, COLUMN, name=c(name), entity=en)

    ctxs = contexts(b)
    ms = matches(b)

    def validate(mk: Callable, place: list, others: Any = None) -> list:
        """place: [(clause, context, column)]"""
        st = ck.fresh()
        b.n = 0
        I.field_specs = dict(FIELDS)
        with ck.hooked(no_columns, part_hook(ck)), ck.depth(12):
            st, m = mk(st)
            kw: dict = {"match": m}
            for clause, ctx, spec in place:
                st, x = col(st, spec)
                st, e = ctx(st, x)
                kw[clause] = e if clause == "limitby" else b.around(st, e, LISTS[clause][2])
            if "select" not in kw:
                kw["select"] = ck.inp("select", seq_of(ty([FUNCTION]), "list", truthy=True))
            outs = []
            for s, v in I.construct(QUERY, [], kw, st):
                outs += [(s, v)] if isinstance(v, Raised) else I.call_method(v, "validate", [], {}, s)
        return outs

    def show_col(s: tuple) -> str:
        return f"column {s[0]}" + (f" of entity {s[1][0]} as {s[1][1]}" if s[1] else "")

    some = {"column", "function parameter", "lambda body", "list parameter", "aliased column", "left side: column", "right side: column",
            "right side: list", "And, left side", "Or, right side", "Or inside an And"}
    for kind, (mk, bad, good) in ms.items():
        for clause, cx in ctxs.items():
            for i, (l, f) in enumerate(cx):
                if ck.tier == "quick" and l not in some and kind != "entity with a model":
                    continue
                for j, s in enumerate(bad):
                    # every bad column at the plain position, the first one everywhere
                    if j and l not in ("column", "left side: column", "right side: list"):
                        continue
                    ck.ob(r, where, f"{kind}: {show_col(s)} in {clause} ({l})", lambda: expect_raise(I, validate(mk, [(clause, f, s)])))
                for j, s in enumerate(good):
                    if j and l not in ("column", "left side: column"):
                        continue
                    ck.ob(ra, where, f"{kind}: {show_col(s)} in {clause} ({l})", lambda: expect_accept(I, validate(mk, [(clause, f, s)])))
        for clause, pos in (("select", 0), ("where", 0), ("where", 1)):
            l, f = ctxs[clause][pos]
            for s in NEAR.get(kind, ([], []))[0]:
                ck.ob(r, where, f"{kind}: {show_col(s)} in {clause} ({l})", lambda: expect_raise(I, validate(mk, [(clause, f, s)])))
            for s in NEAR.get(kind, ([], []))[1]:
                ck.ob(ra, where, f"{kind}: {show_col(s)} in {clause} ({l})", lambda: expect_accept(I, validate(mk, [(clause, f, s)])))
        # a good column elsewhere does not hide a bad one
        for clause, cx in ctxs.items():
            other = "where" if clause != "where" else "select"
            for s, g in zip(bad[:1], good[:1]):
                ck.ob(r, where, f"{kind}: {show_col(s)} in {clause}, {show_col(g)} in {other}",
                      lambda: expect_raise(I, validate(mk, [(clause, cx[0][1], s), (other, ctxs[other][0][1], g)])))
            same = [(s, g) for s in bad for g in good if s[0] == g[0]]
            for s, g in same[1:]:
                ck.ob(r, where, f"{kind}: {show_col(s)} in {clause}, {show_col(g)} in {other}",
                      lambda: expect_raise(I, validate(mk, [(clause, cx[0][1], s), (other, ctxs[other][0][1], g)])))
        # written-out sequences, the column at every position
        if kind in ("entity with a model", "storage with a model", "subquery", "join"):
            for clause, cx in ctxs.items():
                for l, f in cx:
                    if kind != "entity with a model" and l not in some:
                        continue
                    for i, n in POSITIONS if kind == "entity with a model" or l in ("column", "left side: column") else POSITIONS[-1:]:
                        def go(spec: tuple) -> list:
                            b.mode = (i, n)
                            try:
                                return validate(mk, [(clause, f, spec)])
                            finally:
                                b.mode = None

                        ck.ob(r, where, f"{kind}: {show_col(bad[0])} in {clause} ({l}), element {i} of {n}", lambda: expect_raise(I, go(bad[0])))
                        ck.ob(ra, where, f"{kind}: {show_col(good[0])} in {clause} ({l}), element {i} of {n}", lambda: expect_accept(I, go(good[0])))
            # the name of the column is also an alias in the query
            for clause, cx in ctxs.items():
                for other in ("select", "groupby"):
                    if other == clause or bad[0][0] != "zz":
                        continue
                    aliased = lambda st, x: b.new(st, FUNCTION, function=c("f1"), parameters=[c(1)], alias=c("zz"))
                    for l, f in cx[:2]:
                        ck.ob(r, where, f"{kind}: {show_col(bad[0])} in {clause} ({l}), also the alias of a function in {other}",
                              lambda: expect_raise(I, validate(mk, [(other, aliased, good[0]), (clause, f, bad[0])])))
    # on construction
    rc = ck.rule("construct", "a column given with a modelled entity is rejected on construction exactly when the model lacks it")
    wc = f"{I.method(COLUMN, 'validate').module.rel}:Column"

    def build(name: str) -> list:
        st = ck.fresh()
        I.field_specs = dict(FIELDS)
        st, x = b.new(st, SCOLUMN, name=c("a"))
        st, y = b.new(st, SCOLUMN, name=c("tags"))
        st, m = b.new(st, DATAMODEL, columns=[x, y], required_time_column=x)
        st, e = b.new(st, ENTITY, name=c("ent"), alias=c("e"), data_model=m)
        return I.construct(COLUMN, [], {"name": c(name), "entity": e}, st)

    for n in ("zz", "zz[a]", "a.b", "tag", "tagss", "zz[tags]", "A", "aa", "_a", "x.a", "a:b", "Tags[k]", "tags.k", "b[a]", "e", "ent"):
        ck.ob(rc, wc, f"column {n}, not in the model", lambda: expect_raise(I, build(n)))
    for n in ("a", "tags", "tags[zz]", "tags[a]", "tags[]", "a[b]"):
        ck.ob(rc, wc, f"column {n}, in the model", lambda: expect_accept(I, build(n)))
