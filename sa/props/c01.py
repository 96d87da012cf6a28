from ..framework import Check, expect_accept, expect_raise
from ..spec import *
from ..terms import NONE, T, one, seq, spread, sym
from .construct import CTORS, Ctor, bad_atoms, type_obligations, universe, with_bad


def run(ck: Check) -> None:
    type_obligations(ck, CTORS, "C01")
    unary = ck.rule("unary", "a condition with IS NULL / IS NOT NULL and a right-hand side raises, without one it does not")
    ct = Ctor(ck, COND, CTORS[COND])
    for m in ("IS_NULL", "IS_NOT_NULL"):
        def with_rhs():
            st = ct.setup()
            sp = CTORS[COND]["rhs"].ok
            rhs = ck.inp("rhs", ty(sp.atoms - {"NoneType"}, elem=sp.elem))
            return expect_raise(ck.I, ct.run(st, {"op": enum(OP, m), "rhs": rhs}))

        def without():
            st = ct.setup()
            return expect_accept(ck.I, ct.run(st, {"op": enum(OP, m), "rhs": NONE}))

        ck.ob(unary, ct.where, f"{m} with a right-hand side", with_rhs)
        ck.ob(unary, ct.where, f"{m} without a right-hand side", without)
    accept = ck.rule("accept-operator", "every operator is accepted with a right-hand side of permitted type unless it is unary")
    for m in ck.I.cls_by_q(OP).members:
        if m in ("IS_NULL", "IS_NOT_NULL"):
            continue
        ck.ob(accept, ct.where, f"operator {m}", lambda: expect_accept(ck.I, ct.run(ct.setup(), {"op": enum(OP, m)})))
    # operands and operator are checked independently of each other
    rej = ck.rule("reject-operand", "an operand of any other type is rejected whatever the operator of the condition")
    for m in ck.I.cls_by_q(OP).members:
        for arg in ("lhs", "rhs"):
            ck.ob(rej, ct.where, f"{arg} of another type with operator {m}",
                  lambda: expect_raise(ck.I, ct.run(ct.setup(), {"op": enum(OP, m), arg: ck.inp(arg, ty(bad_atoms(ck, CTORS[COND][arg])))})))
        for kind in ("list", "tuple"):
            def elem():
                st = ct.setup()
                bad = ck.inp("bad", ty(universe(ck) - CTORS[COND]["rhs"].ok.elem.atoms))
                return expect_raise(ck.I, ct.run(st, {"op": enum(OP, m), "rhs": with_bad(ct, "rhs", kind, bad)}))
            ck.ob(rej, ct.where, f"rhs a {kind} with an element of another type, operator {m}", elem)
    # entities: an alias is required where columns and relationships are qualified by it
    qual = ck.rule("alias-required", "a column's entity and both ends of a relationship must be entities with an alias")
    col = Ctor(ck, COLUMN, CTORS[COLUMN])

    def col_entity(spec, alias):
        st = col.setup()
        e = ck.inp("entity", spec)
        st.types[T("attr", e, "alias")] = frozenset(alias)
        st.types[T("attr", e, "data_model")] = frozenset(["NoneType"])
        return col.run(st, {"entity": e})

    ck.ob(qual, col.where, "column with an entity without alias", lambda: expect_raise(ck.I, col_entity(ty(ENTITY), ["NoneType"])))
    ck.ob(qual, col.where, "column with an aliased entity", lambda: expect_accept(ck.I, col.drop_name_dependent(col_entity(ty(ENTITY), ["str"]))))
    ck.ob(qual, col.where, "column with an entity of another type",
          lambda: expect_raise(ck.I, col_entity(ty(universe(ck) - {ENTITY, "NoneType"}), ["str"])))
    rel = Ctor(ck, REL, CTORS[REL])
    for side in ("lhs", "rhs"):
        def no_alias():
            st = rel.setup()
            e = ck.inp("e", ty(ENTITY))
            st.types[T("attr", e, "alias")] = frozenset(["NoneType"])
            return expect_raise(ck.I, rel.run(st, {side: e}))
        ck.ob(qual, rel.where, f"{side} without alias", no_alias)
