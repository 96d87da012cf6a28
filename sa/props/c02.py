from ..framework import Check, expect_accept, expect_raise
from ..spec import *
from ..terms import NONE, T, const, one, seq, spread, sym
from .construct import CTORS, Ctor

BOUNDS = [(LIMIT, "limit", 1, 10000), (LIMITBY, "count", 1, 10000), (OFFSET, "offset", 0, None),
          (GRAN, "granularity", 1, None)]


def run(ck: Check) -> None:
    r_in = ck.rule("bound-accept", "every integer within the documented bounds is accepted")
    r_out = ck.rule("bound-reject", "every integer outside the documented bounds raises an SDK error")
    for q, arg, lo, hi in BOUNDS:
        ct = Ctor(ck, q, CTORS[q])

        def case(rng, exp):
            st = ct.setup()
            x = ck.inp(arg, ty("int", num=rng))
            return exp(ck.I, ct.run(st, {arg: x}))

        ck.ob(r_in, ct.where, f"{arg} in [{lo}, {hi if hi is not None else 'inf'}]", lambda: case((lo, True, hi, True), expect_accept))
        ck.ob(r_in, ct.where, f"{arg} = {lo}", lambda: expect_accept(ck.I, ct.run(ct.setup(), {arg: const(lo)})))
        ck.ob(r_out, ct.where, f"{arg} <= {lo - 1}", lambda: case((None, True, lo - 1, True), expect_raise))
        ck.ob(r_out, ct.where, f"{arg} = {lo - 1}", lambda: expect_raise(ck.I, ct.run(ct.setup(), {arg: const(lo - 1)})))
        if hi is not None:
            ck.ob(r_in, ct.where, f"{arg} = {hi}", lambda: expect_accept(ck.I, ct.run(ct.setup(), {arg: const(hi)})))
            ck.ob(r_out, ct.where, f"{arg} >= {hi + 1}", lambda: case((hi + 1, True, None, True), expect_raise))
            ck.ob(r_out, ct.where, f"{arg} = {hi + 1}", lambda: expect_raise(ck.I, ct.run(ct.setup(), {arg: const(hi + 1)})))
    r_s = ck.rule("sample", "a sample rate is rejected when it is zero or negative and accepted when it is a float above zero")
    for q in (ENTITY, STORAGE):
        ct = Ctor(ck, q, CTORS[q])

        def sample(rng, exp):
            st = ct.setup()
            x = ck.inp("sample", ty("float", num=rng))
            outs = ct.run(st, {"sample": x})
            return exp(ck.I, ct.drop_name_dependent(outs) if exp is expect_accept else outs)

        ck.ob(r_s, ct.where, "sample <= 0", lambda: sample((None, True, 0, True), expect_raise))
        ck.ob(r_s, ct.where, "sample = 0.0", lambda: expect_raise(ck.I, ct.run(ct.setup(), {"sample": const(0.0)})))
        ck.ob(r_s, ct.where, "sample > 0", lambda: sample((0, False, None, True), expect_accept))
    r_l = ck.rule("length", "too short a sequence raises; the shortest allowed sequence is accepted")
    for q, arg, el, least in [(BOOL, "conditions", CONDS, 2), (AND, "conditions", CONDS, 2), (OR, "conditions", CONDS, 2),
                              (LIMITBY, "columns", [COLUMN], 1), (JOIN, "relationships", [REL], 1)]:
        ct = Ctor(ck, q, CTORS[q])

        def sized(kind, n, exp):
            st = ct.setup()
            xs = [ck.inp(f"x{i}", ty(el)) for i in range(n)]
            outs = ct.run(st, {arg: seq(kind, *[one(x) for x in xs])})
            return exp(ck.I, ct.drop_name_dependent(outs) if exp is expect_accept else outs)

        for kind in ("list", "tuple"):
            for n in range(0, least + 2):
                exp = expect_raise if n < least else expect_accept
                ck.ob(r_l, ct.where, f"{kind} of {n} element(s)", lambda: sized(kind, n, exp))
    for q in (AND, OR):
        ct = Ctor(ck, q, CTORS[q])
        ck.ob(r_l, ct.where, "conditions left out", lambda: expect_raise(ck.I, ct.run(ct.setup(), {"conditions": None})))
