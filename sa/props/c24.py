"""C24: equality implies equal hashes, for every class of the package."""
from __future__ import annotations

from typing import Any, Optional

from ..framework import Check, Undecided, taint
from ..model import ClassInfo, Raised, State
from ..spec import *
from ..terms import *


def has_own_eq(c: ClassInfo) -> bool:
    return "__eq__" in c.ns or (c.dc is not None and bool(c.dc.get("eq")))


def hash_of(c: ClassInfo) -> Any:
    """None (unhashable), ("fields", names), ("method", FuncInfo), "identity"."""
    for k in c.mro():
        if not isinstance(k, ClassInfo):
            continue
        if "__hash__" in k.ns:
            h = k.ns["__hash__"]
            if h is NONE:
                return None
            if h.k == "func":
                return ("method", h.a[0])
            if h.k == "attr" or h.k == "ext":
                raise Undecided(f"__hash__ of {k.name} is {show(h)}")
            raise Undecided(f"__hash__ of {k.name} is {show(h)}")
        if k.dc is not None:
            if k.dc.get("unsafe_hash") or (k.dc.get("eq") and k.dc.get("frozen")):
                return ("fields", [f.name for f in k.fields() if (f.compare if f.hash is None else f.hash)], k)
            if k.dc.get("eq"):
                return None
        elif "__eq__" in k.ns:
            return None
    return "identity"


def eq_impl(c: ClassInfo) -> Any:
    for k in c.mro():
        if not isinstance(k, ClassInfo):
            continue
        if "__eq__" in k.ns:
            v = k.ns["__eq__"]
            if v.k != "func":
                raise Undecided(f"__eq__ of {k.name} is {show(v)}")
            return ("method", v.a[0])
        if k.dc is not None and k.dc.get("eq"):
            return ("fields", [f.name for f in k.fields() if f.compare], k)
    return "identity"


def run(ck: Check) -> None:
    I = ck.I
    I.field_specs = dict(FIELDS)
    r = ck.rule("hash", "whenever == yields True for two objects, every part that enters their hashes is equal")
    ra = ck.rule("alias", "the hash of a function does not depend on its alias")
    classes = [c for c in I.classes.values() if c.q.startswith(P) and not c.is_exception()]
    ck.counters["classes"] = len(classes)

    def instance(st: State, c: ClassInfo, tag: str) -> tuple:
        fs = {f.name: ck.inp(f"{tag}.{f.name}", I.field_specs.get((c.q, f.name)) or ty(I.universe)) for f in c.fields()}
        return I.alloc(st, "inst", dict(fs), c), fs

    def equal_states(c: ClassInfo, d: ClassInfo) -> list:
        """[(state, fields of x, fields of y)] of the ways in which x == y is true."""
        st = ck.fresh()
        x, fx = instance(st, c, "x")
        y, fy = instance(st, d, "y")
        order = [(c, x, fx, y, fy, d), (d, y, fy, x, fx, c)]
        if d is not c and c in d.mro() and has_own_eq(d):
            order.reverse()
        out: list = []
        live = [st]
        for (k, a, fa, b, fb, o) in order:
            e = eq_impl(k)
            if e == "identity":
                continue
            nxt = []
            for s in live:
                if e[0] == "fields":
                    if o is not k:
                        nxt.append(s)  # NotImplemented
                        continue
                    ok = True
                    for n in e[1]:
                        ok = ok and I.assume(s, I.mk_eq(s, fa[n], fb[n]), True)
                    if ok:
                        out.append((s, x, fx, y, fy))
                    continue
                for s2, v in I.call_func(e[1], [a, b], {}, s):
                    if isinstance(v, Raised):
                        continue
                    if v.k == "builtin" and v.a[0] == "NotImplemented" or (v.k == "const" and "NotImplemented" in repr(v)):
                        nxt.append(s2)
                        continue
                    if has_unk(v) or taint(s2):
                        raise Undecided(f"== depends on {show(v)}")
                    t = I.truth(s2, v)
                    if t is FALSE or not I.assume(s2, t, True):
                        continue
                    out.append((s2, x, fx, y, fy))
            live = nxt
        return out

    def hash_term(c: ClassInfo, o: Term, fs: dict, s: State) -> Optional[Term]:
        h = hash_of(c)
        if h is None:
            return None
        if h == "identity":
            return T("app", "id", o)
        if h[0] == "fields":
            return T("app", "hash", seq("tuple", *[one(fs[n]) for n in h[1] if n in fs]))
        outs = [(s2, v) for s2, v in I.call_func(h[1], [o], {}, s.copy())]
        if len(outs) != 1 or isinstance(outs[0][1], Raised):
            raise Undecided(f"__hash__ of {c.name} has {len(outs)} outcomes")
        v = I.freeze(outs[0][0], outs[0][1])
        if has_unk(v):
            raise Undecided(f"__hash__ depends on {show(find_unk(v))}")
        return v

    def pair(c: ClassInfo, d: ClassInfo) -> Optional[str]:
        if hash_of(c) is None or hash_of(d) is None:
            return None
        for s, x, fx, y, fy in equal_states(c, d):
            hx, hy = hash_term(c, x, fx, s), hash_term(d, y, fy, s)
            known = {}
            for n in fx:
                if n in fy and I.decide(s, I.mk_eq(s, fx[n], fy[n])) is True:
                    known[fx[n]] = fy[n]
            # parts that one of the classes fixes
            for a, b in ((fx, fy), (fy, fx)):
                for n in a:
                    if n in b and I.types(s, a[n]) == frozenset(["NoneType"]) == I.types(s, b[n]):
                        known[fx[n]] = fy[n]
            got = subst(hx, lambda t: known.get(t))
            if got is not hy:
                bad = sorted(n for n in fx if contains(hx, fx[n]) and fx[n] not in known)
                if hx.k == "app" and hx.a[0] == "id":
                    return f"{c.name} objects that compare equal are hashed by identity"
                return f"x == y does not imply equal {', '.join(bad) or 'parts'}, which enter{'s' if len(bad) == 1 else ''} the hash: {show(hx)} and {show(hy)}"
        return None

    for c in classes:
        if c.is_enum:
            # members are compared and hashed by identity unless the class says otherwise
            def en(c: ClassInfo = c) -> Optional[str]:
                if "__eq__" in c.ns and "__hash__" in c.ns:
                    raise Undecided("an enumeration with its own == and hash")
                return None

            ck.ob(r, f"{c.module.rel}:{c.name}", "two members", en)
            continue
        ck.ob(r, f"{c.module.rel}:{c.name}", f"two {c.name} objects", lambda c=c: pair(c, c))
        for d in classes:
            if d is not c and c in d.mro():
                ck.ob(r, f"{c.module.rel}:{c.name}", f"a {c.name} and a {d.name}", lambda c=c, d=d: pair(c, d))
                ck.ob(r, f"{c.module.rel}:{c.name}", f"a {d.name} and a {c.name}", lambda c=c, d=d: pair(d, c))
    for q in (FUNCTION, CURRIED):
        c = I.cls_by_q(q)

        def al(c: ClassInfo = c) -> Optional[str]:
            st = ck.fresh()
            x, fx = instance(st, c, "x")
            h = hash_term(c, x, fx, st)
            if h is None:
                return "functions are not hashable"
            if contains(h, fx["alias"]):
                return f"the hash is {show(h)}"
            return None

        ck.ob(ra, f"{c.module.rel}:{c.name}", "alias", al)
