"""Is a difference between two terms a difference between the values they denote?

Two value terms that differ as terms may still denote the same value for every input
(the same text assembled in another way).  Before a mismatch is reported, both terms
are evaluated in the term algebra for a number of assignments to their leaves that
satisfy the facts of the path; when they never differ, the obligation is left
undecided instead of being reported.  This only ever turns a report into `undecided`:
nothing is concluded to hold from samples.  Operations that samples may not tell apart (replacing only some
occurrences, rounding, slicing) have no evaluation rule, and then the report stands."""
from __future__ import annotations

import datetime
import os
import random
from typing import Any, Optional

from .terms import Term, cval, elem, show


class No(Exception):
    """The term has no evaluation rule."""


class Tok:
    """An opaque value of which only the identity is known."""

    __slots__ = ("key",)

    def __init__(self, key: Any) -> None:
        self.key = key

    def __eq__(self, o: Any) -> bool:
        return isinstance(o, Tok) and o.key == self.key

    def __hash__(self) -> int:
        return hash(self.key)

    def __repr__(self) -> str:
        return f"<{self.key}>"


STRS = ["", "a", "b", "it's", 'say "x"', "back\\slash", "new\nline", "\\'\n\"", "x y", "1", "a.b", "A", "é"]
INTS = [0, 1, 2, -1, 7, 60, 3600, 1000, 10 ** 12]
FLOATS = [0.0, 0.5, 1.0, -2.25, 1e-7, 1e22, 123456.789]
DATES = [datetime.datetime(2020, 1, 1), datetime.datetime(2021, 12, 31, 23, 59, 59, 123456)]


def tag(v: Any) -> Any:
    """Values with their types: 1, True and 1.0 are different results."""
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, tuple(tag(x) for x in v))
    if isinstance(v, dict):
        return ("dict", tuple((tag(k), tag(x)) for k, x in v.items()))
    if isinstance(v, (set, frozenset)):
        return ("set", frozenset(tag(x) for x in v))
    return (type(v).__name__, v)


class World:
    def __init__(self, I: Any, st: Any, rng: random.Random) -> None:
        self.I, self.st, self.rng = I, st, rng
        self.vals: dict = {}

    def leaf(self, key: Any, t: Term, spec: Any = None, depth: int = 0) -> Any:
        if key in self.vals:
            return self.vals[key]
        rng = self.rng
        dom = self.st.oneof.get(t)
        if dom:
            v = self.ev(rng.choice(sorted(dom, key=show)), {})
        else:
            ts = sorted(spec.atoms) if spec is not None else sorted(self.I.types(self.st, t))
            sp = spec if spec is not None else self.I.spec_of(self.st, t)
            if spec is None and sp is not None and sp.oneof:
                v = self.ev(rng.choice(sorted(sp.oneof, key=show)), {})
            else:
                v = self.of_type(rng.choice(ts), key, t, sp, depth) if ts else Tok(key)
        self.vals[key] = v
        return v

    def of_type(self, a: str, key: Any, t: Term, sp: Any, depth: int) -> Any:
        rng = self.rng
        if a == "NoneType":
            return None
        if a == "bool":
            return rng.random() < 0.5
        if a == "int":
            return rng.choice(INTS)
        if a == "float":
            return rng.choice(FLOATS)
        if a == "str":
            return rng.choice(STRS)
        if a == "datetime":
            return rng.choice(DATES)
        if a in ("list", "tuple", "set") and depth < 2:
            e = sp.elem if sp is not None else None
            n = rng.choice([0, 1, 1, 2, 3])
            xs = [self.leaf((key, i), elem(t), e, depth + 1) if e is not None else Tok((key, i)) for i in range(n)]
            return tuple(xs) if a == "tuple" else xs
        if "." in a and a in self.I.classes and self.I.classes[a].is_enum:
            return Tok((a, rng.choice(sorted(self.I.classes[a].members))))
        return Tok((key, a))

    def ev(self, t: Any, env: dict) -> Any:
        if not isinstance(t, Term):
            raise No("not a term")
        if t in env:
            return env[t]
        k, a = t.k, t.a
        if k == "const":
            return cval(t)
        if k == "enum":
            return Tok((a[0], a[1]))
        if k in ("cls", "builtin", "ext"):
            return Tok((k,) + tuple(str(x) for x in a))
        if k == "sym":
            return self.leaf(t, t)
        if k == "attr":
            b = self.ev(a[0], env)
            return self.leaf(("attr", tagk(b), a[1]), t)
        if k == "elem":
            raise No("element of a sequence outside a loop")
        if k == "item":
            b, i = self.ev(a[0], env), self.ev(a[1], env)
            if isinstance(b, (list, tuple, str, dict)):
                try:
                    return b[i]
                except (LookupError, TypeError):
                    raise No("item") from None
            raise No("item")
        if k == "cat":
            xs = [self.ev(x, env) for x in a]
            if not all(isinstance(x, str) for x in xs):
                raise No("text")
            return "".join(xs)
        if k == "join":
            sep = self.ev(a[0], env)
            xs = self.segs(a[1], env)
            if not all(isinstance(x, str) for x in xs):
                raise No("text")
            return sep.join(xs)
        if k == "charmap":
            s = self.ev(a[0], env)
            m = dict(a[1])
            if not isinstance(s, str):
                raise No("charmap")
            return "".join(m.get(c, c) for c in s)
        if k == "fmt":
            v = self.ev(a[0], env)
            if a[1] not in ("", "s", "d") or a[2] == "a":
                raise No("a format that samples may not tell apart")
            if isinstance(v, Tok):
                return f"<fmt {v!r} {a[1]} {a[2]}>"
            try:
                v = {"": lambda x: x, "s": str, "r": repr, "a": ascii}[a[2]](v)
                return format(v, a[1])
            except Exception:
                raise No("fmt") from None
        if k == "seq":
            xs = self.segs(a[1], env)
            return xs if a[0] == "list" else tuple(xs) if a[0] == "tuple" else frozenset(map(hashable, xs))
        if k == "dict":
            out: dict = {}
            for e in a[0]:
                if e.k != "entry":
                    raise No("dict")
                out[hashable(self.ev(e.a[0], env))] = self.ev(e.a[1], env)
            return out
        if k == "new":
            return Tok((a[0], tuple((n, tagk(self.ev(v, env))) for n, v in a[1])))
        if k == "not":
            return not self.truth(self.ev(a[0], env))
        if k == "truthy":
            return self.truth(self.ev(a[0], env))
        if k == "eq":
            return self.ev(a[0], env) == self.ev(a[1], env)
        if k in ("lt", "le"):
            x, y = self.ev(a[0], env), self.ev(a[1], env)
            try:
                return x < y if k == "lt" else x <= y
            except TypeError:
                raise No(k) from None
        if k == "in":
            x, y = self.ev(a[0], env), self.ev(a[1], env)
            if isinstance(y, (list, tuple, dict, set, frozenset)) or (isinstance(y, str) and isinstance(x, str)):
                return x in y
            raise No("in")
        if k == "app":
            return self.app(a[0], a[1:], env)
        raise No(k)

    def app(self, f: str, args: tuple, env: dict) -> Any:
        if f in ("R", "before", "after", "below", "call"):
            def val(x: Any) -> Any:
                if isinstance(x, Term):
                    if x.k == "cfg":
                        return tuple(val(y) for y in x.a)
                    return tagk(self.ev(x, env))
                return x
            return f"<{f} {tuple(val(x) for x in args)!r}>"
        vs = [self.ev(x, env) for x in args]
        if f == "lookup" and isinstance(vs[0], dict) and hashable(vs[1]) in vs[0]:
            return vs[0][hashable(vs[1])]
        if f == "get" and isinstance(vs[0], dict):
            return vs[0].get(hashable(vs[1]), vs[2])
        if f == "len" and isinstance(vs[0], (list, tuple, str, dict, set, frozenset)):
            return len(vs[0])
        if f in ("str", "repr") and len(vs) == 1 and isinstance(vs[0], (int, float, str)):
            return str(vs[0]) if f == "str" else repr(vs[0])
        if f == "reversed" and isinstance(vs[0], (list, tuple)):
            return list(vs[0])[::-1]
        if f == "keys" and isinstance(vs[0], dict):
            return list(vs[0])
        if f == "values" and isinstance(vs[0], dict):
            return list(vs[0].values())
        raise No(f)

    def truth(self, v: Any) -> bool:
        return True if isinstance(v, Tok) else bool(v)

    def segs(self, segs: tuple, env: dict) -> list:
        out: list = []
        for s in segs:
            if s.k == "one":
                out.append(self.ev(s.a[0], env))
            elif s.k == "spread":
                out += self.iter(s.a[0], env)
            elif s.k == "for":
                for v in self.iter(s.a[0], env):
                    env2 = dict(env)
                    env2[elem(s.a[0])] = v
                    cases = [c for c in s.a[1] if not c[1] or self.guards(c[1], env2)]
                    if len(cases) != 1:
                        raise No("cases")
                    out += self.segs(cases[0][0], env2)
            else:
                raise No(s.k)
        return out

    def iter(self, t: Term, env: dict) -> list:
        v = self.ev(t, env)
        if isinstance(v, (list, tuple, str, dict)):
            return list(v)
        raise No("iteration")

    def guards(self, gs: frozenset, env: dict) -> bool:
        return any(all(self.guard(g, env) for g in conj) for conj in gs)

    def guard(self, g: tuple, env: dict) -> bool:
        kind, t, v = g[0], g[1], g[2] if len(g) > 2 else None
        x = self.ev(t, env)
        if kind in ("oneof", "notin"):
            ys = [self.ev(y, env) for y in v]
            return (x in ys) == (kind == "oneof")
        if kind == "preds" or kind == "pred":
            return self.truth(x) == v
        if kind == "types":
            return any(self.has_type(x, n) for n in v)
        raise No(f"guard {kind}")

    def has_type(self, x: Any, n: str) -> bool:
        m = {"NoneType": type(None), "bool": bool, "int": int, "float": float, "str": str, "list": list, "tuple": tuple,
             "dict": dict, "datetime": datetime.datetime}
        if isinstance(x, Tok):
            raise No("type of an opaque value")
        return type(x) is m.get(n)

    def admissible(self) -> bool:
        """The evaluable facts of the path hold."""
        for t, v in list(self.st.preds.items()):
            try:
                if self.truth(self.ev(t, {})) != v:
                    return False
            except No:
                pass
        for t, vs in list(self.st.notin.items()):
            try:
                x = self.ev(t, {})
                if any(x == self.ev(y, {}) for y in vs):
                    return False
            except No:
                pass
        for t, iv in list(self.st.num.items()):
            try:
                x = self.ev(t, {})
                lo, lo_in, hi, hi_in = iv
                if isinstance(x, (int, float)) and (
                        (lo is not None and (x < lo or (x == lo and not lo_in)))
                        or (hi is not None and (x > hi or (x == hi and not hi_in)))):
                    return False
            except (No, TypeError, ValueError):
                pass
        return True


def hashable(v: Any) -> Any:
    if isinstance(v, list):
        return tuple(hashable(x) for x in v)
    if isinstance(v, dict):
        return tuple((k, hashable(x)) for k, x in v.items())
    return v


def tagk(v: Any) -> Any:
    t = tag(v)
    return v.key if isinstance(v, Tok) else t


def never_differ(I: Any, st: Any, got: Term, wants: Any) -> bool:
    """No sampled assignment tells `got` from one of `wants` (False also when unknown)."""
    wants = list(wants)
    rng = random.Random(7)
    seen = tried = 0
    alive = [True] * len(wants)
    try:
        while seen < 60 and tried < 1500:
            tried += 1
            w = World(I, st, rng)
            if not w.admissible():
                continue
            g = tag(w.ev(got, {}))
            for i, x in enumerate(wants):
                if alive[i] and tag(w.ev(x, {})) != g:
                    alive[i] = False
            if not any(alive):
                if os.environ.get("VERIF_WIT"):
                    print("WIT differ")
                return False
            seen += 1
    except (No, RecursionError) as e:
        if os.environ.get("VERIF_WIT"):
            print(f"WIT unknown {e} :: {show(got)[:300]}")
        return False
    return seen >= 20
