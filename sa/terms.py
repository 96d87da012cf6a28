"""Hash-consed terms: the value domain of the abstract interpreter.

A term denotes the set of run-time values that an expression can take, as a
function of the symbolic inputs of the analysed entry point (value numbering /
Herbrand domain).  Strings are concatenations of constants and holes; sequences
are lists of segments ("one element", "one group of elements for every element
of another sequence", "all elements of another collection").
"""
from __future__ import annotations

from typing import Any, Callable, Iterable, Optional

_TABLE: dict = {}


class Term:
    __slots__ = ("k", "a", "_h", "_s", "_unk", "_obj", "_n")

    def __repr__(self) -> str:
        return show(self)


def T(k: str, *a: Any) -> Term:
    key = (k, a)
    t = _TABLE.get(key)
    if t is None:
        t = Term()
        t.k = k
        t.a = a
        t._s = None
        t._unk = None
        t._obj = None
        t._n = len(_TABLE)  # a term is made after its parts
        _TABLE[key] = t
    return t


# --- constructors ---------------------------------------------------------


def const(v: Any) -> Term:
    """A Python constant; the type name keeps 1, True and 1.0 apart."""
    if isinstance(v, float):
        return T("const", "float", repr(v))
    if getattr(v, "tzinfo", None) is not None:
        return T("const", type(v).__name__, v, repr(v))  # equal instants in different zones are different values
    return T("const", type(v).__name__, v)


def cval(t: Term) -> Any:
    if t.a[0] == "float":
        return float(t.a[1])
    return t.a[1]


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
EMPTY = const("")


def sym(name: str) -> Term:
    return T("sym", name)


def attr(t: Term, name: str) -> Term:
    return T("attr", t, name)


def elem(t: Term) -> Term:
    return T("elem", t)


def unk(why: str) -> Term:
    return T("unk", why)


def one(t: Term) -> Term:
    return T("one", t)


def spread(t: Term) -> Term:
    return T("spread", t)


def forseg(seq: Term, *items: Term) -> Term:
    """for every element e of seq: the given segments (in terms of elem(seq))."""
    return T("for", seq, (((tuple(items)), frozenset()),))


def seq(kind: str, *segs: Term) -> Term:
    return T("seq", kind, norm_segs(segs, kind))


def is_const(t: Term) -> bool:
    return t.k == "const"


def children(t: Term) -> Iterable[Term]:
    def walk(x: Any) -> Iterable[Term]:
        if isinstance(x, Term):
            yield x
        elif isinstance(x, (tuple, frozenset)):
            for y in x:
                yield from walk(y)

    for x in t.a:
        yield from walk(x)


_CONTAINS: dict = {}


def contains(t: Term, sub: Term) -> bool:
    if t is sub:
        return True
    if t._n < sub._n:
        return False
    key = (t, sub)
    r = _CONTAINS.get(key)
    if r is None:
        r = any(contains(c, sub) for c in children(t))
        _CONTAINS[key] = r
    return r


def has_unk(t: Any) -> bool:
    if isinstance(t, (tuple, frozenset, list)):
        return any(has_unk(x) for x in t)
    if not isinstance(t, Term):
        return False
    if t._unk is None:
        if t.k in ("unk", "rec", "last"):
            t._unk = True
        else:
            t._unk = any(has_unk(c) for c in t.a)
    return t._unk


def has_obj(t: Any) -> bool:
    """Does the term refer to the heap?"""
    if isinstance(t, (tuple, frozenset, list)):
        return any(has_obj(x) for x in t)
    if not isinstance(t, Term):
        return False
    if t._obj is None:
        t._obj = t.k == "obj" or any(has_obj(c) for c in t.a)
    return t._obj


def find_unk(t: Any) -> Optional[Term]:
    if isinstance(t, (tuple, frozenset, list)):
        for x in t:
            r = find_unk(x)
            if r is not None:
                return r
        return None
    if not isinstance(t, Term):
        return None
    if t.k in ("unk", "rec", "last"):
        return t
    for c in t.a:
        r = find_unk(c)
        if r is not None:
            return r
    return None


def subst(t: Any, f: Callable[[Term], Optional[Term]]) -> Any:
    """Rebuild t, replacing every sub-term for which f returns a term."""
    memo: dict = {}

    def go(x: Any) -> Any:
        if isinstance(x, Term):
            if x in memo:
                return memo[x]
            r = f(x)
            if r is None:
                na = tuple(go(y) for y in x.a)
                if all(p is q for p, q in zip(na, x.a)):
                    r = x
                else:
                    r = rebuild(x.k, na)
            memo[x] = r
            return r
        if isinstance(x, tuple):
            n = tuple(go(y) for y in x)
            if all(p is q for p, q in zip(n, x)):
                return x
            return n
        if isinstance(x, frozenset):
            return frozenset(go(y) for y in x)
        return x

    return go(t)


def rebuild(k: str, a: tuple) -> Term:
    if k == "cat":
        return cat(*a)
    if k == "seq":
        return seq(a[0], *a[1])
    if k == "join":
        return join(a[0], a[1])
    if k == "charmap":
        return T(k, *a)
    if k == "for":
        return mkfor(a[0], a[1])
    return T(k, *a)


def replace_term(t: Any, old: Term, new: Term) -> Any:
    return subst(t, lambda x: new if x is old else None)


# --- strings ----------------------------------------------------------------


def cat(*parts: Term) -> Term:
    flat: list = []
    for p in parts:
        if p.k == "cat":
            sub = list(p.a)
        else:
            sub = [p]
        for q in sub:
            if q.k == "const" and q.a[0] == "str":
                if q.a[1] == "":
                    continue
                if flat and flat[-1].k == "const" and flat[-1].a[0] == "str":
                    flat[-1] = const(flat[-1].a[1] + q.a[1])
                    continue
            flat.append(q)
    if not flat:
        return EMPTY
    if len(flat) == 1:
        return flat[0]
    return T("cat", *flat)


def join(sep: Term, segs: Iterable[Term]) -> Term:
    segs = tuple(segs)
    if all(s.k == "one" for s in segs):
        parts: list = []
        for i, s in enumerate(segs):
            if i:
                parts.append(sep)
            parts.append(s.a[0])
        return cat(*parts)
    # sep.join over a single spread of a string-sequence is kept symbolic
    if sep is EMPTY:
        parts = []
        for s in segs:
            if s.k == "one":
                parts.append(s.a[0])
            else:
                parts.append(T("join", sep, (s,)))
        return cat(*parts)
    return T("join", sep, segs)


def fmt(t: Term, spec: str, conv: str, is_str: bool) -> Term:
    """format(t, spec) with conversion conv ('', 's', 'r')."""
    if conv in ("", "s") and spec == "":
        if is_str:
            return t
        if t.k == "const":
            return const(str(cval(t)))
        return T("fmt", t, "", "")
    if t.k == "const" and conv == "":
        try:
            return const(format(cval(t), spec))
        except Exception:
            return unk("format")
    if spec == "d" and conv == "":
        return T("fmt", t, "d", "")
    return T("fmt", t, spec, conv)


def charmap(t: Term, mapping: dict) -> Term:
    """Apply a character homomorphism given as {char: string} to string t."""
    mapping = {c: s for c, s in mapping.items() if c != s}
    if t.k == "charmap":
        inner = dict(t.a[1])
        comp: dict = {}
        for c, s in inner.items():
            comp[c] = "".join(mapping.get(x, x) for x in s)
        for c, s in mapping.items():
            if c not in inner:
                comp[c] = s
        mapping = {c: s for c, s in comp.items() if c != s}
        t = t.a[0]
    if t.k == "const":
        return const("".join(mapping.get(x, x) for x in cval(t)))
    if not mapping:
        return t
    return T("charmap", t, tuple(sorted(mapping.items())))


# --- sequences --------------------------------------------------------------


def mkfor(s: Term, cases: tuple) -> Term:
    """cases: tuple of (segs, frozenset of guards).  Equal segments are merged
    and, when only one case is left, its guard is dropped (it covers everything)."""
    by: dict = {}
    for segs, guards in cases:
        segs = norm_segs(segs, "list")
        by[segs] = by.get(segs, frozenset()) | guards
    if len(by) == 1:
        segs = next(iter(by))
        return T("for", s, ((segs, frozenset()),))
    items = sorted(by.items(), key=lambda kv: show(kv[0]))
    return T("for", s, tuple(items))


#: the order in which the analysed program sees the elements of a set; checks whose verdict
#: must not depend on it are run under both
SET_ORDER = {"reverse": False, "touched": False}


def norm_segs(segs: Iterable[Term], kind: str) -> tuple:
    out: list = []
    for s in segs:
        if s.k == "spread" and s.a[0].k == "seq" and (
            kind == "set" or s.a[0].a[0] != "set"
        ):
            out.extend(s.a[0].a[1])
        elif s.k == "for" and len(s.a[1]) == 1:
            inner = s.a[1][0][0]
            if inner == ():
                continue
            if len(inner) == 1 and inner[0].k == "one" and inner[0].a[0] is elem(s.a[0]):
                out.append(spread(s.a[0]))
            else:
                out.append(s)
        else:
            out.append(s)
    # f(x[0]) followed by f over x[1:]  ==> f over x
    res: list = []
    for s in out:
        if res and s.k in ("for", "spread") and s.a[0].k == "slice" and s.a[0].a[1:] == (1, None):
            whole = s.a[0].a[0]
            first = T("item", whole, const(0))
            if s.k == "spread":
                if res[-1] is one(first):
                    res[-1] = spread(whole)
                    continue
            elif len(s.a[1]) == 1:
                inner = s.a[1][0][0]
                if len(inner) == 1:
                    at0 = subst(inner[0], lambda x: first if x is elem(s.a[0]) else None)
                    if at0 is res[-1]:
                        gen = subst(inner[0], lambda x: elem(whole) if x is elem(s.a[0]) else None)
                        res[-1] = T("for", whole, (((gen,), frozenset()),))
                        continue
        res.append(s)
    if kind == "set":
        eq = SET_ORDER.get("eq")
        if eq is not None and len(res) > 1:
            kept: list = []
            for s in res:
                if s.k == "one" and s.a[0].k in ("const", "new") and any(
                        k is not s and k.k == "one" and k.a[0].k == s.a[0].k and eq(k.a[0], s.a[0]) is True for k in kept):
                    continue
                kept.append(s)
            res = kept
        res = sorted(set(res), key=show, reverse=SET_ORDER["reverse"])
        if len(res) > 1:
            SET_ORDER["touched"] = True
    return tuple(res)


# --- printing -----------------------------------------------------------------


def show(t: Any) -> str:
    if isinstance(t, Term):
        if t._s is None:
            t._s = _show(t)
        return t._s
    if isinstance(t, tuple):
        return "(" + ", ".join(show(x) for x in t) + ")"
    if isinstance(t, frozenset):
        return "{" + ", ".join(sorted(show(x) for x in t)) + "}"
    return repr(t)


def _show(t: Term) -> str:
    k, a = t.k, t.a
    if k == "const":
        return a[1] if a[0] == "float" else repr(a[1])
    if k == "sym":
        return a[0]
    if k == "attr":
        return f"{show(a[0])}.{a[1]}"
    if k == "elem":
        return f"each({show(a[0])})"
    if k == "it":
        return f"some#{a[1]}({show(a[0])})"
    if k == "cat":
        return " ++ ".join(show(x) for x in a)
    if k == "one":
        return show(a[0])
    if k == "spread":
        return "*" + show(a[0])
    if k == "for":
        cs = []
        for segs, guards in a[1]:
            body = ", ".join(show(x) for x in segs)
            cs.append(body + (f" if {show(guards)}" if guards else ""))
        return f"[{' | '.join(cs)} for each({show(a[0])})]"
    if k == "seq":
        return f"{a[0]}[" + ", ".join(show(x) for x in a[1]) + "]"
    if k == "join":
        return f"{show(a[0])}.join(" + ", ".join(show(x) for x in a[1]) + ")"
    if k == "app":
        return f"{a[0]}(" + ", ".join(show(x) for x in a[1:]) + ")"
    if k == "new":
        return f"{a[0].rsplit('.', 1)[-1]}(" + ", ".join(f"{n}={show(v)}" for n, v in a[1]) + ")"
    if k == "enum":
        return f"{a[0].rsplit('.', 1)[-1]}.{a[1]}"
    if k == "cls":
        return a[0].rsplit(".", 1)[-1]
    if k == "item":
        return f"{show(a[0])}[{show(a[1])}]"
    if k == "fmt":
        return f"format({show(a[0])}{',' + a[1] if a[1] else ''}{'!' + a[2] if a[2] else ''})"
    return f"{k}({', '.join(show(x) for x in a)})"


def dict_term(**kw: Term) -> Term:
    return T("dict", tuple(T("entry", const(k), v) for k, v in kw.items()))
