"""C03: the languages of names.  The strings a constructor accepts are read off the
facts of its accepting paths and compared with the documented language."""
from __future__ import annotations

from typing import Any, Optional

from .. import regexlang as L
from ..framework import Check, Undecided, stub, expect_accept, facts, taint
from ..model import Raised, State
from ..spec import *
from ..terms import NONE, T, Term, const, contains, cval, one, seq, show, spread, sym
from .construct import CTORS, Ctor

IDENT_RE = r"[a-zA-Z_][a-zA-Z0-9_]*"
ALIAS_RE = r"[a-zA-Z0-9_.+*/:\-\[\]()@]+"
FLAG_RE = r"[a-zA-Z0-9_.+*/:\-\[\]]+"
NAMES = [
    (COLUMN, "name", r"[a-zA-Z_](\w|\.|:|\/|@)*(\[([^\[\]]*)\])?"),
    (ENTITY, "name", r"[a-zA-Z_]+"),
    (STORAGE, "name", r"[a-zA-Z_]+"),
    (FUNCTION, "function", r"""[a-zA-Z](\w|[().,+'":]| |\[|\]|\-)+"""),
    (CURRIED, "function", r"""[a-zA-Z](\w|[().,+'":]| |\[|\]|\-)+"""),
    (FUNCTION, "alias", ALIAS_RE),
    (CURRIED, "alias", ALIAS_RE),
    (ALIASED, "alias", ALIAS_RE),
    (IDENT, "name", IDENT_RE),
]


def value_lang(v: Term) -> L.Lang:
    if v.k == "const" and isinstance(cval(v), str):
        return L.exactly(cval(v))
    return L.NOTHING


def pred_lang(t: Term, x: Term) -> L.Lang:
    """The strings x for which the condition t is true."""
    k = t.k
    if k == "not":
        return ~pred_lang(t.a[0], x)
    if k == "truthy":
        y = t.a[0]
        if y is x:
            return L.NONEMPTY
        if y.k == "app" and y.a[1] is x:
            n, rest = y.a[0], y.a[2:]
            if n in ("startswith", "endswith") and len(rest) == 1:
                f = L.startswith if n == "startswith" else L.endswith
                if rest[0].k == "const":
                    return f(cval(rest[0]))
                if rest[0].k == "seq" and all(s.k == "one" and s.a[0].k == "const" for s in rest[0].a[1]):
                    r: L.Lang = L.NOTHING
                    for s in rest[0].a[1]:
                        r = r | f(cval(s.a[0]))
                    return r
            if n in ("isdigit", "isalpha", "isalnum", "isspace", "isnumeric", "isdecimal") and not rest:
                return L.every_char(lambda c: getattr(c, n)(), True)
            if n == "isascii":
                return L.every_char(str.isascii)
            if n == "isidentifier":
                return L.IDENTIFIER
            if n in ("strip", "lstrip", "rstrip") and not rest:
                return ~L.every_char(str.isspace)
    if k == "rematch" and t.a[2] is x and t.a[0].k == "regex" and t.a[0].a[0] is not None:
        return L.Regex(t.a[0].a[0], t.a[0].a[1], t.a[1])
    if k == "in":
        a, b = t.a
        if b is x and a.k == "const":
            return L.contains(cval(a))
        if a is x and b.k == "seq" and all(s.k == "one" for s in b.a[1]):
            r = L.NOTHING
            for s in b.a[1]:
                r = r | value_lang(s.a[0])
            return r
    if k == "eq":
        a, b = t.a
        for p, q in ((a, b), (b, a)):
            if p is x and q.k == "const":
                return value_lang(q)
            if p is x and q.k == "app" and q.a[0] in ("strip", "lstrip", "rstrip") and q.a[1:] == (x,):
                sp = str.isspace
                first, last = L.first_char(sp), L.Table(0, lambda s, c: 1 if sp(c) else 0, lambda s: s == 1)
                bad = first if q.a[0] == "lstrip" else last if q.a[0] == "rstrip" else first | last
                return ~bad
            if p.k == "item" and p.a[0] is x and p.a[1] is const(0) and q.k == "const":
                return L.startswith(cval(q))
            if p.k == "item" and p.a[0] is x and p.a[1] is const(-1) and q.k == "const":
                return L.endswith(cval(q))
    if k == "quant" and t.a[1] is x:
        e = T("elem", x)
        if all(not g for _, g in t.a[2]) and len(t.a[2]) == 1:
            ok = char_pred(t.a[2][0][0], e)
            return L.every_char(ok) if t.a[0] == "all" else ~L.every_char(lambda c: not ok(c))
    if t.k in ("in", "eq", "truthy", "rematch") and contains(t, T("elem", x)):
        return L.every_char(char_pred(t, T("elem", x)))
    for y in transforms(t, x):
        if y is not x:
            try:
                return preimage(pred_lang(t, y), y, x)
            except L.NotALanguage:
                pass
    raise L.NotALanguage(show(t))


def transforms(t: Any, x: Term) -> list:
    """The string-valued functions of x that occur in t, largest first."""
    out: list = []

    def walk(u: Any) -> None:
        if isinstance(u, (tuple, frozenset)):
            for y in u:
                walk(y)
        if not isinstance(u, Term) or not contains(u, x):
            return
        if u.k in ("cat", "charmap") or u.k == "app" and u.a[0] in TRANSFORMS:
            out.append(u)
        for y in u.a:
            walk(y)

    walk(t)
    return out


TRANSFORMS = {"strip", "lstrip", "rstrip", "lower", "upper", "casefold", "strslice", "before", "after"}


def preimage(l: L.Lang, y: Term, x: Term) -> L.Lang:
    """{ x : y(x) in l }"""
    if y is x:
        return l
    cs = None
    if y.k == "app":
        n, src, rest = y.a[0], y.a[1], y.a[2:]
        if all(r.k == "const" for r in rest):
            cs = [cval(r) for r in rest]
            if n in ("strip", "lstrip", "rstrip"):
                ok = (lambda c: c in cs[0]) if cs and cs[0] is not None else str.isspace
                return preimage(L.stripped(l, ok, n != "rstrip", n != "lstrip"), src, x)
            if n in ("lower", "upper", "casefold"):
                return preimage(L.mapped(l, getattr(str, n)), src, x)
            if n in ("before", "after") and len(cs) == 1 and isinstance(cs[0], str) and len(cs[0]) == 1:
                return preimage((L.before if n == "before" else L.after)(l, cs[0]), src, x)
            if n == "strslice" and cs[2] in (None, 1):
                a, b = cs[0] or 0, cs[1]
                if isinstance(a, int) and 0 <= a < 9 and (b is None or -9 < b < 0):
                    return preimage(L.dropped(l, a, -(b or 0)), src, x)
                if a == 0 and isinstance(b, int) and 0 <= b < 99:
                    return preimage(L.taken(l, b), src, x)
    if y.k == "charmap":
        m = {cval(a) if isinstance(a, Term) else a: cval(b) if isinstance(b, Term) else b for a, b in y.a[1]}
        return preimage(L.mapped(l, lambda c: m.get(c, c)), y.a[0], x)
    if y.k == "cat":
        holes = [i for i, p in enumerate(y.a) if p.k != "const"]
        if len(holes) == 1:
            i = holes[0]
            return preimage(L.wrapped(l, "".join(cval(p) for p in y.a[:i]), "".join(cval(p) for p in y.a[i + 1:])), y.a[i], x)
    raise L.NotALanguage(show(y))


def char_pred(t: Term, e: Term) -> Any:
    """A predicate on one character, as a language restricted to single characters."""
    lang = pred_lang(t, e)
    if t.k == "in" and t.a[0] is e and t.a[1].k == "const" and isinstance(cval(t.a[1]), str):
        return lambda c: c in cval(t.a[1])

    def f(c: str) -> bool:
        return lang.accept(lang.step(lang.start(), c))

    return f


_base_pred = pred_lang


def path_lang(st: State, x: Term) -> L.Lang:
    r: L.Lang = L.ALL
    e = T("elem", x)
    for t, v in st.preds.items():
        if not contains(t, x):
            continue
        if contains(t, e) and t.k != "quant":
            ok = char_pred2(t, e)
            r = r & L.every_char(ok if v else (lambda c, ok=ok: not ok(c)))
            continue
        l = pred_lang(t, x)
        r = r & (l if v else ~l)
    for d, neg in ((st.oneof, False), (st.notin, True)):
        for t, vs in d.items():
            if not contains(t, x):
                continue
            if t is e:
                chars = {cval(v) for v in vs if v.k == "const"}
                r = r & L.every_char(lambda c, chars=chars: (c in chars) != neg)
                continue
            l = L.NOTHING
            for v in vs:
                l = l | (value_lang(v) if t is x else pred_lang(T("eq", t, v), x))
            r = r & (~l if neg else l)
    for t, n in st.num.items():
        if not contains(t, x):
            continue
        if t is T("app", "len", x):
            lo, li, hi, hi_i = n
            r = r & L.length(None if lo is None else lo if li else lo + 1, None if hi is None else hi if hi_i else hi - 1)
        else:
            raise L.NotALanguage(show(t))
    for t in st.types:
        if contains(t, x) and t is not x and t is not e:
            raise L.NotALanguage(show(t))
    return r


def char_pred2(t: Term, e: Term) -> Any:
    if t.k == "in" and t.a[0] is e and t.a[1].k == "const" and isinstance(cval(t.a[1]), str):
        return lambda c: c in cval(t.a[1])
    return char_pred(t, e)


def accepted(outs: list, x: Term) -> L.Lang:
    r: L.Lang = L.NOTHING
    for st, v in outs:
        if isinstance(v, Raised):
            continue
        w = taint(st)
        if w:
            raise Undecided(f"depends on {w}")
        r = r | path_lang(st, x)
    return r


def compare(outs: list, x: Term, spec: str) -> Optional[str]:
    if not outs:
        raise Undecided("no outcome")
    for st, v in outs:
        if isinstance(v, Raised) and not v.exc.startswith("snuba_sdk."):
            if taint(st):
                raise Undecided(f"raises {v.exc}")
            return f"raises {v.exc} at {v.where} instead of an SDK error"
    try:
        d = L.difference(accepted(outs, x), L.Regex(spec, 0, "fullmatch"))
    except L.NotALanguage as e:
        raise Undecided(f"not a regular condition: {e}")
    if d is None:
        return None
    return f"{d[0]!r} is {'accepted' if d[1] else 'rejected'}"


def run(ck: Check) -> None:
    r = ck.rule("language", "the set of strings accepted (the union over accepting paths of the path's conditions on the name) equals the documented language")
    for q, arg, spec in NAMES:
        ct = Ctor(ck, q, CTORS[q])

        def f() -> Optional[str]:
            st = ct.setup()
            x = ck.inp(arg, STR)
            return compare(ct.run(st, {arg: x}), x, spec)

        ck.ob(r, ct.where, f"{arg} is any string", f)
    ct = Ctor(ck, LAMBDA, CTORS[LAMBDA])
    for kind in ("list", "tuple"):
        for shape in ("only", "any position"):
            def g() -> Optional[str]:
                st = ct.setup()
                x = ck.inp("identifier", STR)
                segs = [one(x)]
                if shape != "only":
                    segs = [spread(ck.inp("before", seq_of(NAME, "list"))), one(x), spread(ck.inp("after", seq_of(NAME, "list")))]
                return compare(ct.run(st, {"identifiers": seq(kind, *segs)}), x, IDENT_RE)

            ck.ob(r, ct.where, f"identifiers is a {kind}; one identifier ({shape}) is any string", g)
    # Request: the constructor stores, validate() checks
    vf = ck.I.method(REQUEST, "validate")
    for arg in ("dataset", "app_id"):
        def h() -> Optional[str]:
            st = ck.fresh()
            ck.I.field_specs = dict(FIELDS)
            x = ck.inp(arg, STR)
            kw = {"dataset": x, "app_id": const("app"), "query": ck.inp("query", ty(QUERY)), "flags": ck.inp("flags", ty(FLAGS))}
            if arg == "app_id":
                kw.update(dataset=const("events"), app_id=x)
            ck.I.field_specs[(FLAGS, "totals")] = ty("NoneType", "bool")
            for n in FLAG_FIELDS:
                ck.I.field_specs[(FLAGS, n)] = FLAG_FIELDS[n]
            outs = []
            with ck.hooked(stub(ck.I.method(QUERY, "validate").q, NONE)):
                for s, v in ck.I.construct(REQUEST, [], kw, st):
                    if isinstance(v, Raised):
                        outs.append((s, v))
                    else:
                        outs += ck.I.call_method(v, "validate", [], {}, s)
            return compare(outs, x, FLAG_RE)

        ck.ob(r, f"{vf.module.rel}:Request", f"{arg} is any string", h)
