"""C08: the text of a query, clause by clause."""
from __future__ import annotations

from itertools import combinations
from typing import Any, Callable, Optional

from ..framework import Check, Undecided, unvalidated
from ..model import Raised, State
from ..render import *
from ..spec import *
from ..terms import *

c = const
LISTS = {"select": ("SELECT ", ", ", SELECTABLE), "groupby": ("BY ", ", ", SELECTABLE), "array_join": ("ARRAY JOIN ", ", ", [COLUMN]),
         "where": ("WHERE ", " AND ", CONDS), "having": ("HAVING ", " AND ", CONDS), "orderby": ("ORDER BY ", ", ", [ORDERBY])}
SINGLE = {"limitby": ("LIMIT ", LIMITBY), "limit": ("LIMIT ", LIMIT), "offset": ("OFFSET ", OFFSET), "granularity": ("GRANULARITY ", GRAN),
          "totals": ("TOTALS ", TOTALS)}
ORDER = [*LISTS, *SINGLE]
OPT = P + "query_optimizers.or_optimizer.OrOptimizer.optimize"


class Q:
    """A query of known shape: match kind and, per clause, None | "empty" | "many" | number of elements."""

    def __init__(self, match: Any, **clauses: Any) -> None:
        self.match, self.clauses = match, clauses

    def build(self, ck: Check, st: State, tag: str = "") -> list:
        I = ck.I
        if isinstance(self.match, Q):
            starts = self.match.build(ck, st, tag + "i")
        else:
            starts = [(st, ck.inp(tag + "match", ty(self.match)))]
        out = []
        for s, m in starts:
            kw: dict = {"match": m}
            for f, v in self.clauses.items():
                n = tag + f
                if v is None:
                    kw[f] = NONE
                elif v == "empty":
                    kw[f] = I.alloc(s, "list", ())
                elif v == "many":
                    kw[f] = ck.inp(n, seq_of(ty(LISTS[f][2]), "list", truthy=True)) if f in LISTS else ck.inp(n, ty(SINGLE[f][1]))
                else:
                    ts = [COND] if f == "where" else LISTS[f][2]
                    kw[f] = I.alloc(s, "list", tuple(one(ck.inp(f"{n}{i}", ty(ts))) for i in range(v)))
            for s2, o in I.construct(QUERY, [], kw, s):
                if isinstance(o, Raised):
                    raise Undecided(f"constructing a query raises {o.exc} at {o.where}")
                out.append((s2, o))
        return out

    def text(self, tag: str = "", sep: str = " ", where: Optional[Term] = None) -> Term:
        al = self.match == JOIN
        if isinstance(self.match, Q):
            parts = [cat(c("MATCH { "), self.match.text(tag + "i"), c(" }"))]
        else:
            parts = [cat(c("MATCH "), R(sym(tag + "match"), al))]
        for f in ORDER:
            v = self.clauses.get(f)
            if v in (None, "empty", 0):
                continue
            s = sym(tag + f)
            if f in SINGLE:
                parts.append(cat(c(SINGLE[f][0]), R(s, al)))
            else:
                kw, sp, _ = LISTS[f]
                if f == "where" and where is not None:
                    s = where
                if v == "many":
                    body = join(c(sp), (forseg(s, one(R(elem(s), al))),))
                else:
                    body = join(c(sp), tuple(one(R(sym(f"{tag}{f}{i}"), al)) for i in range(v)))
                parts.append(cat(c(kw), body))
        out = parts[0]
        for p in parts[1:]:
            out = cat(out, c(sep), p)
        return out


def node_hook(rd: Renderers) -> Callable:
    return rd.hook(T("app", "nothing"))


def run(ck: Check) -> None:
    I = ck.I
    rd = Renderers(ck)
    r = ck.rule("clauses", "the text of a query is MATCH followed by exactly the clauses that are set, each with its keyword, in SnQL order")
    OPTW = sym("optimized")

    def opt_hook(I: Any, fi: Any, a: list, k: dict, s: State) -> Any:
        if fi.q != OPT:
            return None
        s2 = s.copy()
        return [(s, NONE), (s2, OPTW)]

    def case(label: str, q: Q, how: str, opt: bool = True) -> None:
        fi = I.method(QUERY, how)

        def f() -> Optional[str]:
            st = ck.fresh()
            I.field_specs = dict(FIELDS)
            ck.inp("optimized", seq_of(ty(CONDS), "list", truthy=True))
            hooks = [node_hook(rd), unvalidated(QUERY)] + ([opt_hook] if opt else [])
            outs = []
            with ck.hooked(*hooks), ck.depth(8):
                for s, o in q.build(ck, st):
                    outs += I.call_method(o, how, [], {}, s)
            want = {q.text(sep="\n" if how == "print" else " ")}
            if opt and how != "print":
                want.add(q.text(where=OPTW))
            return expect_text(I, outs, want)

        ck.ob(r, f"{fi.module.rel}:Query.{how}", label, f)

    kinds = {"entity": ENTITY, "storage": STORAGE, "join": JOIN}
    full = {f: "many" for f in ORDER}
    for how in ("serialize", "print", "__str__"):
        for kn, k in kinds.items():
            case(f"{kn}, select only", Q(k, select="many"), how)
            case(f"{kn}, every clause", Q(k, **full), how)
            if how == "__str__":
                continue
            for f in ORDER[1:]:
                case(f"{kn}, {f} only", Q(k, select="many", **{f: "many"}), how)
                case(f"{kn}, all but {f}", Q(k, **{**full, f: None}), how)
                if f in LISTS:
                    case(f"{kn}, {f} empty", Q(k, **{**full, f: "empty"}), how, f != "where")
            case(f"{kn}, all lists of one", Q(k, **{f: 1 for f in LISTS}), how, False)
            case(f"{kn}, all lists of two", Q(k, **{f: 2 for f in LISTS}), how, False)
            for n in (17, 130):
                case(f"{kn}, all lists of {n}", Q(k, **{f: n for f in LISTS}), how, False)
        for kn, k in kinds.items():
            inner = Q(k, select="many")
            case(f"subquery on {kn}, select only", Q(inner, select="many"), how)
            case(f"subquery on {kn}, every clause", Q(Q(k, **full), **full), how)
            for n in (17, 130):
                case(f"subquery on {kn}, all lists of {n}", Q(Q(k, **{f: n for f in LISTS}), **{f: n for f in LISTS}), how, False)
            case(f"two nested subqueries on {kn}", Q(Q(Q(k, **full), **full), **full), how)
            if how == "__str__":
                continue
            for f in ORDER[1:]:
                case(f"subquery on {kn}, inner {f} only", Q(Q(k, select="many", **{f: "many"}), select="many"), how)
            case(f"subquery on {kn}, inner lists empty", Q(Q(k, select="many", **{f: "empty" for f in LISTS if f != "select"}), select="many"), how)
        if ck.tier == "thorough" and how != "__str__":
            for a, b in combinations(ORDER[1:], 2):
                case(f"entity, {a} and {b} only", Q(ENTITY, select="many", **{a: "many", b: "many"}), how)
                case(f"join, all but {a} and {b}", Q(JOIN, **{**full, a: None, b: None}), how)
