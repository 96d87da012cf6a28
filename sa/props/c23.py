"""C23: the required-column check."""
from __future__ import annotations

from itertools import product
from typing import Any

from ..client import Client, Expect
from ..framework import Check
from ..spec import *
from ..terms import *

EXTRA = "from snuba_sdk.query_validation import validate_required_columns\n"
W = "snuba_sdk/query_validation.py:validate_required_columns"
VAL = ty("str", "int", "datetime")
REQ = {"project": ("project_id", ["EQ", "IN"]), "org": ("org_id", ["EQ", "IN"]), "from": ("ts", ["GTE"]), "to": ("ts", ["LT"])}
OPS = ["EQ", "NEQ", "GT", "GTE", "LT", "LTE", "IN", "NOT_IN", "LIKE", "NOT_LIKE", "IS_NULL", "IS_NOT_NULL"]
MODEL = ("model = DataModel([SColumn('project_id', required=True), SColumn('org_id', required=True), *[SColumn(n) for n in ('a', 'z', 'ts', 'tsx', 'project_idx', 'org_idx')]], SColumn('ts'))\n"
         "model2 = DataModel([SColumn('project_id', required=True), SColumn('org_id'), *[SColumn(n) for n in ('a', 'z', 'ts', 'tsx', 'project_idx', 'org_idx')]], SColumn('ts'))\n")
OTHER = "Condition(Column('a'{e}), Op.GT, v)"
WRAP_IN = {
    "at the top": "{}",
    "in an AND": "And([{}, {o}])",
    "last in an AND": "And([{o}, {}])",
    "in a boolean AND": "BooleanCondition(BooleanOp.AND, [{o}, {}])",
    "in an AND in an AND": "And([{o}, And([{o}, {}])])",
    "in a boolean AND in an AND": "And([BooleanCondition(BooleanOp.AND, [{}, {o}]), {o}])",
    "three ANDs deep": "And([And([{o}, And([{}, {o}])]), {o}])",
}
WRAP_OUT = {
    "in an OR": "Or([{}, {o}])",
    "last in an OR": "Or([{o}, {}])",
    "in a boolean OR": "BooleanCondition(BooleanOp.OR, [{}, {o}])",
    "in an AND in an OR": "Or([{o}, And([{}, {o}])])",
    "in an OR in an AND": "And([{o}, Or([{}, {o}])])",
    "twice in an OR": "Or([{}, {}])",
    "in a boolean OR in an AND": "And([BooleanCondition(BooleanOp.OR, [{}, {o}]), {o}])",
}


def cond(col: str, op: str, ent: str = "") -> str:
    c = f"Column('{col}'{ent})"
    if op in ("IS_NULL", "IS_NOT_NULL"):
        return f"Condition({c}, Op.{op})"
    return f"Condition({c}, Op.{op}, {'[v]' if op in ('IN', 'NOT_IN') else 'v'})"


def wrap(w: str, c: str, ent: str = "") -> str:
    return w.replace("{o}", OTHER.replace("{e}", ent)).replace("{}", c)


def run(ck: Check) -> None:
    I = ck.I
    I.field_specs = dict(FIELDS)
    cl = Client(ck, EXTRA)
    full = ck.tier == "thorough"
    rr = ck.rule("missing", "a query without a top-level condition of the right kind on some required column raises")
    ro = ck.rule("present", "a query with all of them passes")
    bad, ok = Expect(ck, cl, rr), Expect(ck, cl, ro)

    def judge(label: str, src: str, good: bool) -> None:
        (ok.accepts if good else bad.raises)(W, label, src, "validate_required_columns(q)", v=VAL)

    def query(match: str, conds: Any, kw: str = "") -> str:
        w = "None" if conds is None else f"[{', '.join(conds)}]"
        return f"q = Query({match}, select=[Column('a'{kw})], where={w})\n"

    matches = {
        "an entity": ("Entity('ev', data_model=model)", [""]),
        "an aliased entity": ("Entity('ev', 'e', data_model=model)", ["", ", Entity('ev', 'e')"]),
    }
    wrongent = {"an entity": ", Entity('ev', 'x')", "an aliased entity": ", Entity('ev', 'x')"}
    for mn, (m, ents) in matches.items():
        base = {k: cond(c, ops[0]) for k, (c, ops) in REQ.items()}

        def q(label: str, over: dict, good: bool, extra: tuple = (), rev: bool = False) -> None:
            cs = [c for c in {**base, **over}.values() if c] + list(extra)
            if rev:
                cs.reverse()
            for nest, shape in {"": "{}", " in a subquery": "Query({}, select=[Column('a')])"}.items():
                src = MODEL + query(m, cs)
                if nest:
                    src += "q = Query(q, select=[Column('a')])\n"
                    if full:
                        src += "q = Query(q, select=[Column('a')])\n"
                judge(f"{mn}{nest}: {label}", src, good)

        q("every condition", {}, True)
        q("every condition, reversed", {}, True, rev=True)
        judge(f"{mn}: no where clause", MODEL + query(m, None), False)
        judge(f"{mn}: empty where clause", MODEL + query(m, []), False)
        for k, (col, ops) in REQ.items():
            q(f"{k} missing", {k: ""}, False)
            for op in OPS:
                good = op in ops
                # with the two conditions on the time column, each counts for itself
                q(f"{k} with {op}", {k: cond(col, op)}, good)
                for ent in ents[1:]:
                    q(f"{k} with {op} on a column{ent}", {k: cond(col, op, ent)}, good)
                q(f"{k} with {op} on another alias", {k: cond(col, op, wrongent[mn])}, False)
                if good:
                    for wn, w in WRAP_IN.items():
                        q(f"{k} with {op} {wn}", {k: wrap(w, cond(col, op))}, True)
                        q(f"{k} with {op} {wn}, reversed", {k: wrap(w, cond(col, op))}, True, rev=True)
                    for wn, w in WRAP_OUT.items():
                        q(f"{k} with {op} {wn}", {k: wrap(w, cond(col, op))}, False)
                    rhs = "[v]" if op == "IN" else "v"
                    q(f"{k} with {op} on a function of the column", {k: f"Condition(Function('f1', [Column('{col}')]), Op.{op}, {rhs})"}, False)
                    q(f"{k} with {op} on a function of that alias", {k: f"Condition(Function('f1', [Column('z')], '{col}'), Op.{op}, {rhs})"}, False)
                    q(f"{k} with {op} on another column", {k: cond("a", op)}, False)
                    q(f"{k} with {op} on a longer name", {k: cond(col + "x", op)}, False)
                    q(f"{k} with {op} on a key of the column", {k: cond(col + "[k]", op)}, False)
                    q(f"{k} with {op} with the column on the right", {k: f"Condition(Column('a'), Op.{op if op != 'IN' else 'EQ'}, Column('{col}'))"}, False)
                    q(f"{k} with {op} beside a wrong one", {k: cond(col, op)}, True, (cond(col, "NEQ"),))
        for a, b in product(REQ, repeat=2):
            if a < b:
                q(f"{a} and {b} missing", {a: "", b: ""}, False)
        q("all missing", {k: "" for k in REQ}, False, (OTHER.replace("{e}", ""),))
        allc = [base[k] for k in REQ]
        judge(f"{mn}: one AND of everything", MODEL + query(m, [f"And([{', '.join(allc)}])"]), True)
        judge(f"{mn}: one OR of everything", MODEL + query(m, [f"Or([{', '.join(allc)}])"]), False)
        judge(f"{mn}: conditions in having", MODEL + f"q = Query({m}, select=[Column('a')], having=[{', '.join(allc)}])\n", False)
    # what the outer query says does not count, and what has no model is not checked
    allc = [cond(c, ops[0]) for c, ops in REQ.values()]
    inner = f"Query(Entity('ev', data_model=model), select=[Column(n) for n in ('a', 'project_id', 'org_id', 'ts')])"
    judge("conditions in the outer query only", MODEL + f"q = Query({inner}, select=[Column('a')], where=[{', '.join(allc)}])\n", False)
    judge("conditions in the outermost query only", MODEL + f"q = Query(Query({inner}, select=[Column(n) for n in ('a', 'project_id', 'org_id', 'ts')]), select=[Column('a')], where=[{', '.join(allc)}])\n", False)
    judge("an entity without a model", query("Entity('ev')", None), True)
    judge("an entity without a model in a subquery", query("Entity('ev')", None) + "q = Query(q, select=[Column('a')])\n", True)
    # joins: each entity with a model needs its own conditions
    E1, E2, E3 = "Entity('ev', 'e', data_model=model)", "Entity('gr', 'g', data_model=model2)", "Entity('no', 'n')"
    r1 = {k: cond(c, ops[0], ", Entity('ev', 'e')") for k, (c, ops) in REQ.items()}
    r2 = {k: cond(c, ops[0], ", Entity('gr', 'g')") for k, (c, ops) in REQ.items() if k != "org"}
    joins = {
        "two modelled entities": (f"Join([Relationship({E1}, 'has', {E2})])", True, True),
        "two modelled entities, reversed": (f"Join([Relationship({E2}, 'has', {E1})])", True, True),
        "a modelled and an unmodelled entity": (f"Join([Relationship({E1}, 'has', {E3})])", True, False),
        "an unmodelled and a modelled entity": (f"Join([Relationship({E3}, 'has', {E2})])", False, True),
        "three entities": (f"Join([Relationship({E1}, 'has', {E3}), Relationship({E3}, 'owns', {E2})])", True, True),
        "three entities, two relationships": (f"Join([Relationship({E1}, 'has', {E2}), Relationship({E1}, 'owns', {E3})])", True, True),
    }

    def joined(joins: dict, rev: bool) -> None:
        for jn, (j, n1, n2) in joins.items():
            if rev:
                jn += " (sets in reverse order)"
            kw = ", Entity('ev', 'e')" if n1 else ", Entity('gr', 'g')"
            every = {**{("1", k): c for k, c in r1.items()}, **{("2", k): c for k, c in r2.items()}}
            judge(f"{jn}: every condition", MODEL + query(j, list(every.values()), kw), True)
            judge(f"{jn}: every condition, reversed", MODEL + query(j, list(every.values())[::-1], kw), True)
            judge(f"{jn}: every condition in one AND", MODEL + query(j, [f"And([{', '.join(every.values())}])"], kw), True)
            judge(f"{jn}: no conditions", MODEL + query(j, None, kw), False)
            for (n, k), c in every.items():
                need = n1 if n == "1" else n2
                rest = [x for y, x in every.items() if y != (n, k)]
                judge(f"{jn}: {k} of entity {n} missing", MODEL + query(j, rest, kw), not need)
                if rev and not full:
                    continue
                other = ", Entity('gr', 'g')" if n == "1" else ", Entity('ev', 'e')"
                col, ops = REQ[k]
                judge(f"{jn}: {k} of entity {n} on the other entity", MODEL + query(j, rest + [cond(col, ops[0], other)], kw), not need)
                ent = ", Entity('ev', 'e')" if n == "1" else ", Entity('gr', 'g')"
                for op in OPS if full else ["NEQ", "GT", "LTE", "NOT_IN", "EQ", "GTE", "LT", "IN"]:
                    judge(f"{jn}: {k} of entity {n} with {op}", MODEL + query(j, rest + [cond(col, op, ent)], kw), not need or op in ops)
                for wn, w in WRAP_IN.items():
                    judge(f"{jn}: {k} of entity {n} {wn}", MODEL + query(j, rest + [wrap(w, c, ent)], kw), True)
                for wn, w in WRAP_OUT.items():
                    judge(f"{jn}: {k} of entity {n} {wn}", MODEL + query(j, rest + [wrap(w, c, ent)], kw), not need)

    # a model that requires no column still bounds the time
    FREE = "free = DataModel([*[SColumn(n) for n in ('a', 'z', 'ts', 'tsx')]], SColumn('ts'))\n"
    lo, hi = cond("ts", "GTE"), cond("ts", "LT")
    for label, cs, good in [("both bounds", [lo, hi], True), ("no lower bound", [hi], False), ("no upper bound", [lo], False), ("neither bound", [OTHER.replace("{e}", "")], False), ("no where clause", None, False)]:
        src = FREE + query("Entity('ev', data_model=free)", cs)
        judge(f"no required columns: {label}", src, good)
        judge(f"no required columns, in a subquery: {label}", src + "q = Query(q, select=[Column('a')])\n", good)

    # the same entity under two aliases, and joins of many entities: each needs its own
    def many(names: list) -> None:
        ents = [f"Entity('{n}', '{a}', data_model=free)" for n, a in names]
        own = [[cond("ts", o, f", Entity('{n}', '{a}')") for o in ("GTE", "LT")] for n, a in names]
        rels = {"in a star": [f"Relationship({ents[0]}, 'r{i}', {e})" for i, e in enumerate(ents[1:])],
                "in a chain": [f"Relationship({x}, 'r{i}', {y})" for i, (x, y) in enumerate(zip(ents, ents[1:]))]}
        for shape, rs in rels.items():
            j, kw = f"Join([{', '.join(rs)}])", f", Entity('{names[0][0]}', '{names[0][1]}')"
            what = f"{len(names)} entities of {len({n for n, _ in names})} names {shape}"
            judge(f"{what}: every condition", FREE + query(j, [c for o in own for c in o], kw), True)
            for i, o in enumerate(own):
                for k, c in enumerate(o):
                    judge(f"{what}: {'upper' if k else 'lower'} bound of entity {i + 1} missing", FREE + query(j, [x for y in own for x in y if x is not c], kw), False)

    many([("ev", "e"), ("ev", "g")])
    many([("ev", "e"), ("ev", "g"), ("gr", "h")])
    many([(f"en{c}", f"a{c}") for c in "uvwxyz"])
    if full:
        many([(f"en{"uvwxyz"[i // 2]}", f"a{i}") for i in range(9)])

    for rev in (False, True):
        SET_ORDER['reverse'] = rev
        ok.cache.clear()
        bad.cache.clear()
        try:
            joined(joins, rev)
        finally:
            SET_ORDER['reverse'] = False
