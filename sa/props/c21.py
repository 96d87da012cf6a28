"""C21: every field of a legacy body ends up in its place in the request."""
from __future__ import annotations

from itertools import combinations, product
from typing import Any, Optional

from ..client import Client, Expect
from ..framework import Check
from ..spec import *
from ..terms import *

EXTRA = """
from snuba_sdk.legacy import json_to_snql
from datetime import timezone

def view(r):
    q = r.query
    f = r.flags
    return {
        "dataset": r.dataset, "app_id": r.app_id, "tenant_ids": r.tenant_ids,
        "flags": [n for n in ("totals", "consistent", "turbo", "debug", "dry_run", "legacy") if getattr(f, n, None)],
        "entity": q.match.name, "alias": q.match.alias, "sample": q.match.sample,
        "select": list(q.select or []), "groupby": list(q.groupby or []), "array_join": list(q.array_join or []),
        "where": list(q.where or []), "having": list(q.having or []), "orderby": list(q.orderby or []),
        "limitby": q.limitby, "limit": q.limit.limit if q.limit else None, "offset": q.offset.offset if q.offset else None,
        "granularity": q.granularity.granularity if q.granularity else None, "totals": q.totals.totals if q.totals else None,
    }

def base(entity):
    return {
        "dataset": entity, "app_id": "legacy", "tenant_ids": {"legacy": "legacy"}, "flags": ["legacy"], "entity": entity, "alias": None, "sample": None,
        "select": [], "groupby": [], "array_join": [], "where": [], "having": [], "orderby": [], "limitby": None, "limit": None, "offset": None,
        "granularity": None, "totals": None,
    }
"""
W = "snuba_sdk/legacy.py:json_to_snql"
TIMES = {
    "discover": "timestamp", "discover_events": "timestamp", "discover_transactions": "finish_ts", "errors": "timestamp", "events": "timestamp",
    "outcomes": "timestamp", "outcomes_raw": "timestamp", "replays": "timestamp", "search_issues": "timestamp", "sessions": "started", "spans": "finish_ts",
    "transactions": "finish_ts",
}
#: legacy expression -> SDK expression
EXPRS = {
    "a name": ("'a'", "Column('a')"),
    "a tag": ("'tags[b]'", "Column('tags[b]')"),
    "a quoted string": ("\"'a'\"", "'a'"),
    "a quoted empty string": ("\"''\"", "''"),
    "a number": ("x", "x"),
    "no value": ("None", "None"),
    "a function": ("['f1', ['a']]", "Function('f1', [Column('a')])"),
    "a function with an alias": ("['f1', ['a', 'b'], 'al']", "Function('f1', [Column('a'), Column('b')], 'al')"),
    "a function with a back-quoted alias": ("['f1', ['a'], '`al`']", "Function('f1', [Column('a')], 'al')"),
    "a function with an underscored alias": ("['f1', ['a'], '_a_l_']", "Function('f1', [Column('a')], '_a_l_')"),
    "a function with a back-quoted, underscored alias": ("['f1', ['a'], '`_al_`']", "Function('f1', [Column('a')], '_al_')"),
    "a function with an alias with marks": ("['f1', ['a'], '-a.l:+']", "Function('f1', [Column('a')], '-a.l:+')"),
    "a function with an alias like its name": ("['f1', ['f1'], 'f1']", "Function('f1', [Column('f1')], 'f1')"),
    "a function of one parameter given twice": ("['f1', ['a', 'a', x, x], 'al']", "Function('f1', [Column('a'), Column('a'), x, x], 'al')"),
    "a function of quoted strings": ("['f1', [\"'a'\", \"' b '\", \"'-c'\", \"'2020-01-02T03:04:05'\", \"'1'\"]]", "Function('f1', ['a', ' b ', '-c', '2020-01-02T03:04:05', '1'])"),
    "a function of nothing": ("['f1', [], 'al']", "Function('f1', [], 'al')"),
    "a function of no value": ("['f1', None, 'al']", "Function('f1', [], 'al')"),
    "a function of an empty string": ("['f1', '', 'al']", "Function('f1', [], 'al')"),
    "a called function": ("['f1()', '', 'al']", "Function('f1', [], 'al')"),
    "a called function of no value": ("['f1()', None, 'al']", "Function('f1', [], 'al')"),
    "a called function without an alias": ("['f1()', []]", "Function('f1', [])"),
    "a function of one name": ("['f1', 'a', 'al']", "Function('f1', [Column('a')], 'al')"),
    "a function of everything": ("['f1', ['a', \"'s'\", x, None, 'tags[b]', 1.5], 'al']",
                                 "Function('f1', [Column('a'), 's', x, None, Column('tags[b]'), 1.5], 'al')"),
    "nested functions": ("['f1', ['a', ['g1', ['b', ['h1', ['c', y]]]], x], 'al']",
                         "Function('f1', [Column('a'), Function('g1', [Column('b'), Function('h1', [Column('c'), y])]), x], 'al')"),
    "a date in a function": ("['f1', ['a', ('2020-01-02T03:04:05', 's')]]", "Function('f1', [Column('a'), (DT(2020, 1, 2, 3, 4, 5), 's')])"),
}
COND_FN = {"=": "equals", "!=": "notEquals", ">": "greater", "<": "less", ">=": "greaterOrEquals", "<=": "lessOrEquals", "IN": "in", "NOT IN": "notIn",
           "LIKE": "like", "NOT LIKE": "notLike", "IS NULL": "isNull", "IS NOT NULL": "isNotNull"}
OPS = {"=": "EQ", "!=": "NEQ", ">": "GT", "<": "LT", ">=": "GTE", "<=": "LTE", "IN": "IN", "NOT IN": "NOT_IN", "LIKE": "LIKE", "NOT LIKE": "NOT_LIKE",
       "IS NULL": "IS_NULL", "IS NOT NULL": "IS_NOT_NULL"}
DATES = {
    "'2020-01-02T03:04:05'": "DT(2020, 1, 2, 3, 4, 5)",
    "'2020-01-02T03:04:05.678'": "DT(2020, 1, 2, 3, 4, 5, 678000)",
    "'2020-01-02T03:04:05.000009'": "DT(2020, 1, 2, 3, 4, 5, 9)",
    "'2020-01-02T03:04:05+00:00'": "DT(2020, 1, 2, 3, 4, 5, 0, timezone.utc)",
    "'2020-01-02T03:04:05+05:30'": "DT.fromisoformat('2020-01-02T03:04:05+05:30')",
    "'2020-12-31T23:59:59+0100'": "DT.fromisoformat('2020-12-31T23:59:59+01:00')",
    "'2020-01-02T03:04:05+0000'": "DT(2020, 1, 2, 3, 4, 5, 0, timezone.utc)",
}
NOT_DATES = ["'abc'", "''", "'2020-01-02'", "'2020-13-02T03:04:05'", "'a+b'", "'1+1:2'", "\"'q'\"", "'x%'", "'+'", "'2020-01-02T03:04:05+05'", "'2020-01-02 03:04:05'", "'2020-01-02T03:04'", "'20200102T030405'",
             "'2020-01-02T03:04:05 '", "' 2020-01-02T03:04:05'", "'2020-01-02T25:04:05'", "'12345'", "'1.5'", "'true'", "' '"]
LHS = {
    "a name": ("'a'", "Column('a')", False),
    "a tag": ("'tags[b]'", "Column('tags[b]')", True),
    "another subscript": ("'measurements[b]'", "Column('measurements[b]')", False),
    "release": ("'release'", "Column('release')", True),
    **{f"the column {n}": (f"'{n}'", f"Column('{n}')", False) for n in ("contexts[b]", "tag[b]", "tagss[b]", "Tags[b]", "a.tags[b]", "tags.b", "tags", "tags_key", "releases", "Release",
                                                                       "release.version", "sdk.release", "release[b]", "first_release", "a[release]", "a[tags]")},
    "coalesce of a tag": ("['coalesce', ['tags[b]', \"''\"]]", "Function('coalesce', [Column('tags[b]'), ''])", False),
    "ifNull with a tag second": ("['ifNull', ['a', 'tags[b]']]", "Function('ifNull', [Column('a'), Column('tags[b]')])", False),
    "a function": ("['f1', ['a']]", "Function('f1', [Column('a')])", False),
    "a function of a tag": ("['f1', ['tags[b]', \"''\"]]", "Function('f1', [Column('tags[b]'), ''])", False),
    "ifNull of a tag": ("['ifNull', ['tags[b]', \"''\"]]", "Function('ifNull', [Column('tags[b]'), ''])", True),
    "ifNull of release": ("['ifNull', ['release', \"''\"]]", "Function('ifNull', [Column('release'), ''])", True),
    "ifNull of a name": ("['ifNull', ['a', \"''\"]]", "Function('ifNull', [Column('a'), ''])", False),
}


def as_lists(t: Term) -> Term:
    """Lists and tuples alike."""
    return subst(t, lambda x: T("seq", "list", tuple(as_lists(y) for y in x.a[1])) if x.k == "seq" and x.a[0] == "tuple" else None)


def run(ck: Check) -> None:
    I = ck.I
    I.field_specs = dict(FIELDS)
    cl = Client(ck, EXTRA)
    full = ck.tier == "thorough"
    r = ck.rule("field", "each field of the body is in its place in the request, in order, and nothing else is")
    rb = ck.rule("body", "the body is left as it was")
    ok, kept = Expect(ck, cl, r), Expect(ck, cl, rb)
    ins = {"x": ty("int", "float"), "y": ty("int", "float")}

    def conv(label: str, body: str, want: str, entity: str = "events", inputs: Optional[dict] = None) -> None:
        i = dict(ins if inputs is None else inputs)
        i = {n: s for n, s in i.items() if n in names(body)}
        if "'select'" not in want:
            body = "{'selected_columns': ['zz']" + (", " + body[1:] if body != "{}" else "}")
            want = "'select': [Column('zz')], " + want
        src = f"body = {body}\n"
        ok.eq(W, label, src, f"view(json_to_snql(body, '{entity}'))", f"{{**base('{entity}'), {want}}}", ordered=False, project=as_lists, **i)
        kept.eq(W, label, src, f"[json_to_snql(body, '{entity}'), body][1]", body, ordered=False, **i)

    conv("a body of one column", "{}", "")
    for e in list(TIMES) + ["nothing_known"]:
        conv(f"entity {e}", "{'selected_columns': ['a']}", "'select': [Column('a')]", e)
    # select, group by, array join
    for n, (e, w) in EXPRS.items():
        isfn = e.startswith("[")
        if isfn:
            for tup in (False, True):
                e2 = f"tuple({e})" if tup else e
                lab = n + (" (a tuple)" if tup else "")
                conv(f"aggregations: {lab}", f"{{'aggregations': [{e2}]}}", f"'select': [{w}]")
                conv(f"aggregations: {lab} among others", f"{{'aggregations': [['g1', 'b', 'z'], {e2}, ['g1', 'c', 'y']]}}",
                     f"'select': [Function('g1', [Column('b')], 'z'), {w}, Function('g1', [Column('c')], 'y')]")
        if n in ("a quoted string", "a quoted empty string", "a number", "no value"):
            continue
        for tup in (False, True) if isfn else (False,):
            e2 = f"tuple({e})" if tup else e
            lab = n + (" (a tuple)" if tup else "")
            conv(f"selected_columns: {lab}", f"{{'selected_columns': [{e2}]}}", f"'select': [{w}]")
            conv(f"selected_columns: {lab} among others", f"{{'selected_columns': ['b', {e2}, 'c']}}", f"'select': [Column('b'), {w}, Column('c')]")
            conv(f"groupby: {lab}", f"{{'groupby': [{e2}]}}", f"'groupby': [{w}]")
            conv(f"groupby: {lab} among others", f"{{'groupby': ['b', {e2}, 'c']}}", f"'groupby': [Column('b'), {w}, Column('c')]")
    conv("aggregations come before selected_columns", "{'selected_columns': ['a', 'b'], 'aggregations': [['f1', 'c', 'd'], ['g1', '', 'e']]}",
         "'select': [Function('f1', [Column('c')], 'd'), Function('g1', [], 'e'), Column('a'), Column('b')]")
    conv("groupby: a single name", "{'groupby': 'a'}", "'groupby': [Column('a')]")
    conv("groupby: a single tag", "{'groupby': 'tags[b]'}", "'groupby': [Column('tags[b]')]")
    conv("groupby: an empty list", "{'groupby': []}", "")
    conv("arrayjoin", "{'arrayjoin': 'a', 'selected_columns': ['b']}", "'array_join': [Column('a')], 'select': [Column('b')]")
    # order by
    for n, (e, w) in EXPRS.items():
        if n in ("a quoted string", "a quoted empty string", "a number", "no value"):
            continue
        isfn = e.startswith("[")
        for desc in (False, True):
            e2 = e[0] + e[1] + "-" + e[2:] if desc and isfn else "'-" + e[1:] if desc else e
            d = "DESC" if desc else "ASC"
            for tup in (False, True) if isfn else (False,):
                e3 = f"tuple({e2})" if tup else e2
                lab = f"orderby: {n} {d}" + (" (a tuple)" if tup else "")
                conv(lab, f"{{'orderby': [{e3}]}}", f"'orderby': [OrderBy({w}, Direction.{d})]")
                conv(lab + " after a descending one", f"{{'orderby': ['-b', {e3}, 'c']}}",
                     f"'orderby': [OrderBy(Column('b'), Direction.DESC), OrderBy({w}, Direction.{d}), OrderBy(Column('c'), Direction.ASC)]")
                if not isfn:
                    conv(lab + " alone", f"{{'orderby': {e3}}}", f"'orderby': [OrderBy({w}, Direction.{d})]")
    # limits and flags
    pos = {"n": ty("int", num=(1, True, 1000, True)), "k": ty("int", num=(1, True, 10000, True))}
    conv("limitby", "{'limitby': [k, 'a']}", "'limitby': LimitBy([Column('a')], k)", inputs=pos)
    conv("limitby (a tuple)", "{'limitby': (k, 'tags[b]')}", "'limitby': LimitBy([Column('tags[b]')], k)", inputs=pos)
    conv("limit", "{'limit': n}", "'limit': n", inputs=pos)
    conv("offset", "{'offset': n}", "'offset': n", inputs={"n": ty("int", num=(0, True, None, True))})
    conv("granularity", "{'granularity': n}", "'granularity': n", inputs={"n": ty("int", num=(1, True, None, True))})
    conv("offset 0", "{'offset': 0}", "'offset': 0")
    conv("totals", "{'totals': True, 'groupby': ['a']}", "'totals': True, 'groupby': [Column('a')]")
    conv("totals off", "{'totals': False, 'groupby': ['a']}", "'totals': False, 'groupby': [Column('a')]")
    for v in ("0.5", "1.0", "s"):
        conv(f"sample {v}", f"{{'sample': {v}}}", f"'sample': {v}", inputs={"s": ty("float", num=(0.1, True, 1, True))})
    conv("an integer sample", "{'sample': 1}", "'sample': 1.0")
    for k in ("limit", "offset", "granularity", "totals", "sample", "limitby", "orderby", "arrayjoin", "organization", "project", "from_date", "to_date", "dataset",
              "app_id", "tenant_ids", "consistent", "turbo", "debug", "dry_run"):
        conv(f"{k} is None", f"{{'{k}': None}}", "")
    flags = ("consistent", "turbo", "debug", "dry_run")
    for n in range(len(flags) + 1):
        for on in combinations(flags, n):
            body = "{" + ", ".join(f"'{f}': {f in on}" for f in flags) + "}"
            want = "'flags': [" + ", ".join(f"'{f}'" for f in flags if f in on) + (", " if on else "") + "'legacy']"
            conv(f"flags {on}", body, want)
            conv(f"flags {on}, the rest absent", "{" + ", ".join(f"'{f}': True" for f in on) + "}", want)
    conv("dataset", "{'dataset': d}", "'dataset': d", inputs={"d": ty("str", truthy=True)})
    conv("app_id", "{'app_id': d}", "'app_id': d", inputs={"d": ty("str", truthy=True)})
    conv("tenant_ids", "{'tenant_ids': {'a': x, 'b': 's'}}", "'tenant_ids': {'a': x, 'b': 's'}", inputs={"x": ty("int")})
    # fields that mean nothing here
    for k in other_keys(I):
        conv(f"unknown field {k}", f"{{'{k}': 's', 'tenant_ids': {{'a': x}}, 'app_id': 'app', 'dataset': 'ds', 'groupby': ['b'], 'orderby': ['-b'], 'conditions': [['a', '=', x]]}}",
             "'tenant_ids': {'a': x}, 'app_id': 'app', 'dataset': 'ds', 'groupby': [Column('b')], 'orderby': [OrderBy(Column('b'), Direction.DESC)], "
             "'where': [Condition(Column('a'), Op.EQ, x)]", inputs={"x": ty("int")})
        conv(f"unknown field {k} alone", f"{{'{k}': ['s']}}", "")
        conv(f"tenant_ids of {k}", f"{{'tenant_ids': {{'{k}': x, 'a': y}}}}", f"'tenant_ids': {{'{k}': x, 'a': y}}", inputs={"x": ty("int"), "y": ty("int")})
    # many of everything
    for n in (17, 130):
        cols = [f"c{i}" for i in range(n)]
        lst, want = "[" + ", ".join(f"'{c}'" for c in cols) + "]", "[" + ", ".join(f"Column('{c}')" for c in cols) + "]"
        conv(f"{n} selected columns", f"{{'selected_columns': {lst}}}", f"'select': {want}")
        conv(f"{n} groups", f"{{'groupby': {lst}}}", f"'groupby': {want}")
        conv(f"{n} orders", f"{{'orderby': {lst}}}", "'orderby': [" + ", ".join(f"OrderBy(Column('{c}'), Direction.ASC)" for c in cols) + "]")
        conv(f"{n} aggregations", "{'aggregations': [" + ", ".join(f"['f1', '{c}', 'a{c}']" for c in cols) + "]}",
             "'select': [" + ", ".join(f"Function('f1', [Column('{c}')], 'a{c}')" for c in cols) + "]")
        conv(f"{n} parameters", f"{{'aggregations': [['f1', {lst}, 'al']]}}", f"'select': [Function('f1', {want}, 'al')]")
        conds, wconds = ", ".join(f"['{c}', '=', {i}]" for i, c in enumerate(cols)), ", ".join(f"Condition(Column('{c}'), Op.EQ, {i})" for i, c in enumerate(cols))
        for clause, out in (("conditions", "where"), ("having", "having")):
            conv(f"{n} {clause}", f"{{'{clause}': [{conds}]}}", f"'{out}': [{wconds}]")
            conv(f"{n} alternatives in {clause}", f"{{'{clause}': [[{conds}]]}}", f"'{out}': [Or([{wconds}])]")
            nums = list(range(n))
            conv(f"{n} values in {clause}", f"{{'{clause}': [['a', 'IN', {nums}]]}}", f"'{out}': [Condition(Column('a'), Op.IN, {nums})]")
        for k, c in {"organization": "org_id", "project": "project_id"}.items():
            conv(f"{n} of {k}", f"{{'{k}': {nums}}}", f"'where': [Condition(Column('{c}'), Op.IN, {nums})]")
    # extension conditions
    conv("organization", "{'organization': x}", "'where': [Condition(Column('org_id'), Op.EQ, x)]", inputs={"x": ty("int", num=(1, True, None, True))})
    conv("project", "{'project': x}", "'where': [Condition(Column('project_id'), Op.IN, [x])]", inputs={"x": ty("int", num=(1, True, None, True))})
    for k, c in {"organization": "org_id", "project": "project_id"}.items():
        for v in ("[3, 1, 3, 2]", "[x, x]", "[x, 'a']", "[x]", "[x, y]", "(x, y)", "[x, y, 3]"):
            conv(f"{k} {v}", f"{{'{k}': {v}}}", f"'where': [Condition(Column('{c}'), Op.IN, {v})]", inputs={"x": ty("int"), "y": ty("int")})
    for e, col in TIMES.items():
        for (k, op), (d, w) in product({"from_date": "GTE", "to_date": "LT"}.items(), DATES.items()):
            if e == "events" or "678" in d or full:
                conv(f"{k} {d} on {e}", f"{{'{k}': {d}}}", f"'where': [Condition(Column('{col}'), Op.{op}, {w})]", e)
    D1, D2 = list(DATES)[:2]
    conv("all extensions", f"{{'project': [x, 4], 'to_date': {D2}, 'organization': 3, 'from_date': {D1}, 'conditions': [['a', '=', x]]}}",
         f"'where': [Condition(Column('org_id'), Op.EQ, 3), Condition(Column('timestamp'), Op.GTE, {DATES[D1]}), "
         f"Condition(Column('timestamp'), Op.LT, {DATES[D2]}), Condition(Column('project_id'), Op.IN, [x, 4]), Condition(Column('a'), Op.EQ, x)]")
    # conditions
    for clause in ("conditions", "having"):
        out = "where" if clause == "conditions" else "having"

        def c(label: str, conds: str, want: str, inputs: Optional[dict] = None) -> None:
            conv(f"{clause}: {label}", f"{{'{clause}': [{conds}]}}", f"'{out}': [{want}]", inputs=inputs)

        for op, on in OPS.items():
            if "NULL" in op:
                cond, want = f"['a', '{op}', None]", f"Condition(Column('a'), Op.{on})"
            elif op in ("IN", "NOT IN"):
                cond, want = f"['a', '{op}', [x, 's', y]]", f"Condition(Column('a'), Op.{on}, [x, 's', y])"
            elif "LIKE" in op:
                cond, want = f"['a', '{op}', 's%']", f"Condition(Column('a'), Op.{on}, 's%')"
            else:
                cond, want = f"['a', '{op}', x]", f"Condition(Column('a'), Op.{on}, x)"
            other, wother = "['b', '!=', 1]", "Condition(Column('b'), Op.NEQ, 1)"
            third, wthird = "['c', '>', y]", "Condition(Column('c'), Op.GT, y)"
            c(f"{op}", cond, want)
            c(f"{op} (a tuple)", f"tuple({cond})", want)
            c(f"{op} among others", f"{other}, {cond}, {third}", f"{wother}, {want}, {wthird}")
            c(f"{op} as the only alternative", f"[{cond}]", want)
            c(f"{op} as the only alternative, among others", f"{other}, [{cond}], {third}", f"{wother}, {want}, {wthird}")
            for tup in (False, True):
                l, rr = ("(", ")") if tup else ("[", "]")
                c(f"{op} as the first of two alternatives ({tup})", f"{l}{cond}, {other}{rr}", f"Or([{want}, {wother}])")
                c(f"{op} as the last of two alternatives ({tup})", f"{l}{other}, {cond}{rr}", f"Or([{wother}, {want}])")
                c(f"{op} in the middle of three alternatives ({tup})", f"{l}{other}, {cond}, {third}{rr}", f"Or([{wother}, {want}, {wthird}])")
            c(f"{op} in two groups", f"[{cond}, {other}], {third}, [{third}, {cond}]", f"Or([{want}, {wother}]), {wthird}, Or([{wthird}, {want}])")
            fn = COND_FN[op]
            inner = cond
            wi = f"Function('{fn}', [Column('a')])" if "NULL" in op else f"Function('{fn}', [Column('a'), {want.split(', ', 2)[2][:-1]}])"
            c(f"{op} inside a function", f"[['f1', ['c', {inner}, x]], '=', 1]", f"Condition(Function('f1', [Column('c'), {wi}, x]), Op.EQ, 1)")
            c(f"{op} as the left-hand side", f"[{inner}, '=', 1]", f"Condition({wi}, Op.EQ, 1)")
        c("an empty group", "[]", "")
        for ln, (l, wl, strings) in LHS.items():
            for d, w in DATES.items():
                c(f"{ln} with {d}", f"[{l}, '>=', {d}]", f"Condition({wl}, Op.GTE, {d if strings else w})")
                c(f"{ln} IN {d}", f"[{l}, 'IN', ['abc', {d}]]", f"Condition({wl}, Op.IN, ['abc', {d if strings else w}])")
            for d in NOT_DATES:
                c(f"{ln} with {d}", f"[{l}, '=', {d}]", f"Condition({wl}, Op.EQ, {d})")
            if strings:
                c(f"{ln} with any string", f"[{l}, '=', v]", f"Condition({wl}, Op.EQ, v)", {"v": STR})
                c(f"{ln} with any strings", f"[{l}, 'NOT IN', [v, w]]", f"Condition({wl}, Op.NOT_IN, [v, w])", {"v": STR, "w": STR})
            for t in ("None", "x", "True"):
                c(f"{ln} with {t}", f"[{l}, '=', {t}]", f"Condition({wl}, Op.EQ, {t})")
        for n in (2, 3):
            c(f"{n} equal conditions", ", ".join(["['a', '=', x]"] * n), ", ".join(["Condition(Column('a'), Op.EQ, x)"] * n))
            c(f"{n} equal alternatives", "[" + ", ".join(["['a', '=', x]"] * n) + "]", "Or([" + ", ".join(["Condition(Column('a'), Op.EQ, x)"] * n) + "])")
            c(f"{n} equal groups", ", ".join(["[['a', '=', x], ['b', '=', y]]"] * n), ", ".join(["Or([Condition(Column('a'), Op.EQ, x), Condition(Column('b'), Op.EQ, y)])"] * n))
    for f, (e, w) in {"groupby": ("'a'", "Column('a')"), "orderby": ("'-a'", "OrderBy(Column('a'), Direction.DESC)"), "selected_columns": ("'a'", "Column('a')"),
                      "aggregations": ("['f1', 'a', 'al']", "Function('f1', [Column('a')], 'al')")}.items():
        out = {"selected_columns": "select", "aggregations": "select"}.get(f, f)
        conv(f"{f} with repetition", f"{{'{f}': [{e}, {e}, {e}]}}", f"'{out}': [{w}, {w}, {w}]")
    conv("order in both directions", "{'orderby': ['a', '-a', 'a']}",
         "'orderby': [OrderBy(Column('a'), Direction.ASC), OrderBy(Column('a'), Direction.DESC), OrderBy(Column('a'), Direction.ASC)]")
    # each two fields, with values that may agree
    N = ty("int", num=(1, True, 1000, True))
    two = {
        "limit": ("n", "'limit': n"), "offset": ("n", "'offset': n"), "granularity": ("n", "'granularity': n"), "limitby": ("[n, 'a']", "'limitby': LimitBy([Column('a')], n)"),
        "totals": ("True", "'totals': True"), "sample": ("0.5", "'sample': 0.5"), "groupby": ("['a']", "'groupby': [Column('a')]"), "arrayjoin": ("'a'", "'array_join': [Column('a')]"),
        "orderby": ("['-a']", "'orderby': [OrderBy(Column('a'), Direction.DESC)]"), "conditions": ("[['a', '=', n]]", "'where': [Condition(Column('a'), Op.EQ, n)]"),
        "having": ("[['a', '=', n]]", "'having': [Condition(Column('a'), Op.EQ, n)]"), "dataset": ("'t'", "'dataset': 't'"), "app_id": ("'t'", "'app_id': 't'"),
        "tenant_ids": ("{'t': n}", "'tenant_ids': {'t': n}"), "consistent": ("True", "'flags': ['consistent', 'legacy']"), "turbo": ("True", "'flags': ['turbo', 'legacy']"),
        "debug": ("True", "'flags': ['debug', 'legacy']"), "dry_run": ("True", "'flags': ['dry_run', 'legacy']"),
        "organization": ("n", "'where': [Condition(Column('org_id'), Op.EQ, n)]"), "project": ("n", "'where': [Condition(Column('project_id'), Op.IN, [n])]"),
        "from_date": (D1, f"'where': [Condition(Column('timestamp'), Op.GTE, {DATES[D1]})]"), "to_date": (D1, f"'where': [Condition(Column('timestamp'), Op.LT, {DATES[D1]})]"),
        "selected_columns": ("['a']", "'select': [Column('a')]"), "aggregations": ("[['f1', 'a', 'a']]", "'select': [Function('f1', [Column('a')], 'a')]"),
    }
    rank = {"organization": 0, "from_date": 1, "to_date": 2, "project": 3, "conditions": 4, "aggregations": 0, "selected_columns": 1}
    for a, b in combinations(two, 2):
        (ea, wa), (eb, wb) = two[a], two[b]
        (ka, va), (kb, vb) = wa.split(": ", 1), wb.split(": ", 1)
        if ka == "'flags'" and kb == "'flags'":
            continue
        if ka == kb:
            first, second = sorted((a, b), key=lambda f: rank[f])
            want = f"{ka}: [{two[first][1].split(': ', 1)[1][1:-1]}, {two[second][1].split(': ', 1)[1][1:-1]}]"
        else:
            want = f"{wa}, {wb}"
        if "totals" in (a, b) and "groupby" not in (a, b):
            for g, wg in (("", ""), (", 'groupby': ['a']", ", 'groupby': [Column('a')]")):
                conv(f"{a} and {b}{' grouped' if g else ''}", f"{{'{a}': {ea}, '{b}': {eb}{g}}}", want + wg, inputs={"n": N})
            continue
        conv(f"{a} and {b}", f"{{'{a}': {ea}, '{b}': {eb}}}", want, inputs={"n": N})
        conv(f"{b} and {a}", f"{{'{b}': {eb}, '{a}': {ea}}}", want, inputs={"n": N})
    # everything at once
    conv("everything", f"""{{'selected_columns': ['a', ('f1', ['b'], 'fb')], 'aggregations': [['count()', '', 'c'], ('uniq', 'u', 'uu')], 'groupby': ['a', ['f1', ['b'], 'fb']],
        'arrayjoin': 'arr', 'conditions': [['a', '=', x], [['b', '=', 1], ['c', 'IN', [1, 2]]], [['d', 'LIKE', 'q']]], 'having': [['c', '>', y], [['c', '<', 3], ['uu', '>', 4]]],
        'orderby': ['-c', 'a', ['-f1', ['b'], 'fb']], 'limitby': [5, 'a'], 'limit': 7, 'offset': 8, 'granularity': 60, 'totals': True, 'sample': 0.25, 'organization': 1, 'project': 2,
        'from_date': {D1}, 'to_date': {D2}, 'dataset': 'ds', 'app_id': 'app', 'tenant_ids': {{'t': 1}}, 'turbo': True, 'debug': True, 'dry_run': True, 'consistent': True}}""",
         f"""'select': [Function('count', [], 'c'), Function('uniq', [Column('u')], 'uu'), Column('a'), Function('f1', [Column('b')], 'fb')],
        'groupby': [Column('a'), Function('f1', [Column('b')], 'fb')], 'array_join': [Column('arr')],
        'where': [Condition(Column('org_id'), Op.EQ, 1), Condition(Column('timestamp'), Op.GTE, {DATES[D1]}), Condition(Column('timestamp'), Op.LT, {DATES[D2]}),
                  Condition(Column('project_id'), Op.IN, [2]), Condition(Column('a'), Op.EQ, x),
                  Or([Condition(Column('b'), Op.EQ, 1), Condition(Column('c'), Op.IN, [1, 2])]), Condition(Column('d'), Op.LIKE, 'q')],
        'having': [Condition(Column('c'), Op.GT, y), Or([Condition(Column('c'), Op.LT, 3), Condition(Column('uu'), Op.GT, 4)])],
        'orderby': [OrderBy(Column('c'), Direction.DESC), OrderBy(Column('a'), Direction.ASC), OrderBy(Function('f1', [Column('b')], 'fb'), Direction.DESC)],
        'limitby': LimitBy([Column('a')], 5), 'limit': 7, 'offset': 8, 'granularity': 60, 'totals': True, 'sample': 0.25, 'dataset': 'ds', 'app_id': 'app',
        'tenant_ids': {{'t': 1}}, 'flags': ['consistent', 'turbo', 'debug', 'dry_run', 'legacy']""")


KEYS = {"selected_columns", "aggregations", "groupby", "arrayjoin", "orderby", "limitby", "limit", "offset", "granularity", "totals", "sample", "organization", "project",
        "from_date", "to_date", "conditions", "having", "dataset", "app_id", "tenant_ids", "consistent", "turbo", "debug", "dry_run"}


def other_keys(I: Any) -> list:
    """Names the module mentions that are no field of a body, and some it might."""
    import ast

    found = {"referrer", "parent_api", "team", "legacy", "columns", "where"}
    for n in ast.walk(I.modules["snuba_sdk.legacy"].tree):
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.isidentifier():
            found.add(n.value)
    return sorted(found - KEYS)


def names(src: str) -> set:
    import ast

    return {n.id for n in ast.walk(ast.parse(src, mode="eval")) if isinstance(n, ast.Name)}
