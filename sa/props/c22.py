"""C22: what a delete query emits, and that it never emits an unconditional delete."""
from __future__ import annotations

from itertools import product

from ..client import Client, Expect
from ..framework import Check
from ..spec import *
from ..terms import *

VALS = ty("str", "int")
KINDS = {
    "values": lambda i: (f"l{i}", {f"l{i}": seq_of(VALS, "list", truthy=True)}),
    "one value": lambda i: (f"[x{i}]", {f"x{i}": VALS}),
    "falsy values": lambda i: ("[0, '']", {}),
    "empty": lambda i: ("[]", {}),
    "an empty tuple": lambda i: ("()", {}),
    "an empty list of the caller": lambda i: (f"e{i}", {f"e{i}": seq_of(VALS, "list", truthy=False)}),
}


def run(ck: Check) -> None:
    I = ck.I
    I.field_specs = dict(FIELDS)
    cl = Client(ck, "import json\n")
    r = ck.rule("payload", "the payload is exactly the given conditions under 'columns'")
    re_ = ck.rule("empty", "conditions that are empty, or any column of which has no values, raise before anything is emitted")
    ok, bad = Expect(ck, cl, r), Expect(ck, cl, re_)
    W = "snuba_sdk/delete_query.py:DeleteQuery.serialize"
    R = "Request('ds', 'app', dq, None, 'api', {'org': 1})"
    emits = {
        "dq.serialize()": "{{'columns': {}}}",
        f"{R}.to_dict()": "{{'query': {{'columns': {}}}, 'app_id': 'app', 'tenant_ids': {{'org': 1}}, 'parent_api': 'api'}}",
        f"{R}.serialize()": "json.dumps({{'query': {{'columns': {}}}, 'app_id': 'app', 'tenant_ids': {{'org': 1}}, 'parent_api': 'api'}})",
    }
    more = ["dq.validate()", f"{R}.validate()", f"{R}.print()", f"str({R})", f"{R}.serialize_mql()"]

    def case(label: str, conds: str, empty: bool, ins: dict) -> None:
        src = f"cc = {conds}\ndq = DeleteQuery(st, cc)\n"
        for e, want in emits.items():
            if empty:
                bad.raises(W, f"{e}: {label}", src, e, st=STR, **ins)
            else:
                ok.eq(W, f"{e}: {label}", src, e, want.format(conds), ordered=False, st=STR, **ins)
        for e in more:
            if empty:
                bad.raises(W, f"{e}: {label}", src, e, st=STR, **ins)
            else:
                ok.accepts(W, f"{e}: {label}", src, e, st=STR, **ins)

    case("no conditions", "{}", True, {})
    case("conditions of the caller that are empty", "d", True, {"d": ty("dict", truthy=False)})
    for n in (1, 2, 3):
        for ws in product(KINDS, repeat=n):
            if n == 3 and ck.tier == "quick" and not ("values" in ws and ws.count("values") >= 2):
                continue
            parts, ins = [], {}
            for i, k in enumerate(ws):
                e, more_ins = KINDS[k](i)
                parts.append(f"'c{i}': {e}")
                ins.update(more_ins)
            case(", ".join(ws), "{" + ", ".join(parts) + "}", any("empty" in k for k in ws), ins)
    for name in ("", " ", "0", "None", "columns", "a.b", "*"):
        case(f"column {name!r} without values", f"{{'a': [1], {name!r}: []}}", True, {})
        case(f"only column {name!r}, without values", f"{{{name!r}: []}}", True, {})
        case(f"column {name!r} with values", f"{{{name!r}: [1, 1, None, x], 'a': [1, 1, None, x]}}", False, {"x": VALS})
    for n in (17, 130):
        for empty in (None, 0, n // 2, n - 1):
            parts = [f"'c{i}': " + ("[]" if i == empty else "[1, x]") for i in range(n)]
            case(f"{n} columns, {'none' if empty is None else empty} without values", "{" + ", ".join(parts) + "}", empty is not None, {"x": VALS})
        case(f"a column of {n} values", "{'c0': ['a'], 'c1': [" + ", ".join(f"'v{i}'" for i in range(n)) + "]}", False, {})
    # the conditions are the caller's: they may have been emptied since the query was built or last emitted
    for first in ("", "dq.validate()\n", "dq.serialize()\n", f"{R}.to_dict()\n"):
        for how in ("cc.clear()", "cc['c0'] = []", "cc['c1'] = []", "vals.clear()", "cc['c2'] = []"):
            src = f"vals = [1, x]\ncc = {{'c0': ['a'], 'c1': vals}}\ndq = DeleteQuery(st, cc)\n{first}{how}\n"
            for e in list(emits) + more:
                bad.raises(W, f"{e}: after {first.strip() or 'building'} and {how}", src, e, st=STR, x=VALS)
        src = f"vals = [1, x]\ncc = {{'c0': ['a'], 'c1': vals}}\ndq = DeleteQuery(st, cc)\n{first}cc['c2'] = [y]\n"
        for e, want in emits.items():
            ok.eq(W, f"{e}: after {first.strip() or 'building'} and a new condition", src, e, want.format("{'c0': ['a'], 'c1': [1, x], 'c2': [y]}"), ordered=False,
                  st=STR, x=VALS, y=VALS)
