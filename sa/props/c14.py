"""C14: what an operation returns depends on its operands only."""
from __future__ import annotations

import ast
from typing import Any, Iterator, Optional

from ..client import Client
from ..framework import Check, Undecided, taint
from ..model import Raised, State
from ..spec import *
from ..terms import *
from . import c15, c16, c17, c18, c21, c22, c23, ops
from .c13 import INPUTS, event

SHARED = {
    "gwrite": "modifies a module-level object",
    "memo": "keeps its result between calls",
    "nondet": "reads something outside the program",
    "identity": "uses the address of an object",
}
MQL = {
    "a metric": "sum(`d:transactions/duration@millisecond`){a:\\\"x\\\" AND (b:[\\\"y\\\",\\\"z\\\"] OR !c:\\\"w*\\\")} by (t, u)",
    "arithmetic": "(sum(foo) + max(bar){a:\\\"x\\\"}) / 2.5 by t",
    "a function": "topK(3)(quantiles(0.5, 0.9)(foo), 1)",
    "broken text": "sum(",
}


def shared(evs: Any) -> Optional[str]:
    e = event(evs, lambda e: e[0] in SHARED)
    return None if e is None else f"{SHARED[e[0]]}: {' '.join(show(x) if isinstance(x, Term) else str(x) for x in e[1:])[:200]}"


# ------------------------------------------------------------------ the scan
MUTATORS = {"append", "add", "update", "setdefault", "pop", "clear", "extend", "insert", "remove", "discard", "popitem", "sort", "reverse", "appendleft",
            "extendleft", "popleft", "__setitem__", "__delitem__", "difference_update", "intersection_update", "symmetric_difference_update", "move_to_end", "subtract",
            "set"}
OUTSIDE = {"time", "random", "uuid", "secrets", "socket", "getpass", "platform", "threading", "locale"}
CLOCK = {"now", "utcnow", "today"}
IMPORT_ONLY = {"__init_subclass__", "__set_name__", "__class_getitem__", "__prepare__"}


def functions(tree: ast.AST) -> Iterator[tuple]:
    """(qualified name, function, enclosing class) of every function of a module."""
    def go(n: ast.AST, path: str, cls: Optional[ast.ClassDef]) -> Iterator[tuple]:
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                yield path + c.name, c, cls
                yield from go(c, path + c.name + ".", None)
            elif isinstance(c, ast.ClassDef):
                yield from go(c, path + c.name + ".", c)
            else:
                yield from go(c, path, cls)
    yield from go(tree, "", None)


def own(fn: ast.AST) -> Iterator[ast.AST]:
    """The nodes of a function, without those of functions inside it."""
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            todo += list(ast.iter_child_nodes(n))


def root(e: ast.AST) -> tuple:
    path: list = []
    while isinstance(e, (ast.Attribute, ast.Subscript)):
        path.append(e.attr if isinstance(e, ast.Attribute) else "[]")
        e = e.value
    path.reverse()
    return e, path


def locals_of(fn: ast.FunctionDef) -> set:
    a = fn.args
    out = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
    for n in own(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            out |= {(x.asname or x.name).split(".")[0] for x in n.names}
    for n in own(fn):
        if isinstance(n, ast.Global):
            out -= set(n.names)
    return out


def fresh_mutable(e: Optional[ast.AST]) -> bool:
    return isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)) or (
        isinstance(e, ast.Call) and isinstance(e.func, (ast.Name, ast.Attribute))
        and (e.func.id if isinstance(e.func, ast.Name) else e.func.attr) in ("list", "dict", "set", "defaultdict", "deque", "OrderedDict", "Counter", "bytearray", "local",
                                                                             "ContextVar", "WeakKeyDictionary", "WeakValueDictionary"))


class Scan:
    def __init__(self, modules: list) -> None:
        self.modules = modules
        self.used: set = set()  # names mentioned inside some function
        for m in modules:
            for _, fn, _ in functions(m.tree):
                for n in own(fn):
                    if isinstance(n, ast.Name):
                        self.used.add(n.id)
                    elif isinstance(n, ast.Attribute):
                        self.used.add(n.attr)

    def import_only(self, q: str, fn: ast.FunctionDef, m: Any) -> bool:
        """Does the function run only while its module is being imported?"""
        if fn.name in IMPORT_ONLY:
            return True
        top = q.split(".")[0]
        if top in self.used or not any(isinstance(x, ast.FunctionDef) and x.name == top for x in m.tree.body):
            return False
        inner = {id(x) for _, f, _ in functions(m.tree) for b in f.body for x in ast.walk(b)}
        return any(isinstance(x, ast.Name) and x.id == top and id(x) not in inner for x in ast.walk(m.tree))

    def module_names(self, m: Any) -> dict:
        out: dict = {}
        for n in m.tree.body:
            for t in n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, ast.AnnAssign) else []:
                for x in ast.walk(t):
                    if isinstance(x, ast.Name):
                        out[x.id] = "variable"
            if isinstance(n, ast.ClassDef):
                out[n.name] = "class"
            elif isinstance(n, ast.FunctionDef):
                out[n.name] = "function"
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for x in n.names:
                    out[(x.asname or x.name).split(".")[0]] = "import"
        return out

    def judge(self, m: Any, q: str, fn: ast.FunctionDef, cls: Optional[ast.ClassDef]) -> Optional[str]:
        if self.import_only(q, fn, m):
            return None
        glob = self.module_names(m)
        loc = locals_of(fn)
        for d in fn.decorator_list:
            d = d.func if isinstance(d, ast.Call) else d
            name = d.attr if isinstance(d, ast.Attribute) else d.id if isinstance(d, ast.Name) else ""
            if name in ("lru_cache", "cache", "cached_property"):
                ps = fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs
                if not all(p.annotation is not None and ast.unparse(p.annotation) in ("str", "Optional[str]", "str | None", "bytes", "bool", "type", "Op") for p in ps):
                    return f"line {fn.lineno}: {name} keeps results between calls, for arguments that can be equal and yet be different"
        declared = {x for n in own(fn) if isinstance(n, ast.Global) for x in n.names}
        params = fn.args.posonlyargs + fn.args.args
        first = params[0].arg if cls is not None and params else None
        static = any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in fn.decorator_list)
        clsm = any(isinstance(d, ast.Name) and d.id == "classmethod" for d in fn.decorator_list)
        defaults = dict(zip([p.arg for p in params][len(params) - len(fn.args.defaults):], fn.args.defaults))
        defaults.update({p.arg: d for p, d in zip(fn.args.kwonlyargs, fn.args.kw_defaults) if d is not None})
        rebound = {n.id for n in own(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        shared_defaults = {p for p, d in defaults.items() if fresh_mutable(d) and p not in rebound}
        class_level = set()
        if cls is not None and not static:
            for n in cls.body:
                v = n.value if isinstance(n, (ast.Assign, ast.AnnAssign)) else None
                if fresh_mutable(v):
                    ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                    class_level |= {t.id for t in ts if isinstance(t, ast.Name)}
            for x in ast.walk(cls):  # an instance attribute of the same name hides it
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == "self":
                    class_level.discard(x.attr)
        alias = {}
        for n in own(fn):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and glob.get(n.value.id) == "variable" and n.value.id not in loc:
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        alias[t.id] = n.value.id

        def is_shared(e: ast.AST, need_path: bool) -> Optional[str]:
            r, path = root(e)
            text = ast.unparse(e)
            if isinstance(r, ast.Name):
                if r.id in declared:
                    return text
                if r.id not in loc and r.id in glob and (path or not need_path):
                    return text if glob[r.id] in ("variable", "class", "function") or path else None
                if r.id in shared_defaults and (path or not need_path):
                    return f"the default of {r.id}"
                if r.id in alias and [x for x in own(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id == r.id].__len__() == 1 and (path or not need_path):
                    return f"{alias[r.id]} (through {r.id})"
                if clsm and r.id == first and path:
                    return text
                if r.id == first and path and path[0] in class_level and (len(path) > 1 or not need_path):
                    return text
                if r.id == first and path and path[0] == "__class__" and len(path) > 1:
                    return text
            if isinstance(r, ast.Call) and isinstance(r.func, ast.Name) and r.func.id == "type" and len(r.args) == 1 and path:
                return text
            if isinstance(r, ast.Call) and isinstance(r.func, ast.Name) and r.func.id == "globals":
                return text
            return None

        for n in own(fn):
            where = f"line {getattr(n, 'lineno', '?')}"
            if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                s = is_shared(n, True)
                if s:
                    return f"{where}: {s} is modified"
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.id in declared:
                return f"{where}: the global {n.id} is assigned"
            if isinstance(n, ast.Call):
                f = n.func
                if isinstance(f, ast.Attribute) and f.attr in MUTATORS:
                    r, path = root(f.value)
                    if isinstance(r, ast.Name) and glob.get(r.id) in ("class", "function", "import") and r.id not in loc and not (glob[r.id] == "class" and path):
                        continue  # a function of that class or module
                    s = is_shared(f.value, False)
                    if s and not (isinstance(r, ast.Name) and r.id == first and path and path[0] not in class_level and not clsm):
                        return f"{where}: {s} is modified by {f.attr}()"
                if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id not in loc:
                    mod = f.value.id
                    if glob.get(mod) == "import" and mod in OUTSIDE:
                        return f"{where}: {ast.unparse(f)}() reads something outside the program"
                    if mod == "os" and f.attr in ("getenv", "urandom", "getpid", "getcwd"):
                        return f"{where}: {ast.unparse(f)}() reads something outside the program"
                    if mod in ("datetime", "date") and f.attr in CLOCK:
                        return f"{where}: {ast.unparse(f)}() reads the clock"
                if isinstance(f, ast.Attribute) and f.attr in CLOCK and isinstance(f.value, ast.Attribute) and f.value.attr in ("datetime", "date"):
                    return f"{where}: {ast.unparse(f)}() reads the clock"
                if isinstance(f, ast.Name) and f.id == "id" and "id" not in loc and "id" not in glob:
                    return f"{where}: id() depends on the address of an object"
                if isinstance(f, ast.Name) and f.id == "hash" and fn.name != "__hash__" and "hash" not in loc | set(glob):
                    return f"{where}: hash() of a string changes from one process to another"
            if isinstance(n, ast.Attribute) and n.attr == "environ" and isinstance(n.value, ast.Name) and n.value.id == "os":
                return f"{where}: os.environ is read"
        return None


def key(st: State, I: Any, v: Any) -> str:
    return f"raises {v.exc}" if isinstance(v, Raised) else show(I.freeze(st, v))


def judged(ex: Any, src: str, inputs: dict, expr: str) -> Optional[str]:
    und = None
    for st in ex.start(src, inputs):
        with ex.ck.hooked(*ex.hooks):
            outs = ex.cl.value(expr, st)
        for s, _ in outs:
            m = shared(s.events)
            t = taint(s)
            if m and not t:
                return m
            und = und or t
    if und:
        raise Undecided(f"depends on {und}")
    return None


def run(ck: Check) -> None:
    I = ck.I
    cl = Client(ck, ops.EXTRA + "from snuba_sdk.mql.mql import parse_mql\n", depth=400)
    r = ck.rule("effects", "on no path does the operation write to a module-level, class-level or default-argument object, keep a result between calls, or read the clock, "
                           "randomness, the environment or the address of an object")
    ro = ck.rule("set order", "the operation has the same outcome whichever order the elements of sets are visited in")
    rs = ck.rule("scan", "no function of the package that can run after import contains a statement with such an effect")
    I.field_specs = dict(FIELDS)
    todo = ops.scenarios()
    todo.append(("MQL text", "".join(f'm{i} = "{t}"\n' for i, t in enumerate(MQL.values())), [f"parse_mql(m{i})" for i in range(len(MQL))]))
    for label, src, oplist in todo:
        box: dict = {}

        def start(rev: bool) -> State:
            if rev not in box:
                try:
                    box[rev] = cl.setup(src, **INPUTS)
                except Exception as e:
                    box[rev] = e
            if isinstance(box[rev], Exception):
                raise Undecided(f"set-up: {box[rev]}")
            for n, v in INPUTS.items():
                ck.inp(n, v)
            return box[rev].copy()

        def outcomes(op: str, rev: bool) -> list:
            old = SET_ORDER["reverse"]
            SET_ORDER["reverse"] = rev
            try:
                outs = cl.value(op, start(rev))
            finally:
                SET_ORDER["reverse"] = old
            if not outs:
                raise Undecided("no outcome")
            return outs

        def setup_effects() -> Optional[str]:
            return shared(start(False).events)

        ck.ob(r, "constructing the operands", label, setup_effects)
        for op in oplist:
            def f() -> Optional[str]:
                und = None
                for s, v in outcomes(op, False):
                    m = shared(s.events)
                    t = taint(s)
                    if m and not t:
                        return m
                    und = und or t
                    if not isinstance(v, Raised) and has_unk(v):
                        und = und or show(find_unk(v))
                if und:
                    raise Undecided(f"depends on {und}")
                return None

            def g() -> Optional[str]:
                one, two = outcomes(op, False), outcomes(op, True)
                for s, v in one + two:
                    if taint(s) or (not isinstance(v, Raised) and has_unk(v)):
                        raise Undecided("depends on something unknown")
                a, b = [sorted({key(s, I, v) for s, v in x}) for x in (one, two)]
                if a != b:
                    x = next((p for p in a if p not in b), a[0])
                    y = next((p for p in b if p not in a), b[0])
                    return f"is {x[:200]} with sets visited in one order and {y[:200]} with the other"
                return None

            ck.ob(r, op, label, f)
            if op not in ("hash(c1)",):
                ck.ob(ro, op, label, g)
    ck.borrow([c15, c16, c17, c18, c21, c22, c23], r, judged)
    mods = [m for m in I.modules.values() if m.tree is not None and m.name.split(".")[0] == "snuba_sdk"]
    sc = Scan(mods)
    n = 0
    for m in sorted(mods, key=lambda m: m.name):
        for q, fn, cls in functions(m.tree):
            n += 1

            def h() -> Optional[str]:
                return sc.judge(m, q, fn, cls)

            ck.ob(rs, f"{m.rel}:{q}", "effects", h)
    ck.counters["functions scanned"] = n
