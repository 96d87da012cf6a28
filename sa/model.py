"""Program model: modules, classes, functions, abstract states."""
from __future__ import annotations

import ast
import builtins
import os
from typing import Any, Optional

from .terms import NONE, T, Term, const

PKG = "snuba_sdk"


class Unsupported(Exception):
    """A construct the analysis has no transfer function for."""


class AnalysisBroken(Exception):
    """An anchor (public class or function) is gone: no verdict is possible."""


class Raised:
    """An abrupt completion: the class of the exception and where it is raised."""

    __slots__ = ("exc", "where", "val")

    def __init__(self, exc: str, where: str, val: Optional[Term] = None) -> None:
        self.exc = exc
        self.where = where
        self.val = val

    def __repr__(self) -> str:
        return f"Raised({self.exc} at {self.where})"


class FieldInfo:
    def __init__(self, name: str, ann: Any, default: Optional[Term], factory: Optional[Term],
                 init: bool, compare: bool, hash_: Optional[bool], kw_only: bool, classvar: bool) -> None:
        self.name, self.ann, self.default, self.factory = name, ann, default, factory
        self.init, self.compare, self.hash = init, compare, hash_
        self.kw_only, self.classvar = kw_only, classvar


class ClassInfo:
    def __init__(self, q: str, name: str, module: "Module", node: ast.ClassDef) -> None:
        self.q, self.name, self.module, self.node = q, name, module, node
        self.bases: list = []  # ClassInfo or str (external dotted name)
        self.ns: dict = {}
        self.own_fields: list = []
        self.dc: Optional[dict] = None
        self.is_enum = False
        self.members: dict = {}
        self.other_decos: list = []
        self._mro: Optional[list] = None

    def mro(self) -> list:
        if self._mro is None:
            seqs = [b.mro() if isinstance(b, ClassInfo) else [b] for b in self.bases]
            seqs = [list(s) for s in seqs if s] + [list(self.bases)]
            out: list = [self]
            while True:
                seqs = [s for s in seqs if s]
                if not seqs:
                    break
                for s in seqs:
                    cand = s[0]
                    if not any(cand in t[1:] for t in seqs):
                        break
                else:
                    cand = seqs[0][0]
                out.append(cand)
                for s in seqs:
                    while cand in s:
                        s.remove(cand)
            self._mro = out
        return self._mro

    def lookup(self, name: str) -> Optional[tuple]:
        for c in self.mro():
            if isinstance(c, ClassInfo) and name in c.ns:
                return c, c.ns[name]
        return None

    def fields(self) -> list:
        """Dataclass fields in definition order, overridden in place."""
        out: dict = {}
        for c in reversed(self.mro()):
            if isinstance(c, ClassInfo) and c.dc is not None:
                for f in c.own_fields:
                    out[f.name] = f
        return [f for f in out.values() if not f.classvar]

    def is_dataclass(self) -> bool:
        return any(isinstance(c, ClassInfo) and c.dc is not None for c in self.mro())

    def subclass_of(self, q: str) -> bool:
        for c in self.mro():
            if (c.q if isinstance(c, ClassInfo) else c) == q:
                return True
            if isinstance(c, str):
                b = getattr(builtins, c.split(".")[-1], None)
                o = getattr(builtins, q.split(".")[-1], None) if "." not in q else None
                if isinstance(b, type) and isinstance(o, type) and issubclass(b, o):
                    return True
        return False

    def is_exception(self) -> bool:
        return self.subclass_of("BaseException")

    def is_abstract(self) -> bool:
        """Has an abstract method that is not overridden."""
        seen: set = set()
        for c in self.mro():
            if not isinstance(c, ClassInfo):
                continue
            for n, v in c.ns.items():
                if n in seen:
                    continue
                seen.add(n)
                if v.k == "func" and "abstractmethod" in v.a[0].decos:
                    return True
        return False

    def __repr__(self) -> str:
        return f"<class {self.q}>"


class FuncInfo:
    def __init__(self, name: str, q: str, node: Any, module: "Module", cls: Optional[ClassInfo]) -> None:
        self.name, self.q, self.node, self.module, self.cls = name, q, node, module, cls
        self.closure: Optional[int] = None
        self.decos: set = set()
        self.defaults: dict = {}
        body = node.body if isinstance(node.body, list) else [node.body]
        self.is_gen = not isinstance(node, ast.Lambda) and _has_yield(body)
        self.globals: set = set()
        self.nonlocals: set = set()
        for s in ast.walk(node):
            if isinstance(s, ast.Global):
                self.globals |= set(s.names)
            elif isinstance(s, ast.Nonlocal):
                self.nonlocals |= set(s.names)

    def where(self) -> str:
        return f"{self.module.rel}:{getattr(self.node, 'lineno', 0)}"

    def __repr__(self) -> str:
        return f"<func {self.q}>"


def _has_yield(body: list) -> bool:
    stack = list(body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


class Module:
    def __init__(self, name: str, path: str, rel: str, tree: Optional[ast.Module]) -> None:
        self.name, self.path, self.rel, self.tree = name, path, rel, tree
        self.ns: dict = {}
        self.state = "new"
        self.is_pkg = os.path.basename(path) == "__init__.py"
        self.source = ""


class Rec:
    """A heap record.  kind: inst|list|set|dict."""

    __slots__ = ("kind", "cls", "data")

    def __init__(self, kind: str, cls: Any, data: Any) -> None:
        self.kind, self.cls, self.data = kind, cls, data

    def same(self, o: "Rec") -> bool:
        return self.kind == o.kind and self.cls is o.cls and self.data == o.data


class State:
    """One disjunct of the abstract state."""

    __slots__ = ("frames", "cur", "fn", "mod", "heap", "types", "oneof", "notin", "preds",
                 "num", "over", "gvars", "events", "captured")

    def __init__(self) -> None:
        self.frames: dict = {}
        self.cur: Optional[int] = None
        self.fn: Optional[FuncInfo] = None
        self.mod: Optional[Module] = None
        self.heap: dict = {}
        self.types: dict = {}
        self.oneof: dict = {}
        self.notin: dict = {}
        self.preds: dict = {}
        self.num: dict = {}
        self.over: dict = {}
        self.gvars: dict = {}
        self.events: tuple = ()
        self.captured: frozenset = frozenset()

    def copy(self) -> "State":
        s = State.__new__(State)
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.cur, s.fn, s.mod = self.cur, self.fn, self.mod
        s.heap = dict(self.heap)
        s.types = dict(self.types)
        s.oneof = dict(self.oneof)
        s.notin = dict(self.notin)
        s.preds = dict(self.preds)
        s.num = dict(self.num)
        s.over = dict(self.over)
        s.gvars = dict(self.gvars)
        s.events = self.events
        s.captured = self.captured
        return s

    def event(self, *e: Any) -> None:
        self.events = self.events + (e,)

    def key(self) -> tuple:
        return (
            tuple(sorted((k, tuple(sorted(v.items(), key=lambda kv: kv[0]))) for k, v in self.frames.items()))
            if False else tuple((k, tuple(v.items())) for k, v in self.frames.items()),
            tuple((k, r.kind, _hk(r.data)) for k, r in self.heap.items()),
            frozenset(self.types.items()), frozenset(self.oneof.items()), frozenset(self.notin.items()),
            frozenset(self.preds.items()), frozenset(self.num.items()), frozenset(self.over.items()),
            frozenset(self.gvars.items()), self.events,
        )


def _hk(d: Any) -> Any:
    if isinstance(d, dict):
        return tuple(d.items())
    return d


class TySpec:
    """What is assumed about an input: type atoms, element spec, value facts."""

    def __init__(self, atoms: Any, elem: Optional["TySpec"] = None, truthy: Optional[bool] = None,
                 oneof: Any = None, num: Any = None) -> None:
        self.atoms = frozenset(atoms)
        self.elem = elem
        self.truthy = truthy
        self.oneof = frozenset(oneof) if oneof is not None else None
        self.num = num

    def join(self, o: "TySpec", seen: Optional[dict] = None) -> "TySpec":
        if self is o:
            return self
        seen = {} if seen is None else seen
        if (id(self), id(o)) in seen:
            return seen[(id(self), id(o))]
        out = seen[(id(self), id(o))] = TySpec(self.atoms | o.atoms)
        out.elem = self.elem if o.elem is None else o.elem if self.elem is None else self.elem.join(o.elem, seen)
        return out


BUILTIN_ATOMS = frozenset(
    ["NoneType", "bool", "int", "float", "str", "bytes", "date", "datetime", "list", "tuple",
     "set", "dict", "otherseq", "other"]
)
# atoms of external classes named in isinstance tests
EXT_CLASS_ATOMS = {
    "int": {"int", "bool"}, "bool": {"bool"}, "float": {"float"}, "str": {"str"}, "bytes": {"bytes"},
    "list": {"list"}, "tuple": {"tuple"}, "set": {"set"}, "dict": {"dict"}, "NoneType": {"NoneType"},
    "frozenset": {"set"},
    "datetime.datetime": {"datetime"}, "datetime.date": {"date", "datetime"},
    "typing.Sequence": {"list", "tuple", "str", "bytes", "otherseq"},
    "collections.abc.Sequence": {"list", "tuple", "str", "bytes", "otherseq"},
    "typing.Mapping": {"dict"}, "collections.abc.Mapping": {"dict"},
    "typing.MutableMapping": {"dict"}, "collections.abc.MutableMapping": {"dict"},
    "typing.Set": {"set"}, "collections.abc.Set": {"set"},
    "types.NoneType": {"NoneType"},
    "numbers.Number": {"int", "bool", "float"},
}
SIZED = frozenset(["str", "bytes", "list", "tuple", "set", "dict"])
