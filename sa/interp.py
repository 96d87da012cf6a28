"""Abstract interpreter for the Python subset used by snuba_sdk.

The abstract state is a bounded set of disjuncts (`State`), each mapping terms to
type sets, enumerated values, numeric intervals and predicates.  Branches refine
facts, merge points join disjuncts that differ in one optional subject, loops
over symbolic sequences are summarised by one abstract iteration, calls into the
package are analysed context-sensitively, and recursion is cut.  There is no
solver: a branch whose condition the facts do not decide is taken both ways.
"""
from __future__ import annotations

import ast
import builtins
import itertools
import os
import string
from typing import Any, Callable, Iterable, Optional

from .model import (BUILTIN_ATOMS, EXT_CLASS_ATOMS, PKG, SIZED, AnalysisBroken, ClassInfo, FieldInfo,
                    FuncInfo, Module, Raised, Rec, State, TySpec, Unsupported)
from .terms import (EMPTY, FALSE, NONE, TRUE, T, Term, attr, cat, charmap, const, contains, cval, elem,
                    fmt, has_obj, has_unk, is_const, join, mkfor, norm_segs, one, seq, show, spread, subst, sym, unk, SET_ORDER)

from .stmts import StmtMixin
from .calls import CallMixin

NEXT, RET, RAISE, BRK, CONT = "next", "return", "raise", "break", "continue"
COND_KINDS = frozenset(["not", "isinst", "eq", "lt", "le", "in", "truthy", "rematch", "quant", "range", "issub"])
FACT_KINDS = (("types", "types"), ("oneof", "oneof"), ("notin", "notin"), ("preds", "pred"), ("num", "num"))
MAX_STATES = 400
MAX_DEPTH = 60

Res = list  # list of (State, Term | Raised)


class _Everything(set):
    def __contains__(self, x: Any) -> bool:
        return True


class Interp(StmtMixin, CallMixin):
    def __init__(self, repo: str, pkg: str = PKG) -> None:
        self.repo = repo
        self.pkg = pkg
        self.modules: dict = {}
        self.classes: dict = {}
        self.funcs: list = []
        self.gheap: dict = {}
        self.ids = itertools.count(1)
        self.loading = State()
        self.stack: list = []
        self.hooks: list = []
        self.new_hooks: list = []
        self.ext_hooks: dict = {}
        self.yields: list = []
        self.try_depth = 0
        self._eq_depth = 0
        SET_ORDER["eq"] = self.py_eq
        self.extra_fields = {}
        self.field_specs: dict = {}
        self.inputs: dict = {}
        self.watch: set = set()
        self.universe: frozenset = frozenset()
        self.n_calls = 0
        self.n_branches = 0
        self.touched: set = set()
        self.notes: list = []
        #: strings of a known language: term -> (language, representative); see decide_leaf
        self.leaves: dict = {}
        #: leaves that are the text of a float: term -> that float
        self.leaf_float: dict = {}
        self._leaf_memo: dict = {}
        self._grammars: dict = {}
        self.ext_hooks["verif_intrinsics.peg_parse"] = lambda I, a, k, st: I.peg(a, st, True)
        self.ext_hooks["verif_intrinsics.peg_match"] = lambda I, a, k, st: I.peg(a, st, False)
        self._find_modules()
        self._add_models()
        self._load_all()

    # ------------------------------------------------------------------ loading

    def _find_modules(self) -> None:
        root = os.path.join(self.repo, self.pkg)
        if not os.path.isdir(root):
            raise AnalysisBroken(f"{root} is missing")
        for d, dirs, files in sorted(os.walk(root)):
            dirs[:] = sorted(x for x in dirs if x != "__pycache__")
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, self.repo)
                name = rel[:-3].replace(os.sep, ".")
                if name.endswith(".__init__"):
                    name = name[: -len(".__init__")]
                with open(p, encoding="utf-8") as fh:
                    src = fh.read()
                m = Module(name, p, rel, ast.parse(src, p))
                m.source = src
                self.modules[name] = m

    def _add_models(self) -> None:
        """Third-party packages whose behaviour matters, described as source."""
        d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "models")
        with open(os.path.join(d, "parsimonious.py"), encoding="utf-8") as fh:
            tree = ast.parse(fh.read())
        base = "parsimonious.nodes"
        m = Module(base, "parsimonious/nodes.py", "(parsimonious)", tree)
        self.modules[base] = m
        for name in ("parsimonious", "parsimonious.grammar", "parsimonious.exceptions"):
            self.modules[name] = Module(name, "parsimonious/x.py", "(parsimonious)", ast.parse(
                "from parsimonious.nodes import (Grammar, IncompleteParseError, Node, NodeVisitor, ParseError, ParsimoniousError, RegexNode, VisitationError)"))

    def peg(self, args: list, st: State, whole: bool) -> list:
        from . import peg

        rules, rule, text, pos = args
        if rules.k != "const" or rule.k != "const" or pos is not const(0):
            return [(st, unk("computed grammar"))]
        g = self._grammars.get(rules.a[1])
        if g is None:
            try:
                g = self._grammars[rules.a[1]] = peg.Grammar(rules.a[1])
            except peg.BadGrammar as e:
                raise Unsupported(f"grammar: {e}")
        parts = list(text.a) if text.k == "cat" else [text]
        rep, ends = "", []
        for p in parts:
            if p.k == "const" and p.a[0] == "str":
                rep += p.a[1]
            elif p in self.leaves:
                rep += self.leaves[p][1]
            else:
                return [(st, unk(f"parsing {show(text)[:80]}"))]
            ends.append(len(rep))

        def piece(a: int, b: int) -> Term:
            out, start = [], 0
            for p, e in zip(parts, ends):
                lo, hi = max(a, start), min(b, e)
                if lo < hi:
                    if p.k == "const":
                        out.append(const(p.a[1][lo - start:hi - start]))
                    elif (lo, hi) == (start, e):
                        out.append(p)
                    else:
                        out.append(unk(f"part of {show(p)}"))
                elif start == e and p.k != "const" and a < start < b:
                    out.append(p)  # represented by the empty string
                start = e
            return cat(*out)

        try:
            n = g.match(rep, 0, cval(rule))
        except peg.BadGrammar as e:
            raise Unsupported(f"grammar: {e}")
        if n is None:
            return [(st, Raised("parsimonious.nodes.ParseError", self.loc(st)))]
        if whole and n.end != len(rep):
            return [(st, Raised("parsimonious.nodes.IncompleteParseError", self.loc(st)))]
        c = self.cls_by_q("parsimonious.nodes.Node")

        def make(n: Any) -> Term:
            cs = tuple(one(make(x)) for x in n.children)
            return self.alloc(st, "inst", {"expr_name": const(n.name), "text": piece(n.start, n.end), "children": self.alloc(st, "list", cs),
                                           "start": const(n.start), "end": const(n.end), "full_text": text}, c)

        return [(st, make(n))]

    def decide_leaf(self, c: Term) -> Optional[bool]:
        """A predicate about one string of a known regular language: included in it, or disjoint from it?"""
        r = None
        hit: set = set()

        def f(x: Term) -> Optional[Term]:
            if x in self.leaves:
                hit.add(x)
            return None

        subst(c, f)
        if len(hit) == 1:
            from . import regexlang as L
            from .props.c03 import pred_lang
            x = next(iter(hit))
            lang = self.leaves[x][0]
            # the answer depends on the language of the leaf, not on its name
            gen = sym("any leaf")
            c = subst(c, lambda t: gen if t is x else None)
            key = (id(lang), c)
            if key in self._leaf_memo:
                return self._leaf_memo[key]
            x = gen
            try:
                p = pred_lang(c, x)
                if L.difference(lang & p, lang) is None:
                    r = True
                elif L.difference(lang & ~p, lang) is None:
                    r = False
            except Exception:
                r = None
            self._leaf_memo[key] = r
        return r

    def _load_all(self) -> None:
        for m in list(self.modules.values()):
            self.load(m)
        self.universe = BUILTIN_ATOMS | frozenset(
            c.q for c in self.classes.values() if not c.is_exception() and (c.is_enum or c.is_dataclass()) and not c.is_abstract()
        )

    def load(self, m: Module) -> Module:
        if m.state != "new":
            return m
        m.state = "loading"
        m.ns["__name__"] = const(m.name)
        save = (self.loading.cur, self.loading.fn, self.loading.mod)
        fid = next(self.ids)
        self.loading.frames[fid] = m.ns
        self.loading.cur, self.loading.fn, self.loading.mod = fid, None, m
        for s in m.tree.body:
            self._load_stmt(s, m)
        self.loading.cur, self.loading.fn, self.loading.mod = save
        m.state = "done"
        return m

    def _load_stmt(self, s: ast.stmt, m: Module) -> None:
        """Top-level code is straight-line constant propagation."""
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            self._import(s, m, m.ns)
            return
        if isinstance(s, ast.If):
            try:
                test = self._load_eval(s.test, m)
                st = self.loading
                d = self.decide(st, self.truth(st, test))
            except Unsupported:
                d = None
            for t in (s.body if d is not False else s.orelse):
                self._load_stmt(t, m)
            return
        if isinstance(s, ast.Try):
            for t in s.body:
                self._load_stmt(t, m)
            return
        st = self.loading
        try:
            outs = self.exec_stmt(s, st)
        except Unsupported as e:
            self._bind_unknown(s, m, str(e))
            return
        if len(outs) != 1 or outs[0][1] != NEXT:
            self._bind_unknown(s, m, "module-level control flow")
            return
        st2 = outs[0][0]
        if st2 is not st:
            for k, v in st2.frames[st.cur].items():
                m.ns[k] = v
            st2.frames[st.cur] = m.ns
            self.loading = st2
        self.gheap.update(self.loading.heap)
        self.loading.heap = {}
        self.loading.types, self.loading.preds, self.loading.oneof = {}, {}, {}

    def _load_eval(self, e: ast.expr, m: Module) -> Term:
        rs = self.ev(e, self.loading)
        if len(rs) != 1 or isinstance(rs[0][1], Raised):
            raise Unsupported("module-level expression")
        return rs[0][1]

    def _bind_unknown(self, s: ast.stmt, m: Module, why: str) -> None:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                m.ns[n.id] = unk(f"{m.rel}:{s.lineno} {why}")

    def _import(self, s: Any, m: Module, ns: dict) -> None:
        if isinstance(s, ast.Import):
            for a in s.names:
                if a.asname:
                    ns[a.asname] = self._modref(a.name)
                else:
                    ns[a.name.split(".")[0]] = self._modref(a.name.split(".")[0])
            return
        base = s.module or ""
        if s.level:
            parts = m.name.split(".")
            if not m.is_pkg:
                parts = parts[:-1]
            parts = parts[: len(parts) - (s.level - 1)]
            base = ".".join(parts + ([s.module] if s.module else []))
        for a in s.names:
            full = f"{base}.{a.name}"
            if a.name == "*":
                if base in self.modules:
                    for k, v in self.load(self.modules[base]).ns.items():
                        if not k.startswith("_"):
                            ns[k] = v
                continue
            if full in self.modules and a.name not in self.modules.get(base, Module("", "", "", None)).ns:
                ns[a.asname or a.name] = T("mod", full)
            elif base in self.modules:
                ns[a.asname or a.name] = T("lazy", base, a.name)
            else:
                ns[a.asname or a.name] = self._ext(full)

    def _modref(self, name: str) -> Term:
        if name in self.modules:
            return T("mod", name)
        return T("ext", name)

    def _ext(self, full: str) -> Term:
        return T("ext", full)

    def force(self, v: Term) -> Term:
        while v.k == "lazy":
            m = self.load(self.modules[v.a[0]])
            if v.a[1] not in m.ns:
                if f"{v.a[0]}.{v.a[1]}" in self.modules:
                    return T("mod", f"{v.a[0]}.{v.a[1]}")
                raise Unsupported(f"cannot import {v.a[1]} from {v.a[0]}")
            v = m.ns[v.a[1]]
        return v

    def cls_by_q(self, q: str) -> ClassInfo:
        c = self.classes.get(q)
        if c is None:
            raise AnalysisBroken(f"class {q} is missing")
        return c

    def module_value(self, mod: str, name: str) -> Term:
        m = self.modules.get(mod)
        if m is None or name not in m.ns:
            raise AnalysisBroken(f"{mod}.{name} is missing")
        return self.force(m.ns[name])

    def method(self, q: str, name: str) -> FuncInfo:
        c = self.cls_by_q(q)
        r = c.lookup(name)
        if r is None or r[1].k != "func":
            raise AnalysisBroken(f"{q}.{name} is missing")
        return r[1].a[0]

    # -------------------------------------------------------------- classes

    def def_class(self, s: ast.ClassDef, st: State) -> Res:
        m = st.mod
        prefix = f"{st.fn.q}.<locals>." if st.fn is not None else f"{m.name}."
        c = ClassInfo(prefix + s.name, s.name, m, s)
        for b in s.bases:
            rs = self.ev(b, st)
            if len(rs) != 1 or isinstance(rs[0][1], Raised):
                raise Unsupported("base class")
            bt = self.force(rs[0][1])
            if bt.k == "cls":
                c.bases.append(self.classes[bt.a[0]])
            elif bt.k in ("ext", "builtin"):
                c.bases.append(bt.a[0])
            elif bt.k == "item" or bt.k == "app":
                inner = bt.a[0] if bt.k == "item" else None
                inner = self.force(inner) if isinstance(inner, Term) else None
                if inner is not None and inner.k == "cls":
                    c.bases.append(self.classes[inner.a[0]])
                elif inner is not None and inner.k == "ext":
                    c.bases.append(inner.a[0])
                else:
                    c.bases.append("object")
            else:
                c.bases.append("object")
        self.classes[c.q] = c
        c.is_enum = any(isinstance(x, str) and x.split(".")[-1] in ("Enum", "IntEnum", "StrEnum", "Flag") for x in c.mro())
        for d in s.decorator_list:
            self._class_deco(c, d, st)
        ns = c.ns
        # class body: its own frame whose lookups fall back to the enclosing one
        fid = next(self.ids)
        st.frames[fid] = ns
        save = (st.cur, st.fn)
        clsframe = FuncInfo("<class>", c.q, ast.Lambda(args=ast.arguments([], [], None, [], [], None, []), body=ast.Constant(None)), m, c)
        clsframe.closure = save[0] if save[1] is not None else None
        for x in s.body:
            st.cur, st.fn = fid, clsframe
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                for s2, _ in self.exec_stmt_def(x, st, c):
                    pass
            elif isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name):
                self._field(c, x, st)
            elif isinstance(x, ast.Assign):
                try:
                    rs = self.ev(x.value, st)
                    v = rs[0][1] if len(rs) == 1 and not isinstance(rs[0][1], Raised) else unk("class attribute")
                except Unsupported as e:
                    v = unk(f"{m.rel}:{x.lineno} {e}")
                for t in x.targets:
                    if isinstance(t, ast.Name):
                        if c.is_enum and not t.id.startswith("_"):
                            c.members[t.id] = v
                            ns[t.id] = T("enum", c.q, t.id)
                        else:
                            ns[t.id] = v
            elif isinstance(x, (ast.Import, ast.ImportFrom)):
                self._import(x, m, ns)
        st.cur, st.fn = save
        st.frames.pop(fid, None)
        self.gheap.update(st.heap)
        return [(st, T("cls", c.q))]

    def _class_deco(self, c: ClassInfo, d: ast.expr, st: State) -> None:
        call = isinstance(d, ast.Call)
        f = d.func if call else d
        v = self.force(self.ev(f, st)[0][1])
        name = v.a[0] if v.k == "ext" else ""
        if name in ("dataclasses.dataclass",):
            opts = dict(init=True, repr=True, eq=True, order=False, unsafe_hash=False, frozen=False, kw_only=False, slots=False)
            if call:
                for k in d.keywords:
                    if isinstance(k.value, ast.Constant):
                        opts[k.arg] = k.value.value
            c.dc = opts
        else:
            c.other_decos.append(name or ast.unparse(d))

    def _field(self, c: ClassInfo, x: ast.AnnAssign, st: State) -> None:
        name = x.target.id
        classvar = "ClassVar" in ast.unparse(x.annotation)
        f = FieldInfo(name, x.annotation, None, None, True, True, None, False, classvar)
        if x.value is not None:
            val = x.value
            is_field = False
            if isinstance(val, ast.Call):
                fv = self.force(self.ev(val.func, st)[0][1])
                is_field = fv.k == "ext" and fv.a[0] == "dataclasses.field"
            if is_field:
                for k in val.keywords:
                    if k.arg == "default":
                        f.default = self.ev(k.value, st)[0][1]
                    elif k.arg == "default_factory":
                        f.factory = self.ev(k.value, st)[0][1]
                    elif k.arg in ("init", "compare", "kw_only") and isinstance(k.value, ast.Constant):
                        setattr(f, k.arg, bool(k.value.value))
                    elif k.arg == "hash" and isinstance(k.value, ast.Constant):
                        f.hash = k.value.value
                if f.default is not None:
                    c.ns[name] = f.default
            else:
                rs = self.ev(val, st)
                f.default = rs[0][1]
                c.ns[name] = f.default
        c.own_fields.append(f)

    # -------------------------------------------------------------- functions

    def make_func(self, node: Any, st: State, cls: Optional[ClassInfo], name: str) -> FuncInfo:
        m = st.mod
        if cls is not None:
            q = f"{cls.q}.{name}"
        elif st.fn is not None:
            q = f"{st.fn.q}.<locals>.{name}"
        else:
            q = f"{m.name}.{name}"
        fi = FuncInfo(name, q, node, m, cls if cls is not None else (st.fn.cls if st.fn else None))
        if cls is not None:
            fi.closure = st.fn.closure if st.fn is not None else None
        elif st.fn is not None:
            fi.closure = st.cur
            st.captured = st.captured | {st.cur}
        fi.owner = cls
        a = node.args
        pos = a.posonlyargs + a.args
        for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            fi.defaults[p.arg] = self._const_default(d, st)
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                fi.defaults[p.arg] = self._const_default(d, st)
        self.funcs.append(fi)
        return fi

    def _const_default(self, d: ast.expr, st: State) -> Term:
        try:
            rs = self.ev(d, st)
        except Unsupported as e:
            return unk(str(e))
        if len(rs) != 1 or isinstance(rs[0][1], Raised):
            return unk("default value")
        # a default object is allocated once and shared: make it a global object
        v = rs[0][1]
        if v.k == "obj" and v.a[0] in st.heap:
            self.gheap[v.a[0]] = st.heap.pop(v.a[0])
        return v

    def exec_stmt_def(self, s: Any, st: State, cls: Optional[ClassInfo]) -> list:
        fi = self.make_func(s, st, cls, s.name)
        val = T("func", fi)
        for d in reversed(s.decorator_list):
            dn = d.func if isinstance(d, ast.Call) else d
            dv = None
            try:
                dv = self.force(self.ev(dn, st)[0][1])
            except Unsupported:
                pass
            if isinstance(dn, ast.Attribute) and dn.attr in ("setter", "getter", "deleter"):
                fi.decos.add("property." + dn.attr)
                continue
            if dv is not None and dv.k in ("ext", "builtin"):
                fi.decos.add(dv.a[0].split(".")[-1])
            elif dv is not None and dv.k == "func" and val.k == "func":
                fi.decos.add("repo:" + dv.a[0].q)
                rs = self.call(dv, [val], {}, st) if not isinstance(d, ast.Call) else []
                if len(rs) == 1 and not isinstance(rs[0][1], Raised):
                    val = rs[0][1]
                else:
                    val = unk(f"decorator {ast.unparse(d)}")
            else:
                fi.decos.add("unknown:" + ast.unparse(d))
        name = self.mangle(s.name, cls) if cls is not None else s.name
        if "property.setter" in fi.decos:
            return [(st, val)]
        if cls is not None:
            cls.ns[name] = val
        else:
            self.store_name(s.name, val, st)
        return [(st, val)]

    def mangle(self, name: str, cls: Optional[ClassInfo]) -> str:
        if cls is not None and name.startswith("__") and not name.endswith("__"):
            return f"_{cls.name.lstrip('_')}{name}"
        return name

    # -------------------------------------------------------------- heap

    def alloc(self, st: State, kind: str, data: Any, cls: Any = None) -> Term:
        oid = next(self.ids)
        st.heap[oid] = Rec(kind, cls, data)
        return T("obj", oid)

    def rec(self, st: State, v: Term) -> Rec:
        r = st.heap.get(v.a[0])
        if r is None:
            r = self.gheap[v.a[0]]
        return r

    def is_global_obj(self, st: State, v: Term) -> bool:
        return v.a[0] in self.gheap

    def setrec(self, st: State, v: Term, data: Any, what: str = "") -> None:
        r = self.rec(st, v)
        if self.is_global_obj(st, v):
            st.event("gwrite", self.describe_global(v), what)
        st.heap[v.a[0]] = Rec(r.kind, r.cls, data)

    def describe_global(self, v: Term) -> str:
        for m in self.modules.values():
            for k, x in m.ns.items():
                if x is v:
                    return f"{m.name}.{k}"
        return f"module-level object #{v.a[0]}"

    def freeze(self, st: State, v: Any, seen: tuple = ()) -> Any:
        """Replace heap references by the structure they have in st."""
        if isinstance(v, Raised) or not has_obj(v):
            return v

        def f(x: Term) -> Optional[Term]:
            if x.k != "obj":
                return None if has_obj(x) else x
            oid = x.a[0]
            if oid in seen:
                return unk("cyclic object")
            r = st.heap.get(oid) or self.gheap.get(oid)
            if r is None:
                return x
            s2 = seen + (oid,)
            if r.kind == "inst":
                return T("new", r.cls.q, tuple((k, self.freeze(st, y, s2)) for k, y in r.data.items()))
            if r.kind in ("list", "set"):
                return seq(r.kind, *[self.freeze(st, y, s2) for y in r.data])
            if r.kind == "dict":
                return T("dict", tuple(self.freeze(st, y, s2) for y in r.data))
            return None

        return subst(v, f)

    # -------------------------------------------------------------- types

    def class_atoms(self, v: Term, st: State) -> Optional[frozenset]:
        """The atoms that are instances of the class (or tuple of classes) v."""
        v = self.force(v)
        if v.k == "cls":
            c = self.classes[v.a[0]]
            return frozenset(q for q in self.universe if "." in q and self.classes[q].subclass_of(c.q))
        if v.k in ("builtin", "ext"):
            n = v.a[0]
            if n == "object":
                return self.universe
            if n in EXT_CLASS_ATOMS:
                return frozenset(EXT_CLASS_ATOMS[n])
            if n.split(".")[-1] == "Enum":
                return frozenset(q for q in self.universe if "." in q and self.classes[q].is_enum)
            return None
        if v.k == "app" and v.a[0] == "type" and v.a[1] is NONE:
            return frozenset(["NoneType"])
        if v is NONE:
            return frozenset(["NoneType"])
        segs = self.concrete_items(st, v)
        if segs is not None:
            out: frozenset = frozenset()
            for x in segs:
                a = self.class_atoms(x, st)
                if a is None:
                    return None
                out |= a
            return out
        if v.k == "bin" and v.a[0] == "|":
            a, b = self.class_atoms(v.a[1], st), self.class_atoms(v.a[2], st)
            return None if a is None or b is None else a | b
        if v.k == "item":  # Sequence[int], Union[A, B]
            base = self.force(v.a[0])
            if base.k == "ext" and base.a[0] in ("typing.Union",):
                return self.class_atoms(v.a[1], st)
            if base.k == "ext" and base.a[0] == "typing.Optional":
                a = self.class_atoms(v.a[1], st)
                return None if a is None else a | {"NoneType"}
            return self.class_atoms(base, st)
        return None

    def spec_of(self, st: State, t: Term) -> Optional[TySpec]:
        if t in self.inputs:
            return self.inputs[t]
        if t.k == "attr":
            out: Optional[TySpec] = None
            for a in self.types(st, t.a[0]):
                sp = self.field_specs.get((a, t.a[1]))
                if sp is None and "." in a:
                    for c in self.classes[a].mro():
                        if isinstance(c, ClassInfo):
                            sp = self.field_specs.get((c.q, t.a[1]))
                            if sp is not None:
                                break
                if sp is None:
                    return None
                out = sp if out is None else out.join(sp)
            return out
        if t.k in ("elem", "it"):
            base = t.a[0]
            sp = self.spec_of(st, base)
            if sp is not None:
                return sp.elem
            return None
        if t.k == "slice":
            return self.spec_of(st, t.a[0])
        if t.k == "app" and t.a[0] == "slice":
            return self.spec_of(st, t.a[1])
        if t.k == "seq":
            specs = []
            for s in t.a[1]:
                if s.k == "spread":
                    sp = self.spec_of(st, s.a[0])
                    specs.append(sp.elem if sp is not None else None)
                elif s.k == "one":
                    specs.append(self.spec_of(st, s.a[0]) or TySpec(self.types(st, s.a[0])))
                else:
                    specs.append(None)
            if specs and all(x is not None for x in specs):
                e = specs[0]
                for x in specs[1:]:
                    e = e.join(x)
                return TySpec([t.a[0] if t.a[0] != "gen" else "other"], e)
            return None
        if t.k == "item" and t.a[1].k == "const" and t.a[1].a[0] == "int":
            sp = self.spec_of(st, t.a[0])
            return sp.elem if sp is not None else None
        return None

    APP_TYPES = {"len": "int", "isoformat": "str", "decode": "str", "strip": "str", "lstrip": "str",
                 "rstrip": "str", "upper": "str", "lower": "str", "replace": "str", "repr": "str",
                 "json.dumps": "str", "startswith": "bool", "endswith": "bool", "R": "str", "RM": "str",
                 "before": "str", "after": "str", "rbefore": "str", "rafter": "str", "find": "int", "index": "int", "count": "int", "rfind": "int",
                 "split": "list", "rsplit": "list", "int": "int", "float": "float", "strptime": "datetime",
                 "datetime.replace": "datetime", "naive_utc": "datetime", "concat_text": "str", "hash": "int", "removeprefix": "str",
                 "removesuffix": "str", "title": "str", "capitalize": "str", "format": "str", "partition": "tuple",
                 "rpartition": "tuple", "sorted": "list", "strslice": "str", "items": "otherseq", "keys": "otherseq",
                 "values": "otherseq", "isidentifier": "bool", "isalpha": "bool", "isdigit": "bool", "isalnum": "bool"}

    def types(self, st: State, t: Term) -> frozenset:
        k = t.k
        if k == "const":
            return frozenset([t.a[0]])
        if k in ("cat", "join", "charmap", "fmt"):
            return frozenset(["str"])
        if k == "obj":
            r = self.rec(st, t)
            return frozenset([r.cls.q if r.kind == "inst" else r.kind])
        if k == "seq":
            return frozenset([t.a[0] if t.a[0] != "gen" else "other"])
        if k == "dict":
            return frozenset(["dict"])
        if k in ("new", "enum"):
            return frozenset([t.a[0]])
        if k in COND_KINDS and k != "rematch":
            return frozenset(["bool"])
        if k in ("func", "cls", "mod", "ext", "builtin", "bound", "regex", "partial", "exc"):
            return frozenset(["other"])
        if t in st.types:
            return st.types[t]
        return self._default_types(st, t)

    def _default_types(self, st: State, t: Term) -> frozenset:
        k = t.k
        if k == "rematch":
            return frozenset(["NoneType", "other"])
        if k == "it":
            e = elem(t.a[0])
            if e in st.types:
                return st.types[e]
        sp = self.spec_of(st, t)
        if sp is not None:
            return sp.atoms
        if k == "app" and t.a[0] in ("abs", "round") and len(t.a) == 2 and self.types(st, t.a[1]) <= {"int", "bool", "float"}:
            return self.types(st, t.a[1]) if t.a[0] == "abs" else frozenset(["int"])
        if k == "app" and t.a[0] in self.APP_TYPES:
            return frozenset([self.APP_TYPES[t.a[0]]])
        if k in ("elem", "it") and self.types(st, t.a[0]) <= {"str"}:
            return frozenset(["str"])
        if k == "slice":
            return self.types(st, t.a[0])
        if k == "bin":
            a, b = self.types(st, t.a[1]), self.types(st, t.a[2])
            num = {"int", "float", "bool"}
            if a <= num and b <= num:
                if t.a[0] == "/" or a <= {"float"} or b <= {"float"}:
                    return frozenset(["float"])
                return frozenset(["int", "float"] if "float" in a | b else ["int"])
            if a <= {"datetime"} and t.a[0] in "+-":
                return a
        if k == "un":
            a = self.types(st, t.a[1])
            if a <= {"int", "float", "bool"}:
                return frozenset("int" if x == "bool" else x for x in a)
        if k == "elem" and t.a[0].k == "seq":
            out: frozenset = frozenset()
            for s in t.a[0].a[1]:
                if s.k == "one":
                    out |= self.types(st, s.a[0])
                else:
                    return self.universe
            return out
        return self.universe

    def always_truthy(self, a: str) -> bool:
        if "." in a:
            c = self.classes[a]
            return c.lookup("__bool__") is None and c.lookup("__len__") is None
        return a in ("date", "datetime")

    # -------------------------------------------------------------- conditions

    def truth(self, st: State, v: Term) -> Term:
        """The condition 'v is truthy'."""
        v = self.force(v)
        if v.k in COND_KINDS:
            return v
        if v.k == "const":
            return TRUE if cval(v) else FALSE
        if v.k == "obj":
            r = self.rec(st, v)
            if r.kind == "inst":
                if self.always_truthy(r.cls.q):
                    return TRUE
                return T("truthy", self.freeze(st, v))
            return self.segs_truth(st, r.data, r.kind)
        if v.k == "seq":
            return self.segs_truth(st, v.a[1], v.a[0])
        if v.k == "dict":
            return self.segs_truth(st, v.a[0], "dict")
        if v.k in ("enum", "new", "func", "cls", "mod", "ext", "builtin", "bound", "regex", "exc", "partial"):
            return TRUE
        if v.k == "cat":
            for p in v.a:
                if p.k == "const":
                    return TRUE
        if v.k == "app" and v.a[0] == "len":
            return self.truth(st, v.a[1])
        if v.k == "app" and v.a[0] == "bool":
            return self.truth(st, v.a[1])
        if v.k in ("slice",) and v.a[1:] == (0, None):
            return self.truth(st, v.a[0])
        return T("truthy", v)

    def segs_truth(self, st: State, segs: tuple, kind: str) -> Term:
        if any(s.k in ("one", "entry") for s in segs):
            return TRUE
        if not segs:
            return FALSE
        if len(segs) == 1:
            s = segs[0]
            if s.k == "spread":
                return self.truth(st, s.a[0])
            if s.k == "for" and all(any(x.k in ("one", "entry") for x in c[0]) for c in s.a[1]):
                return self.truth(st, s.a[0])
        return T("truthy", T("seq", kind, segs))

    def neg(self, c: Term) -> Term:
        if c is TRUE:
            return FALSE
        if c is FALSE:
            return TRUE
        if c.k == "not":
            return c.a[0]
        return T("not", c)

    def py_eq(self, a: Term, b: Term) -> Optional[bool]:
        if a.k == "const" and b.k == "const":
            try:
                return cval(a) == cval(b)
            except Exception:
                return None
        if a.k == "enum" and b.k == "enum":
            if a is b:
                return True
            if a.a[0] == b.a[0]:
                va, vb = self.classes[a.a[0]].members[a.a[1]], self.classes[b.a[0]].members[b.a[1]]
                return va is vb if va.k == "const" and vb.k == "const" else False
            return False
        ground = ("const", "enum", "cls", "func", "builtin", "mod", "ext")
        if a.k in ground and b.k in ground:
            return a is b
        if a.k == "seq" and b.k == "seq" and a.a[0] in ("list", "tuple") and b.a[0] in ("list", "tuple"):
            if a.a[0] != b.a[0]:
                return False
            if all(x.k == "one" for x in a.a[1] + b.a[1]):
                if len(a.a[1]) != len(b.a[1]):
                    return False
                return self._all_eq((x.a[0], y.a[0]) for x, y in zip(a.a[1], b.a[1]))
            return None
        if a.k == "new" and b.k == "new":
            ca, cb = self.classes.get(a.a[0]), self.classes.get(b.a[0])
            if ca is None or cb is None or not ca.is_dataclass() or not cb.is_dataclass():
                return None
            if self.eq_method(ca) or self.eq_method(cb):
                return self._inlined_eq(ca, a, b) if self.eq_method(ca) else self._inlined_eq(cb, b, a)
            if ca is not cb:
                return False
            da, db = dict(a.a[1]), dict(b.a[1])
            if set(da) != set(db):
                return None
            skip = {f.name for f in ca.fields() if not f.compare}
            return self._all_eq((da[n], db[n]) for n in da if n not in skip)
        if (a.k in ("const", "enum") and b.k in ("seq", "new")) or (b.k in ("const", "enum") and a.k in ("seq", "new")) \
                or {a.k, b.k} == {"seq", "new"}:
            n = a if a.k == "new" else b
            if n.k == "new" and n.a[0] not in self.classes:
                return None
            if n.k == "new" and self.eq_method(self.classes[n.a[0]]):
                return self._inlined_eq(self.classes[n.a[0]], n, b if n is a else a)
            return False
        return None

    def _inlined_eq(self, c: ClassInfo, a: Term, b: Term) -> Optional[bool]:
        """The value of an explicit __eq__, when it does not depend on anything unknown."""
        if self._eq_depth > 6:
            return None
        self._eq_depth += 1
        st = State()
        st.cur, st.frames[0], st.mod = 0, {}, c.module
        try:
            outs = self.call_func(self.eq_method(c), [a, b], {}, st)
        except Unsupported:
            return None
        finally:
            self._eq_depth -= 1
        vals = {self.truth(s, v) if not isinstance(v, Raised) else None for s, v in outs}
        if vals == {TRUE}:
            return True
        if vals == {FALSE}:
            return False
        return None

    def _all_eq(self, pairs: Any) -> Optional[bool]:
        res: Optional[bool] = True
        for x, y in pairs:
            r = True if x is y and x.k not in ("unk", "rec", "last") else self.py_eq(x, y)
            if r is False:
                return False
            if r is None:
                res = None
        return res

    def mk_eq(self, st: State, a: Term, b: Term) -> Term:
        a, b = self.force(a), self.force(b)
        if a is b and a.k not in ("unk",):
            return TRUE
        r = self.py_eq(a, b)
        if r is not None:
            return TRUE if r else FALSE
        ground = ("const", "enum", "cls", "builtin")
        if a.k in ground and b.k not in ground:
            a, b = b, a
        if b is NONE:
            return self.mk_isinst(st, a, frozenset(["NoneType"]))
        fa, fb = self.freeze(st, a), self.freeze(st, b)
        if fa is fb:
            return TRUE
        r = self.py_eq(fa, fb)
        if r is not None:
            return TRUE if r else FALSE
        for x, y in ((fa, fb), (fb, fa)):
            # comparison with an empty container
            kind = None
            if y.k == "seq" and y.a[1] == () and y.a[0] != "gen":
                kind = y.a[0]
            elif y.k == "dict" and y.a[0] == ():
                kind = "dict"
            elif y is EMPTY:
                kind = "str"
            if kind is not None:
                ts = self.types(st, a if x is fa else b)
                if ts <= {kind}:
                    return self.neg(self.truth(st, a if x is fa else b))
        if fb.k == "const" and fb.a[0] == "bool" and self.types(st, a) <= {"bool"}:
            t = self.truth(st, a)
            return t if cval(fb) else self.neg(t)
        if fa.k == "app" and fa.a[0] == "len" and fb is const(0):
            return self.neg(self.truth(st, fa.a[1]))
        if fa.k == "app" and fa.a[0] == "type":
            at = self.exact_atom(fb)
            if at is not None:
                return self.mk_isinst(st, fa.a[1], frozenset([at]))
        if fb.k not in ground and show(fb) < show(fa):
            fa, fb = fb, fa
        return T("eq", fa, fb)

    def exact_atom(self, v: Term) -> Optional[str]:
        v = self.force(v)
        if v.k == "cls":
            return v.a[0] if v.a[0] in self.universe else None
        if v.k == "builtin" and v.a[0] in BUILTIN_ATOMS:
            return v.a[0]
        if v.k == "ext" and v.a[0] in ("datetime.datetime", "datetime.date"):
            return v.a[0].split(".")[-1]
        return None

    def mk_isinst(self, st: State, t: Term, atoms: frozenset) -> Term:
        if t.k == "rematch" and atoms == {"NoneType"}:
            return self.neg(t)
        return T("isinst", t, atoms)

    def intlike(self, st: State, t: Term) -> bool:
        return self.types(st, t) <= {"int", "bool"}

    def mk_lt(self, st: State, a: Term, b: Term) -> Term:
        if a.k == "const" and b.k == "const":
            try:
                return TRUE if cval(a) < cval(b) else FALSE
            except Exception:
                return T("lt", a, b)
        if a.k == "const" and b.k != "const":
            return self.neg(self.mk_le(st, b, a)) if self.numeric_only(st, b) else T("lt", a, b)
        if b.k == "const" and b.a[0] == "int" and self.intlike(st, a):
            return self.mk_le(st, a, const(cval(b) - 1))
        return T("lt", self.freeze(st, a), self.freeze(st, b))

    def numeric_only(self, st: State, t: Term) -> bool:
        return True

    def mk_le(self, st: State, a: Term, b: Term) -> Term:
        if a.k == "const" and b.k == "const":
            try:
                return TRUE if cval(a) <= cval(b) else FALSE
            except Exception:
                return T("le", a, b)
        if a.k == "const" and b.k != "const":
            return self.neg(self.mk_lt(st, b, a))
        if a.k == "app" and a.a[0] == "len" and b is const(0):
            return self.neg(self.truth(st, a.a[1]))
        if b.k != "const" and show(a) > show(b):
            # a <= b  <=>  not (b < a)
            return self.neg(T("lt", b, a))
        return T("le", self.freeze(st, a), self.freeze(st, b))

    def interval(self, st: State, t: Term) -> tuple:
        """(lo, hi) inclusive for ints, possibly None; only from recorded facts."""
        if t in st.num:
            return st.num[t]
        if t.k == "app" and t.a[0] == "len":
            lo = 0
            d = self.decide(st, self.truth(st, t.a[1])) if t.a[1].k != "app" else None
            if d is True:
                lo = 1
            hi = 0 if d is False else None
            return (lo, True, hi, True)
        sp = self.spec_of(st, t)
        if sp is not None and sp.num is not None:
            return sp.num
        return (None, True, None, True)

    def decide(self, st: State, c: Term) -> Optional[bool]:
        r = self._decide(st, c)
        if r is None and self.leaves:
            return self.decide_leaf(c)
        return r

    def _decide(self, st: State, c: Term) -> Optional[bool]:
        k = c.k
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        if k == "not":
            d = self.decide(st, c.a[0])
            return None if d is None else not d
        if c in st.preds:
            return st.preds[c]
        if k == "isinst":
            ts = self.types(st, c.a[0])
            if not ts & c.a[1]:
                return False
            if ts <= c.a[1]:
                return True
            if c.a[0] in st.oneof:
                hits = [bool(self.types(st, x) & c.a[1]) for x in st.oneof[c.a[0]]]
                if all(hits):
                    return True
                if not any(hits):
                    return False
            return None
        if k == "truthy":
            t = c.a[0]
            ts = self.types(st, t)
            if ts <= {"NoneType"}:
                return False
            if ts and all(self.always_truthy(a) for a in ts):
                return True
            if t in st.oneof:
                vals = {self.decide(st, self.truth(st, x)) for x in st.oneof[t]}
                if len(vals) == 1:
                    return vals.pop()
            sp = self.spec_of(st, t)
            if sp is not None and sp.truthy is not None and not (ts & {"NoneType"}):
                return sp.truthy
            if ts <= {"int", "bool", "float"}:
                lo, li, hi, hi_i = self.interval(st, t)
                if lo is not None and (lo > 0 or (lo == 0 and not li)):
                    return True
                if hi is not None and (hi < 0 or (hi == 0 and not hi_i)):
                    return True
            if t.k == "cat":
                for p in t.a:
                    if self.decide(st, T("truthy", p)) is True:
                        return True
            return None
        if k == "eq":
            a, b = c.a
            if a in st.oneof and b.k in ("const", "enum"):
                r = [self.py_eq(x, b) for x in st.oneof[a]]
                if all(x is True for x in r):
                    return True
                if all(x is False for x in r):
                    return False
            if b in st.notin.get(a, ()):
                return False
            sp = self.spec_of(st, a)
            if sp is not None and sp.oneof is not None and a not in st.oneof and b.k in ("const", "enum"):
                r = [self.py_eq(x, b) for x in sp.oneof]
                if all(x is False for x in r):
                    return False
                if all(x is True for x in r):
                    return True
            if a.k == "new" and b.k == "new" and a.a[0] != b.a[0]:
                return None
            ta, tb = self.types(st, a), self.types(st, b)
            num = {"int", "bool", "float"}
            if not (ta & tb) and not (ta & num and tb & num) and "other" not in ta | tb:
                if not any("." in x for x in ta | tb) or not (any("." in x for x in ta) and any("." in x for x in tb)):
                    return False
            if b.k == "const" and b.a[0] in ("int",) and ta <= num:
                lo, li, hi, hi_i = self.interval(st, a)
                if lo is not None and (cval(b) < lo):
                    return False
                if hi is not None and (cval(b) > hi):
                    return False
            if b is EMPTY and self.decide(st, self.truth(st, a)) is True:
                return False
            return None
        if k in ("lt", "le"):
            a, b = c.a
            if b.k == "const" and b.a[0] in ("int", "float", "bool"):
                v = cval(b)
                lo, li, hi, hi_i = self.interval(st, a)
                if a in st.oneof and all(x.k == "const" for x in st.oneof[a]):
                    try:
                        r = [(cval(x) < v) if k == "lt" else (cval(x) <= v) for x in st.oneof[a]]
                        if all(r):
                            return True
                        if not any(r):
                            return False
                    except TypeError:
                        pass
                if hi is not None and (hi < v or (hi == v and (k == "le" or not hi_i))):
                    return True
                if lo is not None and (lo > v or (lo == v and (k == "lt" or not li))):
                    return False
            return None
        if k == "range":
            t, lo, hi = c.a
            l1 = self.decide(st, self.mk_lt(st, t, const(lo)))
            l2 = self.decide(st, self.mk_lt(st, t, const(hi)))
            if l1 is False and l2 is True:
                return True
            if l1 is True or l2 is False:
                return False
            return None
        if k == "in":
            t, cont = c.a
            items = self.ground_items(st, cont)
            if items is not None:
                if t in st.oneof:
                    r = [any(self.py_eq(x, y) for y in items) for x in st.oneof[t]]
                    if all(r):
                        return True
                    if not any(r):
                        return False
                r2 = [self.decide(st, self.mk_eq(st, t, y)) for y in items]
                if any(x is True for x in r2):
                    return True
                if all(x is False for x in r2):
                    return False
            return None
        if k == "quant":
            kind, s, cases = c.a
            vals = set()
            for v, guards in cases:
                d = self.decide(st, v)
                if d is None and guards:
                    s2 = st.copy()
                    for g in guards:
                        self._put_fact(s2, g)
                    d = self.decide(s2, v)
                vals.add(d)
            if kind == "all" and vals <= {True}:
                return True
            if kind == "any" and vals <= {False}:
                return False
            if kind == "all" and vals == {False} and self.decide(st, self.truth(st, s)) is True:
                return False
            if kind == "any" and vals == {True} and self.decide(st, self.truth(st, s)) is True:
                return True
            return None
        return None

    def ground_items(self, st: State, cont: Term) -> Optional[list]:
        items = self.concrete_items(st, cont)
        if items is not None and all(x.k in ("const", "enum", "cls", "builtin") for x in items):
            return items
        return None

    def _settypes(self, st: State, t: Term, ts: frozenset) -> bool:
        if not ts:
            return False
        if ts != self.types(st, t):
            st.types[t] = ts
            if t.k == "app" and t.a[0] == "bool":
                pass
        return True

    def assume(self, st: State, c: Term, val: bool) -> bool:
        """Refine st with c == val; False when contradictory."""
        d = self.decide(st, c)
        if d is not None:
            return d == val
        k = c.k
        if k == "not":
            return self.assume(st, c.a[0], not val)
        if k == "isinst":
            t = c.a[0]
            ts = self.types(st, t)
            if t in st.oneof:
                keep = frozenset(x for x in st.oneof[t] if bool(self.types(st, x) & c.a[1]) == val)
                if not keep:
                    return False
                st.oneof[t] = keep
            return self._settypes(st, t, ts & c.a[1] if val else ts - c.a[1])
        if k == "truthy":
            t = c.a[0]
            ts = self.types(st, t)
            if val:
                ts = ts - {"NoneType"}
            else:
                ts = frozenset(a for a in ts if not self.always_truthy(a))
            if t in st.oneof:
                keep = frozenset(x for x in st.oneof[t] if self.decide(st, self.truth(st, x)) in (val, None))
                if not keep:
                    return False
                st.oneof[t] = keep
            if not self._settypes(st, t, ts):
                return False
            if not val and ts <= {"NoneType"}:
                return True
            st.preds[c] = val
            return True
        if k == "eq":
            a, b = c.a
            if b.k in ("const", "enum"):
                num = frozenset(["int", "bool", "float"])
                if val:
                    st.oneof[a] = frozenset([b])
                    tb = self.types(st, b)
                    ok = num if tb & num else tb
                    if a.k not in ("unk",):
                        if not self._settypes(st, a, self.types(st, a) & ok):
                            return False
                else:
                    if a in st.oneof:
                        st.oneof[a] = frozenset(x for x in st.oneof[a] if x is not b)
                        if not st.oneof[a]:
                            return False
                    elif b.k == "enum" and self.types(st, a) <= {b.a[0]}:
                        cls = self.classes[b.a[0]]
                        sp = self.spec_of(st, a)
                        dom = sp.oneof if sp is not None and sp.oneof is not None else [T("enum", cls.q, m) for m in cls.members]
                        st.oneof[a] = frozenset(m for m in dom if m is not b and m not in st.notin.get(a, ()))
                        if not st.oneof[a]:
                            return False
                    else:
                        st.notin[a] = st.notin.get(a, frozenset()) | {b}
                    if b is NONE:
                        return self._settypes(st, a, self.types(st, a) - {"NoneType"})
                return True
            st.preds[c] = val
            return True
        if k in ("lt", "le"):
            a, b = c.a
            st.preds[c] = val
            if b.k == "const" and b.a[0] in ("int", "float", "bool"):
                v = cval(b)
                lo, li, hi, hi_i = self.interval(st, a)
                if (k == "le") == val:
                    # a <= v  or  not (a < v): bound is inclusive
                    incl = True
                else:
                    incl = False
                if val:
                    if hi is None or v < hi or (v == hi and hi_i and not incl):
                        hi, hi_i = v, incl
                else:
                    if lo is None or v > lo or (v == lo and li and not incl):
                        lo, li = v, incl
                if self.intlike(st, a):
                    if lo is not None and not li and isinstance(lo, int):
                        lo, li = lo + 1, True
                    if hi is not None and not hi_i and isinstance(hi, int):
                        hi, hi_i = hi - 1, True
                if lo is not None and hi is not None and lo > hi:
                    return False
                st.num[a] = (lo, li, hi, hi_i)
                if a in st.oneof and all(x.k == "const" for x in st.oneof[a]):
                    try:
                        st.oneof[a] = frozenset(
                            x for x in st.oneof[a] if ((cval(x) < v) if k == "lt" else (cval(x) <= v)) == val)
                        if not st.oneof[a]:
                            return False
                    except TypeError:
                        pass
            return True
        if k == "range":
            t, lo, hi = c.a
            if val:
                return self.assume(st, self.mk_lt(st, t, const(lo)), False) and self.assume(st, self.mk_lt(st, t, const(hi)), True)
            st.preds[c] = False
            return True
        if k == "in":
            t, cont = c.a
            items = self.ground_items(st, cont)
            if items is not None and all(x.k in ("const", "enum") for x in items):
                if val:
                    if t in st.oneof:
                        keep = frozenset(x for x in st.oneof[t] if any(self.py_eq(x, y) for y in items))
                    else:
                        keep = frozenset(y for y in items if self.decide(st, self.mk_eq(st, t, y)) is not False)
                    if not keep:
                        return False
                    ts: set = set()
                    num = {"int", "float"}
                    for y in keep:
                        ty = set(self.types(st, y))
                        if ty & num:
                            ty |= num
                            if any(cval(z) in (0, 1) for z in keep if z.k == "const"):
                                ty |= {"bool"}
                        ts |= ty
                    if not self._settypes(st, t, self.types(st, t) & frozenset(ts)):
                        return False
                    st.oneof[t] = keep
                    return True
                for y in items:
                    if not self.assume(st, self.mk_eq(st, t, y), False):
                        return False
                return True
            st.preds[c] = val
            return True
        if k == "rematch":
            st.preds[c] = val
            if val:
                return self._settypes(st, c.a[2], self.types(st, c.a[2]) & {"str", "bytes"} or self.types(st, c.a[2]))
            return True
        if k == "quant":
            kind, s, cases = c.a
            st.preds[c] = val
            want = kind == "all"
            if val != want:
                return True
            # every element satisfies one of the cases whose value is `want`
            good = [(v, g) for v, g in cases if v is not (FALSE if want else TRUE)]
            if not good:
                # vacuous: the sequence is empty
                return self.assume(st, self.truth(st, s), False)
            deltas = []
            for v, guards in good:
                d = {g[0:2]: g[2] for g in guards}
                if v is not (TRUE if want else FALSE):
                    s2 = st.copy()
                    for g in guards:
                        self._put_fact(s2, g)
                    if not self.assume(s2, v, want):
                        continue
                    for n, kd in FACT_KINDS:
                        old, new = getattr(st, n), getattr(s2, n)
                        for t, x in new.items():
                            if old.get(t) != x:
                                d[(kd, t)] = x
                deltas.append(d)
            if not deltas:
                return self.assume(st, self.truth(st, s), False)
            self._apply_universal(st, s, deltas)
            return True
        st.preds[c] = val
        return True

    def _put_fact(self, st: State, g: tuple) -> None:
        kind, t, v = g
        name = {"types": "types", "pred": "preds", "oneof": "oneof", "notin": "notin", "num": "num"}[kind]
        getattr(st, name)[t] = v

    def _apply_universal(self, st: State, s: Term, deltas: list) -> None:
        """Each delta maps (kind, term over elem(s)) -> fact; join them and record on elem(s)."""
        e = elem(s)
        keys = set()
        for d in deltas:
            keys |= {k for k in d if contains(k[1], e)}
        for key in sorted(keys, key=lambda k: (k[0], show(k[1]))):
            kind, t = key
            vals = []
            skip = False
            for d in deltas:
                if key in d:
                    vals.append(d[key])
                elif kind == "types":
                    vals.append(self.types(st, t))
                else:
                    # vacuous when this case excludes the types the fact is about
                    subj = e
                    td = d.get(("types", subj))
                    others = [o.get(("types", subj)) for o in deltas if key in o]
                    if td is not None and all(x is not None and not (x & td) for x in others):
                        continue
                    skip = True
            if skip or not vals:
                continue
            if kind == "types":
                u = frozenset().union(*vals)
                if u != self.types(st, t) and u:
                    st.types[t] = u & self.types(st, t) or u
            elif kind == "oneof":
                st.oneof[t] = frozenset().union(*vals)
            elif kind == "pred":
                if len(set(vals)) == 1:
                    st.preds[t] = vals[0]
            elif kind == "num":
                if len(set(vals)) == 1:
                    st.num[t] = vals[0]
            elif kind == "notin":
                st.notin[t] = frozenset.intersection(*vals)

    def branch(self, st: State, c: Term) -> tuple:
        d = self.decide(st, c)
        if d is True:
            return [st], []
        if d is False:
            return [], [st]
        self.n_branches += 1
        t, f = st.copy(), st.copy()
        if has_unk(c):
            why = ("unkbranch", show(c)[:160])
            if why not in st.events:
                t.events = t.events + (why,)
                f.events = f.events + (why,)
        okt, okf = self.assume(t, c, True), self.assume(f, c, False)
        return ([t] if okt else []), ([f] if okf else [])

    # ------------------------------------------------------- merging of disjuncts

    def merge(self, outs: list) -> list:
        """Join disjuncts at a control-flow merge."""
        if len(outs) < 2:
            return outs
        nxt = [o for o in outs if o[1] == NEXT]
        rest = [o for o in outs if o[1] != NEXT]
        if len(nxt) > 1:
            nxt = self._merge_states(nxt)
        if len(nxt) + len(rest) > MAX_STATES:
            raise Unsupported(f"more than {MAX_STATES} disjuncts")
        return nxt + rest

    def _merge_states(self, outs: list) -> list:
        groups: dict = {}
        order: list = []
        # objects and frames that are the same in all of them need not be compared
        h0, f0 = outs[0][0].heap, outs[0][0].frames
        hd = sorted({k for o in outs[1:] for k, r in o[0].heap.items() if h0.get(k) is not r} | {k for o in outs[1:] for k in h0 if k not in o[0].heap})
        fd = sorted({k for o in outs[1:] for k, r in o[0].frames.items() if f0.get(k) is not r} | {k for o in outs[1:] for k in f0 if k not in o[0].frames})
        for o in outs:
            st = o[0]
            key = (tuple((k, tuple(st.frames[k].items())) for k in fd if k in st.frames),
                   tuple((k, r.kind, tuple(r.data.items()) if isinstance(r.data, dict) else r.data) for k, r in ((k, st.heap[k]) for k in hd if k in st.heap)),
                   tuple(st.over.items()), tuple(st.gvars.items()), st.events)
            if key not in groups:
                groups[key] = []
                order.append(key)
            groups[key].append(o)
        res: list = []
        for key in order:
            g = groups[key]
            cur: list = []
            for o in g:
                st = o[0]
                done = False
                for i, c in enumerate(cur):
                    m = self._join2(c[0], st)
                    if m is not None:
                        cur[i] = (m,) + tuple(c[1:])
                        done = True
                        break
                if not done:
                    cur.append(o)
            res.extend(cur)
        return res

    @staticmethod
    def _facts(st: State) -> dict:
        out: dict = {}
        for n in ("types", "oneof", "notin", "preds", "num"):
            for t, v in getattr(st, n).items():
                out[(n, t)] = v
        return out

    def _join2(self, a: State, b: State) -> Optional[State]:
        """Exact join: identical facts, or facts that differ only about one
        subject that is None on one side (an optional part)."""
        fa, fb = self._facts(a), self._facts(b)
        diff = [k for k in set(fa) | set(fb) if fa.get(k) != fb.get(k)]
        if not diff:
            return a
        for x, y in ((a, b), (b, a)):
            fx, fy = (fa, fb) if x is a else (fb, fa)
            cands = [k[1] for k in diff if k[0] == "types" and fx.get(k) == frozenset(["NoneType"])]
            for t in cands:
                if all(contains(k[1], t) for k in diff) and "NoneType" not in self.types(y, t):
                    # x: t is None and nothing else known about it
                    extra = [k for k in diff if k in fx and k[1] is not t]
                    if extra:
                        continue
                    m = y.copy()
                    m.types[t] = self.types(y, t) | {"NoneType"}
                    if t in m.oneof:
                        m.oneof[t] = m.oneof[t] | {NONE}
                    # predicates on t hold vacuously when t is None, except truthiness
                    tr = T("truthy", t)
                    if m.preds.get(tr) is True:
                        del m.preds[tr]
                        m.preds[T("nonempty", t)] = True
                    elif tr in m.preds:
                        pass
                    return m
        return None

    # -------------------------------------------------------------- names

    def store_name(self, name: str, v: Term, st: State) -> None:
        if st.fn is not None and name in st.fn.globals:
            st.event("gwrite", f"{st.mod.name}.{name}", "global statement")
            st.gvars[(st.mod.name, name)] = v
            return
        if st.fn is not None and name in st.fn.nonlocals:
            fid = st.fn.closure
            while fid is not None:
                if name in st.frames.get(fid, {}):
                    st.frames[fid][name] = v
                    return
                fid = st.frames[fid].get("__closure__", NONE)
                fid = fid if isinstance(fid, int) else None
        st.frames[st.cur][name] = v

    def load_name(self, name: str, st: State) -> Term:
        fr = st.frames.get(st.cur, {})
        if name in fr:
            return self.force(fr[name])
        fn = st.fn
        fid = fn.closure if fn is not None else None
        while fid is not None:
            f2 = st.frames.get(fid)
            if f2 is None:
                break
            if name in f2:
                return self.force(f2[name])
            fid = f2.get("__closure__")
        if st.mod is not None:
            if (st.mod.name, name) in st.gvars:
                return st.gvars[(st.mod.name, name)]
            if name in st.mod.ns:
                return self.force(st.mod.ns[name])
        if hasattr(builtins, name):
            b = getattr(builtins, name)
            if isinstance(b, type) and issubclass(b, BaseException):
                return T("builtin", name)
            if name in ("NotImplemented", "Ellipsis"):
                return T("ext", name)
            return T("builtin", name)
        raise Unsupported(f"name {name} is not defined at {self.loc(st)}")

    def loc(self, st: State, node: Any = None) -> str:
        rel = st.mod.rel if st.mod else "?"
        line = getattr(node, "lineno", None) or getattr(self, "_line", 0)
        return f"{rel}:{line}"

    # -------------------------------------------------------------- evaluation helpers

    def bind(self, rs: Res, f: Callable) -> Res:
        out: list = []
        for s, v in rs:
            if isinstance(v, Raised):
                out.append((s, v))
            else:
                out.extend(f(s, v))
        return out

    def evs(self, es: list, st: State) -> list:
        """Evaluate expressions left to right -> [(state, [values]) | (state, Raised)]."""
        acc: list = [(st, [])]
        for e in es:
            nxt: list = []
            for s, vs in acc:
                if isinstance(vs, Raised):
                    nxt.append((s, vs))
                    continue
                for s2, v in self.ev(e, s):
                    nxt.append((s2, v) if isinstance(v, Raised) else (s2, vs + [v]))
            acc = nxt
        return acc

    def ev(self, e: ast.expr, st: State) -> Res:
        self._line = getattr(e, "lineno", getattr(self, "_line", 0))
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__} at {self.loc(st, e)}")
        return m(e, st)

    def cond(self, e: ast.expr, st: State) -> tuple:
        """Evaluate e as a condition -> (true states, false states, raised)."""
        if isinstance(e, ast.BoolOp):
            ts, fs, ex = [], [], []
            cur = [st]
            is_and = isinstance(e.op, ast.And)
            for x in e.values:
                nxt: list = []
                for s in cur:
                    t, f, r = self.cond(x, s)
                    ex += r
                    if is_and:
                        nxt += t
                        fs += f
                    else:
                        nxt += f
                        ts += t
                cur = nxt
            if is_and:
                ts += cur
            else:
                fs += cur
            return ts, fs, ex
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t, f, r = self.cond(e.operand, st)
            return f, t, r
        ts, fs, ex = [], [], []
        for s, v in self.ev(e, st):
            if isinstance(v, Raised):
                ex.append((s, v))
                continue
            for s2, c in self.truth_of(s, v):
                if isinstance(c, Raised):
                    ex.append((s2, c))
                    continue
                a, b = self.branch(s2, c)
                ts += a
                fs += b
        return ts, fs, ex

    def truth_of(self, st: State, v: Term) -> Res:
        v = self.force(v)
        if v.k == "obj" and self.rec(st, v).kind == "inst":
            c = self.rec(st, v).cls
            for name in ("__bool__", "__len__"):
                r = c.lookup(name)
                if r is not None:
                    return self.bind(self.call_method(v, name, [], {}, st), lambda s, x: [(s, self.truth(s, x))])
        return [(st, self.truth(st, v))]

    # -------------------------------------------------------------- expressions

    def ev_Constant(self, e: ast.Constant, st: State) -> Res:
        if e.value is Ellipsis:
            return [(st, T("ext", "Ellipsis"))]
        return [(st, const(e.value))]

    def ev_Name(self, e: ast.Name, st: State) -> Res:
        try:
            return [(st, self.load_name(e.id, st))]
        except Unsupported:
            if st.mod is not None and st.mod.tree is not None and e.id not in self.bound_names(st.mod):
                return [(st, Raised("NameError", self.loc(st, e)))]
            raise

    def bound_names(self, m: Module) -> set:
        """Every name that something in the module binds (in any scope); {} stands for an unknown set."""
        r = m.__dict__.get("bound")
        if r is None:
            r = m.__dict__["bound"] = set()
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    r.add(n.id)
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                    r.add(n.name)
                elif isinstance(n, ast.arg):
                    r.add(n.arg)
                elif isinstance(n, ast.alias):
                    r.add((n.asname or n.name).split(".")[0])
                else:
                    r |= {x for x in (getattr(n, a, None) for a in ("name", "rest")) if isinstance(x, str)}
        return r if "*" not in r else _Everything()

    def ev_Attribute(self, e: ast.Attribute, st: State) -> Res:
        name = self.mangle(e.attr, st.fn.cls if st.fn is not None else None)
        return self.bind(self.ev(e.value, st), lambda s, v: self.getattr(v, name, s, e))

    def ev_NamedExpr(self, e: ast.NamedExpr, st: State) -> Res:
        def f(s: State, v: Term) -> Res:
            self.store_name(e.target.id, v, s)
            return [(s, v)]

        return self.bind(self.ev(e.value, st), f)

    def ev_IfExp(self, e: ast.IfExp, st: State) -> Res:
        t, f, ex = self.cond(e.test, st)
        out = list(ex)
        for s in t:
            out += self.ev(e.body, s)
        for s in f:
            out += self.ev(e.orelse, s)
        return self.merge_values(out)

    def merge_values(self, rs: Res) -> Res:
        if len(rs) < 2:
            return rs
        groups: dict = {}
        out: list = []
        for s, v in rs:
            if isinstance(v, Raised):
                out.append((s, v))
            else:
                groups.setdefault(v, []).append((s, NEXT, v))
        for v, g in groups.items():
            for o in self._merge_states(g):
                out.append((o[0], v))
        return out

    def ev_BoolOp(self, e: ast.BoolOp, st: State) -> Res:
        is_and = isinstance(e.op, ast.And)

        def go(i: int, s: State) -> Res:
            if i == len(e.values) - 1:
                return self.ev(e.values[i], s)

            def f(s2: State, v: Term) -> Res:
                out: Res = []
                for s3, c in self.truth_of(s2, v):
                    if isinstance(c, Raised):
                        out.append((s3, c))
                        continue
                    t, fl = self.branch(s3, c)
                    stop, go_on = (fl, t) if is_and else (t, fl)
                    for x in stop:
                        # a condition value is known on this branch
                        vv = v
                        if v.k in COND_KINDS and v.k != "rematch":
                            vv = FALSE if is_and else TRUE
                        elif v.k == "truthy":
                            vv = v
                        out.append((x, vv))
                    for x in go_on:
                        out += go(i + 1, x)
                return out

            return self.bind(self.ev(e.values[i], s), f)

        return self.merge_values(go(0, st))

    def ev_UnaryOp(self, e: ast.UnaryOp, st: State) -> Res:
        def f(s: State, v: Term) -> Res:
            if isinstance(e.op, ast.Not):
                return self.bind(self.truth_of(s, v), lambda s2, c: [(s2, self.neg(c))])
            op = {ast.USub: "-", ast.UAdd: "+", ast.Invert: "~"}[type(e.op)]
            if v.k == "const":
                try:
                    x = cval(v)
                    return [(s, const(-x if op == "-" else +x if op == "+" else ~x))]
                except Exception:
                    pass
            return [(s, T("un", op, v))]

        return self.bind(self.ev(e.operand, st), f)

    BINOPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.Mod: "%", ast.FloorDiv: "//",
              ast.BitOr: "|", ast.BitAnd: "&", ast.BitXor: "^", ast.Pow: "**", ast.LShift: "<<", ast.RShift: ">>",
              ast.MatMult: "@"}

    def ev_BinOp(self, e: ast.BinOp, st: State) -> Res:
        op = self.BINOPS[type(e.op)]
        out: Res = []
        for s, vs in self.evs([e.left, e.right], st):
            if isinstance(vs, Raised):
                out.append((s, vs))
            else:
                out += self.binop(op, vs[0], vs[1], s)
        return out

    def binop(self, op: str, a: Term, b: Term, st: State) -> Res:
        a, b = self.force(a), self.force(b)
        if a.k == "const" and b.k == "const":
            try:
                x, y = cval(a), cval(b)
                r = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "/": lambda: x / y,
                     "%": lambda: x % y, "//": lambda: x // y, "**": lambda: x ** y, "|": lambda: x | y,
                     "&": lambda: x & y, "^": lambda: x ^ y, "<<": lambda: x << y, ">>": lambda: x >> y}[op]()
                return [(st, const(r))]
            except Exception:
                return [(st, unk("constant operation"))]
        ta, tb = self.types(st, a), self.types(st, b)
        if op == "+":
            if ta <= {"str"} or tb <= {"str"}:
                return [(st, cat(a, b))]
            sa, sb = self.as_segs(st, a), self.as_segs(st, b)
            if ta <= {"list"} and sb is not None and sa is not None:
                return [(st, self.alloc(st, "list", norm_segs(sa + sb, "list")))]
            if ta <= {"tuple"} and sa is not None and sb is not None:
                return [(st, seq("tuple", *(sa + sb)))]
        if op == "%" and a.k == "const" and a.a[0] == "str":
            return self.percent(a, b, st)
        if op == "%" and ta <= {"str"}:
            return [(st, unk("percent formatting"))]
        if op == "|":
            sa, sb = self.as_segs(st, a), self.as_segs(st, b)
            if (ta <= {"set"} or tb <= {"set"}) and sa is not None and sb is not None:
                return [(st, self.alloc(st, "set", norm_segs([self.freeze(st, x) for x in (*sa, *sb)], "set")))]
            if ta <= {"dict"} and tb <= {"dict"}:
                return [(st, self.alloc(st, "dict", self.dict_entries(st, a) + self.dict_entries(st, b)))]
        if op in ("-", "&", "^") and ta <= {"set"} and tb <= {"set"}:
            src = {"-": "{x for x in aa if x not in bb}", "&": "{x for x in aa if x in bb}",
                   "^": "{*(x for x in aa if x not in bb), *(x for x in bb if x not in aa)}"}[op]
            return self.desugar(src, {"aa": a, "bb": b}, st)
        if op == "*" and a.k == "const" and a.a[0] == "str" and b.k == "const":
            return [(st, const(cval(a) * cval(b)))]
        if op == "*" and ta <= {"int", "float"} and tb <= {"int", "float"}:
            for x, y in ((a, b), (b, a)):
                if x is const(-1) and y.k != "const":
                    return [(st, T("un", "-", y))]
                if x is const(1) and y.k != "const":
                    return [(st, y)]
        m = {"+": "__add__", "-": "__sub__", "|": "__or__", "&": "__and__"}.get(op)
        if m and len(ta) == 1 and "." in next(iter(ta)) and self.classes[next(iter(ta))].lookup(m):
            return self.call_method(a, m, [b], {}, st)
        x, y = self.freeze(st, a), self.freeze(st, b)
        if op == "-" and x.k == "app" and x.a[0] == "naive" and y is T("app", "utcoffset", x.a[1]):
            return [(st, T("app", "naive_utc", x.a[1]))]
        return [(st, T("bin", op, x, y))]

    def percent(self, a: Term, b: Term, st: State) -> Res:
        s = cval(a)
        items = self.concrete_items(st, b) if self.types(st, b) <= {"tuple"} else [b]
        if items is None:
            return [(st, unk("percent formatting"))]
        parts: list = []
        i = 0
        rs: Res = [(st, None)]
        import re as _re
        pos = 0
        pend: list = []
        for m in _re.finditer(r"%(%|[sdrfi]|\.\d+f)", s):
            pend.append(const(s[pos:m.start()]))
            pos = m.end()
            code = m.group(1)
            if code == "%":
                pend.append(const("%"))
                continue
            if i >= len(items):
                return [(st, unk("percent formatting"))]
            pend.append((items[i], code))
            i += 1
        pend.append(const(s[pos:]))
        out_states = [(st, [])]
        for p in pend:
            nxt = []
            for s1, acc in out_states:
                if isinstance(p, Term):
                    nxt.append((s1, acc + [p]))
                else:
                    conv, spec = ("", "")
                    if p[1] == "r":
                        conv = "r"
                    elif p[1] in ("d", "i"):
                        spec = "d"
                    elif p[1].endswith("f"):
                        spec = p[1]
                    for s2, v in self.to_str(p[0], spec, conv, s1):
                        nxt.append((s2, v if isinstance(v, Raised) else acc + [v]))
            out_states = nxt
        return [(s1, acc if isinstance(acc, Raised) else cat(*acc)) for s1, acc in out_states]

    def ev_Compare(self, e: ast.Compare, st: State) -> Res:
        if len(e.ops) > 1:
            # a < b < c  ==> a < b and b < c
            parts: list = []
            left = e.left
            for op, r in zip(e.ops, e.comparators):
                parts.append(ast.copy_location(ast.Compare(left, [op], [r]), e))
                left = r
            return self.ev_BoolOp(ast.copy_location(ast.BoolOp(ast.And(), parts), e), st)
        out: Res = []
        for s, vs in self.evs([e.left, e.comparators[0]], st):
            if isinstance(vs, Raised):
                out.append((s, vs))
            else:
                out += self.compare(type(e.ops[0]).__name__, vs[0], vs[1], s)
        return out

    def compare(self, op: str, a: Term, b: Term, st: State) -> Res:
        a, b = self.force(a), self.force(b)
        if op in ("Is", "IsNot", "Eq", "NotEq"):
            pos = op in ("Is", "Eq")
            if op in ("Eq", "NotEq"):
                r = self.user_eq(a, b, st)
                if r is None:
                    r = self.parts_eq(a, b, st)
                if r is not None:
                    return [(s, v if isinstance(v, Raised) else (v if pos else self.neg(v))) for s, v in r]
            if op in ("Is", "IsNot"):
                x, y = (b, a) if a is TRUE or a is FALSE else (a, b)
                if a.k == "const" and b.k == "const" and a.a[0] != b.a[0] or self.apart(a, b) or self.apart(b, a):
                    return [(st, FALSE if pos else TRUE)]
                if y is TRUE or y is FALSE:
                    # identity with a boolean: type and value
                    ts = self.types(st, x)
                    if not ts <= {"bool"}:
                        t, f = self.branch(st, self.mk_isinst(st, x, frozenset(["bool"])))
                        out: Res = []
                        for s in t:
                            c = self.mk_eq(s, x, y)
                            out.append((s, c if pos else self.neg(c)))
                        for s in f:
                            out.append((s, FALSE if pos else TRUE))
                        return out
            c = self.mk_eq(st, a, b)
            return [(st, c if pos else self.neg(c))]
        if op in ("Lt", "Gt", "LtE", "GtE"):
            if self.types(st, a) <= {"set"} and self.types(st, b) <= {"set"}:
                sub, sup = "all(x in bb for x in aa)", "all(x in aa for x in bb)"
                return self.desugar({"LtE": sub, "GtE": sup, "Lt": f"{sub} and not {sup}",
                                     "Gt": f"{sup} and not {sub}"}[op], {"aa": a, "bb": b}, st)
            if op == "Lt":
                c = self.mk_lt(st, a, b)
            elif op == "Gt":
                c = self.mk_lt(st, b, a)
            elif op == "LtE":
                c = self.mk_le(st, a, b)
            else:
                c = self.mk_le(st, b, a)
            return [(st, c)]
        if op in ("In", "NotIn"):
            c = self.mk_in(st, a, b)
            return [(st, c if op == "In" else self.neg(c))]
        raise Unsupported(f"comparison {op}")

    @staticmethod
    def apart(a: Term, b: Term) -> bool:
        """a was made during the analysed run, b is part of its input: not the same object."""
        if a.k != "obj":
            return False
        while b.k in ("attr", "elem"):
            b = b.a[0]
        return b.k == "sym"

    def parts_eq(self, a: Term, b: Term, st: State) -> Optional[Res]:
        """Two sequences of known length are compared element by element."""
        xs, ys = self.as_parts(st, a), self.as_parts(st, b)
        if xs is None or ys is None or xs[0] != ys[0] or len(xs[1]) != len(ys[1]) or a is b:
            return None
        if self.py_eq(self.freeze(st, a), self.freeze(st, b)) is not None:
            return None
        out: Res = []
        live = [st]
        for x, y in zip(xs[1], ys[1]):
            nxt = []
            for s in live:
                for s2, v in self.compare("Eq", x, y, s):
                    if isinstance(v, Raised):
                        out.append((s2, v))
                        continue
                    t, f = self.branch(s2, v)
                    out += [(s3, FALSE) for s3 in f]
                    nxt += t
            live = nxt
        return out + [(s, TRUE) for s in live]

    def as_parts(self, st: State, v: Term) -> Optional[tuple]:
        v = self.force(v)
        if v.k == "obj" and self.rec(st, v).kind == "list":
            kind, segs = "list", self.rec(st, v).data
        elif v.k == "seq" and v.a[0] in ("list", "tuple"):
            kind, segs = v.a[0], v.a[1]
        else:
            return None
        if not all(x.k == "one" for x in segs):
            return None
        return kind, [x.a[0] for x in segs]

    def user_eq(self, a: Term, b: Term, st: State) -> Optional[Res]:
        """Inline an explicit __eq__ of a package class."""
        for x, y in ((a, b), (b, a)):
            if x.k == "obj" and self.rec(st, x).kind == "inst":
                c = self.rec(st, x).cls
                r = self.eq_method(c)
                if r is not None:
                    return self.call_func(r, [x, y], {}, st)
        return None

    def eq_method(self, c: ClassInfo) -> Optional[FuncInfo]:
        for k in c.mro():
            if not isinstance(k, ClassInfo):
                continue
            if "__eq__" in k.ns:
                return k.ns["__eq__"].a[0] if k.ns["__eq__"].k == "func" else None
            if k.dc is not None and k.dc.get("eq"):
                return None
        return None

    def mk_in(self, st: State, a: Term, b: Term) -> Term:
        a, b = self.force(a), self.force(b)
        if b.k == "const" and b.a[0] == "str" and a.k == "const":
            return TRUE if cval(a) in cval(b) else FALSE
        items = self.concrete_items(st, b)
        if items is not None:
            if a.k in ("const", "enum", "cls", "builtin") and all(x.k in ("const", "enum", "cls", "builtin") for x in items):
                return TRUE if any(self.py_eq(a, x) for x in items) else FALSE
            if a.k == "app" and a.a[0] == "type":
                ats = [self.exact_atom(x) for x in items]
                if all(x is not None for x in ats):
                    return self.mk_isinst(st, a.a[1], frozenset(ats))
            if len(items) == 0:
                return FALSE
            if len(items) == 1:
                return self.mk_eq(st, a, items[0])
            if any(self.freeze(st, x) is self.freeze(st, a) for x in items):
                return TRUE
        if b.k == "app" and b.a[0] == "range" and b.a[3] == 1 and b.a[1].k == "const" and b.a[2].k == "const":
            return T("range", a, cval(b.a[1]), cval(b.a[2]))
        if b.k == "app" and b.a[0] == "keys":
            b = b.a[1]
        return T("in", self.freeze(st, a), self.freeze(st, b))

    # ---- strings

    def ev_JoinedStr(self, e: ast.JoinedStr, st: State) -> Res:
        acc: list = [(st, [])]
        for p in e.values:
            nxt: list = []
            for s, parts in acc:
                if isinstance(parts, Raised):
                    nxt.append((s, parts))
                elif isinstance(p, ast.Constant):
                    nxt.append((s, parts + [const(p.value)]))
                else:
                    for s2, v in self.ev_FormattedValue(p, s):
                        nxt.append((s2, v if isinstance(v, Raised) else parts + [v]))
            acc = nxt
        return [(s, p if isinstance(p, Raised) else cat(*p)) for s, p in acc]

    def ev_FormattedValue(self, e: ast.FormattedValue, st: State) -> Res:
        conv = {-1: "", 115: "s", 114: "r", 97: "a"}[e.conversion]
        if e.format_spec is None:
            specs: Res = [(st, EMPTY)]
        else:
            specs = self.ev(e.format_spec, st)

        def f(s: State, sp: Term) -> Res:
            if sp.k != "const":
                return [(s, unk("computed format spec"))]
            return self.bind(self.ev(e.value, s), lambda s2, v: self.to_str(v, cval(sp), conv, s2))

        return self.bind(specs, f)

    def to_str(self, v: Term, spec: str, conv: str, st: State) -> Res:
        v = self.force(v)
        ts = self.types(st, v)
        if conv == "r" and spec == "" and ts <= {"int", "float", "bool", "NoneType"}:
            conv = ""
        if spec == "s" and ts <= {"str"} and conv in ("", "s"):
            spec = ""
        if spec == "" and conv in ("", "s"):
            if v.k == "obj" and self.rec(st, v).kind == "inst":
                c = self.rec(st, v).cls
                for n in ("__format__", "__str__", "__repr__") if conv == "" else ("__str__", "__repr__"):
                    r = c.lookup(n)
                    if r is not None and r[1].k == "func":
                        return self.call_method(v, n, [EMPTY] if n == "__format__" else [], {}, st)
            if v is NONE:
                return [(st, const("None"))]
            if v.k == "enum":
                return [(st, T("fmt", v, "", ""))]
            if v.k == "un" and v.a[0] == "-" and v.a[1] in self.leaf_float.values():
                return [(st, cat(const("-"), fmt(v.a[1], "", "", False)))]
        return [(st, fmt(self.freeze(st, v), spec, conv, ts <= {"str"}))]

    # ---- displays

    def ev_Tuple(self, e: ast.Tuple, st: State) -> Res:
        return self._display(e.elts, st, lambda s, segs: seq("tuple", *segs))

    def ev_List(self, e: ast.List, st: State) -> Res:
        return self._display(e.elts, st, lambda s, segs: self.alloc(s, "list", norm_segs(segs, "list")))

    def ev_Set(self, e: ast.Set, st: State) -> Res:
        return self._display(e.elts, st, lambda s, segs: self.alloc(s, "set", norm_segs(segs, "set")))

    def _display(self, elts: list, st: State, mk: Callable) -> Res:
        acc: list = [(st, [])]
        for x in elts:
            nxt: list = []
            star = isinstance(x, ast.Starred)
            for s, segs in acc:
                if isinstance(segs, Raised):
                    nxt.append((s, segs))
                    continue
                for s2, v in self.ev(x.value if star else x, s):
                    if isinstance(v, Raised):
                        nxt.append((s2, v))
                    elif star:
                        nxt.append((s2, segs + list(self.iter_segs(s2, v))))
                    else:
                        nxt.append((s2, segs + [one(v)]))
            acc = nxt
        return [(s, segs if isinstance(segs, Raised) else mk(s, tuple(segs))) for s, segs in acc]

    def ev_Dict(self, e: ast.Dict, st: State) -> Res:
        acc: list = [(st, ())]
        for k, v in zip(e.keys, e.values):
            nxt: list = []
            for s, ent in acc:
                if isinstance(ent, Raised):
                    nxt.append((s, ent))
                    continue
                if k is None:
                    for s2, d in self.ev(v, s):
                        nxt.append((s2, d) if isinstance(d, Raised) else (s2, self.dict_merge(s2, ent, self.dict_entries(s2, d))))
                else:
                    for s2, kv in self.evs([k, v], s):
                        nxt.append((s2, kv) if isinstance(kv, Raised) else (s2, self.dict_merge(s2, ent, (T("entry", self.freeze(s2, kv[0]), kv[1]),))))
            acc = nxt
        return [(s, ent if isinstance(ent, Raised) else self.alloc(s, "dict", ent)) for s, ent in acc]

    def dict_merge(self, st: State, ent: tuple, new: tuple) -> tuple:
        out = list(ent)
        for n in new:
            if n.k == "entry" and n.a[0].k in ("const", "enum", "cls", "builtin"):
                for i, o in enumerate(out):
                    if o.k == "entry" and o.a[0] is n.a[0]:
                        out[i] = n
                        break
                else:
                    out.append(n)
            else:
                out.append(n)
        return tuple(out)

    def dict_entries(self, st: State, d: Term) -> tuple:
        d = self.force(d)
        if d.k == "obj" and self.rec(st, d).kind == "dict":
            return self.rec(st, d).data
        if d.k == "dict":
            return d.a[0]
        return (spread(d),)

    def ev_Lambda(self, e: ast.Lambda, st: State) -> Res:
        fi = self.make_func(e, st, None, "<lambda>")
        return [(st, T("func", fi))]

    def ev_Starred(self, e: ast.Starred, st: State) -> Res:
        raise Unsupported("starred expression")

    def ev_Await(self, e: Any, st: State) -> Res:
        raise Unsupported("await")

    def ev_Slice(self, e: ast.Slice, st: State) -> Res:
        parts = [e.lower, e.upper, e.step]
        out: Res = []
        for s, vs in self.evs([p if p is not None else ast.Constant(None) for p in parts], st):
            out.append((s, vs if isinstance(vs, Raised) else T("slicev", *vs)))
        return out

    def ev_Subscript(self, e: ast.Subscript, st: State) -> Res:
        out: Res = []
        for s, vs in self.evs([e.value, e.slice], st):
            if isinstance(vs, Raised):
                out.append((s, vs))
            else:
                out += self.getitem(vs[0], vs[1], s)
        return out

    def getitem(self, v: Term, i: Term, st: State) -> Res:
        v, i = self.force(v), self.force(i)
        if i.k == "const" and i.a[0] == "int" and cval(i) < 0:
            items = self.concrete_items(st, v)
            if items is not None and -cval(i) <= len(items):
                return [(st, items[cval(i)])]
        if v.k == "const" and i.k == "const":
            try:
                return [(st, const(cval(v)[cval(i)]))]
            except Exception:
                return [(st, Raised("IndexError", self.loc(st)))]
        if i.k == "slicev":
            return self.getslice(v, i, st)
        if v.k == "cls" and v.a[0] in self.classes and self.classes[v.a[0]].is_enum:
            q, ms = v.a[0], self.classes[v.a[0]].members
            if i.k == "const":
                return [(st, T("enum", q, cval(i)) if cval(i) in ms else Raised("KeyError", self.loc(st)))]
            if i.k == "unk":
                return [(st, i)]
            return self.dict_get(T("dict", tuple(T("entry", const(n), T("enum", q, n)) for n in ms)), i, None, st)
        # class subscription: Union[...], Sequence[...], Mapping[...]
        if v.k in ("ext", "cls", "builtin"):
            return [(st, T("item", v, self.freeze(st, i)))]
        if v.k in ("obj", "dict") and (v.k == "dict" or self.rec(st, v).kind == "dict"):
            return self.dict_get(v, i, None, st)
        if v.k == "obj" and self.rec(st, v).kind == "inst":
            return self.call_method(v, "__getitem__", [i], {}, st)
        segs = self.as_segs(st, v)
        if segs is not None and i.k == "const" and i.a[0] == "int":
            n = cval(i)
            if n >= 0:
                for s in segs:
                    if s.k == "one":
                        if n == 0:
                            return [(st, s.a[0])]
                        n -= 1
                    elif s.k == "spread":
                        return [(st, T("item", s.a[0], const(n)))]
                    elif s.k == "for" and len(s.a[1]) == 1 and len(s.a[1][0][0]) == 1 and s.a[1][0][0][0].k == "one":
                        body = s.a[1][0][0][0].a[0]
                        src = T("item", s.a[0], const(n))
                        e0 = elem(s.a[0])
                        return [(st, subst(body, lambda x: src if x is e0 else None))]
                    else:
                        break
                else:
                    return [(st, Raised("IndexError", self.loc(st)))]
        iv = self.freeze(st, i)
        if iv.k == "idx":  # index ranging over a sequence
            return [(st, self.idx_item(st, v, iv))]
        fv = self.freeze(st, v)
        t = T("item", fv, iv)
        if (fv, iv) in st.over:
            return [(st, st.over[(fv, iv)])]
        return [(st, t)]

    def idx_item(self, st: State, v: Term, iv: Term) -> Term:
        """v[i] where i ranges over range(k, len(s))."""
        fv = self.freeze(st, v)
        if iv.a[0] is fv:
            return iv.a[1]
        return T("item", fv, iv)

    def getslice(self, v: Term, i: Term, st: State) -> Res:
        lo, hi, step = i.a
        if v.k == "const" and all(x.k == "const" for x in i.a):
            return [(st, const(cval(v)[cval(lo):cval(hi):cval(step)]))]
        items = self.concrete_items(st, v)
        if items is not None and all(x.k == "const" for x in i.a) and self.types(st, v) <= {"list", "tuple"}:
            sub = items[cval(lo):cval(hi):cval(step)]
            if self.types(st, v) <= {"list"}:
                return [(st, self.alloc(st, "list", tuple(one(x) for x in sub)))]
            return [(st, seq("tuple", *[one(x) for x in sub]))]
        fv = self.freeze(st, v)
        if fv.k == "cat" and step is NONE:
            # cut constant text off the ends
            n = 0 if lo is NONE else cval(lo) if lo.k == "const" else -1
            m = 0 if hi is NONE else -cval(hi) if hi.k == "const" else -1
            first, last = fv.a[0], fv.a[-1]
            if isinstance(n, int) and isinstance(m, int) and n >= 0 and m >= 0 and (hi is NONE or m > 0) \
                    and (n == 0 or (first.k == "const" and len(cval(first)) >= n)) and (m == 0 or (last.k == "const" and len(cval(last)) >= m)):
                ps = list(fv.a)
                if n:
                    ps[0] = const(cval(first)[n:])
                if m:
                    ps[-1] = const(cval(last)[:-m])
                return [(st, cat(*ps))]
        if self.types(st, v) <= {"str", "bytes"}:
            if step is NONE and lo in (NONE, const(0)) and hi.k == "app" and hi.a[0] in ("find", "index") and hi.a[1] is fv and len(hi.a) == 3:
                t, f = self.branch(st, self.mk_in(st, hi.a[2], v))
                return [(s, T("app", "before", fv, hi.a[2])) for s in t] + [(s, T("app", "strslice", fv, lo, hi, step)) for s in f]
            if step is NONE and hi is NONE and lo.k == "bin" and lo.a[0] == "+" and lo.a[2] is const(1) and lo.a[1].k == "app" \
                    and lo.a[1].a[0] in ("find", "index") and lo.a[1].a[1] is fv and len(lo.a[1].a) == 3:
                t, f = self.branch(st, self.mk_in(st, lo.a[1].a[2], v))
                return [(s, T("app", "after", fv, lo.a[1].a[2])) for s in t] + [(s, T("app", "strslice", fv, lo, hi, step)) for s in f]
            return [(st, T("app", "strslice", fv, lo, hi, step))]
        if step is NONE and hi is NONE and (lo is NONE or (lo.k == "const" and cval(lo) >= 0)):
            n = 0 if lo is NONE else cval(lo)
            segs = self.as_segs(st, v)
            if n == 0:
                base = spread(fv) if segs is None else None
                if self.types(st, v) <= {"tuple"}:
                    return [(st, seq("tuple", *(segs or (spread(fv),))))]
                return [(st, self.alloc(st, "list", norm_segs(segs if segs is not None else (spread(fv),), "list")))]
            if segs is not None and all(s.k == "one" for s in segs[:n]) and len(segs) >= n:
                return [(st, self.alloc(st, "list", segs[n:]))]
            return [(st, T("slice", fv, n, None))]
        r = T("app", "slice", fv, lo, hi, step)
        if self.types(st, v) <= {"list", "tuple", "otherseq"}:
            st.types[r] = self.types(st, v)
            st.event("unkbranch", f"slice of {show(fv)[:100]}")
        return [(st, r)]

    def dict_get(self, d: Term, key: Term, default: Optional[Term], st: State) -> Res:
        ents = self.dict_entries(st, d)
        key = self.freeze(st, key)
        if key in st.oneof and len(st.oneof[key]) == 1 and key.k not in ("const", "enum"):
            key = next(iter(st.oneof[key]))
        ground = ("const", "enum", "cls", "builtin", "ext")
        if all(x.k == "entry" and x.a[0].k in ground for x in ents):
            if key.k in ground:
                for x in reversed(ents):
                    if self.py_eq(x.a[0], key) or x.a[0] is key:
                        return [(st, x.a[1])]
                if default is not None:
                    return [(st, default)]
                return [(st, Raised("KeyError", self.loc(st)))]
            # finite split over the possible keys
            dom = st.oneof.get(key)
            if dom is None:
                ts = self.types(st, key)
                if len(ts) == 1 and "." in next(iter(ts)) and self.classes[next(iter(ts))].is_enum:
                    sp = self.spec_of(st, key)
                    q = next(iter(ts))
                    dom = sp.oneof if sp is not None and sp.oneof else frozenset(T("enum", q, n) for n in self.classes[q].members)
                    dom = dom - st.notin.get(key, frozenset())
                elif ts <= {"bool"}:
                    dom = frozenset([TRUE, FALSE]) - st.notin.get(key, frozenset())
            if dom is not None and len(dom) <= 20:
                out: Res = []
                for v in sorted(dom, key=show):
                    s = st.copy()
                    if self.assume(s, self.mk_eq(s, key, v), True):
                        out += self.dict_get(d, v, default, s)
                return self.merge_values(out)
            vals = {x.a[1] for x in ents}
            inn = T("in", key, self.freeze(st, d))
            dd = self.decide(st, inn)
            if default is not None:
                out = []
                t, f = self.branch(st, inn)
                for s in t:
                    out.append((s, T("app", "lookup", self.freeze(s, d), key)))
                for s in f:
                    out.append((s, default))
                return out
            return [(st, T("app", "lookup", self.freeze(st, d), key))]
        fd = self.freeze(st, d)
        # last matching explicit entry of a partially known dict
        if key.k in ground:
            for x in reversed(ents):
                if x.k == "entry" and (x.a[0] is key):
                    return [(st, x.a[1])]
                if x.k != "entry":
                    break
        if default is None:
            return [(st, T("app", "lookup", fd, key))]
        return [(st, T("app", "get", fd, key, self.freeze(st, default)))]

    # ---- comprehensions

    def ev_ListComp(self, e: ast.ListComp, st: State) -> Res:
        return self.bind(self.comp(e, st, "list"), lambda s, segs: [(s, self.alloc(s, "list", norm_segs(segs.a[1], "list")))])

    def ev_GeneratorExp(self, e: ast.GeneratorExp, st: State) -> Res:
        return self.comp(e, st, "gen")

    def ev_SetComp(self, e: ast.SetComp, st: State) -> Res:
        return self.bind(self.comp(e, st, "set"), lambda s, segs: [(s, self.alloc(s, "set", norm_segs(segs.a[1], "set")))])

    def ev_DictComp(self, e: ast.DictComp, st: State) -> Res:
        def f(s: State, segs: Term) -> Res:
            ents: tuple = ()
            for x in segs.a[1]:
                ents = self.dict_merge(s, ents, (x,))
            return [(s, self.alloc(s, "dict", ents))]

        return self.bind(self.comp(e, st, "dict"), f)

    def comp(self, e: Any, st: State, kind: str) -> Res:
        """A comprehension is a loop appending to a fresh accumulator."""
        fid = next(self.ids)
        save = (st.cur, st.fn)
        inner = FuncInfo("<comp>", (st.fn.q if st.fn else "") + ".<comp>", e if hasattr(e, "body") else ast.Lambda(
            args=ast.arguments([], [], None, [], [], None, []), body=ast.Constant(None)), st.mod, st.fn.cls if st.fn else None)
        inner.closure = st.cur if st.fn is not None else None
        if st.fn is None:
            inner.closure = st.cur
        acc = self.alloc(st, "list" if kind != "dict" else "list", ())
        acc_name = f".acc{fid}"
        if kind == "dict":
            elt: Any = ("dict", e.key, e.value)
        else:
            elt = ("elt", e.elt)
        st.frames[fid] = {acc_name: acc, "__closure__": st.cur}
        st.cur, st.fn = fid, inner

        def run(i: int, s: State) -> list:
            if i == len(e.generators):
                if elt[0] == "elt":
                    rs = self.ev(elt[1], s)
                    out = []
                    for s2, v in rs:
                        if isinstance(v, Raised):
                            out.append((s2, RAISE, v))
                        else:
                            r = self.rec(s2, acc)
                            s2.heap[acc.a[0]] = Rec("list", None, r.data + (one(v),))
                            out.append((s2, NEXT, None))
                    return out
                out = []
                for s2, kv in self.evs([elt[1], elt[2]], s):
                    if isinstance(kv, Raised):
                        out.append((s2, RAISE, kv))
                    else:
                        r = self.rec(s2, acc)
                        s2.heap[acc.a[0]] = Rec("list", None, r.data + (T("entry", self.freeze(s2, kv[0]), kv[1]),))
                        out.append((s2, NEXT, None))
                return out
            g = e.generators[i]
            res: list = []
            for s2, it in self.ev(g.iter, s):
                if isinstance(it, Raised):
                    res.append((s2, RAISE, it))
                    continue

                def body(s3: State) -> list:
                    cur = [s3]
                    outs: list = []
                    for c in g.ifs:
                        nxt: list = []
                        for x in cur:
                            t, f, ex = self.cond(c, x)
                            nxt += t
                            outs += [(y, CONT, None) for y in f]
                            outs += [(y, RAISE, r) for y, r in ex]
                        cur = nxt
                    for x in cur:
                        outs += run(i + 1, x)
                    return outs

                res += self.loop(g.target, it, body, s2)
            return res

        outs = run(0, st)
        final: Res = []
        for s, sig, v in outs:
            data = s.heap[acc.a[0]].data if acc.a[0] in s.heap else ()
            s.frames.pop(fid, None)
            s.heap.pop(acc.a[0], None)
            s.cur, s.fn = save
            if sig == RAISE:
                final.append((s, v))
            else:
                final.append((s, T("seq", kind, norm_segs(data, kind if kind != "dict" else "list"))))
        return self.merge_values(final)

    # -------------------------------------------------------------- iteration

    def as_segs(self, st: State, v: Term) -> Optional[tuple]:
        """Known segment structure of a sequence value, or None."""
        v = self.force(v)
        if v.k == "obj":
            r = self.rec(st, v)
            if r.kind in ("list", "set"):
                return r.data
            if r.kind == "dict":
                return tuple(one(x.a[0]) if x.k == "entry" else x for x in r.data) if all(x.k == "entry" for x in r.data) else None
            return None
        if v.k == "seq":
            return v.a[1]
        if v.k == "const" and v.a[0] == "str":
            return tuple(one(const(c)) for c in cval(v))
        if v.k == "dict" and all(x.k == "entry" for x in v.a[0]):
            return tuple(one(x.a[0]) for x in v.a[0])
        if v.k == "app" and v.a[0] == "range" and all(isinstance(x, int) or x.k == "const" for x in v.a[1:3]):
            r2 = range(cval(v.a[1]), cval(v.a[2]), v.a[3])
            if len(r2) <= 2000:
                return tuple(one(const(x)) for x in r2)
        return None

    def iter_segs(self, st: State, v: Term) -> tuple:
        s = self.as_segs(st, v)
        if s is not None:
            return s
        v = self.force(v)
        if v.k == "obj" and self.rec(st, v).kind == "inst":
            # an object with __iter__
            c = self.rec(st, v).cls
            if c.lookup("__iter__"):
                rs = self.call_method(v, "__iter__", [], {}, st)
                if len(rs) == 1 and not isinstance(rs[0][1], Raised):
                    return self.iter_segs(rs[0][0], rs[0][1])
            return (spread(self.freeze(st, v)),)
        if v.k == "cls" and self.classes[v.a[0]].is_enum:
            return tuple(one(T("enum", v.a[0], n)) for n in self.classes[v.a[0]].members)
        return (spread(self.freeze(st, v)),)

    def concrete_items(self, st: State, v: Term) -> Optional[list]:
        s = self.as_segs(st, v)
        if s is not None and all(x.k == "one" for x in s):
            return [x.a[0] for x in s]
        v = self.force(v)
        if v.k == "cls" and v.a[0] in self.classes and self.classes[v.a[0]].is_enum:
            return [T("enum", v.a[0], n) for n in self.classes[v.a[0]].members]
        return None

    def loop(self, target: ast.expr, it: Term, body: Callable, st: State, orelse: Optional[list] = None) -> list:
        """for target in it: body -> [(state, signal, value)]; NEXT = after the loop."""
        segs = self.iter_segs(st, it)
        # a list is read while it is iterated over: elements the body appends are reached too
        live = it.k == "obj" and self.rec(st, it).kind == "list" and tuple(segs) == tuple(self.rec(st, it).data)
        cur: list = [st]
        outs: list = []
        done: list = []
        i = -1
        while cur:
            i += 1
            if i > 20000:
                raise Unsupported("a loop that extends its own list")
            nxt: list = []
            for s in cur:
                mine = self.rec(s, it).data if live else segs
                if i >= len(mine):
                    done.append(s)
                    continue
                for o in self.loop_seg(target, mine[i], body, s):
                    if o[1] == NEXT or o[1] == CONT:
                        nxt.append((o[0], NEXT, None))
                    elif o[1] == BRK:
                        outs.append((o[0], "brk", None))
                    else:
                        outs.append(o)
            nxt = self.merge(nxt)
            cur = [x[0] for x in nxt]
            if len(cur) > MAX_STATES:
                raise Unsupported("too many disjuncts in loop")
        res: list = []
        for s in done:
            if orelse:
                res += self.exec_block(orelse, s)
            else:
                res.append((s, NEXT, None))
        for o in outs:
            res.append((o[0], NEXT, None) if o[1] == "brk" else o)
        return res

    def loop_seg(self, target: ast.expr, sg: Term, body: Callable, st: State) -> list:
        if sg.k == "one":
            res: list = []
            for s, r in self.assign(target, sg.a[0], st):
                res += [(s, RAISE, r)] if isinstance(r, Raised) else body(s)
            return res
        if sg.k == "entry":
            res = []
            for s, r in self.assign(target, sg.a[0], st):
                res += [(s, RAISE, r)] if isinstance(r, Raised) else body(s)
            return res
        if sg.k == "spread":
            src = sg.a[0]
            return self.sym_loop(src, [((one(elem(src)),), frozenset())], target, body, st)
        if sg.k == "for":
            return self.sym_loop(sg.a[0], [c for c in sg.a[1]], target, body, st)
        raise Unsupported(f"iteration over {sg.k}")

    def iteration_source(self, st: State, src: Term, n: int) -> tuple:
        """(underlying sequence, iteration variable value)."""
        if src.k == "app" and src.a[0] == "range":
            lo, hi, step = src.a[1], src.a[2], src.a[3]
            if step == 1 and hi.k == "app" and hi.a[0] == "len" and lo.k == "const" and cval(lo) >= 0:
                base = hi.a[1] if cval(lo) == 0 else T("slice", hi.a[1], cval(lo), None)
                itv = T("it", base, n)
                return base, T("idx", hi.a[1], itv)
        if src.k == "app" and src.a[0] == "enumerate":
            base, itv = self.iteration_source(st, src.a[1], n)
            return base, seq("tuple", one(T("idx", src.a[1], itv)), one(itv))
        if src.k == "app" and src.a[0] == "items":
            itv = T("it", src, n)
            return src, itv
        return src, T("it", src, n)

    def sym_loop(self, src: Term, cases: list, target: ast.expr, body: Callable, st: State) -> list:
        n = next(self.ids)
        base, itv = self.iteration_source(st, src, n)
        it = T("it", base, n)
        e_src, e_base = elem(src), elem(base)
        d = self.decide(st, self.truth(st, base)) if base.k != "app" else None
        if d is False:
            return [(st, NEXT, None)]

        def run(s0: State) -> list:
            """One abstract iteration: for each case of the source, bind and run."""
            outs: list = []
            for segs, guards in cases:
                s = s0.copy() if len(cases) > 1 else s0
                feasible = True
                for alt in ([frozenset()] if not guards else [guards]):
                    # guards: alternatives (frozensets of facts); only usable when there is one
                    pass
                galts = list(guards) if guards else []
                if len(galts) == 1 and isinstance(galts[0], frozenset):
                    for g in galts[0]:
                        self._apply_fact(s, g, e_src, itv)
                states = [(s, NEXT, None)]
                for item in segs:
                    nxt: list = []
                    for s1, sig, v in states:
                        if sig not in (NEXT, CONT):
                            nxt.append((s1, sig, v))
                            continue
                        if item.k == "one":
                            val = subst(item.a[0], lambda x: itv if x is e_src else None)
                            for s2, r in self.assign(target, val, s1):
                                if isinstance(r, Raised):
                                    nxt.append((s2, RAISE, r))
                                else:
                                    nxt += body(s2)
                        elif item.k in ("spread", "for"):
                            nxt += self.loop_seg(target, subst(item, lambda x: itv if x is e_src else None), body, s1)
                        else:
                            raise Unsupported("nested iteration")
                    states = nxt
                outs += states
            return outs

        self._iter_facts(st, it, base)
        # pass 1: which variables and objects does the body change?
        s1 = st.copy()
        ev0 = s1.events
        s1.events = ()
        outs = run(s1)
        changed_vars, changed_objs = self._changes(st, outs)
        for _ in range(4):
            if not changed_vars and not changed_objs:
                break
            s2 = st.copy()
            s2.events = ()
            for fid, name in changed_vars:
                if name in st.frames.get(fid, {}):
                    a = T("acc", n, fid, name)
                    s2.frames[fid][name] = a
                    ts = self.types(st, st.frames[fid][name])
                    for o in outs:
                        if o[1] in (NEXT, CONT):
                            v = o[0].frames[fid].get(name)
                            if v is not None:
                                ts = ts | self.types(o[0], v)
                    s2.types[a] = ts
            for oid in changed_objs:
                r = self.rec(st, T("obj", oid))
                if r.kind in ("list", "set", "dict"):
                    s2.heap[oid] = Rec(r.kind, r.cls, (T("accseg", n, oid),))
                elif r.kind == "inst":
                    s2.heap[oid] = Rec("inst", r.cls, dict(r.data))
            outs = run(s2.copy())
            cv, co = self._changes(s2, outs)
            cv = {x for x in cv if not (s2.frames.get(x[0], {}).get(x[1]) is not None and False)}
            if cv <= changed_vars and co <= changed_objs:
                break
            changed_vars |= cv
            changed_objs |= co
        return self._loop_exit(st, n, src, base, it, outs, changed_vars, changed_objs, target)

    def _iter_facts(self, st: State, it: Term, base: Term) -> None:
        """Facts known for every element hold for the iteration variable."""
        e = elem(base)
        for n in ("types", "oneof", "notin", "preds", "num"):
            d = getattr(st, n)
            for t, v in list(d.items()):
                if contains(t, e):
                    d[subst(t, lambda x: it if x is e else None)] = v
        if base.k == "slice":
            e2 = elem(base.a[0])
            for n in ("types", "oneof", "notin", "preds", "num"):
                d = getattr(st, n)
                for t, v in list(d.items()):
                    if contains(t, e2):
                        d.setdefault(subst(t, lambda x: it if x is e2 else None), v)

    def _apply_fact(self, s: State, g: tuple, e_src: Term, itv: Term) -> None:
        kind, t, v = g
        t = subst(t, lambda x: itv if x is e_src else None)
        name = {"types": "types", "pred": "preds", "oneof": "oneof", "notin": "notin", "num": "num"}[kind]
        getattr(s, name)[t] = v

    def _changes(self, st: State, outs: list) -> tuple:
        cv: set = set()
        co: set = set()
        for s, sig, v in outs:
            if sig not in (NEXT, CONT):
                continue
            for fid, fr in st.frames.items():
                f2 = s.frames.get(fid, {})
                for k in f2:
                    if fr.get(k) is not f2[k]:
                        cv.add((fid, k))
            for oid, r in s.heap.items():
                old = st.heap.get(oid) or self.gheap.get(oid)
                if old is not None and not old.same(r):
                    co.add(oid)
        return cv, co

    def _delta(self, st: State, s: State, it: Term, base: Term) -> dict:
        e = elem(base)
        out: dict = {}

        def ren(t: Term) -> Term:
            return subst(t, lambda x: e if x is it else None)

        for n, kind in (("types", "types"), ("oneof", "oneof"), ("notin", "notin"), ("preds", "pred"), ("num", "num")):
            old, new = getattr(st, n), getattr(s, n)
            for t, v in new.items():
                if contains(t, it) and old.get(t) != v:
                    out[(kind, ren(t))] = v
        return out

    def _guard_key(self, st: State, s: State, it: Term, base: Term) -> frozenset:
        e = elem(base)
        out = set()
        for n, kind in (("types", "types"), ("oneof", "oneof"), ("preds", "pred"), ("num", "num"), ("notin", "notin")):
            old, new = getattr(st, n), getattr(s, n)
            for t, v in new.items():
                if old.get(t) != v:
                    out.add((kind, subst(t, lambda x: e if x is it else None), v))
        return frozenset(out)

    def _loop_exit(self, st: State, n: int, src: Term, base: Term, it: Term, outs: list,
                   cvars: set, cobjs: set, target: ast.expr) -> list:
        res: list = []
        normal = []
        e = elem(base)

        def ren(t: Any) -> Any:
            return subst(t, lambda x: e if x is it else None)

        for s, sig, v in outs:
            if sig in (NEXT, CONT):
                normal.append(s)
            else:
                s.events = st.events + ((("loop-partial", base),) if normal else ()) + s.events
                res.append((s, sig, v))
        if not normal:
            # no iteration completes: the loop exits normally only when empty
            ex = st.copy()
            if self.assume(ex, self.truth(ex, base), False):
                res.append((ex, NEXT, None))
            return res
        ex = st.copy()
        # universally quantified facts
        self._apply_universal(ex, base, [self._delta(st, s, it, base) for s in normal])
        self._apply_slice(ex, base)
        # events of an iteration
        evs = frozenset((self._guard_key(st, s, it, base), ren(self._ev_freeze(s))) for s in normal)
        if any(x[1] for x in evs):
            ex.event("foreach", base, evs)
        # accumulating objects
        for oid in cobjs:
            o = T("obj", oid)
            r = self.rec(st, o)
            marker = T("accseg", n, oid)
            if r.kind not in ("list", "set", "dict"):
                nd = dict(r.data)
                for k in nd:
                    nd[k] = unk("field written in a loop")
                ex.heap[oid] = Rec("inst", r.cls, nd)
                continue
            cs: list = []
            ok = True
            for s in normal:
                data = s.heap[oid].data if oid in s.heap else r.data
                if data and data[0] is marker:
                    add = tuple(data[1:])
                elif r.kind == "set" and marker in data:
                    add = tuple(x for x in data if x is not marker)
                else:
                    ok = False
                    break
                add = tuple(self.freeze(s, x) for x in add)
                if any(contains(x, marker) for x in add):
                    ok = False
                    break
                cs.append((ren(add), frozenset([self._guard_key(st, s, it, base)])))
            if not ok:
                new: tuple = (spread(unk("object rewritten in a loop")),)
            else:
                f = mkfor(base, tuple(cs))
                if base is not src:
                    pass
                new = norm_segs(r.data + (f,), r.kind if r.kind != "dict" else "list")
            if self.is_global_obj(st, o):
                ex.event("gwrite", self.describe_global(o), "in loop")
            ex.heap[oid] = Rec(r.kind, r.cls, new)
        # loop-carried variables
        variants: list = [ex]
        tnames = {x.id for x in ast.walk(target) if isinstance(x, ast.Name)} if target is not None else set()
        for fid, name in sorted(cvars, key=lambda x: (x[0], x[1])):
            acc = T("acc", n, fid, name)
            init = st.frames.get(fid, {}).get(name)
            vals: list = []
            for s in normal:
                v = s.frames[fid].get(name)
                vals.append(None if v is None else self.freeze(s, v))
            if name in tnames and fid == st.cur:
                for x in variants:
                    x.frames[fid][name] = T("last", base)
                continue
            distinct = []
            for v in vals:
                if v is not None and v is not acc and v not in distinct:
                    distinct.append(v)
            if not distinct:
                for x in variants:
                    if init is not None:
                        x.frames[fid][name] = init
                continue
            dep_acc = any(contains(v, acc) for v in distinct)
            dep_it = any(contains(v, it) for v in distinct)
            if not dep_acc and not dep_it and len(distinct) <= 4:
                nv: list = []
                for x in variants:
                    for v in distinct:
                        y = x.copy()
                        y.frames[fid][name] = v
                        nv.append(y)
                    if init is not None:
                        y = x.copy()
                        y.frames[fid][name] = init
                        # no iteration took a path that assigns
                        if all(v is not None and v is not acc for v in vals):
                            if not self.assume(y, self.truth(y, base), False):
                                continue
                        else:
                            keep = [s for s, v in zip(normal, vals) if v is acc or v is None]
                            self._apply_universal(y, base, [self._delta(st, s, it, base) for s in keep])
                            self._apply_slice(y, base)
                            if any(v is init for v in distinct):
                                pass
                        nv.append(y)
                variants = nv
                continue
            if init is not None and self.types(st, init) <= {"str"} and all(
                    v is None or v is acc or (v.k == "cat" and v.a[0] is acc and not any(contains(p, acc) for p in v.a[1:])) for v in vals):
                cs = []
                for s, v in zip(normal, vals):
                    add = () if v is None or v is acc else (one(cat(*v.a[1:])),)
                    cs.append((ren(add), frozenset([self._guard_key(st, s, it, base)])))
                val = cat(init, T("join", EMPTY, (mkfor(base, tuple(cs)),)))
            elif init is not None and init.k == "seq" and all(
                    v is None or v is acc or (v.k == "seq" and v.a[1] and v.a[1][0] is spread(acc) and not any(contains(p, acc) for p in v.a[1][1:])) for v in vals):
                cs = []
                for s, v in zip(normal, vals):
                    add = () if v is None or v is acc else tuple(v.a[1][1:])
                    cs.append((ren(add), frozenset([self._guard_key(st, s, it, base)])))
                val = seq(init.a[0], *(init.a[1] + (mkfor(base, tuple(cs)),)))
            elif init is not None and dep_acc:
                A = T("accvar", name)
                bodies = tuple(sorted({show(x): x for x in (ren(subst(v if v is not None else acc, lambda x: A if x is acc else None)) for v in vals)}.items()))
                val = T("fold", base, self.freeze(st, init), tuple(b for _, b in bodies))
            else:
                val = T("last", base, tuple(sorted({show(ren(v)): ren(v) for v in distinct}.values(), key=show)))
            nv = []
            for x in variants:
                x.frames[fid][name] = val
                nv.append(x)
                if val.k == "last" and init is not None:
                    y = x.copy()
                    y.frames[fid][name] = init
                    if self.assume(y, self.truth(y, base), False):
                        nv.append(y)
            variants = nv
        return [(x, NEXT, None) for x in variants] + res

    def _apply_slice(self, st: State, base: Term) -> None:
        """facts about x[0] and about every element of x[1:] hold for every element of x."""
        if base.k != "slice" or base.a[1:] != (1, None):
            return
        whole = base.a[0]
        first, er, ew = T("item", whole, const(0)), elem(base), elem(whole)
        for n in ("preds", "oneof"):
            d = getattr(st, n)
            for t, v in list(d.items()):
                if contains(t, er):
                    t0 = subst(t, lambda x: first if x is er else None)
                    if d.get(t0) == v:
                        d[subst(t, lambda x: ew if x is er else None)] = v
        for t, v in list(st.types.items()):
            if contains(t, er):
                t0 = subst(t, lambda x: first if x is er else None)
                st.types[subst(t, lambda x: ew if x is er else None)] = v | self.types(st, t0)

    def _ev_freeze(self, s: State) -> tuple:
        return tuple(tuple(self.freeze(s, x) if isinstance(x, Term) else x for x in e) for e in s.events)
