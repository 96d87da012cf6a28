"""Attributes, calls, builtins and library models (mixin of Interp)."""
from __future__ import annotations

import ast
import builtins
import string
from typing import Any, Callable, Optional

from .model import (BUILTIN_ATOMS, ClassInfo, FuncInfo, Raised, Rec, State, Unsupported)
from .terms import (EMPTY, FALSE, NONE, TRUE, T, Term, attr, cat, charmap, const, contains, cval, elem, fmt, join,
                    mkfor, norm_segs, one, seq, show, spread, subst, unk)

NEXT, RET, RAISE = "next", "return", "raise"

PYTYPES = {"NoneType": type(None), "bool": bool, "int": int, "float": float, "str": str, "bytes": bytes, "list": list,
           "tuple": tuple, "set": set, "dict": dict}
import datetime as _dt

PYTYPES["date"] = _dt.date
PYTYPES["datetime"] = _dt.datetime

PURE_STR = {"upper", "lower", "strip", "lstrip", "rstrip", "startswith", "endswith", "split", "rsplit", "title",
            "capitalize", "replace", "find", "rfind", "index", "count", "isdigit", "isalpha", "isalnum", "isidentifier",
            "isupper", "islower", "isspace", "removeprefix", "removesuffix", "partition", "rpartition", "splitlines",
            "zfill", "ljust", "rjust", "center", "encode", "decode", "casefold", "swapcase", "isnumeric", "isdecimal",
            "isascii", "isprintable", "expandtabs"}


#: special methods of builtin values and their number of arguments
DUNDER = {"__getitem__": 1, "__contains__": 1, "__eq__": 1, "__ne__": 1, "__len__": 0, "__str__": 0, "__repr__": 0}


class CallMixin:
    # ------------------------------------------------------------------ attributes

    def getattr(self, v: Term, name: str, st: State, node: Any = None, default: Optional[Term] = None) -> list:
        v = self.force(v)
        k = v.k
        if k == "mod":
            m = self.load(self.modules[v.a[0]])
            if (v.a[0], name) in st.gvars:
                return [(st, st.gvars[(v.a[0], name)])]
            if name in m.ns:
                return [(st, self.force(m.ns[name]))]
            if f"{v.a[0]}.{name}" in self.modules:
                return [(st, T("mod", f"{v.a[0]}.{name}"))]
            return self._noattr(v, name, st, default)
        if k in ("ext", "builtin"):
            if k == "builtin" and name == "__name__":
                return [(st, const(v.a[0]))]
            return [(st, T("ext", f"{v.a[0]}.{name}"))]
        if k == "cls":
            return self._cls_attr(v, name, st, default)
        if k == "super":
            return self._super_attr(v, name, st)
        if k == "obj":
            r = self.rec(st, v)
            if r.kind == "inst":
                if name in r.data:
                    return [(st, r.data[name])]
                return self._inst_attr(v, r.cls, name, st, default)
            return [(st, T("bm", v, name))]
        if k == "new":
            for n, x in v.a[1]:
                if n == name:
                    return [(st, x)]
            return self._inst_attr(v, self.classes[v.a[0]], name, st, default)
        if k == "enum":
            c = self.classes[v.a[0]]
            if name in ("value", "_value_"):
                return [(st, c.members[v.a[1]])]
            if name in ("name", "_name_"):
                return [(st, const(v.a[1]))]
            return self._inst_attr(v, c, name, st, default)
        if k == "func":
            if name in ("__name__", "__qualname__"):
                return [(st, const(v.a[0].name))]
            if name == "__doc__":
                return [(st, unk("doc"))]
            if (v, name) in st.over:
                return [(st, st.over[(v, name)])]
            return self._noattr(v, name, st, default)
        if k == "fieldobj":
            if name == "name":
                return [(st, const(v.a[1]))]
            return [(st, unk("dataclass field attribute"))]
        if k == "app" and v.a[0] == "type" and name in ("__name__", "__qualname__"):
            return [(st, T("app", "typename", v.a[1]))]
        if k == "const" and isinstance(v.a[1], (_dt.date, _dt.timedelta)):
            try:
                x = getattr(v.a[1], name)
            except AttributeError:
                return self._noattr(v, name, st, default)
            return [(st, T("bm", v, name) if callable(x) else const(x))]
        if k in ("const", "cat", "join", "charmap", "fmt", "seq", "dict", "regex", "rematch"):
            return [(st, T("bm", v, name))]
        if k in ("exc", "bound", "partial", "bm", "unk"):
            return [(st, unk(f"attribute {name} of {show(v)}"))] if k != "exc" else [(st, T("attr", v, name))]
        if (v, name) in st.over:
            return [(st, st.over[(v, name)])]
        return self._sym_attr(v, name, st, default)

    def _noattr(self, v: Term, name: str, st: State, default: Optional[Term]) -> list:
        if default is not None:
            return [(st, default)]
        return [(st, Raised("AttributeError", f"{self.loc(st)} ({name})"))]

    def _cls_attr(self, v: Term, name: str, st: State, default: Optional[Term]) -> list:
        c = self.classes[v.a[0]]
        if (v, name) in st.over:
            return [(st, st.over[(v, name)])]
        if name in ("__name__", "__qualname__"):
            return [(st, const(c.name))]
        if name == "__members__" and c.is_enum:
            return [(st, T("dict", tuple(T("entry", const(n), T("enum", c.q, n)) for n in c.members)))]
        r = c.lookup(name)
        if r is None:
            if name in ("__mro__", "__bases__", "__dict__", "__doc__", "__module__", "__annotations__", "__dataclass_fields__"):
                return [(st, unk(f"class attribute {name}"))]
            if any(isinstance(b, str) and b not in ("object",) for b in c.mro()):
                return [(st, T("ext", f"{c.name}.{name}"))]
            return self._noattr(v, name, st, default)
        x = self.force(r[1])
        if x.k == "func" and "classmethod" in x.a[0].decos:
            return [(st, T("bound", v, x.a[0]))]
        return [(st, x)]

    def _super_attr(self, v: Term, name: str, st: State) -> list:
        q, obj = v.a
        ts = self.types(st, obj) if obj.k != "cls" else frozenset([obj.a[0]])
        start = self.classes[q]
        if len(ts) == 1 and next(iter(ts)) in self.classes:
            mro = self.classes[next(iter(ts))].mro()
        else:
            mro = start.mro()
        i = mro.index(start) if start in mro else 0
        for c in mro[i + 1:]:
            if isinstance(c, ClassInfo) and name in c.ns:
                x = c.ns[name]
                if x.k == "func":
                    fi = x.a[0]
                    if "staticmethod" in fi.decos:
                        return [(st, x)]
                    if "property" in fi.decos:
                        return self.call_func(fi, [obj], {}, st)
                    return [(st, T("bound", obj, fi))]
                return [(st, x)]
        if name in ("__setattr__", "__init__", "__init_subclass__", "__getattribute__", "__post_init__", "__hash__", "__eq__",
                    "__repr__", "__str__", "generic_visit", "visit"):
            return [(st, T("objm", obj, name))]
        return [(st, Raised("AttributeError", f"{self.loc(st)} super().{name}"))]

    def _inst_attr(self, v: Term, c: ClassInfo, name: str, st: State, default: Optional[Term]) -> list:
        if name == "__class__":
            return [(st, T("cls", c.q))]
        r = c.lookup(name)
        if r is not None:
            x = self.force(r[1])
            if x.k == "func":
                fi = x.a[0]
                if "staticmethod" in fi.decos:
                    return [(st, x)]
                if "classmethod" in fi.decos:
                    return [(st, T("bound", T("cls", c.q), fi))]
                if "property" in fi.decos or "cached_property" in fi.decos:
                    if "cached_property" in fi.decos:
                        st.event("memo", fi.q, self.freeze(st, v))
                    return self.call_func(fi, [v], {}, st)
                return [(st, T("bound", v, fi))]
            return [(st, x)]
        if name == "__dict__":
            if v.k == "obj":
                return [(st, T("dict", tuple(T("entry", const(n), y) for n, y in self.rec(st, v).data.items())))]
            return [(st, unk("__dict__"))]
        if name == "__setattr__":
            return [(st, T("objm", v, name))]
        g = c.lookup("__getattr__")
        if g is not None:
            return self.call_func(g[1].a[0], [v, const(name)], {}, st)
        if any(isinstance(b, str) and b.split(".")[-1] not in ("object", "ABC", "Generic", "Enum", "Exception") for b in c.mro()):
            return [(st, T("extm", v, name))]
        return self._noattr(v, name, st, default)

    def _sym_attr(self, v: Term, name: str, st: State, default: Optional[Term]) -> list:
        """Attribute of a symbolic value: resolve per possible type."""
        ts = self.types(st, v)
        if len(ts) >= len(self.universe) - 3 and self.spec_of(st, v) is None and not name.startswith("__"):
            # nothing is known about the value: any method may be called, or none exist
            why = ("unkbranch", f"attribute {name} of {show(v)[:100]}")
            if why not in st.events:
                st.events = st.events + (why,)
            return [(st, unk(f"attribute {name} of an unknown value"))]
        has: dict = {}
        lack: set = set()
        for a in ts:
            if a in PYTYPES:
                if hasattr(PYTYPES[a], name):
                    has.setdefault("bm", set()).add(a)
                else:
                    lack.add(a)
            elif a in ("other", "otherseq"):
                has.setdefault("other", set()).add(a)
            else:
                c = self.classes[a]
                if c.is_enum and name in ("value", "name", "_value_"):
                    has.setdefault("enum", set()).add(a)
                    continue
                if any(f.name == name for f in c.fields()) or (a, name) in self.field_specs or name in self.extra_fields.get(a, ()):
                    has.setdefault("field", set()).add(a)
                    continue
                r = c.lookup(name)
                if r is not None:
                    x = self.force(r[1])
                    has.setdefault(x, set()).add(a)
                elif name == "__class__":
                    has.setdefault("cls" + a, set()).add(a)
                else:
                    lack.add(a)
        if not has:
            return self._noattr(v, name, st, default)
        out: list = []
        if lack:
            f = st.copy()
            if self._settypes(f, v, frozenset(lack)):
                out += self._noattr(v, name, f, default)
        groups = list(has.items())
        if "other" in has and len(has) > 1:
            # an arbitrary object: assume it behaves like the rest of the group
            groups = [g for g in groups if g[0] != "other"]
            first = groups[0]
            groups[0] = (first[0], first[1] | has["other"])
        for key, atoms in sorted(groups, key=lambda g: sorted(g[1])):
            s = st.copy() if (len(groups) > 1 or lack) else st
            if not self._settypes(s, v, frozenset(atoms)):
                continue
            if key == "bm":
                out.append((s, T("bm", v, name)))
            elif key == "enum":
                dom = s.oneof.get(v)
                if dom is not None and len(dom) == 1:
                    out += self.getattr(next(iter(dom)), name, s)
                else:
                    out.append((s, T("attr", v, "value" if name == "_value_" else name)))
            elif key in ("field", "other"):
                out.append((s, attr(v, name)))
            elif isinstance(key, str):
                out.append((s, T("cls", key[3:])))
            elif key.k == "func":
                fi = key.a[0]
                if "staticmethod" in fi.decos:
                    out.append((s, key))
                elif "classmethod" in fi.decos:
                    out.append((s, T("bound", T("cls", fi.cls.q), fi)))
                elif "property" in fi.decos or "cached_property" in fi.decos:
                    if "cached_property" in fi.decos:
                        s.event("memo", fi.q, v)
                    out += self.call_func(fi, [v], {}, s)
                else:
                    out.append((s, T("bound", v, fi)))
            else:
                out.append((s, key))
        return out

    extra_fields: dict = {}

    # ------------------------------------------------------------------ calls

    def ev_Call(self, e: ast.Call, st: State) -> list:
        # super() without arguments
        if isinstance(e.func, ast.Name) and e.func.id == "super" and "super" not in st.frames.get(st.cur, {}):
            if not e.args:
                fn = st.fn
                fr = st.frames.get(st.cur, {})
                obj = fr.get(".self")
                if obj is None or fn is None or fn.cls is None:
                    raise Unsupported("super()")
                return [(st, T("super", fn.cls.q, obj))]
        out: list = []
        for s, f in self.ev(e.func, st):
            if isinstance(f, Raised):
                out.append((s, f))
                continue
            for s2, ak in self._args(e, s):
                if isinstance(ak, Raised):
                    out.append((s2, ak))
                else:
                    self._line = e.lineno
                    out += self.call(f, ak[0], ak[1], s2, e)
        return out

    def _args(self, e: ast.Call, st: State) -> list:
        acc: list = [(st, ([], {}))]
        for a in e.args:
            nxt: list = []
            star = isinstance(a, ast.Starred)
            for s, ak in acc:
                if isinstance(ak, Raised):
                    nxt.append((s, ak))
                    continue
                for s2, v in self.ev(a.value if star else a, s):
                    if isinstance(v, Raised):
                        nxt.append((s2, v))
                    elif star:
                        segs = self.iter_segs(s2, v)
                        new = [x.a[0] if x.k == "one" else T("star", x) for x in segs]
                        nxt.append((s2, (ak[0] + new, ak[1])))
                    else:
                        nxt.append((s2, (ak[0] + [v], ak[1])))
            acc = nxt
        for kw in e.keywords:
            nxt = []
            for s, ak in acc:
                if isinstance(ak, Raised):
                    nxt.append((s, ak))
                    continue
                for s2, v in self.ev(kw.value, s):
                    if isinstance(v, Raised):
                        nxt.append((s2, v))
                        continue
                    kws = dict(ak[1])
                    if kw.arg is not None:
                        kws[kw.arg] = v
                    else:
                        for en in self.dict_entries(s2, v):
                            if en.k == "entry" and en.a[0].k == "const":
                                kws[cval(en.a[0])] = en.a[1]
                            else:
                                kws.setdefault("**", T("seq", "list", ()))
                                kws["**"] = T("seq", "list", kws["**"].a[1] + (en,))
                    nxt.append((s2, (ak[0], kws)))
            acc = nxt
        return acc

    def call(self, f: Term, args: list, kwargs: dict, st: State, node: Any = None) -> list:
        f = self.force(f)
        self.n_calls += 1
        k = f.k
        if k == "func":
            return self.call_func(f.a[0], args, kwargs, st)
        if k == "bound":
            return self.call_func(f.a[1], [f.a[0]] + args, kwargs, st)
        if k == "cls":
            return self.construct(f.a[0], args, kwargs, st)
        if k == "partial":
            kw = dict(f.a[2])
            kw.update(kwargs)
            return self.call(f.a[0], list(f.a[1]) + args, kw, st, node)
        if k == "bm":
            return self.builtin_method(f.a[0], f.a[1], args, kwargs, st)
        if k == "builtin":
            return self.builtin_call(f.a[0], args, kwargs, st)
        if k == "ext":
            return self.ext_call(f.a[0], args, kwargs, st)
        if k == "objm":
            return self.obj_method(f.a[0], f.a[1], args, kwargs, st)
        if k == "extm":
            return [(st, unk(f"inherited library method {f.a[1]}"))]
        if k == "obj" and self.rec(st, f).kind == "inst":
            return self.call_method(f, "__call__", args, kwargs, st)
        if k == "unk":
            return [(st, f)]
        ts = self.types(st, f)
        if ts and all(a in PYTYPES for a in ts):
            return [(st, Raised("TypeError", self.loc(st)))]
        return [(st, T("app", "call", self.freeze(st, f), *[self.freeze(st, a) for a in args],
                       *[T("kw", n, self.freeze(st, a)) for n, a in sorted(kwargs.items())]))]

    def call_method(self, v: Term, name: str, args: list, kwargs: dict, st: State) -> list:
        return self.bind(self.getattr(v, name, st), lambda s, f: self.call(f, args, kwargs, s))

    def exact_key(self, st: State, a: Term) -> bool:
        """Is a value that equals only values that are indistinguishable from it?"""
        if a.k in ("cls", "enum", "func"):
            return True
        if a.k == "const":
            return cval(a) is None or isinstance(cval(a), (str, bytes, bool))
        if a.k == "obj":
            return False
        ts = self.types(st, self.freeze(st, a))
        return bool(ts) and set(ts) <= {"str", "bytes", "bool", "NoneType"}

    def call_func(self, fi: FuncInfo, args: list, kwargs: dict, st: State) -> list:
        self.touched.add(fi.q)
        for h in self.hooks:
            r = h(self, fi, args, kwargs, st)
            if r is not None:
                return r
        if fi.q in self.watch:
            st.event("call", fi.q, tuple(self.freeze(st, a) for a in args),
                     tuple((n, self.freeze(st, a)) for n, a in sorted(kwargs.items())))
        if ("lru_cache" in fi.decos or "cache" in fi.decos) and not all(self.exact_key(st, a) for a in [*args, *kwargs.values()]):
            # 1, 1.0 and True share an entry, and so do equal objects whose contents change later
            st.event("memo", fi.q)
        unknown = [d for d in fi.decos if d.startswith("unknown:")]
        if unknown:
            raise Unsupported(f"decorator {unknown[0][8:]} of {fi.q}")
        if "contextmanager" in fi.decos:
            return [(st, T("cm", fi, tuple(args), tuple(kwargs.items())))]
        outs = self.run_body(fi, args, kwargs, st)
        if ("lru_cache" in fi.decos or "cache" in fi.decos) and not fi.name.startswith("_"):
            for s, v in outs:
                if not isinstance(v, Raised) and self.changeable(s, v):
                    s.event("memo", fi.q, "whose result the caller can change")
        return outs

    def changeable(self, st: State, v: Term, seen: tuple = ()) -> bool:
        """Was v made during the run, and can it be modified?"""
        if v.k == "seq":
            return any(self.changeable(st, x.a[0], seen) for x in v.a[1] if x.k == "one")
        if v.k != "obj" or v.a[0] in seen:
            return False
        r = self.rec(st, v)
        if r.kind != "inst":
            return True
        frozen = any(isinstance(k, ClassInfo) and k.dc is not None and k.dc.get("frozen") for k in r.cls.mro())
        return not frozen or any(self.changeable(st, x, seen + (v.a[0],)) for x in r.data.values())

    def run_body(self, fi: FuncInfo, args: list, kwargs: dict, st: State) -> list:
        depth = sum(1 for f in self.stack if f is fi)
        if depth >= self.max_rec or len(self.stack) > 60:
            return self.cut(fi, args, kwargs, st)
        bound = self.bind_args(fi, args, kwargs, st)
        if isinstance(bound, Raised):
            return [(st, bound)]
        fid = next(self.ids)
        save = (st.cur, st.fn, st.mod)
        frame: dict = dict(bound)
        frame["__closure__"] = fi.closure
        if fi.owner is not None and "staticmethod" not in fi.decos and args:
            frame[".self"] = args[0]
        elif fi.closure is not None and st.frames.get(fi.closure, {}).get(".self") is not None:
            frame[".self"] = st.frames[fi.closure][".self"]
        st.frames[fid] = frame
        st.cur, st.fn, st.mod = fid, fi, fi.module
        acc = None
        gen = fi.is_gen and "contextmanager" not in fi.decos
        saved_yields = self.yields
        if gen:
            acc = self.alloc(st, "list", ())
            self.yields = self.yields + [acc]
        line = getattr(self, "_line", 0)
        self.stack.append(fi)
        try:
            if isinstance(fi.node, ast.Lambda):
                outs = [(s, RAISE if isinstance(v, Raised) else RET, v) for s, v in self.ev(fi.node.body, st)]
            else:
                outs = self.exec_block(fi.node.body, st)
        finally:
            self.stack.pop()
            self.yields = saved_yields
        self._line = line
        res: list = []
        for s, sig, v in outs:
            s.cur, s.fn, s.mod = save
            if fid not in s.captured:
                s.frames.pop(fid, None)
            if sig == RAISE:
                res.append((s, v))
            elif gen:
                data = self.rec(s, acc).data
                s.heap.pop(acc.a[0], None)
                res.append((s, T("seq", "gen", data)))
            elif sig == RET:
                res.append((s, v))
            else:
                res.append((s, NONE))
        return self.merge_values(res)

    max_rec = 2

    summaries: dict = {}

    def cut(self, fi: FuncInfo, args: list, kwargs: dict, st: State) -> list:
        """A recursive call: use the least fixpoint of the function's outcomes for
        arguments of these types when they are constants, else an opaque term."""
        r = self.summary(fi, args, kwargs, st)
        if r is not None and len(r) > 1 and len(self.types(st, args[-1])) > 1:
            # keep the relation between the argument's type and the outcome
            groups: dict = {}
            for a in self.types(st, args[-1]):
                s2 = st.copy()
                s2.types[args[-1]] = frozenset([a])
                r2 = self.summary(fi, args, kwargs, s2)
                if r2 is None:
                    groups = {}
                    break
                groups.setdefault(tuple((v.exc, True) if isinstance(v, Raised) else v for v in r2), (r2, []))[1].append(a)
            out = []
            for r2, atoms in groups.values():
                for v in r2:
                    s2 = st.copy()
                    s2.types[args[-1]] = frozenset(atoms)
                    out.append((s2, v))
            if out:
                return out
        if r is not None:
            return [(st.copy(), v) for v in r]
        return [(st, T("rec", fi.q, *[self.freeze(st, a) for a in args]))]

    def summary(self, fi: FuncInfo, args: list, kwargs: dict, st: State) -> Optional[list]:
        if kwargs or not args or any(a.k in ("obj", "seq", "dict", "new", "star") for a in args):
            return None
        shape = tuple((self.types(st, a), self.spec_of(st, a)) for a in args)
        key = (fi, shape)
        if key in self.summaries:
            return self.summaries[key]
        self.summaries[key] = []
        saved = (self.stack, dict(self.inputs), self.yields, self.hooks)
        try:
            for rnd in range(6):
                self.stack = [fi] * (self.max_rec - 1)
                s = State()
                s.cur, s.mod = 0, fi.module
                s.frames[0] = {}
                new = []
                for i, a in enumerate(args):
                    t = T("sym", f".arg{i}") if a.k not in ("const", "enum", "cls", "func") else a
                    new.append(t)
                    if shape[i][1] is not None and t is not a:
                        self.inputs[t] = shape[i][1]
                    if t is not a:
                        s.types[t] = shape[i][0]
                outs = self.run_body(fi, new, {}, s)
                vals: list = []
                for s2, v in outs:
                    if isinstance(v, Raised):
                        if not any(isinstance(x, Raised) and x.exc == v.exc for x in vals):
                            vals.append(v)
                    elif v.k in ("const", "enum"):
                        if v not in vals:
                            vals.append(v)
                    else:
                        self.summaries[key] = None
                        return None
                old = self.summaries[key]
                if old is None:
                    return None
                if len(old) == len(vals):
                    break
                self.summaries[key] = vals
        except Unsupported:
            self.summaries[key] = None
        finally:
            self.stack, self.inputs, self.yields, self.hooks = saved
        return self.summaries[key]

    def bind_args(self, fi: FuncInfo, args: list, kwargs: dict, st: State) -> Any:
        a = fi.node.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        out: dict = {}
        rest: list = []
        if any(isinstance(x, Term) and x.k == "star" for x in args):
            i = next(i for i, x in enumerate(args) if x.k == "star")
            if a.vararg is None or i < len(pos):
                raise Unsupported(f"star arguments for {fi.q}")
        for i, v in enumerate(args):
            if i < len(pos):
                out[pos[i]] = v
            else:
                rest.append(v)
        if a.vararg is not None:
            out[a.vararg.arg] = seq("tuple", *[x.a[0] if x.k == "star" else one(x) for x in rest])
        elif rest:
            return Raised("TypeError", f"{self.loc(st)} too many arguments for {fi.q}")
        names = set(pos) | {p.arg for p in a.kwonlyargs}
        extra: dict = {}
        for n, v in kwargs.items():
            if n == "**":
                if a.kwarg is None:
                    raise Unsupported(f"keyword expansion for {fi.q}")
                extra[n] = v
            elif n in names:
                if n in out:
                    return Raised("TypeError", f"{self.loc(st)} duplicate argument {n}")
                out[n] = v
            elif a.kwarg is not None:
                extra[n] = v
            else:
                return Raised("TypeError", f"{self.loc(st)} unexpected argument {n} for {fi.q}")
        if a.kwarg is not None:
            ents: list = []
            for n, v in extra.items():
                if n == "**":
                    ents += list(v.a[1])
                else:
                    ents.append(T("entry", const(n), v))
            out[a.kwarg.arg] = self.alloc(st, "dict", tuple(ents))
        for n in pos + [p.arg for p in a.kwonlyargs]:
            if n not in out:
                if n in fi.defaults:
                    out[n] = fi.defaults[n]
                else:
                    return Raised("TypeError", f"{self.loc(st)} missing argument {n} for {fi.q}")
        return out

    # ------------------------------------------------------------------ construction

    def construct(self, q: str, args: list, kwargs: dict, st: State) -> list:
        c = self.classes[q]
        if q in self.watch:
            st.event("new", q, tuple(self.freeze(st, a) for a in args), tuple((n, self.freeze(st, a)) for n, a in sorted(kwargs.items())))
        for h in self.new_hooks:
            r = h(self, c, args, kwargs, st)
            if r is not None:
                return r
        if c.is_exception():
            return [(st, T("exc", q, ""))]
        if c.is_enum:
            return self.enum_lookup(c, args[0], st)
        if c.is_abstract():
            return [(st, Raised("TypeError", f"{self.loc(st)} abstract class {q}"))]
        init = None
        for k in c.mro():
            if isinstance(k, ClassInfo):
                if "__new__" in k.ns:
                    raise Unsupported(f"__new__ of {k.q}")
                if "__init__" in k.ns:
                    init = k.ns["__init__"]
                    break
                if k.dc is not None and k.dc.get("init"):
                    init = "dataclass"
                    break
        if c.other_decos and any(d for d in c.other_decos):
            raise Unsupported(f"class decorator {c.other_decos[0]} of {q}")
        if init == "dataclass":
            return self._dc_construct(c, args, kwargs, st)
        o = self.alloc(st, "inst", {}, c)
        for f in c.fields():
            if f.default is not None:
                d = dict(self.rec(st, o).data)
                d[f.name] = f.default
                st.heap[o.a[0]] = Rec("inst", c, d)
        if init is None:
            return [(st, o)]
        return self.bind(self.call_func(init.a[0], [o] + args, kwargs, st), lambda s, _: [(s, o)])

    def _dc_construct(self, c: ClassInfo, args: list, kwargs: dict, st: State) -> list:
        fs = c.fields()
        initf = [f for f in fs if f.init]
        pos = [f for f in initf if not f.kw_only]
        vals: dict = {}
        if any(x.k == "star" for x in args) or "**" in kwargs:
            raise Unsupported(f"star arguments for {c.q}")
        if len(args) > len(pos):
            return [(st, Raised("TypeError", f"{self.loc(st)} too many arguments for {c.q}"))]
        for f, v in zip(pos, args):
            vals[f.name] = v
        for n, v in kwargs.items():
            if n in vals or not any(f.name == n for f in initf):
                return [(st, Raised("TypeError", f"{self.loc(st)} argument {n} for {c.q}"))]
            vals[n] = v
        data: dict = {}
        cur: list = [(st, data)]
        for f in fs:
            nxt: list = []
            for s, d in cur:
                if isinstance(d, Raised):
                    nxt.append((s, d))
                    continue
                if f.name in vals:
                    nxt.append((s, {**d, f.name: vals[f.name]}))
                elif f.default is not None:
                    nxt.append((s, {**d, f.name: f.default}))
                elif f.factory is not None:
                    for s2, v in self.call(f.factory, [], {}, s):
                        nxt.append((s2, v) if isinstance(v, Raised) else (s2, {**d, f.name: v}))
                elif not f.init:
                    nxt.append((s, d))
                else:
                    nxt.append((s, Raised("TypeError", f"{self.loc(s)} missing argument {f.name} for {c.q}")))
            cur = nxt
        out: list = []
        for s, d in cur:
            if isinstance(d, Raised):
                out.append((s, d))
                continue
            o = self.alloc(s, "inst", d, c)
            pi = c.lookup("__post_init__")
            if pi is None:
                out.append((s, o))
            else:
                out += self.bind(self.call_func(pi[1].a[0], [o], {}, s), lambda s2, _, o=o: [(s2, o)])
        return out

    def enum_lookup(self, c: ClassInfo, v: Term, st: State) -> list:
        v = self.force(v)
        if v.k == "enum" and v.a[0] == c.q:
            return [(st, v)]
        if v.k == "const":
            for n, m in c.members.items():
                if self.py_eq(m, v):
                    return [(st, T("enum", c.q, n))]
            return [(st, Raised("ValueError", self.loc(st)))]
        out: list = []
        fv = self.freeze(st, v)
        dom = st.oneof.get(fv)
        if dom is not None:
            for x in sorted(dom, key=show):
                s = st.copy()
                if self.assume(s, self.mk_eq(s, fv, x), True):
                    out += self.enum_lookup(c, x, s)
            return out
        vals = T("seq", "tuple", tuple(one(m) for m in c.members.values()))
        t, f = self.branch(st, self.mk_in(st, fv, vals))
        for s in t:
            r = T("app", "enum", T("cls", c.q), fv)
            s.types[r] = frozenset([c.q])
            out.append((s, r))
        for s in f:
            out.append((s, Raised("ValueError", self.loc(s))))
        return out

    def obj_method(self, o: Term, name: str, args: list, kwargs: dict, st: State) -> list:
        if name == "__setattr__" and args and args[0].k == "const":
            return [(s, r if r is not None else NONE) for s, r in self.setattr(o, cval(args[0]), args[1], st, True)]
        if name in ("__init__", "__init_subclass__", "__post_init__"):
            return [(st, NONE)]
        if name in ("__repr__", "__str__"):
            return [(st, T("fmt", self.freeze(st, o), "", "r"))]
        return [(st, unk(f"object.{name}"))]

    # ------------------------------------------------------------------ builtins

    def builtin_call(self, name: str, args: list, kwargs: dict, st: State) -> list:
        b = getattr(builtins, name, None)
        if isinstance(b, type) and issubclass(b, BaseException):
            return [(st, T("exc", name, ""))]
        args = [self.force(a) for a in args]
        m = getattr(self, "bi_" + name, None)
        if m is None:
            if name == "print":
                st.event("io", "print")
                return [(st, NONE)]
            if all(a.k == "const" for a in args) and not kwargs and name in ("abs", "ord", "chr", "round", "divmod", "pow", "hex", "bin", "ascii"):
                try:
                    return [(st, const(b(*[cval(a) for a in args])))]
                except Exception:
                    return [(st, unk(name))]
            if name in ("open", "input", "eval", "exec", "__import__", "globals", "locals", "vars", "compile"):
                return [(st, unk(f"builtin {name}"))]
            return [(st, T("app", name, *[self.freeze(st, a) for a in args]))]
        return m(args, kwargs, st)

    def bi_isinstance(self, args: list, kwargs: dict, st: State) -> list:
        atoms = self.class_atoms(args[1], st)
        v = args[0]
        if atoms is None:
            return [(st, T("truthy", T("app", "isinstance", self.freeze(st, v), self.freeze(st, args[1]))))]
        if v.k in ("func", "cls", "mod", "ext", "builtin", "bound", "partial", "regex"):
            return [(st, FALSE if "other" not in atoms else TRUE)]
        if v.k == "exc":
            return [(st, unk("isinstance of an exception"))]
        if v.k == "seq" and v.a[0] == "gen":
            return [(st, FALSE)]
        c = self.mk_isinst(st, v, atoms)
        d = self.decide(st, c)
        if d is not None:
            return [(st, TRUE if d else FALSE)]
        return [(st, c)]

    def bi_issubclass(self, args: list, kwargs: dict, st: State) -> list:
        a, b = args
        if a.k == "cls":
            items = self.concrete_items(st, b) or [b]
            if all(x.k == "cls" for x in items):
                return [(st, TRUE if any(self.classes[a.a[0]].subclass_of(x.a[0]) for x in items) else FALSE)]
        return [(st, unk("issubclass"))]

    def bi_len(self, args: list, kwargs: dict, st: State) -> list:
        v = args[0]
        if v.k == "const":
            try:
                return [(st, const(len(cval(v))))]
            except TypeError:
                return [(st, Raised("TypeError", self.loc(st)))]
        if v.k == "obj" and self.rec(st, v).kind == "inst":
            return self.call_method(v, "__len__", [], {}, st)
        if (v.k == "obj" and self.rec(st, v).kind == "dict") or v.k == "dict":
            ents = self.dict_entries(st, v)
            if all(e.k == "entry" for e in ents):
                return [(st, const(len(ents)))]
            return [(st, T("app", "len", self.freeze(st, v)))]
        segs = self.as_segs(st, v)
        isset = self.types(st, v) <= {"set"}
        if segs is not None:
            if all(s.k == "one" for s in segs) and (not isset or len(segs) <= 1 or all(s.a[0].k in ("const", "enum") for s in segs)):
                return [(st, const(len(segs)))]
            if isset and all(s.k == "one" for s in segs):
                fz = [self.freeze(st, s.a[0]) for s in segs]
                if all(self.py_eq(x, y) is False for i, x in enumerate(fz) for y in fz[:i]):
                    return [(st, const(len(segs)))]
            if len(segs) == 1 and not isset:
                s = segs[0]
                if s.k == "spread":
                    return [(st, T("app", "len", s.a[0]))]
                if s.k == "for" and all(len(c[0]) == 1 and c[0][0].k == "one" for c in s.a[1]):
                    return [(st, T("app", "len", s.a[0]))]
            return [(st, T("app", "len", self.freeze(st, v)))]
        ts = self.types(st, v)
        sized = frozenset(["str", "bytes", "list", "tuple", "set", "dict", "otherseq", "other"])
        out: list = []
        if not ts <= sized:
            good = frozenset(a for a in ts if a in sized or ("." in a and self.classes[a].lookup("__len__")))
            bad = ts - good
            if bad:
                f = st.copy()
                if self._settypes(f, v, bad):
                    out.append((f, Raised("TypeError", self.loc(st))))
            if not good:
                return out
            self._settypes(st, v, good)
        out.append((st, T("app", "len", self.freeze(st, v))))
        return out

    def bi_str(self, args: list, kwargs: dict, st: State) -> list:
        if not args:
            return [(st, EMPTY)]
        if len(args) > 1 or kwargs:
            if self.types(st, args[0]) <= {"bytes"} and self.strict_utf8(args[1:], kwargs):
                return [(st, T("app", "decode", self.freeze(st, args[0])))]
            return [(st, T("app", "decode", self.freeze(st, args[0]), *[self.freeze(st, a) for a in args[1:]],
                           *[T("kw", n, self.freeze(st, a)) for n, a in sorted(kwargs.items())]))]

        return self.to_str(args[0], "", "s", st)

    @staticmethod
    def strict_utf8(args: list, kwargs: dict) -> bool:
        enc = args[0] if args else kwargs.get("encoding", const("utf-8"))
        err = args[1] if len(args) > 1 else kwargs.get("errors", const("strict"))
        return enc.k == err.k == "const" and str(cval(enc)).lower().replace("-", "").replace("_", "") == "utf8" and cval(err) == "strict"

    def bi_repr(self, args: list, kwargs: dict, st: State) -> list:
        v = args[0]
        if v.k == "obj" and self.rec(st, v).kind == "inst":
            c = self.rec(st, v).cls
            r = c.lookup("__repr__")
            if r is not None:
                return self.call_method(v, "__repr__", [], {}, st)
        return self.to_str(v, "", "r", st)

    def bi_format(self, args: list, kwargs: dict, st: State) -> list:
        sp = args[1] if len(args) > 1 else EMPTY
        if sp.k != "const":
            return [(st, unk("format spec"))]
        return self.to_str(args[0], cval(sp), "", st)

    def bi_bool(self, args: list, kwargs: dict, st: State) -> list:
        if not args:
            return [(st, FALSE)]
        return self.truth_of(st, args[0])

    def bi_int(self, args: list, kwargs: dict, st: State) -> list:
        return self._conv("int", int, args, st)

    def bi_float(self, args: list, kwargs: dict, st: State) -> list:
        return self._conv("float", float, args, st)

    def _conv(self, name: str, f: Callable, args: list, st: State) -> list:
        if args and args[0].k == "const" and len(args) == 1:
            try:
                return [(st, const(f(cval(args[0]))))]
            except Exception as e:
                return [(st, Raised(type(e).__name__, self.loc(st)))]
        v = self.freeze(st, args[0]) if args else const(f())
        ts = self.types(st, v)
        if name == "float" and v in self.leaf_float:
            return [(st, self.leaf_float[v])]
        if ts <= {name}:
            return [(st, v)]
        t = T("app", name, v)
        return [(st, t)]

    def leaf_solid(self, x: Term) -> bool:
        """No string of the leaf's language is empty or begins or ends with white space."""
        from . import regexlang as L
        key = ("solid", id(self.leaves[x][0]))
        if key not in self._leaf_memo:
            self._leaf_memo[key] = L.difference(self.leaves[x][0] & L.Regex(r"\S(?:[\s\S]*\S)?", 0, "fullmatch"), self.leaves[x][0]) is None
        return self._leaf_memo[key]

    def quant(self, kind: str, v: Term, st: State) -> list:
        segs = self.iter_segs(st, v)
        res: list = []
        cur = [st]
        stop_on = kind == "any"
        for sg in segs:
            nxt: list = []
            for s in cur:
                if sg.k == "one":
                    for s2, c in self.truth_of(s, sg.a[0]):
                        if isinstance(c, Raised):
                            res.append((s2, c))
                            continue
                        t, f = self.branch(s2, c)
                        for x in (t if stop_on else f):
                            res.append((x, TRUE if stop_on else FALSE))
                        nxt += f if stop_on else t
                else:
                    if sg.k == "spread":
                        base = sg.a[0]
                        cases = [(self.truth(s, elem(base)), frozenset())]
                    else:
                        base = sg.a[0]
                        cases = []
                        for body, alts in sg.a[1]:
                            if len(body) == 0:
                                val = FALSE if stop_on else TRUE
                            elif len(body) == 1 and body[0].k == "one":
                                val = self.truth(s, body[0].a[0])
                            else:
                                cases = None
                                break
                            for alt in (alts or [frozenset()]):
                                cases.append((val, alt))
                    if cases is None:
                        res.append((s, unk(f"{kind}()")))
                        continue
                    c = T("quant", kind, base, tuple(sorted(set(cases), key=show)))
                    d = self.decide(s, c)
                    if d is None:
                        t, f = self.branch(s, c)
                    else:
                        t, f = ([s], []) if d else ([], [s])
                    for x in (t if stop_on else f):
                        res.append((x, TRUE if stop_on else FALSE))
                    nxt += f if stop_on else t
            cur = nxt
        res += [(s, FALSE if stop_on else TRUE) for s in cur]
        return res

    def bi_all(self, args: list, kwargs: dict, st: State) -> list:
        return self.quant("all", args[0], st)

    def bi_any(self, args: list, kwargs: dict, st: State) -> list:
        return self.quant("any", args[0], st)

    def _each(self, segs_src: Term, f: Callable, st: State) -> list:
        """Apply f(state, value) -> [(state, segs|Raised)] to each element; collect a list of segments."""
        acc = self.alloc(st, "list", ())
        var = f".each{next(self.ids)}"
        target = ast.Name(var, ast.Store())

        def body(s: State) -> list:
            v = s.frames[s.cur].get(var)
            out: list = []
            for s2, r in f(s, v):
                if isinstance(r, Raised):
                    out.append((s2, RAISE, r))
                else:
                    rec = self.rec(s2, acc)
                    s2.heap[acc.a[0]] = Rec("list", None, rec.data + tuple(r))
                    out.append((s2, NEXT, None))
            return out

        res: list = []
        for s, sig, v in self.loop(target, segs_src, body, st):
            data = self.rec(s, acc).data
            s.heap.pop(acc.a[0], None)
            s.frames[s.cur].pop(var, None)
            res.append((s, v if sig == RAISE else T("seq", "gen", data)))
        return res

    def bi_map(self, args: list, kwargs: dict, st: State) -> list:
        if len(args) != 2:
            return [(st, unk("map over several sequences"))]
        fn = args[0]
        return self._each(args[1], lambda s, v: [(s2, r if isinstance(r, Raised) else (one(r),)) for s2, r in self.call(fn, [v], {}, s)], st)

    def bi_filter(self, args: list, kwargs: dict, st: State) -> list:
        fn = args[0]

        def f(s: State, v: Term) -> list:
            rs = [(s, v)] if fn is NONE else self.call(fn, [v], {}, s)
            out: list = []
            for s2, r in rs:
                if isinstance(r, Raised):
                    out.append((s2, r))
                    continue
                for s3, c in self.truth_of(s2, r):
                    t, fl = self.branch(s3, c)
                    out += [(x, (one(v),)) for x in t] + [(x, ()) for x in fl]
            return out

        return self._each(args[1], f, st)

    def _collect(self, kind: str, args: list, st: State) -> list:
        if not args:
            return [(st, seq("tuple") if kind == "tuple" else self.alloc(st, kind, ()))]
        v = args[0]
        ts = self.types(st, v)
        out: list = []
        made = v.k == "app" and v.a[0] in ("range", "enumerate", "zip", "reversed", "items", "keys", "values", "map", "filter")
        if v.k not in ("obj", "seq", "dict", "const") and not made:
            bad = frozenset(a for a in ts if a in ("NoneType", "bool", "int", "float", "date", "datetime")
                            or ("." in a and self.classes[a].lookup("__iter__") is None))
            if bad == ts:
                return [(st, Raised("TypeError", self.loc(st)))]
            if bad:
                f = st.copy()
                if self._settypes(f, v, bad):
                    out.append((f, Raised("TypeError", self.loc(st))))
                self._settypes(st, v, ts - bad)
        segs = tuple(self.iter_segs(st, v))
        if kind == "tuple":
            if len(segs) == 1 and segs[0].k == "spread" and self.types(st, segs[0].a[0]) <= {"tuple"}:
                return out + [(st, segs[0].a[0])]
            return out + [(st, seq("tuple", *[self.freeze(st, s) for s in segs]))]
        return out + [(st, self.alloc(st, kind, norm_segs(segs, kind)))]

    def bi_list(self, args: list, kwargs: dict, st: State) -> list:
        return self._collect("list", args, st)

    def bi_tuple(self, args: list, kwargs: dict, st: State) -> list:
        return self._collect("tuple", args, st)

    def bi_set(self, args: list, kwargs: dict, st: State) -> list:
        return self._collect("set", args, st)

    bi_frozenset = bi_set

    def bi_dict(self, args: list, kwargs: dict, st: State) -> list:
        ents: tuple = ()
        if args:
            v = args[0]
            if self.types(st, v) <= {"dict"} or v.k == "dict":
                ents = self.dict_entries(st, v)
            else:
                segs = self.as_segs(st, v)
                if segs is None:
                    ents = (spread(self.freeze(st, v)),)
                else:
                    for s in segs:
                        pair = self.concrete_items(st, s.a[0]) if s.k == "one" else None
                        if pair is not None and len(pair) == 2:
                            ents = self.dict_merge(st, ents, (T("entry", self.freeze(st, pair[0]), pair[1]),))
                        elif s.k == "for":
                            cs = []
                            for body, alts in s.a[1]:
                                nb = []
                                for x in body:
                                    p = self.concrete_items(st, x.a[0]) if x.k == "one" else None
                                    if p is None or len(p) != 2:
                                        return [(st, unk("dict()"))]
                                    nb.append(T("entry", p[0], p[1]))
                                cs.append((tuple(nb), alts))
                            ents += (T("for", s.a[0], tuple(cs)),)
                        else:
                            return [(st, unk("dict()"))]
        for n, v in kwargs.items():
            if n == "**":
                ents += tuple(v.a[1])
            else:
                ents = self.dict_merge(st, ents, (T("entry", const(n), v),))
        return [(st, self.alloc(st, "dict", ents))]

    def sort_items(self, items: Optional[list], kwargs: dict, st: State) -> list:
        """[(state, items in order or None when the order is not known)]"""
        if items is None or set(kwargs) - {"key", "reverse"}:
            return [(st, None)]
        rev = kwargs.get("reverse", FALSE)
        if rev.k != "const":
            return [(st, None)]
        if len(items) <= 1 and "key" not in kwargs:
            return [(st, list(items))]
        key = kwargs.get("key", NONE)
        runs: list = [(st, [])]
        for x in items:
            nxt: list = []
            for s, ks in runs:
                if isinstance(ks, Raised):
                    nxt.append((s, ks))
                    continue
                for s2, k in [(s, x)] if key is NONE else self.call(key, [x], {}, s):
                    nxt.append((s2, k if isinstance(k, Raised) else ks + [k]))
            runs = nxt
            if len(runs) > 40:
                return [(st, None)]
        out: list = []
        for s, ks in runs:
            if isinstance(ks, Raised):
                out.append((s, ks))
                continue
            vals = [self.plain(s, k) for k in ks]
            if any(v is None for v in vals):
                out.append((s, None))
                continue
            try:
                order = sorted(range(len(items)), key=lambda i: vals[i][0], reverse=bool(cval(rev)))
            except TypeError:
                out.append((s, Raised("TypeError", self.loc(s))))
                continue
            out.append((s, [items[i] for i in order]))
        return out

    def plain(self, st: State, k: Term) -> Optional[tuple]:
        """(value,) of a term that is a constant or a tuple or list of constants"""
        if k.k == "const":
            return (cval(k),)
        xs = self.concrete_items(st, k) if k.k in ("seq", "obj") else None
        if xs is None:
            return None
        vs = [self.plain(st, x) for x in xs]
        return None if any(v is None for v in vs) else (tuple(v[0] for v in vs),)

    def bi_sorted(self, args: list, kwargs: dict, st: State) -> list:
        out: list = []
        for s, order in self.sort_items(self.concrete_items(st, args[0]), kwargs, st):
            if isinstance(order, Raised):
                out.append((s, order))
            elif order is not None:
                out.append((s, self.alloc(s, "list", tuple(one(x) for x in order))))
            else:
                t = T("app", "sorted", self.freeze(s, args[0]), *[T("kw", n, self.freeze(s, v)) for n, v in sorted(kwargs.items())])
                out.append((s, self.alloc(s, "list", (spread(t),))))
        return out

    def bi_reversed(self, args: list, kwargs: dict, st: State) -> list:
        items = self.concrete_items(st, args[0])
        if items is not None:
            return [(st, seq("gen", *[one(x) for x in reversed(items)]))]
        return [(st, T("app", "reversed", self.freeze(st, args[0])))]

    def bi_enumerate(self, args: list, kwargs: dict, st: State) -> list:
        start = cval(args[1]) if len(args) > 1 and args[1].k == "const" else (cval(kwargs["start"]) if "start" in kwargs and kwargs["start"].k == "const" else 0)
        items = self.concrete_items(st, args[0])
        if items is not None:
            return [(st, seq("gen", *[one(seq("tuple", one(const(i + start)), one(x))) for i, x in enumerate(items)]))]
        segs = self.as_segs(st, args[0])
        if segs is not None and len(segs) == 1 and segs[0].k == "spread" and start == 0:
            return [(st, T("app", "enumerate", segs[0].a[0]))]
        if segs is not None and len(segs) == 1 and segs[0].k == "for" and len(segs[0].a[1]) == 1 and len(segs[0].a[1][0][0]) == 1:
            sg = segs[0]
            body = sg.a[1][0][0][0]
            if body.k == "one":
                idx = T("idx", self.freeze(st, args[0]), elem(sg.a[0]))
                return [(st, T("seq", "gen", (mkfor(sg.a[0], (((one(seq("tuple", one(idx), body)),), frozenset()),)),)))]
        if start != 0:
            return [(st, unk("enumerate with a start"))]
        return [(st, T("app", "enumerate", self.freeze(st, args[0])))]

    def bi_zip(self, args: list, kwargs: dict, st: State) -> list:
        cols = [self.concrete_items(st, a) for a in args]
        if all(c is not None for c in cols):
            return [(st, seq("gen", *[one(seq("tuple", *[one(x) for x in row])) for row in zip(*cols)]))]
        return [(st, T("app", "zip", *[self.freeze(st, a) for a in args]))]

    def bi_range(self, args: list, kwargs: dict, st: State) -> list:
        lo, hi, step = const(0), None, 1
        if len(args) == 1:
            hi = args[0]
        else:
            lo, hi = args[0], args[1]
            if len(args) > 2:
                if args[2].k != "const":
                    return [(st, unk("range step"))]
                step = cval(args[2])
        return [(st, T("app", "range", lo, self.freeze(st, hi), step))]

    def bi_sum(self, args: list, kwargs: dict, st: State) -> list:
        if len(args) > 1 or kwargs:
            return [(st, unk("sum with a start"))]
        items = self.concrete_items(st, args[0])
        if items is not None and all(x.k == "const" for x in items):
            try:
                return [(st, const(sum(cval(x) for x in items)))]
            except TypeError:
                pass
        return [(st, T("app", "sum", *[self.freeze(st, a) for a in args]))]

    def _minmax(self, name: str, args: list, kwargs: dict, st: State) -> list:
        items = self.concrete_items(st, args[0]) if len(args) == 1 else args
        if items is not None and items and all(x.k == "const" for x in items) and not kwargs:
            try:
                return [(st, const((min if name == "min" else max)(cval(x) for x in items)))]
            except TypeError:
                pass
        return [(st, T("app", name, *[self.freeze(st, a) for a in args]))]

    def bi_min(self, args: list, kwargs: dict, st: State) -> list:
        return self._minmax("min", args, kwargs, st)

    def bi_max(self, args: list, kwargs: dict, st: State) -> list:
        return self._minmax("max", args, kwargs, st)

    def bi_getattr(self, args: list, kwargs: dict, st: State) -> list:
        n = args[1]
        if n.k == "const":
            name = cval(n)
            return self.getattr(args[0], name, st, None, args[2] if len(args) > 2 else None)
        if n in st.oneof:
            out: list = []
            for x in sorted(st.oneof[n], key=show):
                s = st.copy()
                if self.assume(s, self.mk_eq(s, n, x), True):
                    out += self.bi_getattr([args[0], x] + args[2:], kwargs, s)
            return out
        return [(st, unk("getattr with a computed name"))]

    def bi_hasattr(self, args: list, kwargs: dict, st: State) -> list:
        n = args[1]
        if n.k != "const":
            return [(st, unk("hasattr"))]
        v = args[0]
        if v.k in ("obj", "new", "enum", "cls", "mod"):
            r = self.getattr(v, cval(n), st.copy())
            return [(st, FALSE if isinstance(r[0][1], Raised) else TRUE)]
        yes = set()
        for a in self.types(st, v):
            if a in PYTYPES:
                if hasattr(PYTYPES[a], cval(n)):
                    yes.add(a)
            elif a in ("other", "otherseq"):
                return [(st, T("truthy", T("app", "hasattr", v, n)))]
            else:
                c = self.classes[a]
                if c.lookup(cval(n)) or any(f.name == cval(n) for f in c.fields()):
                    yes.add(a)
        return [(st, T("isinst", v, frozenset(yes)))]

    def bi_setattr(self, args: list, kwargs: dict, st: State) -> list:
        if args[1].k != "const":
            return [(st, unk("setattr with a computed name"))]
        return [(s, r if r is not None else NONE) for s, r in self.setattr(args[0], cval(args[1]), args[2], st)]

    def bi_type(self, args: list, kwargs: dict, st: State) -> list:
        v = args[0]
        if v is NONE:
            return [(st, T("app", "type", NONE))]
        if v.k in ("obj", "new", "enum", "const", "cat", "seq", "dict"):
            ts = self.types(st, v)
            if len(ts) == 1:
                a = next(iter(ts))
                return [(st, T("cls", a) if "." in a else T("builtin", a) if a in BUILTIN_ATOMS and hasattr(builtins, a) else T("app", "type", v))]
        return [(st, T("app", "type", self.freeze(st, v)))]

    def bi_iter(self, args: list, kwargs: dict, st: State) -> list:
        return [(st, T("seq", "gen", tuple(self.iter_segs(st, args[0]))))]

    def bi_next(self, args: list, kwargs: dict, st: State) -> list:
        v = args[0]
        segs = self.as_segs(st, v)
        if segs is not None:
            if not segs:
                return [(st, args[1])] if len(args) > 1 else [(st, Raised("StopIteration", self.loc(st)))]
            if segs[0].k == "one":
                return [(st, segs[0].a[0])]
            if len(args) > 1 and len(segs) == 1 and segs[0].k == "for":
                # first element satisfying a guard, else the default
                sg = segs[0]
                some = T("app", "first", T("seq", "gen", (sg,)))
                c = T("truthy", T("seq", "list", (sg,)))
                t, f = self.branch(st, c)
                return [(s, some) for s in t] + [(s, args[1]) for s in f]
        return [(st, unk("next()"))]

    def bi_callable(self, args: list, kwargs: dict, st: State) -> list:
        v = args[0]
        if v.k in ("func", "bound", "cls", "builtin", "partial", "bm"):
            return [(st, TRUE)]
        return [(st, T("truthy", T("app", "callable", self.freeze(st, v))))]

    def bi_hash(self, args: list, kwargs: dict, st: State) -> list:
        v = args[0]
        if v.k == "obj" and self.rec(st, v).kind == "inst":
            r = self.rec(st, v).cls.lookup("__hash__")
            if r is not None and r[1].k == "func":
                return self.call_method(v, "__hash__", [], {}, st)
        return [(st, T("app", "hash", self.freeze(st, v)))]

    def bi_object(self, args: list, kwargs: dict, st: State) -> list:
        return [(st, T("app", "object", const(next(self.ids))))]

    def bi_super(self, args: list, kwargs: dict, st: State) -> list:
        return [(st, T("super", args[0].a[0], args[1]))]

    def bi_id(self, args: list, kwargs: dict, st: State) -> list:
        st.event("identity", "id()")
        return [(st, T("app", "id", self.freeze(st, args[0])))]

    # ------------------------------------------------------------------ methods of builtin types

    def builtin_method(self, v: Term, name: str, args: list, kwargs: dict, st: State) -> list:
        v = self.force(v)
        args = [self.force(a) for a in args]
        if v.k == "regex":
            return self.regex_method(v, name, args, kwargs, st)
        if v.k == "rematch":
            return [(st, T("app", "match." + name, v, *[self.freeze(st, a) for a in args]))]
        ts = self.types(st, v)
        if name in DUNDER and len(args) == DUNDER[name] and not kwargs:
            return self.dunder(v, name, args, st)
        if v.k == "obj":
            kind = self.rec(st, v).kind
            m = getattr(self, f"m_{kind}_{name}", None)
            if m is not None:
                return m(v, args, kwargs, st)
            return [(st, unk(f"{kind}.{name}"))]
        if ts <= {"str", "bytes"}:
            return self.str_method(v, name, args, kwargs, st)
        if v.k == "dict" or ts <= {"dict"}:
            m = getattr(self, f"m_dict_{name}", None)
            if m is not None:
                return m(v, args, kwargs, st)
        if v.k == "seq" and v.a[0] in ("tuple", "list", "set"):
            m = getattr(self, f"m_{v.a[0]}_{name}", None) or getattr(self, f"m_list_{name}", None)
            if m is not None and name in ("index", "count", "copy", "union", "intersection", "difference", "issubset", "issuperset", "isdisjoint"):
                return m(v, args, kwargs, st)
        if name in ("append", "extend", "insert", "remove", "clear", "sort", "reverse", "add", "update", "discard", "pop", "setdefault", "popitem"):
            st.event("mutate", self.freeze(st, v), f"{name}()", self.loc(st))
            if name in ("append", "extend", "insert", "remove", "clear", "sort", "reverse", "add", "update", "discard"):
                return [(st, NONE)]
            return [(st, unk(f"{name}() of an input"))]
        if name in ("union", "intersection", "difference", "copy", "issubset", "issuperset", "isdisjoint") and ts <= {"set"}:
            return getattr(self, "m_set_" + name)(v, args, kwargs, st)
        if name == "copy" and ts <= {"list"}:
            return [(st, self.alloc(st, "list", norm_segs(self.iter_segs(st, v), "list")))]
        if ts & {"datetime", "date"} or v.k == "const" and isinstance(v.a[1], _dt.timedelta):
            return self.date_method(v, name, args, kwargs, st)
        return [(st, T("app", name, self.freeze(st, v), *[self.freeze(st, a) for a in args],
                       *[T("kw", n, self.freeze(st, a)) for n, a in sorted(kwargs.items())]))]

    def dunder(self, v: Term, name: str, args: list, st: State) -> list:
        """The operator that the special method implements."""
        if name == "__getitem__":
            return self.getitem(v, args[0], st)
        if name == "__contains__":
            return self.compare("In", args[0], v, st)
        if name in ("__eq__", "__ne__"):
            return self.compare("Eq" if name == "__eq__" else "NotEq", v, args[0], st)
        if name == "__len__":
            return self.call(T("builtin", "len"), [v], {}, st)
        if name == "__str__":
            return self.call(T("builtin", "str"), [v], {}, st)
        return self.call(T("builtin", "repr"), [v], {}, st)

    def tz_const(self, t: Term) -> Any:
        t = self.force(t)
        return _dt.timezone.utc if t.k == "ext" and t.a[0] in ("datetime.timezone.utc", "datetime.UTC") else None

    def date_method(self, v: Term, name: str, args: list, kwargs: dict, st: State) -> list:
        fv = self.freeze(st, v)
        vals = list(args) + list(kwargs.values())
        if fv.k == "const" and all(a.k == "const" or self.tz_const(a) is not None for a in vals) and not (name == "astimezone" and not vals):
            def c(a: Term) -> Any:
                return cval(a) if a.k == "const" else self.tz_const(a)
            try:
                return [(st, const(getattr(cval(fv), name)(*[c(a) for a in args], **{n: c(a) for n, a in kwargs.items()})))]
            except Exception as e:
                return [(st, Raised(type(e).__name__, self.loc(st)))]
        if name == "replace" and not args and list(kwargs) == ["tzinfo"] and kwargs["tzinfo"] is NONE:
            if fv.k == "bin" and fv.a[0] == "-" and fv.a[2] is T("app", "utcoffset", fv.a[1]):
                return [(st, T("app", "naive_utc", fv.a[1]))]
            if fv.k == "app" and fv.a[0] == "astimezone" and len(fv.a) == 3 and fv.a[2].k == "ext" and fv.a[2].a[0] in (
                    "datetime.timezone.utc", "datetime.UTC"):
                return [(st, T("app", "naive_utc", fv.a[1]))]
            r = T("app", "naive", fv)
            st.types[r] = frozenset(["datetime"])
            return [(st, r)]
        if name == "astimezone":
            a = list(args) + [kwargs[n] for n in kwargs]
            r = T("app", "astimezone", fv, *[self.freeze(st, x) for x in a])
            st.types[r] = frozenset(["datetime"])
            return [(st, r)]
        if name == "isoformat" and not args and not kwargs:
            return [(st, T("app", "isoformat", fv))]
        r = T("app", name, fv, *[self.freeze(st, a) for a in args], *[T("kw", n, self.freeze(st, a)) for n, a in sorted(kwargs.items())])
        if name == "replace":
            st.types[r] = self.types(st, v)
        elif name == "date":
            st.types[r] = frozenset(["date"])
        elif name == "strftime":
            st.types[r] = frozenset(["str"])
        return [(st, r)]

    def str_method(self, v: Term, name: str, args: list, kwargs: dict, st: State) -> list:
        if v.k == "const" and all(a.k == "const" for a in args) and not kwargs and name in PURE_STR:
            try:
                r = getattr(cval(v), name)(*[cval(a) for a in args])
            except Exception as e:
                return [(st, Raised(type(e).__name__, self.loc(st)))]
            if isinstance(r, list):
                return [(st, self.alloc(st, "list", tuple(one(const(x)) for x in r)))]
            if isinstance(r, tuple):
                return [(st, seq("tuple", *[one(const(x)) for x in r]))]
            return [(st, const(r))]
        if name == "join":
            a = args[0]
            segs = tuple(self.freeze(st, s) for s in self.iter_segs(st, a))
            return [(st, join(v, segs))]
        if name == "format":
            return self.str_format(v, args, kwargs, st)
        if name == "replace" and len(args) == 2 and all(a.k == "const" for a in args) and len(cval(args[0])) == 1:
            return [(st, self.map_chars(v, {cval(args[0]): cval(args[1])}))]
        if name == "replace" and len(args) == 2 and all(a.k == "const" for a in args) and self.leaves and cval(args[0]):
            # a longer text: no occurrence in or across a leaf without any of its characters
            old, new = (cval(a) for a in args)
            v = self.freeze(st, v)
            ps = list(v.a) if v.k == "cat" else [v]
            if all((p.k == "const" and p.a[0] == "str") or (p in self.leaves and not any(self.leaf_has(p, c) for c in set(old))) for p in ps):
                return [(st, cat(*[const(cval(p).replace(old, new)) if p.k == "const" else p for p in ps]))]
            if v in self.leaves and not self.leaf_has(v, old):
                return [(st, v)]
        if name == "translate" and len(args) == 1:
            ents = self.dict_entries(st, args[0])
            mp: Optional[dict] = {}
            for e in ents:
                if e.k == "entry" and e.a[0].k == "const" and e.a[1].k == "const":
                    kk = cval(e.a[0])
                    vv = cval(e.a[1])
                    mp[chr(kk) if isinstance(kk, int) else kk] = "" if vv is None else chr(vv) if isinstance(vv, int) else vv
                else:
                    mp = None
                    break
            if mp is not None:
                return [(st, self.map_chars(v, mp, True))]
        if name == "maketrans":
            return self.ext_call("str.maketrans", args, kwargs, st)
        fv = self.freeze(st, v)
        if name in ("strip", "lstrip", "rstrip") and not args and (fv.k == "cat" or fv in self.leaves):
            ps = list(fv.a) if fv.k == "cat" else [fv]
            ok = True
            for i, side in ((0, "lstrip"), (-1, "rstrip")):
                if name not in ("strip", side):
                    continue
                if ps[i].k == "const":
                    ps[i] = const(getattr(cval(ps[i]), side)())
                    ok = ok and bool(cval(ps[i]))
                    if not cval(ps[i]) and len(ps) > 1:
                        del ps[i]
                        ok = True
                if ps[i].k != "const" and not (ps[i] in self.leaves and self.leaf_solid(ps[i])):
                    ok = False
            if ok:
                return [(st, cat(*ps))]
        if name in ("split", "rsplit", "partition", "rpartition") and args and args[0].k == "const" and args[0].a[0] == "str" \
                and len(cval(args[0])) == 1 and (name.endswith("partition") or (len(args) == 2 and args[1] is const(1)) or kwargs.get("maxsplit") is const(1)):
            sep = args[0]
            r_ = "r" if name.startswith("r") else ""
            first, last = T("app", r_ + "before", fv, sep), T("app", r_ + "after", fv, sep)
            t, f = self.branch(st, self.mk_in(st, sep, v))
            out = []
            for s in t:
                out.append((s, seq("tuple", one(first), one(sep), one(last)) if name.endswith("partition")
                            else self.alloc(s, "list", (one(first), one(last)))))
            for s in f:
                if name == "partition":
                    out.append((s, seq("tuple", one(v), one(EMPTY), one(EMPTY))))
                elif name == "rpartition":
                    out.append((s, seq("tuple", one(EMPTY), one(EMPTY), one(v))))
                else:
                    out.append((s, self.alloc(s, "list", (one(v),))))
            return out
        if name == "decode" and self.strict_utf8(args, kwargs):
            return [(st, T("app", "decode", fv))]
        if name in ("startswith", "endswith", "isdigit", "isalpha", "isidentifier", "isalnum", "isupper", "islower", "isspace", "isnumeric", "isdecimal", "isascii"):
            return [(st, T("truthy", T("app", name, fv, *[self.freeze(st, a) for a in args])))]
        return [(st, T("app", name, fv, *[self.freeze(st, a) for a in args], *[T("kw", n, self.freeze(st, a)) for n, a in sorted(kwargs.items())]))]

    def map_chars(self, v: Term, mp: dict, simultaneous: bool = False) -> Term:
        if v.k == "cat":
            return cat(*[self.map_chars(p, mp) for p in v.a])
        if v.k == "join":
            sep = self.map_chars(v.a[0], mp)
            segs = []
            for s in v.a[1]:
                if s.k == "one":
                    segs.append(one(self.map_chars(s.a[0], mp)))
                elif s.k == "for":
                    segs.append(mkfor(s.a[0], tuple((tuple(one(self.map_chars(x.a[0], mp)) for x in body), al) for body, al in s.a[1])))
                else:
                    return T("app", "replace", v, *[const(x) for kv in sorted(mp.items()) for x in kv])
            return join(sep, tuple(segs))
        if v in self.leaves:
            mp = {c: x for c, x in mp.items() if self.leaf_has(v, c)}
        return charmap(v, mp)

    def leaf_has(self, x: Term, text: str) -> bool:
        """May a string of the leaf's language contain the text?"""
        import re
        from . import regexlang as L
        key = ("has", id(self.leaves[x][0]), text)
        if key not in self._leaf_memo:
            lang = self.leaves[x][0]
            self._leaf_memo[key] = L.difference(lang & ~L.Regex(r"[\s\S]*" + re.escape(text) + r"[\s\S]*", 0, "fullmatch"), lang) is not None
        return self._leaf_memo[key]

    def str_format(self, v: Term, args: list, kwargs: dict, st: State) -> list:
        if v.k != "const":
            return [(st, unk("format of a computed template"))]
        acc: list = [(st, [])]
        auto = 0
        for lit, field, spec, conv in string.Formatter().parse(cval(v)):
            if lit:
                acc = [(s, p + [const(lit)]) for s, p in acc]
            if field is None:
                continue
            base = field
            rest: list = []
            for i, ch in enumerate(field):
                if ch in ".[":
                    base, tail = field[:i], field[i:]
                    if "[" in tail:
                        return [(st, unk("format field"))]
                    rest = tail[1:].split(".")
                    break
            if base == "":
                base = str(auto)
                auto += 1
            x = args[int(base)] if base.isdigit() and int(base) < len(args) else kwargs.get(base)
            if x is None or (spec and "{" in spec):
                return [(st, unk("format field"))]
            nxt: list = []
            for s, p in acc:
                rs = [(s, x)]
                for r in rest:
                    rs = self.bind(rs, lambda s2, y, r=r: self.getattr(y, r, s2))
                for s2, y in self.bind(rs, lambda s2, y: self.to_str(y, spec or "", conv or "", s2)):
                    if isinstance(y, Raised):
                        return [(s2, y)]
                    nxt.append((s2, p + [y]))
            acc = nxt
        return [(s, cat(*p)) for s, p in acc]

    # ---- lists

    def m_list_append(self, v: Term, args: list, kwargs: dict, st: State) -> list:
        self.setrec(st, v, self.rec(st, v).data + (one(args[0]),), "append()")
        return [(st, NONE)]

    def m_list_extend(self, v: Term, args: list, kwargs: dict, st: State) -> list:
        self.setrec(st, v, norm_segs(self.rec(st, v).data + tuple(self.iter_segs(st, args[0])), "list"), "extend()")
        return [(st, NONE)]

    def m_list_insert(self, v: Term, args: list, kwargs: dict, st: State) -> list:
        d = self.rec(st, v).data
        if args[0] is const(0):
            nd: tuple = (one(args[1]),) + d
        elif args[0].k == "const" and all(x.k == "one" for x in d):
            l = list(d)
            l.insert(cval(args[0]), one(args[1]))
            nd = tuple(l)
        else:
            nd = (spread(unk("insert()")),)
        self.setrec(st, v, norm_segs(nd, "list"), "insert()")
        return [(st, NONE)]

    def m_list_pop(self, v: Term, args: list, kwargs: dict, st: State) -> list:
        d = self.rec(st, v).data
        if not args and d and d[-1].k == "one":
            self.setrec(st, v, d[:-1], "pop()")
            return [(st, d[-1].a[0])]
        if args and args[0] is const(0) and d and d[0].k == "one":
            self.setrec(st, v, d[1:], "pop()")
            return [(st, d[0].a[0])]
        if not d:
            return [(st, Raised("IndexError", self.loc(st)))]
        self.setrec(st, v, (spread(unk("pop()")),), "pop()")
        return [(st, unk("pop()"))]

    def m_list_clear(self, v: Term, args: list, kwargs: dict, st: State) -> list:
        self.setrec(st, v, (), "clear()")
        return [(st, NONE)]

    m_set_clear = m_list_clear
    m_dict_clear = m_list_clear

    def m_list_remove(self, v: Term, args: list, kwargs: dict, st: State) -> list:
        d = self.rec(st, v).data
        fa = self.freeze(st, args[0])
        for i, x in enumerate(d):
            if x.k == "one" and self.freeze(st, x.a[0]) is fa:
                self.setrec(st, v, d[:i] + d[i + 1:], "remove()")
                return [(st, NONE)]
            if x.k != "one":
                break
        self.setrec(st, v, (spread(unk("remove()")),), "remove()")
        return [(st, NONE)]

    def m_list_sort(self, v: Term, args: list, kwargs: dict, st: State) -> list:
        d = self.rec(st, v).data
        items = [x.a[0] for x in d] if all(x.k == "one" for x in d) else None
        out: list = []
        for s, order in self.sort_items(items, kwargs, st):
            if isinstance(order, Raised):
                out.append((s, order))
                continue
            if order is not None:
                self.setrec(s, v, tuple(one(x) for x in order), "sort()")
            else:
                f = self.freeze(s, v)
                self.setrec(s, v, (spread(T("app", "sorted", f, *[T("kw", n, self.freeze(s, a)) for n, a in sorted(kwargs.items())])),), "sort()")
            out.append((s, NONE))
        return out

    def m_list_reverse(self, v: Term, args: list, kwargs: dict, st: State) -> list:
        d = self.rec(st, v).data
        nd = tuple(reversed(d)) if all(x.k == "one" for x in d) else (spread(T("app", "reversed", self.freeze(st, v))),)
        self.setrec(st, v, nd, "reverse()")
        return [(st, NONE)]

    def m_list_copy(self, v: Term, args: list, kwargs: dict, st: State) -> list:
        return [(st, self.alloc(st, "list", tuple(self.iter_segs(st, v))))]

    def m_list_index(self, v: Term, args: list, kwargs: dict, st: State) -> list:
        items = self.concrete_items(st, v)
        if items is not None and args[0].k == "const":
            for i, x in enumerate(items):
                if self.py_eq(x, args[0]):
                    return [(st, const(i))]
        return [(st, T("app", "index", self.freeze(st, v), self.freeze(st, args[0])))]

    def m_list_count(self, v: Term, args: list, kwargs: dict, st: State) -> list:
        return [(st, T("app", "count", self.freeze(st, v), self.freeze(st, args[0])))]

    # ---- sets

    def m_set_add(self, v: Term, args: list, kwargs: dict, st: State) -> list:
        self.setrec(st, v, norm_segs(self.rec(st, v).data + (one(self.freeze(st, args[0])),), "set"), "add()")
        return [(st, NONE)]

    def m_set_update(self, v: Term, args: list, kwargs: dict, st: State) -> list:
        d = self.rec(st, v).data
        for a in args:
            d = d + tuple(self.freeze(st, x) for x in self.iter_segs(st, a))
        self.setrec(st, v, norm_segs(d, "set"), "update()")
        return [(st, NONE)]

    def m_set_discard(self, v: Term, args: list, kwargs: dict, st: State) -> list:
        d = self.rec(st, v).data
        fa = self.freeze(st, args[0])
        if all(x.k == "one" and x.a[0].k in ("const", "enum") for x in d) and fa.k in ("const", "enum"):
            self.setrec(st, v, tuple(x for x in d if not self.py_eq(x.a[0], fa)), "discard()")
        else:
            self.setrec(st, v, (spread(T("app", "setminus", self.freeze(st, v), fa)),), "discard()")
        return [(st, NONE)]

    m_set_remove = m_set_discard

    def flat_segs(self, st: State, v: Term) -> tuple:
        """The segments of the concatenation of the iterables in v."""
        out: tuple = ()
        for sg in (v,) if v.k in ("for", "one", "spread") else self.iter_segs(st, v):
            if sg.k == "one":
                out += tuple(self.freeze(st, y) for y in self.iter_segs(st, sg.a[0]))
            elif sg.k == "for":
                cs = []
                for body, al in sg.a[1]:
                    nb: tuple = ()
                    for x in body:
                        if x.k == "one":
                            nb += tuple(self.freeze(st, y) for y in self.iter_segs(st, x.a[0]))
                        else:
                            nb += (T("flat", T("seq", "list", (x,))),)
                    cs.append((nb, al))
                out += (mkfor(sg.a[0], tuple(cs)),)
            else:
                out += (T("flat", T("seq", "list", (sg,))),)
        return out

    def m_set_union(self, v: Term, args: list, kwargs: dict, st: State) -> list:
        d = tuple(self.iter_segs(st, v))
        for a in args:
            if a.k == "star":
                d = d + self.flat_segs(st, a.a[0])
            else:
                d = d + tuple(self.iter_segs(st, a))
        return [(st, self.alloc(st, "set", norm_segs([self.freeze(st, x) for x in d], "set")))]

    def m_set_copy(self, v: Term, args: list, kwargs: dict, st: State) -> list:
        return [(st, self.alloc(st, "set", tuple(self.iter_segs(st, v))))]

    def desugar(self, src: str, names: dict, st: State) -> list:
        """Evaluate the expression src, in which the given names stand for given values."""
        import ast as _ast
        n = next(self.ids)
        tree = _ast.parse(src, mode="eval").body
        tmp = {k: f".{k}{n}" for k in names}
        for x in _ast.walk(tree):
            if isinstance(x, _ast.Name) and x.id in tmp:
                x.id = tmp[x.id]
        for k, v in names.items():
            st.frames[st.cur] = dict(st.frames[st.cur])
            st.frames[st.cur][tmp[k]] = v
        out = self.ev(tree, st)
        for s, _ in out:
            s.frames[s.cur] = {k: v for k, v in s.frames[s.cur].items() if k not in tmp.values()}
        return out

    def _setop(self, src: str, v: Term, args: list, st: State) -> list:
        rs: list = [(st, v)]
        for a in args:
            nxt: list = []
            for s, x in rs:
                nxt += [(s, x)] if isinstance(x, Raised) else self.desugar(src, {"aa": x, "bb": a}, s)
            rs = nxt
        return rs

    def m_set_difference(self, v: Term, args: list, kwargs: dict, st: State) -> list:
        return self._setop("{x for x in aa if x not in bb}", v, args, st) if args else self.m_set_copy(v, args, kwargs, st)

    def m_set_intersection(self, v: Term, args: list, kwargs: dict, st: State) -> list:
        return self._setop("{x for x in aa if x in bb}", v, args, st) if args else self.m_set_copy(v, args, kwargs, st)

    def m_set_symmetric_difference(self, v: Term, args: list, kwargs: dict, st: State) -> list:
        return self._setop("{*(x for x in aa if x not in bb), *(x for x in bb if x not in aa)}", v, args, st)

    def m_set_issubset(self, v: Term, args: list, kwargs: dict, st: State) -> list:
        return self._setop("all(x in bb for x in aa)", v, args, st)

    def m_set_issuperset(self, v: Term, args: list, kwargs: dict, st: State) -> list:
        return self._setop("all(x in aa for x in bb)", v, args, st)

    def m_set_isdisjoint(self, v: Term, args: list, kwargs: dict, st: State) -> list:
        return self._setop("not any(x in bb for x in aa)", v, args, st)

    # ---- dicts

    def m_dict_get(self, v: Term, args: list, kwargs: dict, st: State) -> list:
        return self.dict_get(v, args[0], args[1] if len(args) > 1 else NONE, st)

    def m_dict_items(self, v: Term, args: list, kwargs: dict, st: State) -> list:
        ents = self.dict_entries(st, v)
        segs: list = []
        for e in ents:
            if e.k == "entry":
                segs.append(one(seq("tuple", one(e.a[0]), one(e.a[1]))))
            elif e.k == "for" and all(all(x.k == "entry" for x in b) for b, _ in e.a[1]):
                segs.append(T("for", e.a[0], tuple((tuple(one(seq("tuple", one(x.a[0]), one(x.a[1]))) for x in b), al) for b, al in e.a[1])))
            else:
                src = e.a[0] if e.k == "spread" else None
                if src is None:
                    return [(st, unk("items()"))]
                segs.append(spread(T("app", "items", self.freeze(st, src))))
        return [(st, T("seq", "gen", tuple(segs)))]

    def m_dict_keys(self, v: Term, args: list, kwargs: dict, st: State) -> list:
        ents = self.dict_entries(st, v)
        if all(e.k == "entry" for e in ents):
            return [(st, seq("gen", *[one(e.a[0]) for e in ents]))]
        return [(st, T("app", "keys", self.freeze(st, v)))]

    def m_dict_values(self, v: Term, args: list, kwargs: dict, st: State) -> list:
        ents = self.dict_entries(st, v)
        if all(e.k == "entry" for e in ents):
            return [(st, seq("gen", *[one(e.a[1]) for e in ents]))]
        return [(st, T("app", "values", self.freeze(st, v)))]

    def m_dict_copy(self, v: Term, args: list, kwargs: dict, st: State) -> list:
        return [(st, self.alloc(st, "dict", self.dict_entries(st, v)))]

    def m_dict_update(self, v: Term, args: list, kwargs: dict, st: State) -> list:
        if v.k != "obj":
            st.event("mutate", self.freeze(st, v), "update()", self.loc(st))
            return [(st, NONE)]
        d = self.rec(st, v).data
        for a in args:
            d = self.dict_merge(st, d, self.dict_entries(st, a))
        for n, x in kwargs.items():
            d = self.dict_merge(st, d, (T("entry", const(n), x),))
        self.setrec(st, v, d, "update()")
        return [(st, NONE)]

    def m_dict_setdefault(self, v: Term, args: list, kwargs: dict, st: State) -> list:
        if v.k != "obj":
            st.event("mutate", self.freeze(st, v), "setdefault()", self.loc(st))
            return [(st, unk("setdefault() of an input"))]
        d = self.rec(st, v).data
        k = self.freeze(st, args[0])
        for e in d:
            if e.k == "entry" and e.a[0] is k:
                return [(st, e.a[1])]
        if all(e.k == "entry" and e.a[0].k in ("const", "enum") for e in d) and k.k in ("const", "enum"):
            val = args[1] if len(args) > 1 else NONE
            self.setrec(st, v, d + (T("entry", k, val),), "setdefault()")
            return [(st, val)]
        self.setrec(st, v, d + (T("entry", k, unk("setdefault()")),), "setdefault()")
        return [(st, unk("setdefault()"))]

    def m_dict_pop(self, v: Term, args: list, kwargs: dict, st: State) -> list:
        if v.k != "obj":
            st.event("mutate", self.freeze(st, v), "pop()", self.loc(st))
            return [(st, unk("pop() of an input"))]
        d = self.rec(st, v).data
        k = self.freeze(st, args[0])
        for i, e in enumerate(d):
            if e.k == "entry" and e.a[0] is k:
                self.setrec(st, v, d[:i] + d[i + 1:], "pop()")
                return [(st, e.a[1])]
        if all(e.k == "entry" and e.a[0].k in ("const", "enum") for e in d) and k.k in ("const", "enum"):
            return [(st, args[1])] if len(args) > 1 else [(st, Raised("KeyError", self.loc(st)))]
        self.setrec(st, v, (spread(unk("pop()")),), "pop()")
        return [(st, unk("pop()"))]

    # ---- regular expressions

    def regex_method(self, v: Term, name: str, args: list, kwargs: dict, st: State) -> list:
        if name in ("match", "fullmatch", "search") and len(args) == 1 and not kwargs:
            s = self.freeze(st, args[0])
            if s.k == "const" and v.a[0] is not None and isinstance(cval(s), str):
                import re
                try:
                    r = getattr(re.compile(v.a[0], v.a[1]), name)(cval(s))
                except Exception:
                    return [(st, unk("regular expression"))]
                if r is None:
                    return [(st, NONE)]
                m = T("app", "match", v, s)
                st.types[m] = frozenset(["other"])
                st.preds[T("truthy", m)] = True
                return [(st, m)]
            ts = self.types(st, s)
            if ts & frozenset(PYTYPES) - {"str", "bytes"} or any("." in a for a in ts):
                f = st.copy()
                out: list = []
                bad = frozenset(a for a in ts if a not in ("str", "bytes", "other", "otherseq"))
                if self._settypes(f, s, bad):
                    out.append((f, Raised("TypeError", self.loc(st))))
                if ts - bad:
                    self._settypes(st, s, ts - bad)
                    out.append((st, T("rematch", v, name, s)))
                return out
            return [(st, T("rematch", v, name, s))]
        return [(st, T("app", "regex." + name, v, *[self.freeze(st, a) for a in args]))]

    # ------------------------------------------------------------------ library functions

    def ext_call(self, name: str, args: list, kwargs: dict, st: State) -> list:
        args = [self.force(a) for a in args]
        h = self.ext_hooks.get(name)
        if h is not None:
            r = h(self, args, kwargs, st)
            if r is not None:
                return r
        if name == "re.compile":
            if args and args[0].k == "const":
                fl = args[1] if len(args) > 1 else kwargs.get("flags", const(0))
                flags = self._reflags(fl)
                if flags is not None:
                    return [(st, T("regex", cval(args[0]), flags))]
            return [(st, unk("computed regular expression"))]
        if name in ("re.match", "re.fullmatch", "re.search"):
            if args[0].k == "regex":
                return self.regex_method(args[0], name[3:], args[1:], {}, st)
            if args[0].k == "const":
                fl = args[2] if len(args) > 2 else kwargs.get("flags", const(0))
                flags = self._reflags(fl)
                if flags is not None:
                    return self.regex_method(T("regex", cval(args[0]), flags), name[3:], [args[1]], {}, st)
            return [(st, unk("computed regular expression"))]
        if name == "re.sub" and len(args) == 3 and all(a.k == "const" for a in args[:2]):
            return self.re_sub(args, st)
        if name in ("typing.cast",):
            return [(st, args[1])]
        if name in ("typing.TypeVar", "typing.NewType", "typing.NamedTuple"):
            return [(st, T("ext", name + "()"))]
        if name == "functools.partial":
            return [(st, T("partial", args[0], tuple(args[1:]), tuple(kwargs.items())))]
        if name == "dataclasses.replace":
            return self.dc_replace(args[0], kwargs, st)
        if name in ("dataclasses.fields",):
            return self.dc_fields(args[0], st)
        if name == "dataclasses.asdict":
            return self.dc_asdict(args[0], st)
        if name in ("copy.copy", "copy.deepcopy", "copy.replace"):
            return self.shallow_copy(args[0], kwargs, st, name)
        if name == "json.dumps":
            return [(st, T("app", "json.dumps", self.freeze(st, args[0]), *[T("kw", n, self.freeze(st, v)) for n, v in sorted(kwargs.items())]))]
        if name in ("object.__setattr__",):
            return [(s, r if r is not None else NONE) for s, r in self.setattr(args[0], cval(args[1]), args[2], st, True)]
        if name == "set.union":
            if not args:
                return [(st, Raised("TypeError", self.loc(st)))]
            d: tuple = ()
            for a in args:
                d = d + (self.flat_segs(st, a.a[0]) if a.k == "star" else tuple(self.iter_segs(st, a)))
            return [(st, self.alloc(st, "set", norm_segs([self.freeze(st, x) for x in d], "set")))]
        if name == "str.maketrans":
            if len(args) == 1:
                return [(st, args[0])]
            if all(a.k == "const" for a in args[:2]):
                return [(st, T("dict", tuple(T("entry", const(a), const(b)) for a, b in zip(cval(args[0]), cval(args[1])))))]
            return [(st, unk("maketrans"))]
        if name == "str.join" and len(args) == 2:
            return self.str_method(args[0], "join", [args[1]], {}, st)
        if name.startswith("str.") and args:
            return self.str_method(args[0], name[4:], args[1:], kwargs, st)
        if name in ("itertools.chain", "itertools.chain.from_iterable"):
            srcs = args if name == "itertools.chain" else [T("star", args[0])]
            segs: tuple = ()
            for a in srcs:
                if a.k == "star":
                    segs += self.flat_segs(st, a.a[0])
                else:
                    segs += tuple(self.iter_segs(st, a))
            return [(st, T("seq", "gen", norm_segs(segs, "list")))]
        if name == "functools.reduce":
            return self.reduce(args, st)
        if name == "contextlib.suppress":
            return [(st, T("app", name, *args))]
        if name in ("datetime.datetime.strptime", "datetime.datetime.fromisoformat", "datetime.datetime", "datetime.date") and args and not kwargs and all(
                a.k == "const" or self.tz_const(a) is not None for a in args):
            # the standard library on constants: constant folding
            try:
                f = {"strptime": _dt.datetime.strptime, "fromisoformat": _dt.datetime.fromisoformat, "datetime": _dt.datetime, "date": _dt.date}[name.split(".")[-1]]
                return [(st, const(f(*[self.tz_const(a) if a.k != "const" else cval(a) for a in args])))]
            except Exception as e:
                return [(st, Raised(type(e).__name__, self.loc(st)))]
        if name in ("datetime.datetime.strptime",):
            r = T("app", "strptime", *[self.freeze(st, a) for a in args])
            out: list = [(st, r)]
            if self.try_depth:
                out.append((st.copy(), Raised("ValueError", self.loc(st))))
            return out
        if name in ("operator.attrgetter", "operator.itemgetter") and args and args[0].k == "const" and len(args) == 1:
            return [(st, T("partial", T("ext", name + ".call"), (args[0],), ()))]
        if name == "operator.attrgetter.call":
            rs = [(st, args[1])]
            for p in cval(args[0]).split("."):
                rs = self.bind(rs, lambda s, v, p=p: self.getattr(v, p, s))
            return rs
        if name == "operator.itemgetter.call":
            return self.getitem(args[1], args[0], st)
        if name.startswith("operator."):
            op = name[9:]
            cmps = {"eq": "Eq", "ne": "NotEq", "lt": "Lt", "le": "LtE", "gt": "Gt", "ge": "GtE", "is_": "Is", "is_not": "IsNot", "contains": "In"}
            bins = {"add": "+", "or_": "|", "sub": "-", "and_": "&", "mod": "%", "mul": "*"}
            if op in cmps and len(args) == 2:
                a, b = (args[1], args[0]) if op == "contains" else args
                return self.compare(cmps[op], a, b, st)
            if op in bins and len(args) == 2:
                return self.binop(bins[op], args[0], args[1], st)
            if op == "not_":
                return self.bind(self.truth_of(st, args[0]), lambda s, c: [(s, self.neg(c))])
        if name == "types.MappingProxyType":
            return [(st, args[0])]
        nondet = False
        if name.split(".")[0] in ("time", "random", "os", "uuid", "secrets", "socket", "getpass", "platform") or name in (
                "datetime.datetime.now", "datetime.datetime.utcnow", "datetime.date.today", "datetime.datetime.today"):
            st.event("nondet", name)
            nondet = True
        r = T("app", name, *[self.freeze(st, a) for a in args], *[T("kw", n, self.freeze(st, v)) for n, v in sorted(kwargs.items())])
        if name == "dict.fromkeys":
            items = self.concrete_items(st, args[0]) if args else None
            if items is not None:
                fz = [self.freeze(st, x) for x in items]
                if all(x is y or self.py_eq(x, y) is not None for i, x in enumerate(fz) for y in fz[:i]):
                    keep = [i for i, x in enumerate(fz) if not any(x is y or self.py_eq(x, y) for y in fz[:i])]
                    return [(st, self.alloc(st, "dict", tuple(T("entry", items[i], args[1] if len(args) > 1 else NONE) for i in keep)))]
            st.types[r] = frozenset(["dict"])
        elif not nondet:
            # what the function does is not known here, so neither is the value
            r = unk(f"{name}()")
        out = [(st, r)]
        if self.try_depth:
            out.append((st.copy(), Raised("?", self.loc(st))))
        return out

    def _reflags(self, t: Term) -> Optional[int]:
        import re
        t = self.force(t)
        if t.k == "const":
            return int(cval(t))
        if t.k == "ext" and t.a[0].startswith("re."):
            f = getattr(re, t.a[0][3:], None)
            return int(f) if f is not None else None
        if t.k == "bin" and t.a[0] == "|":
            a, b = self._reflags(t.a[1]), self._reflags(t.a[2])
            return None if a is None or b is None else a | b
        return None

    def re_sub(self, args: list, st: State) -> list:
        """re.sub of a single-character class by a template made of the match."""
        import re
        import sre_parse
        pat, rep, v = cval(args[0]), cval(args[1]), args[2]
        try:
            toks = list(sre_parse.parse(pat))
            chars: list = []
            for op, av in toks:
                if str(op) == "SUBPATTERN":
                    toks = list(av[-1])
            if len(toks) == 1:
                op, av = toks[0]
                if str(op) == "LITERAL":
                    chars = [chr(av)]
                elif str(op) == "IN" and all(str(o) == "LITERAL" for o, _ in av):
                    chars = [chr(a) for _, a in av]
            if chars:
                mp = {c: re.sub(pat, rep, c) for c in chars}
                return [(st, self.map_chars(v, mp, True))]
        except Exception:
            pass
        return [(st, unk("re.sub"))]

    def reduce(self, args: list, st: State) -> list:
        items = self.concrete_items(st, args[1])
        if items is None:
            return [(st, unk("reduce"))]
        if len(args) > 2:
            cur: list = [(st, args[2])]
        else:
            cur = [(st, items[0])]
            items = items[1:]
        for x in items:
            cur = self.bind(cur, lambda s, a, x=x: self.call(args[0], [a, x], {}, s))
        return cur

    def exact_class(self, v: Term, st: State) -> Optional[ClassInfo]:
        if v.k == "cls":
            return self.classes[v.a[0]]
        ts = self.types(st, v)
        if len(ts) == 1 and next(iter(ts)) in self.classes:
            return self.classes[next(iter(ts))]
        return None

    def per_class(self, v: Term, st: State, f: Callable) -> list:
        """Split on the possible (package) classes of v."""
        c = self.exact_class(v, st)
        if c is not None:
            return f(st, c)
        ts = self.types(st, v)
        out: list = []
        if not ts or any("." not in a for a in ts):
            good = [a for a in ts if "." in a]
            if not good or len(good) > 12:
                return [(st, unk("class of a symbolic value"))]
            out.append((st.copy(), Raised("TypeError", self.loc(st))))
            ts = frozenset(good)
        for a in sorted(ts):
            s = st.copy()
            if self._settypes(s, v, frozenset([a])):
                out += f(s, self.classes[a])
        return out

    def dc_replace(self, v: Term, kwargs: dict, st: State) -> list:
        def f(s: State, c: ClassInfo) -> list:
            kw: dict = {}
            cur: list = [(s, {})]
            for fl in c.fields():
                if not fl.init:
                    if fl.name in kwargs:
                        return [(s, Raised("ValueError", self.loc(s)))]
                    continue
                nxt: list = []
                for s2, d in cur:
                    if fl.name in kwargs:
                        nxt.append((s2, {**d, fl.name: kwargs[fl.name]}))
                    else:
                        for s3, x in self.getattr(v, fl.name, s2):
                            if not isinstance(x, Raised):
                                nxt.append((s3, {**d, fl.name: x}))
                cur = nxt
            extra = [n for n in kwargs if not any(fl.name == n for fl in c.fields())]
            if extra:
                return [(s, Raised("TypeError", self.loc(s)))]
            out: list = []
            for s2, d in cur:
                out += self.construct(c.q, [], d, s2)
            return out

        return self.per_class(v, st, f)

    def dc_fields(self, v: Term, st: State) -> list:
        return self.per_class(v, st, lambda s, c: [(s, seq("tuple", *[one(T("fieldobj", c.q, f.name)) for f in c.fields()]))])

    def dc_asdict(self, v: Term, st: State) -> list:
        def f(s: State, c: ClassInfo) -> list:
            ents: list = []
            for fl in c.fields():
                rs = self.getattr(v, fl.name, s)
                if len(rs) != 1 or isinstance(rs[0][1], Raised):
                    return [(s, unk("asdict"))]
                s = rs[0][0]
                ents.append(T("entry", const(fl.name), self.asdict_value(s, rs[0][1])))
            return [(s, self.alloc(s, "dict", tuple(ents)))]

        return self.per_class(v, st, f)

    def asdict_value(self, st: State, x: Term) -> Term:
        """asdict deep-copies containers: the copy has the same value."""
        return self.freeze(st, x)

    def shallow_copy(self, v: Term, kwargs: dict, st: State, name: str) -> list:
        if name == "copy.replace":
            return self.dc_replace(v, kwargs, st)
        if v.k == "obj":
            r = self.rec(st, v)
            return [(st, self.alloc(st, r.kind, dict(r.data) if r.kind == "inst" else r.data, r.cls))]
        ts = self.types(st, v)
        if ts <= {"list"}:
            return [(st, self.alloc(st, "list", norm_segs(self.iter_segs(st, v), "list")))]
        if ts <= {"dict"}:
            return [(st, self.alloc(st, "dict", self.dict_entries(st, v)))]
        if ts <= {"set"}:
            return [(st, self.alloc(st, "set", tuple(self.iter_segs(st, v))))]
        if ts <= {"str", "int", "float", "bool", "NoneType", "tuple", "date", "datetime", "bytes"}:
            return [(st, v)]

        def f(s: State, c: ClassInfo) -> list:
            if c.is_enum:
                return [(s, v)]
            data = {}
            for fl in c.fields():
                rs = self.getattr(v, fl.name, s)
                if len(rs) != 1 or isinstance(rs[0][1], Raised):
                    return [(s, unk("copy"))]
                data[fl.name] = rs[0][1]
            return [(s, self.alloc(s, "inst", data, c))]

        return self.per_class(v, st, f)
