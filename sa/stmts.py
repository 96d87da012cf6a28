"""Statements of the abstract interpreter (mixin of Interp)."""
from __future__ import annotations

import ast
import builtins
from typing import Any, Optional

from .model import ClassInfo, FuncInfo, Raised, Rec, State, Unsupported
from .terms import (NONE, T, Term, attr, const, contains, cval, elem, norm_segs, one, seq, show, spread, subst, unk)

NEXT, RET, RAISE, BRK, CONT = "next", "return", "raise", "break", "continue"


class StmtMixin:
    # ------------------------------------------------------------------ blocks

    def exec_block(self, stmts: list, st: State) -> list:
        cur: list = [st]
        done: list = []
        for s in stmts:
            nxt: list = []
            for x in cur:
                for o in self.exec_stmt(s, x):
                    (nxt if o[1] == NEXT else done).append(o)
            nxt = self.merge(nxt)
            cur = [o[0] for o in nxt]
            if not cur:
                break
        return [(x, NEXT, None) for x in cur] + done

    def exec_stmt(self, s: ast.stmt, st: State) -> list:
        self._line = s.lineno
        m = getattr(self, "st_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__} at {self.loc(st, s)}")
        return m(s, st)

    def _vals(self, rs: list, f: Any) -> list:
        """Continue statements after expression results."""
        out: list = []
        for s, v in rs:
            if isinstance(v, Raised):
                out.append((s, RAISE, v))
            else:
                out.extend(f(s, v))
        return out

    def st_Pass(self, s: Any, st: State) -> list:
        return [(st, NEXT, None)]

    def st_Break(self, s: Any, st: State) -> list:
        return [(st, BRK, None)]

    def st_Continue(self, s: Any, st: State) -> list:
        return [(st, CONT, None)]

    def st_Global(self, s: Any, st: State) -> list:
        return [(st, NEXT, None)]

    st_Nonlocal = st_Global

    def st_Expr(self, s: ast.Expr, st: State) -> list:
        if isinstance(s.value, ast.Constant):
            return [(st, NEXT, None)]
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            return self.do_yield(s.value, st, None)
        return self._vals(self.ev(s.value, st), lambda x, v: [(x, NEXT, None)])

    def do_yield(self, y: Any, st: State, target: Any) -> list:
        handler = self.yields[-1] if self.yields else None
        if handler is None:
            raise Unsupported("yield outside an analysed generator")
        if isinstance(y, ast.YieldFrom):
            def f(x: State, v: Term) -> list:
                if not isinstance(handler, Term):
                    raise Unsupported("yield from in a context manager")
                r = self.rec(x, handler)
                x.heap[handler.a[0]] = Rec("list", None, r.data + self.iter_segs(x, v))
                return [(x, NEXT, None)]
            return self._vals(self.ev(y.value, st), f)
        rs = self.ev(y.value, st) if y.value is not None else [(st, NONE)]

        def g(x: State, v: Term) -> list:
            if isinstance(handler, Term):
                r = self.rec(x, handler)
                x.heap[handler.a[0]] = Rec("list", None, r.data + (one(v),))
                return [(x, NEXT, None)]
            return handler(x, v)

        return self._vals(rs, g)

    def st_Assign(self, s: ast.Assign, st: State) -> list:
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            raise Unsupported("value of yield")

        def f(x: State, v: Term) -> list:
            cur: list = [(x, None)]
            for t in s.targets:
                nxt: list = []
                for y, r in cur:
                    if isinstance(r, Raised):
                        nxt.append((y, r))
                    else:
                        nxt += self.assign(t, v, y)
                cur = nxt
            return [(y, RAISE, r) if isinstance(r, Raised) else (y, NEXT, None) for y, r in cur]

        return self._vals(self.ev(s.value, st), f)

    def st_AnnAssign(self, s: ast.AnnAssign, st: State) -> list:
        if s.value is None:
            return [(st, NEXT, None)]
        return self._vals(self.ev(s.value, st), lambda x, v: [
            (y, RAISE, r) if isinstance(r, Raised) else (y, NEXT, None) for y, r in self.assign(s.target, v, x)])

    def st_AugAssign(self, s: ast.AugAssign, st: State) -> list:
        op = self.BINOPS[type(s.op)]
        load = ast.copy_location(_as_load(s.target), s)

        def f(x: State, old: Term) -> list:
            def g(y: State, v: Term) -> list:
                if old.k == "obj" and self.rec(y, old).kind in ("list", "set", "dict"):
                    r = self.rec(y, old)
                    if (r.kind, op) in (("list", "+"), ("set", "|")):
                        self.setrec(y, old, norm_segs(r.data + tuple((self.freeze(y, x) if r.kind == "set" else x) for x in self.iter_segs(y, v)), r.kind), "augmented assignment")
                        return [(y, NEXT, None)]
                    if (r.kind, op) == ("dict", "|"):
                        self.setrec(y, old, self.dict_merge(y, r.data, self.dict_entries(y, v)), "augmented assignment")
                        return [(y, NEXT, None)]
                    if (r.kind, op) == ("set", "-"):
                        self.setrec(y, old, (spread(T("app", "setdiff", self.freeze(y, old), self.freeze(y, v))),), "augmented assignment")
                        return [(y, NEXT, None)]
                ts = self.types(y, old)
                if old.k not in ("const", "obj", "cat") and ts & {"list", "set", "dict"} and op in ("+", "|", "-", "&"):
                    y.event("mutate", self.freeze(y, old), "augmented assignment", self.loc(y, s))
                out: list = []
                for z, nv in self.binop(op, old, v, y):
                    if isinstance(nv, Raised):
                        out.append((z, RAISE, nv))
                        continue
                    for w, r2 in self.assign(s.target, nv, z):
                        out.append((w, RAISE, r2) if isinstance(r2, Raised) else (w, NEXT, None))
                return out

            return self._vals(self.ev(s.value, x), g)

        return self._vals(self.ev(load, st), f)

    def st_Delete(self, s: ast.Delete, st: State) -> list:
        cur = [(st, NEXT, None)]
        for t in s.targets:
            nxt: list = []
            for x, sig, v in cur:
                if sig != NEXT:
                    nxt.append((x, sig, v))
                elif isinstance(t, ast.Name):
                    x.frames[x.cur].pop(t.id, None)
                    nxt.append((x, NEXT, None))
                elif isinstance(t, ast.Subscript):
                    for y, vs in self.evs([t.value, t.slice], x):
                        if isinstance(vs, Raised):
                            nxt.append((y, RAISE, vs))
                            continue
                        o, k = vs
                        if o.k == "obj" and self.rec(y, o).kind == "dict" and k.k in ("const", "enum"):
                            d = self.rec(y, o).data
                            self.setrec(y, o, tuple(e for e in d if not (e.k == "entry" and e.a[0] is k)), "del")
                            nxt.append((y, NEXT, None))
                        elif o.k == "obj":
                            self.setrec(y, o, (spread(unk("del item")),), "del")
                            nxt.append((y, NEXT, None))
                        else:
                            y.event("mutate", self.freeze(y, o), "del", self.loc(y, s))
                            nxt.append((y, NEXT, None))
                else:
                    raise Unsupported("del")
            cur = nxt
        return cur

    def st_Return(self, s: ast.Return, st: State) -> list:
        if s.value is None:
            return [(st, RET, NONE)]
        return self._vals(self.ev(s.value, st), lambda x, v: [(x, RET, v)])

    def st_Raise(self, s: ast.Raise, st: State) -> list:
        if s.exc is None:
            cur = self._cur_exc(st)
            return [(st, RAISE, cur if cur is not None else Raised("RuntimeError", self.loc(st, s)))]
        e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc

        def f(x: State, v: Term) -> list:
            v = self.force(v)
            if v.k in ("cls", "builtin"):
                return [(x, RAISE, Raised(v.a[0], self.loc(x, s)))]
            if v.k == "exc":
                return [(x, RAISE, Raised(v.a[0], v.a[1] or self.loc(x, s)))]
            if v.k == "ext":
                return [(x, RAISE, Raised(v.a[0], self.loc(x, s)))]
            if v.k == "func" or v.k == "bound":
                return self._vals(self.ev(s.exc, x), f) if isinstance(s.exc, ast.Call) else [(x, RAISE, Raised("?", self.loc(x, s)))]
            return [(x, RAISE, Raised("?", self.loc(x, s)))]

        return self._vals(self.ev(e, st), f)

    def _cur_exc(self, st: State) -> Optional[Raised]:
        v = st.frames.get(st.cur, {}).get(".exc")
        if isinstance(v, Term) and v.k == "exc":
            return Raised(v.a[0], v.a[1])
        return None

    def st_Assert(self, s: ast.Assert, st: State) -> list:
        t, f, ex = self.cond(s.test, st)
        return ([(x, NEXT, None) for x in t] + [(x, RAISE, Raised("AssertionError", self.loc(x, s))) for x in f]
                + [(x, RAISE, r) for x, r in ex])

    def st_If(self, s: ast.If, st: State) -> list:
        t, f, ex = self.cond(s.test, st)
        outs: list = [(x, RAISE, r) for x, r in ex]
        t = [o[0] for o in self.merge([(x, NEXT, None) for x in t])]
        f = [o[0] for o in self.merge([(x, NEXT, None) for x in f])]
        for x in t:
            outs += self.exec_block(s.body, x)
        for x in f:
            outs += self.exec_block(s.orelse, x) if s.orelse else [(x, NEXT, None)]
        return self.merge(outs)

    def st_For(self, s: ast.For, st: State) -> list:
        def f(x: State, it: Term) -> list:
            return self.loop(s.target, it, lambda y: self.exec_block(s.body, y), x, s.orelse)

        return self._vals(self.ev(s.iter, st), f)

    def st_While(self, s: ast.While, st: State) -> list:
        """Unroll while the test is decided; otherwise havoc what the body writes."""
        cur = [st]
        outs: list = []
        for _ in range(40):
            nxt: list = []
            undecided = False
            for x in cur:
                t, f, ex = self.cond(s.test, x.copy())
                if len(t) + len(f) + len(ex) > 1:
                    undecided = True
                    break
                outs += [(y, RAISE, r) for y, r in ex]
                for y in f:
                    outs += self.exec_block(s.orelse, y) if s.orelse else [(y, NEXT, None)]
                for y in t:
                    for o in self.exec_block(s.body, y):
                        if o[1] in (NEXT, CONT):
                            nxt.append(o[0])
                        elif o[1] == BRK:
                            outs.append((o[0], NEXT, None))
                        else:
                            outs.append(o)
            if undecided:
                break
            cur = nxt
            if not cur:
                return outs
        # summary
        for x in cur:
            y = x.copy()
            names = {n.id for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
            h = self.hook_while(s, y) if self.hook_while else None
            if h is not None:
                outs += h
                continue
            for n in names:
                self.store_name(n, unk(f"while loop at {self.loc(x, s)}"), y)
            for oid, r in list(y.heap.items()):
                if r.kind in ("list", "set", "dict"):
                    y.heap[oid] = Rec(r.kind, r.cls, (spread(unk(f"while loop at {self.loc(x, s)}")),))
                else:
                    y.heap[oid] = Rec("inst", r.cls, {k: (unk("while loop") if self._attr_written(s, k) else v) for k, v in r.data.items()})
            outs.append((y, NEXT, None))
            outs.append((y.copy(), RAISE, Raised("?", self.loc(x, s))))
        return outs

    hook_while: Any = None

    def _attr_written(self, s: Any, k: str) -> bool:
        return any(isinstance(n, ast.Attribute) and n.attr == k and isinstance(n.ctx, ast.Store) for n in ast.walk(s))

    # ------------------------------------------------------------------ try

    def exc_matches(self, exc: str, handler: Term, st: State) -> Optional[bool]:
        handler = self.force(handler)
        if handler.k == "seq":
            rs = [self.exc_matches(exc, x.a[0], st) for x in handler.a[1] if x.k == "one"]
            if any(r is True for r in rs):
                return True
            return None if any(r is None for r in rs) else False
        name = handler.a[0] if handler.k in ("cls", "builtin", "ext") else None
        if name is None:
            return None
        if name in ("Exception", "BaseException"):
            return True
        if exc == name:
            return True
        if exc == "?":
            return None
        if exc in self.classes:
            return self.classes[exc].subclass_of(name)
        b, o = getattr(builtins, exc, None), getattr(builtins, name, None)
        if isinstance(b, type) and isinstance(o, type):
            return issubclass(b, o)
        if isinstance(b, type) and name in self.classes:
            return False
        return exc.split(".")[-1] == name.split(".")[-1]

    def st_Try(self, s: ast.Try, st: State) -> list:
        self.try_depth += 1
        try:
            body = self.exec_block(s.body, st)
        finally:
            self.try_depth -= 1
        outs: list = []
        for x, sig, v in body:
            if sig == RAISE:
                outs += self._handle(s, x, v)
            elif sig == NEXT and s.orelse:
                outs += self.exec_block(s.orelse, x)
            else:
                outs.append((x, sig, v))
        outs = self.merge(outs)
        if s.finalbody:
            res: list = []
            for x, sig, v in outs:
                for y, sig2, v2 in self.exec_block(s.finalbody, x):
                    res.append((y, sig, v) if sig2 == NEXT else (y, sig2, v2))
            return res
        return outs

    def _handle(self, s: ast.Try, st: State, r: Raised) -> list:
        outs: list = []
        cur: Optional[State] = st
        for h in s.handlers:
            m: Optional[bool] = True
            if h.type is not None:
                ht = self.ev(h.type, cur)[0][1]
                if isinstance(ht, Raised):
                    return outs + [(cur, RAISE, ht)]
                m = self.exc_matches(r.exc, ht, cur)
            if m is False:
                continue
            x = cur if m is True else cur.copy()
            old = x.frames[x.cur].get(".exc")
            x.frames[x.cur][".exc"] = T("exc", r.exc, r.where)
            if h.name:
                x.frames[x.cur][h.name] = T("exc", r.exc, r.where)
            for y, sig, v in self.exec_block(h.body, x):
                fr = y.frames.get(x.cur)
                if fr is not None:
                    fr.pop(".exc", None)
                    if old is not None:
                        fr[".exc"] = old
                    if h.name:
                        fr.pop(h.name, None)
                outs.append((y, sig, v))
            if m is True:
                return outs
        outs.append((cur, RAISE, r))
        return outs

    # ------------------------------------------------------------------ with

    def st_With(self, s: ast.With, st: State) -> list:
        return self._with(s.items, s.body, st)

    def _with(self, items: list, body: list, st: State) -> list:
        if not items:
            return self.exec_block(body, st)
        it = items[0]

        def enter(x: State, v: Term) -> list:
            v = self.force(v)
            if v.k == "cm":
                return self._with_cm(v, it.optional_vars, items[1:], body, x)
            if v.k == "obj" and self.rec(x, v).kind == "inst" and self.rec(x, v).cls.lookup("__enter__"):
                outs: list = []
                for y, ev in self.call_method(v, "__enter__", [], {}, x):
                    if isinstance(ev, Raised):
                        outs.append((y, RAISE, ev))
                        continue
                    ys = self.assign(it.optional_vars, ev, y) if it.optional_vars is not None else [(y, None)]
                    for z, r in ys:
                        if isinstance(r, Raised):
                            outs.append((z, RAISE, r))
                            continue
                        for w, sig, val in self._with(items[1:], body, z):
                            args = [NONE, NONE, NONE] if sig != RAISE else [T("exc", val.exc, val.where)] * 3
                            for u, xv in self.call_method(v, "__exit__", args, {}, w):
                                if isinstance(xv, Raised):
                                    outs.append((u, RAISE, xv))
                                elif sig == RAISE and self.decide(u, self.truth(u, xv)) is True:
                                    outs.append((u, NEXT, None))
                                else:
                                    outs.append((u, sig, val))
                return outs
            if it.optional_vars is not None:
                outs = []
                for y, r in self.assign(it.optional_vars, unk("with"), x):
                    outs += [(y, RAISE, r)] if isinstance(r, Raised) else self._with(items[1:], body, y)
                return outs
            if v.k == "app" and v.a[0] == "contextlib.suppress":
                outs = []
                for y, sig, val in self._with(items[1:], body, x):
                    if sig == RAISE and any(self.exc_matches(val.exc, a, y) for a in v.a[1:]):
                        outs.append((y, NEXT, None))
                    else:
                        outs.append((y, sig, val))
                return outs
            return self._with(items[1:], body, x)

        return self._vals(self.ev(it.context_expr, st), enter)

    def _with_cm(self, cm: Term, var: Any, items: list, body: list, st: State) -> list:
        """Inline a @contextmanager generator around the body."""
        fi, args, kwargs = cm.a[0], list(cm.a[1]), dict(cm.a[2])
        outer = (st.cur, st.fn, st.mod)
        n = next(self.ids)
        saved_yields = self.yields

        def at_yield(x: State, v: Term) -> list:
            inner = (x.cur, x.fn, x.mod)
            x.cur, x.fn, x.mod = outer
            prev, self.yields = self.yields, saved_yields
            try:
                starts = self.assign(var, v, x) if var is not None else [(x, None)]
                res: list = []
                for y, r in starts:
                    res += [(y, RAISE, r)] if isinstance(r, Raised) else self._with(items, body, y)
            finally:
                self.yields = prev
            outs: list = []
            for y, sig, val in res:
                y.cur, y.fn, y.mod = inner
                if sig == RAISE:
                    outs.append((y, RAISE, val))
                else:
                    y.frames[y.cur][f".pending{n}"] = T("sig", sig, val if val is not None else NONE)
                    y.gvars[(".pending", n)] = T("sig", sig, val if val is not None else NONE)
                    outs.append((y, NEXT, None))
            return outs

        self.yields = self.yields + [at_yield]
        try:
            rs = self.run_body(fi, args, kwargs, st)
        finally:
            self.yields = saved_yields
        outs: list = []
        for x, v in rs:
            p = x.gvars.pop((".pending", n), None)
            if isinstance(v, Raised):
                outs.append((x, RAISE, v))
            elif p is None:
                outs.append((x, RAISE, Raised("RuntimeError", fi.where())))
            else:
                outs.append((x, p.a[0], p.a[1] if p.a[0] == RET else None))
        return outs

    # ------------------------------------------------------------------ definitions

    def st_FunctionDef(self, s: Any, st: State) -> list:
        self.exec_stmt_def(s, st, None)
        return [(st, NEXT, None)]

    def st_ClassDef(self, s: ast.ClassDef, st: State) -> list:
        out: list = []
        for x, v in self.def_class(s, st):
            self.store_name(s.name, v, x)
            out.append((x, NEXT, None))
        return out

    def st_Import(self, s: Any, st: State) -> list:
        self._import(s, st.mod, st.frames[st.cur])
        return [(st, NEXT, None)]

    st_ImportFrom = st_Import

    def st_Match(self, s: ast.Match, st: State) -> list:
        outs: list = []

        def f(x: State, v: Term) -> list:
            cur = [x]
            res: list = []
            for c in s.cases:
                nxt: list = []
                for y in cur:
                    t, fl, ex = self._pattern(c.pattern, v, y)
                    res.extend((z, RAISE, r) for z, r in ex)
                    for z in t:
                        if c.guard is not None:
                            gt, gf, gex = self.cond(c.guard, z)
                            res.extend((w, RAISE, r) for w, r in gex)
                            for w in gt:
                                res.extend(self.exec_block(c.body, w))
                            nxt += gf
                        else:
                            res.extend(self.exec_block(c.body, z))
                    nxt += fl
                cur = nxt
            res.extend((y, NEXT, None) for y in cur)
            return self.merge(res)

        outs += self._vals(self.ev(s.subject, st), f)
        return outs

    def _pattern(self, p: Any, v: Term, st: State) -> tuple:
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                if p.name:
                    self.store_name(p.name, v, st)
                return [st], [], []
            t, f, ex = self._pattern(p.pattern, v, st)
            if p.name:
                for x in t:
                    self.store_name(p.name, v, x)
            return t, f, ex
        if isinstance(p, ast.MatchOr):
            ts, ex, cur = [], [], [st]
            for q in p.patterns:
                nxt: list = []
                for x in cur:
                    t, f, e = self._pattern(q, v, x)
                    ts += t
                    ex += e
                    nxt += f
                cur = nxt
            return ts, cur, ex
        if isinstance(p, (ast.MatchValue, ast.MatchSingleton)):
            if isinstance(p, ast.MatchSingleton):
                rs = self.compare("Is", v, const(p.value), st)
            else:
                rs = []
                for x, w in self.ev(p.value, st):
                    rs += [(x, w)] if isinstance(w, Raised) else self.compare("Eq", v, w, x)
        elif isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            rs = []
            for x, w in self.ev(p.cls, st):
                rs += [(x, w)] if isinstance(w, Raised) else self.bi_isinstance([v, w], {}, x)
        else:
            raise Unsupported(f"pattern {type(p).__name__}")
        ts, fs, ex = [], [], []
        for x, c in rs:
            if isinstance(c, Raised):
                ex.append((x, c))
            else:
                a, b = self.branch(x, self.truth(x, c))
                ts += a
                fs += b
        return ts, fs, ex

    # ------------------------------------------------------------------ assignment

    def assign(self, t: Any, v: Term, st: State) -> list:
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, st)
            return [(st, None)]
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st)
        if isinstance(t, (ast.Tuple, ast.List)):
            return self._unpack(t.elts, v, st)
        if isinstance(t, ast.Attribute):
            name = self.mangle(t.attr, st.fn.cls if st.fn is not None else None)
            out: list = []
            for x, o in self.ev(t.value, st):
                if isinstance(o, Raised):
                    out.append((x, o))
                else:
                    out += self.setattr(o, name, v, x)
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for x, vs in self.evs([t.value, t.slice], st):
                if isinstance(vs, Raised):
                    out.append((x, vs))
                else:
                    out += self.setitem(vs[0], vs[1], v, x)
            return out
        raise Unsupported(f"assignment target {type(t).__name__}")

    def _unpack(self, elts: list, v: Term, st: State) -> list:
        v = self.force(v)
        stars = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        items = self.concrete_items(st, v) if not (v.k == "obj" and self.rec(st, v).kind == "set") else None
        pairs: list = []
        if items is not None:
            if not stars:
                if len(items) != len(elts):
                    return [(st, Raised("ValueError", self.loc(st)))]
                pairs = list(zip(elts, items))
            else:
                i = stars[0]
                after = len(elts) - i - 1
                if len(items) < len(elts) - 1:
                    return [(st, Raised("ValueError", self.loc(st)))]
                pairs = list(zip(elts[:i], items[:i]))
                mid = items[i:len(items) - after]
                pairs.append((elts[i], ("list", mid)))
                if after:
                    pairs += list(zip(elts[i + 1:], items[len(items) - after:]))
        else:
            fv = self.freeze(st, v)
            segs = self.as_segs(st, v)
            if stars:
                i = stars[0]
                if i == len(elts) - 1:
                    lead = []
                    rest = list(segs) if segs is not None else [spread(fv)]
                    for j in range(i):
                        if rest and rest[0].k == "one":
                            lead.append(rest.pop(0).a[0])
                        else:
                            lead = None
                            break
                    if lead is None:
                        pairs = [(e, T("item", fv, const(j))) for j, e in enumerate(elts[:i])]
                        pairs.append((elts[i], T("slice", fv, i, None)))
                    else:
                        pairs = list(zip(elts[:i], lead))
                        pairs.append((elts[i], ("segs", tuple(rest))))
                else:
                    pairs = [(e, T("item", fv, const(j))) for j, e in enumerate(elts[:i])]
                    pairs.append((elts[i], unk("starred unpacking")))
                    n = len(elts)
                    pairs += [(e, T("item", fv, const(j - n))) for j, e in enumerate(elts) if j > i]
            else:
                # unpacking a value of unknown length: it must have the right one
                n = len(elts)
                ln = T("app", "len", fv)
                out: list = []
                t, f = self.branch(st, self.mk_eq(st, ln, const(n)))
                for x in f:
                    if not (v.k == "it" and v.a[0].k == "app") and not self.assume_shapes:
                        out.append((x, Raised("ValueError", self.loc(x))))
                for x in t:
                    cur: list = [(x, None)]
                    for j, e in enumerate(elts):
                        nxt = []
                        for y, r in cur:
                            if isinstance(r, Raised):
                                nxt.append((y, r))
                                continue
                            for z, iv in self.getitem(v, const(j), y):
                                nxt += [(z, iv)] if isinstance(iv, Raised) else self.assign(e, iv, z)
                        cur = nxt
                    out += cur
                return out
        cur = [(st, None)]
        for e, val in pairs:
            nxt = []
            for x, r in cur:
                if isinstance(r, Raised):
                    nxt.append((x, r))
                    continue
                if isinstance(val, tuple):
                    vv = self.alloc(x, "list", tuple(one(y) for y in val[1]) if val[0] == "list" else val[1])
                else:
                    vv = val
                nxt += self.assign(e, vv, x)
            cur = nxt
        return cur

    assume_shapes = False

    def setattr(self, o: Term, name: str, v: Term, st: State, force: bool = False) -> list:
        o = self.force(o)
        if o.k == "obj" and self.rec(st, o).kind == "inst":
            r = self.rec(st, o)
            if not force:
                m = r.cls.lookup("__setattr__")
                if m is not None and m[1].k == "func":
                    return [(x, w if isinstance(w, Raised) else None) for x, w in self.call_func(m[1].a[0], [o, const(name), v], {}, st)]
                if self.is_frozen(r.cls):
                    return [(st, Raised("dataclasses.FrozenInstanceError", self.loc(st)))]
            d = dict(r.data)
            d[name] = v
            self.setrec(st, o, d, f"attribute {name}")
            return [(st, None)]
        if o.k == "super":
            return self.setattr(o.a[1], name, v, st, True)
        if o.k in ("cls", "mod", "func"):
            st.event("gwrite", f"{show(o)}.{name}", "attribute store")
            st.over[(o, name)] = v
            return [(st, None)]
        fo = self.freeze(st, o)
        st.event("mutate", fo, f"attribute {name}", self.loc(st))
        ts = self.types(st, fo)
        if not force and ts and all("." in a and self.is_frozen(self.classes[a]) for a in ts):
            return [(st, Raised("dataclasses.FrozenInstanceError", self.loc(st)))]
        st.over[(fo, name)] = v
        return [(st, None)]

    def is_frozen(self, c: ClassInfo) -> bool:
        return any(isinstance(k, ClassInfo) and k.dc is not None and k.dc.get("frozen") for k in c.mro())

    def setitem(self, o: Term, k: Term, v: Term, st: State) -> list:
        o = self.force(o)
        if o.k == "obj":
            r = self.rec(st, o)
            if r.kind == "dict":
                self.setrec(st, o, self.dict_merge(st, r.data, (T("entry", self.freeze(st, k), v),)), "item")
                return [(st, None)]
            if r.kind == "list":
                if k.k == "const" and all(x.k == "one" for x in r.data):
                    d = list(r.data)
                    try:
                        d[cval(k)] = one(v)
                    except IndexError:
                        return [(st, Raised("IndexError", self.loc(st)))]
                    self.setrec(st, o, tuple(d), "item")
                    return [(st, None)]
                if k is const(0) and r.data and r.data[0].k == "spread":
                    # first element of a copied symbolic sequence
                    src = r.data[0].a[0]
                    self.setrec(st, o, (one(v), spread(T("slice", src, 1, None))) + r.data[1:], "item")
                    return [(st, None)]
                self.setrec(st, o, (spread(unk("item store")),), "item")
                return [(st, None)]
            if r.kind == "inst":
                return [(x, w if isinstance(w, Raised) else None) for x, w in self.call_method(o, "__setitem__", [k, v], {}, st)]
        fo = self.freeze(st, o)
        st.event("mutate", fo, "item", self.loc(st))
        st.over[(fo, self.freeze(st, k))] = v
        return [(st, None)]


def _as_load(t: Any) -> Any:
    if isinstance(t, ast.Name):
        return ast.Name(t.id, ast.Load())
    if isinstance(t, ast.Attribute):
        return ast.Attribute(t.value, t.attr, ast.Load())
    return ast.Subscript(t.value, t.slice, ast.Load())
