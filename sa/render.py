"""Rendering boundary: recursion through the expression visitor.

The text of a composite is judged one level at a time: a call that renders a
sub-expression yields the opaque term R(config, sub-expression).  Which methods are
renderers is found by analysis, not by name: a method M of the visitor is a
renderer for nodes of type a when interpreting visit(node) for a node of that type
returns the result of M(node) unchanged, or M(node) returns visit(node) unchanged."""
from __future__ import annotations

from typing import Any, Callable, Optional

from .framework import Check, Undecided
from .model import FuncInfo, Raised, State, Unsupported
from .spec import *
from .witness import never_differ
from .terms import EMPTY, FALSE, NONE, TRUE, T, Term, cat, charmap, const, cval, elem, fmt, join, one, seq, show, spread, subst, sym

TRANSLATION = P + "visitors.Translation"
NODE_ATOMS = sorted((EXPRESSIONS - {EXTRA}) | LITERAL | {"list", "tuple"})
PROBE = T("app", "R", const("probe"))


def cfg_of(I: Any, st: State, obj: Term) -> Term:
    """The settings of the visitor that matter for rendering: (aliases in use, MQL)."""
    vals = []
    for n in ("use_entity_aliases", "is_mql"):
        try:
            rs = I.getattr(obj, n, st.copy())
        except Unsupported:
            rs = []
        vals.append(I.freeze(rs[0][0], rs[0][1]) if len(rs) == 1 and not isinstance(rs[0][1], Raised) else T("unk", n))
    return T("cfg", *vals)


class Renderers:
    def __init__(self, ck: Check, cls: str = TRANSLATION, kw: Optional[dict] = None) -> None:
        self.ck, self.I, self.cls = ck, ck.I, cls
        self.kw = kw or {}
        ci = ck.I.cls_by_q(cls)
        self.methods: dict = {}
        for c in reversed(ci.mro()):
            if hasattr(c, "ns"):
                for n, v in c.ns.items():
                    if v.k == "func" and not v.a[0].decos & {"staticmethod", "classmethod", "property"}:
                        self.methods[n] = v.a[0]
        self.visit = ck.I.method(cls, "visit")
        self.table: dict = {}  # FuncInfo -> set of atoms
        self.discover()

    def make(self, st: State, **over: Any) -> Term:
        kw = dict(self.kw)
        kw.update(over)
        outs = self.I.construct(self.cls, [], kw, st)
        if len(outs) != 1 or isinstance(outs[0][1], Raised):
            raise Undecided(f"constructing {self.cls}")
        return outs[0][1]

    def _run(self, fi: FuncInfo, atom: str, hook: Callable) -> list:
        st = self.ck.fresh()
        self.I.field_specs = dict(FIELDS)
        x = self.ck.inp("node", ty(atom) if atom not in ("list", "tuple") else ty(atom, elem=SCALAR.elem))
        o = self.make(st)
        node = x

        def below(I: Any, f: FuncInfo, a: list, k: dict, s: State) -> Any:
            """What happens to anything but the node itself does not matter here."""
            if f in self.methods.values() and len(a) == 2 and not k and a[1] is not node:
                t = T("app", "below", a[1])
                I.inputs.setdefault(t, ty("str"))
                return [(s, t)]
            return None

        with self.ck.hooked(hook, below):
            try:
                return self.I.run_body(fi, [o, x], {}, st)
            except (Unsupported, RecursionError):
                return []

    def discover(self) -> None:
        cands = [m for n, m in self.methods.items() if m is not self.visit and not n.startswith("__")
                 and len(m.node.args.args) == 2 and not m.node.args.vararg and not m.node.args.kwarg]
        node = sym("node")
        names = {m for m in cands}
        self.table[self.visit] = set(NODE_ATOMS)
        for atom in NODE_ATOMS:
            called: set = set()

            def observe(I: Any, fi: FuncInfo, a: list, k: dict, s: State) -> Any:
                if fi in names and len(a) == 2 and not k and a[1] is node:
                    called.add(fi)
                return None

            self._run(self.visit, atom, observe)
            for m in cands:
                def probe_m(I: Any, fi: FuncInfo, a: list, k: dict, s: State, m: FuncInfo = m) -> Any:
                    return [(s, PROBE)] if fi is m and len(a) == 2 and a[1] is node else None

                def probe_v(I: Any, fi: FuncInfo, a: list, k: dict, s: State) -> Any:
                    return [(s, PROBE)] if fi is self.visit and len(a) == 2 and a[1] is node else None

                outs = self._run(self.visit, atom, probe_m) if m in called else self._run(m, atom, probe_v)
                outs = [o for o in outs if not isinstance(o[1], Raised)] if m in called else outs
                if outs and all(v is PROBE for _, v in outs if True):
                    self.table.setdefault(m, set()).add(atom)

    def receivers(self, I: Any) -> frozenset:
        """The translator and its subclasses (other visitors share `visit`)."""
        if not hasattr(self, "_recv"):
            self._recv = frozenset(q for q, c in I.classes.items() if c.subclass_of(self.cls))
        return self._recv

    def hook(self, top: Term, name: str = "R") -> Callable:
        """Calls of renderers on anything but the top node become opaque."""

        def h(I: Any, fi: FuncInfo, a: list, k: dict, s: State) -> Any:
            atoms = self.table.get(fi)
            if atoms is None or len(a) != 2 or k or not I.types(s, a[0]) <= self.receivers(I):
                return None
            x = a[1]
            fx = I.freeze(s, x)
            if fx is top:
                return None
            ts = I.types(s, x)
            if x.k in ("const", "enum", "seq", "obj", "new", "cat", "join", "dict"):
                if ts <= atoms and fi is not None:
                    return [(s, T("app", name, cfg_of(I, s, a[0]), fx))]
                return None
            if ts <= atoms:
                return [(s, T("app", name, cfg_of(I, s, a[0]), fx))]
            good = ts & atoms
            if not good:
                return None
            s2 = s.copy()
            out: list = []
            if I._settypes(s2, x, frozenset(good)):
                out.append((s2, T("app", name, cfg_of(I, s2, a[0]), fx)))
            if I._settypes(s, x, ts - good):
                out += I.run_body(fi, a, k, s)
            return out

        return h


def R(x: Term, aliases: bool = False, mql: bool = False) -> Term:
    return T("app", "R", T("cfg", const(aliases), const(mql)), x)


def esc(v: Term, mql: bool = False) -> Term:
    q = '"' if mql else "'"
    return cat(const(q), charmap(v, {"\\": "\\\\", q: "\\" + q, "\n": "\\n"}), const(q))


def canon(I: Any, st: State, t: Term) -> Term:
    """Equivalent spellings of the same text."""

    def f(x: Term) -> Optional[Term]:
        if x.k == "fmt" and x.a[2] in ("", "s", "r") and x.a[1] in ("", "d"):
            y = x.a[0]
            ts = I.types(st, y)
            if ts <= {"int"} or (ts <= {"float"} and x.a[1] == ""):
                return T("fmt", y, "", "")
            if ts <= {"str"} and x.a[1] == "" and x.a[2] != "r":
                return f(y) or y
        if x.k == "app" and x.a[0] in ("repr", "str") and len(x.a) == 2 and I.types(st, x.a[1]) <= {"int", "float"} \
                and "bool" not in I.types(st, x.a[1]):
            return T("fmt", x.a[1], "", "")
        if x.k == "join" and x.a[0] is EMPTY and len(x.a[1]) == 1 and x.a[1][0].k == "for" and I.types(st, x.a[1][0].a[0]) <= {"str"}:
            r = per_char(x.a[1][0])
            return None if r is None else f(r) or r
        return None

    return subst(t, f)


def per_char(loop: Term) -> Optional[Term]:
    """A loop over the characters of a text that yields, for each, a constant or the
    character with constants around it, chosen by which character it is: a charmap."""
    src, cases = loop.a
    e = elem(src)
    chars = {cval(c) for _, alts in cases for alt in alts for g in alt if g[0] in ("oneof", "notin") and g[1] is e
             for c in g[2] if c.k == "const" and c.a[0] == "str"}
    if not all(len(c) == 1 for c in chars):
        return None

    def text(segs: tuple, ch: str) -> Optional[str]:
        out = ""
        for s in segs:
            if s.k != "one":
                return None
            for p in (s.a[0].a if s.a[0].k == "cat" else (s.a[0],)):
                if p is e:
                    out += ch
                elif p.k == "const" and p.a[0] == "str":
                    out += cval(p)
                elif p.k == "charmap" and p.a[0] is e:
                    out += dict(p.a[1]).get(ch, ch)
                else:
                    return None
        return out

    for _, alts in cases:
        for alt in alts:
            for g in alt:
                if g[0] not in ("oneof", "notin", "types") or g[1] is not e:
                    return None
    other = next(c for c in map(chr, range(0xE000, 0xF8FF)) if c not in chars)
    mapping: dict = {}
    for ch in sorted(chars) + [other]:
        hit = set()
        for segs, alts in cases:
            if not alts or any(all(g[0] == "types" or (const(ch) in g[2]) == (g[0] == "oneof") for g in alt) for alt in alts):
                hit.add(text(segs, ch))
        if len(hit) != 1 or None in hit:
            return None
        mapping[ch] = hit.pop()
    for segs, _ in cases:
        for s in segs:
            for p in (s.a[0].a if s.a[0].k == "cat" else (s.a[0],)):
                if p.k == "charmap":
                    for c, v in p.a[1]:
                        if c not in mapping:
                            return None
    if mapping.pop(other) != other:
        return None
    return charmap(src, mapping)


def expect_text(I: Any, outs: list, want: Any, strict_raise: bool = True) -> Optional[str]:
    """Every outcome is the text `want` (a term, or a function state -> set of allowed terms)."""
    from .framework import facts, find_unk, has_unk, taint

    und = None
    if not outs:
        raise Undecided("no outcome")
    for st, v in outs:
        t = taint(st)
        if isinstance(v, Raised):
            if t:
                und = t
                continue
            return f"raises {v.exc} at {v.where} [{facts(I, st)}]"
        got = canon(I, st, I.freeze(st, v))
        w = want(st) if callable(want) else want
        ws = {canon(I, st, x) for x in (w if isinstance(w, (set, frozenset, list, tuple)) else [w])}
        if got in ws:
            continue
        if t:
            und = t
            continue
        if has_unk(got):
            und = show(find_unk(got))
            continue
        if never_differ(I, st, got, ws):
            und = f"whether {show(got)[:200]} is another way to write {show(next(iter(ws)))[:200]}"
            continue
        return f"yields {show(got)} instead of {show(next(iter(ws)))} [{facts(I, st)}]"
    if und:
        raise Undecided(f"depends on {und}")
    return None
