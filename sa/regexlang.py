"""Languages of strings as lazily built automata over a finite alphabet.

The alphabet is every ASCII character plus one representative of each class of
non-ASCII characters that Python's regular expressions and str predicates tell
apart.  Patterns are read with the standard library's pattern parser and turned
into automata; nothing is matched against anything."""
from __future__ import annotations

import re
import re._constants as C  # type: ignore
import re._parser as P  # type: ignore
from typing import Any, Callable, Iterable, Optional

EXTRA = ['\u017f', '\u212a', '\u0130', '\u0131', "\u00e9", "\u0663", "\u2003", "\u2192", "\x85", "\u00b2", "\u4e2d", "\U0001F600"]
ALPHABET = [chr(i) for i in range(128)] + EXTRA


class NotALanguage(Exception):
    pass


class Lang:
    def start(self) -> Any: ...
    def step(self, s: Any, c: str) -> Any: ...
    def accept(self, s: Any) -> bool: ...

    def __and__(self, o: "Lang") -> "Lang":
        return Bin(self, o, lambda a, b: a and b)

    def __or__(self, o: "Lang") -> "Lang":
        return Bin(self, o, lambda a, b: a or b)

    def __invert__(self) -> "Lang":
        return Not(self)


class Bin(Lang):
    def __init__(self, a: Lang, b: Lang, f: Callable) -> None:
        self.a, self.b, self.f = a, b, f

    def start(self) -> Any:
        return (self.a.start(), self.b.start())

    def step(self, s: Any, c: str) -> Any:
        return (self.a.step(s[0], c), self.b.step(s[1], c))

    def accept(self, s: Any) -> bool:
        return self.f(self.a.accept(s[0]), self.b.accept(s[1]))


class Not(Lang):
    def __init__(self, a: Lang) -> None:
        self.a = a

    def start(self) -> Any:
        return self.a.start()

    def step(self, s: Any, c: str) -> Any:
        return self.a.step(s, c)

    def accept(self, s: Any) -> bool:
        return not self.a.accept(s)


class Table(Lang):
    """A small hand-written automaton."""

    def __init__(self, start: Any, step: Callable, accept: Callable) -> None:
        self._s, self._t, self._a = start, step, accept

    def start(self) -> Any:
        return self._s

    def step(self, s: Any, c: str) -> Any:
        return self._t(s, c)

    def accept(self, s: Any) -> bool:
        return self._a(s)


ALL = Table(0, lambda s, c: 0, lambda s: True)
NOTHING = Table(0, lambda s, c: 0, lambda s: False)
NONEMPTY = Table(0, lambda s, c: 1, lambda s: s == 1)


def exactly(w: str) -> Lang:
    n = len(w)
    return Table(0, lambda s, c: s + 1 if 0 <= s < n and w[s] == c else -1, lambda s: s == n)


def startswith(w: str) -> Lang:
    n = len(w)
    return Table(0, lambda s, c: n if s == n else (s + 1 if s >= 0 and w[s] == c else -1), lambda s: s == n)


def endswith(w: str) -> Lang:
    n = len(w)
    return Table("", lambda s, c: (s + c)[-n:] if n else "", lambda s: s == w)


def contains(w: str) -> Lang:
    n = len(w)
    if not n:
        return ALL
    return Table("", lambda s, c: s if s == w else (s + c)[-n:], lambda s: s == w)


def every_char(ok: Callable[[str], bool], nonempty: bool = False) -> Lang:
    return Table(0, lambda s, c: -1 if s == -1 or not ok(c) else 1, lambda s: s == 1 or (s == 0 and not nonempty))


def length(lo: Optional[int], hi: Optional[int]) -> Lang:
    top = max(lo or 0, (hi if hi is not None else 0)) + 1
    if top > 5000:
        raise NotALanguage("length bound")
    return Table(0, lambda s, c: min(s + 1, top), lambda s: (lo is None or s >= lo) and (hi is None or s <= hi))


def first_char(ok: Callable[[str], bool]) -> Lang:
    return Table(0, lambda s, c: (1 if ok(c) else 2) if s == 0 else s, lambda s: s == 1)


IDENTIFIER = Table(0, lambda s, c: -1 if s == -1 else (1 if (c.isidentifier() if s == 0 else ("a" + c).isidentifier()) else -1),
                   lambda s: s == 1)


def stripped(l: Lang, ok: Callable[[str], bool], left: bool, right: bool) -> Lang:
    """{ x : x without leading/trailing ok-characters is in l }"""
    s0 = (False, l.start(), l.start())

    def step(s: Any, c: str) -> Any:
        begun, acc, cur = s
        if ok(c) and not begun and left:
            return s
        cur = l.step(cur, c)
        if ok(c) and right:
            return (True if begun or not left else begun, acc, cur)
        return (True, cur, cur)

    return Table(s0, step, lambda s: l.accept(s[1] if right else s[2]))


def mapped(l: Lang, f: Callable[[str], str]) -> Lang:
    """{ x : the characterwise image of x under f is in l }"""

    def step(s: Any, c: str) -> Any:
        for d in f(c):
            s = l.step(s, d)
        return s

    return Table(l.start(), step, l.accept)


def dropped(l: Lang, first: int, last: int) -> Lang:
    """{ x : x[first:-last] is in l }"""

    def step(s: Any, c: str) -> Any:
        n, pend, q = s
        if n < first:
            return (n + 1, pend, q)
        pend += c
        if len(pend) > last:
            q, pend = l.step(q, pend[0]), pend[1:]
        return (n, pend, q)

    return Table((0, "", l.start()), step, lambda s: l.accept(s[2]))


def taken(l: Lang, n: int) -> Lang:
    """{ x : x[:n] is in l }"""
    return Table((0, l.start()), lambda s, c: (s[0] + 1, l.step(s[1], c)) if s[0] < n else s, lambda s: l.accept(s[1]))


def before(l: Lang, sep: str) -> Lang:
    """{ x : x contains sep and the part before its first occurrence is in l }"""
    return Table((False, l.start()), lambda s, c: s if s[0] else (True, s[1]) if c == sep else (False, l.step(s[1], c)),
                 lambda s: s[0] and l.accept(s[1]))


def after(l: Lang, sep: str) -> Lang:
    return Table((False, l.start()), lambda s, c: (True, l.step(s[1], c)) if s[0] else (c == sep, s[1]),
                 lambda s: s[0] and l.accept(s[1]))


def wrapped(l: Lang, pre: str, post: str) -> Lang:
    """{ x : pre + x + post is in l }"""
    s0 = l.start()
    for c in pre:
        s0 = l.step(s0, c)

    def accept(s: Any) -> bool:
        for c in post:
            s = l.step(s, c)
        return l.accept(s)

    return Table(s0, l.step, accept)


class Regex(Lang):
    """The set of strings for which re.compile(pattern, flags).<how>(s) is not None."""

    def __init__(self, pattern: str, flags: int = 0, how: str = "match") -> None:
        try:
            tree = P.parse(pattern, flags)
        except Exception as e:
            raise NotALanguage(f"pattern {pattern!r}: {e}")
        self.flags = tree.state.flags | flags
        if self.flags & (re.MULTILINE | re.LOCALE):
            raise NotALanguage("multiline pattern")
        self.how = how
        self.eps: dict = {}
        self.moves: dict = {}
        self.tests: dict = {}
        self.n = 0
        self.extra: set = set()
        a, b = self._seq(tree)
        self.a, self.b = a, b
        self._memo: dict = {}

    # -------------------------------------------------------------- construction

    def _new(self) -> int:
        self.n += 1
        return self.n

    def _e(self, a: int, b: int) -> None:
        self.eps.setdefault(a, []).append(b)

    def _seq(self, items: Any) -> tuple:
        a = cur = self._new()
        for op, av in items:
            x, y = self._node(op, av)
            self._e(cur, x)
            cur = y
        return a, cur

    def _chars(self, f: Callable[[str], bool]) -> tuple:
        a, b = self._new(), self._new()
        self.moves.setdefault(a, []).append((frozenset(c for c in ALPHABET if f(c)), b))
        return a, b

    def _node(self, op: Any, av: Any) -> tuple:
        ic = bool(self.flags & re.IGNORECASE)
        if op is C.LITERAL:
            ch = chr(av)
            self.extra.add(ch)
            if ic:
                return self._chars(self._folded(re.escape(ch)))
            return self._chars(lambda c: c == ch)
        if op is C.NOT_LITERAL:
            ch = chr(av)
            same = self._folded(re.escape(ch)) if ic else (lambda c: c == ch)
            return self._chars(lambda c: not same(c))
        if op is C.ANY:
            return self._chars(lambda c: c != "\n" or bool(self.flags & re.DOTALL))
        if op is C.IN:
            return self._chars(self._set(av))
        if op is C.BRANCH:
            a, b = self._new(), self._new()
            for alt in av[1]:
                x, y = self._seq(alt)
                self._e(a, x)
                self._e(y, b)
            return a, b
        if op is C.SUBPATTERN:
            return self._seq(av[3])
        if op in (C.MAX_REPEAT, C.MIN_REPEAT) or op is getattr(C, "POSSESSIVE_REPEAT", None):
            if op is getattr(C, "POSSESSIVE_REPEAT", None):
                raise NotALanguage("possessive repeat")
            lo, hi, sub = av
            if lo > 300 or (hi is not C.MAXREPEAT and hi > 300):
                raise NotALanguage("large repeat")
            a = cur = self._new()
            for _ in range(lo):
                x, y = self._seq(sub)
                self._e(cur, x)
                cur = y
            b = self._new()
            if hi is C.MAXREPEAT:
                x, y = self._seq(sub)
                self._e(cur, x)
                self._e(y, cur)
                self._e(cur, b)
            else:
                self._e(cur, b)
                for _ in range(hi - lo):
                    x, y = self._seq(sub)
                    self._e(cur, x)
                    cur = y
                    self._e(cur, b)
            return a, b
        if op is C.AT:
            a, b = self._new(), self._new()
            kind = {C.AT_BEGINNING: "^", C.AT_BEGINNING_STRING: "^", C.AT_END: "$", C.AT_END_STRING: "Z"}.get(av)
            if kind is None:
                raise NotALanguage("boundary assertion")
            self.tests.setdefault(a, []).append((kind, b))
            return a, b
        raise NotALanguage(f"pattern construct {op}")

    def _folded(self, one: str) -> Callable[[str], bool]:
        """The characters that match the one-character pattern when case is ignored."""
        rx = re.compile(one, self.flags & (re.IGNORECASE | re.ASCII))
        return lambda c: rx.match(c) is not None

    def _set(self, items: Any) -> Callable[[str], bool]:
        neg = False
        fs: list = []
        ic = bool(self.flags & re.IGNORECASE)
        asc = bool(self.flags & re.ASCII)
        for op, av in items:
            if op is C.NEGATE:
                neg = True
            elif op is C.LITERAL:
                self.extra.add(chr(av))
                fs.append(self._folded(re.escape(chr(av))) if ic else lambda c, ch=chr(av): c == ch)
            elif op is C.RANGE:
                lo, hi = av
                fs.append(self._folded(f"[{re.escape(chr(lo))}-{re.escape(chr(hi))}]") if ic else lambda c, lo=lo, hi=hi: lo <= ord(c) <= hi)
            elif op is C.CATEGORY:
                cls = {C.CATEGORY_DIGIT: r"\d", C.CATEGORY_NOT_DIGIT: r"\D", C.CATEGORY_SPACE: r"\s", C.CATEGORY_NOT_SPACE: r"\S",
                       C.CATEGORY_WORD: r"\w", C.CATEGORY_NOT_WORD: r"\W"}.get(av)
                if cls is None:
                    raise NotALanguage("category")
                rx = re.compile(cls, re.ASCII if asc else 0)
                fs.append(lambda c, rx=rx: rx.match(c) is not None)
            else:
                raise NotALanguage(f"set item {op}")
        return lambda c: any(f(c) for f in fs) != neg

    # -------------------------------------------------------------- running
    # a configuration is (node, mode): mode 0 anything may follow, 1 only "" or "\n", 2 nothing

    def _closure(self, confs: Iterable, at_start: bool) -> frozenset:
        seen = set(confs)
        todo = list(seen)
        while todo:
            n, m = todo.pop()
            nxt = [(x, m) for x in self.eps.get(n, ())]
            for kind, x in self.tests.get(n, ()):
                if kind == "^":
                    if at_start:
                        nxt.append((x, m))
                else:
                    nxt.append((x, max(m, 1) if kind == "$" else 2))
            for y in nxt:
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        return frozenset(seen)

    def start(self) -> Any:
        return (self._closure([(self.a, 0)], True))

    def step(self, s: Any, c: str) -> Any:
        key = (s, c)
        r = self._memo.get(key)
        if r is None:
            out = set()
            for n, m in s:
                if m == 2 or (m == 1 and c != "\n"):
                    continue
                m2 = 2 if m == 1 else 0
                for cs, x in self.moves.get(n, ()):
                    if c in cs:
                        out.add((x, m2))
                if n == self.b and self.how != "fullmatch":
                    out.add((n, m2))
            if self.how == "search":
                out.add((self.a, 0))
            r = self._memo[key] = self._closure(out, False)
        return r

    def accept(self, s: Any) -> bool:
        return any(n == self.b for n, m in s)


def difference(a: Lang, b: Lang, limit: int = 200000) -> Optional[tuple]:
    """None if the languages are equal, else (witness, in a?, in b?)."""
    s = (a.start(), b.start())
    seen = {s}
    todo = [(s, "")]
    i = 0
    while i < len(todo):
        (x, y), w = todo[i]
        i += 1
        p, q = a.accept(x), b.accept(y)
        if p != q:
            return (w, p, q)
        nx = []
        for c in PREF:
            t = (a.step(x, c), b.step(y, c))
            if t not in seen:
                seen.add(t)
                todo.append((t, w + c))
        if len(seen) > limit:
            raise NotALanguage("too many states")
    return None


# prefer readable witnesses
PREF = sorted(ALPHABET, key=lambda c: (not c.isalnum(), ord(c) > 127, not c.isprintable(), c))
