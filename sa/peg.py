"""Parsing expression grammars in the notation of `parsimonious`: a reader for the grammar text
found in the source, and the recognition semantics (ordered choice, greedy repetition, packrat).

Nothing here is taken from the analysed package; the grammar itself is read from its source."""
from __future__ import annotations

import ast
import re
from typing import Any, Optional


class BadGrammar(Exception):
    pass


class Node:
    __slots__ = ("name", "start", "end", "children")

    def __init__(self, name: str, start: int, end: int, children: Any = ()) -> None:
        self.name, self.start, self.end, self.children = name, start, end, list(children)

    def shape(self) -> Any:
        return (self.name, tuple(c.shape() for c in self.children))


class E:
    """An expression of the grammar."""

    __slots__ = ("kind", "args", "name")

    def __init__(self, kind: str, *args: Any) -> None:
        self.kind, self.args, self.name = kind, args, ""


TOKEN = re.compile(r"""
    (?P<skip>(?:\s|\#[^\r\n]*)+)
  | (?P<rx>~(?:u?r?b?"[^"\\]*(?:\\.[^"\\]*)*"|u?r?b?'[^'\\]*(?:\\.[^'\\]*)*')[ilmsuxaILMSUXA]*)
  | (?P<lit>u?r?b?"[^"\\]*(?:\\.[^"\\]*)*"|u?r?b?'[^'\\]*(?:\\.[^'\\]*)*')
  | (?P<label>[a-zA-Z_][a-zA-Z_0-9]*)
  | (?P<quant>[*+?]|\{\d*,\d+\}|\{\d+,\d*\}|\{\d+\})
  | (?P<op>[=/()!&])
""", re.X | re.S)


class Grammar:
    def __init__(self, text: str) -> None:
        self.toks: list = []
        i = 0
        while i < len(text):
            m = TOKEN.match(text, i)
            if not m:
                raise BadGrammar(f"cannot read the grammar at {text[i:i + 30]!r}")
            if m.lastgroup != "skip":
                self.toks.append((m.lastgroup, m.group()))
            i = m.end()
        self.i = 0
        self.rules: dict = {}
        self.first: Optional[str] = None
        while self.i < len(self.toks):
            k, v = self.toks[self.i]
            if k != "label" or self.peek(1) != ("op", "="):
                raise BadGrammar(f"expected a rule, found {v!r}")
            self.i += 2
            e = self.choice()
            if e.kind != "ref":
                e.name = v
            self.rules[v] = e
            self.first = self.first or v
        if not self.first:
            raise BadGrammar("no rules")
        for e in list(self.rules.values()):
            self.check(e)

    def check(self, e: E) -> None:
        if e.kind == "ref":
            if e.args[0] not in self.rules:
                raise BadGrammar(f"rule {e.args[0]} is not defined")
            return
        for a in e.args:
            for x in a if isinstance(a, list) else [a]:
                if isinstance(x, E):
                    self.check(x)

    def peek(self, n: int = 0) -> Any:
        return self.toks[self.i + n] if self.i + n < len(self.toks) else None

    def choice(self) -> E:
        alts = [self.sequence()]
        while self.peek() == ("op", "/"):
            self.i += 1
            alts.append(self.sequence())
        return alts[0] if len(alts) == 1 else E("or", alts)

    def sequence(self) -> E:
        terms = []
        while True:
            t = self.peek()
            if t is None or t in (("op", "/"), ("op", ")")) or (t[0] == "label" and self.peek(1) == ("op", "=")):
                break
            terms.append(self.term())
        if not terms:
            raise BadGrammar("empty alternative")
        return terms[0] if len(terms) == 1 else E("seq", terms)

    def term(self) -> E:
        t = self.peek()
        if t in (("op", "!"), ("op", "&")):
            self.i += 1
            return E("look", self.term(), t[1] == "!")
        a = self.atom()
        q = self.peek()
        if q is not None and q[0] == "quant":
            self.i += 1
            lo, hi = {"?": (0, 1), "*": (0, None), "+": (1, None)}.get(q[1], (None, None))
            if lo is None:
                p = q[1][1:-1].split(",")
                lo = int(p[0] or 0)
                hi = lo if len(p) == 1 else int(p[1]) if p[1] else None
            return E("rep", a, lo, hi)
        return a

    def atom(self) -> E:
        k, v = self.toks[self.i]
        self.i += 1
        if k == "op" and v == "(":
            e = self.choice()
            if self.peek() != ("op", ")"):
                raise BadGrammar("missing )")
            self.i += 1
            return e
        if k == "lit":
            return E("lit", ast.literal_eval(v))
        if k == "rx":
            end = max(v.rfind('"'), v.rfind("'")) + 1
            flags = 0
            for c in v[end:].lower():
                flags |= {"i": re.I, "l": re.L, "m": re.M, "s": re.S, "u": re.U, "x": re.X, "a": re.A}[c]
            return E("rx", re.compile(ast.literal_eval(v[1:end]), flags))
        if k == "label":
            return E("ref", v)
        raise BadGrammar(f"unexpected {v!r}")

    # ------------------------------------------------------------------ recognition

    def resolve(self, e: E) -> E:
        seen = set()
        while e.kind == "ref":
            if e.args[0] in seen:
                raise BadGrammar(f"circular rule {e.args[0]}")
            seen.add(e.args[0])
            e = self.rules[e.args[0]]
        return e

    def match(self, text: str, pos: int = 0, rule: Optional[str] = None) -> Optional[Node]:
        memo: dict = {}

        def go(e: E, p: int) -> Optional[Node]:
            e = self.resolve(e)
            key = (id(e), p)
            if key in memo:
                if memo[key] is memo:
                    raise BadGrammar("left recursion")
                return memo[key]
            memo[key] = memo
            r = memo[key] = run(e, p)
            return r

        def run(e: E, p: int) -> Optional[Node]:
            if e.kind == "lit":
                return Node(e.name, p, p + len(e.args[0])) if text.startswith(e.args[0], p) else None
            if e.kind == "rx":
                m = e.args[0].match(text, p)
                return Node(e.name, p, m.end()) if m else None
            if e.kind == "seq":
                q, cs = p, []
                for x in e.args[0]:
                    n = go(x, q)
                    if n is None:
                        return None
                    cs.append(n)
                    q = n.end
                return Node(e.name, p, q, cs)
            if e.kind == "or":
                for x in e.args[0]:
                    n = go(x, p)
                    if n is not None:
                        return Node(e.name, p, n.end, [n])
                return None
            if e.kind == "look":
                n = go(e.args[0], p)
                return Node(e.name, p, p) if (n is None) == e.args[1] else None
            if e.kind == "rep":
                x, lo, hi = e.args
                q, cs = p, []
                while q < len(text) and (hi is None or len(cs) < hi):
                    n = go(x, q)
                    if n is None:
                        break
                    cs.append(n)
                    if len(cs) >= lo and n.end == n.start:
                        break
                    q = n.end
                if len(cs) >= lo:
                    return Node(e.name, p, q, cs)
                return None
            raise BadGrammar(e.kind)

        return go(E("ref", rule or self.first), pos)

    def parse(self, text: str, pos: int = 0, rule: Optional[str] = None) -> Optional[Node]:
        """The tree of the whole text, or None."""
        n = self.match(text, pos, rule)
        return n if n is not None and n.end == len(text) else None
