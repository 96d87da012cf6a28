"""Obligations, verdicts and evidence shared by the property checks."""
from __future__ import annotations

import contextlib
import json
import os
import signal
import time
import traceback
from typing import Any, Callable, Iterable, Optional

from .interp import Interp
from .model import AnalysisBroken, FuncInfo, Raised, State, TySpec, Unsupported
from .witness import never_differ
from .terms import NONE, SET_ORDER, Term, find_unk, has_unk, show, sym

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")

HOLDS, VIOLATED, UNDECIDED = "holds", "violated", "undecided"


OB_SECONDS = int(os.environ.get("VERIF_OB_SECONDS", "60"))


class TooLong(BaseException):
    pass


@contextlib.contextmanager
def deadline(seconds: int) -> Any:
    def ring(*_: Any) -> None:
        raise TooLong()

    old = signal.signal(signal.SIGALRM, ring)
    signal.alarm(seconds)
    try:
        yield
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


class Finding:
    def __init__(self, rule: str, construct: str, case: str, detail: str) -> None:
        self.rule, self.construct, self.case, self.detail = rule, construct, case, detail

    def key(self) -> str:
        return f"{self.rule}|{self.construct}|{self.case}"


class Check:
    """One property: collects obligations and decides the exit status."""

    def __init__(self, pid: str) -> None:
        self.pid = pid
        self.I = Interp(REPO)
        self.obligations: list = []  # (rule, construct, case, verdict, detail)
        self.findings: list = []
        self.t0 = time.time()
        self.slow = 0
        self.reruns = 0
        #: (i, n): decide only every n-th obligation, starting with the i-th; see main.sharded
        self.shard = (0, 1)
        self.seq = 0
        self.order: list = []
        self.budget = int(os.environ.get("VERIF_BUDGET", "600"))
        #: another check's client programs are judged by this function instead (see borrow)
        self.judge: Any = None
        self.rules: dict = {}
        self.counters: dict = {}

    # -------------------------------------------------------------- bookkeeping

    def rule(self, name: str, text: str) -> str:
        if self.judge is not None:
            return name
        self.rules[name] = text
        return name

    def record(self, rule: str, construct: str, case: str, verdict: str, detail: str = "") -> None:
        self.obligations.append((rule, construct, case, verdict, detail))
        self.order.append(self.seq)
        if verdict == VIOLATED:
            self.findings.append(Finding(rule, construct, case, detail))

    def ob(self, rule: str, construct: str, case: str, f: Callable[[], Any]) -> None:
        """Run one obligation.  f returns None/True (holds), a string (violated) or
        raises Undecided/Unsupported."""
        if self.judge is not None:
            return
        self.seq += 1
        if self.seq % self.shard[1] != self.shard[0]:
            return
        t0 = time.time()
        left = self.budget - (t0 - self.t0)
        if left < 1 or (len(self.findings) > 8 and t0 - self.t0 > 240):
            # (many violations found already: the rest changes nothing)
            self.record(rule, construct, case, UNDECIDED, "time budget of the check used up")
            return
        # an obligation that cannot be decided quickly is rarely decided at all
        limit = OB_SECONDS if self.slow < 3 else max(2, OB_SECONDS // 6) if self.slow < 15 else max(1, OB_SECONDS // 20)
        try:
            SET_ORDER["touched"] = False
            with deadline(int(min(limit, left)) or 1):
                r = f()
            if (r is None or r is True) and SET_ORDER["touched"] and not SET_ORDER["reverse"]:
                r = self.reversed_sets(f, int(min(limit, left)) or 1)
            if os.environ.get("VERIF_TRACE") and time.time() - t0 > 0.5:
                print(f"  {time.time() - t0:.1f}s {construct}: {case}", flush=True)
        except TooLong:
            self.slow += 1
            self.record(rule, construct, case, UNDECIDED, "analysis time limit")
            return
        except Undecided as e:
            self.record(rule, construct, case, UNDECIDED, str(e))
            return
        except Unsupported as e:
            self.record(rule, construct, case, UNDECIDED, f"no transfer function: {e}")
            return
        except RecursionError:
            self.record(rule, construct, case, UNDECIDED, "analysis recursion limit")
            return
        except AnalysisBroken:
            raise
        except Exception as e:  # an analysis bug must not become an alarm
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.record(rule, construct, case, UNDECIDED, f"internal: {type(e).__name__}: {e} ({os.path.basename(tb.filename)}:{tb.lineno})")
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()
            return
        if r is None or r is True:
            self.record(rule, construct, case, HOLDS)
        else:
            self.record(rule, construct, case, VIOLATED, str(r))

    def reversed_sets(self, f: Callable[[], Any], limit: int) -> Any:
        """The verdict when the elements of sets are visited in the other order."""
        SET_ORDER["reverse"] = True
        self.reruns += 1
        try:
            with deadline(limit):
                r = f()
            return r if r is None or r is True else f"{r} (with the elements of sets visited in another order)"
        except AnalysisBroken:
            raise
        except Exception:
            return None
        finally:
            SET_ORDER["reverse"] = False

    def borrow(self, mods: Iterable, rule: str, judge: Callable) -> None:
        """Judge the client programs of other checks by another rule: judge(expect, set-up, inputs,
        expression) gives the verdict on one of them."""
        seen: set = set()

        def register(ex: Any, where: str, label: str, src: str, inputs: dict, expr: str) -> None:
            key = (src, expr, tuple(sorted((n, id(v)) for n, v in inputs.items())), len(ex.hooks))
            if key in seen:
                return
            seen.add(key)
            self.judge, saved = None, self.judge
            try:
                self.ob(rule, expr if len(expr) < 80 else expr[:80], f"{mod.__name__.rsplit('.', 1)[-1].upper()} {where}: {label}", lambda: judge(ex, src, inputs, expr))
            finally:
                self.judge = saved

        saved = (self.I.field_specs, self.I.hooks, self.I.max_rec)
        for mod in mods:
            self.judge = register
            try:
                mod.run(self)
            finally:
                self.judge = None
                self.I.field_specs, self.I.hooks, self.I.max_rec = saved

    # -------------------------------------------------------------- running the analysis

    def fresh(self) -> State:
        self.I.inputs = {}
        self.I.stack = []
        self.I.yields = []
        self.I.try_depth = 0
        self.I.summaries = {}
        st = State()
        st.cur = 0
        st.frames[0] = {}
        st.mod = next(iter(self.I.modules.values()))
        return st

    @contextlib.contextmanager
    def hooked(self, *fs: Callable) -> Any:
        saved = self.I.hooks
        self.I.hooks = list(fs) + list(saved)
        try:
            yield
        finally:
            self.I.hooks = saved

    @contextlib.contextmanager
    def depth(self, n: int) -> Any:
        """Unfold recursion n levels (for inputs of known, finite shape)."""
        saved = self.I.max_rec
        self.I.max_rec = n
        try:
            yield
        finally:
            self.I.max_rec = saved

    def inp(self, name: str, spec: TySpec) -> Term:
        t = sym(name)
        self.I.inputs[t] = spec
        return t


def stub(q: str, value: Term) -> Callable:
    """Calls of the function q yield the given value."""
    return lambda I, fi, a, k, s: [(s, value)] if fi.q == q else None


def unvalidated(query: str) -> Callable:
    """Validation of a query is taken to pass: it is the matter of other checks.  The entry
    point, the visitors that validate and the module of match validation are all covered, so
    that it does not matter which of them is called."""

    def hook(I: Interp, fi: FuncInfo, a: list, k: dict, s: State) -> Any:
        if fi.q == f"{query}.validate" or fi.module.name == "snuba_sdk.query_validation":
            return [(s, NONE)]
        if fi.name == "visit" and a and a[0].k == "obj":
            c = I.rec(s, a[0]).cls
            if c is not None and "Validator" in c.name:
                return [(s, NONE)]
        return None

    return hook


class Undecided(Exception):
    pass


def taint(st: State) -> Optional[str]:
    def walk(evs: Any) -> Optional[str]:
        for e in evs:
            if e[0] == "unkbranch":
                return e[1]
            if e[0] == "foreach":
                for _, inner in e[2]:
                    r = walk(inner)
                    if r:
                        return r
        return None

    return walk(st.events)


def is_sdk_error(exc: str) -> bool:
    return exc.startswith("snuba_sdk.")


def facts(I: Interp, st: State, limit: int = 6) -> str:
    out = []
    for t, v in st.types.items():
        if len(v) <= 6:
            out.append(f"{show(t)}: {'|'.join(sorted(a.split('.')[-1] for a in v))}")
    for t, v in st.oneof.items():
        out.append(f"{show(t)} in {show(v)}")
    for t, v in st.num.items():
        out.append(f"{show(t)} in {v}")
    for t, v in st.preds.items():
        s = show(t)
        if len(s) < 120:
            out.append(f"{s} is {v}")
    return "; ".join(out[:limit])


def expect_raise(I: Interp, outs: list, allowed: Optional[Callable[[str], bool]] = None) -> Optional[str]:
    """Every outcome must be an SDK error."""
    und = None
    if not outs:
        raise Undecided("no outcome")
    for st, v in outs:
        if isinstance(v, Raised):
            if (allowed or is_sdk_error)(v.exc):
                continue
            t = taint(st)
            if t:
                und = t
                continue
            return f"raises {v.exc} at {v.where} instead of an SDK error [{facts(I, st)}]"
        t = taint(st)
        if t:
            und = t
            continue
        return f"accepted [{facts(I, st)}]"
    if und:
        raise Undecided(f"depends on {und}")
    return None


def expect_accept(I: Interp, outs: list) -> Optional[str]:
    und = None
    if not outs:
        raise Undecided("no outcome")
    for st, v in outs:
        if isinstance(v, Raised):
            t = taint(st)
            if t:
                und = t
                continue
            return f"rejected: {v.exc} at {v.where} [{facts(I, st)}]"
    if und:
        raise Undecided(f"depends on {und}")
    return None


def expect_value(I: Interp, outs: list, want: Term, project: Optional[Callable] = None) -> Optional[str]:
    """Every outcome must be the value `want` (after freezing and projection)."""
    und = None
    if not outs:
        raise Undecided("no outcome")
    for st, v in outs:
        t = taint(st)
        if isinstance(v, Raised):
            if t:
                und = t
                continue
            return f"raises {v.exc} at {v.where} [{facts(I, st)}]"
        got = I.freeze(st, v)
        if project is not None:
            got = project(got, st)
        if got is want:
            continue
        if t:
            und = t
            continue
        if has_unk(got):
            und = show(find_unk(got))
            continue
        if never_differ(I, st, got, [want]):
            und = f"whether {show(got)[:200]} is another way to write {show(want)[:200]}"
            continue
        return f"yields {show(got)} instead of {show(want)} [{facts(I, st)}]"
    if und:
        raise Undecided(f"depends on {und}")
    return None
