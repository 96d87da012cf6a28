from __future__ import annotations

import importlib
import json
import os
import pickle
import sys
import time
import traceback
from collections import Counter
from typing import Any

from .framework import HERE, HOLDS, REPO, UNDECIDED, VIOLATED, Check
from .model import AnalysisBroken


EVIDENCE = os.environ.get("VERIF_EVIDENCE", os.path.join(HERE, "evidence"))


def known_findings() -> list:
    p = os.path.join(HERE, "known-findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def main(argv: list) -> int:
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    mod = importlib.import_module(f"sa.props.{pid.lower()}")
    try:
        ck = sharded(pid, tier, mod)
    except AnalysisBroken as e:
        print(f"ANALYSIS-BROKEN property={pid} {e}")
        return 2
    except Exception as e:
        traceback.print_exc()
        print(f"ANALYSIS-BROKEN property={pid} internal error: {type(e).__name__}: {e}")
        return 2
    return report(ck, tier, seed, time.time() - t0)


def sharded(pid: str, tier: str, mod: Any) -> Check:
    """Run the check in several processes, each of which decides its share of the obligations."""
    n = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1)
    if n == 1 or getattr(mod, "SERIAL", False):
        ck = Check(pid)
        ck.tier = tier
        mod.run(ck)
        return ck
    ck = Check(pid)
    ck.tier = tier
    kids = []
    sys.stdout.flush()
    for i in range(n):
        r, w = os.pipe()
        pid_ = os.fork()
        if pid_ == 0:
            os.close(r)
            try:
                ck.shard = (i, n)
                mod.run(ck)
                out: Any = ("ok", list(zip(ck.order, ck.obligations)), list(zip((f.key() for f in ck.findings), ck.findings)), ck.rules, ck.counters, sorted(ck.I.touched),
                            ck.I.n_calls, ck.I.n_branches)
            except AnalysisBroken as e:
                out = ("broken", str(e))
            except BaseException as e:
                traceback.print_exc()
                out = ("error", f"{type(e).__name__}: {e}")
            sys.stdout.flush()
            sys.stderr.flush()
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
            os._exit(0)
        os.close(w)
        kids.append((pid_, r))
    outs = []
    for p, r in kids:
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(p, 0)
        outs.append(pickle.loads(data) if data else ("error", "an analysis process ended early"))
    for o in outs:
        if o[0] == "broken":
            raise AnalysisBroken(o[1])
        if o[0] != "ok":
            raise RuntimeError(o[1])
    obs = sorted(((k, x) for o in outs for k, x in o[1]), key=lambda p: p[0])
    ck.obligations = [x for _, x in obs]
    keyed = {(f.rule, f.construct, f.case): f for o in outs for _, f in o[2]}
    ck.findings = [keyed[x[:3]] for x in ck.obligations if x[3] == VIOLATED]
    ck.rules, ck.counters = outs[0][3], outs[0][4]
    for o in outs:
        ck.I.touched |= set(o[5])
        ck.I.n_calls += o[6]
        ck.I.n_branches += o[7]
    return ck


def report(ck: Check, tier: str, seed: int, wall: float) -> int:
    pid = ck.pid
    known = [k for k in known_findings() if k.get("property") == pid and k.get("status") == "open"]
    kkeys = {k["key"] for k in known}
    new = [f for f in ck.findings if f.key() not in kkeys]
    hit = {f.key() for f in ck.findings} & kkeys
    for k in known:
        if k["key"] in hit:
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    n = Counter(o[3] for o in ck.obligations)
    rules = Counter(o[0] for o in ck.obligations)
    verbose = "VERIF_VERBOSE" in os.environ
    for o in ck.obligations:
        if o[3] == UNDECIDED or verbose:
            print(f"  {o[3]}: [{o[0]}] {o[1]}: {o[2]}{' -- ' + o[4][:300] if o[4] else ''}")
    os.makedirs(os.path.join(EVIDENCE, "replay"), exist_ok=True)
    replay = os.path.join(EVIDENCE, "replay", f"{pid}.txt")
    if new:
        with open(replay, "w") as f:
            f.write(f"property {pid}: {len(new)} violated obligation(s); re-run: python3 /verif/run.py {pid}\n\n")
            for x in new:
                f.write(f"rule {x.rule}: {ck.rules.get(x.rule, '')}\n  at   {x.construct}\n  case {x.case}\n  {x.detail}\n\n")
    elif os.path.exists(replay):
        os.remove(replay)
    for x in new:
        print(f"{x.construct}: [{x.rule}] {x.case}: {x.detail[:600]}")
    total = len(ck.obligations)
    explanation = (
        f"Static analysis of the source of {REPO}/snuba_sdk by abstract interpretation (no code of the package is run). "
        f"{total} obligations: {n[HOLDS]} hold, {n[VIOLATED]} violated, {n[UNDECIDED]} undecided. "
        + "Rules: " + "; ".join(f"{r} ({rules[r]} instances): {t}" for r, t in ck.rules.items() if rules[r])
    )
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": explanation,
            "obligations": total, "discharged": n[HOLDS], "undecided": n[UNDECIDED], "violated": n[VIOLATED],
            "modules": len(ck.I.modules), "functions_analysed": sorted(ck.I.touched),
            "calls_analysed": ck.I.n_calls, "branches": ck.I.n_branches,
            "instances": [f"{o[3]}: [{o[0]}] {o[1]}: {o[2]}" for o in ck.obligations][:2000],
            **ck.counters,
        },
        "wall_s": round(wall, 3), "violations": len(new),
    }
    with open(os.path.join(EVIDENCE, f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{pid}: {total} obligations, {n[HOLDS]} hold, {n[VIOLATED]} violated ({len(hit)} known), {n[UNDECIDED]} undecided; "
          f"{len(ck.I.touched)} functions, {ck.I.n_calls} calls; {wall:.1f}s")
    if new:
        print(f"VIOLATION property={pid} replay={replay}")
        return 1
    floor = getattr(sys.modules[f"sa.props.{pid.lower()}"], "MIN_DECIDED", 0)
    decided = n[HOLDS] + n[VIOLATED]
    if total == 0 or decided == 0:
        print(f"ANALYSIS-BROKEN property={pid} nothing could be decided")
        return 2
    return 0
