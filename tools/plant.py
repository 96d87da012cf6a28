"""Authoring aid for seeded bugs: builds seeded/<id>/ from an edit, confirms it in a
scratch copy (tests pass, demo distinguishes) and reports which checks catch it.

  plant.py make DEFS.py     DEFS.py defines SEEDS = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo)]
  plant.py trial [ID ...]   re-confirm seeded bugs and run checks on them
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, "seeded")
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")


def copy():
    d = tempfile.mkdtemp(prefix="plant.")
    subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
    return d


def run(cmd, cwd, timeout=900, **env):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=dict(ENV, **env), capture_output=True, text=True, timeout=timeout)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def tests(repo):
    rc, out = run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], repo, PYTHONPATH=repo)
    return rc, out.strip().splitlines()[-1] if out.strip() else ""


def trial(i, others=False):
    s = os.path.join(SEEDED, i)
    meta = json.load(open(os.path.join(s, "meta.json")))
    d = copy()
    repo = d + "/repo"
    try:
        r0, o0 = run(["bash", os.path.join(s, "demo.sh")], repo)
        rc, o = run(["git", "apply", os.path.join(s, "patch.diff")], repo)
        if rc:
            return i, f"PATCH FAILS {o[:200]}"
        r1, o1 = run(["bash", os.path.join(s, "demo.sh")], repo)
        tr, tl = tests(repo)
        msg = []
        if r0:
            msg.append(f"DEMO FAILS UNPATCHED {o0[-300:]}")
        if not r1:
            msg.append("DEMO PASSES PATCHED")
        if tr:
            msg.append(f"TESTS FAIL {tl}")
        p = meta["property"]
        if os.path.exists(os.path.join(HERE, "sa", "props", p.lower() + ".py")):
            ev = tempfile.mkdtemp(prefix="ev.", dir=d)
            c, co = run(["python3", os.path.join(HERE, "run.py"), p], HERE, VERIF_REPO=repo, VERIF_EVIDENCE=ev)
            v = [l for l in co.splitlines() if l.startswith("VIOLATION")]
            first = [l for l in co.splitlines() if "[" in l and not l.startswith(" ")][:1]
            und = sum(1 for l in co.splitlines() if l.startswith("  undecided"))
            msg.append(("CAUGHT" if c == 1 and v else f"MISSED rc={c}") + f" und={und} {first[0][:230] if first else co[-200:] if c else ''}")
        else:
            msg.append("no check")
        return i, " | ".join(msg)
    finally:
        shutil.rmtree(d)


def make(defs):
    ns = {}
    exec(open(defs).read(), ns)
    ids = []
    for sd in ns["SEEDS"]:
        d = copy()
        repo = d + "/repo"
        try:
            ok = True
            for f, old, new in sd["edits"]:
                p = os.path.join(repo, "snuba_sdk", f)
                t = open(p).read()
                if t.count(old) != 1:
                    print(sd["id"], f"EDIT does not match once ({t.count(old)}): {old[:60]!r}")
                    ok = False
                    break
                open(p, "w").write(t.replace(old, new))
            if not ok:
                continue
            out = os.path.join(SEEDED, sd["id"])
            os.makedirs(out, exist_ok=True)
            diff = subprocess.run(["git", "diff"], cwd=repo, capture_output=True, text=True).stdout
            open(os.path.join(out, "patch.diff"), "w").write(diff)
            open(os.path.join(out, "demo.py"), "w").write(sd["demo"].strip() + "\n")
            open(os.path.join(out, "demo.sh"), "w").write(
                '#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
            json.dump({"property": sd["property"], "needs": sd["needs"], "what_it_breaks": sd["breaks"]},
                      open(os.path.join(out, "meta.json"), "w"), indent=1)
            ids.append(sd["id"])
        finally:
            shutil.rmtree(d)
    return ids


def main():
    if sys.argv[1] == "make":
        ids = make(sys.argv[2])
    else:
        ids = sys.argv[2:] or sorted(os.listdir(SEEDED))
    with ThreadPoolExecutor(6) as ex:
        for i, m in ex.map(trial, ids):
            print(i, m, flush=True)


main()
