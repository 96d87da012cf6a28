"""Try changes on scratch copies: mut.py FILE.py [CHECK...]; FILE.py defines MUTS, a list of
(check(s), file under snuba_sdk, old, new) or (..., "same") for a change that keeps the behaviour.
Prints which of the repository's tests still pass and what the check says."""
import os, runpy, shutil, subprocess, sys, tempfile

muts = runpy.run_path(sys.argv[1])["MUTS"]
only = set(sys.argv[2:])
for i, m in enumerate(muts):
    cs, f, old, new = m[:4]
    same = len(m) > 4
    cs = [c for c in cs.split(",") if not only or c in only]
    if not cs:
        continue
    d = tempfile.mkdtemp(prefix="mut.")
    try:
        shutil.copytree("/repo", d + "/r", ignore=shutil.ignore_patterns(".git"))
        edits = [(f, old, new)] if isinstance(f, str) else f
        ok = True
        for g, o, n in edits:
            p = f"{d}/r/snuba_sdk/{g}"
            s = open(p).read()
            if o not in s:
                print(f"#{i} old text not found in {g}: {o[:50]!r}")
                ok = False
                break
            open(p, "w").write(s.replace(o, n, 1))
        if not ok:
            continue
        env = dict(os.environ, PYTHONPATH=d + "/r", PYTHONDONTWRITEBYTECODE="1")
        t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=d + "/r", env=env, capture_output=True, text=True, timeout=300)
        tests = "tests pass" if t.returncode == 0 else "TESTS FAIL: " + t.stdout.strip().splitlines()[-1][:80]
        for c in cs:
            env = dict(os.environ, VERIF_REPO=d + "/r", VERIF_EVIDENCE=d + "/ev")
            r = subprocess.run([sys.executable, "/verif/run.py", c], env=env, capture_output=True, text=True, timeout=890)
            L = r.stdout.strip().splitlines()
            hit = [x for x in L if "[" in x and not x.startswith("  ") and "obligations," not in x]
            und = [x for x in L if x.startswith("  undecided")]
            summ = next((x for x in L if "obligations," in x), (r.stderr or "?")[-200:])
            verdict = {0: "quiet", 1: "CAUGHT"}.get(r.returncode, f"rc={r.returncode}")
            flag = "" if (verdict == "CAUGHT") != same and r.returncode in (0, 1) else "   <<<<<<"
            print(f"#{i} {c} {verdict}{flag} [{tests}] {new.strip()[:60]!r}\n     {summ[:150]}")
            for x in hit[:1] + und[:2]:
                print("     " + x.strip()[:260])
            sys.stdout.flush()
    finally:
        shutil.rmtree(d)
