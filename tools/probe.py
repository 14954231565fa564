#!/usr/bin/env python3
"""Quick probes: apply an edit in a scratch copy, run its property's check.

probe.py SPEC.py SCRATCH [ID...]; SPEC defines P = [(id, "C01[,C02]", [(file, old, new)...])].
"""
import os, subprocess, sys, runpy, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec, scratch = sys.argv[1:3]
only = sys.argv[3:]
R, W = scratch + "/repo", scratch + "/verif"
def sh(c, **k): return subprocess.run(c, shell=True, text=True, capture_output=True, **k)
os.makedirs(scratch, exist_ok=True)
if not os.path.isdir(R):
    assert sh(f"git clone -q /repo {R} && cp /repo/Cargo.lock {R}/").returncode == 0
sh(f"cd {R} && git fetch -q && git checkout -qf . && git reset -q --hard $(git -C /repo rev-parse HEAD)")
os.makedirs(W, exist_ok=True)
sh(f"rm -rf {W}/harness; cp -a {V}/harness {V}/check.sh {V}/known_findings.txt {W}/; rm -rf {W}/harness/target")
sh(f"sed -i 's#\"/repo\"#\"{R}\"#' {W}/harness/Cargo.toml")
for id, props, edits in runpy.run_path(spec)["P"]:
    if only and id not in only: continue
    sh(f"git -C {R} checkout -q -f .")
    bad = None
    for f, old, new in edits:
        p = f"{R}/{f}"
        s = open(p).read()
        if s.count(old) != 1: bad = f"edit matches {s.count(old)} times: {old[:50]!r}"; break
        open(p, "w").write(s.replace(old, new))
    if bad: print(id, "BAD", bad, flush=True); continue
    for c in props.split(","):
        t = time.time()
        try:
            r = sh(f"cd {W} && VMON_REPO={R} VERIF_SEED=1 VERIF_TIER=quick ./check.sh {c} quick", timeout=900)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            says = "CAUGHT" if r.returncode == 1 and v else ("MISSED" if r.returncode == 0 else f"RC {r.returncode} " + repr(r.stderr[-800:]))
        except subprocess.TimeoutExpired:
            says = "TIMEOUT"
        print(f"{id} {c} {says} {time.time()-t:.0f}s", flush=True)
sh(f"git -C {R} checkout -q -f .")
