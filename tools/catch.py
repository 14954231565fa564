#!/usr/bin/env python3
"""Run checks against planted changes, in scratch copies.

catch.py SCRATCH [-c CHECK[,CHECK]] [-s SEED] ID...
Needs nothing from /repo but its HEAD; prints one line per change.
"""
import json, os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
scratch = args.pop(0)
checks, seed = None, "1"
while args and args[0].startswith("-"):
    o = args.pop(0)
    if o == "-c": checks = args.pop(0).split(",")
    if o == "-s": seed = args.pop(0)
R, W = scratch + "/repo", scratch + "/verif"
def sh(c, **k): return subprocess.run(c, shell=True, text=True, capture_output=True, **k)
os.makedirs(scratch, exist_ok=True)
if not os.path.isdir(R):
    assert sh(f"git clone -q /repo {R} && cp /repo/Cargo.lock {R}/").returncode == 0
sh(f"cd {R} && git fetch -q && git checkout -qf . && git reset -q --hard $(git -C /repo rev-parse HEAD)")
os.makedirs(W, exist_ok=True)
sh(f"rsync -a --delete --exclude target --exclude .git --exclude seeded {V}/ {W}/ || (rm -rf {W}/harness && cp -a {V}/harness {V}/check.sh {V}/known_findings.txt {W}/)")
sh(f"sed -i 's#\"/repo\"#\"{R}\"#; s#\"../../repo\"#\"{R}\"#' {W}/harness/Cargo.toml")
for i in args:
    d = f"{V}/seeded/{i}"
    meta = json.load(open(d + "/meta.json"))
    sh(f"git -C {R} checkout -q -f .")
    a = sh(f"git -C {R} apply {d}/patch.diff")
    if a.returncode: print(i, "PATCH FAILS", a.stderr[-200:]); continue
    for c in checks or [meta["property"]]:
        try:
            r = sh(f"cd {W} && VMON_REPO={R} VERIF_SEED={seed} VERIF_TIER=quick ./check.sh {c} quick", timeout=900)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            says = "CAUGHT" if r.returncode == 1 and v else ("missed" if r.returncode == 0 else f"rc {r.returncode}")
            print(f"{i} {c} {says} {len(v)} {r.stderr[-160:]!r}" if says != "CAUGHT" else f"{i} {c} {says}", flush=True)
        except subprocess.TimeoutExpired:
            print(f"{i} {c} TIMEOUT", flush=True)
    sh(f"git -C {R} checkout -q -f .")
