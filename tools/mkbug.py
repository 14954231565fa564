#!/usr/bin/env python3
"""Make planted bugs from a spec file and judge them in a scratch copy of /repo.

usage: mkbug.py SPEC.py SCRATCH OUT [ID...]

SPEC.py defines BUGS = {id: dict(property, edits=[(file, old, new)...], demo,
needs, breaks, plain (optional))}. SCRATCH is a directory for the copy (made if missing). OUT gets
<id>/{patch.diff,demo.sh,main.rs,Cargo.lock,meta.json} for each bug that counts.
"""
import json, os, re, shutil, subprocess, sys, runpy

spec, scratch, out = sys.argv[1:4]
only = sys.argv[4:]
BUGS = runpy.run_path(spec)["BUGS"]
BASE = json.load(open("/opt/vp/BASELINE.json"))["stable"]
ENV = dict(os.environ, HOME="/root", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
           CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only",
           CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", RUST_BACKTRACE="0",
           PROPTEST_RNG_SEED="20240601", PROPTEST_CASES="256")
DEMO = '''#!/bin/bash
# Exit 0 if the program beside this file finds what it expects.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
dir=$(mktemp -d) || exit 9
trap 'rm -rf "$dir"' EXIT
mkdir "$dir/src"
cp "$here/main.rs" "$dir/src/main.rs"
cp "$here/Cargo.lock" "$dir/Cargo.lock"
cat >"$dir/Cargo.toml" <<END
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
phonenumber = { path = "$repo" }
serde_json = "1"
[profile.dev]
debug = false
[workspace]
END
cd "$dir" || exit 9
export CARGO_TARGET_DIR="$dir/target"
cargo build --offline -q || exit 8
timeout 120 ./target/debug/demo
'''

def sh(*a, **k):
    return subprocess.run(a, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)

repo = scratch + "/repo"
if not os.path.exists(repo):
    os.makedirs(scratch, exist_ok=True)
    sh("cp", "-a", "/repo", repo)
else:
    sh("git", "checkout", "-q", "--", ".", cwd=repo)
    sh("git", "pull", "-q", "/repo", cwd=repo)
TMP = scratch + "/tmp"
os.makedirs(TMP, exist_ok=True)
ENV["TMPDIR"] = TMP

def tests():
    log = scratch + "/test.log"
    with open(log, "w") as f:
        subprocess.run(["cargo", "test", "--workspace", "--no-fail-fast", "--offline", "--", "--test-threads", "8"],
                       cwd=repo, env=ENV, stdout=f, stderr=subprocess.STDOUT)
    sh("python3", "/opt/vp/results.py", scratch + "/o.json", "cargo:" + log)
    sh("git", "checkout", "-q", "--", "tests", cwd=repo)
    try:
        o = json.load(open(scratch + "/o.json"))
    except Exception:
        return ["no results"]
    return [t for t in BASE if t not in o["passed"]]

def blame_ok():
    """At least one removed line is the original's, and none is ours."""
    d = sh("git", "diff", "-U0", cwd=repo).stdout
    f, own, orig = None, 0, 0
    for l in d.splitlines():
        if l.startswith("--- a/"):
            f = l[6:]
            bl = sh("git", "blame", "-s", "HEAD", "--", f, cwd=repo).stdout.splitlines()
        m = re.match(r"@@ -(\d+)(?:,(\d+))? ", l)
        if m:
            a, n = int(m[1]), int(m[2] or 1)
            for i in range(a, a + n):
                if bl[i - 1].startswith("^"): orig += 1
                else: own += 1
    return orig, own

def demo(d):
    r = sh("bash", d + "/demo.sh", cwd=repo, env={k: v for k, v in ENV.items() if not k.startswith("PROPTEST")})
    return r.returncode, r.stdout

for id, b in BUGS.items():
    if only and id not in only: continue
    if not only and os.path.exists(f"{out}/{id}/patch.diff"): continue
    d = f"{scratch}/{id}"
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(d + "/main.rs", "w").write(b["demo"])
    # Built with the compiler's checks, or as users of the library build it.
    open(d + "/demo.sh", "w").write(DEMO.replace("debug = false\n", "debug = false\ndebug-assertions = false\noverflow-checks = false\n") if b.get("plain") else DEMO)
    os.chmod(d + "/demo.sh", 0o755)
    shutil.copy(os.path.dirname(os.path.abspath(__file__)) + "/demo.Cargo.lock", d + "/Cargo.lock")
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    sh("git", "checkout", "-q", "--", ".", cwd=repo)
    c, o = demo(d)
    if c != 0:
        print(f"{id}: BAD demo fails unpatched ({c}): {o[-600:]}", flush=True); continue
    bad = None
    for f, old, new in b["edits"]:
        s = open(repo + "/" + f).read()
        if s.count(old) != 1:
            bad = f"edit matches {s.count(old)} times in {f}: {old[:60]!r}"; break
        open(repo + "/" + f, "w").write(s.replace(old, new))
    if bad:
        print(f"{id}: BAD {bad}", flush=True); continue
    open(d + "/patch.diff", "w").write(sh("git", "diff", cwd=repo).stdout)
    orig, own = blame_ok()
    if not orig:
        print(f"{id}: BAD changes no original line", flush=True); continue
    c, o = demo(d)
    if c in (0, 8, 9):
        print(f"{id}: BAD demo with the patch gives {c}: {o[-1500:]}", flush=True); continue
    t = tests()
    if t:
        print(f"{id}: BAD tests fail: {t[:4]}", flush=True); continue
    shutil.rmtree(f"{out}/{id}", ignore_errors=True)
    shutil.copytree(d, f"{out}/{id}")
    print(f"{id}: ok (original lines {orig}, ours {own}); demo: {o.strip()[-200:]!r}", flush=True)
sh("git", "checkout", "-q", "--", ".", cwd=repo)
