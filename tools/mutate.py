#!/usr/bin/env python3
"""Small mechanical changes to the library, run against the checks.

mutate.py SCRATCH OUT [LANE/LANES] : appends one JSON line per mutant to OUT.
A mutant that no check catches is either equivalent or a hole to look at.
"""
import json, os, random, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
scratch, out = sys.argv[1:3]
lane, lanes = map(int, (sys.argv[3] if len(sys.argv) > 3 else "0/1").split("/"))
R, W = scratch + "/repo", scratch + "/verif"
def sh(c, t=900):
    try:
        return subprocess.run(c, shell=True, text=True, capture_output=True, timeout=t)
    except subprocess.TimeoutExpired:
        return None
os.makedirs(scratch, exist_ok=True)
if not os.path.isdir(R):
    assert sh(f"git clone -q /repo {R} && cp /repo/Cargo.lock {R}/").returncode == 0
sh(f"cd {R} && git fetch -q && git checkout -qf . && git reset -q --hard $(git -C /repo rev-parse HEAD)")
os.makedirs(W, exist_ok=True)
sh(f"rm -rf {W}/harness; cp -a {V}/harness {V}/check.sh {V}/known_findings.txt {W}/")
sh(f"sed -i 's#\"/repo\"#\"{R}\"#' {W}/harness/Cargo.toml")
FILES = ["src/parser/mod.rs", "src/parser/helper.rs", "src/parser/natural.rs", "src/parser/rfc3966.rs", "src/parser/valid.rs",
         "src/formatter.rs", "src/validator.rs", "src/national_number.rs", "src/phone_number.rs", "src/country.rs", "src/consts.rs",
         "src/extension.rs", "src/carrier.rs", "src/metadata/loader.rs", "src/metadata/database.rs", "src/metadata/descriptor.rs",
         "src/metadata/format.rs", "src/metadata/metadata.rs"]
RULES = [(r" == ", " != "), (r" != ", " == "), (r" <= ", " < "), (r" >= ", " > "), (r" < ", " <= "), (r" > ", " >= "),
         (r" && ", " || "), (r"(?<=\S) \|\| (?=\S)", " && "), (r"(?<=[(& |])!(?=[a-z(])", ""), (r"\bif (?=[a-z])(?!let)", "if !"),
         (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bis_none\(\)", "is_some()"), (r"\bis_some\(\)", "is_none()"),
         (r"\bis_none_or\b", "is_some_and"), (r"\bis_some_and\b", "is_none_or"), (r"\.first\(\)", ".last()"), (r"\.last\(\)", ".first()"),
         (r"\.\.=", ".."), (r" \+ ", " - "), (r" - ", " + "), (r"\.or\(", ".and("), (r"\.or_else\(", ".and_then("),
         (r"\bmany0\b", "many1"), (r"\bmany1\b", "many0"), (r"\btake_while1\b", "take_while"), (r"\btake_while\b", "take_while1"),
         (r"starts_with", "ends_with"), (r"strip_prefix", "strip_suffix"), (r"starts_with", "contains"),
         (r"\.is_empty\(\)", ".len() == 1"), (r"\.trim_start_matches\('0'\)", ""), (r"Some\(value\.into\(\)\)", "None"),
         (r"\bcontinue\b", "break"), (r"\.filter\(", ".filter(|_| true).filter("), (r"\.rev\(\)", "")]
def sites():
    for f in FILES:
        s = open(f"{R}/{f}").read()
        end = s.find("#[cfg(test)]\nmod test")
        end = len(s) if end < 0 else end
        pos = 0
        for line in s[:end].splitlines(True):
            t = line.strip()
            if not t or t.startswith("//") or t.startswith("use ") or t.startswith("#") :
                pos += len(line); continue
            for rx, by in RULES:
                for m in re.finditer(rx, line):
                    yield f, pos + m.start(), pos + m.end(), by
            for m in re.finditer(r"(?<![\w.$x{\"])(\d{1,3})(?![\w.\"}])", line):
                yield f, pos + m.start(), pos + m.end(), str(int(m[1]) + 1)
                if int(m[1]) > 0: yield f, pos + m.start(), pos + m.end(), str(int(m[1]) - 1)
            for m in re.finditer(r"'([^'\\])'", line):
                yield f, pos + m.start(), pos + m.end(), "'\u0001'"
            for m in re.finditer(r"\\u\{[0-9A-Fa-f]+\}", line):
                yield f, pos + m.start(), pos + m.end(), ""
            # Statements and arms that disappear.
            if t.endswith(";") and not re.match(r"(let|return|pub|const|static|use|type|mod|parse!|\}|\))", t) and t.count("(") == t.count(")"):
                yield f, pos, pos + len(line), ""
            if re.match(r"(Some|None|Type::|\w+::).* => .*,$", t):
                yield f, pos, pos + len(line), ""
            pos += len(line)
ORDER = "C31 C29 C28 C17 C30 C07 C08 C20 C27 C21 C26 C19 C23 C22 C10 C11 C12 C05 C06 C03 C01 C02 C04 C09 C13 C14 C15 C16 C18 C24 C25 C32".split()
all = list(dict.fromkeys(sites()))
random.Random(7).shuffle(all)
def table(x):
    s = open(f"{R}/{x[0]}").read()
    a = s.rfind("\n", 0, x[1]) + 1
    return "map.insert" in s[a:s.find("\n", x[1])] or re.match(r"\s*('.'|'\\u.*')( \||$| =>)", s[a:s.find("\n", x[1])]) or x[0].endswith("consts.rs") and "\\" in s[a:s.find("\n", x[1])]
tables = [x for x in all if table(x)][:60]
all = [x for x in all if not table(x)] + tables
done = set()
if os.path.exists(out):
    for l in open(out):
        j = json.loads(l); done.add((j["file"], j["at"], j["end"], j["by"]))
print(len(all), "sites", flush=True)
for k, (f, a, b, by) in enumerate(all):
    if k % lanes != lane or (f, a, b, by) in done: continue
    sh(f"git -C {R} checkout -q -f .")
    s = open(f"{R}/{f}").read()
    if s[a:b] == by: continue
    open(f"{R}/{f}", "w").write(s[:a] + by + s[b:])
    d = sh(f"git -C {R} diff -U0").stdout
    line = "\n".join(x for x in d.splitlines()[4:])
    rec = dict(file=f, at=a, end=b, by=by, diff=line)
    r = sh(f"cd {W} && nice VMON_REPO={R} ./check.sh --build" if False else f"cd {W} && VMON_REPO={R} nice ./check.sh --build")
    if r is None or r.returncode:
        rec["result"] = "no build"
    else:
        rec["result"] = "SURVIVED"
        rec["odd"] = []
        for c in ORDER:
            r = sh(f"cd {W} && VMON_REPO={R} VERIF_SEED={1 + k % 5} nice target/release/vmon run {c} quick {1 + k % 5}" if False else f"cd {W} && VMON_VERIF={W} VMON_REPO={R} nice target/release/vmon run {c} quick {1 + k % 5}")
            if r is not None and r.returncode == 1 and "VIOLATION" in r.stdout:
                rec["result"] = c; break
            if r is None or r.returncode != 0:
                rec["odd"].append([c, None if r is None else r.returncode])
        rec["odd"] = rec["odd"] or None
    open(out, "a").write(json.dumps(rec) + "\n")
    print(k, rec["result"], f, line.replace("\n", " ")[:200], rec.get("odd"), flush=True)
