#!/usr/bin/env python3
"""Write DESIGN.md from tools/DESIGN.in.md, the monitors, known_findings.txt
and seeded/ (with the catch table in tools/catches.json)."""
import glob, json, os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rules = {}
for f in sorted(glob.glob(V + '/harness/src/props/*.rs')):
    s = open(f).read()
    for m in re.finditer(r'pub fn (c\d\d)\(ctx: &Ctx\) \{.*?ctx\s*\.rule\(\s*"((?:[^"\\]|\\.)*)"', s, re.S):
        rules[m.group(1).upper()] = re.sub(r'\\\n\s*', '', m.group(2)).replace('\\"', '"').replace('|', '\\|')
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
why = json.load(open(V + '/tools/oracles.json'))
table = '\n'.join(f"| {p['id']} | {p['title']} | {why[p['id']]} | {rules[p['id']]} |" for p in props)
fixes = '\n'.join('* ' + l[len('fixed: '):].strip().replace('property=', '') for l in open(V + '/known_findings.txt') if l.startswith('fixed:'))
catches = json.load(open(V + '/tools/catches.json')) if os.path.exists(V + '/tools/catches.json') else {}
rows = ['| change | property | what it breaks | needs | caught by |', '|---|---|---|---|---|']
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(f'{V}/seeded/{d}/meta.json'))
    rows.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {catches.get(d, 'not run yet')} |".replace('\n', ' '))
s = open(V + '/tools/DESIGN.in.md').read()
s = s.replace('TABLE', table).replace('FIXES', fixes).replace('SEEDS', '\n'.join(rows))
open(V + '/DESIGN.md', 'w').write(s)
