"""Fills the generated sections of DESIGN.md from its template: python3 tools/design.py"""
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(os.path.join(ROOT, 'tools', 'DESIGN.template.md')).read()
man = {c['property']: c for c in json.load(open(os.path.join(ROOT, 'MANIFEST.json')))['checks']}
out = []
for l in open(os.path.join(ROOT, 'properties.jsonl')):
	p = json.loads(l)
	rule = ''
	src = open(os.path.join(ROOT, 'vf', 'checks', p['id'].lower() + '.py')).read()
	ns = {}
	body = src[src.index('RULE ='):]
	depth = 0
	for i, ch in enumerate(body):
		depth += (ch == '(') - (ch == ')')
		if ch == ')' and depth == 0:
			break
		if depth == 0 and ch == '\n':
			break
	exec(body[:i + 1], ns)
	c = man[p['id']]
	ev = os.path.join(ROOT, 'evidence', p['id'] + '.json')
	out.append(f'### {p["id"]} {p["title"]}\n\n{p["statement"].strip()}\n\n*Decided by* {c["technique"]} (`vf/checks/{p["id"].lower()}.py`).\n'
		f'*Workload and observation:* {ns["RULE"]}.\n*Bounds and trust:* {c["level_note"]}\n*Beyond the tests:* {p["why_tests_cant"]}\n')
known = [json.loads(l) for l in open(os.path.join(ROOT, 'known_findings.jsonl')) if l.strip()]
fixes = [k['what'] for k in known if k['status'] == 'fixed']
open_ = [f'{k["property"]} `{k["key"]}`: {k["what"]}' for k in known if k['status'] == 'open']
seeded = []
matrix = {}
mp = os.path.join(ROOT, 'tools', 'matrix.json')
if os.path.exists(mp):
	matrix = json.load(open(mp))
for d in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
	m = json.load(open(d))
	id = os.path.basename(os.path.dirname(d))
	seeded.append(f'| {id} | {m["property"]} | {m["what_it_breaks"]} | {m["needs"]} | {", ".join(matrix.get(id, ["?"])) or "missed"} |')
t = t.replace('@@PROPS@@', '\n'.join(out)).replace('@@FIXES@@', '\n'.join('* ' + f for f in fixes)).replace('@@OPEN@@', '\n'.join('* ' + f for f in open_))
t = t.replace('@@SEEDED@@', '| id | property | what it breaks | needs | caught by (quick tier, seed 1) |\n|---|---|---|---|---|\n' + '\n'.join(seeded))
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write(t)
