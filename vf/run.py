"""Entry point: python -m vf.run C01 [--tier quick|thorough] [--seed N] [--replay FILE]"""
import argparse
import importlib
import json
import os
import sys
import time

from vf import harness
from vf.harness import ROOT


def known_findings():
	path = os.path.join(ROOT, 'known_findings.jsonl')
	if not os.path.exists(path):
		return []
	return [json.loads(l) for l in open(path) if l.strip()]


def main():
	ap = argparse.ArgumentParser()
	ap.add_argument('property')
	ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
	ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
	ap.add_argument('--replay')
	ap.add_argument('--procs', type=int, default=int(os.environ.get('VERIF_PROCS', '8')))
	ap.add_argument('--only', help='substring of job kind')
	ap.add_argument('-v', action='store_true')
	a = ap.parse_args()
	t0 = time.time()
	pid = a.property
	repo = os.path.realpath(os.environ.get('NUMGA_REPO', '/repo'))

	try:
		import numga
		got = os.path.realpath(numga.__path__[0])
		if not got.startswith(repo + os.sep):
			print(f'ERROR: numga imported from {got}, not from {repo}')
			return 2
	except Exception as e:
		print(f'ERROR: numga does not import: {e}')
		return 2

	mod = importlib.import_module('vf.checks.' + pid.lower())
	if a.replay:
		r = json.load(open(a.replay))
		jobs, a.tier, a.seed = [r['job']], r['tier'], r['seed']
	else:
		jobs = mod.jobs(a.tier, a.seed)
	if a.only:
		jobs = [j for j in jobs if a.only in str(j.get('kind'))]
	budget = getattr(mod, 'BUDGET', dict(quick=400, thorough=600))[a.tier]
	if hasattr(mod, 'prepare'):
		mod.prepare()
	res = harness.run_jobs(jobs, mod.run, budget, procs=a.procs,
		alarm=getattr(mod, 'ALARM', 240), verbose=a.v)

	counters, distinct, samples, violations, errors, ran, notes = {}, set(), [], [], [], 0, {}
	kinds = {}
	for job, r in zip(jobs, res):
		if r is None:
			continue
		ran += 1
		kinds[job.get('kind', '?')] = kinds.get(job.get('kind', '?'), 0) + 1
		for k, v in r.get('counters', {}).items():
			counters[k] = counters.get(k, 0) + v
		distinct |= r.get('distinct', set())
		samples += [dict(job=job.get('kind'), sample=s) for s in r.get('samples', [])]
		for k, v in r.get('notes', {}).items():
			notes.setdefault(k, []).append(v)
		for v in r.get('violations', []):
			violations.append(dict(v, job=job))
		if r['status'] != 'ok':
			errors.append((job, r))

	# known findings, identified by mechanism key
	known = [k for k in known_findings() if k.get('property') == pid and k.get('status') == 'open']
	unlisted, hit = [], {}
	for v in violations:
		m = next((k for k in known if k['key'] == v['key']), None)
		if m is None:
			unlisted.append(v)
		else:
			hit[m['key']] = m
	for k in known:
		print(f'KNOWN-FINDING: property={pid} {k["what"]}' + ('' if k['key'] in hit else ' (not hit in this run)'))

	# inconclusive when the deciding monitors were not reached
	shortfall = []
	if not a.replay and not a.only:
		for k, n in getattr(mod, 'REQUIRED', {'oracle': 1}).items():
			if counters.get(k, 0) < n:
				shortfall.append(f'{k}={counters.get(k, 0)}<{n}')

	evidence = dict(
		property=pid, tier=a.tier, seed=a.seed, level='exploration',
		coverage=dict(
			evaluations=counters.get('oracle', 0),
			distinct_nontrivial=len(distinct),
			rule=mod.RULE,
			samples=samples[:8],
			events={k: v for k, v in sorted(counters.items())},
			jobs_planned=len(jobs), jobs_run=ran, jobs_by_kind=kinds,
			notes={k: v[:6] for k, v in notes.items()},
		),
		assumptions=getattr(mod, 'ASSUMPTIONS', []),
		wall_s=round(time.time() - t0, 2),
		violations=len(unlisted),
	)
	if not a.replay and not a.only:
		os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
		with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
			json.dump(harness._jsonable(evidence), f, indent=1)

	print(f'{pid} tier={a.tier} seed={a.seed}: jobs {ran}/{len(jobs)} oracle evaluations {counters.get("oracle", 0)} '
		f'distinct {len(distinct)} violations {len(unlisted)} wall {time.time()-t0:.1f}s')
	if unlisted:
		os.makedirs(os.path.join(ROOT, 'replay'), exist_ok=True)
		seen = set()
		for v in unlisted:
			if v['key'] in seen or len(seen) >= 10:
				continue
			seen.add(v['key'])
			path = os.path.join(ROOT, 'replay', f'{pid}-{len(seen)}.json')
			with open(path, 'w') as f:
				json.dump(dict(property=pid, tier=a.tier, seed=a.seed, job=harness._jsonable(v['job']),
					key=v['key'], msg=v['msg'], witness=v['witness']), f, indent=1)
			print(f'VIOLATION property={pid} replay={path}')
			print(f'  key={v["key"]}: {v["msg"][:600]}')
		for job, r in errors:
			print(f'(also {r["status"]}: {str(r.get("error"))[-300:]})')
		return 1
	if errors:
		for job, r in errors[:5]:
			print(f'ERROR {r["status"]} in job {str(job)[:200]}:\n{r.get("error")}')
		return 2
	if shortfall:
		print('INCONCLUSIVE: monitors not reached: ' + ', '.join(shortfall))
		return 2
	return 0


if __name__ == '__main__':
	sys.exit(main())
