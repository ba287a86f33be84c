"""Confirm planted bugs in scratch copies: python3 tools/seed.py [--all-checks] [--checks C01,C02] ID...
A bug is kept only if: patch applies, stable tests pass, demo is 0 on /repo and nonzero on the copy. Reports which checks catch it."""
import argparse
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/w'
ENV = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', JAX_PLATFORMS='cpu',
	OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1')


def sh(cmd, cwd, env=ENV, timeout=900):
	try:
		return subprocess.run(cmd, shell=True, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)
	except subprocess.TimeoutExpired:
		return subprocess.CompletedProcess(cmd, 124, '', 'timeout')


def confirm(id, n):
	d = f'{ROOT}/seeded/{id}'
	c = f'{W}/{id}'
	shutil.rmtree(c, ignore_errors=True)
	os.makedirs(W, exist_ok=True)
	sh(f'cp -a /repo {c}', '/tmp')
	r = sh(f'git apply {d}/patch.diff', c)
	if r.returncode:
		return f'patch does not apply: {r.stderr}'
	env = dict(ENV, PYTHONPATH=c)
	sh(f'rm -rf {c}/operators/110', c)
	sh(f'/opt/venv/bin/python -m pytest -q -p no:cacheprovider --randomly-seed=1 --randomly-dont-reorganize -n {n} --timeout=300 --continue-on-collection-errors '
		f'-o junit_family=xunit2 --junitxml={W}/{id}.xml', c, env)
	sh(f'/usr/bin/python3 /opt/vp/results.py {W}/{id}.json junit:{W}/{id}.xml', c)
	try:
		got = set(json.load(open(f'{W}/{id}.json'))['passed'])
	except Exception as e:
		return f'no test results: {e}'
	miss = set(json.load(open('/opt/vp/BASELINE.json'))['stable']) - got
	if miss:
		return f'{len(miss)} stable tests fail, e.g. {sorted(miss)[:3]}'
	demo = f'{W}/{id}.demo'
	shutil.rmtree(demo, ignore_errors=True)
	shutil.copytree(d, demo)
	for f in os.listdir(demo):
		if f.endswith(('.diff', '.patch')) or f == 'meta.json':
			os.remove(f'{demo}/{f}')
	a = sh(f'bash {demo}/demo.sh', '/repo', timeout=300)
	b = sh(f'bash {demo}/demo.sh', c, timeout=300)
	shutil.rmtree(demo)
	if a.returncode != 0:
		return f'demo fails on the unchanged tree: {(a.stdout + a.stderr)[-600:]}'
	if b.returncode == 0:
		return f'demo passes with the patch: {b.stdout[-300:]}'
	return None


def main():
	ap = argparse.ArgumentParser()
	ap.add_argument('ids', nargs='*')
	ap.add_argument('--all-checks', action='store_true')
	ap.add_argument('--checks')
	ap.add_argument('--no-confirm', action='store_true')
	ap.add_argument('--keep', action='store_true')
	a = ap.parse_args()
	ids = a.ids or sorted(os.listdir(f'{ROOT}/seeded'))
	mp = f'{ROOT}/tools/matrix.json'
	matrix = json.load(open(mp)) if os.path.exists(mp) else {}
	bad = {}
	if not a.no_confirm:
		with cf.ThreadPoolExecutor(3) as ex:
			for id, r in zip(ids, ex.map(lambda i: confirm(i, 3), ids)):
				print(f'{id}: {"confirmed" if r is None else "REJECTED " + r}', flush=True)
				if r:
					bad[id] = r
	allc = [json.loads(l)['id'] for l in open(f'{ROOT}/properties.jsonl')]
	for id in ids:
		if id in bad:
			continue
		c = f'{W}/{id}'
		if a.no_confirm:
			shutil.rmtree(c, ignore_errors=True)
			os.makedirs(W, exist_ok=True)
			sh(f'cp -a /repo {c} && cd {c} && git apply {ROOT}/seeded/{id}/patch.diff', '/tmp')
		prop = json.load(open(f'{ROOT}/seeded/{id}/meta.json'))['property']
		checks = allc if a.all_checks else (a.checks.split(',') if a.checks else [prop])
		caught, odd = [], []
		for k in checks:
			r = sh(f'bash run.sh {k} --tier quick', ROOT, dict(os.environ, NUMGA_REPO=c, VERIF_SEED='1'))
			if r.returncode == 1 and f'VIOLATION property={k}' in r.stdout:
				caught.append(k)
				if k == prop:
					line = [l for l in r.stdout.splitlines() if 'key=' in l][:1]
			elif r.returncode:
				odd.append(f'{k}:{r.returncode}')
				print(r.stdout[-500:])
		if a.all_checks:
			matrix[id] = caught
		else:
			matrix[id] = sorted(set(matrix.get(id, [])) - set(checks) | set(caught))
		print(f'{id} [{prop}] caught by {caught}' + (f' ODD {odd}' if odd else '') + ('' if prop in caught or prop not in checks else '   <<<<<< MISSED') + (f'  {line[0][:200]}' if prop in caught else ''), flush=True)
		json.dump(matrix, open(mp, 'w'), indent=1, sort_keys=True)
		if not a.keep:
			shutil.rmtree(c, ignore_errors=True)


main()
