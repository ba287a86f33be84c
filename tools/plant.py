"""Helper that turns (file, old, new) edits and a demonstration into /verif/seeded/<id>/. Used while planting; no check reads it."""
import json, os, shutil, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRE = '''import warnings; warnings.filterwarnings('ignore')
import numpy as np
'''

def plant(id, prop, edits, demo, needs, breaks, pre=PRE):
	d = f'{ROOT}/seeded/{id}'
	os.makedirs(d, exist_ok=True)
	wt = f'/tmp/w/plant_{id}'
	shutil.rmtree(wt, ignore_errors=True)
	os.makedirs('/tmp/w', exist_ok=True)
	subprocess.run(['git', '-C', '/repo', 'worktree', 'prune'])
	os.makedirs(wt)
	files = sorted({f for f, _, _ in edits})
	for f in files:
		for side in 'ab':
			os.makedirs(os.path.dirname(f'{wt}/{side}/{f}'), exist_ok=True)
			shutil.copy(f'/repo/{f}', f'{wt}/{side}/{f}')
	for f, old, new in edits:
		s = open(f'{wt}/b/{f}').read()
		assert s.count(old) == 1, (id, f, s.count(old), old)
		open(f'{wt}/b/{f}', 'w').write(s.replace(old, new))
	out = ''
	for f in files:
		out += subprocess.run(['diff', '-u', '--label', f'a/{f}', '--label', f'b/{f}', f'a/{f}', f'b/{f}'], cwd=wt, capture_output=True, text=True).stdout
	open(f'{d}/patch.diff', 'w').write(out)
	shutil.rmtree(wt)
	open(f'{d}/demo.py', 'w').write(pre + demo.strip() + "\nprint('ok')\n")
	open(f'{d}/demo.sh', 'w').write('#!/bin/bash\nJAX_PLATFORMS=cpu MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" timeout 250 /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
	json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(f'{d}/meta.json', 'w'), indent=1)
