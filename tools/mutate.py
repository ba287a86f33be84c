"""Mutation sampling, used to find blind spots of the checks (not part of any check).
python3 tools/mutate.py gen N SEED OUT.json      sample N single-point mutants of the library sources
python3 tools/mutate.py tests OUT.json [WORKERS] which of them pass the stable tests
python3 tools/mutate.py checks OUT.json          run relevant checks on the survivors, fail fast
Works in scratch copies under /tmp/w."""
import ast
import concurrent.futures as cf
import glob
import json
import os
import random
import shutil
import subprocess
import sys
import threading

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/w'
ENV = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', JAX_PLATFORMS='cpu', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1')

CMP = {ast.Eq: ['!='], ast.NotEq: ['=='], ast.Lt: ['<=', '>'], ast.LtE: ['<'], ast.Gt: ['>=', '<'], ast.GtE: ['>'], ast.In: ['not in'], ast.NotIn: ['in'], ast.Is: ['is not'], ast.IsNot: ['is']}
BIN = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['/'], ast.Div: ['*'], ast.FloorDiv: ['*'], ast.BitXor: ['|', '&'], ast.BitAnd: ['|'], ast.BitOr: ['&', '^'], ast.LShift: ['>>'], ast.RShift: ['<<'], ast.Mod: ['//']}
SIBLINGS = [['reverse', 'conjugate', 'involute'], ['right_complement', 'left_complement'], ['right_hodge', 'left_hodge'], ['even_grade', 'odd_grade', 'multivector'], ['union', 'intersection'], ['all', 'any'],
	['product', 'wedge', 'inner'], ['select_subspace', 'restrict_subspace'], ['sin', 'cos'], ['sinh', 'sin'], ['scalar', 'vector'], ['inclusive', 'nonscalar'], ['maximum', 'minimum'], ['l', 'r'], ['left', 'right'], ['inverse', 'reverse'], ['symmetric_reverse_product', 'squared']]


def seg(src, node):
	return ast.get_source_segment(src, node)


def mutants(path):
	src = open(path).read()
	tree = ast.parse(src)
	lines = src.splitlines(keepends=True)
	offs = [0]
	for l in lines:
		offs.append(offs[-1] + len(l.encode()))
	b = src.encode()
	pos = lambda ln, col: offs[ln - 1] + col
	out = []

	def rep(node, new, kind):
		s, e = pos(node.lineno, node.col_offset), pos(node.end_lineno, node.end_col_offset)
		m = b[:s] + new.encode() + b[e:]
		out.append((kind, node.lineno, b[s:e].decode(), new, m.decode()))

	for node in ast.walk(tree):
		if isinstance(node, ast.Compare) and len(node.ops) == 1:
			l, r = seg(src, node.left), seg(src, node.comparators[0])
			for o in CMP.get(type(node.ops[0]), []):
				rep(node, f'{l} {o} {r}', 'cmp')
		elif isinstance(node, ast.BinOp):
			l, r = seg(src, node.left), seg(src, node.right)
			for o in BIN.get(type(node.op), []):
				rep(node, f'({l} {o} {r})', 'bin')
		elif isinstance(node, ast.BoolOp):
			o = ' or ' if isinstance(node.op, ast.And) else ' and '
			rep(node, '(' + o.join(seg(src, v) for v in node.values) + ')', 'bool')
			rep(node, seg(src, node.values[0]), 'bool')
		elif isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.Not, ast.USub, ast.Invert)):
			rep(node, '(' + seg(src, node.operand) + ')', 'unary')
		elif isinstance(node, ast.Constant):
			v = node.value
			if isinstance(v, bool):
				rep(node, str(not v), 'const')
			elif isinstance(v, int):
				rep(node, str(v + 1), 'const')
				if v > 0:
					rep(node, str(v - 1), 'const')
			elif isinstance(v, float):
				rep(node, str(v * 2), 'const')
		elif isinstance(node, ast.If):
			rep(node.test, 'True', 'if')
			rep(node.test, 'False', 'if')
		elif isinstance(node, ast.IfExp):
			rep(node.test, 'True', 'if')
			rep(node.test, 'False', 'if')
		elif isinstance(node, ast.Call) and len(node.args) >= 2 and not any(isinstance(a, ast.Starred) for a in node.args[:2]):
			a, c = node.args[0], node.args[1]
			s, e = pos(a.lineno, a.col_offset), pos(c.end_lineno, c.end_col_offset)
			sa, sc = seg(src, a), seg(src, c)
			if sa != sc and s < e:
				out.append(('swap', node.lineno, b[s:e].decode(), f'{sc}, {sa}', (b[:s] + f'{sc}, {sa}'.encode() + b[e:]).decode()))
		if isinstance(node, ast.Attribute):
			for g in SIBLINGS:
				if node.attr in g:
					for o in g:
						if o != node.attr:
							rep(node, seg(src, node.value) + '.' + o, 'sibling')
		if isinstance(node, ast.Name) and isinstance(node.ctx, ast.Load):
			for g in SIBLINGS[-4:-2]:
				if node.id in g:
					rep(node, [o for o in g if o != node.id][0], 'sibling')
		if isinstance(node, (ast.Expr,)) and not isinstance(node.value, ast.Constant):
			rep(node, 'pass', 'drop')
		if isinstance(node, (ast.AugAssign, ast.Assert)):
			rep(node, 'pass', 'drop')
		if isinstance(node, ast.Assign) and isinstance(node.value, ast.Call) and len(node.value.args) == 1 and isinstance(node.value.args[0], ast.Name):
			rep(node.value, seg(src, node.value.args[0]), 'unwrap')
		if isinstance(node, ast.Return) and isinstance(node.value, ast.Call) and isinstance(node.value.func, ast.Attribute) and not node.value.args:
			rep(node.value, seg(src, node.value.func.value), 'unwrap')
	good = []
	for m in out:
		try:
			ast.parse(m[4])
			good.append(m)
		except SyntaxError:
			pass
	return good


def gen(n, seed, out):
	rnd = random.Random(seed)
	al = []
	for p in sorted(glob.glob('/repo/numga/**/*.py', recursive=True)):
		rel = os.path.relpath(p, '/repo')
		if '/test' in rel or 'examples' in rel or rel.endswith('__init__.py') and os.path.getsize(p) < 50:
			continue
		ms = mutants(p)
		al += [(rel,) + m for m in ms]
	print(len(al), 'mutants')
	pick = rnd.sample(al, min(n, len(al)))
	json.dump([dict(file=f, kind=k, line=l, old=o, new=w, src=s) for f, k, l, o, w, s in pick], open(out, 'w'))


local = threading.local()
ids = iter(range(1000))
lock = threading.Lock()


def copy():
	if not hasattr(local, 'd'):
		with lock:
			local.d = f'{W}/mut{next(ids)}'
		shutil.rmtree(local.d, ignore_errors=True)
		os.makedirs(W, exist_ok=True)
		subprocess.run(f'cp -a /repo {local.d}', shell=True, check=True)
	return local.d


def test(m):
	d = copy()
	p = f'{d}/{m["file"]}'
	orig = open(p).read()
	open(p, 'w').write(m['src'])
	try:
		shutil.rmtree(f'{d}/operators/110', ignore_errors=True)
		r = subprocess.run('timeout 900 /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider --randomly-seed=1 --randomly-dont-reorganize -n 0 --timeout=200', shell=True, cwd=d,
			env=dict(ENV, PYTHONPATH=d), capture_output=True, text=True)
		return r.returncode == 0
	finally:
		open(p, 'w').write(orig)


def tests(out, workers):
	ms = json.load(open(out))
	todo = [m for m in ms if 'passes' not in m]
	with cf.ThreadPoolExecutor(workers) as ex:
		for i, (m, ok) in enumerate(zip(todo, ex.map(test, todo))):
			m['passes'] = ok
			if i % 8 == 0:
				json.dump(ms, open(out, 'w'))
				print(i, len(todo), sum(bool(x.get('passes')) for x in ms), flush=True)
	json.dump(ms, open(out, 'w'))
	print('done', len(ms), sum(m['passes'] for m in ms))


def anchors(f):
	c = [p['id'] for p in map(json.loads, open(f'{ROOT}/properties.jsonl')) if f in p['anchors']['files']]
	return c


def checks(out):
	ms = json.load(open(out))
	order = 'C01 C02 C25 C20 C03 C07 C11 C14 C15 C17 C18 C13 C04 C05 C16 C12 C24 C26 C19 C23 C06 C10 C09 C08 C22 C21'.split()
	d = f'{W}/mutc'
	shutil.rmtree(d, ignore_errors=True)
	subprocess.run(f'cp -a /repo {d}', shell=True, check=True)
	for i, m in enumerate(ms):
		if not m.get('passes') or 'caught' in m or m.get('skip'):
			continue
		p = f'{d}/{m["file"]}'
		orig = open(p).read()
		open(p, 'w').write(m['src'])
		rel = anchors(m['file'])
		m['caught'] = None
		try:
			for c in [c for c in order if c in rel] + [c for c in order if c not in rel and c not in ('C22', 'C21', 'C23')]:
				r = subprocess.run(f'timeout 900 bash {ROOT}/run.sh {c}', shell=True, cwd=ROOT, env=dict(ENV, NUMGA_REPO=d, VF_FIRST='1', VERIF_EVIDENCE='/tmp/w/ev'), capture_output=True, text=True)
				if r.returncode:
					m['caught'] = f'{c}:{r.returncode}'
					m['out'] = r.stdout[-600:]
					break
		finally:
			open(p, 'w').write(orig)
		print(i, m['file'], m['line'], m['kind'], repr(m['old'][:60]), '->', repr(m['new'][:60]), m['caught'], flush=True)
		json.dump(ms, open(out, 'w'))


if __name__ == '__main__':
	a = sys.argv[1:]
	if a[0] == 'gen':
		gen(int(a[1]), int(a[2]), a[3])
	elif a[0] == 'tests':
		tests(a[1], int(a[2]) if len(a) > 2 else 8)
	else:
		checks(a[1])
