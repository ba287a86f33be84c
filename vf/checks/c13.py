"""Inverses and division"""
import numpy as np

from vf import backends, gen, numeric, oplib
from vf.gen import rng_of
from vf.harness import Skip
from vf.ref import Ref

RULE = ('random algebras of every signature up to 4 generators and samples with 5 (simple elements and the Shirokov inverse up to 7); random subspaces, gaussian, integer and partly '
	'vanishing coefficients; an observation is one inverse or quotient of an element whose left multiplication matrix, built by the reference model, is well conditioned, '
	'compared with the solution of the linear system x y = 1, on both sides; distinct by (route, signature, subspace)')
REQUIRED = {'motor': 200, 'inverted': 1000, 'two_sided': 1000, 'quotient': 375, 'route/shirokov': 75, 'route/hitzer': 75, 'route/la': 50}
BUDGET = dict(quick=400, thorough=650)


def jobs(tier, seed):
	rng = rng_of('C13', seed, 'jobs')
	q = tier == 'quick'
	specs = []
	for n in (1, 2, 3, 4):
		specs += [gen.spec_of(s, rng) for s in gen.all_sigs(n)]
	five = gen.all_sigs(5)
	specs += [gen.spec_of(five[i], rng) for i in rng.permutation(243)[:60 if q else 243]]
	specs = [specs[i] for i in rng.permutation(len(specs))]
	js = []
	for rep in range(2 if q else 8):
		for i in range(0, len(specs), 6):
			js.append(dict(kind='general', specs=specs[i:i + 6], cases=9 if q else 14, seed=['C13', seed, rep, i], essential=rep == 0))
	for r in range(2 if q else 16):
		js.append(dict(kind='backends', specs=[numeric.random_spec(rng, [1, 2, 3, 4, 5]) for _ in range(4)], cases=3, seed=['C13', seed, 'b', r], essential=r < 1))
	for r in range(4 if q else 24):
		js.append(dict(kind='high', specs=[numeric.random_spec(rng, [6, 7]) for _ in range(3)], cases=8, seed=['C13', seed, 'h', r], essential=r < 2))
	return js


def run(job, mon):
	for i, spec in enumerate(job['specs']):
		rng = rng_of(*job['seed'], i)
		mon.case(spec=spec)
		try:
			if job['kind'] == 'backends':
				alg = mon.call('construct', gen.build_algebra, spec)
				ref = Ref(spec['sig'])
				for name in ('torch/Einsum/float64', 'numpy/Sparse/float64', 'jax/Einsum/float64'):
					ctx = mon.call('context/' + name, backends.make, name, alg)
					for c in range(job['cases'] if 'jax' not in name else 1):
						guarded(general, mon, ctx, ref, rng, name)
				continue
			ctx, ref = mon.call('construct', oplib.context, spec)
			for c in range(job['cases']):
				if job['kind'] == 'high':
					guarded(high, mon, ctx, ref, rng)
				else:
					guarded(general, mon, ctx, ref, rng, 'numpy')
					if c % 3 == 0 and ref.n > 1:
						guarded(motors, mon, ctx, ref, rng, 'numpy')
		except Skip:
			pass


def guarded(f, *a):
	try:
		with np.errstate(all='ignore'):
			f(*a)
	except Skip:
		pass


def coefficients(rng, shape, near_one=None):
	c = rng.integers(5)
	v = rng.normal(size=shape)
	if c == 1:
		v = v * (rng.random(shape) < rng.choice([.3, .6]))
	if c == 2:
		v = np.round(v * 2)
	if c == 3:
		v = v * 10 ** rng.choice([rng.uniform(-3, 3), rng.uniform(-9, 9)])
	return v


def judge(mon, key, label, ref, fn, v, S, solve, extra_count=None, tol=1e-7):
	"""fn(values) -> library result; solve(values) -> true result. entries are judged one by one"""
	mon.case(signature=list(ref.sig), subspace=S.named_str, values=v, op=label)
	out = mon.call(key, fn, v)
	got = numeric.dense(ref, out, v.shape[:-1])
	want = solve(v)
	d = v * (1 + 1e-9 * np.random.default_rng(5).choice([-1, 1], size=v.shape))
	moved = numeric.dense(ref, mon.call(key, fn, d), v.shape[:-1])
	bad, excused, err = numeric.calibrated(got, want, moved, solve(d), tol)
	mon.count('illconditioned', int(excused.sum()))
	mon.count('inverted', int((~bad & ~excused).sum()))
	if extra_count:
		mon.count(extra_count, int((~bad & ~excused).sum()))
	mon.seen(key, ref.sig, S.blades.tobytes())
	mon.check(not bad.any(), key, lambda: f'{label} on {S.named_str} in {ref.sig}: relative error {err[bad][:4]}, e.g. for {v[bad][0].tolist()} got {got[bad][0].tolist()} expected {want[bad][0].tolist()}')
	return out, got, ~excused


def general(mon, ctx, ref, rng, name):
	n = ref.n
	shape = (5,)
	masks = gen.random_masks(rng, ref, None, 16 if n == 5 else None)
	if not any(not ref.is_deg(m) for m in masks):
		mon.count('structurally_singular')
		return
	S = gen.subspace(ctx.algebra, masks, rng)
	v = coefficients(rng, shape + (len(S),))
	M = numeric.lmat(ref, gen.ref_of(S, v), shape)
	k = np.linalg.cond(M)
	# several multiplications deep; conditioning enters at a high power
	good = k < (100 if n > 3 else 1000)
	mon.count('singular', int((~good).sum()))
	v = v[good]
	if not len(v):
		return
	mon.sample(dict(signature=ref.sig, subspace=S.named_str, values=v[0]))

	def solve(w):
		return np.linalg.inv(numeric.lmat(ref, gen.ref_of(S, w), w.shape[:-1]))[..., 0]
	p = name.split('/')[0] + '/'
	out, got, ok = judge(mon, p + 'inverse', 'inverse', ref, lambda w: gen.mk(ctx, S, w).inverse(), v, S, solve, 'route/recursive')
	# both sides, by the library itself
	x = gen.mk(ctx, S, v)
	one = numeric.dense_ref(ref, {0: 1.0}, (len(v),))
	for key, f in (('left', lambda: out * x), ('right', lambda: x * out)):
		g = numeric.dense(ref, mon.call(p + 'two_sided', f), (len(v),))
		mon.count('two_sided', len(v))
		e = np.abs(g - one).max(-1)
		mon.check(not np.any((e > 1e-5) & ok), p + 'two_sided/' + key, lambda: f'{key} inverse in {ref.sig} on {S.named_str}: {e}')
	# quotients
	T = gen.subspace(ctx.algebra, gen.random_masks(rng, ref, None, 10), rng)
	y = rng.normal(size=(len(v), len(T)))
	ry = gen.ref_of(T, y)

	def quotient(w):
		i = solve(w)
		return numeric.dense_ref(ref, ref.mul(ry, numeric.to_dict(ref, i)), w.shape[:-1])
	judge(mon, p + 'divide', 'y / x', ref, lambda w: gen.mk(ctx, T, y) / gen.mk(ctx, S, w), v, S, quotient, 'quotient')
	judge(mon, p + 'rdivide', '2 / x', ref, lambda w: 2 / gen.mk(ctx, S, w), v, S, lambda w: 2 * solve(w), 'quotient')
	if n < 4:
		judge(mon, p + 'hitzer', 'inverse_hitzer', ref, lambda w: gen.mk(ctx, S, w).inverse_hitzer(), v, S, solve, 'route/hitzer')
		if not name.startswith('torch'):
			w = v[(k[good] < 100)]
			if len(w):
				judge(mon, p + 'la', 'inverse_la', ref, lambda w: gen.mk(ctx, S, w).inverse_la(), w, S, solve, 'route/la', 1e-5)
	w = v[k[good] < 30]
	if len(w):
		judge(mon, p + 'shirokov', 'inverse_shirokov', ref, lambda w: gen.mk(ctx, S, w).inverse_shirokov(), w, S, solve, 'route/shirokov', 1e-5)


def motors(mon, ctx, ref, rng, name):
	"""normalized motors, on small and large subspaces, are undone by the inverse made for them"""
	S = ctx.subspace.motor()
	m = numeric.motors(ref, rng, (4,), rng.choice([0.3, 1.0]), int(rng.integers(1, 4)))
	if rng.random() < 0.5:
		masks = {0} | gen.random_masks(rng, ref, None, 3)
		B = [b for b in numeric.grade_masks(ref, 2) if b in masks]
		m = numeric.one(ref, (4,))
		for b in B[:1]:
			e = np.zeros((4, ref.N))
			e[:, b] = rng.normal(size=4)
			m = numeric.expm(ref, numeric.to_dict(ref, e), (4,))
		S = gen.subspace(ctx.algebra, {0} | set(B[:1]), rng)
	if not numeric.support(ref, m) <= {int(b) for b in S.blades}:
		return
	mon.case(signature=list(ref.sig), subspace=S.named_str, values=m)
	x = numeric.carried(ctx, ref, m, S)
	i = mon.call('motor_inverse', x.motor_inverse)
	one = numeric.one(ref, (4,))
	mag = np.abs(m).max() ** 2
	for key, f in (('left', lambda: i * x), ('right', lambda: x * i)):
		g = numeric.dense(ref, mon.call('motor_inverse', f), (4,))
		mon.count('motor', 4)
		mon.check(np.abs(g - one).max() <= 1e-9 * (1 + mag), 'motor_inverse/' + key, lambda: f'{key} inverse of a normalized motor in {ref.sig} on {S.named_str}: {np.abs(g - one).max()}')


def high(mon, ctx, ref, rng):
	"""elements that any dimension supports"""
	n = ref.n
	kind = ['vector', 'blade', 'rotation', 'shirokov', 'scalar'][rng.integers(5)]
	nd = [i for i in range(n) if ref.sig[i]]
	if not nd:
		return
	masks = {1 << int(i) for i in range(n)}
	if kind == 'blade':
		masks = {sum(1 << int(i) for i in rng.permutation(nd)[:rng.integers(1, len(nd) + 1)])}
	if kind == 'scalar':
		masks = {0}
	if kind == 'rotation' and len(nd) > 1:
		i, j = rng.permutation(nd)[:2]
		masks = {0, (1 << int(i)) | (1 << int(j))}
	if kind == 'shirokov':
		masks = {0} | gen.random_masks(rng, ref, 'sparse')
	S = gen.subspace(ctx.algebra, masks, rng)
	v = rng.normal(size=(3, len(S)))
	if kind == 'shirokov':
		v *= 0.2
		v[:, 0] = 1
	k = np.linalg.cond(numeric.lmat(ref, gen.ref_of(S, v), (3,)))
	v = v[k < 30]
	if not len(v):
		return
	solve = lambda w: np.linalg.inv(numeric.lmat(ref, gen.ref_of(S, w), w.shape[:-1]))[..., 0]
	if kind == 'shirokov':
		judge(mon, 'shirokov_high', 'inverse_shirokov', ref, lambda w: gen.mk(ctx, S, w).inverse_shirokov(), v, S, solve, 'route/shirokov', 1e-5)
	else:
		judge(mon, 'inverse_high/' + kind, 'inverse', ref, lambda w: gen.mk(ctx, S, w).inverse(), v, S, solve, 'route/recursive')
