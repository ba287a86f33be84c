"""Exponentials, logarithms, and their approximations"""
import numpy as np

from vf import backends, gen, numeric, oplib
from vf.checks.c13 import guarded
from vf.checks.c14 import real_root
from vf.checks.c15 import generator, support_space
from vf.gen import rng_of
from vf.harness import Skip
from vf.ref import Ref, popcount

RULE = ('random algebras of every signature up to 4 generators and samples with 5; bivectors (and trivectors, scalars) over full, partial and degenerate sets of blades, from tiny to several radians, '
	'in several batch shapes; an observation is one exponential or logarithm, compared with the scaled Taylor exponential of the multiplication matrix of the reference model, or one round trip; '
	'distinct by (function, signature, subspace)')
REQUIRED = {'small': 200, 'exp': 175, 'exp/degenerate': 5, 'exp/mixed': 12, 'log': 100, 'roundtrip': 150, 'quadratic': 50, 'linear': 50, 'scalar': 50}
BUDGET = dict(quick=400, thorough=650)


def jobs(tier, seed):
	rng = rng_of('C16', seed, 'jobs')
	q = tier == 'quick'
	specs = []
	for n in (1, 2, 3, 4):
		specs += [gen.spec_of(s, rng) for s in gen.all_sigs(n)]
	five = gen.all_sigs(5)
	specs += [gen.spec_of(five[i], rng) for i in rng.permutation(243)[:48 if q else 243]]
	specs = [specs[i] for i in rng.permutation(len(specs))]
	js = []
	for rep in range(2 if q else 10):
		for i in range(0, len(specs), 6):
			js.append(dict(kind='numpy', specs=specs[i:i + 6], cases=5 if q else 8, seed=['C16', seed, rep, i], essential=rep == 0))
	for r in range(2 if q else 10):
		js.append(dict(kind='torch', specs=[numeric.random_spec(rng, [1, 2, 3, 4, 5]) for _ in range(4)], cases=3, seed=['C16', seed, 'b', r], essential=r < 1))
		js.append(dict(kind='jax', specs=[numeric.random_spec(rng, [2, 3])], cases=1, seed=['C16', seed, 'j', r], essential=r < 1))
	return js


def run(job, mon):
	for i, spec in enumerate(job['specs']):
		rng = rng_of(*job['seed'], i)
		mon.case(spec=spec)
		try:
			alg = mon.call('construct', gen.build_algebra, spec)
			ref = Ref(spec['sig'])
			ctx = mon.call('context', backends.make, dict(numpy='numpy/Einsum/float64', torch='torch/Einsum/float64', jax='jax/Einsum/float64')[job['kind']], alg)
			for c in range(job['cases']):
				for f in (exps, logs, pairs, scalars):
					guarded(f, mon, ctx, ref, rng)
		except Skip:
			pass


SHAPES = [(), (3,), (4,), (2, 2)]


def close(mon, key, got, want, tol, msg):
	e = np.abs(got - want).max(-1) / np.maximum(np.abs(want).max(-1), 1)
	mon.check(not np.any(~(e <= tol)), key, lambda: f'{msg()}: error {np.ravel(e)}')


def tiny(mon, key, got, want, b, msg):
	"""what is small comes out small, not as zero"""
	size = np.abs(b).max(-1)
	if np.any(size > 1e-3):
		return
	mon.count('small', int(np.sum(size > 0)))
	e = np.abs(got - want)[..., 1:].max(-1, initial=0) / np.maximum(size, 1e-300)
	mon.check(not np.any((size > 0) & ~(e <= 1e-6)), key + '/small', lambda: f'{msg()}: error {np.ravel(e)} relative to its size {np.ravel(size)}')


def exps(mon, ctx, ref, rng):
	shape = SHAPES[rng.integers(4)]
	c = rng.random()
	if c < 0.2:
		G = [m for m in range(ref.N) if popcount(m) in (2, 3)]
		kind = 'mixed'
	elif c < 0.35:
		G = [m for m in range(ref.N) if popcount(m) in (2, 3) and ref.is_deg(m)]
		kind = 'degenerate'
	else:
		G = numeric.grade_masks(ref, 2)
		kind = 'bivector'
	if not G:
		return
	if rng.random() < 0.5:
		G = [G[i] for i in rng.permutation(len(G))[:rng.integers(1, len(G) + 1)]]
	S = gen.subspace(ctx.algebra, G, rng)
	b = np.zeros(shape + (ref.N,))
	scale = float(rng.choice([10 ** rng.uniform(-14, -3), .1, 1, 3]))
	v = rng.normal(size=shape + (len(G),))
	b[..., G] = v * scale / np.sqrt(len(G))
	if shape and rng.random() < 0.3:
		b[0] = 0
	if rng.random() < 0.1:
		b[...] = 0
	want = numeric.expm(ref, numeric.to_dict(ref, b), shape)
	mon.case(signature=list(ref.sig), subspace=S.named_str, b=b)
	mon.sample(dict(signature=ref.sig, subspace=S.named_str, b=b))
	got = numeric.dense(ref, mon.call('exp', lambda: numeric.carried(ctx, ref, b, S).exp()), shape)
	k = int(np.prod(shape))
	mon.count('exp', k)
	mon.count('exp/' + kind, k)
	mon.seen('exp', ref.sig, S.blades.tobytes())
	close(mon, 'exp', got, want, 1e-6, lambda: f'exp over {S.named_str} in {ref.sig}')
	tiny(mon, 'exp', got, want, b, lambda: f'exp of a small element over {S.named_str} in {ref.sig}')


def logs(mon, ctx, ref, rng):
	shape = SHAPES[rng.integers(4)]
	if ref.n < 2:
		return
	b = generator(ref, rng, shape, float(rng.choice([10 ** rng.uniform(-8, -3), .3, 1.2])))
	if rng.random() < 0.15:
		b = b * np.array([ref.is_deg(m) for m in range(ref.N)])
	b[np.abs(b) < 1e-11] = 0     # clear of the threshold below which a blade counts as absent
	m = numeric.expm(ref, numeric.to_dict(ref, b), shape)
	S, masks = support_space(ctx, ref, rng, m)
	k = int(np.prod(shape))
	mon.case(signature=list(ref.sig), subspace=S.named_str, b=b, m=m)
	mv = numeric.carried(ctx, ref, m, S)
	l = mon.call('motor_log', mv.motor_log)
	got = numeric.dense(ref, l, shape)
	mon.count('log', k)
	mon.seen('log', ref.sig, S.blades.tobytes())
	close(mon, 'motor_log', got, b, 1e-6, lambda: f'log of exp(b) on {S.named_str} in {ref.sig}')
	tiny(mon, 'motor_log', got, b, b, lambda: f'log of a motor near the identity on {S.named_str} in {ref.sig}')
	if len(l.subspace) == 0:
		return
	mon.check(all(popcount(int(x)) == 2 for x in l.subspace.blades), 'motor_log/grade', lambda: f'log in {ref.sig} has subspace {l.subspace.named_str}')
	back = numeric.dense(ref, mon.call('roundtrip', l.exp), shape)
	mon.count('roundtrip', k)
	close(mon, 'roundtrip', back, m, 1e-6, lambda: f'exp(log(m)) on {S.named_str} in {ref.sig}')
	# an explicit, low number of bisections is exactly invertible
	try:
		from numga.multivector.extension.logexp import exp_bisect, motor_log_bisect
	except ImportError:
		return
	n = int(rng.integers(1, 6))
	back = mon.call('bisect', lambda: exp_bisect(motor_log_bisect(mv, n), n))
	mon.count('bisect', k)
	close(mon, 'bisect', numeric.dense(ref, back, shape), m, 1e-9 * 4 ** n, lambda: f'{n} bisections on {S.named_str} in {ref.sig}')


def pairs(mon, ctx, ref, rng):
	"""approximate maps, and their exact inverses"""
	shape = SHAPES[rng.integers(4)]
	if ref.n < 2:
		return
	b = generator(ref, rng, shape, float(rng.choice([1e-3, .3, .9])))
	masks = numeric.support(ref, b)
	if rng.random() < 0.4 or not masks:
		masks = set(numeric.grade_masks(ref, 2))
	S = gen.subspace(ctx.algebra, masks, rng)
	k = int(np.prod(shape))
	mon.case(signature=list(ref.sig), subspace=S.named_str, b=b)
	B = numeric.carried(ctx, ref, b, S)
	one = numeric.one(ref, shape)
	msg = lambda t: lambda: f'{t} over {S.named_str} in {ref.sig}'
	m = mon.call('exp_linear', B.exp_linear)
	close(mon, 'exp_linear', numeric.dense(ref, m, shape), one + b, 1e-12, msg('exp_linear'))
	close(mon, 'linear', numeric.dense(ref, mon.call('motor_log_linear', m.motor_log_linear), shape), b, 1e-12, msg('log of exp_linear'))
	mon.count('linear', k)
	m = mon.call('exp_quadratic', B.exp_quadratic)
	M = numeric.dense(ref, m, shape)
	# (1 + b/2) = m (1 - b/2)
	close(mon, 'exp_quadratic', numeric.mul(ref, M, one - b / 2), one + b / 2, 1e-9, msg('exp_quadratic'))
	close(mon, 'quadratic', numeric.dense(ref, mon.call('motor_log_quadratic', m.motor_log_quadratic), shape), b, 1e-8, msg('log of exp_quadratic'))
	mon.count('quadratic', k)
	mon.seen('pairs', ref.sig, S.blades.tobytes())
	# a unit motor, parallel to 1 + b; where that can be normalized
	if not real_root(ref, numeric.mul(ref, one + b, one - b)).all():
		return
	m = mon.call('exp_linear_normalized', B.exp_linear_normalized)
	M = numeric.dense(ref, m, shape)
	close(mon, 'exp_linear_normalized/unit', numeric.mul(ref, M, numeric.rev(ref, M)), one, 1e-9, msg('exp_linear_normalized'))
	if any(ref.sig):
		# reflections do not compose to the identity in a fully degenerate algebra; where log declines motors
		close(mon, 'linear_normalized', numeric.dense(ref, mon.call('motor_log_linear_normalized', m.motor_log_linear_normalized), shape), b, 1e-8, msg('log of exp_linear_normalized'))
	mon.count('linear_normalized', k)
	# all of them agree to first order
	s = b * 1e-4
	E = numeric.carried(ctx, ref, s, S)
	for name in ('exp_linear', 'exp_quadratic', 'exp_linear_normalized'):
		got = numeric.dense(ref, mon.call(name, getattr(E, name)), shape)
		close(mon, name + '/order', got, one + s, 1e-7, msg(name + ' to first order'))


def scalars(mon, ctx, ref, rng):
	shape = SHAPES[rng.integers(4)]
	v = rng.normal(size=shape + (1,)) * 2
	s = ctx.subspace.scalar()
	mon.case(signature=list(ref.sig), v=v)
	oplib.observe(mon, 'scalar_exp', 'exp of scalars', ref, lambda: gen.mk(ctx, s, v).exp(), {0: np.exp(v[..., 0])}, [shape], [s], dict(rtol=1e-12))
	w = np.abs(v) + 1e-3
	oplib.observe(mon, 'scalar_log', 'log of scalars', ref, lambda: gen.mk(ctx, s, w).log(), {0: np.log(w[..., 0])}, [shape], [s], dict(rtol=1e-12))
	e = mon.call('empty_exp', lambda: ctx.multivector.empty().exp())
	mon.check(np.allclose(numeric.dense(ref, e), numeric.one(ref, gen.to_np(e.values).shape[:-1])), 'empty_exp', 'exp of nothing is not 1')
	mon.count('scalar', 2)
