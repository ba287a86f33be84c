"""Square roots"""
import numpy as np

from vf import backends, gen, numeric, oplib
from vf.checks.c13 import guarded
from vf.checks.c14 import norm_support, real_root, study_like
from vf.gen import rng_of
from vf.harness import Skip
from vf.ref import Ref, popcount

RULE = ('random algebras of every signature up to 4 generators and samples with 5; study numbers over random anticommuting blade sets (with nonscalar parts that are generic, vanish at runtime, '
	'or vanish structurally) with a real root by a margin, and motors exp(b) built by the reference model from full and partial sets of bivectors; an observation is one root, '
	'checked by squaring it with the reference model and against exp(b/2); distinct by (function, signature, subspace)')
REQUIRED = {'square_root': 500, 'inverse_square_root': 375, 'motor_square_root': 125, 'geometric_mean': 75, 'runtime_zero': 75, 'zero': 25, 'degenerate': 25, 'infeasible': 200}
BUDGET = dict(quick=400, thorough=600)


def jobs(tier, seed):
	rng = rng_of('C15', seed, 'jobs')
	q = tier == 'quick'
	specs = []
	for n in (1, 2, 3, 4):
		specs += [gen.spec_of(s, rng) for s in gen.all_sigs(n)]
	five = gen.all_sigs(5)
	specs += [gen.spec_of(five[i], rng) for i in rng.permutation(243)[:60 if q else 243]]
	specs = [specs[i] for i in rng.permutation(len(specs))]
	js = []
	for rep in range(2 if q else 10):
		for i in range(0, len(specs), 6):
			js.append(dict(kind='numpy', specs=specs[i:i + 6], cases=8 if q else 12, seed=['C15', seed, rep, i], essential=rep == 0))
	for r in range(1 if q else 10):
		js.append(dict(kind='torch', specs=[numeric.random_spec(rng, [1, 2, 3, 4, 5]) for _ in range(8)], cases=5, seed=['C15', seed, 'b', r], essential=r < 1))
		js.append(dict(kind='jax', specs=[numeric.random_spec(rng, [2, 3, 4]) for _ in range(2)], cases=2, seed=['C15', seed, 'j', r], essential=r < 1))
	return js


def run(job, mon):
	for i, spec in enumerate(job['specs']):
		rng = rng_of(*job['seed'], i)
		mon.case(spec=spec)
		try:
			alg = mon.call('construct', gen.build_algebra, spec)
			ref = Ref(spec['sig'])
			ctx = mon.call('context', backends.make, dict(numpy='numpy/Einsum/float64', torch='torch/Einsum/float64', jax='jax/Einsum/float64')[job['kind']], alg)
			for c in range(job['cases']):
				for f in (study, infeasible, motor, mean):
					guarded(f, mon, ctx, ref, rng)
		except Skip:
			pass


def study(mon, ctx, ref, rng):
	masks = numeric.study_masks(ref, rng, rng.random() < 0.85)
	if rng.random() < 0.2:
		masks = {m for m in masks if m == 0 or ref.is_deg(m)} or {0}
	S = gen.subspace(ctx.algebra, masks, rng)
	shape = (6,)
	x = np.zeros(shape + (ref.N,))
	for m in masks:
		x[..., m] = rng.normal(size=shape) * rng.choice([.1, 1, 30])
	if 0 in masks:
		# bias towards real roots
		c = rng.random(shape)
		x[..., 0] = np.where(c < .6, np.abs(x[..., 0]) + np.abs(x[..., 1:]).sum(-1) * rng.uniform(0, 1.3, size=shape), x[..., 0])
	x *= rng.choice([1, 1, 1e-10, 1e8])
	zero = np.zeros(shape, bool)
	blank = np.zeros(shape, bool)
	if 0 in masks and len(masks) > 1:
		blank[1] = True
		x[1, 1:] = 0
		x[1, 0] = abs(x[1, 0])
	zero[0] = rng.random() < 0.5
	x[zero] = 0
	nsq = numeric.mul(ref, x * (np.arange(ref.N) > 0), x * (np.arange(ref.N) > 0))[..., 0]
	s0 = x[..., 0]
	mag = np.abs(x).max(-1)
	rad = s0 ** 2 - nsq
	deg = all(ref.is_deg(m) for m in masks if m)
	with np.errstate(all='ignore'):
		good = (rad > 0.05 * mag ** 2) & (s0 + np.sqrt(rad) > 0.05 * mag)
	if deg:
		good = s0 > 0.01 * mag
	if masks == {0}:
		good = s0 >= 0
	x, zero, blank = x[good | zero], zero[good | zero], blank[good | zero]
	mon.case(signature=list(ref.sig), subspace=S.named_str, x=x)
	if not len(x):
		return
	out = numeric.dense(ref, mon.call('square_root', lambda: numeric.carried(ctx, ref, x, S).square_root()), (len(x),))
	mon.count('square_root', len(x))
	mon.count('runtime_zero', int(blank.sum()))
	mon.count('zero', int(zero.sum()))
	if deg and masks != {0}:
		mon.count('degenerate', len(x))
	mon.seen('square_root', ref.sig, S.blades.tobytes())
	mon.sample(dict(signature=ref.sig, subspace=S.named_str, x=x[-1]))
	m = np.maximum(np.abs(x).max(-1), 1e-300)
	e = np.where(zero, np.abs(out).max(-1), np.abs(numeric.mul(ref, out, out) - x).max(-1) / m)
	mon.check(not np.any(~(e < 1e-9)), 'square_root/square', lambda: f'root of {S.named_str} in {ref.sig}: square differs by {e} for {x}')
	mon.check(not np.any(out[..., 0] < 0), 'square_root/positive', lambda: f'root of {S.named_str} in {ref.sig} has scalar part {out[..., 0]}')
	y = x[~zero]
	if not len(y) or (masks == {0} and np.any(y == 0)[()] and np.any(y[..., 0] == 0)):
		return
	i = numeric.dense(ref, mon.call('inverse_square_root', lambda: numeric.carried(ctx, ref, y, S).inverse_square_root()), (len(y),))
	mon.count('inverse_square_root', len(y))
	e = np.abs(numeric.mul(ref, numeric.mul(ref, i, y), i) - numeric.one(ref, (len(y),))).max(-1)
	mon.check(not np.any(~(e < 1e-7)), 'inverse_square_root', lambda: f'inverse root of {S.named_str} in {ref.sig}: i s i differs from 1 by {e} for {y}')
	mon.check(not np.any(i[..., 0] <= 0) if 0 in masks else True, 'inverse_square_root/positive', lambda: f'inverse root of {S.named_str} in {ref.sig} has scalar part {i[..., 0]}')


def infeasible(mon, ctx, ref, rng):
	"""without a root in the span of the operand there is no answer; never a finite wrong one"""
	masks = numeric.study_masks(ref, rng, rng.random() < 0.85)
	if rng.random() < 0.2:
		masks = {m for m in masks if m == 0 or ref.is_deg(m)}
	masks |= {0}
	S = gen.subspace(ctx.algebra, masks, rng)
	shape = (12,)
	x = np.zeros(shape + (ref.N,))
	for m in masks:
		x[..., m] = rng.normal(size=shape) * rng.choice([.1, 1, 30])
	ns = x * (np.arange(ref.N) > 0)
	nsq = numeric.mul(ref, ns, ns)[..., 0]
	h = np.sqrt(np.maximum(nsq, 0))
	# scalar part inside the light cone, or on the negative side of it
	x[..., 0] = np.where(rng.random(shape) < .5, h * rng.uniform(-.85, .85, size=shape), -h * rng.uniform(1.15, 3, size=shape))
	bad = nsq > 0.02 * np.abs(ns).max(-1) ** 2
	if all(ref.is_deg(m) for m in masks if m):
		x[..., 0] = -rng.uniform(.01, 3, size=shape)
		bad = np.ones(shape, bool)
	x = x[bad]
	mon.case(signature=list(ref.sig), subspace=S.named_str, x=x)
	if not len(x):
		return
	out = numeric.dense(ref, mon.call('square_root/infeasible', lambda: numeric.carried(ctx, ref, x, S).square_root()), (len(x),))
	mon.count('infeasible', len(x))
	mon.seen('infeasible', ref.sig, S.blades.tobytes())
	finite = np.isfinite(out).all(-1)
	with np.errstate(all='ignore'):
		e = np.abs(numeric.mul(ref, out, out) - x).max(-1) / np.abs(x).max(-1)
	mon.check(not np.any(finite & ~(e < 1e-6)), 'square_root/infeasible', lambda: f'root of {S.named_str} in {ref.sig}: finite result whose square differs by {e} for {x}')


def generator(ref, rng, shape, scale, few=None):
	"""bivector over some of the basis bivectors"""
	B = numeric.grade_masks(ref, 2)
	if not B:
		return np.zeros(shape + (ref.N,))
	if few is None and rng.random() < 0.4:
		few = int(rng.integers(1, len(B) + 1))
	keep = [B[i] for i in rng.permutation(len(B))[:few]]
	b = numeric.bivectors(ref, rng, shape, scale)
	out = np.zeros_like(b)
	out[..., keep] = b[..., keep]
	return out


def scale_of(ref, rng):
	"""rotations up to nearly half a turn, boosts moderate"""
	return float(rng.choice([.01, .5, 1.2]))


def support_space(ctx, ref, rng, *xs):
	"""carrier: the support, or all even elements"""
	masks = set()
	for x in xs:
		masks |= numeric.support(ref, x)
	masks = masks or {0}
	if rng.random() < 0.5:
		masks = set(numeric.even(ref))
	return gen.subspace(ctx.algebra, masks, rng), masks


def motor(mon, ctx, ref, rng):
	shape = (4,)
	b = generator(ref, rng, shape, scale_of(ref, rng))
	m = numeric.expm(ref, numeric.to_dict(ref, b), shape)
	h = numeric.expm(ref, numeric.to_dict(ref, b / 2), shape)
	if rng.random() < 0.3:
		m[0], h[0] = numeric.one(ref, ()), numeric.one(ref, ())
	S, masks = support_space(ctx, ref, rng, m)
	one = numeric.one(ref, shape)
	if not ok_normalize(ref, rng, masks | {0}, m + one):
		return
	mon.case(signature=list(ref.sig), subspace=S.named_str, b=b, m=m)
	r = numeric.dense(ref, mon.call('motor_square_root', lambda: numeric.carried(ctx, ref, m, S).motor_square_root()), shape)
	mon.count('motor_square_root', len(m))
	mon.seen('motor_square_root', ref.sig, S.blades.tobytes())
	e = numeric.relerr(numeric.mul(ref, r, r), m)
	mon.check(not np.any(e > 1e-8), 'motor_square_root/square', lambda: f'in {ref.sig} on {S.named_str}: r r differs from m by {e}')
	e = np.abs(numeric.mul(ref, r, numeric.rev(ref, r)) - one).max(-1)
	mon.check(not np.any(~(e < 1e-8)), 'motor_square_root/unit', lambda: f'in {ref.sig} on {S.named_str}: r ~r differs from 1 by {e}')
	e = numeric.relerr(r, h)
	mon.check(not np.any(e > 1e-7), 'motor_square_root/principal', lambda: f'in {ref.sig} on {S.named_str}: root of exp(b) differs from exp(b/2) by {e}')


def ok_normalize(ref, rng, masks, x):
	sup = norm_support(ref, masks, rng)
	if not sup or not study_like(ref, sup):
		return False
	N = numeric.mul(ref, x, numeric.rev(ref, x))
	return bool(real_root(ref, N).all())


def mean(mon, ctx, ref, rng):
	shape = (4,)
	b = generator(ref, rng, shape, scale_of(ref, rng))
	l = numeric.expm(ref, numeric.to_dict(ref, generator(ref, rng, shape, 1.0)), shape)
	r = numeric.mul(ref, l, numeric.expm(ref, numeric.to_dict(ref, b), shape))
	want = numeric.mul(ref, l, numeric.expm(ref, numeric.to_dict(ref, b / 2), shape))
	L, ml = support_space(ctx, ref, rng, l)
	R, mr = support_space(ctx, ref, rng, r)
	if not ok_normalize(ref, rng, ml | mr, l + r):
		return
	mon.case(signature=list(ref.sig), l=l, r=r, L=L.named_str, R=R.named_str)
	a = numeric.carried(ctx, ref, l, L)
	c = numeric.carried(ctx, ref, r, R)
	g = numeric.dense(ref, mon.call('motor_geometric_mean', lambda: a.motor_geometric_mean(c)), shape)
	mon.count('geometric_mean', len(l))
	mon.seen('mean', ref.sig, L.blades.tobytes(), R.blades.tobytes())
	e = numeric.relerr(g, want)
	mon.check(not np.any(e > 1e-7), 'motor_geometric_mean', lambda: f'in {ref.sig} on {L.named_str}, {R.named_str}: differs from l sqrt(~l r) by {e}')
	g2 = numeric.dense(ref, mon.call('motor_geometric_mean', lambda: c.motor_geometric_mean(a)), shape)
	e = numeric.relerr(g2, g)
	mon.check(not np.any(e > 1e-9), 'motor_geometric_mean/symmetric', lambda: f'in {ref.sig}: {e}')
