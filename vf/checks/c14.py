"""Norms and normalization"""
import numpy as np

from vf import backends, gen, numeric, oplib
from vf.checks.c13 import guarded
from vf.gen import rng_of
from vf.harness import Skip
from vf.ref import Ref, popcount, prune

RULE = ('random algebras of every signature up to 4 generators and samples with 5; random subspaces whose reverse norm is a scalar or study number; an observation is one norm or '
	'normalized element checked against its defining equation (x ~x, n n = x ~x, m ~m = 1 with x ~m the positive root of x ~x, scale invariance), '
	'by the reference model, on entries where the root is real by a margin; distinct by (function, signature, subspace)')
REQUIRED = {'norm_squared': 250, 'norm': 125, 'normalized': 375, 'normalized/study': 50, 'study_norm': 75, 'null': 12, 'imaginary': 50}
BUDGET = dict(quick=400, thorough=600)


def jobs(tier, seed):
	rng = rng_of('C14', seed, 'jobs')
	q = tier == 'quick'
	specs = []
	for n in (1, 2, 3, 4):
		specs += [gen.spec_of(s, rng) for s in gen.all_sigs(n)]
	five = gen.all_sigs(5)
	specs += [gen.spec_of(five[i], rng) for i in rng.permutation(243)[:60 if q else 243]]
	specs = [specs[i] for i in rng.permutation(len(specs))]
	js = []
	for rep in range(2 if q else 8):
		for i in range(0, len(specs), 6):
			js.append(dict(kind='numpy', specs=specs[i:i + 6], cases=6 if q else 10, seed=['C14', seed, rep, i], essential=rep == 0))
	for r in range(1 if q else 10):
		js.append(dict(kind='torch', specs=[numeric.random_spec(rng, [1, 2, 3, 4, 5]) for _ in range(8)], cases=4, seed=['C14', seed, 'b', r], essential=r < 1))
		js.append(dict(kind='jax', specs=[numeric.random_spec(rng, [2, 3, 4]) for _ in range(2)], cases=2, seed=['C14', seed, 'j', r], essential=r < 1))
	return js


def run(job, mon):
	for i, spec in enumerate(job['specs']):
		rng = rng_of(*job['seed'], i)
		mon.case(spec=spec)
		try:
			alg = mon.call('construct', gen.build_algebra, spec)
			ref = Ref(spec['sig'])
			ctx = mon.call('context', backends.make, dict(numpy='numpy/Einsum/float64', torch='torch/Einsum/float64', jax='jax/Einsum/float64')[job['kind']], alg)
			for c in range(job['cases']):
				for f in (norms, normalized, study):
					guarded(f, mon, ctx, ref, rng)
			if job['kind'] == 'numpy':
				for c in range(2):
					guarded(numeric_normalize, mon, ctx, ref, rng)
		except Skip:
			pass


def norm_support(ref, masks, rng):
	a = {m: rng.normal(size=3) for m in masks}
	return set(prune(ref.mul(a, ref.rev(a)), 1e-12))


def study_like(ref, N):
	"""blade set on which scalar negation gives a scalar norm"""
	ns = [m for m in N if m]
	return all(ref.table[a, b] + ref.table[b, a] == 0 for i, a in enumerate(ns) for b in ns[:i])


def pick(ctx, ref, rng, shape):
	"""an operand, biased towards normalizable ones"""
	c = rng.integers(4)
	if c == 0:
		masks = set(numeric.even(ref))
		v = np.zeros(shape + (ref.N,))
		v[..., list(masks)] = rng.normal(size=shape + (len(masks),)) * rng.choice([.05, .2, .5])
		v[..., 0] += 1
	elif c == 1:
		masks = set(numeric.even(ref))
		v = numeric.motors(ref, rng, shape, 0.8) * rng.uniform(0.1, 10, size=shape + (1,))
		w = numeric.motors(ref, rng, shape, 0.8)
		v = v + w * rng.integers(0, 2)
	else:
		masks = gen.random_masks(rng, ref, None, 12) or {0}
		v = np.zeros(shape + (ref.N,))
		v[..., list(masks)] = rng.normal(size=shape + (len(masks),))
		if rng.random() < 0.3:
			v *= rng.random(v.shape) < 0.6
	S = gen.subspace(ctx.algebra, masks, rng)
	return S, v, masks


def norms(mon, ctx, ref, rng):
	S = gen.subspace(ctx.algebra, gen.random_masks(rng, ref, None, 16), rng)
	v = gen.ints(rng, (3, len(S)))
	r = gen.ref_of(S, v)
	mon.count('norm_squared')
	oplib.observe(mon, 'norm_squared', 'norm_squared', ref, lambda: gen.mk(ctx, S, v).norm_squared(), ref.mul(r, ref.rev(r)), [(3,)], [S])
	s = ctx.subspace.scalar()
	w = rng.normal(size=(4, 1))
	oplib.observe(mon, 'norm_scalar', 'norm of scalars', ref, lambda: gen.mk(ctx, s, w).norm(), {0: np.abs(w[:, 0])}, [(4,)], [s])
	# norm n n = x ~x
	S, x, masks = pick(ctx, ref, rng, (4,))
	sup = norm_support(ref, masks, rng)
	if not sup or not study_like(ref, sup):
		return
	N = numeric.mul(ref, x, numeric.rev(ref, x))
	ok = real_root(ref, N)
	if not ok.any():
		return
	x, N = x[ok], N[ok]
	mon.case(signature=list(ref.sig), subspace=S.named_str, x=x)
	out = mon.call('norm', lambda: numeric.carried(ctx, ref, x, S).norm())
	n = numeric.dense(ref, out)
	if masks == {0}:
		N = np.abs(N)
	mon.count('norm', len(x))
	mon.seen('norm', ref.sig, S.blades.tobytes())
	e = numeric.relerr(numeric.mul(ref, n, n), N)
	mon.check(not np.any(e > 1e-8), 'norm/square', lambda: f'norm of {S.named_str} in {ref.sig}: n n differs from x ~x by {e} for {x}')
	mon.check(not np.any(n[..., 0] < 0), 'norm/sign', lambda: f'norm of {S.named_str} in {ref.sig} has negative scalar part {n[..., 0]}')


def real_root(ref, N, margin=0.05):
	"""entries for which N = N0 + ns has a positive real root by a margin"""
	ns = N.copy()
	ns[..., 0] = 0
	sq = numeric.mul(ref, ns, ns)
	mag = np.abs(N).max(-1)
	off = np.abs(sq[..., 1:]).max(-1) if ref.N > 1 else 0
	rad = N[..., 0] ** 2 - sq[..., 0]
	with np.errstate(all='ignore'):
		return (mag > 1e-6) & (N[..., 0] > margin * mag) & (rad > margin * mag ** 2) & (off <= 1e-9 * mag ** 2)


def positive_root(mon, key, ref, x, m, N, S, tol=1e-8):
	"""m is x scaled by the inverse of the positive root of N = x ~x"""
	mm = numeric.mul(ref, m, numeric.rev(ref, m))
	e = np.abs(mm - numeric.one(ref, m.shape[:-1])).max(-1)
	mon.check(not np.any(~(e <= tol)), key + '/unit', lambda: f'{key} of {S.named_str} in {ref.sig}: m ~m differs from 1 by {e} for {x}')
	r = numeric.mul(ref, x, numeric.rev(ref, m))
	d = np.abs(r - numeric.rev(ref, r)).max(-1) / np.abs(x).max(-1)
	mon.check(not np.any(d > tol) and not np.any(r[..., 0] <= 0), key + '/root', lambda: f'{key} of {S.named_str} in {ref.sig}: x ~m is not a positive root of x ~x: {r}')
	q = numeric.relerr(numeric.mul(ref, r, r), N)
	mon.check(not np.any(q > tol * 10), key + '/root', lambda: f'{key} of {S.named_str} in {ref.sig}: (x ~m)^2 differs from x ~x by {q}')


def normalized(mon, ctx, ref, rng):
	S, x, masks = pick(ctx, ref, rng, (4,))
	sup = norm_support(ref, masks, rng)
	mon.case(signature=list(ref.sig), subspace=S.named_str, x=x)
	if not sup:
		mon.count('null')
		try:
			out = numeric.carried(ctx, ref, x, S).normalized()
			mon.check(False, 'normalized/null', f'{S.named_str} in {ref.sig} cannot be normalized, but gives {out.values}')
		except Exception:
			mon.check(True, 'normalized/null')
		return
	if not study_like(ref, sup):
		return
	N = numeric.mul(ref, x, numeric.rev(ref, x))
	ok = real_root(ref, N)
	if sup == {0}:
		ok = N[..., 0] > 1e-6
		imaginary(mon, ctx, ref, x[N[..., 0] < -1e-3], S)
	if not ok.any():
		return
	x, N = x[ok], N[ok]
	mon.sample(dict(signature=ref.sig, subspace=S.named_str, x=x[0][[int(b) for b in S.blades]]))
	f = lambda a: numeric.carried(ctx, ref, a, S).normalized()
	out = mon.call('normalized', f, x)
	m = numeric.dense(ref, out)
	mon.count('normalized', len(x))
	if sup != {0}:
		mon.count('normalized/study', len(x))
	mon.seen('normalized', ref.sig, S.blades.tobytes())
	positive_root(mon, 'normalized', ref, x, m, N, S)
	k = float(10 ** rng.choice([rng.uniform(-2, 2), rng.uniform(-12, 12)]))
	e = numeric.relerr(numeric.dense(ref, mon.call('normalized', f, x * k)), m)
	mon.check(not np.any(e > 1e-8), 'normalized/scale', lambda: f'normalization of {S.named_str} in {ref.sig} depends on scale {k}: {e}')
	again = norm_support(ref, [int(b) for b in out.subspace.blades], rng)
	if not study_like(ref, again):
		# the result may live in a larger subspace than the operand, where no normalization is offered
		return
	e = numeric.relerr(numeric.dense(ref, mon.call('normalized', out.normalized)), m)
	mon.check(not np.any(e > 1e-8), 'normalized/idempotent', lambda: f'normalizing {S.named_str} twice in {ref.sig}: {e}')


def imaginary(mon, ctx, ref, x, S):
	"""elements of negative squared norm have no multiple of unit norm; none may be offered"""
	if not len(x):
		return
	mon.count('imaginary', len(x))
	try:
		with np.errstate(all='ignore'):
			m = numeric.dense(ref, numeric.carried(ctx, ref, x, S).normalized())
	except Exception:
		return
	mm = numeric.mul(ref, m, numeric.rev(ref, m))
	wrong = np.isfinite(m).all(-1) & ~(np.abs(mm - numeric.one(ref, m.shape[:-1])).max(-1) < 1e-6)
	mon.check(not wrong.any(), 'normalized/imaginary', lambda: f'normalization of {S.named_str} in {ref.sig}: finite m with m ~m = {mm[wrong][:2]} for {x[wrong][:2]} of negative squared norm')


def study(mon, ctx, ref, rng):
	masks = numeric.study_masks(ref, rng, rng.random() < 0.8)
	S = gen.subspace(ctx.algebra, masks, rng)
	v = rng.normal(size=(4, len(S)))
	r = gen.ref_of(S, v)
	sn = ref.scalar_neg(r)
	want = ref.mul(r, sn)
	mon.case(signature=list(ref.sig), subspace=S.named_str, values=v)
	oplib.observe(mon, 'study_norm_squared', 'study_norm_squared', ref, lambda: gen.mk(ctx, S, v).study_norm_squared(), want, [(4,)], [S], dict(rtol=1e-12, atol=1e-12))
	w = np.broadcast_to(np.asarray(want.get(0, 0.0)), (4,))
	ok = w > 1e-3
	if ok.any():
		mon.count('study_norm', int(ok.sum()))
		oplib.observe(mon, 'study_norm', 'study_norm', ref, lambda: gen.mk(ctx, S, v[ok]).study_norm(), {0: np.sqrt(w[ok])}, [(int(ok.sum()),)], [S], dict(rtol=1e-9))


def numeric_normalize(mon, ctx, ref, rng):
	"""the iterative normalization agrees with the analytical one, near motors"""
	try:
		from numga.multivector.numerical_normalize import inverse_sandwich, normalize_motor
	except ImportError:
		return
	if ref.n < 2:
		return
	E = numeric.even(ref)
	x = np.zeros((3, ref.N))
	x[..., E] = rng.normal(size=(3, len(E))) * 0.05
	x[..., 0] += 1
	if rng.random() < 0.5:
		x = numeric.mul(ref, x, numeric.motors(ref, rng, (3,), 0.5))
	x *= rng.uniform(0.2, 5)
	N = numeric.mul(ref, x, numeric.rev(ref, x))
	ok = real_root(ref, N, 0.3)
	if not ok.any():
		return
	x, N = x[ok], N[ok]
	S = ctx.subspace.even_grade()
	mv = numeric.carried(ctx, ref, x, S)
	mon.case(signature=list(ref.sig), x=x)
	m = numeric.dense(ref, mon.call('normalize_motor', lambda: normalize_motor(mv, inner=10, outer=2)))
	mon.count('numeric', len(x))
	mon.seen('normalize_motor', ref.sig)
	positive_root(mon, 'normalize_motor', ref, x, m, N, S, 1e-7)
	s = mon.call('inverse_sandwich', lambda: mv.symmetric_reverse_product())
	scale = gen.to_np(s.values)
	if np.all(np.abs(scale) < 4) and np.all(scale[..., 0] > 0.3):
		q = mon.call('inverse_sandwich', lambda: inverse_sandwich(s, n_iter=12))
		Q, Sd = numeric.dense(ref, q), numeric.dense(ref, s)
		e = np.abs(numeric.mul(ref, numeric.mul(ref, Q, Sd), numeric.rev(ref, Q)) - numeric.one(ref, (len(x),))).max(-1)
		mon.check(not np.any(~(e < 1e-7)), 'inverse_sandwich', lambda: f'inverse_sandwich in {ref.sig}: {e}')
