"""Composite library computations, as driven by applications; used under the online trace monitor"""
import numpy as np

from vf import gen


def motor_like(ctx, rng, shape=()):
	"""product of a few random bireflections; a normalisable even element"""
	V = ctx.subspace.vector()
	m = None
	for i in range(2 * (1 + ctx.algebra.n_dimensions // 4)):
		v = gen.mk(ctx, V, rng.normal(size=shape + (len(V),)))
		m = v if m is None else m * v
	return m


def composite(ctx, ref, rng, n):
	"""Yield (label, thunk) for a random composite computation on this context"""
	S = ctx.subspace
	rnd = lambda s, shape=(): gen.mk(ctx, s, rng.normal(size=shape + (len(s),)))
	shape = [(), (2,)][rng.integers(2)]
	subs = [S.vector(), S.bivector(), S.even_grade(), S.multivector(), S.scalar(), S.pseudoscalar(), S.antivector(), S.odd_grade(),
		gen.subspace(ctx.algebra, gen.random_masks(rng, ref) or {0})]
	if ref.n > 3:
		subs.append(S.trivector())
	for _ in range(n):
		k = ['inverse', 'divide', 'norms', 'exp', 'log', 'decompose', 'mean', 'sandwich', 'shirokov', 'expr', 'cayley', 'map', 'interp', 'solve'][rng.integers(14)]
		x = rnd(subs[rng.integers(len(subs))], shape)
		y = rnd(subs[rng.integers(len(subs))], shape)
		yield k, (lambda k=k, x=x, y=y: _go(k, ctx, rng, x, y, shape, rnd))


def _go(k, ctx, rng, x, y, shape, rnd):
	S = ctx.subspace
	n = ctx.algebra.n_dimensions
	if k == 'inverse':
		if n < 6:
			x.inverse()
	elif k == 'divide':
		if n < 6:
			y / x
	elif k == 'norms':
		m = motor_like(ctx, rng, shape)
		m.norm_squared()
		if n < 6:
			m.normalized(); m.norm()
	elif k == 'exp':
		b = rnd(S.bivector(), shape) * 0.3
		if n < 6:
			b.exp(); b.exp_linear(); b.exp_linear_normalized()
	elif k == 'log':
		if n < 6:
			m = (rnd(S.bivector(), shape) * 0.2 + 1).normalized()
			m.motor_log(); m.motor_log_linear_normalized()
	elif k == 'decompose':
		b = rnd(S.bivector(), shape)
		if 1 < n < 5:
			b.decompose_invariant()
	elif k == 'mean':
		if n < 6:
			a = (rnd(S.bivector(), shape) * 0.2 + 1).normalized()
			b = (rnd(S.bivector(), shape) * 0.2 + 1).normalized()
			a.motor_geometric_mean(b); a.motor_square_root()
	elif k == 'sandwich':
		m = motor_like(ctx, rng, shape)
		(m >> y); (m << y); m.sandwich_map(); m.full_sandwich(x)
	elif k == 'shirokov':
		if n < 6:
			x.inverse_shirokov()
	elif k == 'cayley':
		if n < 6:
			(rnd(S.bivector(), shape) * 0.3).exp_quadratic().motor_log_quadratic()
	elif k == 'expr':
		((x * y) ^ (~x)) + (y | x) - (x & y) * 2
		(x.dual() ^ y.dual()).dual_inverse()
		x.commutator(y) + x.anti_commutator(y)
	elif k == 'map':
		p = rnd(S.antivector(), shape)
		p.inertia_map()(rnd(S.bivector(), shape))
	elif k == 'interp':
		(x ^ y).inner(y); x.left_contract(y); y.right_contract(x); x.reverse_product(y); x.anti_reverse_product(y)
	elif k == 'solve':
		x.conjugate_product(y); x.involute_product(y); x.scalar_negation_product(y); x.pseudoscalar_negation_product(y)
		x.symmetric_reverse_product(); x.symmetric_conjugate_product(); x.symmetric_involute_product(); x.squared(); x.inverse_factor()
