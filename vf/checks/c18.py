"""Geometry of versors acting on everything"""
import numpy as np

from vf import backends, gen, numeric, oplib
from vf.checks.c13 import guarded
from vf.gen import rng_of
from vf.harness import Skip
from vf.ref import Ref, popcount

RULE = ('random algebras of every signature up to 4 generators and samples up to 8; versors made by multiplying vectors with integer coordinates (also unnormalized and improper), unit motors made by '
	'exponentials, acting on random multivectors over random subspaces in random batch shapes; an observation is one law of the group action, evaluated by the library alone, '
	'together with the exact action computed by the reference model; distinct by (law, signature, subspaces)')
REQUIRED = {'action': 250, 'composition': 125, 'covariance': 375, 'roundtrip': 125, 'map': 125, 'reflection': 50, 'duality': 20}
BUDGET = dict(quick=400, thorough=600)


def jobs(tier, seed):
	rng = rng_of('C18', seed, 'jobs')
	q = tier == 'quick'
	specs = []
	for n in (1, 2, 3, 4):
		specs += [gen.spec_of(s, rng) for s in gen.all_sigs(n)]
	specs = [specs[i] for i in rng.permutation(len(specs))]
	js = []
	for rep in range(2 if q else 10):
		for i in range(0, len(specs), 8):
			js.append(dict(kind='numpy', specs=specs[i:i + 8], cases=7 if q else 8, seed=['C18', seed, rep, i], essential=rep == 0))
	for r in range(6 if q else 60):
		js.append(dict(kind='numpy', specs=[numeric.random_spec(rng, [5]) for _ in range(4)], cases=3, seed=['C18', seed, '5', r], essential=r < 3))
	for r in range(3 if q else 24):
		js.append(dict(kind='numpy', specs=[numeric.random_spec(rng, [6, 7, 8]) for _ in range(3)], cases=3, seed=['C18', seed, 'h', r], essential=r < 2))
	for r in range(1 if q else 8):
		js.append(dict(kind='torch', specs=[numeric.random_spec(rng, [2, 3, 4, 5]) for _ in range(6)], cases=3, seed=['C18', seed, 'b', r], essential=r < 1))
		js.append(dict(kind='sparse', specs=[numeric.random_spec(rng, [2, 3, 4]) for _ in range(6)], cases=3, seed=['C18', seed, 's', r], essential=r < 1))
		js.append(dict(kind='jax', specs=[numeric.random_spec(rng, [2, 3])], cases=2, seed=['C18', seed, 'j', r], essential=r < 1))
	return js


def run(job, mon):
	names = dict(numpy='numpy/Einsum/float64', torch='torch/Einsum/float64', jax='jax/Einsum/float64', sparse='numpy/Sparse/float64')
	for i, spec in enumerate(job['specs']):
		rng = rng_of(*job['seed'], i)
		mon.case(spec=spec)
		try:
			alg = mon.call('construct', gen.build_algebra, spec)
			ref = Ref(spec['sig'])
			ctx = mon.call('context', backends.make, names[job['kind']], alg)
			for c in range(job['cases']):
				guarded(action, mon, ctx, ref, rng)
		except Skip:
			pass


def versor(ref, rng, shape, k):
	"""product of k vectors with small integer coordinates"""
	V = [1 << i for i in range(ref.n)]
	axes = V if rng.random() < 0.6 else [V[i] for i in rng.permutation(ref.n)[:max(1, rng.integers(ref.n + 1))]]
	if ref.n > 6:
		axes = axes[:4]
	m = numeric.one(ref, shape)
	for _ in range(k):
		u = np.zeros(shape + (ref.N,))
		u[..., axes] = rng.integers(-2, 3, size=shape + (len(axes),))
		m = numeric.mul(ref, m, u)
	return m


def carrier(ctx, ref, rng, m, k):
	masks = numeric.support(ref, m) or {0}
	if ref.n <= 5 and rng.random() < 0.4:
		masks = {x for x in range(ref.N) if popcount(x) % 2 == k % 2}
	return gen.subspace(ctx.algebra, masks, rng)


def action(mon, ctx, ref, rng):
	n = ref.n
	shape, xs = [((), ()), ((3,), ()), ((), (3,)), ((3,), (3,)), ((2, 1), (1, 3))][rng.integers(5)]
	j, k = int(rng.integers(0, 4)), int(rng.integers(0, 4))
	if n > 5:
		j, k = min(j, 2), min(k, 2)
	unit = rng.random() < 0.4 and n <= 5
	if unit:
		j = k = 2
		m, p = (numeric.motors(ref, rng, shape, 0.7, 1) for _ in range(2))
	else:
		m, p = versor(ref, rng, shape, j), versor(ref, rng, shape, k)
	M = numeric.carried(ctx, ref, m, carrier(ctx, ref, rng, m, j))
	P = numeric.carried(ctx, ref, p, carrier(ctx, ref, rng, p, k))
	lim = None if n <= 4 else (12 if n == 5 else 5)

	def operand():
		kind = 'grade_part' if rng.random() < 0.5 else None
		masks = gen.random_masks(rng, ref, kind, lim)
		masks = masks or {0}
		# the action is grade preserving on whole grades
		if n <= 5 and rng.random() < 0.6:
			g = {popcount(x) for x in masks}
			masks = {x for x in range(ref.N) if popcount(x) in g}
		if len(masks) > 16 and n >= 5:
			masks = set(list(masks)[:16])
		S = gen.subspace(ctx.algebra, masks, rng)
		v = gen.ints(rng, xs + (len(S),), -3, 3)
		return gen.mk(ctx, S, v), numeric.dense_ref(ref, gen.ref_of(S, v), xs)
	X, x = operand()
	Y, y = operand()
	tol = 1e-11
	mon.case(signature=list(ref.sig), m=m, x=x, p=p, y=y, M=M.subspace.named_str, X=X.subspace.named_str)
	mon.sample(dict(signature=ref.sig, versor=M.subspace.named_str, operand=X.subspace.named_str, m=m))
	w = f'with {M.subspace.named_str}, {X.subspace.named_str} in {ref.sig}'
	D = lambda mv: numeric.dense(ref, mv)
	lam = numeric.mul(ref, m, numeric.rev(ref, m))[..., :1]
	mup = numeric.mul(ref, p, numeric.rev(ref, p))[..., :1]
	bs = np.broadcast_shapes(shape, xs)
	size = float(max(1, np.abs(m).max()) ** 2 * max(1, np.abs(p).max()) ** 2 * max(1, np.abs(x).max()) * max(1, np.abs(y).max())) * ref.N

	def law(key, got, want, count, msg, extra=1.0):
		got, want = np.broadcast_arrays(got, want)
		e = np.abs(got - want).max() / (size * extra) if got.size else 0
		mon.count(count)
		mon.seen(key, ref.sig, M.subspace.blades.tobytes(), X.subspace.blades.tobytes(), Y.subspace.blades.tobytes())
		mon.check(bool(e <= tol), key, lambda: f'{msg} {w}: error {e:.1e}')
	A = mon.call('sandwich', lambda: M >> X)
	a = D(A)
	mon.check(a.shape[:-1] == bs, 'sandwich/shape', lambda: f'batch shape {a.shape[:-1]}, expected {bs}')
	law('action', a, numeric.mul(ref, numeric.mul(ref, m, x), numeric.rev(ref, m)), 'action', 'm >> x differs from m x ~m')
	off = [z for z in A.subspace.blades if popcount(int(z)) not in {popcount(int(q)) for q in X.subspace.blades}]
	mon.check(not off, 'sandwich/grades', lambda: f'm >> x has other grades {w}')
	full = D(mon.call('full_sandwich', lambda: M.full_sandwich(X)))
	law('full_sandwich', full, a, 'action', 'full sandwich differs from the grade preserving one')
	# undoing
	law('roundtrip', D(mon.call('reverse_sandwich', lambda: M << A)), lam ** 2 * x, 'roundtrip', 'm << (m >> x) differs from |m|^4 x')
	# composition
	MP = mon.call('product', lambda: M * P)
	law('composition', D(mon.call('sandwich', lambda: MP >> X)), D(mon.call('sandwich', lambda: M >> (P >> X))), 'composition', '(m p) >> x differs from m >> (p >> x)')
	# the action respects every metric product
	B = mon.call('sandwich', lambda: M >> Y)
	for name, f in (('product', lambda u, v: u * v), ('outer', lambda u, v: u ^ v), ('inner', lambda u, v: u | v), ('scalar_product', lambda u, v: u.scalar_product(v)), ('commutator', lambda u, v: u.commutator_product(v))):
		c = f(X, Y)
		if len(c.subspace) == 0:
			continue
		if n > 5 and len(c.subspace) > 24:
			continue
		lhs = D(mon.call('sandwich', lambda: M >> c))
		rhs = D(mon.call(name, lambda: f(A, B)))
		law('covariance/' + name, lhs * lam, rhs, 'covariance', f'{name} of transformed elements differs from transformed {name}')
	if unit:
		# incidence: unit motors have determinant one
		c = X & Y
		if len(c.subspace):
			law('covariance/regressive', D(mon.call('sandwich', lambda: M >> c)), D(mon.call('regressive', lambda: A & B)), 'duality', 'join of transformed elements differs from transformed join')
	# as a linear map
	if n <= 5:
		L = mon.call('sandwich_map', lambda: M.sandwich_map(X.subspace))
		law('map', D(mon.call('map', lambda: L(X))), a, 'map', 'sandwich_map differs from sandwich')
		law('map/linear', D(mon.call('map', lambda: L(X * 3))), 3 * a, 'map', 'sandwich_map not linear')
	# reflections and transform preserve the outer product with either parity
	if n <= 5:
		tx, ty = mon.call('transform', lambda: M.transform(X)), mon.call('transform', lambda: M.transform(Y))
		c = X ^ Y
		if len(c.subspace):
			law('transform/outer', D(mon.call('transform', lambda: M.transform(c))) * lam, D(tx ^ ty), 'covariance', 'transform is not an outermorphism')
		law('transform/roundtrip', D(mon.call('reverse_transform', lambda: M.reverse_transform(tx))), lam ** 2 * x, 'roundtrip', 'reverse_transform does not undo transform')
	# reflection in a vector: negates it, keeps what is orthogonal
	u = numeric.one(ref, ()) * 0
	V = [1 << i for i in range(n)]
	u[V] = rng.integers(-3, 4, size=n)
	v = numeric.one(ref, ()) * 0
	v[V] = rng.integers(-3, 4, size=n)
	vec = ctx.subspace.vector()
	U, W = numeric.carried(ctx, ref, u, vec), numeric.carried(ctx, ref, v, vec)
	uu = sum(ref.sig[i] * u[1 << i] ** 2 for i in range(n))
	uv = sum(ref.sig[i] * u[1 << i] * v[1 << i] for i in range(n))
	size = 1e3
	law('reflection', D(mon.call('reflection', lambda: U >> W)), 2 * uv * u - uu * v, 'reflection', 'u >> v is not the reflection')
	law('reflection/transform', D(mon.call('transform', lambda: U.transform(W))), uu * v - 2 * uv * u, 'reflection', 'transform(u, v) is not the reflection')
