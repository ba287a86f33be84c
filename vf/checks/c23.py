"""Geometry and number systems modelled with multivectors"""
import itertools

import numpy as np

from vf import backends, gen, numeric
from vf.checks.c13 import guarded
from vf.gen import rng_of
from vf.harness import Skip

RULE = ('random points, planes, frames, spheres, motions, boosts, numbers and matrices in models of dimension one to five (null generator at any position, generators renamed), single and in batches, on two operator strategies. '
	'An observation is one geometric quantity computed with multivectors and again with plain linear algebra on coordinates; distinct by (quantity, model, dimension, batch shape)')
REQUIRED = {'flats': 150, 'rootless': 20, 'euclid': 150, 'vector': 150, 'numbers': 150, 'matrices': 60, 'boosts': 30, 'conformal': 60, 'quaternions': 30}
BUDGET = dict(quick=200, thorough=640)


def jobs(tier, seed):
	q = tier == 'quick'
	js = []
	for kind, n, cases in (('euclid', 6, 70), ('vector', 6, 60), ('numbers', 2, 160), ('matrices', 6, 60), ('boosts', 2, 60), ('conformal', 6, 60), ('quaternions', 2, 80)):
		for r in range(n * (1 if q else 8)):
			js.append(dict(kind=kind, seed=['C23', seed, kind, r], cases=cases, essential=r == 0))
	js.append(dict(kind='known', r=0, seed=['C23', 'known'], cases=1, essential=True))
	return sorted(js, key=lambda j: not j['essential'])


def run(job, mon):
	rng = rng_of(*job['seed'])
	for c in range(job['cases']):
		guarded(globals()['t_' + job['kind']], mon, rng, c, tuple(job['seed']))


def context(rng, sig, names=None):
	names = names or [chr(97 + i) for i in rng.permutation(26)[:len(sig)]]
	alg = gen.build_algebra(dict(style='letters', sig=list(sig), names=names, cut=0))
	return backends.make(['numpy/Einsum/float64', 'numpy/Sparse/float64'][rng.integers(2)], alg)


def batch(rng):
	return [(), (3,), (2, 2), (1,)][rng.integers(4)]


def dense(x, shape=None):
	v = gen.to_np(x.values).astype(float)
	out = np.zeros((v.shape[:-1] if shape is None else shape) + (len(x.context.subspace.full()),))
	out[..., [int(b) for b in x.subspace.blades]] = v
	return out


def near(mon, key, got, want, tol=1e-8, label=''):
	"""both as arrays"""
	mon.count(key.split('/')[0])
	want = np.asarray(want, float)
	got = np.asarray(got, float)
	scale = max(1., float(np.max(np.abs(want), initial=0.)))
	return mon.check(got.shape == want.shape and np.all(np.abs(got - want) <= tol * scale), key, lambda: f'{label}: computed {got.tolist()}, coordinates give {want.tolist()}')


def element(mon, key, mv, coefficients, shape, tol=1e-8, label=''):
	"""multivector against {bitmask: array}"""
	want = np.zeros(shape + (len(mv.context.subspace.full()),))
	for k, v in coefficients.items():
		want[..., k] = v
	return near(mon, key, dense(mv), want, tol, label)


def vec(ctx, where, coords):
	"""1-vector with given coordinates on given generators"""
	S = ctx.subspace.vector()
	v = np.zeros(coords.shape[:-1] + (len(S),))
	for k, g in enumerate(where):
		v[..., list(S.blades).index(1 << g)] = coords[..., k]
	return gen.mk(ctx, S, v)


def scalar(x):
	"""scalar component"""
	return dense(x)[..., 0]


def size(x):
	"""euclidian norm of the coefficients"""
	return np.sqrt((dense(x) ** 2).sum(-1))


# -- flat space with one null generator ------------------------------------------------

def t_euclid(mon, rng, c, seed):
	n = int(rng.integers(1, 5))
	sig = [1] * (n + 1)
	w = int(rng.integers(n + 1))
	sig[w] = 0
	ctx = context(rng, sig)
	axes = [i for i in range(n + 1) if i != w]
	shape = batch(rng)
	coords = lambda *s: rng.normal(size=tuple(s) + (n,)) * 2
	W = vec(ctx, [w], np.ones(1))
	one = np.ones(shape + (1,))

	def point(x):
		return vec(ctx, [w] + axes, np.concatenate([np.ones(x.shape[:-1] + (1,)), x], -1)).dual_inverse()

	def coordinates(p):
		"""of a finite point of any weight"""
		d = dense(p.dual())
		return d[..., [1 << a for a in axes]] / d[..., [1 << w]]

	def plane(normal, d):
		"""normal . x = d"""
		return vec(ctx, axes + [w], np.concatenate([normal, -d[..., None]], -1))

	x, y = coords(*shape), coords(*shape)
	normal = coords(*shape)
	normal /= np.linalg.norm(normal, axis=-1, keepdims=True)
	d = rng.normal(size=shape)
	mon.case(signature=sig, x=x, y=y, normal=normal, d=d)
	mon.seen('euclid', n, w, shape)
	p, q, P = point(x), point(y), plane(normal, d)
	signed = (normal * x).sum(-1) - d
	call = lambda f: mon.call('euclid', f)
	near(mon, 'euclid/roundtrip', coordinates(p), x, label='coordinates of a point')
	near(mon, 'euclid/norm', scalar(call(p.norm)), np.ones(shape), label='norm of a point')
	if n > 1:
		near(mon, 'euclid/distance', scalar(call(lambda: (p & q).norm())), np.linalg.norm(x - y, axis=-1), label='norm of the join of two points')
	near(mon, 'euclid/point_plane', size(call(lambda: p ^ P)), np.abs(signed), label='point wedge plane')
	near(mon, 'euclid/point_plane', np.abs(scalar(call(lambda: p & P))), np.abs(signed), label='point joined with plane')
	# reflections, projections
	mirrored = x - 2 * signed[..., None] * normal
	near(mon, 'euclid/reflect', coordinates(call(lambda: P >> p)), mirrored, label='point reflected in a plane')
	near(mon, 'euclid/reflect', coordinates(call(lambda: P * p * P)), mirrored, label='point reflected in a plane, explicit product')
	near(mon, 'euclid/project', coordinates(call(lambda: (p | P) * P).select.antivector()), x - signed[..., None] * normal, label='point projected on a plane')
	# translations
	t = coords(*shape)
	B = call(lambda: (vec(ctx, axes, t) ^ W) * .5)
	T2 = call(B.exp)
	near(mon, 'euclid/translate', coordinates(call(lambda: T2 >> p)), x + t, label='translation')
	near(mon, 'euclid/translate', coordinates(call(lambda: T2 << p)), x - t, label='inverse translation')
	near(mon, 'euclid/translate', dense(call(lambda: T2 >> P)), dense(plane(normal, d + (normal * t).sum(-1))), label='translated plane')
	near(mon, 'euclid/translate', dense(call(lambda: T2 * T2)), dense(call(lambda: (B * 2.).exp())), label='composed translations')
	near(mon, 'euclid/log', dense(call(T2.motor_log)), dense(B), label='logarithm of a translation')
	near(mon, 'euclid/root', coordinates(call(lambda: T2.motor_square_root() >> p)), x + t / 2, label='half a translation')
	if n >= 2:
		i, j = (int(k) for k in rng.permutation(n)[:2])
		angle = rng.uniform(-3, 3, size=shape)
		b = vec(ctx, [axes[i]], one) ^ vec(ctx, [axes[j]], one)
		R = call(lambda: (b * gen.mk(ctx, ctx.subspace.scalar(), angle[..., None] * -.5)).exp())
		cs, sn = np.cos(angle), np.sin(angle)
		Q = np.zeros(shape + (n, n))
		Q[..., range(n), range(n)] = 1
		Q[..., i, i] = Q[..., j, j] = cs
		Q[..., j, i], Q[..., i, j] = sn, -sn
		turn = lambda v: np.einsum('...ij,...j->...i', Q, v)
		near(mon, 'euclid/rotate', coordinates(call(lambda: R >> p)), turn(x), label='rotated point')
		near(mon, 'euclid/rotate', dense(call(lambda: R >> P)), dense(plane(turn(normal), d)), label='rotated plane')
		M = call(lambda: T2 * R)
		near(mon, 'euclid/motion', coordinates(call(lambda: M >> p)), turn(x) + t, label='rotation followed by translation')
		near(mon, 'euclid/motion', coordinates(call(lambda: (R * T2) >> p)), turn(x + t), label='translation followed by rotation')
		near(mon, 'euclid/motion', coordinates(call(lambda: M.inverse() >> p)), np.einsum('...ji,...j->...i', Q, x - t), label='inverse motion')
		near(mon, 'euclid/motion', coordinates(call(lambda: M.sandwich_map(p.subspace)(p))), turn(x) + t, label='motion as a linear map')
		if n <= 3:
			l = call(M.motor_log)
			near(mon, 'euclid/motion', coordinates(call(lambda: l.exp() >> p)), turn(x) + t, 1e-6, label='motion rebuilt from its logarithm')
		# meet of n hyperplanes solves the linear system
		N, rhs = coords(*shape, n), rng.normal(size=shape + (n,))
		if np.all(np.linalg.cond(N) < 100):
			meet = plane(N[..., 0, :], rhs[..., 0])
			for k in range(1, n):
				meet = call(lambda: meet ^ plane(N[..., k, :], rhs[..., k]))
			near(mon, 'euclid/meet', coordinates(meet), np.linalg.solve(N, rhs[..., None])[..., 0], label='meet of hyperplanes')
		# join of n points contains them, and its distance to another point is the height of the simplex
		X = coords(*shape, n)
		join = point(X[..., 0, :])
		for k in range(1, n):
			join = call(lambda: join & point(X[..., k, :]))
		A = np.concatenate([np.ones(shape + (n + 1, 1)), np.concatenate([X, x[..., None, :]], -2)], -1)
		near(mon, 'euclid/join', np.abs(scalar(call(lambda: join & p))), np.abs(np.linalg.det(A)), label='volume of a simplex')
		for k in range(n):
			near(mon, 'euclid/incidence', dense(call(lambda: join ^ point(X[..., k, :]))), np.zeros(shape + (2 ** (n + 1),)), label='point on the join')
		# barycentre
		near(mon, 'euclid/centre', coordinates(call(lambda: p + q)), (x + y) / 2, label='sum of two points')


# -- vector space ----------------------------------------------------------------------

def t_vector(mon, rng, c, seed):
	n = int(rng.integers(1, 6))
	ctx = context(rng, [1] * n)
	shape = batch(rng)
	axes = list(range(n))
	V = lambda x: vec(ctx, axes, x)
	X = rng.normal(size=shape + (n, n))
	b = rng.normal(size=shape + (n,))
	mon.case(vectors=X, b=b)
	mon.seen('vector', n, shape)
	call = lambda f: mon.call('vector', f)
	C = lambda x: dense(x)[..., [1 << k for k in axes]]
	def wedge(cols):
		out = V(cols[0])
		for v in cols[1:]:
			out = call(lambda: out ^ V(v))
		return out
	cols = [X[..., k] for k in range(n)]
	det = np.linalg.det(X)
	near(mon, 'vector/det', dense(wedge(cols))[..., -1], det, label='determinant')
	k = int(rng.integers(1, n + 1))
	G = np.einsum('...ai,...aj->...ij', X[..., :k], X[..., :k])
	bl = wedge(cols[:k])
	near(mon, 'vector/gram', scalar(call(bl.norm_squared)), np.linalg.det(G), label='Gram determinant')
	near(mon, 'vector/volume', scalar(call(bl.norm)), np.sqrt(np.abs(np.linalg.det(G))), label='volume of a parallelepiped')
	for rows in itertools.combinations(range(n), k):
		near(mon, 'vector/minor', dense(bl)[..., sum(1 << r for r in rows)], np.linalg.det(X[..., list(rows), :k]), label=f'minor {rows}')
	near(mon, 'vector/dot', scalar(call(lambda: V(cols[0]) | V(b))), (cols[0] * b).sum(-1), label='inner product of vectors')
	near(mon, 'vector/norm', scalar(call(V(b).norm)), np.linalg.norm(b, axis=-1), label='length')
	near(mon, 'vector/normalized', C(call(V(b).normalized)), b / np.linalg.norm(b, axis=-1, keepdims=True), label='unit vector')
	near(mon, 'vector/inverse', C(call(V(b).inverse)), b / (b ** 2).sum(-1, keepdims=True), label='inverse vector')
	if np.all(np.linalg.cond(X) < 50):
		z = np.linalg.solve(X, b[..., None])[..., 0]
		full = wedge(cols)
		for r in range(n):
			part = wedge([b if i == r else v for i, v in enumerate(cols)])
			near(mon, 'vector/cramer', scalar(call(lambda: part / full)), z[..., r], 1e-6, label='linear system solved with wedge products')
	# projections on the span of k columns
	if np.all(np.linalg.cond(G) < 1e3):
		A = X[..., :k]
		proj = np.einsum('...ij,...j->...i', A @ np.linalg.inv(G) @ np.swapaxes(A, -1, -2), b)
		near(mon, 'vector/project', C(call(lambda: (V(b) | bl) * bl.inverse())), proj, 1e-7, label='projection on a span')
		near(mon, 'vector/reject', C(call(lambda: (V(b) ^ bl) * bl.inverse())), b - proj, 1e-7, label='rejection from a span')
	# reflections
	a = rng.normal(size=shape + (n,))
	a /= np.linalg.norm(a, axis=-1, keepdims=True)
	H = np.eye(n) - 2 * a[..., :, None] * a[..., None, :]
	act = lambda M, v: np.einsum('...ij,...j->...i', M, v)
	near(mon, 'vector/reflect', np.abs(C(call(lambda: V(a) >> V(b)))), np.abs(act(H, b)), label='reflection, up to orientation')
	near(mon, 'vector/reflect', -C(call(lambda: V(a) * V(b) * V(a))), act(H, b), label='reflection, explicit product')
	if n >= 2:
		a2 = rng.normal(size=shape + (n,))
		a2 /= np.linalg.norm(a2, axis=-1, keepdims=True)
		H2 = np.eye(n) - 2 * a2[..., :, None] * a2[..., None, :]
		Q = H2 @ H
		R = call(lambda: V(a2) * V(a))
		near(mon, 'vector/rotate', C(call(lambda: R >> V(b))), act(Q, b), label='two reflections')
		near(mon, 'vector/rotate', C(call(lambda: R << V(b))), act(np.swapaxes(Q, -1, -2), b), label='two reflections undone')
		near(mon, 'vector/outermorphism', dense(call(lambda: R >> bl)), dense(wedge([act(Q, v) for v in cols[:k]])), label='rotated span')
		# rotation between directions, and the exponential of its generator
		if np.all((a * a2).sum(-1) > -.95):
			h = call(lambda: (V(a2) * V(a)).motor_square_root())
			near(mon, 'vector/between', C(call(lambda: h >> V(a))), a2, label='rotation from one direction to another')
		if n <= 5:
			import scipy.linalg
			L = rng.normal(size=shape + (n, n)) * .4
			L = L - np.swapaxes(L, -1, -2)
			S = ctx.subspace.bivector()
			v = np.zeros(shape + (len(S),))
			for i in range(n):
				for j in range(i):
					v[..., list(S.blades).index(1 << i | 1 << j)] = L[..., j, i] * .5
			E = np.array([scipy.linalg.expm(m) for m in L.reshape(-1, n, n)]).reshape(L.shape)
			R = call(lambda: gen.mk(ctx, S, v).exp())
			near(mon, 'vector/exp', C(call(lambda: R >> V(b))), act(E, b), 1e-6, label='exponential of a generator of rotations')
	if c % 3 == 0:
		flats(mon, rng)
	if n == 3:
		near(mon, 'vector/cross', C(call(lambda: (V(a) ^ V(b)).dual())), np.cross(a, b), label='dual of the wedge of vectors')
		near(mon, 'vector/triple', dense(call(lambda: V(a) ^ V(b) ^ V(cols[0])))[..., -1], (np.cross(a, b) * cols[0]).sum(-1), label='triple product')


def flats(mon, rng):
	"""spans and intersections of subspaces, in up to seven dimensions"""
	n = int(rng.integers(3, 8))
	null = bool(rng.random() < .4)
	sig = [1] * n
	if null:
		sig[rng.integers(n)] = 0
	ctx = context(rng, sig)
	axes = list(range(n))
	V = lambda x: vec(ctx, axes, np.asarray(x))
	call = lambda f: mon.call('flats', f)
	p = int(rng.integers(1, n))
	q = int(rng.integers(1, n))
	X = rng.integers(-2, 3, size=(n, p + q)).astype(float)
	mon.case(signature=sig, p=p, q=q, X=X)
	mon.seen('flats', tuple(sig), p, q)
	def span(M):
		out = V(M[:, 0])
		for k in range(1, M.shape[1]):
			out = call(lambda: out ^ V(M[:, k]))
		return out
	def minors(M):
		"""{bitmask: determinant} of a matrix of columns"""
		k = M.shape[1]
		return {sum(1 << r for r in rows): np.linalg.det(M[list(rows)]) for rows in itertools.combinations(range(n), k)}
	A, B = span(X[:, :p]), span(X[:, p:])
	element(mon, 'flats/span', A, minors(X[:, :p]), (), label=f'span of {p} vectors')
	J = call(lambda: A ^ B)
	if p + q <= n:
		element(mon, 'flats/join', J, minors(X), (), label=f'span of a {p}-flat and a {q}-flat')
		swapped = call(lambda: B ^ A)
		near(mon, 'flats/order', dense(swapped), dense(J) * (-1) ** (p * q), label='span in the other order')
	else:
		near(mon, 'flats/join', dense(J), np.zeros(2 ** n), label=f'span of a {p}-flat and a {q}-flat in {n} dimensions')
	k = p + q - n
	M = call(lambda: A & B)
	got = dense(M)
	scale = max(1., float(np.abs(got).max()))
	if k < 0:
		near(mon, 'flats/meet', got, np.zeros(2 ** n), label=f'meet of a {p}-flat and a {q}-flat in {n} dimensions')
		return
	# the meet is the span of the intersection, weighted by the determinant of the whole; it vanishes when the flats are not transversal
	# split formula: sum over ways to pick the vectors of A that complete B
	want = np.zeros(2 ** n)
	for rows in itertools.combinations(range(p), n - q):
		rest = [r for r in range(p) if r not in rows]
		sign = (-1) ** sum(1 for a in rows for b in rest if b < a)
		d = np.linalg.det(np.concatenate([X[:, list(rows)], X[:, p:]], 1))
		if d:
			for m, v in (minors(X[:, rest]).items() if rest else [(0, 1.)]):
				want[m] += sign * d * v
	size_ = max(1., float(np.abs(want).max()))
	mon.count('flats')
	mon.check(np.all(np.abs(got - want) <= 1e-8 * size_) or np.all(np.abs(got + want) <= 1e-8 * size_), 'flats/meet', lambda: f'meet of a {p}-flat and a {q}-flat in {n} dimensions: {got.tolist()}, the intersection is {want.tolist()}, up to orientation')
	if k:
		for f, name in ((A, 'first'), (B, 'second')):
			near(mon, 'flats/incidence', dense(call(lambda: M ^ f)), np.zeros(2 ** n), 1e-9 * scale * max(1., float(np.abs(dense(f)).max())), label=f'meet spanned with the {name} flat')


# -- numbers ----------------------------------------------------------------------------

def t_numbers(mon, rng, c, seed):
	s = int(rng.choice([-1, 0, 1]))
	ctx = context(rng, [s])
	shape = batch(rng)
	z, y = rng.normal(size=shape + (2,)) + np.array([2.5, 0]), rng.normal(size=shape + (2,)) + np.array([2.5, 0])
	z[..., 0] = np.abs(z[..., 0]) + (1.2 * np.abs(z[..., 1]) if s == 1 else .3)
	y[..., 0] = np.abs(y[..., 0]) + (1.2 * np.abs(y[..., 1]) if s == 1 else .3)
	mon.case(square=s, z=z, y=y)
	mon.seen('numbers', s, shape)
	call = lambda f: mon.call('numbers', f)
	S = ctx.subspace.full()
	mk = lambda v: gen.mk(ctx, S, v)
	if s == -1:
		enc = lambda v: v[..., 0] + 1j * v[..., 1]
		dec = lambda w: np.stack([w.real, w.imag], -1)
	elif s == 1:
		enc = lambda v: np.stack([v[..., 0] + v[..., 1], v[..., 0] - v[..., 1]])
		dec = lambda w: np.stack([w[0] + w[1], w[0] - w[1]], -1) / 2
	else:
		enc = lambda v: Dual(v[..., 0], v[..., 1])
		dec = lambda w: np.stack(np.broadcast_arrays(w.a, w.b), -1)
	Z, Y = enc(z), enc(y)
	a, b = mk(z), mk(y)
	near(mon, 'numbers/product', dense(call(lambda: a * b)), dec(Z * Y), label='product')
	near(mon, 'numbers/sum', dense(call(lambda: a + b * 2 - 3)), dec(Z + Y * 2 + -3), label='sum')
	near(mon, 'numbers/inverse', dense(call(a.inverse)), dec(1 / Z), label='inverse')
	near(mon, 'numbers/quotient', dense(call(lambda: b / a)), dec(Y / Z), label='quotient')
	near(mon, 'numbers/power', dense(call(lambda: a * a * a)), dec(Z * Z * Z), label='cube')
	root = np.sqrt if s else Dual.sqrt
	near(mon, 'numbers/root', dense(call(a.square_root)), dec(root(Z)), label='square root')
	near(mon, 'numbers/inverse_root', dense(call(a.inverse_square_root)), dec(1 / root(Z)), label='inverse square root')
	anywhere(mon, rng, s, shape, enc, dec, mk)
	# a pure imaginary exponent
	t = rng.normal(size=shape)
	if s == -1:
		ctx2 = context(rng, [1, 1])
		B = gen.mk(ctx2, ctx2.subspace.bivector(), t[..., None])
		d = dense(call(B.exp))[..., [0, 3]]
		near(mon, 'numbers/exp', d, np.stack([np.cos(t), np.sin(t)], -1), label='exponential of an imaginary number')


def anywhere(mon, rng, s, shape, enc, dec, mk):
	"""numbers in every quadrant: inverses wherever there is one, and roots that are roots, or no number at all"""
	v = (rng.uniform(.2, 3, size=shape + (2,)) * rng.choice([1., -1.], size=shape + (2,)))
	if s == 1:
		v[..., 0] += np.where(np.abs(np.abs(v[..., 0]) - np.abs(v[..., 1])) < .1, .3 * np.sign(v[..., 0]), 0)
	mon.case(square=s, v=v)
	V, a = enc(v), mk(v)
	call = lambda f: mon.call('numbers', f)
	near(mon, 'numbers/inverse', dense(call(a.inverse)), dec(1 / V), label='inverse of a number in any quadrant')
	for key, f, back in (('root', a.square_root, lambda w: w * w), ('inverse_root', a.inverse_square_root, lambda w: 1 / (w * w))):
		with np.errstate(all='ignore'):
			w = dense(call(f))
			got = dec(back(enc(w)))
		ok = np.isfinite(w).all(-1)
		rooted = np.ones(shape, bool) if s == -1 else v[..., 0] > (np.abs(v[..., 1]) if s == 1 else 0)
		mon.count('rootless', int((~rooted).sum()))
		mon.check(np.all(ok | ~rooted), 'numbers/' + key, lambda: f'no {key} of {v.tolist()}: {w.tolist()}')
		mon.check(not np.any(ok & ~rooted), 'numbers/rootless', lambda: f'{key} of {v.tolist()}, some of which have none, computed as {w.tolist()}')
		if np.any(ok & rooted):
			near(mon, 'numbers/' + key, got[ok & rooted], v[ok & rooted], 1e-7, label=f'{key} in any quadrant, taken back')


class Dual:
	def __init__(self, a, b):
		self.a, self.b = a, b
	def __mul__(self, o):
		o = o if isinstance(o, Dual) else Dual(o, 0.)
		return Dual(self.a * o.a, self.a * o.b + self.b * o.a)
	def __add__(self, o):
		o = o if isinstance(o, Dual) else Dual(o, 0.)
		return Dual(self.a + o.a, self.b + o.b)
	def __rtruediv__(self, o):
		return Dual(o / self.a, -o * self.b / self.a ** 2)
	def __truediv__(self, o):
		return self * (1 / o)
	def sqrt(self):
		return Dual(np.sqrt(self.a), self.b / 2 / np.sqrt(self.a))


# -- matrices -----------------------------------------------------------------------------

def gammas(sig):
	"""complex matrices that anticommute and square to the signature, faithful on the whole algebra"""
	n = len(sig)
	m = (n + 1) // 2
	X, Y, Z, I = np.array([[0, 1], [1, 0]], complex), np.array([[0, -1j], [1j, 0]]), np.diag([1. + 0j, -1]), np.eye(2, dtype=complex)
	kron = lambda xs: np.array([[1.]]) if not xs else np.kron(xs[0], kron(xs[1:]))
	out = []
	for k in range(m):
		for P in (X, Y):
			out.append(kron([Z] * k + [P] + [I] * (m - k - 1)))
	return [g * (1 if s > 0 else 1j) for g, s in zip(out, sig)]


def t_matrices(mon, rng, c, seed):
	"""faithful matrix representations: products, inverses, exponentials and characteristic polynomials"""
	import scipy.linalg
	n = int(rng.integers(1, 6))
	sig = [int(s) for s in rng.choice([1, -1], size=n)]
	ctx = context(rng, sig)
	gs = gammas(sig)
	N = 2 ** n
	blades = []
	for m in range(N):
		M = np.eye(gs[0].shape[0], dtype=complex)
		for i in range(n):
			if m >> i & 1:
				M = M @ gs[i]
		blades.append(M)
	blades = np.array(blades)
	def matrix(mv):
		return np.einsum('...m,mij->...ij', dense(mv), blades)
	shape = batch(rng)
	def some():
		S = gen.subspace(ctx.algebra, gen.random_masks(rng, Small(sig)) or {0}, rng)
		return gen.mk(ctx, S, rng.integers(-3, 4, size=shape + (len(S),)).astype(float))
	a, b, d = some(), some(), some()
	mon.case(signature=sig, a=[a.subspace.named_str, a.values], b=[b.subspace.named_str, b.values])
	mon.seen('matrices', tuple(sig), a.subspace.blades.tobytes(), b.subspace.blades.tobytes())
	call = lambda f: mon.call('matrices', f)
	def same(key, mv, M, tol=1e-9):
		mon.count('matrices')
		got = matrix(mv)
		scale = max(1., float(np.abs(M).max(initial=0.)))
		mon.check(got.shape == M.shape and np.all(np.abs(got - M) <= tol * scale), 'matrices/' + key, lambda: f'{key}: {got.tolist()}, matrices give {M.tolist()}')
	A, B, D = matrix(a), matrix(b), matrix(d)
	same('product', call(lambda: a * b), A @ B)
	same('product3', call(lambda: a * b * d), A @ B @ D)
	same('commutator', call(lambda: a.commutator(b)), (A @ B - B @ A) / 2)
	same('anticommutator', call(lambda: a.anti_commutator(b)), (A @ B + B @ A) / 2)
	same('affine', call(lambda: a * 2 - b + 1), 2 * A - B + np.eye(A.shape[-1]))
	same('square', call(a.squared), A @ A)
	t = call(lambda: (a * b).select[0])
	near(mon, 'matrices/trace', scalar(t), np.real(np.trace(A @ B, axis1=-2, axis2=-1)) / A.shape[-1], label='normalized trace')
	if n <= 4:
		x = gen.mk(ctx, ctx.subspace.full(), rng.normal(size=shape + (N,)))
		M = matrix(x)
		if np.all(np.linalg.cond(M) < 50):
			same('inverse', call(x.inverse), np.linalg.inv(M), 1e-7)
			same('division', call(lambda: a / x), A @ np.linalg.inv(M), 1e-7)
	if n >= 2:
		S = ctx.subspace.bivector()
		x = gen.mk(ctx, S, rng.normal(size=shape + (len(S),)) * .4)
		M = matrix(x)
		E = np.array([scipy.linalg.expm(m) for m in M.reshape((-1,) + M.shape[-2:])]).reshape(M.shape)
		r = call(x.exp)
		same('exp', r, E, 1e-7)
		same('conjugation', call(lambda: r >> a), E @ A @ np.linalg.inv(E), 1e-6)


class Small:
	def __init__(self, sig):
		self.sig, self.n, self.N, self.I = sig, len(sig), 2 ** len(sig), 2 ** len(sig) - 1
	def is_deg(self, m):
		return any(self.sig[i] == 0 for i in range(self.n) if m >> i & 1)


def t_quaternions(mon, rng, c, seed):
	"""the even part of space, and the algebra of two negative generators, are the quaternions"""
	from scipy.spatial.transform import Rotation
	shape = [(), (3,)][rng.integers(2)]
	k = int(np.prod(shape, dtype=int))
	r, s = Rotation.random(k, random_state=int(rng.integers(1 << 30))), Rotation.random(k, random_state=int(rng.integers(1 << 30)))
	ctx = context(rng, [1, 1, 1])
	S = ctx.subspace.even_grade()
	# a rotation about an axis u is cos - sin * (dual of u): components on yz, zx, xy
	place = {0: (3, 1), 0b110: (0, -1), 0b101: (1, 1), 0b011: (2, -1)}
	def motor(q):
		q = q.as_quat().reshape(shape + (4,))
		return gen.mk(ctx, S, np.stack([q[..., place[int(b)][0]] * place[int(b)][1] for b in S.blades], -1))
	a, b = motor(r), motor(s)
	x = rng.normal(size=(k, 3))
	mon.case(r=r.as_quat(), s=s.as_quat(), x=x)
	mon.seen('quaternions', seed, c)
	call = lambda f: mon.call('quaternions', f)
	v = vec(ctx, [0, 1, 2], x.reshape(shape + (3,)))
	C = lambda m: dense(m)[..., [1, 2, 4]]
	near(mon, 'quaternions/apply', C(call(lambda: a >> v)), r.apply(x).reshape(shape + (3,)), label='rotation of a vector')
	near(mon, 'quaternions/compose', C(call(lambda: (a * b) >> v)), (r * s).apply(x).reshape(shape + (3,)), label='composed rotation')
	near(mon, 'quaternions/inverse', C(call(lambda: a.inverse() >> v)), r.inv().apply(x).reshape(shape + (3,)), label='inverse rotation')
	near(mon, 'quaternions/relative', C(call(lambda: (a / b) >> v)), (r * s.inv()).apply(x).reshape(shape + (3,)), label='relative rotation')
	m = np.abs(a.values[..., list(S.blades).index(0)])
	if np.all(m > .05):
		L = call(a.motor_log)
		near(mon, 'quaternions/log', C(call(lambda: L.exp() >> v)), r.apply(x).reshape(shape + (3,)), 1e-7, label='rotation rebuilt from its logarithm')
		h = call(a.motor_square_root)
		near(mon, 'quaternions/root', C(call(lambda: h >> (h >> v))), r.apply(x).reshape(shape + (3,)), 1e-7, label='half a rotation applied twice')
	M = call(lambda: a.sandwich_map(v.subspace))
	near(mon, 'quaternions/map', C(call(lambda: M(v))), r.apply(x).reshape(shape + (3,)), label='rotation as a linear map')


# -- spacetime ----------------------------------------------------------------------------

def t_boosts(mon, rng, c, seed):
	n = int(rng.integers(1, 4))
	time = int(rng.integers(n + 1))
	flip = bool(rng.random() < .5)
	sig = [(-1 if flip else 1)] * (n + 1)
	sig[time] *= -1
	ctx = context(rng, sig)
	space = [i for i in range(n + 1) if i != time]
	shape = batch(rng)
	u = rng.normal(size=shape + (n,))
	u /= np.linalg.norm(u, axis=-1, keepdims=True)
	phi = rng.uniform(-1.5, 1.5, size=shape)
	x = rng.normal(size=shape + (n + 1,))
	mon.case(signature=sig, u=u, rapidity=phi, x=x)
	mon.seen('boosts', tuple(sig), shape)
	call = lambda f: mon.call('boosts', f)
	X = vec(ctx, list(range(n + 1)), x)
	U, T = vec(ctx, space, u), vec(ctx, [time], np.ones(shape + (1,)))
	B = call(lambda: (U ^ T) * gen.mk(ctx, ctx.subspace.scalar(), phi[..., None] * .5))
	R = call(B.exp)
	got = dense(call(lambda: R >> X))[..., [1 << i for i in range(n + 1)]]
	t, s = x[..., time], x[..., space]
	along = (s * u).sum(-1)
	# U T squares to one; it maps T to -+U and U to -+T
	sh = np.sinh(phi) * sig[time]
	want = np.zeros_like(x)
	want[..., time] = np.cosh(phi) * t + sh * along
	want[..., space] = s + ((np.cosh(phi) - 1) * along + sh * t)[..., None] * u
	near(mon, 'boosts/vector', got, want, 1e-7, label='boosted vector')
	form = lambda v: (v * v * np.array(sig)).sum(-1)
	near(mon, 'boosts/interval', scalar(call(X.squared)), form(x), label='interval')
	near(mon, 'boosts/interval', form(got), form(x), 1e-7, label='interval after a boost')
	R2 = call(lambda: (B * 2.).exp())
	near(mon, 'boosts/compose', dense(call(lambda: R * R)), dense(R2), 1e-7, label='rapidities add')
	near(mon, 'boosts/log', dense(call(R.motor_log)), dense(B), 1e-6, label='logarithm of a boost')


# -- spheres --------------------------------------------------------------------------------

def t_known(mon, rng, c, seed):
	from numga.examples.conformal import Conformal
	for n, key, text in ((2, 'known/split-plane', 'x+y+'), (3, 'known/split-space', 'x+y+z+')):
		cga = Conformal(backends.make('numpy/Einsum/float64', Conformal.algebra(text)))
		X = np.array([[.1, .7, -.3], [1.3, -.9, .6]])[:, :n] if n == 3 else KNOWN_PAIRS
		mon.case(points=X)
		for i in range(len(X) // 2):
			x, y = X[2 * i: 2 * i + 2]
			a, b = cga.embed_point(x), cga.embed_point(y)
			try:
				with np.errstate(all='ignore'):
					ab = cga.split_points((a ^ b)[None])
					got = gen.to_np(cga.point_position(cga.normalize(ab)).values)
			except Exception as e:
				mon.check(False, key if n == 3 and isinstance(e, AssertionError) else 'conformal/split', f'{type(e).__name__}: splitting the pair of points {x.tolist()}, {y.tolist()}')
				break
			if not mon.check(min(np.abs(got - [x, y]).max(), np.abs(got - [y, x]).max()) < 1e-6, key if n == 2 and np.all(np.isnan(got)) else 'conformal/split', lambda: f'the pair of points {x.tolist()}, {y.tolist()} splits into {got.tolist()}'):
				break


KNOWN_PAIRS = np.array([[np.sin(7. * i + j) * 1.9 for j in range(2)] for i in range(40)])


def t_conformal(mon, rng, c, seed):
	from numga.examples.conformal import Conformal, Conformalize
	n = int(rng.integers(1, 4))
	names = [chr(97 + i) for i in rng.permutation(13)[:n]]
	strategy = ['numpy/Einsum/float64', 'numpy/Sparse/float64'][rng.integers(2)]
	text = ''.join(x + '+' for x in names)
	inplace = bool(rng.random() < .3)
	if inplace:
		from numga.algebra.algebra import Algebra
		cga = ctx = Conformalize(backends.make(strategy, Algebra(text)))
	else:
		ctx = backends.make(strategy, Conformal.algebra(text))
		cga = Conformal(ctx)
	shape = batch(rng)
	call = lambda f: mon.call('conformal', f)
	X = rng.normal(size=shape + (n + 1, n))
	r = rng.uniform(.5, 2, size=shape + (1,))
	mon.case(n=n, X=X, r=r)
	mon.seen('conformal', n, shape, inplace)
	emb = lambda x, **kw: call(lambda: cga.embed_point(x, **kw))
	pos = lambda p: gen.to_np(call(lambda: cga.point_position(cga.normalize(p))).values)
	x, y = X[..., 0, :], X[..., 1, :]
	a, b = emb(x), emb(y)
	zero = np.zeros(shape)
	near(mon, 'conformal/null', scalar(call(a.squared)), zero, label='square of a point')
	near(mon, 'conformal/normalized', scalar(call(lambda: a | cga.ni)), zero - 1, label='point dot infinity')
	near(mon, 'conformal/distance', -2 * scalar(call(lambda: a | b)), ((x - y) ** 2).sum(-1), label='squared distance')
	near(mon, 'conformal/position', pos(call(lambda: a * 3.)), x, label='position of a point of any weight')
	rad = gen.mk(ctx, ctx.subspace.scalar(), r)
	o = emb(x, r=rad)
	near(mon, 'conformal/radius', scalar(call(o.squared)), r[..., 0] ** 2, label='squared radius of a sphere')
	near(mon, 'conformal/centre', pos(call(lambda: o >> cga.ni)), x, label='centre is infinity reflected in the sphere')
	# inversion
	w = x + (y - x) * (r ** 2 / ((y - x) ** 2).sum(-1, keepdims=True))
	if np.all(((y - x) ** 2).sum(-1) > .05):
		near(mon, 'conformal/inversion', pos(call(lambda: o >> b)), w, 1e-7, label='point inverted in a sphere')
	# the sphere through n+1 points
	P = [emb(X[..., k, :]) for k in range(n + 1)]
	S = P[0]
	for p in P[1:]:
		S = call(lambda: S ^ p)
	A = 2 * (X[..., 1:, :] - X[..., :1, :])
	rhs = (X[..., 1:, :] ** 2).sum(-1) - (X[..., :1, :] ** 2).sum(-1)
	if np.all(np.linalg.cond(A) < 30) and np.all(np.abs(np.linalg.det(A)) > .05):
		centre = np.linalg.solve(A, rhs[..., None])[..., 0]
		q = call(lambda: cga.normalize(S.dual()))
		near(mon, 'conformal/circumsphere', pos(call(lambda: S >> cga.ni)), centre, 1e-6, label='centre of the sphere through points')
		near(mon, 'conformal/circumsphere', scalar(call(q.squared)), ((x - centre) ** 2).sum(-1), 1e-6, label='squared radius of the sphere through points')
	# hyperplane through n points and infinity reflects
	if n > 1:
		F = P[0]
		for p in P[1:n]:
			F = call(lambda: F ^ p)
		F = call(lambda: F ^ cga.ni)
		E = np.moveaxis(X[..., 1:n, :] - X[..., :1, :], -1, -2)
		u = X[..., n, :]
		Gm = np.swapaxes(E, -1, -2) @ E
		if np.all(np.linalg.cond(Gm) < 100):
			d = u - x
			proj = (E @ np.linalg.inv(Gm) @ np.swapaxes(E, -1, -2) @ d[..., None])[..., 0]
			near(mon, 'conformal/mirror', pos(call(lambda: F >> P[n])), x + 2 * proj - d, 1e-6, label='point reflected in a plane')
	# pairs of points come apart again
	# (generic points of the plane, and any points of space, are a known finding: t_known)
	if not inplace and n < 3 and np.all(((y - x) ** 2).sum(-1) > .05):
		if n == 2:
			x = np.round(x * 4) / 4
			y = x + np.where(np.round(y * 2) == 0, 1, np.round(y * 2)) / 2
			a, b = emb(x), emb(y)
		ab = call(lambda: cga.split_points((a ^ b)[(slice(None),) * len(shape) + (None,)]))
		got = gen.to_np(call(lambda: cga.point_position(cga.normalize(ab))).values)
		got = np.moveaxis(got, -2, 0)
		order = np.abs(got[0] - x).sum(-1) <= np.abs(got[1] - x).sum(-1)
		l = np.where(order[..., None], got[0], got[1])
		m = np.where(order[..., None], got[1], got[0])
		near(mon, 'conformal/split', np.stack([l, m]), np.stack([x, y]), 1e-6, label='points of a pair')
	# translations as versors
	t = rng.normal(size=shape + (n,))
	T = call(lambda: ((ctx.multivector.euclidian(t) ^ cga.ni) * -.5).exp())
	near(mon, 'conformal/translate', pos(call(lambda: T >> a)), x + t, 1e-7, label='translated point')
	# scaling about the origin
	k = rng.uniform(.5, 2, size=shape + (1,))
	D = call(lambda: (cga.N * gen.mk(ctx, ctx.subspace.scalar(), np.log(k) / 2)).exp())
	z = pos(call(lambda: D >> a))
	near(mon, 'conformal/scale', np.abs(z), np.abs(np.where(np.abs(z).sum(-1, keepdims=True) > np.abs(x).sum(-1, keepdims=True), np.maximum(k, 1 / k), np.minimum(k, 1 / k)) * x), 1e-6, label='scaled point')
