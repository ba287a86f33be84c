"""Decompositions of bivectors and motors"""
import numpy as np

from vf import backends, gen, numeric, oplib
from vf.checks.c13 import guarded
from vf.checks.c14 import real_root
from vf.checks.c15 import generator, support_space
from vf.gen import rng_of
from vf.harness import Skip
from vf.ref import Ref, popcount

RULE = ('random algebras of every signature up to 4 generators and samples with 5, the null generator at any position; bivectors over full and partial sets of blades whose square is regular by a margin, '
	'including ones that are simple only at runtime, and normalized motors with canonical, transported and scaled origins; an observation is one decomposition, checked by recomposition and by the '
	'defining properties of the parts with the reference model; distinct by (function, signature, subspace)')
REQUIRED = {'invariant': 100, 'invariant/bisimple': 25, 'invariant/runtime_simple': 7, 'polar': 50, 'polar/zero': 20, 'translator': 37, 'split': 75, 'split/euclidean': 12, 'split/moved': 20, 'split/blade': 20}
BUDGET = dict(quick=400, thorough=600)


def jobs(tier, seed):
	rng = rng_of('C17', seed, 'jobs')
	q = tier == 'quick'
	specs = []
	for n in (2, 3, 4):
		specs += [gen.spec_of(s, rng) for s in gen.all_sigs(n)]
	five = gen.all_sigs(5)
	specs += [gen.spec_of(five[i], rng) for i in rng.permutation(243)[:48 if q else 243]]
	for n in (2, 3, 4, 5):
		for i in range(n):
			specs.append(gen.spec_of((1,) * i + (0,) + (1,) * (n - 1 - i), rng))
	specs = [specs[i] for i in rng.permutation(len(specs))]
	js = []
	for rep in range(2 if q else 10):
		for i in range(0, len(specs), 6):
			js.append(dict(kind='numpy', specs=specs[i:i + 6], cases=6 if q else 10, seed=['C17', seed, rep, i], essential=rep == 0))
	for r in range(1 if q else 10):
		js.append(dict(kind='torch', specs=[numeric.random_spec(rng, [2, 3, 4, 5], 1) for _ in range(8)], cases=3, seed=['C17', seed, 'b', r], essential=r < 1))
		js.append(dict(kind='jax', specs=[numeric.random_spec(rng, [3, 4], 1)], cases=1, seed=['C17', seed, 'j', r], essential=r < 1))
	return js


def run(job, mon):
	for i, spec in enumerate(job['specs']):
		rng = rng_of(*job['seed'], i)
		mon.case(spec=spec)
		try:
			alg = mon.call('construct', gen.build_algebra, spec)
			ref = Ref(spec['sig'])
			ctx = mon.call('context', backends.make, dict(numpy='numpy/Einsum/float64', torch='torch/Einsum/float64', jax='jax/Einsum/float64')[job['kind']], alg)
			for c in range(job['cases']):
				for f in (bivector, translator, split):
					guarded(f, mon, ctx, ref, rng)
		except Skip:
			pass


def close(mon, key, got, want, scale, tol, msg):
	e = np.abs(got - want).max(-1) / np.maximum(scale, 1e-300)
	mon.check(not np.any(~(e <= tol)), key, lambda: f'{msg}: error {np.ravel(e)}')


def bivector(mon, ctx, ref, rng):
	shape = [(4,), (2, 2), (1,)][rng.integers(3)]
	b = generator(ref, rng, shape, float(rng.choice([.01, 1, 20])))
	simple = np.zeros(shape, bool)
	if rng.random() < 0.5:
		# plane, in general position
		u, v = np.zeros(shape + (ref.N,)), np.zeros(shape + (ref.N,))
		V = [1 << i for i in range(ref.n)]
		u[..., V], v[..., V] = rng.normal(size=(2,) + shape + (ref.n,))
		w = numeric.mul(ref, u, v)
		w = (w - numeric.rev(ref, w)) / 2
		simple.flat[0] = True
		b[simple] = w[simple]
	masks = numeric.support(ref, b)
	if not masks or rng.random() < 0.4:
		masks = set(numeric.grade_masks(ref, 2))
	S = gen.subspace(ctx.algebra, masks, rng)
	sq = numeric.mul(ref, b, b)
	mag = np.abs(b).max(-1) ** 2
	ns = sq.copy()
	ns[..., 0] = 0
	rad = sq[..., 0] ** 2 - numeric.mul(ref, ns, ns)[..., 0]
	good = (rad > 0.02 * mag ** 2) & (mag > 1e-12)
	if not any(x & y == 0 for x in masks for y in masks):
		# always simple
		good = mag > -1
	b, sq, mag, simple = b[good], sq[good], mag[good], simple[good]
	if not len(b):
		return
	shape = (len(b),)
	s = np.sqrt(mag)
	mon.case(signature=list(ref.sig), subspace=S.named_str, b=b)
	mon.sample(dict(signature=ref.sig, subspace=S.named_str, b=b[0]))
	B = numeric.carried(ctx, ref, b, S)
	out = mon.call('decompose_invariant', B.decompose_invariant)
	l, r = (numeric.dense(ref, x, shape if len(x.subspace) else shape) for x in out)
	mon.count('invariant', len(b))
	if any(x & y == 0 for x in masks for y in masks):
		mon.count('invariant/bisimple', int((~simple).sum()))
		mon.count('invariant/runtime_simple', int(simple.sum()))
	mon.seen('invariant', ref.sig, S.blades.tobytes())
	for x in out:
		mon.check(all(popcount(int(k)) == 2 for k in x.subspace.blades), 'decompose_invariant/grade', f'part in {x.subspace.named_str}')
	t = f'decompose_invariant of {S.named_str} in {ref.sig}'
	close(mon, 'decompose_invariant/sum', l + r, b, s, 1e-10, t + ': l + r differs from b')
	mm = lambda a, c: numeric.mul(ref, a, c)
	close(mon, 'decompose_invariant/commute', mm(l, r), mm(r, l), mag, 1e-8, t + ': parts do not commute')
	for x in (l, r):
		q = mm(x, x)
		close(mon, 'decompose_invariant/simple', q, q * (np.arange(ref.N) == 0), mag, 1e-7, t + ': part is not simple')
	close(mon, 'decompose_invariant/orthogonal', mm(l, r)[..., :1], 0 * b[..., :1], mag, 1e-8, t + ': parts not orthogonal')
	# polar
	ok = real_root(ref, -sq)
	if not ok.any():
		return
	b, sq, s, mag = b[ok], sq[ok], s[ok], mag[ok]
	P = mon.call('decompose_polar', numeric.carried(ctx, ref, b, S).decompose_polar)
	L, T = (numeric.dense(ref, x, (len(b),)) for x in P)
	mon.count('polar', len(b))
	mon.seen('polar', ref.sig, S.blades.tobytes())
	t = f'decompose_polar of {S.named_str} in {ref.sig}'
	mon.check(all(popcount(int(k)) == 2 for k in P[0].subspace.blades), 'decompose_polar/grade', f'part in {P[0].subspace.named_str}')
	close(mon, 'decompose_polar/product', mm(L, T), b, s, 1e-8, t + ': L s differs from b')
	close(mon, 'decompose_polar/unit', -mm(L, L), numeric.one(ref, (len(b),)), 1, 1e-7, t + ': L is not a unit line')
	close(mon, 'decompose_polar/study', mm(T, T), -sq, mag, 1e-8, t + ': s s differs from b ~b')
	# entries that happen to be zero, next to others
	z = np.concatenate([b, 0 * b[:1]])[rng.permutation(len(b) + 1)]
	P = mon.call('decompose_polar', numeric.carried(ctx, ref, z, S).decompose_polar)
	Z = [numeric.dense(ref, x, (len(z),)) for x in P]
	mon.count('polar/zero')
	close(mon, 'decompose_polar/zero', mm(*Z), z, np.maximum(np.abs(z).max(-1), s.min()), 1e-8, t + ': L s differs from b, where one entry is zero')
	# reassembled; both parts of the invariant decomposition follow from s
	close(mon, 'decompose_polar/commute', mm(L, T), mm(T, L), s, 1e-8, t + ': L and s do not commute')


def translator(mon, ctx, ref, rng):
	if ref.sig.count(0) > 1:
		return
	shape = [(4,), (2, 2)][rng.integers(2)]
	m = numeric.motors(ref, rng, shape, 1.0, int(rng.integers(1, 3)))
	S, masks = support_space(ctx, ref, rng, m)
	if rng.random() < 0.3:
		# pure rotations or translations
		keep = np.array([(not ref.is_deg(k)) for k in range(ref.N)])
		if rng.random() < 0.5:
			m = m * keep
		elif ref.sig.count(0):
			m = numeric.mul(ref, m, numeric.rev(ref, m * keep))
		S, masks = support_space(ctx, ref, rng, m)
	M = numeric.carried(ctx, ref, m, S)
	mon.case(signature=list(ref.sig), subspace=S.named_str, m=m)
	t, r = mon.call('motor_translator', M.motor_translator), mon.call('motor_rotor', M.motor_rotor)
	k = int(np.prod(shape))
	T, R = numeric.dense(ref, t), numeric.dense(ref, r)
	T, R = np.broadcast_to(T, shape + (ref.N,)), np.broadcast_to(R, shape + (ref.N,))
	mon.count('translator', k)
	mon.seen('translator', ref.sig, S.blades.tobytes())
	one = numeric.one(ref, shape)
	x = f'on {S.named_str} in {ref.sig}'
	close(mon, 'translator/product', numeric.mul(ref, T, R), m, 1, 1e-8, 'translator times rotor differs from motor ' + x)
	close(mon, 'translator/unit', numeric.mul(ref, T, numeric.rev(ref, T)), one, 1, 1e-8, 'translator not normalized ' + x)
	close(mon, 'rotor/unit', numeric.mul(ref, R, numeric.rev(ref, R)), one, 1, 1e-8, 'rotor not normalized ' + x)
	bad = [z for z in range(1, ref.N) if np.any(np.abs(T[..., z]) > 1e-9) and not (popcount(z) == 2 and ref.is_deg(z))]
	mon.check(not bad, 'translator/pure', f'translator has components {bad} {x}')
	bad = [z for z in range(1, ref.N) if np.any(np.abs(R[..., z]) > 1e-9) and ref.is_deg(z)]
	mon.check(not bad, 'rotor/pure', f'rotor has components {bad} {x}')


def split(mon, ctx, ref, rng):
	"""t r = m; r leaves o in place; t, r normalized; their logarithms orthogonal"""
	if ref.sig.count(0) > 1:
		return
	shape = (4,)
	m = numeric.motors(ref, rng, shape, 0.8, 1)
	null = [i for i in range(ref.n) if ref.sig[i] == 0]
	i = null[0] if null else int(rng.integers(ref.n))
	# origin: everything but generator i
	full = ref.N - 1
	o = np.zeros(shape + (ref.N,))
	o[..., full ^ (1 << i)] = rng.choice([-1, 1]) * (1 if rng.random() < .7 else rng.uniform(.3, 3))
	kind = 'euclidean' if null else 'blade'
	if rng.random() < 0.4:
		g = numeric.motors(ref, rng, shape, 0.8, 1)
		o = numeric.mul(ref, numeric.mul(ref, g, o), numeric.rev(ref, g))
		kind = 'moved'
	S, masks = support_space(ctx, ref, rng, m)
	omasks = numeric.support(ref, o)
	if kind == 'moved' and rng.random() < 0.5:
		omasks = set(numeric.grade_masks(ref, ref.n - 1))
	O = gen.subspace(ctx.algebra, omasks, rng)
	# the motion of the origin stays away from half a turn
	rm = numeric.rev(ref, m)
	mo = numeric.mul(ref, numeric.mul(ref, m, o), rm)
	q = numeric.mul(ref, o, o)[..., 0]
	if np.any(np.abs(q) < 1e-3):
		return
	rel = numeric.mul(ref, mo, o) / q[..., None]
	x = rel + numeric.one(ref, shape)
	if not real_root(ref, numeric.mul(ref, x, numeric.rev(ref, x)), 0.1).all():
		return
	mon.case(signature=list(ref.sig), subspace=S.named_str, origin=O.named_str, m=m, o=o)
	out = mon.call('motor_split', lambda: numeric.carried(ctx, ref, m, S).motor_split(numeric.carried(ctx, ref, o, O)))
	T, R = (np.broadcast_to(numeric.dense(ref, y), shape + (ref.N,)) for y in out)
	mon.count('split', len(m))
	mon.count('split/' + kind, len(m))
	mon.seen('split', ref.sig, S.blades.tobytes(), O.blades.tobytes())
	one = numeric.one(ref, shape)
	w = f'{S.named_str} about {O.named_str} in {ref.sig}'
	rv = lambda a: numeric.rev(ref, a)
	mm = lambda a, c: numeric.mul(ref, a, c)
	close(mon, 'motor_split/product', mm(T, R), m, 1, 1e-7, 't r differs from m; ' + w)
	close(mon, 'motor_split/invariant', mm(mm(R, o), rv(R)), o, np.abs(o).max(-1), 1e-6, 'r moves the origin; ' + w)
	close(mon, 'motor_split/unit', mm(T, rv(T)), one, 1, 1e-6, 't not normalized; ' + w)
	close(mon, 'motor_split/unit', mm(R, rv(R)), one, 1, 1e-6, 'r not normalized; ' + w)
	# t moves the origin as m does, along the shortest path: o reverses it
	close(mon, 'motor_split/shortest', mm(mm(o, T), o) / q[..., None], rv(T), 1, 1e-6, 't is not the shortest motion; ' + w)
