"""Rigid bodies"""
import numpy as np

from vf import backends, gen, numeric, ref as R
from vf.checks.c13 import guarded
from vf.gen import rng_of
from vf.harness import Skip
from vf.ref import Ref

RULE = ('point clouds, motions, rates, damping and gravity drawn at random in geometries of two to five generators (origin at any generator, flat, spherical and hyperbolic), single bodies, batches and chains with constraints, '
	'simulated on all backends. An observation is an inertia map, a state along a trajectory, or a pair of trajectories related by a frame change, a batch split or a backend; distinct by (monitor, signature, backend, cloud size)')
REQUIRED = {'partial': 120, 'inertia': 150, 'ode': 12, 'free': 12, 'frame': 12, 'batch': 15, 'impulses': 25, 'chain': 8, 'backend': 8, 'states': 500}
BUDGET = dict(quick=300, thorough=640)
ALARM = 300

# geometries with a nondegenerate notion of mass: at most one null generator
GEOMETRIES = [(1, 0), (1, 1), (1, 1, 0), (1, 1, 1), (1, 1, -1), (1, 1, 1, 0), (1, 1, 1, 1), (1, 1, 1, -1)]
CHAINS = [(1, 1), (1, 0), (1, 1, 0), (1, 1, 1), (1, 1, 1, 0), (1, 1, 1, 1)]    # flat and spherical


def jobs(tier, seed):
	q = tier == 'quick'
	js = []
	for kind, n, cases in (('inertia', 4, 60), ('ode', 4, 5), ('free', 4, 6), ('frame', 4, 6), ('batch', 3, 8), ('impulses', 3, 12), ('chain', 4, 3), ('backend', 8, 2), ('steppers', 2, 4)):
		for r in range(n * (1 if q else 6)):
			js.append(dict(kind=kind, r=r, seed=['C22', seed, kind, r], cases=cases, essential=r == 0))
	js.append(dict(kind='known', r=0, seed=['C22', 'known'], cases=1, essential=True))
	return sorted(js, key=lambda j: not j['essential'])


REST = []


def watch():
	"""Record when constrained anchors are exactly at relative rest, where the impulse is zero divided by zero (a known finding)"""
	from numga.examples.physics.core import Constraint
	inner = Constraint.distribute_forque
	def distribute_forque(self, directions, magnitude, *args):
		try:
			rest = bool(np.any(gen.to_np(magnitude.values) == 0))
		except Exception:    # traced values
			rest = False
		if rest:
			REST.append(1)
		return inner(self, directions, magnitude, *args)
	Constraint.distribute_forque = distribute_forque


def run(job, mon):
	rng = rng_of(*job['seed'])
	if job['kind'] in ('chain', 'backend'):
		watch()
	for c in range(job['cases']):
		guarded(globals()['t_' + job['kind']], mon, rng, c, tuple(job['seed']))


class Scene:
	"""an algebra with one generator chosen as origin, and random bodies in it"""
	def __init__(self, rng, sigs=GEOMETRIES, backend=None, shuffle=True):
		sig = sigs[rng.integers(len(sigs))]
		order = list(rng.permutation(len(sig))) if shuffle else list(range(len(sig)))
		self.sig = tuple(sig[i] for i in order)
		self.origin = order.index(len(sig) - 1)
		self.ref = Ref(self.sig)
		self.n = len(sig)
		self.alg = gen.build_algebra(dict(style='shuffled', sig=list(self.sig), names=[chr(97 + i) for i in rng.permutation(26)[:self.n]], cut=0))
		self.backend = backend or ['numpy/Einsum/float64', 'numpy/Sparse/float64'][rng.integers(2)]
		self.ctx = backends.make(self.backend, self.alg)

	def cloud(self, rng, shape, integer=False):
		"""points as reference elements and as a multivector"""
		k = int(rng.integers(self.n + 2, 3 * self.n + 3))
		v = np.zeros(tuple(shape) + (k, self.n))
		v[...] = rng.integers(-3, 4, size=v.shape) if integer else rng.normal(size=v.shape) * .5
		v[..., self.origin] = 1 if integer or self.sig[self.origin] == 0 else 1 + 0 * v[..., self.origin]
		r = self.ref.rhodge_inv({1 << i: v[..., i] for i in range(self.n)})
		S = self.ctx.subspace.antivector()
		return r, gen.mk(self.ctx, S, np.stack([r[int(b)] for b in S.blades], -1))

	def bodies(self, rng, shape, rates=.6, forced=True):
		from numga.examples.physics.core import Body
		for _ in range(50):
			r, p = self.cloud(rng, shape)
			if np.all(np.linalg.cond(self.matrix(r)) < 300):
				break
		else:
			raise Skip()
		body = Body.from_point_cloud(points=p)
		m = numeric.motors(self.ref, rng, shape, .8, 2)
		b = numeric.bivectors(self.ref, rng, shape, rates)
		one = self.ctx.multivector.scalar(np.ones(tuple(shape) + (1,)))
		kw = dict(motor=numeric.carried(self.ctx, self.ref, m, body.motor.subspace), rate=numeric.carried(self.ctx, self.ref, b, body.rate.subspace))
		if forced:
			g = numeric.dense_ref(self.ref, self.ref.rhodge_inv({1 << i: rng.normal(size=shape) * .2 for i in range(self.n) if i != self.origin}), tuple(shape))
			kw.update(damping=one * rng.uniform(0, .3), gravity=numeric.carried(self.ctx, self.ref, g, self.ctx.subspace.antivector()))
		return body.copy(**kw), r

	# independent mechanics
	def momentum_of(self, r, rate):
		"""sum over points of  p v (p x rate)"""
		ref = self.ref
		rate = {m: np.asarray(v)[..., None] for m, v in rate.items()}
		j = ref.regressive(r, ref.commutator(r, rate))
		return {m: np.sum(np.broadcast_to(v, v.shape), axis=-1) for m, v in j.items() if R.popcount(m) == ref.n - 2}

	def matrix(self, r):
		"""inertia as a matrix from bivector to antibivector coefficients"""
		B = numeric.grade_masks(self.ref, 2)
		A = numeric.grade_masks(self.ref, self.n - 2)
		cols = []
		for b in B:
			j = self.momentum_of(r, {b: np.ones(next(iter(r.values())).shape[:-1])})
			cols.append(np.stack([np.asarray(j.get(a, 0.)) + np.zeros(next(iter(r.values())).shape[:-1]) for a in A], -1))
		return np.stack(cols, -1)

	def label(self):
		return dict(signature=list(self.sig), origin=self.origin, backend=self.backend)


def arr(x):
	return gen.to_np(x.values)


def close(mon, key, a, b, tol, label):
	a, b = np.asarray(a), np.asarray(b)
	scale = max(1., float(np.max(np.abs(b), initial=0.)))
	ok = a.shape == b.shape and np.all(np.abs(a - b) <= tol * scale)
	return mon.check(ok, key, lambda: f'{label}: {np.round(a, 12).tolist()} against {np.round(b, 12).tolist()}')


def t_inertia(mon, rng, c, seed):
	s = Scene(rng, sigs=GEOMETRIES + [(1, 1, 1, 1, 0), (1, 1, 1, 1, 1), (1, 1, 1, -1, 0)] if c % 12 == 0 else GEOMETRIES)
	ref, ctx = s.ref, s.ctx
	shape = [(), (2,), (2, 1)][rng.integers(3)]
	r, p = s.cloud(rng, shape, integer=True)
	mon.case(**s.label(), points=arr(p))
	mon.count('inertia')
	mon.seen('inertia', s.sig, s.backend, shape, arr(p).shape)
	maps = mon.call('inertia', lambda: p.inertia_map())
	I = mon.call('inertia', lambda: maps.sum(axis=-3))
	rate = {m: gen.ints(rng, shape) for m in numeric.grade_masks(ref, 2)}
	x = gen.mk(ctx, ctx.subspace.bivector(), np.stack([rate[int(b)] for b in ctx.subspace.bivector().blades], -1))
	got = mon.call('inertia', lambda: I(x))
	d = gen.diff(got, s.momentum_of(r, rate))
	mon.check(d is None, 'inertia', lambda: f'momentum of a rate: {d}')
	# points and rates stored on any of their blades
	Sp = gen.subspace(s.alg, gen.some(rng, numeric.grade_masks(ref, s.n - 1)), rng)
	Sb = gen.subspace(s.alg, gen.some(rng, numeric.grade_masks(ref, 2)), rng)
	part = gen.mk(ctx, Sp, gen.ints(rng, shape + (1, len(Sp))))
	xp = gen.mk(ctx, Sb, gen.ints(rng, shape + (len(Sb),)))
	got_part = mon.call('inertia', lambda: part.inertia_map(Sb).sum(axis=-3)(xp))
	mon.count('partial')
	d = gen.diff(got_part, s.momentum_of(gen.to_ref(part), gen.to_ref(xp)))
	mon.check(d is None, 'inertia/partial', lambda: f'momentum of a point on {Sp.named_str} at a rate on {Sb.named_str}: {d}')
	y = gen.mk(ctx, ctx.subspace.bivector(), gen.ints(rng, shape + (len(ctx.subspace.bivector()),)))
	a, b = mon.call('inertia', lambda: (I(x) & y, I(y) & x))
	mon.check(np.array_equal(arr(a), arr(b)), 'symmetric', lambda: f'I(x)&y = {arr(a).tolist()}, I(y)&x = {arr(b).tolist()}')
	pre = (slice(None),) * len(shape)
	# additive over the cloud
	k = int(rng.integers(1, arr(p).shape[-2]))
	i1, i2 = mon.call('inertia', lambda: (p[pre + (slice(None, k),)].inertia_map().sum(axis=-3), p[pre + (slice(k, None),)].inertia_map().sum(axis=-3)))
	t = mon.call('inertia', lambda: i1(x) + i2(x))
	mon.check(np.array_equal(arr(t), arr(got)), 'additive', lambda: f'parts {arr(t).tolist()}, whole {arr(got).tolist()}')
	M = s.matrix(r)
	if np.all(np.linalg.cond(M) < 1e4):
		J = mon.call('inertia', I.inverse)
		close(mon, 'inverse', arr(mon.call('inertia', lambda: J(I(x)))), arr(x), 1e-9, 'inverse inertia of the momentum of a rate')
		close(mon, 'inverse', arr(mon.call('inertia', lambda: I(J(got)))), arr(got), 1e-9, 'momentum of the rate of a momentum')
	if ref.sig[s.origin] == 0:
		# the same body at another scale
		k = 2. ** int(rng.integers(-12, 13))
		S = p.subspace
		w = np.where([int(b) == (ref.N - 1) ^ (1 << s.origin) for b in S.blades], 1., k)
		q = gen.mk(ctx, S, arr(p) * w)
		Iq = mon.call('inertia', lambda: q.inertia_map().sum(axis=-3))
		cond = np.max(np.linalg.cond(s.matrix({m: v * (1. if m == (ref.N - 1) ^ (1 << s.origin) else k) for m, v in r.items()})))
		if cond < 1e10:
			mon.count('scaled')
			back = arr(mon.call('inertia', lambda: Iq.inverse()(Iq(x))))
			close(mon, 'inverse/scaled', back, arr(x), 1e-13 * cond + 1e-9, f'inverse inertia of the momentum of a rate, of a body scaled by {k}')
	# a moved cloud
	m = numeric.motors(ref, rng, shape, .8, 2)
	G = numeric.carried(ctx, ref, m, ctx.subspace.even_grade())
	moved = mon.call('inertia', lambda: (G[pre + (None,)] >> p).inertia_map().sum(axis=-3))
	close(mon, 'covariant', arr(mon.call('inertia', lambda: moved(G >> x))), arr(mon.call('inertia', lambda: G >> I(x))), 1e-9, 'momentum of a moved body')
	from numga.examples.physics.core import Body
	if np.all(np.linalg.cond(M) < 1e4):
		body = mon.call('body', lambda: Body.from_point_cloud(points=p))
		e = mon.call('body', lambda: body.copy(rate=x).kinetic_energy())
		w = gen.to_ref(x)
		d = gen.diff(e, ref.regressive(s.momentum_of(r, rate), w))
		mon.check(d is None, 'energy', lambda: f'kinetic energy: {d}')
		d = gen.diff(body.first_moment, {k: v.sum(-1) for k, v in r.items()})
		mon.check(d is None, 'first_moment', lambda: f'first moment: {d}')


def accelerations(s, r, damping, gravity, Iinv, I):
	"""independent equations of motion of one body, on dense arrays [N] + [N]"""
	ref = s.ref
	B = numeric.grade_masks(ref, 2)
	A = numeric.grade_masks(ref, s.n - 2)
	first = {k: v.sum(-1) for k, v in r.items()}

	def f(t, z):
		m = {k: z[i] for i, k in enumerate(range(ref.N)) if z[i]} or {0: 0.}
		w = {b: z[ref.N + i] for i, b in enumerate(B)}
		mom = {a: v for a, v in zip(A, I @ z[ref.N:])}
		local = ref.prods(ref.rev(m), gravity, m)
		local = {k: v for k, v in local.items() if k in gravity_masks}
		force = R.add(R.scale(ref.rhodge(R.scale(w, damping)), -1.), ref.regressive(first, local))
		force = R.sub(force, ref.commutator(mom, w))
		dw = Iinv @ np.array([float(force.get(a, 0.)) for a in A])
		dm = R.scale(ref.mul(m, w), -.5)
		return np.concatenate([[float(dm.get(k, 0.)) for k in range(ref.N)], dw])
	gravity_masks = numeric.grade_masks(ref, s.n - 1)
	return f


def normalized(mon, s, motor, key='normalized', tol=1e-9):
	"""the motor is a versor of unit norm"""
	a = numeric.dense(s.ref, motor)
	p = numeric.mul(s.ref, a, numeric.rev(s.ref, a))
	scale = np.maximum(1., (a ** 2).sum(-1, keepdims=True))
	mon.count('states', int(np.prod(a.shape[:-1])))
	mon.check(np.all(np.abs(p - numeric.one(s.ref, a.shape[:-1])) <= tol * scale), key, lambda: f'motor {a.tolist()} times its reverse is {np.round(p, 10).tolist()}')


def t_ode(mon, rng, c, seed):
	"""trajectories converge to the solution of the equations of motion"""
	import scipy.integrate
	s = Scene(rng)
	body, r = s.bodies(rng, ())
	ref = s.ref
	mon.case(**s.label(), motor=arr(body.motor), rate=arr(body.rate), gravity=arr(body.gravity), damping=arr(body.damping), points=np.stack(list(r.values()), -1))
	mon.count('ode')
	mon.seen('ode', s.sig, s.backend)
	I = s.matrix(r)
	B = numeric.grade_masks(ref, 2)
	f = accelerations(s, r, float(arr(body.damping)[0]), gen.to_ref(body.gravity), np.linalg.inv(I), I)
	z = np.concatenate([numeric.dense(ref, body.motor), numeric.dense(ref, body.rate)[B]])
	T = .4
	sol = scipy.integrate.solve_ivp(f, (0, T), z, rtol=1e-9, atol=1e-11, max_step=T / 10)
	want = sol.y[:, -1]
	size = np.max(np.abs(sol.y))
	if not sol.success or size > 30:
		return
	errors = []
	for k in (10, 20, 40, 80):
		b = body
		for _ in range(k):
			b = mon.call('ode', b.integrate, T / k)
		normalized(mon, s, b.motor)
		got = np.concatenate([numeric.dense(ref, b.motor), numeric.dense(ref, b.rate)[B]])
		errors.append(float(np.max(np.abs(got - want))))
	mon.check(errors[-1] < .02 * size and (errors[-1] < .5 * errors[0] or errors[0] < 1e-6), 'ode', lambda: f'distance to the solution of the equations of motion for 10, 20, 40, 80 steps: {errors}, size {size}')
	mon.sample(dict(sig=s.sig, errors=errors))
	# the rate equation by itself is integrated to high order
	from numga.examples import integrators
	g = lambda t, w: f(0, np.concatenate([z[:ref.N], w]))[ref.N:]
	sol = scipy.integrate.solve_ivp(g, (0, .2), z[ref.N:], rtol=1e-11, atol=1e-13)
	for name, k, order in (('RK1', 40, 1), ('RK4', 4, 4), ('RK8', 2, 8)):
		errs = []
		for steps in (k, 2 * k):
			w = body.rate
			for _ in range(steps):
				w = mon.call('rk', lambda: getattr(integrators, name)(lambda q: body.copy(rate=q).rate_derivative(), w, .2 / steps))
			errs.append(float(np.max(np.abs(numeric.dense(ref, w)[B] - sol.y[:, -1]))))
		mon.check(errs[1] < 1e-8 or errs[1] < .8 * errs[0] * .6 ** (order - 1), 'rk/order', lambda: f'{name}: errors {errs} for {k} and {2 * k} steps')


def world_momentum(s, body):
	return numeric.dense(s.ref, body.motor >> body.inertia(body.rate))


def t_free(mon, rng, c, seed):
	"""no forces: momentum and energy are kept to the order of the method"""
	s = Scene(rng)
	shape = [(), (3,)][rng.integers(2)]
	body, r = s.bodies(rng, shape, forced=False)
	body = body.copy(gravity=body.gravity * 0)
	mon.case(**s.label(), motor=arr(body.motor), rate=arr(body.rate), points=np.stack(list(r.values()), -1))
	mon.count('free')
	mon.seen('free', s.sig, s.backend, shape)
	p0, e0 = mon.call('free', lambda: (world_momentum(s, body), arr(body.kinetic_energy())))
	T, out = .5, []
	for k in (10, 40):
		b, dp, de = body, 0., 0.
		for _ in range(k):
			b = mon.call('free', b.integrate, T / k)
			normalized(mon, s, b.motor)
			dp = max(dp, float(np.max(np.abs(world_momentum(s, b) - p0))))
			de = max(de, float(np.max(np.abs(arr(b.kinetic_energy()) - e0))))
		out.append((dp, de, float(np.max(np.abs(arr(b.rate))))))
	size = max(1e-3, float(np.max(np.abs(p0))))
	if out[1][2] > 5:
		return
	mon.check(out[1][0] < .1 * size and (out[1][0] < .45 * out[0][0] or out[0][0] < 1e-9), 'free/momentum', lambda: f'momentum drift for 10 and 40 steps: {[o[0] for o in out]} of {size}')
	mon.check(out[1][1] < 1e-4 * max(1e-3, float(np.max(np.abs(e0)))) * max(1, out[1][2]) ** 4, 'free/energy', lambda: f'energy drift for 10 and 40 steps: {[o[1] for o in out]} of {e0.tolist()}')


def t_frame(mon, rng, c, seed):
	"""the same scene described in another frame, and another relabelled body frame"""
	s = Scene(rng)
	shape = [(), (2,)][rng.integers(2)]
	body, r = s.bodies(rng, shape)
	ref, ctx = s.ref, s.ctx
	mon.case(**s.label(), motor=arr(body.motor), rate=arr(body.rate), points=np.stack(list(r.values()), -1))
	mon.count('frame')
	mon.seen('frame', s.sig, s.backend, shape)
	G = numeric.carried(ctx, ref, numeric.motors(ref, rng, (), .7, 2), ctx.subspace.even_grade())
	a, b = body, mon.call('frame', lambda: body.copy(motor=G * body.motor, gravity=G >> body.gravity))
	pre = (slice(None),) * len(shape)
	# body frame moved by H: cloud H>>p, motor M*~H, rate H>>rate
	from numga.examples.physics.core import Body
	H = numeric.carried(ctx, ref, numeric.motors(ref, rng, shape, .5, 2), ctx.subspace.even_grade())
	S = ctx.subspace.antivector()
	p = gen.mk(ctx, S, np.stack([r[int(k)] for k in S.blades], -1))
	d = mon.call('frame', lambda: Body.from_point_cloud(points=H[pre + (None,)] >> p).copy(motor=body.motor * H.reverse(), rate=H >> body.rate, gravity=body.gravity, damping=body.damping * 0))
	a2 = body.copy(damping=body.damping * 0)
	for _ in range(12):
		a, b = mon.call('frame', lambda: (a.integrate(.05), b.integrate(.05)))
		a2, d = mon.call('frame', lambda: (a2.integrate(.05), d.integrate(.05)))
		normalized(mon, s, b.motor)
	if max(np.max(np.abs(arr(x.motor))) for x in (a, b, a2, d)) > 50:
		return
	close(mon, 'frame/motor', arr(b.motor), arr(G * a.motor), 1e-8, 'motor in a moved world')
	close(mon, 'frame/rate', arr(b.rate), arr(a.rate), 1e-8, 'local rate in a moved world')
	close(mon, 'frame/local_motor', arr(d.motor), arr(a2.motor * H.reverse()), 1e-7, 'motor relative to another body frame')
	close(mon, 'frame/local_rate', arr(d.rate), arr(H >> a2.rate), 1e-7, 'rate in another body frame')


def same_body(mon, key, a, b, tol, label):
	for f in ('motor', 'rate', 'first_moment', 'damping', 'gravity'):
		close(mon, f'{key}/{f}', arr(getattr(a, f)), arr(getattr(b, f)), tol, f'{label}: {f}')


def t_batch(mon, rng, c, seed):
	s = Scene(rng)
	shape = [(4,), (3,), (2, 2)][rng.integers(3)]
	body, r = s.bodies(rng, shape)
	mon.case(**s.label(), shape=shape)
	mon.count('batch')
	mon.seen('batch', s.sig, s.backend, shape)
	def go(b, n=5):
		for _ in range(n):
			b = b.integrate(.04)
		return b
	whole = mon.call('batch', go, body)
	for i in np.ndindex(*shape):
		same_body(mon, 'batch/entry', mon.call('batch', lambda: go(body[i])), whole[i], 1e-12, f'entry {i} by itself')
	idx = rng.integers(shape[0], size=3)
	same_body(mon, 'batch/gather', mon.call('batch', lambda: go(body[idx])), whole[idx], 1e-12, f'entries {idx.tolist()}')
	k = int(rng.integers(1, shape[0]))
	joined = mon.call('batch', lambda: body[k:].concatenate(body[:k]))
	want = mon.call('batch', lambda: whole[k:].concatenate(whole[:k]))
	same_body(mon, 'batch/concatenate', mon.call('batch', go, joined), want, 1e-12, 'concatenated batches')


def random_constraints(s, rng, body, n_bodies, n, compliance=0.):
	"""pairs of bodies that share a point of the world"""
	from numga.examples.physics.core import Constraint
	idx = rng.permutation(n_bodies)[:2 * n].reshape(2, n)
	S = s.ctx.subspace.antivector()
	v = rng.normal(size=(1, n, s.n)) * .4
	v[..., s.origin] = 1
	p = s.ref.rhodge_inv({1 << i: v[..., i] for i in range(s.n)})
	world = gen.mk(s.ctx, S, np.stack([p[int(b)] for b in S.blades], -1))
	if s.sig[s.origin] != 0:
		world = world.normalized()
	return Constraint(idx, body.motor[idx] << world, s.ctx.multivector.scalar(np.full((n, 1), compliance))), idx


def t_impulses(mon, rng, c, seed):
	"""exchanged impulses conserve total momentum and bring the anchors together"""
	s = Scene(rng, sigs=CHAINS)
	n = int(rng.integers(2, 6))
	body, r = s.bodies(rng, (n,))
	con, idx = mon.call('impulses', lambda: random_constraints(s, rng, body, n, int(rng.integers(1, n // 2 + 1))))
	mon.case(**s.label(), pairs=idx, motor=arr(body.motor), rate=arr(body.rate))
	mon.count('impulses')
	mon.seen('impulses', s.sig, s.backend, n, idx.shape)
	p0 = mon.call('impulses', lambda: world_momentum(s, body))
	after = mon.call('impulses', lambda: con.v_apply(body, .05))
	p1 = world_momentum(s, after)
	i, j = idx
	close(mon, 'impulses/momentum', p1[i] + p1[j], p0[i] + p0[j], 1e-9, 'total momentum of constrained pairs')
	rest = [k for k in range(n) if k not in idx]
	mon.check(np.array_equal(arr(after.rate)[rest], arr(body.rate)[rest]), 'impulses/others', lambda: 'rates of unconnected bodies changed')
	mon.check(np.array_equal(arr(after.motor), arr(body.motor)), 'impulses/motor', lambda: 'motions changed by a velocity impulse')
	def gap(b):
		v = numeric.dense(s.ref, b.motor[idx] >> con.anchors_map(b.rate[idx]))
		return v[0] - v[1]
	g0, g1 = gap(body), gap(after)
	e = np.sqrt((g0 ** 2).sum(-1)), np.sqrt((g1 ** 2).sum(-1))
	if True:
		mon.check(np.all(e[1] <= e[0] * .9 + 1e-9), 'impulses/gap', lambda: f'relative velocity of anchors before {e[0].tolist()}, after {e[1].tolist()}')
	# anchors that are apart are pulled together
	shift = numeric.carried(s.ctx, s.ref, numeric.motors(s.ref, rng, (n,), .05), body.motor.subspace)
	apart = body.copy(motor=shift * body.motor)
	moved = mon.call('impulses', lambda: con.apply(apart, .05))
	normalized(mon, s, moved.motor, tol=1e-8)
	mon.check(np.array_equal(arr(moved.motor)[rest], arr(apart.motor)[rest]), 'impulses/others', lambda: 'motions of unconnected bodies changed')
	def distance(b):
		a = numeric.dense(s.ref, b.motor[idx] >> con.anchors)
		return np.sqrt(((a[0] - a[1]) ** 2).sum(-1))
	d0, d1 = distance(apart), distance(moved)
	mon.check(np.all(d1 <= .9 * d0 + 1e-9), 'impulses/distance', lambda: f'distance between anchors before relaxation {d0.tolist()}, after {d1.tolist()}')


def t_known(mon, rng, c, seed):
	"""two bodies at rest, pinned to each other"""
	from numga.algebra.algebra import Algebra
	from numga.examples.physics.setup_chain import setup_bodies
	ctx = backends.make('numpy/Einsum/float64', Algebra('x+y+z+w0'))
	b, cs = mon.call('chain', lambda: setup_bodies(ctx, n_bodies=2, fixing=False, compliance=1e-9, damping=0.))
	mon.case(scene='two links of a chain, at rest', algebra='x+y+z+w0')
	with np.errstate(all='ignore'):
		after = mon.call('chain', lambda: cs[0].v_apply(b, 1 / 200))
	mon.check(np.array_equal(arr(after.rate), arr(b.rate)), 'known/relative-rest' if np.all(np.isnan(arr(after.rate))) else 'relative-rest', lambda: f'rates of two bodies at rest after exchanging impulses: {arr(after.rate).tolist()}')


def stirred(s, rng, b):
	"""the bodies of a chain with small rates of their own, so that anchors are not at relative rest"""
	return b.copy(rate=gen.mk(s.ctx, b.rate.subspace, rng.normal(size=arr(b.rate).shape) * 1e-3))


def t_chain(mon, rng, c, seed):
	"""a chain stays together, keeps its motors normalized, and does not gain energy"""
	from numga.examples.physics.setup_chain import setup_bodies
	s = Scene(rng, sigs=CHAINS, shuffle=False)
	n = int(rng.integers(3, 7))
	kw = dict(n_bodies=n, fixing=bool(rng.random() < .5), compliance=1e-9, distance=float(rng.uniform(.05, .2)), size=float(rng.uniform(.03, .08)), damping=0.)
	mon.case(**s.label(), **kw)
	if s.n == 2:
		kw['compliance'] = 1e-2
	mon.count('chain')
	mon.seen('chain', s.sig, s.backend, n, kw['fixing'])
	b, cs = mon.call('chain', lambda: setup_bodies(s.ctx, **kw))
	cs = [x for x in cs if x.body_idx.shape[1]]
	def gaps(b):
		out = []
		for x in cs:
			a = numeric.dense(s.ref, b.motor[x.body_idx] >> x.anchors)
			out.append(np.abs(a[0] - a[1]).max())
		return max(out)
	g0 = gaps(b)
	mon.check(g0 < 1e-9, 'chain/setup', lambda: f'anchors of the initial chain do not coincide: {g0}')
	worst = 0
	b = stirred(s, rng, b)
	if kw['fixing']:
		b = b.copy(rate=b.rate.at[0].set(b.rate[0] * 0))
	for _ in range(60):
		del REST[:]
		b = mon.call('chain', b.integrate, 1 / 200, cs)
		if REST:
			mon.count('rest')
			return
		normalized(mon, s, b.motor)
		worst = max(worst, gaps(b))
	mon.sample(dict(sig=s.sig, gap=worst))
	if s.n > 2:
		mon.check(worst < .1 * kw['distance'], 'chain/gap', lambda: f'anchors separate by {worst} in a chain with links of {kw["distance"]}')
	if kw['fixing'] and s.n > 2:
		# translation-like directions of the first body are frozen
		o = s.ref.rhodge_inv({1 << s.origin: np.ones(())})
		S = s.ctx.subspace.antivector()
		p = gen.mk(s.ctx, S, np.array([float(o.get(int(k), 0.)) for k in S.blades]))
		moved = numeric.dense(s.ref, mon.call('chain', lambda: b.motor[0] >> p)) - numeric.dense(s.ref, p)
		mon.check(np.abs(moved).max() < 1e-3 * 1, 'chain/fixed', lambda: f'the centre of the fixed body moved by {moved.tolist()}')


def t_backend(mon, rng, c, seed):
	"""the same chain on every backend, directly and compiled"""
	from numga.examples.physics.setup_chain import setup_bodies
	sig = CHAINS[rng.integers(len(CHAINS))]
	r = seed[-1] % 8
	name = ['numpy/Sparse/float64', 'jax/Einsum/float64', 'jax/Dense/float64', 'jax/Sparse/float64', 'torch/Einsum/float64', 'torch/Sparse/float64', 'torch/Dense/float64', 'jax/Einsum/float64'][r]
	ss = [Scene(rng, sigs=[sig], backend=b, shuffle=False) for b in ('numpy/Einsum/float64', name)]
	kw = dict(n_bodies=int(rng.integers(3, 6)), compliance=1e-2 if len(sig) == 2 else 1e-9, damping=float(rng.uniform(0, .1)))
	mon.case(**ss[1].label(), **kw)
	mon.count('backend')
	mon.seen('backend', sig, name)
	outs = []
	stir = int(rng.integers(2 ** 31))
	for s in ss:
		b, cs = mon.call('backend', lambda: setup_bodies(s.ctx, **kw))
		b = stirred(s, rng_of('stir', stir), b)
		del REST[:]
		cs = [x for x in cs if x.body_idx.shape[1]]
		for _ in range(12):
			b = mon.call('backend', b.integrate, 1 / 100, cs)
			mon.count('states', kw['n_bodies'])
			if REST:
				mon.count('rest')
				return
		outs.append(b)
	for f in ('motor', 'rate'):
		close(mon, 'backend/' + f, arr(getattr(outs[1], f)), arr(getattr(outs[0], f)), 1e-7, f'{f} after 12 steps on {name} and numpy')
	if name.startswith('jax') and c == 0:
		import jax
		from numga.backend.jax.pytree import register
		from numga.examples.physics.core import Body, Constraint
		jB, jC = register(Body), register(Constraint)
		b, cs = setup_bodies(ss[1].ctx, **kw)
		b = stirred(ss[1], rng_of('stir', stir), b)
		cs = [x for x in cs if x.body_idx.shape[1]]
		def loop(b, cs):
			return jax.lax.fori_loop(0, 12, lambda _, b: b.integrate(1 / 100, cs), b)
		got = mon.call('backend/compiled', lambda: jax.jit(loop)(b, cs))
		for f in ('motor', 'rate'):
			close(mon, 'backend/compiled/' + f, arr(getattr(got, f)), arr(getattr(outs[0], f)), 1e-7, f'{f} after a compiled loop of 12 steps on {name} and eager numpy')


def t_steppers(mon, rng, c, seed):
	"""explicit Lie group steppers converge to the same motion"""
	import jax
	jax.config.update('jax_enable_x64', True)
	from numga.examples.physics import lie_integrators as L
	s = Scene(rng, backend='jax/Einsum/float64', sigs=[x for x in GEOMETRIES if len(x) > 2])
	body, r = s.bodies(rng, (), forced=False)
	mon.case(**s.label(), rate=arr(body.rate), points=np.stack(list(r.values()), -1))
	mon.count('steppers')
	mon.seen('steppers', s.sig)
	e = s.ctx.multivector.empty()
	res = {}
	I = body.inertia
	p0 = arr(I(body.rate) & body.rate)
	for name, k in (('explicit_rk4', 40), ('explicit_rk1', 160), ('explicit_lie_newmark', 40)):
		f = jax.jit(lambda m, w: getattr(L, name)(m, w, I, body.inertia_inv, .4 / k, lambda m, r: e))
		m, w = body.motor, body.rate
		for _ in range(k):
			m, w = mon.call('steppers', f, m, w)
		normalized(mon, s, m, 'steppers/normalized', 1e-8)
		res[name] = (arr(m), arr(w))
	if np.abs(res['explicit_rk4'][1]).max() > 3:
		return
	a = res['explicit_rk4']
	for name in ('explicit_rk1', 'explicit_lie_newmark'):
		for q, v, w in zip(('motor', 'rate'), res[name], a):
			close(mon, 'steppers/' + q, v, w, .03, f'{q} by {name} and explicit_rk4')
	b = mon.call('steppers', lambda: I(s.ctx.multivector.bivector(a[1])) & s.ctx.multivector.bivector(a[1]))
	close(mon, 'steppers/energy', arr(b), p0, 1e-6, 'energy along explicit_rk4')
