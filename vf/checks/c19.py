"""Results do not depend on history: caches, dispatch, registration, optimized overrides"""
import gc
import os
import pickle

import numpy as np

from vf import backends, gen, numeric, oplib
from vf.checks.c13 import guarded
from vf.gen import rng_of
from vf.harness import Skip
from vf.ref import Ref, popcount

RULE = ('(histories) programs of random calls over several algebras that share names but differ in signature, several contexts and operator types, including calls that fail; each program is executed in forked '
	'processes in different orders, twice over, and call by call in isolation; an observation is the outcome of one call compared between two histories. contexts and algebras are discarded now and then. (updated) coefficients are updated in place by their owner between calls. (dispatch) random interleavings of '
	'registrations and calls compared with the first matching registration. (optimized) optional optimized overrides, activated before or after first use, compared with the generic results and '
	'with the reference exponential; distinct by (call, algebra, history)')
REQUIRED = {'updated': 1000, 'history_pairs': 1000, 'isolated': 75, 'dispatch_calls': 750, 'optimized': 50, 'unrelated': 100, 'history_raised': 1}
BUDGET = dict(quick=400, thorough=600)


def jobs(tier, seed):
	q = tier == 'quick'
	js = []
	for r in range(28 if q else 160):
		js.append(dict(kind='history', seed=['C19', seed, 'h', r], length=110, essential=r < 8))
	for r in range(4 if q else 24):
		js.append(dict(kind='dispatch', seed=['C19', seed, 'd', r], cases=60, essential=r < 2))
	for r in range(4 if q else 24):
		js.append(dict(kind='updated', seed=['C19', seed, 'u', r], cases=120, essential=r < 2))
	for r in range(4 if q else 24):
		js.append(dict(kind='optimized', seed=['C19', seed, 'o', r], cases=8, essential=r < 2))
	return js


def run(job, mon):
	globals()[job['kind']](job, mon)


def isolated(fn):
	"""run in a forked process and bring back the result"""
	r, w = os.pipe()
	pid = os.fork()
	if pid == 0:
		try:
			os.close(r)
			out = pickle.dumps(fn())
			with os.fdopen(w, 'wb') as f:
				f.write(out)
		except BaseException as e:
			try:
				os.write(w, pickle.dumps(('harness', repr(e))))
			except BaseException:
				pass
		finally:
			os._exit(0)
	os.close(w)
	with os.fdopen(r, 'rb') as f:
		data = f.read()
	os.waitpid(pid, 0)
	out = pickle.loads(data)
	if isinstance(out, tuple) and len(out) and out[0] == 'harness':
		raise RuntimeError(out[1])
	return out


UNARY = ['reverse', 'involute', 'conjugate', 'dual', 'dual_inverse', 'scalar_negation', 'pseudoscalar_negation', 'squared', 'symmetric_reverse_product', 'symmetric_conjugate_product',
	'inverse', 'norm_squared', 'norm', 'normalized', 'study_norm_squared', 'square_root', 'exp', 'motor_log', 'motor_square_root', 'decompose_invariant', 'decompose_polar', 'exp_quadratic', 'degenerate', 'nondegenerate',
	'inverse_factor', 'motor_translator', 'motor_rotor', 'study_norm', 'inverse_square_root']
BINARY = ['product', 'wedge', 'inner', 'regressive', 'commutator_product', 'anti_commutator_product', 'scalar_product', 'left_contract', 'right_contract', 'sandwich', 'reverse_sandwich', 'anti_wedge',
	'anti_product', 'anti_inner', 'cross', 'reverse_product', 'bivector_product', '__add__', '__sub__', '__truediv__', 'motor_geometric_mean', 'transform', 'full_sandwich', 'conjugate_product']
PROPERTIES = ['is_study', 'is_degenerate', 'is_subalgebra', 'is_blade', 'in_even', 'named_str', 'pretty_str']


class World:
	churn = True

	def __init__(self, seed):
		rng = rng_of(*seed, 'world')
		n = int(rng.integers(2, 5))
		self.specs = []
		names = [chr(97 + i) for i in range(n)]
		sigs = [gen.all_sigs(n)[i] for i in rng.permutation(3 ** n)[:3]]
		for s in sigs:
			self.specs.append(dict(style='letters', sig=list(s), names=names, cut=0))
		m = int(rng.integers(2, 4))
		self.specs.append(dict(style='letters', sig=[int(x) for x in gen.all_sigs(m)[rng.integers(3 ** m)]], names=[chr(97 + i) for i in range(m)], cut=0))
		self.ctx = {}
		self.refs = [Ref(s['sig']) for s in self.specs]
		self.seed = seed
		self.algebras = {}
		# contexts over one algebra object, or over equal ones
		self.shared = rng.random() < 0.7

	def context(self, a, kind):
		if (a, kind) not in self.ctx:
			key = a if self.shared else (a, kind)
			alg = self.algebras.get(key) or gen.build_algebra(self.specs[a])
			self.algebras[key] = alg
			self.ctx[a, kind] = backends.make(kind, alg)
		return self.ctx[a, kind]

	def discard(self, i):
		"""contexts and algebras come and go; new ones may take the place of old ones in memory"""
		rng = rng_of(*self.seed, 'discard', i)
		if not self.churn or rng.random() > .2 or not self.ctx:
			return
		keys = list(self.ctx)
		del self.ctx[keys[rng.integers(len(keys))]]
		if rng.random() < .3:
			self.ctx.clear()
			self.algebras.clear()
		gc.collect()

	def call(self, i):
		"""outcome of call i of the program"""
		rng = rng_of(*self.seed, 'call', i)
		a = int(rng.integers(len(self.specs)))
		ref = self.refs[a]
		self.discard(i)
		kind = ['numpy/Einsum/float64', 'numpy/Einsum/float64', 'numpy/Sparse/float64', 'numpy/Einsum/float32'][rng.integers(4)]
		# few distinct subspaces, so that calls meet each other's cache entries
		pool = rng_of(*self.seed, 'pool', len(ref.sig), int(rng.integers(6)))
		kindm = ['named', 'named', 'grades', 'sparse', 'subalgebra', 'dense'][pool.integers(6)]
		sub = sorted(gen.random_masks(pool, ref, kindm)) or [0]
		if rng.random() < 0.4:
			sub = sorted([numeric.even(ref), numeric.grade_masks(ref, 2) or [0]][rng.integers(2)])
		sub2 = sorted(gen.random_masks(pool, ref, kindm)) or [0]
		c = rng.random()
		label = ('%s' % (self.specs[a]['sig'],), kind, sub)
		try:
			ctx = self.context(a, kind)
			S, T = ctx.algebra.subspace.from_blades(sub), ctx.algebra.subspace.from_blades(sub2)
			x = gen.mk(ctx, S, rng.normal(size=(2, len(S))).astype(np.float64 if '64' in kind else np.float32))
			y = gen.mk(ctx, T, rng.normal(size=(2, len(T))).astype(np.float64 if '64' in kind else np.float32))
			if c < 0.45:
				f = UNARY[rng.integers(len(UNARY))]
				label += (f,)
				out = getattr(x, f)()
			elif c < 0.85:
				f = BINARY[rng.integers(len(BINARY))]
				label += (f, sub2)
				out = getattr(x, f)(y)
			elif c < 0.93:
				f = ['product', 'reverse_product', 'wedge'][rng.integers(3)]
				label += ('operator.' + f, sub2)
				op = getattr(ctx.operator, f)(S, T)
				out = (op.subspace.blades.tolist(), np.asarray(getattr(ctx.algebra.operator, f)(S, T).kernel).tolist())
				return label, out
			else:
				f = PROPERTIES[rng.integers(len(PROPERTIES))]
				label += (f,)
				return label, repr(getattr(S, f))
			out = out if isinstance(out, tuple) else (out,)
			res = [((o.subspace.blades.tolist(), str(np.asarray(o.values).dtype), o.context is ctx), np.array(o.values, float)) for o in out]
			for o in out:
				# results belong to the caller
				try:
					o.values[...] = 77
				except Exception:
					pass
			return label, res
		except Exception as e:
			return label, 'raised ' + type(e).__name__


def same(a, b):
	if type(a) is not type(b):
		return False
	if isinstance(a, list):
		return len(a) == len(b) and all(x[0] == y[0] and x[1].shape == y[1].shape and np.allclose(x[1], y[1], rtol=1e-9, atol=1e-12, equal_nan=True) for x, y in zip(a, b))
	return a == b


def history(job, mon):
	n, seed = job['length'], job['seed']
	rng = rng_of(*seed, 'order')

	def go(order):
		def f():
			np.seterr(all='ignore')
			w = World(seed)
			return [w.call(int(i)) for i in order]
		return f
	base = list(range(n))
	orders = [base, base[::-1], list(rng.permutation(n)), list(np.concatenate([rng.permutation(n), rng.permutation(n)]))]
	runs = [isolated(go(o)) for o in orders]
	truth = dict(zip(base, runs[0]))
	mon.sample(dict(program=[repr(r[0]) for r in runs[0][:4]]))
	for o, r in list(zip(orders, runs))[1:]:
		for i, (label, out) in zip(o, r):
			mon.case(call=label, order=[int(k) for k in o])
			mon.count('history_pairs')
			mon.seen('history', label, i)
			if isinstance(out, str) and out.startswith('raised'):
				mon.count('history_raised')
			mon.check(same(out, truth[int(i)][1]), 'history', lambda: f'{label}: outcome depends on preceding calls: {str(out)[:300]} versus {str(truth[int(i)][1])[:300]}')
	for i in rng.permutation(n)[:24]:
		(label, out), = isolated(go([int(i)]))
		mon.count('isolated')
		mon.case(call=label)
		mon.check(same(out, truth[int(i)][1]), 'isolated', lambda: f'{label}: outcome in isolation differs: {str(out)[:300]} versus {str(truth[int(i)][1])[:300]}')


MAPS = ['sandwich_map', 'inertia_map']


def updated(job, mon):
	"""what was computed of an object before its owner updated it in place is forgotten"""
	for c in range(job['cases']):
		rng = rng_of(*job['seed'], c)
		spec = numeric.random_spec(rng, [1, 2, 3, 4])
		ref = Ref(spec['sig'])
		kind = ['numpy/Einsum/float64', 'numpy/Sparse/float64', 'torch/Einsum/float64', 'torch/Sparse/float64'][rng.integers(4)]
		mon.case(spec=spec, kind=kind)
		alg = mon.call('construct', gen.build_algebra, spec)
		ctx = mon.call('context', backends.make, kind, alg)
		S, T = [gen.subspace(alg, numeric.even(ref) if rng.random() < .4 else (gen.random_masks(rng, ref, None, 8) or {0}), rng) for _ in range(2)]
		sh = [(), (2,)][rng.integers(2)]
		v0, v1, w = [rng.normal(size=sh + (len(U),)) for U in (S, S, T)]
		x, y = gen.mk(ctx, S, v0.copy()), gen.mk(ctx, T, w.copy())
		names = [(f, 0) for f in rng.permutation(UNARY)[:6]] + [(f, 1) for f in rng.permutation(BINARY)[:5]] + [(f, 2) for f in MAPS] + [(f, 3) for f in MAPS]
		names = [names[i] for i in rng.permutation(len(names))]

		def do(f, k, x):
			try:
				if k == 0:
					out = getattr(x, f)()
				elif k == 1:
					out = getattr(x, f)(y)
				else:
					V = ctx.subspace.vector() if f == 'sandwich_map' else ctx.subspace.k_vector(2)
					m = getattr(x, f)(V)
					out = gen.mk(ctx, V, np.ones(len(V)))
					out = m(out) if k == 2 else m.inverse()(out)
			except Exception as e:
				return 'raised ' + type(e).__name__
			return [((o.subspace.blades.tolist(), o.context is ctx), np.array(gen.to_np(o.values), float)) for o in (out if isinstance(out, tuple) else (out,))]
		with np.errstate(all='ignore'):
			for f, k in names:
				do(f, k, x)
			x.values[...] = gen.mk(ctx, S, v1).values
			fresh = gen.mk(ctx, S, v1.copy())
			for f, k in names:
				mon.case(spec=spec, kind=kind, call=f, subspace=S.named_str, before=v0, after=v1)
				got, want = do(f, k, x), do(f, k, fresh)
				mon.count('updated')
				mon.seen('updated', f, k, kind, tuple(spec['sig']), S.blades.tobytes())
				mon.check(same(got, want), 'updated/' + str(f), lambda: f'{f} of {S.named_str} in {spec["sig"]} [{kind}] after an update in place: {str(got)[:300]}; a new object with equal values gives {str(want)[:300]}')


def dispatch(job, mon):
	"""the first registration whose condition holds, whatever happened before"""
	from numga.dynamic_dispatch import SubspaceDispatch
	for c in range(job['cases']):
		rng = rng_of(*job['seed'], c)
		spec = numeric.random_spec(rng, [2, 3])
		ctx, ref = oplib.context(spec)
		arity = int(rng.integers(1, 3))
		objs = []
		for _ in range(5):
			S = gen.subspace(ctx.algebra, gen.random_masks(rng, ref), rng)
			objs.append(gen.mk(ctx, S, rng.normal(size=(len(S),))))
		D = SubspaceDispatch('doc')
		holder = type('Holder', (), {})
		model = []
		log = []
		for step in range(40):
			if rng.random() < 0.25:
				tag = len(log)
				k = int(rng.integers(3))
				keys = [o.subspace for o in objs if rng.random() < 0.5]
				cond = [lambda *s: True, lambda *s, keys=keys: any(s[0] is q for q in keys), lambda *s: len(s[-1]) % 2 == 0][k]
				pos = None if rng.random() < 0.6 else int(rng.integers(0, len(model) + 1))
				fn = lambda *a, tag=tag: (tag, a)
				ret = mon.call('register', lambda: D.register(cond, position=pos)(fn) if pos is not None else D.register(cond)(fn))
				mon.check(ret is fn, 'register/returns', 'registration does not return the function')
				model.insert(len(model) if pos is None else pos, (cond, tag))
				log.append(('register', k, pos))
			else:
				args = [objs[rng.integers(5)] for _ in range(arity)]
				want = next((t for cond, t in model if cond(*[a.subspace for a in args])), None)
				log.append(('call', want))
				mon.case(log=log)
				mon.count('dispatch_calls')
				mon.seen('dispatch', c, step, *job['seed'])
				try:
					got, a = D(*args)
				except Exception:
					got, a = None, args
				mon.check(got == want, 'dispatch', lambda: f'call went to registration {got}; the first matching one is {want}; history {log}')
				mon.check(all(p is q for p, q in zip(a, args)), 'dispatch/args', 'arguments changed on the way')


def optimized(job, mon):
	rng = rng_of(*job['seed'])
	late = rng.random() < 0.5
	from numga.backend.numpy.context import NumpyContext
	ref = Ref((1, 1, 1, 0))
	# algebras that share everything but the signature, or everything but the names
	lookalikes = ['x+y+w0z+'] + ['x%sy%sz%sw%s' % tuple(c) for c in [list(rng.choice(list('++-0'), size=4)) for _ in range(2)] if ''.join(c) != '+++0']
	lookalikes += [['x+y+z+w+', 'x+y+z+w-', 'x-y-z-w0', 'x+y+z-w0'][rng.integers(4)]]

	def setup():
		return [NumpyContext('x+y+z+w0')] + [NumpyContext(s) for s in lookalikes]
	cases = []
	for c in range(job['cases']):
		shape = [(), (3,), (2, 2), (1, 3)][rng.integers(4)]
		scale = float(rng.choice([1e-3, .5, 2, 6]))
		b = rng.normal(size=shape + (6,)) * scale
		if shape and rng.random() < .3:
			b.reshape(-1, 6)[0] = 0
		if rng.random() < .3:
			b[..., [0, 1, 3]] = 0
		m = np.concatenate([1 + rng.normal(size=shape + (1,)) * .2, rng.normal(size=shape + (7,)) * rng.choice([.1, 1, 5])], -1)
		cases.append((shape, b, m))

	def compute(ctx):
		out = []
		B = ctx.subspace.bivector()
		names = [int(x) for x in B.blades]
		for shape, b, m in cases:
			E = ctx.subspace.even_grade()
			X, Y = gen.mk(ctx, E, m.copy()), gen.mk(ctx, B, b.copy())
			calls = [X.normalized] + [Y.select_subspace(s).exp for s in (B, B.degenerate(), B.nondegenerate())]
			row = []
			for f in calls:
				try:
					r = f()
					row.append((r.subspace.blades.tolist(), np.array(r.values)))
				except Exception as e:
					if ctx.algebra.description.description_str == 'x+y+z+w0':
						raise
					row.append(type(e).__name__)
			assert np.array_equal(X.values, m) and np.array_equal(Y.values, b)
			out.append(row)
		return out

	def generic():
		np.seterr(all='ignore')
		return [compute(c) for c in setup()]

	def fast():
		np.seterr(all='ignore')
		cs = setup()
		if late:
			# first use precedes activation
			[compute(c) for c in cs]
		from numga.multivector.extension import optimized
		return [compute(c) for c in cs]
	mon.case(late=late, cases=cases, algebras=lookalikes)
	g = mon.call('optimized/generic', isolated, generic)
	f = mon.call('optimized', isolated, fast)
	for which, (G, F) in enumerate(zip(g, f)):
		for (shape, b, m), rg, rf in zip(cases, G, F):
			for k, (x, y) in enumerate(zip(rg, rf)):
				if which:
					# the overrides do not apply here at all
					mon.count('unrelated')
					ok = x == y if isinstance(x, str) or isinstance(y, str) else x[0] == y[0] and np.array_equal(x[1], y[1], equal_nan=True)
					mon.check(ok, 'optimized/unrelated', lambda: f'{lookalikes[which - 1]}: result changes once the overrides of x+y+z+w0 are active: {str(x)[:200]} versus {str(y)[:200]} for {b if k else m}')
					continue
				X, Y = [np.zeros(shape + (16,)) for _ in range(2)]
				X[..., x[0]], Y[..., y[0]] = x[1], y[1]
				mon.count('optimized', int(np.prod(shape)))
				mon.seen('optimized', which, k, shape, *job['seed'])
				scale = max(1.0, np.abs(X).max())
				e = np.abs(X - Y).max() / scale
				mon.check(bool(e < 2e-6 * max(1, np.abs(b).max() ** 3 if k else 1)), 'optimized/' + ('normalized' if k == 0 else 'exp'), lambda: f'differs from the generic implementation by {e} for {b if k else m}')
				if k:
					B = [3, 5, 6, 9, 10, 12]
					r = np.zeros(shape + (16,))
					r[..., B] = b
					if k == 2:
						r[..., [3, 5, 6]] = 0
					if k == 3:
						r[..., [9, 10, 12]] = 0
					want = numeric.expm(ref, numeric.to_dict(ref, r), shape)
					e = np.abs(Y - want).max()
					mon.check(bool(e < 1e-9 * max(1, np.abs(want).max())), 'optimized/exact', lambda: f'optimized exponential differs from the series by {e} for {b}')
