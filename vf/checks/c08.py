"""All backends and execution strategies compute the same thing"""
import numpy as np

from vf import backends, gen, ops, oplib
from vf.gen import rng_of
from vf.harness import Skip
from vf.ref import Ref, add, popcount, scale, sel_blades, sub

RULE = ('the same operation on the same operands through numpy (einsum, sparse; single and double), jax (einsum, dense, sparse; single and double), torch (einsum, dense, '
	'sparse; single and double) and python (sparse, generated code), on random algebras up to 5 generators (a few up to 9), random subspaces, broadcastable batch shapes; '
	'integer operands, so every backend is compared exactly with the reference model; derived functions are compared with the double precision numpy result; '
	'an observation is one evaluation on one backend; distinct by (backend, operation, signature, subspaces)')
REQUIRED = {'nonzero': 375, 'backend/jax': 75, 'backend/torch': 125, 'backend/python': 25, 'derived': 50, 'math': 50, 'weighted': 150}
BUDGET = dict(quick=400, thorough=700)

CAT = {**ops.PRODUCT, **ops.GRADED, **ops.ANTI, **ops.INVPROD}


def jobs(tier, seed):
	rng = rng_of('C08', seed, 'jobs')
	q = tier == 'quick'
	js = []

	def specs(k):
		out = []
		for n in rng.choice([1, 2, 3, 3, 4, 4, 5], size=k):
			sigs = gen.all_sigs(int(n))
			out.append(gen.spec_of(sigs[rng.integers(len(sigs))], rng))
		return out
	groups = [
		(['numpy/Sparse/float64', 'numpy/Einsum/float32', 'numpy/Sparse/float32', 'python/Sparse/float', 'python/Codegen/float'], 24, 8),
		(['torch/Einsum/float32', 'torch/Dense/float32', 'torch/Sparse/float32'], 12, 6),
		(['torch/Einsum/float64', 'torch/Dense/float64', 'torch/Sparse/float64'], 12, 6),
		(['jax/Einsum/float32', 'jax/Dense/float32', 'jax/Sparse/float32'], 4, 3),
		(backends.JAX64, 4, 3),
	]
	for r in range(2 if q else 20):
		for gi, (names, nspec, cases) in enumerate(groups):
			js.append(dict(kind=names[0].split('/')[0], names=names, specs=specs(nspec), cases=cases, seed=['C08', seed, r, gi], essential=r == 0))
			if names[0].startswith('jax'):
				js.append(dict(kind='jax', names=names, specs=specs(nspec), cases=cases, seed=['C08', seed, r, gi, 'b'], essential=r == 0))
	for r in range(1 if q else 4):
		for gi, names in enumerate([['numpy/Sparse/float64', 'python/Sparse/float', 'numpy/Einsum/float64'], ['torch/Einsum/float64', 'torch/Dense/float64', 'torch/Sparse/float64'], backends.JAX64]):
			sp = [gen.spec_of(tuple(int(s) for s in rng.choice([1, -1, 0], p=[.4, .35, .25], size=n)), rng, 'letters') for n in (6, 7, 9)]
			js.append(dict(kind='big', names=names, specs=sp, cases=2, seed=['C08', seed, 'big', r, gi], essential=q))
	return js


def run(job, mon):
	for i, spec in enumerate(job['specs']):
		rng = rng_of(*job['seed'], i)
		mon.case(spec=spec)
		try:
			alg = mon.call('construct', gen.build_algebra, spec)
			ref = Ref(spec['sig'])
			ctxs = {n: mon.call('context/' + n, backends.make, n, alg) for n in job['names']}
			from numga.backend.numpy.context import NumpyContext
			base = NumpyContext(alg)
			for c in range(job['cases']):
				multilinear(mon, ctxs, ref, rng, c)
				for f in (operators, weighted, linear, maths, derived):
					if ref.n <= 5 or f is linear:
						try:
							f(mon, base, ctxs, ref, rng)
						except Skip:
							pass
		except Skip:
			pass


def obs(mon, name, key, label, ref, fn, expect, shapes, subs, tol=None):
	mon.count('backend/' + name.split('/')[0])
	mon.count('strategy/' + '/'.join(name.split('/')[:2]))
	oplib.observe(mon, f'{name}/{key}', f'{label} [{name}]', ref, fn, expect, shapes, subs, tol)


def run_codegen(ctx, opname, xs, order):
	"""execute the generated source text"""
	return execute(ctx, getattr(ctx.operator, opname)(*[x.subspace for x in xs]), [xs[i] for i in order])


def execute(ctx, op, xs):
	text = op(*xs)
	o = [0.0] * len(op.output)
	env = dict(o=o)
	if not text.strip().endswith(':'):
		exec(text, env)
		env['foo'](*[x.values for x in xs])
	return ctx.multivector(op.output, o)


def multilinear(mon, ctxs, ref, rng, c):
	n = ref.n
	lim = {5: 12, 6: 10, 7: 6, 9: 5}.get(n, 16)
	kd = 'sparse' if n > 8 else None
	names = [k for k in CAT if n >= {'bivector_product': 2, 'trivector_product': 3}.get(k, 1)]
	tasks = [(k, CAT[k], 2, [0, 1]) for k in (names[i] for i in rng.permutation(len(names))[:4])]
	tasks += [(k, ops.UNARY[k], 1, [0]) for k in (list(ops.UNARY)[i] for i in rng.permutation(len(ops.UNARY))[:2])]
	sy = [k for k in ops.SYMMETRIC if ops.SYMMETRIC[k][0] <= 3]
	k = sy[rng.integers(len(sy))]
	tasks.append((k, ops.SYMMETRIC[k], 1, [0] * ops.SYMMETRIC[k][0]))
	k = ['sandwich', 'full_sandwich', 'reverse_sandwich'][rng.integers(3)]
	tasks.append((k, ops.SANDWICH[k], 2, [0, 1, 0]))
	for opname, e, arity, order in tasks:
		sh = oplib.batch_shapes(rng, arity)
		data = []
		for a in range(arity):
			l = 6 if len(order) == 3 and a == 0 else lim
			masks = gen.random_masks(rng, ref, kd, l)
			data.append(masks)
		for name, ctx in ctxs.items():
			py = name.startswith('python')
			shapes = [()] * arity if py else sh
			xs, rs = [], []
			for masks, s in zip(data, shapes):
				sp = gen.subspace(ctx.algebra, masks, rng)
				v = gen.ints(rng, s + (len(sp),), -3, 3)
				xs.append(gen.mk(ctx, sp, v))
				rs.append(gen.ref_of(sp, v))
			expect = e[-1](ref)(*rs)
			rts = oplib.routes(ctx, {opname: e}, opname)
			rt = rts[rng.integers(len(rts))]
			if name == 'python/Codegen/float':
				if not e[-3]:
					continue
				fn = lambda: run_codegen(ctx, e[-3][0], xs, order)
			elif rt == ('method', 'trivector_product') and n < 3:
				continue
			else:
				fn = lambda: oplib.invoke(ctx, rt, xs, order)
			obs(mon, name, opname, opname, ref, fn, expect, shapes, [x.subspace for x in xs])


def operators(mon, base, ctxs, ref, rng):
	"""partial application, batched operators, inverse; on each backend"""
	s = gen.random_masks(rng, ref, None, 5) or {0}
	t = gen.random_masks(rng, ref, None, 6) or {0}
	A = [k for k in range(ref.n) if ref.sig[k]]
	for name, ctx in ctxs.items():
		if name.startswith('python') or rng.random() < 0.5:
			continue
		S, T = gen.subspace(ctx.algebra, s, rng), gen.subspace(ctx.algebra, t, rng)
		V, X = gen.ints(rng, (4, 3, len(S)), -3, 3), gen.ints(rng, (4, 3, len(T)), -3, 3)
		m, x = gen.mk(ctx, S, V), gen.mk(ctx, T, X)
		R = lambda v, xx: ref.mul(gen.ref_of(S, v), gen.ref_of(T, xx))
		try:
			M = mon.call(name + '/partial', lambda: ctx.operator.product(S, T).partial({0: m}))
			N = mon.call(name + '/partial', lambda: ctx.operator.product(T, S).partial({1: m}))
			P = mon.call(name + '/partial', lambda: ctx.operator.sandwich(S, T).partial({0: m, 2: m}))
		except Skip:
			continue
		subs = [S, T]
		i = int(rng.integers(4))
		o = lambda key, fn, e, shape: obs(mon, name, 'operator/' + key, key, ref, fn, e, [shape], subs)
		o('partial', lambda: M(x), R(V, X), (4, 3))
		o('partial', lambda: N(x), ref.mul(gen.ref_of(T, X), gen.ref_of(S, V)), (4, 3))
		o('partial_sandwich', lambda: P(x), ops.sandwich(ref)(gen.ref_of(S, V), gen.ref_of(T, X)), (4, 3))
		# several inputs bound at once, in any order
		U = gen.subspace(ctx.algebra, {0, *sorted(t)[:2]}, rng)
		W = gen.ints(rng, (3, len(U)), -3, 3)
		w = gen.mk(ctx, U, W)
		f = ctx.algebra.operator
		three = mon.call(name + '/partial', lambda: ctx.operator(f.product(f.product(S, T), U)))
		free = int(rng.integers(3))
		bound = [int(k) for k in rng.permutation([k for k in range(3) if k != free])]
		args = [m, x, w]
		obs(mon, name, 'operator/partial_two', 'partial_two', ref, lambda: three.partial({k: args[k] for k in bound})(args[free]), ref.mul(R(V, X), gen.ref_of(U, W)), [(4, 3)], [S, T, U])
		o('broadcast', lambda: M(x[0][0]), R(V, X[0, 0]), (4, 3))
		o('index', lambda: M[i](x), R(V[i], X), (4, 3))
		o('index2', lambda: M[i, 1](x), R(V[i, 1], X), (4, 3))
		o('slice', lambda: M[1:3](x[1:3]), R(V[1:3], X[1:3]), (2, 3))
		o('sum', lambda: M.sum(0)(x[0]), R(V.sum(0), X[0]), (3,))
		o('concatenate', lambda: M.concatenate(M, axis=0)(x[0]), R(np.concatenate([V, V]), X[0]), (8, 3))
		V2 = V.copy()
		V2[i] = V[0, ::-1]
		M2 = mon.call(name + '/partial', lambda: ctx.operator.product(S, T).partial({0: gen.mk(ctx, S, V[0, ::-1].copy())}))
		o('set', lambda: M.at[i].set(M2.kernel)(x), R(V2, X), (4, 3))
		o('unchanged', lambda: M(x), R(V, X), (4, 3))
		if A:
			F = ctx.subspace.multivector()
			b = ctx.subspace.blade(1 << A[0])
			cs = np.array([1.0, -2.0, 4.0])[:, None]
			B = mon.call(name + '/partial', lambda: ctx.operator.product(b, F).partial({0: gen.mk(ctx, b, cs)}))
			f = gen.ints(rng, (len(F),))
			obs(mon, name, 'operator/inverse', 'inverse', ref, lambda: B.inverse()(B(gen.mk(ctx, F, f))), gen.ref_of(F, np.broadcast_to(f, (3, len(F)))), [(3,)], [b, F],
				dict(atol=200 * backends.eps(name)))


def weighted(mon, base, ctxs, ref, rng):
	"""operators with coefficients other than plus and minus one, built by operator arithmetic"""
	names = [k for k in {**ops.PRODUCT, **ops.GRADED, **ops.ANTI} if k not in ('bivector_product', 'trivector_product')]
	key = names[rng.integers(len(names))]
	e = CAT[key]
	masks = gen.random_masks(rng, ref, None, 6) or {0}
	k1, k2 = (int(k) for k in rng.choice([-7, -3, 2, 3, 5, 12], size=2))
	sh = oplib.batch_shapes(rng, 2)
	for name, ctx in ctxs.items():
		S = gen.subspace(ctx.algebra, masks, rng)
		shapes = [()] * 2 if name.startswith('python') else sh
		v = [gen.ints(rng, s + (len(S),)) for s in shapes]
		x, y = (gen.mk(ctx, S, w.tolist() if name.startswith('python') else w) for w in v)
		rx, ry = (gen.ref_of(S, w) for w in v)
		f = e[-1](ref)
		A = mon.call(name + '/weighted', lambda: getattr(ctx.algebra.operator, e[-3][0])(S, S))
		cases = [('scaled', lambda: A * k1, scale(f(rx, ry), k1)), ('negated', lambda: -A * k2, scale(f(rx, ry), -k2)),
			('mixed', lambda: (A * k1 + (k2 * A).swapaxes(0, 1)).squeeze(), add(scale(f(rx, ry), k1), scale(f(ry, rx), k2)))]
		for label, mk, expect in cases:
			mon.count('weighted')

			def fn():
				op = ctx.operator(mk())
				return execute(ctx, op, (x, y)) if name == 'python/Codegen/float' else op(x, y)
			obs(mon, name, 'weighted/' + label, f'{label} {key}', ref, fn, expect, shapes, [S, S])


def linear(mon, base, ctxs, ref, rng):
	"""addition, scalars, selection"""
	kd = 'sparse' if ref.n > 8 else None
	ma, mb = gen.random_masks(rng, ref, kd, 16), gen.random_masks(rng, ref, kd, 16)
	sh = oplib.batch_shapes(rng, 2)
	for name, ctx in ctxs.items():
		if name.startswith('python'):
			continue
		A, B = gen.subspace(ctx.algebra, ma, rng), gen.subspace(ctx.algebra, mb, rng)
		va, vb = gen.ints(rng, sh[0] + (len(A),)), gen.ints(rng, sh[1] + (len(B),))
		a, b = gen.mk(ctx, A, va), gen.mk(ctx, B, vb)
		ra, rb = gen.ref_of(A, va), gen.ref_of(B, vb)
		k = float(rng.integers(1, 4)) * 2
		o = lambda key, fn, e, shapes=sh: obs(mon, name, 'linear/' + key, key, ref, fn, e, shapes, [A, B])
		o('add', lambda: a + b, add(ra, rb))
		o('sub', lambda: a - b, sub(ra, rb))
		o('neg', lambda: -a, scale(ra, -1), [sh[0]])
		o('scalar_mul', lambda: a * k, scale(ra, k), [sh[0]])
		o('scalar_rmul', lambda: k * a, scale(ra, k), [sh[0]])
		o('scalar_add', lambda: a + k, add(ra, {0: k}), [sh[0]])
		o('scalar_radd', lambda: k + a, add(ra, {0: k}), [sh[0]])
		o('scalar_rsub', lambda: k - a, add(scale(ra, -1), {0: k}), [sh[0]])
		o('scalar_div', lambda: a / 4, scale(ra, 0.25), [sh[0]])
		o('select', lambda: a.select_subspace(B), sel_blades(ra, rb), [sh[0]])
		o('restrict', lambda: a.restrict_subspace(B), sel_blades(ra, rb), [sh[0]])
		g = int(rng.integers(ref.n + 1))
		o('select_grade', lambda: a.select[g], {m: v for m, v in ra.items() if popcount(m) == g}, [sh[0]])
		o('restrict_grade', lambda: a.restrict[g], {m: v for m, v in ra.items() if popcount(m) == g}, [sh[0]])
		o('copy', lambda: a.copy(), ra, [sh[0]])


def maths(mon, base, ctxs, ref, rng):
	"""elementwise functions and the array layer of the contexts"""
	masks = gen.random_masks(rng, ref, None, 8) or {0}
	w = rng.normal(size=(4, 3, len(masks)))
	for name, ctx in ctxs.items():
		if name.startswith('python'):
			continue
		S = gen.subspace(ctx.algebra, masks, rng)
		npd = np.float32 if 'float32' in name else np.float64
		v = w.astype(npd).astype(float)
		x = gen.mk(ctx, S, v)
		p = gen.mk(ctx, S, np.abs(v) + 0.1)
		pv = (np.abs(v) + 0.1).astype(npd).astype(float)
		tol = dict(rtol=64 * backends.eps(name), atol=64 * backends.eps(name))
		mon.count('math')
		o = lambda key, fn, e: obs(mon, name, 'math/' + key, key, ref, fn, gen.ref_of(S, e), [e.shape[:-1]], [S], tol)
		o('sqrt', lambda: p.sqrt(), np.sqrt(pv))
		o('invsqrt', lambda: p.invsqrt(), 1 / np.sqrt(pv))
		o('abs', lambda: x.abs(), np.abs(v))
		o('cos', lambda: x.cos(), np.cos(v))
		o('sin', lambda: x.sin(), np.sin(v))
		vn = v.copy()
		vn[0, 0, 0] = np.nan
		o('nan_to_num', lambda: gen.mk(ctx, S, vn).nan_to_num(7.0), np.nan_to_num(vn, nan=7.0))

		def arr(key, fn, e):
			mon.count('backend/' + name.split('/')[0])
			mon.case(backend=name, op=key)
			try:
				got = mon.call(f'{name}/array/{key}', fn)
				got = gen.to_np(got).astype(float)
				e = np.asarray(e, float)
				ok = got.shape == e.shape and np.all((np.abs(got - e) <= 64 * backends.eps(name) * (1 + np.abs(e))) | (np.isnan(got) & np.isnan(e)))
				mon.seen(name, key, v.shape)
				mon.check(ok, f'{name}/array/{key}', lambda: f'{key} [{name}]: {got.ravel()[:6]} expected {e.ravel()[:6]}')
			except Skip:
				pass
		X, Q = backends.array(ctx, v), backends.array(ctx, pv)
		ax = int(rng.integers(-1, 3))
		arr('coerce', lambda: X, v)
		arr('sqrt', lambda: ctx.sqrt(Q), np.sqrt(pv))
		arr('log', lambda: ctx.log(Q), np.log(pv))
		arr('exp', lambda: ctx.exp(X), np.exp(v))
		arr('cos', lambda: ctx.cos(X), np.cos(v))
		arr('sin', lambda: ctx.sin(X), np.sin(v))
		arr('abs', lambda: ctx.abs(X), np.abs(v))
		arr('pow', lambda: ctx.pow(Q, X), pv ** v)
		arr('where', lambda: ctx.where(X > 0, X, Q), np.where(v > 0, v, pv))
		arr('isnan', lambda: ctx.isnan(backends.array(ctx, vn)), np.isnan(vn))
		arr('nan_to_num', lambda: ctx.nan_to_num(backends.array(ctx, vn), 3.0), np.nan_to_num(vn, nan=3.0))
		arr('min', lambda: ctx.min(X, axis=ax), v.min(axis=ax))
		arr('argmin', lambda: ctx.argmin(X, axis=ax), v.argmin(axis=ax))
		arr('all', lambda: ctx.all(X > -0.5, axis=ax), (v > -0.5).all(axis=ax))
		arr('logical_or', lambda: ctx.logical_or(X > 0, X < -1), (v > 0) | (v < -1))
		arr('logical_xor', lambda: ctx.logical_xor(X > 0, X > 1), (v > 0) ^ (v > 1))
		arr('allocate', lambda: ctx.allocate_array((2, 3)), np.zeros((2, 3)))
		e = v.copy()
		e[1] = 9
		arr('set', lambda: ctx.set_array(X, 1, 9), e)
		arr('set_unchanged', lambda: X, v)


DERIVED = dict(
	inverse=lambda m, b, k: m.inverse(),
	divide=lambda m, b, k: b / m,
	norm_squared=lambda m, b, k: m.norm_squared(),
	normalized=lambda m, b, k: m.normalized(),
	exp=lambda m, b, k: b.exp(),
	exp_quadratic=lambda m, b, k: b.exp_quadratic(),
	exp_linear=lambda m, b, k: b.exp_linear(),
	motor_log=lambda m, b, k: m.normalized().motor_log(),
	motor_square_root=lambda m, b, k: m.normalized().motor_square_root(),
	shirokov=lambda m, b, k: m.inverse_shirokov(),
	hitzer=lambda m, b, k: m.inverse_hitzer() if k < 4 else m.inverse(),
	sandwich_map=lambda m, b, k: m.sandwich_map()(b.context.multivector.vector(np.arange(1.0, k + 1))),
	linear_log=lambda m, b, k: (b.exp_linear_normalized()).motor_log_linear_normalized(),
)


def derived(mon, base, ctxs, ref, rng):
	"""functions built out of operators agree with double precision numpy"""
	n = ref.n
	if n < 2 or 0 in ref.sig and ref.sig.count(0) > 1 or n > 5:
		return
	B = base.subspace.bivector()
	V = base.subspace.bivector().union(base.subspace.scalar())
	bv = rng.normal(size=(3, len(B))) * 0.15
	mv = rng.normal(size=(3, len(V))) * 0.15
	mv[:, list(V.blades).index(0)] = 1.0
	names = list(DERIVED)
	for key in [names[i] for i in rng.permutation(len(names))[:4]]:
		f = DERIVED[key]
		with np.errstate(all='ignore'):
			# reached through other checks; here only the agreement is decided
			try:
				want = f(gen.mk(base, V, mv), gen.mk(base, B, bv), n)
			except Exception:
				mon.count('derived_undefined')
				continue
		w = gen.to_ref(want)
		if not w or not np.all([np.all(np.isfinite(q)) for q in w.values()]) or max(np.max(np.abs(q)) for q in w.values()) > 1e3:
			continue
		for name, ctx in ctxs.items():
			if name.startswith('python') or (name.startswith('jax') and rng.random() < 0.6):
				continue
			tol = 2e9 * backends.eps(name) if 'log' in key or key in ('exp', 'shirokov', 'hitzer') else 1e6 * backends.eps(name)
			if 'float32' in name:
				tol = 0.02 if key not in ('motor_log', 'exp') else 1.0
			mon.count('derived')
			got = [None]

			def fn():
				got[0] = f(gen.mk(ctx, V, mv), gen.mk(ctx, B, bv), n)
				return got[0]
			obs(mon, name, 'derived/' + key, key, ref, fn, w, [want.values.shape[:-1]], [V, B], dict(rtol=tol, atol=tol))
			if got[0] is not None:
				mon.check(got[0].subspace == want.subspace, f'{name}/derived/{key}/subspace', f'{key} [{name}]: {got[0].subspace.named_str} but numpy gives {want.subspace.named_str}')
