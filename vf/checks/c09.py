"""Batch axes: broadcasting is entrywise and structural operations leave the algebra alone"""
import numpy as np

from vf import backends, gen, ops, oplib
from vf.gen import rng_of
from vf.harness import Skip
from vf.ref import Ref

RULE = ('random algebras up to 6 generators on numpy, torch and jax; operands with 0 to 3 batch axes of length 0 to 4 in several memory layouts and input types; '
	'an observation is one indexing, update, concatenation, gather, reduction or rearrangement compared with the same manipulation of the coefficient arrays, or a batched evaluation '
	'(products, sandwiches, inverse, norms, exp, log, roots) compared with evaluating every batch entry on its own; distinct by (backend, operation, subspaces, shapes)')
REQUIRED = {'structural': 375, 'entrywise': 200, 'layout': 37, 'nonzero': 250, 'maps': 1000, 'large': 20}
BUDGET = dict(quick=400, thorough=600)


def jobs(tier, seed):
	rng = rng_of('C09', seed, 'jobs')
	q = tier == 'quick'

	def specs(k, top=6):
		out = []
		for n in rng.choice([1, 2, 3, 3, 4, 4, 5, 6], size=k):
			sigs = gen.all_sigs(int(n))
			out.append(gen.spec_of(sigs[rng.integers(len(sigs))], rng))
		return out
	js = []
	for r in range(6 if q else 60):
		js.append(dict(kind='numpy', names=['numpy/Einsum/float64', 'numpy/Sparse/float64', 'numpy/Einsum/float32'], specs=specs(10), cases=8, seed=['C09', seed, 'np', r], essential=r < 3))
	for r in range(3 if q else 30):
		js.append(dict(kind='torch', names=['torch/Einsum/float64', 'torch/Sparse/float64', 'torch/Dense/float32'], specs=specs(6), cases=6, seed=['C09', seed, 't', r], essential=r < 2))
	for r in range(2 if q else 16):
		js.append(dict(kind='jax', names=['jax/Einsum/float64', 'jax/Sparse/float64'], specs=specs(2), cases=3, seed=['C09', seed, 'j', r], essential=r < 1))
	return js


SHAPES = [(), (3,), (1,), (2, 3), (4, 1), (2, 3, 2), (0,), (2, 0), (1, 2, 1)]


def run(job, mon):
	for i, spec in enumerate(job['specs']):
		rng = rng_of(*job['seed'], i)
		mon.case(spec=spec)
		try:
			alg = mon.call('construct', gen.build_algebra, spec)
			ref = Ref(spec['sig'])
			for name in job['names']:
				ctx = mon.call('context/' + name, backends.make, name, alg)
				for c in range(job['cases']):
					for f in (structural, broadcasting, entrywise, layout, operators) + ((large,) if c == 0 else ()):
						try:
							f(mon, name, ctx, ref, rng)
						except Skip:
							pass
		except Skip:
			pass


def compare(mon, name, key, ref, fn, sub, expect, rtol=0.0):
	"""the result lives on exactly this subspace layout, with these coefficients"""
	mon.count('structural')
	mon.case(backend=name, op=key, signature=list(ref.sig), subspace=sub.named_str, expected_shape=list(expect.shape))
	out = mon.call(f'{name}/{key}', fn)
	v = gen.to_np(out.values)
	mon.seen(name, key, sub.blades.tobytes(), expect.shape)
	if expect.size and np.any(expect != 0):
		mon.count('nonzero')
	ok = out.subspace == sub and v.shape == expect.shape and np.allclose(v, expect, rtol=rtol, atol=rtol, equal_nan=True) if rtol else out.subspace == sub and v.shape == expect.shape and np.array_equal(v, expect)
	mon.check(ok, f'{name}/{key}', lambda: f'{key} [{name}]: {out.subspace.named_str} {v.shape}: {v.ravel()[:8]} expected {sub.named_str} {expect.shape}: {expect.ravel()[:8]}')
	if hasattr(out, 'shape'):
		mon.check(tuple(out.shape) == expect.shape[:-1], f'{name}/{key}/shape', lambda: f'shape {tuple(out.shape)} expected {expect.shape[:-1]}')
	return out


def random_index(rng, shape, torch):
	"""an index of the batch axes"""
	k = int(rng.integers(1, len(shape) + 1))
	idx = []
	for n in shape[:k]:
		c = rng.integers(5)
		if c == 0 and n:
			idx.append(int(rng.integers(-n, n)))
		elif c == 1:
			idx.append(slice(None))
		elif c == 2:
			a, b = sorted(rng.integers(0, n + 1, size=2))
			idx.append(slice(int(a), int(b)))
		elif c == 3:
			idx.append(slice(None, None, 2) if torch else slice(None, None, -1))
		else:
			idx.append(slice(int(rng.integers(0, n + 1)), None))
	if rng.random() < 0.15:
		idx.insert(int(rng.integers(len(idx) + 1)), None)
	return tuple(idx)


def structural(mon, name, ctx, ref, rng):
	kd = 'sparse' if ref.n > 8 else None
	masks = gen.random_masks(rng, ref, kd, 12)
	S = gen.subspace(ctx.algebra, masks, rng)
	shape = SHAPES[rng.integers(len(SHAPES))]
	v = gen.ints(rng, shape + (len(S),))
	x = mon.call('multivector', gen.mk, ctx, S, v)
	tb, jx = name.startswith('torch'), name.startswith('jax')
	cmp = lambda key, fn, e, rtol=0.0: compare(mon, name, key, ref, fn, S, e, rtol)
	cmp('construct', lambda: x, v)
	cmp('copy', lambda: x.copy(), v)
	cmp('neg', lambda: -x, -v)
	eps = backends.eps(name)
	if len(shape):
		for _ in range(2):
			idx = random_index(rng, shape, tb)
			one = idx[0] if len(idx) == 1 and rng.random() < 0.5 else idx
			cmp('getitem', lambda: x[one], v[one])
		n = shape[0]
		if n:
			ia = rng.integers(0, n, size=3)
			cmp('getitem_array', lambda: x[backend_index(ctx, name, ia)], v[ia])
			mask = rng.random(n) < 0.5
			if not jx:
				cmp('getitem_mask', lambda: x[backend_index(ctx, name, mask)], v[mask])
			j = int(rng.integers(n))
			w = gen.ints(rng, shape[1:] + (len(S),))
			e = v.copy()
			e[j] = w
			cmp('at_set', lambda: x.at[j].set(gen.mk(ctx, S, w)), e)
			cmp('at_set_unchanged', lambda: x, v)
			e = v.copy()
			e[j:] = 5
			cmp('at_set_scalar', lambda: x.at[j:].set(5), e)
			cmp('at_set_unchanged', lambda: x, v)
			if len(shape) > 1 and shape[1]:
				e = v.copy()
				e[j, 0] = w[0]
				cmp('at_set2', lambda: x.at[j, 0].set(gen.mk(ctx, S, w[0])), e)
		ax = int(rng.integers(len(shape)))
		sh2 = list(shape)
		sh2[ax] = int(rng.integers(0, 4))
		v2 = gen.ints(rng, tuple(sh2) + (len(S),))
		cmp('concatenate', lambda: x.concatenate(gen.mk(ctx, S, v2), axis=ax), np.concatenate([v, v2], axis=ax))
		cmp('sum', lambda: x.sum(ax), v.sum(ax))
		cmp('sum', lambda: x.sum(axis=ax), v.sum(ax))
		if shape[ax]:
			cmp('mean', lambda: x.mean(ax), v.mean(ax), 16 * eps)
			tsh = list(shape)
			tsh[ax] = int(rng.integers(1, 4))
			ti = rng.integers(0, shape[ax], size=tsh)
			if v.size or not name.startswith('jax'):
				cmp('take_along_axis', lambda: x.take_along_axis(backend_index(ctx, name, ti), axis=ax), np.take_along_axis(v, np.broadcast_to(ti[..., None], ti.shape + (len(S),)) if len(S) else ti[..., None][..., :0], axis=ax) if len(S) else np.zeros(tuple(tsh) + (0,)))
				# the same choice of entries along the other axes
				ti = rng.integers(0, shape[ax], size=[k if i == ax or rng.random() < .5 else 1 for i, k in enumerate(tsh)])
				if len(S) and v.size:
					full = np.broadcast_to(ti, [k if i == ax else shape[i] for i, k in enumerate(ti.shape)])
					cmp('take_along_axis', lambda: x.take_along_axis(backend_index(ctx, name, ti), axis=ax), np.take_along_axis(v, np.broadcast_to(full[..., None], full.shape + (len(S),)), axis=ax))
	if len(shape) == 2:
		cmp('rearrange', lambda: x.rearrange('a b c -> b a c'), v.transpose(1, 0, 2))
		if v.size:
			cmp('rearrange', lambda: x.rearrange('a b c -> (a b) c'), v.reshape(-1, len(S)))
	if len(shape) >= 1 and v.size:
		cmp('repeat', lambda: x.repeat('a ... -> a k ...', k=2), np.repeat(v[:, None], 2, axis=1))
	if len(shape) == 1 and v.size:
		cmp('repeat', lambda: x.repeat('a c -> (a k) c', k=3), np.repeat(v, 3, axis=0))
	if name.startswith('numpy'):
		cmp('reshape', lambda: x.reshape((1,) + shape), v[None])
		if v.size:
			cmp('flatten', lambda: x.flatten(), v.reshape(-1, len(S)))
			cmp('reshape', lambda: x.reshape(shape[::-1]), v.reshape(shape[::-1] + (len(S),)))
		if len(shape):
			mon.check(len(x) == shape[0], f'{name}/len', f'{len(x)} for {shape}')


def backend_index(ctx, name, a):
	if name.startswith('torch'):
		import torch
		return torch.as_tensor(a)
	return a


PRODUCTS = {**ops.PRODUCT, **ops.GRADED, **ops.ANTI, **ops.INVPROD}


def shapes_for(rng, k):
	"""k mutually broadcastable shapes with axes of length 0, 1 and more, and differing rank"""
	full = tuple(int(rng.choice([0, 1, 2, 3, 4], p=[.06, .14, .4, .3, .1])) for _ in range(rng.integers(0, 4)))
	out = []
	for _ in range(k):
		s = tuple(1 if rng.random() < 0.3 else n for n in full)
		s = s[int(rng.integers(0, len(s) + 1)) if rng.random() < 0.5 else 0:]
		out.append(s)
	return out


def broadcasting(mon, name, ctx, ref, rng):
	"""products of operands with different batch shapes, against the reference model evaluated with numpy broadcasting"""
	names = [k for k in PRODUCTS if ref.n >= {'bivector_product': 2, 'trivector_product': 3}.get(k, 1)]
	lim = 8 if ref.n < 6 else 5
	for kind in ('product', 'sym', 'sandwich', 'unary'):
		if kind == 'product':
			k = names[rng.integers(len(names))]
			e, arity, order = PRODUCTS[k], 2, None
		elif kind == 'sym':
			k = ['squared', 'symmetric_reverse_product', 'inverse_factor', 'symmetric_conjugate_product'][rng.integers(4)]
			e, arity, order = ops.SYMMETRIC[k], 1, [0] * ops.SYMMETRIC[k][0]
		elif kind == 'sandwich':
			k = ['sandwich', 'full_sandwich', 'reverse_sandwich'][rng.integers(3)]
			e, arity, order = ops.SANDWICH[k], 2, [0, 1, 0]
		else:
			k = list(ops.UNARY)[rng.integers(len(ops.UNARY))]
			e, arity, order = ops.UNARY[k], 1, None
		sh = shapes_for(rng, arity)
		xs, rs = [], []
		for s in sh:
			masks = gen.random_masks(rng, ref, None, lim)
			S = gen.subspace(ctx.algebra, masks, rng)
			v = gen.ints(rng, s + (len(S),), -3, 3)
			xs.append(gen.mk(ctx, S, v))
			rs.append(gen.ref_of(S, v))
		rts = oplib.routes(ctx, {k: e}, k)
		rt = rts[rng.integers(len(rts))]
		mon.count('entrywise')
		oplib.observe(mon, f'{name}/broadcast/{k}', f'{k} with batch shapes {sh} [{name}]', ref, lambda: oplib.invoke(ctx, rt, xs, order), e[-1](ref)(*rs), sh, [x.subspace for x in xs])


FUNCS = dict(
	inverse=lambda m, b, w: m.inverse(), divide=lambda m, b, w: b / m, norm_squared=lambda m, b, w: m.norm_squared(), norm=lambda m, b, w: m.norm(),
	normalized=lambda m, b, w: m.normalized(), exp=lambda m, b, w: b.exp(), exp_linear=lambda m, b, w: b.exp_linear(), exp_linear_normalized=lambda m, b, w: b.exp_linear_normalized(),
	exp_quadratic=lambda m, b, w: b.exp_quadratic(), motor_log=lambda m, b, w: m.normalized().motor_log(), motor_square_root=lambda m, b, w: m.normalized().motor_square_root(),
	mean=lambda m, b, w: m.normalized().motor_geometric_mean(w.normalized()), shirokov=lambda m, b, w: m.inverse_shirokov(), sandwich_map=lambda m, b, w: m.sandwich_map()(w.select[1]),
	log_linear=lambda m, b, w: m.motor_log_linear_normalized(), two=lambda m, b, w: (m * w).inverse() * (b ^ b), interp=lambda m, b, w: (m.normalized() >> b) + w,
)


def entrywise(mon, name, ctx, ref, rng):
	"""evaluating a batch equals evaluating every entry"""
	n = ref.n
	if n < 2 or n > 5 or name.endswith('32') or ref.sig.count(0) > 1:
		return
	B = ctx.subspace.bivector()
	M = B.union(ctx.subspace.scalar())
	sh = [(3,), (2, 2), (1, 3), (2, 1)][rng.integers(4)]
	mv = rng.normal(size=sh + (len(M),)) * 0.15
	mv[..., [int(b) for b in M.blades].index(0)] = 1
	# entries of very different size and nature next to one another
	wv = rng.normal(size=sh + (len(M),)) * 0.1
	wv[..., [int(b) for b in M.blades].index(0)] = 1
	bv = rng.normal(size=sh + (len(B),)) * 0.2
	bv[0] *= 1e-3
	names = list(FUNCS)
	jx = name.startswith('jax')
	for key in [names[i] for i in rng.permutation(len(names))[:2 if jx else 5]]:
		f = FUNCS[key]
		g = lambda idx: f(gen.mk(ctx, M, mv[idx]), gen.mk(ctx, B, bv[idx]), gen.mk(ctx, M, wv[idx]))
		mon.case(backend=name, op=key, signature=list(ref.sig), m=mv, b=bv)
		with np.errstate(all='ignore'):
			out = mon.call(f'{name}/entrywise/{key}', g, Ellipsis)
			v = gen.to_np(out.values)
			idxs = list(np.ndindex(*sh))
			for idx in [idxs[i] for i in rng.permutation(len(idxs))[:2]]:
				one = mon.call(f'{name}/entrywise/{key}', g, idx)
				o = gen.to_np(one.values)
				mon.count('entrywise')
				if not np.all(np.isfinite(o)) or np.max(np.abs(o), initial=0) > 1e4:
					mon.count('entrywise_skipped')
					continue
				mon.seen(name, 'entrywise', key, ref.sig, sh)
				if v.ndim == 1:
					got = v
				else:
					got = np.broadcast_to(v, sh + v.shape[-1:])[idx]
				ok = one.subspace == out.subspace and got.shape == o.shape and np.all(np.abs(got - o) <= 1e-6 * (1 + np.max(np.abs(o), initial=0)))
				mon.check(ok, f'{name}/entrywise/{key}', lambda: f'{key} [{name}] of batch entry {idx}: {got} alone: {o}')


def layout(mon, name, ctx, ref, rng):
	"""the result does not depend on how the coefficients are laid out in memory or spelled"""
	masks = gen.random_masks(rng, ref, None, 8)
	S = gen.subspace(ctx.algebra, masks, rng)
	v = gen.ints(rng, (2, 3, len(S)))
	tb, jx = name.startswith('torch'), name.startswith('jax')
	forms = dict(
		list=lambda: v.tolist(), ints=lambda: v.astype(int), single=lambda: v.astype(np.float32), nested=lambda: v.astype(int).tolist(),
	)
	if not tb:
		wide = np.zeros((2, 6, len(S)))
		wide[:, ::2] = v
		forms.update(
			fortran=lambda: np.asfortranarray(v), transposed=lambda: v.transpose(2, 1, 0).copy().transpose(2, 1, 0),
			strided=lambda: wide[:, ::2], reversed=lambda: v[::-1].copy()[::-1], readonly=lambda: np.broadcast_to(v, v.shape),
		)
	else:
		import torch
		forms.update(tensor=lambda: torch.as_tensor(v), tstrided=lambda: torch.as_tensor(v.transpose(2, 1, 0).copy()).permute(2, 1, 0))
	if not len(S):
		for k in ('list', 'nested'):
			forms.pop(k)
	for k in [list(forms)[i] for i in rng.permutation(len(forms))[:3]]:
		mon.count('layout')
		a = mon.call(f'{name}/layout/{k}', lambda: gen.mk(ctx, S, forms[k]()))
		compare(mon, name, 'layout/' + k, ref, lambda: a, S, v)
		r = gen.ref_of(S, v)
		oplib.observe(mon, f'{name}/layout_product/{k}', f'a * ~a with coefficients given as {k} [{name}]', ref, lambda: a * ~a, ref.mul(r, ref.rev(r)), [(2, 3)], [S])


def operators(mon, name, ctx, ref, rng):
	"""batches of linear maps are indexed, updated, joined, summed, inverted and applied like batches of matrices"""
	tb, jx, np_ = [name.startswith(k) for k in ('torch', 'jax', 'numpy')]
	if ref.n > 5:
		return
	S, V = (gen.subspace(ctx.algebra, gen.random_masks(rng, ref, None, 6) or {0}, rng) for _ in range(2))
	shape = [(2,), (3,), (1, 2), (2, 3), (3, 1)][rng.integers(5)]
	order = int(rng.integers(2))

	def build(shape):
		v = gen.ints(rng, shape + (len(S),), -4, 4)
		x = gen.mk(ctx, S, v)
		if order:
			m = mon.call(f'{name}/map', lambda: ctx.operator.product(S, V).partial({0: x}))
		else:
			m = mon.call(f'{name}/map', lambda: ctx.operator.product(V, S).partial({1: x}))
		K = np.zeros(shape + (len(V), len(m.output)))
		col = {int(b): i for i, b in enumerate(m.output.blades)}
		r = gen.ref_of(S, v)
		for i, b in enumerate(V.blades):
			e = {int(b): np.ones(shape)}
			for k, c in (ref.mul(r, e) if order else ref.mul(e, r)).items():
				if np.any(c):
					K[..., i, col[k]] = c
		return m, K

	def same(key, op, K):
		"""the map as its matrix, and applied to operands of several batch shapes"""
		mon.count('maps')
		mon.case(backend=name, op='map ' + key, signature=list(ref.sig), subspaces=[S.named_str, V.named_str], shape=list(K.shape))
		mon.seen(name, 'map', key, S.blades.tobytes(), V.blades.tobytes(), K.shape)
		op = mon.call(f'{name}/map/{key}', op)
		got = gen.to_np(op.kernel)
		if not mon.check(got.shape == K.shape and np.array_equal(got, K), f'{name}/map/{key}', lambda: f'map {key} [{name}]: matrices {got.shape}: {got.ravel()[:8]} expected {K.shape}: {K.ravel()[:8]}'):
			return op
		mon.check(tuple(op.shape) == K.shape[:-2], f'{name}/map/{key}/shape', lambda: f'map {key}: batch shape {tuple(op.shape)}, expected {K.shape[:-2]}')
		batch = K.shape[:-2]
		for sh in ((), batch, batch[-1:], (2,) + (1,) * len(batch)):
			w = gen.ints(rng, sh + (K.shape[-2],), -4, 4)
			out = gen.to_np(mon.call(f'{name}/map/{key}', lambda: op(gen.mk(ctx, op.inputs[0], w))).values)
			e = np.einsum('...ij,...i->...j', K, w)
			mon.check(out.shape == e.shape and np.array_equal(out, e), f'{name}/map/{key}', lambda: f'map {key} of {K.shape[:-2]} applied to {sh} [{name}]: {out.shape} {out.ravel()[:8]} expected {e.shape} {e.ravel()[:8]}')
		return op

	m, K = build(shape)
	if not len(m.output) or not len(V):
		return
	same('build', lambda: m, K)
	j = int(rng.integers(shape[0]))
	same('getitem', lambda: m[j], K[j])
	ia = rng.integers(0, shape[0], size=3)
	same('getitem_array', lambda: m[backend_index(ctx, name, ia)], K[ia])
	same('getitem_slice', lambda: m[j:], K[j:])
	same('getitem_new', lambda: m[None], K[None])
	ax = int(rng.integers(len(shape)))
	same('sum', lambda: m.sum(ax), K.sum(ax))
	m2, K2 = build(shape)
	same('concatenate', lambda: m.concatenate(m2, ax), np.concatenate([K, K2], ax))
	E = K.copy()
	E[j] = K2[j]
	same('at', lambda: m.at[j].set(m2.kernel[j]), E)
	same('unchanged', lambda: m, K)
	if np_:
		same('transpose', lambda: m.transpose(), np.swapaxes(K, -1, -2))
	# a batch of invertible matrices
	full = ctx.subspace.full()
	if len(full) <= 8:
		x = gen.mk(ctx, full, gen.ints(rng, shape + (len(full),), -2, 2))
		base = gen.to_np(ctx.operator.product(full, full).partial({0: x}).kernel)
		U = np.triu(np.round(base), 1) * .5 + np.eye(len(full)) * 2
		# of different scales, as with the inertia of a small body
		U = U * 2. ** rng.integers(-3, 4, size=()) if name.endswith('32') else U * 2. ** rng.integers(-11, 12, size=(len(full), 1)) * 2. ** rng.integers(-20, 21, size=())
		from numga.operator.operator import Operator
		big = type(m)(ctx, Operator(ctx.coerce_array(U), (full, full)))
		inv = mon.call(f'{name}/map/inverse', big.inverse)
		got, want = gen.to_np(inv.kernel), np.linalg.inv(U)
		mon.count('maps')
		tol = 1e-4 if name.endswith('32') else 1e-6
		mon.check(got.shape == want.shape and np.all(np.abs(got - want) <= tol * np.abs(want).max()), f'{name}/map/inverse', lambda: f'inverse of {shape} maps [{name}]: {np.abs(got - want).max()}')
		mon.check(inv.inputs == (full,) and inv.output == full, f'{name}/map/inverse', 'axes of the inverse')


def large(mon, name, ctx, ref, rng):
	"""very long batches, whose lengths are not round numbers"""
	if ref.n > 4:
		return
	names = [k for k in PRODUCTS if ref.n >= {'bivector_product': 2, 'trivector_product': 3}.get(k, 1)]
	k = names[rng.integers(len(names))]
	n = int(2 ** rng.uniform(8, 17)) + int(rng.integers(8))
	sh = [((n,), (n,)), ((n,), ()), ((3, n // 3), (n // 3,)), ((n // 5, 1), (5,)), ((n, 1), (1, 2))][rng.integers(5)]
	xs, rs = [], []
	for s in sh:
		S = gen.subspace(ctx.algebra, gen.random_masks(rng, ref, None, 6), rng)
		v = gen.ints(rng, s + (len(S),), -3, 3)
		xs.append(gen.mk(ctx, S, v))
		rs.append(gen.ref_of(S, v))
	mon.count('large')
	rt = oplib.routes(ctx, {k: PRODUCTS[k]}, k)[0]
	oplib.observe(mon, f'{name}/large/{k}', f'{k} with batch shapes {sh} [{name}]', ref, lambda: oplib.invoke(ctx, rt, xs), PRODUCTS[k][-1](ref)(*rs), sh, [x.subspace for x in xs])
	oplib.observe(mon, f'{name}/large/sandwich', f'sandwich with batch shapes {sh} [{name}]', ref, lambda: xs[0] >> xs[1], ops.SANDWICH['sandwich'][-1](ref)(*rs), sh, [x.subspace for x in xs])
	if ref.n > 1 and not name.endswith('32'):
		x = gen.mk(ctx, ctx.subspace.bivector(), rng.normal(size=(n, len(ctx.subspace.bivector()))) * .5) + 2.
		for key, f in (('inverse', lambda x: x.inverse()), ('norm', lambda x: x.norm_squared()), ('sum', lambda x: x - 2 * x)):
			with np.errstate(all='ignore'):
				out = gen.to_np(mon.call(f'{name}/large/{key}', f, x).values)
				for i in {0, n - 1, n // 2, int(rng.integers(n))}:
					one = gen.to_np(f(x[i]).values)
					mon.check(np.allclose(out[i], one, rtol=1e-6, atol=1e-6, equal_nan=True), f'{name}/large/{key}', lambda: f'{key} [{name}] of entry {i} of {n}: {out[i]} alone: {one}')
