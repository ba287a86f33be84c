"""Multivectors form a graded vector space: sums, scalars, selection, construction"""
import numpy as np

from vf import backends, gen, ops, oplib
from vf.gen import rng_of
from vf.harness import Skip
from vf.ref import Ref, add, blade_mul, popcount, scale, sel_blades, sub

RULE = ('random algebras up to 10 generators, random operand subspaces, broadcastable batch shapes, numpy and torch (jax in few jobs); an observation is one sum, difference, scalar '
	'operation, selection, restriction or construction compared exactly with arithmetic on the coefficients by blade, including the exact output subspace, '
	'or a vector space / distributive law evaluated both ways; distinct by (entry point, signature, subspaces)')
REQUIRED = {'nonzero': 750, 'laws': 125, 'construct': 250, 'subspace': 500, 'magnitude': 100}
BUDGET = dict(quick=400, thorough=600)


def jobs(tier, seed):
	rng = rng_of('C12', seed, 'jobs')
	q = tier == 'quick'
	specs = []
	for n in (1, 2, 3, 4):
		specs += [gen.spec_of(s, rng) for s in gen.all_sigs(n)]
	for n in [5] * 16 + [6] * 8 + [7, 8, 9, 10]:
		specs.append(gen.spec_of(tuple(int(s) for s in rng.choice([1, -1, 0], size=n)), rng))
	specs = [specs[i] for i in rng.permutation(len(specs))]
	js = []
	for rep in range(1 if q else 14):
		for i in range(0, len(specs), 6):
			js.append(dict(kind='numpy', names=['numpy/Einsum/float64', 'numpy/Sparse/float64'], specs=specs[i:i + 6], cases=7, seed=['C12', seed, rep, i], essential=rep == 0))
		for i in range(0, 30, 6):
			js.append(dict(kind='torch', names=['torch/Einsum/float64', 'torch/Sparse/float32'], specs=[specs[j] for j in rng.permutation(len(specs))[:4]], cases=3, seed=['C12', seed, 't', rep, i]))
		js.append(dict(kind='jax', names=['jax/Einsum/float64'], specs=[specs[j] for j in rng.permutation(len(specs))[:3]], cases=2, seed=['C12', seed, 'j', rep]))
	return js


def run(job, mon):
	for i, spec in enumerate(job['specs']):
		rng = rng_of(*job['seed'], i)
		mon.case(spec=spec)
		try:
			alg = mon.call('construct', gen.build_algebra, spec)
			ref = Ref(spec['sig'])
			for name in job['names']:
				ctx = mon.call('context/' + name, backends.make, name, alg)
				for c in range(job['cases']):
					for f in (arithmetic, magnitudes, laws, selection, construction):
						try:
							f(mon, name, ctx, ref, rng)
						except Skip:
							pass
		except Skip:
			pass


def operand(ctx, ref, rng, shape, lim=24):
	masks = gen.random_masks(rng, ref, 'sparse' if ref.n > 8 else None, lim)
	s = gen.subspace(ctx.algebra, masks, rng)
	v = gen.ints(rng, shape + (len(s),))
	return gen.mk(ctx, s, v), gen.ref_of(s, v)


def exact(mon, key, out, want):
	"""the output lives in exactly these blades"""
	if not hasattr(out, 'subspace'):
		return
	mon.count('subspace')
	got = {int(b) for b in out.subspace.blades}
	mon.check(got == set(want), key + '/subspace', lambda: f'output blades {sorted(got)} expected {sorted(want)}')


def arithmetic(mon, name, ctx, ref, rng):
	sh = oplib.batch_shapes(rng, 2)
	a, ra = operand(ctx, ref, rng, sh[0])
	b, rb = operand(ctx, ref, rng, sh[1])
	if rng.random() < 0.3:
		# same subspace; the shortcut
		v = gen.ints(rng, sh[1] + (len(a.subspace),))
		b, rb = gen.mk(ctx, a.subspace, v), gen.ref_of(a.subspace, v)
	A, B = set(ra), set(rb)
	S = [a.subspace, b.subspace]
	p = f'{name.split("/")[0]}/'
	o = lambda key, fn, e, shapes, want: exact(mon, p + key, oplib.observe(mon, p + key, f'{key} [{name}]', ref, fn, e, shapes, S), want)
	full = lambda r, masks, shape: {m: r.get(m, np.zeros(shape)) for m in masks}
	o('add', lambda: a + b, add(ra, rb), sh, A | B)
	o('sub', lambda: a - b, sub(ra, rb), sh, A | B)
	o('neg', lambda: -a, scale(ra, -1), sh[:1], A)
	o('pos', lambda: +a, ra, sh[:1], A)
	k = [2, -3, 0.5, 4.0, -1, 1, 0, -0.25, np.float64(2.0), np.int64(3)][rng.integers(10)]
	kf = float(k)
	o('mul_scalar', lambda: a * k, scale(ra, kf), sh[:1], A)
	o('rmul_scalar', lambda: k * a, scale(ra, kf), sh[:1], A)
	o('add_scalar', lambda: a + k, add(ra, {0: kf}), sh[:1], A | {0})
	o('radd_scalar', lambda: k + a, add(ra, {0: kf}), sh[:1], A | {0})
	o('sub_scalar', lambda: a - k, sub(ra, {0: kf}), sh[:1], A | {0})
	o('rsub_scalar', lambda: k - a, add(scale(ra, -1), {0: kf}), sh[:1], A | {0})
	d = [2, 4.0, -0.5, 8][rng.integers(4)]
	o('div_scalar', lambda: a / d, scale(ra, 1 / d), sh[:1], A)
	# an array of scalars spans the batch axes
	arr = gen.ints(rng, sh[1], 1, 4, 0)
	pw = 2.0 ** rng.integers(-2, 3, size=sh[1])
	o('mul_array', lambda: a * arr, scale(ra, arr), sh, A)
	o('add_array', lambda: a + arr, add(ra, {0: arr}), sh, A | {0})
	o('sub_array', lambda: a - arr, sub(ra, {0: arr}), sh, A | {0})
	# on either side
	o('rmul_array', lambda: arr * a, scale(ra, arr), sh, A)
	o('radd_array', lambda: arr + a, add(ra, {0: arr}), sh, A | {0})
	o('rsub_array', lambda: arr - a, add({0: arr}, scale(ra, -1)), sh, A | {0})
	o('div_array', lambda: a / pw, scale(ra, 1 / pw), sh, A)
	s = mon.call(p + 'scalar', lambda: ctx.multivector.scalar(arr[..., None]))
	o('mul_scalar_mv', lambda: a * s, scale(ra, arr), sh, A)
	o('rmul_scalar_mv', lambda: s * a, scale(ra, arr), sh, A)
	o('add_scalar_mv', lambda: a + s, add(ra, {0: arr}), sh, A | {0})
	ps = ctx.multivector.scalar(pw[..., None])
	o('div_scalar_mv', lambda: a / ps, scale(ra, 1 / pw), sh, A)
	o('rdiv', lambda: 4 / ps, {0: 4 / pw}, sh[1:], {0})
	o('rdiv', lambda: np.float64(4) / ps, {0: 4 / pw}, sh[1:], {0})
	o('rdiv_array', lambda: arr / ps, {0: arr / pw}, sh[1:], {0})


def magnitudes(mon, name, ctx, ref, rng):
	"""the linear structure knows no absolute scale: operands of one common tiny or huge power of two, exactly"""
	sh = oplib.batch_shapes(rng, 2)
	a, ra = operand(ctx, ref, rng, sh[0])
	T = gen.subspace(ctx.algebra, gen.random_masks(rng, ref, 'sparse' if ref.n > 8 else None, 24), rng)
	S = a.subspace if rng.random() < .5 else operand(ctx, ref, rng, ())[0].subspace
	k = gen.magnitude(rng, 1)
	va, vb = gen.ints(rng, sh[0] + (len(a.subspace),)) * k, gen.ints(rng, sh[1] + (len(S),)) * k
	a, ra, b, rb = gen.mk(ctx, a.subspace, va), gen.ref_of(a.subspace, va), gen.mk(ctx, S, vb), gen.ref_of(S, vb)
	p = f'{name.split("/")[0]}/magnitude/'
	A, B = {int(x) for x in a.subspace.blades}, {int(x) for x in T.blades}
	o = lambda key, fn, e, shapes: oplib.observe(mon, p + key, f'{key} [{name}]', ref, fn, e, shapes, [a.subspace, S])
	mon.count('magnitude')
	o('add', lambda: a + b, add(ra, rb), sh)
	o('sub', lambda: a - b, sub(ra, rb), sh)
	o('rsub', lambda: b - a, sub(rb, ra), sh)
	o('neg', lambda: -a, scale(ra, -1), sh[:1])
	j = gen.magnitude(rng, 1, -30, 30) * [1, -1, 3][rng.integers(3)]
	o('mul_scalar', lambda: a * j, scale(ra, j), sh[:1])
	o('rmul_scalar', lambda: j * a, scale(ra, j), sh[:1])
	o('add_scalar', lambda: a + k, add(ra, {0: k}), sh[:1])
	o('rsub_scalar', lambda: k - a, add(scale(ra, -1), {0: k}), sh[:1])
	o('div_scalar', lambda: a / k, scale(ra, 1 / k), sh[:1])
	o('select_subspace', lambda: a.select_subspace(T), sel_blades(ra, B), sh[:1])
	o('restrict_subspace', lambda: a.restrict_subspace(T), sel_blades(ra, B), sh[:1])
	if ref.n <= 8:
		g = int(rng.integers(ref.n + 1))
		K = {m for m in range(ref.N) if popcount(m) == g}
		o('select[g]', lambda: a.select[g], sel_blades(ra, K), sh[:1])
		o('restrict[g]', lambda: a.restrict[g], sel_blades(ra, K), sh[:1])
	o('cancel', lambda: (a + b) - a, {m: np.broadcast_to(v, np.broadcast_shapes(*sh)) for m, v in rb.items()}, sh)


def laws(mon, name, ctx, ref, rng):
	"""vector space and distributive laws, evaluated by the library on both sides"""
	sh = oplib.batch_shapes(rng, 3)
	lim = 12 if ref.n < 6 else 5
	(a, ra), (b, rb), (c, rc) = (operand(ctx, ref, rng, s, lim) for s in sh)
	p = f'{name.split("/")[0]}/laws/'
	full = np.broadcast_shapes(*sh)
	S = [a.subspace, b.subspace, c.subspace]

	def law(key, fn, e):
		mon.count('laws')
		oplib.observe(mon, p + key, f'{key} [{name}]', ref, fn, {m: np.broadcast_to(v, full) for m, v in e.items()}, sh, S)
	law('associative', lambda: (a + b) + c, add(ra, rb, rc))
	law('associative', lambda: a + (b + c), add(ra, rb, rc))
	law('cancel', lambda: (a + b) - b + c - c, ra)
	op = {**ops.PRODUCT, **ops.GRADED, **ops.ANTI}
	names = [k for k in op if op[k][1] and ref.n >= {'bivector_product': 2, 'trivector_product': 3}.get(k, 1)]
	k = names[rng.integers(len(names))]
	ms = op[k][1]
	m = ms if isinstance(ms, str) else ms[0]
	f = op[k][-1](ref)
	P = lambda x, y: getattr(x, m)(y)
	law('left_distributive/' + k, lambda: P(a, b + c), f(ra, add(rb, rc)))
	law('left_distributive/' + k, lambda: P(a, b) + P(a, c), f(ra, add(rb, rc)))
	law('right_distributive/' + k, lambda: P(b - c, a), f(sub(rb, rc), ra))
	law('right_distributive/' + k, lambda: P(b, a) - P(c, a), f(sub(rb, rc), ra))
	law('homogeneous/' + k, lambda: P(a * 2, b) + c * 0, scale(f(ra, rb), 2))
	law('homogeneous/' + k, lambda: P(a, b * 2) + c * 0, scale(f(ra, rb), 2))


def selection(mon, name, ctx, ref, rng):
	shape = [(), (3,), (2, 2)][rng.integers(3)]
	a, ra = operand(ctx, ref, rng, shape)
	kd = 'sparse' if ref.n > 8 else None
	T = gen.subspace(ctx.algebra, gen.random_masks(rng, ref, kd, 24), rng)
	A, B = set(ra), {int(x) for x in T.blades}
	p = f'{name.split("/")[0]}/'
	o = lambda key, fn, e, want: exact(mon, p + key, oplib.observe(mon, p + key, f'{key} [{name}]', ref, fn, e, [shape], [a.subspace, T]), want)
	o('select_subspace', lambda: a.select_subspace(T), sel_blades(ra, B), B)
	o('restrict_subspace', lambda: a.restrict_subspace(T), sel_blades(ra, B), A & B)
	o('parts', lambda: a.restrict_subspace(T) + a.restrict_subspace(a.subspace.difference(T)), ra, A)
	if ref.n > 8:
		return
	K = lambda *g: {m for m in range(ref.N) if popcount(m) in g}
	g = int(rng.integers(ref.n + 1))
	h = tuple(sorted({int(x) for x in rng.integers(0, ref.n + 1, size=3)}))
	item = lambda t: t if len(t) > 1 else t[0]
	o('select[g]', lambda: a.select[g], sel_blades(ra, K(g)), K(g))
	o('restrict[g]', lambda: a.restrict[g], sel_blades(ra, K(g)), A & K(g))
	o('select[g,h]', lambda: a.select[item(h)], sel_blades(ra, K(*h)), K(*h))
	o('restrict[g,h]', lambda: a.restrict[item(h)], sel_blades(ra, K(*h)), A & K(*h))
	o('select_grade', lambda: a.select_grade(g), sel_blades(ra, K(g)), K(g))
	o('restrict_grade', lambda: a.restrict_grade(g), sel_blades(ra, K(g)), A & K(g))
	named = {k: v for k, v in gen.named_masks(ref).items() if k not in ('bivector', 'trivector', 'quadvector', 'antibivector') or ref.n >= dict(bivector=2, trivector=3, quadvector=4, antibivector=2)[k]}
	k = list(named)[rng.integers(len(named))]
	o('select.named', lambda: getattr(a.select, k)(), sel_blades(ra, named[k]), named[k])
	for X in (A, gen.random_masks(rng, ref, None, 4)):
		text, X = gen.written(rng, a.context, X)
		if text:
			o('select.written', lambda: getattr(a.select, text), sel_blades(ra, X), X)
			o('restrict.written', lambda: getattr(a.restrict, text), sel_blades(ra, X), A & X)
	o('restrict.named', lambda: getattr(a.restrict, k)(), sel_blades(ra, named[k]), A & named[k])
	if ref.n <= 6:
		# grade decomposition is complete
		o('grades', lambda: sum((a.select[i] for i in range(1, ref.n + 1)), a.select[0]), ra, K(*range(ref.n + 1)))


def construction(mon, name, ctx, ref, rng):
	p = f'{name.split("/")[0]}/construct/'
	n = ref.n
	m = ctx.multivector
	shape = [(), (2,), (0,)][rng.integers(3)]
	vals = lambda masks: gen.ints(rng, shape + (len(masks),))
	order = lambda masks: sorted(masks, key=lambda b: (popcount(b), b))

	def o(key, fn, e, shapes, want, sub=()):
		mon.count('construct')
		exact(mon, p + key, oplib.observe(mon, p + key, f'{key} [{name}]', ref, fn, e, shapes, list(sub)), want)
	if n <= 10:
		K = lambda *g: order(b for b in range(ref.N) if popcount(b) in g)
		table = dict(scalar=K(0), vector=K(1), pseudoscalar=K(n), antivector=K(n - 1), even_grade=K(*range(0, n + 1, 2)), motor=K(*range(0, n + 1, 2)), rotor=K(*range(0, n + 1, 2)), multivector=K(*range(n + 1)))
		if n >= 2:
			table.update(bivector=K(2), antibivector=K(n - 2))
		if n >= 3:
			table.update(trivector=K(3), antitrivector=K(n - 3))
		k = list(table)[rng.integers(len(table))]
		masks = table[k]
		v = vals(masks)
		o(k, lambda: getattr(m, k)(v), {b: v[..., i] for i, b in enumerate(masks)}, [shape], masks)
		o(k + '/default', lambda: getattr(m, k)(), {0: 1.0} if 0 in masks else {}, [()], masks)
		g = int(rng.integers(n + 1))
		v = vals(K(g))
		o('k_vector', lambda: m.k_vector(g, v), {b: v[..., i] for i, b in enumerate(K(g))}, [shape], K(g))
		o('empty', lambda: m.empty(), {}, [()], [])
	b = int(rng.integers(ref.N))
	s = float(rng.integers(-3, 4))
	o('blade', lambda: m.blade(b, s), {b: s}, [()], [b])
	o('blade', lambda: m.blade(b), {b: 1.0}, [()], [b])
	S = gen.subspace(ctx.algebra, gen.random_masks(rng, ref, 'sparse'), rng)
	v = vals([int(x) for x in S.blades])
	o('call', lambda: m(S, v), gen.ref_of(S, v), [shape], [int(x) for x in S.blades], [S])
	o('call', lambda: m(values=v, subspace=S), gen.ref_of(S, v), [shape], [int(x) for x in S.blades], [S])
	w = vals([int(x) for x in S.blades])
	o('copy_values', lambda: m(S, v).copy(values=ctx.coerce_array(w)), gen.ref_of(S, w), [shape], [int(x) for x in S.blades], [S])
	# basis blades by name; the order of the generators determines the sign
	names = list(ctx.algebra.description.basis_names)
	idx = [int(i) for i in rng.permutation(n)[:rng.integers(1, min(n, 5) + 1)]]
	text = ''.join(names[i] for i in idx)
	if not hasattr(type(m), text) and text not in ('context',) and not text.startswith('__'):
		sign, mask = 1, 0
		for i in idx:
			mask, q = blade_mul((1,) * n, mask, 1 << i)
			sign *= q
		o('attribute', lambda: getattr(m, text), {mask: float(sign)}, [()], [mask])
	i = int(rng.integers(n))
	o('basis', lambda: m.basis()[i], {1 << i: 1.0}, [()], [1 << i])
