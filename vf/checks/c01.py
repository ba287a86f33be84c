"""Geometric product"""
import numpy as np

from vf import gen, ops, oplib
from vf.gen import rng_of
from vf.harness import Skip
from vf.ref import Ref, blade_mul, popcount

RULE = ('random algebras (all 120 signatures up to 4 generators, samples above, up to 32 generators at blade level), random subspace pairs, '
	'integer coefficients, random batch shapes; an observation is one product call compared exactly with the reference model; '
	'nontrivial: reference product has a nonzero coefficient; distinct by (entry point, signature, operand subspaces)')
REQUIRED = {'nonzero': 75, 'blade_pairs': 250, 'wide': 10}


def jobs(tier, seed):
	js = oplib.std_jobs(tier, seed, 'C01')
	for j in js:
		if j['kind'] in ('small', 'n5', 'n6'):
			j['cases'] *= 4
	rng = rng_of('C01', seed, 'x')
	ns = [13, 14, 15, 16, 17, 18] if tier == 'quick' else [13, 14, 15, 16, 17, 18, 19] * 2
	for i, n in enumerate(ns):
		sig = [int(s) for s in rng.choice([1, -1, 0], p=[.4, .35, .25], size=n)]
		js.append(dict(kind='huge', specs=[gen.spec_of(sig, rng, 'letters')], seed=['C01', seed, 'huge', i], cases=2))
	for i, n in enumerate([8, 9, 9, 10, 10, 11] if tier == 'quick' else [8, 9, 9, 10, 10, 11] * 2):
		sig = [int(s) for s in rng.choice([1, -1, 0], p=[.4, .35, .25], size=n)]
		js.insert(0, dict(kind='wide', specs=[gen.spec_of(sig, rng, 'letters')], seed=['C01', seed, 'wide', i], cases=3, essential=i < 3))
	for i in range(4 if tier == 'quick' else 24):
		js.insert(0, dict(kind='blades', seed=['C01', seed, 'blades', i], essential=True))
	return js


def run(job, mon):
	k = job['kind']
	if k == 'trace':
		return oplib.run_trace(job, mon, {'C01'})
	if k == 'blades':
		return blades(job, mon)
	if k == 'wide':
		return wide(job, mon)
	for i, spec in enumerate(job['specs']):
		rng = rng_of(*job['seed'], i)
		mon.case(spec=spec)
		try:
			algebra_case(mon, spec, rng, job['cases'], k)
		except Skip:
			pass


def algebra_case(mon, spec, rng, cases, kind):
	ctx, ref = mon.call('construct', oplib.context, spec)
	n = ref.n
	mon.check(ctx.algebra.n_dimensions == n and len(ctx.algebra) == 2 ** n and ctx.algebra.n_grades == n + 1 and ctx.algebra.n_blades == 2 ** n,
		'algebra/size', f'{spec}')
	if n <= 12:
		pss = mon.call('pseudo_scalar_squared', lambda: ctx.algebra.pseudo_scalar_squared)
		mon.check(pss == blade_mul(ref.sig, ref.I, ref.I)[1], 'algebra/pseudo_scalar_squared', f'{ref.sig}: {pss}')
	# generators square to the metric and anticommute
	e = mon.call('basis', ctx.multivector.basis)
	for i in range(n):
		j = int(rng.integers(n))
		for a, b in ((i, i), (i, j)):
			oplib.observe(mon, 'generators', 'e_i e_j', ref, lambda: e[a] * e[b], ref.mul({1 << a: 1.0}, {1 << b: 1.0}), [()], [e[a].subspace, e[b].subspace])
		if n > 8 and i > 3:
			break
	maxlen = None if n <= 5 else {6: 64, 7: 24}.get(n, 6 if n < 13 else 4)
	rts = oplib.routes(ctx, ops.PRODUCT, 'product')
	for c in range(cases):
		sh = oplib.batch_shapes(rng, 2)
		kd = 'sparse' if n > 7 else ('named' if c == 0 else None)
		a, ra = oplib.random_operand(ctx, ref, rng, kd, maxlen, shape=sh[0], mag=.25)
		b, rb = oplib.random_operand(ctx, ref, rng, kd, maxlen, shape=sh[1], mag=.25)
		if c == 1 and n <= 6:
			F = ctx.subspace.multivector()
			va, vb = gen.ints(rng, sh[0] + (len(F),)), gen.ints(rng, sh[1] + (len(F),))
			a, ra, b, rb = gen.mk(ctx, F, va), gen.ref_of(F, va), gen.mk(ctx, F, vb), gen.ref_of(F, vb)
		rt = rts[rng.integers(len(rts))]
		expect = ref.mul(ra, rb)
		out = oplib.observe(mon, f'product/{rt[1]}', 'a*b', ref, lambda: oplib.invoke(ctx, rt, [a, b]), expect, sh, [a.subspace, b.subspace])
		if out is not None and n <= 12:
			# the subspace level product names exactly the blades that can occur
			want = {x ^ y for x in ra for y in rb if blade_mul(ref.sig, x, y)[1]}
			got = mon.call('subspace.product', lambda: a.subspace.product(b.subspace))
			mon.check(set(map(int, got.blades)) == want, 'subspace.product', f'{a.subspace.named_str} * {b.subspace.named_str} -> {got.named_str}')
		if c == 2 and n <= 6:
			x, rx = oplib.random_operand(ctx, ref, rng, None, maxlen, shape=())
			oplib.observe(mon, 'associativity', '(ab)x', ref, lambda: (a * b) * x, ref.mul(expect, rx), sh, [a.subspace, b.subspace, x.subspace])
			oplib.observe(mon, 'associativity', 'a(bx)', ref, lambda: a * (b * x), ref.mul(expect, rx), sh, [a.subspace, b.subspace, x.subspace])
	mon.sample(dict(spec=spec, product=f'{a.subspace.named_str} * {b.subspace.named_str}'))


def wide(job, mon):
	"""a few blades against hundreds of components"""
	for i, spec in enumerate(job['specs']):
		rng = rng_of(*job['seed'], i)
		mon.case(spec=spec)
		try:
			ctx, ref = mon.call('construct', oplib.context, spec)
			for c in range(job['cases']):
				few = [int(m) for m in rng.choice(ref.N, size=1 + int(rng.integers(3)), replace=False)]
				many = range(ref.N) if c == 0 else [m for m in range(ref.N) if rng.random() < .8]
				A, B = gen.subspace(ctx.algebra, few, rng), gen.subspace(ctx.algebra, many, rng)
				va, vb = gen.ints(rng, (len(A),)), gen.ints(rng, (len(B),))
				a, b, ra, rb = gen.mk(ctx, A, va), gen.mk(ctx, B, vb), gen.ref_of(A, va), gen.ref_of(B, vb)
				mon.count('wide', 2)
				oplib.observe(mon, 'product/wide', f'{len(A)} by {len(B)} components', ref, lambda: a * b, ref.mul(ra, rb), [()], [A, B])
				oplib.observe(mon, 'product/wide', f'{len(B)} by {len(A)} components', ref, lambda: b * a, ref.mul(rb, ra), [()], [B, A])
		except Skip:
			pass


def blades(job, mon):
	"""blade level product table in up to 32 dimensions"""
	rng = rng_of(*job['seed'])
	for _ in range(40):
		n = int(rng.integers(1, 33))
		sig = [int(s) for s in rng.choice([1, -1, 0], p=[.45, .4, .15], size=n)]
		spec = gen.spec_of(sig, rng, 'multi')
		mon.case(spec=spec)
		try:
			alg = mon.call('construct', gen.build_algebra, spec)
			a = [int(x) for x in rng.integers(0, 2 ** n, size=6)] + [2 ** n - 1, 0]
			b = [int(x) for x in rng.integers(0, 2 ** n, size=6)] + [2 ** n - 1, 1 << (n - 1)]
			A, B = np.array(a, alg.blade_dtype), np.array(b, alg.blade_dtype)
			m, s = mon.call('algebra.product', alg.product, A, B)
			for i, x in enumerate(a):
				for j, y in enumerate(b):
					em, es = blade_mul(tuple(sig), x, y)
					mon.count('blade_pairs')
					mon.check(int(m[i, j]) == em and int(s[i, j]) == es, 'blade_product',
						f'sig {sig}: {x:b} * {y:b} -> {int(m[i, j]):b} sign {int(s[i, j])}, expected {em:b} sign {es}')
					if es:
						mon.seen('blade', n, x, y)
			g = mon.call('algebra.grade', alg.grade, A)
			mon.check([int(x) for x in g] == [popcount(x) for x in a], 'blade_grade', f'{a}: {g}')
		except Skip:
			pass
