"""Grade filtered products and commutators"""
import numpy as np

from vf import gen, ops, oplib
from vf.checks import multilinear
from vf.ref import add, popcount, sel_blades, sel_grades

RULE = ('random algebras (all 120 signatures up to 4 generators, samples up to 11), random operand subspaces, integer coefficients, batch shapes; '
	'an observation is one call of a grade filtered product or commutator, through a method, an operator alias or an infix operator, compared exactly '
	'with grade projection of the reference product; nontrivial: nonzero reference result; distinct by (entry point, signature, operand subspaces)')
REQUIRED = {'nonzero': 375}


def jobs(tier, seed):
	return oplib.std_jobs(tier, seed, 'C02')


def extra(mon, ctx, ref, rng, c):
	n = ref.n
	kd = 'sparse' if n > 8 else None
	ml = multilinear.maxlen(n, 2)
	# geometric product restricted to an arbitrary output subspace
	a, ra = oplib.random_operand(ctx, ref, rng, kd, ml)
	b, rb = oplib.random_operand(ctx, ref, rng, kd, ml)
	masks = gen.random_masks(rng, ref, 'sparse' if n > 8 else None)
	o = gen.subspace(ctx.algebra, masks, rng)
	oplib.observe(mon, 'n_product', 'n_product', ref, lambda: ctx.operator.n_product(a.subspace, b.subspace, o)(a, b),
		sel_blades(ref.mul(ra, rb), masks), [(), ()], [a.subspace, b.subspace, o])
	# wedge of vectors: coordinates are minors; antisymmetry
	if 2 <= n <= 6 and c % 2 == 0:
		k = int(rng.integers(2, n + 1))
		V = ctx.subspace.vector()
		M = gen.ints(rng, (k, n))
		vs = [gen.mk(ctx, V, m[np.argsort(np.argsort([int(b) for b in V.blades]))]) for m in M]
		order = [int(b).bit_length() - 1 for b in V.blades]
		vs = [gen.mk(ctx, V, m[order]) for m in M]
		expect = {}
		for m in range(ref.N):
			if popcount(m) == k:
				cols = [i for i in range(n) if m >> i & 1]
				expect[m] = float(np.round(np.linalg.det(M[:, cols])))

		def wedges():
			w = vs[0]
			for v in vs[1:]:
				w = w ^ v
			return w
		oplib.observe(mon, 'wedge/minors', f'wedge of {k} vectors', ref, wedges, expect, [()], [V])


def run(job, mon):
	multilinear.run(job, mon, ops.GRADED, 2, 'C02', extra, nops=None if job['kind'] != 'n6' else 5)
