"""Products composed with complements and duals"""
from vf import gen, ops, oplib
from vf.checks import multilinear

RULE = ('random algebras (all 120 signatures up to 4 generators, samples up to 11), random operand subspaces, integer coefficients, batch shapes; '
	'an observation is one call of an anti-space, interior, regressive or cross product compared exactly with the composition of reference complements and '
	'products that defines it; nontrivial: nonzero reference result; distinct by (entry point, signature, operand subspaces)')
REQUIRED = {'nonzero': 375}


def jobs(tier, seed):
	return oplib.std_jobs(tier, seed, 'C04')


def extra(mon, ctx, ref, rng, c):
	n = ref.n
	kd = 'sparse' if n > 8 else None
	ml = multilinear.maxlen(n, 2)
	if n > 8:
		return
	a, ra = oplib.random_operand(ctx, ref, rng, kd, ml)
	b, rb = oplib.random_operand(ctx, ref, rng, kd, ml)
	x, rx = oplib.random_operand(ctx, ref, rng, 'sparse', ml)
	# regressive product: de Morgan, associativity, pseudoscalar is its unit
	oplib.observe(mon, 'regressive/de_morgan', 'dual(a & b)', ref, lambda: (a & b).dual(), ref.wedge(ref.rhodge(ra), ref.rhodge(rb)), [()], [a.subspace, b.subspace])
	oplib.observe(mon, 'regressive/associative', '(a&b)&x', ref, lambda: (a & b) & x, ref.regressive(ra, ref.regressive(rb, rx)), [()], [a.subspace, b.subspace, x.subspace])


def run(job, mon):
	multilinear.run(job, mon, ops.ANTI, 2, 'C04', extra, nops=None if job['kind'] in ('small', 'n5') else 6)
