"""Fused products: repeated operands, fused involutions, sandwiches"""
import numpy as np

from vf import gen, ops, oplib
from vf.checks import multilinear
from vf.gen import rng_of
from vf.harness import Skip
from vf.ref import Ref, popcount

RULE = ('random algebras (all 120 signatures up to 4 generators, samples up to 10), random operand subspaces, integer coefficients, batch shapes; '
	'an observation is one call of a fused operation (square, cube, a*~a and relatives, inverse factors, the sandwich family, inertia) compared exactly '
	'with the nested evaluation in the reference model; nontrivial: nonzero reference result; distinct by (entry point, signature, operand subspaces)')
REQUIRED = {'nonzero': 375}


def jobs(tier, seed):
	return oplib.std_jobs(tier, seed, 'C05')


SYM_LEN = {4: 16, 5: 12, 6: 8, 7: 6}


def sym(mon, ctx, ref, rng, c):
	"""operators that take the same operand several times"""
	n = ref.n
	names = list(ops.SYMMETRIC)
	for name in (names if n <= 3 else [names[i] for i in rng.permutation(len(names))[:6]]):
		k = ops.SYMMETRIC[name][0]
		# dense kernels of arity k over the operand, times the output space
		lim = {2: 40, 3: 14, 4: 7}[k] if n <= 6 else {2: 12, 3: 6, 4: 4}[k]
		sh = oplib.batch_shapes(rng, 1)
		a, ra = oplib.random_operand(ctx, ref, rng, 'sparse' if n > 8 else ('named' if c == 0 else None), lim if n > 3 else None, shape=sh[0], mag=.2)
		rts = oplib.routes(ctx, ops.SYMMETRIC, name)
		rt = rts[rng.integers(len(rts))]
		expect = ops.SYMMETRIC[name][-1](ref)(ra)
		oplib.observe(mon, f'{name}/{rt[1]}', name, ref, lambda: oplib.invoke(ctx, rt, [a], repeat=[0] * k), expect, sh, [a.subspace])


def sand(mon, ctx, ref, rng, c):
	n = ref.n
	for name in ops.SANDWICH:
		sh = oplib.batch_shapes(rng, 2)
		lr, lv = (12, 16) if n <= 6 else (5, 6)
		if n <= 4:
			lr, lv = None, None
		kd = 'sparse' if n > 8 else None
		for _ in range(20):
			R, rR = oplib.random_operand(ctx, ref, rng, kd, lr, shape=sh[0], mag=.2)
			if 'transform' not in name:
				break
			if len({popcount(m) % 2 for m in rR}) == 1:
				break
		else:
			continue
		v, rv = oplib.random_operand(ctx, ref, rng, ('named' if n <= 6 and rng.random() < .4 else kd), lv, shape=sh[1], mag=.2)
		rts = oplib.routes(ctx, ops.SANDWICH, name)
		rt = rts[rng.integers(len(rts))]
		expect = ops.SANDWICH[name][-1](ref)(rR, rv)
		out = oplib.observe(mon, f'{name}/{rt[1]}', name, ref, lambda: oplib.invoke(ctx, rt, [R, v], repeat=[0, 1, 0]), expect, sh, [R.subspace, v.subspace])
		if name == 'sandwich' and out is not None and n <= 6:
			oplib.observe(mon, 'sandwich_map', 'R.sandwich_map(v)(v)', ref, lambda: R.sandwich_map(v.subspace)(v), expect, sh, [R.subspace, v.subspace])


def inertia(mon, ctx, ref, rng, c):
	n = ref.n
	if n > 6:
		return
	sh = oplib.batch_shapes(rng, 2)
	lim = 16 if n <= 5 else 8
	p, rp = oplib.random_operand(ctx, ref, rng, None, lim, shape=sh[0], mag=.2)
	b, rb = oplib.random_operand(ctx, ref, rng, None, lim, shape=sh[1], mag=.2)
	if n > 1 and rng.random() < 0.4:
		B, A = ctx.subspace.bivector(), ctx.subspace.antivector()
		va, vb = gen.ints(rng, sh[0] + (len(A),)), gen.ints(rng, sh[1] + (len(B),))
		p, rp, b, rb = gen.mk(ctx, A, va), gen.ref_of(A, va), gen.mk(ctx, B, vb), gen.ref_of(B, vb)
	expect = ref.regressive(rp, ref.commutator(rp, rb))
	oplib.observe(mon, 'inertia/operator', 'p & (p x b)', ref, lambda: ctx.operator.inertia(p.subspace, b.subspace)(p, p, b), expect, sh, [p.subspace, b.subspace])
	oplib.observe(mon, 'inertia/map', 'p.inertia_map(B)(b)', ref, lambda: p.inertia_map(b.subspace)(b), expect, sh, [p.subspace, b.subspace])


def extra(mon, ctx, ref, rng, c):
	sym(mon, ctx, ref, rng, c)
	sand(mon, ctx, ref, rng, c)
	inertia(mon, ctx, ref, rng, c)


def run(job, mon):
	multilinear.run(job, mon, ops.INVPROD, 2, 'C05', extra)
