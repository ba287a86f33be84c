"""Common body of the checks on unary and binary operation catalogues"""
import numpy as np

from vf import gen, oplib
from vf.gen import rng_of
from vf.harness import Skip
from vf.ref import popcount

NMAX = {6: 40, 7: 20, 8: 10, 9: 8, 10: 6, 11: 6, 12: 5, 13: 4, 14: 4}


def maxlen(n, arity):
	return NMAX.get(n) if arity > 1 or n > 7 else None


def run(job, mon, table, arity, group, extra=None, nops=None):
	if job['kind'] == 'trace':
		return oplib.run_trace(job, mon, {group})
	for i, spec in enumerate(job['specs']):
		rng = rng_of(*job['seed'], i)
		mon.case(spec=spec)
		try:
			ctx, ref = mon.call('construct', oplib.context, spec)
			for c in range(job['cases']):
				one(mon, ctx, ref, rng, table, arity, c, nops)
				if extra:
					extra(mon, ctx, ref, rng, c)
		except Skip:
			pass
	if job['specs']:
		mon.sample(dict(spec=job['specs'][-1]))


def one(mon, ctx, ref, rng, table, arity, c, nops=None):
	n = ref.n
	names = [k for k in table if n >= {'bivector_product': 2, 'trivector_product': 3}.get(k, 1)]
	if nops is not None and nops < len(names):
		names = [names[i] for i in rng.permutation(len(names))[:nops]]
	sh = oplib.batch_shapes(rng, arity)
	ml = maxlen(n, arity)
	kd = 'sparse' if n > 8 else ('named' if c == 0 else None)
	same = rng.random() < 0.15
	xs = [oplib.random_operand(ctx, ref, rng, kd, ml, shape=s, mag=.25) for s in sh]
	if same and arity == 2:
		xs[1] = xs[0]
		sh = [sh[0], sh[0]]
	if c == 1 and n <= (5 if arity > 1 else 7):
		F = ctx.subspace.multivector()
		vs = [gen.ints(rng, s + (len(F),)) for s in sh]
		xs = [(gen.mk(ctx, F, v), gen.ref_of(F, v)) for v in vs]
	for name in names:
		rts = oplib.routes(ctx, table, name)
		rt = rts[rng.integers(len(rts))]
		expect = table[name][-1](ref)(*[r for _, r in xs])
		oplib.observe(mon, f'{name}/{rt[1]}', name, ref, lambda: oplib.invoke(ctx, rt, [m for m, _ in xs]), expect, sh,
			[m.subspace for m, _ in xs])
