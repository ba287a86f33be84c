"""Involutions, duals and complements"""
import numpy as np

from vf import gen, ops, oplib
from vf.checks import multilinear
from vf.ref import blade_mul

RULE = ('random algebras (all 120 signatures up to 4 generators, samples up to 11), random operand subspaces, integer coefficients, batch shapes; '
	'an observation is one call of an involution, complement, dual or degenerate part, compared exactly with its definition, or a round trip / defining '
	'identity (a ^ dual(a), dual inverse, double reverse, antiautomorphism); nontrivial: nonzero reference result; distinct by (entry point, signature, subspaces)')
REQUIRED = {'nonzero': 375, 'identities': 125}


def jobs(tier, seed):
	return oplib.std_jobs(tier, seed, 'C03')


def extra(mon, ctx, ref, rng, c):
	n = ref.n
	kd = 'sparse' if n > 8 else None
	ml = multilinear.maxlen(n, 2)
	a, ra = oplib.random_operand(ctx, ref, rng, kd, ml)
	b, rb = oplib.random_operand(ctx, ref, rng, kd, ml)
	o = ctx.operator
	S = [a.subspace]
	same = lambda key, label, fn, expect=ra, subs=S: (mon.count('identities'), oplib.observe(mon, key, label, ref, fn, expect, [()], subs))
	same('involutive/reverse', '~~a', lambda: ~~a)
	same('involutive/involute', 'a.involute().involute()', lambda: a.involute().involute())
	same('involutive/conjugate', 'a.conjugate().conjugate()', lambda: a.conjugate().conjugate())
	same('round_trip/dual', 'a.dual().dual_inverse()', lambda: a.dual().dual_inverse())
	same('round_trip/dual_inverse', 'a.dual_inverse().dual()', lambda: a.dual_inverse().dual())
	same('round_trip/left_hodge', 'left hodge and back', lambda: o.left_hodge_inverse(a.subspace.complement())(o.left_hodge(a.subspace)(a)))
	same('round_trip/complement_dual', 'left and right complement duals undo one another', lambda: o.left_complement_dual(a.subspace.complement())(o.right_complement_dual(a.subspace)(a)))
	same('parts', 'degenerate + nondegenerate', lambda: a.degenerate() + a.nondegenerate())
	same('antiautomorphism/reverse', '~b ~a', lambda: (~b) * (~a), ref.rev(ref.mul(ra, rb)), [b.subspace, a.subspace])
	same('antiautomorphism/conjugate', 'conj(b) conj(a)', lambda: b.conjugate() * a.conjugate(), ref.conj(ref.mul(ra, rb)), [b.subspace, a.subspace])
	same('automorphism/involute', 'inv(a) inv(b)', lambda: a.involute() * b.involute(), ref.invol(ref.mul(ra, rb)), [a.subspace, b.subspace])
	# defining relation of the duals, one blade at a time
	if n <= 11:
		for _ in range(3):
			m = int(rng.integers(ref.N))
			s = ctx.algebra.subspace.blade(m)
			e = gen.mk(ctx, s, np.ones(1))
			I = {ref.I: 1.0}
			same('defining/right_complement_dual', 'e ^ rcd(e)', lambda: e ^ o.right_complement_dual(s)(e), I, [s])
			same('defining/left_complement_dual', 'lcd(e) ^ e', lambda: o.left_complement_dual(s)(e) ^ e, I, [s])
			sq = ref.metric_neg({m: 1.0})[m]
			same('defining/right_hodge', 'e ^ dual(e)', lambda: e ^ e.dual(), {ref.I: float(sq)}, [s])
			same('defining/left_hodge', 'left_hodge(e) ^ e', lambda: o.left_hodge(s)(e) ^ e, {ref.I: float(sq)}, [s])
	want = {ref.I ^ m for m in ra}
	for name in ('complement', 'dual'):
		got = mon.call('subspace.' + name, lambda: getattr(a.subspace, name)())
		mon.check({int(x) for x in got.blades} == want, 'subspace.' + name, f'{a.subspace.named_str} -> {got.named_str}')


def run(job, mon):
	multilinear.run(job, mon, ops.UNARY, 1, 'C03', extra)
