"""Sanity of the oracle itself: the reference model satisfies the axioms, and the comparator can fail"""
import itertools
import sys

import numpy as np

from vf import gen
from vf.harness import Mon
from vf.ref import Ref, blade_mul, prune, sub


def main():
	n = 0
	for k in range(4):
		for sig in itertools.product((1, -1, 0), repeat=k):
			for i, s in enumerate(sig):
				assert blade_mul(sig, 1 << i, 1 << i) == (0, s)
				for j in range(i):
					assert blade_mul(sig, 1 << i, 1 << j)[1] == -blade_mul(sig, 1 << j, 1 << i)[1] != 0
			for a, b, c in itertools.product(range(1 << k), repeat=3):
				ab, s = blade_mul(sig, a, b)
				bc, t = blade_mul(sig, b, c)
				assert s * blade_mul(sig, ab, c)[1] == t * blade_mul(sig, a, bc)[1]
				n += 1
	# dense and sparse evaluation of the model agree
	rng = np.random.default_rng(0)
	r = Ref((1, -1, 0, 1, -1))
	a, b = ({m: rng.integers(-3, 4, 2).astype(float) for m in range(32)} for _ in range(2))
	full = r.mul(a, b)
	parts = {}
	for m, v in a.items():
		for k, w in r.mul({m: v}, b).items():
			parts[k] = parts.get(k, 0) + w
	assert not prune(sub(full, parts))

	from numga.algebra.algebra import Algebra
	from numga.backend.numpy.context import NumpyContext
	ctx = NumpyContext(Algebra('x+y-'))
	s = gen.subspace(ctx.algebra, {1, 2})
	x = gen.mk(ctx, s, np.array([1., 2.]))
	assert gen.diff(x, {1: 1.0, 2: 2.0}) is None
	assert gen.diff(x, {1: 1.0, 2: 3.0}) and gen.diff(x, {1: 1.0, 2: 2.0, 3: 1.0}) and gen.diff(x, {1: np.nan, 2: 2.0})
	mon = Mon({})
	mon.check(False, 'k')
	assert mon.violations and not mon.check(False, 'k')
	print(f'selftest ok: {n} associativity triples')


if __name__ == '__main__':
	sys.exit(main())
