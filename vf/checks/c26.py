"""Results have the number type of their context, at its full precision"""
import math
from fractions import Fraction

import numpy as np

from vf import backends, gen, ops, oplib
from vf.gen import rng_of
from vf.harness import Skip
from vf.ref import Ref, add, popcount, sel_blades, sel_grades

RULE = ('contexts of single, double and extended real numbers, single and double complex numbers, integers and exact rationals on numpy, and of single and double real and complex numbers on torch and jax, '
	'with other defaults in force; an observation is one operation on coefficients that use all digits of the number type, compared exactly with rational arithmetic, or the number type and context of '
	'the result of one operation, also with scalars and arrays of foreign number types; distinct by (context, operation, signature, subspaces)')
REQUIRED = {'exact': 3000, 'nonzero': 2000, 'type': 6000, 'foreign': 800, 'construct': 500, 'wide': 1500}
BUDGET = dict(quick=400, thorough=600)
# digits of an integer that can be represented
MANT = dict(float32=24, float64=53, longdouble=64, complex64=24, complex128=53, int64=62, object_=200)
NUMPY = [f'numpy/{o}/{d}' for d in MANT for o in ('Einsum', 'Sparse')]
TORCH = [f'torch/{o}/{d}' for d in ('float32', 'float64', 'complex64', 'complex128') for o in ('Einsum', 'Sparse', 'Dense')]
JAX = ['jax/Einsum/float32', 'jax/Einsum/float64', 'jax/Einsum/complex128', 'jax/Sparse/float32', 'jax/Dense/float32']


def jobs(tier, seed):
	rng = rng_of('C26', seed, 'jobs')
	q = tier == 'quick'
	js = []

	def specs(k, top=5):
		out = []
		for n in rng.choice([1, 2, 3, 3, 4, 4, 5], size=k):
			sigs = gen.all_sigs(min(int(n), top))
			out.append(gen.spec_of(sigs[rng.integers(len(sigs))], rng))
		return out
	for rep in range(1 if q else 12):
		for i, name in enumerate(NUMPY):
			js.append(dict(kind='numpy', names=[name], specs=specs(5), cases=4, seed=['C26', seed, rep, i], essential=rep == 0))
		for i in range(0, len(TORCH), 3):
			js.append(dict(kind='torch', names=TORCH[i:i + 3], specs=specs(2), cases=2, seed=['C26', seed, 't', rep, i], default=['float32', 'float64'][(i // 3 + 1) % 2], essential=rep == 0))
		for i, name in enumerate(JAX):
			js.append(dict(kind='jax', names=[name], specs=specs(1, 3), cases=2, seed=['C26', seed, 'j', rep, i], essential=rep == 0))
	return js


def run(job, mon):
	if job['kind'] == 'jax':
		import jax
		jax.config.update('jax_enable_x64', True)
	if job['kind'] == 'torch':
		import torch
		torch.set_default_dtype(getattr(torch, job['default']))
	for i, spec in enumerate(job['specs']):
		rng = rng_of(*job['seed'], i)
		mon.case(spec=spec)
		try:
			alg = mon.call('construct', gen.build_algebra, spec)
			ref = Exact(spec['sig'])
			for name in job['names']:
				ctx = mon.call('context/' + name, backends.make, name, alg)
				K = Kind(name)
				for c in range(job['cases']):
					for f in (exact, linear, foreign, construct, types):
						try:
							f(mon, K, ctx, ref, rng)
						except Skip:
							pass
		except Skip:
			pass


class Exact(Ref):
	"""the reference model over arbitrary Python numbers"""

	def _dense_mul(self, a, b, sel):
		return self.narrow(a, b, sel)

	def mul(self, a, b, sel=None):
		return self.narrow(a, b, sel)

	def narrow(self, a, b, sel):
		from vf.ref import blade_mul
		out = {}
		for A, x in a.items():
			for B, y in b.items():
				m, s = blade_mul(self.sig, A, B)
				if s and (sel is None or sel(popcount(A), popcount(B), popcount(m))):
					t = x * y * s
					out[m] = out[m] + t if m in out else t
		return out


class Q:
	"""Gaussian rational"""
	__slots__ = ('re', 'im')

	def __init__(self, re, im=0):
		self.re, self.im = Fraction(re), Fraction(im)

	@staticmethod
	def of(x):
		return x if isinstance(x, Q) else Q(x.real, x.imag) if isinstance(x, (complex, np.complexfloating)) else Q(x)

	def __add__(self, o):
		o = Q.of(o)
		return Q(self.re + o.re, self.im + o.im)
	__radd__ = __add__

	def __sub__(self, o):
		return self + Q.of(o) * -1

	def __mul__(self, o):
		o = Q.of(o)
		if not self.im and not o.im:
			return Q(self.re * o.re)
		return Q(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)
	__rmul__ = __mul__

	def __truediv__(self, o):
		return self * (1 / Fraction(o))

	def __eq__(self, o):
		o = Q.of(o)
		return self.re == o.re and self.im == o.im

	def __bool__(self):
		return bool(self.re or self.im)

	def __repr__(self):
		return f'{self.re}' + (f'+{self.im}j' if self.im else '')


class Kind:
	"""number type under test"""

	def __init__(self, name):
		self.name = name
		self.backend, self.strategy, self.d = name.split('/')
		self.mant = MANT[self.d]
		self.complex = self.d.startswith('complex')
		self.key = f'{self.backend}/{self.d}'

	def dtype(self, v):
		return str(v.dtype).replace('torch.', '')

	@property
	def expected(self):
		return {'longdouble': str(np.dtype(np.longdouble)), 'object_': 'object'}.get(self.d, self.d)

	def values(self, rng, shape, factors, terms):
		"""coefficients that use as many digits as leave the result of a product representable"""
		bits = max(1, int((self.mant - 1 - math.log2(max(terms, 1)) - (factors if self.complex else 0)) // factors))
		out = np.empty(shape, dtype=object)
		for i in np.ndindex(*shape):
			def one():
				b = bits if rng.random() < 0.7 else int(rng.integers(1, bits + 1))
				r = 0
				for _ in range(0, b, 30):
					r = r << 30 | int(rng.integers(1 << 30))
				r %= 1 << b
				return -r if rng.random() < 0.5 else r
			z = rng.random() < 0.1
			out[i] = Q(0) if z else Q(one(), one() if self.complex else 0)
			if self.d == 'object_':
				out[i] = out[i] / int(rng.choice([1, 3, 7, 10]))
		return out

	def native(self, v):
		"""coefficients as an array of the number type"""
		if self.complex:
			return np.array([complex(int(x.re), int(x.im)) for x in v.ravel()], dtype=self.d).reshape(v.shape)
		if self.d == 'object_':
			out = np.empty(v.shape, dtype=object)
			for i in np.ndindex(*v.shape):
				out[i] = v[i].re
			return out
		return np.array([getattr(np, self.d)(int(x.re)) for x in v.ravel()], dtype=getattr(np, self.d)).reshape(v.shape)

	def read(self, v):
		"""array of the number type, exactly"""
		a = v.detach().cpu().numpy() if hasattr(v, 'detach') else np.asarray(v)
		out = np.empty(a.shape, dtype=object)
		for i in np.ndindex(*a.shape):
			x = a[i]
			try:
				out[i] = Q(frac(x.real), frac(x.imag)) if a.dtype.kind == 'c' else Q(x if isinstance(x, Fraction) else frac(x))
			except (ValueError, OverflowError):
				out[i] = None
		return out


def frac(x):
	if isinstance(x, np.longdouble):
		m, e = np.frexp(x)
		return Fraction(int(np.ldexp(m, 64))) * Fraction(2) ** (int(e) - 64)
	return Fraction(x) if isinstance(x, (int, Fraction)) else Fraction(int(x)) if isinstance(x, np.integer) else Fraction(float(x))


def operand(K, ctx, ref, rng, factors, terms, shape=(), lim=6, sub=None):
	s = sub if sub is not None else gen.subspace(ctx.algebra, gen.random_masks(rng, ref, None, lim) or {0}, rng)
	v = K.values(rng, shape + (len(s),), factors, terms)
	return gen.mk(ctx, s, K.native(v)), v


def parts(sub, v):
	"""reference elements, per batch entry"""
	return {i: {int(b): v[i + (j,)] for j, b in enumerate(sub.blades)} for i in np.ndindex(*v.shape[:-1])}


def typed(mon, K, ctx, key, out, what):
	"""type and context of a result"""
	for o in (out if isinstance(out, tuple) else (out,)):
		mon.count('type')
		if not mon.check(hasattr(o, 'values') and hasattr(o, 'subspace'), f'{key}/kind', lambda: f'{what} [{K.name}] gives a {type(o).__name__} instead of a multivector'):
			return False
		if not mon.check(K.dtype(o.values) == K.expected, f'{key}/type', lambda: f'{what} [{K.name}] gives coefficients of type {o.values.dtype}'):
			return False
		if not mon.check(o.context is ctx, f'{key}/context', lambda: f'{what} [{K.name}] gives a multivector of another context'):
			return False
	return True


def same(mon, K, ctx, key, label, out, want, shape, subs, ref):
	"""out equals the reference exactly; want per batch entry"""
	mon.count('exact')
	if not typed(mon, K, ctx, key, out, label):
		return
	got = K.read(out.values)
	if not mon.check(got.shape[:-1] == tuple(shape), f'{key}/shape', lambda: f'{label} [{K.name}] in {ref.sig}: batch shape {got.shape[:-1]} expected {tuple(shape)}'):
		return
	blades = [int(b) for b in out.subspace.blades]
	nz = wide = False
	for i, w in want.items():
		g = {b: got[i + (j,)] for j, b in enumerate(blades)}
		for m in set(g) | set(w):
			a, b = g.get(m, Q(0)), Q.of(w.get(m, 0))
			nz |= bool(b)
			wide |= max(abs(b.re.numerator), abs(b.im.numerator)).bit_length() > {24: 11, 53: 24}.get(K.mant, 53)
			mon.check(a is not None and a == b, key, lambda: f'{label} [{K.name}] in {ref.sig} on {[s.named_str for s in subs]}: blade {m:b} got {a!r} expected {b!r}')
	mon.count('nonzero' if nz else 'zero')
	if wide:
		mon.count('wide')
	mon.seen(K.name, label, ref.sig, tuple(s.blades.tobytes() for s in subs))


UN = [(k, e[-2], e[-3], e[-1], 1) for k, e in ops.UNARY.items()] + [(k, e[-2], e[-3], e[-1], e[0]) for k, e in ops.SYMMETRIC.items()]
BIN = [(k, (e[-2] or [None])[0], e[-3], e[-1], 3 if t is ops.SANDWICH else 2) for t in (ops.PRODUCT, ops.GRADED, ops.ANTI, ops.INVPROD, ops.SANDWICH) for k, e in t.items()]


def exact(mon, K, ctx, ref, rng):
	"""products and involutions of coefficients that use all digits"""
	sh = [(), (), (2,)][rng.integers(3)] if K.backend != 'jax' else ()
	for k, method, alias, r, factors in [UN[i] for i in rng.permutation(len(UN))[:6]]:
		s = gen.subspace(ctx.algebra, gen.random_masks(rng, ref, None, 6 if factors < 3 else 4) or {0}, rng)
		x, v = operand(K, ctx, ref, rng, factors, len(s) ** (factors - 1) * (2 if factors > 1 else 1), sh, sub=s)
		mon.case(name=K.name, op=k, signature=list(ref.sig), subspace=s.named_str, values=[repr(q) for q in v.ravel()])
		if method:
			out = mon.call(f'{K.key}/{k}', lambda: getattr(x, method)())
		else:
			out = mon.call(f'{K.key}/{k}', lambda: getattr(ctx.operator, alias[0])(s)(*[x] * factors))
		same(mon, K, ctx, f'{K.key}/{k}', k, out, {i: r(ref)(e) for i, e in parts(s, v).items()}, sh, [s], ref)
	for k, method, alias, r, factors in [BIN[i] for i in rng.permutation(len(BIN))[:8]]:
		if k == 'bivector_product' and ref.n < 2 or k == 'trivector_product' and ref.n < 3:
			continue
		lim = 6 if factors == 2 else 4
		s, t = (gen.subspace(ctx.algebra, gen.random_masks(rng, ref, None, lim) or {0}, rng) for _ in range(2))
		if k in ('transform', 'inverse_transform'):
			p = int(rng.integers(2))
			s = gen.subspace(ctx.algebra, {int(b) for b in s.blades if popcount(b) % 2 == p} or {p}, rng)
		terms = len(s) * len(t) * (4 if factors == 3 else 2)
		x, v = operand(K, ctx, ref, rng, factors, terms, sh, sub=s)
		y, w = operand(K, ctx, ref, rng, factors, terms, sh, sub=t)
		mon.case(name=K.name, op=k, signature=list(ref.sig), subspaces=[s.named_str, t.named_str], values=[repr(q) for q in list(v.ravel()) + list(w.ravel())])
		if method:
			out = mon.call(f'{K.key}/{k}', lambda: getattr(x, method)(y))
		else:
			out = mon.call(f'{K.key}/{k}', lambda: getattr(ctx.operator, alias[0])(s, t)(x, y))
		W = parts(t, w)
		same(mon, K, ctx, f'{K.key}/{k}', k, out, {i: r(ref)(e, W[i]) for i, e in parts(s, v).items()}, sh, [s, t], ref)


def linear(mon, K, ctx, ref, rng):
	"""sums, differences, selections, bound operators, reductions and batch operations keep all digits"""
	sh = (3,)
	a, b = (gen.subspace(ctx.algebra, gen.random_masks(rng, ref, None, 6) or {0}, rng) for _ in range(2))
	x, v = operand(K, ctx, ref, rng, 1, 4, sh, sub=a)
	y, w = operand(K, ctx, ref, rng, 1, 4, sh, sub=b)
	X, Y = parts(a, v), parts(b, w)
	key = lambda k: f'{K.key}/{k}'
	mon.case(name=K.name, op='linear', signature=list(ref.sig), subspaces=[a.named_str, b.named_str], values=[repr(q) for q in list(v.ravel()) + list(w.ravel())])

	def go(k, fn, want, shape=sh, subs=(a, b)):
		try:
			out = mon.call(key(k), fn)
		except Skip:
			return
		same(mon, K, ctx, key(k), k, out, want, shape, list(subs), ref)
	neg = lambda e: {m: q * -1 for m, q in e.items()}
	go('add', lambda: x + y, {i: add(X[i], Y[i]) for i in X})
	go('sub', lambda: x - y, {i: add(X[i], neg(Y[i])) for i in X})
	go('neg', lambda: -x, {i: neg(X[i]) for i in X}, subs=[a])
	go('select', lambda: x.select_subspace(b), {i: sel_blades(X[i], b.blades) for i in X})
	go('restrict', lambda: x.restrict_subspace(b), {i: sel_blades(X[i], b.blades) for i in X})
	g = int(rng.integers(ref.n + 1))
	go('select_grade', lambda: x.select[g], {i: sel_grades(X[i], {g}) for i in X}, subs=[a])
	go('getitem', lambda: x[1], {(): X[1,]}, (), subs=[a])
	go('concatenate', lambda: x.concatenate(x[:1], axis=0), {(i,): X[i % 3,] for i in range(4)}, (4,), subs=[a])
	go('at_set', lambda: x.at[1].set(x[2]), {(i,): X[2 if i == 1 else i,] for i in range(3)}, subs=[a])
	if K.backend != 'jax':
		go('sum', lambda: x.sum(axis=0), {(): add(*X.values())}, (), subs=[a])
	go('scale', lambda: x * 2, {i: {m: q * 2 for m, q in X[i].items()} for i in X}, subs=[a])
	go('rscale', lambda: -2 * x, {i: {m: q * -2 for m, q in X[i].items()} for i in X}, subs=[a])
	go('plus one', lambda: x + 1, {i: add(X[i], {0: Q(1)}) for i in X}, subs=[a])
	go('one minus', lambda: 1 - x, {i: add(neg(X[i]), {0: Q(1)}) for i in X}, subs=[a])
	# an operator that carries one operand in its coefficients
	p, u = operand(K, ctx, ref, rng, 2, 2 * len(a), sub=a)
	r, z = operand(K, ctx, ref, rng, 2, 2 * len(a), sub=b)
	mon.case(name=K.name, op='partial', signature=list(ref.sig), subspaces=[a.named_str, b.named_str], values=[repr(q) for q in list(u.ravel()) + list(z.ravel())])
	if K.backend == 'numpy' or K.d in ('float32', 'float64'):
		P = ref.mul(parts(a, u)[()], parts(b, z)[()])
		go('partial', lambda: ctx.operator.product(a, b).partial({0: p})(r), {(): P}, ())
		go('partial second', lambda: ctx.operator.product(a, b).partial({1: r})(p), {(): P}, ())


def foreign(mon, K, ctx, ref, rng):
	"""scalars and arrays of other number types adapt to the context"""
	a = gen.subspace(ctx.algebra, gen.random_masks(rng, ref, None, 6) or {0}, rng)
	x, v = operand(K, ctx, ref, rng, 3, 4, (2,), sub=a)
	if rng.random() < 0.3:
		x, v = x[0], v[0]
	sh = v.shape[:-1]
	X = parts(a, v)
	pool = [2, True, np.int8(3), np.int64(-2), np.array(2), np.array([1, -3], dtype=np.int16), [2, -1]]
	if K.d != 'int64':
		pool += [0.5, np.float64(-1.5), np.float32(0.25), np.array(0.75), np.array([0.5, -2]), [0.5, 1]]
	if K.d == 'object_':
		pool = [2, -3, Fraction(1, 3)]
	if K.complex:
		pool += [1j, 2 - 1j, np.complex64(1 + 1j), np.array([1j, 2])]
	if K.backend == 'torch':
		import torch
		pool = [p for p in pool if not isinstance(p, list)] + [torch.tensor(2.0, dtype=torch.float64), torch.tensor([1, -2]), torch.tensor(0.5, dtype=torch.float16)]
	if K.backend == 'jax':
		import jax.numpy as jnp
		pool = [p for p in pool if not isinstance(p, list)] + [jnp.array(2.0, dtype=jnp.float64), jnp.array([1, -2])]
	for s in [pool[i] for i in rng.permutation(len(pool))[:5]]:
		raw = np.asarray(s.numpy() if hasattr(s, 'detach') else s)
		S = np.empty(raw.shape, dtype=object)
		for i in np.ndindex(*raw.shape):
			e = raw[i]
			S[i] = Q(float(e.real), float(e.imag)) if raw.dtype.kind == 'c' else Q(e if raw.dtype.kind == 'O' else e.item())
		shape = np.broadcast_shapes(sh, raw.shape)
		pick = lambda i, A: A[i] if A.shape else A[()]
		Xi = lambda i: X[i if sh else ()]
		todo = dict(
			mul=(lambda: x * s, lambda i: {m: q * pick(i, S) for m, q in Xi(i).items()}),
			rmul=(lambda: s * x, lambda i: {m: q * pick(i, S) for m, q in Xi(i).items()}),
			add=(lambda: x + s, lambda i: add(Xi(i), {0: pick(i, S)})),
			radd=(lambda: s + x, lambda i: add(Xi(i), {0: pick(i, S)})),
			sub=(lambda: x - s, lambda i: add(Xi(i), {0: pick(i, S) * -1})),
			rsub=(lambda: s - x, lambda i: add({m: q * -1 for m, q in Xi(i).items()}, {0: pick(i, S)})),
		)
		for k, (fn, want) in todo.items():
			if isinstance(s, list) and k not in ('mul', 'rmul'):
				continue
			what = f'{k} with {type(s).__name__} {raw.dtype}'
			mon.case(name=K.name, op=what, scalar=repr(s), signature=list(ref.sig), subspace=a.named_str, values=[repr(q) for q in v.ravel()])
			try:
				out = mon.call(f'{K.key}/foreign/{k}', fn)
			except Skip:
				continue
			mon.count('foreign')
			same(mon, K, ctx, f'{K.key}/foreign/{k}', what, out, {i: want(i) for i in np.ndindex(*shape)}, shape, [a], ref)


def construct(mon, K, ctx, ref, rng):
	"""coefficients given in any form become coefficients of the context"""
	a = gen.subspace(ctx.algebra, gen.random_masks(rng, ref, None, 6) or {0}, rng)
	n = len(a)
	v = rng.integers(-60, 61, size=(2, n))
	# as many digits as the number type has
	digits = min(K.mant, 53)
	w = rng.integers(-(1 << digits) + 1, 1 << digits, size=(2, n))
	f = w.astype(float) * 2.0 ** (0 if K.d == 'int64' else -int(rng.integers(10, 40)))
	forms = dict(
		int8=v.astype(np.int8), int64=w, float32=v.astype(np.float32), float64=f, fortran=np.asfortranarray(f), strided=np.repeat(f, 2, axis=1)[:, ::2],
		transposed=np.ascontiguousarray(f.T).T, bool=v > 0, lists=f.tolist(), tuples=tuple(map(tuple, f.tolist())), integers=w.tolist())
	if K.backend == 'numpy':
		ro = f.copy()
		ro.flags.writeable = False
		forms.update(float16=v.astype(np.float16), bigendian=f.astype('>f8'), bigint=v.astype('>i4'), readonly=ro)
		if K.complex:
			forms['complex'] = f + 1j * f[::-1]
	elif K.backend == 'torch':
		import torch
		forms = {k: forms[k] for k in ('lists', 'integers', 'float64', 'int64', 'bool')}
		forms.update(tensor32=torch.tensor(v, dtype=torch.float32), tensor64=torch.tensor(f, dtype=torch.float64), tensorint=torch.tensor(w))
	else:
		import jax.numpy as jnp
		forms = {k: forms[k] for k in ('float64', 'int64', 'float32', 'bool')}
		forms.update(jax32=jnp.array(v, dtype=jnp.float32), jax64=jnp.array(f, dtype=jnp.float64))
	keys = list(forms)
	for k in [keys[i] for i in rng.permutation(len(keys))[:6]]:
		g = forms[k]
		if K.d == 'object_' and k != 'integers':
			continue
		raw = np.asarray(g.numpy() if hasattr(g, 'detach') else g)
		want = np.empty(raw.shape, dtype=object)
		for i in np.ndindex(*raw.shape):
			e = raw[i]
			want[i] = Q(float(e.real), float(e.imag)) if raw.dtype.kind == 'c' else Q(e.item())
		mon.case(name=K.name, op='construct', form=k, values=repr(g), subspace=a.named_str)
		try:
			out = mon.call(f'{K.key}/construct', lambda: ctx.multivector(values=g, subspace=a))
		except Skip:
			continue
		mon.count('construct')
		same(mon, K, ctx, f'{K.key}/construct', f'multivector from {k}', out, parts(a, want), (2,), [a], ref)
		# and takes part in products like any other
		if K.d != 'object_':
			one = mon.call(f'{K.key}/construct', lambda: ctx.multivector.scalar())
			same(mon, K, ctx, f'{K.key}/construct', f'multivector from {k}, times one', mon.call(f'{K.key}/construct', lambda: out * one), parts(a, want), (2,), [a], ref)
	m = ctx.multivector
	for k, fn in dict(scalar=lambda: m.scalar(), default=lambda: m.multivector(), even=lambda: m.even_grade(), basis=lambda: m.basis()[0], pss=lambda: m.pseudoscalar(), empty=lambda: m.empty()).items():
		try:
			typed(mon, K, ctx, f'{K.key}/default/{k}', mon.call(f'{K.key}/default/{k}', fn), f'default {k}')
		except Skip:
			pass


NONLINEAR = ['inverse', 'norm_squared', 'norm', 'normalized', 'square_root', 'exp', 'motor_log', 'motor_square_root', 'exp_quadratic', 'exp_linear_normalized', 'motor_log_linear_normalized', 'decompose_invariant',
	'decompose_polar', 'motor_translator', 'motor_rotor', 'inverse_hitzer', 'inverse_shirokov', 'inverse_la', 'abs', 'sqrt', 'invsqrt', 'copy']
NONLINEAR2 = ['__truediv__', 'motor_geometric_mean', 'motor_split']


def types(mon, K, ctx, ref, rng):
	"""operations that are not multilinear keep the number type too"""
	if K.d not in ('float32', 'float64', 'longdouble') or K.backend == 'jax' and rng.random() < 0.5:
		return
	S = ctx.subspace
	sh = [(), (2,)][rng.integers(2)]
	subs = [S.scalar(), S.vector(), S.even_grade(), S.pseudoscalar()] + ([S.bivector()] * 2 if ref.n > 1 else [])
	work = [(k, None) for k in NONLINEAR] + [(k, 2) for k in NONLINEAR2]
	few = 8 if K.backend == 'numpy' else 4
	for k, two in [work[i] for i in rng.permutation(len(work))[:few]]:
		def one():
			s = subs[rng.integers(len(subs))]
			v = rng.normal(size=sh + (len(s),)) * 0.3
			if 0 in [int(b) for b in s.blades]:
				v[..., 0] = 1
			return gen.mk(ctx, s, v)
		x, y = one(), one()
		mon.case(name=K.name, op=k, signature=list(ref.sig), subspaces=[x.subspace.named_str, y.subspace.named_str], values=[repr(x.values), repr(y.values)])
		with np.errstate(all='ignore'):
			try:
				out = getattr(x, k)(y) if two else getattr(x, k)()
			except Exception:
				# whether the computation is defined here is decided elsewhere
				mon.count('undefined')
				continue
		mon.seen(K.name, k, ref.sig, x.subspace.blades.tobytes())
		typed(mon, K, ctx, f'{K.key}/{k}', out, k)
	# linear maps, applied
	x, y = (gen.mk(ctx, S.vector(), rng.normal(size=sh + (ref.n,))) for _ in range(2))
	for k, fn in dict(sandwich_map=lambda: x.sandwich_map(S.vector())(y), inertia=lambda: x.inertia_map()(S.bivector() and gen.mk(ctx, S.bivector(), np.ones(len(S.bivector()))))).items():
		if k == 'inertia' and ref.n < 2:
			continue
		with np.errstate(all='ignore'):
			try:
				out = fn()
			except Exception:
				mon.count('undefined')
				continue
		typed(mon, K, ctx, f'{K.key}/{k}', out, k)
