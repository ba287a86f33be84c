"""Independent executable model of a Clifford algebra with diagonal metric.

Elements are dicts {bitmask: value}, where value is a numpy array over batch axes (or a scalar).
Everything derives from one rule, applied one basis vector at a time:
	(e_A) e_j : move e_j left past every e_i of A with i > j, one sign each; e_j e_j = metric[j]
Nothing in here imports or mirrors numga.
"""
import functools

import numpy as np


def popcount(x):
	return bin(int(x)).count('1')


def bits(x):
	x = int(x)
	return [i for i in range(x.bit_length()) if x >> i & 1]


@functools.lru_cache(maxsize=None)
def blade_mul(sig, A, B):
	"""(mask, sign) of e_A e_B"""
	sign, cur = 1, A
	for j in bits(B):
		if popcount(cur >> (j + 1)) & 1:
			sign = -sign
		if cur >> j & 1:
			sign *= sig[j]
		cur ^= 1 << j
		if sign == 0:
			return A ^ B, 0
	return A ^ B, sign


class Ref:
	def __init__(self, sig):
		self.sig = tuple(int(s) for s in sig)
		self.n = len(self.sig)
		self.N = 1 << self.n
		self.I = self.N - 1
		self.nullfree = tuple(s if s else 1 for s in self.sig)
		self._table = None

	# -- bilinear machinery -------------------------------------------------
	@property
	def table(self):
		"""dense sign table; only for small n"""
		if self._table is None:
			self._table = _sign_table(self.sig)
		return self._table

	def mul(self, a, b, sel=None):
		"""geometric product; sel(ga, gb, go) selects grade triples"""
		if len(a) * len(b) > 300 and self.n <= 7:
			return self._dense_mul(a, b, sel)
		out = {}
		for A, x in a.items():
			for B, y in b.items():
				m, s = blade_mul(self.sig, A, B)
				if s and (sel is None or sel(popcount(A), popcount(B), popcount(m))):
					t = s * (x * y)
					out[m] = out[m] + t if m in out else t
		return out

	def _dense_mul(self, a, b, sel):
		N = self.N
		bb = np.zeros(np.broadcast_shapes(*[np.shape(v) for v in b.values()]) + (N,))
		for B, y in b.items():
			bb[..., B] = y
		idx = np.arange(N)
		g = grades_table(self.n)
		out = 0
		for A, x in a.items():
			s = self.table[A]
			if sel is not None:
				s = s * np.array([bool(sel(int(g[A]), int(g[B]), int(g[A ^ B]))) for B in range(N)])
			t = (s * bb) * np.asarray(x)[..., None]
			out = out + t[..., idx ^ A]
		out = np.asarray(out)
		if out.ndim == 0:
			return {}
		return {m: out[..., m] for m in range(N)}

	def wedge(self, a, b):
		return self.mul(a, b, lambda l, r, o: o == l + r)
	def inner(self, a, b):
		return self.mul(a, b, lambda l, r, o: o == abs(l - r))
	def scalar(self, a, b):
		return self.mul(a, b, lambda l, r, o: o == 0)
	def lc(self, a, b):
		return self.mul(a, b, lambda l, r, o: o == r - l)
	def rc(self, a, b):
		return self.mul(a, b, lambda l, r, o: o == l - r)
	def gprod(self, k):
		return lambda a, b: self.mul(a, b, lambda l, r, o: o == k)
	def prods(self, *x):
		return functools.reduce(self.mul, x)

	# -- linear maps --------------------------------------------------------
	@staticmethod
	def diag(a, f):
		return {m: f(popcount(m)) * v for m, v in a.items()}
	def rev(self, a):
		return self.diag(a, lambda g: (-1) ** (g * (g - 1) // 2))
	def invol(self, a):
		return self.diag(a, lambda g: (-1) ** g)
	def conj(self, a):
		return self.rev(self.invol(a))
	def scalar_neg(self, a):
		return self.diag(a, lambda g: -1 if g > 0 else 1)
	def pss_neg(self, a):
		return self.diag(a, lambda g: 1 if g in (0, self.n) else -1)
	def metric_neg(self, a):
		"""sign flip per negative basis vector in each blade"""
		return {m: v * int(np.prod([-1 if self.sig[i] < 0 else 1 for i in bits(m)])) for m, v in a.items()}
	def is_deg(self, m):
		return any(self.sig[i] == 0 for i in bits(m))
	def nondeg(self, a):
		return {m: v for m, v in a.items() if not self.is_deg(m)}
	def deg(self, a):
		return {m: v for m, v in a.items() if self.is_deg(m)}

	# v I and I v, with every null vector treated as squaring to +1
	def rcomp(self, a):
		return self._map(a, lambda m: blade_mul(self.nullfree, m, self.I))
	def lcomp(self, a):
		return self._map(a, lambda m: blade_mul(self.nullfree, self.I, m))
	# d(v) such that v ^ d(v) == I, and d(v) ^ v == I; blade by blade
	def rcdual(self, a):
		return self._map(a, lambda m: (self.I ^ m, blade_mul((1,) * self.n, m, self.I ^ m)[1]))
	def lcdual(self, a):
		return self._map(a, lambda m: (self.I ^ m, blade_mul((1,) * self.n, self.I ^ m, m)[1]))
	def rhodge(self, a):
		return self.rcdual(self.metric_neg(a))
	def lhodge(self, a):
		return self.lcdual(self.metric_neg(a))
	def _inv_of(self, f):
		def g(a):
			out = {}
			for m, v in a.items():
				(k, s), = f({self.I ^ m: 1}).items()
				assert k == m
				out[self.I ^ m] = v * s        # s = +-1 is its own inverse
			return out
		return g
	def rhodge_inv(self, a):
		return self._inv_of(self.rhodge)(a)
	def lhodge_inv(self, a):
		return self._inv_of(self.lhodge)(a)

	@staticmethod
	def _map(a, f):
		out = {}
		for m, v in a.items():
			k, s = f(m)
			out[k] = out.get(k, 0) + s * v
		return out

	# -- composed -----------------------------------------------------------
	def antify(self, op):
		return lambda *x: self.lcomp(op(*(self.rcomp(v) for v in x)))
	def agp(self, a, b):
		return self.antify(self.mul)(a, b)
	def awedge(self, a, b):
		return self.antify(self.wedge)(a, b)
	def lip(self, a, b):
		return self.awedge(self.lcomp(a), b)
	def rip(self, a, b):
		return self.awedge(a, self.rcomp(b))
	def regressive(self, a, b):
		return self.rhodge_inv(self.wedge(self.rhodge(a), self.rhodge(b)))
	def commutator(self, a, b, op=None, sign=-1):
		op = op or self.mul
		return scale(add(op(a, b), scale(op(b, a), sign)), 0.5)
	def inverse_factor(self, x, neg=None):
		neg = neg or self.conj
		return self.mul(self.rev(x), neg(self.mul(x, self.rev(x))))
	def full_sandwich(self, R, v):
		return self.prods(R, v, self.rev(R))


@functools.lru_cache(maxsize=None)
def grades_table(n):
	return np.array([popcount(i) for i in range(1 << n)])


@functools.lru_cache(maxsize=8)
def _sign_table(sig):
	"""vectorised version of blade_mul over all pairs"""
	n = len(sig)
	N = 1 << n
	par = np.array([popcount(i) & 1 for i in range(N)])
	cur = np.repeat(np.arange(N)[:, None], N, axis=1)
	B = np.arange(N)[None, :]
	sign = np.ones((N, N), int)
	for j in range(n):
		has = (B >> j & 1) == 1
		sign = np.where(has, sign * (1 - 2 * par[cur >> (j + 1)]), sign)
		sign = np.where(has & (cur >> j & 1 == 1), sign * sig[j], sign)
		cur = np.where(has, cur ^ (1 << j), cur)
	return sign


def add(*xs):
	out = {}
	for a in xs:
		for m, v in a.items():
			out[m] = out[m] + v if m in out else v
	return out


def scale(a, s):
	return {m: v * s for m, v in a.items()}


def sub(a, b):
	return add(a, scale(b, -1))


def sel_grades(a, grades):
	return {m: v for m, v in a.items() if popcount(m) in grades}


def sel_blades(a, blades):
	blades = set(int(b) for b in blades)
	return {m: v for m, v in a.items() if m in blades}


def prune(a, tol=0):
	return {m: v for m, v in a.items() if np.any(np.abs(v) > tol)}


def norm(a):
	"""coefficient 2-norm, per batch entry"""
	return np.sqrt(sum(np.abs(np.asarray(v, float)) ** 2 for v in a.values())) if a else 0.0
