"""Shared numerical oracles"""
import numpy as np

from vf import gen
from vf.ref import Ref


def lmat(ref, rx, shape=()):
	"""matrix of y -> x y on the full algebra"""
	N = ref.N
	M = np.zeros(shape + (N, N))
	idx = np.arange(N)
	for A, v in rx.items():
		M[..., idx ^ A, idx] += ref.table[A] * np.asarray(v, float)[..., None]
	return M


def dense(ref, mv, shape=None):
	"""full coefficient array of a numga multivector"""
	v = gen.to_np(mv.values).astype(float)
	shape = v.shape[:-1] if shape is None else shape
	out = np.zeros(tuple(shape) + (ref.N,))
	out[..., [int(b) for b in mv.subspace.blades]] = v
	return out


def dense_ref(ref, r, shape):
	out = np.zeros(tuple(shape) + (ref.N,))
	for m, v in r.items():
		out[..., m] = v
	return out


def to_dict(ref, a, masks=None):
	return {m: a[..., m] for m in (range(ref.N) if masks is None else masks)}


def relerr(got, want):
	"""per batch entry"""
	if got.shape[-1] == 0:
		return np.zeros(got.shape[:-1])
	with np.errstate(all='ignore'):
		e = np.abs(got - want).max(axis=-1) / np.maximum(np.abs(want).max(axis=-1), 1e-300)
	return np.where(np.isfinite(e), e, np.inf)


def calibrated(got, want, moved, want_moved, tol):
	"""entries whose error is beyond tol and beyond what the computation's own sensitivity explains.
	moved is the library result for an input perturbed by 1e-9 (relative); rounding acts like a perturbation of 1e-16"""
	err = relerr(got, want)
	with np.errstate(all='ignore'):
		drift = np.abs((moved - got) - (want_moved - want)).max(axis=-1) / np.maximum(np.abs(want).max(axis=-1), 1e-300)
	bad = ~(err <= tol)
	excused = np.isfinite(drift) & (drift > 1e-2 * np.minimum(err, 1e300)) & np.isfinite(err)
	return bad & ~excused, bad & excused, err


def expm(ref, rb, shape):
	"""exponential of an element by scaling and Taylor series on the multiplication matrix"""
	import scipy.linalg
	M = lmat(ref, rb, shape)
	flat = M.reshape((-1,) + M.shape[-2:])
	out = np.array([scipy.linalg.expm(m)[:, 0] for m in flat])
	return out.reshape(tuple(shape) + (ref.N,))


def random_spec(rng, dims, nulls=None, p=(.4, .3, .3)):
	n = int(dims[rng.integers(len(dims))])
	while True:
		sig = tuple(int(s) for s in rng.choice([1, -1, 0], p=p, size=n))
		if nulls is None or sig.count(0) <= nulls:
			return gen.spec_of(sig, rng)


# -- elements of known character -------------------------------------------------

def mul(ref, a, b):
	"""product of dense arrays"""
	nz = [m for m in range(ref.N) if np.any(a[..., m])]
	idx = np.arange(ref.N)
	out = np.zeros(np.broadcast_shapes(a.shape, b.shape))
	for m in nz:
		out += (ref.table[m] * b)[..., idx ^ m] * a[..., m:m + 1]
	return out


def rev(ref, a):
	from vf.ref import popcount
	return a * np.array([(-1) ** (popcount(m) * (popcount(m) - 1) // 2) for m in range(ref.N)])


def one(ref, shape):
	o = np.zeros(tuple(shape) + (ref.N,))
	o[..., 0] = 1
	return o


def grade_masks(ref, *g):
	from vf.ref import popcount
	return [m for m in range(ref.N) if popcount(m) in g]


def bivectors(ref, rng, shape, scale):
	b = np.zeros(tuple(shape) + (ref.N,))
	B = grade_masks(ref, 2)
	v = rng.normal(size=tuple(shape) + (len(B),))
	v *= scale / np.maximum(np.sqrt((v ** 2).sum(-1, keepdims=True)), 1e-12) * rng.uniform(0.1, 1, size=tuple(shape) + (1,))
	b[..., B] = v
	return b


def motors(ref, rng, shape, scale=0.6, factors=1):
	"""normalized motors in the identity component, as products of exponentials"""
	m = one(ref, shape)
	for _ in range(factors):
		b = bivectors(ref, rng, shape, scale)
		m = mul(ref, m, expm(ref, to_dict(ref, b), shape))
	return m


def even(ref):
	from vf.ref import popcount
	return [m for m in range(ref.N) if popcount(m) % 2 == 0]


def support(ref, a):
	return {m for m in range(ref.N) if np.any(np.abs(a[..., m]) > 1e-12)}


def carried(ctx, ref, a, S):
	return gen.mk(ctx, S, a[..., [int(b) for b in S.blades]])


def study_masks(ref, rng, scalar=True):
	"""blade sets whose nonscalar part squares to a scalar, and may be added to a scalar"""
	nd = list(rng.permutation(np.arange(1, ref.N)))
	out = []
	for m in nd[:40]:
		m = int(m)
		if all(ref.table[m, k] + ref.table[k, m] == 0 for k in out):
			out.append(m)
		if len(out) >= rng.integers(1, 5):
			break
	return set(out) | ({0} if scalar else set())
