"""Workload generators: algebras, subspaces, values; and the bridge between numga and the reference model"""
import itertools
import string

import numpy as np

from vf.ref import Ref, popcount

SIGN = {1: '+', -1: '-', 0: '0'}


def rng_of(*parts):
	from vf.harness import seed_of
	return np.random.default_rng(seed_of(*parts))


def all_sigs(n):
	return list(itertools.product((1, -1, 0), repeat=n))


def pqr_sig(p, q, r):
	return (1,) * p + (-1,) * q + (0,) * r


def spec_of(sig, rng, style=None):
	"""A description of an algebra with this signature; in one of the accepted styles.
	Returns (style, payload); pqr style is only available for sorted signatures"""
	sig = tuple(int(s) for s in sig)
	n = len(sig)
	styles = ['letters', 'shuffled', 'multi', 'signature', 'names', 'product', 'static_str']
	if sig == pqr_sig(sig.count(1), sig.count(-1), sig.count(0)):
		styles += ['pqr', 'static_pqr'] * 2
	if style is None:
		style = styles[rng.integers(len(styles))]
	if n < 2 and style == 'product':
		style = 'letters'
	if style == 'shuffled':
		names = [string.ascii_lowercase[i] for i in rng.permutation(26)[:n]]
	elif style == 'multi':
		names = [f'e{chr(97 + i % 26)}{1 + i // 26}' for i in range(n)]
	else:
		names = list(string.ascii_lowercase[:n])
	return dict(style=style, sig=list(sig), names=names, cut=int(rng.integers(1, n)) if n > 1 else 0)


def build_algebra(spec):
	from numga.algebra.algebra import Algebra
	from numga.algebra.description import AlgebraDescription
	sig, names = spec['sig'], spec['names']
	text = ''.join(n + SIGN[s] for n, s in zip(names, sig))
	st = spec['style']
	if st in ('letters', 'shuffled', 'multi'):
		return Algebra(text)
	if st == 'static_str':
		return Algebra.from_str(text)
	if st == 'signature':
		return Algebra(AlgebraDescription.from_signature(''.join(SIGN[s] for s in sig)))
	if st == 'names':
		return Algebra(AlgebraDescription(names, sig))
	if st == 'pqr':
		return Algebra((sig.count(1), sig.count(-1), sig.count(0)))
	if st == 'static_pqr':
		return Algebra.from_pqr(sig.count(1), sig.count(-1), sig.count(0))
	if st == 'product':
		c = spec['cut']
		mk = lambda a, b: Algebra(''.join(n + SIGN[s] for n, s in zip(names[a:b], sig[a:b])))
		return mk(0, c) * mk(c, len(sig))
	raise ValueError(st)


# -- subspaces ---------------------------------------------------------------

def named_masks(ref):
	"""Independent definitions of commonly used subspaces, as sets of bitmasks"""
	n = ref.n
	k = lambda *g: {m for m in range(ref.N) if popcount(m) in g}
	return dict(
		scalar=k(0), vector=k(1), bivector=k(2), trivector=k(3), quadvector=k(4),
		pseudoscalar=k(n), antivector=k(n - 1), antibivector=k(n - 2),
		even_grade=k(*range(0, n + 1, 2)), odd_grade=k(*range(1, n + 1, 2)),
		multivector=k(*range(n + 1)), nonscalar=k(*range(1, n + 1)),
		scalar_pseudoscalar=k(0, n),
		self_reverse=k(*[g for g in range(n + 1) if (g * (g - 1) // 2) % 2 == 0]),
		nondegenerate={m for m in range(ref.N) if not ref.is_deg(m)},
		degenerate={m for m in range(ref.N) if ref.is_deg(m)},
		empty=set(),
	)


def random_masks(rng, ref, kind=None, maxlen=None):
	"""Random set of blades"""
	kinds = ['sparse', 'dense', 'grades', 'grade_part', 'single', 'named', 'subalgebra']
	kind = kind or kinds[rng.integers(len(kinds))]
	n, N = ref.n, ref.N
	if kind == 'single':
		s = {int(rng.integers(N))}
	elif kind == 'sparse':
		s = {int(b) for b in rng.integers(0, N, size=rng.integers(1, 6))}
	elif kind == 'dense':
		s = {b for b in range(N) if rng.random() < 0.6}
	elif kind == 'grades':
		gs = [g for g in range(n + 1) if rng.random() < 0.4] or [int(rng.integers(n + 1))]
		s = {m for m in range(N) if popcount(m) in gs}
	elif kind == 'grade_part':
		g = int(rng.integers(n + 1))
		s = {m for m in range(N) if popcount(m) == g and rng.random() < 0.6}
	elif kind == 'named':
		d = named_masks(ref)
		s = d[list(d)[rng.integers(len(d))]]
	elif kind == 'subalgebra':
		gens = [int(b) for b in rng.integers(0, N, size=2)]
		s = {0}
		for g in gens:
			s |= {x ^ g for x in s}
	if maxlen and len(s) > maxlen:
		s = set(int(x) for x in rng.permutation(sorted(s))[:maxlen])
	return s


def subspace(algebra, masks, rng=None):
	"""Numga subspace from bitmasks, given in arbitrary order"""
	masks = sorted(masks)
	if rng is not None and len(masks):
		masks = [masks[i] for i in rng.permutation(len(masks))]
	return algebra.subspace.from_blades(masks)


def some(rng, masks):
	"""a random nonempty part of a collection of bitmasks"""
	masks = list(masks)
	return [masks[i] for i in rng.permutation(len(masks))[:int(rng.integers(1, len(masks) + 1))]]


# -- values ------------------------------------------------------------------

def ints(rng, shape, lo=-4, hi=4, zero=0.15):
	v = rng.integers(lo, hi + 1, size=shape).astype(float)
	v[rng.random(shape) < zero] = 0
	return v


def magnitude(rng, p=0.25, lo=-60, hi=40):
	"""a common power of two for all coefficients of an operand; arithmetic on them stays exact"""
	return 2.0 ** int(rng.integers(lo, hi + 1)) if rng.random() < p else 1.0


def floats(rng, shape, scale=1.0):
	return rng.normal(size=shape) * scale


def mk(ctx, sub, values):
	return ctx.multivector(subspace=sub, values=values)


def to_np(v):
	if hasattr(v, 'detach'):
		return v.detach().cpu().numpy()
	return np.asarray(v, dtype=float) if not isinstance(v, np.ndarray) else v


def to_ref(mv):
	v = to_np(mv.values)
	return {int(b): v[..., i].astype(float) for i, b in enumerate(mv.subspace.blades)}


def ref_of(sub, values):
	v = np.asarray(values)
	return {int(b): v[..., i] for i, b in enumerate(sub.blades)}


def diff(mv, expect, rtol=0.0, atol=0.0, batch=None):
	"""None if the multivector equals the reference element, else a description.
	rtol is relative to the largest expected coefficient of each batch entry"""
	if not hasattr(mv, 'subspace') or not hasattr(mv, 'values'):
		return f'a {type(mv).__name__} instead of a multivector'
	blades = [int(b) for b in mv.subspace.blades]
	v = to_np(mv.values)
	if v.shape[-1] != len(blades):
		return f'{v.shape[-1]} components for {len(blades)} blades'
	if batch is not None and tuple(v.shape[:-1]) != tuple(batch):
		return f'batch shape {v.shape[:-1]}, expected {tuple(batch)}'
	mag = 0.0
	if rtol:
		for m, e in expect.items():
			mag = np.maximum(mag, np.abs(np.asarray(e, float)))
	tol = atol + rtol * mag
	pos = {b: i for i, b in enumerate(blades)}
	for m in sorted(set(blades) | set(expect)):
		e = np.asarray(expect.get(m, 0.0), float)
		if m in pos:
			x = v[..., pos[m]]
			try:
				err = np.abs(x - e)
			except ValueError:
				return f'shape mismatch on blade {m:b}: {x.shape} vs {e.shape}'
			bad = ~(err <= tol)
			if np.any(bad):
				return f'blade {m:b}: got {np.ravel(x)[:4]}, expected {np.ravel(e)[:4]}'
		else:
			if np.any(~(np.abs(e) <= tol)):
				return f'blade {m:b} missing from output subspace; expected {np.ravel(e)[:4]}'
	return None


def written(rng, ctx_or_algebra, masks, taken=()):
	"""a set of blades as users write it after a dot: names of generators run together, blades joined by underscores"""
	alg = getattr(ctx_or_algebra, 'algebra', ctx_or_algebra)
	names = list(alg.description.basis_names)
	lst = [int(m) for m in rng.permutation([m for m in masks if m])[:5]]
	parts = []
	for m in lst:
		idx = [i for i in range(len(names)) if m >> i & 1]
		parts.append(''.join(names[i] for i in rng.permutation(idx)))
	text = '_'.join(parts)
	if not text or text.startswith('_') or hasattr(type(alg.subspace), text) or text in vars(alg.subspace) or text in ('grades', 'algebra', 'order', 'subspace', 'factory', '_multivector') or text in taken:
		return None, set()
	return text, set(lst)
