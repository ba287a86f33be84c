"""Subspace specialisation is transparent, and output subspaces are exact"""
import numpy as np

from vf import gen, ops, oplib
from vf.gen import rng_of
from vf.harness import Skip
from vf.ref import Ref, popcount, prune

RULE = ('random algebras up to 10 generators and random operand subspaces; each operation is run on a small subspace and again with the same operands zero padded '
	'into random larger subspaces, and the two results must agree exactly on every blade; the reported output subspace must contain every blade that can occur and no '
	'blade that is identically zero, decided by the reference support on generic operands; simplicity, study and closure predicates are compared with their '
	'definitions on generic elements; distinct by (operation, signature, subspaces)')
REQUIRED = {'padded': 375, 'support': 375, 'predicate': 75}

TIGHT_BIN = {**ops.PRODUCT, **ops.GRADED, **ops.ANTI, **ops.INVPROD}


def jobs(tier, seed):
	return [j for j in oplib.std_jobs(tier, seed, 'C06') if j['kind'] != 'trace']


def generic(rng, s):
	"""operand with random integer coefficients, none zero; several samples decide a support with certainty for practical purposes"""
	return rng.integers(1, 1000, size=(3, len(s))).astype(float) * rng.choice([-1, 1], size=(3, len(s)))


def support(r):
	return {m for m, v in prune(r).items()}


def check_support(mon, key, label, ref, out, expect, subs):
	got, want = {int(b) for b in out.blades}, support(expect)
	mon.count('support')
	if want:
		mon.seen(key, ref.sig, tuple(s.blades.tobytes() for s in subs))
	mon.check(got == want, f'support/{key}', lambda: f'{label} on {[s.named_str for s in subs]} in {ref.sig}: output {sorted(got)}, attainable {sorted(want)}')


def pad(ctx, ref, rng, x, rx):
	extra = gen.random_masks(rng, ref, 'sparse')
	if ref.n <= 4 and rng.random() < 0.4:
		extra = set(range(ref.N))
	s = gen.subspace(ctx.algebra, set(rx) | extra, rng)
	v = np.zeros(x.values.shape[:-1] + (len(s),))
	for i, b in enumerate(s.blades):
		if int(b) in rx:
			v[..., i] = rx[int(b)]
	return gen.mk(ctx, s, v)


def case(mon, ctx, ref, rng, c):
	n = ref.n
	ml = {5: 16, 6: 10}.get(n, 5 if n > 6 else None)
	kd = 'sparse' if n > 8 else None
	mon.case(signature=list(ref.sig))

	def operand(lim=ml):
		masks = gen.random_masks(rng, ref, kd, lim)
		s = gen.subspace(ctx.algebra, masks, rng)
		v = generic(rng, s)
		return gen.mk(ctx, s, v), gen.ref_of(s, v)
	a, ra = operand()
	b, rb = operand()
	la, rla = operand(min(ml or 16, 10))
	A = pad(ctx, ref, rng, a, ra)
	B = pad(ctx, ref, rng, b, rb)
	LA = pad(ctx, ref, rng, la, rla)
	names = [k for k in TIGHT_BIN if n >= {'bivector_product': 2, 'trivector_product': 3}.get(k, 1)]
	tasks = []
	for name in [names[i] for i in rng.permutation(len(names))[:8]]:
		tasks.append((name, TIGHT_BIN[name], [a, b], [ra, rb], [A, B], None))
	un = list(ops.UNARY)
	for name in [un[i] for i in rng.permutation(len(un))[:4]]:
		tasks.append((name, ops.UNARY[name], [a], [ra], [A], None))
	sy = [k for k in ops.SYMMETRIC if ops.SYMMETRIC[k][0] <= (4 if n <= 4 else 3 if n <= 5 else 2)]
	for name in [sy[i] for i in rng.permutation(len(sy))[:4]]:
		k = ops.SYMMETRIC[name][0]
		x, rx, X = (a, ra, A) if k == 2 else (la, rla, LA)
		if len(X.subspace) ** k > 70000:
			continue
		tasks.append((name, ops.SYMMETRIC[name], [x], [rx], [X], [0] * k))
	for name in ('full_sandwich', 'sandwich', 'reverse_sandwich'):
		if len(LA.subspace) ** 2 * len(B.subspace) < 60000:
			tasks.append((name, ops.SANDWICH[name], [la, b], [rla, rb], [LA, B], [0, 1, 0]))
	for name, e, xs, rs, Xs, rep in tasks:
		try:
			rts = oplib.routes(ctx, {name: e}, name)
			rt = rts[rng.integers(len(rts))]
			expect = e[-1](ref)(*rs)
			out = oplib.observe(mon, f'{name}', name, ref, lambda: oplib.invoke(ctx, rt, xs, rep), expect, [(3,)], [x.subspace for x in xs], dict(rtol=1e-12))
			if out is None:
				continue
			if name != 'identity':
				check_support(mon, name, name, ref, out.subspace, expect, [x.subspace for x in xs])
			if name in ('sandwich', 'reverse_sandwich'):
				# padding the transported operand adds output grades by definition; pad the motor only
				Xs = [Xs[0], xs[1]]
			if name == 'trivector_product' and n < 3:
				continue
			mon.count('padded')
			oplib.observe(mon, f'padded/{name}', f'{name} on zero padded operands', ref, lambda: oplib.invoke(ctx, rt, Xs, rep), expect, [(3,)], [x.subspace for x in Xs], dict(rtol=1e-12))
		except Skip:
			pass
	# other operations
	try:
		expect = gen.to_ref(mon.call('add', lambda: a + b))
		oplib.observe(mon, 'padded/add', 'a + b', ref, lambda: A + B, expect, [(3,)], [A.subspace, B.subspace])
		expect = gen.to_ref(mon.call('sub', lambda: a - b))
		oplib.observe(mon, 'padded/sub', 'a - b', ref, lambda: A - B, expect, [(3,)], [A.subspace, B.subspace])
		mon.count('padded', 2)
	except Skip:
		pass
	if n <= 4:
		try:
			inverse_pad(mon, ctx, ref, rng)
		except Skip:
			pass
	if n <= 6:
		try:
			predicates(mon, ctx, ref, rng, a.subspace)
		except Skip:
			pass


def inverse_pad(mon, ctx, ref, rng):
	"""the inverse is a property of the element, not of the subspace that carries it"""
	masks = gen.random_masks(rng, ref, None, 6) or {0}
	s = gen.subspace(ctx.algebra, masks, rng)
	v = rng.normal(size=(4, len(s)))
	x = gen.mk(ctx, s, v)
	X = pad(ctx, ref, rng, x, gen.ref_of(s, v))
	if set(map(int, s.blades)) & {m for m in range(ref.N) if not ref.is_deg(m)} == set():
		return
	with np.errstate(all='ignore'):
		i = mon.call('inverse', x.inverse)
		I = mon.call('inverse', X.inverse)
		i = gen.to_ref(i)
		I = gen.to_ref(I)
		blades = set(i) | set(I)
		d = {m: np.asarray(i.get(m, 0.0)) - np.asarray(I.get(m, 0.0)) for m in blades}
		mag = np.max([np.abs(np.broadcast_to(i.get(m, 0.0), (4,))) for m in i], axis=0)
		ok = np.isfinite(mag) & (mag < 1e2)
		for m in I:
			ok &= np.isfinite(I[m])
		err = np.max([np.abs(np.broadcast_to(e, (4,))) for e in d.values()], axis=0)
	mon.count('inverse_padded', int(ok.sum()))
	mon.check(not np.any(ok & (err > 1e-6 * (1 + mag) ** 2)), 'padded/inverse', lambda: f'inverse of {s.named_str} in {ref.sig} differs from its zero padded form {X.subspace.named_str}: {err} {mag}',
		signature=list(ref.sig), values=v)


INV = [
	('is_squared_n_simple', lambda r: (lambda a: a)),
	('is_reverse_n_simple', lambda r: r.rev),
	('is_involute_n_simple', lambda r: r.invol),
	('is_conjugate_n_simple', lambda r: r.conj),
	('is_scalar_negation_n_simple', lambda r: r.scalar_neg),
	('is_pseudoscalar_negation_n_simple', lambda r: r.pss_neg),
]


REACH = ['product', 'wedge', 'inner', 'reverse_product', 'involute_product', 'conjugate_product', 'scalar_negation_product', 'pseudoscalar_negation_product', 'anti_reverse_product']


def sym_support(ref, masks, inv, rng):
	"""blades of a * inv(a) over all a in the span of the given blades"""
	a = {m: (rng.integers(1, 1000, size=3) * rng.choice([-1, 1], size=3)).astype(float) for m in masks}
	return support(ref.mul(a, inv(a)))


def n_simple(ref, masks, n, rng, memo):
	key = (frozenset(masks), n)
	if key not in memo:
		if n == 0:
			memo[key] = masks <= {0}
		else:
			memo[key] = any(n_simple(ref, sym_support(ref, masks, f(ref), rng), n - 1, rng, memo) for _, f in INV)
	return memo[key]


def predicates(mon, ctx, ref, rng, s):
	masks = {int(b) for b in s.blades}
	memo = {}
	for n in (1, 2):
		for name, f in INV:
			want = n_simple(ref, sym_support(ref, masks, f(ref), rng), n - 1, rng, memo)
			got = mon.call('predicate/' + name, lambda: getattr(s, name)(n))
			mon.count('predicate')
			mon.check(got == want, 'predicate/' + name, f'{name}({n}) of {s.named_str} in {ref.sig}: {got}')
		if ref.n > 5:
			break
	got = mon.call('predicate/simplicity', lambda: s.simplicity)
	want = next((k for k in range(ref.n // 2 + 2) if n_simple(ref, masks, k, rng, memo)), None)
	mon.check(got == want, 'predicate/simplicity', f'simplicity of {s.named_str} in {ref.sig}: {got}, expected {want}')
	mon.check(mon.call('is_study', lambda: s.is_study) == (sym_support(ref, masks, ref.scalar_neg, rng) <= {0}), 'predicate/is_study', f'{s.named_str} in {ref.sig}')

	# what products of generic elements of subspaces reach
	T = gen.subspace(ctx.algebra, gen.random_masks(rng, ref, None, 8), rng)
	generic = lambda S: {int(m): (rng.integers(1, 1000, size=3) * rng.choice([-1, 1], size=3)).astype(float) for m in S.blades}
	a, b = generic(s), generic(T)
	table = dict(ops.PRODUCT, **ops.GRADED, **ops.INVPROD, **ops.ANTI)
	reach = {n: support(table[n][-1](ref)(a, b)) for n in REACH}
	for n, want in reach.items():
		got = mon.call('reach/' + n, lambda: {int(m) for m in getattr(s, n)(T).blades})
		mon.count('predicate')
		mon.check(got == want, 'reach/' + n, lambda: f'{n} of {s.named_str} and {T.named_str} in {ref.sig}: {sorted(got)} expected {sorted(want)}')
	for n, f in (('squared', lambda: ref.mul(a, a)), ('cubed', lambda: ref.mul(ref.mul(a, a), a)), ('symmetric_reverse', lambda: ref.mul(a, ref.rev(a))),
		('symmetric_involute', lambda: ref.mul(a, ref.invol(a))), ('symmetric_conjugate', lambda: ref.mul(a, ref.conj(a))),
		('symmetric_scalar_negation', lambda: ref.mul(a, ref.scalar_neg(a))), ('symmetric_pseudoscalar_negation', lambda: ref.mul(a, ref.pss_neg(a)))):
		want = support(f())
		got = mon.call('reach/' + n, lambda: {int(m) for m in getattr(s, n)().blades})
		mon.count('predicate')
		mon.check(got == want, 'reach/' + n, lambda: f'{n} of {s.named_str} in {ref.sig}: {sorted(got)} expected {sorted(want)}')

	def prod(A, B):
		from vf.ref import blade_mul
		return {x ^ y for x in A for y in B if blade_mul(ref.sig, x, y)[1]}
	mon.check(mon.call('is_subalgebra', lambda: s.is_subalgebra) == (prod(masks, masks) <= masks), 'predicate/is_subalgebra', f'{s.named_str} in {ref.sig}')
	cl = set(masks)
	while not prod(cl, cl) <= cl:
		cl |= prod(cl, cl)
	got = mon.call('minimal_subalgebra', lambda: {int(b) for b in s.minimal_subalgebra.blades})
	mon.check(got == cl, 'predicate/minimal_subalgebra', f'{s.named_str} in {ref.sig}: {sorted(got)} expected {sorted(cl)}')
	ex = set(masks) | {0}
	while True:
		nx = ex | sym_support(ref, ex, lambda a: a, rng)
		if nx == ex:
			break
		ex = nx
	got = mon.call('minimal_exponential', lambda: {int(b) for b in s.minimal_exponential.blades})
	mon.check(got == ex, 'predicate/minimal_exponential', f'{s.named_str} in {ref.sig}: {sorted(got)} expected {sorted(ex)}')


def run(job, mon):
	for i, spec in enumerate(job['specs']):
		rng = rng_of(*job['seed'], i)
		mon.case(spec=spec)
		try:
			ctx, ref = mon.call('construct', oplib.context, spec)
			for c in range(job['cases']):
				case(mon, ctx, ref, rng, c)
		except Skip:
			pass
