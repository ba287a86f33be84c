"""Descriptions and textual forms mean what they say; relabelling and embedding change nothing"""
import numpy as np

from vf import gen, numeric, oplib, ops
from vf.checks.c13 import guarded
from vf.gen import SIGN, rng_of
from vf.harness import Skip
from vf.ref import Ref, popcount

RULE = ('random algebras of every signature up to 4 generators and samples up to 9, written in every accepted style with one- and multi-letter names; an observation is one parsed-back description, one cell '
	'of a printed operator table compared with the reference product, one subspace label compared with the definition of the label, or one expression evaluated in an algebra and in the same '
	'algebra with its generators reordered, renamed or extended; distinct by (kind, signature, subspaces)')
REQUIRED = {'description': 125, 'cell': 5000, 'label': 250, 'isomorphism': 250, 'embedding': 125, 'rejected': 25}
BUDGET = dict(quick=400, thorough=500)


def jobs(tier, seed):
	rng = rng_of('C20', seed, 'jobs')
	q = tier == 'quick'
	specs = []
	for n in (1, 2, 3, 4):
		specs += [gen.spec_of(s, rng) for s in gen.all_sigs(n)]
	for n in [5] * 16 + [6] * 8 + [7, 8, 9]:
		specs.append(gen.spec_of(tuple(int(s) for s in rng.choice([1, -1, 0], size=n)), rng))
	specs = [specs[i] for i in rng.permutation(len(specs))]
	js = []
	for rep in range(2 if q else 12):
		for i in range(0, len(specs), 6):
			js.append(dict(kind='text', specs=specs[i:i + 6], cases=40 if q else 60, seed=['C20', seed, rep, i], essential=rep == 0))
	js.append(dict(kind='large', seed=['C20', seed, 'large'], essential=True))
	return js


def large(job, mon):
	"""descriptions of every size up to the 32 generators that blades can hold"""
	from numga.algebra.algebra import Algebra
	from numga.algebra.description import AlgebraDescription
	rng = rng_of(*job['seed'])
	for n in range(1, 33):
		for rep in range(3):
			q, r = (int(x) for x in rng.integers(0, n // 2 + 1, size=2))
			pqr = (n - q - r, q, r) if n - q - r >= 0 else (n, 0, 0)
			sig = list(gen.pqr_sig(*pqr))
			mon.case(n=n, pqr=pqr)
			mixed = [sig[i] for i in rng.permutation(n)]
			for what, want, f in (
				('pqr', sig, lambda: Algebra(pqr)), ('pqr', sig, lambda: Algebra.from_pqr(*pqr)),
				('signature', mixed, lambda: Algebra(AlgebraDescription.from_signature(''.join(SIGN[s] for s in mixed)))),
			):
				try:
					a = mon.call('description/large', f)
				except Skip:
					continue
				d = a.description
				mon.count('description')
				mon.seen('large', what, tuple(want))
				mon.check((list(d.signature), a.n_dimensions, len(set(d.basis_names))) == (want, n, n), 'description/large',
					lambda: f'{what} {want} gives {d.description_str} with {a.n_dimensions} generators')
				i = [int(x) for x in rng.integers(0, n, size=3)]
				got = mon.call('tokens', lambda: d.parse_tokens(''.join(d.basis_names[k] for k in i)))
				mon.check(tuple(got) == tuple(i), 'description/large', lambda: f'tokens of {d.description_str}: {got}, expected {i}')


def run(job, mon):
	if job['kind'] == 'large':
		return guarded(large, job, mon)
	for i, spec in enumerate(job['specs']):
		rng = rng_of(*job['seed'], i)
		mon.case(spec=spec)
		try:
			ctx, ref = mon.call('construct', oplib.context, spec)
			guarded(description, mon, spec, ctx, ref, rng)
			guarded(malformed, mon, spec, ctx, ref, rng)
			for c in range(job['cases']):
				for f in (table, labels, isomorphism, embedding):
					guarded(f, mon, spec, ctx, ref, rng)
		except Skip:
			pass


def description(mon, spec, ctx, ref, rng):
	d = ctx.algebra.description
	names, sig = list(d.basis_names), list(ref.sig)
	text = ''.join(n + SIGN[s] for n, s in zip(names, sig))

	def P(key, got, want):
		mon.count('description')
		mon.check(got == want, 'description/' + key, lambda: f'{key} of {spec}: {got}, expected {want}')
		mon.seen('description', key, spec['style'], tuple(sig))
	if spec['style'] not in ('signature', 'pqr', 'static_pqr'):
		P('names', names, spec['names'])
	P('distinct', len(set(names)), ref.n)
	P('signature', list(d.signature), sig)
	P('description_str', d.description_str, text)
	P('signature_str', d.signature_str, ''.join(SIGN[s] for s in sig))
	pqr = (sig.count(1), sig.count(-1), sig.count(0))
	P('pqr', tuple(d.pqr), pqr)
	P('pqr_str', d.pqr_str, '%d%d%d' % pqr)
	P('n_dimensions', (d.n_dimensions, ctx.algebra.n_dimensions), (ref.n, ref.n))
	P('n_blades', (d.n_blades, ctx.algebra.n_blades, len(ctx.algebra)), (ref.N,) * 3)
	P('n_grades', (d.n_grades, ctx.algebra.n_grades), (ref.n + 1,) * 2)
	from numga.algebra.algebra import Algebra
	again = mon.call('description', lambda: Algebra(d.description_str))
	P('round_trip', (list(again.description.basis_names), list(again.description.signature)), (names, sig))
	P('pss', int(ctx.algebra.pseudo_scalar_squared), int(ref.table[ref.N - 1, ref.N - 1]))
	# tokens of blade names
	for _ in range(4):
		idx = [int(i) for i in rng.integers(0, ref.n, size=rng.integers(1, 6))]
		P('tokens', tuple(mon.call('tokens', lambda: d.parse_tokens(''.join(names[i] for i in idx)))), tuple(idx))
	# basis vectors square to the signature
	for i, b in enumerate(ctx.multivector.basis()):
		s = b.squared()
		got = float(s.values[0]) if len(s.subspace) else 0.0
		P('square', got, float(sig[i]))
	# a blade written as a run of names is the wedge of these vectors, in the order they are written
	for _ in range(6):
		idx = [int(i) for i in rng.permutation(ref.n)[:rng.integers(1, min(ref.n, 5) + 1)]]
		if len(idx) > 1 and rng.random() < 0.15:
			idx[0] = idx[-1]
		name = ''.join(names[i] for i in idx)
		if name.startswith('_') or hasattr(type(ctx.multivector), name) or name in vars(ctx.multivector):
			continue
		b = mon.call('blade_name', lambda: getattr(ctx.multivector, name))
		got = {k: float(v) for k, v in gen.ref_of(b.subspace, gen.to_np(b.values)).items() if v}
		want = {} if len(set(idx)) < len(idx) else {sum(1 << i for i in idx): (-1.) ** sum(x > y for n_, x in enumerate(idx) for y in idx[n_ + 1:])}
		P('blade_name', got, want)
	# products of descriptions
	other = gen.build_algebra(dict(style='names', sig=[1, 0], names=['zu', 'zv'], cut=1))
	p = mon.call('product', lambda: ctx.algebra * other)
	P('product', (list(p.description.basis_names), list(p.description.signature)), (names + ['zu', 'zv'], sig + [1, 0]))


def malformed(mon, spec, ctx, ref, rng):
	"""what cannot be understood is refused, not guessed"""
	from numga.algebra.algebra import Algebra
	d = ctx.algebra.description
	for key, f in (
		('missing sign', lambda: Algebra(d.description_str + 'q')),
		('nameless', lambda: Algebra('+' + d.description_str)),
		('nameless after a digit', lambda: Algebra('uv0+' + d.description_str)),
		('name twice', lambda: Algebra(d.description_str + d.basis_names[rng.integers(ref.n)] + '0')),
		('empty', lambda: Algebra('')),
		('not a description', lambda: Algebra([1, 2])),
		('unknown blade', lambda: getattr(ctx.multivector, d.basis_names[0] + '?')),
		('unknown subspace', lambda: getattr(ctx.subspace, d.basis_names[0] + '_?')),
		('repeated vector', lambda: getattr(ctx.subspace, d.basis_names[0] * 2)),
		('repeated vector', lambda: getattr(ctx.subspace, d.basis_names[-1] + '_' + d.basis_names[0] + d.basis_names[-1] + d.basis_names[0])),
		('shared names', lambda: ctx.algebra * Algebra(d.basis_names[0] + '+')),
	):
		mon.count('rejected')
		try:
			out = f()
			mon.check(False, 'rejected/' + key, f'{key} accepted for {d.description_str}: {out}')
		except Exception:
			mon.check(True, 'rejected/' + key)


def cells(text):
	"""contents of a printed table, by row and column"""
	rows = [r for i, r in enumerate(text.split('\n')) if i % 2]
	out = []
	for r in rows:
		for c in '\u2551\u2502':
			r = r.replace(c, '|')
		out.append([c for c in r.split('|')[1:-1]])
	return out


def table(mon, spec, ctx, ref, rng):
	if ref.n > 6:
		return
	S = gen.subspace(ctx.algebra, gen.random_masks(rng, ref, None, 12) or {0}, rng)
	T = gen.subspace(ctx.algebra, gen.random_masks(rng, ref, None, 12) or {0}, rng)
	bits = lambda m: format(int(m), f'0{ref.n}b')[::-1]
	sig = ''.join(SIGN[s] for s in ref.sig)
	f = ['product', 'wedge', 'inner', 'left_contract', 'scalar_product', 'reverse_product'][rng.integers(6)]
	op = getattr(ctx.algebra.operator, f)(S, T)
	mon.case(signature=sig, op=f, S=S.named_str, T=T.named_str)
	text = mon.call('table', lambda: str(op))
	c = cells(text)
	sel = dict(ops.PRODUCT, **ops.GRADED, **ops.INVPROD)
	fn = next(v[-1] for k, v in sel.items() if f == k or f in v[0])
	mon.seen('table', f, ref.sig, S.blades.tobytes(), T.blades.tobytes())
	if mon.check(len(c) == len(S) + 1 and all(len(r) == len(T) + 1 for r in c), 'table/shape', lambda: f'{len(c)} rows for {len(S)} blades:\n{text}'):
		mon.check(c[0][0].strip() == sig, 'table/signature', lambda: f'{c[0][0]} in the corner of {sig}')
		mon.check([x.strip() for x in c[0][1:]] == [bits(m) for m in T.blades], 'table/columns', lambda: f'columns {c[0]}')
		mon.check([r[0].strip() for r in c[1:]] == [bits(m) for m in S.blades], 'table/rows', lambda: f'rows {[r[0] for r in c]}')
		for i, a in enumerate(S.blades):
			for j, b in enumerate(T.blades):
				out = {k: v for k, v in fn(ref)({int(a): 1.0}, {int(b): 1.0}).items() if v}
				want = '' if not out else ''.join('-' * (v < 0) + bits(k) for k, v in out.items())
				mon.count('cell')
				mon.check(c[i + 1][j + 1].strip().lstrip('+') == want, 'table/cell', lambda: f'{f} table in {sig}: {bits(a)} {bits(b)} shows {c[i + 1][j + 1]!r}, expected {want!r}')
	u = ['reverse', 'involute', 'conjugate', 'right_hodge', 'left_complement', 'right_complement'][rng.integers(6)]
	alias = {al: v for k, v in ops.UNARY.items() for al in list(v[0]) + [k]}
	if u not in alias:
		return
	op = getattr(ctx.algebra.operator, u)(S)
	text = mon.call('table', lambda: str(op))
	c = cells(text)
	for i, a in enumerate(S.blades):
		out = {k: v for k, v in alias[u][-1](ref)({int(a): 1.0}).items() if v}
		want = '' if not out else ''.join('-' * (v < 0) + bits(k) for k, v in out.items())
		mon.count('cell')
		mon.check(c[0][i + 1].strip() == bits(a) and c[1][i + 1].strip().lstrip('+') == want, 'table/unary', lambda: f'{u} table in {sig}: {bits(a)} shows {c[1][i + 1]!r}, expected {want!r}')


def labels(mon, spec, ctx, ref, rng):
	"""labels of subspaces are true statements"""
	S = gen.subspace(ctx.algebra, gen.random_masks(rng, ref, ['named', 'grades', 'grade_part', 'sparse'][rng.integers(4)], None), rng)
	mon.case(signature=list(ref.sig), S=S.named_str)
	label = mon.call('pretty_str', lambda: S.pretty_str)
	mine = {int(b) for b in S.blades}
	k = lambda *g: {m for m in range(ref.N) if popcount(m) in g}
	named = gen.named_masks(ref)
	n = ref.n
	named.update(antitrivector=k(n - 3), antiquadvector=k(n - 4))
	mon.count('label')
	mon.seen('label', ref.sig, S.blades.tobytes())
	if mon.check(isinstance(label, str) and label[:3] in ('is_', 'in_'), 'label/form', lambda: f'label {label!r} of {S.named_str}'):
		want = named.get(label[3:])
		if want is not None:
			ok = mine == want if label[:3] == 'is_' else mine <= want
			mon.check(ok, 'label/true', lambda: f'{S.named_str} in {ref.sig} is labelled {label}')
	v = gen.ints(rng, (2, len(S)))
	text = mon.call('repr', lambda: repr(gen.mk(ctx, S, v)))
	mon.check(S.named_str in text and str(label) in text and str(v) in text, 'repr', lambda: f'{text!r} for {S.named_str}, {v}')


def expressions(ctx, rng, n):
	"""expressions that only refer to the metric"""
	e = [
		('product', lambda x, y: x * y), ('outer', lambda x, y: x ^ y), ('inner', lambda x, y: x | y), ('reverse', lambda x, y: ~x), ('involute', lambda x, y: x.involute()),
		('commutator', lambda x, y: x.commutator_product(y)), ('scalar_product', lambda x, y: x.scalar_product(y)), ('squared', lambda x, y: x.squared()),
		('left_contract', lambda x, y: x.left_contract(y)), ('reverse_product', lambda x, y: x.symmetric_reverse_product()), ('conjugate', lambda x, y: x.conjugate()),
		('sum', lambda x, y: x + y * 2), ('select', lambda x, y: x.select[1] + y.restrict[2] if n > 1 else x),
	]
	if n <= 5:
		e += [('sandwich', lambda x, y: x >> y), ('full_sandwich', lambda x, y: x.full_sandwich(y)), ('degenerate', lambda x, y: x.degenerate() - y.nondegenerate())]
	return e[rng.integers(len(e))]


def isomorphism(mon, spec, ctx, ref, rng):
	"""reordering and renaming the generators"""
	n = ref.n
	perm = [int(i) for i in rng.permutation(n)]   # new generator i is old generator perm[i]
	other = dict(style='names', sig=[ref.sig[i] for i in perm], names=[f'q{chr(97 + i)}' for i in range(n)], cut=0)
	octx, oref = mon.call('construct', oplib.context, other)

	def image(mask):
		"""old blade as signed new blade"""
		idx = [perm.index(i) for i in range(n) if mask >> i & 1]
		s = (-1) ** sum(idx[i] > idx[j] for i in range(len(idx)) for j in range(i + 1, len(idx)))
		return sum(1 << i for i in idx), s

	def carry(r):
		return {image(m)[0]: image(m)[1] * v for m, v in r.items()}
	lim = 16 if n < 6 else 8
	x, y, ox, oy = [], [], [], []
	ops_ = []
	for _ in range(2):
		S = gen.subspace(ctx.algebra, gen.random_masks(rng, ref, None, lim), rng)
		v = gen.ints(rng, (2, len(S)))
		r = gen.ref_of(S, v)
		c = carry(r)
		T = gen.subspace(octx.algebra, set(c), rng)
		w = np.stack([c[int(b)] for b in T.blades], -1) if len(T) else np.zeros((2, 0))
		ops_.append((gen.mk(ctx, S, v), gen.mk(octx, T, w)))
	name, f = expressions(ctx, rng, n)
	mon.case(signature=list(ref.sig), permutation=perm, expression=name, x=ops_[0][0].subspace.named_str, y=ops_[1][0].subspace.named_str)
	a = mon.call('iso/' + name, lambda: f(ops_[0][0], ops_[1][0]))
	b = mon.call('iso/' + name, lambda: f(ops_[0][1], ops_[1][1]))
	mon.count('isomorphism')
	mon.seen('iso', name, ref.sig, tuple(perm), ops_[0][0].subspace.blades.tobytes())
	want = carry(gen.to_ref(a))
	d = gen.diff(b, want)
	mon.check(d is None and {int(k) for k in b.subspace.blades} == set(want), 'isomorphism/' + name, lambda: f'{name} changes when generators of {ref.sig} are reordered by {perm}: {d}, blades {b.subspace.named_str}')


def embedding(mon, spec, ctx, ref, rng):
	"""extending the algebra by further generators"""
	n = ref.n
	if n > 7:
		return
	k = int(rng.integers(1, 3))
	extra = [int(s) for s in rng.choice([1, -1, 0], size=k)]
	alg = gen.build_algebra(dict(style='names', sig=list(extra), names=[f'z{i}z' .replace('0', 'o') for i in range(k)], cut=0))
	from numga.backend.numpy.context import NumpyContext
	big = mon.call('embed', lambda: NumpyContext(ctx.algebra * alg))
	lim = 16 if n < 6 else 8
	pair = []
	for _ in range(2):
		S = gen.subspace(ctx.algebra, gen.random_masks(rng, ref, None, lim), rng)
		v = gen.ints(rng, (2, len(S)))
		T = big.subspace.from_blades([int(b) for b in S.blades])
		pair.append((gen.mk(ctx, S, v), gen.mk(big, T, v)))
	name, f = expressions(ctx, rng, n)
	mon.case(signature=list(ref.sig), extra=extra, expression=name, x=pair[0][0].subspace.named_str, y=pair[1][0].subspace.named_str)
	a = mon.call('embed/' + name, lambda: f(pair[0][0], pair[1][0]))
	b = mon.call('embed/' + name, lambda: f(pair[0][1], pair[1][1]))
	mon.count('embedding')
	mon.seen('embed', name, ref.sig, tuple(extra), pair[0][0].subspace.blades.tobytes())
	if name == 'select':
		want = gen.to_ref(a)
		d = gen.diff(b, want)
		mon.check(d is None, 'embedding/select', lambda: f'{d}')
		return
	d = gen.diff(b, gen.to_ref(a))
	mon.check(d is None and [int(z) for z in b.subspace.blades] == [int(z) for z in a.subspace.blades], 'embedding/' + name, lambda: f'{name} changes when {ref.sig} is extended by {extra}: {d}')
