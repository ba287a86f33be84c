"""Sparse tables and sparse matrices of multivectors compute what their dense forms compute"""
import numpy as np

from vf import backends, gen, oplib, ops
from vf.checks.c13 import guarded
from vf.gen import rng_of
from vf.harness import Skip
from vf.ref import Ref, add, scale

RULE = ('random sparse tables with up to four axes, repeated coordinates in sums and contractions, and integer or real entries; random sparse matrices of multivectors, all patterns whose rows are nonempty, '
	'repeated entries included, over random algebras and subspaces; an observation is one operation whose outcome was compared with the same operation on dense arrays, or on dense arrays of reference elements; '
	'distinct by (operation, signature, subspaces or axes)')
REQUIRED = {'tensor': 1000, 'matvec': 100, 'matmat': 60, 'matscalar': 60, 'linear': 200, 'dense': 100, 'builder': 60}
BUDGET = dict(quick=300, thorough=500)


def jobs(tier, seed):
	rng = rng_of('C25', seed, 'jobs')
	q = tier == 'quick'
	js = []
	for i in range(16 if q else 60):
		js.append(dict(kind='tensor', seed=['C25', seed, 'tensor', i], cases=60, essential=True))
	for i in range(90 if q else 400):
		specs = [gen.spec_of(s, rng) for s in [gen.all_sigs(n)[rng.integers(3 ** n)] for n in (1, 2, 3, 3, 4)]]
		js.append(dict(kind='matrix', specs=specs, seed=['C25', seed, 'matrix', i], cases=3, essential=q))
	js.append(dict(kind='known', essential=True))
	return js


def known(mon):
	"""the inputs of the known findings"""
	from numga.algebra.algebra import Algebra
	from numga.examples.ga_sparse import Builder, MatrixContainer
	ctx = backends.make('numpy/Einsum/float64', Algebra('x+y+'))
	V = ctx.subspace.vector()
	b1, b2 = Builder((1, 1), V), Builder((1, 1), V)
	mon.case(inputs='two builders of one by one matrices, the second left empty; a row of two vectors times vectors')
	n = len(b2.entries)
	b1.add(0, 0, ctx.multivector.vector([1., 2.]))
	mon.check(len(b2.entries) == n, 'known/shared-builders', 'an entry added to one builder appears in another')
	M = MatrixContainer((1, 2), [0, 0], [0, 1], ctx.multivector.vector([[1., 2.], [3., 4.]]))
	bound = M.product(V)
	x = np.array([1., -2., 5., 3.])
	want = gen.to_np(bound(ctx.multivector.vector(x.reshape(2, 2))).values).ravel()
	A = bound.as_dense()
	blocks = gen.to_np(bound.bound.kernel)
	swapped = np.concatenate([k for k in blocks], -1)
	mon.check(np.array_equal(A @ x, want), 'known/dense-blocks' if np.array_equal(A, swapped) else 'as_dense', lambda: f'dense form times {x.tolist()} is {(A @ x).tolist()}, product is {want.tolist()}')
	try:
		y = bound.as_operator().matmat(np.stack([x, x], -1))
		mon.check(np.array_equal(y, np.stack([want, want], -1)), 'as_operator', lambda: f'{y.tolist()}')
	except ValueError:
		mon.check(False, 'known/operator-columns', 'linear operator applied to columns raises ValueError')
	except Exception as e:
		mon.check(False, 'as_operator', f'linear operator applied to columns: {type(e).__name__}')


def run(job, mon):
	if job['kind'] == 'known':
		return known(mon)
	if job['kind'] == 'tensor':
		for c in range(job['cases']):
			guarded(tensor, mon, rng_of(*job['seed'], c))
		return
	for i, spec in enumerate(job['specs']):
		rng = rng_of(*job['seed'], i)
		mon.case(spec=spec)
		try:
			ctx, ref = mon.call('construct', oplib.context, spec)
		except Skip:
			continue
		for c in range(job['cases']):
			guarded(matrix, mon, spec, ctx, ref, rng)


# -- tables ------------------------------------------------------------------

def densify(t, labels):
	"""dense array of a sparse table over explicit axis labels; repeated coordinates add up"""
	out = np.zeros([len(l) for l in labels])
	pos = [{int(v): i for i, v in enumerate(l)} for l in labels]
	cols = [np.asarray(a) for a in t.axes]
	for k, d in enumerate(np.atleast_1d(t.data)):
		out[tuple(p[int(a[k])] for p, a in zip(pos, cols))] += d
	return out


def tensor(mon, rng):
	from numga.algebra.algebra import Algebra
	from numga.operator.sparse_tensor import SparseTensor
	alg = Algebra.from_pqr(int(rng.integers(3, 6)), 0, 0)

	def axis():
		m = [int(b) for b in rng.permutation(2 ** alg.n_dimensions)[:rng.integers(1, 5)]]
		return alg.subspace.from_blades(m)

	def make(axes, kind):
		full = [a.ravel() for a in np.meshgrid(*[np.asarray(s.blades) for s in axes], indexing='ij')]
		keep = rng.random(len(full[0])) < 0.7
		keep[rng.integers(len(keep))] = True
		n = int(keep.sum())
		data = rng.integers(-60, 61, n).astype(np.int8) if kind == 'int8' else rng.integers(-60, 61, n) if kind == 'int' else rng.integers(-60, 61, n) / 4.
		p = rng.permutation(n)
		return SparseTensor([f[keep][p] for f in full], data[p])

	k = ['int', 'float', 'int8'][rng.integers(3)]
	A = [axis() for _ in range(rng.integers(1, 4))]
	shared = A[rng.integers(len(A))]
	B = [axis() for _ in range(rng.integers(0, 2))] + [shared]
	B = [B[i] for i in rng.permutation(len(B))]
	a, a2, b = make(A, k), make(A, k), make(B, k)
	lab = lambda axes: [np.asarray(s.blades) for s in axes]
	da, da2, db = densify(a, lab(A)), densify(a2, lab(A)), densify(b, lab(B))
	mon.case(axes_a=[s.blades.tolist() for s in A], axes_b=[s.blades.tolist() for s in B], kind=k)

	def same(what, t, axes, want):
		mon.count('tensor')
		mon.seen('tensor', what, tuple(len(s) for s in axes), k)
		got = mon.call(f'tensor/{what}', lambda: t().to_dense(axes))
		mon.check(np.shape(got) == want.shape and np.array_equal(np.asarray(got, float), want), f'tensor/{what}', lambda: f'{what}: {np.asarray(got).ravel()[:8]} expected {want.ravel()[:8]}')

	wide = lambda t: SparseTensor(t.axes, t.data.astype(float if k == 'float' else int))
	same('to_dense', lambda: a, A, da)
	same('drop_zero', a.drop_zero, A, da)
	# entries of very different magnitude, and explicit zeros
	p0 = [int(i) for i in rng.permutation(len(A))]
	wide_data = np.asarray(a.data, float) * 2. ** rng.integers(-60, 61, len(a.data)) * (rng.random(len(a.data)) < 0.8)
	w = SparseTensor(a.axes, wide_data)
	dw = densify(w, lab(A))
	same('drop_zero', w.drop_zero, A, dw)
	kept = w.drop_zero()
	mon.check(len(kept.data) == np.count_nonzero(wide_data), 'tensor/drop_zero', lambda: f'drop_zero keeps {len(kept.data)} of {wide_data.tolist()}')
	same('transpose', lambda: w.transpose(p0), [A[i] for i in p0], dw.transpose(p0))
	p = [int(i) for i in rng.permutation(len(A))]
	same('transpose', lambda: a.transpose(p), [A[i] for i in p], da.transpose(p))
	same('multiple', lambda: wide(a) * 3, A, da * 3)
	if k == 'float':
		same('fraction', lambda: a * 0.5, A, da * 0.5)
	same('sum', lambda: wide(a) + wide(a2), A, da + da2)
	same('sum', lambda: wide(a) + wide(a) + wide(a2), A, 2 * da + da2)
	same('product', lambda: wide(a).product(wide(b)), A + B, np.multiply.outer(da, db))
	i = A.index(shared)
	j = B.index(shared)
	letters = 'abcdefgh'
	la = letters[:len(A)]
	lb = ''.join(la[i] if x == j else letters[len(A) + x] for x in range(len(B)))
	lo = ''.join(c for c in la + lb if c != la[i])
	rest = [s for x, s in enumerate(A) if x != i] + [s for x, s in enumerate(B) if x != j]
	same('contracted product', lambda: wide(a).tensorproduct(wide(b), i, j), rest, np.einsum(f'{la},{lb}->{lo}', da, db))
	same('contract', lambda: wide(a).product(wide(b)).contract((i, len(A) + j)), rest, np.einsum(f'{la},{lb}->{lo}', da, db))
	# one table with itself: two axes over the same blades, coordinates listed repeatedly
	for _ in range(3):
		C = [axis() for _ in range(rng.integers(1, 3))]
		x, y = (int(v) for v in rng.permutation(len(C) + 1)[:2])
		C.insert(y, C[x if x < y else x - 1] if len(C) > 0 else axis())
		x, y = (v for v in ((x, y), (y, x))[rng.integers(2)])
		if C[x] is not C[y]:
			continue
		c = make(C, k)
		r = rng.integers(0, len(c.data), len(c.data) + int(rng.integers(1, 6)))
		c = wide(SparseTensor([v[r] for v in c.axes], c.data[r]))
		lc = list(letters[:len(C)])
		lc[y] = lc[x]
		lr = ''.join(l for v, l in enumerate(lc) if v not in (x, y))
		want = np.einsum(f"{''.join(lc)}->{lr}", densify(c, lab(C)))
		if lr:
			same('trace', lambda: c.contract((x, y)), [s for v, s in enumerate(C) if v not in (x, y)], want)
		else:
			got = mon.call('tensor/trace', lambda: c.contract((x, y)).data)
			mon.count('tensor')
			mon.check(np.size(got) == 1 and float(np.sum(got)) == float(want), 'tensor/trace', lambda: f'contraction {got}, expected {want}')


# -- matrices ----------------------------------------------------------------

class Dense:
	"""dense matrix of reference elements"""
	def __init__(self, shape, cells=None):
		self.shape, self.cells = tuple(shape), cells if cells is not None else {}
	def get(self, r, c):
		return self.cells.get((r, c), {})
	def put(self, r, c, e):
		self.cells[r, c] = add(self.get(r, c), e)
	def map(self, f):
		return Dense(self.shape, {k: f(v) for k, v in self.cells.items()})
	def matvec(self, op, x):
		out = [{} for _ in range(self.shape[0])]
		for (r, c), v in self.cells.items():
			out[r] = add(out[r], op(v, x[c]))
		return out
	def matmat(self, op, o):
		out = Dense((self.shape[0], o.shape[1]))
		for (r, c), v in self.cells.items():
			for (r2, c2), w in o.cells.items():
				if c == r2:
					out.put(r, c2, op(v, w))
		return out


def random_matrix(rng, ctx, ref, shape, s):
	"""coordinate lists in which each row occurs, with repetitions, and the dense equivalent"""
	R, C = shape
	n = R + int(rng.integers(0, R * C + 1))
	rows = np.concatenate([np.arange(R), rng.integers(0, R, n - R)])
	cols = rng.integers(0, C, n)
	p = rng.permutation(n)
	rows, cols = rows[p], cols[p]
	vals = gen.ints(rng, (n, len(s)))
	d = Dense(shape)
	for r, c, v in zip(rows, cols, vals):
		d.put(int(r), int(c), gen.ref_of(s, v))
	return rows, cols, vals, d


def compare(mon, key, got, want):
	"""a container against a dense reference; absent entries are zero"""
	if not mon.check(tuple(got.shape) == want.shape, key, lambda: f'shape {got.shape}, expected {want.shape}'):
		return
	V = gen.to_np(got.values.values)
	blades = [int(b) for b in got.values.subspace.blades]
	cells = {}
	for k, (r, c) in enumerate(zip(got.rows, got.columns)):
		mon.check((int(r), int(c)) not in cells, key + '/duplicates', f'entry {r, c} is stored twice')
		cells[int(r), int(c)] = {b: V[k, i] for i, b in enumerate(blades)}
	for k in set(cells) | set(want.cells):
		x, y = cells.get(k, {}), want.cells.get(k, {})
		bad = [m for m in set(x) | set(y) if not x.get(m, 0) == y.get(m, 0)]
		mon.check(not bad, key, lambda: f'{key}: entry {k} is {x}, expected {y}')


def vec_equal(mon, key, got, want):
	V = gen.to_np(got.values)
	if not mon.check(V.shape == (len(want), len(got.subspace)), key, lambda: f'shape {V.shape} for {len(want)} rows'):
		return
	for r, e in enumerate(want):
		d = gen.diff(gen.mk(got.context, got.subspace, V[r]), e)
		mon.check(d is None, key, lambda: f'{key}: row {r}: {d}')


BIN = {'product': (ops.PRODUCT, '__mul__'), 'wedge': (ops.GRADED, '__xor__'), 'inner': (ops.GRADED, '__or__'), 'regressive': (ops.ANTI, '__and__'), 'commutator': (ops.GRADED, None),
	'left_contract': (ops.GRADED, None), 'right_contract': (ops.GRADED, None), 'anti_wedge': (ops.ANTI, None), 'reverse_product': (ops.INVPROD, None)}


def matrix(mon, spec, ctx, ref, rng):
	from numga.examples.ga_sparse import Builder, MatrixContainer
	shape = tuple(int(x) for x in rng.integers(1, 5, size=2))
	pick = lambda: gen.subspace(ctx.algebra, gen.random_masks(rng, ref, None, 8) or {0}, rng)
	s, t = pick(), pick()
	rows, cols, vals, D = random_matrix(rng, ctx, ref, shape, s)
	mon.case(spec=spec, shape=shape, subspace=s.named_str, operand=t.named_str, rows=rows.tolist(), cols=cols.tolist())
	M = mon.call('construct', lambda: MatrixContainer(shape, rows, cols, gen.mk(ctx, s, vals)))
	sig = tuple(spec['sig'])

	def saw(kind, *key):
		mon.count(kind)
		mon.seen(kind, sig, s.blades.tobytes(), t.blades.tobytes(), *key)

	compare(mon, 'construct', M, D)

	# assembled entry by entry; two builders at once, entries on smaller subspaces
	b1, b2 = Builder(shape, s), Builder(shape, s)
	b1.entries, b2.entries = [], []    # shared between instances: a known finding
	want = Dense(shape)
	for r, c, v in zip(rows, cols, vals):
		keep = [i for i in range(len(s)) if rng.random() < 0.8] or [0]
		sub = s if len(s) == 0 else gen.subspace(ctx.algebra, {int(s.blades[i]) for i in keep}, rng)
		pos = {int(b): i for i, b in enumerate(s.blades)}
		w = np.array([v[pos[int(b)]] for b in sub.blades])
		mon.call('builder', b1.add, int(r), int(c), gen.mk(ctx, sub, w))
		mon.call('builder', b2.add, int(r), int(c), gen.mk(ctx, s, v))
		want.put(int(r), int(c), gen.ref_of(sub, w))
	compare(mon, 'builder', mon.call('builder', b1.finalize), want)
	compare(mon, 'builder', mon.call('builder', b2.finalize), D)
	saw('builder')

	# linear structure
	rows2, cols2, vals2, D2 = random_matrix(rng, ctx, ref, shape, t)
	M2 = MatrixContainer(shape, rows2, cols2, gen.mk(ctx, t, vals2))
	dsum = Dense(shape, dict(D.cells))
	ddif = Dense(shape, dict(D.cells))
	for (r, c), v in D2.cells.items():
		dsum.put(r, c, v)
		ddif.put(r, c, scale(v, -1))
	for key, f, e in (
		('add', lambda: M + M2, dsum), ('subtract', lambda: M - M2, ddif), ('negate', lambda: -M, D.map(lambda v: scale(v, -1))), ('positive', lambda: +M, D),
		('scale', lambda: M * 3, D.map(lambda v: scale(v, 3))), ('scale', lambda: M * 0.5, D.map(lambda v: scale(v, 0.5))),
		('dual', M.dual, D.map(ref.rhodge)),
		('reverse', M.reverse, Dense(shape[::-1], {(c, r): ref.rev(v) for (r, c), v in D.cells.items()})),
		('reverse', lambda: ~M, Dense(shape[::-1], {(c, r): ref.rev(v) for (r, c), v in D.cells.items()})),
	):
		compare(mon, key, mon.call(key, f), e)
		saw('linear', key)

	# products
	for name in rng.permutation(list(BIN))[:4]:
		table, dunder = BIN[name]
		op = table[name][-1](ref)
		call = getattr(M, dunder) if dunder and rng.random() < 0.5 else (lambda o: getattr(M, name)(o))
		xv = gen.ints(rng, (shape[1], len(t)))
		x = gen.mk(ctx, t, xv)
		want = D.matvec(op, [gen.ref_of(t, v) for v in xv])
		vec_equal(mon, 'matvec', mon.call(f'matvec/{name}', call, x), want)
		saw('matvec', name)
		one = gen.ints(rng, (len(t),))
		compare(mon, 'matscalar', mon.call(f'matscalar/{name}', call, gen.mk(ctx, t, one)), D.map(lambda v: op(v, gen.ref_of(t, one))))
		saw('matscalar', name)
		k = int(rng.integers(1, 4))
		rb, cb, vb, DB = random_matrix(rng, ctx, ref, (shape[1], k), t)
		B = MatrixContainer((shape[1], k), rb, cb, gen.mk(ctx, t, vb))
		compare(mon, 'matmat', mon.call(f'matmat/{name}', call, B), D.matmat(op, DB))
		saw('matmat', name)
		# bound to the operand subspace, as matrices of numbers
		bound = mon.call(f'bound/{name}', lambda: getattr(M, name)(t))
		y = mon.call(f'bound/{name}', bound, x)
		vec_equal(mon, 'bound', y, want)
		out = [int(m) for m in y.subspace.blades]
		flat = np.array([[float(e.get(m, 0)) for m in out] for e in want]).reshape(-1)
		if flat.size and xv.size:
			L = mon.call(f'as_operator/{name}', bound.as_operator)
			mon.check(np.array_equal(mon.call(f'as_operator/{name}', L.matvec, xv.reshape(-1)), flat), 'as_operator', f'{name}: linear operator differs from the matrix')
			full = np.stack([L.matvec(e) for e in np.eye(xv.size)], -1).reshape(shape[0], len(out), shape[1], len(t))
			# blocks of the dense form are transposed: a known finding; look at the symmetric ones
			if len(out) == len(t) and np.array_equal(full, full.transpose(0, 3, 2, 1)):
				A = mon.call(f'as_dense/{name}', bound.as_dense)
				mon.count('as_dense')
				mon.check(np.array_equal(A, full.reshape(flat.size, xv.size)), 'as_dense', lambda: f'{name}: dense form {A.tolist()}, expected {full.tolist()}')
		saw('dense', name)

	# diagonal matrices and matrices of numbers
	dv = gen.ints(rng, (shape[0], len(s)))
	Dg = Dense((shape[0],) * 2, {(i, i): gen.ref_of(s, v) for i, v in enumerate(dv)})
	G = mon.call('diag', MatrixContainer.diag, gen.mk(ctx, s, dv))
	compare(mon, 'diag', G, Dg)
	compare(mon, 'diag', mon.call('diag', lambda: G * M), Dg.matmat(ref.mul, D))
	import scipy.sparse as sp
	nums = gen.ints(rng, len(rows))
	S = [sp.coo_matrix, lambda *a: sp.coo_matrix(*a).tocsr(), lambda *a: sp.coo_matrix(*a).tocsc()][rng.integers(3)]((nums, (rows, cols)), shape)
	Q = mon.call('from_scipy', MatrixContainer.from_scipy, ctx, S)
	dn = np.asarray(S.todense())
	compare(mon, 'from_scipy', Q, Dense(shape, {(r, c): {0: dn[r, c]} for r in range(shape[0]) for c in range(shape[1])}))
	saw('linear', 'scipy')
