"""Subspaces are canonical sets of blades"""
import gc

import numpy as np

from vf import gen
from vf.gen import rng_of
from vf.harness import Skip
from vf.ref import Ref, blade_mul, popcount

RULE = ('random algebras of every signature up to 4 generators and samples up to 17; long random construction histories (blade lists in any order, bit strings, attribute names, grades, '
	'set operations, slices, complements, products) are recorded as an event log; a monitor keeps the map from blade set to the object first returned for it and requires every later '
	'construction to return that very object; membership, ordering, set algebra, namespaces, names and index maps are compared with plain set arithmetic; distinct by (operation, signature, blade sets)')
REQUIRED = {'constructed': 1000, 'identity': 750, 'setops': 750, 'named': 100, 'predicate': 500, 'indices': 125, 'long': 10000}
BUDGET = dict(quick=400, thorough=500)


def jobs(tier, seed):
	rng = rng_of('C11', seed, 'jobs')
	q = tier == 'quick'
	specs = []
	for n in (1, 2, 3, 4):
		specs += [gen.spec_of(s, rng) for s in gen.all_sigs(n)]
	for n in [5] * 12 + [6] * 8 + [7, 8, 9, 10, 11, 12]:
		specs.append(gen.spec_of(tuple(int(s) for s in rng.choice([1, -1, 0], size=n)), rng, None if n < 12 else 'letters'))
	specs = [specs[i] for i in rng.permutation(len(specs))]
	js = []
	for rep in range(2 if q else 12):
		for i in range(0, len(specs), 6):
			js.append(dict(kind='history', specs=specs[i:i + 6], steps=140, seed=['C11', seed, rep, i], essential=rep == 0))
	big = [gen.spec_of(tuple(int(s) for s in rng.choice([1, -1, 0], size=n)), rng, 'letters') for n in ((13, 17) if q else (13, 14, 15, 16, 17, 18, 20))]
	for i, s in enumerate(big):
		js.append(dict(kind='large', specs=[s], steps=60, seed=['C11', seed, 'large', i], essential=q))
	# histories that outgrow any table of limited size
	for i, n in enumerate((6, 7, 8, 9) if q else (6, 7, 8, 9, 10, 11) * 3):
		js.append(dict(kind='long', specs=[gen.spec_of(tuple(int(s) for s in rng.choice([1, -1, 0], size=n)), rng, 'letters')], steps=6000 if q else 40000, seed=['C11', seed, 'long', i], essential=q))
	return js


def ms(s):
	return frozenset(int(b) for b in s.blades)


class History:
	def __init__(self, mon, alg, ref):
		self.mon, self.alg, self.ref = mon, alg, ref
		self.log = {}
		self.events = []

	def add(self, label, s, want):
		"""register the outcome of one construction; want is the blade set it must denote"""
		mon = self.mon
		mon.count('constructed')
		self.events.append(label)
		want = frozenset(want)
		got = [int(b) for b in s.blades]
		mon.seen(label.split('(')[0], self.ref.sig, want if len(want) < 64 else hash(want))
		mon.case(signature=list(self.ref.sig), op=label, history=self.events[-12:])
		key = label.split('(')[0]
		if not mon.check(frozenset(got) == want and len(got) == len(want), f'members/{key}', lambda: f'{label} in {self.ref.sig}: {sorted(got)[:20]} expected {sorted(want)[:20]}'):
			raise Skip()
		mon.check(got == sorted(got, key=lambda m: (popcount(m), m)), f'order/{key}', lambda: f'{label}: blades not in canonical order {got}')
		mon.check(s.algebra is self.alg, f'algebra/{key}', f'{label} belongs to another algebra')
		if want in self.log:
			mon.count('identity')
			o = self.log[want]
			mon.check(s is o and s == o and hash(s) == hash(o), f'identity/{key}', lambda: f'{label}: two different objects for the blades {sorted(want)[:20]}')
		self.log[want] = s
		return s


def construct(h, rng):
	"""one random construction route"""
	alg, ref, mon = h.alg, h.ref, h.mon
	n = ref.n
	f = alg.subspace
	kd = 'sparse' if n > 8 else None
	masks = gen.random_masks(rng, ref, kd, 200)
	lst = [int(m) for m in rng.permutation(sorted(masks))]
	names = list(alg.description.basis_names)
	k = int(rng.integers(12))
	if n > 12 and k in (4, 5, 6):
		k = 0
	C = lambda label, fn, want: h.add(label, mon.call(label.split('(')[0], fn), want)
	if k == 0:
		return C(f'from_blades({lst[:8]})', lambda: f.from_blades(lst), masks)
	if k == 1:
		return C('from_blades_array()', lambda: f.from_blades(np.array(lst, dtype=[np.int64, np.uint32, np.int32][rng.integers(3)])), masks)
	if k == 2 and masks:
		text = ','.join(format(m, f'0{n}b')[::-1] for m in lst)
		return C('from_bit_str()', lambda: f.from_bit_str(text), masks)
	if k == 3 and masks - {0}:
		lst = [m for m in lst if m][:6]
		parts = []
		for m in lst:
			idx = [i for i in range(n) if m >> i & 1]
			parts.append(''.join(names[i] for i in rng.permutation(idx)))
		text = '_'.join(parts)
		if not hasattr(type(f), text) and not text.startswith('__') and text not in ('grades', 'algebra', 'order'):
			return C(f'attribute({text})', lambda: getattr(f, text), set(lst))
	if k == 4:
		gs = sorted({int(g) for g in rng.integers(0, n + 1, size=rng.integers(1, 4))})
		form = [lambda: f.from_grades(gs), lambda: f.from_grades(np.array(gs)), lambda: f.from_grades([g - n - 1 for g in gs])][rng.integers(3)]
		return C(f'from_grades({gs})', form, {m for m in range(ref.N) if popcount(m) in gs})
	if k == 5:
		g = int(rng.integers(0, n + 1))
		return C(f'k_vector({g})', lambda: f.k_vector(g if rng.random() < 0.5 else g - n - 1), {m for m in range(ref.N) if popcount(m) == g})
	if k == 6:
		d = gen.named_masks(ref)
		d = {key: v for key, v in d.items() if key not in ('bivector', 'trivector', 'quadvector', 'antibivector') or n >= dict(bivector=2, trivector=3, quadvector=4, antibivector=2)[key]}
		key = list(d)[rng.integers(len(d))]
		mon.count('named')
		return C(key, lambda: getattr(f, key)(), d[key])
	if k == 7:
		m = int(rng.integers(ref.N))
		return C(f'blade({m})', lambda: f.blade(m), {m})
	olds = list(h.log.values())
	if not olds:
		return C('empty', f.empty, set())
	a, b = olds[rng.integers(len(olds))], olds[rng.integers(len(olds))]
	A, B = ms(a), ms(b)
	if k == 8:
		mon.count('setops')
		op = ['union', 'intersection', 'difference', 'select_subspace', 'restrict_subspace'][rng.integers(5)]
		want = dict(union=A | B, intersection=A & B, difference=A - B, select_subspace=B, restrict_subspace=A & B)[op]
		return C(op, lambda: getattr(a, op)(b), want)
	if k == 9:
		op = ['complement', 'dual', 'degenerate', 'nondegenerate', 'scalar_degenerate'][rng.integers(5)]
		deg = {m for m in A if ref.is_deg(m)}
		want = dict(complement={ref.I ^ m for m in A}, dual={ref.I ^ m for m in A}, degenerate=deg, nondegenerate=A - deg, scalar_degenerate=deg | {0})[op]
		mon.count('setops')
		return C('subspace_' + op, lambda: getattr(a, op)(), want)
	if k == 10 and len(a):
		idx = rng.permutation(len(a))[:rng.integers(0, len(a) + 1)]
		mon.count('indices')
		return C('slice_subspace()', lambda: a.slice_subspace(idx), {int(a.blades[i]) for i in idx})
	if k == 11 and len(A) * len(B) < 3000:
		op = ['product', 'wedge', 'inner'][rng.integers(3)]
		sel = dict(product=lambda x, y, z: True, wedge=lambda x, y, z: z == x + y, inner=lambda x, y, z: z == abs(x - y))[op]
		want = {x ^ y for x in A for y in B if blade_mul(ref.sig, x, y)[1] and sel(popcount(x), popcount(y), popcount(x ^ y))}
		mon.count('setops')
		return C('subspace_' + op, lambda: getattr(a, op)(b), want)
	return C('from_blades()', lambda: f.from_blades(tuple(lst)), masks)


def names_of(ref, names, m):
	return ''.join(names[i] for i in range(ref.n) if m >> i & 1) or '1'


def relations(h, rng):
	mon, ref, alg = h.mon, h.ref, h.alg
	olds = list(h.log.values())
	a, b = olds[rng.integers(len(olds))], olds[rng.integers(len(olds))]
	if rng.random() < 0.3:
		b = a.union(b)
	A, B = ms(a), ms(b)
	n = ref.n
	mon.case(signature=list(ref.sig), a=sorted(A)[:40], b=sorted(B)[:40])

	def P(key, fn, want):
		mon.count('predicate')
		got = mon.call('predicate/' + key, fn)
		mon.seen(key, ref.sig, hash(A), hash(B))
		mon.check(got == want, 'predicate/' + key, lambda: f'{key} of {sorted(A)[:12]} and {sorted(B)[:12]} in {ref.sig}: {got}, expected {want}')
	P('contains', lambda: a in b, A <= B)
	P('is_subspace', lambda: a.is_subspace(b), A <= B)
	P('inside_call', lambda: a.inside(b), A <= B)
	P('equals_call', lambda: a.equals(b), A == B)
	P('eq', lambda: a == b, A == B)
	P('ne', lambda: a != b, A != B)
	P('hash_eq', lambda: len({a, b}), 1 if A == B else 2)
	P('select_call', lambda: a.select(b) is b, True)
	P('restrict_call', lambda: ms(a.restrict(b)), A & B)
	for X in (A, B, A | B):
		text, X = gen.written(rng, alg, X)
		if text:
			P('inside.written', lambda: getattr(a.inside, text), A <= X)
			P('equals.written', lambda: getattr(a.equals, text), A == X)
			P('select.written', lambda: ms(getattr(a.select, text)), X)
			P('restrict.written', lambda: ms(getattr(a.restrict, text)), A & X)
	P('len', lambda: len(a), len(A))
	P('is_blade', lambda: a.is_blade, len(A) == 1)
	P('grades', lambda: [int(g) for g in a.grades()], [popcount(int(m)) for m in a.blades])
	if n <= 12:
		named = {k: v for k, v in gen.named_masks(ref).items() if k not in ('bivector', 'trivector', 'quadvector', 'antibivector') or n >= dict(bivector=2, trivector=3, quadvector=4, antibivector=2)[k]}
		k = list(named)[rng.integers(len(named))]
		K = frozenset(named[k])
		P('inside.' + k, lambda: getattr(a.inside, k)(), A <= K)
		P('equals.' + k, lambda: getattr(a.equals, k)(), A == K)
		P('select.' + k, lambda: ms(getattr(a.select, k)()), K)
		P('restrict.' + k, lambda: ms(getattr(a.restrict, k)()), A & K)
		gs = tuple(sorted({int(g) for g in rng.integers(0, n + 1, size=2)}))
		G = frozenset(m for m in range(ref.N) if popcount(m) in gs)
		item = gs if len(gs) > 1 else gs[0]
		P('select[]', lambda: ms(a.select[item]), G)
		P('restrict[]', lambda: ms(a.restrict[item]), A & G)
		P('inside.k_vector', lambda: a.inside.k_vector(gs[0]), all(popcount(m) == gs[0] for m in A))
		P('is_empty', lambda: a.is_empty, not A)
		P('in_even', lambda: a.in_even, all(popcount(m) % 2 == 0 for m in A))
		P('in_odd', lambda: a.in_odd, all(popcount(m) % 2 == 1 for m in A))
		P('is_even', lambda: a.is_even, A == {m for m in range(ref.N) if popcount(m) % 2 == 0})
		P('is_odd', lambda: a.is_odd, A == {m for m in range(ref.N) if popcount(m) % 2 == 1})
		P('in_self_reverse', lambda: a.in_self_reverse, all((popcount(m) // 2) % 2 == 0 for m in A))
		P('is_degenerate', lambda: a.is_degenerate, all(ref.is_deg(m) for m in A))
		P('is_degenerate_scalar', lambda: a.is_degenerate_scalar, A == {m for m in A if ref.is_deg(m)} | {0})
	if A and len({popcount(m) for m in A}) == 1:
		P('grade', lambda: int(a.grade()), popcount(next(iter(A))))
	if A:
		blades = [int(x) for x in rng.permutation(sorted(A))[:6]]
		mon.count('indices')
		P('to_relative_indices', lambda: [int(a.blades[i]) for i in a.to_relative_indices(np.array(blades, dtype=a.blades.dtype))], blades)
		names = alg.description.basis_names
		P('named_str', lambda: a.named_str, ','.join(names_of(ref, names, int(m)) for m in a.blades))
		P('bit_str', lambda: a.bit_str, ','.join(format(int(m), f'0{n}b')[::-1] for m in a.blades))
		P('bit_str_round_trip', lambda: alg.subspace.from_bit_str(a.bit_str) is a, True)
		P('bit_blades', lambda: np.array(a.bit_blades()).reshape(n, len(a)).T.tolist(), [[m >> i & 1 for i in range(n)] for m in map(int, a.blades)])
	P('repr', lambda: isinstance(repr(a), str), True)


def fixed(h):
	"""relations between the named subspaces of an algebra"""
	mon, ref, f = h.mon, h.ref, h.alg.subspace
	n = ref.n
	k = lambda *g: {m for m in range(ref.N) if popcount(m) in g}
	named = gen.named_masks(ref)
	table = dict(full=named['multivector'], motor=named['even_grade'], self_involute=named['even_grade'], mod4=k(*range(0, n + 1, 4)), antiscalar=k(n),
		rotor={m for m in named['even_grade'] if not ref.is_deg(m)}, scalar_degenerate=named['degenerate'] | {0}, reflection=k(1))
	two = {x ^ y for x in k(1) for y in k(1) if blade_mul(ref.sig, x, y)[1]}
	three = {x ^ y for x in two for y in k(1) if blade_mul(ref.sig, x, y)[1]}
	table['bireflection'] = two
	table['trireflection'] = three
	table['quadreflection'] = {x ^ y for x in three for y in k(1) if blade_mul(ref.sig, x, y)[1]}
	if n >= 2:
		table['translator'] = two - {m for m in k(2) if not ref.is_deg(m)}
	if n >= 3:
		table['antitrivector'] = k(n - 3)
	if n >= 4:
		table['antiquadvector'] = k(n - 4)
	for name, want in table.items():
		try:
			h.mon.count('named')
			h.add(name, mon.call(name, getattr(f, name)), want)
		except Skip:
			pass
	b = mon.call('basis', f.basis)
	mon.check([ms(x) for x in b] == [frozenset({1 << i}) for i in range(n)], 'basis', f'{b}')


def long_history(h, rng, steps):
	"""thousands of distinct subspaces in one algebra; some are held on to, some are dropped and made again"""
	f, N = h.alg.subspace, h.ref.N
	held = []
	for c in range(steps):
		k = rng.integers(4)
		if k == 0 and held:
			old = held[rng.integers(len(held))]
			h.add('again', f.from_blades([int(b) for b in old.blades[rng.permutation(len(old))]]), ms(old))
		elif k == 1 and held:
			a, b = held[rng.integers(len(held))], held[rng.integers(len(held))]
			h.add('union', a.union(b), ms(a) | ms(b))
		else:
			m = rng.permutation(N)[:rng.integers(1, 6)]
			s = h.add('from_blades', f.from_blades([int(b) for b in m]), m.tolist())
			if rng.random() < .7:
				held.append(s)
			else:
				del h.log[ms(s)]	# nobody holds on to this one
		h.mon.case(signature=list(h.ref.sig), step=c, distinct=len(h.log))
		h.mon.count('long')
	for s in f.vector(), f.scalar():
		h.add('again', f.from_blades([int(b) for b in s.blades]), ms(s))


def run(job, mon):
	for i, spec in enumerate(job['specs']):
		rng = rng_of(*job['seed'], i)
		mon.case(spec=spec)
		try:
			alg = mon.call('construct', gen.build_algebra, spec)
			other = mon.call('construct', gen.build_algebra, spec)
			ref = Ref(spec['sig'])
			h = History(mon, alg, ref)
			if job['kind'] == 'long':
				long_history(h, rng, job['steps'])
				continue
			if ref.n <= 10:
				fixed(h)
			for c in range(job['steps']):
				try:
					construct(h, rng)
					if c % 2:
						relations(h, rng)
					if c % 40 == 39:
						gc.collect()
				except Skip:
					pass
			# a second algebra with the same description shares nothing
			s, t = alg.subspace.scalar() if ref.n <= 12 else alg.subspace.blade(0), other.subspace.scalar() if ref.n <= 12 else other.subspace.blade(0)
			mon.check(s is not t and s != t and t.algebra is other and s.algebra is alg, 'separate', 'subspaces of distinct algebra objects are confused')
		except Skip:
			pass
