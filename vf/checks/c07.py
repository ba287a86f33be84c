"""Operator algebra: composing operators symbolically equals nesting their evaluation"""
import itertools

import numpy as np

from vf import gen, ops, oplib
from vf.gen import rng_of
from vf.harness import Skip
from vf.ref import Ref, add, popcount, scale, sel_blades, sel_grades

RULE = ('random algebras up to 7 generators; random expression trees of unary and binary operations are fused symbolically by passing operators as arguments or '
	'by explicit bind/fuse/partial in random order, then evaluated on integer operands and compared exactly with nested evaluation in the reference model; '
	'operator arithmetic, slicing, symmetrisation, inversion, transposition and batched operators likewise; distinct by (construct, signature, leaf subspaces)')
REQUIRED = {'nonzero': 250, 'trees': 75}

BIN = {k: v for k, v in {**ops.PRODUCT, **ops.GRADED, **ops.ANTI, **ops.INVPROD}.items()
	if v[0] and 'commutator' not in k and k not in ('study_conjugate_product',)}
UN = ['reverse', 'involute', 'conjugate', 'scalar_negation', 'pseudoscalar_negation', 'dual', 'dual_inverse', 'left_hodge', 'left_hodge_inverse',
	'right_complement', 'left_complement', 'right_complement_dual', 'left_complement_dual']


def jobs(tier, seed):
	js = [j for j in oplib.std_jobs(tier, seed, 'C07') if j['kind'] != 'trace']
	return [j for j in js if max(len(s['sig']) for s in j['specs']) <= 7]


class Leafs:
	def __init__(self, ctx, ref, rng, lim):
		self.ctx, self.ref, self.rng, self.lim = ctx, ref, rng, lim
		self.x, self.r = [], []

	def new(self):
		while True:
			x, r = oplib.random_operand(self.ctx, self.ref, self.rng, None, self.lim)
			if len(r) or self.rng.random() < 0.1:
				break
		self.x.append(x)
		self.r.append(r)
		return x.subspace, r


def tree(L, depth, rng, n):
	"""random expression; returns (symbolic operator or subspace, reference value, description)"""
	k = rng.integers(3) if depth else 0
	if k == 0:
		s, r = L.new()
		return s, r, f'x{len(L.x) - 1}'
	op = L.ctx.algebra.operator
	if k == 1:
		name = UN[rng.integers(len(UN))]
		s, r, d = tree(L, depth - 1, rng, n)
		return getattr(op, name)(s), ops.UNARY[name][-1](L.ref)(r), f'{name}({d})'
	names = [b for b in BIN if n >= 2 or b != 'bivector_product']
	name = names[rng.integers(len(names))]
	e = BIN[name]
	al = e[0][rng.integers(len(e[0]))]
	sa, ra, da = tree(L, depth - 1, rng, n)
	sb, rb, db = tree(L, depth - 1, rng, n)
	return getattr(op, al)(sa, sb), e[-1](L.ref)(ra, rb), f'{al}({da},{db})'


def obs(mon, key, label, ref, fn, expect, subs):
	return oplib.observe(mon, key, label, ref, fn, expect, [()], subs)


def case(mon, ctx, ref, rng, c):
	n = ref.n
	lim = {1: 2, 2: 4, 3: 8, 4: 8, 5: 7, 6: 6, 7: 5}[n]
	for f in (trees, binding, arithmetic, shapes, symmetric, unary, batched):
		try:
			f(mon, ctx, ref, rng, lim)
		except Skip:
			pass


def apply(ctx, op, xs, rng):
	"""evaluate a symbolic operator, in one go or by partial application in random order"""
	cop = ctx.operator(op)
	if rng.random() < 0.5 or len(xs) < 2:
		return cop(*xs)
	idx = [int(i) for i in rng.permutation(len(xs))[:rng.integers(1, len(xs))]]
	part = cop.partial({i: xs[i] for i in idx})
	return part(*[x for i, x in enumerate(xs) if i not in idx])


def trees(mon, ctx, ref, rng, lim):
	for _ in range(3):
		L = Leafs(ctx, ref, rng, lim)
		mon.case(signature=list(ref.sig))
		op, expect, desc = mon.call('tree/build', tree, L, 2, rng, ref.n)
		if not L.x or not hasattr(op, 'axes') or len(L.x) > 4:
			continue
		mon.count('trees')
		size = np.prod([len(a) for a in op.axes], dtype=float)
		if size > 2e6:
			continue
		obs(mon, 'tree', desc, ref, lambda: apply(ctx, op, L.x, rng), expect, [x.subspace for x in L.x])


def binding(mon, ctx, ref, rng, lim):
	"""explicit fuse and bind; the slot that is bound is the slot that is replaced"""
	op = ctx.algebra.operator
	names = [b for b in BIN if ref.n >= 2 or b != 'bivector_product']
	f, g = (names[i] for i in rng.integers(len(names), size=2))
	L = Leafs(ctx, ref, rng, lim)
	(a, ra), (b, rb), (c, rc) = L.new(), L.new(), L.new()
	G = mon.call('bind/build', lambda: getattr(op, BIN[g][0][0])(a, b))
	rG = BIN[g][-1](ref)(ra, rb)
	if not len(G.subspace):
		return
	slot = int(rng.integers(2))
	F = mon.call('bind/build', lambda: getattr(op, BIN[f][0][0])(*((G.subspace, c) if slot == 0 else (c, G.subspace))))
	how = rng.integers(3)
	if how == 0:
		fused = mon.call('fuse', lambda: G.fuse(F, slot))
	elif how == 1:
		fused = mon.call('bind', lambda: F.bind({slot: G}))
	else:
		I = op.identity(c)
		fused = mon.call('bind', lambda: F.bind(*((G, I) if slot == 0 else (I, G))))
	xs = [L.x[0], L.x[1], L.x[2]] if slot == 0 else [L.x[2], L.x[0], L.x[1]]
	expect = BIN[f][-1](ref)(*((rG, rc) if slot == 0 else (rc, rG)))
	obs(mon, 'bind', f'{f} with {g} bound to slot {slot}', ref, lambda: apply(ctx, fused, xs, rng), expect, [x.subspace for x in xs])
	# bind both slots
	L2 = Leafs(ctx, ref, rng, max(2, lim // 2))
	(p, rp), (q, rq) = L2.new(), L2.new()
	H = mon.call('bind/build', lambda: getattr(op, BIN[f][0][0])(p, q))
	if len(H.subspace):
		K = mon.call('bind/build', lambda: op.product(G.subspace, H.subspace))
		if np.prod([len(s) for s in (a, b, p, q)], dtype=float) * len(K.subspace) < 1e6:
			args = [(G, H), ({0: G, 1: H},), ({1: H, 0: G},)][rng.integers(3)]     # the order of a dictionary is of no consequence
			obs(mon, 'bind_both', f'product of {g} and {f}', ref, lambda: ctx.operator(K.bind(*args))(L.x[0], L.x[1], *L2.x), ref.mul(rG, BIN[f][-1](ref)(rp, rq)),
				[a, b, p, q])
	# subspaces act as operator factories
	name = BIN[f][0][-1]
	if name not in ('product', 'wedge', 'inner', 'reverse_product', 'involute_product', 'conjugate_product', 'scalar_negation_product',
			'pseudoscalar_negation_product', 'anti_reverse_product', 'dual'):
		obs(mon, 'subspace_syntax', f'a.{name}(c)', ref, lambda: ctx.operator(getattr(a, name)(c))(L.x[0], L.x[2]), BIN[f][-1](ref)(ra, rc), [a, c])


def arithmetic(mon, ctx, ref, rng, lim):
	op = ctx.algebra.operator
	L = Leafs(ctx, ref, rng, lim)
	(a, ra), (b, rb), (c, rc) = L.new(), L.new(), L.new()
	x, y, z = L.x
	P = mon.call('build', lambda: op.product(a, b))
	rP = ref.mul(ra, rb)
	subs = [a, b]
	k = int(rng.integers(-5, 6))
	obs(mon, 'scale', 'op * k', ref, lambda: ctx.operator(P * k)(x, y), scale(rP, k), subs)
	obs(mon, 'scale', 'k * op', ref, lambda: ctx.operator(k * P)(x, y), scale(rP, k), subs)
	obs(mon, 'scale', 'mul div', ref, lambda: ctx.operator(P.mul(4).div(2))(x, y), scale(rP, 2), subs)
	obs(mon, 'neg', '-op', ref, lambda: ctx.operator(-P)(x, y), scale(rP, -1), subs)
	obs(mon, 'pos', '+op', ref, lambda: ctx.operator(+P)(x, y), rP, subs)
	Q = mon.call('build', lambda: op.reverse_product(a, b))
	if Q.subspace == P.subspace:
		rQ = ref.mul(ra, ref.rev(rb))
		obs(mon, 'add', 'op + op', ref, lambda: ctx.operator(P + Q)(x, y), add(rP, rQ), subs)
		obs(mon, 'sub', 'op - op', ref, lambda: ctx.operator(P - Q)(x, y), add(rP, scale(rQ, -1)), subs)
	obs(mon, 'scale', 'div by a number that does not divide the coefficients', ref, lambda: ctx.operator((P * 3).div(2))(x, y), scale(rP, 1.5), subs)
	obs(mon, 'scale', 'div by a fraction', ref, lambda: ctx.operator(P.div(-0.25))(x, y), scale(rP, -4), subs)
	obs(mon, 'scale', 'fractional operator div', ref, lambda: ctx.operator((P * 0.5).div(4))(x, y), scale(rP, 0.125), subs)
	# longer chains; coefficients grow beyond what the table of a single product needs
	j, k, l = (int(v) for v in rng.integers(-130, 131, size=3))
	obs(mon, 'scale', 'op * j * k', ref, lambda: ctx.operator(P * j * k)(x, y), scale(rP, j * k), subs)
	obs(mon, 'add', 'op * j + op * k - op', ref, lambda: ctx.operator(P * j + P * k - P)(x, y), scale(rP, j + k - 1), subs)
	def doubled(o, n):
		for _ in range(n):
			o = o + o
		return o
	n = int(rng.integers(1, 18))
	obs(mon, 'add', f'op doubled {n} times', ref, lambda: ctx.operator(doubled(P, n))(x, y), scale(rP, 2 ** n), subs)
	I = op.identity(a)
	obs(mon, 'neg', '-identity', ref, lambda: ctx.operator(-I)(x), scale(ra, -1), subs)
	obs(mon, 'add', 'reverse * j - identity * k', ref, lambda: ctx.operator(op.reverse(a) * j - I * k)(x), add(scale(ref.rev(ra), j), scale(ra, -k)), subs)
	if len(P.subspace):
		Z = mon.call('build', lambda: op.product(P * j, c))
		if np.prod([len(s) for s in Z.axes], dtype=float) < 1e6:
			obs(mon, 'scale', '(op * j) fused with a product * l', ref, lambda: ctx.operator(Z * l)(x, y, z), scale(ref.mul(rP, rc), j * l), [a, b, c])
	W = mon.call('build', lambda: op.wedge(c, b))
	rW = ref.wedge(rc, rb)
	# operators on different subspaces add on the union; identical operand for both where the slots overlap
	u = mon.call('union', lambda: a.union(c))
	ru = {int(m): float(rng.integers(-4, 5)) for m in u.blades}
	xu = gen.mk(ctx, u, [ru[int(m)] for m in u.blades])
	obs(mon, 'add_broadcast', 'op add_broadcast op', ref, lambda: ctx.operator(P.add_broadcast(W))(xu, y),
		add(ref.mul(sel_blades(ru, a.blades), rb), ref.wedge(sel_blades(ru, c.blades), rb)), [a, c, b])
	obs(mon, 'swapaxes', 'swapaxes(0,1)', ref, lambda: ctx.operator(P.swapaxes(0, 1))(y, x), rP, [b, a])
	obs(mon, 'squeeze', 'squeeze', ref, lambda: ctx.operator(P.squeeze())(x, y), rP, subs)
	# an operator that is small as a whole does not vanish
	e = int(rng.integers(-40, 41))
	obs(mon, 'squeeze', f'squeeze of op * 2**{e}', ref, lambda: ctx.operator((P * 2.0 ** e).squeeze())(x, y) * 2.0 ** -e, rP, subs)
	obs(mon, 'squeeze', f'reverse of the product * 2**{e}', ref, lambda: ctx.operator(op.reverse(P * 2.0 ** e))(x, y) * 2.0 ** -e, ref.rev(rP), subs)


def shapes(mon, ctx, ref, rng, lim):
	"""slicing, padding, output selection, grade selection, reduction"""
	op = ctx.algebra.operator
	names = [b for b in BIN if ref.n >= 2 or b != 'bivector_product']
	f = names[rng.integers(len(names))]
	L = Leafs(ctx, ref, rng, lim * 2)
	(a, ra), (b, rb) = L.new(), L.new()
	P = mon.call('build', lambda: getattr(op, BIN[f][0][0])(a, b))
	F = BIN[f][-1](ref)

	def subset(s):
		m = [int(v) for v in s.blades]
		return gen.subspace(ctx.algebra, [v for v in m if rng.random() < 0.6], rng)
	sa, sb = subset(a), subset(b)
	rsa, rsb = sel_blades(ra, sa.blades), sel_blades(rb, sb.blades)
	xa, xb = gen.mk(ctx, sa, [rsa[int(m)] for m in sa.blades]), gen.mk(ctx, sb, [rsb[int(m)] for m in sb.blades])
	obs(mon, 'slice', f'{f} sliced', ref, lambda: ctx.operator(P.slice((sa, sb)))(xa, xb), F(rsa, rsb), [sa, sb])
	obs(mon, 'slice', f'{f}[a, b]', ref, lambda: ctx.operator(P[sa, sb])(xa, xb), F(rsa, rsb), [sa, sb])
	obs(mon, 'slice', f'{f} sliced on one axis', ref, lambda: ctx.operator(P.slice((sa,)))(xa, L.x[1]), F(rsa, rb), [sa, b])
	obs(mon, 'deslice', f'{f} sliced and padded', ref, lambda: ctx.operator(P.slice((sa, sb)).deslice((a, b, P.subspace)))(*L.x), F(rsa, rsb), [a, b])
	full = ctx.subspace.multivector()
	o = gen.subspace(ctx.algebra, gen.random_masks(rng, ref), rng)
	out = obs(mon, 'select_subspace', f'{f} select output', ref, lambda: ctx.operator(P.select_subspace(o))(*L.x), sel_blades(F(ra, rb), o.blades), [a, b, o])
	if out is not None:
		mon.check(out.subspace == o, 'select_subspace/output', f'{out.subspace.named_str} is not {o.named_str}')
	g = int(rng.integers(ref.n + 1))
	obs(mon, 'select_grade', f'{f} grade {g}', ref, lambda: ctx.operator(P.select_grade(g))(*L.x), sel_grades(F(ra, rb), {g}), [a, b])
	gl, gr = (int(v) for v in rng.integers(ref.n + 1, size=2))
	formula = lambda l, r, o: ((l == gl) | (r >= gr)) & (o != g)
	want = add({}, *[sel_grades(F({m: v}, {k: w}), {h for h in range(ref.n + 1) if h != g})
		for m, v in ra.items() for k, w in rb.items() if popcount(m) == gl or popcount(k) >= gr])
	obs(mon, 'grade_selection', f'{f} with selected grades', ref, lambda: ctx.operator(P.grade_selection(formula))(*L.x), want, [a, b])
	axis = int(rng.integers(2))
	ones = [{int(m): 1.0 for m in a.blades}, {int(m): 1.0 for m in b.blades}][axis]
	want = F(ones, rb) if axis == 0 else F(ra, ones)
	obs(mon, 'sum_axis', f'{f} summed over input {axis}', ref, lambda: ctx.operator(P.sum(axis))(L.x[1 - axis]), want, [a, b])


def symmetric(mon, ctx, ref, rng, lim):
	"""symmetrisation keeps the value on repeated operands"""
	op = ctx.algebra.operator
	L = Leafs(ctx, ref, rng, min(lim, 5))
	(a, ra), (b, rb) = L.new(), L.new()
	names = [x for x in BIN if ref.n >= 2 or x != 'bivector_product']
	f, g = (names[i] for i in rng.integers(len(names), size=2))
	F, G = (getattr(op, BIN[k][0][0]) for k in (f, g))
	rF, rG = (BIN[k][-1](ref) for k in (f, g))
	x, y = L.x
	obs(mon, 'symmetry', f'{f} symmetrised', ref, lambda: ctx.operator(F(a, a).symmetry((0, 1)))(x, x), rF(ra, ra), [a])
	P = mon.call('build', lambda: F(G(a, b), a))
	obs(mon, 'symmetry', f'{f}({g}(a,b),a) symmetrised in 0,2', ref, lambda: ctx.operator(P.symmetry((0, 2)))(x, y, x), rF(rG(ra, rb), ra), [a, b])
	P = mon.call('build', lambda: F(b, G(a, a)))
	obs(mon, 'symmetry', f'{f}(b,{g}(a,a)) symmetrised in 1,2', ref, lambda: ctx.operator(P.symmetry((1, 2)))(y, x, x), rF(rb, rG(ra, ra)), [a, b])
	P = mon.call('build', lambda: F(a, G(a, a)))
	obs(mon, 'symmetry', f'{f}(a,{g}(a,a)) symmetrised', ref, lambda: ctx.operator(P.symmetry((0, 1, 2)))(x, x, x), rF(ra, rG(ra, ra)), [a])


def unary(mon, ctx, ref, rng, lim):
	"""inverse and transpose of unary operators"""
	op = ctx.algebra.operator
	L = Leafs(ctx, ref, rng, lim * 2)
	a, ra = L.new()
	x, = L.x
	if not len(a):
		return
	name = UN[rng.integers(len(UN))]
	f = ops.UNARY[name][-1](ref)
	U = mon.call('build', lambda: getattr(op, name)(a))
	fx = gen.mk(ctx, U.subspace, [f(ra)[int(m)] for m in U.subspace.blades])
	obs(mon, 'unary_inverse', f'inverse of {name}', ref, lambda: ctx.operator(op.unary_inverse(U))(fx), ra, [a])
	cU = ctx.operator(U)
	obs(mon, 'concrete_inverse', f'inverse of {name}', ref, lambda: cU.inverse()(fx), ra, [a])
	# the transpose is the adjoint under the coefficient inner product; signed permutations are orthogonal
	obs(mon, 'transpose', f'transpose of {name}', ref, lambda: cU.transpose()(fx), ra, [a])
	obs(mon, 'swapaxes_unary', f'swapaxes of {name}', ref, lambda: ctx.operator(U.swapaxes(0, 1))(fx), ra, [a])
	d = rng.integers(-4, 5, size=len(a))
	obs(mon, 'diagonal', 'diagonal', ref, lambda: ctx.operator(op.diagonal(a, d))(x), {int(m): ra[int(m)] * int(w) for m, w in zip(a.blades, d)}, [a])
	# weights of very different magnitude; powers of two, such that the inverse is exact
	w = rng.choice([-1.0, 1.0], len(a)) * 2.0 ** rng.integers(-14, 15, size=len(a))
	D = mon.call('build', lambda: op.diagonal(a, w))
	wx = gen.mk(ctx, a, [ra[int(m)] * u for m, u in zip(a.blades, w)])
	obs(mon, 'unary_inverse', 'inverse of diagonal', ref, lambda: ctx.operator(op.unary_inverse(D))(wx), ra, [a])
	obs(mon, 'concrete_inverse', 'inverse of diagonal', ref, lambda: ctx.operator(D).inverse()(wx), ra, [a])
	k = int(rng.choice([-3, -2, 2, 4, 5]))
	kfx = gen.mk(ctx, U.subspace, [f(ra)[int(m)] * k for m in U.subspace.blades])
	obs(mon, 'unary_inverse', f'inverse of {name} * {k}', ref, lambda: ctx.operator(op.unary_inverse(U * k))(kfx), ra, [a])
	obs(mon, 'concrete_inverse', f'inverse of {name} * {k}', ref, lambda: ctx.operator(U * k).inverse()(kfx), ra, [a])
	# multiplication by an element as a linear map; random, so generally dense and not orthogonal
	s = gen.subspace(ctx.algebra, gen.random_masks(rng, ref, None, 6) or {0}, rng)
	v = gen.ints(rng, (len(s),))
	m = gen.mk(ctx, s, v)
	M = mon.call('partial', lambda: ctx.operator.product(s, a).partial({0: m}))
	prod = ref.mul(gen.ref_of(s, v), ra)
	obs(mon, 'partial', 'product with first slot bound', ref, lambda: M(x), prod, [s, a])
	N = mon.call('partial', lambda: ctx.operator.product(a, s).partial({1: m}))
	obs(mon, 'partial', 'product with second slot bound', ref, lambda: N(x), ref.mul(ra, gen.ref_of(s, v)), [a, s])
	obs(mon, 'partial', 'calling with a subspace in a slot', ref, lambda: ctx.operator.product(s, a)(m, a)(x), prod, [s, a])
	if M.kernel.shape[-1]:
		out = M.output
		w = gen.ints(rng, (len(out),))
		want = {int(b): sum(w[i] * ref.mul(gen.ref_of(s, v), {int(b): 1.0}).get(int(k), 0.0) for i, k in enumerate(out.blades)) for b in a.blades}
		obs(mon, 'transpose', 'transpose of multiplication', ref, lambda: M.transpose()(gen.mk(ctx, out, w)), want, [s, a])
		P = ctx.operator.product(s, a)
		e = mon.call('squeeze', lambda: M.squeeze())
		obs(mon, 'squeeze', 'squeezed partial operator', ref, lambda: e(x), prod, [s, a])
		t = 2.0 ** int(rng.integers(-40, 41))
		e = mon.call('squeeze', lambda: ctx.operator.product(s, a).partial({0: m * t}).squeeze())
		obs(mon, 'squeeze', f'squeezed operator bound to a multivector of magnitude {t}', ref, lambda: e(x) / t, prod, [s, a])


def batched(mon, ctx, ref, rng, lim):
	"""operators with batch axes: one linear map per batch entry"""
	s = gen.subspace(ctx.algebra, gen.random_masks(rng, ref, None, 6) or {0}, rng)
	t = gen.subspace(ctx.algebra, gen.random_masks(rng, ref, None, 6) or {0}, rng)
	full = ctx.subspace.multivector() if ref.n <= 5 else ctx.subspace.even_grade()
	V, X = gen.ints(rng, (4, 3, len(s))), gen.ints(rng, (4, 3, len(t)))
	m, x = gen.mk(ctx, s, V), gen.mk(ctx, t, X)
	M = mon.call('partial', lambda: ctx.operator.product(s, t).partial({0: m}))
	subs = [s, t]
	R = lambda v, xx: ref.mul(gen.ref_of(s, v), gen.ref_of(t, xx))
	O = lambda key, label, fn, expect, shape: oplib.observe(mon, 'batched/' + key, label, ref, fn, expect, [shape], subs)
	mon.check(tuple(M.shape) == (4, 3), 'batched/shape', f'{M.shape}')
	O('call', 'batched operator', lambda: M(x), R(V, X), (4, 3))
	O('broadcast', 'batched operator on unbatched operand', lambda: M(x[0, 0]), R(V, X[0, 0]), (4, 3))
	i = int(rng.integers(4))
	O('index', f'op[{i}]', lambda: M[i](x), R(V[i], X), (4, 3))
	O('index', 'op[fancy]', lambda: M[np.array([2, 0, 2])](x[:3]), R(V[[2, 0, 2]], X[:3]), (3, 3))
	O('index', 'op[slice]', lambda: M[1:3, 2](x[0, 0]), R(V[1:3, 2], X[0, 0]), (2,))
	N = mon.call('partial', lambda: ctx.operator.product(s, t).partial({0: gen.mk(ctx, s, V[::-1].copy())}))
	before = M.kernel.copy()
	O('set', 'op.at[i].set', lambda: M.at[i].set(N.kernel[0])(x), R(np.concatenate([V[:i], V[::-1][:1], V[i + 1:]]), X), (4, 3))
	mon.check(np.array_equal(before, M.kernel), 'batched/set_mutates', 'op.at[...].set changed its operator')
	O('concatenate', 'op.concatenate', lambda: M.concatenate(N, axis=0)(x[0]), R(np.concatenate([V, V[::-1]]), X[0]), (8, 3))
	O('sum', 'op.sum(0)', lambda: M.sum(0)(x[0]), R(V.sum(0), X[0]), (3,))
	O('sum', 'op.sum(1)', lambda: M.sum(1)(x[:, 0]), R(V.sum(1), X[:, 0]), (4,))
	T = M.transpose()
	w = gen.ints(rng, (len(M.output),))
	W = gen.mk(ctx, M.output, w)
	want = {int(b): sum((w[q] * ref.mul(gen.ref_of(s, V), {int(b): 1.0}).get(int(k), 0.0) for q, k in enumerate(M.output.blades)), np.zeros((4, 3))) for b in t.blades}
	O('transpose', 'batched transpose', lambda: T(W), want, (4, 3))
	O('squeeze', 'batched squeeze', lambda: M.squeeze()(x), R(V, X), (4, 3))
	# invertible batched maps: multiplication by invertible vectors on the full algebra
	if ref.n <= 4 and any(ref.sig):
		k = [q for q in range(ref.n) if ref.sig[q]][0]
		full = ctx.subspace.multivector()
		sv = ctx.subspace.blade(1 << k)
		c = np.array([1.0, -2.0, 4.0])[:, None]
		B = mon.call('partial', lambda: ctx.operator.product(sv, full).partial({0: gen.mk(ctx, sv, c)}))
		f = gen.ints(rng, (len(full),))
		F = gen.mk(ctx, full, f)
		oplib.observe(mon, 'batched/inverse', 'batched inverse', ref, lambda: B.inverse()(B(F)), gen.ref_of(full, np.broadcast_to(f, (3, len(full)))), [(3,)], [sv, full], dict(atol=1e-9))


def run(job, mon):
	for i, spec in enumerate(job['specs']):
		rng = rng_of(*job['seed'], i)
		mon.case(spec=spec)
		try:
			ctx, ref = mon.call('construct', oplib.context, spec)
			for c in range(max(1, job['cases'] // 3)):
				case(mon, ctx, ref, rng, c)
		except Skip:
			pass
