"""Compiled, mapped, looped and differentiated code"""
import numpy as np

from vf import backends, gen, numeric
from vf.checks.c13 import guarded
from vf.gen import rng_of
from vf.harness import Skip
from vf.ref import Ref

RULE = ('(torch: reverse mode only) random algebras with 2 to 4 generators (several alive at once, sharing names), random operand subspaces, all three operator strategies; expressions from single products to exponentials, roots and inverses. '
	'An observation is one transformed evaluation (compiled, mapped over a random axis, scanned, or differentiated) compared with plain evaluation call by call, or a derivative compared with central differences; '
	'compiled functions are called repeatedly with operands of different subspaces, algebras and contexts; distinct by (transformation, expression, signature, subspaces)')
REQUIRED = {'jit': 200, 'jit_repeat': 100, 'jit_first': 40, 'vmap': 30, 'grad': 20, 'grad_singular': 2, 'scan': 6, 'pytree': 40, 'operators': 30, 'torch_grad': 60, 'torch_forward': 60, 'torch_vmap': 30}
BUDGET = dict(quick=400, thorough=640)
ALARM = 400


def jobs(tier, seed):
	q = tier == 'quick'
	js = []
	for kind, n, cases in (('jit', 8, 5), ('vmap', 8, 14), ('grad', 8, 13), ('torch', 6, 30), ('scan', 3, 5), ('pytree', 2, 40), ('operators', 3, 10)):
		for r in range(n * (1 if q else 6)):
			js.append(dict(kind=kind, seed=['C21', seed, kind, r], cases=cases, essential=r < (2 if kind in ('vmap', 'grad', 'torch') else 1)))
	return sorted(js, key=lambda j: not j['essential'])


def run(job, mon):
	if job['kind'] == 'torch':
		import torch
		rng = rng_of(*job['seed'])
		for c in range(job['cases']):
			guarded(t_torch, mon, rng, c, tuple(job['seed']))
		return
	import jax
	jax.config.update('jax_enable_x64', True)
	rng = rng_of(*job['seed'])
	for c in range(job['cases']):
		guarded(globals()['t_' + job['kind']], mon, rng, c, tuple(job['seed']))


class World:
	"""a few algebras that share names and dimension, each with contexts for several strategies"""
	def __init__(self, rng):
		n = int(rng.integers(2, 5))
		sigs = [gen.all_sigs(n)[i] for i in rng.permutation(3 ** n)[:2]]
		self.items = []
		for s in sigs:
			alg = gen.build_algebra(dict(style='letters', sig=list(s), names=[chr(97 + i) for i in range(n)], cut=0))
			for st in [('Einsum', 'Dense', 'Sparse')[i] for i in rng.permutation(3)[:2]]:
				self.items.append((backends.make(f'jax/{st}/float64', alg), Ref(s), st))

	def pick(self, rng):
		return self.items[rng.integers(len(self.items))]


def integer(ctx, ref, rng, shape, masks=None):
	masks = gen.random_masks(rng, ref, maxlen=8) if masks is None else masks
	S = gen.subspace(ctx.algebra, masks or {0}, rng)
	return gen.mk(ctx, S, gen.ints(rng, shape + (len(S),), zero=.05))


def some(ctx, ref, rng, shape, kind):
	"""operand of a kind: a(ny) i(nvertible) v(ector) b(ivector) m(otor) p(ositive scalar) s(tudy)"""
	if kind == 'a':
		return integer(ctx, ref, rng, shape)
	if kind == 'v':
		return integer(ctx, ref, rng, shape, numeric.grade_masks(ref, 1))
	if kind == 'p':
		return gen.mk(ctx, ctx.subspace.scalar(), rng.uniform(.2, 3, size=shape + (1,)))
	if kind == 'b':
		b = numeric.bivectors(ref, rng, shape, .8)
		return numeric.carried(ctx, ref, b, gen.subspace(ctx.algebra, numeric.grade_masks(ref, 2), rng))
	if kind == 'm':
		m = numeric.motors(ref, rng, shape, .7)
		return numeric.carried(ctx, ref, m, gen.subspace(ctx.algebra, numeric.even(ref), rng))
	if kind == 'i':
		S = gen.subspace(ctx.algebra, numeric.even(ref), rng)
		x = rng.normal(size=shape + (ref.N,)) * .15
		x[..., 0] += 1.5
		return numeric.carried(ctx, ref, x, S)
	if kind == 's':
		masks = numeric.study_masks(ref, rng)
		x = np.zeros(shape + (ref.N,))
		for k in masks:
			x[..., k] = rng.normal(size=shape) * .3
		x[..., 0] = rng.uniform(1.5, 2.5, size=shape)
		return numeric.carried(ctx, ref, x, gen.subspace(ctx.algebra, masks, rng))
	raise ValueError(kind)


# name: operand kinds, function, exact in integers
EXPRESSIONS = {
	'product': ('aa', lambda x, y: x * y, True),
	'wedge': ('aa', lambda x, y: x ^ y, True),
	'inner': ('aa', lambda x, y: x | y, True),
	'regressive': ('aa', lambda x, y: x & y, True),
	'add': ('aa', lambda x, y: x + y, True),
	'sub_scaled': ('aa', lambda x, y: 3 * x - y * 2, True),
	'sandwich': ('aa', lambda x, y: x >> y, True),
	'dual': ('a', lambda x: x.dual(), True),
	'reverse': ('a', lambda x: ~x, True),
	'squared': ('a', lambda x: x.squared(), True),
	'chain': ('aaa', lambda x, y, z: (x * y) ^ z.reverse(), True),
	'select': ('a', lambda x: x.select[2] + x.restrict[1], True),
	'map': ('av', lambda x, v: x.sandwich_map(v.subspace)(v), True),
	'indexed': ('a', lambda x: x.at[..., 0].set(7) - x, True),
	'exp': ('b', lambda b: b.exp(), False),
	'cayley': ('b', lambda b: b.exp_quadratic(), False),
	'motor_log': ('m', lambda m: m.motor_log(), False),
	'normalized': ('i', lambda m: m.normalized(), False),
	'motor_root': ('m', lambda m: m.motor_square_root(), False),
	'root': ('s', lambda s: s.square_root(), False),
	'scalar_root': ('p', lambda s: s.square_root() * s.inverse(), False),
	'inverse': ('i', lambda x: x.inverse(), False),
	'shirokov': ('i', lambda x: x.inverse_shirokov(), False),
	'divide': ('ai', lambda x, y: x / y, False),
	'move': ('mv', lambda m, v: m.normalized() >> v, False),
	'decompose': ('b', lambda b: b.decompose_invariant(), False),
	'commutator': ('aa', lambda x, y: x.commutator(y), True),
	'contract': ('aa', lambda x, y: x.left_contract(y) - y.right_contract(x), True),
	'nondegenerate': ('a', lambda x: x.nondegenerate() - x.degenerate().involute(), True),
	'numbers': ('p', lambda s: s.exp().log() + s.sqrt() * s.invsqrt() + s.cos() * s.sin(), False),
	'norm': ('i', lambda x: x.norm(), False),
	'polar': ('b', lambda b: b.decompose_polar(), False),
	'mean': ('mm', lambda a, b: a.motor_geometric_mean(b), False),
}
# whose conditions (study number norms) restrict them to signatures of up to four generators, as generated here


def parts(out):
	return out if isinstance(out, tuple) else (out,)


def operands(rng, name, ctx, ref, shapes):
	return [some(ctx, ref, rng, s, k) for s, k in zip(shapes, EXPRESSIONS[name][0])]


def plain(f, xs):
	"""eager evaluation; None where the expression does not apply to these subspaces"""
	try:
		return parts(f(*xs))
	except Exception as e:
		if type(e).__name__ == 'UnexpectedTracerError':
			raise  # something of an earlier transformation was left behind: not a matter of domain
		return None


def same(mon, key, got, want, exact, label, ctx=None, tol=1e-9):
	got = parts(got)
	mon.check(len(got) == len(want), key + '/parts', f'{label}: {len(got)} parts, expected {len(want)}')
	for g, w in zip(got, want):
		if not mon.check(g.subspace is w.subspace and (ctx is None or g.context is ctx), key + '/static', lambda: f'{label}: result lives in {g.subspace.named_str} of {g.context}; plain evaluation gives {w.subspace.named_str} of {w.context}'):
			continue
		a, b = np.asarray(g.values), np.asarray(w.values)
		if not mon.check(a.shape == b.shape and a.dtype == b.dtype, key + '/shape', lambda: f'{label}: shape {a.shape} {a.dtype}, plain evaluation gives {b.shape} {b.dtype}'):
			continue
		if exact:
			ok = np.array_equal(a, b)
		else:
			m = np.max(np.abs(b), initial=1.0, where=np.isfinite(b))
			ok = np.allclose(a, b, rtol=0, atol=tol * m, equal_nan=True)
		mon.check(ok, key, lambda: f'{label}: {a.tolist()}, plain evaluation gives {b.tolist()}')


def desc(ref, xs):
	return [list(ref.sig), [x.subspace.named_str for x in xs], [np.asarray(x.values).tolist() for x in xs]]


TURN = {}


def choose(rng, seed):
	"""every expression in turn, in an order that depends on the seed; the jobs of a kind start at different points"""
	names = list(EXPRESSIONS)
	t = TURN[seed] = TURN.get(seed, seed[3] * 11) + 1
	return names[rng_of('C21', seed[1], 'order').permutation(len(names))[t % len(names)]]


def t_jit(mon, rng, c, seed):
	import jax
	w = World(rng)
	for _ in range(4):
		name = choose(rng, seed)
		kinds, f, exact = EXPRESSIONS[name]
		g = jax.jit(f)
		# the same compiled function meets operands of different subspaces, algebras and contexts, of equal and different shapes
		pool = []
		for _ in range(6):
			ctx, ref, st = w.pick(rng)
			shape = [(), (3,)][rng.integers(2)]
			xs = operands(rng, name, ctx, ref, [shape] * len(kinds))
			early = None
			if rng.random() < .5:
				# compiled before ever having been evaluated plainly
				try:
					early = g(*xs)
				except Exception:
					pass
				mon.case(expression=name, strategy=st, operands=desc(ref, xs))
			want = mon.call('plain', plain, f, xs)
			if early is not None and mon.check(want is not None, 'jit/first', lambda: f'jit({name}) succeeds; plain evaluation of the same operands does not'):
				mon.count('jit_first')
				same(mon, 'jit/first', early, want, exact, f'jit({name}), before plain evaluation', ctx)
			if want is not None:
				pool.append((ctx, ref, st, xs, want))
		if not pool:
			continue
		for k in list(range(len(pool))) + [int(i) for i in rng.integers(len(pool), size=5)]:
			ctx, ref, st, xs, want = pool[k]
			mon.case(expression=name, strategy=st, operands=desc(ref, xs))
			out = mon.call('jit', g, *xs)
			mon.count('jit')
			mon.seen('jit', name, st, ref.sig, tuple(x.subspace.blades.tobytes() for x in xs))
			same(mon, 'jit', out, want, exact, f'jit({name})', ctx)
			if k < len(pool):
				# fresh values through the cached trace
				ys = [x.copy(values=x.values[::-1] if x.shape else x.values * 2 if exact else x.values) for x in xs]
				want2 = plain(f, ys)
				if want2 is not None:
					mon.count('jit_repeat')
					same(mon, 'jit/again', mon.call('jit', g, *ys), want2, exact, f'jit({name}), second call', ctx)


def t_vmap(mon, rng, c, seed):
	import jax
	import jax.numpy as jnp
	ctx, ref, st = World(rng).pick(rng)
	name = choose(rng, seed)
	kinds, f, exact = EXPRESSIONS[name]
	n = int(rng.integers(1, 4))
	inner = [(), (2,)][rng.integers(2)]
	if name == 'indexed':
		inner = ()
	mapped = [bool(rng.random() < .75) for _ in kinds]
	mapped[rng.integers(len(kinds))] = True
	rows = [operands(rng, name, ctx, ref, [inner] * len(kinds)) for _ in range(1)]
	xs, axes, singles = [], [], []
	for x, k, m in zip(rows[0], kinds, mapped):
		if not m:
			xs.append(x)
			axes.append(None)
			singles.append([x] * n)
			continue
		many = [x] + [x.copy(values=x.values * (1 + .05 * i) if not exact else gen.ints(rng, x.values.shape)) for i in range(1, n)]
		if k == 'm':
			many = [x] + [numeric.carried(ctx, ref, numeric.motors(ref, rng, inner, .7), x.subspace) for _ in range(1, n)]
		ax = int(rng.integers(len(inner) + 2)) if rng.random() < .6 else 0
		if rng.random() < .2:
			ax = ax - len(inner) - 2
		v = jnp.stack([y.values for y in many], axis=ax)
		# a multivector whose components may not be on the last axis is only ever seen inside the map
		leaves, tree = jax.tree_util.tree_flatten(x)
		xs.append(jax.tree_util.tree_unflatten(tree, [v]))
		axes.append(ax)
		singles.append(many)
	want = [plain(f, row) for row in zip(*singles)]
	if any(p is None for p in want):
		return
	out_ax = int(rng.integers(min(len(p.values.shape) for p in want[0]) + 1)) if rng.random() < .5 else 0
	mon.case(expression=name, strategy=st, in_axes=axes, out_axis=out_ax, operands=[desc(ref, row) for row in zip(*singles)])
	mon.count('vmap')
	mon.seen('vmap', name, st, ref.sig, tuple(x.subspace.blades.tobytes() for x in xs), tuple(axes), out_ax)
	g = jax.vmap(f, in_axes=tuple(axes), out_axes=out_ax)
	if rng.random() < .5:
		g = jax.jit(g)
	out = mon.call('vmap', g, *xs)
	for i, p in enumerate(parts(out)):
		expect = np.stack([np.asarray(row[i].values) for row in want], axis=out_ax)
		same(mon, 'vmap', p, [Stack(want[0][i], expect)], exact, f'vmap({name}, {axes}, {out_ax})', ctx)


class Stack:
	def __init__(self, like, values):
		self.subspace, self.context, self.values = like.subspace, like.context, values


def differences(L, x0):
	"""fourth order central differences; None where they have not converged"""
	def difference(h):
		fd = np.zeros(x0.shape)
		for idx in np.ndindex(x0.shape):
			e = np.zeros(x0.shape)
			e[idx] = h
			fd[idx] = (8 * (L(x0 + e) - L(x0 - e)) - (L(x0 + 2 * e) - L(x0 - 2 * e))) / (12 * h)
		return fd
	fd, fd2 = difference(2e-3), difference(1e-3)
	scale = max(1.0, np.abs(fd).max())
	if not np.isfinite(fd).all() or np.abs(fd - fd2).max() > 1e-6 * scale:
		return None, scale
	return fd2, scale


def t_torch(mon, rng, c, seed):
	"""reverse mode through the torch backend"""
	import torch
	n = int(rng.integers(2, 5))
	sig = gen.all_sigs(n)[rng.integers(3 ** n)]
	alg = gen.build_algebra(dict(style='letters', sig=list(sig), names=[chr(97 + i) for i in range(n)], cut=0))
	st = ('Einsum', 'Dense', 'Sparse')[rng.integers(3)]
	ctx, ref = backends.make(f'torch/{st}/float64', alg), Ref(sig)
	name = choose(rng, seed)
	kinds, f, exact = EXPRESSIONS[name]
	shape = [(), (2,)][rng.integers(2)]
	xs = operands(rng, name, ctx, ref, [shape] * len(kinds))
	singular = name in ('exp', 'cayley', 'motor_log', 'motor_root', 'normalized') and rng.random() < .5
	if singular:
		xs = [numeric.carried(ctx, ref, numeric.one(ref, shape) * (kinds != 'b'), xs[0].subspace)]
	want = plain(f, xs)
	k = int(rng.integers(len(xs)))
	x0 = np.array(gen.to_np(xs[k].values))
	if want is None or name in ('decompose', 'polar') or not x0.size:
		return
	W = [torch.tensor(rng.normal(size=tuple(p.values.shape))) for p in want]

	def loss(v):
		return sum((p.values * w).sum() for p, w in zip(parts(f(*xs[:k], xs[k].copy(values=v), *xs[k + 1:])), W))
	mon.case(expression=name, strategy='torch ' + st, wrt=k, operands=[list(sig), [x.subspace.named_str for x in xs], [gen.to_np(x.values).tolist() for x in xs]])
	with torch.no_grad():
		fd, scale = differences(lambda v: float(loss(torch.tensor(v))), x0)
	if fd is None:
		mon.count('grad_rough')
		return
	mon.count('torch_grad')
	mon.seen('torch', name, st, sig, k, xs[k].subspace.blades.tobytes())
	v = torch.tensor(x0, requires_grad=True)
	l = mon.call('torch/loss', loss, v)
	if not l.requires_grad:
		got = np.zeros(x0.shape)    # independent of the operand
	else:
		got, = mon.call('torch/grad', torch.autograd.grad, l, [v], allow_unused=True)
		got = np.zeros(x0.shape) if got is None else got.numpy()
	mon.check(np.allclose(got, fd, rtol=0, atol=1e-5 * scale), 'torch/grad', lambda: f'torch {st}: gradient of {name} wrt operand {k} in {sig}: {got.tolist()}, differences give {fd.tolist()}')
	# forward mode, and the map over a new axis
	d = rng.normal(size=x0.shape)
	mon.count('torch_forward')
	_, got = mon.call('torch/jvp', torch.func.jvp, loss, (torch.tensor(x0),), (torch.tensor(d),))
	ok = float((fd * d).sum())
	mon.check(abs(float(got) - ok) < 1e-5 * scale * max(1, np.abs(d).sum()), 'torch/jvp', lambda: f'torch {st}: directional derivative of {name} wrt operand {k} in {sig}: {float(got)}, differences give {ok}')
	if st != 'Sparse':      # fills its output in place, which torch cannot map
		stack = torch.tensor(np.stack([x0, x0 + .1 * d, x0 - .2 * d]))
		mon.count('torch_vmap')
		got = mon.call('torch/vmap', torch.func.vmap(loss), stack).numpy()
		ok = np.array([float(loss(v)) for v in stack])
		if np.isfinite(ok).all():
			mon.check(np.allclose(got, ok, rtol=1e-9, atol=1e-9 * scale), 'torch/vmap', lambda: f'torch {st}: vmap of {name} wrt operand {k} in {sig}: {got.tolist()}, looping gives {ok.tolist()}')


def t_grad(mon, rng, c, seed):
	import jax
	import jax.numpy as jnp
	ctx, ref, st = World(rng).pick(rng)
	name = choose(rng, seed)
	kinds, f, exact = EXPRESSIONS[name]
	shape = [(), (2,)][rng.integers(2)]
	xs = operands(rng, name, ctx, ref, [shape] * len(kinds))
	singular = name in ('exp', 'cayley', 'motor_log', 'motor_root', 'normalized') and rng.random() < .5
	if singular:
		# at the identity, where trigonometric implementations have removable singularities
		xs = [numeric.carried(ctx, ref, numeric.one(ref, shape) * (kinds != 'b'), xs[0].subspace)]
	want = plain(f, xs)
	if want is None or name in ('decompose', 'polar'):
		return
	W = [rng.normal(size=p.values.shape) for p in want]
	k = int(rng.integers(len(xs)))

	def loss(x):
		return sum((p.values * v).sum() for p, v in zip(parts(f(*xs[:k], x, *xs[k + 1:])), W))
	mon.case(expression=name, strategy=st, wrt=k, operands=desc(ref, xs))
	L = jax.jit(lambda v: loss(xs[k].copy(values=v)))
	x0 = np.asarray(xs[k].values)
	if not x0.size:
		return

	fd2, scale = differences(L, x0)
	if fd2 is None:
		mon.count('grad_rough')
		return
	mon.count('grad')
	mon.count('grad_singular', int(singular))
	mon.seen('grad', name, st, ref.sig, k, xs[k].subspace.blades.tobytes())
	g = mon.call('grad', jax.grad(loss), xs[k])
	mon.check(type(g) is type(xs[k]) and g.subspace is xs[k].subspace, 'grad/type', f'gradient of {name} is {type(g)} in {g.subspace.named_str}')
	got = np.asarray(g.values)
	mon.check(got.shape == x0.shape and np.allclose(got, fd2, rtol=0, atol=1e-5 * scale), 'grad', lambda: f'grad({name}) wrt operand {k} in {ref.sig}: {got.tolist()}, differences give {fd2.tolist()}')
	J = np.asarray(mon.call('jacfwd', jax.jacfwd(lambda v: loss(xs[k].copy(values=v))), xs[k].values))
	mon.check(np.allclose(J, got, rtol=0, atol=1e-8 * scale), 'grad/forward', lambda: f'forward mode derivative of {name} wrt operand {k} in {ref.sig}: {J.tolist()}, reverse mode gives {got.tolist()}')
	if rng.random() < .4:
		g2 = np.asarray(mon.call('grad/jit', jax.jit(jax.grad(loss)), xs[k]).values)
		mon.check(np.allclose(g2, got, rtol=0, atol=1e-9 * scale), 'grad/jit', lambda: f'compiled grad({name}): {g2.tolist()} versus {got.tolist()}')


def t_scan(mon, rng, c, seed):
	import jax
	ctx, ref, st = World(rng).pick(rng)
	n = 4
	b = some(ctx, ref, rng, (n,), 'b')
	m = some(ctx, ref, rng, (), 'm')
	v = some(ctx, ref, rng, (), 'v')

	def step(s, x):
		m, v = s['m'], s['v']
		m = (m * x.exp_quadratic()).select_subspace(s['m'].subspace).normalized()
		v = (m >> v).select_subspace(s['v'].subspace)
		return dict(m=m, v=v), (m, x * 2)

	def loop():
		s, ys = dict(m=m, v=v), []
		for i in range(n):
			s, y = step(s, b[i])
			ys.append(y)
		return s, ys
	try:
		s, ys = loop()
	except Exception:
		return
	mon.case(strategy=st, operands=desc(ref, [b, m, v]))
	mon.count('scan')
	mon.seen('scan', st, ref.sig)
	s2, ys2 = mon.call('scan', jax.lax.scan, step, dict(m=m, v=v), b)
	for k in 'mv':
		same(mon, 'scan/carry', s2[k], [s[k]], False, 'carried ' + k, ctx)
	for k in (0, 1):
		same(mon, 'scan/outputs', ys2[k], [Stack(ys[0][k], np.stack([np.asarray(y[k].values) for y in ys]))], False, 'stacked output', ctx)
	f = mon.call('fori_loop', jax.lax.fori_loop, 0, n, lambda i, s: step(s, b[i])[0], dict(m=m, v=v))
	same(mon, 'fori_loop', f['m'], [s['m']], False, 'fori_loop', ctx)
	p = bool(rng.random() < .5)
	r = mon.call('cond', jax.lax.cond, p, lambda a: a.reverse(), lambda a: -a, m)
	same(mon, 'cond', r, [m.reverse() if p else -m], True, 'cond', ctx)


def t_pytree(mon, rng, c, seed):
	import jax
	from jax import tree_util as T
	w = World(rng)
	ctx, ref, st = w.pick(rng)
	shape = [(), (3,), (2, 1)][rng.integers(3)]
	x, y = integer(ctx, ref, rng, shape), integer(ctx, ref, rng, shape)
	mon.case(operands=desc(ref, [x, y]))
	mon.count('pytree')
	mon.seen('pytree', ref.sig, x.subspace.blades.tobytes())
	leaves, tree = T.tree_flatten(x)
	mon.check(len(leaves) == 1 and leaves[0] is x.values, 'pytree/leaves', lambda: f'leaves of a multivector: {leaves}')
	z = T.tree_unflatten(tree, leaves)
	same(mon, 'pytree/roundtrip', z, [x], True, 'flatten and unflatten', ctx)
	mon.check(type(z) is type(x), 'pytree/type', f'{type(z)}')
	d = T.tree_map(lambda a, b: a * 2 + b, dict(p=[x], q=(y, x)), dict(p=[x], q=(y, x)))
	same(mon, 'pytree/map', d['p'][0], [x * 3], True, 'tree_map', ctx)
	same(mon, 'pytree/map', d['q'][0], [y * 3], True, 'tree_map', ctx)
	t2 = T.tree_structure(y)
	mon.check((tree == t2) == (x.subspace is y.subspace), 'pytree/structure', f'structures of {x.subspace.named_str} and {y.subspace.named_str} compare {tree == t2}')
	mon.check(tree == T.tree_structure(x + x), 'pytree/structure', 'structures of equal types differ')
	for octx, oref, ost in w.items:
		if octx is not ctx:
			o = gen.mk(octx, octx.algebra.subspace.from_blades([int(b) for b in x.subspace.blades]), np.asarray(x.values))
			mon.check(T.tree_structure(o) != tree, 'pytree/context', f'structure does not distinguish {ref.sig} {st} from {oref.sig} {ost}')


def t_operators(mon, rng, c, seed):
	import jax
	ctx, ref, st = World(rng).pick(rng)
	V = ctx.subspace.vector()
	n = 3
	rs = [integer(ctx, ref, rng, ()) for _ in range(n)]
	v = integer(ctx, ref, rng, (), numeric.grade_masks(ref, 1))
	f = jax.jit(lambda op, v: op(v))
	for r in rs + rs[:1]:
		op = r.sandwich_map(v.subspace)
		mon.case(strategy=st, operands=desc(ref, [r, v]))
		mon.count('operators')
		mon.seen('operators', st, ref.sig, r.subspace.blades.tobytes())
		want = r.sandwich(v)
		got = mon.call('operators/jit', f, op, v)
		e = gen.diff(got, gen.to_ref(want))
		mon.check(e is None, 'operators/jit', lambda: f'compiled application of the map of {r.subspace.named_str} in {ref.sig}: {e}')
	# an operator built inside of compiled code
	r = rs[0]
	want = r.sandwich(v)
	for g, key in ((jax.jit(lambda r, v: r.sandwich_map(v.subspace)(v)), 'built'), (jax.jit(lambda r, v: ctx.operator.sandwich(r.subspace, v.subspace).partial({0: r, 2: r})(v)), 'partial'),
		(jax.jit(lambda r, v: ctx.operator.sandwich(r.subspace, v.subspace)(r, v, r)), 'call')):
		mon.count('operators')
		e = gen.diff(mon.call('operators/' + key, g, r, v), gen.to_ref(want))
		mon.check(e is None, 'operators/' + key, lambda: f'in {ref.sig} with {r.subspace.named_str}: {e}')
	# the matrix of a map is its jacobian
	op = r.sandwich_map(v.subspace)
	K = np.asarray(op.kernel)
	J = np.asarray(mon.call('operators/jacobian', jax.jacrev(lambda a: op(v.copy(values=a)).values), v.values))
	mon.check(np.array_equal(J, K.T), 'operators/jacobian', lambda: f'jacobian of the map of {r.subspace.named_str} in {ref.sig}: {J.tolist()}, matrix is {K.tolist()}')
