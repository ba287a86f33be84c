"""Values are immutable: no evaluation changes its operands or anything shared"""
import numpy as np

from vf import backends, gen, ops, oplib, workloads
from vf.gen import rng_of
from vf.harness import Skip
from vf.ref import Ref

RULE = ('random algebras up to 6 generators on numpy, torch and python; a monitor fingerprints every operand before and after each library call, with the numpy coefficient arrays '
	'write protected so that any write traps; a panel of operator kernels, subspace tables and reference results is fingerprinted before and after long random workloads, '
	'including workloads whose results are overwritten in place by the caller; every symbolic operator that was handed out is fingerprinted and compared again after all others were derived from it; distinct by (backend, computation, subspaces)')
REQUIRED = {'operand': 750, 'shared': 250, 'cached_operator': 400, 'derived_operator': 100, 'calls': 500, 'scribbled': 75, 'storage': 200}
BUDGET = dict(quick=400, thorough=600)


def jobs(tier, seed):
	rng = rng_of('C10', seed, 'jobs')
	q = tier == 'quick'
	js = []

	def specs(k):
		out = []
		for n in rng.choice([1, 2, 3, 3, 4, 4, 5, 6], size=k):
			sigs = gen.all_sigs(int(n))
			out.append(gen.spec_of(sigs[rng.integers(len(sigs))], rng))
		return out
	for r in range(10 if q else 100):
		js.append(dict(kind='numpy', names=['numpy/Einsum/float64', 'numpy/Sparse/float64'], specs=specs(6), cases=24, seed=['C10', seed, r], essential=r < 4))
	for r in range(3 if q else 30):
		js.append(dict(kind='torch', names=['torch/Einsum/float64', 'torch/Sparse/float64', 'torch/Dense/float64', 'python/Sparse/float'], specs=specs(3), cases=16, seed=['C10', seed, 't', r], essential=r < 1))
	for r in range(4 if q else 40):
		js.append(dict(kind='cached', names=[], specs=specs(5), rounds=4, seed=['C10', seed, 'k', r], essential=r < 2))
	for r in range(2 if q else 10):
		js.append(dict(kind='optimized', names=['numpy/Einsum/float64'], specs=[dict(style='letters', sig=[1, 1, 1, 0], names=['x', 'y', 'z', 'w'], cut=1)], cases=60, seed=['C10', seed, 'o', r], essential=r < 1))
	return js


def run(job, mon):
	if job['kind'] == 'optimized':
		import numga.multivector.extension.optimized
	for i, spec in enumerate(job['specs']):
		rng = rng_of(*job['seed'], i)
		mon.case(spec=spec)
		try:
			alg = mon.call('construct', gen.build_algebra, spec)
			ref = Ref(spec['sig'])
			if job['kind'] == 'cached':
				cached(mon, alg, ref, rng, job['rounds'])
			for name in job['names']:
				ctx = mon.call('context/' + name, backends.make, name, alg)
				drive(mon, name, ctx, ref, rng, job['cases'])
		except Skip:
			pass


def snap(x):
	"""comparable copy of a multivector's or operator's state"""
	v = x.values if hasattr(x, 'values') else x.kernel
	if isinstance(v, list):
		return ('list', tuple(v), x.subspace.blades.tobytes())
	a = gen.to_np(v)
	return (a.shape, str(a.dtype), a.tobytes(), x.subspace.blades.tobytes() if hasattr(x, 'values') else None)


def describe(s):
	return s[1] if s[0] == 'list' else np.frombuffer(s[2], dtype=s[1]).reshape(s[0]).ravel()[:6]


class Panel:
	"""shared state, and results that must come out the same at any time"""

	def __init__(self, mon, name, ctx, ref, rng):
		self.mon, self.name, self.ctx, self.ref = mon, name, ctx, ref
		S = ctx.subspace
		self.subs = [S.scalar(), S.vector(), S.even_grade(), S.multivector() if ref.n < 5 else S.odd_grade()]
		self.subs += [gen.subspace(ctx.algebra, gen.random_masks(rng, ref, None, 8), rng) for _ in range(4)]
		self.data = []
		py = name.startswith('python')
		for _ in range(5):
			a, b = (self.subs[rng.integers(len(self.subs))] for _ in range(2))
			sh = () if py else [(), (2,)][rng.integers(2)]
			self.data.append((a, b, gen.ints(rng, sh + (len(a),)), gen.ints(rng, sh + (len(b),))))
		self.first = self.take()

	def take(self):
		out = {}
		alg, ctx = self.ctx.algebra, self.ctx
		for i, s in enumerate(self.subs):
			out['blades', i] = s.blades.tobytes()
			out['names', i] = (s.named_str, s.bit_str, tuple(s.grades().tolist()))
			for op in ('reverse', 'dual', 'squared', 'symmetric_reverse_product'):
				o = getattr(alg.operator, op)(s)
				out['kernel', op, i] = (np.asarray(o.kernel).tobytes(), o.output.blades.tobytes())
		for i, (a, b, va, vb) in enumerate(self.data):
			for op in ('product', 'wedge', 'inner', 'regressive', 'commutator'):
				o = getattr(alg.operator, op)(a, b)
				out['kernel', op, 'pair', i] = (np.asarray(o.kernel).tobytes(), o.output.blades.tobytes())
			x, y = gen.mk(ctx, a, va.copy()), gen.mk(ctx, b, vb.copy())
			for op in ('product', 'wedge', 'left_contract', 'sandwich', 'reverse_product', 'regressive'):
				r = getattr(x, op)(y)
				out['result', op, i] = (gen.to_np(r.values).tobytes() if not isinstance(r.values, list) else tuple(r.values), r.subspace.blades.tobytes())
			for op in ('dual', 'reverse', 'squared', 'degenerate'):
				r = getattr(x, op)()
				out['result', op, i] = (gen.to_np(r.values).tobytes() if not isinstance(r.values, list) else tuple(r.values), r.subspace.blades.tobytes())
		if not self.name.startswith('python'):
			m = ctx.multivector
			for k, mv in [('scalar', m.scalar()), ('default', m.multivector()), ('even', m.even_grade()), ('empty', m.empty())]:
				out['factory', k] = (gen.to_np(mv.values).tobytes(), mv.subspace.blades.tobytes())
			for i, e in enumerate(m.basis()):
				out['basis', i] = (gen.to_np(e.values).tobytes(), e.subspace.blades.tobytes())
			for n in alg.description.basis_names:
				e = getattr(m, n)
				out['basis_attr', n] = (gen.to_np(e.values).tobytes(), e.subspace.blades.tobytes())
		return out

	def verify(self, label):
		now = self.mon.call(f'{self.name}/panel', self.take)
		for k, v in self.first.items():
			self.mon.count('shared')
			self.mon.check(now.get(k) == v, f'{self.name}/shared/{k[0]}/{k[1] if isinstance(k[1], str) else ""}', lambda: f'{k} changed after {label} [{self.name}] in {self.ref.sig}: {v} -> {now.get(k)}')


def protect(x):
	v = getattr(x, 'values', None)
	if isinstance(v, np.ndarray):
		v.flags.writeable = False
	return x


# indexing, reshaping and parts that are the argument itself, as with arrays
VIEWS = {'__pos__', 'decompose_invariant', 'flatten', 'getitem', 'motor_rotor', 'motor_split', 'repeat'}
UNARY = ['dual', 'dual_inverse', 'reverse', 'involute', 'conjugate', 'study_conjugate', 'scalar_negation', 'pseudoscalar_negation', 'squared', 'symmetric_reverse_product', 'symmetric_involute_product',
	'symmetric_conjugate_product', 'inverse_factor', 'degenerate', 'nondegenerate', 'inverse', 'norm_squared', 'norm', 'normalized', 'square_root', 'exp', 'motor_log', 'motor_square_root', 'exp_quadratic',
	'exp_linear_normalized', 'motor_log_linear_normalized', 'decompose_invariant', 'decompose_polar', 'motor_translator', 'motor_rotor', 'inverse_hitzer', 'inverse_shirokov', 'inverse_la', 'abs', 'sqrt', 'invsqrt',
	'copy', '__neg__', '__pos__', '__invert__', 'sandwich_map', 'inertia_map', 'flatten']
BINARY = ['product', 'wedge', 'inner', 'regressive', 'cross', 'scalar_product', 'commutator', 'anti_commutator', 'left_contract', 'right_contract', 'reverse_product', 'anti_product', 'sandwich', 'reverse_sandwich',
	'full_sandwich', 'transform', 'reverse_transform', '__add__', '__sub__', '__mul__', '__truediv__', '__xor__', '__and__', '__or__', '__rshift__', '__lshift__', 'motor_geometric_mean', 'motor_split']


def extra(ctx, ref, x, y, rng, name):
	"""computations that need more than a method name"""
	S = ctx.subspace
	g = int(rng.integers(ref.n + 1))
	e = [
		('select', [x], lambda: x.select[g]), ('restrict', [x], lambda: x.restrict[g]), ('select_subspace', [x, y], lambda: x.select_subspace(y.subspace)),
		('scalar_add', [x], lambda: x + 2), ('scalar_radd', [x], lambda: 2 + x), ('scalar_rsub', [x], lambda: 2 - x), ('scalar_mul', [x], lambda: x * 2), ('scalar_div', [x], lambda: x / 2), ('scalar_rdiv', [x], lambda: 2 / x),
		('partial', [x, y], lambda: ctx.operator.product(x.subspace, y.subspace).partial({0: x})(y)), ('nan_to_num', [x], lambda: x.nan_to_num(0)),
		('sum', [x, y], lambda: x + y), ('self_sub', [x], lambda: x - x), ('self_product', [x], lambda: x * x), ('self_sandwich', [x], lambda: x >> x),
	]
	if len(getattr(x, 'shape', ())):
		n = x.shape[0]
		e += [('getitem', [x], lambda: x[0]), ('concatenate', [x], lambda: x.concatenate(x, axis=0)), ('sum_axis', [x], lambda: x.sum(0)), ('mean_axis', [x], lambda: x.mean(0)), ('at_set', [x], lambda: x.at[0].set(7)),
			('at_set_mv', [x], lambda: x.at[0].set(x[n - 1])), ('repeat', [x], lambda: x.repeat('a ... -> a k ...', k=2))]

	def op_set():
		M = x.sandwich_map(y.subspace)
		k = snap(M)
		M2 = M.at[0].set(0)
		assert snap(M) == k, 'operator changed by at[].set'
		return M2(y)
	if len(getattr(x, 'shape', ())):
		e.append(('operator_at_set', [x, y], op_set))

	def op_ops():
		A = ctx.operator.product(x.subspace, y.subspace).partial({0: x})
		k = snap(A)
		outs = [A(y), A.transpose()]
		if len(A.shape):
			outs += [A[0], A.sum(0), A.concatenate(A, axis=0)]
		assert snap(A) == k, 'operator changed by use'
		return outs[0]
	if name.startswith('numpy'):
		e.append(('operator_use', [x, y], op_ops))
	return e


def drive(mon, name, ctx, ref, rng, cases):
	py, npb = name.startswith('python'), name.startswith('numpy')
	panel = Panel(mon, name, ctx, ref, rng)
	S = ctx.subspace
	subs = [S.scalar(), S.vector(), S.even_grade(), S.pseudoscalar(), S.antivector()]
	if ref.n >= 2:
		subs += [S.bivector()] * 3
	subs.append(S.multivector() if ref.n < 5 else S.odd_grade())
	for c in range(cases):
		sh = () if py else [(), (2,), (2, 3)][rng.integers(3)]
		pick = lambda: subs[rng.integers(len(subs))] if rng.random() < 0.7 else gen.subspace(ctx.algebra, gen.random_masks(rng, ref, None, 8), rng)

		def operand(s):
			v = rng.normal(size=sh + (len(s),)) * 0.3
			if 0 in [int(b) for b in s.blades]:
				v[..., 0] = 1
			x = gen.mk(ctx, s, v.tolist() if py else v)
			return protect(x) if npb else x
		x, y = operand(pick()), operand(pick())
		work = [(k, [x], (lambda k=k: getattr(x, k)())) for k in (UNARY[i] for i in rng.permutation(len(UNARY))[:8])]
		work += [(k, [x, y], (lambda k=k: getattr(x, k)(y))) for k in (BINARY[i] for i in rng.permutation(len(BINARY))[:8])]
		ex = extra(ctx, ref, x, y, rng, name)
		work += [ex[i] for i in rng.permutation(len(ex))[:8]]
		scribble = rng.random() < 0.5
		for label, operands, thunk in work:
			before = [snap(o) for o in operands]
			mon.case(backend=name, signature=list(ref.sig), op=label, subspaces=[o.subspace.named_str for o in operands], values=[o.values for o in operands])
			out = None
			with np.errstate(all='ignore'):
				try:
					out = thunk()
					mon.count('calls')
				except AssertionError as e:
					mon.check('changed by' not in str(e), f'{name}/operator/{label}', str(e))
				except Exception as e:
					# whether the computation is defined here is decided elsewhere; trapped writes are decided here
					mon.check(not ('read-only' in str(e) or 'readonly' in str(e) or 'read only' in str(e)), f'{name}/write/{label}', f'{label} writes into its operand: {e}')
					mon.count('undefined')
			for o, b in zip(operands, before):
				mon.count('operand')
				mon.seen(name, label, ref.sig, o.subspace.blades.tobytes())
				mon.check(snap(o) == b, f'{name}/operand/{label}', lambda: f'{label} changed its operand in {o.subspace.named_str}: {describe(b)} -> {describe(snap(o))}')
			if scribble and out is not None:
				for r in (out if isinstance(out, tuple) else (out,)):
					v = getattr(r, 'values', None)
					if isinstance(v, np.ndarray):
						alias = any(np.shares_memory(v, o.values) for o in operands)
					elif hasattr(v, 'fill_'):
						alias = any(v.untyped_storage().data_ptr() == o.values.untyped_storage().data_ptr() for o in operands) and v.numel() > 0
					elif isinstance(v, list):
						alias = any(v is o.values for o in operands)
					else:
						continue
					mon.count('storage')
					# the caller may update any result, except for those that are a view by nature
					mon.check(not alias or label in VIEWS, f'{name}/alias/{label}', lambda: f'the result of {label} on {[o.subspace.named_str for o in operands]} shares its storage with the operand; updating it in place changes the operand')
					if alias:
						continue
					if isinstance(v, np.ndarray) and v.flags.writeable:
						v[...] = 1e9
						mon.count('scribbled')
					elif hasattr(v, 'fill_'):
						v.fill_(1e9)
						mon.count('scribbled')
			if rng.random() < 0.02:
				tables(mon, name, x.subspace)
		if c % 8 == 7:
			panel.verify('mixed workload')
	panel.verify('mixed workload')


DERIVE = {
	'neg': lambda o, r: -o, 'mul': lambda o, r: o * 2, 'rmul': lambda o, r: 2 * o, 'div': lambda o, r: (o * 2).div(2), 'add': lambda o, r: o + o, 'sub': lambda o, r: o - o, 'squeeze': lambda o, r: o.squeeze(),
	'add_broadcast': lambda o, r: o.add_broadcast(o), 'swapaxes': lambda o, r: o.swapaxes(0, o.arity - 1), 'select_grade': lambda o, r: o.select_grade(int(r.integers(o.algebra.n_grades))),
	'select_subspace': lambda o, r: o.select_subspace(o.inputs[0]), 'grade_selection': lambda o, r: o.grade_selection(lambda *g: g[-1] % 2 == 0), 'sum': lambda o, r: o.sum(0) if o.arity > 1 else o,
	'slice': lambda o, r: o.slice(tuple(a.slice_subspace(slice(0, len(a), 2)) for a in o.inputs)), 'deslice': lambda o, r: o.deslice([a.union(o.algebra.subspace.scalar()) for a in o.axes]),
	'bind': lambda o, r: o.bind({o.arity - 1: o.algebra.operator.reverse(o.inputs[-1])}), 'symmetry': lambda o, r: o.symmetry((0, o.arity - 1)) if o.inputs[0] == o.inputs[-1] else o,
	'str': lambda o, r: str(o) if o.arity < 3 else '',
}


def cached(mon, alg, ref, rng, rounds):
	"""operators that were handed out are not changed by making others"""
	one = [a for t in (ops.UNARY, ops.SYMMETRIC) for e in t.values() for a in e[-3]] + ['nondegenerate', 'degenerate']
	two = [a for t in (ops.PRODUCT, ops.GRADED, ops.ANTI, ops.INVPROD, ops.SANDWICH) for e in t.values() for a in e[-3]]
	heavy = ('cubed', 'inverse_factor', 'inverse_factor_alt', 'inverse_factor_completed', 'inverse_factor_completed_alt', 'sandwich', 'full_sandwich', 'reverse_sandwich', 'transform', 'inverse_transform')
	for _ in range(rounds):
		S = gen.subspace(alg, (gen.random_masks(rng, ref, None, 8) or {0}), rng)
		T = gen.subspace(alg, (gen.random_masks(rng, ref, None, 8) or {0}), rng)
		todo = [(n, (a,)) for n in one for a in (S, T)] + [(n, (a, b)) for n in two for a, b in ((S, T), (T, S), (S, S))]
		todo = [todo[i] for i in rng.permutation(len(todo))]
		held = []
		for name, args in todo:
			if name in heavy and max(len(a) for a in args) > 6 or name == 'bivector_product' and ref.n < 2:
				continue
			mon.case(operator=name, signature=list(ref.sig), subspaces=[a.named_str for a in args])
			try:
				op = getattr(alg.operator, name)(*args)
			except Exception:
				# whether it exists is decided elsewhere
				mon.count('undefined')
				continue
			held.append((name, args, op, fingerprint(op)))
			mon.count('cached_operator')
			mon.seen('cached', name, ref.sig, tuple(a.blades.tobytes() for a in args))
			if rng.random() < 0.2:
				k = list(DERIVE)[rng.integers(len(DERIVE))]
				before = fingerprint(op)
				try:
					DERIVE[k](op, rng)
				except Exception:
					mon.count('undefined')
				mon.count('derived_operator')
				mon.check(fingerprint(op) == before, f'derive/{k}', lambda: f'{k} changed the operator {name} it was applied to, in {ref.sig} on {[a.named_str for a in args]}')
		for name, args, op, f in held:
			mon.case(operator=name, signature=list(ref.sig), subspaces=[a.named_str for a in args])
			mon.check(fingerprint(op) == f, f'cached/{name}', lambda: f'the operator {name} in {ref.sig} on {[a.named_str for a in args]} changed after it was handed out')


def fingerprint(op):
	return (np.asarray(op.kernel).tobytes(), np.asarray(op.kernel).shape, tuple(a.blades.tobytes() for a in op.axes))


def tables(mon, name, s):
	"""the blade table of a subspace withstands the caller"""
	b = s.blades.tobytes()
	try:
		s.blades[:] = 0
	except Exception:
		pass
	mon.check(s.blades.tobytes() == b, f'{name}/blades', f'blade table of {s.named_str} can be overwritten')
