"""Online monitor: a context whose operator applications are shadowed by the reference model.

Every application of a named operator by any library code running on such a context
(inverse, exp, decompositions, the physics engine, ...) is one observed event;
the reference model recomputes it from the actual operands.
"""
import numpy as np

from vf import gen, ops
from vf.ref import Ref, norm


def _catalogue():
	cat = {}
	for group, table in (('C01', ops.PRODUCT), ('C02', ops.GRADED), ('C03', ops.UNARY), ('C04', ops.ANTI), ('C05', ops.INVPROD)):
		for name, (aliases, _, f) in table.items():
			for al in aliases:
				cat[al] = (group, f, 'plain')
	for name, (k, aliases, _, f) in ops.SYMMETRIC.items():
		for al in aliases:
			cat[al] = ('C05', f, 'sym')
	for name, (aliases, _, f) in ops.SANDWICH.items():
		for al in aliases:
			cat[al] = ('C05', f, 'sandwich')
	return cat


CATALOGUE = _catalogue()


class TraceOp:
	def __init__(self, op, name, args, tracer):
		self._op, self._name, self._args, self._tracer = op, name, args, tracer

	def __getattr__(self, k):
		return getattr(self._op, k)

	def __call__(self, *inputs, **kw):
		before = [np.array(i.values, copy=True) if hasattr(i, 'values') else None for i in inputs]
		out = self._op(*inputs, **kw)
		self._tracer.observe(self._name, self._args, inputs, before, out)
		return out


class TraceFactory:
	def __init__(self, inner, tracer):
		self._inner, self._tracer = inner, tracer

	def __call__(self, *a, **k):
		return self._inner(*a, **k)

	def __getattr__(self, name):
		f = getattr(self._inner, name)

		def func(*args):
			return TraceOp(f(*args), name, args, self._tracer)
		return func


class Tracer:
	def __init__(self, mon, sig, groups, limit=200000):
		self.mon, self.ref, self.groups = mon, Ref(sig), groups
		self.limit, self.n = limit, 0
		self.label = ''

	def observe(self, name, args, inputs, before, out):
		mon, ref = self.mon, self.ref
		mon.count('trace_event')
		self.n += 1
		if name not in CATALOGUE or self.n > self.limit:
			return
		group, f, kind = CATALOGUE[name]
		if group not in self.groups or any(b is None for b in before) or not hasattr(out, 'values'):
			return
		if not all(np.all(np.isfinite(b)) for b in before):
			mon.count('trace_nonfinite')
			return
		if any(np.max(np.abs(b), initial=0) > 1e60 for b in before):
			return
		xs = [gen.ref_of(i.subspace, b) for i, b in zip(inputs, before)]
		if kind == 'plain':
			e = f(ref)(*xs)
		elif kind == 'sym':
			if not all(i is inputs[0] or (i.subspace == inputs[0].subspace and np.array_equal(b, before[0])) for i, b in zip(inputs, before)):
				return
			e = f(ref)(xs[0])
		else:
			if len(xs) != 3 or not np.array_equal(before[0], before[2]):
				return
			e = f(ref)(xs[0], xs[1])
		scale = 1.0
		for b in before:
			scale = scale * (np.sqrt((b ** 2).sum(axis=-1)) + 1e-300)
		d = gen.diff(out, e, atol=1e-12 * ref.N * scale)
		mon.count('trace_checked')
		mon.seen('trace', name, ref.sig, tuple(i.subspace.blades.tobytes() for i in inputs))
		mon.check(d is None, f'trace/{name}', lambda: f'{self.label}: operator {name} on {[i.subspace.named_str for i in inputs]}: {d}',
			signature=list(ref.sig), inputs=[b.tolist() for b in before])


def traced_context(algebra, sig, mon, groups, **kw):
	from numga.backend.numpy.context import NumpyContext
	tracer = Tracer(mon, sig, groups)

	class TracedContext(NumpyContext):
		@property
		def operator(self):
			base = super().operator
			return TraceFactory(base, tracer)
	ctx = TracedContext(algebra, **kw)
	return ctx, tracer
