"""Shared driver: multilinear operations observed at the API boundary against the reference model"""
import numpy as np

from vf import gen, trace, workloads
from vf.gen import rng_of
from vf.harness import Skip
from vf.ref import Ref, popcount, prune


def context(spec):
	from numga.backend.numpy.context import NumpyContext
	alg = gen.build_algebra(spec)
	return NumpyContext(alg), Ref(spec['sig'])


SHAPES = [(), (), (3,), (2, 2), (1,), (0,)]


def batch_shapes(rng, k):
	"""k mutually broadcastable batch shapes"""
	c = rng.integers(6)
	if c < 2:
		s = [(), (3,)][c]
		return [s] * k
	if c == 2:
		return [(3,) if rng.random() < 0.5 else () for _ in range(k)]
	if c == 3:
		return [(2, 1) if rng.random() < 0.5 else (1, 3) for _ in range(k)]
	if c == 4:
		return [(2, 3) if rng.random() < 0.5 else (3,) for _ in range(k)]
	return [(1,) if rng.random() < 0.5 else (4,) for _ in range(k)]


def observe(mon, key, label, ref, fn, expect, shapes, subs, tol=None):
	"""Run one library expression and confront its outcome with the reference"""
	mon.case(op=label, signature=list(ref.sig), subspaces=[s.named_str for s in subs])
	try:
		out = mon.call(key, fn)
	except Skip:
		return None
	d = gen.diff(out, expect, batch=np.broadcast_shapes(*shapes), **(tol or {}))
	nz = bool(prune(expect))
	mon.count('nonzero' if nz else 'zero')
	if nz:
		mon.seen(key, ref.sig, tuple(s.blades.tobytes() for s in subs))
	mon.check(d is None, key, lambda: f'{label} in {ref.sig} on {[s.named_str for s in subs]}: {d}')
	return out


def routes(ctx, table, name, nsym=None):
	"""All public ways of invoking an operation"""
	e = table[name]
	aliases, methods = e[-3], e[-2]
	if isinstance(methods, str):
		methods = [methods]
	r = [('method', m) for m in (methods or [])] + [('operator', a) for a in aliases]
	return r


def invoke(ctx, route, xs, repeat=None):
	"""xs are the distinct operands; repeat gives the order in which an operator receives them"""
	kind, name = route
	if kind == 'method':
		return getattr(xs[0], name)(*xs[1:])
	order = repeat or range(len(xs))
	if name in ('study_norm_squared',):
		subs = [xs[0].subspace]
	else:
		subs = [x.subspace for x in xs]
	return getattr(ctx.operator, name)(*subs)(*[xs[i] for i in order])


def random_operand(ctx, ref, rng, kind=None, maxlen=None, nonempty=False, shape=(), mag=0.0):
	for _ in range(20):
		masks = gen.random_masks(rng, ref, kind, maxlen)
		if masks or not nonempty:
			break
	else:
		masks = {0}
	s = gen.subspace(ctx.algebra, masks, rng)
	v = gen.ints(rng, shape + (len(s),))
	if mag:
		v = v * gen.magnitude(rng, mag)
	return gen.mk(ctx, s, v), gen.ref_of(s, v)


def spec_list(rng, tier, dims, counts):
	"""signature coverage: exhaustive for small n, sampled above"""
	out = []
	for n, c in zip(dims, counts):
		sigs = gen.all_sigs(n)
		if c is not None and c < len(sigs):
			sigs = [sigs[i] for i in rng.permutation(len(sigs))[:c]]
		out += [gen.spec_of(s, rng) for s in sigs]
	return out


def chunk(xs, n):
	return [xs[i:i + n] for i in range(0, len(xs), n)]


def std_jobs(tier, seed, pid, big=True):
	rng = rng_of(pid, seed, 'jobs')
	q = tier == 'quick'
	jobs = []
	specs = spec_list(rng, tier, [1, 2, 3, 4], [None] * 4)
	specs = [specs[i] for i in rng.permutation(len(specs))]
	for i, c in enumerate(chunk(specs, 10)):
		jobs.append(dict(kind='small', specs=c, seed=[pid, seed, 'small', i], cases=32 if q else 60, essential=q))
	for i, c in enumerate(chunk(spec_list(rng, tier, [5], [48 if q else 243]), 6)):
		jobs.append(dict(kind='n5', specs=c, seed=[pid, seed, 'n5', i], cases=16))
	for i, c in enumerate(chunk(spec_list(rng, tier, [6], [16 if q else 120]), 2)):
		jobs.append(dict(kind='n6', specs=c, seed=[pid, seed, 'n6', i], cases=6 if q else 10))
	if big:
		for i, n in enumerate([7, 8, 9, 10, 11] if q else [7, 8, 9, 10, 11, 12] * 4):
			jobs.append(dict(kind='big', specs=[gen.spec_of(tuple(int(s) for s in rng.choice([1, -1, 0], p=[.4, .35, .25], size=n)), rng, 'letters')],
				seed=[pid, seed, 'big', i], cases=6 if q else 10))
	for i in range(8 if q else 60):
		c = [gen.spec_of(s, rng) for s in [gen.all_sigs(n)[rng.integers(3 ** n)] for n in (2, 3, 3, 4, 4, 5)]]
		jobs.append(dict(kind='trace', specs=c, seed=[pid, seed, 'trace', i], cases=12 if q else 20))
	if not q:
		# repeat the exhaustive signature sweep with fresh subspaces and values
		for rep in range(6):
			for i, c in enumerate(chunk(specs, 10)):
				jobs.append(dict(kind='small', specs=c, seed=[pid, seed, 'small', rep, i], cases=25))
	order = rng.permutation(len(jobs))
	jobs = [jobs[i] for i in order]
	return sorted(jobs, key=lambda j: not j.get('essential'))


def run_trace(job, mon, groups):
	for k, spec in enumerate(job['specs']):
		rng = rng_of(*job['seed'], k)
		alg = gen.build_algebra(spec)
		ctx, tracer = trace.traced_context(alg, spec['sig'], mon, groups)
		ref = Ref(spec['sig'])
		for label, thunk in workloads.composite(ctx, ref, rng, job['cases']):
			tracer.label = label
			mon.case(workload=label, signature=spec['sig'])
			try:
				with np.errstate(all='ignore'):
					thunk()
				mon.count('trace_workload')
			except Exception as e:
				# composite workloads are stimulus here; their own contracts are decided by other checks
				mon.count('trace_workload_raised')
