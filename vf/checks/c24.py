"""Concurrent first use"""
import hashlib
import os
import random
import sys
import threading
import time

import numpy as np

from vf import backends, gen
from vf.checks import c19
from vf.gen import rng_of

RULE = ('random programs of calls over several algebras and contexts that share names, executed by up to 8 threads at once on algebra objects nobody has used before, with random delays injected at function entry and exit '
	'inside the library and at a minimal interpreter switch interval; an observation is the outcome of one call in one thread compared with the same call in a process of its own, or the identity of one subspace as seen by all threads; '
	'distinct by schedule (recorded order of injected switches) and by call')
REQUIRED = {'concurrent_calls': 3000, 'identities': 500, 'schedules': 30, 'switches': 2000}
BUDGET = dict(quick=300, thorough=600)


def jobs(tier, seed):
	q = tier == 'quick'
	js = []
	for r in range(40 if q else 240):
		js.append(dict(kind='threads', seed=['C24', seed, 't', r], length=int(rng_of('C24', seed, r).choice([6, 20, 40])), rounds=4, essential=r < 8))
	return js


class Shared(c19.World):
	"""algebras are shared; contexts are shared or made by every thread for itself"""
	churn = False

	def __init__(self, seed, algebras, contexts):
		super().__init__(seed)
		self.shared = True
		self.algebras = algebras
		self.ctx = contexts if contexts is not None else {}


class Schedule:
	"""injects delays and records the order of events around them"""
	def __init__(self, seed, p, root):
		self.seed, self.p, self.root = seed, p, root
		self.events = []

	def start(self, tid):
		rnd = random.Random(repr((self.seed, tid)))
		root, p, events = self.root, self.p, self.events

		def probe(frame, event, arg):
			if event in ('call', 'return', 'c_call') and frame.f_code.co_filename.startswith(root):
				if rnd.random() < p:
					events.append((tid, frame.f_code.co_name))
					time.sleep(rnd.choice([0, 0, 1e-5, 2e-4]))
		sys.setprofile(probe)

	def stop(self):
		sys.setprofile(None)

	def switches(self):
		return sum(a[0] != b[0] for a, b in zip(self.events, self.events[1:]))


def identities(world, masks):
	"""the objects a thread gets for what should be one and the same thing"""
	out = {}
	for a, alg in world.algebras.items():
		s = alg.subspace
		out[a, 'subspace'] = s
		out[a, 'full'] = s.full()
		out[a, 'vector'] = s.vector()
		for m in masks[a]:
			out[a, m] = s.from_blades(list(m))
			out[a, m, 'u'] = s.from_blades(list(m)[:1]).union(s.from_blades(list(m)))
	return out


def run(job, mon):
	import numga
	np.seterr(all='ignore')
	root = os.path.dirname(os.path.realpath(numga.__path__[0])) + os.sep + 'numga'
	old = sys.getswitchinterval()
	sys.setswitchinterval(1e-6)
	try:
		for r in range(job['rounds']):
			one_round(job, mon, r, root)
	finally:
		sys.setswitchinterval(old)


def one_round(job, mon, r, root):
	seed = tuple(job['seed']) + (r,)
	rng = rng_of(*seed)
	n = job['length']

	def alone():
		np.seterr(all='ignore')
		w = c19.World(seed)
		w.shared = True
		return [w.call(i) for i in range(n)]
	truth = c19.isolated(alone)
	specs = c19.World(seed)
	algebras = {a: gen.build_algebra(s) for a, s in enumerate(specs.specs)}
	contexts = None
	if rng.random() < .6:
		contexts = {}
		for a in algebras:
			for k in ('numpy/Einsum/float64', 'numpy/Sparse/float64', 'numpy/Einsum/float32'):
				contexts[a, k] = backends.make(k, algebras[a])
	masks = {a: [tuple(sorted(gen.random_masks(rng, ref) or {0})) for _ in range(3)] for a, ref in enumerate(specs.refs)}
	T = int(rng.integers(2, 9))
	sched = Schedule(seed, float(rng.choice([.002, .02, .1])), root)
	barrier = threading.Barrier(T)
	results, ids, errors = [None] * T, [None] * T, [None] * T
	same_order = rng.random() < .5

	def work(t):
		try:
			np.seterr(all='ignore')
			order = range(n) if same_order else rng_of(*seed, 'order', t).permutation(n)
			w = Shared(seed, algebras, contexts)
			barrier.wait()
			sched.start(t)
			first = t % 2 and identities(w, masks)
			out = [(int(i), w.call(int(i))) for i in order]
			ids[t] = first or identities(w, masks)
			sched.stop()
			results[t] = out
		except BaseException as e:
			sched.stop()
			errors[t] = e
	mon.case(algebras=specs.specs, threads=T, contexts='shared' if contexts else 'own')
	threads = [threading.Thread(target=work, args=(t,)) for t in range(T)]
	[t.start() for t in threads]
	[t.join() for t in threads]
	mon.count('schedules')
	mon.count('switches', sched.switches())
	mon.seen('schedule', hashlib.blake2b(repr(sched.events).encode(), digest_size=8).hexdigest())
	mon.sample(dict(threads=T, switches=sched.switches(), head=sched.events[:8]))
	for e in errors:
		if not mon.check(e is None, 'threads/raises', lambda: f'{type(e).__name__}: {e} in one of {T} threads'):
			return
	for out in results:
		for i, (label, o) in out:
			mon.count('concurrent_calls')
			mon.seen('call', label)
			mon.check(c19.same(o, truth[i][1]), 'threads/outcome', lambda: f'{label}: outcome with {T} threads {str(o)[:300]}, alone {str(truth[i][1])[:300]}')
	for k in ids[0]:
		mon.count('identities')
		mon.check(all(d[k] is ids[0][k] for d in ids), 'threads/identity', lambda: f'{k}: threads hold {len({id(d[k]) for d in ids})} objects for one thing')
	for a in algebras:
		seen = {}
		for d in ids:
			for k, v in d.items():
				if k[0] == a and k[1] != 'subspace':
					b = v.blades.tobytes()
					mon.check(seen.setdefault(b, v) is v, 'threads/flyweight', lambda: f'two subspace objects for {v.named_str}')
