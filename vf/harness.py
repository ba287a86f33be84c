"""Execution harness: forked jobs, monitors that count what they observe, evidence, verdicts.

Verdicts are three valued. exit 0: every monitor stayed silent and observed enough;
exit 1: a monitor fired (VIOLATION line, replay file); exit 2: inconclusive or harness error.
"""
import hashlib
import json
import multiprocessing as mp
import multiprocessing.connection as mpc
import os
import signal
import sys
import time
import traceback
import warnings
import zlib

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Skip(Exception):
	"""Abandon the current case; used after a violation has been recorded"""


class Inconclusive(Exception):
	pass


def seed_of(*parts):
	"""Deterministic 32 bit seed from arbitrary parts"""
	return zlib.crc32(repr(parts).encode()) & 0x7fffffff


def _jsonable(x):
	import numpy as np
	if isinstance(x, dict):
		return {str(k): _jsonable(v) for k, v in x.items()}
	if isinstance(x, (list, tuple, set, frozenset)):
		return [_jsonable(v) for v in x]
	if isinstance(x, np.ndarray):
		return x.tolist() if x.size <= 4096 else f'array{x.shape}'
	if isinstance(x, np.generic):
		return x.item()
	if isinstance(x, (str, int, float, bool)) or x is None:
		return x
	return repr(x)


class Mon:
	"""Monitor state of one job: counts observations, records violations with their witness"""
	MAX = 12

	def __init__(self, job):
		self.job = job
		self.counters = {}
		self.distinct = set()
		self.samples = []
		self.violations = []
		self.notes = {}
		self._case = None

	def case(self, **kw):
		"""Set the witness of whatever is checked next"""
		self._case = kw

	def count(self, kind, n=1):
		self.counters[kind] = self.counters.get(kind, 0) + n

	def seen(self, *key):
		"""Register a distinct nontrivial observation"""
		self.distinct.add(hashlib.blake2b(repr(key).encode(), digest_size=8).digest())
		if len(self.samples) < 2 and self._case:
			self.sample({**self._case, 'observed': repr(key)[:300]})

	def sample(self, s, limit=2):
		if len(self.samples) < limit:
			self.samples.append(_jsonable(s))

	def fail(self, key, msg, **witness):
		self.count('violation')
		if len(self.violations) < self.MAX and not any(v['key'] == key for v in self.violations):
			self.violations.append(dict(
				key=key, msg=str(msg)[:2000], witness=_jsonable({**(self._case or {}), **witness}),
			))

	def check(self, ok, key, msg='', **witness):
		"""One oracle evaluation"""
		self.count('oracle')
		if not ok:
			self.fail(key, msg() if callable(msg) else msg, **witness)
		return bool(ok)

	def call(self, key, fn, *args, **kw):
		"""Run library code inside its stated domain; raising there is a violation"""
		try:
			return fn(*args, **kw)
		except (Skip, Inconclusive, TimeoutError, MemoryError):
			raise
		except Exception as e:
			tb = traceback.extract_tb(e.__traceback__)
			where = ' < '.join(f'{os.path.basename(f.filename)}:{f.name}' for f in reversed(tb[-4:]))
			self.fail(key + '/raises', f'{type(e).__name__}: {e} [{where}]')
			raise Skip()

	def result(self):
		return dict(counters=self.counters, distinct=self.distinct, samples=self.samples,
			violations=self.violations, notes=self.notes)


def _child(conn, runner, job, alarm):
	try:
		warnings.simplefilter('ignore')

		def onalarm(*_):
			raise TimeoutError('job exceeded its watchdog')
		signal.signal(signal.SIGALRM, onalarm)
		signal.alarm(alarm)
		mon = Mon(job)
		out = dict(status='ok')
		try:
			runner(job, mon)
		except Skip:
			pass
		except TimeoutError as e:
			out = dict(status='timeout', error=traceback.format_exc()[-1500:])
		except Inconclusive as e:
			out = dict(status='inconclusive', error=str(e))
		except (TypeError, AttributeError, ValueError, IndexError, KeyError, AssertionError, ZeroDivisionError):
			# the library answered in a form in which its answer cannot be judged
			mon.fail('uninterpretable', traceback.format_exc()[-1500:])
		except BaseException:
			out = dict(status='error', error=traceback.format_exc()[-3000:])
		signal.alarm(0)
		out.update(mon.result())
		conn.send(out)
		conn.close()
	finally:
		sys.stdout.flush()
		sys.stderr.flush()
		os._exit(0)


def run_jobs(jobs, runner, budget, procs=8, alarm=240, hard_deadline=840, verbose=False):
	"""Run jobs in forked children; stop dispatching when the budget is spent"""
	ctx = mp.get_context('fork')
	t0 = time.time()
	todo = list(enumerate(jobs))[::-1]
	live = {}
	results = {}
	while todo or live:
		# jobs flagged essential run regardless of the budget
		while todo and len(live) < procs:
			i, job = todo.pop()
			if time.time() - t0 > budget and not job.get('essential'):
				results[i] = None
				continue
			a, b = ctx.Pipe(duplex=False)
			sys.stdout.flush()
			sys.stderr.flush()
			p = ctx.Process(target=_child, args=(b, runner, job, alarm))
			p.start()
			b.close()
			live[a] = (i, p, time.time())
		for c in mpc.wait(list(live), timeout=1.0):
			if c not in live:
				continue
			i, p, ts = live.pop(c)
			try:
				results[i] = c.recv()
			except EOFError:
				results[i] = dict(status='died', error=f'job process died: {jobs[i]}')
			results[i]['wall'] = time.time() - ts
			c.close()
			p.join()
			if os.environ.get('VF_FIRST') and jobs[i].get('kind') != 'known' and results[i].get('violations'):
				# one violation is all that is asked for
				todo.clear()
				for k, (_, q, _) in live.items():
					q.kill()
					q.join()
					k.close()
				live.clear()
			if verbose:
				print(f'  {results[i]["wall"]:6.1f}s {results[i]["status"]:8s} {str(jobs[i])[:120]}', file=sys.stderr)
		for c in list(live):
			i, p, ts = live[c]
			if time.time() - ts > alarm + 20 or time.time() - t0 > hard_deadline:
				p.kill()
				p.join()
				live.pop(c)
				results[i] = dict(status='timeout', error=f'killed after {time.time()-ts:.0f}s: {jobs[i]}')
	return [results.get(i) for i in range(len(jobs))]
