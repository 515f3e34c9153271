"""Worker side: runs one check module as an unprivileged user and writes report.json."""
import importlib, json, os, random, sys, threading, time, traceback

def die_report(ctx, exc):
	traceback.print_exc()

class _Step:
	def __init__(self, ctx, what, case, limit):
		self.ctx, self.what, self.case, self.limit = ctx, what, case, limit
	def __enter__(self):
		self.t = time.monotonic()
		with self.ctx._lock:
			self.ctx._steps.append(self)
		return self
	def __exit__(self, *a):
		with self.ctx._lock:
			self.ctx._steps.remove(self)

class Ctx:
	def __init__(self):
		e = os.environ
		self.prop = e['VF_PROP']
		self.tier = e['VF_TIER']
		self.quick = self.tier == 'quick'
		self.slow = float(e.get('VF_SLOW') or 1)
		self.seed = int(e['VF_SEED'])
		self.scratch = e['VF_SCRATCH']
		self.repo = e['VF_REPO']
		self.port = int(e.get('VF_PGPORT') or 0)
		self.evaluations = 0
		self._distinct = set()
		self.rule = ''
		self.samples = []
		self.counters = {}
		self.violations = []
		self.required = []
		self.inconclusive = []
		self._mechs = {}
		self._lock = threading.RLock()
		self.t0 = time.monotonic()
		self._beat = (time.monotonic(), time.process_time())
		self._main = threading.main_thread().ident
		self._steps = []
		threading.Thread(target=self._watch, daemon=True).start()

	def rng(self, name=''):
		return random.Random('%s/%s/%s' % (self.prop, self.seed, name))

	def scale(self, q, t):
		return q if self.quick else t

	def elapsed(self):
		return (time.monotonic() - self.t0) / self.slow     # bounds how much is done, never a verdict

	def beat(self):
		self._beat = (time.monotonic(), time.process_time())

	def count(self, key, n=1):
		with self._lock:
			self.beat()
			self.counters[key] = self.counters.get(key, 0) + n

	def case(self, key=None, nontrivial=True, sample=None):
		"""Record one evaluated case; `key` identifies it for the distinct count."""
		with self._lock:
			self.beat()
			self.evaluations += 1
			if nontrivial and key is not None:
				self._distinct.add(hash(key if isinstance(key, (str, bytes, int)) else repr(key)))
			if sample is not None and len(self.samples) < 8:
				self.samples.append(str(sample)[:400])

	def violation(self, mech, detail, case=None):
		"""mech: a stable name for *what* fails, used to key known findings."""
		with self._lock:
			self.beat()
			n = self._mechs.get(mech, 0)
			self._mechs[mech] = n + 1
			if n < 5:
				self.violations.append(dict(mech=mech, detail=str(detail)[:3000], case=case if isinstance(case, (str, int, float, list, dict, type(None))) else repr(case)[:6000]))
				print('violation %s: %s' % (mech, str(detail)[:600]), file=sys.stderr, flush=True)
			if n in (0, 4):
				self.dump()

	def expect(self, cond, mech, detail=None, case=None):
		if not cond: self.violation(mech, detail, case)
		return bool(cond)

	# -- progress watchdog.  `with ctx.step(what, case)` brackets one interaction in
	# which the environment has already supplied everything the code under test needs
	# (peer answered, or peer closed): not returning for `limit` seconds is a hang.
	def step(self, what, case=None, limit=100):
		return _Step(self, what, case, limit)

	def _watch(self):
		import faulthandler
		while True:
			time.sleep(1)
			now = time.monotonic()
			with self._lock:
				late = [s for s in self._steps if now - s.t > s.limit]
			if not late and self._looping(now):
				faulthandler.dump_traceback(all_threads=True)
				self.violation('no-progress:loop', 'an operation keeps computing without end, or never returns', self._stack())
				self.dump()
				os._exit(0)
			if late:
				s = late[0]
				faulthandler.dump_traceback(all_threads=True)
				self.violation('no-progress:' + s.what, 'no progress for %ds in %s' % (s.limit, s.what), s.case)
				self.dump()
				os._exit(0)

	# An operation of the package that neither returns nor raises. Loops are told by
	# the processor time they used since the check last recorded anything, and
	# by the same call of the package being there every time one looks.
	def _inside(self):
		f = sys._current_frames().get(self._main); r = []
		while f is not None:
			if f.f_code.co_filename.startswith(self.repo + '/'): r.append(f)
			f = f.f_back
		return r

	def _stack(self):
		f = sys._current_frames().get(self._main)
		return ''.join(traceback.format_stack(f))[-4000:]

	def _looping(self, now):
		beat = self._beat
		if time.process_time() - beat[1] < 120 and now - beat[0] < 300: return False
		same = self._inside()
		for i in range(10):
			if not same: return False
			time.sleep(.3)
			now = self._inside()
			same = [f for f in same if any(f is g for g in now)]
		return self._beat is beat and bool(same)

	def require(self, *keys):
		self.required.extend(keys)

	def dump(self):
		with self._lock:
			d = dict(evaluations=self.evaluations, distinct=len(self._distinct), rule=self.rule, samples=self.samples,
				counters=self.counters, violations=self.violations, required=self.required, inconclusive=self.inconclusive)
			p = os.environ['VF_OUT']
			with open(p + '.tmp', 'w') as f:
				json.dump(d, f, default=repr)
			os.replace(p + '.tmp', p)

	# -- PostgreSQL access through the code under test
	def connector(self, **kw):
		import postgresql.driver as pg_driver
		d = dict(host='127.0.0.1', port=self.port, user='postgres', database='postgres', sslmode='disable')
		d.update(kw)
		if d.pop('tls', False):
			d.update(sslmode='require', sslrootcrtfile=os.path.join(self.scratch, 'tls.crt'))
		if d.get('unix'):
			d.pop('host'); d.pop('port')
		return pg_driver.default.fit(**d)

	def connect(self, **kw):
		c = self.connector(**kw)()
		c.connect()
		return c

	# independent access: libpq through psql
	def psql(self, sql, db='postgres', user='postgres', flags=('-At',)):
		import subprocess
		r = subprocess.run(['/opt/pgtest/bin/psql', '-X', '-q', *flags, '-v', 'ON_ERROR_STOP=1', '-h', '127.0.0.1', '-p', str(self.port), '-U', user, '-d', db],
			input=sql, capture_output=True, text=True)
		if r.returncode:
			raise RuntimeError(r.stderr)
		return r.stdout

def _coverage(path, repo):
	"""For tools/cover.py: which lines of the package ran (forked children add files of their own)."""
	m = sys.monitoring; m.use_tool_id(3, 'vf'); seen = set()
	def line(co, n):
		if co.co_filename.startswith(repo): seen.add((co.co_filename[len(repo) + 1:], n))
		return m.DISABLE
	m.register_callback(3, m.events.LINE, line); m.set_events(3, m.events.LINE)
	def dump():
		with open('%s.%d' % (path, os.getpid()), 'w') as f: json.dump(sorted(seen), f)
	return dump

def main():
	cover = _coverage(os.environ['VF_COV'], os.environ['VF_REPO']) if os.environ.get('VF_COV') else None
	from . import boot
	boot.install(os.environ.get('VF_EXT'))
	ctx = Ctx()
	mod = importlib.import_module('checks.' + sys.argv[1])
	ok = False
	try:
		mod.main(ctx)
		ok = True
	except BaseException as e:
		# An operation of the code under test that the harness relies on raised: on a
		# tree where the property holds none of them does.
		traceback.print_exc()
		frames = traceback.extract_tb(e.__traceback__)
		if isinstance(e, Exception) and any(f.filename.startswith(ctx.repo + '/') for f in frames):
			ctx.violation('uncaught:' + type(e).__name__, 'an operation that must succeed raised %s: %s' % (type(e).__name__, e),
				traceback.format_exc()[-4000:])
			ok = True
		elif isinstance(e, MemoryError):
			ctx.violation('memory', 'an operation of ordinary size used up the memory', traceback.format_exc()[-4000:])
			ok = True
		elif isinstance(e, (TypeError, AttributeError, LookupError, ValueError, AssertionError, StopIteration)):
			# What the package returned is not of the kind the check can even look at.
			ctx.violation('result:' + type(e).__name__, 'a result cannot be examined: %s: %s' % (type(e).__name__, e),
				traceback.format_exc()[-4000:])
			ok = True
	finally:
		ctx.dump()
	if cover is not None: cover()
	sys.stderr.flush()
	os._exit(0 if ok else 5)

if __name__ == '__main__':
	try:
		main()
	except SystemExit:
		raise
	except BaseException:
		traceback.print_exc()
		sys.stderr.flush()
		os._exit(5)
