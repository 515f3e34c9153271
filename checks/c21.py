"""
C21: advisory locks against a model of the sessions' holds; pg_locks, read by
another session after each operation, is what is judged.
"""
import threading, time
from collections import Counter

IDS = [0, 1, -1, 2**63 - 1, -2**63, 2**31, 2**32, 7, (0, 0), (0, 1), (1, 0), (-1, 5), (2**31 - 1, -2**31), (0, 7), (-1, -1), [3, 4], 12884901892]

def key(i):
	if type(i) is int:
		u = i & (2**64 - 1); return (u >> 32, u & 0xffffffff, 1)
	a, b = i; return (a & 0xffffffff, b & 0xffffffff, 2)

MODE = dict(exclusive='ExclusiveLock', share='ShareLock')

class Monitor:
	def __init__(self, ctx):
		self.db = ctx.connect()
		self.q = self.db.prepare("SELECT pid, classid::int8, objid::int8, objsubid::int4, mode FROM pg_locks WHERE locktype = 'advisory' AND granted"
			" AND database = (SELECT oid FROM pg_database WHERE datname = current_database())")
		self.w = self.db.prepare("SELECT count(*) FROM pg_locks WHERE locktype = 'advisory' AND NOT granted AND pid = $1")
		self.t1 = {'exclusive': (self.db.prepare('SELECT pg_try_advisory_lock($1::int8)'), self.db.prepare('SELECT pg_advisory_unlock($1::int8)')),
			'share': (self.db.prepare('SELECT pg_try_advisory_lock_shared($1::int8)'), self.db.prepare('SELECT pg_advisory_unlock_shared($1::int8)'))}
		self.t2 = {'exclusive': (self.db.prepare('SELECT pg_try_advisory_lock($1::int4, $2::int4)'), self.db.prepare('SELECT pg_advisory_unlock($1::int4, $2::int4)')),
			'share': (self.db.prepare('SELECT pg_try_advisory_lock_shared($1::int4, $2::int4)'), self.db.prepare('SELECT pg_advisory_unlock_shared($1::int4, $2::int4)'))}
	def held(self):
		return {(r[0], (r[1], r[2], r[3]), 'exclusive' if r[4] == 'ExclusiveLock' else 'share') for r in self.q()}
	def waits(self, pid): return self.w.first(pid) > 0
	def available(self, i, mode):
		t, a = (self.t1, (i,)) if type(i) is int else (self.t2, tuple(i))
		ok = t[mode][0].first(*a)
		if ok: t[mode][1].first(*a)
		return ok

class Session:
	def __init__(self, ctx):
		self.db = ctx.connect(); self.pid = self.db.backend_id
		self.holds = Counter()   # (key, mode) -> count
		self.locks = []
		self.block = None; self.failed = False
		self.alive = True

class Lock:
	def __init__(self, s, obj, ids, mode):
		self.s, self.obj, self.ids, self.mode, self.n = s, obj, ids, mode, 0
	def keys(self): return [(key(i), self.mode) for i in self.ids]

def histories(ctx, n):
	from postgresql import alock
	import postgresql.exceptions as pg_exc
	r = ctx.rng('history')
	mon = Monitor(ctx)
	for hist in range(n):
		ss = [Session(ctx) for _ in range(3)]
		log = []
		pool = r.sample(IDS, r.choice((3, 5, 9)))
		def make(s):
			ids = [r.choice(pool) for _ in range(r.choice((0, 1, 1, 2, 2, 3, 5)))]
			mode = r.choice(('exclusive', 'share'))
			o = (alock.ExclusiveLock if mode == 'exclusive' else alock.ShareLock)(s.db, *ids)
			l = Lock(s, o, ids, mode); s.locks.append(l); log.append(('make', ss.index(s), mode, ids))
			ctx.expect(o.mode == mode and tuple(o.identifiers) == tuple(ids), 'lock-attributes', (o.mode, o.identifiers), list(log))
			return l
		for s in ss:
			for _ in range(r.choice((1, 2, 3))): make(s)
		def others(s, k, mode):
			for o in ss:
				if o is not s and o.alive:
					if o.holds[(k, 'exclusive')] or (mode == 'exclusive' and o.holds[(k, 'share')]): return True
			return False
		def obtainable(l): return not any(others(l.s, key(i), l.mode) for i in l.ids)
		def compare():
			want = {(s.pid, k, m) for s in ss if s.alive for (k, m), c in s.holds.items() if c}
			got = mon.held()
			ctx.count('states')
			if got != want:
				ctx.violation('held-differ', 'on the server but not acquired: %r; acquired but not on the server: %r' % (sorted(got - want), sorted(want - got)), list(log)); return False
			for s in ss:
				for l in s.locks:
					w = l.n > 0 and s.alive
					if l.obj.locked() != w or l.obj.state != ('locked' if w else 'unlocked'):
						ctx.violation('locked-differs', 'locked() is %r, state %r with %d acquisitions' % (l.obj.locked(), l.obj.state, l.n), list(log)); return False
			return True
		def acquired(l):
			if l.n == 0: l.s.holds.update(l.keys())
			l.n += 1
		def released(l):
			l.n -= 1
			if l.n == 0 and l.s.alive: l.s.holds.subtract(l.keys())
		good = True
		for _ in range(r.choice((10, 25, 40))):
			s = r.choice(ss); l = r.choice(s.locks)
			si = ss.index(s); li = s.locks.index(l)
			op = r.choices(('try', 'acquire', 'with', 'release', 'probe', 'block', 'end', 'fail', 'make', 'close', 'kill', 'bad', 'new'),
				(8, 6, 2, 9, 2, 2, 1.3, 1.2, 1, .3, .15, .7, .3))[0]
			log.append((op, si, li))
			try:
				if op == 'new':
					if not s.alive:
						ss[si] = s2 = Session(ctx); make(s2); continue
				elif op == 'make':
					if s.alive and not s.failed: make(s)
				elif op in ('try', 'acquire'):
					can = obtainable(l)
					if op == 'acquire' and l.n == 0 and not can and s.alive and not s.failed: continue
					try: v = l.obj.acquire(blocking=False) if op == 'try' else l.obj.acquire(*r.choice(((), (True,), (1,))))
					except (pg_exc.Error, pg_exc.Exception) as e: v = e
					log[-1] += (repr(v)[:60],)
					if l.n > 0: want = True
					elif not s.alive or s.failed: want = Exception
					else: want = can
					if want is Exception:
						if not isinstance(v, Exception): good = False; ctx.violation('acquired-without-session', '%r returned %r' % (op, v), list(log)); break
						ctx.count('refused')
					elif v is not want:
						good = False; ctx.violation('acquire-result', '%s returned %r, %r expected' % (op, v, want), list(log)); break
					if v is True: acquired(l); ctx.count('acquired:' + op)
					elif v is False: ctx.count('contended')
				elif op == 'with':
					if l.n == 0 and (not obtainable(l) or not s.alive or s.failed): continue
					boom = r.random() < .5
					class E(r.choice((Exception, Exception, BaseException, KeyboardInterrupt, GeneratorExit, SystemExit))): pass
					try:
						with l.obj as x:
							acquired(l)
							if x is not l.obj: ctx.violation('with-target', repr(x), list(log))
							if not compare(): good = False; break
							if boom: raise E()
					except E: ctx.expect(boom, 'with-raised', None, list(log))
					except (pg_exc.Error, pg_exc.Exception) as e:
						if not (s.failed and l.n == 1): raise
						ctx.count('release-refused'); continue
					else:
						if boom: ctx.violation('with-swallowed', 'exception lost', list(log))
					released(l); ctx.count('with')
				elif op == 'release':
					try: l.obj.release(); v = None
					except (pg_exc.Error, pg_exc.Exception, RuntimeError) as e: v = e
					log[-1] += (repr(v)[:60],)
					if l.n == 0:
						if not isinstance(v, RuntimeError): good = False; ctx.violation('release-unacquired', 'gave %r' % (v,), list(log)); break
						ctx.count('unacquired-refused')
					elif s.alive and s.failed and l.n == 1:
						if v is None: good = False; ctx.violation('release-in-failed', 'no error', list(log)); break
						ctx.count('release-refused')
					elif v is not None: good = False; ctx.violation('release-failed', repr(v), list(log)); break
					else: released(l); ctx.count('released')
				elif op == 'probe':
					i = r.choice(pool); m = r.choice(('exclusive', 'share'))
					w = not others(None, key(i), m); g = mon.available(i, m)
					if g is not w: good = False; ctx.violation('conflict-differs', '%s on %r is %savailable to another session' % (m, i, '' if g else 'not '), list(log)); break
					ctx.count('probes')
				elif op == 'block':
					if s.alive and s.block is None: s.block = s.db.xact(); s.block.start()
				elif op == 'end':
					if s.alive and s.block is not None:
						if s.failed or r.random() < .5: s.block.rollback()
						else: s.block.commit()
						s.block = None; s.failed = False; ctx.count('blocks')
				elif op == 'fail':
					if s.alive and s.block is not None and not s.failed:
						try: s.db.execute('SELECT 1/0')
						except pg_exc.Error: s.failed = True
				elif op == 'bad':
					if not s.alive or s.failed: continue
					bad = r.choice((2**63, -2**63 - 1, (2**31, 0), (0, -2**31 - 1), (1,), ('a', 'b'), (None, 1)))
					ids = [r.choice(pool), bad]; r.shuffle(ids)
					if s.block is not None: continue
					try:
						o = r.choice((alock.ExclusiveLock, alock.ShareLock))(s.db, *ids); v = o.acquire(blocking=False)
					except Exception as e: v = e; ctx.count('bad-ids')
					if bad == (1,) or bad == (None, 1):
						# null key: strict functions lock nothing
						continue
					ctx.expect(isinstance(v, Exception) or v is False, 'bad-identifier', '%r acquired: %r' % (ids, v), list(log))
				elif op == 'close':
					if s.alive: s.db.close(); s.alive = False; ctx.count('closed')
				elif op == 'kill':
					if s.alive:
						mon.db.prepare('SELECT pg_terminate_backend($1)').first(s.pid)
						try: s.db.prepare('select 1').first()
						except (pg_exc.Error, pg_exc.Exception): pass
						if not s.db.closed: s.db.close()
						s.alive = False; ctx.count('killed')
				if op in ('close', 'kill') and not s.alive:
					t = time.monotonic()
					while any(p == s.pid for p, k, m in mon.held()) and time.monotonic() - t < 60: time.sleep(.01)
			except (pg_exc.Error, pg_exc.Exception, RuntimeError) as e:
				good = False; ctx.violation('operation-failed', '%s: %r' % (op, e), list(log)); break
			if not compare(): good = False; break
		if good:
			# last releases
			for s in ss:
				if s.alive and s.block is not None: s.block.rollback(); s.block = None; s.failed = False
				for l in r.sample(s.locks, len(s.locks)):
					while l.n: l.obj.release(); released(l)
			log.append('all released'); compare()
		for s in ss:
			if not s.db.closed: s.db.close()
		ctx.case(('history', hist), nontrivial=True, sample=log[:6])
		t = time.monotonic()
		while mon.held() and time.monotonic() - t < 60: time.sleep(.01)
		if not ctx.quick and ctx.elapsed() > 1500: break

def exclusion(ctx, rounds):
	"""threads that keep what they acquired in a shared table, checked at each acquisition"""
	from postgresql import alock
	r0 = ctx.rng('threads')
	mon = Monitor(ctx)
	ids = sorted(IDS[:8]) + sorted(i for i in IDS if type(i) is tuple)
	table = {}; guard = threading.Lock(); bad = []; waits = [0]
	def worker(n, seed):
		import random
		r = random.Random(seed)
		db = ctx.connect()
		for k in range(rounds):
			# in one order, so that they never deadlock
			mine = sorted(r.sample(range(len(ids)), r.choice((1, 2, 3))))
			mode = r.choice(('exclusive', 'exclusive', 'share'))
			l = (alock.ExclusiveLock if mode == 'exclusive' else alock.ShareLock)(db, *[ids[i] for i in mine])
			if r.random() < .3:
				if not l.acquire(blocking=False): ctx.count('t:contended'); continue
			else: l.acquire()
			again = r.choice((0, 0, 1, 2))
			for _ in range(again): l.acquire(r.random() < .5)
			with guard:
				for i in mine:
					for (o, m) in table.get(i, ()):
						if mode == 'exclusive' or m == 'exclusive': bad.append((ids[i], (n, mode), (o, m)))
					table.setdefault(i, []).append((n, mode))
			if r.random() < .3: time.sleep(r.random() * .004)
			for _ in range(again): l.release()
			with guard:
				for i in mine: table[i].remove((n, mode))
			l.release()
			ctx.count('t:acquired')
		db.close()
	errs = []
	def run(n, seed):
		try: worker(n, seed)
		except BaseException as e: errs.append(repr(e))
	ts = [threading.Thread(target=run, args=(n, r0.random()), daemon=True) for n in range(8)]
	for t in ts: t.start()
	for t in ts: t.join(300)
	ctx.expect(not any(t.is_alive() for t in ts), 'blocked-forever', 'threads acquiring in one order never finished', [])
	ctx.expect(not errs, 'thread-failed', errs[:3], errs[:3])
	ctx.expect(not bad, 'not-exclusive', 'held at the same time: %r' % (bad[:3],), bad[:10])
	t = time.monotonic()
	while mon.held() and time.monotonic() - t < 60: time.sleep(.01)
	ctx.expect(not mon.held(), 'left-held', mon.held(), [])
	ctx.case('threads', nontrivial=True)

def blocking(ctx, n):
	"""an acquisition that has to wait, and one that fails while waiting"""
	from postgresql import alock
	import postgresql.exceptions as pg_exc
	r = ctx.rng('blocking')
	mon = Monitor(ctx)
	for k in range(n):
		a, b = ctx.connect(), ctx.connect(); a_pid = a.backend_id
		ids = r.sample(IDS, r.choice((1, 2, 3, 5)))
		pos = r.randrange(len(ids))
		mode = r.choice(('exclusive', 'share')); holder = 'exclusive' if mode == 'share' else r.choice(('exclusive', 'share'))
		cls = dict(exclusive=alock.ExclusiveLock, share=alock.ShareLock)
		h = cls[holder](a, ids[pos]); h.acquire()
		l = cls[mode](b, *ids)
		kind = r.choice(('release', 'close', 'timeout', 'cancel', 'deadlock', 'timeout-in-block', 'release'))
		held_before = r.random() < .3   # something else of the session holds one of them already
		pre = None
		if held_before and pos and kind != 'deadlock':
			pre = cls[mode](b, ids[0]); pre.acquire()
		res = []
		xact = None
		if kind == 'timeout-in-block': xact = b.xact(); xact.start()
		if kind.startswith('timeout'): b.execute("SET lock_timeout = '150ms'")
		case = dict(ids=ids, contended=pos, mode=mode, holder=holder, kind=kind, pre=bool(pre))
		base = [(b.backend_id, key(ids[0]), mode)] if pre else []
		def wait():
			try: res.append(l.acquire())
			except (pg_exc.Error, pg_exc.Exception) as e: res.append(e)
		t = threading.Thread(target=wait, daemon=True); t.start()
		t0 = time.monotonic()
		bpid = b.backend_id
		while not mon.waits(bpid) and t.is_alive() and time.monotonic() - t0 < 60: time.sleep(.005)
		if not kind.startswith('timeout'):
			if not ctx.expect(not res, 'did-not-block', 'acquire() gave %r while %s of %r was held elsewhere' % (res, holder, ids[pos]), case): continue
			got = {x for x in mon.held() if x[0] == bpid}; want = {(bpid, key(i), mode) for i in ids[:pos]} | set(base)
			ctx.expect(got == want, 'order', 'waiting for %r it holds %r' % (ids[pos], sorted(got)), case)
		if kind == 'release': h.release()
		elif kind == 'close': a.close()
		elif kind == 'cancel':
			mon.db.prepare('SELECT pg_cancel_backend($1)').first(bpid)
		elif kind == 'deadlock':
			# close the circle from the other side, where there is something to wait for
			if pos == 0: h.release()
			else:
				b_mode = 'exclusive'
				a.execute("SET deadlock_timeout = '60s'")   # the other one notices
				def circle():
					try: cls['exclusive'](a, ids[0]).acquire()
					except (pg_exc.Error, pg_exc.Exception) as e: res2.append(e)
				res2 = []
				t2 = threading.Thread(target=circle, daemon=True); t2.start()
				t0 = time.monotonic()
				while not mon.waits(a_pid) and t2.is_alive() and time.monotonic() - t0 < 60: time.sleep(.005)
				# one that only waits never looks again: cancel it as the deadlock detector would
				mon.db.prepare('SELECT pg_cancel_backend($1)').first(bpid)
		t.join(120)
		if not ctx.expect(res, 'blocked-forever', 'still waiting after %s' % kind, case): continue
		v = res[0]
		success = kind in ('release', 'close') or (kind == 'deadlock' and pos == 0)
		if success: ctx.expect(v is True, 'blocking-result', repr(v), case)
		else:
			ctx.expect(isinstance(v, pg_exc.Error), 'wait-failed-silently', repr(v), case)
			want_code = '55P03' if kind.startswith('timeout') else '57014'
			ctx.expect(getattr(v, 'code', None) == want_code, 'failure-reported', 'a wait that ended by %s was reported as %r (%s)' % (kind, v, getattr(v, 'code', None)), case)
		got = {x for x in mon.held() if x[0] == bpid}
		want = {(bpid, key(i), mode) for i in ids} if success else set(base)
		ctx.expect(l.locked() is success, 'locked-differs', 'locked() is %r after %r' % (l.locked(), v), case)
		if xact is not None: xact.rollback()
		got = {x for x in mon.held() if x[0] == bpid}
		mech = 'held-differ' if success else 'failed-acquire-in-block' if xact is not None else 'failed-acquire'
		ctx.expect(got == want, mech, 'after acquire() gave %r the session holds %r, %r expected' % (v, sorted(got), sorted(want)), case)
		ctx.count('blocking:' + kind); ctx.count('waited')
		if success:
			l.release()
			got = {x for x in mon.held() if x[0] == bpid}
			ctx.expect(got == set(base), 'held-differ', 'after release() the session holds %r' % sorted(got), case)
		elif got == want:
			# the object is as usable as before
			b.execute("SET lock_timeout = 0")
			if kind == 'deadlock' and pos: t2.join(60); a.close()
			else: h.release()
			t0 = time.monotonic()
			while any(x[0] != bpid for x in mon.held()) and kind == 'deadlock' and time.monotonic() - t0 < 60: time.sleep(.01)
			ctx.expect(l.acquire(blocking=False) is True, 'unusable', 'cannot acquire after a failure', case)
			l.release()
		for x in (a_pid, bpid): mon.db.prepare('SELECT pg_terminate_backend(pid) FROM pg_stat_activity WHERE pid = $1').first(x)
		for x in (a, b):
			try: x.close()
			except (pg_exc.Error, pg_exc.Exception): pass
		t0 = time.monotonic()
		while mon.held() and time.monotonic() - t0 < 60: time.sleep(.01)
		ctx.case(('blocking', k), nontrivial=True, sample=case)

def main(ctx):
	with ctx.step('histories', None, ctx.scale(250, 2400)): histories(ctx, ctx.scale(90, 2500))
	with ctx.step('concurrent acquisitions', None, ctx.scale(250, 2400)): exclusion(ctx, ctx.scale(60, 1500))
	with ctx.step('contended acquisitions', None, ctx.scale(250, 2400)): blocking(ctx, ctx.scale(60, 700))
	ctx.rule = 'a history of acquisitions whose held locks were compared after every operation, or a contended acquisition'
	ctx.require('states', 'contended', 'probes', 'waited', 't:acquired', 'closed')
