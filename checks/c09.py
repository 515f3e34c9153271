"""
C09: operations of every kind struck at a chosen socket operation by a cancel request
or a client-side exception, fed from failing sources, or abandoned half way; later
operations on the same connection are the witnesses.  All values carry a marker that
is unique to the operation that asked for them.
"""
import gc, itertools, os, socket, struct
from vf import pq, sock

class Strike(BaseException): pass          # like KeyboardInterrupt
class StrikeExc(Exception): pass
class StrikeOS(TimeoutError): pass         # what many alarm handlers raise

class P(sock.Policy):
	def __init__(self, r): self.r, self.n, self.at, self.action, self.fired, self.small = r, 0, None, None, False, False
	def arm(self, at, action, only=None): self.n, self.at, self.action, self.fired, self.only = 0, at, action, False, only
	def disarm(self): self.at = None; n, self.n = self.n, 0; return n
	def chunk(self, n): return self.r.choice((1, 5, 6, 50, 1000, n)) if self.small else n
	def before(self, what):
		self.n += 1
		if self.at is not None and self.n >= self.at:
			self.at = None; self.fired = True; self.action()

class Env:
	def __init__(self, ctx, r):
		self.ctx, self.r, self.uid = ctx, r, 0
		self.connect()
	def connect(self):
		tls = self.r.random() < .2; self.ctx.count('sessions over tls', tls)
		co = self.ctx.connector(settings=dict(client_min_messages='ERROR'), tls=tls)
		self.policy = P(self.r); self.policy.tls = tls
		self.made = sock.wrap(co, lambda: self.policy)
		self.db = co(); self.db.connect()
		self.db.execute('CREATE TEMP TABLE vf9 (m int8, i int4, t text); CREATE TEMP TABLE vf9c (m int8, i int4)')
		self.sts = {}
		self.leftover = []
	def st(self, sql):
		if sql not in self.sts or self.r.random() < .1: self.sts[sql] = self.db.prepare(sql)
		return self.sts[sql]
	def mark(self): self.uid += 1; return self.uid * 1000000
	def cancel(self):
		"""returns once the server has delivered the cancel"""
		s = socket.create_connection(('127.0.0.1', self.ctx.port))
		s.sendall(struct.pack('!IIII', 16, 80877102, self.db.pq.backend_id & 0xffffffff, self.db.pq.key & 0xffffffff))
		while s.recv(10): pass
		s.close()

# ---- operations: (env, got) appends to got; returns the complete expected list
# PAUSE lets the server be still at work when a cancel strikes
SLOW = "CASE WHEN i = $3 THEN pg_sleep(0.02) END IS NULL"
def q_rows(e, n): return "SELECT $1::int8 + i AS v, repeat('x', 20) FROM generate_series(1, $2::int4) g(i) WHERE (CASE WHEN i = $3::int4 THEN pg_sleep(0.03)::text ELSE '' END) = ''"
def exp_rows(m, n): return [(m + i, 'x' * 20) for i in range(1, n + 1)]
def params(e, n): return (e.mark(), n, e.r.choice((0, 1, n // 2, n)))

def op_call(e, got):
	n = e.r.choice((0, 1, 3, 300)); p = params(e, n)
	got.extend(map(tuple, e.st(q_rows(e, n))(*p))); return exp_rows(p[0], n)
def op_rows(e, got):
	n = e.r.choice((1, 5, 4096, 4097, 9000)); p = params(e, n)
	for x in e.st(q_rows(e, n)).rows(*p): got.append(tuple(x))
	return exp_rows(p[0], n)
def op_rows_xact(e, got):
	n = e.r.choice((1, 5, 4096, 4097, 9000)); p = params(e, n)
	with e.db.xact():
		for x in e.st(q_rows(e, n)).rows(*p): got.append(tuple(x))
	return exp_rows(p[0], n)
def op_chunks(e, got):
	n = e.r.choice((1, 5, 5000)); p = params(e, n)
	for c in e.st(q_rows(e, n)).chunks(*p): got.extend(map(tuple, c))
	return exp_rows(p[0], n)
def op_column(e, got):
	n = e.r.choice((2, 4200)); p = params(e, n)
	with e.db.xact():
		for v in e.st(q_rows(e, n)).column(*p): got.append(v)
	return [x[0] for x in exp_rows(p[0], n)]
def op_first(e, got):
	s = e.st('SELECT $1::int8 + 1'); w = []
	for _ in range(4):
		m = e.mark(); got.append(s.first(m)); w.append(m + 1)
	return w
def op_cursor(e, got):
	n = 60; p = params(e, n)
	with e.db.xact():
		c = e.st(q_rows(e, n)).declare(*p)
		for k in (7, 1, 20): got.extend(map(tuple, c.read(k)))
		c.seek(50); got.extend(map(tuple, c.read(5)))
		c.close()
	w = exp_rows(p[0], n); return w[:28] + w[50:55]
def op_execute(e, got):
	m = e.mark()
	e.db.execute('DELETE FROM vf9; INSERT INTO vf9 SELECT %d, i, pg_sleep(0.001)::text FROM generate_series(1, 20) g(i); SELECT * FROM vf9' % m)
	got.append(tuple(e.db.query.first('SELECT min(m), max(m), count(*) FROM vf9'))); return [(m, m, 20)]
def op_load(e, got):
	m = e.mark()
	e.st('INSERT INTO vf9 VALUES ($1, $2, $3)').load_rows(((m, i, 'z') for i in range(700)))
	got.append(e.db.query.first('SELECT count(*) FROM vf9 WHERE m = %d' % m)); return [700]
def op_copyin(e, got):
	m = e.mark()
	e.st('COPY vf9c FROM STDIN').load_rows((b'%d\t%d\n' % (m, i) for i in range(900)))
	got.append(e.db.query.first('SELECT count(*) FROM vf9c WHERE m = %d' % m)); return [900]
def op_copyout(e, got):
	m = e.mark()
	for x in e.db.prepare('COPY (SELECT %d, i FROM generate_series(1, 2000) g(i)) TO STDOUT' % m).rows(): got.append(bytes(x))
	return [b'%d\t%d\n' % (m, i) for i in range(1, 2001)]
def op_prepare(e, got):
	w = []
	for _ in range(3):
		m = e.mark(); got.append(e.db.prepare("SELECT %d::int8, $1::text" % m).first('p')); w.append((m, 'p'))
	got[:] = [tuple(x) for x in got]; return w
def op_proc(e, got):
	m = e.mark()
	for x in e.db.proc('generate_series(int8,int8)')(m, m + 30): got.append(x)
	return list(range(m, m + 31))
def op_settings(e, got):
	m = e.mark()
	e.db.settings['application_name'] = str(m); e.db.settings.cache.pop('application_name', None)
	got.append(e.db.settings['application_name']); return [str(m)]
def op_xact(e, got):
	m = e.mark()
	with e.db.xact():
		e.st('INSERT INTO vf9 VALUES ($1, $2, $3)')(m, 1, None)
		with e.db.xact(): e.st('INSERT INTO vf9 VALUES ($1, $2, $3)')(m, 2, None)
	got.append(e.db.query.first('SELECT count(*) FROM vf9 WHERE m = %d' % m)); return [2]
def op_notify(e, got):
	m = e.mark()
	e.db.listen('vf9n'); e.db.notify(vf9n=str(m))
	got.extend(p for ch, p, _ in list(itertools.takewhile(lambda x: x is not None, e.db.iternotifies(0))) if p == str(m)); return [str(m)]
def op_trash(e, got):
	for i in range(5):
		m = e.mark(); s = e.db.prepare('SELECT %d::int8' % m); s.declare(); del s
	gc.collect(); m = e.mark()
	got.append(e.db.query.first('SELECT %d::int8' % m)); return [m]
OPS = [(k[3:], v) for k, v in sorted(globals().items()) if k.startswith('op_')]

# ---- failing sources: raise something of their own
class Boom(Exception): pass
def src(e, rows, at, exc):
	for i, x in enumerate(rows):
		if i == at: raise exc
		yield x
def fl_load(e):
	m, at = e.mark(), e.r.choice((0, 1, 255, 256, 257, 600))
	e.st('INSERT INTO vf9 VALUES ($1, $2, $3)').load_rows(src(e, ((m, i, 'z') for i in range(700)), at, e.exc))
def fl_load_bad(e):
	m, at = e.mark(), e.r.choice((0, 1, 255, 256, 257, 600))
	e.st('INSERT INTO vf9 VALUES ($1, $2, $3)').load_rows([(m, i if i != at else 2**40, 'z') for i in range(700)])
def fl_load_arity(e):
	m, at = e.mark(), e.r.choice((0, 1, 256, 300))
	e.st('INSERT INTO vf9 VALUES ($1, $2, $3)').load_rows([(m, i, 'z') if i != at else (m, i) for i in range(700)])
def fl_load_server(e):
	m, at = e.mark(), e.r.choice((0, 1, 255, 256, 257, 600))
	e.st('INSERT INTO vf9 VALUES ($1, 1 / $2::int4, $3)').load_rows([(m, i - at, 'z') for i in range(700)])
def fl_copy(e):
	m, at = e.mark(), e.r.choice((0, 1, 255, 256, 257, 600))
	e.st('COPY vf9c FROM STDIN').load_rows(src(e, (b'%d\t%d\n' % (m, i) for i in range(900)), at, e.exc))
def fl_copy_type(e):
	m, at = e.mark(), e.r.choice((0, 1, 255, 256, 257, 600))
	e.st('COPY vf9c FROM STDIN').load_rows([b'%d\t%d\n' % (m, i) if i != at else e.r.choice(('str', 5, None)) for i in range(900)])
def fl_copy_server(e):
	m, at = e.mark(), e.r.choice((0, 1, 255, 256, 257, 890))
	e.st('COPY vf9c FROM STDIN').load_rows([b'%d\t%d\n' % (m, i) if i != at else b'bad line\n' for i in range(900)])
def fl_copy_chunks(e):
	m = e.mark()
	e.st('COPY vf9c FROM STDIN').load_chunks(src(e, [[b'%d\t%d\n' % (m, i)] for i in range(9)], e.r.randrange(9), e.exc))
def fl_not_copy(e): e.st('SELECT 1').load_rows([b'x\n'])
def fl_copyout_load(e): e.st('COPY vf9c TO STDOUT').load_rows([b'x\n'])
def fl_param(e): e.st('SELECT $1::int4 + $2::int4')(1, e.r.choice(('x', 2**40, [])))
def fl_arity(e): e.st('SELECT $1::int4 + $2::int4')(1)
def fl_decode(e):
	# a value that has no client counterpart, in the middle of a result
	s = e.db.prepare("SELECT CASE WHEN i = 5 THEN 'infinity'::timestamp ELSE '2000-01-01'::timestamp END - interval '1 s', CASE WHEN i = %d THEN date '5000000-01-01' ELSE date '2000-01-01' END FROM generate_series(1,%d) g(i)" % (e.r.choice((1, 50, 99)), 100))
	k = e.r.randrange(4)
	if k == 0: s()
	elif k == 1: list(s.rows())
	elif k == 2:
		with e.db.xact(): list(s.rows())
	else:
		with e.db.xact(): s.declare().read(100)
def fl_server(e):
	k = e.r.randrange(5)
	if k == 0: e.st('SELECT 10 / (5 - i) FROM generate_series(1,10) g(i)')()
	elif k == 1: list(e.st('SELECT 10 / (5 - i) FROM generate_series(1,10) g(i)').rows())
	elif k == 2: e.db.execute('SELECT 1; SELECT 1/0; SELECT 2')
	elif k == 3: e.db.prepare('SYNTAX')
	else:
		with e.db.xact(): e.db.query('SELECT 1/0')
def fl_timeout(e):
	with e.db.xact():
		e.db.execute('SET LOCAL statement_timeout = 20')
		k = e.r.randrange(3)
		if k == 0: e.db.query('SELECT pg_sleep(3)')
		elif k == 1: list(e.db.prepare('SELECT i, pg_sleep(0.005) FROM generate_series(1,1000) g(i)').rows())
		else: e.db.prepare('INSERT INTO vf9 SELECT 1, $1::int4, CASE WHEN $1::int4 = 700 THEN pg_sleep(3) END::text').load_rows([(i,) for i in range(1000)])
FAILS = [(k[3:], v) for k, v in sorted(globals().items()) if k.startswith('fl_')]

# ---- abandonment: leaves something unfinished; e.leftover holds (iterator, expected remainder)
def ab_rows(e):
	n = e.r.choice((10, 4096, 9000, 20000)); p = params(e, n)
	it = iter(e.st(q_rows(e, n)).rows(*p)); k = e.r.choice((0, 1, 4095, 4096, 4097, 5000)); k = min(k, n)
	got = [tuple(x) for x in itertools.islice(it, k)]
	return it, exp_rows(p[0], n), got
def ab_chunks(e):
	n = 9000; p = params(e, n)
	it = e.st(q_rows(e, n)).chunks(*p); got = [tuple(x) for x in next(it)] if e.r.random() < .6 else []
	return (tuple(x) for c in it for x in c), exp_rows(p[0], n), got
def ab_copyout(e):
	m, n = e.mark(), e.r.choice((5, 3000))
	it = iter(e.db.prepare('COPY (SELECT %d, i FROM generate_series(1, %d) g(i)) TO STDOUT' % (m, n)).rows()); k = e.r.choice((0, 1, 3))
	got = [bytes(x) for x in itertools.islice(it, k)]
	return it, [b'%d\t%d\n' % (m, i) for i in range(1, n + 1)], got
def ab_proc(e):
	m = e.mark(); it = iter(e.db.proc('generate_series(int8,int8)')(m, m + 5000))
	got = list(itertools.islice(it, e.r.choice((0, 1, 100))))
	return it, list(range(m, m + 5001)), got
def ab_single(e):
	p = params(e, 200); it = e.st(q_rows(e, 0)).chunks(*p)
	return (tuple(x) for c in it for x in c), exp_rows(p[0], 200), []
ABS = [(k[3:], v) for k, v in sorted(globals().items()) if k.startswith('ab_')]

def witness(ctx, e, what, case, pending):
	"""later operations: only the first may be told the fate of an operation that was left unfinished"""
	import postgresql.exceptions as x
	ops = e.r.sample([o for o in OPS if o[0] not in ('rows', 'rows_xact', 'column', 'chunks')], 2) + e.r.sample(OPS, 1)
	if e.db.pq.state != b'I' or pending:
		ops = [('rollback', None)] + ops
	first = True
	for name, f in ops:
		got = []
		with ctx.step('after %s: %s' % (what, name), case):
			try:
				if f is None:
					if e.db.pq.state != b'I' or pending: e.db.execute('ROLLBACK')
					want = got
				else: want = f(e, got)
			except x.Error as ex:
				if first and pending: ctx.count('pending-error'); e.db.execute('ROLLBACK'); first = False; continue
				ctx.violation('witness:%s' % what.split(':')[0], 'after %s, %s raised %s: %s' % (what, name, type(ex).__name__, str(ex)[:600]), case); return False
			except Exception as ex:
				import traceback
				ctx.violation('witness-raw:%s:%s' % (what.split(':')[0], type(ex).__name__), 'after %s, %s raised %s: %s\n%s' % (what, name, type(ex).__name__, ex, traceback.format_exc()[-1500:]), case); return False
		if got != want:
			ctx.violation('witness-result:%s' % what.split(':')[0], 'after %s, %s returned %r instead of %r' % (what, name, got[:20], want[:20]), case); return False
		first = False
		ctx.count('witnesses')
	if e.db.closed: ctx.violation('closed:%s' % what.split(':')[0], 'after %s the connection is closed' % what, case); return False
	return True

def prefix(got, want): return got == want[:len(got)]

def struck(ctx, e, kind, name, f, case):
	import postgresql.exceptions as x
	r, pol = e.r, e.policy
	# how many socket operations it takes
	state = r.getstate()
	pol.arm(None, None); f(e, []); total = pol.disarm()
	at = r.choice((1, 2, r.randint(1, max(1, total)), r.randint(1, max(1, total)), max(1, total)))
	case['at'], case['of'] = at, total
	exc = dict(interrupt=Strike('strike'), exception=StrikeExc('strike'), oserror=StrikeOS('strike')).get(kind)
	def fire():
		if kind == 'cancel': e.cancel()
		elif kind == 'db.interrupt': e.db.interrupt()
		else: raise exc
	got, err = [], None
	want = None
	case['at'] = at
	state2 = r.getstate(); r.setstate(state)
	uid = e.uid
	pol.arm(at, fire)
	with ctx.step('struck ' + name, case):
		try: want = f(e, got)
		except x.Error as ex: err = ex
		except (Strike, StrikeExc, StrikeOS) as ex: err = ex
		except Exception as ex:
			import traceback
			ctx.violation('struck-raw:%s:%s' % (kind, type(ex).__name__), '%s struck by %s raised %s: %s\n%s' % (name, kind, type(ex).__name__, ex, traceback.format_exc()[-1500:]), case); err = ex
	fired = pol.fired; pol.disarm(); r.setstate(state2)
	ctx.count('struck:' + kind) if fired else ctx.count('missed')
	# what was expected of the operation: the same operation on a fresh range
	e2 = uid
	if err is None:
		if got != want: ctx.violation('struck-result:' + kind, '%s struck by %s completed with %r instead of %r' % (name, kind, got[:20], want[:20]), case)
		ctx.count('completed')
	else:
		lo = (uid + 1) * 1000000
		bad = [v for v in got if isinstance(v, tuple) and isinstance(v[0], int) and v[0] > 100000 and not lo <= v[0]]
		if bad: ctx.violation('struck-leftover', '%s delivered data of an earlier operation: %r' % (name, bad[:5]), case)
		vs = [v for v in got if isinstance(v, tuple)]
		if vs and name in ('rows', 'rows_xact', 'chunks', 'call') and [v[0] - lo for v in vs] != list(range(1, len(vs) + 1)):
			ctx.violation('struck-rows', '%s delivered %r before failing' % (name, vs[:20]), case)
		if kind in ('cancel', 'db.interrupt') and getattr(err, 'code', None) not in ('57014',): ctx.violation('struck-error', '%s cancelled, raised %s: %s' % (name, type(err).__name__, str(err)[:500]), case)
		ctx.count('failed')
	if kind == 'exception' and e.db.closed:
		# treated as a failure of the connection: refuses everything
		ctx.count('connection-given-up')
		for q in (lambda: e.db.query('SELECT 1'), lambda: e.db.execute('SELECT 1')):
			try: q(); ctx.violation('given-up', 'a closed connection answered', case)
			except x.Error: pass
		e.db.close(); e.connect(); return True
	return witness(ctx, e, '%s struck by %s' % (name, kind), case, pending=err is not None and kind not in ('cancel', 'db.interrupt'))

def main(ctx):
	import postgresql.exceptions as x
	ctx.rule = 'one case per (operation, kind of strike, socket operation struck), failing source or abandonment, each followed by three witnesses'
	kinds = ['cancel', 'db.interrupt', 'interrupt', 'exception', 'oserror']
	ctx.require('completed', 'failed', 'witnesses', 'resumed', 'dropped', *['struck:' + k for k in kinds], *['fail:' + n for n, _ in FAILS], *['abandon:' + n for n, _ in ABS])
	r = ctx.rng('main')
	e = Env(ctx, r)
	budget = ctx.scale(50, 1500)
	todo = []
	for _ in range(ctx.scale(6, 400)):
		for n, f in OPS:
			for k in kinds: todo.append(('struck', k, n, f))
	fails = [('fail', None, n, f) for n, f in FAILS for _ in range(ctx.scale(4, 200))] + [('abandon', None, n, f) for n, f in ABS for _ in range(ctx.scale(10, 400))]
	r.shuffle(todo); r.shuffle(fails)
	# mixed so that every kind is reached early
	seq = list(itertools.chain.from_iterable(itertools.zip_longest(fails, todo[0::3], todo[1::3], todo[2::3])))
	used = 0
	for job in seq:
		if job is None: continue
		if ctx.elapsed() > budget: break
		what, kind, name, f = job
		used += 1
		if used > 25 or e.db.closed:
			e.db.close(); e.connect(); used = 0
		e.policy.small = r.random() < .15
		case = dict(what=what, kind=kind, operation=name, seed=ctx.seed, n=ctx.evaluations)
		if what == 'struck':
			ok = struck(ctx, e, kind, name, f, case)
			ctx.case((what, kind, name, case.get('at'), case.get('of')), sample=case)
		elif what == 'fail':
			e.exc = r.choice((Boom('boom'), Strike('boom'), KeyError('boom'), OSError('boom')))
			inx = r.random() < .3 and name not in ('timeout',)
			case['exc'] = repr(e.exc); case['in-xact'] = inx
			err = None
			with ctx.step('fail ' + name, case):
				try:
					if inx:
						with e.db.xact(): f(e)
					else: f(e)
				except BaseException as ex: err = ex
			if err is None: ctx.violation('fail-silent:' + name, '%s raised nothing' % name, case)
			elif name in ('load', 'copy', 'copy_chunks'):
				if err is not e.exc: ctx.violation('fail-exception:' + name, 'the exception of the row source came out as %r' % err, case)
			elif not isinstance(err, (x.Error, TypeError, ValueError)) and not (name == 'copy_type' and isinstance(err, AttributeError)): ctx.violation('fail-raw:%s:%s' % (name, type(err).__name__), '%s: %s' % (type(err).__name__, err), case)
			ctx.count('fail:' + name); ctx.case((what, name, repr(err)[:60], inx), sample=case)
			ok = witness(ctx, e, 'failing %s' % name, case, False)
		else:
			drop = r.random() < .4
			ctx.count('abandon:' + name); ctx.case((what, name, drop, e.uid), sample=case)
			inx = r.random() < .4
			blk = e.db.xact() if inx else None
			try:
				if inx: blk.start()
				with ctx.step('abandon ' + name, case): it, want, got = f(e)
				if not prefix(got, want): ctx.violation('abandon-prefix', '%s delivered %r of %r' % (name, got[:10], want[:10]), case)
				if drop:
					del it; ctx.count('dropped')
					if inx: blk.rollback()
					ok = witness(ctx, e, 'dropping %s' % name, case, False)
				else:
					if inx and r.random() < .5: blk.rollback(); inx = False; ended = True
					else: ended = False
					m = e.mark()
					with ctx.step('between ' + name, case):
						v = e.db.query.first('SELECT %d::int8' % m)
					if v != m: ctx.violation('abandon-between', 'with %s open, got %r instead of %r' % (name, v, m), case)
					with ctx.step('resume ' + name, case):
						try: rest = [tuple(y) if isinstance(y, tuple) else bytes(y) if isinstance(y, (bytes, bytearray)) else y for y in it]
						except x.Error as ex:
							if not ended: ctx.violation('abandon-resume', 'resuming %s raised %s' % (name, str(ex)[:600]), case)
							rest = None
					if rest is not None:
						if got + rest != want: ctx.violation('abandon-rest', 'resumed %s delivered %d + %d rows of %d, %r' % (name, len(got), len(rest), len(want), rest[:5]), case)
						ctx.count('resumed')
					if inx: blk.rollback()
					ok = witness(ctx, e, 'resuming %s' % name, case, rest is None)
			except x.Error as ex:
				ctx.violation('abandon-error', '%s: %s' % (name, str(ex)[:800]), case); ok = False
		if not ok:
			try: e.db.close()
			except Exception: pass
			e.connect(); used = 0
	e.db.close()
