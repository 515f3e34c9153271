"""
C06: sessions whose server stream ends, resets or breaks the protocol at a chosen
byte or message.  Oracle: the undisturbed run of the same scenario.
"""
import decimal, itertools, socket, struct, threading
from vf import pq, sock

class Cut(sock.Policy):
	def __init__(self, at, how): self.cut_at, self.cut_how = at, how

class Meter(sock.Policy):
	"""records the message boundaries of the stream"""
	def __init__(self): self.bounds, self.pos, self.types, self.marks = [0], 0, [], {}
	def messages(self, t, body):
		self.pos += 5 + len(body); self.bounds.append(self.pos); self.types.append(t)
		yield t, body

class Corrupt(sock.Policy):
	"""replaces the i-th backend message by something the protocol does not allow there"""
	def __init__(self, i, what): self.i, self.what, self.n, self.done = i, what, 0, None
	def messages(self, t, body):
		n, self.n = self.n, self.n + 1
		if n != self.i: yield t, body; return
		self.done = (t, self.what)
		w = self.what
		if w == 'unknown-type': yield pq.frame(b'y', body)
		elif w == 'high-type': yield pq.frame(b'\xc3', body)
		elif w == 'short-length': yield t + pq.u32(self.n % 4) + body
		elif w == 'frontend-type': yield pq.frame(b'Q', b'SELECT 1\0')
		elif w == 'insert-unknown': yield pq.frame(b'=', b'abc'); yield t, body
		elif w == 'insert-auth': yield pq.frame(b'R', b'\0\0\0\0') ; yield t, body
		elif w == 'insert-key': yield pq.key(1, 2); yield t, body
		elif w == 'empty-error': yield pq.frame(b'E', b'\0')
		elif w == 'body':
			if t == b'D': yield t, (b'\0\x09' + body[2:] if self.i % 3 == 0 else body + b'\0' if self.i % 3 == 1 else body[:-1] if len(body) > 2 else b'\0')
			elif t == b'T': yield t, b'\0\x20' + body[2:]
			elif t == b't': yield t, b'\0\x07' + body[2:] + b'\1'
			elif t == b'R': yield t, body[:2]
			elif t == b'K': yield t, body[:5]
			elif t in (b'G', b'H'): yield t, body[:1]
			else:
				self.done = None
				yield t, body
		else: raise ValueError(w)

KINDS = ['unknown-type', 'high-type', 'short-length', 'frontend-type', 'insert-unknown', 'insert-auth', 'insert-key', 'empty-error', 'body', 'body', 'body']

def rows_list(it): return [tuple(x) if isinstance(x, tuple) else x for x in it]

def sc_connect(db, st): return db.query.first('SELECT 1')
def sc_call(db, st): return rows_list(db.prepare("SELECT i, repeat('x', i) FROM generate_series(1,40) g(i)")())
def sc_call_big(db, st): return rows_list(db.prepare("SELECT i, repeat('x', 30) FROM generate_series(1,3000) g(i)")())
def sc_rows(db, st): return rows_list(db.prepare("SELECT i, i*2 FROM generate_series(1,9000) g(i)").rows())
def sc_rows_xact(db, st):
	with db.xact(): return rows_list(db.prepare("SELECT i, i*2 FROM generate_series(1,9000) g(i)").rows())
def sc_column(db, st):
	with db.xact(): return list(db.prepare("SELECT i FROM generate_series(1,4100) g(i)").column())
def sc_first(db, st): return [db.prepare('SELECT $1::int4 + 1').first(i) for i in range(5)]
def sc_execute(db, st):
	db.execute('CREATE TEMP TABLE vf1 (i int4); INSERT INTO vf1 SELECT generate_series(1,10); SELECT * FROM vf1')
	return db.query.first('SELECT count(*) FROM vf1')
def sc_load(db, st):
	db.execute('CREATE TEMP TABLE vf2 (i int4, t text)')
	db.prepare('INSERT INTO vf2 VALUES ($1,$2)').load_rows([(i, 'x' * i) for i in range(600)])
	return tuple(db.query.first('SELECT count(*), sum(i), sum(length(t)) FROM vf2'))
def sc_copyin(db, st):
	db.execute('CREATE TEMP TABLE vf3 (i int4)')
	db.prepare('COPY vf3 FROM STDIN').load_rows([b'%d\n' % i for i in range(700)])
	return tuple(db.query.first('SELECT count(*), sum(i) FROM vf3'))
def sc_copyout(db, st): return list(db.prepare('COPY (SELECT i FROM generate_series(1,3000) g(i)) TO STDOUT').rows())
def sc_copyout_chunks(db, st): return [x for c in db.prepare("COPY (SELECT i, repeat('y',20) FROM generate_series(1,200) g(i)) TO STDOUT").chunks() for x in c]
def sc_cursor(db, st):
	with db.xact():
		c = db.prepare('SELECT i FROM generate_series(1,100) g(i)').declare()
		out = [rows_list(c.read(7)), c.seek(50), rows_list(c.read(3)), rows_list(c.read(2, 'BACKWARD'))]
		c.close()
	return out
def sc_xact(db, st):
	with db.xact():
		db.execute('CREATE TEMP TABLE vf4 (i int4)')
		with db.xact(): db.prepare('INSERT INTO vf4 VALUES ($1)')(4)
	return db.query.first('SELECT count(*) FROM vf4')
def sc_settings(db, st):
	db.settings['work_mem'] = '5MB'
	with db.settings(work_mem='6MB'): a = db.settings['work_mem']
	return a, db.settings['work_mem'], len(dict(db.settings.items())) > 100
def sc_proc(db, st): return [db.proc('lower(text)')('ABC'), list(db.proc('generate_series(int,int)')(1, 30))]
def sc_types(db, st):
	db.execute('CREATE TYPE pg_temp.vfp AS (a int4, b text)')
	return [repr(db.query.first("SELECT ROW(1,'z')::pg_temp.vfp")), repr(db.query.first("SELECT ARRAY[1,2,NULL]::int8[]")), db.query.first("SELECT '1.5'::numeric") == decimal.Decimal('1.5')]
def sc_notify(db, st):
	db.listen('vfc'); db.notify('vfc'); db.notify(vfc='p')
	return [(n[0], n[1]) for n in itertools.takewhile(lambda n: n is not None, db.iternotifies(0))]
def sc_error(db, st):
	import postgresql.exceptions as x
	out = []
	for q in ('SELECT 1/0', 'BAD', 'SELECT 1'):
		try: out.append(db.prepare(q)())
		except x.ZeroDivisionError: out.append('zero')
		except x.SyntaxError: out.append('syntax')
	return repr(out)
def sc_copyman(db, st):
	from postgresql import copyman
	db.execute('CREATE TEMP TABLE vf6 AS SELECT generate_series(1,500) i; CREATE TEMP TABLE vf7 (i int4)')
	s = db.prepare('COPY vf6 TO STDOUT')
	got = []
	with copyman.CopyManager(copyman.StatementProducer(s), copyman.CallReceiver(lambda b: got.extend(bytes(x) for x in b))) as m:
		for n in m: pass
	return b''.join(got)

SCENARIOS = [(k[3:], v) for k, v in sorted(globals().items()) if k.startswith('sc_')]

def later(db, st):
	"""operations that must all be refused on a lost connection"""
	yield 'query', lambda: db.query('SELECT 1')
	yield 'execute', lambda: db.execute('SELECT 1')
	yield 'statement', lambda: st['ps']()
	yield 'statement.first', lambda: st['ps'].first()
	yield 'statement.rows', lambda: list(st['ps'].rows())
	yield 'load_rows', lambda: st['ins'].load_rows([(1,), (2,)])
	yield 'xact', lambda: db.xact().start()
	yield 'settings', lambda: db.settings['vacuum_cost_limit']
	yield 'proc', lambda: db.proc('lower(text)')('A')
	yield 'cursor', lambda: st['cur'].read(3)
	yield 'copy', lambda: list(st['copy'].rows())
	yield 'notify', lambda: db.notify('x')
	yield 'connect', lambda: db.connect()

def run(ctx, name, f, policy, sslmode='disable', base=None, kind=None):
	import postgresql.exceptions as x
	from postgresql import copyman
	first = [policy]
	co = ctx.connector(sslmode=sslmode)
	made = sock.wrap(co, lambda: first.pop() if first else None)
	db = co()
	st = {}
	stage = 'connect'
	case = dict(scenario=name, cut=getattr(policy, 'cut_at', None), how=getattr(policy, 'cut_how', None), corrupt=getattr(policy, 'what', None), message=getattr(policy, 'i', None), seed=ctx.seed, sslmode=sslmode)
	def bad(mech, d): ctx.violation(mech, '%s at %s: %s' % (name, {k: v for k, v in case.items() if v is not None}, d), case)
	result = err = None
	step = ctx.step(name, case)
	with step:
		try:
			db.connect()
			if name != 'connect':
				st['ps'] = db.prepare('SELECT 1'); st['ins'] = db.prepare('INSERT INTO vf_ins VALUES ($1)'); st['copy'] = db.prepare('COPY vf_ins TO STDOUT')
				st['cur'] = db.prepare('SELECT 1').declare()
			stage = 'operation'
			st['at'] = getattr(getattr(policy, 'socket', None), 'delivered', 0)
			if isinstance(policy, Meter): policy.marks['op'] = len(policy.types); policy.marks['at'] = policy.pos
			result = f(db, st)
		except x.Error as e: err = e
		except copyman.CopyFail as e: err = e # the documented way a CopyManager fails
		except Exception as e:
			import traceback
			bad('raw-exception:%s:%s' % (stage, type(e).__name__), 'raised %s: %s, which is no database error\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:])); err = e
	if base is None: return result, db, made
	ctx.count('runs')
	disturbed = (policy.cut_at is not None and made and getattr(made[0], 'cut', False)) or getattr(policy, 'done', None)
	if err is None:
		if result != base: bad('wrong-result', 'returned %r instead of %r without an error' % (str(result)[:300], str(base)[:300]))
		if getattr(policy, 'done', None): bad('violation-accepted', 'the server broke the protocol (%r), yet the operation completed' % (policy.done,))
		ctx.count('completed')
	else: ctx.count('failed:' + stage)
	if disturbed:
		ctx.count('disturbed'); ctx.count('kind:' + (kind or policy.cut_how))
		if err is not None and not db.closed: bad('not-closed', 'after %s the connection does not report itself closed' % type(err).__name__)
		# every further operation fails with a database error
		ops = list(later(db, st))
		if not st.get('cur'): ops = [o for o in ops if o[0] in ('query', 'execute', 'xact', 'settings', 'proc', 'notify', 'connect')]
		for label, op in ops:
			with ctx.step('later ' + label, case):
				try: v = op()
				except x.Error: ctx.count('refused')
				except Exception as e:
					import traceback
					bad('later-raw:%s:%s' % (label, type(e).__name__), 'a later %s raised %s: %s, which is no database error\n%s' % (label, type(e).__name__, e, traceback.format_exc()[-1500:]))
				else:
					bad('later-success:' + label, 'a later %s returned %r on a lost connection' % (label, v))
			if not db.closed and label != 'connect': bad('not-closed-later', 'after a failed later %s the connection does not report itself closed' % label)
	st.clear()
	with ctx.step('close', case):
		try: db.close()
		except Exception as e: bad('close-raises', 'close() raised %s: %s' % (type(e).__name__, e))
	if not db.closed: bad('not-closed-close', 'closed is false after close()')
	for s in made:
		if not (getattr(s, 'closed', None) or getattr(s, '_closed', None) or s.fileno() == -1): bad('socket-leak', 'a socket of the connection was left open')
	if disturbed:
		with ctx.step('reconnect', case):
			db2 = co(); db2.connect()
			if db2.query.first('SELECT 7') != 7: bad('reconnect', 'wrong result')
			db2.close(); ctx.count('reconnected')

class Ordered(sock.Policy):
	"""the connection is lost at the k-th message after it was armed"""
	def __init__(self, how): self.cut_how, self.left = how, None
	def chunk(self, n): return 4096
	def before(self, what):
		if self.left is not None and self.left <= 0: self.socket._dead()
	def messages(self, t, body):
		if self.left is not None:
			self.left -= 1
			if self.left < 0: return
		yield t, body

class Relay:
	"""passes bytes on to the server; those of the server only up to `at`, where the connection ends or the bytes are spoilt"""
	def __init__(self, port, how, at):
		self.port, self.how, self.at, self.n, self.struck = port, how, at, 0, False
		self.l = socket.socket(); self.l.bind(('127.0.0.1', 0)); self.l.listen(8); self.addr = self.l.getsockname()[1]
		threading.Thread(target=self.accept, daemon=True).start()
	def accept(self):
		while True:
			try: c, _ = self.l.accept()
			except OSError: return
			s = socket.create_connection(('127.0.0.1', self.port))
			t = threading.Thread(target=self.up, args=(c, s), daemon=True); t.start(); threading.Thread(target=self.down, args=(c, s, t), daemon=True).start()
	def up(self, c, s):
		try:
			while True:
				d = c.recv(65536)
				if not d: break
				s.sendall(d)
		except OSError: pass
		self.end(s)
	def end(self, s):
		try: s.shutdown(socket.SHUT_RDWR)
		except OSError: pass
	def down(self, c, s, t):
		try:
			while True:
				d = s.recv(65536)
				if not d: break
				if self.at is not None and self.n + len(d) > self.at:
					k = self.at - self.n; self.at = None; self.struck = True
					threading.Timer(.3, self.end, (c,)).start() # a spoilt length waits for bytes that never come
					if self.how == 'spoilt': d = d[:k] + bytes([d[k] ^ 0x55]) + d[k + 1:]
					elif self.how == 'inserted': d = d[:k] + b'Z\0\0\0\5I' + d[k:]
					else:
						c.sendall(d[:k])
						if self.how == 'reset': c.shutdown(socket.SHUT_RD); t.join(); c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0)); c.close(); self.end(s); return
						break
				self.n += len(d); c.sendall(d)
		except OSError: pass
		self.end(c); self.end(s)
def beneath(ctx, r):
	"""the bytes that carry TLS end, or are spoilt, anywhere"""
	import postgresql.exceptions as x
	OPS = dict(query=lambda db: [tuple(t) for t in db.prepare("SELECT g, repeat('q', 300) FROM generate_series(1, 400) g")()],
		first=lambda db: db.prepare("SELECT repeat('r', 100000)").first(), execute=lambda db: db.execute('SELECT 1; SELECT 2'), copy=lambda db: b''.join(db.prepare("COPY (SELECT g, 'abcdefgh' FROM generate_series(1, 3000) g) TO STDOUT")()),
		load=lambda db: db.prepare('COPY c06b FROM STDIN').load_rows(b'%d\n' % i for i in range(3000)), block=lambda db: block(db), chunks=lambda db: [tuple(t) for c in db.prepare('SELECT g FROM generate_series(1, 5000) g').chunks() for t in c])
	def block(db):
		with db.xact(): return [db.prepare('SELECT $1::int').first(i) for i in range(5)]
	want = {}; span = {}; start = ctx.elapsed()
	for name, f in OPS.items():
		rel = Relay(ctx.port, None, None); db = ctx.connect(tls=True, port=rel.addr); db.execute('CREATE TEMP TABLE c06b (a int)'); a = rel.n; want[name] = f(db); span[name] = (a, rel.n); db.close(); rel.l.close()
	for i in range(ctx.scale(60, 1500)):
		if ctx.elapsed() - start > ctx.scale(12, 600): break
		name = r.choice(list(OPS)); how = r.choice(('eof', 'reset', 'spoilt', 'inserted')); lo, hi = span[name]; at = r.randrange(lo, hi + 1) if r.random() < .8 else r.randrange(0, lo + 1)
		rel = Relay(ctx.port, how, at); case = dict(operation=name, how=how, at=at, span=span[name]); co = ctx.connector(tls=True, port=rel.addr); db = co(); got = err = None; done = False
		def bad(mech, d): ctx.violation('beneath-tls:' + mech, '%s, %s at byte %d: %s' % (name, how, at, d), case)
		ctx.case(('beneath', name, how, at)); ctx.count('beneath tls')
		with ctx.step('beneath tls', case):
			try:
				db.connect(); db.execute('CREATE TEMP TABLE c06b (a int)'); got = OPS[name](db); done = True
			except x.Error as e: err = e
			except Exception as e: err = e; bad('raw-exception:' + type(e).__name__, 'raised %s: %.200s' % (type(e).__name__, e))
			if done:
				if got != want[name]: bad('incomplete', 'the result is not that of the server')
				ctx.count('beneath tls: complete')
			else:
				ctx.count('beneath tls: error')
				if not rel.struck: bad('error', 'raised %s: %.200s, though nothing was lost' % (type(err).__name__, err))
				if db.closed is not True: bad('open', 'the connection says it is open after %s' % type(err).__name__)
				for again in (lambda: db.execute('SELECT 1'), lambda: db.prepare('SELECT 1')):
					try: again(); bad('usable', 'a later operation succeeded')
					except x.Error: pass
					except Exception as e: bad('later-exception:' + type(e).__name__, '%s: %s' % (type(e).__name__, e))
				rel.at = None; db2 = co(); db2.connect()
				if db2.prepare('SELECT 3').first() != 3: bad('reconnected', 'wrong result')
				db2.close()
			db.close()
		rel.l.close()

def readers(ctx, r):
	"""what is partly read when the connection is lost ends with an error, or with all of it"""
	import postgresql.exceptions as x
	N = r.choice((0, 1, 5, 300, 4096, 4097, 9000, 20000)); how = r.choice(('eof', 'reset')); pol = Ordered(how); first = [pol]
	co = ctx.connector(); sock.wrap(co, lambda: first.pop() if first else None); db = co(); db.connect()
	kind = r.choice(('rows', 'chunks', 'column', 'cursor', 'cursor-iter', 'copy', 'copy-chunks', 'proc', 'settings', 'load'))
	block = r.random() < .5; q = 'SELECT g::int4 FROM generate_series(1, %d) g' % N
	case = dict(kind=kind, rows=N, block=block, how=how)
	other = r.choice(('query', 'execute', 'prepare', 'drop', 'self', 'interrupt'))
	def bad(mech, d): ctx.violation(mech, '%s of %d rows, lost in %s: %s' % (kind, N, other, d), dict(case, other=other))
	got = []; want = list(range(1, N + 1)); flat = lambda v: v
	st = db.prepare(q); side = db.prepare('SELECT 1'); ins = db.prepare('INSERT INTO vf_none SELECT $1::int4')
	if block: db.xact().start()
	if kind in ('rows', 'chunks', 'column'): it = iter(getattr(st, kind)()); flat = (lambda v: [y[0] for y in v]) if kind == 'chunks' else (lambda v: [v]) if kind == 'column' else (lambda v: [v[0]])
	elif kind in ('cursor', 'cursor-iter'):
		c = st.declare(); flat = lambda v: [y[0] for y in v]
		if kind == 'cursor':
			def reads():
				while True:
					v = c.read(700)
					if not v: return
					yield v
			it = reads()
		else: it = iter(c); flat = lambda v: [v[0]]
	elif kind.startswith('copy'):
		s = db.prepare('COPY (%s) TO STDOUT' % q); it = iter(s.rows() if kind == 'copy' else s.chunks()); flat = (lambda v: [int(v)]) if kind == 'copy' else (lambda v: [int(y) for y in v])
	elif kind == 'proc': it = iter(db.proc('generate_series(int, int)')(1, N)); flat = lambda v: [v]
	elif kind == 'settings': it = iter(db.settings.items()); flat = lambda v: [v]; want = None
	else: it = None
	with ctx.step('reader', case):
		if it is not None and kind != 'settings':
			for _ in range(r.choice((0, 1, 1, 3, 4096 if kind not in ('chunks', 'copy-chunks') else 1))):
				v = next(it, None)
				if v is None: break
				got += flat(v)
		pol.left = r.choice((0, 0, 1, 2, 3, 10)); failed = False
		ops = dict(query=lambda: side.first(), execute=lambda: db.execute('SELECT 1'), prepare=lambda: db.prepare('SELECT 2'), interrupt=lambda: [side() for _ in range(12)])
		if other in ops:
			for _ in range(30):
				try: ops[other]()
				except x.Error: failed = True; break
				except Exception as e: bad('reader-raw:' + type(e).__name__, 'the operation raised %r, which is no database error' % e); failed = True; break
			if not failed: bad('reader-not-lost', 'operations go on without a connection')
		elif other == 'drop': pol.left = 0; pol.socket._dead()
		if it is None:
			def src():
				for i in range(3000): yield (i,)
			try: ins.load_rows(src())
			except x.Error: ctx.count('reader-failed')
			except Exception as e: bad('reader-raw:' + type(e).__name__, repr(e))
			else: bad('reader-ended', 'rows were loaded without a connection')
			err = 1
		else:
			err = None
			try:
				for k, v in enumerate(it):
					got += flat(v)
					if k > 60000: bad('reader-endless', 'no end'); break
			except x.Error as e: err = e
			except Exception as e: err = e; bad('reader-raw:' + type(e).__name__, 'raised %r, which is no database error' % e)
			if want is not None:
				if got != want[:len(got)]: bad('reader-rows', 'rows %r.. are not the first ones' % got[:5])
				if err is None and got != want: bad('reader-ended', 'ended after %d rows without an error' % len(got))
			elif kind == 'settings' and failed and err is None and len(got) < 100: bad('reader-ended', 'settings.items() ended after %d' % len(got))
			ctx.count('reader-failed' if err is not None else 'reader-complete')
			if err is not None and not db.closed: bad('reader-not-closed', 'after %r the connection does not report itself closed' % err)
			# again
			if err is not None and want is not None and kind not in ('cursor', 'proc'):
				try:
					for v in it: got += flat(v)
				except x.Error: pass
				except Exception as e: bad('reader-raw:' + type(e).__name__, 'going on raised %r, which is no database error' % e)
				if got != want[:len(got)]: bad('reader-rows', 'after the error: rows %r are not the next ones' % got[-3:])
		it = c = None; pol.left = None
	with ctx.step('close', case): db.close()
	if not db.closed: bad('not-closed-close', 'closed is false after close()')
	ctx.count('readers'); ctx.count('reader:' + kind)

def main(ctx):
	import postgresql.exceptions
	ctx.rule = 'one case per (scenario, byte offset or message, kind of disturbance)'
	ctx.require('runs', 'disturbed', 'refused', 'reconnected', 'failed:connect', 'failed:operation', 'kind:eof', 'kind:reset', 'kind:corrupt')
	ctx.psql('CREATE TABLE vf_ins (i int4); INSERT INTO vf_ins SELECT generate_series(1,50)')
	r = ctx.rng('cuts')
	info = {}
	for name, f in SCENARIOS:
		m = Meter()
		res, db, made = run(ctx, name, f, m)
		info[name] = (res, m)
		db.close()
		if name != 'connect':
			again = run(ctx, name, f, Meter())
			again[1].close()
			if again[0] != res: raise AssertionError('scenario %s is not repeatable' % name)
	# sample of disturbances, every scenario in turn
	budget = ctx.scale(30, 1500)
	todo = []
	for name, f in SCENARIOS:
		res, m = info[name]
		lo = 0 if name == 'connect' else m.marks['at']
		hi = m.pos
		near = sorted({b + d for b in m.bounds for d in (-1, 0, 1, 4, 5) if lo <= b + d <= hi})
		n = ctx.scale(40 if name != 'connect' else 90, 100000)
		offs = near if len(near) <= n // 2 else r.sample(near, n // 2)
		offs = offs + ([r.randrange(lo, hi + 1) for _ in range(n - len(offs))] if hi - lo > n else list(range(lo, hi + 1)))
		for at in offs: todo.append((name, f, 'cut', at))
		ms = range(0 if name == 'connect' else m.marks['op'], len(m.types))
		interesting = [i for i in ms if m.types[i] not in (b'S', b'N', b'A')]
		# long runs of identical messages: keep the first, last and a sample
		short = [i for i in interesting if i < 3 or m.types[i] != m.types[i - 1] or i + 1 >= len(m.types) or m.types[i + 1] != m.types[i]]
		pick = short + r.sample(interesting, min(len(interesting), 4))
		r.shuffle(pick)
		for i in pick[:ctx.scale(14, 100000)]:
			todo.append((name, f, 'corrupt', i))
	rr = ctx.rng('readers'); ctx.psql('CREATE TABLE vf_none (i int4)')
	for k in range(ctx.scale(250, 5000)):
		if ctx.elapsed() > ctx.scale(12, 300): break
		ctx.case(('reader', k)); readers(ctx, rr)
	ctx.require('readers', 'reader-failed', 'reader-complete')
	beneath(ctx, ctx.rng('beneath')); ctx.require('beneath tls', 'beneath tls: error')
	r.shuffle(todo); budget += ctx.elapsed()
	for name, f, how, at in todo:
		if ctx.elapsed() > budget: break
		res, m = info[name]
		if how == 'cut':
			k = r.choice(('eof', 'reset')); pol = Cut(at, k); key = (name, at, k)
		else:
			k = r.choice(KINDS); pol = Corrupt(at, k); key = (name, 'corrupt', at, k)
			if k == 'body' and m.types[at] not in (b'D', b'T', b't', b'R', b'K', b'G', b'H'): pol = Corrupt(at, 'unknown-type')
			if k == 'insert-auth' and name == 'connect' and at < 3: pol = Corrupt(at, 'insert-unknown')
		ctx.case(key, sample='%s: %s' % (name, key[1:]))
		run(ctx, name, f, pol, base=res, kind='corrupt' if how == 'corrupt' else None)
	# the SSL request: the server answers nothing, or the connection is reset
	for mode in ('prefer', 'require', 'allow'):
		for how in ('eof', 'reset'):
			for at in (0, 1):
				if mode != 'allow' or at == 0:
					p = Cut(at, how); p.raw = True
					ctx.case(('ssl', mode, how, at))
					run_ssl(ctx, mode, p)

def run_ssl(ctx, mode, pol):
	import postgresql.exceptions as x
	first = [pol]
	co = ctx.connector(sslmode=mode)
	made = sock.wrap(co, lambda: first.pop() if first else sock.Policy())
	db = co()
	case = dict(sslmode=mode, cut=pol.cut_at, how=pol.cut_how)
	with ctx.step('ssl negotiation', case):
		try:
			db.connect()
			if db.query.first('SELECT 5') != 5: ctx.violation('ssl:result', 'wrong result', case)
			if mode == 'require': ctx.violation('ssl:require', 'connected without TLS', case)
			ctx.count('ssl-connected')
		except x.Error: ctx.count('ssl-failed')
		except Exception as e:
			ctx.violation('ssl:raw-exception', 'sslmode %s, %s after %d bytes: %s: %s, which is no database error' % (mode, pol.cut_how, pol.cut_at, type(e).__name__, e), case)
	db.close()
	for s in made:
		if not s.closed: ctx.violation('ssl:socket-leak', 'a socket was left open', case)
