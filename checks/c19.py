"""
C19: COPY managers between scripted producers and receivers, and between real
connections; what every receiver got against what the producer held.
"""
import io, struct, socket, errno
from vf import pq, sock as vsock
from vf.boot import pure_copy

class Boom(Exception): pass

# ---- part A: no server
def stream(r):
	n = r.choice((0, 1, 1, 2, 3, 5, 10, 40, 200))
	out = []
	for i in range(n):
		k = r.random()
		size = 0 if k < .15 else r.randrange(1, 8) if k < .5 else r.randrange(8, 60) if k < .8 else r.choice((251, 252, 255, 256, 507, 512, 1024)) if k < .97 else r.choice((5000, 70000))
		b = r.randbytes(size)
		if size and r.random() < .2: b = (b'd\0\0\0\x04c\0\0\0\x04' * (size // 10 + 1))[:size]
		out.append(b)
	return out

class Feed:
	"""recv_into of a COPY stream, in pieces, raising at chosen calls"""
	def __init__(self, data, r, sizes, raise_at):
		self.data, self.r, self.sizes, self.raise_at, self.calls, self.pos = data, r, sizes, raise_at, 0, 0
		self.raised = []
	def __call__(self, buf, n=0):
		self.calls += 1
		if self.calls in self.raise_at:
			e = Boom('producer %d' % self.calls); self.raised.append(e); raise e
		k = max(1, min(self.sizes(), n or len(buf), max(1, len(self.data) - self.pos)))
		d = self.data[self.pos:self.pos + k]; self.pos += len(d)
		# what lies behind in the buffer is not part of it
		buf[len(d):] = b'\xee' * (len(buf) - len(d))
		buf[:len(d)] = d
		return len(d)

def sizes(r, total):
	m = r.randrange(5) if total < 4000 else r.choice((0, 3, 5)) if total < 30000 else r.choice((0, 5))
	if m == 5: return lambda: r.randrange(500, 9000)
	if m == 0: return lambda: 10**9
	if m == 1: return lambda: r.randrange(1, 8)
	if m == 2: return lambda: r.choice((1, 4, 5, 6, 10))
	if m == 3: return lambda: r.randrange(1, 600)
	return lambda: r.choice((1, 2, 3, 50, 5000))

def parties(cm, r, msgs, fail):
	"""producer class over a scripted wire, or an iterator; receivers of every kind"""
	class Wire(cm.ProtocolProducer):
		_e_factors = ()
		state = 'scripted'
		tail = b''
		def recover(self, view):
			self.tail += bytes(view)
			self.nextchunk = self.over
		def over(self):
			raise StopIteration
		def __enter__(self):
			super().__enter__()
			self.nextchunk = self.begin
		def begin(self):
			# the first data is what was read with something else
			k = r.choice((0, 0, 1, 5, 7, 300))
			d = self.recv_into.data[:k]; self.recv_into.pos = len(d)
			return self.track_state(memoryview(d))
	end = r.choice((pq.frame(b'c', b''), pq.frame(b'c', b'') + pq.complete('COPY 3') + pq.ready(), pq.err()))
	data = b''.join(pq.copydata(m) for m in msgs)
	if r.random() < .7:
		feed = Feed(data + end, r, sizes(r, len(data)), set(r.randint(1, 12) for _ in range(r.choice((1, 2)))) if fail in ('producer', 'both') else ())
		p = Wire(feed, buffer_size=r.choice((1, 2, 4, 5, 6, 7, 11, 64, 255, 1024, 10240) if len(data) < 4000 else (64, 255, 1024, 10240) if len(data) < 30000 else (1024, 10240)))
		return p, data, 'wire', feed, end
	chunks = []; i = 0
	while i < len(msgs):
		k = r.choice((0, 1, 1, 2, 5, 50)); chunks.append(msgs[i:i + k]); i += k
	feed = type('F', (), {})(); feed.raised = []; feed.calls = 0
	bad = set(r.randint(1, 6) for _ in range(2)) if fail in ('producer', 'both') else ()
	class It:
		def __init__(self): self.i = 0
		def __iter__(self): return self
		def __next__(self):
			feed.calls += 1
			if self.i > len(chunks): raise StopIteration
			if feed.calls in bad:
				e = Boom('iterator %d' % feed.calls); feed.raised.append(e); raise e
			if self.i >= len(chunks): self.i += 1; raise StopIteration
			self.i += 1
			return r.choice((list, tuple))(chunks[self.i - 1])
	return cm.IteratorProducer(It() if bad or r.random() < .5 else chunks), data, 'iter', feed, b''

def scripted(ctx, r, cm, uid):
	msgs = stream(r)
	fail = r.choice((None, None, 'receiver', 'receiver', 'producer', 'both'))
	leave = r.choice((None,) * 5 + ('break', 'raise', 'empty'))
	prod, data, kind, feed, end = parties(cm, r, msgs, fail)
	case = dict(uid=uid, kind=kind, n=len(msgs), fail=fail, leave=leave)
	nrec = r.choice((1, 1, 2, 3, 4)); recs = []
	boxes = {}
	def mk(k):
		box = dict(kind=k, lines=[], wire=b'', calls=0, raised=[], bad=set(r.randint(1, 8) for _ in range(r.choice((1, 1, 2)))) if fail in ('receiver', 'both') and r.random() < .7 else ())
		def trip():
			box['calls'] += 1
			if box['calls'] in box['bad']:
				e = Boom('receiver %d' % box['calls']); box['raised'].append(e); raise e
		if k == 'call':
			def f(lines):
				trip()
				box['lines'].extend(bytes(x) for x in lines)
			x = cm.CallReceiver(f)
		elif k == 'wire':
			sz = sizes(r, len(data))
			def send(view):
				trip()
				n = max(1, min(len(view), sz())) if len(view) else 0
				box['wire'] += bytes(view[:n]); return n
			class PR(cm.ProtocolReceiver):
				_e_factors = (); state = 'scripted'
			x = PR(send)
		else: x = cm.NullReceiver()
		x.box = box; recs.append(x)
	class CR(cm.CallReceiver): pass
	for _ in range(nrec): mk(r.choice(('call', 'call', 'wire', 'wire', 'null')))
	case['receivers'] = [x.box['kind'] for x in recs]
	def bad(m, d): ctx.violation(m, d, case)
	man = cm.CopyManager(prod, *recs)
	dropped, yielded, cycles, exhausted, untold = set(), [0, 0], 0, False, False
	stop_at = r.randint(0, 6)
	outcome = None
	user = KeyError('user')
	def seen(): return sum(len(x.box['raised']) for x in recs) + len(feed.raised)
	try:
		if fail is None and leave is None and r.random() < .4:
			case['run'] = True; man.run(); exhausted = True
		else:
			with man:
				if leave == 'empty': pass
				else:
					while man.receivers:
						try:
							for m, b in man:
								yielded[0] += m; yielded[1] += b; untold = False
								cycles += 1
								if leave and cycles > stop_at: raise user if leave == 'raise' else StopIteration
							exhausted = True
							break
						except StopIteration: break
						except cm.ReceiverFault as e:
							who = {x for x in recs if x.box['raised'] and not x.box.get('told') == len(x.box['raised'])}
							if set(e.faults) != who or any(e.faults[x] is not x.box['raised'][-1] for x in who & set(e.faults)): bad('fault-parties', '%d receivers failed, the fault names %r' % (len(who), e.faults))
							if e.manager is not man: bad('fault-manager', repr(e.manager))
							untold = True
							for x in who:
								x.box['told'] = len(x.box['raised'])
								if x in man.receivers: bad('faulted-kept', 'a receiver that failed is still served')
								while True:
									if r.random() < .35: dropped.add(x); ctx.count('dropped'); break
									try: man.reconcile(x); ctx.count('reconciled')
									except Boom: x.box['told'] = len(x.box['raised']); continue
									break
						except cm.ProducerFault as e:
							ctx.count('producer-faults')
							if e.__context__ is not feed.raised[-1]: bad('producer-fault', 'context %r' % (e.__context__,))
							if e.manager is not man: bad('fault-manager', repr(e.manager))
		outcome = 'ok'
	except cm.CopyFail as e:
		outcome = 'fail'
		if e.manager is not man: bad('fail-manager', repr(e.manager))
		if leave == 'raise' and cycles > stop_at and user not in (e.__context__, e.__cause__): bad('fail-context', 'the exception that ended the copy is not the context: %r' % (e.__context__,))
	except Boom as e: outcome = 'raised %r' % e
	alive = [x for x in recs if x not in dropped]
	left = leave == 'empty' or leave and not exhausted
	ctx.count('A:' + ('done' if outcome == 'ok' else 'failed'))
	if exhausted and alive:
		if outcome != 'ok': bad('complete-failed', 'every party completed, the copy %s' % outcome)
	elif outcome != 'fail': bad('incomplete-succeeded', 'the copy was left after %d cycles, %d receivers remain: %s' % (cycles, len(alive), outcome))
	for x in recs:
		b = x.box
		if b['kind'] == 'call':
			if exhausted and x in alive:
				if b['lines'] != msgs: bad('messages', 'a callable got %d messages of %d, first difference at %r' % (len(b['lines']), len(msgs), next((i for i, (p, q) in enumerate(zip(b['lines'], msgs)) if p != q), 'the end')))
				ctx.count('delivered', len(msgs))
			elif b['lines'] != msgs[:len(b['lines'])]: bad('messages-prefix', 'a callable got something else than the first messages')
		elif b['kind'] == 'wire':
			if exhausted and x in alive:
				if b['wire'] != data: bad('bytes', 'a wire got %d bytes of %d' % (len(b['wire']), len(data)))
				ctx.count('delivered', len(msgs))
			elif not data.startswith(b['wire']): bad('bytes-prefix', 'a wire got something else than the first bytes')
	if exhausted and outcome == 'ok':
		nb = len(data) if kind == 'wire' else sum(map(len, msgs))
		if (prod.total_messages, prod.total_bytes) != (len(msgs), nb): bad('totals', 'counted %r, transferred %r' % ((prod.total_messages, prod.total_bytes), (len(msgs), nb)))
		if not case.get('run') and not untold and tuple(yielded) != (len(msgs), nb): bad('progress', 'the iteration reported %r in all, transferred %r' % (yielded, (len(msgs), nb)))
		if kind == 'wire' and not end.startswith(prod.tail): bad('tail', 'what follows the COPY data was taken as %r' % prod.tail)
	ctx.case(('A', kind, len(msgs), fail, leave, tuple(case['receivers']), cycles, feed.calls))
	ctx.count('producer:' + kind)

# ---- part B: real connections
class SrcPolicy(vsock.Policy):
	def __init__(self, r): self.r = r; self.on = False; self.mode = 0; self.rate = 0; self.notes = []; self.raise_at = None; self.n = 0; self.raised = []
	def arm(self, mode, rate): self.on = True; self.mode, self.rate, self.n = mode, rate, 0; self.notes = []; self.raise_at = None; self.raised = []
	def disarm(self): self.on = False
	def chunk(self, n):
		if not self.on or self.mode == 0: return n
		if self.mode == 1: return self.r.randrange(1, 30)
		if self.mode == 2: return self.r.choice((1, 4, 5, 6, 7, 100, 3000))
		return self.r.randrange(1, 5000)
	def messages(self, t, body):
		if self.on and self.rate and len(self.notes) < 40 and self.r.random() < self.rate:
			k = 'n%d' % len(self.notes); self.notes.append(k)
			yield pq.notify(77, 'c19', k) if self.r.random() < .6 else pq.note('01000', k)
		yield t, body
		if self.on and self.rate and t == b'Z' and self.r.random() < .5:
			k = 'n%d' % len(self.notes); self.notes.append(k); yield pq.notify(77, 'c19', k)

class DstPolicy(vsock.Policy):
	def __init__(self, r): self.r = r; self.on = False; self.at = None; self.n = 0; self.small = False; self.raised = []
	def arm(self, at, small): self.on = True; self.at, self.small, self.n, self.raised = at, small, 0, []
	def disarm(self): self.on = False
	def sendsize(self, n):
		return self.r.choice((1, 3, 50, 1000, n)) if self.on and self.small else n
	def before(self, what):
		if what == 'send' and self.on:
			self.n += 1
			if self.at is not None and self.n in self.at:
				e = socket.timeout('timed out'); self.raised.append(e); raise e

SCHEMA = '''CREATE TEMP TABLE d (a int8, b text, c bytea)'''

class World:
	def __init__(self, ctx, r):
		self.ctx, self.r = ctx, r
		self.made = 0
		self.src = self.open(SrcPolicy(r)); self.src.db.execute('LISTEN c19'); self.src.notices = []
		self.dst = [self.open(DstPolicy(r)) for _ in range(3)]
		for d in self.dst: d.db.execute(SCHEMA)
	def open(self, pol):
		c = self.ctx.connector(); vsock.wrap(c, lambda: pol); db = c(); db.connect(); self.made += 1
		x = type('Conn', (), {})(); x.db, x.pol = db, pol
		return x
	def heal(self):
		if self.src.db.closed:
			self.src = self.open(SrcPolicy(self.r)); self.src.db.execute('LISTEN c19'); self.src.notices = []
		for i, d in enumerate(self.dst):
			if d.db.closed: self.dst[i] = self.open(DstPolicy(self.r)); self.dst[i].db.execute(SCHEMA)

def q_source(r, n, wide, fail_at, fmt):
	b = "repeat('x', (%s))" % r.choice(('i % 50', '0', '3000', 'i % 7 * 600', '20')) if wide else "i::text"
	q = "SELECT %s::int8, CASE WHEN i %% 11 = 0 THEN NULL ELSE %s END, decode(lpad(to_hex(i), 8, '0'), 'hex') FROM generate_series(1, %d) g(i)" % ('i' if fail_at is None else '(CASE WHEN i = %d THEN 1 / (i - i) ELSE i END)' % fail_at, b, n)
	return q

def real(ctx, w, obs, uid, cm):
	r = w.r
	w.heal()
	n = r.choice((0, 1, 2, 5, 50, 300, 300, 1500) + (() if ctx.quick else (20000,)))
	fmt = r.choice(('text', 'text', 'csv', 'binary'))
	what = r.choice((None, None, None, 'source-error', 'dst-error', 'break', 'break', 'raise', 'empty', 'timeout', 'timeout', 'dst-dead', 'src-dead', 'enter'))
	fail_at = r.randint(1, n) if what == 'source-error' and n else None
	q = q_source(r, n, r.random() < .5, fail_at, fmt)
	case = dict(uid=uid, n=n, fmt=fmt, what=what, query=q)
	opt = '' if fmt == 'text' else ' WITH (FORMAT %s)' % fmt
	if fail_at is None:
		want = [tuple(x) for x in obs.query(q)]
		text = b''.join(obs.prepare('COPY (%s) TO STDOUT%s' % (q, opt)).rows())
	else: want, text = None, None
	kinds = ['stmt'] + [r.choice(('stmt', 'stmt', 'call', 'null')) for _ in range(r.choice((0, 0, 1, 2)))]
	nst = 0; recs = []; boxes = []
	blocks = r.choice((False, False, True))
	sp = w.src.pol
	rate = r.choice((0, 0, .02, .3)) if what in (None, 'timeout', 'dst-dead') else 0
	got_notices = []
	w.src.db.msghook = lambda m: (got_notices.append(m.message), True)[1]
	sd = w.src.db
	sprep = sd.prepare('COPY (%s) TO STDOUT%s' % (q, opt))
	prod = cm.StatementProducer(sprep, buffer_size=r.choice((7, 11, 50, 64, 257, 1024, 10240)) if n < 1000 else r.choice((129, 1024, 10240)))
	used = []
	faulty = None
	for k in kinds:
		if k == 'stmt':
			d = w.dst[nst]; nst += 1; used.append(d)
			d.db.execute('TRUNCATE d')
			if what == 'dst-error' and faulty is None and n:
				faulty = d; at = r.randint(1, n); d.db.execute('ALTER TABLE d DROP CONSTRAINT IF EXISTS bad; ALTER TABLE d ADD CONSTRAINT bad CHECK (a <> %d)' % at)
			stmt = d.db.prepare('COPY d FROM STDIN' + opt) if not (what == 'enter' and faulty is None) else d.db.prepare('SELECT 1')
			if what == 'enter' and faulty is None: faulty = d
			x = cm.StatementReceiver(stmt); x.conn = d
			at = None
			if what == 'timeout' and r.random() < .8: at = set(r.randint(1, 12) for _ in range(r.choice((1, 2, 3))))
			d.at = at; d.pol.arm(None, r.random() < .5)
		elif k == 'call':
			box = []; boxes.append(box); x = cm.CallReceiver(lambda lines, box=box: box.extend(bytes(y) for y in lines))
		else: x = cm.NullReceiver()
		recs.append(x)
	case['kinds'] = kinds; case['blocks'] = blocks
	def bad(m, d): ctx.violation(m, d, case)
	sp.arm(r.randrange(4), rate)
	stop_at = r.choice((0, 0, 1, 2, 5)); cycles = 0; exhausted = False; dropped = set(); yielded = [0, 0]; untold = False
	if what == 'dst-dead': kill_at = r.randint(0, 4); victim = used[0]
	dead = None; killed = False
	outcome, err = None, None
	xs = []
	man = cm.CopyManager(prod, *recs)
	with ctx.step('copy', case, 200):
		try:
			if blocks:
				for c in [w.src] + used:
					x = c.db.xact(); x.start(); xs.append((c, x))
			if what in (None, 'source-error', 'dst-error', 'enter') and r.random() < .5:
				how = r.choice(('run', 'transfer')); case['how'] = how
				if how == 'run': man.run()
				else:
					man = None
					got = cm.transfer(sprep, *recs)
					prod = None
				exhausted = True
			else:
				with man:
					for d in used: d.pol.at = d.at; d.pol.n = 0
					if what == 'empty': pass
					else:
						while man.receivers:
							try:
								for m, b in man:
									yielded[0] += m; yielded[1] += b; cycles += 1; untold = False
									if what == 'raise' and cycles > stop_at: raise Boom('user')
									if what == 'break' and cycles > stop_at: raise StopIteration
									if what == 'dst-dead' and cycles > kill_at and victim is not None: victim.pol.arm(set(range(1, 10**4)), False); victim.db.pq.socket.real.shutdown(2); dead = victim; victim = None
									if what == 'src-dead' and cycles > stop_at: w.src.db.pq.socket.real.shutdown(2); killed = True
								exhausted = True
								break
							except StopIteration: break
							except cm.ReceiverFault as e:
								untold = True
								for x, ex in e.faults.items():
									if ex is not x.conn.pol.raised[-1]: bad('fault-exception', 'the fault holds %r' % ex)
									if what == 'dst-dead': dropped.add(x); ctx.count('B:dropped'); continue
									while True:
										if r.random() < .25: dropped.add(x); ctx.count('B:dropped'); break
										try: man.reconcile(x); ctx.count('B:reconciled')
										except socket.timeout: continue
										break
					# a timeout while finishing is fatal
					if what == 'timeout':
						for d in used: d.pol.at = None
			outcome = 'ok'
		except cm.CopyFail as e: outcome, err = 'fail', e
		except Exception as e: outcome, err = 'raised', e
		sp.disarm()
		for d in used: d.pol.disarm()
		# a connection whose receiver was given up is not used again
		for x in dropped:
			try: x.conn.db.pq.socket.close()
			except Exception: pass
			try: x.conn.db.close()
			except Exception: pass
		alive = [x for x in recs if x not in dropped]
		ok = outcome == 'ok'
		if outcome == 'raised':
			if what == 'source-error' and getattr(err, 'code', None) == '22012' and not cycles: ctx.count('failed-to-start')
			else: bad('other-exception', 'the copy raised %s: %s' % (type(err).__name__, str(err)[:500]))
		for c, x in xs:
			if any(y.conn is c for y in dropped if hasattr(y, 'conn')) or c.db.closed or c is dead or c is w.src and killed: continue
			try:
				if ok: x.commit()
				else: x.rollback()
			except Exception as e:
				if ok: bad('block', 'commit after the copy: %s' % e)
				elif not (what in ('src-dead',)): bad('block', 'rollback after the failed copy: %s: %s' % (type(e).__name__, str(e)[:300]))
		ctx.count('B:%s:%s' % (what, outcome))
		must_fail = fail_at is not None or (what == 'dst-error' and n) or what == 'enter' or not alive or dead is not None and any(getattr(x, 'conn', None) is dead for x in alive) or (what in ('break', 'raise', 'empty', 'src-dead') and not exhausted)
		if what == 'src-dead' and exhausted: must_fail = False
		if must_fail and ok: bad('incomplete-succeeded', '%s: the copy succeeded after %d cycles' % (what, cycles))
		if not must_fail and outcome == 'fail': bad('complete-failed', '%s; receiver faults %r; producer fault %r' % (err, err.receiver_faults, err.producer_fault))
		if outcome == 'fail' and man is not None:
			if err.manager is not man: bad('fail-manager', repr(err.manager))
			if what == 'dst-error' and n:
				f = {x: e for x, e in err.receiver_faults.items()}
				if list(f) != [x for x in recs if getattr(x, 'conn', None) is faulty] or getattr(f.get(list(f)[0]), 'code', None) != '23514': bad('fail-receivers', 'the receiver of a constraint violation failed, reported %r' % (f,))
			if what == 'source-error':
				c = err.__context__
				seen = []
				while c is not None and len(seen) < 10: seen.append(c); c = c.__context__
				if not any(getattr(y, 'code', None) == '22012' for y in seen + [err.producer_fault]): bad('fail-producer', 'the error of the source is not reported: %r' % (seen,))
			if what == 'raise' and not any(isinstance(y, Boom) for y in (err.__context__, err.__cause__)): bad('fail-context', repr(err.__context__))
		# contents
		for x in alive:
			if not hasattr(x, 'conn'): continue
			d = x.conn
			if d is dead:
				try: d.db.close()
				except Exception: pass
				continue
			if d.db.closed: bad('closed', 'a receiver\'s connection was closed by the copy'); continue
			try: rows = [tuple(t) for t in d.db.query('SELECT * FROM d ORDER BY a')]
			except Exception as e: bad('unusable', 'after the copy (%s), a receiver\'s connection: %s: %s' % (outcome, type(e).__name__, str(e)[:300])); continue
			if ok:
				if rows != want: bad('rows', '%d rows arrived of %d; %r' % (len(rows), len(want), [(i, p, q) for i, (p, q) in enumerate(zip(rows, want)) if p != q][:2]))
				if what is None and n and x.count() != n: bad('count', 'the receiver counts %r' % x.count())
				if what is None and x.command() != 'COPY': bad('command', 'the receiver says %r' % x.command())
			elif rows:
				# a receiver may have completed before another one failed to
				if what in ('dst-error', 'dst-dead') and not blocks and (what == 'dst-dead' or d is not faulty) and rows == want: ctx.count('others-completed')
				else: bad('partial', 'the copy failed, %d rows of %d remain' % (len(rows), n))
		if ok:
			for b in boxes:
				if b''.join(b) != text: bad('lines', 'a callable got %d bytes of %d' % (sum(map(len, b)), len(text)))
				if fmt == 'text' and len(b) != n: bad('lines', 'a callable got %d messages of %d' % (len(b), n))
			nm = n if fmt != 'binary' else None
			if prod is not None:
				if nm is not None and prod.total_messages != nm: bad('totals', 'counted %d messages of %d' % (prod.total_messages, nm))
				if prod.total_bytes != len(text) + 5 * prod.total_messages: bad('totals', 'counted %d bytes in %d messages, there are %d' % (prod.total_bytes, prod.total_messages, len(text)))
				if not case.get('how') and not untold and yielded != [prod.total_messages, prod.total_bytes]: bad('progress', '%r against %r' % (yielded, (prod.total_messages, prod.total_bytes)))
				if prod.count() != n or prod.command() != 'COPY': bad('producer-count', '%r %r' % (prod.command(), prod.count()))
			elif got[1] != len(text) + 5 * got[0] or nm is not None and got[0] != nm: bad('totals', 'transfer gave %r' % (got,))
		# the source remains usable, what was sent beside the data arrived
		if not killed:
			try:
				if sd.prepare('SELECT 41 + 1').first() != 42: bad('unusable', 'the producer\'s connection')
			except Exception as e: bad('unusable', 'after the copy (%s), the producer\'s connection: %s: %s' % (outcome, type(e).__name__, str(e)[:300]))
			if sp.notes:
				got = [t[1] for t in sd.iternotifies(0)] + got_notices
				if sorted(got) != sorted(sp.notes): bad('asyncs', 'arrived %r, sent %r' % (sorted(got), sorted(sp.notes)))
				ctx.count('asyncs', len(sp.notes))
		else:
			try: sd.close()
			except Exception: pass
	for d in used:
		if faulty is d and not d.db.closed and what == 'dst-error': d.db.execute('ALTER TABLE d DROP CONSTRAINT IF EXISTS bad')
	ctx.case(('B', n, fmt, what, tuple(kinds), blocks, cycles, sp.mode), sample=case if uid < 4 else None)

def chatty(ctx, cm):
	"""a receiver whose server says a lot about every row"""
	src, dst = ctx.connect(), ctx.connect()
	n = 15000
	dst.execute('''CREATE TEMP TABLE d (i int, t text); CREATE FUNCTION pg_temp.w() RETURNS trigger LANGUAGE plpgsql AS $$BEGIN RAISE WARNING 'row % %', NEW.i, repeat('x', 1000); RETURN NEW; END$$;
	CREATE TRIGGER w BEFORE INSERT ON d FOR EACH ROW EXECUTE FUNCTION pg_temp.w()''')
	got = []
	dst.msghook = lambda m: (got.append(int(m.message.split()[1])), True)[1]
	with ctx.step('copying to a receiver whose server sends a warning for each row', n, 200):
		t = cm.transfer(src.prepare("COPY (SELECT i, repeat('y', 2000) FROM generate_series(1, %d) g(i)) TO STDOUT" % n), dst.prepare('COPY d FROM STDIN'))
	if t[0] != n or dst.query.first('SELECT count(*) FROM d') != n: ctx.violation('chatty', 'rows lost: %r' % (t,), n)
	if got != list(range(1, n + 1)): ctx.violation('chatty', 'warnings lost: %d' % len(got), n)
	ctx.case(('chatty', n)); ctx.count('chatty')
	src.close(); dst.close()

def main(ctx):
	import postgresql.copyman as cm
	from_pure, = pure_copy('postgresql.copyman')
	ctx.rule = 'fragmentation x receivers x formats x faults and recoveries; parts A (scripted parties) and B (real connections)'
	r = ctx.rng('A')
	n = ctx.scale(3000, 60000)
	for i in range(n):
		with ctx.step('scripted', i): scripted(ctx, r, cm if i % 2 else from_pure, i)
		if ctx.quick and ctx.elapsed() > 60: break
	obs = ctx.connect()
	chatty(ctx, cm)
	r = ctx.rng('B'); w = World(ctx, r)
	for i in range(ctx.scale(400, 8000)):
		real(ctx, w, obs, i, cm)
		if ctx.quick and ctx.elapsed() > 120: break
	ctx.require('reconciled', 'dropped', 'producer-faults', 'A:done', 'A:failed', 'delivered', 'asyncs', 'B:None:ok', 'B:break:fail', 'B:raise:fail', 'B:timeout:ok', 'B:source-error:fail', 'B:dst-error:fail', 'B:reconciled')
