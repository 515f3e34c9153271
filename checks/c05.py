"""
C05: pipelined requests against a scripted server that follows the protocol and
remembers what it said: attribution, order, asynchronous messages, resynchronisation.
Then a whole database session through a transport that fragments and injects.
"""
import errno, json, struct, sys
from collections import deque
from vf import pq, sock, transcript

class Plan:
	"""one frontend message and what the server answers to it"""
	def __init__(self, kind, make, msgs=(), err=None, copyin=None, flush=False):
		self.kind, self.make, self.msgs, self.err, self.copyin = kind, make, list(msgs), err, copyin

class Gen:
	def __init__(self, r, el):
		self.r, self.el, self.n = r, el, 0
	def uid(self):
		self.n += 1
		return self.n
	def rows(self, k=None):
		r = self.r
		w = r.choice((0, 1, 1, 3))
		return [pq.row([None if r.random() < .2 else b'%d:' % self.uid() + b'x' * r.choice((0, 3, 50, 9000 if r.random() < .1 else 5)) for _ in range(w)]) for _ in range(r.choice((0, 1, 2, 7)) if k is None else k)]
	def tag(self): return pq.complete(self.r.choice(('SELECT %d', 'INSERT 0 %d', 'UPDATE %d', 'MOVE %d')) % self.uid())
	def copyout(self):
		return [pq.copyout(0, [0, 0])] + [pq.copydata(b'line %d\n' % self.uid() * self.r.choice((1, 1, 500))) for _ in range(self.r.choice((0, 1, 5)))] + [pq.copydone, pq.complete('COPY %d' % self.uid())]
	def desc(self): return self.r.choice((pq.nodata, pq.rowdesc([pq.col('c%d' % self.uid()) for _ in range(self.r.choice((0, 1, 3)))])))
	def plan(self, kind, last=False):
		r, el = self.r, self.el
		copyin = None
		if kind == 'P': mk, ms = (lambda: el.Parse(b'', b'q', ())), [pq.parse_ok]
		elif kind == 'B': mk, ms = (lambda: el.Bind(b'', b'', (), (), ())), [pq.bind_ok]
		elif kind == 'D': mk, ms = (lambda: el.DescribeStatement(b's')), [pq.paramdesc([25] * r.choice((0, 2))), self.desc()]
		elif kind == 'd': mk, ms = (lambda: el.DescribePortal(b's')), [pq.rowdesc([pq.col('p%d' % self.uid())])]
		elif kind == 'C': mk, ms = (lambda: el.ClosePortal(b's')), [pq.close_ok]
		elif kind == 'H': mk, ms = (lambda: el.FlushMessage), []
		elif kind == 'S': mk, ms = (lambda: el.SynchronizeMessage), []
		elif kind == 'E':
			mk = lambda: el.Execute(b'', 5)
			c = r.randrange(10)
			if last == 'copyin':
				ms = [pq.copyin(0, [0] * r.randrange(3))]; copyin = True
			elif c < 5: ms = self.rows() + [self.tag()]
			elif c < 7: ms = self.rows(r.choice((1, 3))) + [pq.suspended]
			elif c == 7: ms = [pq.empty]
			else: ms = self.copyout()
		elif kind == 'Q':
			mk = lambda: el.Query(b'q')
			ms = []
			for _ in range(r.choice((0, 1, 1, 2, 3))):
				c = r.randrange(6)
				if c < 3: ms += [pq.rowdesc([pq.col('q%d' % self.uid())])] + self.rows() + [self.tag()]
				elif c == 3: ms += [self.tag()]
				elif c == 4: ms += self.copyout()
				else: ms += [self.tag()]
			if not ms: ms = [pq.empty]
			if last == 'copyin': ms = [pq.copyin(0, [0])]; copyin = True
		elif kind == 'F': mk, ms = (lambda: el.Function(7, (), (), b'\0\1')), [pq.frame(b'V', pq.values([None if r.random() < .3 else b'%d' % self.uid()]))]
		p = Plan(kind, mk, ms, copyin=copyin)
		if not copyin and kind != 'H' and r.random() < .12:
			k = r.randrange(len(ms) + 1)
			if kind in 'ED' and k == len(ms): k = max(0, len(ms) - 1)      # the terminating message was not sent yet
			if kind in 'PBCdF': k = 0
			# a copy-out is closed by the error message; rows likewise
			p.msgs = ms[:k]
			p.err = self.error()
		return p
	def error(self):
		n = self.uid()
		return [('S', self.r.choice(('ERROR', 'ERROR', 'FEHLER', 'ОШИБКА'))), ('V', 'ERROR'), ('C', self.r.choice(('22012', '40001', '57014', 'XX000'))), ('M', 'error number %d' % n), ('D', 'd' * self.r.choice((1, 900)))]
	def instruction(self):
		r = self.r
		c = r.random()
		plans = []
		if c < .12: plans = [self.plan('Q')]
		elif c < .18: plans = [self.plan('F')]
		elif c < .30:
			plans = [self.plan('P'), self.plan('B')] + [self.plan('E', 'copyin')] + [self.plan('H')] * r.randrange(2) + [self.plan('S')]
		elif c < .36: plans = [self.plan('Q', 'copyin')]
		else:
			for _ in range(r.choice((1, 1, 2, 3))):
				plans += [self.plan(r.choice('PBDdCEEEEH')) for _ in range(r.choice((0, 1, 3, 8)))]
				plans.append(self.plan('S') if r.random() < .85 else self.plan(r.choice('QF')))
			if plans[-1].kind != 'S' and len(plans) > 1 or r.random() < .5: plans.append(self.plan('S'))
			# a request does not begin with Flush
			while plans[0].kind == 'H': plans.pop(0)
		# per-instruction copy-in behaviour
		ci = None
		if any(p.copyin for p in plans):
			ci = dict(data=[[b'in %d\n' % self.uid() for _ in range(r.choice((0, 1, 4)))] for _ in range(r.choice((0, 1, 3)))], end=r.choice(('done', 'done', 'fail')), err=self.error() if r.random() < .25 else None)
		return plans, ci

class Server:
	def __init__(self, r, ctx, rate):
		self.r, self.ctx, self.rate = r, ctx, rate
		self.queue = deque()
		self.ci = deque()
		self.asyncs = []
		self.violations = []
		self.status = b'I'
		self.copied = []
		self.n = 0
	def noise(self):
		out = b''
		while self.r.random() < self.rate:
			self.n += 1
			k = self.r.randrange(4)
			if k == 0: m = (b'N', pq.fields([('S', 'NOTICE'), ('C', '00000'), ('M', 'n%d' % self.n)]))
			elif k == 1: m = (b'A', pq.u32(self.n) + pq.cs('chan') + pq.cs('p%d' % self.n))
			elif k == 2: m = (b'S', pq.cs('opt%d' % (self.n % 3)) + pq.cs('v%d' % self.n))
			else: m = self.asyncs[-1] if self.asyncs else (b'N', pq.fields([('S', 'NOTICE'), ('C', '00000'), ('M', 'same')]))
			self.asyncs.append(m)
			out += pq.frame(*m)
		return out
	def ready(self):
		self.status = self.r.choice((b'I', b'T', b'E'))
		return pq.ready(self.status)
	def send(self, m):
		return self.noise() + m
	def handler(self, io):
		# startup
		while len(io.inbox) < 4 or len(io.inbox) < struct.unpack('!I', io.inbox[:4])[0]: yield None
		self.start = pq.startup(io.take(struct.unpack('!I', io.inbox[:4])[0]))
		yield self.send(pq.auth(0)) + self.send(pq.param('server_version', '16.1')) + self.send(pq.key(77, 88)) + self.noise() + pq.ready()
		skip = False
		copying = None
		while True:
			msgs, rest = pq.split(io.inbox)
			if not msgs:
				yield None
				continue
			t, body = msgs[0]
			io.take(5 + len(body))
			try: m = pq.front(t, body)
			except ValueError as e:
				self.violations.append('malformed frontend message %r %r: %s' % (t, body[:50], e)); return
			k = m['m']
			if k == 'terminate': return
			if copying is not None:
				ci, kind, got = copying
				if k in ('sync', 'flush'): continue
				if k == 'copydata':
					got.append(m['data'])
					if ci['err'] and len(got) >= 2:
						copying = None
						yield self.send(pq.error(ci['err']))
						if kind == 'Q': yield self.send(self.ready())
						else: skip = True
					continue
				copying = None
				if k == 'copydone':
					self.copied.append(got)
					yield self.send(pq.complete('COPY %d' % len(got)))
					if kind == 'Q': yield self.send(self.ready())
					continue
				if k == 'copyfail':
					yield self.send(pq.error([('S', 'ERROR'), ('V', 'ERROR'), ('C', '57014'), ('M', 'COPY from stdin failed')]))
					if kind == 'Q': yield self.send(self.ready())
					else: skip = True
					continue
				self.violations.append('unexpected %s during copy-in' % k); return
			if k in ('copydata', 'copydone', 'copyfail'): continue     # late copy messages are ignored
			if not self.queue:
				self.violations.append('a request nobody made: %r' % (m,)); return
			p = self.queue.popleft()
			if p.kind not in dict(parse='P', bind='B', describe='Dd', close='C', flush='H', sync='S', execute='E', query='Q', function='F')[k]:
				self.violations.append('expected a %s request, got %r' % (p.kind, m)); return
			if skip and k != 'sync': continue
			skip = False
			for x in p.msgs: yield self.send(x)
			if p.err: yield self.send(pq.error(p.err))
			if k == 'sync': yield self.send(self.ready())
			elif k in ('query', 'function'):
				if p.copyin: copying = (self.ci.popleft(), 'Q', [])
				else: yield self.send(self.ready())
			elif p.copyin: copying = (self.ci.popleft(), 'E', [])
			elif p.err: skip = True

READY = object()

def simulate(plans, ci):
	"""-> expected received items, the last error or None, whether the copy-in is reached, copied data"""
	out, err, skip, reached, copied = [], None, False, False, None
	def add(ms):
		for t, b in pq.split(b''.join(ms))[0]:
			if t == b'D': out.append(('row', tuple(pq.R(b[2:]).vals(struct.unpack('!H', b[:2])[0]))))
			elif t == b'd': out.append(('copy', b))
			else: out.append((t, b))
	for p in plans:
		if skip and p.kind != 'S': continue
		skip = False
		add(p.msgs)
		if p.err:
			err = p.err
			if p.kind not in 'SQF': skip = True
		if p.copyin:
			reached = True
			n = sum(map(len, ci['data']))
			if ci['err'] and n >= 2: err = ci['err']; skip = p.kind != 'Q'
			elif ci['end'] == 'done': out.append((b'C', b'COPY %d\0' % n)); copied = [x for c in ci['data'] for x in c]
			else: err = [('M', 'COPY from stdin failed')]; skip = p.kind != 'Q'
		if p.kind in 'SQF': out.append(READY)
	return out, err, reached, copied

def same(a, b):
	if len(a) != len(b): return False
	return all(x == y or (y is READY and x[0] == b'Z') for x, y in zip(a, b))

def normal(m):
	if m.__class__ is tuple: return ('row', m)
	if m.__class__ is bytes: return ('copy', m)
	return (bytes(m.type), m.serialize())

class Noisy(sock.Policy):
	def __init__(self, r):
		self.r = r
		self.mode = r.randrange(4)
		self.sig = r.random() < .4
	def chunk(self, n):
		m = self.mode
		return n if m == 0 else 1 if m == 1 else self.r.randrange(1, 8) if m == 2 else self.r.choice((1, 4, 5, 6, 100, 4096, n))
	def sendsize(self, n): return n if self.mode == 0 else self.r.choice((1, 3, n, n))
	def before(self, what):
		if self.sig and self.r.random() < .05:
			raise self.r.choice((InterruptedError(errno.EINTR, 'interrupted'), BlockingIOError(errno.EAGAIN, 'again')))

class HookError(Exception): pass

def protocol(ctx, k):
	from postgresql.protocol import client3, element3 as el, xact3
	r = ctx.rng('p%d' % k)
	g = Gen(r, el)
	srv = Server(r, ctx, r.choice((0, .1, .4)))
	pol = Noisy(r)
	f = sock.script_factory(lambda: sock.Script(srv.handler, pol))
	c = client3.Connection(f, {b'user': b'u'}, b'')
	if r.random() < .5: c.recvsize = r.choice((1, 5, 64, 8192))
	log = []
	failhook = r.random() < .3
	def hook(m):
		log.append((bytes(m.type), m.serialize()))
		if failhook and len(log) % 3 == 0: raise HookError
	neg = c.xact
	# `connect` uses complete(); a signal there is retried
	c.connect()
	if c.xact is not None:
		ctx.violation('startup', 'startup did not complete: %r %r' % (getattr(c.xact, 'error_message', None), getattr(c.xact, 'exception', None)), k); return
	for m in neg.asyncs: log.append((bytes(m.type), m.serialize()))
	trace = []
	pending = None
	def fail(mech, d):
		ctx.violation(mech, d + '\ninstructions: %r' % ([''.join(p.kind + ('!' if p.err else '') + ('<' if p.copyin else '') for p in t) for t in trace],), dict(case=k, seed=ctx.seed))
		raise StopIteration
	def check(x, plans, ci):
		want, err, reached, copied = simulate(plans, ci)
		got = [normal(m) for m in x.messages_received()]
		ctx.case(('instr', tuple(p.kind + str(len(p.msgs)) + str(bool(p.err)) for p in plans), pol.mode), sample='instruction %s, %d responses, %d asynchronous so far' % (''.join(p.kind for p in plans), len(got), len(log)))
		ctx.count('instructions'); ctx.count('responses', len(got))
		if err: ctx.count('errors')
		if reached: ctx.count('copy-in')
		# received KillInformation/Ready etc. of startup are not part of an instruction
		if not same(got, want):
			i = next((i for i, (a, b) in enumerate(zip(got, want)) if not (a == b or (b is READY and a[0] == b'Z'))), min(len(got), len(want)))
			fail('attribution', 'instruction received %d responses instead of %d; first difference at %d: %r instead of %r' % (len(got), len(want), i, got[i:i + 2], want[i:i + 2]))
		if (x.fatal is not None) != (err is not None) or x.fatal is True:
			fail('error-state', 'server error %r, but fatal=%r %r' % (err, x.fatal, getattr(x, 'error_message', None)))
		if err:
			em = {bytes(kk): bytes(v) for kk, v in x.error_message.items()}
			for kk, v in err:
				if em.get(kk.encode()) != v.encode(): fail('error-fields', 'error field %s is %r instead of %r' % (kk, em.get(kk.encode()), v))
		if copied is not None:
			if not srv.copied or srv.copied.pop(0) != copied: fail('copy-data', 'the server did not receive the copied data')
	def drive(x, ci, how):
		fed = deque(ci['data']) if ci else deque()
		n = 0
		while x.state is not xact3.Complete:
			n += 1
			if n > 100000: fail('livelock', 'no completion')
			if ci is not None and hasattr(x, 'CopyFailSequence') and x.messages is x.CopyFailSequence:
				if fed:
					ch = fed.popleft()
					x.messages = [el.CopyData(b) for b in ch] if r.random() < .7 else list(ch)
				elif ci['end'] == 'done': x.messages = x.CopyDoneSequence
				else:
					c.complete(); break
				c.step()
			elif how == 'step' or ci is not None: c.step()
			elif how == 'mixed' and r.random() < .7: c.step()
			else: c.complete()
	old = sys.excepthook
	sys.excepthook = lambda t, v, tb: ctx.count('hook-errors') if t is HookError else old(t, v, tb)
	try:
		for i in range(r.choice((1, 4, 10))):
			plans, ci = g.instruction()
			trace.append(plans)
			srv.queue.extend(plans)
			reached = simulate(plans, ci)[2]
			if reached: srv.ci.append(ci)
			x = xact3.Instruction([p.make() for p in plans], asynchook=hook)
			how = r.choice(('step', 'complete', 'mixed', 'leave'))
			if ci is not None and how == 'leave': how = 'step'
			with ctx.step('request', dict(case=k, seed=ctx.seed)):
				if pending and pending[0].state is xact3.Complete: pass
				c.push(x)
				if c.xact is not x and x.state is not xact3.Complete:
					fail('not-current', 'the pushed request is not being processed: %r' % (getattr(c.xact, 'error_message', None),))
				if pending: check(*pending); pending = None
				if how == 'leave': pending = (x, plans, ci)
				else:
					drive(x, ci if reached else None, how)
					check(x, plans, ci)
			if srv.violations: fail('request-bytes', srv.violations[0])
			if not pending:
				if c.xact is not None: fail('stuck', 'the connection did not return to idle: %r' % (c.xact,))
				if c.state != srv.status: fail('status', 'transaction status %r, the server said %r' % (c.state, srv.status))
		if pending:
			c.complete(); check(*pending)
		srv.rate = 0
		p = [g.plan('S')]; p[0].err = None
		srv.queue.extend(p)
		x = xact3.Instruction([el.SynchronizeMessage], asynchook=hook)
		c.push(x)
		if c.xact is not None: c.complete()
		check(x, p, None)
		ctx.count('asyncs', len(log))
		if log != srv.asyncs:
			i = next((i for i, (a, b) in enumerate(zip(log, srv.asyncs + [None])) if a != b), len(log))
			# parameters announced by the server itself during startup are in the log too
			want = list(srv.asyncs)
			log2 = [m for m in log if m[1] != pq.cs('server_version') + pq.cs('16.1')]
			if log2 != want:
				i = next((i for i, (a, b) in enumerate(zip(log2 + [None], want + [None])) if a != b), 0)
				fail('async-delivery', '%d asynchronous messages delivered, %d sent; first difference at %d: %r instead of %r' % (len(log2), len(want), i, log2[i:i + 2], want[i:i + 2]))
		if srv.queue: fail('unsent', '%d requests never reached the server' % len(srv.queue))
		if f.made[0].starved: fail('starved', 'the client waited for a response that was not coming')
	except StopIteration: pass
	finally: sys.excepthook = old

# -- the driver, over a transport that fragments and injects
class Inject(sock.Policy):
	def __init__(self, r, rate, mode):
		self.r, self.rate, self.mode, self.sent_ = r, rate, mode, []
		self.on = False
		self.n = 0
	def chunk(self, n):
		m = self.mode
		return n if m == 0 else self.r.choice((1, 2, 5)) if m == 1 else self.r.choice((1, 3, 5, 700, 4096, n))
	def sendsize(self, n): return n if self.mode == 0 else self.r.choice((1, 7, 100, n))
	def messages(self, t, body):
		if self.on:
			while self.r.random() < self.rate:
				self.n += 1
				k = self.r.randrange(3)
				self.sent_.append(('NAS'[k], self.n))
				if k == 0: yield pq.note('00000', 'injected %d' % self.n)
				elif k == 1: yield pq.notify(self.n, 'vfchan', 'p%d' % self.n)
				else: yield pq.param('vf_opt', 'v%d' % self.n)
		yield t, body

def session(ctx, k, baseline):
	r = ctx.rng('s%d' % k)
	co = ctx.connector()
	pol = Inject(r, r.choice((.05, .3)), k % 3)
	sock.wrap(co, lambda: pol)
	db = co()
	got = []
	def hook(m):
		if m.message.startswith('injected '): got.append(('N', int(m.message.split()[1]))); return True
	db.msghook = hook
	db.connect()
	db.settings.subscribe('vf_opt', lambda conn, key, val: got.append(('S', int(val[1:]))))
	pol.on = True
	out = []
	with ctx.step('session', k, 300):
		transcript.session(db, 'fixed', out.append)
		pol.on = False
		db.query('SELECT 1')
	for i, (a, b) in enumerate(zip(out, baseline)):
		ctx.case(('session', k, i))
		if a != b and 'py:' not in a:
			ctx.violation('session:altered', 'step %d gave %s instead of %s' % (i, a[:800], b[:800]), dict(case=k, seed=ctx.seed)); break
	if len(out) != len(baseline): ctx.violation('session:length', '%d steps instead of %d' % (len(out), len(baseline)), k)
	ctx.count('session-steps', len(out))
	sent = pol.sent_
	ctx.count('session-asyncs', len(sent))
	for kind in 'NS':
		a, b = [n for kk, n in got if kk == kind], [n for kk, n in sent if kk == kind]
		if a != b: ctx.violation('session:async-' + kind, '%d delivered, %d sent; delivered twice %r, missing %r' % (len(a), len(b), [x for x in a if a.count(x) > 1][:5], sorted(set(b) - set(a))[:5]), dict(case=k, seed=ctx.seed))
	notes = []
	for n in db.iternotifies(0):
		if n is None: break
		notes.append((n[2], n[1]))
	want = [(n, 'p%d' % n) for kk, n in sent if kk == 'A']
	if notes != want: ctx.violation('session:notifications', '%d delivered, %d sent; first %r / %r' % (len(notes), len(want), notes[:3], want[:3]), dict(case=k, seed=ctx.seed))
	db.close()

def main(ctx):
	ctx.rule = 'one case per instruction driven against the scripted server (distinct by command kinds, response counts, error positions, fragmentation) or step of the session'
	ctx.require('instructions', 'responses', 'errors', 'copy-in', 'asyncs', 'hook-errors', 'session-steps', 'session-asyncs')
	for k in range(ctx.scale(2500, 60000)):
		if ctx.elapsed() > ctx.scale(25, 1200): break
		protocol(ctx, k)
	db = ctx.connect()
	base = []
	transcript.session(db, 'fixed', base.append)
	db.close()
	for k in range(ctx.scale(3, 30)): session(ctx, k, base)
