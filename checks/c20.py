"""
C20: notifications handed out by listeners against those committed by senders.
A fence notification, ordered by the server behind all others, ends each look.
"""
import socket, threading, time
from vf import pq, sock as vsock

FENCE = 'c20 fence'
CHANNELS = ['foo', 'Foo', 'FOO', 'a b', 'a"b', '""', "o'clock", 'select', '1st', 'semi;colon', '-- no', 'back\\slash', '$1', 'ünïcödé', ' lead', 'x' * 63, 'tab\tnl\n', 'per%cent', 'user', 'foo.bar', '*', 'E', '/*c*/']

class Policy(vsock.Policy):
	def __init__(self, r): self.r = r; self.log = []; self.frag = False; self.rate = 0; self.n = 0; self.active = False
	def chunk(self, n): return self.r.choice((1, 2, 5, 7, 40, n)) if self.frag else n
	def inject(self):
		self.n += 1; t = ('injected', 'inj %d' % self.n, 77)
		self.log.append(t); return pq.notify(77, t[0], t[1])
	def messages(self, t, body):
		if t == b'A':
			r = pq.R(body); pid = r.u32(); self.log.append((r.cs().decode(self.enc), r.cs().decode(self.enc), pid))
		if self.active and self.rate and t in (b'D', b'C', b'T', b'1', b'2', b'd', b'S') and self.r.random() < self.rate: yield self.inject()
		yield t, body
		if self.active and self.rate and t == b'Z' and self.r.random() < self.rate * 3: yield self.inject()
	enc = 'utf-8'

class Listener:
	def __init__(self, ctx, r, kind):
		self.ctx, self.r, self.kind = ctx, r, kind
		kw = {}
		if kind == 'latin1': kw['settings'] = dict(client_encoding='LATIN1')
		if kind == 'tls': kw['tls'] = True
		if kind == 'unix': kw['unix'] = '%s/.s.PGSQL.%d' % (ctx.scratch, ctx.port)
		c = ctx.connector(**kw)
		self.pol = None
		if kind == 'wrapped':
			self.pol = Policy(r); vsock.wrap(c, lambda: self.pol)
		self.db = c(); self.db.connect()
		self.db.listen(FENCE)
		self.channels = {FENCE}; self.pending = []   # listen/unlisten of an open transaction
		self.deferred = []
		self.want = []      # committed for it, in order
		self.xact = None
		if self.pol: self.pol.log.clear(); self.pol.active = True; self.got0 = 0

class World:
	def __init__(self, ctx, r, kinds):
		self.ctx, self.r = ctx, r
		self.ls = [Listener(ctx, r, k) for k in kinds]
		self.senders = [ctx.connect(), ctx.connect()]
		self.latin = 'latin1' in kinds
		self.n = 0
	def payload(self):
		r = self.r; self.n += 1
		base = 'p%d' % self.n
		k = r.random()
		if k < .1: return ''
		if k < .3: return base
		if k < .6: return base + r.choice(("'", "''", '"', '\\', "\\'", ';', '\n', '\t', '%s', '$1', '$$', '--', "E'", '/*', 'é', 'ÿ', '\\N', '\x01', '{}', ' '))
		if k < .7 and not self.latin: return base + '\u20ac\U0001f600'
		if k < .8: return base + 'x' * r.choice((100, 1000, 7900))
		return base + ''.join(r.choice('\'"\\;$%\n éabc') for _ in range(r.randrange(1, 30)))
	def commit(self, pid, items, own=None):
		"""these notifications become visible in this order"""
		seen = []
		for t in items:
			if t not in seen: seen.append(t)
		for l in self.ls:
			for c, p in seen:
				# a backend in a transaction reads them at its end
				if l.xact is not None: l.deferred.append((c, p, pid))
				elif c in l.channels: l.want.append((c, p, pid))

	def send(self):
		r = self.r; ctx = self.ctx
		own = r.random() < .25
		if own:
			l = r.choice(self.ls); db = l.db
			if l.xact is not None: return
		else: db = r.choice(self.senders)
		items = []
		def call():
			args = []; kw = {}; ex = []
			for _ in range(r.choice((0, 1, 1, 1, 2, 3))):
				c = r.choice(CHANNELS)
				if r.random() < .3: args.append(c); ex.append((c, ''))
				else: p = self.payload(); args.append((c, p)); ex.append((c, p))
			if r.random() < .3:
				for c in r.sample(CHANNELS, r.choice((1, 2))): kw[c] = self.payload()
			if r.random() < .1 and ex: args.append(args[-1]); ex.append(ex[-1])
			ex += list(kw.items())
			db.notify(*args, **kw); items.extend(ex)
		how = r.choice(('plain', 'plain', 'commit', 'rollback', 'sql', 'savepoint'))
		if how == 'plain': call()
		elif how == 'sql':
			c, p = r.choice(CHANNELS), self.payload()
			db.query('SELECT pg_notify($1, $2)', c, p); items.append((c, p))
		elif how == 'rollback':
			x = db.xact(); x.start(); call(); call(); x.rollback(); ctx.count('sent-rolled-back'); return
		elif how == 'savepoint':
			with db.xact():
				call()
				keep = len(items)
				x = db.xact(); x.start(); call(); x.rollback(); del items[keep:]
				call()
		else:
			with db.xact(): call(); call()
		ctx.count('sent', len(items))
		self.commit(db.backend_id, items)
		if items and r.random() < .2:
			# the same once more, in transactions of their own: these are others
			for _ in range(r.choice((1, 2))):
				db.notify(*items); self.commit(db.backend_id, items); ctx.count('sent-again', len(items))

	def fence(self, l):
		self.n += 1; p = 'fence %d' % self.n
		s = self.r.choice(self.senders); s.notify((FENCE, p))
		self.commit(s.backend_id, [(FENCE, p)])
		return (FENCE, p, s.backend_id)

	def finish(self, l):
		if l.xact is not None: self.end(l)
	def end(self, l):
		commit = self.r.random() < .7
		x, l.xact = l.xact, None
		if commit: x.commit()
		else: x.rollback()
		if commit:
			for op, c in l.pending: (l.channels.add if op else l.channels.discard)(c)
			if l.pending: self.ctx.count('changed-in-block')
		l.pending = []
		l.want += [t for t in l.deferred if t[0] in l.channels]; l.deferred = []

	def look(self, l, case):
		"""take everything from a listener, compare"""
		r, ctx = self.r, self.ctx
		self.finish(l)
		if l.pol:
			# what the transport put behind the end of an operation must be there at once
			l.pol.frag = False
			k = len(l.pol.log)
		f = self.fence(l)
		got = []
		how = r.choice(('zero', 'zero', 'idle', 'none', 'nm', 'discard', 'nm0'))
		case['how'] = how; ctx.count('look:' + how)
		with ctx.step('receiving notifications', case, 100):
			if how == 'zero':
				while f not in got: got += list(l.db.iternotifies(0))
			elif how == 'nm0':
				from postgresql.notifyman import NotificationManager as NM
				nm = NM(l.db, timeout=0)
				while f not in got:
					for db, ns in nm:
						if db is not l.db: ctx.violation('wrong-connection', repr(db), case)
						got += ns
			elif how == 'discard':
				# an idle event is a safe point to leave
				while f not in got:
					for x in l.db.iternotifies(.01):
						if x is None: ctx.count('idle'); break
						got.append(x)
			else:
				from postgresql.notifyman import NotificationManager as NM
				t = .02 if how == 'idle' else None
				if how == 'nm':
					nm = NM(timeout=r.choice((None, .05))); nm.connections.add(l.db)
					it = (y for x in nm if x is not None for y in x[1])
				else: it = l.db.iternotifies(t)
				for x in it:
					if x is None: ctx.count('idle'); continue
					got.append(x)
					if x == f: break
				# the rest that the iterator holds
				if how == 'nm': nm.settimeout(0); got += [y for x in nm for y in x[1]]
		self.judge(l, got, case)

	def judge(self, l, got, case):
		ctx = self.ctx
		real = [x for x in got if x[2] != 77]
		want, l.want = l.want, []
		if real != want:
			miss = [x for x in want if x not in real]; extra = [x for x in real if x not in want]
			ctx.violation('lost' if miss else 'extra' if extra else 'order-or-repetition', '%s listener, %s: %d expected, %d handed out; missing %.300r, unexpected %.300r' % (l.kind, case.get('how'), len(want), len(real), miss[:3], extra[:3]), case)
		ctx.count('received', len(real))
		if l.pol:
			l.seen = getattr(l, 'seen', []) + got
			a, b = l.seen, l.pol.log[:len(l.seen)]
			if a != b: ctx.violation('transport-order', 'the server sent %.300r, handed out %.300r' % (b[-5:], a[-5:]), case)
			inj = sum(1 for x in got if x[2] == 77)
			if inj: ctx.count('injected', inj)

	def activity(self, l, case):
		try: self.act(l, case)
		finally:
			if l.pol: l.pol.rate = 0; l.pol.frag = False

	def act(self, l, case):
		r, ctx, db = self.r, self.ctx, l.db
		k = r.choice(('query', 'error', 'stream', 'copy', 'begin', 'end', 'end', 'prepare', 'none'))
		if k == 'begin' and l.xact is None: self.look(l, case)
		if l.pol: l.pol.rate = r.choice((0, .05, .4)); l.pol.frag = r.random() < .4
		if k == 'query':
			if [x[0] for x in db.query('SELECT g FROM generate_series(1, 20) g(g)')] != list(range(1, 21)): ctx.violation('query', 'wrong rows beside notifications', case)
		elif k == 'error':
			if l.xact is not None: return
			import postgresql.exceptions as pe
			try: db.query('SELECT 1/0')
			except pe.Error: pass
		elif k == 'stream':
			n = 0
			for c in db.prepare('SELECT g, repeat(\'z\', 100) FROM generate_series(1, 700) g(g)').chunks():
				n += len(c)
				if r.random() < .3: self.send()
			if n != 700: ctx.violation('query', 'wrong rows beside notifications', case)
		elif k == 'copy':
			if len(b''.join(db.prepare('COPY (SELECT generate_series(1, 50)) TO STDOUT').rows()).split()) != 50: ctx.violation('query', 'wrong COPY data beside notifications', case)
		elif k == 'begin' and l.xact is None: l.xact = db.xact(); l.xact.start()
		elif k == 'end' and l.xact is not None: self.end(l)
		elif k == 'prepare': db.prepare('SELECT $1::text').first('x')
		if l.pol:
			if l.pol.rate and not l.pol.frag and l.xact is None and k != 'none':
				# nothing real is awaited here: what came with the operation is there at once
				known = len(getattr(l, 'seen', []))
				db.query('SELECT 1'); upto = len(l.pol.log)
				got = list(db.iternotifies(0))
				now = [x for x in l.pol.log[known:upto]]
				if got[:len(now)] != now: ctx.violation('not-noticed', 'received with the end of an operation, a poll gave %.300r instead of %.300r' % (got, now), case)
				l.early = getattr(l, 'early', [])
				self.partial(l, got, case)

	def partial(self, l, got, case):
		"""a look that may not see everything yet"""
		real = [x for x in got if x[2] != 77]
		if real != l.want[:len(real)]: self.ctx.violation('partial', '%.300r instead of %.300r' % (real, l.want[:len(real)]), case); del l.want[:]
		else: del l.want[:len(real)]
		l.seen = getattr(l, 'seen', []) + got
		self.ctx.count('injected', len(got) - len(real))

	def change(self, l, case):
		"""listen or unlisten"""
		r, ctx = self.r, self.ctx
		if l.xact is None:
			self.look(l, case)
		cs = r.sample(CHANNELS, r.choice((1, 1, 2, 4)))
		op = r.random() < .65
		if l.xact is not None and not op: return
		(l.db.listen if op else l.db.unlisten)(*cs)
		ctx.count('listen' if op else 'unlisten', len(cs))
		if l.xact is not None: l.pending += [(op, c) for c in cs]
		else:
			for c in cs: (l.channels.add if op else l.channels.discard)(c)
			if r.random() < .5:
				have = sorted(l.db.listening_channels())
				if have != sorted(l.channels): ctx.violation('channels', 'listens to %r, should to %r' % (have, sorted(l.channels)), case)
				ctx.count('channels-compared')

def history(ctx, r, uid):
	kinds = [r.choice(('plain', 'unix', 'tls', 'wrapped', 'wrapped')) for _ in range(r.choice((1, 2, 3)))]
	if r.random() < .3: kinds.append('latin1')
	w = World(ctx, r, kinds)
	case = dict(uid=uid, kinds=kinds)
	for step in range(r.choice((10, 25, 40))):
		l = r.choice(w.ls); case['step'] = step
		k = r.random()
		with ctx.step('history', case, 200):
			if k < .45: w.send()
			elif k < .65: w.activity(l, case)
			elif k < .85: w.change(l, case)
			else: w.look(l, case)
	for l in w.ls:
		with ctx.step('final look', case, 200): w.look(l, case)
	# all of them under one manager
	from postgresql.notifyman import NotificationManager as NM
	for t in (r.choice((0, None, .02)),):
		for _ in range(3): w.send()
		fs = w.fence(None)
		got = {l.db: [] for l in w.ls}
		with ctx.step('one manager for all', case, 100):
			nm = NM(*[l.db for l in w.ls], timeout=t)
			while any(fs not in g for g in got.values()):
				for x in nm:
					if x is None: ctx.count('idle'); continue
					got[x[0]] += x[1]
					if all(fs in g for g in got.values()): break
		for l in w.ls: case['how'] = 'all'; w.judge(l, got[l.db], case)
		ctx.count('managed-together')
	for l in w.ls: l.db.close()
	for s in w.senders: s.close()
	ctx.case((tuple(kinds), uid), sample=case if uid < 3 else None)

def arrived(db, what):
	"""wait until the bytes are in the socket, without taking them"""
	while what not in db.pq.socket.recv(1 << 20, socket.MSG_PEEK): time.sleep(.005)

def dying(ctx, r, uid):
	"""what a connection received before it failed or was closed is handed out, then it is in the garbage"""
	from postgresql.notifyman import NotificationManager as NM
	case = dict(what='dying', uid=uid)
	s = ctx.connect(); a, b = ctx.connect(), ctx.connect()
	for d in (a, b): d.listen('x')
	n = r.randint(0, 5); how = r.choice(('terminate', 'terminate', 'close', 'close-in-loop'))
	t = r.choice((0, .02, .02, .5)); pre = r.random() < .5
	case.update(n=n, how=how, timeout=t, pre=pre)
	want = [('x', str(i), s.backend_id) for i in range(n)]
	for c, p, _ in want: s.notify((c, p))
	s.notify(('x', 'last one')); want.append(('x', 'last one', s.backend_id))
	got = {a: [], b: []}
	with ctx.step('dying', case, 100):
		arrived(a, b'last one'); arrived(b, b'last one')
		if pre: a.query('SELECT 1')
		if how == 'terminate':
			s.query('SELECT pg_terminate_backend($1)', a.backend_id)
			while s.query.first('SELECT count(*) FROM pg_stat_activity WHERE pid = $1', a.backend_id): time.sleep(.005)
		elif how == 'close':
			if not pre: a.query('SELECT 1')
			a.close()
		nm = NM(a, b, timeout=t)
		fence = want[-1]
		rounds = 0
		while True:
			for x in nm:
				if x is None: break
				got[x[0]] += x[1]
				if how == 'close-in-loop' and x[0] is a: a.close()
				if fence in got[a] and fence in got[b] and a not in nm.connections: break
			rounds += 1
			if fence in got[b] and a not in nm.connections or rounds > 50: break
	for d in (a, b):
		g = [x for x in got[d] if x[1] != 'again']
		if g != want: ctx.violation('dying-lost', '%s connection: handed out %r of %r' % ('the failed' if d is a else 'the healthy', g, want), case)
	if a in nm.connections or a not in nm.garbage: ctx.violation('dying-garbage', 'connections %r garbage %r' % (nm.connections, nm.garbage), case)
	if b not in nm.connections: ctx.violation('dying-other', 'the healthy connection was removed', case)
	# the end of all connections ends the iteration
	b.close()
	with ctx.step('ending', case, 60):
		for x in nm: pass
	with ctx.step('ending', case, 60):
		if [x for x in a.iternotifies(.05) if x is not None] != []: ctx.violation('dying-repeat', 'notifications of a dead connection repeated', case)
	ctx.case(('dying', n, how, t, pre)); ctx.count('dying:' + how)
	s.close()

def concurrent(ctx, r, uid):
	case = dict(what='concurrent', uid=uid)
	ls = [ctx.connect() for _ in range(3)]; pol = Policy(r); pol.frag = False
	chs = ['one', 'Two', 'three 3']
	for l in ls: l.listen(*chs); l.listen(FENCE)
	n = ctx.scale(60, 400); k = 4
	def sender(i):
		rr = ctx.rng('sender %d %d' % (uid, i)); db = ctx.connect(); pids[i] = db.backend_id
		for j in range(n):
			c = rr.choice(chs)
			if rr.random() < .3:
				with db.xact(): db.notify((c, '%d %d' % (i, j)))
			else: db.notify((c, '%d %d' % (i, j)))
			plan[i].append((c, '%d %d' % (i, j), db.backend_id))
		db.close()
	pids = {}; plan = [[] for _ in range(k)]
	got = [[] for _ in ls]; errs = []
	def listener(i):
		try:
			db = ls[i]; rr = ctx.rng('listener %d %d' % (uid, i)); done = False
			it = db.iternotifies((None, .01, 0)[i])
			while not done:
				for x in (it if i < 2 else db.iternotifies(0)):
					if x is None: continue
					if x[0] == FENCE: done = True; break
					got[i].append(x)
					if rr.random() < .1: db.query('SELECT 1')
		except Exception as e: errs.append(e)
	lt = [threading.Thread(target=listener, args=(i,)) for i in range(3)]; st = [threading.Thread(target=sender, args=(i,)) for i in range(k)]
	with ctx.step('concurrent', case, 200):
		for t in lt + st: t.start()
		for t in st: t.join()
		f = ctx.connect(); f.notify((FENCE, '')); f.close()
		for t in lt: t.join()
	if errs: ctx.violation('concurrent-error', repr(errs[0]), case)
	for i in range(3):
		if got[i] != got[0]: ctx.violation('concurrent-order', 'two listeners saw different orders', case)
		for j in range(k):
			if [x for x in got[i] if x[1].split()[0] == str(j)] != plan[j]: ctx.violation('concurrent-lost', 'listener %d, sender %d' % (i, j), case)
	ctx.count('concurrent', n * k); ctx.case(('concurrent', uid))
	for l in ls: l.close()

def idle(ctx, r):
	"""idle events come without traffic, and lose nothing"""
	db, s = ctx.connect(), ctx.connect(); db.listen('x')
	from postgresql.notifyman import NotificationManager as NM
	nm = NM(db, timeout=.01); want = []; got = []; idles = 0
	with ctx.step('idle events', None, 60):
		for i in range(30):
			for x in nm:
				if x is None: idles += 1; break
				got += x[1]
			s.notify(('x', str(i))); want.append(('x', str(i), s.backend_id))
		nm.settimeout(None)
		while len(got) < 30: got += next(nm)[1]
	if got != want: ctx.violation('idle', 'with %d idle events, %r' % (idles, got), None)
	if NM(db, timeout=.5).gettimeout() != .5: ctx.violation('idle', 'gettimeout', None)
	for bad in (-1, -.1):
		try: nm.settimeout(bad); ctx.violation('idle', 'a negative timeout is accepted', bad)
		except ValueError: pass
	ctx.case('idle'); ctx.count('idle', idles)
	# refused channels change nothing
	for f in (db.listen, db.unlisten):
		try: f('y' * 64); ctx.violation('long', 'a name of 64 characters is accepted', None)
		except ValueError: pass
	if list(db.listening_channels()) != ['x']: ctx.violation('long', repr(list(db.listening_channels())), None)
	db.close(); s.close()

def main(ctx):
	ctx.rule = 'one case per history (listeners x senders x operations), failing connection, concurrent run'
	r = ctx.rng('main')
	idle(ctx, r)
	for i in range(ctx.scale(25, 400)): dying(ctx, r, i)
	concurrent(ctx, r, 0)
	i = 0; budget = ctx.scale(40, 900)
	while i < ctx.scale(120, 10000) and ctx.elapsed() < budget:
		i += 1; history(ctx, r, i)
		if i % 60 == 0: concurrent(ctx, r, i)
	ctx.count('histories', i)
	ctx.require('sent-again', 'sent', 'received', 'injected', 'idle', 'listen', 'unlisten', 'channels-compared', 'sent-rolled-back', 'changed-in-block', 'managed-together', 'concurrent', *['dying:' + x for x in ('terminate', 'close', 'close-in-loop')], *['look:' + x for x in ('zero', 'idle', 'none', 'nm', 'nm0', 'discard')])
