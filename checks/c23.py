"""
C23: what is raised and what message hooks see, against the messages on the wire
parsed here, and the designated class of every SQLSTATE.
"""
import itertools, json, os, re, string
from vf import pq, sock as vsock

D = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'data', 'sqlstates.json')))
FIELDS = {b'S': 'severity', b'C': 'code', b'M': 'message', b'D': 'detail', b'H': 'hint', b'W': 'context', b'P': 'position', b'p': 'internal_position', b'q': 'internal_query', b'F': 'file', b'L': 'line', b'R': 'function'}
ALNUM = string.digits + string.ascii_uppercase

def designated(code, kind):
	t = D[kind]
	return (t.get(code) or t.get(code[:2] + '000') or [kind == 'errors' and 'Error' or 'Warning'])

def parse(body):
	f = []
	for x in body.split(b'\0'):
		if x: f.append((x[:1], x[1:]))
	return f

def fields(body, enc):
	out = {}
	for k, v in parse(body):
		n = FIELDS.get(k)
		if n is None: continue
		try: out[n] = v.decode(enc)
		except UnicodeDecodeError: out[n] = None   # not judged
	return out, dict(parse(body))

def codes():
	out = []
	for l in open('/usr/share/postgresql/16/errcodes.txt') if os.path.exists('/usr/share/postgresql/16/errcodes.txt') else ():
		p = l.split()
		if len(p) >= 3 and len(p[0]) == 5 and p[1] in 'EWS': out.append(p[0])
	return sorted(set(out) | set(D['errors']) | set(D['warnings']))

def lookups(ctx):
	import postgresql.exceptions as X
	def same(got, want, what):
		names = [b.__name__ for b in got.__mro__ if b.__module__ == 'postgresql.exceptions']
		if names[0] != want[0] or set(want) - set(names): ctx.violation('class', '%s gives %s, %s expected' % (what, names, want), what)
	r = ctx.rng('lookup')
	cs = codes() + [a + b + ''.join(r.choice(ALNUM) for _ in range(3)) for a in ALNUM for b in ALNUM for _ in range(ctx.scale(2, 60))] + [a + b + '000' for a in ALNUM for b in ALNUM]
	for c in cs:
		e, w = X.ErrorLookup(c), X.WarningLookup(c)
		same(e, designated(c, 'errors'), 'ErrorLookup(%r)' % c); same(w, designated(c, 'warnings'), 'WarningLookup(%r)' % c)
		if not issubclass(e, X.Error) or issubclass(e, X.Warning) or not issubclass(w, X.Warning) or issubclass(w, X.Error):
			ctx.violation('indistinguishable', '%r: %r and %r' % (c, e, w), c)
		ctx.case(('lookup', c)); ctx.count('codes')

TEXTS = ["", "x", "o'clock", 'a"b', 'multi\nline\n\ttext', '%s %d {0}', 'back\\slash', 'ünïcödé', 'x' * 3000, ' lead', '\x01\x7f', '$1', 'NULL', 'ERROR:  fake', '\u20ac\U0001f600']

class Policy(vsock.Policy):
	def __init__(self, r):
		self.r = r; self.enc = 'utf-8'; self.log = []; self.rate = 0; self.forge = 0; self.n = 0; self.frag = False; self.latin = False
		self.startup = []; self.quiet = False
	def chunk(self, n): return self.r.choice((1, 2, 7, 50, n)) if self.frag else n
	def text(self):
		t = self.r.choice(TEXTS)
		return t.encode(self.enc, 'replace')
	def forged(self, kind, severity=None):
		r = self.r; self.n += 1
		c = r.choice(codes_) if r.random() < .8 else ''.join(r.choice(ALNUM) for _ in range(5))
		if kind == b'E': s, v = r.choice(((b'ERROR', b'ERROR'), (b'ERROR', None), (b'FEHLER', b'ERROR'), ('\u041e\u0428\u0418\u0411\u041a\u0410'.encode(self.enc, 'replace'), b'ERROR')))
		else: s, v = r.choice([(x, y) for x in (b'WARNING', b'NOTICE', b'INFO', b'LOG', b'DEBUG', b'DEBUG1') for y in (x, None)] + [(b'ATTENTION', b'WARNING'), (b'WARNUNG', b'WARNING'), (b'HINWEIS', b'NOTICE'), (b'AVVISO', b'LOG')])
		fs = [(b'S', s), (b'C', c.encode())]
		if v: fs.insert(1, (b'V', v))
		fs.append((b'M', b'm%d ' % self.n + self.text()))
		for k in b'DHWqs':
			if r.random() < .4: fs.append((bytes([k]), self.text().replace(b'\0', b'')))
		for k in b'PpL':
			if r.random() < .4: fs.append((bytes([k]), str(r.randrange(0, 10**r.choice((1, 3, 9)))).encode()))
		for k in b'FRtcdnZ':
			if r.random() < .3: fs.append((bytes([k]), r.choice((b'postgres.c', b'f', b'', 'é'.encode(self.enc)))))
		if r.random() < .05: fs.append((r.choice((b'D', b'H')), b'\xff\xfe\x80'))
		if r.random() < .3:
			h = fs[:1]; t = fs[1:]; r.shuffle(t); fs = h + t
		return b''.join(k + v + b'\0' for k, v in fs) + b'\0'
	def note(self, t, body): self.log.append((t, body, self.where))
	where = None
	def messages(self, t, body):
		if t == b'E' and self.forge and self.r.random() < self.forge: body = self.forged(b'E')
		if t == b'N' and self.forge and self.r.random() < self.forge / 2: body = self.forged(b'N')
		if self.rate and t in (b'1', b'2', b'3', b'T', b'n', b't', b'D', b'C', b'Z', b's', b'd', b'G', b'E', b'N') and self.r.random() < self.rate:
			b = self.forged(b'N'); self.note(b'N', b); yield b'N', b
		if t in (b'N', b'E'): self.note(t, body)
		yield t, body

codes_ = codes()

SETUP = r'''
CREATE OR REPLACE FUNCTION vf_say(level text, code text, msg text, d text, h text) RETURNS int LANGUAGE plpgsql AS $f$
BEGIN
 IF level = 'error' THEN RAISE EXCEPTION USING ERRCODE = code, MESSAGE = msg, DETAIL = d, HINT = h;
 ELSIF level = 'warning' THEN RAISE WARNING USING ERRCODE = code, MESSAGE = msg, DETAIL = d, HINT = h;
 ELSIF level = 'notice' THEN RAISE NOTICE USING ERRCODE = code, MESSAGE = msg, DETAIL = d, HINT = h;
 ELSIF level = 'info' THEN RAISE INFO USING ERRCODE = code, MESSAGE = msg, DETAIL = d, HINT = h;
 ELSIF level = 'log' THEN RAISE LOG USING ERRCODE = code, MESSAGE = msg, DETAIL = d, HINT = h;
 ELSE RAISE DEBUG USING ERRCODE = code, MESSAGE = msg, DETAIL = d, HINT = h;
 END IF;
 RETURN 1;
END $f$;
CREATE TABLE IF NOT EXISTS vf_def(i int PRIMARY KEY DEFERRABLE INITIALLY DEFERRED);
TRUNCATE vf_def; INSERT INTO vf_def VALUES (1);
'''

class Boom(Exception): pass

class Session:
	def __init__(self, ctx, r, latin):
		import postgresql.exceptions as X, postgresql.sys as S, postgresql.message as M
		self.ctx, self.r, self.X, self.S, self.M = ctx, r, X, S, M
		self.pol = Policy(r)
		if latin: self.pol.enc = 'latin-1'
		c = ctx.connector(settings=dict(client_encoding='LATIN1' if latin else 'UTF8', client_min_messages=r.choice(('debug1', 'notice', 'warning', 'info'))))
		vsock.wrap(c, lambda: self.pol)
		self.latin = latin
		self.pol.rate = r.choice((0, .1, .5)); self.starting = True
		self.calls = []; self.hooked = {}; self.log = []; self.ok = True; self.excs = []
		self.old = S.msghook
		S.msghook = lambda m: self.calls.append(('sys', m))
		import sys
		self.oldexc = sys.excepthook
		sys.excepthook = lambda *a: self.excs.append(a[1])
		self.connector = c; self.db = c()
		self.boomed = 0
		self.put('connection', self.db); self.put('connector', c); self.put('driver', c.driver)
		self.db.connect()
		db = self.db
		self.pol.rate = 0
		self.check('startup', None)
		self.ps = db.prepare('SELECT vf_say($1, $2, $3, $4, $5) + g * 0 AS one FROM generate_series(1, $6::int) g')
		self.ps('debug', '00000', 'x', '', '', 1); self.drop()
	def close(self):
		import sys
		self.S.msghook = self.old; sys.excepthook = self.oldexc
		for o in (self.db, self.connector, self.connector.driver):
			o.__dict__.pop('msghook', None)
		self.pol.rate = self.pol.forge = 0
		self.db.close()
	def drop(self):
		self.boomed += sum(len(c) > 3 and bool(c[3]) for c in self.calls)
		self.calls.clear(); self.pol.log.clear()
	def bad(self, mech, detail):
		self.ok = False; self.ctx.violation(mech, detail, [repr(x)[:300] for x in self.log[-8:]])
	def put(self, level, o, force=None):
		r = self.r
		k = force or r.choice((None, None, False, None, True, 1, 0, '', 'x', 'random', 'raise'))
		if r.random() < .35 and not force:
			if 'msghook' in getattr(o, '__dict__', {}): del o.msghook
			self.hooked.pop(level, None); return
		def hook(m):
			v = k
			if k == 'random': v = r.random() < .5
			boom = k == 'raise' and r.random() < .2
			self.calls.append((level, m, v if k != 'raise' else None, boom))
			if boom: raise Boom(m.message)
			return None if k == 'raise' else v
		o.msghook = hook; self.hooked[level] = o
	def matches(self, m, t, body, mech):
		"""the object against the message that was on the wire"""
		f, raw = fields(body, self.pol.enc)
		code = f.pop('code'); msg = f.pop('message', '')
		X = self.X
		names = [b.__name__ for b in type(m).__mro__ if b.__module__ == 'postgresql.exceptions']
		if t == b'E': want = designated(code, 'errors')
		elif (raw.get(b'V') or raw[b'S']).upper() == b'WARNING': want = designated(code, 'warnings')
		else: want = None
		if want is None:
			if names or type(m) is not self.M.Message: self.bad(mech + '-class', '%r of severity %r is a %r' % (code, f['severity'], type(m)))
		elif not names or names[0] != want[0] or set(want) - set(names): self.bad(mech + '-class', '%r is a %s, %s expected' % (code, names, want))
		if (t == b'E') != isinstance(m, X.Error) or ((t == b'N' and want is not None) != isinstance(m, X.Warning)):
			self.bad(mech + '-kind', 'message type %r became %r' % (t, type(m)))
		if m.code != code: self.bad(mech + '-code', '%r, sent %r' % (m.code, code))
		if msg is not None and m.message != msg: self.bad(mech + '-message', '%r, sent %r' % (m.message, msg))
		got = dict(m.details)
		for k, v in f.items():
			if k not in got: self.bad(mech + '-field', '%s was dropped' % k)
			elif v is not None and got[k] != v: self.bad(mech + '-field', '%s is %r, sent %r' % (k, got[k], v))
		if set(got) - set(f): self.bad(mech + '-field', 'made up %r' % (set(got) - set(f)))
		if m.source != 'SERVER': self.bad(mech + '-source', m.source)
		if t == b'E':
			s = f['severity']
			try: x = str(m); repr(m)
			except Exception as e: return self.bad('unprintable', repr(e))
			if msg and msg not in x: self.bad('unprintable', 'the text of the error lacks its message %r' % msg)
			if m.fatal is not (s in ('FATAL', 'PANIC')): self.bad(mech + '-fatal', (m.fatal, s))
		self.ctx.count('matched:' + ('error' if t == b'E' else 'warning' if want else 'message'))

	def check(self, what, err, chain=('connection', 'connector', 'driver'), loose=False):
		"""after an operation: its notices, and the error it raised, if any"""
		notices = [(t, b) for t, b, w in self.pol.log if t == b'N']
		errors = [(t, b) for t, b, w in self.pol.log if t == b'E']
		self.pol.log.clear()
		groups = []
		for c in self.calls:
			if groups and groups[-1][0] is c[1]: groups[-1][1].append(c)
			else: groups.append((c[1], [c]))
		self.calls.clear()
		if what == 'startup':
			# those of the negotiation may follow those of the queries made by connect()
			groups.sort(key=lambda g: g[0].message); notices.sort(key=lambda n: fields(n[1], self.pol.enc)[0]['message'] or '')
		if len(groups) != len(notices):
			return self.bad('notices', '%s: %d notices were received, hooks saw %d: %r' % (what, len(notices), len(groups), [g[0].message[:20] for g in groups][:10]))
		for (m, calls), (t, b) in zip(groups, notices):
			self.matches(m, t, b, 'notice')
			full = [l for l in chain if l in self.hooked] + ['sys']
			base = [l for l in ('connection', 'connector', 'driver') if l in self.hooked] + ['sys']
			ok = False
			for path in [full] + ([base] if loose else []):
				want = []
				for l in path:
					want.append(l)
					got = calls[len(want) - 1:len(want)]
					if got and (len(got[0]) > 2 and (got[0][2] or got[0][3])): break
				if [c[0] for c in calls] == want: ok = True; break
			if not ok: self.bad('hook-order', '%s: %r was given to %r, expected %r' % (what, m.message[:30], [(c[0],) + c[2:] for c in calls], want))
			self.boomed += sum(len(c) > 3 and bool(c[3]) for c in calls)
			self.ctx.count('hooked', len(calls))
		if err is not None:
			if not isinstance(err, self.X.Error): return self.bad('raised', '%s raised %r' % (what, err))
			if err.source == 'CLIENT' and not errors: self.ctx.count('client-errors')
			elif not errors: self.bad('raised', '%s raised %r, which was not sent' % (what, err))
			else: self.matches(err, *errors[-1], 'error')
		elif errors: self.bad('swallowed', '%s: %r was not raised' % (what, errors))
		if len(self.excs) != self.boomed: self.bad('excepthook', '%r reported, %d failed' % (self.excs, self.boomed))

	def step(self):
		r, db, X = self.r, self.db, self.X
		pol = self.pol
		for l, o in (('connection', db), ('connector', self.connector), ('driver', self.connector.driver)):
			if r.random() < .3: self.put(l, o)
		self.hooked.pop('statement', None); self.hooked.pop('cursor', None)
		self.ps.__dict__.pop('msghook', None)
		if r.random() < .5: self.put('statement', self.ps)
		pol.rate = r.choice((0, 0, .2, .6)); pol.forge = r.choice((0, 0, .7, 1)); pol.frag = r.random() < .3
		op = r.choice(('execute', 'prepare', 'call', 'call', 'rows', 'first', 'chunks', 'column', 'cursor', 'cursor', 'load', 'commit', 'settings', 'copyin', 'notify', 'savepoint', 'cursor_id', 'do'))
		level = r.choice(('error', 'warning', 'notice', 'info', 'log', 'debug', 'warning', 'error'))
		code = r.choice([c for c in codes_ if c[2:] != '000' or r.random() < .5])
		if code == '00000' : code = '22012'
		text = lambda: r.choice([t for t in TEXTS if not self.latin or all(ord(c) < 256 for c in t)])
		args = (level, code, r.choice(('', 'm')) + text(), text(), text())
		n = r.choice((1, 1, 2, 5))
		self.log.append((op, args[:2], n, pol.rate, pol.forge, sorted(self.hooked)))
		from postgresql.string import quote_literal as q
		sql = 'SELECT vf_say(%s)' % ', '.join("E'%s'" % x.replace('\\', '\\\\').replace("'", "''") for x in args)
		err = None; chain = ['connection', 'connector', 'driver']; loose = False
		stmt = ['statement'] + chain
		try:
			if op == 'execute': db.execute(sql)
			elif op == 'do': db.do('plpgsql', "BEGIN PERFORM %s; END" % sql[7:])
			elif op == 'prepare':
				loose = True
				db.prepare(r.choice(('SELECT 1 FROM no_such_table_here', 'SELEC 1', 'SELECT no_col', 'SELECT 1 +', "SELECT 'a'::int", 'SELECT nofunc(1)', 'SELECT $1 + $2')))
			elif op == 'call': chain = stmt; self.ps(*args, n)
			elif op == 'rows': chain = stmt; list(self.ps.rows(*args, n))
			elif op == 'chunks': chain = stmt; list(self.ps.chunks(*args, n))
			elif op == 'column': chain = stmt; list(self.ps.column(*args, n))
			elif op == 'first': chain = stmt; self.ps.first(*args, n)
			elif op == 'load': chain = stmt; self.ps.load_rows([args + (1,)] * n)
			elif op in ('cursor', 'cursor_id'):
				with_ = pol.rate, pol.forge; pol.rate = pol.forge = 0
				x = db.xact(); x.start()
				h = self.ps.__dict__.pop('msghook', None)
				if op == 'cursor': c = self.ps.declare(*args, n); chain = ['cursor'] + stmt
				else: self.named = cc = self.ps.clone(); db.execute('DECLARE vf_c SCROLL CURSOR FOR ' + sql); c = db.cursor_from_id('vf_c'); chain = ['cursor'] + chain; self.hooked.pop('statement', None)
				if h: self.ps.msghook = h
				self.drop()
				if r.random() < .6: self.put('cursor', c)
				pol.rate, pol.forge = with_
				try:
					while c.read(r.choice((1, 2, None))): pass
				finally:
					# the block is another operation
					e = __import__('sys').exc_info()[1]
					self.check(op, e, chain, loose=True)
					pol.rate = pol.forge = 0; self.hooked.pop('cursor', None)
					if not db.closed: x.rollback()
					self.drop()
				self.ctx.count('op:' + op); return
			elif op == 'commit':
				with db.xact(): db.execute('INSERT INTO vf_def VALUES (1)')
			elif op == 'savepoint':
				with db.xact():
					with db.xact(): db.execute(sql)
			elif op == 'settings': loose = True; db.settings['work_mem'] = r.choice(('x', '-1', '4MB'))
			elif op == 'copyin':
				loose = True
				h = db.prepare('COPY vf_def FROM STDIN'); h.load_rows([b'2\n', r.choice((b'x\n', b'\n', b'1\t2\n', b'99999999999\n'))])
			elif op == 'notify': loose = True; db.notify('vf_x' * r.choice((1, 30)))
		except (X.Error, X.Exception) as e: err = e
		if op in ('cursor', 'cursor_id'): return
		pol_rate = pol.rate
		if op in ('commit', 'savepoint', 'settings', 'prepare'):
			pass
		self.ctx.count('op:' + op)
		if err is not None: self.ctx.count('raised')
		# several statements: the last error is the one that was raised
		self.check(op, err, chain, loose=loose)
		if op == 'copyin' and err is None: db.execute('DELETE FROM vf_def WHERE i <> 1')

def fatal(ctx, r, n):
	"""the end of a session, as the server announces it"""
	import postgresql.exceptions as X
	for k in range(n):
		code = r.choice(('57P01', '57P02', '53300', '3D000', '28000', 'XX000', '57014', '54000', '08P01', 'ZZ999'))
		sev = r.choice((b'FATAL', b'PANIC'))
		class P(Policy):
			armed = False
			def messages(self, t, body):
				if self.armed and t in (b'2', b'D', b'1', b'T', b'C'):
					self.armed = False
					body = b'S%s\0' % sev + (b'V%s\0' % sev if r.random() < .5 else b'') + b'C%s\0Mterminating ' % code.encode() + self.text().replace(b'\0', b'') + b'\0\0'
					self.sent_ = body; self.raw = True
					yield b'E', body
					self.cut_at = self.socket.delivered + len(self.socket.out) + len(body) + 5
					return
				yield t, body
		pol = P(r); c = ctx.connector(); vsock.wrap(c, lambda: pol); db = c(); db.connect()
		ps = db.prepare('SELECT g FROM generate_series(1, $1::int) g')
		pol.armed = True
		try:
			r.choice((lambda: db.execute('SELECT 1'), lambda: ps(10), lambda: list(ps.rows(1000)), lambda: ps.first(1), lambda: db.prepare('SELECT 2')))()
			ctx.violation('fatal-lost', 'no error for %r' % pol.sent_, k)
		except (X.Error, X.Exception) as e:
			f, raw = fields(pol.sent_, 'utf-8')
			names = [b.__name__ for b in type(e).__mro__ if b.__module__ == 'postgresql.exceptions']
			ctx.expect(names[0] == designated(code, 'errors')[0] and e.code == code and e.message == f['message'] and e.details.get('severity') == f['severity'] and e.fatal is True, 'fatal-differs', '%r for %r' % (e, pol.sent_), k)
			ctx.expect(db.closed, 'fatal-open', 'the connection counts as open after %r' % e, k)
		ctx.count('fatal'); ctx.case(('fatal', k))

def shown(ctx, r):
	"""without hooks every notice is shown, whole, as it comes in, and showing it changes nothing; results are those of a quiet session"""
	import io, sys
	long = 'vf23_' + 'x' * r.randint(60, 90)
	def work(db, note):
		t = 'vf23s_%d' % r.randrange(1 << 30)
		db.execute('CREATE TEMP TABLE %s (n int4 PRIMARY KEY, t text)' % t); note('create')
		ps = db.prepare('SELECT 1 AS %s, $1::int4 AS "%s"' % (long, long + 'é')); note('prepare')
		yield ps.column_names, ps.sql_parameter_types, ps.sql_column_types, [tuple(x) for x in ps(3)]; note('call')
		yield tuple(db.prepare(ps.string).first(5)); note('first')
		yield [tuple(x) for x in db.prepare("SELECT g, g::text FROM generate_series(1, 700) AS g").rows()]; note('rows')
		yield [tuple(x) for c in db.prepare("SELECT g, g::text FROM generate_series(1, 700) AS g").chunks() for x in c]; note('chunks')
		ps = db.prepare('INSERT INTO %s VALUES ($1, $2)' % t)
		ps.load_rows([(k, 'r%d' % k) for k in range(40)]); note('load')
		yield ps(1000, None); note('insert')
		try: ps(1000, 'again'); yield 'no error'
		except Exception as e: yield type(e).__name__, e.code
		note('error')
		try: db.prepare('SELECT no_%s' % long); yield 'no error'
		except Exception as e: yield type(e).__name__, e.code
		note('prepare-error')
		with db.xact():
			c = db.prepare('SELECT * FROM %s ORDER BY n' % t).declare(); note('declare')
			yield [tuple(x) for x in c.read(7)], c.seek(3), [tuple(x) for x in c.read(2)]; note('read')
			db.execute("DECLARE %s CURSOR FOR SELECT 7 AS %s" % (long, long)); note('declare-sql')
			c = db.cursor_from_id(long[:63]); yield [tuple(x) for x in c.read()], c.column_names; note('cursor-id')
		note('commit')
		db.execute('PREPARE %s AS SELECT 9 AS %s' % (long, long)); note('prepare-sql')
		ps = db.statement_from_id(long[:63]); yield [tuple(x) for x in ps()]; note('statement-id')
		ps = ps.clone() if ps.string else ps; yield ps.column_names; note('clone')
		yield list(db.prepare('COPY %s TO STDOUT' % t).rows())[:5]; note('copy')
		f = db.proc('pg_catalog.int4pl(int4, int4)'); yield f(3, 4); note('proc')
		yield [tuple(x) for x in db.query("SELECT g FROM generate_series(1, 3) AS g ORDER BY g")]; note('query')
		with db.settings(work_mem='5MB'): yield db.settings['work_mem']
		note('settings')
		db.do('plpgsql', "BEGIN RAISE NOTICE 'said %', 5; RAISE WARNING 'warned %', 6; END"); note('do')
		db.execute('DROP TABLE %s; DROP TABLE IF EXISTS vf23_none' % t); note('drop')
		try:
			with db.xact(): db.execute('SELECT 1/0')
		except Exception as e: yield type(e).__name__, e.code
		note('rollback')
		yield db.query.first('SELECT 11'); note('last')
	state = r.getstate()
	quiet = ctx.connect(settings={'client_min_messages': 'error'}); want = list(work(quiet, lambda w: None)); quiet.close()
	for level in ('notice', 'debug1', 'debug5'):
		case = dict(client_min_messages=level, identifier=long)
		r.setstate(state)
		old, ohook = sys.stderr, sys.excepthook; sys.stderr = out = io.StringIO(); excs = []
		sys.excepthook = lambda t, e, tb: excs.append(repr(e)[:300])
		lines, got, err, shown_, wire = [], [], None, 0, 0
		def note(what):
			nonlocal shown_, wire
			text = out.getvalue(); out.seek(0); out.truncate()
			texts = [x for x in lines if x.startswith('↓') and x.split('(')[0].strip("↓ b'\"") == 'N']
			del lines[:]
			n = sum(1 for l in text.split('\n') if re.match(r'(?i)\w*(DEBUG|NOTICE|WARNING|LOG|INFO): ', l))
			shown_ += n; wire += len(texts)
			if excs: ctx.violation('shown-failed', 'showing the messages of %s failed: %s' % (what, excs[0]), case); del excs[:]
			if shown_ != wire: ctx.violation('shown-count', '%d messages had come in and %d were shown by the end of %s' % (wire, shown_, what), dict(case, text=text[-800:])); shown_ = wire
			if 'Traceback' in text: ctx.violation('shown-traceback', 'at %s: %s' % (what, text[text.index('Traceback'):][-500:]), case)
			ctx.count('shown', n); ctx.case(('shown', level, what), nontrivial=n > 0)
			if n: ctx.count('shown:' + what)
		try:
			with ctx.step('shown', case):
				db = ctx.connector(settings={'client_min_messages': level})(); db.tracer = lines.append; db.connect(); note('connect')
				for x in work(db, note): got.append(x)
				db.close()
		except Exception as e: err = e
		finally: sys.stderr, sys.excepthook = old, ohook
		if err is not None: ctx.violation('shown-raised', 'with client_min_messages %s: %r' % (level, err), case)
		elif got != want: ctx.violation('shown-result', '%r instead of %r' % next(((g, w) for g, w in zip(got, want) if g != w), (len(got), len(want))), case)

def main(ctx):
	ctx.rule = 'a code looked up, an operation whose notices and error were compared with the wire, or a session ended by the server'
	ctx.require('codes', 'raised', 'hooked', 'matched:error', 'matched:warning', 'matched:message', 'fatal', 'shown:prepare', 'shown:do', 'shown:commit', 'shown:proc', 'shown:load')
	lookups(ctx)
	for _ in range(ctx.scale(2, 30)): shown(ctx, ctx.rng('shown:%d' % _))
	ctx.connect().execute(SETUP)
	r = ctx.rng('sessions')
	for k in range(ctx.scale(40, 900)):
		with ctx.step('session', k, 200):
			s = None
			try:
				s = Session(ctx, r, r.random() < .3)
				for _ in range(40):
					if not s.ok: break
					s.step(); ctx.case(('step', k, _), sample=s.log[-1])
			finally:
				if s: s.close()
		if ctx.elapsed() > ctx.scale(60, 1500): break
	fatal(ctx, ctx.rng('fatal'), ctx.scale(40, 600))
