"""
C22: the settings mapping against the server's own account of the session, a
mirror session that makes the same assignments, and the reports on the wire.
"""
import json
from vf import pq, sock as vsock

TEXTS = ['', ' ', 'x', "o'clock", 'a"b', '""', "''", 'back\\slash', '%s', '$1', '-- no', ';', '/*', 'semi;colon', 'tab\tnl\n', 'a,b', '"a", b', 'ünï', '{}', 'NULL', 'None', 'DEFAULT', 'x' * 60, 'x' * 300, '0', ' lead', "E'\\n'"]
VALUES = {
	'TimeZone': ['UTC', 'Asia/Tokyo', 'America/New_York', 'utc', 'Europe/Berlin', '-3:30', 'nowhere/land', 'FOO+5'],
	'DateStyle': ['ISO, MDY', 'ISO, DMY', 'German, DMY', 'SQL, YMD', 'iso, ymd', 'nonsense'],
	'IntervalStyle': ['postgres', 'iso_8601', 'sql_standard', 'POSTGRES_VERBOSE', 'bad'],
	'application_name': TEXTS,
	'client_encoding': ['UTF8', 'LATIN1', 'utf-8', 'SQL_ASCIIX', 'LATIN9'],
	'default_transaction_read_only': ['off', 'on', 'false', '0', 'no', 'maybe'],
	'search_path': ['public', 'public,pg_catalog', '', '"a b","c""d"', '"$user", public', "'q'", 'Foo, "Foo"', 'a,,b', '"x', 'é'],
	'work_mem': ['4MB', '4096', '64kB', '1GB', '-5', '10 MB', '8192kB', 'lots'],
	'statement_timeout': ['0', '100000', '100s', '5min', '-1', '3000000ms'],
	'enable_seqscan': ['on', 'off', 'tru', '2', 'TRUE'],
	'extra_float_digits': ['0', '3', '-5', '1', '4'],
	'default_statistics_target': ['100', '1', '10000', '0', '50'],
	'random_page_cost': ['4', '1.5', '0.1', '1e2', '-1', 'x'],
	'bytea_output': ['hex', 'escape', 'HEX', 'base64'],
	'client_min_messages': ['warning', 'error', 'notice', 'ERROR', 'shout'],
	'my.custom': TEXTS,
	'my.Other_2': TEXTS,
	'lock_timeout': ['0', '50000', '1min', 'x'],
	'xmlbinary': ['base64', 'hex', 'HEX', ''],
	'session_replication_role': ['origin', 'replica', 'local', 'none'],
	'temp_tablespaces': ['', 'pg_default', '"no such"'],
	'nosuchsetting': ['x'], 'no such': ['x'], '': ['x'], "a'b": ['x'], 'a"b': ['1'],
}
UNKNOWN = ('nosuchsetting', 'no such', '', "a'b", 'a"b', ' $*0293 vksnd')
REPORTED = ('TimeZone', 'DateStyle', 'IntervalStyle', 'application_name', 'client_encoding', 'default_transaction_read_only')
NAMES = [k for k in VALUES if k not in UNKNOWN]

class Policy(vsock.Policy):
	def __init__(self, r): self.r = r; self.log = []; self.rate = 0; self.n = 0
	def chunk(self, n): return self.r.choice((1, 3, 50, n)) if self.rate else n
	def messages(self, t, body):
		if t == b'S':
			x = pq.R(body); k = x.cs().decode(); self.log.append((k, x.cs().decode('utf-8', 'replace')))
		if self.rate and t in (b'D', b'C', b'T', b'1', b'2', b'Z') and self.r.random() < self.rate:
			self.n += 1; v = 'v%d' % self.n; k = self.r.choice(('vf_injected', 'Vf_Other'))
			self.log.append((k, v)); yield b'S', k.encode() + b'\0' + v.encode() + b'\0'
		yield t, body

def norm(t):
	# an unset customized setting may exist, empty, once it has been mentioned
	return {k: ('' if k.lower().startswith('my.') and v == (None, None) else v) if not k.lower().startswith('my.') else (v[0] or '') for k, v in t.items()}

class E(Exception): pass

class History:
	def __init__(self, ctx, r):
		import postgresql.exceptions as X
		self.X = (X.Error, X.Exception)
		self.ctx, self.r = ctx, r
		c = ctx.connector(); self.pol = Policy(r); vsock.wrap(c, lambda: self.pol)
		self.db = c(); self.db.connect()
		self.mirror = ctx.connect()
		self.log = []; self.ok = True
		self.truth_ps = {}
		self.frames = []   # kinds of open blocks
		self.heard = []; self.subs = []
		self.pol.log.clear()
	def bad(self, mech, detail):
		self.ok = False; self.ctx.violation(mech, detail, [repr(x) for x in self.log[-25:]])
	def truth(self, db, names):
		"""{name: accepted spellings} by asking the server"""
		if db not in self.truth_ps:
			self.truth_ps[db] = db.prepare("SELECT n, current_setting(n, true), (SELECT setting FROM pg_settings WHERE lower(name) = lower(n)) FROM unnest($1::text[]) n")
		return {n: (cur, raw) for n, cur, raw in self.truth_ps[db](list(names))}
	def failed(self): return self.db.pq.state == b'E'

	def compare(self, names=None):
		r = self.r
		if self.failed(): return
		names = names or r.sample(NAMES, 3)
		# the way of reading comes first, so that nothing else has refreshed what it sees
		got = {}
		how = r.choice(('item', 'get', 'getset', 'item', 'get', 'items'))
		asked = [r.choice((n, n, n.lower(), n.upper())) for n in names]
		s = self.db.settings
		try:
			if how == 'item':
				for a in asked:
					try: got[a] = s[a]
					except KeyError: got[a] = None
			elif how == 'get':
				for a in asked: got[a] = s.get(a) if r.random() < .5 else s.get(a, None)
			elif how == 'getset':
				try: got = dict(s.getset(asked))
				except KeyError as e:
					miss = set(e.args[0]); t = self.truth(self.db, asked)
					want = {a for a in asked if t[a] == (None, None)}
					if miss != want: self.bad('getset-missing', '%r reported missing, %r are' % (miss, want))
					self.ctx.count('getset-missing'); return
			else:
				all_ = {k.lower(): v for k, v in (s.items() if r.random() < .5 else zip(s.keys(), s.values()))}
				for a in asked: got[a] = all_.get(a.lower())
		except self.X as e: return self.bad('read-failed', '%s of %r: %r' % (how, asked, e))
		t = self.truth(self.db, asked)
		for a in asked:
			v = got.get(a); self.ctx.count('reads')
			if a.lower().startswith('my.') and how == 'items': continue
			if (v is None) != (t[a] == (None, None)) or (v is not None and v not in t[a]):
				return self.bad('read-differs', '%s of %r gave %r, in force is %r' % (how, a, v, t[a]))

	def set_expect(self, pairs):
		"""what the mirror session makes of these assignments; None when refused"""
		m = self.mirror
		try:
			with m.xact():
				for k, v in pairs: m.prepare('SELECT set_config($1, $2, false)').first(k, v)
		except self.X as e: return None
		return {k: x for k, x in self.truth(m, [k for k, v in pairs]).items()}

	def assign(self, fn, pairs, what):
		want = self.set_expect(pairs)
		names = [k for k, v in pairs]
		before = None if self.failed() else self.truth(self.db, names)
		watch = None if self.failed() else self.truth(self.db, NAMES)
		was_failed = self.failed()
		try: fn(); err = None
		except self.X as e: err = e
		self.log[-1] += (repr(err)[:80],)
		if was_failed:
			if err is None: self.bad('assigned-in-failed', what)
			return
		if want is None:
			if err is None: return self.bad('refused-value-accepted', '%s %r gave no error' % (what, pairs))
			self.ctx.count('refused')
			if not self.failed():
				after = self.truth(self.db, NAMES)
				if norm(after) != norm(watch): return self.bad('refused-changed', '%r changed %r' % (pairs, {k: (watch[k], after[k]) for k in after if after[k] != watch[k]}))
			return
		if err is not None: return self.bad('assign-failed', '%s %r: %r' % (what, pairs, err))
		after = self.truth(self.db, NAMES)
		self.ctx.count('assigned')
		for k in names:
			if self.truth(self.db, [k])[k] != want[k]: return self.bad('assign-differs', '%s %r put %r in force, %r expected' % (what, (k, dict(pairs)[k]), self.truth(self.db, [k])[k], want[k]))
		ch = {n for n in NAMES if after[n] != watch[n]} - {n for n in NAMES if n.lower() in [k.lower() for k in names]}
		if ch: self.bad('assign-others', '%s %r changed %r' % (what, pairs, ch))

	def pick(self, valid=False):
		r = self.r
		k = r.choice(NAMES) if valid or r.random() < .93 else r.choice(UNKNOWN)
		if k == 'client_encoding' and r.random() < .6: k = 'TimeZone'
		return k, r.choice(VALUES.get(k, ['x']))

	def recode(self, k):
		return r.choice((k, k.lower(), k.upper())) if 0 else k

	def step(self, depth):
		r, db, X = self.r, self.db, self.X
		s = db.settings
		op = r.choices(('set', 'update', 'cm', 'path', 'sql', 'local', 'resetall', 'del', 'block', 'savepoint', 'read', 'unknown', 'subscribe', 'unsubscribe', 'stream', 'mapping', 'fail', 'inject'),
			(6, 3, 5, 1.5, 4, 2, .3, 1.5, 3, 1.5, 4, .7, 1.5, .8, .8, .4, 1, .6))[0]
		self.log.append((op,))
		if op == 'set':
			k, v = self.pick(); k = r.choice((k, k, k.lower())); self.log[-1] += (k, v)
			self.assign(lambda: s.__setitem__(k, v), [(k, v)], 'assigning')
		elif op == 'update':
			d = dict(self.pick() for _ in range(r.choice((0, 1, 2, 4)))); self.log[-1] += (d,)
			arg = r.choice((d, list(d.items()), tuple(d.items())))
			self.assign(lambda: s.update(arg), list(d.items()), 'updating')
		elif op == 'path':
			p = [r.choice(('public', 'pg_catalog', 'Foo', 'a b', 'c"d', 'x,y', '$user', "q'q", '"', 'é', ' ', 'p;', '\\')) for _ in range(r.choice((0, 1, 2, 3)))]
			self.log[-1] += (p,)
			if self.failed(): return
			try:
				s.path = r.choice((p, tuple(p)))
				g = s.path
			except X as e: return self.bad('path-failed', '%r: %r' % (p, e))
			if list(g) != p: return self.bad('path-differs', 'assigned %r, read %r' % (p, g))
			want = db.prepare('SELECT current_schemas(false)').first()
			real = db.prepare("SELECT ARRAY(SELECT nspname::text FROM unnest($1::text[]) WITH ORDINALITY AS u(x, o) JOIN pg_namespace ON nspname = CASE WHEN x = '$user' THEN current_user ELSE x END ORDER BY o)").first(p)
			real = list(dict.fromkeys(real))
			if list(want) != real: self.bad('path-meaning', 'path %r makes the schemas %r effective, not %r' % (p, list(want), real))
			self.ctx.count('paths')
		elif op in ('sql', 'local'):
			if self.failed(): return
			k, v = self.pick(); self.log[-1] += (k, v)
			try: db.prepare('SELECT set_config($1, $2, %s)' % ('true' if op == 'local' else 'false')).first(k, v)
			except X as e: self.log[-1] += (repr(e)[:60],)
			self.ctx.count('changed-by-sql')
		elif op == 'resetall':
			if not self.failed(): db.execute('RESET ALL')
		elif op == 'del':
			k = self.pick(True)[0]; self.log[-1] += (k,)
			if self.failed(): return
			try: del s[k]
			except X as e: return self.bad('reset-failed', '%r: %r' % (k, e))
			m = self.mirror; m.execute('RESET "%s"' % k)
			if k.startswith('my.'): return
			a, b = self.truth(db, [k])[k], self.truth(m, [k])[k]
			if a != b: self.bad('reset-differs', '%r after reset is %r, %r expected' % (k, a, b))
			self.ctx.count('resets')
		elif op == 'cm': self.cm(depth)
		elif op in ('block', 'savepoint'):
			if op == 'savepoint' and not self.frames: return
			if depth > 3 or self.failed(): return
			end = r.choice(('commit', 'commit', 'raise', 'error'))
			self.frames.append(op); self.log[-1] += ('begin',)
			before = self.truth(db, NAMES)
			x = None
			try:
				with db.xact() as x:
					for _ in range(r.choice((1, 2, 4))):
						if not self.ok or self.failed(): break
						self.step(depth + 1); self.ok and self.compare()
					self.log.append(('end', op, end))
					if self.failed(): raise E()
					if end == 'raise': raise E()
					elif end == 'error': db.execute('SELECT 1/0')
			except E: pass
			except X as e:
				if end != 'error': self.bad('block-failed', repr(e))
			finally: self.frames.pop()
			if self.ok and (end != 'commit' or x.state == 'aborted') and not self.failed():
				after = self.truth(db, [n for n in NAMES if not n.startswith('my.')])
				if any(after[n] != before[n] for n in after): self.bad('harness', 'rolled back to other values')
			self.ctx.count('blocks')
		elif op == 'unknown':
			k = r.choice(UNKNOWN); self.log[-1] += (k,)
			if self.failed(): return
			try: v = s[k]
			except KeyError: v = KeyError
			except X as e: v = e
			if v is not KeyError: return self.bad('unknown-read', '%r gave %r' % (k, v))
			d = object()
			v = s.get(k, d)
			if v is not d: return self.bad('unknown-default', '%r gave %r' % (k, v))
			try: s.getset([k, 'TimeZone', 'work_mem']); v = None
			except KeyError as e: v = set(e.args[0])
			if v != {k}: return self.bad('unknown-getset', '%r: %r' % (k, v))
			self.ctx.count('unknown')
		elif op == 'mapping':
			if self.failed(): return
			ks = list(s.keys()); t = [tuple(x) for x in db.prepare('SELECT name, setting FROM pg_settings ORDER BY name')()]
			if ks != [a for a, b in t] or list(s) != ks or len(s) != len(t) or list(s.values()) != [b for a, b in t] or [tuple(x) for x in s.items()] != t:
				self.bad('mapping-differs', 'keys, values, items, iteration or length differ from pg_settings')
			self.ctx.count('mapping')
		elif op == 'subscribe':
			k = r.choice(REPORTED + ('vf_injected', 'Vf_Other', 'timezone', 'vf_other', None, None)); self.log[-1] += (k,)
			n = len(self.subs); once = r.random() < .15
			sub = dict(key=k, from_=len(self.pol.log), calls=[], to=None, once=once)
			# what is on the wire but not yet seen belongs to it as well
			db.prepare('SELECT 1').first(); sub['from_'] = len(self.pol.log)
			def cb(conn, key, val):
				sub['calls'].append((conn is db, key, val))
				if once and len(sub['calls']) == 1: s.unsubscribe(k, cb)
			sub['cb'] = cb
			for _ in range(r.choice((1, 1, 2))): s.subscribe(k, cb)
			self.subs.append(sub)
		elif op == 'unsubscribe':
			live = [x for x in self.subs if x['to'] is None]
			if not live: return
			if not self.failed(): db.prepare('SELECT 1').first()
			x = r.choice(live); s.unsubscribe(x['key'], x['cb'])
			if r.random() < .3: s.unsubscribe(x['key'], x['cb'])
			x['to'] = len(self.pol.log)
		elif op == 'stream':
			if self.failed(): return
			k = r.choice(('TimeZone', 'work_mem')); vs = VALUES[k][:2]
			it = db.prepare("SELECT set_config($1, ($2::text[])[1 + g %% 2], false) FROM generate_series(1, %d) g" % r.choice((1, 3, 300, 900))).rows(k, vs)
			for _ in range(r.choice((0, 1, 3))):
				try: next(it)
				except StopIteration: break
			self.ctx.count('streams'); self.log[-1] += (k,)
			self.compare([k, 'DateStyle'])
		elif op == 'fail':
			if self.frames and r.random() < .3 and not self.failed():
				try: db.execute('SELECT 1/0')
				except X: pass
		elif op == 'inject': self.pol.rate = r.choice((0, .05, .2))

	def cm(self, depth):
		r, db, X = self.r, self.db, self.X
		if depth > 4 or self.failed(): return
		pairs = {}
		for _ in range(r.choice((1, 1, 2, 3))):
			k, v = self.pick()
			if r.random() < .8:
				# values that are good
				want = self.set_expect([(k, v)])
				if want is None: continue
			pairs[r.choice((k, k.lower())) if '.' not in k else k] = v
		ks = [k.lower() for k in pairs]
		if len(set(ks)) != len(ks): return
		self.log[-1] += (pairs,)
		before = self.truth(db, list(pairs))
		unset = [k for k in pairs if before[k] == (None, None)]
		want = self.set_expect(list(pairs.items()))
		watch = self.truth(db, NAMES)
		how = r.choice(('leave', 'raise', 'server-error', 'leave'))
		entered = False; outer = len(self.frames)
		exc = E()
		try:
			with db.settings(**pairs):
				entered = True
				if unset or want is None: return self.bad('context-entered', '%r although %r' % (pairs, unset or 'refused'))
				got = self.truth(db, list(pairs))
				for k in pairs:
					if got[k] != want[k]: return self.bad('context-differs', '%r is %r inside, %r expected' % (k, got[k], want[k]))
				for _ in range(r.choice((0, 1, 3))):
					if not self.ok or self.failed(): break
					self.step(depth + 1); self.ok and self.compare()
				if not self.ok: return
				self.log.append(('leave', how))
				if self.failed(): how = 'failed'; raise exc
				if how == 'raise': raise exc
				if how == 'server-error':
					try: db.execute('SELECT 1/0')
					except X as e: exc = e; raise
		except KeyError as e:
			if entered or not unset: return self.bad('context-failed', '%r: %r' % (pairs, e))
		except (E,) + X as e:
			if not entered:
				if want is not None: return self.bad('context-failed', '%r: %r' % (pairs, e))
			elif e is not exc: return self.bad('context-raised', 'left by %r, raised %r' % (exc, e))
		else:
			if how in ('raise', 'server-error', 'failed'): return self.bad('context-swallowed', how)
		if not self.ok or self.failed(): return
		after = self.truth(db, NAMES)
		if entered:
			got = self.truth(db, list(pairs))
			if norm(got) != norm(before): return self.bad('not-restored', 'before the context %r, after it (%s) %r' % (before, how, got))
			self.ctx.count('contexts'); self.ctx.count('context:' + how)
		elif norm(after) != norm(watch): self.bad('refused-changed', 'entering failed, but %r' % {k: (watch[k], after[k]) for k in NAMES if after[k] != watch[k]})

	def reports(self):
		if not self.failed(): self.db.prepare('SELECT 1').first()
		for x in self.subs:
			seen = self.pol.log[x['from_']:x['to']]
			want = [(True, k, v) for k, v in seen if x['key'] is None or k.lower() == x['key'].lower()]
			if x['once']: want = want[:1]
			if x['calls'] != want:
				return self.bad('reports-differ', 'subscription to %r was told %r, reported were %r' % (x['key'], x['calls'][-8:], want[-8:]))
			self.ctx.count('reports', len(want))
		self.ctx.count('subscriptions', len(self.subs))

def main(ctx):
	ctx.rule = 'a history of assignments and reads compared with the values in force'
	ctx.require('reads', 'assigned', 'refused', 'contexts', 'reports', 'blocks', 'unknown', 'paths', 'streams', 'changed-by-sql')
	r = ctx.rng('history')
	for n in range(ctx.scale(60, 1500)):
		with ctx.step('settings history', n, 200):
			h = History(ctx, r)
			for _ in range(ctx.scale(30, 40)):
				if not h.ok: break
				h.step(0)
				if h.ok: h.compare()
			if h.ok: h.reports()
			ctx.case(('history', n), sample=h.log[:5])
			h.db.close(); h.mirror.close()
		if ctx.elapsed() > ctx.scale(60, 1500): break
