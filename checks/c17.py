"""
C17: a cursor against a position in a list.  Every operation is applied to both; a cursor
whose direction is BACKWARD is a position in the reversed list.
"""

class Pos:
	"""p = 0 before the first row, 1..n on a row, n+1 behind the last"""
	def __init__(self, n): self.n, self.p, self.fwd = n, 0, True
	def move(self, k, fwd):
		"""k rows (None: all) in a direction; returns the rows passed"""
		n, p = self.n, self.p
		if k is not None and k < 0: k, fwd = -k, not fwd
		if fwd:
			e = n if k is None else min(p + k, n); out = list(range(p + 1, e + 1)); self.p = n + 1 if k is None or p + k > n else p + k
		else:
			e = 1 if k is None else max(p - k, 1); out = list(range(min(p, n + 1) - 1, e - 1, -1)); self.p = 0 if k is None or p - k < 1 else p - k
		return out
	def absolute(self, k):
		self.p = min(k, self.n + 1) if k >= 0 else max(self.n + 1 + k, 0)
	def from_end(self, k): self.p = min(max(self.n + 1 - k, 0), self.n + 1)

DIRS = {True: [True, 'FORWARD', 'forward'], False: [False, 'BACKWARD', 'backward']}
WH = {'ABSOLUTE': [0, 'ABSOLUTE', 'absolute'], 'RELATIVE': [1, 'RELATIVE', 'relative'], 'FROM_END': [2, 'FROM_END', 'from_end'], 'FORWARD': [3, 'FORWARD', 'Forward'], 'BACKWARD': [4, 'BACKWARD', 'backward']}

class Case:
	def __init__(self, ctx, r, db):
		self.ctx, self.r, self.db = ctx, r, db
		self.log = []
	def vals(self, n): return [(i, 'r%d' % i if i % 4 else None, self.tag) for i in range(1, n + 1)]
	def check(self, what, got, want):
		got = [tuple(x) for x in got]; want = [self.rows[i - 1] for i in want]
		if got != want:
			self.ctx.violation(what, '%s: %d rows %r… instead of %d %r…' % (self.log[-1], len(got), got[:3], len(want), want[:3]), self.log)
			return False
		return True
	def open(self, m, tag):
		r, db, ctx = self.r, self.db, self.ctx
		n = self.n = m.n; self.tag = tag; self.rows = self.vals(n)
		how = self.how = r.choice(('declare', 'declare', 'query', 'byid', 'sql-hold', 'sql-block', 'declare-block', 'both'))
		q = "SELECT i::int4, CASE WHEN i %% 4 = 0 THEN NULL ELSE 'r' || i END, %d::int4 FROM generate_series(1, %d) g(i)" % (tag, n)
		k = r.randrange(3)
		if k == 1: q += ' ORDER BY i'
		if k == 2: q = q.replace('generate_series(1, %d) g(i)' % n, '(SELECT generate_series(1, %d) ORDER BY 1 DESC) g(j), LATERAL (SELECT %d + 1 - j) h(i)' % (n, n))
		self.log.append((how, n, tag))
		self.block = None
		if how in ('sql-block', 'declare-block') or r.random() < .2:
			self.block = db.xact(); self.block.start()
		if how in ('declare', 'declare-block', 'both'):
			p = r.random() < .5
			if p: c = db.prepare(q.replace('generate_series(1, %d)' % n, 'generate_series(1, $1::int4)')).declare(n)
			else: c = db.prepare(q).declare()
		elif how == 'query': c = db.query.declare(q)
		else:
			nm = r.choice(('c17 x', 'C17"q', 'plain', 'ünï', '%s', "it's")) + str(tag)
			db.execute('DECLARE "%s" SCROLL CURSOR %s FOR %s' % (nm.replace('"', '""'), 'WITH HOLD' if how != 'sql-block' else '', q))
			self.name = nm
			c = db.cursor_from_id(nm)
			if c.statement is not None: ctx.violation('from-id', 'a cursor from an identifier claims a statement', self.log)
		if list(c.column_names) != ['i', 'case', 'int4'] or list(c.sql_column_types) != ['INTEGER', 'pg_catalog.text', 'INTEGER']:
			if how != 'k': ctx.violation('cursor-columns', '%r %r' % (c.column_names, c.sql_column_types), self.log)
		ctx.count('how:' + how)
		return c
	def run(self, uid):
		r, db, ctx = self.r, self.db, self.ctx
		n = r.choice((0, 1, 2, 3, 5, 10, 37, 100, 300))
		m = Pos(n); c = self.open(m, uid)
		alias = db.cursor_from_id(c.cursor_id) if self.how == 'both' or r.random() < .2 else None
		others = []
		for step in range(r.choice((3, 8, 20, 40))):
			k = r.random(); cc = c
			cnt = lambda: r.choice((0, 1, 1, 2, 3, n, n + 1, max(n - 1, 0), n // 2, r.randint(0, n + 3), 1000))
			if alias is not None and r.random() < .4: cc = alias; cc.direction = r.choice(DIRS[m.fwd])
			ctx.count('ops')
			if k < .3:
				q = r.choice((None, cnt(), cnt(), cnt())); d = r.choice((None, True, False))
				arg = r.choice(DIRS[d]) if d is not None else None
				self.log.append(('read', q, arg, 'direction', m.fwd, 'at', m.p))
				fwd = m.fwd if d is None else (d == m.fwd)
				with ctx.step('read', self.log): got = cc.read(q, arg) if r.random() < .5 else cc.read(quantity=q, direction=arg)
				want = [] if q == 0 else m.move(q, fwd)
				self.check('read', got, want); ctx.count('read:' + ('fwd' if fwd else 'bwd'))
				if want and (m.p in (0, n + 1)): ctx.count('reached-end')
				if not want: ctx.count('read-nothing')
			elif k < .45:
				self.log.append(('next', m.fwd, 'at', m.p))
				try:
					with ctx.step('next', self.log): got = [next(cc)]
				except StopIteration: got = []
				self.check('next', got, m.move(1, m.fwd)); ctx.count('next')
			elif k < .52:
				m.fwd = r.random() < .5; d = r.choice(DIRS[m.fwd]); self.log.append(('direction', d)); c.direction = d
				if bool(c.direction) is not m.fwd: ctx.violation('direction', '%r reads back as %r' % (d, c.direction), self.log)
				ctx.count('direction')
			elif k < .92:
				w = r.choice(sorted(WH)); arg = r.choice(WH[w]); o = cnt()
				if w in ('RELATIVE', 'FORWARD', 'BACKWARD') and r.random() < .4: o = -o
				if w == 'ABSOLUTE' and m.fwd and r.random() < .15: o = -o
				if w in ('FORWARD', 'BACKWARD') and r.random() < .25 or r.random() < .04: o = 'ALL'
				if o == 'ALL' and w not in ('FORWARD', 'BACKWARD'): w, arg = 'ALL', None
				self.log.append(('seek', o, arg, 'direction', m.fwd, 'at', m.p))
				with ctx.step('seek', self.log): ret = cc.seek(o) if arg is None else cc.seek(o, arg) if r.random() < .5 or w != 'ABSOLUTE' else cc.seek(o, whence=arg)
				dist = None
				if w == 'ALL': dist = len(m.move(None, m.fwd))
				elif w in ('FORWARD', 'BACKWARD'):
					f = (w == 'FORWARD') == m.fwd
					if o == 0: pass
					else: dist = len(m.move(None if o == 'ALL' else o, f))
				elif w == 'RELATIVE':
					if o: m.move(o, m.fwd)
				elif (w == 'ABSOLUTE') == m.fwd: m.absolute(o)
				else: m.from_end(o)
				if dist is not None:
					ctx.count('distance')
					if ret != dist: ctx.violation('distance', '%r reported %r rows instead of %d' % (self.log[-1], ret, dist), self.log)
				ctx.count('seek:' + w + ('' if m.fwd else ':reversed'))
				if r.random() < .7:
					# observe the position: look one ahead and come back
					f = r.random() < .5
					self.log.append(('probe', f, 'direction', m.fwd, 'at', m.p))
					got = cc.read(1, f); want = m.move(1, f == m.fwd)
					self.check('position', got, want)
			elif k < .95:
				# other work on the connection
				self.log.append('other')
				z = r.randrange(5)
				if z == 0: db.execute('SELECT 1')
				elif z == 1: others.append(db.prepare('SELECT generate_series(1, 9000)').rows()); next(others[-1])
				elif z == 2: d = db.prepare('SELECT generate_series(1, 7)').declare(); d.read(r.randint(1, 7)); others.append(d)
				elif z == 3 and others: others.pop()
				else:
					try: db.query('SELECT 1/0') if not self.block else db.query('SELECT 1')
					except Exception: pass
			elif k < .97 and self.block and self.how not in ('sql-block',):
				self.log.append('commit'); self.block.commit(); self.block = None; ctx.count('held-over-commit')
			elif not self.block:
				self.log.append('in a block')
				with db.xact(): got = cc.read(2); 
				self.check('read', got, m.move(2, m.fwd))
			else:
				try: cc.seek(1, r.choice(('NOWHERE', '', 7, 'ABSOLUTELY')))
				except Exception: pass
				else: ctx.violation('whence', 'an unknown whence was accepted', self.log)
				try: cc.read(1, 'SIDEWAYS')
				except Exception: ctx.count('unknown-refused')
				else: ctx.violation('whence', 'an unknown direction was accepted', self.log)
		# the rest, then closing
		if r.random() < .5:
			self.log.append(('rest', m.fwd, 'at', m.p)); got = list(c) if n < 40 else c.read(); self.check('rest', got, m.move(None, m.fwd))
		ctx.case(repr(self.log), sample=self.log)
		self.close(c, alias)
		if self.block: self.block.rollback()
		del others
	def close(self, c, alias):
		import postgresql.exceptions as x
		r, db, ctx = self.r, self.db, self.ctx
		how = r.choice(('method', 'method', 'twice', 'drop', 'server'))
		self.log.append(('close', how))
		if how == 'drop': return
		if how == 'server': db.execute('CLOSE "%s"' % c.cursor_id.replace('"', '""'))
		else:
			c.close()
			if how == 'twice': c.close()
			if r.random() < .3 and self.how in ('byid', 'sql-hold') and not self.block:
				# another cursor takes the name: the closed object has no business with it
				db.execute('DECLARE "%s" SCROLL CURSOR WITH HOLD FOR SELECT 1 UNION SELECT 2' % self.name.replace('"', '""')); ctx.count('name-reused')
		for nm, f in (('read', lambda: c.read(1)), ('read all', lambda: c.read()), ('next', lambda: next(c)), ('seek', lambda: c.seek(0)), ('seek forward', lambda: c.seek(1, 'FORWARD')), ('backward', lambda: c.read(1, False)), ('list', lambda: list(c))):
			if r.random() < .5: continue
			if self.block:
				s = db.xact(); s.start()
			try: got = f()
			except x.Error: ctx.count('closed-refused')
			except StopIteration: ctx.violation('closed', '%s of a closed cursor reported an ordinary end' % nm, self.log)
			else: ctx.violation('closed', '%s of a closed cursor returned %r' % (nm, got), self.log)
			if self.block: s.rollback()
		if self.how in ('byid', 'sql-hold') and not self.block:
			try: db.execute('CLOSE "%s"' % self.name.replace('"', '""'))
			except x.Error: pass

def exhaustive(ctx, db):
	"""every pair of operations over small results, both directions"""
	ops = [('read', q, d) for q in (None, 0, 1, 2, 4) for d in (None, True, False)] + [('next',)] + \
		[('seek', o, w) for w, os in (('ABSOLUTE', (0, 1, 2, 3, 4, 5)), ('FROM_END', (0, 1, 2, 3, 4, 5)), ('RELATIVE', (-4, -2, -1, 0, 1, 2, 4)), ('FORWARD', (-2, -1, 1, 2, 4, 'ALL')), ('BACKWARD', (-2, -1, 1, 2, 4, 'ALL'))) for o in os]
	r = ctx.rng('ex')
	sizes = (0, 1, 2, 3); rows = {}
	cur = {n: db.prepare('SELECT i::int4 FROM generate_series(1, %d) g(i)' % n).declare() for n in sizes}
	pairs = [(n, f, a, b) for n in sizes for f in (True, False) for a in ops for b in ops]
	if ctx.quick: pairs = r.sample(pairs, 2500)
	for n, f, a, b in pairs:
		c = cur[n]; m = Pos(n); c.direction = True; c.seek(0); c.direction = f; m.fwd = f
		for o in (a, b, ('read', 1, True)):
			if o[0] == 'read':
				got = [x for x, in c.read(o[1], o[2])]; want = [] if o[1] == 0 else m.move(o[1], f if o[2] is None else o[2] == f)
			elif o[0] == 'next':
				got = [x for x, in [next(c, (None,))] if x is not None]; want = m.move(1, f)
			else:
				d = c.seek(o[1], o[2]); got = want = None
				if o[2] in ('FORWARD', 'BACKWARD'): want = len(m.move(None if o[1] == 'ALL' else o[1], (o[2] == 'FORWARD') == f)); got = d
				elif o[2] == 'RELATIVE':
					if o[1]: m.move(o[1], f)
				elif (o[2] == 'ABSOLUTE') == f: m.absolute(o[1])
				else: m.from_end(o[1])
			if got != want:
				ctx.violation('pair', '%d rows, direction %s: %r after %r gave %r instead of %r' % (n, f, o, a, got, want), (n, f, a, b)); break
		ctx.case(('pair', n, f, a, b)); ctx.count('pairs')

def errors(ctx, db):
	"""columns that cannot be unpacked are reported for cursors of either origin"""
	import postgresql.exceptions as x
	q = "SELECT 1 AS a, '99999-01-01'::date AS b"
	for how in ('declare', 'id'):
		if how == 'declare': c = db.prepare(q).declare()
		else: db.execute('DECLARE c17e SCROLL CURSOR WITH HOLD FOR ' + q); c = db.cursor_from_id('c17e')
		for f in (lambda: c.read(), lambda: next(c)):
			c.seek(0)
			try: got = f()
			except x.ColumnError as e:
				ctx.count('column-error')
				if '1, b::DATE' not in str(e.message).replace('date', 'DATE'): ctx.violation('column-error', 'the error does not name the column: %s' % e.message, how)
			except Exception as e: ctx.violation('column-error', '%s: %r' % (how, e), how)
			else: ctx.violation('column-error', 'returned %r' % (got,), how)
		ctx.case(('error', how)); c.close()
	# forward-only cursors: reads are right, backward motion is refused by the server
	with db.xact():
		db.execute('DECLARE c17f NO SCROLL CURSOR FOR SELECT generate_series(1, 10)')
		c = db.cursor_from_id('c17f')
		if [v for v, in c.read(4)] != [1, 2, 3, 4] or [v for v, in c.read()] != [5, 6, 7, 8, 9, 10] or c.read(): ctx.violation('forward-only', 'reads', None)
		s = db.xact(); s.start()
		try: c.read(1, 'BACKWARD')
		except x.Error: ctx.count('forward-only')
		else: ctx.violation('forward-only', 'backward read accepted', None)
		s.rollback()

def main(ctx):
	ctx.rule = 'one case per history of cursor operations, per pair of operations on a small result'
	ctx.require('ops', 'pairs', 'read:fwd', 'read:bwd', 'next', 'direction', 'reached-end', 'read-nothing', 'distance', 'closed-refused', 'held-over-commit', 'name-reused', 'column-error', 'forward-only', 'unknown-refused',
		*['how:' + h for h in ('declare', 'query', 'byid', 'sql-hold', 'sql-block', 'declare-block', 'both')], *['seek:' + w + d for w in ('ABSOLUTE', 'RELATIVE', 'FROM_END', 'FORWARD', 'BACKWARD', 'ALL') for d in ('', ':reversed')])
	db = ctx.connect(); r = ctx.rng('main')
	errors(ctx, db)
	exhaustive(ctx, db)
	i = 0; budget = ctx.scale(22, 900)
	while i < ctx.scale(700, 50000) and ctx.elapsed() < budget:
		i += 1
		Case(ctx, r, db).run(i)
		db.execute('')
		if db.state != 'idle': ctx.violation('state', db.state, i); db.execute('ABORT')
		if i % 100 == 0: db.close(); db = ctx.connect()
	ctx.count('histories', i)
	db.close()
