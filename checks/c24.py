"""
C24: what lives on the server (pg_prepared_statements, pg_cursors) against the
statements, cursors and iterators that are held, after random histories.
"""
import gc, sys, threading, weakref
from vf import sock as vsock

MON = "SELECT 's', name FROM pg_prepared_statements UNION ALL SELECT 'c', name FROM pg_cursors"
NAMES = ['plain', 'MiXed', 'a b', 'q"uote', "ap'os", 'ünï', 'py:0x1234', 'x' * 60, 'a;b', '%s', 'back\\sl']

class Policy(vsock.Policy):
	"""lets go of objects while an operation is using the transport"""
	def __init__(self, r): self.r = r; self.victims = None; self.at = 0; self.frag = False; self.fired = 0
	def chunk(self, n): return self.r.choice((1, 3, 40, n)) if self.frag else n
	def tick(self):
		if self.victims is not None:
			self.at -= 1
			if self.at <= 0: self.victims.clear(); self.victims = None; self.fired += 1
	def messages(self, t, body):
		self.tick(); yield t, body

class Thing:
	__slots__ = ('kind', 'o', 'name', 'foreign', 'closed', 'tag', 'n', 'pos', 'level', 'stmt', 'dead', 'who')
	def __init__(self, kind, o, **kw):
		self.kind, self.o = kind, o; self.foreign = self.closed = self.dead = False; self.tag = self.n = self.pos = 0; self.level = 0; self.stmt = None; self.name = None
		for k, v in kw.items(): setattr(self, k, v)

class Session:
	def __init__(self, ctx, r):
		import postgresql.exceptions as X
		self.ctx, self.r, self.X = ctx, r, X
		self.pol = Policy(r); c = ctx.connector(); vsock.wrap(c, lambda: self.pol)
		self.db = c(); self.db.connect(); self.db.execute('SET client_min_messages = error')
		self.mon = self.db.prepare(MON)
		self.base = {self.mon.statement_id}
		self.things = []; self.blocks = []; self.names = {}; self.cnames = {}; self.ntag = 0; self.ok = True; self.log = []; self.kept = []
		self.unraisable = []; self.oldhook = sys.unraisablehook; sys.unraisablehook = lambda u: self.unraisable.append(repr(u.exc_value))
		self.peak = 0
	def bad(self, mech, detail):
		self.ok = False; self.ctx.violation(mech, detail, self.log[-25:])
	def values(self, tag, a, n): return [(tag * 1000000 + a * 100000 + i) for i in range(1, n + 1)]
	def sql(self, tag, params=True): return 'SELECT %d * 1000000 + %s * 100000 + g AS v FROM generate_series(1, %s) g' % ((tag, '$1::int', '$2::int') if params else (tag, '3', '40'))
	def free(self, names): return [n for n in NAMES if n not in names]
	def failed(self): return self.db.pq.state == b'E'
	# -- judging
	def probe(self):
		if self.failed(): return
		rows = self.mon()
		st = {n for k, n in rows if k == 's'}; cu = {n for k, n in rows if k == 'c' and n}
		want = set(self.base) | set(self.names)
		want |= {t.name for t in self.things if t.kind == 'stmt' and not t.foreign and not t.closed}
		# what is held by a cursor or an iterator that is held may remain
		may = {t.o.statement.statement_id for t in self.things if t.kind == 'cursor' and t.o.statement is not None} | {t.name for t in self.things if t.kind == 'iter'}
		if st - want - may: self.bad('statement-leak', 'statements %r are on the server, none is held' % sorted(st - want - may))
		if want - st: self.bad('statement-lost', 'statements %r are held, but gone from the server' % sorted(want - st))
		must = set(self.cnames) | {t.name for t in self.things if t.kind == 'cursor' and not t.foreign and not t.closed and not t.dead}
		if must - cu: self.bad('cursor-lost', 'cursors %r are held, but gone from the server' % sorted(must - cu))
		extra = cu - must; its = sum(t.kind == 'iter' and not t.closed for t in self.things)
		if len(extra) > its: self.bad('cursor-leak', 'cursors %r are on the server, with %d iterators in use' % (sorted(extra), its))
		self.peak = max(self.peak, len(st) + len(cu))
		self.ctx.count('probes'); self.ctx.count('probed-objects', len(st) + len(cu))
	def rows_are(self, got, want, what):
		got = [x if isinstance(x, int) else x[0] for x in got]
		if got != want: self.bad('wrong-rows', '%s gave %r.. (%d), %r.. (%d) expected' % (what, got[:3], len(got), want[:3], len(want)))
	# -- making
	def new_stmt(self):
		self.ntag += 1; t = self.ntag
		how = self.r.choice(('prepare', 'prepare', 'prepare', 'named', 'sql', 'clone', 'alias'))
		fr = self.free(self.names)
		own = self.pick('stmt')
		if how == 'clone' and own and own.o.string is not None:
			o = own.o.clone(); return self.add(Thing('stmt', o, name=o.statement_id, tag=own.tag))
		if how == 'alias' and own and not own.closed:
			# an object of the same name, owned by the other
			o = self.db.statement_from_id(own.o.statement_id)
			if self.r.random() < .5: self.use_stmt(Thing('stmt', o, tag=own.tag))
			return
		if how == 'named' and fr:
			n = self.r.choice(fr); o = self.db.prepare(self.sql(t), statement_id=n); self.names[n] = t
			return self.add(Thing('stmt', o, name=n, foreign=True, tag=t))
		if how == 'sql':
			n = self.r.choice(fr) if fr and (self.r.random() < .5 or not self.names) else self.r.choice(list(self.names) or ['zz'])
			if n not in self.names:
				self.db.execute('PREPARE "%s"(int, int) AS %s' % (n.replace('"', '""'), self.sql(t))); self.names[n] = t
			if any(x.kind == 'stmt' and x.name == n for x in self.things): return
			o = self.db.statement_from_id(n); return self.add(Thing('stmt', o, name=n, foreign=True, tag=self.names[n]))
		if own and self.r.random() < .3: t = own.tag; self.ctx.count('same-text') # the text of another one, which is none of its business
		o = self.db.prepare(self.sql(t)); self.add(Thing('stmt', o, name=o.statement_id, tag=t))
	def add(self, t):
		t.level = len(self.blocks); self.things.append(t); self.ctx.count('made:' + t.kind + (t.foreign and '-foreign' or '')); return t
	def pick(self, *kinds, closed=False):
		l = [t for t in self.things if t.kind in kinds and (closed or not t.closed)]
		return self.r.choice(l) if l else None
	def size(self): return self.r.choice((0, 1, 2, 5, 5, 30, 300, 4096, 5000))
	def new_cursor(self):
		if self.r.random() < .3:
			fr = self.free(self.cnames)
			if not fr: return
			n = self.r.choice(fr); self.ntag += 1; t = self.ntag; hold = not self.blocks
			if not any(x.kind == 'cursor' and x.name == n for x in self.things):
				self.db.execute('DECLARE "%s" SCROLL CURSOR WITH HOLD FOR %s' % (n.replace('"', '""'), self.sql(t, False)))
				self.cnames[n] = (t, len(self.blocks))
				o = self.db.cursor_from_id(n)
				return self.add(Thing('cursor', o, name=n, foreign=True, tag=(t, 3), n=40))
			return
		own = self.pick('cursor')
		if own and not own.dead and own.o.statement is not None and not own.o.statement.closed and self.r.random() < .2:
			o = own.o.clone(); return self.add(Thing('cursor', o, name=o.cursor_id, tag=own.tag, n=own.n))
		s = self.pick('stmt')
		if not s or s.o.string is None: return
		a, n = self.r.randrange(9), self.size(); o = s.o.declare(a, n)
		self.add(Thing('cursor', o, name=o.cursor_id, tag=(s.tag, a), n=n))
	def new_iter(self):
		s = self.pick('stmt')
		if not s: return
		a, n = self.r.randrange(9), self.size(); how = self.r.choice(('rows', 'chunks', 'column'))
		o = iter(getattr(s.o, how)(a, n))
		self.add(Thing('iter', o, tag=(s.tag, a), n=n, stmt=how, name=s.o.statement_id))
	# -- using
	def use_stmt(self, s=None):
		s = s or self.pick('stmt')
		if not s: return
		a, n = self.r.randrange(9), self.size(); m = self.r.choice(('call', 'rows', 'chunks', 'column', 'first', 'declare', 'load'))
		want = self.values(s.tag, a, n)
		if m == 'call': self.rows_are(s.o(a, n), want, m)
		elif m == 'rows': self.rows_are(s.o.rows(a, n), want, m)
		elif m == 'column': self.rows_are(s.o.column(a, n), want, m)
		elif m == 'chunks': self.rows_are([x for c in s.o.chunks(a, n) for x in c], want, m)
		elif m == 'first':
			g = s.o.first(a, n)
			if g != (want[0] if want else None): self.bad('wrong-rows', 'first() gave %r, %r expected' % (g, want[:1]))
		elif m == 'load': s.o.load_rows([(a, 1)] * self.r.choice((0, 1, 3, 300)))
		elif s.o.string is not None: self.rows_are(s.o.declare(a, n).read(), want, m)
		self.ctx.count('used:stmt')
	def use_cursor(self):
		c = self.pick('cursor')
		if not c: return
		want = self.values(*c.tag, c.n)
		q = self.r.choice((1, 2, 10, None, 'seek', 'next'))
		if c.dead:
			try: c.o.read(1)
			except self.X.Error as e:
				if e.code != '34000': self.bad('dead-cursor', repr(e))
			else: self.bad('dead-cursor', 'a cursor of a rolled back block could be read')
			return
		if q == 'seek':
			c.pos = self.r.randrange(c.n + 1); c.o.seek(c.pos)
		elif q == 'next':
			g = next(c.o, None); w = want[c.pos:c.pos + 1]
			self.rows_are([] if g is None else [g], w, 'next(cursor)'); c.pos += len(w)
		else:
			g = c.o.read(q); w = want[c.pos:] if q is None else want[c.pos:c.pos + q]
			self.rows_are(g, w, 'read(%r)' % q); c.pos += len(w)
		self.ctx.count('used:cursor')
	def use_iter(self):
		i = self.pick('iter')
		if not i: return
		want = self.values(*i.tag, i.n)[i.pos:]
		for _ in range(self.r.choice((1, 3, 100, 10**9))):
			x = next(i.o, None)
			if x is None:
				if want: self.bad('wrong-rows', 'an iterator ended %d rows early' % len(want))
				i.closed = True; break
			g = [y[0] for y in x] if i.stmt == 'chunks' else [x if i.stmt == 'column' else x[0]]
			if g != want[:len(g)]: self.bad('wrong-rows', 'iterator gave %r, %r expected' % (g[:3], want[:3])); break
			want = want[len(g):]; i.pos += len(g)
		self.ctx.count('used:iter')
	def use_closed(self):
		l = [t for t in self.things if t.closed and t.kind in ('stmt', 'cursor')]
		if not l: return
		t = self.r.choice(l)
		if t.kind == 'stmt':
			m = self.r.choice(('call', 'rows', 'chunks', 'column', 'first', 'declare', 'load', 'load0', 'iter'))
			f = {'call': lambda: t.o(1, 2), 'rows': lambda: list(t.o.rows(1, 2)), 'chunks': lambda: list(t.o.chunks(1, 2)), 'column': lambda: list(t.o.column(1, 2)), 'first': lambda: t.o.first(1, 2),
				'declare': lambda: t.o.declare(1, 2), 'load': lambda: t.o.load_rows([(1, 1)]), 'load0': lambda: t.o.load_chunks([[(1, 1)]]), 'iter': lambda: next(t.o.rows(1, 2))}[m]
			want = self.X.StatementNameError
		else:
			m = self.r.choice(('read', 'next', 'seek'))
			f = {'read': lambda: t.o.read(1), 'next': lambda: next(t.o), 'seek': lambda: t.o.seek(0)}[m]
			want = self.X.CursorNameError
		try: g = f()
		except want: self.ctx.count('refused:' + t.kind)
		except Exception as e: self.bad('closed-refusal', '%s of a closed %s raised %r' % (m, t.kind, e))
		else: self.bad('closed-used', '%s of a closed %s gave %r' % (m, t.kind, g))
	# -- ending
	def close(self):
		t = self.pick('stmt', 'cursor', closed=self.r.random() < .2)
		if not t: return
		t.o.close()
		if not t.closed:
			if t.foreign: (self.names if t.kind == 'stmt' else self.cnames).pop(t.name, None)
			t.closed = True
			# others of that name are closed by it too
		self.ctx.count('closed:' + t.kind)
	def victims(self):
		k = self.r.choice((1, 1, 2, 5, 100))
		l = self.r.sample(self.things, min(k, len(self.things)))
		out = []
		for t in l:
			self.things.remove(t)
			if t.kind == 'iter' and self.r.random() < .5: pass
			out.append(t.o); t.o = None
			self.ctx.count('dropped:' + t.kind)
		return out
	def drop(self):
		how = self.r.choice(('plain', 'plain', 'transport', 'transport', 'cycle', 'thread', 'weak', 'producer', 'exception'))
		v = self.victims()
		if not v: return
		if how == 'transport':
			self.pol.victims = v; self.pol.at = self.r.choice((1, 1, 2, 3, 5)); del v
			for _ in range(4):
				if self.pol.victims is not None and not self.failed(): self.use_stmt()
			if self.pol.victims is not None: self.pol.victims.clear(); self.pol.victims = None
		elif how == 'cycle':
			class C: pass
			c = C(); c.me = c; c.v = v; del c, v; gc.collect()
		elif how == 'thread' and not self.failed():
			th = threading.Thread(target=v.clear); th.start()
			del v
			for _ in range(3): self.use_stmt()
			th.join()
		elif how == 'producer' and not self.failed():
			s = self.pick('stmt')
			def rows():
				for i in range(600):
					if v: v.pop()
					yield (1, 1)
			if s: s.o.load_rows(rows())
			v.clear()
		elif how == 'exception':
			try: raise ValueError(v)
			except ValueError as e: self.kept.append(e)
			del v; self.kept.clear(); gc.collect()
		else: del v
		self.ctx.count('drop:' + how)
	# -- other
	def fail(self):
		k = self.r.choice(('syntax', 'declare', 'param', 'runtime', 'from_id', 'cursor_from_id', 'foreign-prepare'))
		X = self.X
		try:
			if k == 'syntax': self.db.prepare('SELECT no_such')
			elif k == 'declare': self.db.prepare('SET work_mem = \'4MB\'').declare()
			elif k == 'param':
				s = self.pick('stmt')
				if s: s.o.first('x', object())
				else: raise X.Error('none')
			elif k == 'runtime': self.db.prepare('SELECT 1 / $1::int')(0)
			elif k == 'from_id': self.db.statement_from_id('no such one')
			elif k == 'cursor_from_id': self.db.cursor_from_id('no such one')
			else: self.db.prepare('SELECT 1 +', statement_id='never made')
		except (X.Error, X.Exception, TypeError, ValueError) as e: pass
		else: self.bad('no-error', k)
		gc.collect()
		self.ctx.count('failures')
	def block(self):
		if self.blocks and self.r.random() < .6: self.end(self.r.random() < .5)
		elif len(self.blocks) < 3 and not self.failed():
			x = self.db.xact(); x.start(); self.blocks.append(x)
	def end(self, commit):
		d = len(self.blocks); x = self.blocks.pop()
		if self.failed(): commit = False
		x.commit() if commit else x.rollback()
		for t in list(self.things):
			if t.kind == 'iter' and not t.closed:
				# cannot outlive the (outermost) block, unless made before it
				if t.level and (t.level >= d if not commit else d == 1): self.things.remove(t)
			elif t.kind == 'cursor' and t.level >= d:
				if commit: t.level = d - 1
				else: t.dead = True
			elif t.level >= d: t.level = d - 1
		for n, (tag, l) in list(self.cnames.items()):
			if l >= d:
				if commit: self.cnames[n] = (tag, d - 1)
				else: del self.cnames[n]
		self.ctx.count('commit' if commit else 'rollback')
	def step(self):
		r = self.r; self.pol.frag = r.random() < .1
		if self.failed():
			op = r.choice(('drop', 'close', 'end', 'use_closed', 'end'))
		else: op = r.choice(('new_stmt', 'new_stmt', 'new_stmt', 'new_cursor', 'new_cursor', 'new_iter', 'new_iter', 'use_stmt', 'use_stmt', 'use_cursor', 'use_cursor', 'use_iter', 'use_iter', 'use_closed', 'close', 'close', 'drop', 'drop', 'drop', 'fail', 'block', 'churn', 'burst'))
		self.log.append(op)
		if op == 'end': self.end(False)
		else: getattr(self, op)()
		# (an exception that was raised is part of a cycle with its frames, which refer to the object)
		if op in ('use_closed', 'use_cursor'): gc.collect()
		if self.ok and (r.random() < .5 or len(self.things) > 40): self.probe()
		if len(self.things) > 40:
			for _ in range(30): self.things.pop(r.randrange(len(self.things)))
		if self.unraisable: self.bad('unraisable', repr(self.unraisable[:2])); self.unraisable.clear()
	def churn(self):
		"""many short lives, so that addresses are used again"""
		for i in range(self.r.choice((5, 30))):
			self.ntag += 1
			s = self.db.prepare(self.sql(self.ntag))
			k = self.r.randrange(6); w = self.values(self.ntag, 2, 3)
			if k == 0: self.rows_are(s(2, 3), w, 'churn')
			elif k == 1: c = s.declare(2, 3); del s; self.rows_are(c.read(), w, 'churn')
			elif k == 2: it = s.rows(2, 3); del s; self.rows_are(it, w, 'churn')
			elif k == 3: it = s.rows(2, 9000); next(it); del s; del it
			elif k == 4: s.close()
			elif self.r.random() < .5: self.add(Thing('stmt', s, name=s.statement_id, tag=self.ntag))
			s = c = it = None
		self.ctx.count('churned')
	def burst(self):
		"""statements and cursors dropped together, and as many made in their places, used twice each"""
		if self.failed(): return
		r = self.r; L = []; ns, nc = r.choice(((3, 1), (5, 2), (1, 3), (2, 2), (8, 1), (4, 0), (0, 3), (1, 1), (6, 5)))
		base = self.db.prepare(self.sql(0))
		for _ in range(2 + r.randrange(3)):
			for i in range(ns): self.ntag += 1; L.append((self.db.prepare(self.sql(self.ntag)), self.ntag))
			C = [base.declare(2, 9) for _ in range(nc)] + [next(x) and x for x in [base.rows(1, 9000) for _ in range(r.randrange(2))]]
			r.shuffle(L); r.shuffle(C)
			if r.random() < .5: L.clear(); C.clear()
			else:
				while L or C:
					x = r.choice([y for y in (L, C) if y]); x.pop()
			if r.random() < .3: gc.collect()
			k = r.choice((1, ns, ns, ns + 2)); x = None
			for i in range(k): self.ntag += 1; L.append((self.db.prepare(self.sql(self.ntag)), self.ntag))
			for q in range(2):
				for s, t in L:
					a, n = r.randrange(9), r.choice((1, 5))
					if r.random() < .5: self.rows_are(s(a, n), self.values(t, a, n), 'burst')
					else: self.rows_are(s.declare(a, n).read(), self.values(t, a, n), 'burst')
			del L[:r.randrange(len(L) + 1)]; s = None
		for s, t in L[:3]: self.add(Thing('stmt', s, name=s.statement_id, tag=t))
		s = None; L.clear(); del base; self.ctx.count('bursts')
	def finish(self):
		while self.blocks: self.end(not self.failed() and self.r.random() < .5)
		if self.ok: self.probe()
		if self.r.random() < .5:
			self.things.clear(); gc.collect(0)
			if self.ok: self.probe()
		self.db.close()
		for t in self.things:
			if t.kind != 'iter': t.o.close()
		self.things.clear(); self.mon = None; gc.collect()
		if self.unraisable: self.bad('unraisable', repr(self.unraisable[:2]))
		sys.unraisablehook = self.oldhook

def long_session(ctx, r):
	"""bounded, whatever the number of objects made"""
	db = ctx.connect(); mon = db.prepare(MON); keep = []
	n = ctx.scale(1500, 30000); peak = 0
	for i in range(n):
		q = i % 5
		if q == 0: db.query.first('SELECT %d' % i)
		elif q == 1: keep.append(db.prepare('SELECT %d' % i))
		elif q == 2: next(db.query.rows('SELECT g FROM generate_series(1, 9000) g')) if i % 50 == 2 else list(db.query.rows('SELECT 1'))
		elif q == 3: db.prepare('SELECT %d' % i).declare().read(1)
		else: list(db.query.column('SELECT %d' % i))
		if len(keep) > 20: keep.pop(r.randrange(20))
		if i % 50 == 49:
			k = len(mon()); peak = max(peak, k)
			if k > len(keep) + 4: ctx.violation('unbounded', '%d objects on the server, %d held, after %d operations' % (k, len(keep) + 1, i + 1), i); break
	ctx.count('long-operations', n); ctx.count('long-peak', peak); ctx.case(('long', n))

def main(ctx):
	ctx.rule = 'an operation of a history after which the objects on the server were compared with those held'
	ctx.require('probes', 'same-text', 'refused:stmt', 'refused:cursor', 'dropped:stmt', 'dropped:cursor', 'dropped:iter', 'drop:transport', 'drop:thread', 'bursts', 'long-operations')
	r = ctx.rng('history')
	for k in range(ctx.scale(120, 2500)):
		with ctx.step('history', k, 200):
			s = Session(ctx, r)
			try:
				for i in range(60):
					if not s.ok: break
					s.step(); ctx.case((k, i), sample=s.log[-1])
			finally: s.finish()
			ctx.count('peak', 0); ctx.counters['peak'] = max(ctx.counters['peak'], s.peak)
			ctx.count('dropped-inside-operations', s.pol.fired)
		if ctx.elapsed() > ctx.scale(60, 1500): break
	long_session(ctx, ctx.rng('long'))
