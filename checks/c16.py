"""
C16: random programs of nested blocks run against the driver and against a model of frames;
a second session says what is committed after every step.
"""
import itertools

class Client(Exception): pass
class Harder(BaseException): pass

# ops: ('ins', way) ('err', kind, catch) ('raise', cls) ('block', style, isolation/mode, ops, end, catch) ('stream', size, fails_at) ('look',)
WAYS = ['execute', 'prepared', 'query', 'load_rows', 'load_chunks', 'returning', 'nested_sql']
ERRS = {'division': 'SELECT 1/0', 'unique': "INSERT INTO c16.t VALUES (0)", 'syntax': 'SELEC', 'missing': 'SELECT * FROM c16.nothing', 'raise': "DO $$BEGIN RAISE EXCEPTION 'x'; END$$", 'prepared': None, 'load': None, 'prepare': None}

def gen(r, depth, top=False):
	out = []
	for _ in range(r.choice((0, 1, 2, 3, 4))):
		k = r.random()
		if k < .32: out.append(('ins', r.choice(WAYS)))
		elif k < .40: out.append(('look',))
		elif k < .50: out.append(('err', r.choice(sorted(ERRS)), r.random() < .6))
		elif k < .56 and not top: out.append(('raise', r.choice(('Client', 'Client', 'KeyError', 'Harder', 'GeneratorExit', 'KeyboardInterrupt', 'StopIteration', 'FromLibrary'))))
		elif k < .64 and not top: out.append(('stream', r.choice((1, 4096, 4097, 9000, 13000)), r.choice((None, None, 1, 4000, 4096, 4097, 6000, 8192, 8193, 12000)), r.choice(('rows', 'chunks', 'cursor', 'copy')), r.randint(1, 3)))
		elif depth: out.append(('block', r.choice(('with', 'with', 'with', 'explicit', 'generator')), gen(r, depth - 1), r.choice(('commit', 'commit', 'commit', 'rollback', 'abort')), r.random() < .75, r.random() < .3))
	return out

class M:
	"""committed, frames of uncommitted ids, failed flag"""
	def __init__(self): self.committed = set(); self.frames = []; self.failed = False
	def seen(self): return self.committed.union(*self.frames) if self.frames else set(self.committed)
	def add(self, *ids):
		(self.frames[-1] if self.frames else self.committed).update(ids)
	def fail(self):
		if self.frames: self.failed = True
	def end(self, commit):
		f = self.frames.pop()
		if commit: self.add(*f)
		self.failed = False

class Run:
	def __init__(self, ctx, db, obs, prog, ids):
		import postgresql.exceptions as x
		self.ctx, self.db, self.obs, self.prog, self.ids, self.x = ctx, db, obs, prog, ids, x
		self.m = M(); self.m.committed = {r[0] for r in obs()}
		self.keep = []
	def bad(self, mech, what): self.ctx.violation(mech, what, self.prog)
	def look(self):
		o = {r[0] for r in self.obs()}
		if o != self.m.committed:
			self.bad('visible-to-others', 'another session sees %s too many and misses %s' % (sorted(o - self.m.committed), sorted(self.m.committed - o)))
			self.m.committed = o
		if not self.m.failed:
			own = {r[0] for r in self.db.query('SELECT id FROM c16.t')}
			if own != self.m.seen(): self.bad('visible-to-self', 'the session sees %s too many and misses %s' % (sorted(own - self.m.seen()), sorted(self.m.seen() - own)))
		self.state()
		self.ctx.count('looked')
	def state(self):
		if self.db.state == 'busy': return
		want = 'failed block' if self.m.failed else 'idle in block' if self.m.frames else 'idle'
		if self.db.state != want: self.bad('state', 'the connection reports %r, the history says %r' % (self.db.state, want))
	def ins(self, way):
		i = next(self.ids); db = self.db
		if way == 'execute': db.execute('INSERT INTO c16.t VALUES (%d)' % i)
		elif way == 'prepared': db.prepare('INSERT INTO c16.t VALUES ($1)')(i)
		elif way == 'query': db.query('INSERT INTO c16.t VALUES ($1)', i)
		elif way == 'returning':
			if db.query.first('INSERT INTO c16.t VALUES ($1) RETURNING id', i) != i: self.bad('returning', 'RETURNING')
		elif way == 'nested_sql': db.execute("DO $$BEGIN BEGIN INSERT INTO c16.t VALUES (-1); RAISE EXCEPTION 'y'; EXCEPTION WHEN others THEN INSERT INTO c16.t VALUES (%d); END; END$$" % i)
		else:
			j = next(self.ids); ps = db.prepare('INSERT INTO c16.t VALUES ($1)')
			if way == 'load_rows': ps.load_rows([(i,), (j,)])
			else: ps.load_chunks([[(i,)], [(j,)]])
			self.m.add(j)
		self.m.add(i)
	def err(self, kind):
		db = self.db
		if kind == 'prepared': db.prepare('SELECT 1 / $1::int4')(0)
		elif kind == 'prepare': db.prepare('SELECT nothing')
		elif kind == 'load': db.prepare('INSERT INTO c16.t VALUES ($1)').load_rows([(next(self.ids),), (0,), (next(self.ids),)])
		else: db.execute(ERRS[kind])
	def step(self, op):
		"""run one op; returns normally, or lets the exception which must propagate do so"""
		x, m, k = self.x, self.m, op[0]
		self.ctx.count('op:' + k)
		if k == 'look': return self.look()
		if k == 'raise':
			c = dict(Client=Client, KeyError=KeyError, Harder=Harder, GeneratorExit=GeneratorExit, KeyboardInterrupt=KeyboardInterrupt, StopIteration=StopIteration, FromLibrary=x.UniqueError)[op[1]]
			e = c('raised by the program'); e.mine = True
			raise e
		if k == 'ins':
			if m.failed:
				try: self.ins(op[1])
				except x.InFailedTransactionError: self.ctx.count('refused-in-failed'); return
				self.bad('failed-transaction', 'an insert (%s) was accepted in a failed transaction' % op[1]); return
			return self.ins(op[1])
		if k == 'err':
			was = m.failed
			try: self.err(op[1])
			except x.Error as e:
				if was and not isinstance(e, x.InFailedTransactionError) and op[1] != 'syntax': self.bad('failed-transaction', '%r in a failed transaction' % e)
				m.fail()
				if op[2]: self.ctx.count('swallowed'); return
				e.mine = True; raise
			self.bad('error-lost', '%s was not reported' % op[1]); return
		if k == 'stream': return self.stream(*op[1:])
		if k == 'block': return self.block(*op[1:])
	def stream(self, size, fails, how, steps):
		"""opens a result, reads some of it and leaves it in whatever state that is"""
		m, x = self.m, self.x
		if m.failed: return
		if how == 'cursor': fails = None   # held cursors are read to their end by COMMIT
		q = 'SELECT g / (CASE WHEN g = %d THEN 0 ELSE 1 END) FROM generate_series(1, %d) g' % (fails or 0, size)
		fatal = fails is not None and fails <= size
		try:
			if how == 'copy': it = self.db.prepare('COPY (%s) TO STDOUT' % q).chunks()
			else:
				ps = self.db.prepare(q)
				it = ps.rows() if how == 'rows' else ps.chunks() if how == 'chunks' else ps.declare()
			self.keep.append(it)
			for _ in range(steps): next(it)
		except StopIteration: return
		except x.Error as e:
			if not fatal: self.bad('stream', 'reading raised %r' % e)
			m.fail(); return
		if not fatal: self.ctx.count('stream-open'); return
		# the error may have been received, be under way, or not be produced yet
		self.ctx.count('stream-pending')
		m.pending = True
	def body(self, ops):
		for o in ops:
			if getattr(self.m, 'pending', False):
				# what the next operation meets is settled by asking
				if o[0] != 'raise': self.settle()
			self.step(o)
	def settle(self):
		self.m.pending = False
		try: self.db.execute('SELECT 1')
		except self.x.Error:
			self.m.fail(); self.ctx.count('stream-failed-later')
	def block(self, style, ops, end, catch, twice):
		m, x, db, ctx = self.m, self.x, self.db, self.ctx
		if m.failed:
			b = db.xact()
			try: b.start()
			except x.InFailedTransactionError: ctx.count('start-refused'); return
			self.bad('failed-transaction', 'a savepoint was started in a failed transaction'); return
		depth = len(m.frames); inner = False
		ctx.count('depth:%d' % min(depth + 1, 4))
		try:
			if style == 'explicit': self.explicit(ops, end, twice)
			else:
				def g():
					with db.xact() as b:
						yield b
				m.frames.append(set())
				try:
					if style == 'with':
						with db.xact() as b: self.body(ops)
					else:
						it = g(); b = next(it)
						try: self.body(ops)
						except BaseException as e:
							if not hasattr(e, 'mine'): raise
							inner = True; p = getattr(m, 'pending', False)
							if isinstance(e, StopIteration): it.close()
							else:
								try: it.throw(e)
								except type(e) as e2:
									if e2 is not e: self.bad('exception', '%r instead of %r' % (e2, e))
							raise
						try: next(it)
						except StopIteration: pass
				except BaseException as e:
					failed = m.failed; p = getattr(m, 'pending', False); m.pending = False
					while len(m.frames) > depth + 1: m.frames.pop()
					if len(m.frames) > depth: m.end(False)
					if hasattr(e, 'mine'):
						ctx.count('left-by:' + ('error' if isinstance(e, x.Error) else 'exception' if isinstance(e, Exception) else 'base'))
						if b.state != 'aborted': self.bad('block-state', 'a block left by %r is %r' % (e, b.state))
					elif failed and isinstance(e, x.InFailedTransactionError):
						ctx.count('exit-refused')
					elif p and isinstance(e, x.Error): ctx.count('exit-reports-stream')
					else: raise
					self.state(); self.after()
					e.mine = True; raise
				else:
					p = getattr(m, 'pending', False); m.pending = False
					if m.failed:
						self.bad('false-commit', 'leaving a block of a failed transaction reported no error')
						m.end(False)
					else:
						m.end(True); ctx.count('committed-by-exit')
						if b.state != 'committed': self.bad('block-state', 'a block left normally is %r' % b.state)
		except BaseException as e:
			if not hasattr(e, 'mine'): raise
			self.after()
			if not catch and depth: raise
			ctx.count('caught')
		self.after()
	def after(self):
		self.look()
	def explicit(self, ops, end, twice):
		m, x, db, ctx = self.m, self.x, self.db, self.ctx
		b = db.xact(); b.start(); m.frames.append(set())
		if twice: b.start(); b.begin()
		outer = len(m.frames) == 1
		exc = None
		try: self.body(ops)
		except BaseException as e:
			if not hasattr(e, 'mine'): raise
			exc = e
			if end == 'commit' and not m.failed: pass
		if getattr(m, 'pending', False) and end == 'commit': self.settle()
		m.pending = False
		if end != 'commit':
			getattr(b, end)()
			m.end(False); ctx.count('explicit-rollback')
			if twice: b.rollback(); b.abort()
			self.refused(b.commit); self.refused(b.start)
		elif m.failed and outer:
			# documented: COMMIT of a failed transaction block rolls back without an error
			try: b.commit()
			except x.Error: ctx.count('commit-of-failed-raised')
			else: ctx.count('commit-of-failed-silent')
			m.end(False)
		elif m.failed:
			try: b.commit()
			except x.InFailedTransactionError: ctx.count('release-refused')
			else: self.bad('false-commit', 'a savepoint of a failed transaction was released')
			b.rollback(); m.end(False)
		else:
			b.commit(); m.end(True); ctx.count('explicit-commit')
			if twice: b.commit()
			self.refused(b.rollback); self.refused(b.start)
		self.state()
		if exc is not None: raise exc
	def refused(self, f):
		try: f()
		except self.x.Error: self.ctx.count('misuse-refused')
		else: self.bad('misuse', '%s of a finished block was accepted' % f.__name__)
		self.state()
	def main(self):
		try: self.body(self.prog)
		except BaseException as e:
			if not hasattr(e, 'mine'): raise
		if getattr(self.m, 'pending', False): self.settle()
		self.look()

def setup(db):
	db.execute('''DROP SCHEMA IF EXISTS c16 CASCADE; CREATE SCHEMA c16; CREATE TABLE c16.t (id int8 PRIMARY KEY); INSERT INTO c16.t VALUES (0);
	CREATE TABLE c16.s (k text, v int); CREATE TABLE c16.d (id int8 UNIQUE DEFERRABLE INITIALLY DEFERRED)''')

def programs(ctx, db, obs):
	r = ctx.rng('programs'); ids = itertools.count(1)
	look = obs.prepare('SELECT id FROM c16.t')
	n = 0; budget = ctx.scale(14, 900)
	while n < ctx.scale(900, 60000) and ctx.elapsed() < budget:
		n += 1
		prog = gen(r, r.choice((1, 2, 3, 5)), True)
		if not any(o[0] == 'block' for o in prog): prog.append(('block', r.choice(('with', 'explicit')), gen(r, 3), r.choice(('commit', 'rollback')), True, False))
		run = Run(ctx, db, look, prog, ids)
		with ctx.step('program', prog): run.main()
		ctx.case(repr(prog), sample=prog); ctx.count('programs')
		if db.state != 'idle':
			ctx.violation('state', 'the connection is %r after a program whose blocks are all left' % db.state, prog); db.execute('ABORT')
		if n % 50 == 0: obs.execute('DELETE FROM c16.t WHERE id > 0')

def configured(ctx, db, obs):
	import postgresql.exceptions as x
	r = ctx.rng('conf')
	levels = [None, 'READ COMMITTED', 'read uncommitted', 'repeatable read', 'SERIALIZABLE', 'Repeatable Read']
	modes = [None, 'READ ONLY', 'read write', 'READ ONLY, DEFERRABLE', 'READ WRITE NOT DEFERRABLE', 'DEFERRABLE']
	for dl, dr in (('read committed', 'off'), ('serializable', 'on'), ('repeatable read', 'off')):
		db.execute("SET default_transaction_isolation = '%s'; SET default_transaction_read_only = %s" % (dl, dr))
		for lv, mo in itertools.product(levels, modes):
			for style in ('with', 'start', 'transaction'):
				b = db.transaction(lv, mo) if style == 'transaction' else db.xact(isolation=lv, mode=mo)
				case = (dl, dr, lv, mo, style)
				if style == 'start': b.start()
				else: b.__enter__()
				got = tuple(db.query.first("SELECT current_setting('transaction_isolation'), current_setting('transaction_read_only'), current_setting('transaction_deferrable')"))
				ro = dr == 'on'
				if mo and 'ONLY' in mo.upper(): ro = True
				if mo and 'WRITE' in mo.upper(): ro = False
				want = ((lv or dl).lower(), 'on' if ro else 'off', 'on' if mo and 'DEFERRABLE' in mo and 'NOT' not in mo else 'off')
				if got != want: ctx.violation('configuration', '%r instead of %r' % (got, want), case)
				# a configured block within a block is refused
				if lv or mo:
					c = db.xact(isolation=lv, mode=mo)
					try: c.start()
					except x.Error: ctx.count('nested-configured-refused')
					else: ctx.violation('configuration', 'a configured block was started within another', case)
					if db.state != 'idle in block': ctx.violation('state', '%r after a refused nested configuration' % db.state, case)
				try:
					with db.xact(): db.execute("INSERT INTO c16.s VALUES ('x', 1)")
				except x.ReadOnlyTransactionError:
					if not ro: ctx.violation('configuration', 'a writable block is read only', case)
				else:
					if ro: ctx.violation('configuration', 'a read only block wrote', case)
				snap = db.query.first('SELECT count(*) FROM c16.d')
				obs.execute('INSERT INTO c16.d SELECT coalesce(max(id), 0) + 1 FROM c16.d')
				again = db.query.first('SELECT count(*) FROM c16.d')
				if again - snap != (0 if want[0] in ('serializable', 'repeatable read') else 1): ctx.violation('configuration', 'isolation %s saw %d new rows' % (want[0], again - snap), case)
				if style == 'start': b.rollback()
				else: b.__exit__(None, None, None)
				if db.state != 'idle': ctx.violation('state', db.state, case)
				ctx.case(('conf',) + case, sample=case); ctx.count('configurations')
	db.execute('RESET ALL; TRUNCATE c16.s, c16.d')
	for bad in (dict(isolation='nonsense'), dict(mode='READ NOTHING'), dict(isolation='serializable; DELETE FROM c16.t'), dict(mode='READ ONLY; DELETE FROM c16.t'), dict(isolation=''), dict(mode='nonsense')):
		b = db.xact(**bad)
		try:
			with b: db.execute("INSERT INTO c16.s VALUES ('bad', 1)")
		except (x.Error, ValueError): ctx.count('bad-configuration-refused')
		else: ctx.violation('configuration', 'an invalid configuration was accepted', bad)
		if db.state != 'idle' or obs.query.first('SELECT count(*) FROM c16.s'): ctx.violation('configuration', 'an invalid configuration left %r' % db.state, bad)
		ctx.case(('bad', repr(bad)))

def commit_failures(ctx, db, obs):
	"""the server refuses at COMMIT time"""
	import postgresql.exceptions as x
	r = ctx.rng('cf')
	for i in range(ctx.scale(30, 300)):
		style = r.choice(('with', 'explicit')); kind = r.choice(('deferred', 'serialization', 'terminated-inner', 'two-phase')); nest = r.random() < .4
		obs.execute('TRUNCATE c16.s, c16.d; INSERT INTO c16.s VALUES (\'a\', 0), (\'b\', 0); INSERT INTO c16.d VALUES (1)')
		case = (style, kind, nest, i)
		def work():
			if kind == 'deferred': db.execute('INSERT INTO c16.d VALUES (1), (5)')
			elif kind == 'serialization':
				db.query("SELECT v FROM c16.s WHERE k = 'a'"); db.execute("UPDATE c16.s SET v = 1 WHERE k = 'b'")
				with obs.xact(isolation='serializable'):
					obs.query("SELECT v FROM c16.s WHERE k = 'b'"); obs.execute("UPDATE c16.s SET v = 1 WHERE k = 'a'")
			elif kind == 'two-phase': db.execute('INSERT INTO c16.d VALUES (1), (7)')
			else:
				db.execute("INSERT INTO c16.d VALUES (9)")
				try: db.execute('SELECT 1/0')
				except x.Error: pass
		iso = 'serializable' if kind == 'serialization' else None
		b = db.xact(isolation=iso); raised = None
		try:
			if style == 'with':
				with b:
					if nest:
						with db.xact(): work()
					else: work()
			else:
				b.start()
				if nest:
					c = db.xact(); c.start(); work()
					c.commit()
				else: work()
				b.commit()
		except x.Error as e:
			raised = e
			if style == 'explicit' and b.state == 'open': b.rollback()
		silent_ok = kind == 'terminated-inner' and style == 'explicit' and not nest
		if raised is None and not silent_ok: ctx.violation('false-commit', 'a commit the server refused (%s, %s) was reported as done' % (kind, style), case)
		if db.state != 'idle':
			ctx.violation('state', '%r after a refused commit' % db.state, case); db.execute('ABORT')
		left = obs.query.first("SELECT count(*) FROM c16.d WHERE id > 1"), obs.query.first("SELECT v FROM c16.s WHERE k = 'b'")
		if left != (0, 0): ctx.violation('refused-commit-left', 'a refused commit left %r' % (left,), case)
		with db.xact(): db.execute("INSERT INTO c16.d VALUES (100)")
		if obs.query.first('SELECT count(*) FROM c16.d WHERE id = 100') != 1: ctx.violation('visible-to-others', 'the block after a refused commit is not committed', case)
		ctx.case(('cf', style, kind, nest)); ctx.count('refused-commits')

def misuse(ctx, db, obs):
	"""blocks ended in the wrong order, or never started"""
	import postgresql.exceptions as x
	r = ctx.rng('misuse')
	obs.execute('TRUNCATE c16.s')
	for i in range(ctx.scale(60, 600)):
		n = r.randint(2, 4); bs = []; case = [n, i]
		b0 = db.xact()
		for f in (b0.commit, b0.rollback, b0.abort):
			try: f()
			except x.Error: ctx.count('misuse-refused')
			else: ctx.violation('misuse', '%s of a block never started was accepted' % f.__name__, case)
		if db.state != 'idle': ctx.violation('state', db.state, case)
		for d in range(n):
			b = db.xact(); b.start(); bs.append(b); db.execute("INSERT INTO c16.s VALUES ('m', %d)" % d)
		how = r.choice(('commit', 'rollback')); k = r.randrange(n - 1)
		getattr(bs[k], how)()   # ends the inner ones as well
		case += [how, k]
		if how == 'rollback': want = set(range(k))
		else: want = set(range(n))
		if k == 0: other = set(want)
		else: other = set()
		j = r.randrange(k + 1, n); f = r.choice(('commit', 'rollback')); case += [j, f]
		try: getattr(bs[j], f)()
		except x.Error: ctx.count('out-of-order-refused')
		else: ctx.violation('misuse', '%s of a block whose enclosing block has ended was accepted' % f, case)
		if k:
			# an enclosing block remains: it is failed now and can only be rolled back
			bs[0].rollback(); other = set()
		if db.state != 'idle': ctx.violation('state', db.state, case); db.execute('ABORT')
		got = {v for v, in obs.query("SELECT v FROM c16.s WHERE k = 'm'")}
		if got != other: ctx.violation('misuse-data', '%r is visible instead of %r' % (sorted(got), sorted(other)), case)
		obs.execute("DELETE FROM c16.s")
		ctx.case(('misuse', n, how, k, j, f)); ctx.count('misuses')

def main(ctx):
	ctx.rule = 'one case per program of blocks (every step observed by a second session), per configuration, per refused commit, per misuse'
	ctx.require('programs', 'looked', 'committed-by-exit', 'explicit-commit', 'explicit-rollback', 'exit-refused', 'left-by:error', 'left-by:exception', 'left-by:base', 'release-refused', 'refused-in-failed', 'start-refused',
		'stream-pending', 'exit-reports-stream', 'stream-failed-later', 'depth:4', 'configurations', 'refused-commits', 'misuses', 'out-of-order-refused', 'bad-configuration-refused', 'nested-configured-refused', 'misuse-refused', 'caught')
	db = ctx.connect(); obs = ctx.connect(); setup(obs)
	configured(ctx, db, obs); commit_failures(ctx, db, obs); misuse(ctx, db, obs)
	programs(ctx, db, obs)
	db.close()
	if obs.query.first("SELECT count(*) FROM pg_stat_activity WHERE state LIKE 'idle in transaction%'"): ctx.violation('state', 'a transaction is left open', None)
	obs.close()
