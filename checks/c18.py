"""
C18: what is in the table after a load, against the rows supplied; what COPY delivers,
against text made here.
"""
import io, itertools, struct, threading, time
from vf import sock

class Source(Exception): pass
SIZES = [0, 1, 2, 3, 7, 100, 255, 256, 257, 511, 512, 513, 1000, 2000]

def layout(r, rows):
	"""an arbitrary chunking, empty chunks included"""
	out = []; i = 0
	if r.random() < .2: out.append([])
	while i < len(rows):
		k = r.choice((0, 1, 1, 2, 5, 50, 256, 1000)) if r.random() < .9 else len(rows)
		out.append(rows[i:i + k]); i += k
	if r.random() < .2: out.append([])
	return out

def kinds(r, chunks, rowkind=True):
	"""the same chunks as some other kind of iterable"""
	def row(t):
		if not rowkind or not isinstance(t, tuple): return t
		k = r.randrange(4)
		return t if k == 0 else list(t) if k == 1 else iter(t) if k == 2 else (x for x in t)
	inner = r.randrange(4); outer = r.randrange(3)
	def one(c):
		c = [row(t) for t in c]
		return c if inner == 0 else tuple(c) if inner == 1 else iter(c) if inner == 2 else (x for x in c)
	cs = (one(c) for c in chunks)
	return cs if outer == 0 else list(cs) if outer == 1 else iter(tuple(cs))

def deliver(r, ps, db, q, rows, fail_at=None, exc=None):
	"""(how, callable) to load these rows; fail_at: the source raises exc instead of yielding that row"""
	def src(it):
		for i, x in enumerate(it):
			if i == fail_at: raise exc
			yield x
		if fail_at is not None and fail_at >= len(rows): raise exc
	how = r.choice(('load_rows', 'load_rows', 'load_chunks', 'load_chunks', 'query.load_rows', 'query.load_chunks', 'chunksize'))
	if fail_at is not None:
		if how.endswith('load_chunks'):
			k = r.choice((1, 3, 256)); chunks = layout(r, rows)
			def g():
				n = 0
				for c in chunks:
					if r.random() < .5:
						# raised between chunks
						if n + len(c) >= fail_at: raise exc
						yield c
					else: yield (x if j + n != fail_at else throw(exc) for j, x in enumerate(c))
					n += len(c)
				raise exc
			f = ps.load_chunks if how == 'load_chunks' else lambda c: db.query.load_chunks(q, c)
			return how, lambda: f(g())
		f = ps.load_rows if how != 'query.load_rows' else lambda c: db.query.load_rows(q, c)
		return how, lambda: f(src(rows))
	if how == 'chunksize':
		k = r.choice((1, 2, 7, 100, 256, 5000)); return (how, k), lambda: ps.load_rows(iter(rows), chunksize=k)
	f = dict(load_rows=ps.load_rows, load_chunks=ps.load_chunks)
	if how == 'load_rows': return how, lambda: ps.load_rows(r.choice((list, tuple, iter))(rows))
	if how == 'query.load_rows': return how, lambda: db.query.load_rows(q, iter(rows))
	c = layout(r, rows)
	if how == 'load_chunks': return how, lambda: ps.load_chunks(kinds(r, c))
	return how, lambda: db.query.load_chunks(q, kinds(r, c))

def throw(e): raise e

def setup(db):
	db.execute('''DROP SCHEMA IF EXISTS c18 CASCADE; CREATE SCHEMA c18;
	CREATE TABLE c18.t (seq bigserial, a int8 UNIQUE CHECK (a <> 666), b text, c numeric, d bytea);
	CREATE TABLE c18.u (k int8 PRIMARY KEY, n int);
	CREATE TABLE c18.log (seq bigserial, v int8);
	CREATE FUNCTION c18.f(int8) RETURNS int8 LANGUAGE sql AS 'INSERT INTO c18.log(v) VALUES ($1) RETURNING v';
	CREATE TABLE c18.n (seq bigserial, a int8);
	CREATE FUNCTION c18.w() RETURNS trigger LANGUAGE plpgsql AS $$BEGIN RAISE WARNING 'row %', NEW.a; RETURN NEW; END$$;
	CREATE TRIGGER w BEFORE INSERT ON c18.n FOR EACH ROW EXECUTE FUNCTION c18.w()''')

def mkrows(r, n, base):
	return [(base + i, r.choice((None, '', 'text %d' % i, 'tab\there', 'nl\nhere', 'back\\slash', 'Üñï', 'x' * r.choice((1, 300)))), None if i % 5 == 0 else i, None if i % 3 == 0 else bytes([i % 256, 0, 255])) for i in range(n)]

def contents(obs): return [tuple(x) for x in obs.query('SELECT a, b, c, d FROM c18.t ORDER BY seq')]

def copyline(fmt, row):
	if fmt == 'text':
		e = lambda s: s.replace('\\', '\\\\').replace('\t', '\\t').replace('\n', '\\n').replace('\r', '\\r')
		return ('\t'.join('\\N' if v is None else '\\\\x' + v.hex() if isinstance(v, bytes) else e(str(v)) for v in row) + '\n').encode('utf-8')
	if fmt == 'csv':
		e = lambda v: '' if v is None else '\\x' + v.hex() if isinstance(v, bytes) else '"' + v.replace('"', '""') + '"' if isinstance(v, str) else str(v)
		return (','.join(e(v) for v in row) + '\n').encode('utf-8')

def binary(rows):
	out = b'PGCOPY\n\xff\r\n\0' + struct.pack('!ii', 0, 0)
	for a, b, d in rows:
		out += struct.pack('!h', 3)
		for v in (None if a is None else struct.pack('!q', a), None if b is None else b.encode('utf-8'), d):
			out += struct.pack('!i', -1) if v is None else struct.pack('!i', len(v)) + v
	return out + struct.pack('!h', -1)

def load(ctx, r, db, obs, uid):
	"""one load, perhaps failing, of INSERT or COPY"""
	import postgresql.exceptions as x
	n = r.choice(SIZES); base = uid * 10**6; rows = mkrows(r, n, base)
	obs.execute('TRUNCATE c18.t')
	mode = r.choice(('insert', 'insert', 'returning', 'copy-text', 'copy-csv', 'copy-binary', 'copy-text'))
	fail = r.choice((None, None, None, 'client', 'arity', 'unique', 'check', 'source'))
	pos = r.randint(0, n) if n else 0
	block = r.choice((None, None, 'with', 'explicit', 'savepoint'))
	case = dict(mode=mode, n=n, fail=fail, pos=pos, block=block)
	want = list(rows); exc = None; fail_at = None
	if mode in ('insert', 'returning'):
		q = 'INSERT INTO c18.t (a, b, c, d) VALUES ($1, $2, $3, $4)' + (' RETURNING a, seq' if mode == 'returning' else '')
		items = list(rows)
		if fail == 'client': items.insert(pos, r.choice((('not a number', None, None, None), (2**63, None, None, None), (base - 1, 'nul\0', None, None))))
		elif fail == 'arity': items.insert(pos, r.choice((rows[0][:3] if rows else (1,), (), (base - 1, 'b', None, None, 5))))
		elif fail == 'unique': items.insert(pos, (base - 7, 'first', None, None)); items.insert(r.randint(pos + 1, len(items)), (base - 7, 'dup', None, None)); want = items
		elif fail == 'check': items.insert(pos, (666, None, None, None))
	else:
		fmt = mode[5:]
		if fmt == 'binary':
			q = 'COPY c18.t (a, b, d) FROM STDIN WITH (FORMAT binary)'; rows = [(a, b, None, d) for a, b, c, d in rows]; want = list(rows)
			ins = [(a, b, d) for a, b, c, d in rows]
			if fail == 'check': ins.insert(pos, (666, None, None))
			elif fail == 'unique': ins.insert(pos, (base - 7, None, None)); ins.insert(pos, (base - 7, None, None))
			data = binary(ins)
			if fail == 'client': data = data[:-2] + b'garbage'
			cuts = sorted({0, len(data), *(r.randint(0, len(data)) for _ in range(r.choice((0, 1, 5, 100))))})
			items = [data[i:j] for i, j in zip(cuts, cuts[1:])]
		else:
			q = 'COPY c18.t (a, b, c, d) FROM STDIN' + (' WITH (FORMAT csv)' if fmt == 'csv' else '')
			items = [copyline(fmt, t) for t in rows]
			if fail == 'client': items.insert(pos, r.choice(('a string', None, 3, object())))
			elif fail == 'check': items.insert(pos, copyline(fmt, (666, None, None, None)))
			elif fail == 'unique': items.insert(pos, copyline(fmt, (base - 7, None, None, None))); items.insert(pos, items[pos])
			elif fail == 'arity': items.insert(pos, b'1\n')
			elif r.random() < .4:
				# lines may be cut and joined anywhere
				data = b''.join(items); cuts = sorted({0, len(data), *(r.randint(0, len(data)) for _ in range(r.choice((0, 1, 10, 300))))})
				items = [data[i:j] for i, j in zip(cuts, cuts[1:])]; ctx.count('recut')
				if items and r.random() < .3: items.insert(r.randint(0, len(items)), b'')
		if fmt == 'binary' and fail == 'arity': fail = case['fail'] = None
	if fail == 'source':
		exc = r.choice((Source, Source, ValueError, KeyboardInterrupt, KeyError))('from the source'); fail_at = r.randint(0, len(items))
	ps = db.prepare(q)
	how, go = deliver(r, ps, db, q, items, fail_at, exc)
	case['how'] = how
	if fail in ('client', 'arity') and mode.startswith('copy') and not items: fail = None
	raised = None; ret = None
	b = None
	try:
		with ctx.step('load', case):
			if block == 'with':
				with db.xact(): ret = go()
			elif block == 'explicit':
				b = db.xact(); b.start(); ret = go(); b.commit(); b = None
			elif block == 'savepoint':
				with db.xact():
					db.execute('INSERT INTO c18.t (a) VALUES (-5)')
					try:
						with db.xact(): ret = go()
					except BaseException as e: raised = e
					db.execute('INSERT INTO c18.t (a) VALUES (-6)')
			else: ret = go()
	except BaseException as e:
		raised = e
		if b is not None: b.rollback()
	ctx.count('mode:' + mode); ctx.count('block:%s' % block); ctx.count('fail:%s' % fail)
	ctx.case(repr(case), sample=case)
	got = contents(obs)
	if block == 'savepoint':
		if got[:1] != [(-5, None, None, None)] or got[-1:] != [(-6, None, None, None)]: ctx.violation('outer-work', 'the work around a load in a savepoint is not there: %r %r' % (got[:1], got[-1:]), case)
		got = [x for x in got if x[0] not in (-5, -6)]
	if db.state != 'idle': ctx.violation('state', '%r after a load' % db.state, case); db.execute('ABORT')
	if fail is None:
		if raised is not None: ctx.violation('load-refused', 'a load that has nothing wrong raised %r' % raised, case); return
		if got != want:
			d = next((i for i, (p, s) in enumerate(zip(got, want)) if p != s), min(len(got), len(want)))
			ctx.violation('rows', '%d rows arrived of %d; first difference at %d: %r instead of %r' % (len(got), len(want), d, got[d:d + 1], want[d:d + 1]), case)
	else:
		if raised is None: ctx.violation('error-lost', 'a load with a bad row (%s) was reported as done' % fail, case)
		elif fail == 'source' and raised is not exc: ctx.violation('error-identity', '%r instead of the exception of the source' % raised, case)
		elif fail in ('unique', 'check') and not isinstance(raised, x.UniqueError if fail == 'unique' else x.CheckError): ctx.violation('error-class', '%r for a %s violation' % (raised, fail), case)
		if block or mode.startswith('copy'):
			if got: ctx.violation('survivors', '%d rows of a failed load survived%s' % (len(got), ' the rollback' if block else ''), case)
		elif got != want[:len(got)] or len(got) > n + 1:
			ctx.violation('survivors', 'the rows which survived a failed load are not its first: %r' % (got[:3],), case)
		elif fail in ('client', 'arity', 'check') and len(got) > pos: ctx.violation('survivors', '%d rows survived a failure at row %d' % (len(got), pos), case)
		ctx.count('failed-loads')
	m = uid * 7 + 1
	with ctx.step('afterwards', case): w = db.query.first('SELECT $1::int8', m), db.prepare('SELECT $1::int8 + 1')(m)
	if w[0] != m or [tuple(y) for y in w[1]] != [(m + 1,)]: ctx.violation('afterwards', '%r' % (w,), case)
	# the statement itself can be used again
	if r.random() < .3 and mode == 'insert':
		obs.execute('TRUNCATE c18.t')
		ps.load_rows([(1, 'again', None, None)] * 1); ps(2, 'once', None, None)
		if [y[:2] for y in contents(obs)] != [(1, 'again'), (2, 'once')]: ctx.violation('reuse', repr(contents(obs)), case)
		ctx.count('reused')

def effects(ctx, r, db, obs):
	"""statements other than INSERT, executed once per row"""
	for i in range(ctx.scale(10, 100)):
		n = r.choice((0, 1, 5, 255, 256, 257, 600))
		obs.execute('TRUNCATE c18.u, c18.log; INSERT INTO c18.u SELECT g, 0 FROM generate_series(0, 9) g')
		ks = [r.randint(0, 12) for _ in range(n)]
		ps = db.prepare('UPDATE c18.u SET n = n * 2 + 1 WHERE k = $1') if i % 2 else db.prepare('UPDATE c18.u SET n = n + 1 WHERE k = $1')
		if i % 2: ks = [k for j, k in enumerate(ks) if ks[:j].count(k) < 20]
		ps.load_chunks(kinds(r, layout(r, [(k,) for k in ks])))
		want = {k: (2 ** ks.count(k) - 1) if i % 2 else ks.count(k) for k in range(10)}
		got = dict(tuple(t) for t in obs.query('SELECT k, n FROM c18.u'))
		if got != want: ctx.violation('effects:update', '%r instead of %r' % (got, want), ks)
		for nm, q, exp in (('function', 'SELECT c18.f($1)', ks), ('rows', 'SELECT c18.f($1 + g) FROM generate_series(0, 2) g', [k + g for k in ks for g in range(3)]),
			('with', 'WITH a AS (INSERT INTO c18.log (v) SELECT $1::int8 + g FROM generate_series(0, 1) g RETURNING v) SELECT v FROM a', [k + g for k in ks for g in range(2)])):
			obs.execute('TRUNCATE c18.log')
			db.prepare(q).load_rows([(k,) for k in ks])
			got = [v for v, in obs.query('SELECT v FROM c18.log ORDER BY seq')]
			if got != exp: ctx.violation('effects:' + nm, '%s for %d rows had %d effects instead of %d' % (q, len(ks), len(got), len(exp)), ks)
			ctx.case(('effects', nm, n, i)); ctx.count('effects:' + nm)
		# deletions, and rows read by the very load
		obs.execute('TRUNCATE c18.log')
		db.prepare('DELETE FROM c18.u WHERE k = $1').load_rows([(k,) for k in ks])
		if {k for k, in obs.query('SELECT k FROM c18.u')} != set(range(10)) - set(ks): ctx.violation('effects:delete', 'wrong rows deleted', ks)
		# messages of the server in the middle of a load
		seen = []
		db.msghook = lambda m: seen.append(m.message) or True
		obs.execute('TRUNCATE c18.n')
		try:
			if i % 2: db.prepare('COPY c18.n (a) FROM STDIN').load_rows([b'%d\n' % k for k in ks])
			else: db.prepare('INSERT INTO c18.n (a) VALUES ($1)').load_rows([(k,) for k in ks])
		finally: del db.msghook
		if seen != ['row %d' % k for k in ks]: ctx.violation('messages', '%d warnings instead of %d, or in another order' % (len(seen), n), ks)
		if [v for v, in obs.query('SELECT a FROM c18.n ORDER BY seq')] != ks: ctx.violation('effects:messages', 'rows', ks)
		ctx.count('messages', len(seen))

def out(ctx, r, db, uid, uniform=False):
	"""COPY TO STDOUT"""
	n = r.choice((0, 1, 2, 100, 255, 256, 257, 1000, 5000)); w = r.choice((0, 1, 50, 8000 if n < 300 else 20))
	fmt = 'text' if uniform else r.choice(('text', 'csv', 'binary'))
	sel = "SELECT g, CASE WHEN g %% 4 = 0 THEN NULL ELSE repeat('z', %d) || E'\\té\\n' END, g + %d FROM generate_series(1, %d) g" % (w, uid, n)
	vals = [(g, None if g % 4 == 0 else 'z' * w + '\té\n', g + uid) for g in range(1, n + 1)]
	if fmt == 'binary':
		sel = sel.replace('SELECT g,', 'SELECT g::int8,').replace('g + %d FROM' % uid, "'\\x00ff'::bytea FROM")
		want = binary([(a, b, b'\0\xff') for a, b, c in vals]); lines = None
	elif fmt == 'csv':
		lines = [('%d,%s,%d\n' % (a, '' if b is None else '"' + b + '"', c)).encode() for a, b, c in vals]; want = b''.join(lines)
	else: lines = [copyline('text', t) for t in vals]; want = b''.join(lines)
	if uniform or fmt == 'text' and r.random() < .4:
		# the same line again and again
		sel = "SELECT repeat('z', %d) FROM generate_series(1, %d) g" % (w, n); lines = [b'z' * w + b'\n'] * n; want = b''.join(lines)
	hdr = fmt == 'csv' and r.random() < .3
	q = 'COPY (%s) TO STDOUT WITH (FORMAT %s%s)' % (sel, fmt, ', HEADER' if hdr else '')
	if hdr: lines.insert(0, b'g,case,?column?\n'); want = b''.join(lines)
	ps = db.prepare(q); how = r.choice(('rows-other', 'chunks-other')) if uniform else r.choice(('call', 'rows', 'chunks', 'rows-other', 'chunks-other', 'abandon', 'query', 'block'))
	case = dict(q=q, n=n, how=how)
	with ctx.step('copy out', case):
		if how == 'call': got = ps()
		elif how == 'query': got = list(db.query.rows(q)) if r.random() < .5 else db.query(q)
		elif how == 'rows': got = list(ps.rows())
		elif how == 'chunks': got = [y for c in ps.chunks() for y in c]
		elif how == 'block':
			with db.xact(): got = list(ps.rows())
		else:
			it = ps.rows() if how != 'chunks-other' else ps.chunks()
			got = list(itertools.islice(it, r.choice((0, 1, 2, 300))))
			if db.query.first('SELECT $1::int8', uid) != uid: ctx.violation('afterwards', 'a query during COPY', case)
			if how == 'abandon': del it; ctx.count('abandoned')
			else: got += list(it)
			if how == 'chunks-other': got = [y for c in got for y in c]
	ctx.count('out:' + how); ctx.count('out:' + fmt); ctx.case(repr(case), sample=case)
	if how == 'abandon':
		if lines is not None and got != lines[:len(got)]: ctx.violation('copy-out', 'first lines differ', case)
		return
	if any(type(y) is not bytes for y in got): ctx.violation('copy-out', 'something else than bytes: %r' % next(y for y in got if type(y) is not bytes), case)
	elif n == 0 and not hdr and fmt != 'binary':
		if [y for y in got if y not in ('COPY', 0)]: ctx.violation('copy-out', '%r for no row' % (got,), case)
	elif b''.join(got) != want: ctx.violation('copy-out', '%d bytes in %d lines instead of %d bytes' % (sum(map(len, got)), len(got), len(want)), case)
	elif lines is not None and got != lines: ctx.violation('copy-out', 'the rows are not delivered line by line', case)

def transfer(ctx, r, db, other, obs, uid):
	"""from one connection to another, chunk by chunk"""
	import postgresql.exceptions as x
	n = r.choice((0, 1, 255, 256, 4095, 4096, 4097, 9000)); bad = r.choice((None, None, 'dst', 'src')); copy = r.random() < .5; block = r.random() < .5
	case = dict(transfer=copy, n=n, bad=bad, block=block)
	obs.execute('TRUNCATE c18.t')
	k = r.randint(1, n) if n else 0
	sel = "SELECT CASE WHEN g = %d THEN %s ELSE g END::int8 AS a, 'v' || g AS b FROM generate_series(1, %d) g" % (k if bad and n else -1, '666' if bad == 'dst' else 'g / (g - g)', n)
	s = db.prepare('COPY (%s) TO STDOUT' % sel if copy else sel); d = other.prepare('COPY c18.t (a, b) FROM STDIN' if copy else 'INSERT INTO c18.t (a, b) VALUES ($1, $2)')
	raised = None
	try:
		with ctx.step('transfer', case):
			if block:
				with db.xact(), other.xact(): d.load_chunks(s.chunks())
			else: d.load_chunks(s.chunks())
	except x.Error as e: raised = e
	if bad == 'dst' and k == 666: bad = None
	got = [tuple(v) for v in obs.query('SELECT a, b FROM c18.t ORDER BY seq')]
	want = [(g, 'v%d' % g) for g in range(1, n + 1)]
	ctx.case(repr(case), sample=case); ctx.count('transfers')
	if bad and n and 666 <= n and bad == 'dst' and k > 666: pass
	if not bad or not n:
		if raised is not None and not (n >= 666): ctx.violation('load-refused', repr(raised), case)
		elif n < 666 and got != want: ctx.violation('transfer', '%d rows arrived of %d' % (len(got), n), case)
		elif n >= 666 and raised is None: ctx.violation('error-lost', 'row 666 was accepted', case)
	elif raised is None: ctx.violation('error-lost', 'a failed transfer was reported as done', case)
	else:
		ctx.count('failed-transfers')
		if (block or copy) and got: ctx.violation('survivors', '%d rows of a failed transfer survived' % len(got), case)
		elif got != want[:len(got)]: ctx.violation('survivors', 'not a prefix', case)
	for c in (db, other):
		if c.query.first('SELECT $1::int8', uid) != uid or c.state != 'idle': ctx.violation('afterwards', c.state, case)

def huge(ctx, obs):
	"""
	A chunk whose replies exceed what the transport holds.  A deadlock is told by the
	server waiting for the client to read, without executing anything, while the client
	is not finished.
	"""
	c = ctx.connect(unix='%s/.s.PGSQL.%d' % (ctx.scratch, ctx.port))
	c.execute('CREATE TEMP TABLE c18h (a int8)')
	n = ctx.scale(60000, 400000); done = []; pid = c.query.first('SELECT pg_backend_pid()')
	ps = c.prepare('INSERT INTO c18h VALUES ($1)')
	def go():
		try: ps.load_chunks([[(i,) for i in range(n)]]); done.append(None)
		except BaseException as e: done.append(e)
	t = threading.Thread(target=go, daemon=True); t.start()
	last, since = None, time.monotonic(); stuck = False
	while not done:
		t.join(.2)
		s = tuple(obs.query('SELECT wait_event, query_start FROM pg_stat_activity WHERE pid = $1', pid)[0])
		if s != last or s[0] != 'ClientWrite': last, since = s, time.monotonic()
		elif time.monotonic() - since > 12:
			stuck = True; obs.query('SELECT pg_terminate_backend($1)', pid); t.join(20); break
	ctx.case(('huge', n)); ctx.count('huge')
	if stuck: ctx.violation('huge-chunk-deadlock', 'loading a chunk of %d rows never ends: the server waits for its replies to be read, the client for its rows to be accepted' % n, n)
	elif done[0] is not None: ctx.violation('huge-chunk', repr(done[0]), n)
	elif c.query.first('SELECT count(*) = $1::int8 AND sum(a) = $1::int8 * ($1::int8 - 1) / 2 FROM c18h', n) is not True: ctx.violation('huge-chunk', 'rows are missing', n)
	if not stuck:
		# large values in both directions at once
		ps = c.prepare('SELECT $1::text'); v = 'y' * 3000000
		for f in (ps.first, lambda z: ps(z)[0][0]):
			with ctx.step('echo', len(v)):
				if f(v) != v: ctx.violation('huge-chunk', 'a large value changed', None)
		c.prepare('INSERT INTO c18h SELECT length($1::text)').load_rows([(v,)] * 5)
		# a COPY of a large piece
		p = c.prepare('COPY c18h FROM STDIN'); c.execute('TRUNCATE c18h')
		with ctx.step('copy', n): p.load_rows([b''.join(b'%d\n' % i for i in range(n))])
		if c.query.first('SELECT count(*) FROM c18h') != n: ctx.violation('huge-chunk', 'COPY lost rows', n)
		c.close()

def main(ctx):
	ctx.rule = 'one case per load (statement, size, chunking, failure, block), COPY out, transfer, kind of effect'
	ctx.require('failed-loads', 'reused', 'recut', 'messages', 'abandoned', 'transfers', 'failed-transfers', 'huge', 'effects:function', 'effects:rows', 'effects:with',
		*['mode:' + m for m in ('insert', 'returning', 'copy-text', 'copy-csv', 'copy-binary')], *['fail:' + f for f in ('client', 'arity', 'unique', 'check', 'source', 'None')], *['block:' + b for b in ('None', 'with', 'explicit', 'savepoint')],
		*['out:' + h for h in ('call', 'rows', 'chunks', 'rows-other', 'chunks-other', 'query', 'block', 'text', 'csv', 'binary')])
	db = ctx.connect(); other = ctx.connect(tls=True); frag = sock.fragmented(ctx, ctx.rng('fragments')); obs = ctx.connect(); setup(obs)
	r = ctx.rng('main')
	huge(ctx, obs)
	effects(ctx, r, db, obs)
	i = 0; budget = ctx.scale(30, 1000)
	while i < ctx.scale(600, 30000) and ctx.elapsed() < budget:
		i += 1
		load(ctx, r, frag if i % 4 == 0 else other if i % 4 == 1 else db, obs, i)
		if i % 3 == 0: out(ctx, r, r.choice((db, frag, other)), i)
		if i % 6 == 0: out(ctx, r, frag, i, True)
		if i % 8 == 0: transfer(ctx, r, *r.sample((db, other, frag), 2), obs, i)
	ctx.count('iterations', i)
	for c in (db, other, obs, frag): c.close()
