"""
C10: the same statement executed in every way the driver offers; the rows are computed
here from the parameters alone.
"""
import gc, itertools, random
from vf import sock

# column templates: (SQL over i and the parameters $1::int8 (marker), python of (i, m), name)
COLS = [
	("$1::int8 + i", lambda i, m: m + i),
	("CASE WHEN i % 3 = 0 THEN NULL ELSE i::int4 END", lambda i, m: None if i % 3 == 0 else i),
	("repeat('é', (i % 5)::int4)", lambda i, m: 'é' * (i % 5)),
	("i % 2 = 0", lambda i, m: i % 2 == 0),
	("i::float8 / 4", lambda i, m: i / 4),
	("decode(lpad(to_hex(i % 256), 2, '0'), 'hex')", lambda i, m: bytes([i % 256])),
	("NULL::text", lambda i, m: None),
	("CASE WHEN i % 7 = 0 THEN '' ELSE i::text END", lambda i, m: '' if i % 7 == 0 else str(i)),
	("ARRAY[i, NULL, $1::int8]", lambda i, m: [i, None, m]),
	("ROW(i, 'x'::text)", None),
]
COLS = [c for c in COLS if c[1]]
SIZES = [0, 1, 2, 3, 30, 100, 1000, 4094, 4095, 4096, 4097, 8191, 8192, 8193, 12288]

def build(r):
	n = r.choice((1, 1, 2, 3, 5, len(COLS), 60))
	cols = [r.choice(COLS) for _ in range(n)]
	names = [r.choice(('a', 'b', 'Ünï', 'sp ace', '%s', '"q"', 'c%d' % k)) for k in range(n)]
	sel = ', '.join('%s AS "%s"' % (c[0], nm.replace('"', '""')) for c, nm in zip(cols, names))
	k = r.randrange(5)
	if k == 0: src = 'SELECT %s FROM generate_series(1::int8, $2::int8) g(i) ORDER BY i'
	elif k == 1: src = 'SELECT %s FROM generate_series(1::int8, $2::int8) g(i)'
	elif k == 2: src = 'WITH w AS (SELECT i FROM generate_series(1::int8, $2::int8) g(i)) SELECT %s FROM w;'
	elif k == 3: src = '/* ; */ SELECT %s FROM generate_series(1::int8, $2::int8) g(i) -- end'
	else: src = '(SELECT %s FROM generate_series(1::int8, $2::int8 / 2) g(i)) UNION ALL (SELECT * FROM generate_series(1,0) WHERE false)'
	if k == 4: src = 'SELECT %s FROM (SELECT i FROM generate_series(1::int8, $2::int8 / 2) g(i) UNION ALL SELECT i FROM generate_series($2::int8 / 2 + 1, $2::int8) g(i)) z(i)'
	q = src.replace('%s', sel, 1)
	if '$1' not in q: q = q.replace('SELECT ', 'SELECT ', 1); q = q.replace('$2::int8)', '$2::int8 + ($1::int8 * 0))', 1)
	return q, cols, names

def expect(cols, m, n): return [tuple(c[1](i, m) for c in cols) for i in range(1, n + 1)]
def norm(v):
	t = type(v).__module__
	if t == 'postgresql.types': return v.nest()
	return v
SEEN = []
def rows(it):
	out = []
	for x in it:
		if len(out) < 2: SEEN.append(x)
		out.append(tuple(norm(v) for v in x))
	return out

def named(ctx, how, names, case):
	"""the rows that were delivered name their columns, whichever way they came"""
	once = [(k, nm) for k, nm in enumerate(names) if names.count(nm) == 1]
	for x in SEEN[:3] + SEEN[-3:]:
		try:
			got = [(k, nm) for k, nm in once if norm(x[nm]) == norm(x[k]) and x.index_from_key(nm) == k and norm(x.get(nm)) == norm(x[k]) and x.key_from_index(k) == nm]
			cn = list(x.column_names)
			if got != once or (len(once) == len(names) and cn != names): ctx.violation('row-names:' + how, '%s: columns %r answer to %r' % (how, names, cn), case)
		except Exception as e: ctx.violation('row-names:' + how, '%s: a row does not answer to its columns: %s: %s' % (how, type(e).__name__, e), case)
		ctx.count('rows asked by name')
	SEEN.clear()

def ways(r, db, ps, q, n):
	"""name -> callable(*params) giving the list of tuples"""
	qn = r.choice((1, 7, 100, n or 1, n + 1, 4096))
	qn = max(qn, n // 20, 1)
	def reads(c, k):
		out = []
		while True:
			b = c.read(k)
			if not b: return out
			if len(b) > k: raise AssertionError('read(%d) returned %d rows' % (k, len(b)))
			out.extend(rows(b))
	def cur_mixed(*p):
		c = ps.declare(*p); out = rows(c.read(3)); out += rows(itertools.islice(c, 2)); out += rows(c.read()); out += rows(c.read(5)); return out
	def byid(*p):
		s = db.statement_from_id(ps.statement_id); return rows(s(*p))
	def byid_rows(*p):
		s = db.statement_from_id(ps.statement_id); return rows(s.rows(*p))
	def curid(*p):
		c = ps.declare(*p); d = db.cursor_from_id(c.cursor_id); a = rows(d.read(max(1, n // 2))); return a + rows(c.read())
	def pop(*p):
		out = []
		for c in ps.chunks(*p):
			if not len(c): raise AssertionError('an empty chunk')
			out += rows(c)
		return out
	w = dict(call=lambda *p: rows(ps(*p)), rows=lambda *p: rows(ps.rows(*p)), chunks=pop,
		column=lambda *p: [(norm(v),) for v in ps.column(*p)],
		first=lambda *p: [ps.first(*p)],
		cursor_reads=lambda *p: reads(ps.declare(*p), qn), cursor_all=lambda *p: rows(ps.declare(*p).read()),
		cursor_iter=lambda *p: rows(ps.declare(*p)) if n < 300 else rows(ps.declare(*p).read()), cursor_mixed=cur_mixed, byid=byid, byid_rows=byid_rows, cursor_from_id=curid,
		clone=lambda *p: rows(ps.clone()(*p)),
		query=lambda *p: rows(db.query(q, *p)), query_rows=lambda *p: rows(db.query.rows(q, *p)), query_chunks=lambda *p: [y for c in db.query.chunks(q, *p) for y in rows(c)],
		query_first=lambda *p: [db.query.first(q, *p)], query_column=lambda *p: [(norm(v),) for v in db.query.column(q, *p)], query_declare=lambda *p: rows(db.query.declare(q, *p).read()))
	return w

def check(ctx, name, got, want, ncols, case):
	if name in ('column', 'query_column'): want = [x[:1] for x in want]
	if name in ('first', 'query_first'):
		v = got[0]
		if not want: w = None
		elif ncols == 1: w = want[0][0]
		else: w = want[0]; v = v if v is None else tuple(norm(y) for y in v)
		v = norm(v)
		if v != w or (v is None) != (w is None): ctx.violation('first', '%s returned %r instead of %r' % (name, v, w), case)
		return
	if got != want:
		d = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
		ctx.violation('rows:' + name, '%s returned %d rows of %d; first difference at %d: %r instead of %r' % (name, len(got), len(want), d, got[d:d + 2], want[d:d + 2]), case)

def same_access(ctx, r, db, uid):
	q, cols, names = build(r)
	n = r.choice(SIZES[:8]) if len(cols) > 8 else r.choice(SIZES)
	m = uid * 10**6
	case = dict(q=q, n=n, m=m)
	blk = r.choice((None, None, db.xact, lambda: db.xact(isolation='serializable'), lambda: db.xact(isolation='repeatable read', mode='READ ONLY')))
	b = blk() if blk else None
	if b: b.start()
	inner = db.xact() if b and r.random() < .3 else None
	if inner: inner.start()
	ps = db.prepare(q)
	if ps.column_names != names: ctx.violation('column-names', '%r instead of %r' % (ps.column_names, names), case)
	want = expect(cols, m, n)
	w = ways(r, db, ps, q, n)
	for name in r.sample(sorted(w), 5):
		SEEN.clear()
		with ctx.step(name, case): got = w[name](m, n)
		if 'chunks' not in name: named(ctx, name, names, case)    # chunks are of plain tuples
		check(ctx, name, got, want, len(cols), case)
		ctx.count('way:' + name); ctx.case((name, q, n, bool(b)), sample=case)
		if n > 4096: ctx.count('multi-chunk')
		if b: ctx.count('in-xact')
	# rows name their columns
	x = ps.first(m, 3)
	if len(cols) > 1:
		if len(set(names)) == len(names) and list(x.column_names) != names: ctx.violation('row-names', '%r instead of %r' % (list(x.column_names), names), case)
		for k, nm in enumerate(names):
			if names.count(nm) == 1 and norm(x[nm]) != want_row(cols, m, 1)[k]: ctx.violation('row-lookup', '%r is %r' % (nm, x[nm]), case)
	if inner: inner.commit() if r.random() < .5 else inner.rollback()
	if b: b.commit() if r.random() < .5 else b.rollback()

def want_row(cols, m, i): return tuple(c[1](i, m) for c in cols)

def batches(c, k):
	while True:
		b = c.read(k)
		if not b: return
		yield from rows(b)

def interleaved(ctx, r, db, uid):
	"""several open results advanced alternately"""
	b = db.xact() if r.random() < .6 else None
	if b: b.start()
	open_ = []
	case = dict(inx=bool(b), results=[])
	shared = None
	for k in range(r.randint(2, 5)):
		if shared and r.random() < .4: q, cols, names, ps = shared
		else:
			q, cols, names = build(r)
			if len(cols) > 8: cols, names = cols[:1], names[:1]; q = 'SELECT %s FROM generate_series(1::int8, $2::int8 + $1::int8 * 0) g(i)' % cols[0][0]
			ps = db.prepare(q); shared = (q, cols, names, ps)
		n, m = r.choice(SIZES), (uid * 10 + k) * 10**6
		kind = r.choice(('rows', 'chunks', 'column', 'cursor', 'cursor-read', 'call'))
		want = expect(cols, m, n)
		if kind == 'rows': it = (tuple(norm(v) for v in x) for x in ps.rows(m, n))
		elif kind == 'chunks': it = (y for c in ps.chunks(m, n) for y in rows(c))
		elif kind == 'column': it = ((norm(v),) for v in ps.column(m, n)); want = [x[:1] for x in want]
		elif kind == 'cursor': it = (tuple(norm(v) for v in x) for x in ps.declare(m, min(n, 300))); want = want[:300]
		elif kind == 'call': it = iter(rows(ps(m, n)))
		else:
			it = batches(ps.declare(m, n), r.choice((100, 1000, 4096)))
		case['results'].append((kind, q, n, m))
		open_.append([kind, iter(it), want, []])
	with ctx.step('interleaved', case):
		live = list(open_)
		while live:
			o = r.choice(live)
			k = r.choice((1, 1, 5, 100, 4095, 4096, 5000, 20000))
			got = list(itertools.islice(o[1], k)); o[3].extend(got)
			if len(got) < k: live.remove(o)
			z = r.random()
			if z < .1 and db.query.first('SELECT $1::int4 + 1', 41) != 42: ctx.violation('between', 'a query between result reads returned something else', case)
			elif z < .15: db.execute('SELECT 1')
			elif z < .2: gc.collect()
			elif z < .23 and b:
				with db.xact(): db.query('SELECT 1')
			ctx.count('advances')
	for o in open_:
		if o[3] != o[2]:
			d = next((i for i, (a, c) in enumerate(zip(o[3], o[2])) if a != c), min(len(o[3]), len(o[2])))
			ctx.violation('interleaved:' + o[0], '%d rows of %d; first difference at %d: %r instead of %r' % (len(o[3]), len(o[2]), d, o[3][d:d + 2], o[2][d:d + 2]), case)
	ctx.case(('interleaved', repr(case)), sample=case)
	ctx.count('interleaved')
	if b: b.commit()

def counts(ctx, r, db, uid, n=None):
	n = n if n is not None else r.choice((0, 1, 2, 10, 1000, 5000))
	t = 'vf10_%d' % uid
	case = dict(n=n)
	def num(q='SELECT count(*) FROM ' + t): return db.query.first(q)
	def one(q, params, cmd, cnt, after=None):
		how = r.choice(('call', 'first', 'query', 'query.first'))
		case2 = dict(q=q, params=params, how=how)
		with ctx.step('count', case2):
			if how == 'call': v = db.prepare(q)(*params)
			elif how == 'query': v = db.query(q, *params)
			elif how == 'first': v = db.prepare(q).first(*params)
			else: v = db.query.first(q, *params)
		want = (cmd, cnt) if how in ('call', 'query') else (cnt if cnt is not None else cmd)
		if v != want: ctx.violation('count:' + how, '%s reported %r instead of %r' % (q, v, want), case2)
		ctx.case((q[:20], how, cnt, uid)); ctx.count('counted')
		if after is not None and num() != after: ctx.violation('effect', '%s left %r rows instead of %r' % (q, num(), after), case2)
	one('CREATE TEMP TABLE %s (i int8, t text)' % t, (), 'CREATE TABLE', None, 0)
	one('INSERT INTO %s SELECT g, g::text FROM generate_series(1, $1::int8) g' % t, (n,), 'INSERT', n, n)
	one('UPDATE %s SET t = t || $2 WHERE i %% 2 = $1::int8' % t, (0, 'x'), 'UPDATE', n // 2, n)
	one('INSERT INTO %s VALUES ($1, $2)' % t, (n + 1, None), 'INSERT', 1, n + 1)
	one('INSERT INTO %s VALUES (0, NULL), (0, NULL), (0, NULL)' % t, (), 'INSERT', 3, n + 4)
	one('DELETE FROM %s WHERE i = $1' % t, (0,), 'DELETE', 3, n + 1)
	one('DELETE FROM %s WHERE i = $1' % t, (-5,), 'DELETE', 0, n + 1)
	one('CREATE TEMP TABLE %s_b AS SELECT * FROM %s' % (t, t), (), 'SELECT', n + 1)
	one('MERGE INTO %s x USING %s_b y ON x.i = y.i WHEN MATCHED AND x.i <= 5 THEN DELETE' % (t, t), (), 'MERGE', min(n + 1, 5), n + 1 - min(n + 1, 5))
	one('TRUNCATE %s' % t, (), 'TRUNCATE TABLE', None, 0)
	# returning: rows, once, with the effect once
	for how in ('call', 'first', 'rows-in', 'chunks-in', 'column-in'):
		q = 'INSERT INTO %s SELECT g, g::text FROM generate_series(1, $1::int8) g RETURNING i, t' % t
		before = num(); ps = db.prepare(q); want = [(i, str(i)) for i in range(1, n + 1)]
		with ctx.step('returning ' + how, case):
			if how == 'call': got = rows(ps(n))
			elif how == 'first': got = ps.first(n); got = want if (got is None and not want) or (want and tuple(got) == want[0]) else got
			else:
				with db.xact():
					got = rows(ps.rows(n)) if how == 'rows-in' else [y for c in ps.chunks(n) for y in rows(c)] if how == 'chunks-in' else list(ps.column(n))
				if how == 'column-in': want = [x[0] for x in want]
		if got != want: ctx.violation('returning:' + how, '%d of %d: %r' % (len(got), len(want), got[:5]), case)
		if num() - before != n: ctx.violation('returning-effect:' + how, '%d rows inserted instead of %d' % (num() - before, n), case)
		ctx.count('returning'); ctx.case(('returning', how, n, uid))
	# run to the end once, however little of the result is taken
	db.execute('CREATE TEMP SEQUENCE %s_s' % t); ps = db.prepare("SELECT nextval('%s_s'), $1::int8 FROM generate_series(1, $1::int8)" % t); at = 0
	for how in ('call', 'first', 'rows', 'chunks', 'column', 'query.first', 'query', 'declare', 'declare-in', 'rows-in'):
		with ctx.step('effects ' + how, case):
			if how == 'call': v = len(ps(n)) == n
			elif how == 'first': v = ps.first(n); v = v is None if not n else tuple(v) == (at + 1, n)
			elif how == 'query.first': v = db.query.first("SELECT nextval('%s_s') FROM generate_series(1, $1::int8)" % t, n); v = v is None if not n else v == at + 1
			elif how == 'query': v = len(db.query("SELECT nextval('%s_s') FROM generate_series(1, $1::int8)" % t, n)) == n
			elif how == 'rows': v = len(list(ps.rows(n))) == n
			elif how == 'declare': x = ps.declare(n); v = len(x.read(1)) == min(n, 1) and len(x.read()) == max(n - 1, 0); x.close()
			elif how.endswith('-in'):
				with db.xact():
					if how == 'rows-in': v = len(list(ps.rows(n))) == n
					else: x = ps.declare(n); v = len(x.read()) == n; x.close()
			elif how == 'chunks': v = sum(len(x) for x in ps.chunks(n)) == n
			else: v = list(ps.column(n)) == list(range(at + 1, at + n + 1))
		at += n; now = db.query.first('SELECT CASE WHEN is_called THEN last_value ELSE 0 END FROM %s_s' % t)
		if not v: ctx.violation('effects:result', '%s of %d rows: another result' % (how, n), case)
		if now != at: ctx.violation('effects', '%s of a statement of %d rows ran for %d of them' % (how, n, now - at + n), case)
		ctx.count('effects'); ctx.case(('effects', how, n, uid))
	db.execute('DROP SEQUENCE %s_s' % t)
	# the tag of a COPY read as chunks
	for k in (0, 1, 3, 3, 20, 100, num()):
		ps = db.prepare('COPY (SELECT * FROM %s LIMIT %d) TO STDOUT' % (t, k)); c = ps.chunks(); lines = [y for x in c for y in x]; k = min(k, num())
		if (c.command(), c.count()) != ('COPY', k): ctx.violation('count:copy', 'COPY of %d rows reported %r' % (k, (c.command(), c.count())), case)
		elif len([y for y in lines if y.__class__ is bytes]) != k: ctx.violation('copied', '%d lines of %d' % (len(lines), k), case)
		ctx.count('copied')
	# simple queries
	db.execute('DELETE FROM %s; INSERT INTO %s SELECT g, g::text FROM generate_series(1, %d) g; SELECT * FROM %s; UPDATE %s SET t = NULL' % (t, t, n, t, t))
	if tuple(db.query.first('SELECT count(*), count(t) FROM ' + t)) != (n, 0): ctx.violation('execute', 'a script had another effect', case)
	db.execute('DROP TABLE %s, %s_b' % (t, t))

def streamed(ctx, r):
	"""reading a part of a large result does not transfer all of it"""
	db = sock.fragmented(ctx, r, size=65536); s = db.pq.socket; n = 300000
	ps = db.prepare("SELECT i, repeat('x', 40) FROM generate_series(1, $1::int8) i")
	for how in ('rows', 'iter', 'chunks', 'column', 'declare', 'cursor'):
		for inside in (False, True):
			b = db.xact() if inside else None
			if b: b.start()
			at = s.delivered; case = dict(how=how, inside=inside)
			with ctx.step('streamed', case):
				if how == 'rows': x = ps.rows(n); v = tuple(next(iter(x)))
				elif how == 'chunks': x = ps.chunks(n); v = tuple(next(iter(x))[0])
				elif how == 'iter': x = db.query.rows(ps.string, n); v = tuple(next(iter(x)))
				elif how == 'column': x = ps.column(n); v = (next(iter(x)), 'x' * 40)
				elif how == 'declare': x = ps.declare(n); v = tuple(x.read(1)[0])
				else: x = ps.declare(n); v = tuple(next(x))
				del x
				if db.query.first('SELECT 1') != 1: ctx.violation('streamed', 'out of step', case)
			if v != (1, 'x' * 40): ctx.violation('streamed', 'the first row is %r' % (v,), case)
			got = s.delivered - at
			if got > n * 60 // 8: ctx.violation('streamed:' + how, 'reading a row of %d transferred %d bytes' % (n, got), case)
			ctx.count('streamed'); ctx.case(('streamed', how, inside))
			if b: b.rollback()
	db.close()

def shapes(ctx, r, db):
	"""no columns, very many columns, very wide values, empty statements"""
	for n in (0, 1, 5, 4096, 5000):
		ps = db.prepare('SELECT FROM generate_series(1, %d)' % n)
		for nm, f in (('call', lambda: ps()), ('rows', lambda: list(ps.rows())), ('chunks', lambda: [y for c in ps.chunks() for y in c]), ('cursor', lambda: ps.declare().read())):
			for inx in (False, True):
				with ctx.step('zero columns', (nm, n)):
					if inx:
						with db.xact(): got = f()
					else: got = f()
				if [tuple(x) for x in got] != [()] * n: ctx.violation('zero-columns:' + nm, '%d rows without columns: %r' % (n, got[:3] if isinstance(got, list) else got), (nm, n, inx))
				ctx.case(('zero', nm, n, inx)); ctx.count('zero-columns')
	for k in (1, 255, 256, 257, 1000, 1600):
		ps = db.prepare('SELECT ' + ', '.join('%d::int4 + g AS c%d' % (i, i) for i in range(k)) + ' FROM generate_series(0, 2) g')
		want = [tuple(i + g for i in range(k)) for g in range(3)]
		for nm, f in (('call', ps), ('rows', lambda: ps.rows()), ('cursor', lambda: ps.declare().read())):
			if rows(f()) != want: ctx.violation('many-columns:' + nm, '%d columns' % k, k)
			ctx.case(('columns', nm, k))
	for size in (0, 1, 8191, 8192, 8193, 70000, 3000000):
		v = db.prepare("SELECT repeat('z', $1::int4), $1::int4")(size)
		if rows(v) != [('z' * size, size)]: ctx.violation('wide', 'a value of %d characters arrived as %d' % (size, len(v[0][0])), size)
		ctx.case(('wide', size)); ctx.count('wide')
	for q in ('', ' ', ';', '-- nothing', '/* nothing */'):
		with ctx.step('empty', q):
			db.execute(q); ps = db.prepare(q); a = ps(); b = ps.first(); c = list(ps.rows())
		if a not in ([], (None, None), None) or b is not None or c != []: ctx.violation('empty-statement', '%r returned %r, %r, %r' % (q, a, b, c), q)
		ctx.case(('empty', q))
	# statements that are not declarable: the same rows or a refusal, never others
	import postgresql.exceptions as x
	for q in ('VALUES (1, 2), (3, 4)', 'SHOW server_version', 'EXPLAIN SELECT 1', 'TABLE pg_namespace', 'WITH a AS (SELECT 1 AS b) SELECT * FROM a', 'SELECT 1 FOR UPDATE', 'SELECT 1; '):
		ps = db.prepare(q); want = rows(ps())
		for inx in (False, True):
			for nm, f in (('rows', lambda: rows(ps.rows())), ('chunks', lambda: [y for c in ps.chunks() for y in rows(c)]), ('cursor', lambda: rows(ps.declare().read())), ('first', lambda: ps.first())):
				try:
					if inx:
						with db.xact(): got = f()
					else: got = f()
				except x.Error: ctx.count('not-declarable'); continue
				if nm == 'first': got = [tuple(got) if isinstance(got, tuple) else (got,)]; w2 = want[:1]
				else: w2 = want
				if got != w2: ctx.violation('utility:' + nm, '%s: %r instead of %r' % (q, got, w2), (q, nm, inx))
				ctx.case(('utility', q, nm, inx))

def main(ctx):
	ctx.rule = 'one case per (statement, size, way of executing, transaction context), per set of alternately read results, per counted command'
	names = ['call', 'rows', 'chunks', 'column', 'first', 'cursor_reads', 'cursor_all', 'cursor_iter', 'cursor_mixed', 'byid', 'byid_rows', 'cursor_from_id', 'clone', 'query', 'query_rows', 'query_chunks', 'query_first', 'query_column', 'query_declare']
	ctx.require('over tls', 'multi-chunk', 'in-xact', 'advances', 'interleaved', 'counted', 'streamed', 'effects', 'returning', 'zero-columns', 'wide', 'fragmented', 'copied', 'pieces of one size', *['way:' + n for n in names])
	r = ctx.rng('main')
	db = ctx.connect()
	shapes(ctx, r, db)
	streamed(ctx, r)
	# every message by itself, and cut at every place
	for size in ctx.scale((1, 6, 7, 9, 13), (1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 13, 17, 19, 31, 64)):
		f = sock.fragmented(ctx, r, size=size)
		for n in (0, 3): counts(ctx, r, f, 10**6 + size, n)
		f.close(); ctx.count('pieces of one size')
	i = 0
	budget = ctx.scale(30, 1200)
	while i < ctx.scale(150, 20000) and ctx.elapsed() < budget:
		i += 1
		same_access(ctx, r, db, i)
		if i % 3 == 0: interleaved(ctx, r, db, i)
		if i % 10 == 0: counts(ctx, r, db, i)
		if i % 10 == 0:
			db.close(); tls = i % 40 in (0, 30); db = sock.fragmented(ctx, r, tls=tls) if i % 20 else ctx.connect(tls=tls); ctx.count('over tls', tls)
			ctx.count('fragmented', i // 10 % 2)
	ctx.count('iterations', i)
	db.close()
