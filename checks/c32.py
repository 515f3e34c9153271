"""C32: the DB-API layer executes what was asked with the semantics of PEP 249."""
import datetime, itertools, time
from collections import OrderedDict, UserDict

def main(ctx):
	ctx.rule = 'statements put together from pieces with known values, parameters and percent signs, evaluated by the server; fetch sequences against the list of rows; transaction histories against a model seen through a second connection; exceptions, descriptions, counts, procedures and closing against PEP 249'
	from postgresql.driver import dbapi20 as D
	r = ctx.rng('c32')
	V = ctx.violation
	def conn(): return D.connect(host='127.0.0.1', port=ctx.port, user='postgres', database='postgres')
	def outcome(f):
		try: return ('v', f())
		except Exception as e: return ('e', e)
	a, b, obs = conn(), conn(), ctx.connect()
	b.autocommit = True

	# --- parameters
	hostile = ['%s', '%%', '%(k)s', '%', "it's", 'a"b', '\\', '$1', '%d %s', 'é%', '', ' ', '%(', '%%s', "'", ':x', '?', '$$', 'x' * 50, '%1$s', '\n%s\n']
	lit = lambda s: "'" + s.replace("'", "''") + "'"
	ident = lambda s: '"' + s.replace('"', '""') + '"'
	keys = ['k', 'a b', 'k2', 'é', 'x%', 's', '%s', 'a-b', '1', '']
	def piece(style, params, used):
		"""(SQL, value)"""
		k = r.choice(('lit', 'dollar', 'estr', 'ident', 'param', 'param', 'param', 'mod', 'num', 'param2', 'like', 'ustr'))
		if k == 'lit': v = r.choice(hostile); return lit(v) + '::text', v
		if k == 'dollar':
			v = r.choice([h for h in hostile if '$' not in h]); t = r.choice(('$$', '$t$', '$a_1$')); return t + v + t + '::text', v
		if k == 'estr': v = r.choice(hostile); return "E'" + v.replace('\\', '\\\\').replace("'", "\\'" if r.random() < .5 else "''") + "'::text", v
		if k == 'ustr': v = r.choice([h for h in hostile if '\\' not in h]); return "(" + lit(v) + " || '')::text", v
		if k == 'ident':
			v = r.choice([h for h in hostile if h and len(h) < 40]); n = r.randint(0, 99); return '(select %s from (select %d) q(%s))' % (ident(v), n, ident(v)), n
		if k == 'mod':
			x, y = r.randint(0, 99), r.randint(1, 9); used['pp'] = True
			return '%d %%%%%s%d' % (x, r.choice((' ', '')), y), x % y
		if k == 'num': v = r.randint(0, 999); return str(v), v
		if k == 'like': return "('a%sb' like '%%s%')", True
		if style is None: v = r.randint(0, 9); return str(v), v
		v, t = r.choice(((r.choice(hostile), 'text'), (r.randint(-9, 9), 'int'), (None, 'text'), (r.random() < .5, 'bool'), ([1, None], 'int[]'), (b'%s\x00', 'bytea')))
		if style == 'format': params.append(v); p = '%s'
		else:
			name = r.choice(keys)
			if name in params:
				v = params[name]; t = used['t', name]
			params[name] = v; used['t', name] = t; p = '%(' + name + ')s'
		used['p'] = True
		sql = p + '::' + t
		if k == 'param2' and t == 'int' and v is not None: used['pp'] = True; return '(%s %%%% 7)' % sql, int(abs(v) % 7) * (1 if v >= 0 else -1)
		return sql, v
	def ok(got, want):
		if isinstance(want, list): return list(got) == want
		return got == want and (got is None) == (want is None)
	for i in range(ctx.scale(1600, 20000)):
		if ctx.elapsed() > ctx.scale(14, 250): break
		style = r.choice(('format', 'pyformat', 'pyformat', 'format', None)); params = [] if style == 'format' else {}; used = {}
		ps = [piece(style, params, used) for _ in range(r.randint(1, 7))]
		sql = 'SELECT ' + r.choice((', ', ',', ' ,\n')).join(s for s, _ in ps)
		if not used.get('p'): sql = sql.replace('%% ', '% ').replace('%%', '%') if used.get('pp') and not any(h in sql for h in ("'%%", '%%s', '"%%', '$%%')) else sql; 
		if not used.get('p') and used.get('pp') and '%%' in sql: continue
		if style == 'format' and r.random() < .5: params = tuple(params)
		elif style == 'pyformat' and r.random() < .5: params = r.choice((OrderedDict, UserDict))(params)
		args = (params,) if used.get('p') or r.random() < .3 and len(params) == 0 else ()
		case = dict(sql=sql, params=repr(params))
		c = r.choice((a, b)).cursor()
		got = outcome(lambda: c.execute(sql, *args).fetchall())
		want = [v for _, v in ps]
		if got[0] == 'e': V('parameters-error', '%s: %s' % (type(got[1]).__name__, str(got[1])[:150]), case); a.rollback()
		elif len(got[1]) != 1 or len(got[1][0]) != len(want) or not all(map(ok, got[1][0], want)): V('parameters', 'gave %r, expected %r' % (tuple(got[1][0]), want), case)
		ctx.case('p' + sql, nontrivial=bool(used.get('p')), sample=case if r.random() < .002 else None); ctx.count('statements')
	# any number of names, each any number of times
	for n in (1, 2, 9, 10, 11, 12, 25, 130):
		for _ in range(3):
			names = ['n%d' % k for k in range(n)]; use = names + r.choices(names, k=r.randint(1, n)); r.shuffle(use); params = {k: 'v ' + k for k in names}
			sql = 'SELECT ' + ', '.join('%(' + k + ')s::text' for k in use); got = outcome(lambda: tuple(a.cursor().execute(sql, params).fetchall()[0]))
			if got != ('v', tuple(params[k] for k in use)): V('many-names', 'gave %.200r' % (got,), dict(names=n, sql=sql[:300])); a.rollback()
			ctx.case(('names', n, sql)); ctx.count('many names')
	# a bare percent sign next to parameters is an operator or an error, never a parameter
	for sql, p, want in (('SELECT 7 % 4, %s::int', (5,), (3, 5)), ('SELECT %s::int % 4', (7,), (3,)), ("SELECT 7 % 4, '', %s::int", (5,), (3, '', 5)), ('SELECT 7 %4, %(x)s::int', {'x': 5}, (3, 5)), ('SELECT 7 % s.s, %s::int from (select 4) s(s)', (5,), (3, 5)), ('SELECT 7 %% 4, \'\', %s::int', (5,), (3, '', 5)), ('SELECT 7 %% 4, \'\', %(x)s::int', {'x': 5}, (3, '', 5)), ("SELECT %s::int, '', 7 %% 4", (5,), (5, '', 3)), ('SELECT 7 % 4', (), (3,)), ("SELECT 7 % 4, '%s'", (), (3, '%s')), ('SELECT 7 %% %s::int', (4,), (3,)), ('SELECT %s::int %% %s::int', (7, 4), (3,)), ('SELECT %(a)s::int%%%(a)s::int', {'a': 3}, (0,))):
		g = outcome(lambda: tuple(b.cursor().execute(sql, p).fetchone()))
		if g[0] == 'v' and g[1] != want: V('percent', '%r with %r gave %r' % (sql, p, g[1]), dict(sql=sql))
		if g[0] == 'e' and '%%' in sql: V('percent-escape', '%r with %r gave %r' % (sql, p, g[1].__class__), dict(sql=sql))
		ctx.case('b' + sql)
	# the wrong number is refused and nothing executed
	b.cursor().execute('create table wrong(i text)')
	for sql, p in (('insert into wrong values (%s)', ()), ('insert into wrong values (%s)', (1, 2)), ('insert into wrong values (%(a)s)', {}), ('insert into wrong values (%(a)s)', {'b': 'x'}), ("insert into wrong values ('%s')", ('x',)), ('insert into wrong values (%s || %(a)s)', ('x', 'y')), ("insert into wrong values ('%s' || %s)", ('x', 'y'))):
		g = outcome(lambda: b.cursor().execute(sql, p))
		if g[0] == 'v' or obs.prepare('select count(*) from wrong').first(): V('wrong-parameters', '%r with %r was executed' % (sql, p), dict(sql=sql))
		ctx.case('w' + sql)

	# --- fetching
	for i in range(ctx.scale(260, 4000)):
		if ctx.elapsed() > ctx.scale(21, 330): break
		n = r.choice((0, 1, 2, 3, 7, 50, 255, 256, 257, 300, 511, 512, 513, 1000, 1000) + ((4095, 4096, 4097, 5000, 8192, 9000) if i % 4 == 0 else ())); x = r.choice((a, b)); c = x.cursor()
		base = r.randrange(10 ** 6); off = r.choice((0, 1))
		c.execute('select i, %s::text || i from generate_series(%s::int, %s::int) g(i)', ('v', base, base + n - 1))
		rows = [(j, 'v%d' % j) for j in range(base, base + n)]; pos = 0; log = []
		second = r.random() < .2
		if second:
			n2 = r.randint(0, 9); c.execute('select %d + j from generate_series(1, %d) g(j)' % (base, n2)); keep = rows, 'first'; rows = [(base + j,) for j in range(1, n2 + 1)]
		while True:
			op = r.choice(('one', 'one', 'many', 'many', 'default', 'all', 'next', 'iter', 'arraysize'))
			if op == 'all' and r.random() < .7: continue
			log.append(op)
			if op == 'one': got = c.fetchone(); want = rows[pos] if pos < len(rows) else None; got = got if got is None else tuple(got); pos = min(pos + 1, len(rows))
			elif op == 'next': got = outcome(lambda: next(c)); want = ('v', rows[pos]) if pos < len(rows) else None; got = (got[0], tuple(got[1])) if got[0] == 'v' else None if type(got[1]) is StopIteration else got; pos = min(pos + 1, len(rows))
			elif op == 'many': k = r.choice((1, 2, 3, 10, 100, 256, 300, 1000, 1000) + ((2000, 4000, 4095, 4096, 5000) if n > 1000 else ())); log[-1] += ' %d' % k; got = [tuple(z) for z in c.fetchmany(k)]; want = rows[pos:pos + k]; pos = min(pos + k, len(rows))
			elif op == 'default': got = [tuple(z) for z in c.fetchmany()]; want = rows[pos:pos + c.arraysize]; pos = min(pos + c.arraysize, len(rows))
			elif op == 'arraysize': c.arraysize = r.choice((1, 2, 5, 300)); continue
			elif op == 'all': got = [tuple(z) for z in c.fetchall()]; want = rows[pos:]; pos = len(rows)
			else: k = r.randint(1, 300 if n <= 1000 else 3000); got = [tuple(z) for z in itertools.islice(c, k)]; want = rows[pos:pos + k]; pos = min(pos + k, len(rows))
			if got != want: V('fetch', '%s after %r: %r..., expected %r...' % (op, log[-6:], repr(got)[:150], repr(want)[:150]), dict(n=n, log=log[-30:])); break
			ctx.count('fetches')
			if pos == len(rows) and r.random() < .4 or len(log) > 60: break
		else: pass
		if second:
			if c.nextset() is None: V('nextset', 'the first result is gone', None)
			g = outcome(lambda: [tuple(z) for z in c.fetchall()])
			if g != ('v', keep[0]): V('nextset', 'another result set: %s' % repr(g)[:200], dict(log=log))
			if c.nextset() is not None: V('nextset', 'a third result set', None)
		# a statement without rows leaves nothing to fetch
		if i % 5 == 0:
			for _ in range(r.randint(0, 2)): c.execute('select 1')
			c.execute('create temp table if not exists tt(i int)')
			for f in (c.fetchone, c.fetchall, lambda: c.fetchmany(2)):
				g = outcome(f)
				if g[0] == 'v' or not isinstance(g[1], D.Error): V('fetch-nothing', 'after a statement without rows: %s' % repr(g)[:200], None)
			if c.description is not None: V('description', 'of a statement without rows: %r' % (c.description,), None)
		c.close(); ctx.case('f%d' % i)
	a.rollback()

	# --- descriptions and counts
	c = b.cursor()
	if c.description is not None or c.rowcount != -1: V('description', 'before any operation: %r %r' % (c.description, c.rowcount), None)
	g = outcome(c.fetchone)
	if g[0] == 'v' or not isinstance(g[1], D.Error): V('fetch-nothing', 'before any operation: %r' % (g,), None)
	TY = dict(text=D.STRING, varchar=D.STRING, name=D.STRING, int2=D.NUMBER, int4=D.NUMBER, int8=D.NUMBER, bytea=D.BINARY, timestamp=D.DATETIME, timestamptz=D.DATETIME, oid=D.ROWID)
	for i in range(ctx.scale(60, 600)):
		n = r.randint(1, 6); cols = [(r.choice(('a', 'B c', 'é', '%s', 'x"y', 'long' * 15)), r.choice(list(TY))) for _ in range(n)]
		c.execute('select ' + ', '.join('NULL::%s AS %s' % (t, ident(x)) for x, t in cols))
		d = c.description
		if [(x[0], x[1]) for x in d] != [(x, TY[t]) for x, t in cols] or any(len(x) != 7 for x in d): V('description', '%r of %r' % (d, cols), None)
		c.fetchall(); ctx.case('d%d' % i)
	c.execute('create table cnt(i int)')
	for i in range(ctx.scale(60, 600)):
		n = r.randint(0, 30); c.execute('insert into cnt select g from generate_series(1, %s::int) g', (n,))
		if c.rowcount != n: V('rowcount', 'insert of %d: %d' % (n, c.rowcount), None)
		m = r.randint(0, n); c.execute('update cnt set i = i where i <= %s', (m,))
		if c.rowcount != m: V('rowcount', 'update of %d: %d' % (m, c.rowcount), None)
		c.execute('select * from cnt')
		if c.rowcount not in (-1, n): V('rowcount', 'select of %d: %d' % (n, c.rowcount), None)
		if len(c.fetchall()) != n: V('fetch', 'rows of a select of %d' % n, None)
		rows = [(r.randint(0, 99),) for _ in range(r.randint(0, 20))]; src = r.choice((list, tuple, iter))(rows); named = r.random() < .5
		if named: c.executemany('insert into cnt values (%(v)s)', r.choice((list, iter))([{'v': v} for v, in rows]))
		else: c.executemany('insert into cnt values (%s)', src)
		if c.rowcount not in (-1, len(rows)): V('rowcount', 'executemany of %d: %d' % (len(rows), c.rowcount), None)
		got = sorted(x for x, in obs.prepare('select i from cnt').rows()); want = sorted(list(range(1, n + 1)) + [v for v, in rows])
		if got != want: V('executemany', 'the table has %r, expected %r' % (got[:20], want[:20]), dict(rows=repr(rows), named=named))
		c.execute('delete from cnt')
		if c.rowcount != len(want): V('rowcount', 'delete of %d: %d' % (len(want), c.rowcount), None)
		ctx.case('n%d' % i)
	g = outcome(lambda: c.executemany('insert into cnt values (5)', [(), (), ()]))
	if g[0] == 'e' or obs.prepare('select count(*) from cnt').first() != 3: V('executemany-no-parameters', 'three executions of a statement without parameters: %r, rows %d' % (g[1].__class__, obs.prepare('select count(*) from cnt').first()), None)
	# a failing row
	c.execute('create table fm(i int primary key)'); ca = a.cursor()
	g = outcome(lambda: ca.executemany('insert into fm values (%s)', [(1,), (2,), (1,), (3,)]))
	if g[0] == 'v' or not isinstance(g[1], D.IntegrityError): V('executemany-error', repr(g), None)
	a.rollback()
	if obs.prepare('select count(*) from fm').first(): V('executemany-error', 'rows remain after rollback', None)
	# after executemany there is no result set of an earlier statement
	ca.execute('select 1 union select 2'); ca.executemany('insert into fm values (%s)', [(1,)])
	g = outcome(ca.fetchone)
	if g[0] == 'v' or not isinstance(g[1], D.Error): V('executemany-stale-rows', 'fetchone() after executemany() gave %r' % (g[1],), None)
	if ca.description is not None: V('executemany-stale-rows', 'description %r' % (ca.description,), None)
	a.rollback()

	# --- procedures
	c.execute("create function cp_add(int, int) returns int language sql as 'select $1 + $2'"); c.execute("create function cp_none() returns text language sql as $$select 'none %s'::text$$"); c.execute("create function cp_set(int) returns setof int language sql as 'select generate_series(1, $1)'")
	for name, args, want in (('cp_add', (1, 2), [(3,)]), ('cp_add', [5, -5], [(0,)]), ('cp_none', (), [('none %s',)]), ('cp_set', (4,), [(1,), (2,), (3,), (4,)]), ('cp_set', (0,), []), ('cp_add', (None, 1), [(None,)]), ('pg_catalog.upper', ('é%s',), [('É%S',)])):
		c.execute('create temp table if not exists tt(i int)')
		g = outcome(lambda: (list(c.callproc(name, args)), [tuple(x) for x in c.fetchall()]))
		if g != ('v', (list(args), want)): V('callproc', '%s%r gave %r' % (name, args, g), None)
		elif c.description is None or len(c.description) != 1 or len(c.description[0]) != 7: V('callproc-description', repr(c.description), None)
		ctx.case('c' + name)
	g = outcome(lambda: (c.callproc('cp_none'), c.fetchone()[0])[1])
	if g != ('v', 'none %s'): V('callproc-without-parameters', repr(g), None)

	# --- exceptions
	for sql, cls in (("select 1/0", 'DataError'), ("select 'x'::int", 'DataError'), ('insert into fm values (NULL)', 'IntegrityError'), ('insert into fm select 1 union all select 1', 'IntegrityError'), ('select * from no_such', 'ProgrammingError'), ('selec 1', 'ProgrammingError'), ('select no_such()', 'ProgrammingError'), ('select 99999999999::int', 'DataError'), ("select repeat('x', 2000000000)", 'Error'), ('rollback prepared \'x\'', 'Error'), ("select set_config('work_mem', 'x', false)", 'Error')):
		for x in (a, b):
			g = outcome(lambda: x.cursor().execute(sql).fetchall())
			for ns in (D, x):
				if g[0] == 'v' or not isinstance(g[1], getattr(ns, cls)) or not isinstance(g[1], ns.DatabaseError): V('exception', '%r: %s is not a %s' % (sql, type(g[1]).__name__, cls), dict(sql=sql))
			if x is a:
				g = outcome(lambda: x.cursor().execute('select 1'))
				if g[0] == 'v': V('aborted', 'a transaction goes on after an error', dict(sql=sql))
				x.rollback()
			if outcome(lambda: x.cursor().execute('select 1').fetchone()[0]) != ('v', 1): V('after-error', 'unusable after %r' % sql, None)
			a.rollback(); ctx.case('e' + sql)
	for n in ('DataError', 'InternalError', 'IntegrityError', 'ProgrammingError', 'OperationalError', 'NotSupportedError'):
		if not issubclass(getattr(D, n), D.DatabaseError) or getattr(a, n) is not getattr(D, n): V('exception-tree', n, None)
	if not issubclass(D.DatabaseError, D.Error) or not issubclass(D.InterfaceError, D.Error) or not issubclass(D.Error, Exception): V('exception-tree', '', None)
	if not issubclass(D.Warning, Exception): V('warning-not-exception', repr(D.Warning.__mro__[:3]), None)

	# --- constructors
	for i in range(200):
		t = r.randint(0, 2 ** 31) + r.choice((0, 0.25, .5)); l = time.localtime(t)
		for f, want in ((D.DateFromTicks, datetime.date(*l[:3])), (D.TimeFromTicks, datetime.time(*l[3:6])), (D.TimestampFromTicks, datetime.datetime(*l[:6]))):
			v = f(t)
			if v.replace(microsecond=0) != want if hasattr(want, 'microsecond') else v != want: V('ticks', '%s(%r) is %r' % (f, t, v), None)
			if hasattr(want, 'microsecond') and v.microsecond not in (0, int(t % 1 * 1000000)): V('ticks', 'of %r: %r' % (t, v), dict(t=t))
	if D.Date(2020, 1, 2) != datetime.date(2020, 1, 2) or D.Time(1, 2, 3) != datetime.time(1, 2, 3) or D.Timestamp(2020, 1, 2, 3, 4, 5) != datetime.datetime(2020, 1, 2, 3, 4, 5) or D.Binary(b'%s') != b'%s' or (D.apilevel, D.paramstyle) != ('2.0', 'pyformat') or D.threadsafety not in (0, 1, 2, 3): V('constructors', '', None)

	# --- transactions
	b.cursor().execute('create table h(c int, k int, v int, primary key (c, k) deferrable initially deferred)')
	for hno in range(ctx.scale(300, 6000)):
		if ctx.elapsed() > ctx.scale(34, 550): break
		obs.execute('delete from h')
		xs = [conn(), conn()]; auto = [False, False]; broken = [False, False]; com = [{}, {}]; pend = [{}, {}]; dup = [False, False]; log = []; cs = [x.cursor() for x in xs]
		def look(why):
			got = {}
			for c, k, v in obs.prepare('select c, k, v from h').rows(): got.setdefault((c, k), []).append(v)
			want = {(c, k): [v] for c in (0, 1) for k, v in com[c].items()}
			if got != want: V('visibility', '%s: others see %r, expected %r' % (why, got, want), dict(log=log[-14:])); return False
			return True
		for step in range(r.randint(4, 22)):
			j = r.randrange(2); x = xs[j]; op = r.choice(('put', 'put', 'put', 'del', 'commit', 'commit', 'rollback', 'fail', 'auto', 'read', 'cursor', 'close', 'dup', 'many'))
			log.append('%d %s' % (j, op)); case = dict(log=log[-14:])
			def run(f, must=True):
				"""an operation inside whatever state the connection is in"""
				g = outcome(f)
				if broken[j]:
					if g[0] == 'v': V('aborted', '%s worked in an aborted transaction' % op, case)
					elif not isinstance(g[1], D.Error): V('exception', '%s: %r' % (op, g[1].__class__), case)
					return False
				if g[0] == 'e': V('transaction-error', '%s: %s: %s' % (op, type(g[1]).__name__, str(g[1])[:100]), case); broken[j] = not auto[j]; return False
				return True
			if op == 'put':
				k, v = r.randint(0, 3), r.randint(0, 99)
				if k in pend[j]:
					if run(lambda: cs[j].execute('update h set v = %s where c = %s and k = %s', (v, j, k))): pend[j][k] = v
				elif run(lambda: cs[j].execute('insert into h values (%(c)s, %(k)s, %(v)s)', dict(c=j, k=k, v=v))): pend[j][k] = v
			elif op == 'many':
				ks = [k for k in range(10, 16) if k not in pend[j] and r.random() < .5]
				if ks and run(lambda: cs[j].executemany('insert into h values (%s, %s, %s)', [(j, k, k) for k in ks])): pend[j].update((k, k) for k in ks)
				elif not ks: continue
			elif op == 'del':
				k = r.randint(0, 3)
				if run(lambda: cs[j].execute('delete from h where c = %s and k = %s', (j, k))):
					if cs[j].rowcount != (k in pend[j]) + (dup[j] is not False and dup[j] == k): V('rowcount', 'delete: %d' % cs[j].rowcount, case)
					pend[j].pop(k, None)
					if dup[j] is not False and dup[j] == k: dup[j] = False
			elif op == 'dup':   # refused only when the transaction commits
				if auto[j] or dup[j] is not False or not pend[j] or broken[j]: continue
				k = r.choice(list(pend[j])); 
				if run(lambda: cs[j].execute('insert into h values (%s, %s, %s)', (j, k, pend[j][k]))): dup[j] = k
			elif op == 'read':
				got = []
				if run(lambda: got.extend(cs[j].execute('select k, v from h where c = %s', (j,)).fetchall())):
					want = sorted(list(pend[j].items()) + ([(dup[j], pend[j][dup[j]])] if dup[j] is not False else []))
					if dup[j] is False and sorted(map(tuple, got)) != want: V('own-view', 'sees %r, expected %r' % (got, want), case)
			elif op == 'fail':
				g = outcome(lambda: cs[j].execute('select 1/0').fetchone())
				if g[0] == 'v' or not isinstance(g[1], D.Error): V('exception', repr(g), case)
				if not auto[j]: broken[j] = True
			elif op in ('commit', 'rollback'):
				g = outcome(getattr(x, op))
				if auto[j]:
					if g[0] == 'v' or not isinstance(g[1], x.InterfaceError): V('autocommit-' + op, repr(g), case)
				else:
					if op == 'commit' and dup[j] is not False and not broken[j]:
						if g[0] == 'v' or not isinstance(g[1], D.IntegrityError): V('commit-refused', 'a commit that violates a deferred constraint gave %r' % (g,), case)
						pend[j] = dict(com[j])
						if r.random() < .5:
							log.append('%d rollback after refused commit' % j)
							g = outcome(x.rollback)
							if g[0] == 'e': V('rollback-after-refused-commit', repr(g[1].__class__), case)
					elif g[0] == 'e':
						if not (op == 'commit' and broken[j]): V('transaction-error', '%s: %r' % (op, g[1].__class__), case)
						outcome(x.rollback)
						pend[j] = dict(com[j])
					elif op == 'commit' and not broken[j]: com[j] = dict(pend[j])
					else: pend[j] = dict(com[j])
					broken[j] = False; dup[j] = False
			elif op == 'auto':
				if not auto[j]: # a clean point
					x.rollback(); pend[j] = dict(com[j]); broken[j] = False; dup[j] = False
				auto[j] = not auto[j]; x.autocommit = auto[j]
				if x.autocommit is not auto[j]: V('autocommit', 'reads back %r' % x.autocommit, case)
				x.autocommit = auto[j]
			elif op == 'cursor':
				if r.random() < .5: cs[j].close()
				cs[j] = x.cursor()
			elif op == 'close':
				if r.random() < .6: continue
				x.close()
				for f in (x.close, lambda: cs[j].execute('select 1'), x.commit, x.rollback, lambda: x.cursor().execute('select 1')):
					g = outcome(f)
					if g[0] == 'v' or not isinstance(g[1], D.Error): V('closed', 'on a closed connection: %r' % (g,), case)
				pend[j] = dict(com[j]); broken[j] = auto[j] = dup[j] = False; xs[j] = conn(); cs[j] = xs[j].cursor()
				# the server may still be ending the old session
				for _ in range(400):
					if obs.prepare("select count(*) from pg_locks where relation = 'h'::regclass and pid <> pg_backend_pid() and mode = 'RowExclusiveLock'").first() == (1 if log and not auto[1 - j] and pend[1 - j] != com[1 - j] else 0): break
					time.sleep(.005)
			if auto[j]: com[j] = dict(pend[j])
			ctx.count('steps')
			if not look(op): break
		for c in cs:
			c.close()
			for f in (c.close, c.fetchone, c.fetchall, lambda: c.execute('select 1'), lambda: c.fetchmany(1), lambda: next(c), lambda: c.executemany('x', []), c.nextset, lambda: c.callproc('x', ()), lambda: c.setinputsizes([])):
				g = outcome(f)
				if g[0] == 'v' or not isinstance(g[1], D.Error): V('closed', 'on a closed cursor: %r' % (g,), None)
		for x in xs:
			x.close()
		pend = [dict(x) for x in com]
		for _ in range(400):
			if not obs.prepare("select count(*) from pg_locks where relation = 'h'::regclass and pid <> pg_backend_pid()").first(): break
			time.sleep(.005)
		look('closing'); ctx.case('h%d' % hno); ctx.count('histories')
	obs.execute('drop table h; drop table cnt; drop table fm; drop table wrong; drop function cp_add(int, int); drop function cp_none(); drop function cp_set(int)')
	a.close(); b.close(); obs.close()
	ctx.require('statements', 'fetches', 'steps', 'histories')
