"""
Runs a deterministic database session and prints one JSON line per step.  C03 runs
it with and without the C extension and compares the outputs.
"""
import json, os, re, sys, random, datetime, decimal, uuid

def norm(s):
	s = re.sub(r'0x[0-9a-fA-F]+', '0x', s)
	s = re.sub(r'py:[0-9a-zA-Z_:.]+', 'py:', s)
	s = re.sub(r'client_port: \d+', 'client_port', s)
	s = re.sub(r'backend_id: \d+|backend_start: [^\n]*|client_address: [^\n]*|query_start: [^\n]*', '', s)
	s = re.sub(r'\b(pid|backend_start|seconds?)\D{0,3}\d+', r'\1', s)
	return s

def show(v):
	import postgresql.types as t
	if isinstance(v, t.Array): return 'Array(%s,%r)' % (show(list(v.elements())), v.dimensions)
	if isinstance(v, t.Row): return 'Row(%s)' % ','.join('%s=%s' % (k, show(x)) for k, x in zip(v.column_names, v))
	if isinstance(v, (list, tuple)): return type(v).__name__[0] + '(' + ','.join(show(x) for x in v) + ')'
	if isinstance(v, float): return v.hex()
	if isinstance(v, dict): return 'd(' + ','.join(sorted(show(k) + ':' + show(x) for k, x in v.items())) + ')'
	return type(v).__name__ + ':' + norm(repr(v))

def showexc(e, depth=0):
	import postgresql.exceptions as x
	out = [type(e).__name__, norm(str(e))[:3000]]
	if isinstance(e, x.Exception) or hasattr(e, 'details'):
		out.append(norm(repr(sorted((k, str(v)) for k, v in getattr(e, 'details', {}).items() if k not in ('line', 'function', 'file')))))
		out.append(getattr(e, 'code', ''))
		out.append(str(getattr(e, 'source', '')))
	if e.__cause__ is not None and depth < 4: out.append(['cause'])
	return out

EXPRS = [
 "1::int2", "(-32768)::int2", "2147483647::int4", "(-9223372036854775808)::int8", "4294967295::oid", "1.5::float4", "'NaN'::float8", "'-0'::float8", "12345.678900::numeric", "(-0.000001)::numeric", "'1e100'::numeric",
 "''::text", "repeat('x',70000)", "'h\u00e9\u4e2d'::varchar", "'\\x00ff'::bytea", "true", "NULL::int4", "NULL::text", "'a'::\"char\"",
 "'2000-01-01'::date", "'0001-01-01'::date", "'9999-12-30'::date", "'4000-01-01 BC'::date", "'infinity'::date", "'12:34:56.789012'::time", "'24:00:00'::time", "'12:00+05:30'::timetz", "'1999-12-31 23:59:59.999999'::timestamp", "'1999-12-31 23:59:59.999999+02'::timestamptz", "'-infinity'::timestamp", "'20000-01-01'::timestamp", "'1 day 2 hours 3.5 s'::interval", "'-3 days 00:00:00.000001'::interval",
 "B'1011'::varbit", "'{1,2,NULL}'::int4[]", "'{{1,2},{3,4}}'::int8[]", "'{}'::text[]", "'{a,NULL,\"b c\"}'::text[]", "'{2000-01-01,4000-01-01 BC}'::date[]", "ROW(1,'a'::text,NULL::int4)", "ROW('4000-01-01 BC'::date)", "'(1,2)'::point", "'((1,2),(3,4))'::box", "'<(1,2),3>'::circle", "'10.1.2.3/24'::inet", "'::1/64'::cidr", "'08:00:2b:01:02:03'::macaddr", "'{\"a\":[1]}'::json", "'[1,null]'::jsonb", "'<a>b</a>'::xml", "'12345678-1234-5678-1234-567812345678'::uuid", "'$12.34'::money", "int4range(1,5)", "'a b'::tsvector", "1::xid", "'(1,2)'::tid", "'NaN'::numeric", "current_setting('server_version_num')",
]
PARAMS = [('int2', [0, 1, -1, 32767, -32768, 32768, -32769, 'x', 1.5, None, True, 10**30]), ('int4', [2**31 - 1, -2**31, 2**31, None, 'q', b'1']), ('int8', [2**63 - 1, -2**63, 2**63, None]), ('oid', [0, 2**32 - 1, 2**32, -1]),
 ('float8', [0.0, -0.0, float('inf'), 1e308, 'abc']), ('float4', [1.5, 1e39, float('-inf')]), ('text', ['', 'a', '\u4e2d' * 1000, 'nul\0', 5]), ('bytea', [b'', bytes(range(256)), 'str']), ('bool', [True, False, None, 'yes']),
 ('numeric', [decimal.Decimal('1.50'), decimal.Decimal('-1e-20'), 7, 'zz']), ('date', [datetime.date(2001, 2, 3), 'bad']), ('timestamp', [datetime.datetime(2001, 2, 3, 4, 5, 6, 7), 4]), ('uuid', [uuid.UUID(int=5), 'bad']),
 ('int4[]', [[1, 2, 3], [[1], [2]], [None], [], ['x'], 5]), ('text[]', [['a', None], [['b']]]), ('point', [(1.0, 2.0), 'bad'])]

def session(db, seed, out):
	"""runs the session on `db`, gives one line per step to out()"""
	r = random.Random(seed)
	n = 0
	def emit(label, f):
		nonlocal n
		n += 1
		try: v = ['ok', show(f())]
		except Exception as e: v = ['exc'] + showexc(e)
		out(json.dumps([label, v]))
	for e in EXPRS:
		emit(e, lambda: db.prepare('SELECT ' + e)())
		emit('rows ' + e, lambda: list(db.prepare('SELECT %s AS "a b" FROM generate_series(1,3)' % e).rows()))
		emit('chunks ' + e, lambda: list(db.prepare('SELECT %s, i FROM generate_series(1,5) g(i)' % e).chunks()))
	for t, vs in PARAMS:
		for v in vs:
			emit('param %s %r' % (t, v), lambda: db.prepare('SELECT $1::%s::text, $1::%s' % (t, t))(v))
			emit('pair %s %r' % (t, v), lambda: db.prepare('SELECT $1::text, $2::%s' % t).first('k', v))
	emit('arity', lambda: db.prepare('SELECT $1::int4')())
	emit('arity', lambda: db.prepare('SELECT $1::int4')(1, 2))
	db.execute('CREATE TEMP TABLE t (i int4, s text, d numeric, b bytea)')
	rows = [(i, r.choice((None, 'x' * r.randrange(400), '\u00e9')), decimal.Decimal(r.randrange(10**9)) / 1000, r.randbytes(r.randrange(40))) for i in range(400)]
	ins = db.prepare('INSERT INTO t VALUES ($1,$2,$3,$4)')
	emit('load_rows', lambda: ins.load_rows(rows))
	emit('load_chunks', lambda: ins.load_chunks([rows[:7], rows[7:]]))
	emit('load bad', lambda: ins.load_rows(rows[:5] + [(1, 2, 3, 4)]))
	emit('load bad2', lambda: ins.load_rows(rows[:5] + [('z', 'a', 3, b'')]))
	for q in ('SELECT * FROM t ORDER BY i', 'SELECT count(*), sum(i), sum(d) FROM t', 'SELECT i/(i-50) FROM t ORDER BY i', 'DELETE FROM t WHERE i < 100', 'UPDATE t SET i=i+1', 'SELECT', 'SELECT FROM t LIMIT 3', 'BAD SQL'):
		emit('q ' + q, lambda: db.prepare(q)())
		emit('f ' + q, lambda: db.prepare(q).first())
		emit('r ' + q, lambda: list(db.prepare(q).rows()))
	cp = db.prepare('COPY t TO STDOUT')
	emit('copy', lambda: list(cp.rows()))
	emit('copy', lambda: [x for c in cp.chunks() for x in c])
	lines = list(cp.rows())
	cf = db.prepare('COPY t FROM STDIN')
	emit('copyin', lambda: cf.load_rows(lines))
	emit('copyin bad', lambda: cf.load_rows(lines[:3] + [b'garbage\n']))
	emit('count', lambda: db.query('SELECT count(*), count(s), sum(d) FROM t'))
	with db.xact():
		c = db.prepare('SELECT i, s FROM t ORDER BY i, s, d').declare()
		for k in range(12):
			q = r.choice((1, 3, 10, 100)); d = r.choice(('FORWARD', 'BACKWARD'))
			emit('cur', lambda: c.read(q, d))
		for k in range(6):
			o = r.randrange(200)
			emit('seek', lambda: (c.seek(o), c.read(2)))
	emit('proc', lambda: db.proc('pg_catalog.lower(text)')('ABC'))
	emit('proc', lambda: db.proc('generate_series(int,int)')(1, 3))
	db.execute('CREATE TYPE pair AS (a int4, b text, c date)')
	emit('composite', lambda: db.prepare("SELECT ROW(1,'x',NULL)::pair, ARRAY[ROW(2,'y','2000-01-01')::pair]")())
	emit('composite in', lambda: db.prepare("SELECT ($1::pair).b, $1::pair")((1, 'zz', datetime.date(2002, 2, 2))))
	emit('composite bad', lambda: db.prepare("SELECT $1::pair")((1, 'zz', 'baddate')))
	emit('composite bad2', lambda: db.prepare("SELECT ROW(1,'x','4000-01-01 BC')::pair")())
	db.execute('DROP TYPE pair')
	return n

def main():
	from . import boot
	boot.install(os.environ.get('VF_EXT'))
	import postgresql.driver as pg_driver
	db = pg_driver.default.fit(host='127.0.0.1', port=int(os.environ['VF_PGPORT']), user='postgres', database='postgres', sslmode='disable')()
	db.connect()
	n = session(db, sys.argv[1], print)
	db.close()
	print(json.dumps(['end', ['ok', n]]), flush=True)

if __name__ == '__main__':
	main()
