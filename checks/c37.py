"""C37: what statements, cursors and their clones say about themselves is what the server says about them."""
import datetime, decimal, os, random, uuid
from postgresql import types as pg_types
from postgresql.types import geometry, bitwise

SETUP = r'''
CREATE SCHEMA "M d"; CREATE SCHEMA hide;
CREATE TYPE "M d"."En""um" AS ENUM ('a', 'b c', 'é');
CREATE DOMAIN "M d".dom AS int CHECK (value > 0);
CREATE DOMAIN "M d".dom2 AS "M d".dom;
CREATE DOMAIN "M d".domarr AS int[];
CREATE DOMAIN "M d".domtxt AS varchar(10);
CREATE TYPE "M d"."Co mp" AS (a int, "B b" text, c "M d".dom[]);
CREATE DOMAIN "M d".domco AS "M d"."Co mp";
CREATE TABLE "M d"."Täb" (x int, y numeric(5,2), z "M d"."Co mp");
CREATE TYPE "M d".rg AS RANGE (subtype = float8);
CREATE TYPE hide.int4 AS ENUM ('no'); CREATE TYPE hide.text AS (a int); CREATE DOMAIN hide.bool AS text; CREATE TYPE hide."char" AS ENUM ('n');
CREATE TYPE hide."En""um" AS ENUM ('z'); CREATE TYPE hide.varchar AS ENUM ('v'); CREATE TYPE hide.numeric AS ENUM ('v');
CREATE TABLE tab (a int, b text);
'''
str_, int_, arr, tup = str, int, pg_types.Array, tuple
# a value that is not null, and the documented type of what it becomes
VALUES = [
	('1::int2', int), ('-7::int4', int), ('9223372036854775807::int8', int), ('1::oid', int), ("'1'::xid", int), ("'1'::cid", int),
	('true', bool), ('1.5::float4', float), ("'nan'::float8", float), ('1.50::numeric', decimal.Decimal), ("'nan'::numeric", decimal.Decimal),
	("'t'::text", str), ("'v'::varchar", str), ("'b'::bpchar", str), ("'b'::char(4)", str), ("'n'::name", str), ("'x'::bytea", bytes), ("'1'::\"char\"", bytes),
	("current_date", datetime.date), ("now()", datetime.datetime), ("'2001-01-01 01:02'::timestamp", datetime.datetime), ("'12:00'::time", datetime.time), ("'12:00+02'::timetz", datetime.time),
	("'3 days'::interval", datetime.timedelta), ("'00000000-0000-0000-0000-00000000000f'::uuid", uuid.UUID), ("B'1'::bit", bitwise.Bit), ("B'101'::varbit", bitwise.Varbit),
	("'(1,2)'::point", geometry.Point), ("'[(1,2),(3,4)]'::lseg", geometry.Lseg), ("'(1,2),(3,4)'::box", geometry.Box), ("'<(1,2),3>'::circle", geometry.Circle),
	("'((1,2),(3,4))'::path", str), ("'[1,2)'::int4range", str), ("'1'::money", str), ("'a b'::tsvector", str), ("'{\"a\":1}'::json", str), ("'08:00:2b:01:02:03'::macaddr", str), ("'pg_class'::regclass", str),
	("'{[1,2)}'::int4multirange", str), ("'$.a'::jsonpath", str), ("'1/1'::pg_lsn", str), ("'1 2'::int2vector", arr), ("'1 2'::oidvector", arr),
	("'{1,2}'::int[]", arr), ("'{}'::text[]", arr), ("'{{a,b},{c,d}}'::text[]", arr), ("'{1.5}'::numeric[]", arr), ("array[now()]", arr), ("array[row(1,2)]", arr),
	("row(1, 'a'::text)", tup), ("'(0,1)'::tid", tup), ("'b c'::\"M d\".\"En\"\"um\"", str), ("array['a'::\"M d\".\"En\"\"um\"]", arr), ("3::\"M d\".dom2", int), ("'{1}'::\"M d\".domarr", arr),
	("'x'::\"M d\".domtxt", str), ("row(1,'x','{1}')::\"M d\".\"Co mp\"", tup), ("row(1,'x','{1}')::\"M d\".domco", tup), ("row(1,2.5,null)::\"M d\".\"Täb\"", tup), ("array[row(1,'x','{1}')::\"M d\".\"Co mp\"]", arr), ("'[1,2)'::\"M d\".rg", str),
]
NAMES = ['a', 'b', 'A', 'Two Words', 'q"uote', "it's", 'é', 'Ünïcode', '?column?', '$1', '%s', 'select', 'x' * 63, '\t', '\\', ',', 'ñandú', '1', ' ', 'a.b']

def qi(s): return '"' + s.replace('"', '""') + '"'

def main(ctx):
	ctx.rule = 'a described statement or cursor: its columns, parameters, way of creation, client_encoding and search_path'
	rng = ctx.rng('main'); ctx.psql(SETUP)
	for path in ['public', 'hide, public', 'hide, pg_catalog', 'pg_catalog, hide', '"M d", hide', '']: catalog(ctx, rng, path)
	statements(ctx, rng)
	others(ctx, rng)
	states(ctx, rng)
	ctx.require('types', 'type names resolved', 'statements', 'cursors', 'clones', 'from identifiers', 'values of the stated type', 'encoding changes', 'without rows', 'renewed')

# -- every type there is
def catalog(ctx, rng, path):
	rows = [l.split('|') for l in ctx.psql("SELECT t.oid, CASE typtype WHEN 'd' THEN typbasetype ELSE t.oid END, CASE WHEN typcategory = 'A' THEN 1 ELSE 0 END, replace(t.oid::regtype::text, '|', '?')"
		" FROM pg_type t WHERE typtype <> 'p' AND typname NOT LIKE 'pg\\_%' ORDER BY t.oid").splitlines()]
	base = {int(o): int(b) for o, b, a, n in rows}
	def basetype(o):
		while base.get(o, o) != o: o = base[o]
		return o
	if ctx.quick: rows = [x for i, x in enumerate(rows) if 'information_schema' not in x[3] or i % 6 == 0]
	if ctx.quick: rows = [x for x in rows if int(x[0]) >= 16384 or rng.random() < .5]
	db = ctx.connect(settings={'search_path': path})
	resolve = db.prepare('SELECT pg_catalog.to_regtype($1::pg_catalog.text)::pg_catalog.oid')
	names = {int(r[0]): n for r, n in zip(rows, ctx.psql(';'.join("SELECT %s::regtype" % r[0] for r in rows)).splitlines())}
	# with everything but pg_catalog written out
	full = dict((int(l.split('|', 1)[0]), l.split('|', 1)[1]) for l in ctx.psql("SET search_path = ''; SELECT oid, oid::regtype FROM pg_type WHERE typtype <> 'p'").splitlines())
	for oid, b, isarr, n in rows:
		oid = int(oid); n = full[oid]
		if n.split('.')[0] == n and oid < 16384: n = ctx_name(oid, n)
		ps = db.prepare('SELECT $1::%s AS a, NULL::%s[] AS b' % (n, n) if not int(isarr) and not n.endswith('vector') else 'SELECT $1::%s AS a' % n)
		ctx.case(('type', n, path)); ctx.count('types')
		want = basetype(oid)
		ctx.expect(ps.pg_column_types[0] == want, 'column-oid', '%s is %r instead of %r' % (n, ps.pg_column_types, want), n)
		ctx.expect(list(ps.pg_parameter_types) == [oid], 'parameter-oid', '%s is %r instead of %r' % (n, ps.pg_parameter_types, oid), n)
		for what, ss, oo in (('column', ps.sql_column_types, ps.pg_column_types), ('parameter', ps.sql_parameter_types, ps.pg_parameter_types)):
			ctx.expect(len(ss) == len(oo), 'lengths', '%r for %r' % (ss, oo), n)
			for s, o in zip(ss, oo):
				got = resolve.first(s); ctx.count('type names resolved')
				ctx.expect(got == o, 'sql-name:' + what, '%s (%d) is named %r, which is %r' % (n, o, s, got), n)
		ct, pt = ps.column_types, ps.parameter_types
		ctx.expect(len(ct) == len(ps.pg_column_types) and len(pt) == 1 and all(isinstance(x, type) for x in ct + pt), 'python-types', '%r %r' % (ct, pt), n)
		if len(ct) == len(ps.pg_column_types) and len(pt) == 1:
			ctx.expect(pt[0] is ct[0], 'parameter-and-column', 'parameter %r, column %r' % (pt, ct), n)
			if int(isarr): ctx.expect(ct[0] is arr, 'array', '%s is %r' % (n, ct), n)
			if len(ct) > 1: ctx.expect(ct[1] is arr, 'array', '%s[] is %r' % (n, ct[1]), n)
	db.close()

SPELL = {'"char"': 'pg_catalog."char"', 'integer': 'integer', 'date': 'pg_catalog.date', 'text': 'pg_catalog.text', 'boolean': 'boolean', 'name': 'pg_catalog.name'}
def ctx_name(oid, n):
	# names the grammar knows need no schema
	if n.replace('[]', '') in ('integer', 'smallint', 'bigint', 'boolean', 'real', 'double precision', 'numeric', 'character', 'character varying', 'bit', 'bit varying', 'interval',
		'time without time zone', 'time with time zone', 'timestamp without time zone', 'timestamp with time zone'):
		return n.replace('numeric', 'pg_catalog.numeric').replace('bit', 'pg_catalog.varbit' if 'varying' in n else 'pg_catalog.bit').replace('pg_catalog.varbit varying', 'pg_catalog.varbit').replace('character', 'pg_catalog.bpchar') if n.replace('[]', '') in ('numeric', 'bit', 'bit varying', 'character') else n
	return 'pg_catalog.' + n

# -- random statements, known by construction
def describe(ctx, db, o, spec, how, case, params=True):
	"""what o says against spec: (names, column oids, python types, parameter oids)"""
	names, oids, pys, poids = spec
	bad = lambda what, got, want: ctx.violation(what, '%s: %r instead of %r' % (how, got, want), case)
	def same(what, got, want):
		if got != want: bad(what, got, want)
	same('column-names', o.column_names, names)
	same('column-oids', o.pg_column_types, oids)
	ct = o.column_types
	if (ct is None) != (pys is None) or ct is not None and (len(ct) != len(pys) or any(a is not b for a, b in zip(ct, pys))): bad('column-types', ct, pys)
	st = o.sql_column_types
	if (st is None) != (oids is None) or st is not None and len(st) != len(oids): bad('sql-column-types', st, oids)
	if params:
		same('parameter-oids', list(o.pg_parameter_types), poids)
		if len(o.parameter_types) != len(poids) or len(o.sql_parameter_types) != len(poids): bad('parameter-count', (o.parameter_types, o.sql_parameter_types), poids)

def statements(ctx, rng):
	# the types of the expressions, from another client
	out = ctx.psql('\n'.join('SELECT pg_typeof(%s)::oid;' % e for e, t in VALUES)).split()
	known = [(e, t, int(o)) for (e, t), o in zip(VALUES, out)]
	base = {int(l.split('|')[0]): int(l.split('|')[1]) for l in ctx.psql("SELECT oid, typbasetype FROM pg_type WHERE typtype = 'd'").splitlines()}
	def bt(o):
		while o in base: o = base[o]
		return o
	psets = [('int4', 23), ('text', 25), ('numeric', 1700), ('int4[]', 1007), ('timestamptz', 1184), ('bool', 16), ('point', 600), ('"M d"."En""um"', None), ('"M d".dom', None), ('"M d"."Co mp"', None)]
	psets = [(n, o or int(ctx.psql("SELECT '%s'::regtype::oid" % n))) for n, o in psets]
	encs = ['UTF8', 'LATIN1', 'WIN1252']
	for n in range(ctx.scale(160, 3000)):
		r = random.Random(rng.random()); db = ctx.connect(); db.settings['client_encoding'] = enc = r.choice(encs)
		for k in range(4):
			cols = [r.choice(known) for i in range(r.choice([0, 1, 1, 2, 3, 8]))]; names = [r.choice(NAMES) for c in cols]; ps_ = [r.choice(psets) for i in range(r.choice([0, 0, 1, 3]))]
			q = 'SELECT ' + ', '.join('%s AS %s' % (c[0], qi(m)) for c, m in zip(cols, names)) + (' WHERE ' + ' AND '.join('$%d::%s IS NULL' % (i + 1, p[0]) for i, p in enumerate(ps_)) if ps_ else '')
			spec = (names, [bt(c[2]) for c in cols], [c[1] for c in cols], [p[1] for p in ps_])
			case = dict(query=q, encoding=enc); hows = r.choice(['prepare', 'prepare', 'sql', 'named'])
			if hows == 'sql':
				id = 's%d_%d' % (n, k); db.execute('PREPARE %s%s AS %s' % (id, '(%s)' % ', '.join(p[0] for p in ps_) if ps_ else '', q)); o = db.statement_from_id(id); ctx.count('from identifiers')
				ctx.expect(o.string is None, 'string', repr(o.string), case)
			elif hows == 'named': o = db.prepare(q, statement_id='N é%d_%d' % (n, k)); ctx.expect(o.statement_id == 'N é%d_%d' % (n, k), 'statement-id', o.statement_id, case)
			else: o = db.prepare(q)
			ctx.case((tuple(c[0] for c in cols), tuple(names), tuple(p[0] for p in ps_), hows, enc), sample=q); ctx.count('statements')
			if hows != 'sql': ctx.expect(o.string == q, 'string', '%r instead of %r' % (o.string, q), case)
			srv = [l for l in db.query("SELECT statement, parameter_types::oid[], result_types::oid[], from_sql FROM pg_prepared_statements WHERE name = $1", o.statement_id)]
			if len(srv) == 1:
				pt = list(srv[0][1].elements()); ctx.expect(pt == list(o.pg_parameter_types), 'server-parameters', '%r, the server says %r' % (o.pg_parameter_types, pt), case)
			else: ctx.violation('statement-id', '%d statements of that name' % len(srv), case)
			changed = r.random() < .4
			if changed:
				if r.random() < .4: describe(ctx, db, o, spec, hows, case)
				db.settings['client_encoding'] = enc = r.choice(encs); case['then'] = enc; ctx.count('encoding changes')
			describe(ctx, db, o, spec, hows, case)
			objs = [(hows, o)]
			if r.random() < .5: c = o.clone(); describe(ctx, db, c, spec, 'clone of ' + hows, case); objs.append(('clone', c)); ctx.count('clones')
			if hows == 'sql': ctx.expect(objs[-1][1].statement_id == id, 'clone-id', objs[-1][1].statement_id, case)
			nulls = [None] * len(ps_)
			for what, s in objs:
				rows = s(*nulls)
				if len(rows) != 1: ctx.violation('rows', '%r' % (rows,), case); continue
				for v, t, m in zip(rows[0], spec[2], cols):
					ctx.count('values of the stated type')
					if not (isinstance(v, t) and (t is not int or v.__class__ is int) and (t is not datetime.date or v.__class__ is t)): ctx.violation('value-type', '%s is a %r, not a %r' % (m[0], type(v), t), case)
				if tuple(rows[0].column_names) != tuple(names) and len(set(names)) == len(names): ctx.violation('row-names', '%r instead of %r' % (rows[0].column_names, names), case)
			if hows != 'sql' and r.random() < .6:
				c = o.declare(*nulls); ctx.count('cursors')
				if r.random() < .3: db.settings['client_encoding'] = enc = r.choice(encs); case['and'] = enc
				describe(ctx, db, c, spec, 'cursor', case, False)
				ctx.expect(c.statement is o and list(c.parameters) == nulls and c.direction is True, 'cursor-factors', repr((c.statement, c.parameters, c.direction)), case)
				srv = db.query('SELECT statement, is_holdable, is_scrollable FROM pg_cursors WHERE name = $1', c.cursor_id)
				ctx.expect(len(srv) == 1 and srv[0][1] and srv[0][2] and q in srv[0][0], 'cursor-id', '%r for %r' % (srv, c.cursor_id), case)
				x = db.cursor_from_id(c.cursor_id); describe(ctx, db, x, spec, 'cursor_from_id', case, False); ctx.count('from identifiers')
				ctx.expect(x.statement is None and x.cursor_id == c.cursor_id, 'cursor-reference', repr((x.statement, x.cursor_id)), case)
				y = r.choice([c, x]).clone(); describe(ctx, db, y, spec, 'clone of a cursor', case, False); ctx.count('clones')
				if y.statement is not None: ctx.expect(y.cursor_id != c.cursor_id and y.statement is o and list(y.parameters) == nulls, 'cursor-clone', repr((y.cursor_id, y.statement, y.parameters)), case)
				else: ctx.expect(y.cursor_id == c.cursor_id, 'cursor-clone', repr((y.cursor_id, c.cursor_id)), case)
				got = y.read(); ctx.expect(len(got) == 1 and len(got[0]) == len(cols), 'cursor-rows', repr(got), case)
		db.close()

# -- statements that give no rows, and DML that does
def others(ctx, rng):
	db = ctx.connect()
	for n in range(ctx.scale(40, 400)):
		cols = rng.sample([('a', 23, int), ('b', 25, str)], rng.choice([1, 2])); rets = ' RETURNING ' + ', '.join('%s AS %s' % (c[0], qi(m)) for c, m in zip(cols, ('é', 'x y')))
		spec = (['é', 'x y'][:len(cols)], [c[1] for c in cols], [c[2] for c in cols])
		for q, s in [
			("INSERT INTO tab VALUES ($1, $2)", (None, None, None, [23, 25])), ("UPDATE tab SET a = a + $1 WHERE b = $2", (None, None, None, [23, 25])), ('DELETE FROM tab WHERE a = $1', (None, None, None, [23])),
			("INSERT INTO tab VALUES ($1, $2)" + rets, spec + ([23, 25],)), ("UPDATE tab SET b = $1" + rets, spec + ([25],)), ('DELETE FROM tab' + rets, spec + ([],)),
			("WITH w AS (DELETE FROM tab WHERE a = $1 RETURNING a) SELECT sum(a) AS s FROM w", (['s'], [20], [int], [23])),
			('CREATE TABLE IF NOT EXISTS tab (a int)', (None, None, None, [])), ("SET application_name = 'x'", (None, None, None, [])), ('BEGIN', (None, None, None, [])), ('TABLE tab', (['a', 'b'], [23, 25], [int, str], [])),
			('VALUES (1, NULL), (2, now())', (['column1', 'column2'], [23, 1184], [int, datetime.datetime], [])), ('SHOW server_version', (['server_version'], [25], [str], [])),
			('SELECT', ([], [], [], [])), ('', (None, None, None, [])), ('-- nothing', (None, None, None, [])), ('EXPLAIN SELECT 1', (['QUERY PLAN'], [25], [str], [])),
		]:
			ctx.case(('other', q)); ctx.count('without rows' if s[0] is None else 'with rows')
			ps = db.prepare(q); describe(ctx, db, ps, s, 'prepare', q); describe(ctx, db, ps.clone(), s, 'clone', q)
	# each answer may be changed by its owner
	ps = db.prepare('SELECT 1 AS a, 2 AS b'); c = ps.declare()
	for o in (ps, c):
		for at in ('column_names', 'column_types', 'sql_column_types'):
			x = getattr(o, at)
			if isinstance(x, list): x.append('spoiled'); ctx.expect(len(getattr(o, at)) == 2, 'answers-shared', at, at)
	db.close()

# -- states
def states(ctx, rng):
	db = ctx.connect()
	for n in range(ctx.scale(40, 400)):
		q = rng.choice(['SELECT 1 AS a', 'SELECT $1::int AS a', 'INSERT INTO tab DEFAULT VALUES', 'SELECT generate_series(1, 300) AS a'])
		ps = db.prepare(q); args = [1] * q.count('$')
		ctx.expect(ps.closed is False and ps.state == 'prepared', 'open', '%r %r' % (ps.closed, ps.state), q)
		before = (ps.column_names, ps.pg_column_types, ps.pg_parameter_types, ps.column_types)
		fresh = ps.clone(); ctx.expect(fresh.statement_id != ps.statement_id, 'clone-id', fresh.statement_id, q)
		ctx.expect(ps.closed is False, 'clone-closes', q, q)
		if q.startswith('SELECT'):
			c = ps.declare(*args); ctx.expect(c.closed is False and c.state == 'open', 'cursor-open', '%r %r' % (c.closed, c.state), q)
		ps.close()
		ctx.expect(ps.closed is True and ps.state == 'closed', 'closed', '%r %r' % (ps.closed, ps.state), q)
		ctx.expect((ps.column_names, ps.pg_column_types, ps.pg_parameter_types, ps.column_types) == before, 'closed-description', repr(before), q)
		try: ps(*args); ctx.violation('closed-runs', 'a closed statement ran', q)
		except Exception as e: pass
		if q.startswith('SELECT'):
			ctx.expect(c.closed is False and len(c.read()) == (300 if '300' in q else 1), 'cursor-outlives', q, q)
			c.close(); ctx.expect(c.closed is True and c.state == 'closed', 'cursor-closed', '%r %r' % (c.closed, c.state), q)
			ctx.expect(not db.query('SELECT 1 FROM pg_cursors WHERE name = $1', c.cursor_id), 'cursor-left', c.cursor_id, q)
		ctx.expect(fresh.closed is False and len(fresh(*args)) >= 1, 'clone-outlives', q, q)
		again = ps.clone(); ctx.count('renewed'); ctx.case(('state', q, n))
		ctx.expect(again.closed is False and (again.column_names, again.pg_parameter_types) == (before[0], before[2]) and again.string == q, 'renewed', repr(again.string), q)
		again(*args)
	db.close()
