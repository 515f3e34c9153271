"""
C14: arrays and composites. Random type definitions and values; every leaf, bound and
NULL of what the server received is selected from it by explicit subscripts and
attribute selections, and what comes back is compared with what the server holds.
"""
import itertools, os
from vf import values as V

def qi(s): return '"' + s.replace('"', '""') + '"'
LEAVES = ['int2', 'int4', 'int8', 'oid', 'bool', 'float8', 'float4', 'numeric', 'text', 'varchar', 'name', 'bytea', 'uuid', 'date', 'time', 'timetz', 'timestamp', 'timestamptz', 'interval', 'json', 'jsonb', 'varbit', 'point', 'lseg', 'box', 'circle', 'inet', 'cidr', 'macaddr']

class Leaf:
	def __init__(self, t): self.t, self.sql, self.kind = t, t.sql, t.sql
	def gen(self, r, d=0): return self.t.gen(r)
	def obs(self, e, v): yield self.t.text.replace('{0}', '{}').replace('{}', '(' + e + ')'), lambda got: self.t.eq(v, got), self.kind
	def same(self, v, w): return self.t.same(v, w)
	def depth(self): return 0
class Domain:
	"""same values as its base"""
	def __init__(self, sql, base): self.sql, self.base, self.kind = sql, base, 'domain'
	def gen(self, r, d=0): return self.base.gen(r, d)
	def obs(self, e, v): return self.base.obs('((%s)::%s)' % (e, self.base.sql), v)
	def same(self, v, w): return self.base.same(v, w)
	def depth(self): return self.base.depth()
class Enum:
	def __init__(self, sql, labels): self.sql, self.labels, self.kind = sql, labels, 'enum'
	def gen(self, r, d=0): return r.choice(self.labels)
	def obs(self, e, v): yield '(%s)::text' % e, lambda got: got == v, 'enum'
	def same(self, v, w): return v == w
	def depth(self): return 0
class Arr:
	def __init__(self, el): self.el, self.sql, self.kind = el, el.sql + '[]', 'array'
	def gen(self, r, d=0):
		from postgresql.types import Array
		nd = r.choice((0, 1, 1, 1, 2, 2, 3, 4, 5, 6)) if d == 0 else r.choice((0, 1, 1, 2))
		dims = [r.choice((1, 1, 2, 2, 3, 4) if nd > 2 else (1, 2, 3, 5)) if k < 3 else r.choice((1, 1, 2)) for k in range(nd)]
		if d: dims = [min(x, 2) for x in dims]
		n = 1
		for x in dims: n *= x
		if not nd: return Array([])
		els = [None if r.random() < .2 else self.el.gen(r, d + 1) for _ in range(n)]
		lbs = [1] * nd if r.random() < .6 else [r.choice((-3, 0, 1, 2, 1000, r.randint(-5, 5))) for _ in dims]
		return Array.from_elements(els, lowerbounds=lbs, upperbounds=[l + x - 1 for l, x in zip(lbs, dims)])
	def obs(self, e, v):
		nd = len(v.dimensions)
		yield 'coalesce(array_ndims(%s), 0)::text' % e, lambda got: got == str(nd), 'ndims'
		if nd: yield 'array_dims(%s)' % e, lambda got: got == ''.join('[%d:%d]' % (l, u) for l, u in zip(v.lowerbounds, v.upperbounds)), 'bounds'
		yield "cardinality(%s)::text" % e, lambda got: got == str(len(list(v.elements()))), 'cardinality'
		for x, ix in zip(v.elements(), itertools.product(*[range(l, u + 1) for l, u in zip(v.lowerbounds, v.upperbounds)])):
			s = '(%s)%s' % (e, ''.join('[%d]' % i for i in ix))
			yield '(%s IS DISTINCT FROM NULL)::text' % s, (lambda got, x=x: got == ('false' if x is None else 'true')), 'null'
			if x is not None: yield from self.el.obs(s, x)
	def same(self, v, w):
		from postgresql.types import Array
		if type(w) is not Array or tuple(w.dimensions) != tuple(v.dimensions) or tuple(w.lowerbounds) != tuple(v.lowerbounds) or tuple(w.upperbounds) != tuple(v.upperbounds): return False
		a, b = list(v.elements()), list(w.elements())
		return len(a) == len(b) and all((y is None if x is None else y is not None and self.el.same(x, y)) for x, y in zip(a, b))
	def depth(self): return 1 + self.el.depth()
class Comp:
	def __init__(self, sql, atts): self.sql, self.atts, self.kind = sql, atts, 'composite'
	def gen(self, r, d=0): return tuple(None if r.random() < .2 else t.gen(r, d + 1) for _, t in self.atts)
	def obs(self, e, v):
		for x, (n, t) in zip(v, self.atts):
			s = '((%s).%s)' % (e, qi(n))
			yield '(%s IS DISTINCT FROM NULL)::text' % s, (lambda got, x=x: got == ('false' if x is None else 'true')), 'null'
			if x is not None: yield from t.obs(s, x)
	def same(self, v, w):
		from postgresql.types import Row
		names = tuple(n for n, _ in self.atts)
		if not isinstance(w, Row) or len(w) != len(v) or tuple(w.column_names) != names: return False
		for k, (x, (n, t)) in enumerate(zip(v, self.atts)):
			y = tuple.__getitem__(w, k)
			if w[n] is not y: return False
			if not (y is None if x is None else y is not None and t.same(x, y)): return False
		return True
	def depth(self): return 1 + max(t.depth() for _, t in self.atts)

def present(r, t, v, element=False):
	"""another way of giving the same value"""
	from postgresql.types import Array, Row
	if v is None: return None
	if isinstance(t, Domain): return present(r, t.base, v, element)
	if isinstance(t, Comp):
		vals = [present(r, a, x) for x, (_, a) in zip(v, t.atts)]
		k = r.randrange(4)
		if k == 0: return {n: x for x, (n, _) in zip(vals, t.atts) if x is not None or r.random() < .5}
		if k == 1: return Row.from_sequence({n: i for i, (n, _) in enumerate(t.atts)}, vals)
		return tuple(vals)
	if isinstance(t, Arr):
		els = [present(r, t.el, x, True) for x in v.elements()]
		a = Array.from_elements(els, lowerbounds=v.lowerbounds, upperbounds=v.upperbounds)
		if any(l != 1 for l in v.lowerbounds) or r.random() < .3: return a
		if len(v.dimensions) == 1 and r.random() < .4: return tuple(els)
		return a if element else a.nest()    # lists delimit the axes of the outer array
	return v

class Schema:
	def __init__(self, ctx, r, db, uid):
		self.ctx, self.r, self.db, self.n = ctx, r, db, 0
		self.name = 'vf14_%d_%d' % (os.getpid(), uid)
		db.execute('CREATE SCHEMA ' + self.name)
		self.T = V.types()
		self.made = []
	def drop(self): self.db.execute('SET client_min_messages TO error; DROP SCHEMA %s CASCADE' % self.name)
	def ident(self, p):
		self.n += 1
		return p + r'%d' % self.n + self.r.choice(('', '', '', ' x', '"q"', 'É', '.d', "'"))
	def type(self, d=0):
		r = self.r; k = r.random()
		if self.made and r.random() < .25: return r.choice(self.made)
		if d >= 3 or k < .3: t = Leaf(self.T[r.choice(LEAVES)])
		elif k < .35:
			labels = ['a', 'B c', 'é', "q'q", 'x"']
			t = Enum(self.name + '.' + qi(self.ident('e')), labels)
			self.db.execute('CREATE TYPE %s AS ENUM (%s)' % (t.sql, ', '.join("'" + x.replace("'", "''") + "'" for x in labels))); self.made.append(t)
		elif k < .6:
			el = self.type(d + 1)
			while isinstance(el, Arr): el = el.el
			t = Arr(el)
		elif k < .9:
			n = r.choice((1, 2, 2, 3, 5, 9))
			atts = [(self.ident('a'), self.type(d + 1)) for _ in range(n)]
			t = Comp(self.name + '.' + qi(self.ident('c')), atts)
			decl = [(qi(a), x.sql) for a, x in atts]; dropped = []
			for _ in range(r.choice((0, 0, 1, 2))): decl.insert(r.randint(0, len(decl)), (qi('gone%d' % len(dropped)), r.choice(('int4', 'text')))); dropped.append('gone%d' % len(dropped))
			table = r.random() < .4
			self.db.execute('CREATE %s %s (%s)' % ('TABLE' if table else 'TYPE', t.sql if table else t.sql + ' AS', ', '.join('%s %s' % x for x in decl)))
			for g in dropped: self.db.execute('ALTER %s %s DROP %s %s' % ('TABLE' if table else 'TYPE', t.sql, 'COLUMN' if table else 'ATTRIBUTE', qi(g))); self.ctx.count('dropped-attributes')
			self.made.append(t)
		else:
			base = self.type(d + 1)
			t = Domain(self.name + '.' + qi(self.ident('d')), base)
			self.db.execute('CREATE DOMAIN %s AS %s' % (t.sql, base.sql)); self.made.append(t)
		return t

def values(ctx, r, db, t, n):
	for _ in range(n):
		v = t.gen(r)
		obs = list(t.obs('v', v))[:1500]
		give = present(r, t, v)
		case = dict(type=t.sql, value=repr(v)[:3000], given=repr(give)[:1500])
		q = 'SELECT v, %s FROM (SELECT $1::%s AS v OFFSET 0) s' % (', '.join(e for e, _, _ in obs) or 'NULL', t.sql)
		ps = db.prepare(q)
		how = r.choice(('first', 'call', 'rows', 'cursor', 'column'))
		with ctx.step('structure', case):
			row = ps.first(give)
			if how == 'first': w = row[0]
			elif how == 'call': w = ps(give)[0][0]
			elif how == 'rows': w = list(ps.rows(give))[0][0]
			elif how == 'column': w = list(ps.column(give))[0]
			else:
				with db.xact(): w = ps.declare(give).read()[0][0]
		for (e, ok, kind), got in zip(obs, row[1:]):
			if got is None or not ok(got): ctx.violation('stored:' + kind, '%s of %s is %r' % (e, t.sql, got), case); break
			ctx.count('leaf:' + kind)
		if not t.same(v, w): ctx.violation('delivered:' + t.kind, '%s came back as %r' % (repr(v)[:500], repr(w)[:500]), case)
		ctx.case((t.sql, repr(v))); ctx.count('values'); ctx.count('depth:%d' % min(t.depth(), 4))
		if isinstance(t, Arr): ctx.count('ndims:%d' % len(v.dimensions))

def table(ctx, r, db, sch, ts, uid):
	"""as columns of a table: by loading, and the whole row as a composite"""
	name = sch.name + '.t%d' % uid
	db.execute('CREATE TABLE %s (n int4, %s)' % (name, ', '.join('c%d %s' % (i, t.sql) for i, t in enumerate(ts))))
	rows = [(k,) + tuple(None if r.random() < .15 else t.gen(r) for t in ts) for k in range(r.choice((1, 3, 10)))]
	case = dict(types=[t.sql for t in ts], rows=repr(rows)[:3000])
	ins = db.prepare('INSERT INTO %s VALUES (%s)' % (name, ', '.join('$%d' % (i + 1) for i in range(len(ts) + 1))))
	with ctx.step('load', case): ins.load_rows((x[0],) + tuple(present(r, t, v) for t, v in zip(ts, x[1:])) for x in rows)
	whole = Comp(name, [('n', Leaf(V.types()['int4']))] + [('c%d' % i, t) for i, t in enumerate(ts)])
	got = db.query('SELECT * FROM %s ORDER BY n' % name); comp = db.query('SELECT t FROM %s t ORDER BY n' % name)
	agg = db.query.first('SELECT array_agg(t ORDER BY n) FROM %s t' % name)
	rec = db.query('SELECT ROW(t.*) FROM %s t ORDER BY n' % name)
	for k, x in enumerate(rows):
		for what, w in (('row', got[k]), ('composite', comp[k][0]), ('aggregate', agg[k])):
			if not whole.same(x, w): ctx.violation('table:' + what, '%r came back as %r' % (repr(x)[:500], repr(w)[:500]), case)
		w = rec[k][0]
		if len(w) != len(x) or not all((b is None if a is None else b is not None and t.same(a, b)) for a, b, (_, t) in zip(x, w, whole.atts)): ctx.violation('table:record', '%r came back as %r' % (repr(x)[:500], repr(w)[:500]), case)
	ctx.count('tables'); ctx.case((repr(rows),))

def refused(ctx, r, db, sch, t, n):
	"""corrupted structures; the refusal identifies the parameter, and the attribute"""
	import postgresql.exceptions as x
	while isinstance(t, Domain): t = t.base
	for _ in range(n):
		v = t.gen(r)
		att = None
		if isinstance(t, Arr):
			if len(v.dimensions) < 1: continue
			base = t.el
			while isinstance(base, Domain): base = base.base
			nest = v.nest()
			path = [nest]
			while isinstance(path[-1][0], list) and len(path) < len(v.dimensions): path.append(r.choice(path[-1]))
			# element lists of a composite or bytea may be lists or integers of their own
			loose = isinstance(base, (Comp, Arr)) or base.sql in ('bytea', 'numeric', 'point', 'lseg', 'box', 'circle', 'interval', 'uuid', 'inet', 'cidr', 'varbit')
			ways = []
			if len(v.dimensions) > 1:
				i = r.randrange(len(path) - 1)
				if len(path[i]) > 1: ways += ['short', 'long', 'scalar', 'null', 'string', 'tuple', 'flat']
			elif not loose: ways += ['nested']
			if not ways: continue
			how = r.choice(ways)
			if how == 'nested':
				if len(nest) < 2: continue
				nest[r.randrange(1, len(nest))] = [nest[-1]]
			else:
				j = r.randrange(1, len(path[i])); sub = path[i][j]
				if how == 'short': path[i][j] = sub[:-1]
				elif how == 'long': path[i][j] = sub + [sub[-1]]
				elif how == 'scalar': path[i][j] = 7
				elif how == 'null': path[i][j] = None
				elif how == 'string': path[i][j] = 'z' * len(sub)
				elif how == 'tuple': path[i][j] = tuple(sub)
				elif how == 'flat': path[i][j] = [y for s in sub for y in (s if isinstance(s, list) else [s])] + [sub[0]]
			bad = nest
		elif isinstance(t, Comp):
			how = r.choice(('few', 'many', 'badatt'))
			bad = list(v)
			if how == 'few': bad = bad[:-1]
			elif how == 'many': bad.append(None)
			else:
				ks = [k for k, (_, a) in enumerate(t.atts) if isinstance(a, Leaf) and a.t.bad]
				if not ks: continue
				k = r.choice(ks); att = (k, t.atts[k][0]); bad[k] = r.choice([y for y in t.atts[k][1].t.bad if not isinstance(y, (list, bytes))])
				if t.atts[k][1].sql in ('bytea', 'float8', 'float4', 'numeric', 'interval', 'bool', 'varbit', 'point'): bad[k] = object()
			bad = tuple(bad)
		else: return
		m = r.choice((1, 2, 4)); at = r.randrange(m)
		q = 'SELECT ' + ', '.join('$%d::%s' % (k + 1, t.sql if k == at else 'int4') for k in range(m))
		params = [bad if k == at else k for k in range(m)]
		case = dict(type=t.sql, how=how, bad=repr(bad)[:1500], at=at)
		op = r.choice(('first', 'call', 'rows', 'declare', 'load'))
		try:
			with ctx.step('refuse', case):
				if op == 'first': w = db.prepare(q).first(*params)
				elif op == 'call': w = db.prepare(q)(*params)
				elif op == 'rows': w = list(db.prepare(q).rows(*params))
				elif op == 'declare':
					with db.xact(): w = db.prepare(q).declare(*params).read()
				else: w = db.prepare(q).load_rows([tuple(params)])
		except x.ParameterError as e:
			if '$%d::' % (at + 1) not in str(e) : ctx.violation('refusal-position', 'the refusal does not name the parameter: %s' % str(e)[:300], case)
			if att is not None:
				c, found = e, False
				while c is not None:
					if isinstance(c, x.CompositeError) and str(att[1]) in str(c) and 'attribute %d' % att[0] in str(c): found = True
					c = c.__cause__
				if not found: ctx.violation('refusal-attribute', 'the refusal does not name attribute %r: %s' % (att, str(e)[:300]), case)
		except x.Error as e:
			if e.source == 'SERVER': ctx.count('refused-by-server')
			else: ctx.violation('refusal-class', 'refused with %r' % e, case)
		except Exception as e: ctx.violation('refusal-raw', 'refused with %r' % e, case)
		else: ctx.violation('accepted:' + how, '%s was accepted as %s: %s' % (repr(bad)[:300], t.sql, repr(w)[:300]), case)
		if db.query.first('SELECT 1') != 1: ctx.violation('unusable', 'after a refusal', case)
		ctx.count('refused:' + how); ctx.case(('refused', t.sql, repr(bad)))

def nocodec(ctx, r, db, sch):
	"""elements and attributes without a codec: in textual form, or refused"""
	import postgresql.exceptions as x
	T = V.types()
	for t in [t for t in T.values() if not t.codec]:
		for _ in range(6):
			v = t.gen(r); lit = "'" + v.replace("'", "''") + "'::" + t.sql
			for kind, e in (('array', 'ARRAY[%s]' % lit), ('array2', 'ARRAY[[%s],[NULL::%s]]' % (lit, t.sql)), ('record', 'ROW(1, %s)' % lit), ('top', lit), ('null-array', 'ARRAY[NULL::%s]' % t.sql), ('null-record', 'ROW(1, NULL::%s)' % t.sql)):
				case = dict(type=t.sql, expr=e); txt = db.query.first('SELECT (%s)::text' % e)
				for how in ('first', 'call', 'rows'):
					try:
						w = db.query.first('SELECT ' + e) if how == 'first' else db.query('SELECT 1, ' + e)[0][1] if how == 'call' else list(db.query.rows('SELECT %s, 1' % e))[0][0]
					except x.Error as err:
						ctx.count('nocodec-refused')
						if kind in ('top', 'null-array', 'null-record'): ctx.violation('nocodec:' + kind, '%s was refused: %s' % (e, str(err)[:200]), case)
						continue
					ok = w == txt or {'array': lambda: list(w) == [v], 'array2': lambda: w.nest() == [[v], [None]], 'record': lambda: tuple(w) == (1, v), 'top': lambda: w == v, 'null-array': lambda: list(w) == [None], 'null-record': lambda: tuple(w) == (1, None)}[kind]()
					if not ok: ctx.violation('nocodec:' + kind, '%s was delivered as %r' % (e, w), case)
					ctx.count('nocodec-textual')
			# stored
			for give in ([v], [v, None]):
				try: s = db.prepare('SELECT ($1::%s[])[1]::text' % t.sql).first(give)
				except x.Error: ctx.count('nocodec-refused'); continue
				if s != db.query.first('SELECT (%s)::text' % lit): ctx.violation('nocodec:stored', '%r was stored as %r' % (v, s), t.sql)
			ctx.case(('nocodec', t.sql, v))
		name = sch.name + '.nc_' + t.sql
		db.execute('CREATE TYPE %s AS (i int4, v %s, t text)' % (name, t.sql))
		for _ in range(4):
			v = t.gen(r); lit = "'" + v.replace("'", "''") + "'::" + t.sql
			try: w = db.query.first("SELECT ROW(5, %s, 'z')::%s" % (lit, name))
			except x.Error: ctx.count('nocodec-refused')
			else:
				if w != db.query.first("SELECT (ROW(5, %s, 'z')::%s)::text" % (lit, name)) and tuple(w) != (5, v, 'z'): ctx.violation('nocodec:composite', '%s was delivered as %r' % (lit, w), name)
			try: s = db.prepare('SELECT ($1::%s).v::text' % name).first((5, v, 'z'))
			except x.Error: ctx.count('nocodec-refused')
			else:
				if s != db.query.first('SELECT (%s)::text' % lit): ctx.violation('nocodec:stored', '%r was stored as %r' % (v, s), name)
			# NULLs need no codec
			if tuple(db.prepare('SELECT $1::%s' % name).first((5, None, 'z'))) != (5, None, 'z'): ctx.violation('nocodec:null', name, name)

def shapes(ctx, r, db):
	"""made by the server"""
	from postgresql.types import Array
	A = Array.from_elements
	cases = [
		("'{}'::int4[]", A([])), ("ARRAY[]::text[]", A([])), ("array_remove(ARRAY[1], 1)", A([])), ("ARRAY(SELECT 1 WHERE false)", A([])), ("ARRAY[[]]::int4[]", A([])), ("(ARRAY[1,2,3])[3:2]", A([])), ("'{{},{}}'::int4[]" if False else "'{}'::numeric[]", A([])),
		("array_fill(7, ARRAY[2,3])", A([7] * 6, (1, 1), (2, 3))), ("array_fill(NULL::int4, ARRAY[2,2], ARRAY[-1,5])", A([None] * 4, (-1, 5), (0, 6))), ("array_fill('x'::text, ARRAY[1,1,1,1,1,2])", A(['x'] * 2, (1,) * 6, (1, 1, 1, 1, 1, 2))),
		("'[0:2]={1,2,3}'::int2[]", A([1, 2, 3], (0,), (2,))), ("'[-2147483647:-2147483646]={a,NULL}'::text[]", A(['a', None], (-2147483647,), (-2147483646,))), ("'[2147483645:2147483646]={1,2}'::int8[]", A([1, 2], (2147483645,), (2147483646,))),
		("ARRAY[1,2] || ARRAY[3]", A([1, 2, 3])), ("ARRAY[[1,2]] || ARRAY[3,4]", A([1, 2, 3, 4], (1, 1), (2, 2))), ("array_prepend(0, ARRAY[1,2])", A([0, 1, 2], (1,), (3,))), ("(ARRAY[[1,2],[3,4]])[2:2]", A([3, 4], (1, 1), (1, 2))),
		("string_to_array('a,,NULL', ',', '')", A(['a', None, 'NULL'])), ("'{NULL,\"NULL\",\"\"}'::text[]", A([None, 'NULL', ''])), ("ARRAY(SELECT generate_series(1, 10000))", A(range(1, 10001))), ("ARRAY[ARRAY[true,NULL],ARRAY[false,true]]", A([True, None, False, True], (1, 1), (2, 2))),
		("ARRAY(SELECT NULL::bytea FROM generate_series(1,300))", A([None] * 300)), ("ARRAY[ROW(1,'a'::text),ROW(NULL,NULL)]", A([(1, 'a'), (None, None)])),
		("ROW()", ()), ("ROW(NULL)", (None,)), ("ROW(1, ROW(2.50, ROW('x'::text, NULL)))", (1, (__import__('decimal').Decimal('2.50'), ('x', None)))), ("ROW(ARRAY[1,NULL], ROW(ARRAY['a'::text]))", (A([1, None]), (A(['a']),))),
		("'{1,2,3}'::int2vector::int2[]" if False else "'{1}'::int2[]", A([1])), ("ARRAY['pg_catalog'::name]", A(['pg_catalog'])), ("ROW('a'::\"char\", 5::oid, '(1,2)'::tid)", (b'a', 5, (1, 2))),
	]
	def same(a, b):
		if isinstance(a, Array): return type(b) is Array and (a.dimensions, a.lowerbounds, a.upperbounds) == (tuple(b.dimensions), tuple(b.lowerbounds), tuple(b.upperbounds)) and all(same(x, y) for x, y in zip(a.elements(), b.elements()))
		if isinstance(a, tuple): return isinstance(b, tuple) and len(a) == len(b) and all(map(same, a, b))
		return a == b and (a is None) == (b is None) and type(a) is type(b)
	for e, want in cases:
		for how in ('first', 'rows', 'chunks', 'cursor', 'function'):
			case = dict(expr=e, how=how)
			with ctx.step('shape', case):
				ps = db.prepare('SELECT ' + e)
				if how == 'first': w = ps.first()
				elif how == 'rows': w = list(ps.rows())[0][0]
				elif how == 'chunks': w = list(ps.chunks())[0][0][0]
				elif how == 'cursor':
					with db.xact(): w = ps.declare().read()[0][0]
				else: w = db.query('SELECT x, 1 FROM (SELECT %s) s(x)' % e)[0][0]
			if not same(want, w): ctx.violation('shape', '%s was delivered as %r' % (e, w), case)
			ctx.case(('shape', e, how)); ctx.count('shapes')

def streaming(ctx, r, db, sch):
	"""item types first met in the middle of a stream"""
	n = 0
	for how in ('cursor', 'rows', 'chunks', 'column', 'call'):
		n += 1
		names = [sch.name + '.st%d_%d' % (n, i) for i in range(4)]
		for i, x in enumerate(names): db.execute("CREATE TYPE %s AS (k int4, v text, a %s[])" % (x, names[i - 1] if i else 'int4'))
		q = ' UNION ALL '.join("SELECT %d, ROW(i, ARRAY[ROW(i, 'v' || i, NULL)::%s]) FROM generate_series(1, 150) g(i)" % (k, x) for k, x in enumerate(names))
		q = 'SELECT * FROM (%s) s(k, v)' % q
		case = dict(how=how)
		with ctx.step('stream', case):
			if how == 'cursor':
				with db.xact():
					c = db.prepare(q).declare(); got = []
					while True:
						part = c.read(37)
						if not part: break
						got += part
			elif how == 'rows': got = list(db.prepare(q).rows())
			elif how == 'chunks': got = [x for c in db.prepare(q).chunks() for x in c]
			elif how == 'column': got = [(None, v) for v in db.prepare('SELECT v FROM (%s) s' % q).column()]
			else: got = db.prepare(q)()
		want = [(k, i) for k in range(4) for i in range(1, 151)]
		if len(got) != 600: ctx.violation('stream', '%d rows of 600' % len(got), case)
		for (k, i), row in zip(want, got):
			v = row[1]
			if how != 'column' and row[0] != k or v[0] != i or len(v[1]) != 1 or tuple(v[1][0]) != (i, 'v%d' % i, None) or v[1][0]['v'] != 'v%d' % i: ctx.violation('stream', 'row %d of type %d is %r' % (i, k, row), case); break
		ctx.count('streams'); ctx.case(('stream', how))

def altered(ctx, r, uid):
	"""composites altered in mid-session, by this or another session: the new shape or an error, never the old one"""
	import postgresql.exceptions as x
	T = V.types(); names = [n for n in LEAVES if n in T]
	db = ctx.connect(); obs = ctx.connect(); s = 'vf14alt%d' % uid
	obs.execute('CREATE SCHEMA ' + s)
	kind = r.choice(('TYPE', 'TABLE')); word = 'ATTRIBUTE' if kind == 'TYPE' else 'COLUMN'
	seq = 0
	def new():
		nonlocal seq; seq += 1
		return ['a%d' % seq, T[r.choice(names)]]
	atts = [new() for _ in range(r.randint(1, 4))]
	obs.execute('CREATE %s %s.ct %s (%s)' % (kind, s, 'AS' if kind == 'TYPE' else '', ', '.join('%s %s' % (n, t.sql) for n, t in atts)))
	obs.execute('CREATE TYPE %s.outside AS (o1 int4, o2 %s.ct, o3 text)' % (s, s))
	if kind == 'TYPE': obs.execute('CREATE DOMAIN %s.dct AS %s.ct' % (s, s))
	forms = [('plain', '%s', lambda g: g), ('array', 'ARRAY[%s]', lambda g: g[0]), ('nested', "ROW(7, %%s, 'z')::%s.outside" % s, lambda g: g['o2']), ('array-nested', "ARRAY[ROW(7, %%s, 'z')::%s.outside]" % s, lambda g: g[0][1])]
	if kind == 'TYPE': forms.append(('domain', '%%s::%s.dct' % s, lambda g: g)); forms.append(('domain-array', 'ARRAY[%%s::%s.dct]' % s, lambda g: g[0]))
	known = {}
	def check(form, vs, row, want, case):
		try: g = form[2](row[0]); got = list(g); nm = list(g.column_names)
		except Exception as e: ctx.violation('altered-shape', '%s: %r is %r' % (form[0], row, e), case); return
		# (other names for attributes of the same types cannot be noticed)
		sig = [t.sql for n, t in want]; blind = known.get('sig') == sig; known.setdefault('names', nm)
		if len(got) != len(want) or nm != [n for n, t in want] and not (blind and nm == known['names']): ctx.violation('altered-shape', '%s: %r with the attributes %r' % (form[0], got, nm), case); return
		known.update(sig=sig, names=nm)
		for (n, t), v, g in zip(want, vs, got):
			if not (g is None if v is None else g is not None and t.same(v, g)): ctx.violation('altered', '%s: the %s %s, %r, was delivered as %r' % (form[0], t.sql, n, v, g), case); return
		ctx.count('altered-delivered')
	def expr(): return 'ROW(%s)::%s.ct' % (', '.join('$%d::%s' % (i + 1, t.sql) for i, (n, t) in enumerate(atts)), s)
	held = []; hist = []; era = 0
	for _ in range(ctx.scale(10, 25)):
		op = 'none'
		if _:
			op = r.choice(('none', 'add', 'drop', 'retype', 'retype', 'replace', 'swap'))
			who = r.choice((db, obs)); al = 'ALTER %s %s.ct ' % (kind, s)
			if op == 'add': a = new(); atts.append(a); who.execute('%sADD %s %s %s' % (al, word, a[0], a[1].sql))
			elif op == 'drop' and len(atts) > 1: a = atts.pop(r.randrange(len(atts))); who.execute('%sDROP %s %s' % (al, word, a[0]))
			elif op == 'retype':
				a = r.choice(atts); b = T[r.choice(names)]
				try: who.execute('%sALTER %s %s TYPE %s%s' % (al, word, a[0], b.sql, '' if kind == 'TYPE' else ' USING NULL')); a[1] = b
				except x.Error: op = 'none'
			elif op == 'replace':
				a = atts.pop(r.randrange(len(atts))); b = [a[0], T[r.choice(names)]]; atts.append(b)
				who.execute('%sDROP %s %s, ADD %s %s %s' % (al, word, a[0], word, b[0], b[1].sql))
			elif op == 'swap': # as many attributes as before, of other types
				old = atts[:]; atts[:] = [new() for a in old]
				who.execute(al + ', '.join(['ADD %s %s %s' % (word, n, t.sql) for n, t in atts] + ['DROP %s %s' % (word, n) for n, t in old]))
		era += op != 'none'
		hist.append((op, kind, [(n, t.sql) for n, t in atts]))
		form = r.choice(forms); vs = [None if r.random() < .15 else t.gen(r) for n, t in atts]
		case = dict(history=hist[-4:], form=form[0], values=repr(vs)[:1500]); ctx.count('altered:' + op); ctx.case(('altered', uid, _))
		with ctx.step('altered', case):
			# those prepared before
			if held:
				ps, f, want, vs0, since = r.choice(held)
				try: row = ps(*vs0)[0]
				except x.Error: ctx.count('altered-refused')
				else:
					if since == era: check(f, vs0, row, want, dict(case, held=f[0]))
					elif len(f[2](row[0])) != len(atts): ctx.violation('altered-shape', 'a statement of before the alteration gave %r' % (row,), case)
			# A failure tells of the alteration; the next attempt is to know.
			for attempt in range(3):
				ps = db.prepare('SELECT ' + form[1] % expr())
				try: row = ps(*vs)[0]
				except x.Error as e:
					ctx.count('altered-refused')
					if attempt == 2: ctx.violation('altered-unusable', '%s: %s' % (form[0], str(e)[:400]), case)
					continue
				check(form, vs, row, atts, case); held.append((ps, form, [tuple(a) for a in atts], vs, era)); del held[:-4]
				back = db.prepare("SELECT '|', " + ', '.join(t.text.replace('{0}', '{}').replace('{}', '(($1::%s.ct).%s)' % (s, n)) for n, t in atts))
				try: got = list(back.first(tuple(vs)))[1:]
				except x.Error as e: ctx.violation('altered-send', '%r was refused: %s' % (vs, str(e)[:400]), case); break
				for (n, t), v, g in zip(atts, vs, got):
					if not (g is None if v is None else g is not None and t.eq(v, g)): ctx.violation('altered-sent', 'the %s %s, %r, was received as %r' % (t.sql, n, v, g), case)
				ctx.count('altered-sent'); break
	db.close(); obs.execute('SET client_min_messages TO error; DROP SCHEMA %s CASCADE' % s); obs.close()

def main(ctx):
	ctx.rule = 'one case per (type definition, value); values with every leaf, bound and NULL inspected'
	ctx.require('values', 'tables', 'shapes', 'streams', 'dropped-attributes', 'nocodec-refused', 'refused:short', 'refused:string', 'refused:tuple', 'refused:nested', 'refused:few', 'refused:many', 'refused:badatt', 'altered-delivered', 'altered-refused', 'altered-sent', 'altered:swap', 'altered:retype', 'ndims:0', 'ndims:1', 'ndims:2', 'ndims:6', 'depth:0', 'depth:1', 'depth:2', 'depth:3', 'leaf:enum', 'leaf:null', 'leaf:bounds')
	for k in range(ctx.scale(14, 300)): altered(ctx, ctx.rng('altered%d' % k), k)
	for k in range(ctx.scale(12, 150)):
		if k and ctx.elapsed() > ctx.scale(60, 1500): break
		r = ctx.rng('schema%d' % k)
		db = ctx.connect()
		sch = Schema(ctx, r, db, k)
		try:
			if k == 0: shapes(ctx, r, db); nocodec(ctx, r, db, sch); streaming(ctx, r, db, sch)
			if k == 0:
				for n in LEAVES: values(ctx, r, db, Arr(Leaf(sch.T[n])), ctx.scale(5, 40))
			for j in range(ctx.scale(25, 60)):
				t = sch.type()
				values(ctx, r, db, t, 3)
				if r.random() < .5: values(ctx, r, db, Arr(t) if not isinstance(t, Arr) else t, 2)
				refused(ctx, r, db, sch, t, 4)
				if isinstance(t, (Leaf, Enum)): refused(ctx, r, db, sch, Arr(t), 4)
			for j in range(ctx.scale(6, 15)): table(ctx, r, db, sch, [sch.type(1) for _ in range(r.randint(1, 5))], j)
		finally:
			sch.drop(); db.close()
