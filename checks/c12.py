"""
C12: scalar values in both directions, against the server's own text; dense at
boundaries, exhaustive where the type is small.
"""
import decimal, itertools, struct, uuid
from vf import values
D = decimal.Decimal
BIG = values.decimal_context

def nt(v): return v.as_tuple()
def same_numeric(text, v):
	"""v (client) denotes text (server), scale included"""
	a = BIG.create_decimal(text)
	if not isinstance(v, D): return False
	if a == 0: return v == 0 and nt(v).exponent == nt(a).exponent
	return nt(a).sign == nt(v).sign and nt(a).exponent == nt(v).exponent and ''.join(map(str, nt(v).digits)).lstrip('0') == ''.join(map(str, nt(a).digits)).lstrip('0')

def deliver(ctx, db, typ, texts, ok, may_fail=False):
	"""texts: server-side literals; the delivered value must satisfy ok(server's text, value)"""
	import postgresql.exceptions as x
	ps = db.prepare('SELECT $1::text::%s, ($1::text::%s)::text' % (typ, typ))
	for t in texts:
		case = dict(type=typ, literal=t[:300])
		try: v, s = ps.first(t)
		except x.Error as e:
			if not may_fail: ctx.violation('delivery-refused:' + typ, '%s: %s' % (t[:200], str(e)[:300]), case)
			ctx.count('refused'); continue
		except Exception as e:
			ctx.violation('raw-error:' + typ, '%s: %r' % (t[:200], e), case); continue
		if not ok(s, v): ctx.violation('delivered:' + typ, '%s was delivered as %r' % (s[:200], repr(v)[:300]), case)
		ctx.case((typ, 'out', t)); ctx.count('out:' + typ)

def store(ctx, db, typ, vals, ok, may_fail=False):
	import postgresql.exceptions as x
	ps = db.prepare('SELECT $1::%s::text' % typ)
	for v in vals:
		case = dict(type=typ, value=repr(v)[:300])
		try: s = ps.first(v)
		except x.Error as e:
			if not may_fail: ctx.violation('store-refused:' + typ, '%r: %s' % (repr(v)[:200], str(e)[:300]), case)
			ctx.count('refused'); continue
		if not ok(v, s): ctx.violation('stored:' + typ, '%s was stored as %s' % (repr(v)[:200], s[:200]), case)
		ctx.case((typ, 'in', repr(v))); ctx.count('in:' + typ)

def ints(ctx, r, db):
	# every int2
	got = [x[0] for x in db.query('SELECT i::int2 FROM generate_series(-32768, 32767) g(i) ORDER BY i')]
	if got != list(range(-32768, 32768)): ctx.violation('delivered:int2', 'a range of int2 differs', None)
	db.execute('CREATE TEMP TABLE vf12 (n int4, i int2)')
	db.prepare('INSERT INTO vf12 VALUES ($1, $2)').load_rows((i, i) for i in range(-32768, 32768))
	if db.query.first('SELECT count(*) FROM vf12 WHERE n = i') != 65536: ctx.violation('stored:int2', 'a range of int2 was stored differently', None)
	db.execute('DROP TABLE vf12'); ctx.count('exhaustive-int2', 65536)
	for typ, bits in (('int4', 32), ('int8', 64)):
		vs = sorted({max(-(1 << bits - 1), min((1 << bits - 1) - 1, s * ((1 << k) + d))) for k in range(bits) for d in (-1, 0, 1) for s in (1, -1)} | {r.randint(-(1 << bits - 1), (1 << bits - 1) - 1) for _ in range(ctx.scale(100, 5000))})
		deliver(ctx, db, typ, map(str, vs), lambda s, v: type(v) is int and v == int(s)); store(ctx, db, typ, vs, lambda v, s: int(s) == v)
	for typ, hi in (('oid', 2**32), ('xid', 2**32), ('cid', 2**32)):
		vs = sorted({max(0, min(hi - 1, (1 << k) + d)) for k in range(33) for d in (-1, 0, 1)})
		deliver(ctx, db, typ, map(str, vs), lambda s, v: type(v) is int and v == int(s)); store(ctx, db, typ, vs, lambda v, s: int(s) == v)
	tids = [(a, b) for a in (0, 1, 255, 65536, 2**32 - 1, 2**31) for b in (0, 1, 255, 256, 65535)]
	deliver(ctx, db, 'tid', ['(%d,%d)' % x for x in tids], lambda s, v: '(%d,%d)' % tuple(v) == s)
	store(ctx, db, 'tid', tids, lambda v, s: '(%d,%d)' % v == s)
	deliver(ctx, db, 'bool', ['t', 'f', 'yes', 'off', '1'], lambda s, v: v is (s == 'true'))
	store(ctx, db, 'bool', [True, False], lambda v, s: s == ('true' if v else 'false'))

def floats(ctx, r, db):
	n = ctx.scale(400, 20000)
	spec = ['0', '-0', 'NaN', 'Infinity', '-Infinity', '5e-324', '-5e-324', '2.2250738585072014e-308', '2.225073858507201e-308', '1.7976931348623157e308', '-1.7976931348623157e308', '0.1', '0.30000000000000004', '1e22', '1e23', '9007199254740993', '123456789012345678']
	b8 = [struct.unpack('!d', struct.pack('!Q', k))[0] for k in [r.getrandbits(64) for _ in range(n)] + [1 << k for k in range(64)] + [(1 << k) - 1 for k in range(64)]]
	deliver(ctx, db, 'float8', spec + [repr(v) for v in b8 if v == v and abs(v) != float('inf')], lambda s, v: type(v) is float and values.fbits(v) == values.fbits(float(s)))
	store(ctx, db, 'float8', [float(s) for s in spec] + b8, lambda v, s: values.fbits(v) == values.fbits(float(s)))
	b4 = [struct.unpack('!f', struct.pack('!I', k))[0] for k in [r.getrandbits(32) for _ in range(n)] + [1 << k for k in range(32)] + [(1 << k) - 1 for k in range(32)]]
	f4 = lambda s: struct.unpack('!f', struct.pack('!f', float(s)))[0]
	deliver(ctx, db, 'float4', ['0', '-0', 'NaN', 'Infinity', '-Infinity', '1e-45', '3.4028235e38', '0.1', '16777217'] + [repr(v) for v in b4 if v == v and abs(v) != float('inf')], lambda s, v: type(v) is float and values.fbits(v) == values.fbits(f4(s)))
	store(ctx, db, 'float4', b4, lambda v, s: values.fbits(v) == values.fbits(f4(s)))

GROUPS = ['0000', '0001', '0010', '1000', '0100', '9999', '5050', '1234', '0900']
def numerics(ctx, r, db):
	# every short combination of digit groups, scales and signs (sampled in the quick tier)
	combos = [(a, b) for la in range(0, 4) for lb in range(0, 4) for a in itertools.product(GROUPS, repeat=la) for b in itertools.product(GROUPS, repeat=lb)] if not ctx.quick else None
	def combo():
		if combos and r.random() < .5: a, b = r.choice(combos)
		else: a, b = [tuple(r.choice(GROUPS) for _ in range(r.randint(0, 5))) for _ in range(2)]
		i = ''.join(a).lstrip('0') or '0'; f = ''.join(b)[:r.randint(0, 24)]
		return r.choice(('', '-')) + i[r.randint(0, min(3, len(i) - 1)):] + ('.' + f if f else '')
	texts = [combo() for _ in range(ctx.scale(1500, 60000))]
	texts += ['0', '0.0', '0.00000000', '-0', '1e10', '1e-10', '1e131071', '1e-16383', '9' * 5000, '0.' + '0' * 5000 + '1', '1' + '0' * 5000, '1.' + '0' * 5000, '0.' + '9' * 16383, '1' * 131072, '-' + '12345' * 999 + '.' + '67890' * 999, '10000', '100000000', '1000000000000', '0.0001', '0.00000001', '10000.0001', '1.0000', '1.00000', '1.000000000']
	deliver(ctx, db, 'numeric', texts, same_numeric)
	# results of the server's own arithmetic
	for q in ['SELECT %s::numeric / %s::numeric', 'SELECT %s::numeric * %s::numeric', 'SELECT round(%s::numeric, 5) + %s::numeric', 'SELECT %s::numeric(30,10) - %s::numeric(20,0)', 'SELECT sum(x) * %s FROM generate_series(1, 100) x WHERE %s <> x']:
		for _ in range(ctx.scale(20, 800)):
			f = q % tuple('%d.%s' % (r.randint(1, 10**r.randint(1, 12)), ''.join(r.choice('0009123') for _ in range(r.randint(1, 9)))) for _ in range(2))
			v, s = db.query.first('SELECT x, x::text FROM (%s) z(x)' % f)
			if not same_numeric(s, v): ctx.violation('delivered:numeric', '%s (%s) was delivered as %r' % (f, s, v), f)
			ctx.case(f); ctx.count('computed')
	for t in ('NaN', 'Infinity', '-Infinity'):
		deliver(ctx, db, 'numeric', [t], lambda s, v: isinstance(v, D) and str(v).lower() == s.lower())
		store(ctx, db, 'numeric', [D(t)], lambda v, s: str(v).lower() == s.lower())
	vals = [D(t) for t in texts if len(t) < 60]
	with decimal.localcontext(BIG):
		vals += [D((r.randrange(2), tuple(int(c) for c in ''.join(r.choice(GROUPS) for _ in range(r.randint(1, 5)))), r.randint(-30, 30))) for _ in range(ctx.scale(1500, 60000))]
		vals += [D((0, (0,) * r.randint(1, 9) + (1,) + (0,) * r.randint(0, 9), e)) for e in range(-30, 31)]
		vals += [D((0, (0,) * k, e)) for e in (-9, -4, -1, 0, 1, 5) for k in (1, 2, 5)]
		vals += [D((0, (1,), e)) for e in (1000, 131071, -1000, -16383)] + [D((1, tuple(r.randrange(10) for _ in range(5000)), e)) for e in (0, -5000, -2500, 100, -9000)]
	store(ctx, db, 'numeric', vals, values.numeric_eq)
	store(ctx, db, 'numeric', [0, 1, -1, 10000, 10**30, -10**30 + 7, 12340000], lambda v, s: D(s) == v)
	store(ctx, db, 'numeric', ['1.50', '-0.001', '1e5'], lambda v, s: D(s) == D(v), may_fail=True)

def texts(ctx, r, db):
	# every code point (blocks of them in the quick tier)
	blocks = list(range(0, 0x110000, 0x1000))
	if ctx.quick: blocks = sorted(set(r.sample(blocks, 20) + [0, 0xd000, 0xf000, 0xe000, 0x10000, 0x10f000]))
	for b in blocks:
		cs = [c for c in range(max(1, b), b + 0x1000) if not 0xd800 <= c < 0xe000]
		if not cs: continue
		got = db.prepare('SELECT chr(i) FROM unnest($1::int4[]) WITH ORDINALITY u(i, o) ORDER BY o')(cs)
		bad = [(c, g[0]) for c, g in zip(cs, got) if g[0] != chr(c)]
		if bad or len(got) != len(cs): ctx.violation('delivered:text', 'characters were delivered as others: %r' % bad[:3], b)
		s = ''.join(map(chr, cs))
		for typ in ('text', 'varchar', 'bpchar', '"unknown"')[:3]:
			back = [x[0] for x in db.prepare("SELECT ascii(c) FROM regexp_split_to_table($1::%s::text, '') WITH ORDINALITY u(c, o) ORDER BY o" % typ)(s)] if r.random() < .2 else None
			if back is not None and back != cs and typ != 'bpchar': ctx.violation('stored:' + typ, 'characters were stored as others', b)
		a = db.prepare('SELECT $1::text')(s)[0][0]
		h = db.prepare("SELECT encode(convert_to($1::text, 'UTF8'), 'hex')").first(s)
		if a != s or bytes.fromhex(h) != s.encode('utf8'): ctx.violation('stored:text', 'a block of characters changed', b)
		ctx.count('code-points', len(cs)); ctx.case(('block', b))
	T = [values.rtext(r) for _ in range(ctx.scale(300, 5000))]
	for typ in ('text', 'varchar', 'varchar(100000)', 'bpchar'):
		store(ctx, db, typ, [t for t in T if typ != 'bpchar' or not t.endswith(' ')], lambda v, s: s == v)
		deliver(ctx, db, typ, [t for t in T if typ != 'bpchar' or not t.endswith(' ')], lambda s, v: s == v)
	v = db.query.first("SELECT 'ab '::char(6)")
	if v != 'ab    ': ctx.violation('delivered:bpchar', 'char(6) was delivered as %r' % v, None)
	ctx.count('in:char'); 
	for n in (1, 62, 63): 
		nm = 'n' * n
		if db.prepare('SELECT $1::name').first(nm) != nm: ctx.violation('stored:name', nm, n)
	# "char"
	got = [x[0] for x in db.query("SELECT set_byte('\\x00'::bytea, 0, i) FROM generate_series(0, 255) g(i)")]
	if got != [bytes([i]) for i in range(256)]: ctx.violation('delivered:bytea', 'single bytes differ', None)
	ps = db.prepare('SELECT $1::"char", $1::"char"::int4')
	for i in range(256):
		v, s = ps.first(bytes([i]))
		if v != bytes([i]) or s % 256 != i: ctx.violation('char', 'the "char" %d came back as %r, %d' % (i, v, s), i)
		ctx.case(('char', i))
	# whole tables of characters of other types
	for q, w in (("SELECT typtype FROM pg_type WHERE typname = 'int4'", b'b'), ("SELECT typname FROM pg_type WHERE oid = 23", 'int4'), ("SELECT 'int4'::regtype", 'integer'), ("SELECT 'pg_class'::regclass", 'pg_class')):
		v = db.query.first(q)
		if v != w: ctx.violation('system', '%s delivered %r' % (q, v), q)

def bytes_(ctx, r, db):
	vs = [bytes([i]) for i in range(256)] + [b'', bytes(range(256)), bytes(range(255, -1, -1)) * 40] + [values.rbytes(r) for _ in range(ctx.scale(300, 10000))]
	store(ctx, db, 'bytea', vs, lambda v, s: s == '\\x' + v.hex())
	deliver(ctx, db, 'bytea', ['\\x' + v.hex() for v in vs], lambda s, v: type(v) is bytes and '\\x' + v.hex() == s)
	db.execute('SET bytea_output TO escape')
	deliver(ctx, db, 'bytea', ['\\x' + v.hex() for v in vs[:50]], lambda s, v: type(v) is bytes)
	v = db.prepare('SELECT $1::bytea, $1::bytea').first(bytes(range(256)))
	if tuple(v) != (bytes(range(256)),) * 2: ctx.violation('delivered:bytea', 'with bytea_output=escape', None)
	db.execute('RESET bytea_output')
	store(ctx, db, 'bytea', [bytearray(b'a\0b'), memoryview(b'xyz')], lambda v, s: s == '\\x' + bytes(v).hex(), may_fail=True)
	us = [uuid.UUID(int=0), uuid.UUID(int=2**128 - 1)] + [uuid.UUID(int=1 << k) for k in range(128)] + [uuid.UUID(int=r.getrandbits(128)) for _ in range(ctx.scale(100, 2000))]
	store(ctx, db, 'uuid', us, lambda v, s: s == str(v)); deliver(ctx, db, 'uuid', map(str, us), lambda s, v: type(v) is uuid.UUID and str(v) == s)
	store(ctx, db, 'uuid', [str(us[5]), '{%s}' % us[6], us[7].hex.upper()], lambda v, s: uuid.UUID(s) == uuid.UUID(v))

def mixed(ctx, r, db):
	"""many rows and columns at once, through a table and every way of reading"""
	T = values.types()
	names = ['int2', 'int4', 'int8', 'oid', 'bool', 'float8', 'float4', 'numeric', 'text', 'varchar', 'bytea', 'uuid', 'name']
	for k in range(ctx.scale(6, 200)):
		ts = [T[r.choice(names)] for _ in range(r.randint(1, 9))]
		db.execute('CREATE TEMP TABLE vf12m (n int4, %s)' % ', '.join('c%d %s' % (i, t.sql) for i, t in enumerate(ts)))
		rows = [(n,) + tuple(None if r.random() < .15 else t.gen(r) for t in ts) for n in range(300)]
		db.prepare('INSERT INTO vf12m VALUES (%s)' % ', '.join('$%d' % (i + 1) for i in range(len(ts) + 1))).load_rows(rows)
		ps = db.prepare('SELECT * FROM vf12m ORDER BY n')
		for how, got in (('call', ps()), ('rows', list(ps.rows())), ('chunks', [x for c in ps.chunks() for x in c]), ('cursor', ps.declare().read())):
			if len(got) != len(rows): ctx.violation('mixed-count', '%d of %d' % (len(got), len(rows)), how); continue
			for a, b in zip(rows, got):
				for i, t in enumerate(ts):
					v, w = a[i + 1], b[i + 1]
					if (v is None) != (w is None) or v is not None and not t.same(v, w): ctx.violation('mixed:' + t.sql, '%r came back as %r through %s' % (v, w, how), t.sql)
		ctx.case(('mixed', k)); ctx.count('mixed')
		db.execute('DROP TABLE vf12m')

def main(ctx):
	ctx.rule = 'one case per value and direction'
	ctx.require('exhaustive-int2', 'code-points', 'computed', 'mixed', *[d + t for d in ('in:', 'out:') for t in ('int4', 'int8', 'oid', 'xid', 'tid', 'bool', 'float8', 'float4', 'numeric', 'text', 'varchar', 'bytea', 'uuid')])
	r = ctx.rng('main')
	db = ctx.connect()
	for f in (ints, floats, numerics, texts, bytes_, mixed):
		with ctx.step(f.__name__, None, 700 if ctx.quick else 3000): f(ctx, r, db)
	# with another float rendering, intervals and encodings nothing changes
	db.execute("SET extra_float_digits TO -15; SET lc_numeric TO 'C'; SET bytea_output TO escape; SET DateStyle TO 'German'; SET standard_conforming_strings TO on")
	mixed(ctx, r, db)
	db.close()
