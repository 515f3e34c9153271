"""
C13: dates and times in both directions under many session time zones and date styles;
points that the client type cannot hold must be refused, not replaced.
"""
import datetime, os, struct, time, warnings, zoneinfo
from vf import values as V, pq, sock
dt = datetime
DTYPES = ['date', 'time', 'timetz', 'timestamp', 'timestamptz', 'interval']
ZONES = ['UTC', 'America/New_York', 'Asia/Kathmandu', 'Australia/Lord_Howe', 'Pacific/Apia', 'Europe/Amsterdam', 'Africa/Monrovia', 'Asia/Kolkata', 'America/St_Johns', 'Etc/GMT+12', 'Etc/GMT-14', 'Antarctica/Troll', 'Europe/Dublin', 'BAR+05:45', 'FOO-3:17']
STYLES = ['ISO, MDY', 'ISO, DMY', 'SQL, MDY', 'SQL, DMY', 'German', 'Postgres, MDY', 'Postgres, DMY', 'ISO, YMD']
ISTYLES = ['postgres', 'postgres_verbose', 'sql_standard', 'iso_8601']

def off(o): s = '-' if o < 0 else '+'; o = abs(o); return '%s%02d:%02d:%02d' % (s, o // 3600, o // 60 % 60, o % 60)
def literal(typ, v):
	if typ == 'date': return v.isoformat()
	if typ == 'time': return V.fmt_time(v)
	if typ == 'timetz': return V.fmt_time(v) + off(V.offsec(v))
	if typ == 'timestamp': return V.fmt_ts(v)
	if typ == 'timestamptz': return V.fmt_ts(v) + off(V.offsec(v))
	if typ == 'interval': return '%+d days +%d.%06d seconds' % (v.days, v.seconds, v.microseconds)

def point(typ, v):
	"""canonical, comparable across equal representations"""
	if typ == 'timetz': return (v.replace(tzinfo=None), V.offsec(v))
	if typ == 'timestamptz': return V.utc(v)
	return v

def session(ctx, r, zone, style, istyle):
	import postgresql.exceptions as x
	db = ctx.connect()
	aux = ctx.connect()        # tells the values in a fixed configuration
	aux.execute("SET TimeZone TO 'UTC'; SET DateStyle TO 'ISO, YMD'; SET IntervalStyle TO 'postgres'")
	db.settings['TimeZone'] = zone; db.settings['DateStyle'] = style; db.settings['IntervalStyle'] = istyle
	T = V.types()
	case0 = dict(zone=zone, style=style, intervalstyle=istyle)
	db.execute('CREATE TABLE vf13_%d (n int4, %s)' % (os.getpid(), ', '.join('c_%s %s' % (t, t) for t in DTYPES)))
	n = ctx.scale(60, 600)
	rows = []
	for k in range(n):
		row = [k]
		for t in DTYPES:
			v = T[t].gen(r)
			if t == 'timestamptz' and r.random() < .5:
				z = zoneinfo.ZoneInfo(r.choice([q for q in ZONES if '/' in q])); y = r.randint(1800, 2200)
				v = dt.datetime(y, r.randint(1, 12), r.randint(1, 28), r.randrange(24), r.randrange(60), r.randrange(60), V.rus(r), tzinfo=z, fold=r.randrange(2))
			row.append(v)
		rows.append(tuple(row))
	ins = db.prepare('INSERT INTO vf13_%d VALUES ($1, $2, $3, $4, $5, $6, $7)' % os.getpid())
	with ctx.step('store', case0): ins.load_rows(rows)
	# what the server says it has, in a session of its own
	got = aux.query('SELECT n, %s FROM vf13_%d ORDER BY n' % (', '.join(T[t].text.replace('{0}', '{}').replace('{}', 'c_' + t) for t in DTYPES), os.getpid()))
	for a, b in zip(rows, got):
		for i, t in enumerate(DTYPES):
			if not T[t].eq(a[i + 1], b[i + 1]): ctx.violation('stored:' + t, '%r was stored as %r' % (a[i + 1], b[i + 1]), dict(case0, value=repr(a[i + 1])))
			ctx.count('in:' + t); ctx.case((t, 'in', repr(a[i + 1]), zone))
	# and what it delivers, in the session with the odd configuration
	back = db.query('SELECT * FROM vf13_%d ORDER BY n' % os.getpid())
	for a, b in zip(rows, back):
		for i, t in enumerate(DTYPES):
			if not T[t].same(a[i + 1], b[i + 1]): ctx.violation('delivered:' + t, '%r came back as %r' % (a[i + 1], b[i + 1]), dict(case0, value=repr(a[i + 1])))
			ctx.count('out:' + t)
	db.execute('DROP TABLE vf13_%d' % os.getpid())
	# values the server makes from literals
	for t in DTYPES:
		ps = db.prepare('SELECT $1::text::' + t)
		for k in range(ctx.scale(15, 200)):
			v = T[t].gen(r); lit = literal(t, v)
			try: w = ps.first(lit)
			except x.Error as e:
				ctx.violation('delivery-refused:' + t, '%s: %s' % (lit, str(e)[:300]), dict(case0, literal=lit)); continue
			if not T[t].same(v, w): ctx.violation('delivered:' + t, '%s was delivered as %r' % (lit, w), dict(case0, literal=lit))
			ctx.case((t, 'literal', lit, zone))
	# server-side arithmetic agrees with the client's
	for k in range(ctx.scale(10, 100)):
		a, b = V.rts(r), dt.timedelta(r.randint(-1000, 1000), r.randrange(86400), V.rus(r))
		try: want = a + b
		except OverflowError: continue
		if not dt.datetime.min < want < dt.datetime.max: continue
		v = db.prepare('SELECT $1::timestamp + $2::interval, $1::timestamp - $3::timestamp, $1::timestamp::date').first(a, b, want)
		if v[0] != want or v[1] != a - want or v[2] != a.date(): ctx.violation('arithmetic', '%r + %r gave %r' % (a, b, tuple(v)), case0)
		ctx.count('arithmetic')
	aux.close(); db.close()

def special(ctx, r, db):
	import postgresql.exceptions as x
	inf = {'date': (dt.date.max, dt.date.min), 'timestamp': (dt.datetime.max, dt.datetime.min), 'timestamptz': (dt.datetime.max, dt.datetime.min)}
	for t, (hi, lo) in inf.items():
		for lit, v in (('infinity', hi), ('-infinity', lo)):
			w = db.query.first("SELECT '%s'::%s" % (lit, t))
			if w.replace(tzinfo=None) != v if t == 'timestamptz' else w != v: ctx.violation('infinity:' + t, '%s was delivered as %r' % (lit, w), lit)
			for give in (w, lit):
				s = db.prepare('SELECT $1::%s::text' % t).first(give)
				if s != lit: ctx.violation('infinity:' + t, '%r was stored as %s' % (give, s), lit)
			ctx.case(('infinity', t, lit)); ctx.count('infinity')
	# beyond the client's range: refused, never another value
	beyond = {'date': ['0001-01-01 BC', '4713-01-01 BC', '10000-01-01', '5874897-12-31', '0044-03-15 BC', '99999-06-01'],
		'timestamp': ['0001-12-31 23:59:59.999999 BC', '10000-01-01', '294276-12-31 23:59:59.999999', '4713-01-01 BC', '20000-02-29 12:00'],
		'timestamptz': ['0001-12-31 23:59:59+00 BC', '10000-01-02 00:00+00', '294276-12-30 23:59:59.999999+00', '4713-01-02 00:00 BC'],
		'time': ['24:00:00'], 'timetz': ['24:00:00+01', '24:00:00-15:59'],
		'interval': ['178000000 years', '2147483647 days', '-2147483648 days', '1000000001 days']}
	for t, ls in beyond.items():
		for lit in ls:
			for how in ('first', 'call', 'rows', 'chunks', 'column', 'cursor'):
				ps = db.prepare("SELECT '%s'::%s" % (lit, t))
				case = dict(type=t, literal=lit, how=how)
				try:
					with warnings.catch_warnings(record=True) as ws:
						warnings.simplefilter('always')
						if how == 'first': w = ps.first()
						elif how == 'call': w = ps()[0][0]
						elif how == 'rows': w = list(ps.rows())[0][0]
						elif how == 'chunks': w = list(ps.chunks())[0][0][0]
						elif how == 'column': w = list(ps.column())[0]
						else:
							with db.xact(): w = ps.declare().read()[0][0]
				except x.Error: ctx.count('beyond'); ctx.case(('beyond', t, lit, how)); continue
				if not ws: ctx.violation('beyond:' + t, '%s was delivered as %r' % (lit, w), case)
	# the ends of the range are inside
	for t, lit, v in (('date', '0001-01-02', dt.date(1, 1, 2)), ('date', '9999-12-30', dt.date(9999, 12, 30)), ('timestamp', '9999-12-31 23:59:59.999998', dt.datetime(9999, 12, 31, 23, 59, 59, 999998)), ('timestamp', '0001-01-01 00:00:00.000001', dt.datetime(1, 1, 1, 0, 0, 0, 1)), ('time', '23:59:59.999999', dt.time(23, 59, 59, 999999))):
		w = db.query.first("SELECT '%s'::%s" % (lit, t))
		if w != v or db.prepare('SELECT $1::%s::text' % t).first(v) != lit: ctx.violation('range-end:' + t, lit, lit)
		ctx.case(('end', t, lit))
	# calendar-relative intervals are announced
	for lit, months in (('1 month', 1), ('-1 month', -1), ('1 year 2 mons 3 days 04:05:06.789', 14), ('-3 years +5 days', -36), ('1 mon -1 day', 1), ('11 mons 29 days', 11)):
		for how in ('first', 'rows', 'array'):
			with warnings.catch_warnings(record=True) as ws:
				warnings.simplefilter('always')
				if how == 'first': db.query.first("SELECT '%s'::interval" % lit)
				elif how == 'rows': list(db.query.rows("SELECT '%s'::interval" % lit))
				else: db.query.first("SELECT ARRAY['%s'::interval]" % lit)
			if not ws: ctx.violation('interval-months', '%s was delivered without a warning' % lit, (lit, how))
			ctx.case(('months', lit, how)); ctx.count('months')
	with warnings.catch_warnings(record=True) as ws:
		warnings.simplefilter('always')
		for k in range(50):
			v = V.rinterval(r)
			if db.prepare('SELECT $1::interval').first(v) != v: ctx.violation('delivered:interval', repr(v), None)
		for lit in ('1 day -25:00:00', '-1 day +00:00:00.000001', '36:00:00', '-36:00:00', '1000000:00:00', '-00:00:00.5', '2 weeks', '0.5 days'):
			v, us = db.query.first("SELECT '%s'::interval, (extract(day from '%s'::interval) * 86400000000 + extract(hour from '%s'::interval) * 3600000000 + extract(minute from '%s'::interval) * 60000000 + extract(microsecond from '%s'::interval))::int8" % ((lit,) * 5))
			if v // dt.timedelta(microseconds=1) != us: ctx.violation('delivered:interval', '%s was delivered as %r' % (lit, v), lit)
			ctx.case(('interval', lit))
		if ws: ctx.violation('interval-warning', 'an absolute interval was warned about: %s' % ws[0].message, None)
	# mistyped: refused
	aware, naive = dt.datetime(2020, 1, 1, tzinfo=dt.timezone.utc), dt.datetime(2020, 1, 1)
	for t, v in (('timestamp', aware), ('timestamp', dt.date(2020, 1, 1)), ('timetz', dt.time(1)), ('date', dt.time(1)), ('time', dt.date(2020, 1, 1)), ('interval', 5), ('interval', naive), ('timestamptz', dt.time(1))):
		try: s = db.prepare('SELECT $1::%s::text' % t).first(v)
		except x.Error: ctx.count('mistyped'); continue
		ctx.violation('mistyped:' + t, '%r was accepted and stored as %s' % (v, s), t)

def offsets(ctx, r, db):
	"""all whole-minute offsets, and daylight saving changes"""
	ps = db.prepare("SELECT $1::timetz, extract(timezone from $1::timetz)::int8, $1::timetz::time::text")
	mins = range(-959, 960) if not ctx.quick else r.sample(range(-959, 960), 250) + [-959, 959, -1, 0, 1]
	for m in mins:
		t = dt.time(13, 37, 1, 5, tzinfo=dt.timezone(dt.timedelta(minutes=m)))
		v, o, s = ps.first(t)
		if o != m * 60 or s != '13:37:01.000005' or V.offsec(v) != m * 60 or v.replace(tzinfo=None) != t.replace(tzinfo=None): ctx.violation('offset', '%r came back as %r (%s, %s)' % (t, v, s, o), m)
		ctx.case(('offset', m)); ctx.count('offsets')
	from postgresql.python.datetime import FixedOffset
	for s in (0, 1, -1, 59, -59, 3601, 57599, -57599, 20700):
		t = dt.time(1, 2, 3, tzinfo=FixedOffset(s)); v = ps.first(t)
		if v[1] != s or V.offsec(v[0]) != s: ctx.violation('offset', 'FixedOffset(%d) was stored as %d' % (s, v[1]), s)
	z = zoneinfo.ZoneInfo('America/New_York')
	q = db.prepare("SELECT $1::timestamptz, ($1::timestamptz AT TIME ZONE 'UTC')::text, ($1::timestamptz AT TIME ZONE 'America/New_York')")
	for y in range(1970, 2030, 1 if not ctx.quick else 7):
		for mth, d in ((3, 8), (4, 1), (11, 1), (10, 31), (3, 14), (6, 30)):
			for h in (0, 1, 3, 23):
				for fold in (0, 1):
					v = dt.datetime(y, mth, d, h, 30, 0, 1, tzinfo=z, fold=fold)
					w, u, l = q.first(v)
					if V.utc(w) != V.utc(v) or u != V.fmt_ts(V.utc(v)) or l != v.replace(tzinfo=None, fold=0): ctx.violation('dst', '%r came back as %r (%s, %s)' % (v, w, u, l), repr(v))
					ctx.count('dst')

OIDS = {'time': 1083, 'timetz': 1266, 'timestamp': 1114, 'timestamptz': 1184, 'interval': 1186}
class Claim(sock.Policy):
	"""the server reports another version and floating-point times; bytea columns and parameters are said to be of type `claim`"""
	claim = None
	def __init__(self, version, ints): self.v, self.ints = version, ints
	def messages(self, t, b):
		if t == b'S' and b.startswith(b'integer_datetimes\0'): b = b'integer_datetimes\0' + (b'on' if self.ints else b'off') + b'\0'
		if t == b'S' and b.startswith(b'server_version\0') and self.v: b = b'server_version\0' + self.v + b'\0'
		if t == b't' and self.claim: b = b.replace(struct.pack('!I', 17), struct.pack('!I', self.claim))
		if t == b'T' and self.claim: b = b.replace(struct.pack('!Ih', 17, -1), struct.pack('!Ih', self.claim, -1))
		yield t, b

US = dt.timedelta(microseconds=1)
def legacy(ctx, r, version, ints):
	"""servers whose times are doubles (seconds), and those whose intervals have no days"""
	pol = Claim(version, ints)
	co = ctx.connector(); sock.wrap(co, lambda: pol)
	db = co(); db.connect()
	noday = version is not None and db.version_info[:2] <= (8, 0)
	e0, u0 = dt.datetime(2000, 1, 1), dt.datetime(2000, 1, 1, tzinfo=dt.timezone.utc)
	num = (lambda us: struct.pack('!q', us)) if ints else (lambda us: struct.pack('!d', us / 1000000))      # the nearest double
	def unnum(b): return struct.unpack('!q', b)[0] if ints else struct.unpack('!d', b)[0]
	def enc(t, v):
		if t == 'time': return num((v.hour * 3600 + v.minute * 60 + v.second) * 1000000 + v.microsecond)
		if t == 'timetz': return enc('time', v) + struct.pack('!i', -V.offsec(v))
		if t == 'timestamp': return num((v - e0) // US)
		if t == 'timestamptz': return num((v - u0) // US)
		if noday: return num(v // US) + struct.pack('!i', 0)
		return num((v - dt.timedelta(v.days)) // US) + struct.pack('!ii', v.days, 0)
	half = 2 ** 31 - 10
	def gen(t):
		us = r.choice((0, 1, 29, 999999, 499999, 500001, r.randrange(1000000), r.randrange(1000000), r.randrange(1000)))
		if t in ('time', 'timetz'):
			v = dt.time(r.randrange(24), r.randrange(60), r.randrange(60), us)
			return v.replace(tzinfo=dt.timezone(dt.timedelta(minutes=r.randint(-959, 959)))) if t == 'timetz' else v
		s = r.choice((0, -1, 1, 86400, -86400, r.randint(-half, half), r.randint(-half, half), r.randint(-100000, 100000)))
		d = dt.timedelta(0, s, us)
		if t == 'interval': return d
		v = (e0 if t == 'timestamp' else u0) + d
		return v.astimezone(dt.timezone(dt.timedelta(minutes=r.randint(-959, 959)))) if t == 'timestamptz' else v
	# the parts of the wire form, with doubles only up to their last bit
	def parts(t, b):
		n = unnum(b[:8])
		return (n if ints else round(n * 1000000), b[8:])
	for t, oid in OIDS.items():
		pol.claim = oid
		ps = db.prepare("SELECT $1::bytea, encode($1::bytea, 'hex')::varchar")
		if ps.parameter_types[0] is None or list(ps.pg_column_types) != [oid, 1043] or list(ps.pg_parameter_types) != [oid]: raise RuntimeError('the claim did not work: %r %r' % (ps.pg_parameter_types, ps.pg_column_types))
		case = dict(type=t, version=version and version.decode(), doubles=not ints)
		for k in range(ctx.scale(250, 4000)):
			v = gen(t)
			w, h = ps.first(v); b = bytes.fromhex(h)
			if len(b) != len(enc(t, v)) or parts(t, b) != parts(t, enc(t, v)): ctx.violation('legacy-stored:' + t, '%r was sent as %s, which is %r' % (v, h, parts(t, b)), dict(case, value=repr(v)))
			if point(t, w) != point(t, v): ctx.violation('legacy-round-trip:' + t, '%r came back as %r' % (v, w), dict(case, value=repr(v)))
			ctx.count('legacy:' + t); ctx.case((t, 'legacy', version, ints, repr(v)))
		for k in range(ctx.scale(60, 1000)):
			v = gen(t)
			w = db.prepare("SELECT '\\x%s'::bytea" % enc(t, v).hex()).first()
			if point(t, w) != point(t, v): ctx.violation('legacy-delivered:' + t, '%r (%s) was delivered as %r' % (v, enc(t, v).hex(), w), dict(case, value=repr(v)))
			ctx.count('legacy-out:' + t); ctx.case((t, 'legacy out', version, ints, repr(v)))
		if not ints and t.startswith('timestamp'):
			for lit, d in (('infinity', float('inf')), ('-infinity', float('-inf'))):
				w = db.prepare("SELECT '\\x%s'::bytea" % struct.pack('!d', d).hex()).first()
				if w != (dt.datetime.max if d > 0 else dt.datetime.min): ctx.violation('legacy-infinity:' + t, '%s was delivered as %r' % (lit, w), case)
				for give in (lit, w):
					x, h = ps.first(give)
					if bytes.fromhex(h) != struct.pack('!d', d): ctx.violation('legacy-infinity:' + t, '%r was sent as %s' % (give, h), case)
				ctx.count('legacy-infinity')
		pol.claim = None
	db.close()

def main(ctx):
	ctx.rule = 'one case per (type, value, direction, session time zone)'
	ctx.require('infinity', 'beyond', 'months', 'offsets', 'dst', 'arithmetic', 'mistyped', 'legacy-infinity', *[d + t for d in ('legacy:', 'legacy-out:') for t in OIDS], *[d + t for d in ('in:', 'out:') for t in DTYPES])
	r = ctx.rng('main')
	db = ctx.connect()
	for f in (special, offsets): f(ctx, r, db)
	db.close()
	for version, ints in ((None, False), (b'8.1.23', False), (b'8.0.1', False), (b'8.0.1', True)): legacy(ctx, r, version, ints)
	combos = [(z, STYLES[i % len(STYLES)], ISTYLES[i % 4]) for i, z in enumerate(ZONES)]
	if not ctx.quick: combos = [(z, s, i) for z in ZONES for s in STYLES for i in ISTYLES[:2]]
	for c in combos:
		if ctx.elapsed() > ctx.scale(60, 1500): break
		session(ctx, r, *c)
		ctx.count('sessions')
	# the process's own time zone has no part in it
	for tz in ('Asia/Tokyo', 'America/Caracas'):
		os.environ['TZ'] = tz; time.tzset()
		session(ctx, r, 'Europe/Dublin', 'SQL, DMY', 'iso_8601')
	ctx.count('process-zones', 2)
