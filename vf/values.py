"""
Typed values: generators of client values with independent statements of what they
denote on the server.

T[name] = Type(sql, gen, text, eq)
  sql   server type
  gen   r -> client value
  text  SQL template turning {} (an expression of the type) into text
  eq    (client value, that text) -> bool
  same  (sent value, delivered value) -> bool
"""
import datetime, decimal, ipaddress, struct, uuid, random
D = decimal.Decimal
decimal_context = decimal.Context(prec=200000, Emax=999999, Emin=-999999)

ALPHA = ['', 'a', 'Z', '0', ' ', "'", '"', '\\', '%', '%s', '{', '}', ',', 'NULL', 'null', '\n', '\t', '\r', '\x01', '\x7f', 'é', 'ß', '漢', '😀', '\u200b', '\ufeff', '\ufffd', '\uffff', '\U0010ffff', '$1', '$$', ';', '--', '/*', '(', ')', '.', ':', '=>', '<', '&', ']']
def rtext(r, lo=0, hi=12):
	k = r.random()
	if k < .08: return ''
	if k < .1: return r.choice(ALPHA[1:]) * r.choice((100, 5000))
	return ''.join(r.choice(ALPHA) for _ in range(r.randint(lo, hi)))
def rname(r):
	while True:
		s = rtext(r, 1, 5)
		if s and len(s.encode()) <= 63: return s
def rint(r, bits):
	k = r.random(); lo, hi = -(1 << bits - 1), (1 << bits - 1) - 1
	if k < .3: return r.choice((0, 1, -1, lo, lo + 1, hi, hi - 1))
	if k < .6: b = r.randrange(bits); return max(lo, min(hi, r.choice((1, -1)) * ((1 << b) + r.choice((-1, 0, 1)))))
	return r.randint(lo, hi)
def rfloat(r, single=False):
	k = r.random()
	if k < .25: v = r.choice((0.0, -0.0, 1.0, -1.0, float('inf'), float('-inf'), float('nan'), 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, .1, 1 / 3, 1e15, 1e16, 1e22, 123456789012345680.0))
	elif k < .6: v = struct.unpack('!d', struct.pack('!Q', r.getrandbits(64)))[0]
	else: v = r.uniform(-1000, 1000)
	if single:
		if k >= .25 and k < .6: return struct.unpack('!f', struct.pack('!I', r.getrandbits(32)))[0]
		try: v = struct.unpack('!f', struct.pack('!f', v))[0]
		except OverflowError: v = 3.4028234663852886e+38
		if v == 0 and k < .25: v = r.choice((0.0, -0.0, 1.401298464324817e-45))
	return v
def fbits(v): return struct.pack('!d', v) if v == v else b'nan'
def rnumeric(r):
	k = r.random()
	if k < .15: return D(r.choice(('0', '0.0', '0.000', '-0', '1', '-1', '10000', '9999', '0.0001', '0.00001', '1e4', '1e-4', '1e20', '1E+3', '-1e100', '1e-100', '123456789.987654321', '10000.00010', '100000000', '0.1000', '99999999.99999999')))
	if k < .2: n = r.choice((100, 1000, 4000))
	else: n = r.randint(1, 40)
	digits = tuple(r.choice((0, 0, 9, r.randrange(10))) if r.random() < .4 else r.randrange(10) for _ in range(n))
	exp = r.choice((0, -n, -n - r.randint(0, 30), -r.randint(0, n), r.randint(0, 60), -r.randint(0, n + 10)))
	return D((r.randrange(2), digits, exp))
def numeric_canon(v):
	"""the value and scale the server keeps"""
	with decimal.localcontext(decimal_context):
		s, d, e = v.as_tuple()
		if e > 0: v = D((s, tuple(d) + (0,) * e, 0))
		if v == 0: return (D((0, (0,), min(e, 0))))
		return v
def numeric_eq(v, text):
	a, b = numeric_canon(v), D(text)
	if a == 0: return b == 0 and b.as_tuple().exponent == a.as_tuple().exponent
	sa, da, ea = a.as_tuple(); sb, db, eb = b.as_tuple()
	return sa == sb and ea == eb and ''.join(map(str, da)).lstrip('0') == ''.join(map(str, db)).lstrip('0')
def rbytes(r):
	k = r.random()
	if k < .1: return b''
	if k < .13: return bytes(r.getrandbits(8) for _ in range(r.choice((1000, 9000))))
	return bytes(r.choice((0, 255, 92, 39, r.randrange(256))) for _ in range(r.randint(1, 20)))
def rdate(r):
	k = r.random()
	if k < .25: return r.choice((datetime.date(1, 1, 2), datetime.date(9999, 12, 30), datetime.date(2000, 1, 1), datetime.date(1999, 12, 31), datetime.date(1970, 1, 1), datetime.date(2000, 2, 29), datetime.date(1900, 2, 28), datetime.date(1582, 10, 15), datetime.date(4713, 1, 1)))
	return datetime.date.fromordinal(r.randint(2, datetime.date.max.toordinal() - 1))
def rus(r): return r.choice((0, 0, 1, 999999, 500000, 100000, r.randrange(1000000)))
def rtime(r):
	if r.random() < .2: return r.choice((datetime.time(0), datetime.time(23, 59, 59, 999999), datetime.time(12), datetime.time(0, 0, 0, 1)))
	return datetime.time(r.randrange(24), r.randrange(60), r.randrange(60), rus(r))
def rts(r): return datetime.datetime.combine(rdate(r), rtime(r))
def roffset(r): return datetime.timezone(datetime.timedelta(seconds=r.choice((0, 3600, -3600, 19800, 20700, 15 * 3600 + 59 * 60, -15 * 3600 - 59 * 60, 45296, -1, 1, 59, r.randint(-57540, 57540)))))
def rtstz(r):
	while True:
		d = rts(r)
		if 3 < d.year < 9997: return d.replace(tzinfo=roffset(r))
		return d.replace(tzinfo=datetime.timezone.utc)
def rinterval(r):
	k = r.random()
	if k < .2: return r.choice((datetime.timedelta(0), datetime.timedelta(-1), datetime.timedelta(1), datetime.timedelta(microseconds=1), datetime.timedelta(microseconds=-1), datetime.timedelta(999999999, 86399, 999999), datetime.timedelta(-999999999), datetime.timedelta(31)))
	return datetime.timedelta(r.choice((0, r.randint(-100, 100), r.randint(-999999999, 999999998))), r.randrange(86400), rus(r))
def fmt_us(t): return ('.%06d' % t.microsecond).rstrip('0') if t.microsecond else ''
def fmt_time(t): return '%02d:%02d:%02d%s' % (t.hour, t.minute, t.second, fmt_us(t))
def fmt_ts(t): return '%04d-%02d-%02d %s' % (t.year, t.month, t.day, fmt_time(t))
def utc(v): return v.astimezone(datetime.timezone.utc)
def fmt_tstz(v): return fmt_ts(utc(v)) + '+00'
def offsec(v): o = v.utcoffset(); return o.days * 86400 + o.seconds
def rip(r):
	k = r.randrange(4)
	v4 = r.choice((0, 2**32 - 1, 0x7f000001, r.getrandbits(32))); v6 = r.choice((0, 1, 2**128 - 1, r.getrandbits(128), 0xffff << 32 | r.getrandbits(32)))
	if k == 0: return ipaddress.IPv4Address(v4)
	if k == 1: return ipaddress.IPv6Address(v6)
	if k == 2: return ipaddress.IPv4Interface((v4, r.choice((0, 1, 8, 24, 31, r.randrange(32)))))
	return ipaddress.IPv6Interface((v6, r.choice((0, 1, 64, 127, r.randrange(128)))))
def ip_eq(v, t): 
	s = ipaddress.ip_interface(t); v = ipaddress.ip_interface(v); return s == v and s.network.prefixlen == v.network.prefixlen
def rnet(r):
	k = r.randrange(2)
	if k: return ipaddress.ip_network((r.getrandbits(32), r.randrange(33)), strict=False)
	return ipaddress.ip_network((r.getrandbits(128), r.randrange(129)), strict=False)
def rmac(r): return ':'.join('%02x' % r.choice((0, 255, r.randrange(256))) for _ in range(6))
def rbits(r): return ''.join(r.choice('01') for _ in range(r.choice((0, 1, 2, 7, 8, 9, 15, 16, 17, 31, 64, 65, 200, 333))))
def rcoord(r): return rfloat(r) if r.random() < .4 else r.choice((0., 1., -1., .5, r.uniform(-9, 9)))
def rfin(r):
	while True:
		v = rcoord(r)
		if v == v and abs(v) != float('inf'): return v
def fnums(t):
	out = ''
	for c in t: out += c if c in '0123456789.+-eE' or c.isalpha() else ' '
	return [float(x) for x in out.split()]
def flat(v): return [x for y in v for x in (flat(y) if isinstance(y, tuple) else [y])]
def feq(a, b): return len(a) == len(b) and all(fbits(x) == fbits(y) for x, y in zip(a, b))
def rjson(r, d=0):
	k = r.randrange(8 if d < 3 else 6)
	if k == 0: return None
	if k == 1: return r.choice((True, False))
	if k == 2: return rint(r, 60)
	if k == 3: return round(r.uniform(-5, 5), 3)
	if k in (4, 5): return rtext(r).replace('\x00', '')
	if k == 6: return [rjson(r, d + 1) for _ in range(r.randrange(4))]
	return {rtext(r): rjson(r, d + 1) for _ in range(r.randrange(4))}

class Type:
	def __init__(self, sql, gen, eq=None, text='{}::text', same=None, out=None, bad=(), codec=True, canon=None):
		self.sql, self.gen, self.codec, self.bad = sql, gen, codec, list(bad)
		self.text, self.out = text, out or (lambda v: v)
		self.eq = eq or (lambda v, t: t == (canon or str)(v))
		self.same = same or (lambda v, w: w == self.out(v) and type(w) is type(self.out(v)))

def types():
	import postgresql.types as pt
	from postgresql.types import geometry as g, bitwise as b
	import json
	O = object()
	def bits(r): return b.Varbit(rbits(r))
	T = {}
	def t(name, *a, **kw): T[name] = Type(name, *a, **kw)
	for n, bt in (('int2', 16), ('int4', 32), ('int8', 64)):
		t(n, lambda r, bt=bt: rint(r, bt), bad=[1 << bt - 1, -(1 << bt - 1) - 1, 1 << 80, 'x', 1.5, b'1', [1], O])
	t('oid', lambda r: r.choice((0, 1, 2**31, 2**32 - 1, r.getrandbits(32))), bad=[-1, 2**32, 'x', 1.5, O])
	t('bool', lambda r: r.random() < .5, canon=lambda v: 'true' if v else 'false', bad=['t', 2, b'', [], O])
	t('float8', rfloat, eq=lambda v, x: fbits(v) == fbits(float(x)), same=lambda v, w: type(w) is float and fbits(v) == fbits(w), bad=['x', b'', [], O])
	t('float4', lambda r: rfloat(r, True), eq=lambda v, x: fbits(v) == fbits(struct.unpack('!f', struct.pack('!f', float(x)))[0]), same=lambda v, w: type(w) is float and fbits(v) == fbits(w), bad=['x', 1e300, b'', O])
	t('numeric', rnumeric, eq=numeric_eq, same=lambda v, w: isinstance(w, D) and numeric_eq(v, str(w)))
	T['numeric'].bad = ['x', '', b'', O]
	for n in ('text', 'varchar'): t(n, rtext, bad=[5, b'x', [], O, 'a\0b', '\ud800'])
	t('name', rname, bad=[5, b'x', O])
	t('bytea', rbytes, canon=lambda v: '\\x' + v.hex(), bad=['x', 1.5, O])
	t('uuid', lambda r: uuid.UUID(int=r.choice((0, 2**128 - 1, r.getrandbits(128)))), bad=['x', 5, b'', O])
	t('date', rdate, canon=lambda v: v.isoformat(), bad=['x', 5, b'', O])
	t('time', rtime, canon=fmt_time, bad=['x', 5, O])
	t('timetz', lambda r: rtime(r).replace(tzinfo=roffset(r)), text="extract(hour from {0}) || '/' || extract(minute from {0}) || '/' || (extract(microsecond from {0}))::int8 || '/' || extract(timezone from {0})::int8",
		eq=lambda v, x: x == '%d/%d/%d/%d' % (v.hour, v.minute, v.second * 1000000 + v.microsecond, offsec(v)),
		same=lambda v, w: (v.replace(tzinfo=None), offsec(v)) == (w.replace(tzinfo=None), offsec(w)), bad=['x', 5, datetime.time(1), O])
	t('timestamp', rts, canon=fmt_ts, bad=['x', 5, O])
	t('timestamptz', rtstz, text="({} AT TIME ZONE 'UTC')::text", canon=lambda v: fmt_ts(utc(v)), same=lambda v, w: w.tzinfo is not None and utc(v) == utc(w), bad=['x', 5, O])
	t('interval', rinterval, text="extract(day from {0}) || '/' || extract(hour from {0})::int8 * 3600 + extract(minute from {0})::int8 * 60 || '/' || extract(microsecond from {0})::int8 || '/' || extract(month from {0}) || '/' || extract(year from {0})",
		eq=lambda v, x: x == '%d/%d/%d/0/0' % (v.days, v.seconds // 60 * 60, v.seconds % 60 * 1000000 + v.microseconds), bad=['x', 5, O])
	t('json', lambda r: json.dumps(rjson(r), ensure_ascii=r.random() < .5), bad=[5, {}, O])
	t('jsonb', lambda r: json.dumps(rjson(r), ensure_ascii=r.random() < .5), eq=lambda v, x: json.loads(x) == json.loads(v), same=lambda v, w: type(w) is str and json.loads(v) == json.loads(w), bad=[5, {}, O])
	t('varbit', bits, bad=['012', 5, O])
	t('bit(9)', lambda r: b.Varbit(format(r.getrandbits(9), '09b')), bad=['012', 5, O])
	t('bit', lambda r: b.Bit(r.choice('01')), bad=[5, O])
	t('point', lambda r: g.Point((rcoord(r), rcoord(r))), eq=lambda v, x: feq(flat(v), fnums(x)), same=lambda v, w: type(w) is g.Point and feq(flat(v), flat(w)), bad=['x', 5, (1,), O])
	t('lseg', lambda r: g.Lseg(((rcoord(r), rcoord(r)), (rcoord(r), rcoord(r)))), eq=lambda v, x: feq(flat(v), fnums(x)), same=lambda v, w: type(w) is g.Lseg and feq(flat(v), flat(w)), bad=['x', 5, O])
	t('box', lambda r: g.Box(((rfin(r), rfin(r)), (rfin(r), rfin(r)))), eq=lambda v, x: [float(y) for y in flat(v)] == fnums(x), same=lambda v, w: type(w) is g.Box and flat(v) == flat(w), bad=['x', 5, O])
	t('circle', lambda r: g.Circle(((rcoord(r), rcoord(r)), abs(rfin(r)))), eq=lambda v, x: feq(flat(v), fnums(x)), same=lambda v, w: type(w) is g.Circle and feq(flat(v), flat(w)), bad=['x', 5, O])
	t('inet', rip, eq=ip_eq, same=lambda v, w: ip_eq(v, str(w)), bad=['x', O])
	t('cidr', rnet, canon=str, same=lambda v, w: ipaddress.ip_network(w) == v, bad=['x', O])
	t('macaddr', rmac, bad=['x', 5, '1:2', O])
	# no client codec: the textual form, both ways
	def plain(sql, vals, canon=str): t(sql, lambda r: r.choice(vals), canon=canon, codec=False, bad=[5, b'x', [], O])
	plain('money', ['$0.00', '$12.34', '-$1.00', '$92,233,720,368,547,758.07'])
	plain('int4range', ['empty', '[1,5)', '(,)', '[1,)', '(,7)'])
	plain('int4multirange', ['{}', '{[1,5),[7,9)}'])
	plain('numrange', ['[1.5,2.50]', 'empty'])
	plain('tsvector', ["", "'a' 'b'", "'a':1A,2 'cat':3"])
	plain('tsquery', ["'a' & 'b'", "!'x'"])
	plain('path', ['((0,0),(1,1))', '[(0,0),(1.5,2)]'])
	plain('polygon', ['((0,0),(1,1),(2,0))'])
	plain('line', ['{1,-1,0}', '{0,1,5}'])
	plain('pg_lsn', ['0/0', 'FFFFFFFF/FFFFFFFF', '1/ABCDEF'])
	plain('xid8', ['0', '18446744073709551615', '42'])
	plain('macaddr8', ['08:00:2b:01:02:03:04:05'])
	plain('regclass', ['pg_class', 'pg_type'])
	plain('regtype', ['integer', 'text', 'integer[]'])
	plain('jsonpath', ['$."a"', '$."a"[*]'])
	plain('refcursor', ['', 'a b', "it's"])
	return T
