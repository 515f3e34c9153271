"""C39: the geometry objects and the bytea codec compute what PostgreSQL computes."""
import copy, fractions, math, pickle
import postgresql.encodings.bytea
from postgresql.types import geometry as g
from postgresql.types.geometry import Point, Lseg, Box, Circle

def lit(v): return "'%s'" % v
def num(x): return {math.inf: 'inf', -math.inf: '-inf'}.get(x, repr(x))
def pt(p): return "'(%s,%s)'::point" % (num(p[0]), num(p[1]))
def ls(s): return "'[(%s,%s),(%s,%s)]'::lseg" % tuple(num(x) for p in s for x in p)
def bx(s): return "'((%s,%s),(%s,%s))'::box" % tuple(num(x) for p in s for x in p)

def main(ctx):
	ctx.rule = 'geometric operands, or bytes and escaped text'
	rng = ctx.rng('main'); db = ctx.connect()
	ask(ctx, rng, db); texts(ctx, rng, db); codec(ctx, rng, db)
	ctx.require('operations', 'segments', 'texts', 'bytes', 'escaped', 'refused', 'undefined')
	db.close()

def close(a, b):
	if isinstance(a, (bool, str, type(None))) or isinstance(b, (bool, str, type(None))): return a is b
	if isinstance(a, tuple): return isinstance(b, tuple) and len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
	return a == b or a != a and b != b or math.isclose(a, b, rel_tol=1e-9, abs_tol=1e-9)

def ask(ctx, rng, db):
	"""batches of operations, each with the expression that the server is to evaluate"""
	# numbers whose sums, products and quotients are exact or nearly so, and far apart when they differ
	def coord(): return rng.choice([0, 1, -1, 2, 3, -4, 5, 7, 10, .5, -.25, 1.5, 100, -1000.25, 12345]) if rng.random() < .8 else rng.randrange(-1000, 1000) / rng.choice([1, 2, 4, 8])
	def point(): return (coord(), coord())
	todo = []
	def op(what, f, sql, kind, case): todo.append((what, f, sql, kind, case))
	for n in range(ctx.scale(900, 12000)):
		a, b = point(), point(); form = rng.choice([tuple, list, Point]); P = Point(a); w = form(b)
		for o, name, f in [('+', 'add', lambda P=P, w=w: P + w), ('-', 'sub', lambda P=P, w=w: P - w), ('*', 'mul', lambda P=P, w=w: P * w)]:
			op(name, f, '%s %s %s' % (pt(a), o, pt(b)), Point, (a, b))
		if b != (0, 0): op('div', lambda P=P, w=w: P / w, '%s / %s' % (pt(a), pt(b)), Point, (a, b))
		else:
			ctx.count('undefined')
			try: P / w; ctx.violation('div-zero', '%r divided by zero' % (a,), (a, b))
			except ZeroDivisionError: pass
		op('distance', lambda P=P, w=w: P.distance(w), '%s <-> %s' % (pt(a), pt(b)), float, (a, b))
		op('hypot', lambda P=P: P.distance((0, 0)), "%s <-> '(0,0)'::point" % pt(a), float, (a,))
		# segments
		s = (point(), point())
		if rng.random() < .3: s = (s[0], (s[0][0], s[1][1]))
		elif rng.random() < .3: s = (s[0], (s[1][0], s[0][1]))
		if s[0] == s[1]: continue
		k = rng.random(); dx, dy = s[1][0] - s[0][0], s[1][1] - s[0][1]; f = rng.choice([1, -1, 2, .5, -4]); o = point()
		if k < .3: t = (o, (o[0] + dx * f, o[1] + dy * f))
		elif k < .6: t = (o, (o[0] - dy * f, o[1] + dx * f))
		elif k < .75: t = (o, (o[0] + dx * f, o[1] - dy * f))
		else: t = (o, point())
		if t[0] == t[1]: continue
		S = Lseg(s); T = rng.choice([tuple, list, Lseg])(t); ctx.count('segments')
		op('length', lambda S=S: S.length, '@-@ ' + ls(s), float, s)
		op('center', lambda S=S: S.center, '@@ ' + ls(s), Point, s)
		op('vertical', lambda S=S: S.vertical, '?| ' + ls(s), bool, s)
		op('horizontal', lambda S=S: S.horizontal, '?- ' + ls(s), bool, s)
		op('slope', lambda S=S: S.slope, 'slope(%s, %s)' % (pt(s[0]), pt(s[1])), float, s)
		op('ends', lambda S=S: (S.one, S.two), None, None, s)
		# only where the answer does not depend on rounding or on the server's tolerance
		F = fractions.Fraction; q = [(F(x[1][0]) - F(x[0][0]), F(x[1][1]) - F(x[0][1])) for x in (s, t)]
		cross = q[0][0] * q[1][1] - q[0][1] * q[1][0]; dot = q[0][0] * q[1][0] + q[0][1] * q[1][1]
		size = max(abs(x) for v in q for x in v) ** 2
		slopes = [v[1] / v[0] if v[0] else None for v in q]
		plain = all(x is None or x == 0 or F(1, 1000) < abs(x) < 1000 for x in slopes)
		if plain and (cross == 0 or abs(cross) > size / 1000): op('parallel', lambda S=S, T=T: S.parallel(T), '%s ?|| %s' % (ls(s), ls(t)), bool, (s, t)); ctx.count('parallel', cross == 0)
		if plain and (dot == 0 or abs(dot) > size / 1000): op('perpendicular', lambda S=S, T=T: S.perpendicular(T), '%s ?-| %s' % (ls(s), ls(t)), bool, (s, t)); ctx.count('perpendicular', dot == 0)
		# boxes
		B = Box(rng.choice([tuple, list, lambda x: (Point(x[0]), Point(x[1]))])(s)); op('box-center', lambda B=B: B.center, '@@ ' + bx(s), Point, s)
		op('box-high', lambda B=B: B.high, '(%s)[0]' % bx(s), Point, s); op('box-low', lambda B=B: B.low, '(%s)[1]' % bx(s), Point, s); op('box', lambda B=B: B, bx(s), Box, s)
		C = Circle((a, abs(b[0]))); op('circle', lambda C=C: (C.center, C.radius), None, None, (a, b)); op('circle-center', lambda C=C: C.center, "@@ '<(%s,%s),%s>'::circle" % (a[0], a[1], abs(b[0])), Point, (a, b))
		op('circle-radius', lambda C=C: C.radius, "radius('<(%s,%s),%s>'::circle)" % (a[0], a[1], abs(b[0])), float, (a, b))
		if b[0]:
			try: Circle((a, -abs(b[0]))); ctx.violation('circle-negative', 'a radius of %r was accepted' % -abs(b[0]), (a, b))
			except ValueError: ctx.count('undefined')
	for i in range(0, len(todo), 60):
		batch = todo[i:i + 60]; live = [x for x in batch if x[2]]
		row = db.query('SELECT ' + ', '.join(x[2] for x in live))[0]; want = {id(x): v for x, v in zip(live, row)}
		for x in batch:
			what, f, sql, kind, case = x; ctx.case((what, case), sample=(what, case)); ctx.count('operations')
			try: got = f()
			except Exception as e: ctx.violation('%s:%s' % (what, type(e).__name__), '%r raised %s: %s; the server gives %r' % (case, type(e).__name__, e, want.get(id(x))), case); continue
			if what == 'ends': w = (Point(case[0]), Point(case[1])); kind = tuple
			elif what == 'circle': w = (Point(case[0]), float(abs(case[1][0]))); kind = tuple
			else: w = want[id(x)]
			ctx.expect(type(got) is kind, what + '-type', '%r is a %s' % (got, type(got).__name__), case)
			ctx.expect(close(got, w), what, '%r gives %r; the server gives %r' % (case, got, w), case)

def texts(ctx, rng, db):
	def coord(): return rng.choice([0.0, -0.0, 1.5, -1e300, 1e-300, 5e-324, 1.7976931348623157e308, math.inf, -math.inf, .1, 1 / 3, 1e16, 123456789.125, -7]) if rng.random() < .7 else rng.uniform(-1e6, 1e6)
	def point(): return (coord(), coord())
	for n in range(ctx.scale(300, 5000)):
		cls, T, v = rng.choice([(Point, 'point', point()), (Lseg, 'lseg', (point(), point())), (Box, 'box', (point(), point())), (Circle, 'circle', (point(), abs(coord())))])
		x = cls(v); ctx.case((T, v), sample=str(x)); ctx.count('texts')
		def back(sql, what):
			try: got = db.query.first('SELECT %s::%s' % (sql, T))
			except Exception as e: ctx.violation('%s:%s' % (what, type(e).__name__), '%s: %s' % (sql, str(e)[:200]), repr(x)); return
			ctx.expect(type(got) is cls and got == x, what, '%r became %r' % (x, got), repr(x))
		back("'%s'" % str(x), 'text:' + T)
		for how, y in (('copy', copy.copy(x)), ('deepcopy', copy.deepcopy(x)), ('pickle', pickle.loads(pickle.dumps(x, rng.choice([2, 4, 5])))), ('again', cls(x)), ('list', cls(list(x)))):
			ctx.expect(type(y) is cls and y == x and hash(y) == hash(x) and all(type(a) is type(b) for a, b in zip(x, y)), how, '%r became %r' % (x, y), repr(x))
		try: y = eval(repr(x), dict(postgresql=postgresql, inf=math.inf, nan=math.nan)); ctx.expect(type(y) is cls and y == x, 'repr', '%r evaluates to %r' % (repr(x), y), repr(x))
		except Exception as e: ctx.violation('repr:' + type(e).__name__, '%s: %s' % (repr(x), e), repr(x))

def codec(ctx, rng, db):
	dec = db.prepare("SELECT encode($1::bytea, 'escape')"); enc = db.prepare("SELECT decode($1, 'escape')")
	every = bytes(range(256)); samples = [bytes([i]) for i in range(256)] + [b'', every, every * 5, b'\\\\', b"\\'", b'\0\0', b'\\123', b'\xff' * 100]
	while len(samples) < ctx.scale(700, 9000): samples.append(bytes(rng.choice([92, 39, 0, 255, 48, 49, 32, 126, 127, 128, rng.randrange(256)]) for i in range(rng.choice([1, 2, 5, 30]))))
	for b in samples:
		ctx.case(('bytes', b)); ctx.count('bytes')
		for form in (b, bytearray(b), memoryview(b)):
			try: t = postgresql.encodings.bytea.decode(form)
			except Exception as e: ctx.violation('decode:' + type(e).__name__, '%r: %s' % (b, e), repr(b)); break
			ctx.expect(type(t) is str and (t.isascii()), 'decode-text', repr(t), repr(b))
		try: t2 = b.decode('bytea'); ctx.expect(t2 == t, 'decode-codec', '%r, %r' % (t2, t), repr(b))
		except Exception as e: ctx.violation('decode-codec:' + type(e).__name__, '%r: %s' % (b, e), repr(b)); continue
		ctx.expect(enc.first(t) == b, 'decode', '%r became %r, which is %r to the server' % (b, t, enc.first(t)), repr(b))
		if n_ok(t): ctx.expect(db.query.first('SELECT $1::text::bytea', t) == b, 'decode-cast', '%r became %r' % (b, t), repr(b))
		for text in (t, dec.first(b)):
			if not text.isascii(): continue
			try: back = text.encode('bytea')
			except Exception as e: ctx.violation('encode:' + type(e).__name__, '%r: %s' % (text, e), repr(b)); continue
			ctx.expect(back == b and type(back) is bytes, 'encode', '%r became %r' % (text, back), repr(b))
	# texts of every kind: both take it, with the same meaning, or both refuse it
	parts = ['\\', '\\\\', '\\0', '\\01', '\\012', '\\377', '\\378', '\\400', '\\777', '\\1_2', '\\ 12', '\\12 ', '\\+12', '\\0x1', '\\089', 'a', ' ', "'", '0', '7', '9', '\n', '\\\n', '\\a', '\t', '"', '\\00', '\\3', '~', '\x7f', '\\²12', '\\१२३', '\\1²2', '€', '\u0101']
	for n in range(ctx.scale(1500, 20000)):
		t = ''.join(rng.choice(parts) for i in range(rng.choice([1, 1, 2, 3, 6])))
		ctx.case(('text', t)); ctx.count('escaped')
		try: want = enc.first(t)
		except Exception: want = None
		try: got = t.encode('bytea')
		except ValueError: got = None; ctx.count('refused')
		except Exception as e: ctx.violation('encode-error:' + type(e).__name__, '%r: %s' % (t, e), t); continue
		if not t.isascii():
			# the characters are not bytes
			u = t.replace('\\\\', '')
			if '\\²' in u or '\\१' in u or '\\1²' in u or any(ord(c) > 255 for c in t): ctx.expect(got is None, 'encode-taken', '%r became %r' % (t, got), t)
			continue
		if want is None: ctx.expect(got is None, 'encode-taken', '%r, which the server refuses, became %r' % (t, got), t)
		elif got is None: ctx.violation('encode-refused', '%r, which the server takes as %r, was refused' % (t, want), t)
		else: ctx.expect(got == want, 'encode', '%r became %r; the server says %r' % (t, got, want), t)

def n_ok(t): return not t.startswith('\\x')
