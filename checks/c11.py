"""
C11: parameters of every type in every position; what the server received is told by
the server, as text, and compared with an independent statement of the value.
"""
import datetime, decimal, random, re, struct
from vf import values

def sqltext(t, k): return t.text.replace('{0}', '{}').replace('{}', '$%d::%s' % (k, t.sql))

METHODS = ['call', 'first', 'rows', 'chunks', 'declare', 'query', 'query.first', 'rows-in', 'insert']

def run(r, db, how, q, params):
	if how == 'call': return db.prepare(q)(*params)[0]
	if how == 'first': return db.prepare(q).first(*params)
	if how == 'rows': return list(db.prepare(q).rows(*params))[0]
	if how == 'rows-in':
		with db.xact(): return list(db.prepare(q).rows(*params))[0]
	if how == 'chunks': return next(iter(db.prepare(q).chunks(*params)))[0]
	if how == 'declare': return db.prepare(q).declare(*params).read()[0]
	if how == 'query': return db.query(q, *params)[0]
	if how == 'query.first': return db.query.first(q, *params)

def positions(ctx, r, db, T, names, uid):
	n = r.choice((1, 2, 2, 3, 5, 9, 30, 200))
	ts = [T[r.choice(names)] for _ in range(n)]
	params = [None if r.random() < .15 else t.gen(r) for t in ts]
	order = list(range(n)); r.shuffle(order)
	q = 'SELECT ' + ', '.join(sqltext(ts[k], k + 1) for k in order) + ", '|'"
	how = r.choice(METHODS[:-1])
	case = dict(types=[t.sql for t in ts], params=[repr(p)[:200] for p in params], how=how)
	with ctx.step('positions', case): a = run(r, db, how, q, params)
	for j, k in enumerate(order):
		t, v, got = ts[k], params[k], a[j]
		good = got is None if v is None else got is not None and t.eq(v, got)
		ctx.count('type:' + t.sql); ctx.case((t.sql, repr(v)), nontrivial=v is not None)
		if v is None: ctx.count('nulls')
		if not good:
			ctx.violation('value:' + t.sql, 'parameter $%d::%s, %r, was received as %r' % (k + 1, t.sql, v, got), case)
	ctx.count('how:' + how)

def roundtrip(ctx, r, db, T, names):
	t = T[r.choice(names)]
	ps = db.prepare('SELECT $1::%s AS a, %s AS b' % (t.sql, sqltext(t, 1)))
	vs = [t.gen(r) for _ in range(10)]
	for v in vs:
		w, x = ps.first(v)
		if not t.eq(v, x): ctx.violation('value:' + t.sql, '%r was received as %r' % (v, x), dict(type=t.sql, value=repr(v)))
		if not t.same(v, w): ctx.violation('delivered:' + t.sql, '%r came back as %r' % (v, w), dict(type=t.sql, value=repr(v)))
		ctx.case(('rt', t.sql, repr(v)))

def inserted(ctx, r, db, T, names, uid):
	"""through a table, by single execution and by loading"""
	k = r.randint(1, 6)
	ts = [T[r.choice(names)] for _ in range(k)]
	db.execute('CREATE TEMP TABLE vf11_%d (n int4, %s)' % (uid, ', '.join('c%d %s' % (i, t.sql) for i, t in enumerate(ts))))
	ps = db.prepare('INSERT INTO vf11_%d VALUES (%s)' % (uid, ', '.join('$%d' % (i + 1) for i in range(k + 1))))
	rows = [(n,) + tuple(None if r.random() < .15 else t.gen(r) for t in ts) for n in range(r.choice((1, 5, 40)))]
	how = r.choice(('call', 'load_rows', 'load_chunks', 'first'))
	case = dict(types=[t.sql for t in ts], rows=repr(rows)[:3000], how=how)
	with ctx.step('insert', case):
		if how == 'call':
			for x in rows: ps(*x)
		elif how == 'first':
			for x in rows: ps.first(*x)
		elif how == 'load_rows': ps.load_rows(iter(rows))
		else: ps.load_chunks([rows[:1], rows[1:]])
	got = db.query('SELECT n, %s FROM vf11_%d ORDER BY n' % (', '.join(t.text.replace('{0}', '{}').replace('{}', 'c%d' % i) for i, t in enumerate(ts)), uid))
	if len(got) != len(rows): ctx.violation('insert-count', '%d rows stored of %d' % (len(got), len(rows)), case)
	else:
		for a, b in zip(rows, got):
			for i, t in enumerate(ts):
				v, g = a[i + 1], b[i + 1]
				if not (g is None if v is None else g is not None and t.eq(v, g)): ctx.violation('stored:' + t.sql, '%r was stored as %r' % (v, g), case)
	ctx.count('how:insert'); ctx.case(('insert', uid, how, repr(case)))
	db.execute('DROP TABLE vf11_%d' % uid)

def refusals(ctx, r, db, T, names):
	import postgresql.exceptions as x
	n = r.choice((1, 1, 2, 4, 12))
	ts = [T[r.choice(names)] for _ in range(n)]
	k = r.randrange(n)
	if not ts[k].bad: return
	params = [t.gen(r) for t in ts]; params[k] = r.choice(ts[k].bad)
	q = "SELECT nextval('vf11s'), " + ', '.join(sqltext(t, i + 1) for i, t in enumerate(ts))
	how = r.choice(METHODS[:-1])
	inx = r.random() < .2 and how != 'rows-in'
	case = dict(types=[t.sql for t in ts], bad='$%d = %r' % (k + 1, params[k]), how=how)
	before = tuple(db.query.first('SELECT last_value, is_called FROM vf11s'))
	err = None
	b = db.xact() if inx else None
	if b: b.start()
	with ctx.step('refusal', case):
		try: a = run(r, db, how, q, params)
		except x.Error as e: err = e
		except Exception as e:
			ctx.violation('refusal-raw:%s:%s' % (ts[k].sql, type(e).__name__), '%r for %s: %s' % (params[k], ts[k].sql, e), case); err = e
	if b: b.rollback()
	ctx.case(('refuse', ts[k].sql, repr(params[k]), how, k)); ctx.count('refused')
	if err is None: ctx.violation('accepted:' + ts[k].sql, 'the parameter $%d::%s = %r was accepted and received as %r' % (k + 1, ts[k].sql, params[k], a[k + 1]), case)
	elif not isinstance(err, x.Error): pass
	# (the text of the statement, also in str(err), names all of them)
	elif re.findall(r'\$(\d+)', str(err.message) + str(err.details.get('context', ''))) != [str(k + 1)]: ctx.violation('unnamed', 'the error does not name the parameter $%d: %s' % (k + 1, str(err.message)[:500]), case)
	after = tuple(db.query.first('SELECT last_value, is_called FROM vf11s'))
	if after != before: ctx.violation('executed', 'a statement with a refused parameter was executed', case)

def arity(ctx, r, db, T, names):
	n = r.choice((0, 1, 2, 5))
	ts = [T[r.choice(names)] for _ in range(n)]
	g = r.choice([k for k in (0, 1, 2, 3, 4, 5, 6, 20) if k != n])
	params = [t.gen(r) for t in ts]; params = (params + [None] * 20)[:g]
	q = "SELECT nextval('vf11s')::text, " + ', '.join([sqltext(t, i + 1) for i, t in enumerate(ts)] + ["'|'"])
	how = r.choice(METHODS[:-1] + ['column', 'load_rows', 'load_chunks'])
	case = dict(wanted=n, given=g, how=how)
	before = tuple(db.query.first('SELECT last_value, is_called FROM vf11s'))
	import postgresql.exceptions as x
	try:
		with ctx.step('arity', case):
			if how == 'column': list(db.prepare(q).column(*params))
			elif how == 'load_rows':
				if n == 0: return
				db.prepare(q).load_rows([tuple(params)])
			elif how == 'load_chunks':
				if n == 0: return
				db.prepare(q).load_chunks([[tuple(params)]])
			else: run(r, db, how, q, params)
		ctx.violation('arity:' + how, '%d parameters were accepted for %d' % (g, n), case)
	except (TypeError, x.Error): pass
	after = tuple(db.query.first('SELECT last_value, is_called FROM vf11s'))
	if after != before: ctx.violation('executed', 'a statement with %d of %d parameters was executed' % (g, n), case)
	ctx.case(('arity', n, g, how)); ctx.count('arity')

def many(ctx, db):
	"""up to the greatest number of parameters; very large values"""
	import postgresql.exceptions as x
	for n in (255, 256, 1664, 32767, 32768, 65535):
		q = 'SELECT ' + ' + '.join('$%d::int8 * %d' % (i + 1, i % 7 + 1) for i in (0, n // 2, n - 1)) + ", array_length(ARRAY[%s], 1)" % ', '.join('$%d::int8' % (i + 1) for i in range(n))
		ps = db.prepare(q)
		v = [i * i + 1 for i in range(n)]
		want = sum(v[i] * (i % 7 + 1) for i in (0, n // 2, n - 1))
		with ctx.step('many', n): a = tuple(ps.first(*v))
		if a != (want, n): ctx.violation('many', '%d parameters gave %r instead of %r' % (n, a, (want, n)), n)
		ctx.case(('many', n)); ctx.count('many')
	for size in (1 << 16, (1 << 24) + 3):
		s = 'é"\'\\x'[:5] * (size // 5)
		for t, v in (('text', s), ('bytea', s.encode('utf8'))):
			a = db.prepare('SELECT length($1::%s), md5($1::%s), $1::%s' % (t, t, t)).first(v)
			import hashlib
			b = v if t == 'bytea' else v.encode('utf8')
			if tuple(a[:2]) != (len(v), hashlib.md5(b).hexdigest()) or a[2] != v: ctx.violation('large', 'a %s of %d was received with length %d' % (t, len(v), a[0]), size)
			ctx.case(('large', t, size)); ctx.count('large')

ENC = {'UTF8': 'utf-8', 'LATIN1': 'latin-1', 'LATIN9': 'iso8859-15', 'WIN1252': 'cp1252', 'WIN1251': 'cp1251', 'KOI8R': 'koi8-r', 'EUC_JP': 'euc_jp', 'SJIS': 'shift_jis', 'BIG5': 'big5', 'GBK': 'gbk', 'EUC_KR': 'euc_kr', 'LATIN2': 'iso8859-2', 'ISO_8859_7': 'iso8859-7', 'WIN1250': 'cp1250', 'UHC': 'cp949', 'GB18030': 'gb18030', 'WIN866': 'cp866', 'WIN874': 'cp874'}
POOL = 'abcXYZ 019 éèäöüß ÿ€ Жжя ωΩ 日本語テスト 한국어 中文测试 繁體 ไทย ł Ő ő ¤'
def encodings(ctx, r):
	"""under other client encodings: the same text or a refusal, in both directions"""
	import postgresql.exceptions as x
	for enc, py in ENC.items():
		db = ctx.connect(settings={'client_encoding': enc}) if r.random() < .5 else ctx.connect()
		if db.settings['client_encoding'].upper().replace('_', '').replace('-', '') not in (enc.replace('_', ''),): db.settings['client_encoding'] = enc
		ps = db.prepare("SELECT encode(convert_to($1::text, 'UTF8'), 'hex'), $1::text")
		back = db.prepare("SELECT convert_from(decode($1::text, 'hex'), 'UTF8')")
		for _ in range(ctx.scale(25, 300)):
			s = ''.join(r.choice(POOL) for _ in range(r.randint(1, 6)))
			case = dict(encoding=enc, text=s)
			try: s.encode(py); can = True
			except UnicodeError: can = False
			try:
				h, t = ps.first(s)
				if bytes.fromhex(h).decode('utf8') != s: ctx.violation('encoding:' + enc, '%r was received as %r' % (s, bytes.fromhex(h).decode('utf8')), case)
				if t != s: ctx.violation('encoding-back:' + enc, '%r came back as %r' % (s, t), case)
				ctx.count('encoded')
			except x.Error:
				if can and s.isascii(): ctx.violation('encoding-refused:' + enc, '%r was refused' % s, case)
				ctx.count('encoding-refused')
			try:
				t = back.first(s.encode('utf8').hex())
				if t != s: ctx.violation('encoding-delivered:' + enc, '%r was delivered as %r' % (s, t), case)
			except (x.Error, UnicodeError): pass
			ctx.case(('enc', enc, s))
		# a change in mid-session is followed
		db.execute("SET client_encoding TO 'UTF8'")
		s = 'é漢😀'
		if ps.first(s)[1] != s: ctx.violation('encoding-switch', 'after SET client_encoding %r came back as %r' % (s, ps.first(s)[1]), enc)
		db.close()

# Characters of which the tables of Python and of the server are known to differ (known findings): received, delivered.
TABLES = {
	'EUC_JP': ('\u00a2\u00a3\u00a5\u00a6\u00ac\u2016\u203e\u2212\u301c', '\u2225\uff0d\uff5e\uffe0\uffe1\uffe2\uffe4'),
	'EUC_JIS_2004': ('\u2015\u2985\u2986\uffe3\uffe5', '\u00a5\u2014\u203e\uff5f\uff60'),
	'SJIS': ('\u00a2\u00a3\u00ac\u2016\u2212\u301c', '\u00a2\u00a3\u00a5\u00ac\u2016\u203e\u2212\u301c'),
	'BIG5': ('\u02cd\u2574\uffe3', '\ufffd'),
	'SHIFT_JIS_2004': ('\u00a5\u2015\u203e\u2985\u2986', '\\~\u2014\uff5f\uff60'),
}
def alphabet(ctx, r):
	"""every character of every client encoding of the server: the same or refused, in both directions"""
	import postgresql.exceptions as x
	main = ctx.connect()
	encs = [e for (e,) in main.prepare("SELECT pg_encoding_to_char(i) FROM generate_series(0, 60) AS i WHERE pg_encoding_to_char(i) <> ''")()]
	main.execute("CREATE FUNCTION pg_temp.knows(c text, e name) RETURNS boolean LANGUAGE plpgsql AS $$ BEGIN RETURN convert_to(c, e) IS NOT NULL; EXCEPTION WHEN OTHERS THEN RETURN false; END $$")
	knows = main.prepare('SELECT pg_temp.knows(c, $2::text::name) FROM unnest($1::text[]) WITH ORDINALITY AS u(c, o) ORDER BY o')
	# what the bytes of an encoding mean to the server, single ones (all of them) and pairs (a sample)
	main.execute("CREATE FUNCTION pg_temp.means(h text, e name) RETURNS text LANGUAGE plpgsql AS $$ BEGIN RETURN convert_from(decode(h, 'hex'), e); EXCEPTION WHEN OTHERS THEN RETURN NULL; END $$")
	means = main.prepare('SELECT pg_temp.means(h, $2::text::name) FROM unnest($1::text[]) WITH ORDINALITY AS u(h, o) ORDER BY o')
	plane = [i for i in range(1, 0x10000) if not 0xd800 <= i < 0xe000]
	if ctx.tier == 'thorough': chars = [chr(i) for i in plane + list(range(0x20000, 0x20800))]
	else:
		some = [i for i in plane if i < 0x180 or 0x2010 <= i < 0x2050] + r.sample(plane, 1500) + r.sample(range(0x3000, 0x3100), 40) + r.sample(range(0xff00, 0xfff0), 40) + r.sample(range(0xac00, 0xd7a4), 60) + r.sample(range(0x370, 0x500), 60)
		chars = sorted({chr(i) for i in some} | set(''.join(a + b for a, b in TABLES.values())))
	def note(e, way, c, got):
		k = e in TABLES and c in TABLES[e][way == 'delivered']
		ctx.violation(('codec-table:%s:%s' if k else 'alphabet-%s:%s') % ((e, way) if k else (way, e)), 'with client_encoding %s, %a was %s as %a' % (e, c, way, got), dict(encoding=e, character='U+%04X' % ord(c), way=way))
	for e in encs:
		db = ctx.connect()
		try: db.settings['client_encoding'] = e
		except x.Error: # those of the server without conversions
			db.close(); ctx.count('alphabet-unsettable'); continue
		except LookupError: # Those without a codec; ASCII is still to work.
			ctx.count('alphabet-codecless')
		if db.settings['client_encoding'].upper() != e: ctx.violation('alphabet-setting', 'client_encoding is %r after it was set to %r' % (db.settings['client_encoding'], e), e)
		recv = db.prepare("SELECT encode(convert_to(c, 'UTF8'), 'hex') FROM unnest($1::text[]) WITH ORDINALITY AS u(c, o) ORDER BY o")
		send = db.prepare("SELECT convert_from(decode(h, 'hex'), 'UTF8') FROM unnest($1::text[]) WITH ORDINALITY AS u(h, o) ORDER BY o")
		def batch(way, cs):
			todo = [cs]
			while todo:
				p = todo.pop()
				if not p: continue
				try:
					if way == 'received': got = [bytes.fromhex(h).decode('utf-8') for (h,) in recv(p)]
					else: got = [t for (t,) in send([c.encode('utf-8').hex() for c in p])]
				except (x.Error, UnicodeError) as err:
					if len(p) > 1: todo += [p[:len(p) // 2], p[len(p) // 2:]]
					else:
						if p[0].isascii(): ctx.violation('alphabet-ascii:' + e, 'with client_encoding %s, %a was not %s: %s' % (e, p[0], way, str(err)[:300]), e)
						ctx.count('alphabet-refused')
					continue
				for c, g in zip(p, got):
					if g != c: note(e, way, c, g)
				ctx.count('alphabet-' + way, len(p))
		with ctx.step('alphabet', e):
			pairs = ['%02x%02x' % (a, b) for a in range(0x81, 0xff) for b in range(0x40, 0xff)]
			own = {c for (c,) in means(['%02x' % b for b in range(0x80, 0x100)] + (pairs if ctx.tier == 'thorough' else r.sample(pairs, 600)), e) if c is not None and len(c) == 1 and c != '\0'} if e not in ('UTF8', 'MULE_INTERNAL', 'SQL_ASCII') else set()
			if own: ctx.count('alphabet-own', len(own))
			these = sorted(own.union(chars))
			k = [a for (a,) in knows(these, e)]
			yes = [c for c, a in zip(these, k) if a]; no = [c for c, a in zip(these, k) if not a]
			if len(no) > 200 and ctx.tier != 'thorough': no = r.sample(no, 200) + [c for c in TABLES.get(e, ('',))[0] if c in no]
			for i in range(0, len(yes), 64):
				for way in ('received', 'delivered'): batch(way, yes[i:i + 64])
			for c in no: batch('received', [c])
		ctx.case(('alphabet', e)); ctx.count('alphabets')
		db.close()
	main.close()

def main(ctx):
	ctx.rule = 'one case per (type, value) received, per refused value, per wrong arity, per (encoding, text)'
	T = values.types(); names = list(T)
	ctx.require('nulls', 'refused', 'arity', 'many', 'large', 'encoded', 'encoding-refused', 'alphabets', 'alphabet-received', 'alphabet-delivered', 'alphabet-refused', 'alphabet-own', *['type:' + T[n].sql for n in names], *['how:' + h for h in METHODS])
	r = ctx.rng('main')
	def fresh():
		db = ctx.connect(); db.execute('CREATE TEMP SEQUENCE vf11s'); return db
	db = fresh()
	many(ctx, db)
	encodings(ctx, r)
	alphabet(ctx, ctx.rng('alphabet'))
	i = 0
	while i < ctx.scale(300, 30000) and ctx.elapsed() < ctx.scale(45, 1500):
		i += 1
		positions(ctx, r, db, T, names, i)
		for _ in range(2): refusals(ctx, r, db, T, names)
		arity(ctx, r, db, T, names)
		if i % 3 == 0: roundtrip(ctx, r, db, T, names)
		if i % 5 == 0: inserted(ctx, r, db, T, names, i)
		if i % 60 == 0: db.close(); db = fresh()
	ctx.count('iterations', i)
	db.close()
