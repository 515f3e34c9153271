"""C28: SQL quoting and splitting are lossless and injection-proof."""
import re

ALPHA = ["'", '"', '\\', '$', ';', '.', ',', ' ', '\n', '\t', '-', '*', '/', '%', '(', ')', ':', '@', '&', 'a', 'B', 'e', 'E', '_', '1', 'é', '日', '😀', '\u2028', "''", '""', '\\\'', '$$', '$a$', "';", '";', '--', '/*', '*/', "E'", "U&'", '{', '}', 'ª', '²', 'İ', 'ß', '\u0301', '€', '٣']
WORDS = ['select', 'user', 'TABLE', 'Order', 'public', 'name', 'Foo', 'foo', 'a1', '_x', 'x_', '1a', 'x$y', 'a b', '', 'current_user', 'null', 'true', 'é', 'É', 'straße', 'int', 'key', 'year', 'session_user', 'zone', 'group', 'Äb', 'values', 'row', '½', '²x', '٣a', 'a٣', 'ª', 'İx', 'interval', 'xmlparse', 'schema', 'do', 'end', 'left', 'coalesce', 'char', 'bit']

def hostile(r, n=None):
	return ''.join(r.choice(ALPHA) if r.random() < .9 else r.choice(WORDS) for i in range(r.choice((0, 1, 2, 3, 5, 9, 20)) if n is None else n))

def name(r):
	while True:
		s = r.choice(WORDS) if r.random() < .4 else hostile(r, r.choice((1, 2, 3, 6)))
		if s and len(s.encode('utf-8')) <= 63: return s

# -- an independent scanner following the server's lexical rules (no comments)
def letter(c): return c.isascii() and (c.isalpha() or c == '_') or ord(c) > 127
def scan(s):
	"""Yield (quoted, start, end, closed)."""
	i, n, plain = 0, len(s), 0
	while i < n:
		c = s[i]
		q = None
		if c in 'eE' and s[i + 1:i + 2] == "'":
			j = i + 2
			closed = False
			while j < n:
				if s[j] == '\\': j += 2
				elif s[j] == "'":
					if s[j + 1:j + 2] == "'": j += 2
					else: j += 1; closed = True; break
				else: j += 1
			q = min(j, n)
		elif c in '\'"':
			j = i + 1; closed = False
			while j < n:
				if s[j] == c:
					if s[j + 1:j + 2] == c: j += 2
					else: j += 1; closed = True; break
				else: j += 1
			q = j
		elif letter(c):
			i += 1
			while i < n and (letter(s[i]) or s[i] in '$0123456789'): i += 1
			continue
		elif c == '$':
			j = i + 1
			if j < n and letter(s[j]):
				while j < n and (letter(s[j]) or s[j].isascii() and s[j].isdigit()): j += 1
			if j < n and s[j] == '$':
				tag = s[i:j + 1]
				k = s.find(tag, j + 1)
				closed = k >= 0
				q = k + len(tag) if closed else n
			else:
				i += 1; continue
		if q is None: i += 1; continue
		yield (False, plain, i, True)
		yield (True, i, q, closed)
		if not closed: return
		i = plain = q
	yield (False, plain, n, True)

# -- statements whose values are known by construction
def literal(r):
	"""(sql, value)"""
	k = r.randrange(9)
	v = hostile(r)
	if k <= 1: return "'" + v.replace("'", "''") + "'", v
	if k in (2, 3):
		p = r.choice(('E', 'e'))
		out = ''
		for c in v:
			if c == '\\': out += '\\\\'
			elif c == "'": out += r.choice(("\\'", "''"))
			elif c == '\n' and r.random() < .5: out += '\\n'
			elif c == ';' and r.random() < .2: out += '\\;'
			else: out += c
		return p + "'" + out + "'", v
	if k in (4, 5, 6):
		for t in (r.choice(('', 'a', 'A1', '_', 'é', 'body', '€', 'x日')), 'q9', 'zz_9', 'zz_99'):
			tag = '$' + t + '$'
			if (v + tag).find(tag) == len(v): return tag + v + tag, v
	if k == 7:
		v = v.replace('\\', '')
		return r.choice(('U&', 'u&')) + "'" + v.replace("'", "''") + "\\003b'", v + ';'
	return r.choice(('TEXT', 'VarcharE ' if False else 'text', 'TEXT ', 'NAME' if len(v.encode()) < 64 else 'TEXT')) + "'" + v.replace("'", "''") + "'", v

def statement(r, k):
	"""(sql, [names], [values])"""
	cols, names, vals = [], [], []
	for i in range(r.choice((1, 1, 2, 4))):
		l, v = literal(r)
		w = r.random()
		if w < .55:
			n = name(r); q = '"' + n.replace('"', '""') + '"'
		elif w < .75:
			n = r.choice(('x$y', 'a$b$c', 'e$$', 'z$a$', '_1$')); q = n
		else: n = 'col%d' % i; q = n
		cols.append('%s::text%sAS %s' % (l, r.choice((' ', '\n', '\t')), q) if not l[-1:].isalnum() else l); names.append(n); vals.append(v)
	return r.choice(('SELECT ', 'select\n', ' SELECT  ', '\nSELECT ')) + r.choice((', ', ',\n', ',')).join(cols) + r.choice(('', ' ', '\n')), names, vals

def main(ctx):
	ctx.rule = 'a distinct text'
	import postgresql.string as S
	db = ctx.connect()
	# -- quoting, with the server as the judge
	r = ctx.rng('quote')
	one = db.prepare("SELECT $1::text")
	fixed = WORDS + ['\\', "'", "''", "\\'", '"', "';DROP TABLE x;--", '$$', "E'", '\\\\', 'x\\', '\x01', '\x7f', '%s', '{}', "a'b\"c\\d$e$"] + [k for k, in db.prepare('select word from pg_get_keywords()').rows()]
	def texts(n):
		for s in fixed: yield s
		for i in range(n): yield hostile(r)
	parse_ident = db.prepare('SELECT parse_ident($1::text)')
	for s in texts(ctx.scale(1500, 20000)):
		for label, sql in (('quote_literal', S.quote_literal(s)), ('escape_literal', "'" + S.escape_literal(s) + "'")):
			try:
				st = db.query("SELECT %s, 77" % sql)
				if [tuple(x) for x in st] != [(s, 77)]: ctx.violation('literal:' + label, '%r gave %r' % (s, st), repr(s))
			except Exception as e: ctx.violation('literal:' + label, '%r: %s' % (s, e), repr(s))
			ctx.case(('lit', s)); ctx.count('literals')
		if not s or len(s.encode('utf-8')) > 63: continue
		for label, sql in (('quote_ident', S.quote_ident(s)), ('escape_ident', '"' + S.escape_ident(s) + '"'), ('quote_ident_if_needed', S.quote_ident_if_needed(s)), ('qname', S.qname(s)), ('qname_if_needed', S.qname_if_needed(s))):
			try:
				# as a label, and where only an identifier is accepted
				st = db.prepare('SELECT x.%s FROM (SELECT 1) AS x(%s)' % (sql, sql))
				if list(st.column_names) != [s]: ctx.violation('ident:' + label, '%r is %r to the server' % (s, st.column_names), repr(s))
				if 'if_needed' in label:
					# where expressions are accepted, it is still only an identifier
					try: v = db.prepare('SELECT %s FROM (SELECT 5 AS "%s") AS x' % (sql, s.replace('"', '""')))
					except Exception as e: ctx.violation('ident:' + label, '%r as an expression: %s' % (s, e), repr(s)); continue
					if [tuple(x) for x in v] != [(5,)]: ctx.violation('ident:' + label, '%r as an expression is not the column' % s, repr(s))
			except Exception as e: ctx.violation('ident:' + label, '%r: %s' % (s, e), repr(s)); db.connector and None
			ctx.case(('id', s)); ctx.count('identifiers')
	# -- qualified names
	r = ctx.rng('qname')
	for i in range(ctx.scale(2500, 30000)):
		parts = [name(r) for k in range(r.choice((1, 2, 2, 3, 5)))]
		for label, join in (('qname', S.qname), ('qname_if_needed', S.qname_if_needed)):
			t = join(*parts)
			try: got = S.split_qname(t)
			except Exception as e: ctx.violation('split-qname', '%r: %s: %s' % (t, type(e).__name__, e), repr(parts)); continue
			ctx.case(('qname', t)); ctx.count('qnames')
			if got != parts: ctx.violation('split-qname', '%r split to %r' % (t, got), repr(parts))
			if i % 4 == 0 and not any(x in ('',) for x in parts):
				try: sv = parse_ident.first(t)
				except Exception as e:
					# parse_ident() has its own idea of unquoted names
					if label == 'qname': ctx.violation('split-qname', 'the server refuses %r: %s' % (t, e), repr(parts))
				else:
					if [str(x) for x in sv] != parts: ctx.violation('split-qname', 'the server reads %r as %r' % (t, sv), repr(parts))
		# with white space and other separators
		sep = r.choice((',', '.', ';', '|', '::', ' , ' if False else ','))
		ws = lambda: r.choice(('', '', ' ', '\t', '  ', '\n'))
		t = sep.join(ws() + ('"' + x.replace('"', '""') + '"') + ws() for x in parts)
		try: got = S.split_ident(t, sep=sep)
		except Exception as e: ctx.violation('split-ident', '%r: %s: %s' % (t, type(e).__name__, e), repr((parts, sep)))
		else:
			ctx.count('ident-lists')
			if got != parts: ctx.violation('split-ident', '%r by %r split to %r' % (t, sep, got), repr(parts))
		pieces = ['"' + x.replace('"', '""') + '"' if r.random() < .5 else re.sub(r'["%s]' % re.escape(sep), '', x) for x in parts]
		t = sep.join(pieces)
		if S.split_using(t, '"', sep=sep) != pieces: ctx.violation('split-using', '%r by %r: %r' % (t, sep, S.split_using(t, '"', sep=sep)), repr(pieces))
		m = r.choice((0, 1, 2, 3))
		w = pieces[:m] + [sep.join(pieces[m:])] if len(pieces) > m else pieces
		if S.split_using(t, '"', sep=sep, maxsplit=m) != w: ctx.violation('split-using', '%r by %r at most %d: %r' % (t, sep, m, S.split_using(t, '"', sep=sep, maxsplit=m)), repr(pieces))
		ctx.count('split-using')
		# a list of qualified names, of which some parts hold what separates
		ql = [[name(r) if r.random() < .5 else r.choice(('a,b', ',', 'a.b', '.', 'x', '"', '",', '","', 'y z')) for _ in range(r.choice((1, 2, 2, 3)))] for _ in range(r.randint(1, 4))]
		qn = [r.choice((S.qname, S.qname_if_needed))(*q) for q in ql]; t = ','.join(qn)
		try: got = S.split_using(t, '"', sep=',')
		except Exception as e: ctx.violation('split-using', '%r: %s: %s' % (t, type(e).__name__, e), repr(ql))
		else:
			if got != qn: ctx.violation('split-using', '%r split to %r' % (t, got), repr(qn))
			elif [S.split_qname(x) for x in got] != ql: ctx.violation('split-qname', '%r gives %r' % (t, [S.split_qname(x) for x in got]), repr(ql))
			ctx.count('qname-lists')
		# malformed lists are refused
		bad = r.choice(('"a"b', '"a" "b"', '"', '"a', 'a"b"', '"a"""b"', 'a b', '1a', '', '"""', 'a-b', '"x"y"', "a'b"))
		for t in (bad, 'ok,' + bad, bad + ',ok', '"q",' + bad):
			try: g = S.split_ident(t)
			except ValueError: ctx.count('malformed-refused')
			except Exception as e: ctx.violation('malformed', '%r: %s: %s' % (t, type(e).__name__, e), t)
			else:
				if not (bad in ('"', '"a', '"""', '"a"""b"', '"x"y"', 'a"b"') and t.endswith('ok') and False): ctx.violation('malformed', '%r split to %r' % (t, g), t)
	# the driver's own use: search paths, notification channels, and cursors named by hostile names are in the checks of those
	# -- splitting arbitrary text
	r = ctx.rng('split')
	SC = ALPHA + [' select ', 'DATE', 'x', ' ', ' ', '$1', '$b', '$9$', 'name$', 'U&"', 'TYPE', '\r\n', '\n$$\n', "e'"]
	for i in range(ctx.scale(30000, 400000)):
		s = ''.join(r.choice(SC) for k in range(r.choice((1, 2, 4, 8, 16, 40))))
		try:
			parts = list(S.split(s))
			if S.unsplit(parts) != s: ctx.violation('unsplit', '%r -> %r -> %r' % (s, parts, S.unsplit(parts)), repr(s))
			strs = list(S.split_sql_str(s))
			if ';'.join(strs) != s: ctx.violation('split-sql-joined', '%r -> %r' % (s, strs), repr(s))
		except Exception as e: ctx.violation('split-raised', '%r: %s: %s' % (s, type(e).__name__, e), repr(s)); continue
		ctx.case(('split', s), sample='%r -> %r' % (s, parts) if i % 4000 == 9 else None); ctx.count('splits')
		for k, p in enumerate(parts):
			if (k % 2 == 0) != isinstance(p, str): ctx.violation('split-shape', '%r -> %r' % (s, parts), repr(s)); break
		if re.search(r'[0-9$][eE]\'|[0-9][A-Za-z_\x80-\U0010ffff]', s): continue
		toks = list(scan(s))
		ctx.count('scanned'); ctx.count('quoted-parts', sum(1 for t in toks if t[0]))
		if toks and not toks[-1][3]: ctx.count('unterminated')
		want = [s[a:b] for q, a, b, c in toks]
		got = []
		for k, p in enumerate(parts):
			if isinstance(p, str): got.append(p)
			else:
				open = p[0]; close = "'" if open in ("E'", "e'") else open
				got.append(open + p[1] + ('' if k == len(parts) - 1 else close))
		if got != want: ctx.violation('split-differs', '%r split to %r, the server would see %r' % (s, got, want), repr(s))
		stm, cur = [], ''
		for q, a, b, c in toks:
			if q: cur += s[a:b]
			else:
				x = s[a:b].split(';')
				cur += x[0]
				for y in x[1:]: stm.append(cur); cur = y
		stm.append(cur)
		if strs != stm: ctx.violation('statements-differ', '%r split to %r, the server would see %r' % (s, strs, stm), repr(s))
	# -- splitting statements that the server then executes
	r = ctx.rng('statements')
	for i in range(ctx.scale(700, 8000)):
		sts = [statement(r, k) for k in range(r.choice((1, 2, 3, 6)))]
		text = ';'.join(x[0] for x in sts)
		got = list(S.split_sql_str(text))
		ctx.case(('stmts', text)); ctx.count('texts')
		if got != [x[0] for x in sts]: ctx.violation('statements', '%r split to %r' % (text, got), repr(text)); continue
		for (sql, names, vals), g in zip(sts, got):
			try:
				p = db.prepare(g)
				row = p.first()
				row = [row] if len(vals) == 1 else list(row)
			except Exception as e:
				ctx.violation('statement-refused', '%r: %s' % (g, e), repr(text)); continue
			ctx.count('executed')
			if list(p.column_names) != names or row != vals: ctx.violation('statement-values', '%r gave %r %r, expected %r %r' % (g, p.column_names, row, names, vals), repr(text))
		if i % 3 == 0:
			try: db.execute(text)
			except Exception as e: ctx.violation('statement-refused', 'the whole %r: %s' % (text, e), repr(text))
	db.close()
	ctx.require('literals', 'identifiers', 'qnames', 'ident-lists', 'split-using', 'qname-lists', 'malformed-refused', 'splits', 'scanned', 'quoted-parts', 'unterminated', 'texts', 'executed')
