"""C33: interface libraries bind every symbol to exactly its text."""
import itertools, os, sys, types

def main(ctx):
	ctx.rule = 'generated library files compared with the symbols they were generated from; bound symbols tagged with unique values and executed by every method and type; the system library compared with queries of the catalogs, with masking temporary tables'
	import postgresql.lib as L
	import postgresql.sys as S
	import postgresql.exceptions as X
	r = ctx.rng('c33'); V = ctx.violation
	d = os.path.join(ctx.scratch, 'libs'); os.makedirs(d, exist_ok=True)
	def outcome(f):
		try: return ('v', f())
		except Exception as e: return ('e', e)

	# --- reading
	TYPES = ['', 'static', 'preload', 'const', 'proc', 'transient', None]
	METHODS = ['', 'all', 'first', 'rows', 'chunks', 'declare', 'load_chunks', 'load_rows', 'column', None]
	LINES = ['SELECT 1', ' SELECT (ARRAY[1,2])[1]', 'x[1]', '[1] + 2', ' [a] b', '[a', 'a]', ' *[gone]', '- *[gone]', '--x', ' -- y', '', '   ', '\t', "'it''s'", 'é ☃', ':', '::', 'a:b:c', '&x', '&[x', '$1', '%s', '"', ';', '*', '*x[y]', 'a *[s0] b', '#', '=', 'x' * 300, "'[", "]'", '\\', 'WHERE a[1] = $1[2]', '//', '/* [a] */']
	COMMENT = ['-- ', '-- doc', '-- [x]', '-- *[s0]', '-- -- x', '-- é']
	def library(nsym):
		text = []; want = {}; order = []; preload = set()
		pre = [r.choice(LINES + COMMENT) for _ in range(r.choice((0, 0, 1, 3)))]
		text += pre
		for i in range(nsym):
			name = r.choice(('s%d', 'a_%d', 'A%d', 'x y%d', 'é%d', '%d', 'find%d', 'n-%d', 's.%d')) % i
			if order and r.random() < .06: name = r.choice(order)
			ref = r.random() < .2
			t, m = r.choice(TYPES), r.choice(METHODS)
			if t is None: m = None
			head = ('&' if ref else '') + name
			if t is not None: head += ':' + t
			if m is not None: head += ':' + m
			if t is not None and m is not None and r.random() < .1: head += ':extra'
			text.append(r.choice(('', '', '', ' ', '\t')) + '[' + head + ']' + r.choice(('', '', ' ')))
			text += [r.choice(COMMENT) for _ in range(r.choice((0, 0, 0, 1, 2)))]
			body = [r.choice(LINES) for _ in range(r.choice((0, 1, 1, 2, 4, 9)))]
			full = ''; plain = True
			for j, l in enumerate(body):
				if order and r.random() < .15 and not (k := r.choice(order), want[k]['source'].startswith('-- '))[1]:
					rest = r.choice(('', ' WHERE FALSE', ' ORDER BY a[1]', ']', ' [x]', ' *[s0]'))
					text.append('*[' + k + ']' + rest); full += want[k]['source'] + rest + '\n'
				else:
					if r.random() < .1: l = r.choice(COMMENT) if full else l  # comments within the text belong to it
					text.append(l); full += l + '\n'
			if t == 'proc': full = full.strip()
			want[name] = dict(source=full, type=None if t == 'preload' else (t or None), method=None if m == 'all' else (m or None), reference=ref)
			if name not in order: order.append(name)
			if t == 'preload': preload.add(name)
			else: preload.discard(name)
		return '\n'.join(text) + '\n', want, order, preload, '\n'.join(pre)
	# a comment directly after a *[reference] whose text is empty is still the block's start
	def same(a, b): return a == b or a.strip() == b.strip()
	def compare(lib, lab, text, want, order, preload, pre, dup):
		case = dict(how=lab, text=text[:1500])
		names = list(lib.symbols())
		if sorted(names) != sorted(order): V('symbols', 'declares %r, read as %r' % (order, names), case); return
		for n in order:
			s = lib.get_symbol(n); w = want[n]
			if s is None: V('symbols', '%r is missing' % n, case); continue
			if not same(str(s), w['source']): V('source', '%s is %r, expected %r' % (n, str(s), w['source']), case)
			if (s.type or None) != w['type']: V('type', '%s has type %r, expected %r' % (n, s.type, w['type']), case)
			if s.method != w['method']: V('method', '%s has method %r, expected %r' % (n, s.method, w['method']), case)
			if bool(s.reference) != w['reference'] or s.name != n or s.library is not lib: V('reference', '%s: reference %r, name %r' % (n, s.reference, s.name), case)
		if not dup and set(lib.preload) != preload: V('preload', '%r, expected %r' % (lib.preload, preload), case)
		if not same(lib.preface, pre): V('preface', '%r, expected %r' % (lib.preface, pre), case)
		for n in ('nosuch', '', '&' + (order[0] if order else 'x'), '[x]'):
			if n not in order and lib.get_symbol(n) is not None: V('missing', 'get_symbol(%r) gave %r' % (n, lib.get_symbol(n)), case)
	saved = list(S.libpath); sub = [os.path.join(d, 'p%d' % i) for i in range(3)]
	for p in sub: os.makedirs(p, exist_ok=True)
	try:
		S.libpath[:] = sub + saved
		for i in range(ctx.scale(4000, 40000)):
			if ctx.elapsed() > ctx.scale(12, 200): break
			text, want, order, preload, pre = library(r.choice((0, 1, 2, 4, 8, 16)))
			dup = sum(l.strip().startswith('[') and l.strip().endswith(']') for l in text.split('\n')) != len(order)
			how = r.randrange(4)
			def load():
				if how == 0: return L.ILF.from_lines(text.splitlines(True) if '\x0b' not in text else text.split('\n'))
				nm = 'g%d' % (i % 7)
				p = os.path.join(sub[r.randrange(3)], 'lib%s.sql' % nm)
				for q in sub:
					if q not in p and os.path.exists(os.path.join(q, 'lib%s.sql' % nm)): os.unlink(os.path.join(q, 'lib%s.sql' % nm))
				with open(p, 'w', encoding='utf-8') as f: f.write(text)
				if how == 1: lib = L.ILF.open(p, encoding='utf-8')
				elif how == 2: lib = L.load(p)
				else:
					# the first directory wins
					for q in sub[sub.index(os.path.dirname(p)) + 1:]:
						with open(os.path.join(q, 'lib%s.sql' % nm), 'w') as f: f.write('[other]\nselect 1\n')
					lib = L.load(nm)
				if lib.address != p or lib.name != nm: V('address', '%r %r for %r' % (lib.address, lib.name, p), None)
				return lib
			g = outcome(load)
			if g[0] == 'e': V('load', '%s: %s' % (type(g[1]).__name__, str(g[1])[:200]), dict(text=text[:1500]))
			else: compare(g[1], how, text, want, order, preload, pre, dup)
			ctx.count('libraries'); ctx.case(text, bool(order), text[:120])
		# what is refused
		for text in ('[a:nosuch]\nselect 1\n', '[a::nosuch]\nselect 1\n', '[a:proc:nosuch]\nx()\n', '[a]\n*[b]\n', '[a]\n*[a]\n', '[a]\n*[b]\n[b]\nselect 1\n', '[a::First]\nselect 1\n', '[a:CONST]\nselect 1\n'):
			g = outcome(lambda: L.ILF.from_lines(text.splitlines(True)))
			if g[0] == 'v': V('refuse', '%r was read as %r' % (text, {n: (str(g[1].get_symbol(n)), g[1].get_symbol(n).type, g[1].get_symbol(n).method) for n in g[1].symbols()}), None)
			p = os.path.join(sub[0], 'libbad.sql')
			with open(p, 'w') as f: f.write(text)
			for a in (p, 'bad'):
				g = outcome(lambda: L.load(a))
				if g[0] == 'v' or not isinstance(g[1], X.LoadError): V('refuse-load', '%r gave %r' % (text, g), None)
			ctx.case('r' + text)
		for a in ('nosuchlib', os.path.join(d, 'libnone.sql'), d):
			g = outcome(lambda: L.load(a))
			if g[0] == 'v' or not isinstance(g[1], X.LoadError): V('refuse-load', '%r gave %r' % (a, g), None)
	finally: S.libpath[:] = saved

	# --- binding
	db = ctx.connect(); obs = ctx.connect(); q = ctx.psql
	for c in (db, obs): c.settings['client_min_messages'] = 'warning'
	db.execute('drop sequence if exists lq; drop table if exists lt, lu; drop function if exists lf(int, text), ls(int); drop schema if exists h1 cascade')
	db.execute('create sequence lq; create table lt(t text); create table lu(a int, b text); create function lf(i int, t text) returns text language sql as $$select t || i$$; create function ls(i int) returns setof int language sql as $$select generate_series(1, i)$$')
	def prepared(c): return [x[0] for x in c.prepare('select statement from pg_prepared_statements').rows()]
	tag = itertools.count(1)
	for lno in range(ctx.scale(400, 6000)):
		if ctx.elapsed() > ctx.scale(32, 480): break
		text = []; exp = {}
		for i in range(r.randint(1, 14)):
			n = 's%d' % i; T = next(tag); k = r.choice(('all', 'first', 'first2', 'rows', 'chunks', 'column', 'declare', 'load_rows', 'load_chunks', 'const', 'constfirst', 'constnull', 'constrows', 'proc', 'procset', 'ref', 'refconst', 'reftrans', 'dml', 'none', 'array'))
			t = r.choice(('', '', 'preload', 'transient', 'static')); h = '[%s%s:%s:%s]'
			if k in ('all', 'rows', 'chunks', 'column', 'declare'): text.append(h % ('', n, t, '' if k == 'all' else k)); text.append("-- doc %d\nSELECT g.i, 'T%d'::text FROM generate_series(1, $1::int) AS g(i)" % (T, T))
			elif k == 'first': text.append(h % ('', n, t, k)); text.append("SELECT 'T%d' || $1::text" % T)
			elif k == 'first2': text.append(h % ('', n, t, 'first')); text.append("SELECT 'T%d'::text,\n $1::text" % T)
			elif k == 'none': text.append(h % ('', n, t, 'first')); text.append("SELECT 'T%d'::text WHERE false" % T)
			elif k == 'array': text.append(h % ('', n, t, 'first')); text.append("SELECT (ARRAY['x', 'T%d' || $1::text])\n [1] || (ARRAY['x', 'T%d'\n])[2]" % (T, T))
			elif k in ('load_rows', 'load_chunks'): text.append(h % ('', n, t, k)); text.append("INSERT INTO lu VALUES ($1, 'T%d' || $2)" % T)
			elif k == 'dml': text.append(h % ('', n, t, 'first')); text.append("INSERT INTO lt SELECT 'T%d' FROM generate_series(1, $1::int)" % T)
			elif k == 'const': text.append('[%s:const]' % n); text.append("SELECT nextval('lq'), 'T%d'::text" % T)
			elif k == 'constfirst': text.append('[%s:const:first]' % n); text.append("SELECT nextval('lq') || 'T%d'::text" % T)
			elif k == 'constnull': text.append('[%s:const:first]' % n); text.append("SELECT CASE WHEN nextval('lq') < 0 THEN 'T%d' END" % T)
			elif k == 'constrows': text.append('[%s:const:%s]' % (n, r.choice(('rows', 'column')))); text.append("SELECT nextval('lq') FROM generate_series(1, 3) -- T%d" % T)
			elif k == 'proc': text.append('[%s:proc]' % n); text.append(r.choice((' lf(int, text) ', 'public.lf(int,text)', '-- doc\nlf(integer,text)\n')))
			elif k == 'procset': text.append('[%s:proc]' % n); text.append('ls(int4)')
			else:
				text.append('[&%s:%s:first]' % (n, {'ref': t, 'refconst': 'const', 'reftrans': 'transient'}[k]))
				text.append("SELECT 'SELECT', '''T%d'' ||' UNION ALL SELECT $1::text || '::text', '' " % T if k != 'refconst' else "SELECT 'SELECT', '''T%d'' ||', nextval('lq')::text, '::text'" % T)
			exp[n] = (k, t, T)
			if r.random() < .3: text.append('')
		full = '\n'.join(text) + '\n'
		lib = L.ILF.from_lines(full.splitlines(True)); case = dict(text=full)
		a, b = r.choice(((db, obs), (db, None), (obs, None)))
		before = prepared(a)
		g = outcome(lambda: L.Binding(a, lib))
		if g[0] == 'e': V('bind', repr(g[1]), case); continue
		B = g[1]; now = '\n'.join(x for x in prepared(a))
		for n, (k, t, T) in exp.items():
			if t == 'preload' and k not in ('const', 'constfirst', 'constnull', 'constrows', 'proc', 'procset', 'ref', 'refconst', 'reftrans') and ("T%d'" % T) not in now:
				V('preload', '%s is not prepared when the library is bound' % n, case)
		Bs = [(B, a)] + ([(L.Binding(b, lib), b)] if b else [])
		order = list(exp) * 2; r.shuffle(order)
		consts = {}; s = None
		for n in order:
			k, t, T = exp[n]; B, c = r.choice(Bs); tg = 'T%d' % T; N = r.choice((0, 1, 3, 40)); w = 'w%d' % r.randrange(99)
			case = dict(text=full, symbol=n, kind=k)
			def bad(what, g): V(what, '%s (%s): %r' % (n, k, g), case)
			try: s = getattr(B, n)
			except Exception as e: bad('symbol-error', e); continue
			rows = [(i, tg) for i in range(1, N + 1)]
			try:
				if k == 'all': got = s(N); ok = isinstance(got, list) and [tuple(x) for x in got] == rows
				elif k == 'rows': got = s(N); ok = not isinstance(got, (list, tuple)) and [tuple(x) for x in got] == rows
				elif k == 'chunks': got = s(N); ok = not isinstance(got, (list, tuple)) and [tuple(x) for ch in got for x in ch] == rows
				elif k == 'column': got = s(N); ok = not isinstance(got, (list, tuple)) and list(got) == [x[0] for x in rows]
				elif k == 'declare':
					with c.xact():
						got = s(N); ok = hasattr(got, 'seek') and [tuple(x) for x in got.read()] == rows; got.close()
				elif k == 'first': got = s(w); ok = got == tg + w
				elif k == 'first2': got = s(w); ok = tuple(got) == (tg, w)
				elif k == 'none': got = s(); ok = got is None
				elif k == 'array': got = s(w); ok = got == 'x' + tg
				elif k in ('load_rows', 'load_chunks'):
					c.execute('delete from lu'); data = [(i, 'é%d' % i) for i in range(N)]
					got = s(data if k == 'load_rows' else [data[:1], data[1:]]); have = sorted(tuple(x) for x in c.prepare('select a, b from lu').rows())
					ok = got is None and have == sorted((i, tg + x) for i, x in data); got = (got, have)
				elif k == 'dml':
					c.execute('delete from lt'); got = s(N); have = [x[0] for x in c.prepare('select t from lt').rows()]; ok = got == N and have == [tg] * N
				elif k in ('const', 'constfirst', 'constnull', 'constrows'):
					last = c.prepare('select last_value from lq').first()
					got = s
					if k == 'const': ok = isinstance(got, list) and len(got) == 1 and got[0][1] == tg
					elif k == 'constfirst': ok = got.endswith(tg)
					elif k == 'constnull': ok = got is None
					else: ok = isinstance(got, list) and len(got) == 3
					# resolved once per binding
					again = getattr(B, n)
					if again != got or c.prepare('select last_value from lq').first() != last: bad('const-once', (got, again))
					if consts.setdefault((n, id(B)), (got,)) != (got,): bad('const-once', (consts[n, id(B)], got))
				elif k == 'proc': i = r.randrange(99); got = s(i, w); ok = got == w + str(i)
				elif k == 'procset': got = list(s(N)); ok = got == list(range(1, N + 1))
				elif k == 'refconst':
					got = s(); ok = got.startswith(tg); 
					if s() != got or getattr(B, n)() != got: bad('const-once', got)
				else: i = r.randrange(999); s2 = s(str(i)); got = s2(); ok = got == tg + str(i) and s2() == got
				if not ok: bad('result', got)
				# transient symbols are not retained, others keep their statement
				same_ = getattr(B, n) is s
				if t == 'transient' and k not in ('const', 'constfirst', 'constnull', 'constrows', 'proc', 'procset', 'refconst'):
					if same_: bad('transient', 'retained')
				elif not same_ and not k.startswith('const') and k != 'reftrans': bad('retained', 'another object for each use')
			except Exception as e: bad('execution', '%s: %s' % (type(e).__name__, str(e)[:150]))
			ctx.count('executed')
		for n in ('nosuch', 's99', '_x'):
			g = outcome(lambda: getattr(Bs[0][0], n))
			if g[0] == 'v' or not isinstance(g[1], AttributeError): V('missing', '%r gave %r' % (n, g), case)
		ctx.case(full, True, full[:100])
		del s, Bs, B
	# --- categories
	la = L.ILF.from_lines("[x::first]\nselect 'la'::text\n".splitlines(True)); la._name = 'liba'
	lb = L.ILF.from_lines("[x::first]\nselect 'lb'::text\n[y:const:first]\nselect 7\n".splitlines(True)); lb._name = 'libb'
	for cat, names in ((L.Category(la, lb), {'liba': 'la', 'libb': 'lb'}), (L.Category(la, other=lb), {'liba': 'la', 'other': 'lb'}), (L.Category(la, other=la), {'liba': 'la', 'other': 'la'}), (L.Category(p=la, q=la, s=lb), {'p': 'la', 'q': 'la', 's': 'lb'}), (L.Category(), {})):
		c = ctx.connect(category=cat)
		for n in ('liba', 'libb', 'other', 'p', 'q', 's'):
			g = outcome(lambda: getattr(c, n).x())
			if n in names and (g[0] == 'e' or g[1] != names[n]): V('category', '%s gave %r' % (n, g), None)
			elif n not in names and g[0] == 'v': V('category', '%s is bound' % n, None)
		if 's' in names and c.s.y != 7: V('category', 'const', None)
		c.close(); ctx.case(repr(sorted(names)), True)
	g = outcome(lambda: L.Category(execute=la)(ctx.connect()))
	if g[0] == 'v' or not isinstance(g[1], AttributeError): V('category-conflict', 'binding over an attribute gave %r' % (g,), None)

	# --- the system library
	setup = '''create schema h1; create type h1.mood as enum ('a'); create domain h1.d1 as int; create domain h1.d2 as h1.d1; create domain h1.da as int[]; create type h1.comp as (a int, "B c" text, d h1.d2); create table h1.tab (a int, b text, c h1.comp); alter table h1.tab drop column b; create domain h1.dc as h1.comp;
	create type h1.rng as range (subtype = int8); create function h1.f(int, text default 'x') returns setof h1.comp language sql as $$select null::h1.comp$$; create function h1.g() returns h1.dc language sql as $$select null::h1.dc$$; create function h1."F x"(int[], variadic text[]) returns int language sql as $$select 1$$'''
	obs.execute(setup)
	def one(c, mask):
		lab = dict(mask=mask); s = c.sys
		def direct(sql, *a): return [tuple(x) for x in obs.prepare(sql).rows(*a)]
		def chk(what, got, want):
			ctx.count('system')
			if got[0] == 'e': V('system', '%s%s: %s' % (what, ' with temporary tables named like catalogs' if mask else '', str(got[1])[:120]), lab)
			elif got[1] != want: V('system', '%s%s: %r, expected %r' % (what, ' with temporary tables named like catalogs' if mask else '', got[1], want), lab)
		ty = direct('''select t.oid::oid::bigint, n.nspname::text, t.typname::text, t.typtype::text, t.typlen::int, t.typelem::bigint, t.typrelid::bigint,
		case when t.typlen = -1 and t.typelem <> 0 then t.typelem::bigint end, (select e.typreceive::oid <> 0 from pg_catalog.pg_type e where e.oid = t.typelem and t.typlen = -1), (select e.typsend::oid <> 0 from pg_catalog.pg_type e where e.oid = t.typelem and t.typlen = -1)
		from pg_catalog.pg_type t join pg_catalog.pg_namespace n on n.oid = t.typnamespace''')
		r.shuffle(ty)
		new = [x for x in ty if x[1] in ('h1',)]
		for x in new + ty[:ctx.scale(150, 700)]:
			chk('lookup_type(%s)' % x[2], outcome(lambda: tuple(y.decode() if isinstance(y, bytes) else y for y in tuple(s.lookup_type(x[0]))[:9])), x[1:10])
			if x[6] and x[1] != 'information_schema':
				chk('lookup_composite(%s)' % x[2], outcome(lambda: [tuple(y) for y in s.lookup_composite(x[6])]), direct("select a.atttypid::oid, a.attname::text, (select typtype = 'd' from pg_catalog.pg_type e where e.oid = a.atttypid) from pg_catalog.pg_attribute a where attrelid = $1::oid and attnum > 0 and not attisdropped order by attnum", x[6]))
			b = direct('''with recursive w(o, b, k) as (select oid, typbasetype, typtype from pg_catalog.pg_type where oid = $1::oid union all select t.oid, t.typbasetype, t.typtype from w join pg_catalog.pg_type t on t.oid = w.b) select case when (select count(*) from w) > 1 then (select o from w where b = 0) end''', x[0])
			chk('lookup_basetype_recursive(%s)' % x[2], outcome(lambda: [tuple(y) for y in s.lookup_basetype_recursive(x[0])]), b)
			chk('lookup_basetype(%s)' % x[2], outcome(lambda: [tuple(y) for y in s.lookup_basetype(x[0])]), direct('select typbasetype from pg_catalog.pg_type where oid = $1::oid', x[0]))
		g = outcome(lambda: s.lookup_type(0))
		if g[0] == 'v' and g[1] is not None: V('system', 'lookup_type(0) gave %r' % (g[1],), lab)
		pr = direct("select p.oid::bigint, p.oid::regprocedure::text, p.proname::text, n.nspname::text, p.proretset, p.prorettype::bigint, array(select unnest(p.proargtypes))::oid[] from pg_catalog.pg_proc p join pg_catalog.pg_namespace n on n.oid = p.pronamespace")
		r.shuffle(pr)
		for x in [x for x in pr if x[3] == 'h1'] + pr[:ctx.scale(60, 400)]:
			for f, a in (('lookup_procedure_oid', x[0]), ('lookup_procedure_rp', x[1])):
				if a is x[1] and mask: continue
				chk('%s(%s)' % (f, x[1]), outcome(lambda: (lambda y: (y['oid'], y['proname'], y['proretset'], y['prorettype'], list(y['proargtypes'])))(getattr(s, f)(a))), (x[0], x[2], x[4], x[5], list(x[6])))
		names = ['int4', 'text[]', 'h1.mood', 'h1.comp[]', 'double precision', 'h1.dc', '"char"']; r.shuffle(names)
		chk('regtypes', outcome(lambda: list(s.regtypes(names))), [direct('select $1::text::regtype::oid', n)[0][0] for n in names])
		chk('languages', outcome(lambda: sorted(s.languages())), [x[0] for x in direct('select lanname from pg_catalog.pg_language order by lanname collate "C"')])
		chk('setting_len', outcome(lambda: s.setting_len()), direct('select count(*) from pg_catalog.pg_settings')[0][0])
		chk('setting_keys', outcome(lambda: sorted(x[0] for x in s.setting_keys())), sorted(x[0] for x in direct('select name from pg_catalog.pg_settings')))
		chk('setting_items', outcome(lambda: sorted(x[0] for x in s.setting_items())), sorted(x[0] for x in direct('select name from pg_catalog.pg_settings')))
		for n in ('work_mem', 'WORK_MEM', 'nosuch', "it's"): chk('setting_get(%s)' % n, outcome(lambda: [x[0] for x in s.setting_get(n)]), [x[0] for x in direct('select setting from pg_catalog.pg_settings where lower(name) = lower($1::text)', n)])
		chk('sizeof_db', outcome(lambda: abs(s.sizeof_db() - direct('select pg_catalog.pg_database_size(current_database())')[0][0]) < 4e6), True)
		chk('sizeof_cluster', outcome(lambda: abs(s.sizeof_cluster() - int(direct('select sum(pg_catalog.pg_database_size(oid)) from pg_catalog.pg_database')[0][0])) < 2e7), True)
		chk('sizeof_relation', outcome(lambda: s.sizeof_relation('h1.tab')), direct("select pg_catalog.pg_relation_size('h1.tab')")[0][0])
		c.execute('listen "Ch 1"; listen b')
		chk('listening_channels', outcome(lambda: sorted(s.listening_channels())), ['Ch 1', 'b'])
		c.execute('unlisten *')
		chk('listening_channels', outcome(lambda: list(s.listening_channels())), [])
		ps = c.prepare("select 'find ' || 1", statement_id='mine')
		chk('get_statement_source', outcome(lambda: s.get_statement_source('mine')), "select 'find ' || 1")
		chk('get_statement_source', outcome(lambda: s.get_statement_source('nosuch')), None)
		chk('xact_is_prepared', outcome(lambda: s.xact_is_prepared('nosuch')), None)
		chk('lookup_prepared_xacts', outcome(lambda: list(s.lookup_prepared_xacts('postgres'))), [])
		g = outcome(lambda: (c.pid if hasattr(c, 'pid') else c.backend_id, c.version_info[:2]))
		chk('startup_data_92', outcome(lambda: tuple(s.startup_data_92())[0]), direct('select pg_catalog.version()')[0][0])
		chk('startup_data_92', outcome(lambda: tuple(s.startup_data_92())[2:]), tuple(direct('select client_addr::text, client_port from pg_catalog.pg_stat_activity where pid = $1::int', c.backend_id)[0]))
		for n in ('nosuch', 'lookup', 'lookup_typ'):
			g = outcome(lambda: getattr(s, n))
			if g[0] == 'v': V('missing', 'sys.%s exists' % n, lab)
	c = ctx.connect(); one(c, False); c.close()
	# catalogs masked by temporary tables of the session
	c = ctx.connect()
	for n in ('pg_type', 'pg_class', 'pg_namespace', 'pg_database', 'pg_roles', 'pg_proc', 'pg_settings', 'pg_attribute', 'pg_language', 'pg_prepared_xacts', 'pg_prepared_statements', 'pg_stat_activity'):
		c.execute('create temp table %s as select * from pg_catalog.%s limit 0' % (n, n) if n not in ('pg_class', 'pg_attribute') else 'create temp table %s(oid oid)' % n)
	one(c, True)
	# types are found as well
	g = outcome(lambda: c.prepare("select row(1, 'x', 2)::h1.comp, array[row(1, 'x', 2)::h1.comp], 'a'::h1.mood, 5::h1.d2").first())
	if g[0] == 'e' or tuple(g[1][0]) != (1, 'x', 2) or g[1][2:] != ('a', 5): V('system', 'types with masked catalogs: %r' % (g,), None)
	c.close()
	# ending other sessions
	for f, gone in (('cancel_backends_92', False), ('terminate_backends_92', True)):
		xs = [ctx.connect() for _ in range(2)]; c = ctx.connect()
		pids = set(x.backend_id for x in xs)
		if f[0] == 't': db.close(); obs.close()
		got = outcome(lambda: set(getattr(c.sys, f)()))
		if got[0] == 'e' or not pids <= got[1] or c.backend_id in got[1]: V('system', '%s: %r, expected %r' % (f, got, pids), None)
		if c.prepare('select 1').first() != 1: V('system', '%s ended its own session' % f, None)
		for x in xs:
			g = outcome(lambda: x.prepare('select 1').first())
			if gone and g[0] == 'v': V('system', '%s left a session' % f, None)
			if not gone and g[0] == 'e': g = outcome(lambda: x.prepare('select 1').first())
			if not gone and g != ('v', 1): V('system', '%s ended a session' % f, None)
			outcome(x.close)
		c.close()
	ctx.require('libraries', 'executed', 'system')
