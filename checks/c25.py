"""
C25: random functions that say who they are, what they were given and how often
they ran; every reference and call is judged against the definition.
"""
import collections.abc

# type: spellings in an identifier, (python value, its text on the server)*
TYPES = {
	'int4': (('int', 'integer', 'int4', 'pg_catalog.int4', ' INTEGER '), ((0, '0'), (-7, '-7'), (2**31 - 1, '2147483647'))),
	'int8': (('bigint', 'int8'), ((2**40, '1099511627776'), (-1, '-1'))),
	'text': (('text', 'pg_catalog.text'), (('', ''), ("o'c\"lock", "o'c\"lock"), ('ünï\n$1 %s', 'ünï\n$1 %s'))),
	'varchar': (('varchar', 'character varying'), (('vv', 'vv'), ('x' * 200, 'x' * 200))),
	'bpchar': (('bpchar', 'character', 'char'), (('abcdef', 'abcdef'), ('q', 'q'))),
	'bit': (('bit',), ()),
	'"char"': (('"char"',), ()),
	'bool': (('bool', 'boolean'), ((True, 'true'), (False, 'false'))),
	'numeric': (('numeric', 'decimal'), ()),
	'int4[]': (('int[]', 'integer[]', '_int4'), (([1, 2, 3], '{1,2,3}'), ([], '{}'), ([None, 5], '{NULL,5}'))),
	'text[]': (('text[]',), ((['a', 'b"c'], '{a,"b\\"c"}'),)),
	'float8': (('float8', 'double precision'), ((1.5, '1.5'),)),
	'bytea': (('bytea',), ((b'\0\xff', '\\x00ff'), (b'', '\\x'))),
	'vf_p.dom': (('vf_p.dom', '"vf_p"."dom"'), ((7, '7'),)),
	'vf_p."En um"': (('vf_p."En um"',), (('b b', 'b b'), ('a', 'a'))),
	'vf_p.pair': (('vf_p.pair',), (((1, 'x'), '(1,x)'), ((None, 'y z'), '(,"y z")'))),
}
import decimal
TYPES['numeric'] = (TYPES['numeric'][0], ((decimal.Decimal('1.50'), '1.50'), (decimal.Decimal('-3'), '-3')))
del TYPES['bit'], TYPES['"char"']
SCHEMAS = ['vf_a', 'vf_b', 'Vf C', 'vf"q', 'pg_temp']
NAMES = ['f', 'g', 'F', 'do it', 'q"f', "ap'os", 'ünï', 'select', '%s', 'x' * 60, 'a.b', 'semi;colon', 'lower', 'length']
KINDS = ['scalar', 'scalar', 'null', 'array', 'domain', 'enum', 'composite', 'out', 'out1', 'domcomp', 'domdomcomp', 'setof', 'setofcomp', 'table', 'table1', 'setofnull', 'empty', 'fail', 'void', 'inout', 'big', 'tabletype', 'one', 'onetab', 'setofone', 'setofonetab', 'outs', 'inoutout', 'sideeffect', 'sideset']

def qi(x): return '"' + x.replace('"', '""') + '"'
def ql(x): return "'" + x.replace("'", "''") + "'"

SETUP = r'''
DROP SCHEMA IF EXISTS vf_p, vf_a, vf_b, "Vf C", "vf""q" CASCADE;
CREATE SCHEMA vf_p; CREATE SCHEMA vf_a; CREATE SCHEMA vf_b; CREATE SCHEMA "Vf C"; CREATE SCHEMA "vf""q";
CREATE DOMAIN vf_p.dom AS int CHECK (VALUE > 0);
CREATE TYPE vf_p."En um" AS ENUM ('a', 'b b');
CREATE TYPE vf_p.pair AS (i int, t text);
CREATE DOMAIN vf_p.dpair AS vf_p.pair;
CREATE DOMAIN vf_p.ddpair AS vf_p.dpair;
CREATE TABLE vf_p.tab (a int, gone int, "B b" text);
ALTER TABLE vf_p.tab DROP COLUMN gone;
CREATE TYPE vf_p.one AS ("O" text);
CREATE TABLE vf_p.otab (gone int, t text);
ALTER TABLE vf_p.otab DROP COLUMN gone;
CREATE SEQUENCE vf_p.calls;
'''

class Fn:
	pass

class World:
	def __init__(self, ctx, r):
		import postgresql.exceptions as X
		self.ctx, self.r, self.X = ctx, r, X
		self.db = ctx.connect(); self.db.execute(SETUP)
		self.fns = {}; self.tag = 0; self.path = ['public']; self.log = []
		self.refs = []; self.iters = []
	def bad(self, mech, detail): self.ctx.violation(mech, detail, self.log[-10:])
	def temp(self, s): return s
	def create(self):
		r = self.r; f = Fn(); self.tag += 1
		f.schema = r.choice(SCHEMAS); f.name = r.choice(NAMES); f.kind = r.choice(KINDS)
		f.types = [r.choice(list(TYPES)) for _ in range(r.choice((0, 0, 1, 1, 2, 2, 3, 5, 12)))]
		f.variadic = bool(f.types) and f.types[-1].endswith('[]') and r.random() < .5
		if f.kind in ('inout', 'inoutout'): f.types.append('int4'); f.variadic = False
		if (f.schema, f.name, tuple(f.types)) in self.fns: return
		f.names = [r.choice(('', 'a%d' % i, 'A %d' % i, 'q"%d' % i)) if r.random() < .8 else '' for i in range(len(f.types))]
		if f.kind in ('inout', 'inoutout'): f.names[-1] = 'io'
		f.default = False
		args = []
		for i, (n, t) in enumerate(zip(f.names, f.types)):
			mode = 'INOUT ' if f.kind in ('inout', 'inoutout') and i == len(f.types) - 1 else 'VARIADIC ' if f.variadic and i == len(f.types) - 1 else r.choice(('', 'IN '))
			args.append(mode + (qi(n) + ' ' if n else '') + t)
		# (overloads with defaults make calls ambiguous to the server)
		if f.types and not f.variadic and f.kind not in ('inout', 'inoutout') and r.random() < .2: args[-1] += ' DEFAULT NULL'; f.default = True; f.name = 'default %d' % self.tag
		outs = []; k = f.kind; ret = None
		# the function's own account of the call
		me = "%s || %s" % (ql('#%d:' % self.tag), " || '|' || ".join(["coalesce($%d::text, '<null>')" % (i + 1) for i in range(len(f.types))]) or "''")
		seq = "nextval('vf_p.calls')"
		if k == 'scalar': ret = 'text'; body = 'SELECT ' + me
		elif k == 'null': ret = r.choice(('text', 'int', 'vf_p.dom', 'int[]')); body = 'SELECT NULL::' + ret
		elif k == 'array': ret = 'text[]'; body = 'SELECT ARRAY[%s, NULL]' % me
		elif k == 'domain': ret = 'vf_p.dom'; body = 'SELECT %d::vf_p.dom' % self.tag
		elif k == 'enum': ret = 'vf_p."En um"'; body = "SELECT 'b b'::vf_p.\"En um\""
		elif k in ('composite', 'domcomp', 'domdomcomp', 'setofcomp'):
			t = {'composite': 'vf_p.pair', 'domcomp': 'vf_p.dpair', 'domdomcomp': 'vf_p.ddpair', 'setofcomp': 'SETOF vf_p.pair'}[k]; ret = t; bt = t.split()[-1]
			body = 'SELECT (ROW(%d, %s)::vf_p.pair)::%s' % (self.tag, me, bt)
			if k == 'setofcomp': body = 'SELECT g, CASE WHEN g = 2 THEN NULL ELSE %s END FROM generate_series(1, 3) g' % me
			elif k == 'composite' and r.random() < .5: body = 'SELECT %d, %s' % (self.tag, me)
		elif k == 'tabletype': ret = 'vf_p.tab'; body = 'SELECT %d, %s' % (self.tag, me)
		elif k == 'out': outs = ['OUT x int', 'OUT "Y y" text']; body = 'SELECT %d, %s' % (self.tag, me)
		elif k in ('one', 'onetab'): ret = 'vf_p.one' if k == 'one' else 'vf_p.otab'; body = 'SELECT ROW(%s)::%s' % (me, ret)
		elif k in ('setofone', 'setofonetab'): t = 'vf_p.one' if k == 'setofone' else 'vf_p.otab'; ret = 'SETOF ' + t; body = 'SELECT (ROW(CASE WHEN g = 2 THEN NULL ELSE %s END)::%s).* FROM generate_series(1, 3) g' % (me, t)
		elif k == 'inoutout': outs = ['OUT "Y y" text']; body = 'SELECT %s + 1, %s' % ('$%d' % len(f.types), me)
		elif k == 'outs': outs = ['OUT x int', 'OUT "Y y" text']; ret = 'SETOF record'; body = 'SELECT g, %s FROM generate_series(1, 3) g' % me
		elif k == 'out1': outs = ['OUT x text']; body = 'SELECT ' + me
		elif k == 'inout': body = 'SELECT %s + 1' % ('$%d' % len(f.types))
		elif k == 'setof': ret = 'SETOF text'; body = 'SELECT %s FROM generate_series(1, 3) g' % me
		elif k == 'setofnull': ret = 'SETOF int'; body = 'SELECT nullif(g, 2) FROM generate_series(1, 3) g'
		elif k == 'empty': ret = 'SETOF text'; body = 'SELECT %s WHERE false' % me
		elif k == 'big': ret = 'SETOF int'; body = 'SELECT g + %d FROM generate_series(1, 9000) g' % self.tag
		elif k == 'table': ret = 'TABLE (n int, "t t" text)'; body = 'SELECT g, %s FROM generate_series(1, 2) g' % me
		elif k == 'table1': ret = 'TABLE (n text)'; body = 'SELECT %s FROM generate_series(1, 2) g' % me
		elif k == 'fail': ret = 'int'; body = None
		elif k == 'void': ret = 'void'; body = 'SELECT %s; SELECT' % seq if False else "SELECT set_config('vf.called', %s, false)::void" % me
		elif k == 'sideeffect': ret = 'int8'; body = 'SELECT ' + seq
		elif k == 'sideset': ret = 'SETOF int8'; body = 'SELECT %s FROM generate_series(1, 4)' % seq
		if k == 'void': ret = 'void'; lang = 'plpgsql'; src = "BEGIN PERFORM set_config('vf.called', %s, false); END" % me
		elif k == 'fail': lang = 'plpgsql'; src = "BEGIN RAISE EXCEPTION USING ERRCODE = 'VF%03d', MESSAGE = %s; END" % (self.tag % 1000, me)
		elif ret and not ret.startswith(('SETOF', 'TABLE')) and k in ('scalar', 'null', 'array', 'domain') and r.random() < .4: lang = 'plpgsql'; src = 'BEGIN RETURN (%s); END' % body
		else: lang = 'sql'; src = body
		f.tag = self.tag; f.src = src
		s = 'pg_temp' if f.schema == 'pg_temp' else f.schema
		sql = 'CREATE FUNCTION %s.%s(%s) %s LANGUAGE %s %s AS %s' % (qi(s), qi(f.name), ', '.join(args + outs) if not (f.default and outs) else ', '.join(args[:-1] + outs + args[-1:]), 'RETURNS ' + ret if ret else '', lang, r.choice(('', 'VOLATILE', 'STABLE' if k not in ('sideeffect', 'sideset', 'void') else '')), ql(src))
		self.log.append(sql)
		self.db.execute(sql)
		f.oid = self.db.prepare('SELECT p.oid FROM pg_proc p WHERE p.prosrc = $1').first(src) if False else self.db.query.first("SELECT max(oid::int8) FROM pg_proc WHERE proname = $1 AND prosrc = $2", f.name, src)
		self.fns[(f.schema, f.name, tuple(f.types))] = f
		self.ctx.count('made:' + k)
	def visible(self, f):
		"""whether an unqualified name with these types means f (not looked for in pg_temp)"""
		if f.schema == 'pg_temp': return False
		order = (['pg_catalog'] if 'pg_catalog' not in self.path else []) + self.path
		for s in order:
			if s == 'pg_catalog':
				if f.name in ('lower', 'length'): return False
			elif (s, f.name, tuple(f.types)) in self.fns: return s == f.schema
		return False
	def ident(self, f):
		r = self.r
		ts = ','.join(r.choice(('', ' ')) + r.choice(TYPES[t][0]) for t in f.types)
		n = f.name if f.name in ('f', 'g', 'lower', 'length') and r.random() < .7 else f.name.upper() if f.name in ('f', 'g') and r.random() < .3 else qi(f.name)
		if n in ('F', 'G') and f.name == 'F': n = '"F"'
		s = r.choice((f.schema, qi(f.schema))) if f.schema.isidentifier() else qi(f.schema)
		c = [(f.oid, 'oid'), (str(f.oid), 'oid-text'), ('%s.%s(%s)' % (s, n, ts), 'qualified'), ('%s.%s(%s)' % (s, n, ts), 'qualified')]
		if self.visible(f): c += [('%s(%s)' % (n, ts), 'unqualified')] * 2
		return r.choice(c)
	def ref(self):
		if not self.fns: return
		f = self.r.choice(list(self.fns.values())); i, how = self.ident(f)
		self.log.append(('proc', i, f.oid))
		try: p = self.db.proc(i)
		except Exception as e: return self.bad('unusable', 'proc(%r) of %s raised %r' % (i, f.kind, e))
		if p.oid != f.oid: return self.bad('wrong-function', 'proc(%r) is the function %r, expected %r' % (i, p.oid, f.oid))
		self.refs.append((f, p)); self.ctx.count('ref:' + how)
		if len(self.refs) > 12: self.refs.pop(self.r.randrange(12))
	def gen(self, f):
		r = self.r; vals = []; texts = []
		for t in f.types:
			if r.random() < .15: vals.append(None); texts.append('<null>')
			else:
				v, x = r.choice(TYPES[t][1]); vals.append(v); texts.append(x)
		return vals, '#%d:' % f.tag + '|'.join(texts)
	def call(self):
		if not self.refs: return
		r, db = self.r, self.db; f, p = r.choice(self.refs); vals, me = self.gen(f)
		if f.kind in ('inout', 'inoutout') and vals[-1] == 2**31 - 1: vals[-1] = 5
		args, kw = list(vals), {}
		if r.random() < .4:
			named = [i for i, n in enumerate(f.names) if n and r.random() < .6]
			kw = {f.names[i]: vals[i] for i in named}; args = [v for i, v in enumerate(vals) if i not in named]
			if kw:
				items = list(kw.items()); r.shuffle(items); kw = dict(items)
		self.log.append(('call', f.oid, f.kind, args, kw))
		self.ctx.count('called:' + f.kind); self.ctx.count('keyword' if kw else 'positional')
		before = self.calls()
		try: g = p(*args, **kw)
		except self.X.Error as e:
			if f.kind == 'fail' and e.code == 'VF%03d' % (f.tag % 1000) and e.message == me: return
			return self.bad('call', 'a call of %s, %r, raised %r' % (f.kind, vals, e))
		except Exception as e: return self.bad('call', 'a call of %s, %r, %r, raised %r' % (f.kind, args, kw, e))
		k = f.kind; scalar = {'scalar': me, 'null': None, 'array': [me, None], 'domain': f.tag, 'enum': 'b b', 'out1': me}
		if k == 'inoutout':
			w = None if vals[-1] is None else vals[-1] + 1
			me = '#%d:' % f.tag + '|'.join(me.split(':', 1)[1].split('|')[:-1] + ['<null>' if vals[-1] is None else str(vals[-1])])
			return self.row(g, (w, me), ('io', 'Y y'), k)
		rows = {'one': (me,), 'onetab': (me,), 'composite': (f.tag, me), 'domcomp': (f.tag, me), 'domdomcomp': (f.tag, me), 'out': (f.tag, me), 'tabletype': (f.tag, me)}
		sets = {'setofone': [(me,), (None,), (me,)], 'setofonetab': [(me,), (None,), (me,)], 'outs': [(g_, me) for g_ in (1, 2, 3)], 'setof': [me] * 3, 'setofnull': [1, None, 3], 'empty': [], 'big': list(range(f.tag + 1, f.tag + 9001)), 'table': [(1, me), (2, me)], 'table1': [me] * 2, 'setofcomp': [(1, me), (2, None), (3, me)]}
		cols = {'one': ('O',), 'setofone': ('O',), 'onetab': ('t',), 'setofonetab': ('t',), 'outs': ('x', 'Y y'), 'composite': ('i', 't'), 'domcomp': ('i', 't'), 'domdomcomp': ('i', 't'), 'out': ('x', 'Y y'), 'tabletype': ('a', 'B b'), 'table': ('n', 't t'), 'setofcomp': ('i', 't')}.get(k)
		if k == 'fail': return self.bad('swallowed', 'no error, but %r' % (g,))
		if k == 'array': g = None if g is None else list(g)
		if k in scalar:
			if g != scalar[k] or type(g) is not type(scalar[k]): self.bad('wrong-value', '%s of %r gave %r, %r expected' % (k, vals, g, scalar[k]))
		elif k == 'inout':
			w = None if vals[-1] is None else vals[-1] + 1
			if g != w: self.bad('wrong-value', 'inout gave %r, %r expected' % (g, w))
		elif k in rows: self.row(g, rows[k], cols, k)
		elif k in sets:
			if not isinstance(g, collections.abc.Iterable) or isinstance(g, (str, tuple, list)) and k != 'x' and not hasattr(g, '__iter__'): return self.bad('not-iterable', '%s gave %r' % (k, g))
			self.iters.append((iter(g), list(sets[k]), cols, k))
			if r.random() < .7: self.advance(len(self.iters) - 1)
			if len(self.iters) > 6: self.advance(0, 10**9)
		elif k == 'sideeffect':
			if g != before + 1 or self.calls() != before + 1: self.bad('executions', 'one call of a function, %d executions, gave %r' % (self.calls() - before, g))
		elif k == 'sideset':
			g = list(g)
			if g != [before + i for i in (1, 2, 3, 4)] or self.calls() != before + 4: self.bad('executions', 'one call: %r after %d, then %d' % (g, before, self.calls()))
		elif k == 'void':
			if db.query.first("SELECT current_setting('vf.called')") != me: self.bad('executions', 'void function not executed as called')
	def calls(self): return self.db.query.first("SELECT CASE WHEN is_called THEN last_value ELSE last_value - 1 END FROM vf_p.calls")
	def row(self, g, want, cols, k):
		if not isinstance(g, tuple) or tuple(g) != want: return self.bad('wrong-row', '%s gave %r, %r expected' % (k, g, want))
		if tuple(g[c] for c in cols) != want: self.bad('wrong-row', 'by name: %r' % [g[c] for c in cols])
	def advance(self, i=None, n=None):
		if not self.iters: return
		i = self.r.randrange(len(self.iters)) if i is None else i
		it, want, cols, k = self.iters[i]
		for _ in range(n or self.r.choice((1, 2, 100, 10**9))):
			x = next(it, self)
			if x is self:
				if want: self.bad('wrong-set', '%s ended %d early' % (k, len(want)))
				del self.iters[i]; self.ctx.count('iterated'); return
			if not want: return self.bad('wrong-set', '%s has more: %r' % (k, x))
			if cols: self.row(x, want[0], cols, k)
			elif x != want[0]: return self.bad('wrong-set', '%s gave %r, %r expected' % (k, x, want[0]))
			del want[0]
	def misuse(self):
		if not self.refs: return
		r = self.r; f, p = r.choice(self.refs); vals, me = self.gen(f); kw = {}
		if f.kind == 'void': self.db.execute("SELECT set_config('vf.called', 'no', false)")
		k = r.choice(('more', 'less', 'unknown', 'twice', 'less-named', 'more-named'))
		named = [i for i, n in enumerate(f.names) if n]
		if k == 'more': vals = vals + [1] * r.choice((1, 2))
		elif k == 'less':
			if not vals: return
			vals = vals[:-r.choice((1, len(vals)))]
		elif k == 'unknown':
			kw = {r.choice(('no such', 'x', 'Y y', 'n', 't t', '')): 1}
			if vals and r.random() < .5: vals = vals[:-1]
		elif not named: return
		else:
			i = r.choice(named); kw = {f.names[i]: vals[i]}
			if k == 'twice': pass
			elif k == 'more-named': vals = [v for j, v in enumerate(vals) if j != i] + [1]
			else:
				vals = [v for j, v in enumerate(vals) if j != i]
				if not vals: return
				vals = vals[:-1]
		before = self.calls()
		self.log.append(('misuse', k, f.oid, vals, kw))
		try: g = p(*vals, **kw)
		except TypeError as e: self.ctx.count('misuse:' + k)
		except Exception as e: self.bad('misuse', '%s: %r raised' % (k, e))
		else: self.bad('misuse', '%s: %r was returned by %s' % (k, g, f.kind))
		if self.calls() != before: self.bad('misuse', 'executed all the same')
	def unknown(self):
		X = self.X; db = self.db
		i = self.r.choice(('nosuch()', 'nosuch(int)', 'vf_a.nosuch(text)', 'noschema.f()', 'generate_series', 'generate_series(text)', 0, 2, 4294967295, 'f(notype)', 'f(', '', 'vf_a.f(int,int,int,int,int,int,int,int,int)'))
		try: p = db.proc(i)
		except (LookupError, X.Error): self.ctx.count('unknown')
		except Exception as e: self.bad('unknown', 'proc(%r) raised %r' % (i, e))
		else: self.bad('unknown', 'proc(%r) gave %r' % (i, p))
	def search_path(self):
		self.path = self.r.sample(['public', 'vf_a', 'vf_b', 'Vf C', 'vf"q'], self.r.randrange(5))
		if self.r.random() < .1: self.path.insert(self.r.randrange(len(self.path) + 1), 'pg_catalog')
		self.db.execute('SET search_path = ' + (', '.join(map(qi, self.path)) or "''"))
		self.log.append(('search_path', self.path)); self.ctx.count('search-paths')
	def replace(self):
		if not self.fns: return
		k = self.r.choice(list(self.fns)); f = self.fns[k]
		s = f.schema
		if self.r.random() < .5:
			self.refs = [x for x in self.refs if x[0] is not f]
			self.db.execute('DROP FUNCTION %s.%s(%s)' % (qi(s), qi(f.name), ','.join(f.types))); del self.fns[k]; self.ctx.count('dropped')

def main(ctx):
	ctx.rule = 'a reference taken, a call compared with the definition of its function, or a refused one'
	ctx.require(*['called:' + k for k in set(KINDS)], 'keyword', 'misuse:more', 'misuse:less', 'misuse:unknown', 'misuse:twice', 'unknown', 'iterated', 'ref:oid', 'ref:unqualified', 'search-paths')
	for k in range(ctx.scale(25, 400)):
		r = ctx.rng('world%d' % k)
		with ctx.step('world', k, 300):
			w = World(ctx, r); n = 0
			for _ in range(12): w.create()
			for i in range(220):
				block = None
				if r.random() < .1: block = w.db.xact(); block.start(); w.advance_all = None
				for _ in range(r.choice((1, 1, 3))):
					op = r.choice(('create', 'create', 'ref', 'ref', 'ref', 'call', 'call', 'call', 'call', 'call', 'advance', 'advance', 'misuse', 'unknown', 'search_path', 'replace'))
					if block and op in ('unknown', 'create', 'replace', 'search_path', 'misuse'): continue
					if block and op == 'call' and not [1 for f, p in w.refs if f.kind != 'fail']: continue
					if block:
						keep = w.refs; w.refs = [x for x in keep if x[0].kind != 'fail']
						getattr(w, op)(); w.refs = w.refs + [x for x in keep if x[0].kind == 'fail']
					else: getattr(w, op)()
					ctx.case((k, i, _), sample=repr(w.log[-1:])[:300])
				if block:
					while w.iters: w.advance(0, 10**9)
					block.commit(); ctx.count('blocks')
			w.db.execute('DROP SCHEMA vf_p, vf_a, vf_b, "Vf C", "vf""q" CASCADE'); w.db.close()
		if ctx.elapsed() > ctx.scale(60, 1500): break
