"""C31: the container types obey their sequence and mapping laws."""
import copy, itertools, operator, pickle

class Quit(Exception): pass

def main(ctx):
	ctx.rule = 'arrays of random shape (up to 6 dimensions), contents and bounds against the nested list they stand for: every index, many slices and addresses, SQL subscripts also against the server; rows of random names against a list and a dict; row factories and helpers against direct computation'
	from postgresql.types import Array, Row
	r = ctx.rng('c31')
	V = ctx.violation

	def outcome(f):
		try: return ('v', f())
		except Exception as e: return ('e', type(e))
	def same(mech, f, want, case):
		"""the value, or the class of the exception"""
		got = outcome(f)
		if got[0] == want[0] == 'e':
			if not issubclass(got[1], want[1]): V(mech, 'raised %s, not %s' % (got[1].__name__, want[1].__name__), case)
		elif got[0] != want[0] or got[1] != want[1]: V(mech, 'gave %r, expected %r' % (got, want), case)
		else: return True
	def un(x): return x.nest() if isinstance(x, Array) else x
	pool = [None, 0, 1, -1, 'a', '', (1, 2), ('x', (None,)), 2.5, b'z', True, 10 ** 30, frozenset((1,)), {'k': 1}]
	def nested(shape, el):
		if len(shape) == 1: return [el() for _ in range(shape[0])]
		return [nested(shape[1:], el) for _ in range(shape[0])]
	def flat(m, n): return list(m) if n == 1 else [y for x in m for y in flat(x, n - 1)]
	def at(m, addr):
		for a in addr: m = m[a]
		return m
	def arr_case(m, shape, bounds=None):
		if bounds is None: return Array(copy.deepcopy(m)) if r.random() < .7 else Array.from_nest(copy.deepcopy(m))
		return Array.from_elements(iter(flat(m, len(shape))) if r.random() < .5 else flat(m, len(shape)), lowerbounds=[a for a, b in bounds], upperbounds=tuple(b for a, b in bounds))

	def array_laws(m, shape, a, lb, case):
		nd = len(shape)
		same('array-nest', a.nest, ('v', m), case)
		f = flat(m, nd) if nd else []
		same('array-elements', lambda: list(a.elements()), ('v', f), case)
		if (tuple(a.dimensions), a.ndims, len(a)) != (tuple(shape), nd, shape[0] if nd else 0): V('array-shape', 'dimensions %r, ndims %r, len %r for shape %r' % (a.dimensions, a.ndims, len(a), shape), case)
		ub = tuple(l + s - 1 for l, s in zip(lb, shape))
		if (tuple(a.lowerbounds), tuple(a.upperbounds)) != (tuple(lb), ub): V('array-bounds', '%r %r, expected %r %r' % (a.lowerbounds, a.upperbounds, lb, ub), case)
		same('array-iter', lambda: [un(x) for x in a], ('v', m), case)
		same('array-iter', lambda: [un(x) for x in reversed(a)], ('v', m[::-1]), case)
		for t in (tuple, list): same('array-nest', lambda: a.nest(seqtype=t), ('v', conv(m, nd, t)), case)
		n = a.nest()
		if nd:
			n.append('changed')
			if nd > 1: n[0].append('changed')
			same('array-immutable', a.nest, ('v', m), case)
		# indexes
		L = len(m)
		for i in {0, 1, -1, L - 1, L, L + 1, -L, -L - 1, L + 7, -L - 9}:
			same('array-index', lambda: un(a[i]), ('v', m[i]) if -L <= i < L else ('e', IndexError), dict(case, index=i))
			if nd > 1 and -L <= i < L:
				s = outcome(lambda: a[i])
				if s[0] == 'v' and (s[1].dimensions != tuple(shape[1:]) or tuple(s[1].lowerbounds) != tuple(lb[1:]) or tuple(s[1].upperbounds) != ub[1:]):
					V('array-sub-bounds', 'a[%d]: %r %r %r' % (i, s[1].dimensions, s[1].lowerbounds, s[1].upperbounds), case)
		for _ in range(6):
			sl = slice(*[r.choice([None] + list(range(-L - 2, L + 3))) for _ in range(2)] + [r.choice([None, 1, 2, -1, -2, 3, -L or 1])])
			same('array-slice', lambda: [un(x) for x in a[sl]], ('v', m[sl]), dict(case, slice=repr(sl)))
			s = outcome(lambda: a[sl])
			if nd > 1 and s[0] == 'v' and isinstance(s[1], Array) and len(s[1]):
				if tuple(s[1].dimensions) != (len(m[sl]),) + tuple(shape[1:]) or tuple(u - l + 1 for l, u in zip(s[1].lowerbounds, s[1].upperbounds)) != tuple(s[1].dimensions): V('array-slice-bounds', '%r: %r %r %r' % (sl, s[1].dimensions, s[1].lowerbounds, s[1].upperbounds), case)
			same('array-slice-nest', lambda: un(a[sl]), ('v', m[sl]), dict(case, slice=repr(sl)))
		same('array-index-type', lambda: a['x'], ('e', TypeError), case)
		# addresses
		addrs = list(itertools.islice(itertools.product(*[range(-s - 1, s + 1) for s in shape]), 0, 4000)) if nd else []
		for ad in (addrs if len(addrs) < 40 else r.sample(addrs, 40)):
			inside = all(-s <= x < s for x, s in zip(ad, shape))
			same('array-address', lambda: a.get_element(ad), ('v', at(m, ad)) if inside else ('e', IndexError), dict(case, address=ad))
			sq = [l + x for l, x in zip(lb, ad)]
			inside = all(0 <= x < s for x, s in zip(ad, shape))
			same('array-sql-address', lambda: a.sql_get_element(sq), ('v', at(m, ad) if inside else None), dict(case, address=sq))
			ctx.count('addresses')
		if nd:
			same('array-address', lambda: a.get_element([0] * (nd + 1)), ('e', ValueError), case)
			if nd > 1: same('array-address', lambda: a.get_element([0] * (nd - 1)), ('e', ValueError), case)
			same('array-sql-address-length', lambda: a.sql_get_element(list(lb) + [r.choice((0, 1, lb[0]))]), ('v', None), case)
			if nd > 1: same('array-sql-address-length', lambda: a.sql_get_element(list(lb)[:-1]), ('v', None), case)
		else:
			same('array-address', lambda: a.get_element([0]), ('e', IndexError), case); same('array-sql-address', lambda: a.sql_get_element([1]), ('v', None), case)
		# relations
		b = Array(copy.deepcopy(m))
		for x, y in ((a, m), (a, b), (b, a)):
			if not (x == y) or x != y: V('array-equal', '%r is not equal to %r' % (x, y), case)
		o = copy.deepcopy(m)
		if nd:
			t = o
			for s in shape[:-1]: t = t[r.randrange(s)]
			i = r.randrange(len(t)); t[i] = ('other', t[i])
			if a == Array(o) or a == o or not a != Array(o): V('array-equal', 'equal to an array with another element', dict(case, other=repr(o)[:200]))
			short = m[:-1]
			if a == short or (short and a == Array(short)): V('array-equal', 'equal to an array that is shorter', case)
		for c in (copy.copy(a), copy.deepcopy(a), pickle.loads(pickle.dumps(a, r.choice((2, 3, 4, 5))))):
			if type(c) is not Array or c.nest() != m or tuple(c.lowerbounds) != tuple(lb) or c.dimensions != a.dimensions: V('array-copy', 'a copy is %r %r' % (c, c.lowerbounds), case)
			if nd > 1 and c[0].nest() != m[0]: V('array-copy', 'a copy indexes differently', case)
		if Array(a) is not a and Array(a).nest() != m: V('array-of-array', repr(Array(a)), case)
		import postgresql.types
		same('array-repr', lambda: eval(repr(a), dict(postgresql=postgresql)).nest(), ('v', m), case)
		for e in f[:5]:
			if nd == 1 and e not in a: V('array-contains', repr(e), case)
		if nd > 1 and m[0] not in a: V('array-contains', repr(m[0]), case)
		if object() in a: V('array-contains', 'object()', case)

	def conv(m, nd, t): return t(m) if nd < 2 else t(conv(x, nd - 1, t) for x in m)

	def shapes():
		yield ()
		for n in range(1, 7): yield (1,) * n
		for s in itertools.product((1, 2, 3), repeat=2): yield s
		for s in itertools.product((1, 2), repeat=3): yield s
		while True:
			n = r.choice((1, 1, 2, 2, 3, 3, 4, 5, 6)); yield tuple(r.randint(1, {1: 9, 2: 5, 3: 4}.get(n, 3)) for _ in range(n))
	n = ctx.scale(6000, 100000)
	for shape in itertools.islice(shapes(), n):
		if ctx.elapsed() > ctx.scale(20, 400): break
		c = itertools.count() if r.random() < .5 else None
		m = nested(shape, (lambda: next(c)) if c else (lambda: r.choice(pool))) if shape else []
		lb, bounds = (1,) * len(shape), None
		if shape and r.random() < .5:
			lb = tuple(r.choice((1, 0, -1, -5, 3, 100, -2 ** 31)) for _ in shape); bounds = [(l, l + s - 1) for l, s in zip(lb, shape)]
		case = dict(nest=repr(m)[:300], shape=shape, lower=lb)
		try: a = arr_case(m, shape, bounds)
		except Exception as e: V('array-construct', '%s: %s' % (type(e).__name__, e), case); continue
		array_laws(m, shape, a, lb, case)
		ctx.case('a%r%r%r' % (shape, lb, hash(repr(m))), nontrivial=len(shape) > 1, sample=case if r.random() < .003 else None); ctx.count('arrays')
		# ordering as lists
		if c is not None and shape:
			o = nested(shape, lambda: r.randint(0, 4)); x, y = Array(m), Array(o)
			for op in (operator.lt, operator.le, operator.gt, operator.ge):
				if op(x, y) is not op(m, o) or op(x, o) is not op(m, o): V('array-order', '%s of %r and %r' % (op.__name__, m, o), case)
		# the nest given is not shared
		k = copy.deepcopy(m); a = Array(k)
		if shape:
			t = k
			while isinstance(t[0], list): t = t[0]
			t[0] = 'mutated'; k.append(1)
			if a.nest() != m: V('array-shares', 'changing the nest given changed the array', case)
		# refused shapes
		if len(shape) > 1:
			k = copy.deepcopy(m); t = k
			for s in shape[1:-1]: t = t[r.randrange(len(t))]
			i = r.randrange(len(t)); how = r.choice(('longer', 'shorter', 'element', 'deeper'))
			if how == 'longer': t[i] = t[i] + [0]
			elif how == 'shorter': t[i] = t[i][:-1]
			elif how == 'element': t[i] = 'x'
			else: t[i] = [[y] for y in t[i]]
			bad = len(t) > 1
			if how == 'deeper': bad = len(flat(m, len(shape))) > len(t[i]) # part of it only
			if bad:
				g = outcome(lambda: Array(k))
				if how == 'element' and i == 0 or how == 'deeper':
					# lists below the detected dimensions are elements
					if g != ('e', ValueError) and (g[0] != 'v' or g[1].nest() != k): V('array-ragged', 'Array(%r) is %r' % (k, g[1]), dict(nest=repr(k)[:300]))
				elif g != ('e', ValueError): V('array-ragged', 'Array(%r) gave %r' % (k, g), dict(nest=repr(k)[:300], how=how))
				ctx.count('ragged')
		# bounds that contradict the elements
		if shape:
			f = flat(m, len(shape)); bd = bounds or [(1, s) for s in shape]
			l, u = [x for x, _ in bd], [x for _, x in bd]
			for how in ('count', 'bounds', 'number', 'reverse'):
				ff, ll, uu = list(f), list(l), list(u)
				if how == 'count': ff = ff + [0] if r.random() < .5 else ff[:-1]
				elif how == 'bounds': j = r.randrange(len(uu)); uu[j] += 1
				elif how == 'number':
					if r.random() < .5: uu = uu + [1]; ll = ll if r.random() < .5 else ll
					else: ll = ll + [1]
				else: j = r.randrange(len(uu)); uu[j] = ll[j] - 1 - r.randrange(3)
				if not ff: continue
				g = outcome(lambda: Array.from_elements(ff, lowerbounds=ll, upperbounds=uu))
				if g != ('e', ValueError): V('array-bad-bounds', '%d elements, bounds %r %r gave %r' % (len(ff), ll, uu, g), dict(how=how, lower=ll, upper=uu))
				ctx.count('bad-bounds')
			# one kind of bounds given
			same('array-upper-only', lambda: (lambda a: (a.nest(), tuple(a.lowerbounds), tuple(a.dimensions)))(Array.from_elements(f, upperbounds=shape)), ('v', (m, (1,) * len(shape), tuple(shape))), case)
			lo = r.choice((1, 0, -3, 7))
			same('array-lower-only', lambda: (lambda a: (a.nest(), tuple(a.lowerbounds), tuple(a.upperbounds), a.sql_get_element([lo + len(f) - 1])))(Array.from_elements(f, lowerbounds=(lo,))), ('v', (f, (lo,), (lo + len(f) - 1,), f[-1])), case)
			same('array-none-given', lambda: (lambda a: (a.nest(), tuple(a.lowerbounds), tuple(a.upperbounds)))(Array.from_elements(iter(f))), ('v', (f, (1,), (len(f),))), case)
	for root in ((1, 2), range(3), 'ab', iter([1, 2]), {1: 2}):
		keep = list(root) if not hasattr(root, '__next__') else [1, 2]
		same('array-root', lambda: Array(root).nest(), ('v', keep), dict(root=repr(root)))
	for e in ([], (), iter(())): same('array-empty', lambda: (lambda a: (a.nest(), a.dimensions, a.ndims, len(a), list(a), list(a[:]), a == []))(Array(e)), ('v', ([], (), 0, 0, [], [], True)), None)
	for bad in ([[]], [[], []], [[[]]]): same('array-empty-axis', lambda: Array(bad), ('e', ValueError), dict(nest=repr(bad)))

	# -- rows
	names = ['a', 'b', 'col1', 'a b', 'É', 'keys', 'get', '0', '', 'Column', 'x' * 63, '?column?', 'values', '_', 'class', 'type', 'two words', 'i', 'self', 'args', 'k']
	def R(ns, vs, how):
		km = {x: i for i, x in r.sample(list(enumerate(ns)), len(ns))}  # any order of insertion
		if how == 'seq': return Row.from_sequence(km, iter(vs) if r.random() < .5 else vs)
		d = dict(zip(ns, vs)); d['not there'] = 'x'
		return Row.from_mapping(km, d)
	for i in range(ctx.scale(6000, 100000)):
		if ctx.elapsed() > ctx.scale(26, 480): break
		n = r.choice((0, 1, 1, 2, 3, 4, 8, 15)); ns = r.sample(names, n); vs = [r.choice(pool) for _ in range(n)] if r.random() < .5 else list(range(100, 100 + n))
		how = r.choice(('seq', 'map')); row = R(ns, vs, how); case = dict(names=ns, values=repr(vs)[:200], how=how)
		def rowlaws(row, vs):
			if list(row) != vs or len(row) != n or tuple(row) != tuple(vs) or row != tuple(vs) or not row == tuple(vs) or not isinstance(row, tuple): V('row-sequence', repr(list(row)), case)
			if tuple(row.column_names) != tuple(ns): V('row-names', 'column_names %r' % (row.column_names,), case)
			if set(row.keys()) != set(ns) or len(list(row.keys())) != n: V('row-keys', repr(list(row.keys())), case)
			if list(row.values()) != vs: V('row-values', repr(list(row.values())), case)
			if list(row.items()) != list(zip(ns, vs)): V('row-items', repr(list(row.items())), case)
			for j in range(-n - 2, n + 3):
				same('row-index', lambda: row[j], ('v', vs[j]) if -n <= j < n else ('e', IndexError), dict(case, index=j))
				same('row-get', lambda: row.get(j), ('v', vs[j] if -n <= j < n else None), dict(case, index=j))
			for j, x in enumerate(ns):
				same('row-name', lambda: row[x], ('v', vs[j]), dict(case, name=x)); same('row-get', lambda: row.get(x), ('v', vs[j]), dict(case, name=x))
				same('row-index-of', lambda: (row.index_from_key(x), row.key_from_index(j)), ('v', (j, x)), dict(case, name=x))
			same('row-name', lambda: row['no such'], ('e', KeyError), case); same('row-get', lambda: row.get('no such'), ('v', None), case)
			same('row-index-of', lambda: (row.index_from_key('no such'), row.key_from_index(n)), ('v', (None, None)), case)
			sl = slice(*[r.choice([None] + list(range(-n - 2, n + 3))) for _ in range(2)] + [r.choice((None, 1, 2, -1))])
			same('row-slice', lambda: tuple(row[sl]), ('v', tuple(vs)[sl]), dict(case, slice=repr(sl)))
			h = outcome(lambda: hash(tuple(vs)))
			if outcome(lambda: hash(row)) != h: V('row-hash', 'not that of its tuple', case)
		rowlaws(row, vs)
		for c in (copy.copy(row), pickle.loads(pickle.dumps(row, r.choice((2, 4))))): rowlaws(c, vs)
		# transform
		args = [r.choice((None, repr, lambda v: (v, 1), type)) for _ in range(r.randint(0, n))]
		rest = [x for x in ns[len(args):] if x.isidentifier() or True]
		kw = {x: r.choice((None, repr, lambda v: [v])) for x in rest if r.random() < .4 and x != 'self'}
		want = [args[j](v) if j < len(args) and args[j] else kw[ns[j]](v) if kw.get(ns[j]) else v for j, v in enumerate(vs)]
		got = outcome(lambda: row.transform(*args, **kw))
		if got[0] == 'e' or list(got[1]) != want: V('row-transform', 'gave %r, expected %r' % (got, want), dict(case, positional=len(args), named=sorted(kw)))
		else: rowlaws(got[1], want)
		if list(row) != vs: V('row-transform', 'changed the row', case)
		same('row-transform-refused', lambda: row.transform(**{'no such': repr}), ('e', KeyError), case)
		if outcome(lambda: row.transform(*[repr] * (n + 1)))[0] != 'e': V('row-transform-refused', 'more callables than columns', case)
		def boom(v): raise Quit
		if n: same('row-transform-error', lambda: row.transform(boom), ('e', Quit), case)
		if how == 'map' and n: # absent keys are NULL
			d = dict(zip(ns, vs)); gone = r.choice(ns); del d[gone]
			same('row-from-mapping', lambda: list(Row.from_mapping({x: i for i, x in enumerate(ns)}, d)), ('v', [None if x == gone else v for x, v in zip(ns, vs)]), case)
		ctx.case('r%r%r' % (ns, hash(repr(vs))), sample=case if r.random() < .002 else None); ctx.count('rows')

	# -- named tuples, helpers
	from postgresql.types import namedtuple as nt
	from postgresql.python import itertools as pit, functools as pft, string as pst
	class Stmt: pass
	for i in range(ctx.scale(1000, 10000)):
		n = r.randint(1, 6); ns = r.sample([x for x in names], n)
		if r.random() < .3: ns[-1] = ns[0]
		rows = [tuple(r.choice(pool) for _ in ns) for _ in range(r.randint(0, 5))]
		s = Stmt(); s.column_names = tuple(ns); cut = r.randint(0, len(rows)); s.chunks = lambda *a: iter([rows[:cut], rows[cut:]])
		got = outcome(lambda: list(nt.namedtuples(s)()))
		case = dict(names=ns)
		if got[0] == 'e' or [tuple(x) for x in got[1]] != rows: V('namedtuples', repr(got)[:300], case); continue
		for row in got[1]:
			for j, x in enumerate(ns):
				x = x.replace(' ', '_')
				if x.isidentifier() and not x.startswith('_') and ns.count(ns[j]) == 1 and x not in ('class',) and [y.replace(' ', '_') for y in ns].count(x) == 1 and getattr(row, x) != row[j]: V('namedtuples', 'attribute %s' % x, case)
		if len(set(ns)) == n:
			km = {x: j for j, x in r.sample(list(enumerate(ns)), n)}
			f = nt.NamedTupleFactory(km)
			if [tuple(f(x)) for x in rows] != rows: V('namedtuple-factory', repr([f(x) for x in rows])[:200], case)
			if rows and n > 0 and ns[0].isidentifier() and ns[0] not in ('class', '_') and getattr(f(rows[0]), ns[0]) != rows[0][0]: V('namedtuple-factory', 'attribute %s' % ns[0], case)
		k = r.randint(1, 7); data = list(range(r.randint(0, 20)))
		ch = [list(x) for x in itertools.islice(pit.chunk(iter(data), k), 50)]
		if [y for x in ch for y in x] != data or any(len(x) != k for x in ch[:-1]) or ch and len(ch[-1]) > k: V('chunk', '%r by %d: %r' % (data, k, ch), None)
		its = [[(a, b) for b in range(k)] for a in range(n)]
		if list(itertools.islice(pit.interlace(*its), n * k)) != [(a, b) for b in range(k) for a in range(n)]: V('interlace', '', None)
		p = r.randint(0, 25)
		if pit.find(data, lambda x: x >= p) != next((x for x in data if x >= p), None): V('find', '', None)
		fs = [r.choice((lambda v: (v, 1), lambda v: [v], str)) for _ in range(r.randint(0, 4))]; w = 5
		for g in fs: w = g(w)
		if pft.Composition(fs)(5) != w: V('composition', '', None)
		o = Stmt()
		if pft.rsetattr('x', k, o) is not o or o.x != k: V('rsetattr', '', None)
		# rows are processed column by column, NULLs are left alone
		procs = tuple(r.choice((str, repr, lambda v: (v,))) for _ in ns); tup = [tuple(None if r.random() < .3 else v for v in x) for x in rows]
		def fail(*a): raise Quit(a[-1])
		want = [tuple(None if v is None else f(v) for f, v in zip(procs, x)) for x in tup]
		if pft.process_chunk(procs, tup, fail) != want or [pft.process_tuple(procs, x, fail) for x in tup] != want: V('process', '', case)
		j = r.randrange(n)
		def bad(v): raise ZeroDivisionError
		procs = procs[:j] + (bad,) + procs[j + 1:]
		for x in tup:
			g = outcome(lambda: pft.process_tuple(procs, x, fail))
			if (g == ('e', Quit)) != (x[j] is not None): V('process-error', repr(g), case)
		ctx.case('h%d' % i); ctx.count('helpers')

	# -- SQL subscripts and rows as the server has them
	db = ctx.connect()
	gs = db.prepare("select a, b from (select $1::int[]) x(a), (select 1) y(b)")
	for i in range(ctx.scale(300, 4000)):
		if ctx.elapsed() > ctx.scale(36, 560): break
		shape = tuple(r.randint(1, 3) for _ in range(r.randint(1, 4))); c = itertools.count(1); m = nested(shape, lambda: next(c) if r.random() < .9 else None)
		lb = tuple(r.choice((1, 0, -2, 4)) for _ in shape)
		a = Array.from_elements(flat(m, len(shape)), lowerbounds=lb, upperbounds=tuple(l + s - 1 for l, s in zip(lb, shape)))
		back = db.prepare('select $1::int[]').first(a)
		if back.nest() != m or tuple(back.lowerbounds) != lb: V('array-server', '%r came back as %r %r' % (m, back.nest(), back.lowerbounds), None)
		ads = [[l + r.randint(-1, s) for l, s in zip(lb, shape)] for _ in range(6)] + [list(lb) + [1], list(lb)[:-1] or [lb[0], 1]]
		row = db.prepare('select ' + ', '.join('($1::int[])%s' % ''.join('[%d]' % x for x in ad) for ad in ads)).first(a)
		for ad, w in zip(ads, row):
			g = outcome(lambda: a.sql_get_element(ad))
			if g != ('v', w): V('array-sql-address-length' if len(ad) != len(shape) else 'array-sql-address', '%r of %r %r: %r, the server has %r' % (ad, m, lb, g, w), None)
			ctx.count('server-subscripts')
		ctx.case('s%r%r' % (shape, lb))
	for i in range(ctx.scale(30, 400)):
		n = r.randint(1, 8); ns = r.sample([x for x in names if x], n)
		row = db.prepare('select ' + ', '.join('%d AS "%s"' % (j, x) for j, x in enumerate(ns))).first() if n > 1 else db.prepare('select %d AS "%s"' % (0, ns[0]))()[0]
		if [row[x] for x in ns] != list(range(n)) or tuple(row.column_names) != tuple(ns): V('row-server', '%r %r' % (ns, row), None)
		ctx.case('q%r' % ns)
	db.close()
	ctx.require('arrays', 'rows', 'helpers', 'addresses', 'ragged', 'bad-bounds', 'server-subscripts')
