"""C26: IRIs parse and serialise without loss."""
import copy, traceback

RES = "%:/?#[]@!$&'()*+,;=\"\\ ^`{|}<>~-._"
PCT = ('%', '%%', '%25', '%2F', '%2f', '%zz', '%4', '%C3', '%C3%A9', '%E9', '%F0%9F%98%80', '%00', '%5B', '%40', '%3A')
UNI = 'éßæ»ᏋЖ日本😀\u00ad\u2028\u0301ÿ\x7f\x80\xa0'
CTL = '\t\n\r\x01\x1b\x1f'

def text(r, empty=.05, extra=(), lead=()):
	if r.random() < empty: return ''
	k = r.random()
	if k < .15: return r.choice(('a', 'user', 'Some Name', 'x1', 'localhost', 'p4ss'))
	s = ''
	if lead and r.random() < .15: s += r.choice(lead)
	for i in range(r.choice((1, 1, 2, 3, 5, 9))):
		k = r.random()
		if k < .35: s += r.choice(RES)
		elif k < .5: s += r.choice(PCT)
		elif k < .65: s += r.choice(UNI)
		elif k < .7: s += r.choice(CTL)
		elif k < .78 and extra: s += r.choice(extra)
		else: s += r.choice(('a', 'B', '7', 'foo', 'é'))
	return s or 'z'

HOSTS = ('::1', 'fe80::1%eth0', '127.0.0.1', '1:2:3::4', 'unix:x', 'unix:/tmp/x', 'unix', '[::1]', '[', ']', 'h]', '[x', 'a@b', 'a@b:c', 'unix:', ':', 'UNIX:x', '%5B::1%5D', 'a:b@c', 'pq://h', '://')
UNIXES = ('/tmp/.s.PGSQL.5432', '/tmp/a:b', '/a%b', '/x]y', '/x[y/', '@abstract', 'relative/p', '/a%3Ab', '/', '/é@h?#', '//', '/tmp/:/::')

def settings_key(r):
	if r.random() < .25: return r.choice(('[x]', '[user]', '[settings]', '[', '[]', ']', 'a=b', '=a', '#', '&', 'work_mem', 'a.b', '%5Bx%5D', '[host]'))
	return text(r, empty=0, extra=('=', '&', '[', ']')) or 'k'

DRIVER = ('sslmode', 'connect_timeout', 'server_encoding', 'sslrootcrtfile', 'x]', 'é', 'a=b', 'a&b', '[y', '%41', 'pgpassfile', 'role', 'scheme', 'query', 'fragment', 'netloc')

def params(r):
	d = {}
	def maybe(p): return r.random() < p
	if maybe(.6): d['user'] = text(r)
	if maybe(.55): d['password'] = text(r, extra=('***', ':', '@'))
	k = r.random()
	if k < .55: d['host'] = r.choice(HOSTS) if maybe(.5) else text(r)
	elif k < .75: d['unix'] = r.choice(UNIXES) if maybe(.5) else '/' + text(r, extra=('/', ':'))
	if maybe(.45): d['port'] = r.choice((5432, '5432', 'ssh', 0, 1, '')) if maybe(.7) else text(r)
	if maybe(.6): d['database'] = text(r)
	if maybe(.35): d['path'] = [text(r, empty=.15) for i in range(r.choice((1, 1, 2, 4)))]
	if maybe(.4):
		for i in range(r.choice((1, 1, 2, 3))):
			d[r.choice(DRIVER)] = r.choice((10, 'x', None)) if maybe(.3) else text(r)
	if maybe(.55):
		s = {}
		for i in range(r.choice((0, 1, 1, 2, 4))):
			s[settings_key(r)] = r.choice((None, 0, True, '')) if maybe(.2) else text(r, extra=('=', '&', '#', '\''))
		s.pop('search_path', None)
		if maybe(.5):
			s['search_path'] = sp(r)
		if s: d['settings'] = s
	it = list(d.items()); r.shuffle(it)
	return dict(it)

def ident(r): return text(r, empty=0, extra=(',', '"', '.', '""', ', '))
def sp(r):
	k = r.random()
	if k < .5: return [ident(r) for i in range(r.choice((1, 1, 2, 3, 5)))]
	if k < .6: return []
	if k < .7: return ''
	if k < .85: return ','.join('"' + ident(r).replace('"', '""') + '"' for i in range(r.choice((1, 2, 3))))
	return r.choice(('public', 'public, pg_catalog', '$user, public', '"$user", public', 'Foo,"Bar"', '"a,b",c', '"a""b"', 'a b', '"unterminated', 'x,', '$user'))

def splitpath(s):
	"""Identifiers of a search path text, as the server would split them; None if not a list."""
	if not s.strip(): return []
	out, i, n = [], 0, len(s)
	while True:
		while i < n and s[i] in ' \t\n\r\f\v': i += 1
		if i < n and s[i] == '"':
			i += 1; w = ''
			while True:
				j = s.find('"', i)
				if j < 0: return None
				w += s[i:j]
				if s[j:j + 2] == '""': w += '"'; i = j + 2
				else: i = j + 1; break
			if not w: return None
			out.append(w)
		else:
			j = i
			while j < n and s[j] not in ', \t\n\r\f\v': j += 1
			if i == j: return None
			out.append(s[i:j].lower()); i = j
		while i < n and s[i] in ' \t\n\r\f\v': i += 1
		if i == n: return out
		if s[i] != ',': return None
		i += 1

def norm(d):
	out = {}
	for k, v in d.items():
		if k == 'settings':
			s = {}
			for sk, sv in dict(v).items():
				if sk == 'search_path' and sv is not None:
					s[sk] = ('path', tuple(sv)) if not isinstance(sv, str) else ('path', tuple(splitpath(sv))) if splitpath(sv) is not None else sv
				else: s[sk] = None if sv is None else str(sv)
			if s: out[k] = s
		elif k == 'path': out[k] = [str(x) for x in v]
		elif v is None and k in ('user', 'password', 'host', 'port', 'unix', 'database'): pass
		else: out[k] = None if v is None else str(v)
	return out

SAFE = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_~')
def enc(r, s, p=.3, also=''):
	"""Percent-encode: everything not plainly unreserved, and anything else with probability p."""
	out = ''
	for c in s:
		if c in SAFE and r.random() > p: out += c
		elif ord(c) > 127 and c.isalnum() and r.random() > .6: out += c
		else:
			for b in c.encode('utf-8'):
				h = '%%%02X' % b
				out += h.lower() if r.random() < .3 else h
	return out

def independent(r, d):
	"""An IRI for `d`, written by the rules and not by the code under test."""
	s = r.choice(('pq', 'postgres', 'postgresql', 'PQ', 'Postgres')) + '://'
	drv = {}
	if d.get('user') is not None:
		s += enc(r, d['user'])
		if d.get('password') is not None: s += ':' + enc(r, d['password'])
		s += '@'
	elif d.get('password') is not None: drv['password'] = d['password']
	if d.get('unix') is not None:
		s += '[unix:' + ':'.join(enc(r, x) for x in d['unix'].split('/')) + ']'
	elif d.get('host') is not None:
		h = d['host']
		if h == '' or ':' in h:
			s += '[' + (':'.join(enc(r, x) for x in h.split(':')) if not h.startswith('unix') else enc(r, h, 1)) + ']'
		else: s += enc(r, h)
	if d.get('port') is not None:
		if 'unix' in d or 'host' in d: s += ':' + enc(r, str(d['port']))
		else: drv['port'] = str(d['port'])
	if d.get('database') == '': drv['database'] = ''
	if d.get('database') or d.get('path'):
		s += '/' + enc(r, d.get('database') or '')
		for x in d.get('path', ()): s += '/' + enc(r, x)
	elif r.random() < .3: s += '/'
	q = []
	for k, v in d.items():
		if k not in ('user', 'password', 'host', 'port', 'unix', 'database', 'path', 'settings'): drv[k] = v
	for k, v in drv.items():
		q.append('[' + enc(r, k) + ']' + ('' if v is None else '=' + enc(r, str(v))))
	frag = None
	for k, v in d.get('settings', {}).items():
		if k == 'search_path' and v is not None:
			l = splitpath(v) if isinstance(v, str) else v
			if l: frag = ','.join(enc(r, x) for x in l)
			else: q.append('search_path=' + enc(r, v if isinstance(v, str) else ''))
		else: q.append(enc(r, k) + ('' if v is None else '=' + enc(r, str(v))))
	r.shuffle(q)
	if q: s += '?' + '&'.join(q)
	elif r.random() < .1: s += '?'
	if frag is not None: s += '#' + frag
	return s

def main(ctx):
	ctx.rule = 'a distinct set of parameters, or a distinct IRI'
	import postgresql.iri as iri, postgresql.resolved.riparse as ri
	import postgresql.driver as drv
	r = ctx.rng('iri')
	N = ctx.scale(25000, 250000)
	for i in range(N):
		d = params(r)
		want = norm(d)
		try:
			s = iri.serialize(d)
			ctx.case(s, sample=s if i % 3000 == 5 else None)
			got = norm(iri.parse(s))
		except Exception as e:
			ctx.violation('refused:roundtrip', '%s: %s' % (type(e).__name__, e), repr(d)); continue
		ctx.count('round-trips')
		for k in d: ctx.count('with:' + (k if k in ('user', 'password', 'host', 'unix', 'port', 'database', 'path', 'settings') else 'driver'))
		if got != want:
			for k in sorted(set(got) | set(want)):
				if got.get(k) != want.get(k):
					ctx.violation('lost:' + (k if k in ('user', 'password', 'host', 'unix', 'port', 'database', 'path', 'settings') else 'driver'), '%r became %r through %r' % (want.get(k), got.get(k), s), repr(d)); break
		if 'settings' in d and i % 2:
			# settings as a sequence of pairs, in which a later one counts
			seq = list(d['settings'].items()); r.shuffle(seq)
			try: s4 = norm(iri.parse(iri.serialize(dict(d, settings=seq))))
			except Exception as e: ctx.violation('refused:pairs', '%s: %s' % (type(e).__name__, e), repr(seq))
			else: ctx.expect(s4 == want, 'lost:pairs', '%r became %r' % (want, s4), repr(seq))
			ctx.count('settings as pairs')
		# serialising what was parsed changes nothing any more
		if i % 3 == 0:
			try: s2 = iri.serialize(iri.parse(s)); s3 = norm(iri.parse(s2))
			except Exception as e: ctx.violation('refused:again', repr(e), s); s3 = got
			if s3 != got: ctx.violation('unstable', '%r -> %r' % (s, s2), repr(d))
			# what was given and what was got are not shared with anything
			own = copy.deepcopy(d); iri.serialize(d, obscure_password=True)
			if own != d or list(own) != list(d): ctx.violation('argument-altered', '%r became %r' % (own, d), s)
			for parse in (iri.parse, ri.parse):
				try: a = parse(s)
				except Exception: continue
				b = copy.deepcopy(a)
				for v in list(a.values()):
					if isinstance(v, (dict, list)): v.clear()
				a.clear(); a['user'] = 'another'
				c = parse(s)
				if b != c: ctx.violation('result-shared', 'after the first result was altered, %r gave %r, before %r' % (s, c, b), s)
			ctx.count('results altered')
		# the password is obscured, everything else is as it was
		if i % 2 == 0:
			e = dict(d)
			secret = 'S3cr%%t-%s!%d' % (r.choice(('é', ':', '@', '[', '/', ' ')), i)
			e['password'] = secret + text(r)
			try:
				o = iri.serialize(e, obscure_password=True)
				got = norm(iri.parse(o))
			except Exception as x:
				ctx.violation('refused:obscured', repr(x), repr(e)); continue
			ctx.count('obscured')
			if e['password'] in o or 'S3cr' in o: ctx.violation('password-shown', 'obscured serialisation %r' % o, repr(e))
			w = norm(dict(e, password='***'))
			if got != w: ctx.violation('obscured-differs', '%r, expected %r: %r' % (got, w, o), repr(e))
			e.pop('password')
			try: o2 = iri.serialize(e, obscure_password=True)
			except Exception as x: ctx.violation('refused:obscured', repr(x), repr(e)); continue
			if norm(iri.parse(o2)) != norm(e): ctx.violation('obscured-differs', 'without a password: %r' % o2, repr(e))
		# IRIs written by the rules
		t = independent(r, d)
		try: got = norm(iri.parse(t))
		except Exception as x:
			ctx.violation('refused:parse', '%r for %r' % (x, t), repr(d)); continue
		ctx.case(t); ctx.count('independent-iris')
		if got != want:
			for k in sorted(set(got) | set(want)):
				if got.get(k) != want.get(k):
					ctx.violation('misparsed:' + (k if k in ('user', 'password', 'host', 'unix', 'port', 'database', 'path', 'settings') else 'driver'), '%r read from %r, expected %r' % (got.get(k), t, want.get(k)), repr(d)); break
	# a parser never raises on, and never loses track of, arbitrary texts
	for i in range(ctx.scale(8000, 80000)):
		s = r.choice(('', 'pq://', 'postgres://')) + text(r, extra=('[', ']', '://', '?', '#', '@', ':', '/', '[unix:', '=', '&'))*r.choice((1, 1, 2))
		sch = s.split('://', 1)[0] if '://' in s else None
		try: p = iri.parse(s)
		except ValueError as e:
			if 'scheme' not in str(e): ctx.violation('refused:text', repr(e), s)
			continue
		except Exception as e:
			ctx.violation('refused:text', '%s: %s' % (type(e).__name__, e), s); continue
		ctx.case(('text', s)); ctx.count('texts')
		try: q = iri.parse(iri.serialize(p))
		except Exception as e: ctx.violation('refused:text', '%s: %s' % (type(e).__name__, e), s); continue
		if p.get('settings', {}).get('search_path') and '' in p['settings']['search_path']: continue
		a, b = norm(p), norm(q)
		if a != b and not ('' in a or '' in a.get('settings', {})): ctx.violation('text-unstable', '%r -> %r -> %r' % (s, a, b), s)
	# other schemes are refused
	for s in ('http', 'pqx', 'mysql', 'p', 'postgre', 'ftp', 'pq.x'):
		try: x = iri.parse(s + '://h/d')
		except ValueError: ctx.count('schemes-refused')
		else: ctx.violation('scheme-accepted', '%r gave %r' % (s, x), s)
	# riparse: dictionaries of any resource indicator
	def piece(not_in=''):
		while True:
			t = text(r, empty=0)
			if t and not any(c in t for c in not_in): return t
	for i in range(ctx.scale(5000, 50000)):
		d = {}; m = lambda p: r.random() < p
		if m(.6): d['scheme'] = r.choice(('http', 'pq', 'a+b', 'x-1.y'))
		if m(.5):
			d['user'] = piece()
			if m(.5): d['password'] = piece()
		if m(.7):
			d['host'] = r.choice(('[::1]', '[a:b]', piece(':[]')))
			if m(.5): d['port'] = piece()
		if m(.6): d['path'] = [piece() if m(.9) else '' for k in range(r.randint(1, 4))]
		if d.get('path') == ['']: d['path'] = []
		if m(.6): d['query'] = [(piece(), r.choice((None, piece(), ''))) for k in range(r.randint(1, 4))]
		if m(.5): d['fragment'] = piece()
		s = ri.serialize(d); g = ri.parse(s)
		ctx.case(('ri', s)); ctx.count('ri-dictionaries')
		if g != d: ctx.violation('ri-roundtrip', '%r became %r through %r' % (d, g, s), s)
		elif ri.serialize(g) != s or ri.construct(g) != ri.split(s): ctx.violation('ri-serialize', '%r became %r' % (s, ri.serialize(g)), s)
	# riparse: split/unsplit, parse/serialize
	for i in range(ctx.scale(8000, 80000)):
		s = text(r, extra=('[', ']', '://', '?', '#', '@', ':', '/', '=', '&'), lead=('http://', 'x-1.2+y://', '?', '#'))*r.choice((1, 1, 2))
		if ri.unsplit(ri.split(s)) != s: ctx.violation('unsplit', '%r -> %r -> %r' % (s, ri.split(s), ri.unsplit(ri.split(s))), s)
		parts = [text(r) for k in range(r.choice((1, 2, 4)))]
		if parts != ['']:
			p = ri.split_path(ri.unsplit_path(parts))
			if p != parts: ctx.violation('path', '%r -> %r' % (parts, p), repr(parts))
		ctx.count('ri-texts')
	# connectors and their failures never show the password
	r = ctx.rng('connectors')
	for i in range(ctx.scale(150, 1500)):
		secret = 'S3cret' + text(r, empty=0)
		if '\0' in secret: continue
		u, db = text(r, empty=0), text(r, empty=0)
		kw = dict(user=u, password=secret, database=db, settings={'a': 'b'}, connect_timeout=5, sslmode='disable')
		kw.update(r.choice((dict(host='127.0.0.1', port=1), dict(unix=ctx.scratch + '/no:such%sock]'), dict(host='::1', port='1'))))
		C = drv.default.fit(**kw)
		t = C._pq_iri
		if 'S3cret' in t: ctx.violation('password-shown', 'connector: %r' % t, repr(kw))
		p = iri.parse(t)
		if (p.get('user'), p.get('database'), p.get('password')) != (u, db, '***') or p.get('host') != kw.get('host') or p.get('unix') != kw.get('unix'):
			ctx.violation('connector-iri', '%r from %r' % (p, t), repr(kw))
		ctx.count('connectors')
		if i % 3 == 0:
			c = C()
			try: c.connect()
			except Exception as e:
				x = ''.join(traceback.format_exception_only(type(e), e)) + str(e)
				if 'S3cret' in x: ctx.violation('password-shown', 'in the error: %s' % x, repr(kw))
				ctx.count('failures-shown')
			else: ctx.violation('connected', 'connected to nothing', repr(kw))
	ctx.require('results altered', 'round-trips', 'obscured', 'independent-iris', 'texts', 'schemes-refused', 'ri-texts', 'connectors', 'failures-shown',
		'with:user', 'with:password', 'with:host', 'with:unix', 'with:port', 'with:database', 'with:path', 'with:settings', 'with:driver', 'settings as pairs', 'ri-dictionaries')
