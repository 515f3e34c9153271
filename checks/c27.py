"""C27: client parameters and passwords resolve by the documented precedence."""
import io, os, pwd, sys
from checks import c26

ENV = dict(USER='user', DATABASE='database', HOST='host', PORT='port', PASSWORD='password', SSLMODE='sslmode', SSLKEY='sslkey',
	CONNECT_TIMEOUT='connect_timeout', REALM='kerberos4_realm', KRBSRVNAME='kerberos5_service', PASSFILE='pgpassfile')
ENVSET = dict(TZ='timezone', DATESTYLE='datestyle', CLIENTENCODING='client_encoding', GEQO='geqo', OPTIONS='options')
SETTINGS = ('timezone', 'datestyle', 'client_encoding', 'geqo', 'search_path', 'work_mem', 'application_name', 'a.b')
SERVICE_KEYS = ('user', 'host', 'dbname', 'port', 'password', 'sslmode', 'connect_timeout', 'sslcrtfile', 'sslkeyfile', 'sslrootcrtfile', 'sslrootcrlfile', 'server_encoding', 'work_mem', 'search_path', 'hostaddr', 'DateStyle')

class Tok:
	def __init__(self): self.n = 0
	def __call__(self, what='v'):
		self.n += 1
		return '%s%d' % (what, self.n)

def merge(seq):
	"""The model: later wins, key by key; a socket and a host exclude each other."""
	addr = [k for k, v in seq if k in ('unix', 'host')]
	drop = ()
	if addr: drop = ('host', 'port') if addr[-1] == 'unix' else ('unix',)
	d = {}
	for k, v in seq:
		if isinstance(k, tuple): d.setdefault('settings', {})[k[1]] = v
		elif k not in drop: d[k] = v
	return d

# -- password files
def field(r, v):
	return v.replace('\\', '\\\\').replace(':', '\\:')

VALS = dict(host=('h1', 'localhost', '::1', 'h\\', 'h:2', 'fe80::1', 'é', 'a b'), port=('5432', '5433', 'ssh'), database=('db', 'd:b', 'd\\b', ':', 'x y', '日本', '\\:'), user=('u1', 'u:2', '\\u', 'u\\\\', 'me'))
ORDER = ('host', 'port', 'database', 'user')
PW = ('pw', 'p:w', 'p\\w', '\\', ':', ' lead', 'trail ', '\ttab\t', '*', '#', 'é日', 'a\\:b', '\\\\', ' ', '::', 'x' * 300)

def passfile(r):
	"""(text, [(fields, password)])"""
	out, entries = '', []
	for i in range(r.choice((0, 1, 2, 5, 12))):
		k = r.random()
		if k < .12: out += r.choice(('# comment', '#h1:5432:db:u1:no', '#*:*:*:*:no', '   # h1:5432:db:u1:x', '#'))
		elif k < .2: out += r.choice(('', '   ', '\t'))
		elif k < .32: out += r.choice(('h1:5432:db:u1', 'h1', ':::', '*:*:*:*', 'h1\\:5432:db:u1:pw', '*:*:*\\:*:no', 'garbage', ':', 'h1:5432:db'))
		else:
			f = {n: ('*' if r.random() < .45 else r.choice(VALS[n])) for n in ORDER}
			pw = r.choice(PW) if r.random() < .7 else 'pw%d' % i
			entries.append((f, pw))
			out += ':'.join(field(r, f[n]) for n in ORDER) + ':' + field(r, pw)
		out += '\n'
	if r.random() < .2 and out.endswith('\n'): out = out[:-1]
	return out, entries

def near(r, q):
	"""a file for this query: entries differing from it in one field, then one that is it"""
	entries = []
	for i in range(r.randrange(5)):
		n = r.choice(ORDER); f = dict(q); f[n] = r.choice([v for v in (*VALS[n], 'None', 'localhost', '5432', q['user'], '') if v != q[n]])
		entries.append((f, 'near %d' % i))
	if r.random() < .8: entries.append(({n: '*' if r.random() < .2 else q[n] for n in ORDER}, 'exact'))
	for i in range(r.randrange(3)): entries.append(({n: '*' if r.random() < .6 else q[n] for n in ORDER}, 'later %d' % i))
	return ''.join(':'.join(field(r, f[n]) for n in ORDER) + ':' + pw + '\n' for f, pw in entries), entries

def query(want):
	user = str(want.get('user'))
	return dict(user=user, host=want.get('host') or 'localhost', port=str(want.get('port') or 5432), database=str(want.get('database') or user))

def usable(q):
	"a line can hold these fields, and is not taken for a comment; white space around a line is not part of it"
	return not any('\n' in x or '\r' in x for x in q.values()) and not q['host'].startswith('#') and q['host'] == q['host'].lstrip()

def find(entries, q):
	for f, pw in entries:
		if all(f[n] in ('*', q[n]) for n in ORDER): return pw
	return None

def main(ctx):
	ctx.rule = 'a distinct combination of sources, or a distinct password file and query'
	import postgresql, postgresql.clientparameters as cp, postgresql.pgpassfile as pp
	from postgresql.exceptions import Error
	home = os.path.join(ctx.scratch, 'home'); etc1 = os.path.join(ctx.scratch, 'etc1'); etc2 = os.path.join(ctx.scratch, 'etc2')
	for d in (home, home + '/.postgresql', etc1, etc2): os.makedirs(d, exist_ok=True)
	# the home of every account is the scratch one
	real = pwd.getpwnam(pwd.getpwuid(os.getuid()).pw_name)
	class Pw:
		pw_dir = home
		def __getattr__(self, n): return getattr(real, n)
		def __getitem__(self, i): return home if i == 5 else real[i]
	pwd.getpwnam = lambda name: Pw()
	base_env = {k: v for k, v in os.environ.items() if not k.startswith('PG')}
	for k in [k for k in os.environ if k.startswith('PG')]: del os.environ[k]
	os.environ['HOME'] = home
	r = ctx.rng('pgpass')
	for i in range(ctx.scale(6000, 80000)):
		text, entries = passfile(r)
		try: words = pp.parse(io.StringIO(text))
		except Exception as e:
			ctx.violation('passfile-refused', '%s: %s' % (type(e).__name__, e), text); continue
		for j in range(4):
			q = {n: r.choice(VALS[n] + ('other', '*')[:1]) for n in ORDER}
			if entries and r.random() < .6:
				f = r.choice(entries)[0]
				q = {n: q[n] if f[n] == '*' else f[n] for n in ORDER}
			got, want = pp.lookup_password(words, (q['user'], q['host'], q['port'], q['database'])), find(entries, q)
			ctx.case((text, repr(q)), sample='%r %r -> %r' % (text[:150], q, got) if i % 900 == 7 else None); ctx.count('lookups'); ctx.count('found' if want is not None else 'not-found')
			if got != want: ctx.violation('pgpass-lookup', 'gave %r, expected %r' % (got, want), dict(text=text, query=q))
	# -- sources
	r = ctx.rng('sources')
	def write(p, s):
		with open(p, 'w') as f: f.write(s)
	def rm(p):
		if os.path.exists(p): os.unlink(p)
	for i in range(ctx.scale(4000, 40000)):
		tok = Tok()
		desc = {}
		who = r.choice(('me', 'u1', 'someone'))
		os.environ['LOGNAME'] = who
		# files of the defaults
		present = {}
		for k, n in (('sslcrtfile', 'postgresql.crt'), ('sslkeyfile', 'postgresql.key'), ('sslrootcrtfile', 'root.crt'), ('sslrootcrlfile', 'root.crl')):
			p = home + '/.postgresql/' + n
			if r.random() < .25: write(p, 'x'); present[k] = p
			else: rm(p)
		hp = home + '/.pgpass'
		if r.random() < .4:
			text, hent = passfile(r); write(hp, text); present['pgpassfile'] = hp; desc['.pgpass'] = text
		else: rm(hp); hent = []
		nodef = r.random() < .3
		seq = []
		if not nodef:
			seq += [('user', who), ('host', 'localhost'), ('port', 5432)] + list(present.items())
		# base parameters
		def some(keys, p): return [k for k in keys if r.random() < p]
		base = {}
		if r.random() < .6:
			for k in some(('user', 'host', 'port', 'database', 'password', 'sslmode', 'connect_timeout', 'server_encoding'), .25): base[k] = r.choice(VALS[k]) if k in VALS and r.random() < .5 else tok('base')
			if r.random() < .15: base['unix'] = tok('/base')
			if 'host' in base and 'unix' in base: del base['unix']
			st = {k: tok('base') for k in some(SETTINGS, .2)}
			if st: base['settings'] = st if r.random() < .7 else list(st.items())
			for k, v in base.items():
				if k == 'settings': seq += [(('settings', a), b) for a, b in st.items()]
				else: seq.append((k, v))
		# environment
		env, prefix = None, 'PG'
		kw = {}
		envkeys = set()
		svc = None
		refused = False
		if r.random() < .85:
			prefix = r.choice(('PG', 'PG', 'PG_SRC_', 'X'))
			env = {}
			order = []
			if r.random() < .15: env[prefix + 'REQUIRESSL'] = r.choice(('1', ' 1 ', '0', ''))
			for k in some(ENV, .18):
				if k == 'SSLMODE' and prefix + 'REQUIRESSL' in env: continue
				if k == 'PASSFILE':
					text, pent = passfile(r); v = ctx.scratch + '/passfile'; write(v, text); desc['PASSFILE'] = text
				else: v = tok('env')
				env[prefix + k] = v; order.append((ENV[k], v)); envkeys.add(ENV[k])
			if env.get(prefix + 'REQUIRESSL', '').strip() == '1': order.append(('sslmode', 'require')); envkeys.add('sslmode')
			if r.random() < .1:
				env[prefix + 'HOSTADDR'] = v = tok('addr')
				order.append(('host', v)); envkeys.add('host')
			for k in some(ENVSET, .2):
				env[prefix + k] = v = tok('env'); order.append((('settings', ENVSET[k]), v)); envkeys.add(ENVSET[k])
			seq += order
			# other variables mean nothing
			env['PATH'] = '/bin'
			if prefix != 'PG':
				for k in some(list(ENV) + list(ENVSET), .1): env['PG' + k] = 'WRONG'
			# a service
			if r.random() < .3:
				name = r.choice(('svc', 'Svc 2', 'é', 'other'))
				env[prefix + 'SERVICE'] = name
				def body(tag):
					d, used = {}, set()
					for k in some(SERVICE_KEYS, .25):
						m = {'dbname': 'database', 'hostaddr': 'host'}.get(k, k.lower())
						if m in used or m in envkeys: continue
						used.add(m)
						d[k] = tok(tag) if m != 'search_path' else '%s, "a%%b" = c' % tok(tag)
					return d
				files = {}
				def mk(path, tag, p):
					rm(path)
					if r.random() < p:
						sections = {n: body(tag) for n in ('svc', 'Svc 2', 'é', 'unrelated') if r.random() < .6}
						t = r.choice(('', '# comment\n', '\n'))
						for n, d in sections.items():
							t += '[%s]\n' % n + ''.join(r.choice(('%s=%s\n', '%s = %s\n', '%s=%s  \n', '# no = 1\n%s=%s\n')) % kv for kv in d.items()) + '\n'
						write(path, t); files[path] = sections; desc[path] = t
				mk(home + '/.pg_service.conf', 'home', .5)
				mk(etc1 + '/pg_service.conf', 'etc1', .6); mk(etc2 + '/pg_service.conf', 'etc2', .6)
				mk(ctx.scratch + '/explicit.conf', 'explicit', .8)
				search = [home + '/.pg_service.conf']
				k = r.random()
				if k < .25: env['PGSERVICEFILE'] = ctx.scratch + '/explicit.conf'; search = [ctx.scratch + '/explicit.conf']
				elif k < .5: kw['pg_service_file'] = ctx.scratch + '/explicit.conf'; search = [ctx.scratch + '/explicit.conf']
				sysdir = None
				if r.random() < .4: kw['default_pg_sysconfdir'] = sysdir = etc1
				if r.random() < .4: env['PGSYSCONFDIR'] = sysdir = etc2
				if sysdir: search.append(sysdir + '/pg_service.conf')
				for f in search:
					if name in files.get(f, {}):
						svc = files[f][name]; break
				if svc is None: refused = True
				else:
					ctx.count('services')
					for k, v in svc.items():
						m = {'dbname': 'database', 'hostaddr': 'host'}.get(k, k.lower())
						if m in ('work_mem', 'search_path', 'datestyle'): seq.append((('settings', m), v))
						else: seq.append((m, v))
		# parsed options
		co = None
		prompt = False
		argv = []
		std = r.random() < .3
		if r.random() < .6:
			opts = []
			def o(short, long, key, v):
				argv.extend(r.choice(([short, v], [short + v] if len(short) == 2 else [short, v], [long + '=' + v], [long, v])))
				opts.append((key, v))
			for k in range(r.choice((0, 1, 2, 3, 5))):
				w = r.randrange(4 if std else 9)
				if w == 0: o('-U', '--username', 'user', tok('opt'))
				elif w == 1: o('-d', '--database', 'database', tok('opt'))
				elif w == 2: o('-h', '--host', 'host', tok('opt'))
				elif w == 3: o('-p', '--port', 'port', tok('opt'))
				elif w == 4: o('--unix', '--unix', 'unix', tok('/opt'))
				elif w in (5, 6):
					k2, v = r.choice(SETTINGS), tok('opt') + r.choice(('', '=x', ' y', ','))
					argv.extend(r.choice((['-s', k2 + '=' + v], ['-s' + k2 + '=' + v], ['--setting=' + k2 + '=' + v])))
					opts.append((('settings', k2), v))
				elif w == 7:
					v = r.choice(('require', 'prefer', 'allow', 'disable')); argv.append('--ssl-mode=' + v); opts.append(('sslmode', v))
				else:
					d = {k: v for k, v in c26.params(r).items() if k in ('user', 'password', 'host', 'unix', 'port', 'database', 'settings', 'sslmode')}
					if 'unix' in d: d.pop('port', None)
					d = c26.norm(d)
					if d.get('sslmode', '') is None: d.pop('sslmode')
					for k2, v in list(d.get('settings', {}).items()):
						if isinstance(v, tuple): d['settings'][k2] = list(v[1]) if v[1] else ''
						elif k2 == 'search_path': del d['settings'][k2]
					t = c26.independent(r, d)
					argv.extend(r.choice((['-I', t], ['--iri=' + t])))
					for k2, v in d.items():
						if k2 == 'settings': opts += [(('settings', a), b) for a, b in v.items()]
						else: opts.append((k2, v))
			if r.random() < .12:
				prompt = True; argv.insert(0, r.choice(('-W', '--password'))); opts.append(('prompt_password', True))
			desc['argv'] = argv
			try: co, rest = (cp.StandardParser if std else cp.DefaultParser)().parse_args(argv)
			except SystemExit as e: ctx.violation('option-refused', 'exit %s' % e, argv); continue
			if rest: ctx.violation('option-left', repr(rest), argv)
			seq += opts
		want = merge(seq)
		desc.update(env=env, prefix=prefix, base=base, kw=kw, nodef=nodef)
		resolve = r.random() < .5
		q = query(want)
		if resolve and usable(q) and r.random() < .7:
			if want.get('pgpassfile') == ctx.scratch + '/passfile': text, pent = near(r, q); write(ctx.scratch + '/passfile', text); desc['PASSFILE'] = text
			elif want.get('pgpassfile') == hp: text, hent = near(r, q); write(hp, text); desc['.pgpass'] = text
		typed = 'typed %s' % tok('pw')
		old = sys.stdin
		try:
			sys.stdin = io.StringIO(typed + '\nnext\n')
			how = r.choice((0, 1))
			try:
				got = cp.collect(parsed_options=co, no_defaults=nodef, environ=env, environ_prefix=prefix, parameters=base, prompt_title=None if not resolve or how else 'T', **kw)
				if resolve and how:
					if got.get('settings') is not None and r.random() < .5: pass
					if r.random() < .3: got['prompt_title'] = 'zzz'
					cp.resolve_password(got)
			finally: sys.stdin = old
		except Error as e:
			if not refused: ctx.violation('refused', '%s: %s' % (type(e).__name__, e), desc)
			else: ctx.count('services-refused')
			continue
		except Exception as e:
			ctx.violation('refused', '%s: %s' % (type(e).__name__, e), desc); continue
		if refused: ctx.violation('service-accepted', 'no file has the service, got %r' % got, desc); continue
		if resolve:
			ctx.count('resolved')
			pf = want.pop('pgpassfile', None)
			if want.pop('prompt_password', False): want['password'] = typed; ctx.count('typed')
			elif want.get('password') is None and pf is not None:
				ent = pent if pf == ctx.scratch + '/passfile' else hent if pf == hp else []
				want['password'] = find(ent, q)
				if not want['password']: want.pop('password')
				else: ctx.count('from-file')
				if got.get('password') is None: got.pop('password', None)
		ctx.case(repr(desc), sample='%r -> %r' % (argv, got) if i % 500 == 3 else None); ctx.count('collected')
		for n in ('base', 'env', 'argv'):
			if desc.get(n): ctx.count('with:' + n)
		a = dict(got); b = dict(want)
		if a != b:
			k = [k for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)][0]
			ctx.violation('precedence:' + k, '%s: gave %r, expected %r' % (k, a.get(k), b.get(k)), desc)
	# a bad setting is a usage error
	for bad in (['-s', 'nothing'], ['--setting=x']):
		old = sys.stderr; sys.stderr = io.StringIO()
		try: cp.DefaultParser().parse_args(bad)
		except SystemExit as e: ctx.count('usage-errors'); ok = e.code == 2
		except Exception as e: ok = False; ctx_e = e
		else: ok = False
		finally: sys.stderr = old
		if not ok: ctx.violation('usage', 'an invalid setting was not reported as a usage error', bad)
	# -- prompting
	r = ctx.rng('prompt')
	class TTY(io.StringIO):
		def isatty(self): return True
	for i in range(ctx.scale(300, 3000)):
		p = dict(user=r.choice(('u1', 'é@:')), host=r.choice(('h1', '::1')), port=5432, prompt_password=r.choice((True, True, False)))
		if r.random() < .5: p['password'] = 'S3cret'
		if r.random() < .5: p['pgpassfile'] = '/nonexistent'
		if r.random() < .4: p['prompt_title'] = 'KEYTITLE'
		title = r.choice((None, 'ARGTITLE'))
		seen = []
		want = dict(p); pr = want.pop('prompt_password'); kt = want.pop('prompt_title', None); want.pop('pgpassfile', None)
		if pr: want['password'] = 'answer'
		old = sys.stdin; sys.stdin = TTY('wrong\n')
		try: cp.resolve_password(p, getpass=lambda t: seen.append(t) or 'answer', **({} if title is None else dict(prompt_title=title)))
		finally: sys.stdin = old
		got = dict(p)
		if got.get('password', 1) is None: got.pop('password')
		ctx.count('prompts'); ctx.case(('prompt', i))
		if got != want: ctx.violation('prompt', 'gave %r, expected %r' % (got, want), repr(want))
		if len(seen) != int(pr): ctx.violation('prompt', 'prompted %d times' % len(seen), repr(want))
		for t in seen:
			if 'S3cret' in t: ctx.violation('prompt-password', t, repr(want))
			exp = title or kt
			if exp and exp not in t: ctx.violation('prompt-title', '%r does not have %r' % (t, exp), repr(want))
			if title and kt and kt in t: ctx.violation('prompt-title', '%r has %r' % (t, kt), repr(want))
	# -- postgresql.open(): environment, then the IRI, then keywords
	r = ctx.rng('open')
	from postgresql.driver import dbapi20
	dbapi20.Connection.connect = lambda self: None    # only how it would connect is of interest
	for i in range(ctx.scale(3000, 30000)):
		tok = Tok(); seq = []
		for k in [k for k in os.environ if k.startswith('PG')]: del os.environ[k]
		os.environ['LOGNAME'] = who = 'u1'
		if r.random() < .5:
			text, hent = passfile(r); write(hp, text)
		else: rm(hp); hent = []; text = None
		for n in ('postgresql.crt', 'postgresql.key', 'root.crt', 'root.crl'): rm(home + '/.postgresql/' + n)
		seq = [('user', who), ('host', 'localhost'), ('port', 5432)]
		env = {}
		for k in [k for k in ENV if r.random() < .2 and k in ('USER', 'DATABASE', 'HOST', 'PORT', 'PASSWORD', 'SSLMODE', 'CONNECT_TIMEOUT')]:
			v = {'HOST': r.choice(('h1', '10.0.0.1', '::2')), 'PORT': '5433', 'SSLMODE': r.choice(('require', 'disable'))}.get(k) or tok('env')
			if k == 'CONNECT_TIMEOUT': v = '7'
			env['PG' + k] = v; seq.append((ENV[k], v))
		for k in ENVSET:
			if r.random() < .15: env['PG' + k] = v = tok('env'); seq.append((('settings', ENVSET[k]), v))
		os.environ.update(env)
		d = {k: v for k, v in c26.params(r).items() if k in ('user', 'password', 'host', 'unix', 'port', 'database', 'settings', 'path')} if r.random() < .7 else {}
		if 'unix' in d: d.pop('port', None)
		if 'port' in d: d['port'] = r.choice(('5432', '1', '65535'))
		if d.get('host') == '' or '\0' in repr(d): d.pop('host', None)
		d = c26.norm(d)
		for k2, v in list(d.get('settings', {}).items()):
			if isinstance(v, tuple): d['settings'][k2] = list(v[1]) if v[1] else ''
			elif k2 == 'search_path' or v is None: del d['settings'][k2]
		if not d.get('settings', 1): del d['settings']
		api = r.random() < .2
		if api: d = {}
		t = '&' + c26.independent(r, d)
		for k, v in d.items():
			if k == 'settings': seq += [(('settings', a), b) for a, b in v.items()]
			elif k != 'path': seq.append((k, v))
		kw = {}
		for k in ('user', 'password', 'database', 'host', 'port', 'unix', 'connect_timeout'):
			if r.random() < .15 and not (api and k == 'unix'): kw[k] = {'host': 'kwhost', 'port': 5999, 'unix': '/kw', 'connect_timeout': 3}.get(k) or tok('kw')
		# the two ways of addressing exclude each other within what is explicit
		expl = dict(d, **kw)
		if 'unix' in expl and ('host' in expl or 'port' in expl): continue
		if r.random() < .3: kw['settings'] = {k: tok('kw') for k in SETTINGS if r.random() < .2}
		for k, v in kw.items():
			if k == 'settings': seq += [(('settings', a), b) for a, b in v.items()]
			else: seq.append((k, v))
		want = merge(seq)
		q = query(want)
		if text is not None and r.random() < .7 and usable(q):
			text, hent = near(r, q); write(hp, text)
		if want.get('password') is None: want['password'] = find(hent, q)
		desc = dict(env=env, iri=t, kw=kw, pgpass=text, dbapi=api)
		try:
			if api: C = dbapi20.connect(**kw).connector; ctx.count('opened by dbapi20')
			else: C = postgresql.open(t, **kw)
		except Exception as e:
				ctx.violation('open-refused', '%s: %s' % (type(e).__name__, e), desc); continue
		ctx.case(repr(desc)); ctx.count('opened'); ctx.count('opened:' + type(C).__name__)
		for k in ('user', 'password', 'database', 'host', 'port', 'unix', 'settings', 'sslmode', 'connect_timeout'):
			w = want.get(k); g = getattr(C, k, None)
			if k == 'settings': w = w or None; g = dict(g) if g else None
			if k == 'sslmode' and w is None: continue
			if k == 'connect_timeout' and w is not None: w, g = str(w), str(g)
			if k == 'port' and w is not None: w, g = str(w), str(g)
			if w != g: ctx.violation('open:' + k, 'connector has %r, expected %r' % (g, w), desc)
	ctx.require('opened by dbapi20', 'lookups', 'found', 'not-found', 'collected', 'with:base', 'with:env', 'with:argv', 'services', 'services-refused', 'resolved', 'from-file', 'typed', 'usage-errors', 'prompts', 'opened', 'opened:Unix', 'opened:Host', 'opened:IP4', 'opened:IP6')
