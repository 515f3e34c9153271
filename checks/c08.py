"""
C08: startup and authentication against a recording server with any method, salt,
message order and malformation, and against a real server's own verifiers.
"""
import concurrent.futures, hashlib, random, threading
from vf import mini, pq

LOCK = threading.Lock()

def crypt_oracle(pw, salt):
	import ctypes, ctypes.util
	lib = ctypes.CDLL(ctypes.util.find_library('crypt') or 'libcrypt.so.1')
	lib.crypt.restype = ctypes.c_char_p
	with LOCK: return lib.crypt(pw, salt)

def md5_oracle(pw, user, salt):
	return b'md5' + hashlib.md5(hashlib.md5(pw + user).hexdigest().encode() + salt).hexdigest().encode()

WORDS = ['a', 'postgres', 'Bobby "Tables"', "o'neil", 'ünïcödé', '名前', 'with space', ' lead', 'trail ', 'x' * 63, 'semi;colon', 'back\\slash', '%41', 'user', 'database', 'a=b', '{}', '\u00a0nbsp', 'tab\there', 'md5' + '0' * 32, '😀']

def rand_text(r, n=None):
	if r.random() < .5: return r.choice(WORDS)
	return ''.join(r.choice('abcXYZ019 _-\'"\\/%&=?äß€漢😀') for _ in range(n or r.choice((1, 2, 8, 8, 40, 300))))

def settings(r):
	d = {}
	for k, v in [('application_name', rand_text(r)), ('DateStyle', 'ISO'), ('client_min_messages', r.choice(('ERROR', 'LOG'))), ('my.setting', rand_text(r)), ('work_mem', 4096), ('options', '-c geqo=off'), ('extra_float_digits', 3), ('search_path', r.choice(('public', 'a,b', ['one', 'Two', 'th"ree', 'pg_catalog'], ('x',))))]:
		if r.random() < .4: d[k] = v
	return d

def expected_startup(user, database, st, enc):
	d = {'client_min_messages': 'WARNING'}
	for k, v in st.items():
		if k == 'search_path' and not isinstance(v, str):
			v = ','.join('"' + x.replace('"', '""') + '"' for x in v)
		d[k] = v
	d['user'] = user
	if database is not None: d['database'] = database
	return d

def same_search_path(a, b):
	# identifiers may be quoted or not where that makes no difference
	def parse(s):
		out, i = [], 0
		cur = ''
		while i < len(s):
			if s[i] == '"':
				i += 1
				while True:
					if s[i] == '"':
						if s[i + 1:i + 2] == '"': cur += '"'; i += 2; continue
						i += 1; break
					cur += s[i]; i += 1
			elif s[i] == ',': out.append(cur); cur = ''; i += 1
			elif s[i] == ' ': i += 1
			else: cur += s[i].lower(); i += 1
		return out + [cur]
	return parse(a) == parse(b)

def one(ctx, seed):
	import postgresql.exceptions as x
	r = random.Random(seed)
	user, database = rand_text(r, r.choice((1, 5, 30))), r.choice((None, rand_text(r)))
	pw = r.choice((None, '', rand_text(r), rand_text(r), 'x' * 2000))
	st = settings(r)
	enc = r.choice((None, None, 'utf-8', 'latin-1'))
	if enc == 'latin-1':
		f = lambda s: s.encode('latin-1', 'ignore').decode('latin-1') if isinstance(s, str) else s
		user, pw, database = f(user) or 'u', f(pw), f(database) or None
		st = {k: f(v) if isinstance(v, str) else v for k, v in st.items()}
	e = enc or 'utf-8'
	bpw = (pw or '').encode(e)
	kind = r.choice(['ok', 'cleartext', 'md5', 'md5', 'md5', 'crypt', 'unsupported', 'unsupported', 'rejected', 'rejected', 'dberror', 'malformed', 'malformed', 'again', 'early-ready'])
	salt = bytes(r.choice((r.randrange(256), 0, 255, 0x30)) for _ in range(4))
	csalt = ''.join(r.choice('./0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz') for _ in range(2)).encode()
	params = [('server_version', r.choice(('16.0', '9.6.1', '8.4.22', '17.3'))), ('client_encoding', r.choice(('UTF8', 'SQL_ASCII', 'LATIN1', 'utf8'))), ('standard_conforming_strings', 'on'),
		('server_encoding', 'UTF8'), ('TimeZone', 'Europe/Berlin'), ('application_name', r.choice(('', 'abc', 'long' * 50))), ('is_superuser', 'off'), ('session_authorization', 'me'), ('IntervalStyle', 'postgres'), ('session_authorization', 'Ünï'), ('x.custom', 'v1'), ('x.custom', 'v2'), ('integer_datetimes', 'on')]
	keep = [p for p in params if p[0] in ('server_version', 'standard_conforming_strings', 'client_encoding') or r.random() < .7]
	order = list(keep)
	pid, key = r.choice((1, 4242, 2**31 - 1)), r.choice((0, 1, 2**32 - 1, r.randrange(2**32)))
	ask = {'cleartext': (3, b''), 'md5': (5, salt), 'crypt': (4, csalt)}
	method = kind if kind in ask else r.choice([None, 'cleartext', 'md5'])
	script, wait_pw = [], method
	if method: script += [pq.auth(*ask[method]), None]
	def noise():
		return b''.join(r.choice((pq.note('00000', 'hello', 'NOTICE'), pq.note('01000', 'beware', 'WARNING'))) for _ in range(r.choice((0, 0, 1, 2))))
	final, good, asked = b'', False, bool(method)
	r.shuffle(order)
	ce = dict(order)['client_encoding']
	if ce == 'SQL_ASCII': order = [p for p in order if p[1].isascii()]
	ps = [pq.param(k.encode(), v.encode('latin-1' if ce == 'LATIN1' else 'utf-8')) for k, v in order]
	cut = r.randrange(len(ps) + 1)
	rest = noise() + b''.join(ps[:cut]) + noise() + pq.key(pid, key) + b''.join(ps[cut:]) + noise() + pq.ready()
	if kind in ('ok', 'cleartext', 'md5', 'crypt'):
		if kind == 'ok' and False: pass
		script += [pq.auth(0) + rest]; good = True
	elif kind == 'unsupported':
		code = r.choice((1, 2, 6, 7, 8, 9, 10, 11, 12, 13, 99, 2**31, 2**32 - 1))
		script, asked = [pq.auth(code, r.choice((b'', b'SCRAM-SHA-256\0\0', b'abcd')))], False
		if r.random() < .5: script += [noise()]
	elif kind == 'rejected': script += [noise() + pq.err(r.choice(('28P01', '28000')), 'no way', 'FATAL')]
	elif kind == 'dberror': script += [pq.auth(0) + b''.join(ps[:cut]) + noise() + pq.err(r.choice(('3D000', '53300', '57P03', '22023')), 'no such thing', 'FATAL')]
	elif kind == 'again': script += [pq.auth(r.choice((3, 5, 10)), b'abcd')]; 
	elif kind == 'early-ready': script += [pq.auth(0) + r.choice((pq.ready(), b''.join(ps) + pq.ready(), pq.key(pid, key) + pq.key(pid, key), pq.auth(0)))]
	elif kind == 'malformed':
		how = r.randrange(6)
		if how == 0: script, asked = [pq.frame(b'R', b'\0\0')], False
		elif how == 1: script, asked = [pq.key(pid, key) + pq.ready()], False
		elif how == 2: script, asked = [pq.ready()], False
		elif how == 3: script += [pq.auth(0) + pq.frame(b'K', b'\0\0\0\1')]
		elif how == 4: script += [pq.frame(b'K', pq.u32(0) + pq.u32(7)) + rest] if method else [pq.frame(b'K', pq.u32(0) + pq.u32(7)) + rest]
		else: script += [pq.auth(0) + b''.join(ps) + pq.key(pid, key) + pq.frame(b'Z', b'')]
		if how == 4 and not method: asked = False
	# without a method, the first message must not be a second request
	if kind == 'again' and not method: script, asked = [pq.auth(3), None, pq.auth(3)], True; method = 'cleartext'
	plan = {'auth': ('script', script, good or kind in ('malformed', 'again', 'early-ready')), 'pieces': r.choice((None, None, 1, 3, 7))}
	srv = mini.Server(lambda n: plan)
	case = dict(seed=seed, kind=kind, method=method, user=user, database=database, password=pw, settings=repr(st), encoding=enc, salt=repr(salt if method == 'md5' else csalt))
	kw = {}
	if pw is not None: kw['password'] = pw
	if database is not None: kw['database'] = database
	if enc is not None: kw['server_encoding'] = enc
	co = None
	def bad(mech, d): ctx.violation(mech, '%s (%s)' % (d, {k: v for k, v in case.items() if k in ('kind', 'method', 'user', 'password', 'salt')}), case)
	import postgresql.driver as pg_driver
	co = pg_driver.default.fit(host='127.0.0.1', port=srv.port, user=user, sslmode='disable', settings=dict(st), **kw)
	db = co()
	ok = err = None
	with ctx.step('connect', case):
		try: db.connect(); ok = True
		except x.Error as ex: ok = False; err = ex
		except Exception as ex:
			bad('raw-exception:' + type(ex).__name__, 'connecting raised %s: %s' % (type(ex).__name__, ex)); ok = False
	ctx.count(kind); ctx.count('connected' if ok else 'refused')
	if ok != good: bad('outcome', 'the connection was %s, the server %s it: %s' % ('made' if ok else 'not made', 'accepted' if good else 'did not accept', err))
	if ok and good:
		want = {}
		for k, v in order: want[k] = v
		for k, v in want.items():
			got = db.settings[k]
			if got != v: bad('parameter', 'the server announced %s=%r, the connection shows %r' % (k, v, got))
		if db.backend_id != pid: bad('backend-id', 'backend_id %r, announced %r' % (db.backend_id, pid))
		with ctx.step('interrupt', case): db.interrupt()
		ctx.count('parameters', len(want))
	if ok is False:
		if not db.closed: bad('usable-after-refusal', 'not closed after the connection was refused')
		try: db.execute('SELECT 1'); bad('usable-after-refusal', 'a query succeeded after the connection was refused')
		except x.Error: pass
		except Exception as ex: bad('raw-exception-later:' + type(ex).__name__, 'a query on the refused connection raised %s: %s' % (type(ex).__name__, ex))
		if err is not None and kind in ('rejected', 'dberror'):
			codes = {getattr(getattr(f, 'error', None), 'code', None) for f in db.failures}
			if not codes & {'28P01', '28000', '3D000', '53300', '57P03', '22023'}: bad('reason', 'the server\'s reason is not among the failures: %r' % codes)
	try: db.close()
	except Exception as ex: bad('close', 'close() raised %r' % ex)
	if not srv.stop(): ctx.inconclusive.append('server connection did not end')
	conns = [c for c in srv.conns if not any(e[0] == 'cancel' for e in c.events)]
	cancels = [ev for c in srv.conns for ev in c.events if ev[0] == 'cancel']
	if len(conns) != 1: bad('connections', '%d connections made for one attempt' % len(conns)); return
	if ok and good and cancels != [('cancel', pid, key)]: bad('cancel-key', 'the cancel request carried %r, announced %r' % (cancels, (pid, key)))
	c = conns[0]
	ev = c.events
	su = [x_ for x_ in ev if x_[0] == 'startup']
	if len(su) != 1: bad('startup', 'startup packets: %r' % (ev,)); return
	kv = su[0][1]
	if su[0][2] != (3, 0): bad('startup', 'protocol version %r' % (su[0][2],))
	got = {}
	for k, v in kv:
		if k in got: bad('startup', 'parameter %r sent twice' % k)
		got[k] = v
	exp = {k.encode('utf-8'): (v.encode(e) if isinstance(v, str) else str(v).encode()) for k, v in expected_startup(user, database, st, e).items()}
	if got != exp:
		g2, e2 = dict(got), dict(exp)
		sp = (g2.pop(b'search_path', None), e2.pop(b'search_path', None))
		if g2 != e2 or sp[0] is None or sp[1] is None or not same_search_path(sp[0].decode(e), sp[1].decode(e)):
			bad('startup', 'startup parameters %r, configured %r' % (got, exp))
	pws = [x_ for x_ in ev if x_[0] == 'message']
	if not asked:
		if any(m[1] == b'p' for m in pws): bad('unasked', 'a password message was sent unasked')
		if len(bpw) >= 6 and bpw not in b'\0'.join([*exp, *exp.values()]) and bpw in c.raw: bad('unasked', 'the password was sent unasked')
	else:
		if len(pws) < 1 or pws[0][1] != b'p': bad('answer', 'asked for a password, got %r' % (pws,)); return
		body = pws[0][2]
		if method == 'cleartext': want = bpw
		elif method == 'md5': want = md5_oracle(bpw, user.encode(e), salt)
		else: want = crypt_oracle(bpw, csalt)
		if method == 'crypt': want = None if want is None or want.startswith(b'*') else want
		if want is not None and body != want + b'\0': bad('answer:' + method, 'answered %r instead of %r' % (body, want))
		if method != 'cleartext' and len(bpw) >= 6 and bpw not in b'\0'.join([*exp, *exp.values()]) and bpw in c.raw: bad('cleartext-leak', 'the password itself was sent for ' + method)
		ctx.count('answered:' + method)
	rest_msgs = pws[1:]
	if kind == 'unsupported' and c.raw.find(b'p\0\0') > 0 and any(m[1] == b'p' for m in pws): bad('unasked', 'answered an unsupported request')

def injection(ctx):
	"""values that cannot be sent unchanged must be refused"""
	import postgresql.exceptions as x, postgresql.driver as pg_driver
	for label, kw in [('user', dict(user='a\0database\0evil')), ('user-end', dict(user='a\0')), ('database', dict(database='d\0user\0root')), ('setting', dict(settings={'application_name': 'x\0role\0root'})), ('setting-name', dict(settings={'a\0b': 'c'})), ('password', dict(password='abc\0def')), ('empty-name', dict(settings={'': 'x'}))]:
		plan = {'auth': ('cleartext',) if label == 'password' else 'ok'}
		srv = mini.Server(lambda n: plan)
		d = dict(host='127.0.0.1', port=srv.port, user='u', database='d', sslmode='disable'); d.update(kw)
		ctx.case(('injection', label))
		made = False
		with ctx.step('connect', label):
			try:
				db = pg_driver.default.fit(**d)()
				db.connect(); made = True
			except (x.Error, ValueError, TypeError): ctx.count('injection-refused')
			try: db.close()
			except Exception: pass
		srv.stop()
		evs = [e for c in srv.conns for e in c.events]
		if made: ctx.violation('nul:' + label, 'a %s containing NUL was accepted and sent as %r' % (label, evs), repr(kw))
		for c in srv.conns:
			for e in c.events:
				if e[0] == 'startup' and label != 'password':
					ctx.violation('nul:' + label, 'a value containing NUL was sent as the parameters %r' % (e[1],), repr(kw))

def real(ctx, r):
	import postgresql.exceptions as x
	pws = ['secret', '', 'ünïcödé', "it's", 'x' * 200, ' lead and trail ', 'quote"s', 'back\\slash', '100%', '漢字😀']
	n = 0
	for m in ('password', 'md5', 'trust', 'scram-sha-256'):
		for i, p in enumerate(pws):
			u = {'password': 'vfp', 'md5': 'vfm', 'trust': 'vft', 'scram-sha-256': 'vfs'}[m] + '_%d_%s' % (i, r.choice(('a', 'Ü', 'b c')))
			ctx.psql("SET password_encryption='%s'; CREATE ROLE \"%s\" LOGIN PASSWORD '%s'" % ('scram-sha-256' if m in ('scram-sha-256',) else 'md5', u, p.replace("'", "''")))
			for given, right in ((p, p != '' ), (p + 'x', False), (None, False), (p.upper(), p.upper() == p and p != '')):
				if m == 'trust': right = True
				if m == 'scram-sha-256': right = False
				ctx.case(('real', m, u, given))
				kw = dict(user=u, host='127.0.0.1', port=ctx.port, database='postgres', sslmode='disable')
				if given is not None: kw['password'] = given
				import postgresql.driver as pg_driver
				db = pg_driver.default.fit(**kw)()
				with ctx.step('real connect', repr(kw)):
					try: db.connect(); ok = True
					except x.Error as e: ok = False
				if ok != right: ctx.violation('real:' + m, '%s with password %r, given %r: connected=%r' % (m, p, given, ok), repr(kw))
				if ok:
					if db.query.first('SELECT session_user') != u: ctx.violation('real:user', 'connected as another user', repr(kw))
					if db.settings['session_authorization'] != u: ctx.violation('real:parameter', 'session_authorization is %r' % db.settings['session_authorization'], repr(kw))
					ctx.count('real-ok')
				else: ctx.count('real-refused')
				db.close()

def main(ctx):
	ctx.rule = 'one case per (credentials, settings, method, salt, message order) and per real role x method x given password'
	kinds = ['ok', 'cleartext', 'md5', 'crypt', 'unsupported', 'rejected', 'dberror', 'malformed', 'again', 'early-ready']
	ctx.require('connected', 'refused', 'parameters', 'answered:md5', 'answered:cleartext', 'answered:crypt', 'real-ok', 'real-refused', 'injection-refused', *kinds)
	def job(i):
		if ctx.elapsed() > ctx.scale(60, 1500): return
		s = ctx.seed * 1000003 + i
		ctx.case(s, sample=s)
		one(ctx, s)
	with concurrent.futures.ThreadPoolExecutor(16) as ex: list(ex.map(job, range(ctx.scale(700, 20000))))
	injection(ctx)
	real(ctx, ctx.rng('real'))
