"""
C07: every sslmode against every server behaviour, over real sockets and real TLS.
Oracle: the trace of attempts (what was sent on which channel) that the mode permits.
"""
import concurrent.futures, threading
from vf import mini, pq

SECRET, USER = 'S3cretWord', 'vfuserX'
REPLIES = [b'S', b'N', 'close', 'reset', b'E', b'EFATAL: unsupported frontend protocol\n\0', b'X', b'\0', b's', b'n', b'NR\0\0\0\x08\0\0\0\0', b'SS', b'NN', b'R\0\0\0\x08\0\0\0\0', b'SR\0\0\0\x08\0\0\0\0K\0\0\0\x0c\0\0\0\1\0\0\0\2Z\0\0\0\5I']
TLS = ['ok', 'untrusted', 'garbage', 'close', 'plain']
AUTHS = ['ok', 'reject', ('cleartext',), ('cleartext', b'', 'reject'), ('md5', b'abcd'), 'close', ('script', [pq.auth(10, b'SCRAM-SHA-256\0\0')])]

def attempt(plan, via_ssl):
	"""What one attempt against a connection with this plan leads to.
	via_ssl: None (no request), True (required), False (wanted).
	-> (trace, outcome, didssl): outcome 'ok', 'error' (server or protocol), 'exception' (socket/TLS)"""
	trace = []
	tls = False
	if via_ssl is not None:
		trace.append('ssl-request')
		a = plan['ssl']
		if a in ('close',): return trace, 'garbage', None
		if a == 'reset': return trace, 'reset', None
		if a[:1] == b'S':
			# anything sent in the clear after the S, and anything but a handshake, breaks TLS
			if plan['tls'] != 'ok' or len(a) > 1: return trace, 'tls-failed', True
			trace.append('tls'); tls = True
		elif a[:1] == b'N':
			if via_ssl is True: return trace, 'declined', False
			if len(a) > 1: return trace, 'unspecified', False
		else: return trace, 'garbage', None
	trace.append('startup')
	auth = plan['auth-tls' if tls else 'auth-plain']
	kind = auth[0] if isinstance(auth, tuple) else auth
	if kind in ('cleartext', 'md5'): trace.append('password')
	if kind == 'close': return trace, 'closed', tls
	if kind in ('reject', 'script') or (len(auth) > 2 and auth[2] == 'reject' and isinstance(auth, tuple)): return trace, 'rejected', tls
	return trace, 'ok', tls

def permitted(mode, plans, addresses=1):
	"""the set of permitted (traces per connection) sequences with the final result, as list of (seq, result, security)"""
	def go(steps, n):
		# steps: remaining attempts [(ssl, which address)]
		if not steps: yield [], False, None; return
		s, addr = steps[0]
		trace, outcome, tls = attempt(plans[n], s)
		if outcome == 'ok': yield [trace], True, tls; return
		opts = [steps[1:]]
		nxt = steps[1:] 
		same = bool(nxt) and nxt[0][1] == addr
		if same and mode == 'prefer':
			# declined: went on in the clear on the same connection, nothing left to try there
			if s is False and 'startup' in trace and tls is False: opts = [nxt[1:]]
			# transport failures: trying once more in the clear is permitted, not required
			elif s is False and outcome in ('reset', 'tls-failed'): opts = [nxt[1:], nxt]
		for o in opts:
			for seq, res, sec in go(o, n + 1): yield [trace] + seq, res, sec
	order = dict(disable=[None], require=[True], prefer=[False, None], allow=[None, True])[mode]
	return list(go([(s, a) for a in range(addresses) for s in order], 0))

def observed(c):
	t = []
	for e in c.events:
		if e[0] in ('ssl-request', 'tls', 'startup'): t.append(e[0])
		elif e[0] == 'message' and e[1] == b'p': t.append('password')
		elif e[0] in ('early', 'malformed'): t.append(e[0] + ':' + repr(e[1])[:60])
	return t

def one(ctx, r, mode, plans, addresses, certs, trusted=True):
	import postgresql.exceptions as x
	servers = []
	lock = threading.Lock()
	allc = []
	def plan(n):
		with lock:
			i = len(allc); allc.append(None)
		return plans[i] if i < len(plans) else plans[-1]
	# one server; several "addresses" are several factories for it
	srv = mini.Server(plan)
	co = ctx.connector(host='127.0.0.1', port=srv.port, user=USER, password=SECRET, database='vfdb', sslmode=mode, **(dict(sslrootcrtfile=certs[0][0]) if trusted else {}))
	if addresses > 1:
		orig = co.socket_factory_sequence
		co.socket_factory_sequence = lambda: list(orig()) * addresses
	case = dict(mode=mode, addresses=addresses, plans=[{k: repr(v) for k, v in p.items() if k != 'cert'} for p in plans])
	db = co()
	ok = err = None
	with ctx.step('connect', case):
		try: db.connect(); ok = True
		except x.Error as e: ok = False; err = e
		except Exception as e:
			ctx.violation('raw-exception:' + type(e).__name__, 'connecting with sslmode %s raised %s: %s' % (mode, type(e).__name__, e), case); ok = False
	sec = db.security if ok else None
	if ok:
		try: db.execute('SELECT 1')
		except x.Error as e: ctx.violation('unusable', 'connection not usable: %s' % e, case)
	nfail = len(getattr(db, 'failures', ()) or ()) if not ok else None
	db.close()
	if not srv.stop(): ctx.inconclusive.append('a server connection did not end')
	conns = srv.conns
	seq = [observed(c) for c in conns]
	allowed = permitted(mode, plans + [plans[-1]] * 8, addresses)
	# an attempt broken by junk after the N may fail or go on, but only on that channel
	def matches(a):
		s, res, tls = a
		return s == seq and res == ok and (not ok or (sec == 'ssl') == tls)
	unspec = any(p['ssl'] not in ('close', 'reset') and p['ssl'][:1] == b'N' and len(p['ssl']) > 1 for p in plans)
	for c in conns:
		secret = SECRET.encode()
		if mode == 'require':
			after = c.raw[8:]
			if secret in c.raw or USER.encode() in c.raw or any(e[0] == 'startup' for e in c.events) and c.tls != 'ok':
				ctx.violation('require:plaintext', 'sslmode require sent credentials on an unencrypted channel: %r' % c.raw[:200], case)
			elif c.tls is None and after and after[:1] != b'\x16':
				ctx.violation('require:plaintext', 'sslmode require sent %r after the SSL request' % after[:80], case)
		if mode == 'disable' and ('ssl-request',) in c.events: ctx.violation('disable:asked', 'sslmode disable asked for TLS', case)
		if any(e[0] == 'early' for e in c.events): ctx.violation('early', 'bytes were sent before the server answered the SSL request: %r' % c.events, case)
		ctx.count('connections')
		for t in observed(c): ctx.count(t)
	if mode == 'require' and ok and sec != 'ssl': ctx.violation('require:plain-connection', 'connected without TLS under require', case)
	if ok:
		last = conns[-1]
		if (last.tls == 'ok') != (sec == 'ssl'): ctx.violation('security-attribute', 'security is %r on a connection where TLS is %r' % (sec, last.tls), case)
		ctx.count('connected:' + ('tls' if last.tls == 'ok' else 'plain'))
	else:
		ctx.count('failed')
		if err is not None and not unspec and nfail != len(conns): ctx.violation('failures', '%d attempts were made, %r reported as failures' % (len(conns), nfail), case)
	if not unspec:
		if not any(matches(a) for a in allowed):
			ctx.violation('sequence:' + mode, 'attempts %r with result connected=%r security=%r; sslmode %s permits %s' % (seq, ok, sec, mode, allowed), case)
	else:
		ctx.count('trailing')
	return seq

def certificate(ctx, certs):
	"""the client certificate that was configured is the one presented, and one that cannot be used is no reason to go without TLS"""
	import os, ssl
	import postgresql.exceptions as x
	(gc, gk), (oc, ok) = certs; both = os.path.join(ctx.scratch, 'both.pem'); nope = os.path.join(ctx.scratch, 'nope.pem')
	with open(both, 'w') as f: f.write(open(gc).read() + open(gk).read())
	der = lambda f: ssl.PEM_cert_to_DER_cert(open(f).read())
	USES = dict(none=({}, None), pair=(dict(sslcrtfile=gc, sslkeyfile=gk), der(gc)), other=(dict(sslcrtfile=oc, sslkeyfile=ok), der(oc)), both=(dict(sslcrtfile=both), der(gc)))
	BAD = dict(mismatch=dict(sslcrtfile=gc, sslkeyfile=ok), missing=dict(sslcrtfile=nope), nokey=dict(sslcrtfile=gc), missingkey=dict(sslcrtfile=gc, sslkeyfile=nope), missingroot=dict(sslrootcrtfile=nope))
	for mode in ('require', 'prefer', 'allow'):
		for name in [*USES, *BAD]:
			kw, want = USES.get(name) or (BAD[name], None)
			srv = mini.Server(lambda n: {'ssl': b'S', 'tls': 'ok', 'cert': certs[0], 'ask': (gc, oc), 'auth-tls': 'ok', 'auth-plain': 'reject' if mode == 'allow' else 'ok'})
			co = ctx.connector(**{**dict(host='127.0.0.1', port=srv.port, user=USER, password=SECRET, database='vfdb', sslmode=mode, sslrootcrtfile=gc), **kw})
			case = dict(mode=mode, certificate=name); ctx.case(('certificate', mode, name)); ctx.count('certificate:' + name)
			for _ in range(2 if name in USES else 1):
				db = co()
				with ctx.step('connect', case):
					try: db.connect(); done = True
					except x.Error as e: done = False
					except Exception as e: done = False; ctx.violation('raw-exception:' + type(e).__name__, 'with certificate %r connecting raised %s: %s' % (name, type(e).__name__, e), case)
				if name in USES and not (done and db.security == 'ssl'): ctx.violation('certificate-refused', 'not connected with %r, security is %r' % (name, done and db.security), case)
				if done and name in BAD and db.security == 'ssl': ctx.violation('certificate-ignored', 'connected over TLS with files %r' % name, case)
				db.close()
			if not srv.stop(): ctx.inconclusive.append('a server connection did not end')
			for c in srv.conns:
				got = [e[1] for e in c.events if e[0] == 'certificate']
				if name in USES and any(g != want for g in got): ctx.violation('certificate-other', 'with %r the certificate presented was %s' % (name, [g and len(g) for g in got]), case)
				if mode == 'require' and c.tls != 'ok' and (USER.encode() in c.raw or SECRET.encode() in c.raw or any(e[0] == 'startup' for e in c.events)): ctx.violation('require:plaintext', 'with files %r went on in the clear: %r' % (name, c.raw[:100]), case)

def over(ctx, r):
	"""sessions over TLS with the server give what sessions without it give"""
	import postgresql.exceptions as x
	from checks import c41
	admin = ctx.connect(); TELLS = 'SELECT coalesce((SELECT ssl FROM pg_stat_ssl WHERE pid = $1::int), false)'
	crt = ctx.scratch + '/tls.crt'
	for mode in ('disable', 'allow', 'prefer', 'require'):
		for kw in (dict(sslrootcrtfile=crt), dict(sslrootcrtfile=crt, unix='%s/.s.PGSQL.%d' % (ctx.scratch, ctx.port))):
			case = dict(mode=mode, unix='unix' in kw)
			try: db = ctx.connect(sslmode=mode, **kw)
			except x.Error as e:
				# there is no TLS on a socket of the file system
				if not ('unix' in kw and mode == 'require'): ctx.violation('real:refused', '%s: %.300s' % (mode, e), case)
				continue
			tls = admin.prepare(TELLS).first(db.backend_id); want = mode in ('prefer', 'require') and 'unix' not in kw
			if tls is not want or (db.security == 'ssl') is not want: ctx.violation('real:security', 'with %s the server says TLS is %r, the connection %r' % (mode, tls, db.security), case)
			c = db.clone()
			if admin.prepare(TELLS).first(c.backend_id) is not want or (c.security == 'ssl') is not want: ctx.violation('real:clone', 'with %s the clone has %r' % (mode, c.security), case)
			c.close(); db.close(); ctx.case(('real', mode, 'unix' in kw)); ctx.count('real connections')
	for n in range(ctx.scale(25, 400)):
		if ctx.elapsed() > ctx.scale(100, 1700): break
		seed = r.randrange(1 << 30); res = []; kinds = [r.choice([o for o in c41.OPS if o not in ('close', 'interrupt')]) for _ in range(8)]; ks = [r.choice((1, 2, 5)) for _ in kinds]
		case = dict(session=n, operations=list(zip(kinds, ks)))
		for tls in (False, True):
			db = ctx.connect(tls=tls); db.msghook = lambda m: True; out = []
			with ctx.step('session', case):
				db.execute('CREATE TEMP TABLE c41 (a int, b text)')
				for kind, k in zip(kinds, ks):
					try: out.append((kind, c41.op(db, kind, k, r)))
					except (x.Error, ValueError, TypeError) as e: out.append((kind, type(e).__name__, str(e)[:200]))
				# a notification that comes in while nothing is done; a query cancelled from outside; the end of the session
				db.listen('c07'); admin.notify(c07='x%d' % n)
				for note in db.iternotifies(30): out.append(note and note[:2]); break
				timer = threading.Thread(target=cancel, args=(admin, db.backend_id)); timer.start()
				try: db.execute('SELECT pg_sleep(60)'); out.append('slept')
				except x.Error as e: out.append(type(e).__name__)
				timer.join()
				out.append(db.prepare('SELECT 6 * 7').first())
				if n % 2:
					admin.prepare('SELECT pg_terminate_backend($1::int, 20000)').first(db.backend_id)
					try: db.prepare('SELECT 1'); out.append('alive')
					except x.Error as e: out.append(type(e).__name__)
					out.append(db.closed)
			db.close(); res.append(out)
			if tls: ctx.case(('session', tuple(kinds), tuple(ks)), sample=case if n < 2 else None); ctx.count('real sessions')
		if res[0] != res[1]: ctx.violation('real:differs', next(('%.200r in the clear, %.200r over TLS' % p for p in zip(*res) if p[0] != p[1]), '%d / %d' % tuple(map(len, res))), case)
	admin.close()
def cancel(admin, pid):
	import time
	ask = admin.prepare("SELECT wait_event = 'PgSleep' FROM pg_stat_activity WHERE pid = $1::int"); end = time.monotonic() + 50
	while time.monotonic() < end and not ask.first(pid): time.sleep(.01)
	admin.prepare('SELECT pg_cancel_backend($1::int)').first(pid)

def main(ctx):
	ctx.rule = 'one case per (sslmode, server behaviour per connection, number of addresses), per client certificate, per session with the real server'
	ctx.require('certificate:pair', 'certificate:missing', 'real connections', 'real sessions')
	ctx.require('ssl-request', 'tls', 'startup', 'password', 'connected:tls', 'connected:plain', 'failed', 'trailing', 'untrusted', 'address')
	certs = mini.certificates(ctx.scratch)
	r = ctx.rng('plans')
	def plan(ssl=None, tls=None, at=None, ap=None):
		t = tls or r.choice(TLS)
		return {'ssl': ssl if ssl is not None else r.choice(REPLIES), 'tls': 'ok' if t in ('ok',) else t, 'cert': certs[0] if t != 'untrusted' else certs[1],
			'auth-tls': at or r.choice(AUTHS), 'auth-plain': ap or r.choice(AUTHS)}
	modes = ('disable', 'allow', 'prefer', 'require')
	jobs = []
	# the same behaviour on every connection: all replies x outcomes per channel
	for mode in modes:
		for reply in REPLIES:
			for tls in (TLS if reply == b'S' else ['ok']):
				auths = [(a, b) for a in AUTHS for b in AUTHS] if reply in (b'S', b'N') else [(r.choice(AUTHS), r.choice(AUTHS))]
				if mode == 'disable': auths = [(AUTHS[0], b) for b in AUTHS] if reply == b'S' and tls == 'ok' else []
				elif ctx.quick and len(auths) > 8: auths = [(a, b) for a in AUTHS for b in r.sample(AUTHS, 3)]
				for at, ap in auths: jobs.append((mode, [plan(reply, tls, at, ap)], 1))
	# changing behaviour, several addresses
	for _ in range(ctx.scale(120, 4000)):
		mode = r.choice(modes)
		n = r.choice((1, 1, 2, 3))
		jobs.append((mode, [plan() if r.random() < .6 else plan(ssl=r.choice((b'S', b'N')), tls='ok', at=r.choice(('ok', 'reject')), ap=r.choice(('ok', 'reject'))) for _ in range(2 * n)], n))
	r.shuffle(jobs)
	def job(j):
		mode, plans, n = j
		if ctx.elapsed() > ctx.scale(60, 1500): ctx.count('skipped'); return
		ctx.case((mode, n, repr(plans)), sample='%s %s' % (mode, [(p['ssl'], p['tls'], p['auth-tls'], p['auth-plain']) for p in plans]))
		if any(p['tls'] == 'untrusted' for p in plans): ctx.count('untrusted')
		if n > 1: ctx.count('address')
		one(ctx, None, mode, plans, n, certs)
	with concurrent.futures.ThreadPoolExecutor(16) as ex: list(ex.map(job, jobs))
	# an invalid mode is refused, and nothing is sent
	import postgresql.exceptions as x
	for bad in ('REQUIRE', 'verify-full', 'required', 'on'):
		srv = mini.Server(lambda n: plan(b'S', 'ok', 'ok', 'ok'))
		db = ctx.connector(host='127.0.0.1', port=srv.port, user=USER, password=SECRET, sslmode=bad)()
		try: db.connect(); ctx.violation('invalid-mode', 'sslmode %r was accepted' % bad)
		except (x.Error, ValueError): pass
		try: db.close()
		except Exception: pass
		srv.stop()
		if srv.conns: ctx.violation('invalid-mode', 'sslmode %r led to a connection' % bad)
		ctx.case(('invalid', bad))
	certificate(ctx, certs)
	over(ctx, ctx.rng('over'))
