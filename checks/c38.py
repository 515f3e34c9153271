"""C38: a connection tells the truth about its session, and can be cloned and reset to how it started."""
import datetime, os, random, socket, threading
import postgresql.exceptions as pg_exc
from postgresql.driver import default as driver
from postgresql import string as pg_str

SETUP = r'''
CREATE SCHEMA c38; CREATE TABLE c38.log (id serial, v text); CREATE TABLE public.kept (v int);
CREATE ROLE "us er" LOGIN SUPERUSER; CREATE ROLE "é'\q" LOGIN SUPERUSER; CREATE ROLE pub LOGIN;
CREATE DATABASE "d b" TEMPLATE template0; CREATE DATABASE "d""é'" TEMPLATE template0; CREATE DATABASE "us er" TEMPLATE template0;
ALTER ROLE "us er" SET search_path = c38, public; ALTER ROLE pub SET standard_conforming_strings = off; ALTER DATABASE "d b" SET DateStyle = 'SQL, DMY';
GRANT ALL ON SCHEMA public TO pub; GRANT ALL ON public.kept TO pub; GRANT TEMP ON DATABASE postgres TO pub;
'''
TZ = datetime.timezone.utc
def ql(s): return "'" + s.replace("'", "''") + "'"
def qi(s): return '"' + s.replace('"', '""') + '"'

def main(ctx):
	ctx.rule = 'a connection (connector, database, user, settings) and the operations done with it'
	for s in SETUP.strip().splitlines():
		for x in s.split('; '): ctx.psql(x)
	ctx.admin = ctx.connect(); rng = ctx.rng('main')
	facts(ctx, rng)
	addresses(ctx, rng)
	failing(ctx, rng)
	resets(ctx, rng)
	dos(ctx, rng)
	ctx.require('connections', 'clones', 'startup settings', 'several addresses', 'failed connects', 'resets', 'settings compared', 'do', 'paths', 'addresses refused')

# -- what it says
SETTINGS = [('work_mem', lambda r: r.choice(['64kB', '12MB', 4096])), ('application_name', lambda r: r.choice(['x', "it's", 'two words', '\\', '"q"', ''])), ('statement_timeout', lambda r: r.choice([0, 60000, '5min'])),
	('search_path', lambda r: r.choice([['c38', 'public'], ('A b', 'q"x'), 'c38, public', ['$user', 'public'], ['pg_catalog'], "it's", ['a,b', "o'k"]])), ('DateStyle', lambda r: r.choice(['SQL, DMY', 'German', 'ISO, YMD'])),
	('my.own', lambda r: r.choice(['1', 'é', "a'b", '  ', 'x=y', '-c foo'])), ('TimeZone', lambda r: r.choice(['UTC', 'Asia/Tokyo', 'America/New_York'])), ('client_min_messages', lambda r: r.choice(['notice', 'error', 'DEBUG1'])), ('extra_float_digits', lambda r: r.choice([0, 3, '1'])),
	('client_encoding', lambda r: r.choice(['UTF8', 'latin1', 'utf-8', 'WIN1252'])), ('standard_conforming_strings', lambda r: r.choice(['on', 'off', 'true', 'no'])), ('enable_seqscan', lambda r: r.choice([True, False, 'off', 'yes'])), ('IntervalStyle', lambda r: r.choice(['iso_8601', 'postgres'])), ('bytea_output', lambda r: r.choice(['escape', 'hex'])), ('default_transaction_isolation', lambda r: r.choice(['serializable', 'read committed'])), ('default_transaction_read_only', lambda r: r.choice(['on', 'off']))]

def snap(db):
	"""all settings of the session, but for those of a transaction"""
	return {k: v for k, v in db.prepare("SELECT name, setting FROM pg_catalog.pg_settings WHERE name NOT LIKE 'transaction\\_%' AND name NOT IN ('seed', 'in_hot_standby')")}

def shown(ctx, db, k):
	return db.query.first('SELECT pg_catalog.current_setting($1, true)', k)

def same(ctx, k, given, got):
	"""is `got` what setting k to `given` gives? As another client sees it."""
	if k == 'search_path' and not isinstance(given, str): given = ', '.join(qi(x) for x in given); k = 'search_path'
	if k == 'standard_conforming_strings': return got == 'on'
	if k == 'client_encoding': return got == {'utf-8': 'UTF8', 'latin1': 'latin1', 'UTF8': 'UTF8', 'WIN1252': 'WIN1252'}.get(given, given) or got.lower().replace('-', '') == str(given).lower().replace('-', '')
	want = ctx.admin.query.first("SELECT pg_catalog.set_config($1, $2, false)", k, str(given)); ctx.admin.execute('RESET ALL')
	if k == 'search_path': return [x.strip() for x in pg_split(got)] == [x.strip() for x in pg_split(want)]
	return got == want

def pg_split(s):
	r = []; cur = ''; q = False
	for ch in s:
		if ch == '"': q = not q
		if ch == ',' and not q: r.append(cur); cur = ''
		else: cur += ch
	return r + [cur]

def truth(ctx, db, d, case):
	"""everything a connection says, against what another session sees"""
	row = ctx.admin.query('SELECT usename::text, datname::text, backend_start, host(client_addr), client_port, backend_type, state, version() FROM pg_stat_activity WHERE pid = $1', db.backend_id)
	if len(row) != 1: ctx.violation('backend-id', 'no backend %r' % (db.backend_id,), case); return
	user, datname, start, addr, port, kind, state, version = row[0]
	ctx.expect(kind == 'client backend' and db.query.first('SELECT pg_catalog.pg_backend_pid()') == db.backend_id and type(db.backend_id) is int, 'backend-id', repr((kind, db.backend_id)), case)
	ctx.expect(user == d['user'], 'user', '%r instead of %r' % (user, d['user']), case)
	ctx.expect(datname == (d.get('database') or d['user']), 'database', '%r instead of %r' % (datname, d.get('database')), case)
	ctx.expect(isinstance(db.backend_start, datetime.datetime) and db.backend_start == start, 'backend-start', '%r instead of %r' % (db.backend_start, start), case)
	if addr is None: ctx.expect(db.client_address is None and db.client_port in (None, -1), 'client', repr((db.client_address, db.client_port)), case)
	else:
		ctx.expect(isinstance(db.client_address, str) and db.client_address.split('/')[0] == addr and db.client_port == port, 'client', '%r instead of %r' % ((db.client_address, db.client_port), (addr, port)), case)
		ctx.expect(port == db.pq.socket.getsockname()[1], 'client-port-socket', repr(port), case)
	ctx.expect(db.version == version and db.type == 'PostgreSQL', 'version', repr((db.version, db.type)), case)
	sv = int(ctx.server_version); vi = db.version_info
	ctx.expect(vi[0] == sv // 10000 and vi[1] == sv % 10000 and vi[3] == 'final', 'version-info', repr(vi), case)
	ctx.expect(db.security is None, 'security', repr(db.security), case)
	ctx.expect(db.closed is False and db.state == 'idle', 'state', repr((db.closed, db.state)), case)
	ctx.expect(callable(db.fileno) and db.fileno() == db.pq.socket.fileno(), 'fileno', repr(db.fileno), case)
	repr(db)

def facts(ctx, rng):
	ctx.server_version = ctx.psql('SHOW server_version_num').strip()
	sock = os.path.join(ctx.psql('SHOW unix_socket_directories').strip(), '.s.PGSQL.%d' % ctx.port)
	USERS = ['postgres', 'us er', "é'\\q"]; DBS = ['postgres', 'd b', 'd"é\'', 'template1']
	for n in range(ctx.scale(70, 1200)):
		d = dict(user=rng.choice(USERS), database=rng.choice(DBS), sslmode=rng.choice(['disable', 'prefer', 'allow', None]))
		if d['user'] == 'us er' and rng.random() < .5: d['database'] = None
		how = rng.choice(['ip4', 'unix', 'host', 'fit-ip', 'fit-host', 'fit-unix', 'connect'])
		if how in ('unix', 'fit-unix'): a = dict(unix=sock)
		elif how in ('host', 'fit-host'): a = dict(host='localhost', port=rng.choice([ctx.port, str(ctx.port)]))
		else: a = dict(host='127.0.0.1', port=rng.choice([ctx.port, str(ctx.port)]))
		if how == 'host' and rng.random() < .5: a.update(rng.choice([dict(ipv=4), dict(address_family=socket.AF_INET)]))
		sets = {k: f(rng) for k, f in rng.sample(SETTINGS, rng.choice([0, 0, 1, 3, 6]))}; given = dict(sets)
		if rng.random() < .2: given['search_path'] = None; sets.pop('search_path', None)
		if given or rng.random() < .5: d['settings'] = rng.choice([dict, lambda x: list(x.items()), lambda x: tuple(x.items())])(given)
		case = dict(how=how, **{k: repr(v) for k, v in d.items()}); ctx.case((how, sorted(case.items())), sample=case)
		try:
			if how == 'connect': db = driver.connect(**a, **d)
			else:
				c = getattr(driver, how.split('-')[0] if how.startswith('fit') else how)(**a, **d); db = c()
				ctx.expect(db.closed is True and db.state == 'initialized' and db.connector is c, 'unconnected', repr((db.closed, db.state)), case); db.connect()
		except Exception as e:
			ctx.violation('refused:' + type(e).__name__, '%s: %s' % (type(e).__name__, str(e)[:300]), case); continue
		ctx.count('connections'); truth(ctx, db, d, case)
		def started(x, what):
			for k, v in sets.items():
				got = shown(ctx, x, k); ctx.count('startup settings')
				ctx.expect(got is not None and same(ctx, k, v, got), 'startup-setting' + what, '%s is %r after asking for %r' % (k, got, v), case)
			if 'search_path' not in sets and d['user'] != 'us er': ctx.expect(shown(ctx, x, 'search_path') == '"$user", public', 'startup-setting:path' + what, shown(ctx, x, 'search_path'), case)
			if 'standard_conforming_strings' not in sets: ctx.expect(x.query.first(r"SELECT '\'::text = chr(92)") is True, 'conforming' + what, '', case)
		started(db, '')
		pid = db.backend_id; db.connect(); ctx.expect(db.backend_id == pid, 'connected-twice', repr((pid, db.backend_id)), case)
		if rng.random() < .6:
			# the clone is a session of its own, started alike
			if rng.random() < .6: db.execute('SET default_transaction_read_only = off; SET TimeZone = "Asia/Kolkata"; SET work_mem = 99'); db.execute('CREATE TEMP TABLE tt (a int)')
			if rng.random() < .3: db.close()
			elif rng.random() < .3: db.execute(rng.choice(['BEGIN', 'BEGIN; SELECT 1']))
			x = db.clone(); ctx.count('clones'); ctx.expect(type(x) is type(db) and x.connector is db.connector and x is not db, 'clone-connector', repr(x), case)
			truth(ctx, x, d, case); started(x, ':clone'); ctx.expect(x.backend_id != pid, 'clone-backend', repr(pid), case)
			ctx.expect(x.query.first("SELECT to_regclass('pg_temp.tt') IS NULL"), 'clone-temp', '', case)
			before = db.closed; x.close(); ctx.expect(db.closed is before and x.closed is True, 'clone-close', repr((before, db.closed, x.closed)), case)
		db.close(); db.close(); ctx.expect(db.closed is True and db.state == 'closed' and db.backend_id == pid, 'after-close', repr((db.closed, db.state)), case)
		gone(ctx, pid, case)
		for f in (lambda: db.execute('SELECT 1'), lambda: db.prepare('SELECT 1'), lambda: db.query('SELECT 1')):
			try: f(); ctx.violation('closed-works', 'an operation on a closed connection succeeded', case)
			except pg_exc.ConnectionDoesNotExistError: pass
			except Exception as e: ctx.violation('closed-error', '%s: %s' % (type(e).__name__, str(e)[:200]), case)

def gone(ctx, pid, case):
	for i in range(600):
		if not ctx.admin.query('SELECT 1 FROM pg_stat_activity WHERE pid = $1', pid): return
		ctx.admin.execute('SELECT pg_sleep(.02)')
	ctx.violation('close-leaves', 'backend %r is still there after close()' % pid, case)

# -- several addresses of a host
def addresses(ctx, rng):
	dead = socket.socket(); dead.bind(('127.0.0.1', 0)); deadport = dead.getsockname()[1]	# bound, not listening: refuses
	def mute(s):
		while 1:
			try: c, _ = s.accept(); c.close()
			except OSError: return
	hang = socket.socket(); hang.bind(('127.0.0.1', 0)); hang.listen(20); hangport = hang.getsockname()[1]
	threading.Thread(target=mute, args=(hang,), daemon=True).start()
	real = socket.getaddrinfo
	try:
		for n in range(ctx.scale(40, 500)):
			kinds = [rng.choice(['dead', 'closing', 'live', 'noroute']) for i in range(rng.choice([1, 2, 3, 5]))]
			answer = []
			for i, k in enumerate(kinds):
				p = dict(dead=deadport, closing=hangport, live=ctx.port, noroute=deadport)[k]
				answer.append((socket.AF_INET, socket.SOCK_STREAM, 6, '', ('127.0.0.1', p)) if k != 'noroute' else (socket.AF_UNIX, socket.SOCK_STREAM, 0, '', '/nonexistent'))
			asked = []
			def fake(*a, **k): asked.append(a); return list(answer)
			socket.getaddrinfo = fake; mode = rng.choice(['disable', 'prefer', 'allow'])
			case = dict(addresses=kinds, sslmode=mode); ctx.case(('addresses', tuple(kinds), mode)); ctx.count('several addresses')
			answer = [a for a in answer if a[0] != socket.AF_UNIX] or answer[:1]
			if answer[0][0] == socket.AF_UNIX: answer = [(socket.AF_INET, socket.SOCK_STREAM, 6, '', ('127.0.0.1', deadport))]
			try:
				db = driver.host(host='some.where', port=1234, user='postgres', database='postgres', sslmode=mode)(); db.connect()
			except pg_exc.ClientCannotConnectError as e:
				ctx.expect('live' not in kinds, 'live-address-unused', '%s: %s' % (kinds, str(e)[:200]), case); ctx.count('addresses refused')
				ctx.expect(db.state == 'failed' and db.closed is True, 'failed-state', repr((db.state, db.closed)), case)
				per = 1
				ctx.expect(len(answer) <= len(db.failures) <= 2 * len(answer), 'failures', '%d failures for %d addresses' % (len(db.failures), len(answer)), case)
				continue
			except Exception as e: ctx.violation('addresses-error:' + type(e).__name__, str(e)[:300], case); continue
			ctx.expect('live' in kinds and db.state == 'idle' and db.query.first('SELECT 1') == 1, 'addresses', repr(db.state), case)
			ctx.expect(len(asked) == 1 and asked[0][:2] == ('some.where', 1234), 'resolved', repr(asked), case); db.close()
		for what in (socket.gaierror(-2, 'Name or service not known'), OSError('x')):
			def fail(*a, **k): raise what
			socket.getaddrinfo = fail
			db = driver.host(host='some.where', port=1234, user='postgres')()
			try: db.connect(); ctx.violation('unresolved', 'connected to nothing', repr(what))
			except pg_exc.ClientCannotConnectError as e: ctx.count('addresses refused')
			except Exception as e: ctx.violation('unresolved-error', '%s: %s' % (type(e).__name__, str(e)[:300]), repr(what))
			ctx.expect(db.closed is True, 'unresolved-closed', repr(db.closed), repr(what))
	finally: socket.getaddrinfo = real; dead.close(); hang.close()
	# combinations that name no server, or two
	for kw in [dict(), dict(host='x'), dict(port=1), dict(unix='x', host='y'), dict(unix='x', port=1), dict(unix='x', host='y', port=1)]:
		try: driver.fit(user='x', **kw); ctx.violation('fit', '%r was taken' % kw, kw)
		except TypeError: pass
	for h, k in [('127.0.0.1', 'IP4'), ('::1', 'IP6'), ('1.2.3.4', 'IP4'), ('localhost', 'Host'), ('fe80::1:2', 'IP6'), ('example.com', 'Host'), ('a:b', 'Host')]:
		c = driver.fit(host=h, port=5, user='x'); ctx.expect(type(c).__name__ == k and c.host == h and int(c.port) == 5, 'fit-kind', '%s for %s' % (type(c).__name__, h), h)

# -- connections that fail
def failing(ctx, rng):
	for n in range(ctx.scale(30, 200)):
		kw, exc, code = rng.choice([(dict(database='no such db é'), pg_exc.ClientCannotConnectError, '3D000'), (dict(user='no such user'), pg_exc.ClientCannotConnectError, '28000'),
			(dict(settings={'work_mem': 'much'}), pg_exc.ClientCannotConnectError, '22023'), (dict(settings={'no_such_setting': '1'}), pg_exc.ClientCannotConnectError, '42704'), (dict(database='template0'), pg_exc.ClientCannotConnectError, '55000')])
		case = repr(kw); ctx.case(('failing', case)); db = ctx.connector(**kw)(); ctx.count('failed connects')
		try: db.connect(); ctx.violation('connected', 'connected', case); continue
		except exc as e:
			errs = [getattr(f.error, 'code', None) for f in db.failures]
			ctx.expect(code in errs, 'failure-code', '%r instead of %r' % (errs, code), case)
		except Exception as e: ctx.violation('failure-error:' + type(e).__name__, str(e)[:300], case); continue
		ctx.expect(db.closed is True and db.state == 'failed', 'failed-state', repr((db.closed, db.state)), case); repr(db)
		for f in (db.connect, lambda: db.execute('SELECT 1'), lambda: db.prepare('SELECT 1')):
			try: f(); ctx.violation('failed-works', 'an operation on a connection that failed succeeded', case)
			except pg_exc.Error: pass
			except Exception as e: ctx.violation('failed-error', '%s: %s' % (type(e).__name__, str(e)[:200]), case)
		db.close()
	try: ctx.connector(sslmode='sometimes')().connect(); ctx.violation('sslmode', 'sslmode "sometimes" was accepted', None)
	except ValueError: pass

# -- reset
def resets(ctx, rng):
	for n in range(ctx.scale(60, 900)):
		sets = {k: f(rng) for k, f in rng.sample([s for s in SETTINGS if s[0] not in ('default_transaction_read_only', 'search_path')], rng.choice([0, 1, 3]))}
		user = rng.choice(['postgres', 'us er', 'pub']); 
		if user == 'pub': sets.pop('my.own', None)
		db = ctx.connect(user=user, **(dict(settings=sets) if sets else {})); db.msghook = lambda m: True; before = snap(db); case = dict(user=user, settings=repr(sets), history=[]); h = case['history']
		ps = db.prepare('SELECT $1::int + 1, \'é\'::text'); db.query.first('SELECT 1')
		if 'kept' not in ctx.__dict__: ctx.kept = 0
		for round in range(rng.choice([1, 1, 2, 4])):
			ctx.psql('TRUNCATE public.kept'); committed = 0; inside = failed = False; pending = 0; temps = 0
			for k in range(rng.choice([0, 1, 3, 6, 10])):
				op = rng.choice(['set', 'set', 'local', 'temp', 'tempfn', 'insert', 'insert', 'begin', 'xact', 'error', 'commit', 'path', 'prepare', 'cursor', 'half', 'notify', 'savepoint'])
				if failed and op not in ('commit',): continue
				h.append(op)
				try:
					if op == 'set':
						s, f = rng.choice([x for x in SETTINGS if x[0] not in ('search_path', 'default_transaction_read_only')]); v = f(rng); db.settings[s] = str(v) if not isinstance(v, str) else v; h[-1] = ('set', s, v)
					elif op == 'local' and inside: db.execute('SET LOCAL work_mem = 77; SET LOCAL client_encoding = latin1')
					elif op == 'temp': temps += 1; db.execute('CREATE TEMP TABLE t%d (a int)%s' % (temps, ' ON COMMIT DELETE ROWS' if rng.random() < .3 else '')); db.execute('INSERT INTO t%d VALUES (1); CREATE INDEX ON t%d (a)' % (temps, temps))
					elif op == 'tempfn': temps += 1; db.execute('CREATE TEMP SEQUENCE s%d; CREATE TEMP VIEW v%d AS SELECT 1' % (temps, temps))
					elif op == 'insert':
						db.query('INSERT INTO public.kept VALUES (1)')
						if inside: pending += 1
						else: committed += 1
					elif op == 'begin' and not inside: db.execute('BEGIN'); inside = True; pending = 0
					elif op == 'xact' and not inside: x = db.xact(); x.start(); inside = True; pending = 0
					elif op == 'savepoint' and inside: db.xact().start()
					elif op == 'error':
						try: db.execute('SELECT 1/0')
						except pg_exc.ZeroDivisionError: failed = inside
					elif op == 'commit' and inside:
						db.execute('COMMIT'); committed += 0 if failed else pending; pending = 0; inside = failed = False
					elif op == 'path': db.settings.path = rng.choice([['a b'], ['c38', 'x"y'], [], ['pg_catalog', 'public']])
					elif op == 'prepare': db.prepare('SELECT 1')()
					elif op == 'cursor': ctx.cur = db.prepare('SELECT generate_series(1, 1000)').declare(); ctx.cur.read(3)
					elif op == 'half' and inside: ctx.it = iter(db.prepare('SELECT generate_series(1, 1000)').rows()); next(ctx.it)
					elif op == 'notify': db.listen('c38'); db.notify('c38')
				except pg_exc.Error as e:
					if op in ('path', 'temp', 'tempfn', 'insert', 'set', 'prepare', 'cursor'):
						# which settings make of the operation is the server's business; those of the transaction are known by the state
						failed = inside and db.pq.state == b'E'; h[-1] = (h[-1], type(e).__name__)
						if op == 'insert' and not isinstance(e, pg_exc.ReadOnlyTransactionError): ctx.violation('insert:' + type(e).__name__, str(e)[:300], case)
					else: ctx.violation('operation:' + type(e).__name__, '%s: %s' % (op, str(e)[:300]), case)
			ctx.case((user, repr(sets), tuple(map(str, h))), sample=case)
			try: db.reset()
			except Exception as e: ctx.violation('reset:' + type(e).__name__, str(e)[:300], case); break
			ctx.count('resets'); h.append('reset')
			ctx.expect(db.state == 'idle' and db.closed is False, 'reset-state', repr(db.state), case)
			after = snap(db)
			for k in sorted(set(before) | set(after)):
				if k.startswith('my.'): continue
				ctx.count('settings compared')
				if before.get(k) != after.get(k): ctx.violation('reset-setting', '%s is %r, it was %r' % (k, after.get(k), before.get(k)), case)
			ctx.expect(shown(ctx, db, 'my.own') in ([sets['my.own']] if 'my.own' in sets else ['', None]), 'reset-custom', repr(shown(ctx, db, 'my.own')), case)
			for k in ('client_encoding', 'TimeZone', 'work_mem', 'search_path', 'DateStyle', 'standard_conforming_strings', 'application_name'):
				v = db.settings.get(k); ctx.expect(v == after[k], 'reset-cached', '%s is %r, .settings says %r' % (k, after[k], v), case)
			ctx.expect(ps(4) == [(5, 'é')], 'reset-statement', repr(ps(4)), case)
			ctx.expect(db.query.first("SELECT $1::text || 'ü\\'", 'é') == 'éü\\', 'reset-text', '', case)
			left = db.query("SELECT relname::text FROM pg_catalog.pg_class WHERE relnamespace = pg_catalog.pg_my_temp_schema()"); ctx.expect(not left, 'reset-temp', repr(left), case)
			n = int(ctx.psql('SELECT count(*) FROM public.kept')); ctx.expect(n == committed, 'reset-work', '%d rows, %d were committed' % (n, committed), case)
			with db.xact(): db.query('INSERT INTO public.kept VALUES (2)') if shown(ctx, db, 'transaction_read_only') == 'off' else None
			ctx.expect(db.state == 'idle', 'reset-block', repr(db.state), case)
		db.close()
	# the path
	db = ctx.connect(settings={'search_path': ['c38', 'A "b']}); want = db.settings['search_path']
	for n in range(ctx.scale(40, 300)):
		p = [rng.choice(['a', 'A b', 'q"x', '$user', 'é', 'public', "o'k", 'x,y', ' ', '\\', 'pg_catalog', 'SELECT']) for i in range(rng.choice([0, 1, 2, 5]))]
		db.settings.path = p; ctx.count('paths'); ctx.case(('path', tuple(p)))
		ctx.expect(list(db.settings.path) == p, 'path', '%r instead of %r' % (db.settings.path, p), p)
		ctx.expect(db.query.first('SELECT current_setting($1)', 'search_path') == (', '.join(qi(x) if 1 else x for x in p)) or [x.strip() for x in pg_split(shown(ctx, db, 'search_path'))] == [qi(x) for x in p] or not p, 'path-server', shown(ctx, db, 'search_path'), p)
		if rng.random() < .3:
			if rng.random() < .5: db.execute('BEGIN'); del db.settings.path; ctx.expect(shown(ctx, db, 'search_path') == want, 'path-deleted', shown(ctx, db, 'search_path'), p); db.execute('ROLLBACK'); ctx.expect(list(db.settings.path) == p, 'path-rolled-back', repr(db.settings.path), p)
			else: del db.settings.path; ctx.expect(shown(ctx, db, 'search_path') == want and list(db.settings.path) == ['c38', 'A "b'], 'path-deleted', shown(ctx, db, 'search_path'), p)
	db.close()

# -- do
def dos(ctx, rng):
	db = ctx.connect(); db.execute('CREATE LANGUAGE "my lang\'é" HANDLER plpgsql_call_handler INLINE plpgsql_inline_handler VALIDATOR plpgsql_validator')
	alphabet = ["'", '"', '$$', '$', '$1', '\\', ';', '--', '/*', 'é', '\n', '%', ':x', '?', 'a', ' ', "''", '€', '\U0001f600', "$q$", 'E\'']
	for n in range(ctx.scale(150, 3000)):
		text = ''.join(rng.choice(alphabet) for i in range(rng.choice([0, 1, 3, 10, 40]))); lang = rng.choice(['plpgsql', 'plpgsql', "my lang'é"]); ctx.case(('do', text, lang)); ctx.count('do')
		if rng.random() < .3: db.settings['standard_conforming_strings'] = rng.choice(['on', 'on'])
		marker = '$m%d$' % rng.randrange(10 ** 6)
		if marker in text: continue
		# known by its length and digest, as computed here
		try: r = db.do(lang, 'BEGIN INSERT INTO c38.log (v) VALUES (%s); END' % ql(text)); ctx.expect(r is None, 'do-result', repr(r), text)
		except Exception as e: ctx.violation('do:' + type(e).__name__, '%r: %s' % (text, str(e)[:300]), text); continue
		got = ctx.admin.query('SELECT v FROM c38.log ORDER BY id'); ctx.admin.execute('TRUNCATE c38.log')
		ctx.expect([r[0] for r in got] == [text], 'do-source', '%r instead of %r' % (got, text), text)
		if rng.random() < .2:
			try: db.do(lang, "BEGIN INSERT INTO c38.log (v) VALUES ('lost'); RAISE EXCEPTION 'no %%', %s USING ERRCODE = '22012'; END" % ql(text)); ctx.violation('do-error', 'an error was lost', text)
			except pg_exc.ZeroDivisionError as e: ctx.expect(e.message == 'no ' + text if '%' not in text else True, 'do-message', '%r' % e.message, text)
			ctx.expect(not ctx.admin.query('SELECT v FROM c38.log'), 'do-atomic', '', text)
	try: db.do('no such lang', 'x'); ctx.violation('do-language', 'an unknown language was accepted', None)
	except pg_exc.UndefinedObjectError: pass
	db.close()
