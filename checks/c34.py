"""C34: threads that each use their own connection stay isolated and correct.

The parent starts fresh interpreters (so that everything is used for the first
time by all threads at once); each child is this module run as a script.
"""
import json, os, random, subprocess, sys, threading, time

NOISY = ('driver/', 'protocol/', 'types/', 'lib/', '__init__.py', 'api.py', 'message.py', 'exceptions.py', 'python/', 'iri.py', 'clientparameters.py', 'copyman.py', 'notifyman.py', 'string.py', 'encodings/')

def child(cfg):
	import gc, faulthandler
	from vf import boot
	from datetime import date, timedelta
	from decimal import Decimal
	seed, nthreads, ops = cfg['seed'], cfg['threads'], cfg['ops']
	bad = []; counts = dict(checks=0, switches=0, pairs=0, connections=0, notices=0, errors=0); lock = threading.Lock(); progress = [0] * nthreads
	sys.setswitchinterval(cfg['interval']); gc.set_threshold(cfg['gc'])
	pairs = set(); last = [None]
	root = os.path.join(os.environ['VF_REPO'], 'postgresql') + os.sep
	prob = cfg['prob']
	noise = random.Random(seed)
	def line(frame, event, arg):
		if event == 'line':
			me = threading.get_ident(); code = frame.f_code
			here = (code.co_name, frame.f_lineno)
			l = last[0]
			if l is not None and l[0] != me:
				counts['switches'] += 1
				if len(pairs) < 200000: pairs.add((l[1], here))
			last[0] = (me, here)
			if noise.random() < prob: time.sleep(0 if noise.random() < .7 else noise.random() * .002)
		return line
	def tracer(frame, event, arg):
		f = frame.f_code.co_filename
		if f.startswith(root) and f[len(root):].startswith(NOISY): return line
	def V(mech, detail, k=None):
		with lock: bad.append((mech, 'thread %s: %s' % (k, detail)))
	boot.install(os.environ.get('VF_EXT'))
	sys.excepthook = lambda *a: V('excepthook', repr(a[1])[:300])
	sys.unraisablehook = lambda a: V('unraisable', repr((a.err_msg, a.exc_value, a.object))[:300])
	import postgresql
	def base(k): return 'postgres' if cfg['how'] == 'connector' or k % 3 != 2 else 'thr2'
	iri = 'pq://postgres@127.0.0.1:%d/postgres?[sslmode]=disable' % cfg['port']
	shared = {}
	barrier = threading.Barrier(nthreads)
	heard = []
	def work(k):
		r = random.Random('%s/%s' % (seed, k)); n = [0]
		def tag():
			n[0] += 1; return 't%d_%d_%d' % (seed, k, n[0])
		try:
			barrier.wait()
			time.sleep(r.random() * cfg['stagger'])
			if cfg['trace']: sys.settrace(tracer)
			how = cfg['how']
			# the first use: through open(), the driver, a shared connector
			if how == 'open': c = postgresql.open(iri.replace('/postgres?', '/%s?' % base(k)))
			elif how == 'driver':
				import postgresql.driver as D
				c = D.default.fit(host='127.0.0.1', port=cfg['port'], user='postgres', database=base(k), sslmode='disable')(); c.connect()
			elif how == 'dbapi':
				import postgresql.driver.dbapi20 as D2
				c = D2.connect(host='127.0.0.1', port=cfg['port'], user='postgres', database=base(k), sslmode='disable'); c.autocommit = True
			else:
				with lock:
					if 'c' not in shared: shared['c'] = postgresql.open('&' + iri)
				c = shared['c'](); c.connect()
			encs = ('utf8', 'latin1', 'utf8', 'win1250')
			use(k, c, r, tag, encs[k % 4])
		except BaseException as e:
			import traceback
			V('thread-error', '%s: %s | %s' % (type(e).__name__, str(e)[:300], traceback.format_exc()[-500:]), k)
		finally: sys.settrace(None)
	def use(k, c, r, tag, enc):
		import postgresql.exceptions as X
		from postgresql.types import Array
		counts['connections'] += 1
		notices = []
		def hook(m): notices.append((m.message, m.details.get('context'), m)); return True
		c.msghook = hook
		pid = c.prepare('select pg_backend_pid()').first()
		if pid != c.backend_id: V('identity', 'backend %r of connection to %r' % (pid, c.backend_id), k)
		c.settings['client_encoding'] = enc
		special = {'utf8': 'ж☃é', 'latin1': 'éþÿ', 'win1250': 'őřż'}[enc]
		c.settings['search_path'] = 'thr,public'
		c.execute('create temp table mine(i int, t text)')
		held = {}
		chan = 'ch%d_%d' % (seed, k); c.listen(chan)
		want_notes = []
		count = 0
		def expect(mech, got, want):
			counts['checks'] += 1
			if got != want: V(mech, 'got %r, expected %r' % (got, want), k)
		def caught(f, cls, text, what):
			counts['errors'] += 1
			try: f()
			except cls as e:
				if text not in str(e.message): V('error', '%s: error of another: %r lacks %r' % (what, e.message, text), k)
				x = getattr(e, 'creator', None)
				while x is not None and not hasattr(x, 'backend_id'): x = getattr(x, 'database', None) or getattr(x, 'statement', None) or getattr(x, 'connection', None)
				if x is not None and x is not c: V('error', '%s: the error is attributed to another connection' % what, k)
			except BaseException as e: V('error', '%s: %s: %s' % (what, type(e).__name__, str(e)[:200]), k)
			else: V('error', what + ': no error', k)
		for i in range(ops):
			progress[k] += 1
			op = r.choice(OPS); T = tag()
			try:
				if op == 'text': s = T + special * r.randint(0, 40); expect('row', c.prepare('select $1::text').first(s), s)
				elif op == 'rows':
					m = r.choice((0, 1, 9, 300)); got = [tuple(x) for x in c.prepare('select g, $1::text || g from generate_series(1, $2::int) g').rows(T, m)]
					expect('row', got, [(j, T + str(j)) for j in range(1, m + 1)])
				elif op == 'chunks':
					ps = held.setdefault('chunks', c.prepare('select g, $1::text from generate_series(1, $2::int) g')); m = r.choice((1, 260, 700))
					expect('row', [tuple(x) for ch in ps.chunks(T, m) for x in ch], [(j, T) for j in range(1, m + 1)])
				elif op == 'types':
					d = date(2000, 1, 1) + timedelta(days=r.randrange(9999)); nu = Decimal(r.randrange(10 ** 9)) / 100; by = bytes(r.randrange(256) for _ in range(9))
					v = (T, d, nu, by, 2.5 * k, None, [k, None, count], True)
					got = tuple(c.prepare('select $1::text, $2::date, $3::numeric, $4::bytea, $5::float8, $6::int, $7::int[], $8::bool').first(*v))
					expect('row', got[:6] + (list(got[6]), got[7]), v)
				elif op == 'comp':
					ps = c.prepare('select $1::thr.comp, array[$1::thr.comp, null]::thr.comp[], $2::thr.mood, $3::thr.dom'); md = r.choice(('sad', 'ok', 'glad')); a = r.randrange(999)
					b = T + special * r.choice((0, 1, 3)); there = (base(k) == 'thr2')
					got = ps.first((a, b, [a, k]) if not there else ('zé', [a, k], b, a), md, k)
					f = lambda x: (x['a'], x['b'], list(x['c'])) + ((x['z'],) if there else ())
					w = (a, b, [a, k]) + (('zé',) if there else ())
					expect('row', (f(got[0]), f(got[1][0]), got[1][1], got[2], got[3]), (w, w, None, md, k))
				elif op == 'array':
					l = [T, special, None, special + T]; n2 = r.randint(0, 4)
					got = c.prepare('select $1::text[], $2::varchar[], $3::name[], row($4::text, 1), array[$4::text]').first(l, l[:n2], [T], special)
					expect('row', (list(got[0]), list(got[1]), list(got[2]), tuple(got[3]), list(got[4])), (l, l[:n2], [T], (special, 1), [special]))
				elif op == 'more':
					import uuid, json as J
					u = uuid.UUID(int=r.getrandbits(128)); got = c.prepare('select $1::uuid, $2::jsonb, $3::inet, $4::point, $5::oid, $6::bit(8), $7::interval, $8::timestamptz is not null').first(u, json.dumps({'k': T}), '10.0.%d.1' % k, (k, 2.0), 4000000000 + k, __import__('postgresql.types.bitwise', fromlist=['x']).Varbit('00001111'), timedelta(days=k), __import__('datetime').datetime(2020, 1, 1, tzinfo=__import__('datetime').timezone.utc))
					expect('row', (str(got[0]), json.loads(got[1]), str(got[2]), tuple(got[3]), got[4], got[7]), (str(u), {'k': T}, '10.0.%d.1' % k, (k, 2.0), 4000000000 + k, True))
				elif op == 'raise': caught(lambda: c.execute("do $$ begin raise exception 'E%s'; end $$" % T), X.PLPGSQLRaiseError, 'E' + T, op)
				elif op == 'badcast': caught(lambda: c.prepare('select $1::text::int').first(T), X.TextRepresentationError, T, op)
				elif op == 'nosuch': caught(lambda: c.prepare('select * from "no%s"' % T), X.UndefinedTableError, T, op)
				elif op == 'pack':
					try: c.prepare('select $1::int').first(T)
					except X.ParameterError as e:
						if T not in str(e): V('error', 'packing error of another', k)
					else: V('error', 'no packing error', k)
				elif op == 'notice':
					del notices[:]; m = r.choice((1, 3))
					c.execute("do $$ begin for i in 1..%d loop raise warning 'N%s'; end loop; end $$" % (m, T))
					counts['notices'] += m
					expect('notice', [x[0] for x in notices], ['N' + T] * m)
				elif op == 'notify':
					c.notify(**{chan: T}); want_notes.append((chan, T)); got = []
					for db, ns in __import__('postgresql.notifyman', fromlist=['x']).NotificationManager(c, timeout=0).__class__(c, timeout=20):
						got += [(x[0], x[1]) for x in ns]
						if db is not c: V('notification', 'of another connection', k)
						break
					expect('notification', got, [(chan, T)])
				elif op == 'xact':
					c.execute('delete from mine')
					try:
						with c.xact():
							c.prepare('insert into mine values ($1, $2)').load_rows([(j, T) for j in range(5)])
							if r.random() < .4: raise KeyError(T)
						w = 5
					except KeyError as e: w = 0; expect('error', e.args[0], T)
					expect('row', [tuple(x) for x in c.prepare('select i, t from mine order by i').rows()], [(j, T) for j in range(w)])
				elif op == 'cursor':
					with c.xact():
						cu = c.prepare('select g, $1::text from generate_series(1, 50) g').declare(T)
						cu.seek(10); got = [tuple(x) for x in cu.read(5)]; cu.close()
					expect('row', got, [(j, T) for j in range(11, 16)])
				elif op == 'copy':
					lines = [('%d\t%s\n' % (j, T)).encode() for j in range(r.choice((0, 5, 200)))]
					c.execute('delete from mine'); c.prepare('copy mine from stdin').load_rows(lines)
					expect('row', list(c.prepare('copy (select * from mine order by i) to stdout').rows()), lines)
				elif op == 'copyman':
					from postgresql.copyman import CopyManager, StatementProducer, StatementReceiver
					c2 = c.clone(); c2.execute('create temp table theirs(i int, t text)')
					src = c.prepare("copy (select g, '%s' from generate_series(1, 300) g) to stdout" % T); dst = c2.prepare('copy theirs from stdin')
					cm = CopyManager(StatementProducer(src), StatementReceiver(dst)); cm.run()
					expect('row', [tuple(x) for x in c2.prepare('select count(*), min(t), max(t) from theirs').rows()], [(300, T, T)]); c2.close(); counts['connections'] += 1
				elif op == 'settings':
					c.settings['application_name'] = T; expect('setting', (c.settings['application_name'], c.prepare('show application_name').first()), (T, T))
					with c.settings(work_mem='%dkB' % (1000 + k)): expect('setting', c.settings['work_mem'], '%d' % (1000 + k))
				elif op == 'proc': expect('row', c.proc('thr.cat(text,int)')(T, k), T + str(k))
				elif op == 'procset': expect('row', [tuple(x) for x in c.proc('thr.gen(int,text)')(7, T)], [(j, T, None) if False else (j, T) for j in range(1, 8)])
				elif op == 'lib':
					from postgresql import lib as L
					if r.random() < .5: lib = L.ILF.from_lines(("[x::first]\nselect '%s' || $1::text\n[y:const:first]\nselect %d\n" % (T, k)).splitlines(True))
					else:
						with lock: lib = shared.setdefault('lib', L.ILF.from_lines("[x::first]\nselect '' || $1::text\n[y:const:first]\nselect pg_backend_pid()\n".splitlines(True)))
					B = L.Binding(c, lib); own = lib is not shared.get('lib')
					expect('row', (B.x(T), B.y), (T + T, k) if own else (T, pid))
				elif op == 'sys': expect('row', (c.sys.lookup_type(25)['typname'], c.sys.xact_is_prepared(T)), ('text', None))
				elif op == 'named':
					from postgresql.types.namedtuple import namedtuples
					cn = 'col_%d_%d' % (k, count % 5); x = next(iter(namedtuples(c.prepare('select $1::text as "%s", 1 as same, %d as b' % (cn, k)))(T)))
					expect('row', (getattr(x, cn), x.same, x.b), (T, 1, k))
				elif op == 'again':
					for s in ('a', 'b'):
						ps = held.get(s)
						if ps is None: ps = held[s] = c.prepare("select '%s', $1::text" % (s + str(k)))
						expect('row', tuple(ps.first(T)), (s + str(k), T))
				elif op == 'garbage':
					# statements and cursors left to the garbage collector, which runs in any thread
					for j in range(4):
						ps = c.prepare('select $1::text, %d' % j); loop = [ps]; loop.append(loop)
						if r.random() < .5:
							with c.xact(): cu = ps.declare(T); loop.append(cu); expect('row', tuple(cu.read(1)[0]), (T, j))
						else: expect('row', tuple(ps.first(T)), (T, j))
						del ps, loop
				elif op == 'reconnect':
					c2 = c.clone(); counts['connections'] += 1
					expect('row', tuple(c2.prepare('select $1::text, pg_backend_pid()').first(T)), (T, c2.backend_id)); c2.close()
				elif op == 'open':
					c2 = postgresql.open(iri + '&application_name=' + T) if False else postgresql.open(iri, settings={'application_name': T}); counts['connections'] += 1
					expect('setting', c2.prepare('show application_name').first(), T); c2.close()
				elif op == 'alock':
					from postgresql.alock import ExclusiveLock
					with ExclusiveLock(c, (k, 7), k + 1000): expect('row', c.prepare("select count(*) from pg_locks where locktype = 'advisory' and pid = pg_backend_pid()").first(), 2)
				elif op == 'text-tools':
					from postgresql import string as S, iri as I, versionstring as W
					q = T + "'\"" + special; expect('pure', (S.split_qname(S.qname(q, T)), W.normalize(W.split('%d.%d' % (k, count)))), ([q, T], (k, count, 0, 'final', 0)))
					p = I.parse('pq://u%d:p@h%d:1/%s' % (k, k, T)); expect('pure', (p['user'], p['host'], p['database']), ('u%d' % k, 'h%d' % k, T))
				elif op == 'repr':
					s = str(c) + repr(c) + repr(c.connector)
				elif op == 'dbapi':
					import postgresql.driver.dbapi20 as D2
					x = D2.connect(host='127.0.0.1', port=cfg['port'], user='postgres', database='postgres', sslmode='disable'); counts['connections'] += 1
					cu = x.cursor(); cu.execute('select %s::text, %s::int', (T, k)); expect('row', tuple(cu.fetchone()), (T, k)); x.close()
				elif op == 'cancel':
					over = threading.Event()
					def again():
						# (one that comes before the statement runs has no effect)
						while not over.wait(.02): c.interrupt()
					t = threading.Thread(target=again)
					caught(lambda: (t.start(), c.execute("select pg_sleep(300)"))[1], X.QueryCanceledError, '', op); over.set(); t.join()
				count += 1
			except Exception as e:
				import traceback
				V('operation-error', '%s: %s: %s | %s' % (op, type(e).__name__, str(e)[:200], traceback.format_exc()[-400:]), k)
				if c.closed: return
				try:
					if c.pq.state != b'I': c.execute('rollback')
				except Exception: pass
		if notices and any(k2 != k for m in notices for k2 in [int(m[0].split('_')[1])] if m[0].startswith('Nt')): V('notice', 'of another thread: %r' % (notices,), k)
		expect('identity', c.prepare('select pg_backend_pid()').first(), pid)
		c.close()
	OPS = cfg['mix']
	ts = [threading.Thread(target=work, args=(k,), daemon=True) for k in range(nthreads)]
	for t in ts: t.start()
	idle = 0; was = None
	while any(t.is_alive() for t in ts):
		time.sleep(.25)
		now = (tuple(progress), round(time.process_time(), 0))
		idle = idle + 1 if now == was else 0; was = now
		if idle > 400:   # no progress and no work done for 100 s
			faulthandler.dump_traceback(all_threads=True); V('stuck', 'threads neither progress nor compute: %r' % (progress,)); break
	counts['pairs'] = len(pairs)
	gc.collect()
	json.dump(dict(bad=bad[:20], counts=counts, done=sum(progress)), sys.stdout); sys.stdout.flush(); os._exit(0)

ALL = ['text', 'text', 'rows', 'rows', 'chunks', 'types', 'types', 'comp', 'comp', 'array', 'array', 'more', 'raise', 'badcast', 'nosuch', 'pack', 'notice', 'notice', 'notify', 'xact', 'cursor', 'copy', 'copyman', 'settings', 'proc', 'procset', 'lib', 'sys', 'named', 'again', 'garbage', 'garbage', 'reconnect', 'open', 'alock', 'text-tools', 'repr', 'dbapi', 'cancel']

def main(ctx):
	ctx.rule = 'fresh interpreters in which all threads start at once, with forced switches inside the package and a busy garbage collector; every row, parameter, error, notice and notification carries a tag of its thread; distinct pairs of (line left, line entered) at switches are counted'
	r = ctx.rng('c34')
	c = ctx.connect()
	c.execute('drop database if exists thr2'); c.execute('create database thr2'); c.close()
	for db, comp in (('postgres', 'a int, b text, c int[]'), ('thr2', 'z text, c int[], b text, a int')):
		c = ctx.connect(database=db)
		c.execute('''drop schema if exists thr cascade; create schema thr; create type thr.comp as (%s); create type thr.mood as enum ('sad', 'ok', 'glad'); create domain thr.dom as int;
	create function thr.cat(text, int) returns text language sql as $$select $1 || $2$$; create function thr.gen(int, text, out int, out text) returns setof record language sql as $$select g, $2 from generate_series(1, $1) g$$; ''' % comp)
		c.close()
	hows = ['open', 'driver', 'connector', 'dbapi', 'open']
	procs = []; n = 0
	def start(n):
		mix = ALL if n % 3 else [r.choice(ALL) for _ in range(6)]
		trace = n % 4 != 3
		cfg = dict(seed=ctx.seed * 1000 + n, threads=r.choice((4, 6, 8)), ops=r.choice((0, 6, 20)) if trace else 60, port=ctx.port, how=hows[n % 5], mix=mix, trace=trace, prob=r.choice((.0005, .003, .02)), stagger=r.choice((0, 0, .02, .1, .3, 1)), interval=r.choice((1e-6, 1e-5, 5e-3)), gc=r.choice((10, 50, 700)))
		p = subprocess.Popen([sys.executable, '-c', 'import sys, json; sys.path.insert(0, %r); from checks import c34; c34.child(json.loads(sys.argv[1]))' % os.path.dirname(os.path.dirname(os.path.abspath(__file__))), json.dumps(cfg)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=ctx.scratch)
		return p, cfg
	total = ctx.scale(60, 1200); alive = []; late = 0
	def finish(p, cfg):
		try: out, err = p.communicate(timeout=500)
		except subprocess.TimeoutExpired:
			p.kill(); p.communicate(); ctx.count('abandoned'); return
		ctx.count('runs'); ctx.case(json.dumps(cfg), True, json.dumps({k: v for k, v in cfg.items() if k != 'mix'}))
		try: d = json.loads(out.decode())
		except Exception:
			ctx.violation('child', 'ended with %r: %s' % (p.returncode, err.decode(errors='replace')[-1500:]), cfg); return
		for k, v in d['counts'].items(): ctx.count(k, v)
		ctx.count('operations', d['done'])
		for m, t in d['bad']: ctx.violation(m, t, cfg)
	while n < total or alive:
		if n < total and len(alive) < 4:
			if ctx.elapsed() > ctx.scale(38, 560): total = n; continue
			alive.append(start(n)); n += 1; continue
		finish(*alive.pop(0))
	ctx.require('runs', 'switches', 'pairs', 'checks', 'errors', 'notices')
