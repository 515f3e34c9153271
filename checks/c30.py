"""C30: a cluster object tells the truth about its server and controls only that one."""
import os, shutil, signal, socket, subprocess, sys, threading, time

BIN = os.environ.get('VF_PGBIN', '/opt/pgtest/bin')
DEV = open(os.devnull, 'w')

def free_port():
	s = socket.socket(); s.bind(('127.0.0.1', 0)); p = s.getsockname()[1]; s.close(); return p

# -- the process table's view
def procs(data):
	"""pids of server processes whose working directory is the data directory"""
	out = []
	data = os.path.realpath(data)
	for p in os.listdir('/proc'):
		if p.isdigit():
			try:
				if os.path.basename(os.readlink('/proc/%s/exe' % p)) != 'postgres': continue
				if os.readlink('/proc/%s/cwd' % p).replace(' (deleted)', '') != data: continue
				st = open('/proc/%s/stat' % p).read().rsplit(')', 1)[1].split()
			except OSError: continue
			if st[0] != 'Z': out.append((int(p), int(st[1])))
	return out
def postmaster(data):
	l = procs(data); pids = {p for p, _ in l}
	m = [p for p, pp in l if pp not in pids and not is_orphan(p)]
	return m[0] if m else None
def is_orphan(p):
	# a server child whose postmaster died; a postmaster's title is its command line
	try: return open('/proc/%d/cmdline' % p).read().startswith('postgres: ')
	except OSError: return True
def settle(f, want, secs=30):
	t = time.monotonic()
	while True:
		v = f()
		if v == want or time.monotonic() - t > secs: return v
		time.sleep(.01)
def alive(pid):
	try: os.kill(pid, 0); return True
	except OSError: return False
def dead_pid():
	p = subprocess.Popen(['/bin/true']); p.wait(); return p.pid

class World:
	"""a data directory, its real state, and what has been signalled"""
	def __init__(self, ctx, mods):
		self.ctx, self.m = ctx, mods
		self.sent, self.hist, self.extra = [], [], []
		real = mods['cluster'].pg_kill
		self.real = getattr(real, '_real', real)
		def pg_kill(pid, sig, _w=self):
			_w.sent.append((pid, int(sig)))
			if int(sig) and pid not in _w.allowed():
				return None             # recorded, not delivered
			return _w.real(pid, sig)
		pg_kill._real = self.real
		mods['cluster'].pg_kill = pg_kill
	def allowed(self):
		a = set()
		for d in self.dirs: a.update(p for p, _ in procs(d))
		for c in self.objs:
			if c.daemon_process is not None and c.daemon_process.poll() is None: a.add(c.daemon_process.pid)
		return a

def conf(w, c, port, extra=()):
	d = dict(listen_addresses='127.0.0.1', port=str(port), unix_socket_directories=w.ctx.scratch, fsync='off', shared_buffers='1MB', max_connections='8', max_wal_senders='0', autovacuum='off', log_destination='stderr', max_worker_processes='0', wal_level='replica', timezone='UTC', log_timezone='UTC')
	d.update(extra); c.settings.update(d)

def main(ctx):
	ctx.rule = ('lifecycle histories on real servers (init, start, stop, shutdown, kill, restart, reload, drop, waits; server and observers killed outside; stale, empty, garbage and foreign pid files): '
		'running/state/pid/initialized compared with the process table, waits with what the process table and a connection say when they return, every signal with its target, data with what was committed')
	from postgresql import cluster as cm, installation as im, exceptions as pe
	r = ctx.rng('c30')
	inst = im.Installation(im.pg_config_dictionary(BIN + '/pg_config'))
	w = World(ctx, dict(cluster=cm)); w.dirs, w.objs = [], []
	number = [0]
	def case(k, **kw): number[0] += 1; ctx.count('case:' + k); ctx.case('%s/%d' % (k, number[0]), **kw)
	ctx.tick = case
	V = lambda mech, detail, case=None: ctx.violation(mech, str(detail)[:400], case)

	def obj(d):
		c = cm.Cluster(inst, d); w.objs.append(c); return c
	def newdir(name):
		d = os.path.join(ctx.scratch, name); w.dirs.append(d); return d

	def truth(c, why):
		"""the object's predicates against the real state, once the real state has settled"""
		info = dict(why=why, hist=list(w.hist)[-8:])
		for attempt in range(200):
			a = postmaster(c.data_directory) is not None
			try: run, st, pid, ini = c.running(), c.state, c.pid, c.initialized()
			except Exception as e:
				V('predicate-raises', '%s: %r' % (why, e), info); return
			b = postmaster(c.data_directory)
			ok = a == (b is not None)
			exist = os.path.exists(c.data_directory)
			want = 'running' if b else 'stopped' if exist else 'void'
			good = run is (b is not None) and st == want and pid == b
			if ok and good: break
			time.sleep(.02)     # a state that is just changing
		else:
			V('predicates', '%s: running()=%r state=%r pid=%r; really %s pid %r' % (why, run, st, pid, want, b), info)
		wi = os.path.isdir(os.path.join(c.data_directory, 'base')) and os.path.exists(os.path.join(c.data_directory, 'postgresql.conf'))
		if ini is not wi: V('initialized', '%s: %r, really %r' % (why, ini, wi), info)
		try: ready = c.ready_for_connections()
		except Exception as e: V('ready-raises', '%s: %r' % (why, e), info); return
		really = can_connect(c)
		if bool(ready) != really and not bool(c.ready_for_connections()) == can_connect(c):
			V('ready', '%s: ready_for_connections() is %r, connecting %s' % (why, ready, 'works' if really else 'fails'), info)
		ctx.count('truth:' + want)
		from postgresql.python.element import format_element
		try: s = format_element(c)
		except Exception as e: V('description-raises', repr(e), info); return
		if b and str(b) not in s: postmaster(c.data_directory) == b and V('description', 'the description of a running cluster does not name its pid: ' + s, info)

	ports = {}
	def can_connect(c):
		p = ports.get(c.data_directory)
		if p is None or postmaster(c.data_directory) is None: return False
		return subprocess.run([BIN + '/psql', '-XAtqc', 'select 1', '-h', '127.0.0.1', '-p', str(p), '-U', 'test', 'template1'], capture_output=True, env=dict(os.environ, PGCONNECT_TIMEOUT='20')).returncode == 0
	def sql(c, q):
		x = subprocess.run([BIN + '/psql', '-XAtqc', q, '-h', '127.0.0.1', '-p', str(ports[c.data_directory]), '-U', 'test', 'template1'], capture_output=True, text=True)
		return x.stdout.strip() if x.returncode == 0 else None
	def signals(why):
		bad = [(p, s) for p, s in w.sent if s and p not in seen_pm and p not in w.allowed()]
		if bad: V('foreign-signal', '%s: signals were sent to %r, which are not this cluster' % (why, bad), dict(why=why, hist=w.hist[-8:]))
		ctx.count('signals', sum(1 for _, s in w.sent if s)); w.sent.clear()
	seen_pm = set()
	def note(c):
		p = postmaster(c.data_directory)
		if p: seen_pm.add(p)
		return p

	def op(name, f, ok=(cm.ClusterError,), limit=90, must=None):
		"""run an operation; what it raises has to be a cluster error"""
		w.hist.append(name); t0 = time.monotonic()
		try:
			with ctx.step(name, dict(hist=w.hist[-8:]), limit): v = f()
		except ok as e: return e
		except Exception as e:
			V('raises:' + name.split(' ')[0], '%s raised %s: %s' % (name, type(e).__name__, str(e)[:200]), dict(hist=w.hist[-8:])); return e
		finally:
			if os.environ.get('VF_TRACE'): print('%6.2f %5.2f %s' % (ctx.elapsed(), time.monotonic() - t0, name), flush=True)
		return v

	sentry = postmaster_of_check(ctx)
	def reap():
		# a process that has ended stays in the process table until whoever started it looks
		while True:
			for o in list(w.objs):
				p = o.daemon_process
				if p is not None: p.poll()
			time.sleep(.02)
	threading.Thread(target=reap, daemon=True).start()

	# --- initialise
	d = newdir('one'); c = obj(d)
	truth(c, 'void')
	for bad in (dict(encoding='no-such-encoding'), dict(authentication='no-such-method'), dict(extra_arguments=('--no-such-option',))):
		e = op('init-bad %r' % bad, lambda: c.init(user='test', **bad))
		if not isinstance(e, cm.InitDBError): V('init-bad', '%r gave %r' % (bad, e), bad)
		truth(c, 'after a failed init')
		case('init-bad')
	if ctx.rng('tmp').random() < 2:
		before = set(os.listdir(os.environ.get('TMPDIR', '/tmp')))
	e = op('init', lambda: c.init(user='test', encoding='utf-8', password="p'w é", authentication='trust', extra_arguments=('--no-sync', '--locale=C.UTF-8')))
	if isinstance(e, Exception): V('init', repr(e)); return
	left = set(os.listdir(os.environ.get('TMPDIR', '/tmp'))) - before
	if any(open_has(os.path.join(os.environ.get('TMPDIR', '/tmp'), x), "p'w") for x in left): V('init-password-left', sorted(left))
	case('init')
	truth(c, 'initialised')
	port = free_port(); ports[d] = port; conf(w, c, port)
	template = os.path.join(ctx.scratch, 'template'); shutil.copytree(d, template)
	# a second initialise is refused and harms nothing
	h = tree(d)
	e = op('init-again', lambda: c.init(user='other'))
	if not isinstance(e, cm.InitDBError): V('init-again', 'initialising twice gave %r' % (e,))
	if tree(d) != h: V('init-again-damage', 'files differ after initialising twice')
	case('init-again')

	# documented defaults
	dn = newdir('nones'); cn = obj(dn)
	e = op('init-none', lambda: cn.init(encoding=None, user=None, password=None, extra_arguments=('--no-sync',)))
	if isinstance(e, Exception) or not cn.initialized(): V('init-none', 'init(encoding=None, user=None, password=None) gave %r' % (e,))
	else:
		op('drop', cn.drop)
		if os.path.exists(dn): V('drop-left', dn)
	shutil.rmtree(dn, ignore_errors=True)
	case('init-none')

	# not running: nothing to signal, nothing to wait for
	for n in ('stop', 'shutdown', 'kill', 'reload'): op(n + ' stopped', getattr(c, n))
	op('wait_until_stopped stopped', c.wait_until_stopped)
	e = op('wait_until_started unstarted', lambda: c.wait_until_started(timeout=5))
	if not isinstance(e, cm.ClusterNotRunningError): V('wait-unstarted', repr(e))
	e = op('connect stopped', lambda: c.connect(user='test', database='template1'))
	if not isinstance(e, cm.ClusterNotRunningError): V('connect-unstarted', repr(e))
	truth(c, 'stopped'); signals('stopped'); case('idle')

	# --- start and stop
	op('start', lambda: c.start(logfile=DEV))
	e = op('wait_until_started', c.wait_until_started)
	if isinstance(e, Exception): V('start', repr(e)); return
	if not can_connect(c): V('wait-started-early', 'wait_until_started() returned, a connection is refused')
	pm = note(c); truth(c, 'started')
	if sql(c, "create table t(i int); insert into t values (1); select 'ok'") != 'ok': V('sql', 'cannot write')
	# starting it again is nothing
	op('start running', lambda: c.start(logfile=DEV)); op('wait_until_started', c.wait_until_started)
	if postmaster(d) != pm: V('start-running', 'starting a running cluster changed the server process')
	# the operations of a second object
	c2 = obj(d); truth(c2, 'observer')
	op('start running (observer)', lambda: c2.start(logfile=DEV)); op('wait_until_started observer', c2.wait_until_started)
	if postmaster(d) != pm: V('start-running', 'starting a running cluster (other object) changed the server process')
	with_conn = op('connect', lambda: c2.connect(user='test', database='template1'))
	if with_conn.prepare('select i from t').first() != 1: V('data', 'first row')
	# reload
	c.settings['log_min_duration_statement'] = '12345'
	op('reload', c2.reload); note(c)
	if settle(lambda: sql(c, 'show log_min_duration_statement'), '12345ms') != '12345ms': V('reload', 'the changed setting did not arrive')
	case('reload'); signals('reload')
	# graceful stop waits for the client
	op('stop with client', c.stop); signals('stop')
	e = op('wait_until_stopped busy', lambda: c.wait_until_stopped(timeout=.3))
	if not isinstance(e, cm.ClusterTimeoutError): V('stop-busy', 'with a client connected waiting gave %r' % (e,))
	if with_conn.prepare('select 7').first() != 7: V('stop-kills', 'stop() ended a client')
	e = op('wait_until_stopped busy (observer)', lambda: c2.wait_until_stopped(timeout=.3))
	if not isinstance(e, cm.ClusterTimeoutError): V('stop-busy', 'with a client connected waiting (observer) gave %r' % (e,))
	if not c.running(): V('stop-busy-state', 'running() is false with a client still served')
	with_conn.close()
	e = op('wait_until_stopped', c.wait_until_stopped)
	if postmaster(d): V('wait-stopped-early', 'the server process of a started cluster is there after wait_until_stopped()')
	truth(c, 'stopped'); truth(c2, 'stopped, observer'); case('graceful')
	# the observer starts, the first stops
	with_conn = None
	op('start (observer)', lambda: c2.start(logfile=DEV)); settle(lambda: c.running(), True); op('wait_until_started (other)', c.wait_until_started); note(c)
	if not can_connect(c): V('wait-started-early', 'observer')
	truth(c, 'started by another object')
	k = op('connect', lambda: c.connect(user='test', database='template1'))
	op('shutdown (other)', c.shutdown); signals('shutdown')
	e = op('wait_until_stopped (other)', c.wait_until_stopped)
	if isinstance(e, Exception): V('shutdown', 'with a client connected waiting for a shutdown gave %r' % (e,))
	if settle(lambda: postmaster(d), None) is not None: V('wait-stopped-early', 'observer')
	truth(c, 'shut down'); truth(c2, 'shut down by another'); case('other-object')

	# settings for the server process, and a context
	p2 = free_port(); ports[d] = p2
	op('start with settings', lambda: c.start(logfile=DEV, settings={'port': str(p2), 'work_mem': '123kB'}))
	e = op('wait_until_started settings', lambda: c.wait_until_started(timeout=20))
	if isinstance(e, Exception): V('start-settings', 'start(settings=...) then waiting gave %r' % (e,))
	elif sql(c, 'show work_mem') != '123kB': V('start-settings', 'settings given to start() are not in force')
	else:
		truth(c, 'started with settings')
		k = op('connect settings', lambda: c.connect(user='test', database='template1'))
		if isinstance(k, Exception): V('start-settings', 'connect() gave %r' % (k,))
		else: k.close()
	note(c); op('shutdown', c.shutdown); op('wait_until_stopped', c.wait_until_stopped)
	op('start with pairs', lambda: c.start(logfile=DEV, settings=[('port', str(p2)), ('work_mem', '124kB')]))
	if not isinstance(op('wait_until_started pairs', lambda: c.wait_until_started(timeout=20)), Exception):
		if sql(c, 'show work_mem') != '124kB': V('start-settings', 'settings given to start() as pairs are not in force')
	if postmaster(d): note(c); op('shutdown', c.shutdown); op('wait_until_stopped', c.wait_until_stopped)
	if settle(lambda: postmaster(d), None): subprocess.run([BIN + '/pg_ctl', '-D', d, '-m', 'fast', 'stop'], stdout=DEV, stderr=DEV)
	ports[d] = port; case('settings'); signals('settings')
	for kind in ('ok', 'error'):
		try:
			with ctx.step('context', None, 90):
				with c as x:
					note(c)
					if not can_connect(c): V('context', 'the body runs before connections are accepted')
					if kind == 'error': raise KeyError('x')
		except KeyError: pass
		except Exception as e: V('raises:context', repr(e))
		if postmaster(d): V('context', 'running after leaving the context')
		truth(c, 'after the context'); case('context')

	# restart
	op('restart stopped', lambda: c.restart(logfile=DEV)); note(c)
	if not can_connect(c): V('restart', 'not accepting connections after restart() of a stopped cluster')
	a = postmaster(d)
	op('restart', lambda: c.restart(logfile=DEV)); b = note(c)
	if b is None or a == b or alive(a) or not can_connect(c): V('restart', 'restart(): before %r, after %r' % (a, b))
	x = op('connect', lambda: c.connect(user='test', database='template1'))
	e = op('restart busy', lambda: c.restart(logfile=DEV, timeout=.5))
	if not isinstance(e, cm.ClusterTimeoutError): V('restart-busy', 'restart() with a client gave %r' % (e,))
	x.close(); op('wait_until_stopped', c.wait_until_stopped); truth(c, 'after a failed restart'); case('restart'); signals('restart')

	# --- crashes
	for who in ('kill()', 'outside', 'outside, observer', 'startup'):
		o = c if who != 'outside, observer' else c2
		op('start ' + who, lambda: o.start(logfile=DEV))
		if who == 'startup':
			os.kill(o.daemon_process.pid, signal.SIGKILL)
			e = op('wait_until_started killed', lambda: o.wait_until_started(timeout=20))
			if not isinstance(e, (cm.ClusterStartupError, cm.ClusterNotRunningError)): V('startup-killed', 'waiting for a server killed during startup gave %r' % (e,))
		else:
			op('wait_until_started ' + who, o.wait_until_started); p = note(c)
			sql(c, 'insert into t values (2)')
			if who == 'kill()': op('kill', c.kill)
			else: os.kill(p, signal.SIGKILL)
			if o.daemon_process is not None: settle(lambda: o.daemon_process.poll() is None, False)
			e = op('wait_until_stopped killed', lambda: c.wait_until_stopped())
			if isinstance(e, Exception): V('kill', 'waiting after a kill gave %r' % (e,))
			if alive(p) and postmaster(d): V('wait-stopped-early', 'after a kill')
		truth(c, 'crashed: ' + who); truth(c2, 'crashed, observer: ' + who)
		for n in ('stop', 'shutdown', 'kill', 'reload'): op(n + ' crashed', getattr(c, n)); op(n + ' crashed (other)', getattr(c2, n))
		signals('crashed: ' + who)
		settle(lambda: procs(d), []); case('crash')
	op('start after crash', lambda: c.start(logfile=DEV)); e = op('wait_until_started after crash', lambda: c.wait_until_started(timeout=60)); note(c)
	if isinstance(e, Exception): V('recovery', repr(e))
	if sql(c, 'select count(*) from t') != '4': V('data', 'rows after crashes: %r' % sql(c, 'select count(*) from t'))
	op('shutdown', c.shutdown); op('wait_until_stopped', c.wait_until_stopped); truth(c, 'recovered')

	# a server that cannot start
	c.settings['shared_buffers'] = 'garbage'
	op('start broken', lambda: c.start(logfile=DEV)); e = op('wait_until_started broken', c.wait_until_started)
	if not isinstance(e, cm.ClusterStartupError): V('start-broken', 'waiting for a server that cannot start gave %r' % (e,))
	truth(c, 'cannot start'); c.settings['shared_buffers'] = '1MB'; case('broken'); signals('broken')
	nope = cm.Cluster(im.Installation(dict(inst.info, bindir=ctx.scratch + '/nowhere')), d)
	for n, f in (('start', nope.start), ('init', nope.init)):
		e = op(n + ' without executables', f)
		if not isinstance(e, cm.ClusterError): V('no-executable', '%s() without executables gave %r' % (n, e))
		case('no-executable')

	# --- pid files that lie
	decoys = []
	def decoy():
		p = subprocess.Popen([sys.executable, '-c', 'import signal,os,time\nfor s in (1,2,15): signal.signal(s, lambda *a: os.write(1, b"!"))\nos.write(1, b"r")\nwhile 1: time.sleep(1)'], stdout=subprocess.PIPE)
		p.stdout.read(1); decoys.append(p); return p.pid
	pf = os.path.join(d, 'postmaster.pid')
	for name, text in (('dead', '%d\n%s\n' % (dead_pid(), d)), ('empty', ''), ('garbage', 'xyz\n'), ('blank', '\n\n'), ('zero', '0\n'), ('group', '-%d\n' % os.getpgrp()), ('standalone', '-%d\n' % dead_pid()), ('self', '%d\n' % os.getpid()), ('parent', '%d\n' % os.getppid()), ('init', '1\n'), ('huge', '99999999999999999999\n'), ('foreign', '%d\n%s\n' % (decoy(), d)), ('directory', None)):
		for o in (c, c2):
			w.hist.clear(); w.hist.append('pid file: ' + name)
			if text is None: os.mkdir(pf)
			else: open(pf, 'w').write(text)
			mech = 'pidfile-' + name
			try: st = (o.running(), o.state, o.pid)
			except Exception as e: V(mech + '-raises', '%s pid file: %r' % (name, e))
			else:
				if st != (False, 'stopped', None): V(mech, '%s pid file: running()=%r state=%r pid=%r' % ((name,) + st))
			w.sent.clear()
			for n in ('stop', 'shutdown', 'kill', 'reload'):
				try: getattr(o, n)()
				except Exception as e: V(mech + '-raises', '%s() with %s pid file: %r' % (n, name, e))
			sent = [x for x in w.sent if x[1]]
			if sent: V(mech, '%s pid file: signals sent to %r' % (name, sent))
			w.sent.clear()
			if text is None: os.rmdir(pf)
			else: os.unlink(pf)
			case('pidfile')
	for p in decoys: p.kill(); p.wait()
	w.hist.clear()
	# the window in which a starting server has created but not yet filled its file
	op('start', lambda: c.start(logfile=DEV)); op('wait_until_started', c.wait_until_started); p = note(c)
	hold = pf + '.hold'; shutil.copy(pf, hold); open(pf, 'w').close()
	try:
		if c.running() is not True or c.pid != p: V('pidfile-window', 'while the pid file is empty: running()=%r pid=%r' % (c.running(), c.pid))
	except Exception as e: V('pidfile-window-raises', repr(e))
	shutil.copy(hold, pf); os.unlink(hold)
	# the file vanishes between two looks at it
	gone = threading.Thread(target=lambda: (time.sleep(.05), os.kill(p, signal.SIGINT)))
	gone.start(); e = op('wait_until_stopped racing', lambda: c2.wait_until_stopped(delay=0)); gone.join()
	if isinstance(e, Exception): V('wait-race', 'waiting while the server stops gave %r' % (e,))
	truth(c, 'raced'); case('race')
	for i in range(ctx.scale(3, 30)):
		orig = c2.get_pid_from_file; n = [0]
		op('start', lambda: c.start(logfile=DEV)); op('wait_until_started', c.wait_until_started); p = note(c)
		k = r.randrange(1, 6)
		def flaky(orig=orig, n=n, k=k, p=p):
			n[0] += 1
			if n[0] == k:
				os.kill(p, signal.SIGINT); settle(lambda: postmaster(d), None); c.daemon_process and c.daemon_process.poll()
			return orig()
		c2.get_pid_from_file = flaky
		e = op('wait_until_stopped vanishing', lambda: c2.wait_until_stopped(delay=0.001))
		if isinstance(e, Exception): V('wait-race', 'the server ends at look %d at the pid file: %r' % (k, e), dict(k=k))
		del c2.get_pid_from_file; truth(c2, 'vanished'); case('race')
	signals('race')

	# --- a server that is not ready yet
	shutil.copy(os.path.join(d, 'postgresql.conf'), os.path.join(ctx.scratch, 'conf.keep'))
	c.settings['restore_command'] = 'sleep 0.8; false'
	open(os.path.join(d, 'recovery.signal'), 'w').close(); c.settings['hot_standby'] = 'off'
	op('start recovering', lambda: c.start(logfile=DEV))
	settle(lambda: os.path.exists(pf), True)
	seen = 0; t0 = time.monotonic()
	while time.monotonic() - t0 < 30:
		a = can_connect(c)
		try: b = c.ready_for_connections()
		except Exception as e: V('ready-raises', repr(e)); break
		z = can_connect(c)
		if a == z:
			seen += not a
			if bool(b) != a: V('ready', 'ready_for_connections() is %r while connections are %s' % (b, 'accepted' if a else 'refused (starting up)')); break
		if a or seen > 3: break
	if seen: ctx.count('starting-up', seen)
	e = op('wait_until_started recovering', lambda: c.wait_until_started(timeout=.2), ok=(cm.ClusterError, pe.ServerNotReadyError))
	if not can_connect(c) and not isinstance(e, (cm.ClusterTimeoutError, pe.ServerNotReadyError)): V('wait-recovering', 'waiting for a recovering server gave %r' % (e,))
	e = op('wait_until_started recovered', lambda: c.wait_until_started(timeout=60), ok=(cm.ClusterError, pe.ServerNotReadyError)); note(c)
	if isinstance(e, Exception): V('wait-recovering', 'a slow start was given up: %r' % (e,))
	elif not can_connect(c): V('wait-started-early', 'recovery')
	op('shutdown', c.shutdown); op('wait_until_stopped', c.wait_until_stopped)
	for f in ('recovery.signal',):
		if os.path.exists(os.path.join(d, f)): os.unlink(os.path.join(d, f))
	shutil.copy(os.path.join(ctx.scratch, 'conf.keep'), os.path.join(d, 'postgresql.conf')); case('recovering'); signals('recovering')

	# a frozen server
	op('start', lambda: c.start(logfile=DEV)); op('wait_until_started', c.wait_until_started); p = note(c)
	os.kill(p, signal.SIGSTOP)
	res = []
	def frozen():
		try: c.wait_until_started(timeout=1); res.append('returned')
		except Exception as e: res.append(e)
	t = threading.Thread(target=frozen, daemon=True); t.start(); t.join(20)
	if not res: V('frozen-server-wait', 'wait_until_started(timeout=1) has not returned 20 s after the server was frozen')
	elif res[0] == 'returned': V('frozen-server', 'wait_until_started() returned for a frozen server')
	os.kill(p, signal.SIGCONT); t.join(60); op('shutdown', c.shutdown); op('wait_until_stopped', c.wait_until_stopped); truth(c, 'thawed'); case('frozen')

	# --- addresses
	for la, want in (('127.0.0.1', ('127.0.0.1',)), ('127.0.0.1, ::1', ('127.0.0.1', '::1')), ('*', ('localhost', '127.0.0.1', '::1')), ('localhost', ('localhost', '127.0.0.1', '::1')), (' 127.0.0.1 ', ('127.0.0.1',)), ('10.255.255.1, localhost', ('localhost', '127.0.0.1')), ('10.255.255.1 , 127.0.0.1', ('127.0.0.1',)), ('10.255.255.1,LocalHost', ('localhost', '127.0.0.1')), ('10.1.2.3,10.1.2.4', ('10.1.2.3', '10.1.2.4'))):
		c.settings['listen_addresses'] = la
		h = c.address()
		if h[0] not in want or str(h[1]) != str(port): V('address', 'listen_addresses %r, port %d gave %r' % (la, port, h))
		case('address')
	del c.settings['listen_addresses']; del c.settings['port']
	try:
		k = c.connector(user='test'); kk = getattr(k, 'address', None) or (k.host, k.port)
		if str(k.port) != '5432': V('address', 'defaults: port %r' % (k.port,))
	except Exception as e: V('address', 'no listen_addresses: %r' % (e,))
	case('address')
	# settings of the file commented out, everything on the command line
	ports[d] = port
	op('start defaults', lambda: c.start(logfile=DEV, settings={'listen_addresses': '127.0.0.1', 'port': str(port)}))
	e = op('wait_until_started defaults', lambda: c.wait_until_started(timeout=20))
	if isinstance(e, Exception): V('start-settings', 'a cluster without listen_addresses in its file: %r' % (e,))
	if postmaster(d): note(c); op('shutdown', c.shutdown); op('wait_until_stopped', c.wait_until_stopped)
	conf(w, c, port); case('defaults')

	# --- drop
	def dropped(o, why, keep=()):
		note(o); e = op('drop ' + why, o.drop)
		if isinstance(e, Exception): V('drop', '%s: %r' % (why, e), dict(why=why))
		if os.path.exists(o.data_directory): V('drop-left', '%s: %r left' % (why, os.listdir(o.data_directory)[:10]), dict(why=why)); shutil.rmtree(o.data_directory, ignore_errors=True)
		if settle(lambda: procs(o.data_directory), []): V('drop-running', '%s: server processes left' % why, dict(why=why))
		for k in keep:
			if not os.path.exists(k): V('drop-outside', '%s: %s is gone' % (why, k), dict(why=why))
		truth(o, 'dropped: ' + why); signals('drop'); case('drop')
	def fresh(name):
		x = newdir(name); shutil.copytree(template, x); os.chmod(x, 0o700); o = obj(x)
		p = free_port(); ports[x] = p; o.settings['port'] = str(p); return o
	o = fresh('drop-stopped'); dropped(o, 'stopped')
	outside = os.path.join(ctx.scratch, 'outside'); os.mkdir(outside); mark = os.path.join(outside, 'file'); open(mark, 'w').write('keep')
	o = fresh('drop-links')
	os.symlink(outside, os.path.join(o.data_directory, 'pg_tblspc', '16999')); os.symlink(mark, os.path.join(o.data_directory, 'link')); os.symlink('/nonexistent/x', os.path.join(o.data_directory, 'dangling'))
	dropped(o, 'with links', (outside, mark))
	for how in ('running', 'running with client', 'running, other object', 'just started', 'killed'):
		o = fresh('drop-' + how.replace(' ', '-').replace(',', ''))
		op('start', lambda: o.start(logfile=DEV))
		if how != 'just started':
			op('wait_until_started', o.wait_until_started)
		note(o)
		k = None
		if how == 'running with client': k = op('connect', lambda: o.connect(user='test', database='template1'))
		if how == 'running, other object': o2 = o; o = obj(o.data_directory)
		if how == 'just started': settle(lambda: postmaster(o.data_directory) is not None, True); note(o)
		if how == 'killed': os.kill(note(o), signal.SIGKILL); settle(lambda: procs(o.data_directory), [])
		dropped(o, how)
		if how == 'running with client' and k is not None and not isinstance(k, Exception):
			try: k.prepare('select 1').first(); V('drop-running', 'a client is still served')
			except Exception: pass

	# --- random histories
	end = ctx.elapsed() + ctx.scale(16, 450)
	hno = 0
	while hno < 2 or ctx.elapsed() < end and hno < ctx.scale(8, 400):
		hno += 1
		o = fresh('h%d' % hno); others = [o, obj(o.data_directory)]; w.hist.clear(); rows = [0]; dd = o.data_directory
		conns = []
		for i in range(r.randrange(4, 10)):
			x = r.choice(others)
			live = note(o) is not None
			k = r.choice(['start'] * 3 + ['stop', 'shutdown', 'kill', 'crash', 'restart', 'write', 'write', 'init', 'reload', 'new', 'client', 'stale', 'pg_ctl'])
			w.hist.append(k)
			if k == 'start':
				op('start', lambda: x.start(logfile=DEV))
				if r.random() < .85:
					e = op('wait_until_started', lambda: x.wait_until_started(timeout=60))
					if isinstance(e, Exception): V('history-start', repr(e), dict(hist=w.hist[-9:]))
					elif not can_connect(o): V('wait-started-early', 'history', dict(hist=w.hist[-9:]))
				else: settle(lambda: postmaster(dd) is not None, True); settle(lambda: os.path.exists(os.path.join(dd, 'postmaster.pid')) and open(os.path.join(dd, 'postmaster.pid')).read().count('\n') > 2, True)
			elif k in ('stop', 'shutdown', 'kill'):
				note(o)
				if k == 'stop':
					for q in conns: q.close()
				conns = conns if k != 'stop' else []
				op(k, getattr(x, k))
				e = op('wait_until_stopped', lambda: x.wait_until_stopped(timeout=60))
				if isinstance(e, Exception): V('history-stop', repr(e), dict(hist=w.hist[-9:]))
				elif settle(lambda: postmaster(dd), None, 5) is not None: V('wait-stopped-early', 'history', dict(hist=w.hist[-9:]))
				settle(lambda: procs(dd), [])
			elif k == 'crash' and live:
				os.kill(note(o), signal.SIGKILL); settle(lambda: procs(dd), [])
			elif k == 'restart':
				for q in conns: q.close()
				conns = []
				was = note(o); e = op('restart', lambda: x.restart(logfile=DEV, timeout=60))
				now = note(o)
				if isinstance(e, Exception) or now is None or now == was or not can_connect(o): V('restart', 'history: %r' % (e,), dict(hist=w.hist[-9:]))
			elif k == 'write' and live and can_connect(o):
				if sql(o, 'create table if not exists h(i int); insert into h values (1); select 1') == '1': rows[0] += 1
			elif k == 'init':
				e = op('init', lambda: x.init(user='test'))
				if not isinstance(e, cm.InitDBError): V('init-again', repr(e), dict(hist=w.hist[-9:]))
			elif k == 'reload': op('reload', x.reload)
			elif k == 'new': others.append(obj(dd))
			elif k == 'client' and live and can_connect(o):
				q = op('connect', lambda: x.connect(user='test', database='template1'))
				if isinstance(q, Exception): V('history-connect', repr(q), dict(hist=w.hist[-9:]))
				else: conns.append(q)
			elif k == 'stale' and not live and not procs(dd):
				p = os.path.join(dd, 'postmaster.pid'); open(p, 'w').write(r.choice(('%d\n%s\n' % (dead_pid(), dd), '')))
				if os.path.getsize(p) == 0 and True: truth(x, 'history: empty pid file'); os.unlink(p)
			elif k == 'pg_ctl':
				subprocess.run([BIN + '/pg_ctl', '-D', dd, '-w', '-l', ctx.scratch + '/ctl.log'] + (['-m', 'fast', 'stop'] if live else ['start']), stdout=DEV, stderr=DEV)
				note(o)
			for y in others: truth(y, 'history')
			signals('history'); case('history', sample=dict(step=k) if i == 0 and hno < 3 else None)
		for q in conns:
			try: q.close()
			except Exception: pass
		if rows[0]:
			op('start', lambda: o.start(logfile=DEV)); e = op('wait_until_started', lambda: o.wait_until_started(timeout=60)); note(o)
			n = sql(o, 'select count(*) from h')
			if n != str(rows[0]): V('data', 'history: %r rows, %d committed' % (n, rows[0]), dict(hist=w.hist[-12:]))
			ctx.count('rows-checked', rows[0])
		dropped(r.choice(others), 'history')
		ctx.count('histories')
	if sentry and postmaster_of_check(ctx) != sentry: V('bystander', "the check's own server is gone")

	# --- the temporary cluster
	temporal(ctx, V)
	for d in w.dirs:
		p = postmaster(d)
		if p: os.kill(p, signal.SIGKILL)
	ctx.require('case:init', 'case:crash', 'case:drop', 'case:pidfile', 'case:history', 'truth:running', 'truth:stopped', 'truth:void', 'signals')

def temporal(ctx, V):
	env = dict(os.environ, PGINSTALLATION=BIN + '/pg_config')
	env.pop('PGTEST', None)
	body = '''
import os, sys, builtins
builtins.new = 'mine'; builtins.prepare = 'mine too'
from postgresql.temporal import pg_tmp, Temporal
with pg_tmp:
	db.execute('create table t(i int)'); db.execute('insert into t values (1)')
	outer = db
	with pg_tmp:
		assert db is not outer
		try: prepare('select * from t'); print('LEAK')
		except Exception as e: pass
	assert db is outer and prepare('select i from t').first() == 1
	extra = new()
	assert extra.prepare('select i from t').first() == 1
assert outer.closed and extra.closed
print('NEW', new, prepare, 'db' in vars(builtins), 'newdb' in vars(builtins))
left = pg_tmp.cluster.connection(user='test'); left.connect()
if sys.argv[1] == 'open': keep = left; x = left.xact(); x.start(); left.execute('select 1')
else: left.close()
print('PATH', pg_tmp.cluster.data_directory); print('PID', pg_tmp.cluster.pid)
if sys.argv[1] == 'fail': raise SystemExit(3)
'''
	for how in ('closed', 'open', 'fail'):
		home = os.path.join(ctx.scratch, 'home-' + how); os.mkdir(home)
		with ctx.step('temporal', dict(how=how), 120):
			p = subprocess.run([sys.executable, '-c', body, how], env=dict(env, HOME=home), cwd=home, capture_output=True, text=True, timeout=100)
		out = dict(l.split(' ', 1) for l in p.stdout.splitlines() if ' ' in l)
		info = dict(how=how)
		if 'PATH' not in out: V('temporal', '%s: %s' % (how, p.stdout[-100:] + ' ... '.join(l for l in p.stderr.splitlines() if not l.startswith(' '))[:300] + p.stderr[:600]), info); continue
		if 'LEAK' in p.stdout: V('temporal-sandbox', 'a nested context sees the outer schema', info)
		if out.get('NEW') != 'mine mine too False False': V('temporal-builtins', 'after the context builtins are %r' % out.get('NEW'), info)
		if settle(lambda: bool(procs(out['PATH'])), False, 10): V('temporal-left-running', '%s: the temporary server is still there after exit' % how, info); [os.kill(a, signal.SIGKILL) for a, _ in procs(out['PATH'])]
		if os.path.exists(out['PATH']): V('temporal-left-files', '%s: %s is still there after exit' % (how, os.path.basename(out['PATH'])), info)
		if os.listdir(home): V('temporal-left-files', '%s: %r' % (how, os.listdir(home)), info)
		ctx.tick('temporal')

def postmaster_of_check(ctx):
	d = os.path.join(os.path.dirname(ctx.scratch.rstrip('/')), 'pg')
	for d in (d, os.path.join(ctx.scratch, 'pg')):
		if os.path.isdir(d): return postmaster(d)
def open_has(p, s):
	try: return s in open(p, errors='replace').read()
	except OSError: return False
def tree(d):
	out = {}
	for root, dirs, files in os.walk(d):
		for f in files:
			p = os.path.join(root, f); out[p] = open(p, 'rb').read()
	return out
