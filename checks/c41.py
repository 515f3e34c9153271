"""C41: a protocol trace shows everything that is exchanged, once and in order, and changes nothing."""
import ast, os, random, re, subprocess, sys
from vf import pq, sock
import postgresql.exceptions as x
IN = re.compile(r"↓ (b.+?)\((\d+)\): (b['\"].*)$", re.S); OUT = re.compile(r"↑ (.*?)\((\d+)\): (b['\"].*)$", re.S); RAW = re.compile(r"↑__\((\d+)\): (b['\"].*)$", re.S)

class Tee(sock.Policy):
	"""what really goes over the wire: messages in, bytes out"""
	def __init__(self, r, mode): self.r, self.mode, self.log, self.n, self.fail = r, mode, [], 0, None
	def chunk(self, n): return n if self.mode == 0 else self.r.choice((1, 3, 5, 700, 4096, n))
	def sendsize(self, n): return n if self.mode == 0 else self.r.choice((1, 7, 100, 5000, n))
	def messages(self, t, b):
		while self.mode and self.r.random() < .05:
			self.n += 1; k = self.r.randrange(3)
			m = (pq.note('00000', 'injected %d' % self.n), pq.notify(self.n, 'vfchan', 'p%d' % self.n), pq.param('vf_opt', 'v%d' % self.n))[k]
			for y in pq.split(m)[0]: self.log.append(('in',) + tuple(y))
			yield m
		self.log.append(('in', t, b)); yield t, b
	def sent(self, data): self.log.append(('out', data))
	def before(self, what):
		if self.fail and self.fail[0] == what:
			self.fail[1] -= 1
			if self.fail[1] <= 0: self.fail = None; raise KeyboardInterrupt('injected')

def parse(lines):
	"""trace -> [(direction, type, data)]; the data of what was sent is that of the wire, COPY data excepted"""
	out = []
	for l in lines:
		if not l.endswith('\n'): return None, l
		l = l[:-len(os.linesep)]
		m = IN.match(l)
		if m:
			t, n, b = ast.literal_eval(m[1]), int(m[2]), ast.literal_eval(m[3])
			if len(b) != n: return None, l
			out.append(('in', t, b)); continue
		m = RAW.match(l)
		if m:
			n, b = int(m[1]), ast.literal_eval(m[2])
			if len(b) != n: return None, l
			out.append(('out', b'd', b)); continue
		m = OUT.match(l)
		if not m: return None, l
		t, n, b = m[1], int(m[2]), ast.literal_eval(m[3])
		if len(b) != n or t and b[:1] != t.encode(): return None, l
		out.append(('out', t.encode(), b[1:] and (b[5:] if t else b[4:])))
	return out, None
def wire(log):
	"""the log of the transport -> what the trace has to tell, for each direction"""
	ins = [e for e in log if e[0] == 'in']; data = b''.join(e[1] for e in log if e[0] == 'out'); outs = []
	if data[:4] and data[0] == 0:
		n = int.from_bytes(data[:4], 'big'); outs.append(('out', b'', data[4:n])); data = data[n:]
	msgs, rest = pq.split(data)
	return ins, outs + [('out', t, b) for t, b in msgs], rest

OPS = ['execute', 'first', 'rows', 'chunks', 'column', 'load', 'copyin', 'copyout', 'cursor', 'error', 'xact', 'settings', 'notify', 'proc', 'copyfail', 'badrow', 'close', 'many', 'large', 'abandon', 'interrupt']
def op(db, kind, k, r):
	if kind == 'execute': db.execute('SELECT 1; SELECT 2 AS "ä"'); return None
	if kind == 'first': return db.prepare('SELECT $1::text, $2::bytea').first('x\n€\'"%d' % k, bytes(range(256)))
	if kind == 'rows': return [tuple(q) for q in db.prepare('SELECT i, NULL, repeat(\'z\', i % 50) FROM generate_series(1, $1::int) i').rows(k * 97)]
	if kind == 'chunks':
		n = 0
		for c in db.prepare('SELECT i FROM generate_series(1, $1::int) i').chunks(k * 1700): n += len(c)
		return n
	if kind == 'column': return list(db.prepare('SELECT i FROM generate_series(1, 30) i').column())
	if kind == 'load': db.prepare('INSERT INTO c41 VALUES ($1, $2)').load_rows([(i, 'v%d' % i) for i in range(k * 60)]); return db.prepare('SELECT count(*) FROM c41').first()
	if kind == 'copyin':
		db.prepare('COPY c41 FROM STDIN').load_chunks([[b'%d\tc\\td\n' % i for i in range(j)] for j in (1, 0, k, 40)]); return db.prepare('SELECT count(*) FROM c41').first()
	if kind == 'copyout': return list(db.prepare('COPY (SELECT i, repeat(\'y\', i) FROM generate_series(1, 100) i) TO STDOUT'))
	if kind == 'cursor':
		with db.xact():
			c = db.prepare('SELECT i FROM generate_series(1, 200) i').declare(); a = c.read(k); c.seek(-3, 'RELATIVE'); b = c.read(2); c.close()
		return a, b
	if kind == 'xact':
		with db.xact(isolation='serializable'):
			with db.xact(): db.execute('INSERT INTO c41 VALUES (-1, NULL)')
		return db.prepare('SELECT count(*) FROM c41 WHERE a < 0').first()
	if kind == 'settings': db.settings['search_path'] = 'public'; return db.settings['search_path']
	if kind == 'notify': db.listen('c41'); db.notify('c41', c41=str(k)); return [(a, b) for a, b, pid in db.iternotifies(0) if a == 'c41']
	if kind == 'proc': return db.proc('pg_catalog.lower(text)')('ABC')
	if kind == 'close': del db.prepare('SELECT 1').first; return None
	if kind == 'many': return [db.prepare('SELECT %d' % i).first() for i in range(10)]
	if kind == 'large': return len(db.prepare('SELECT $1::text').first('w' * (k * 40000)))
	try:
		if kind == 'error': db.execute('SELECT 1; SELECT 1/0')
		if kind == 'copyfail': db.prepare('COPY c41 FROM STDIN').load_rows(failing(k))
		if kind == 'badrow': db.prepare('INSERT INTO c41 VALUES ($1, $2)').load_rows([(1, 'a')] * k + [('x', 'b'), (3, 'c')])
	except (x.Error, ZeroDivisionError) as e: return type(e).__name__, getattr(e, 'code', None)
	if kind == 'abandon':
		c = db.prepare('SELECT i FROM generate_series(1, 20000) i').rows(); return [tuple(next(c)) for i in range(k)]
	return None
def failing(k):
	for i in range(k): yield b'%d\tq\n' % i
	raise ZeroDivisionError
def session(ctx, n, traced, seed):
	r = random.Random(seed); pol = Tee(random.Random(seed + '.net'), n % 3 and 1)
	tls = pol.tls = n % 4 == 1
	co = ctx.connector(user=r.choice(('postgres', 'postgres')), tls=tls); first = [pol]; sock.wrap(co, lambda: first.pop() if first else None)
	db = co(); db.msghook = lambda m: True; lines = []; res = []; mark = [0, 0]; case = dict(session=n, tls=tls, history=[])
	late = n % 5 == 4        # a tracer given, taken away and given again on the open connection
	if traced and not late: db.tracer = lines.append
	db.connect()
	if late:
		del pol.log[:]
		if traced: db.pq.tracer = lines.append
	check(ctx, pol, lines, case, 'connect') if traced else None
	kinds = [r.choice([o for o in OPS if o not in ('close', 'interrupt')]) for i in range(r.choice((6, 12)))]
	with ctx.step('session', case):
		db.execute('CREATE TEMP TABLE c41 (a int, b text)')
		for k, kind in enumerate(kinds):
			case['history'].append(kind); q = r.choice((1, 2, 5))
			try: res.append((kind, op(db, kind, q, r)))
			except (x.Error, ValueError, TypeError) as e: res.append((kind, type(e).__name__, str(e)[:200]))
			if traced:
				ctx.case((kind, q, n % 3, late)); ctx.count('traced ' + kind)
				if not check(ctx, pol, lines, case, kind): return None
				if late and r.random() < .3:
					del db.pq.tracer
					m = len(lines); db.prepare('SELECT 5').first(); ctx.expect(len(lines) == m, 'untraced', 'the removed tracer got %d lines' % (len(lines) - m), case)
					del pol.log[:], lines[:]; db.pq.tracer = lines.append; ctx.count('removed')
			elif late:
				if r.random() < .3: db.prepare('SELECT 5').first()
		db.close()
	if traced: check(ctx, pol, lines, case, 'close'); ctx.count('closed'); ctx.count('over tls', tls)
	return res
def check(ctx, pol, lines, case, kind):
	got, bad = parse(lines)
	if got is None: ctx.violation('line', repr(bad[:300]), case); return False
	ins, outs, rest = wire(pol.log); gi = [e for e in got if e[0] == 'in']; go = [e for e in got if e[0] == 'out']
	ctx.count('messages', len(ins) + len(outs))
	# what has been sent or delivered has been traced; what was received may not have been taken, yet
	for d, a, b in (('received', gi, ins), ('sent', go, outs)):
		i = next((i for i, (p, q) in enumerate(zip(a, b)) if p != q), None)
		if i is not None: ctx.violation('%s-differs:%s' % (d, kind), 'message %d: traced as %r, really %r' % (i, str(a[i])[:200], str(b[i])[:200]), case); return False
		if len(a) > len(b): ctx.violation('%s-more:%s' % (d, kind), 'not exchanged: %r' % (str(a[len(b):][:3])[:300]), case); return False
	if len(go) < len(outs): ctx.violation('sent-fewer:' + kind, 'not traced: %r' % str(outs[len(go):][:3])[:300], case); return False
	left = ins[len(gi):]
	if any(t not in (b'N', b'A', b'S') for _, t, b in left) and kind not in ('abandon',): ctx.violation('received-fewer:' + kind, 'not traced: %r' % str(left[:3])[:300], case); return False
	# causality: what the server sent last in answer to a Query or Sync is not told before that was
	syncs = [i for i, e in enumerate(got) if e[0] == 'out' and e[1] in (b'Q', b'S')]; readies = [i for i, e in enumerate(got) if e[0] == 'in' and e[1] == b'Z']
	if not (got and got[0][1] == b''): readies = readies[len(readies) - min(len(readies), len(syncs)):]
	else: readies = readies[1:]
	if any(a > b for a, b in zip(syncs, readies)) and not any(k in case['history'] for k in ('copyfail', 'badrow')): ctx.violation('order:' + kind, 'a ReadyForQuery is told before what it answers', case)
	ctx.count('compared'); return True
def neutral(ctx, n, seed):
	a = session(ctx, n, True, seed)
	if a is None: return
	b = session(ctx, n, False, seed)
	ctx.expect(a == b, 'neutral', next(('%r / %r' % (p, q) for p, q in zip(a, b) if p != q), '%d / %d results' % (len(a), len(b)))[:500], dict(session=n)); ctx.count('pairs')
def console(ctx):
	"""pg_python --pq-trace"""
	f = os.path.join(ctx.scratch, 'trace%d' % os.getpid()); base = [sys.executable, '-m', 'postgresql.bin.pg_python', '-h', '127.0.0.1', '-p', str(ctx.port), '-U', 'postgres', '-d', 'postgres']
	for k in range(2):
		p = subprocess.run(base + ['--pq-trace=' + f, '-c', "print(prepare('SELECT 40 + 2').first()); db.execute('CREATE TEMP TABLE \"ü\" (a text)')"], capture_output=True, text=True, stdin=subprocess.DEVNULL, timeout=120, env=dict(os.environ, PGSSLMODE="disable"))
		if p.returncode or p.stdout != '42\n': ctx.violation('console', (p.stdout, p.stderr[-500:]), None); return
		got, bad = parse(open(f, encoding='utf-8').read().splitlines(True))
		if got is None: ctx.violation('console-line', repr(bad[:300]), None); return
		q = [e for e in got if e[0] == 'out' and b'40 + 2' in e[2]]; z = [e for e in got if e[:2] == ('out', b'X')]; s = [e for e in got if e[:2] == ('out', b'')]
		ctx.expect(len(q) == len(z) == len(s) == k + 1 and any(b'"\xc3\xbc"' in e[2] for e in got), 'console-trace', '%d statements, %d terminations, %d startups' % (len(q), len(z), len(s)), None); ctx.count('console')
def main(ctx):
	ctx.rule = 'one operation on a traced connection, after what history and over what transport'
	ctx.require('over tls', 'compared', 'messages', 'pairs', 'console', 'closed', 'removed', 'traced copyin', 'traced copyout', 'traced load', 'traced error')
	r = ctx.rng('main'); console(ctx)
	for n in range(ctx.scale(60, 1200)):
		if ctx.elapsed() > ctx.scale(90, 1500): break
		neutral(ctx, n, 's%d.%d' % (n, r.randrange(1 << 30)))
