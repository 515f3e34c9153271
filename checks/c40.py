"""C40: an error can always be shown, with everything that led to it and without secrets."""
import os, random, re, socket, traceback
import postgresql.exceptions as pg_exc
import postgresql.copyman as cm, postgresql.alock as al, postgresql.lib as pg_lib, postgresql.message as pg_msg
from postgresql import sys as pg_sys
from postgresql.python.element import format_element

SECRET = 'S3cr:t/p@ss wörd%'
SETUP = r'''
CREATE SCHEMA c40; CREATE TABLE c40.t (a int PRIMARY KEY, b text CHECK (length(b) < 50));
CREATE TABLE c40.d (a int REFERENCES c40.t DEFERRABLE INITIALLY DEFERRED);
CREATE FUNCTION c40.boom(a int, b text) RETURNS int LANGUAGE plpgsql AS 'BEGIN RAISE EXCEPTION ''boom % %'', a, b USING ERRCODE = ''22012'', HINT = ''a hint'', DETAIL = ''line one
line two''; END';
CREATE FUNCTION c40.late(n int) RETURNS SETOF int LANGUAGE plpgsql AS 'BEGIN FOR i IN 1..n LOOP IF i = n THEN RAISE EXCEPTION ''late''; END IF; RETURN NEXT i; END LOOP; END';
CREATE FUNCTION c40.at(i int, n int) RETURNS int LANGUAGE plpgsql AS 'BEGIN IF i = n THEN RAISE EXCEPTION ''at''; END IF; RETURN i; END';
'''
LIB = '[div::first]\nSELECT 9 / $1::int\n'

def main(ctx):
	ctx.rule = 'an object, what was done with it before, and the failure or state that is shown'
	rng = ctx.rng('main')
	for x in SETUP.strip().split(';\nCREATE'): ctx.psql(x if x.startswith('CREATE') else 'CREATE' + x)
	ctx.lib = os.path.join(ctx.scratch, 'libc40.sql'); open(ctx.lib, 'w').write(LIB)
	failures(ctx, rng); states(ctx, rng); positions(ctx, rng); overrides(ctx, rng); unconnected(ctx, rng)
	ctx.require('shown cursor', 'shown chunks', 'shown reference', 'shown error', 'shown copy', 'reports', 'chains', 'states shown', 'positions', 'connect failures', 'closed reports', 'overrides', 'attempts shown')

def squeeze(s): return ' '.join(s.split())

# the objects that are named, in their order: [(label, [texts])]
def chain_of(ctx, text, chain, mech, case):
	lines = text.split('\n'); at = 0; spans = []
	for label, texts in chain:
		i = next((i for i in range(at, len(lines)) if lines[i].startswith(label + ':')), None)
		if i is None: ctx.violation(mech + '-chain', 'no %s in its place:\n%s' % (label, text[:1500]), case); return
		spans.append(i); at = i + 1
	for (label, texts), i, j in zip(chain, spans, spans[1:] + [len(lines)]):
		part = squeeze('\n'.join(lines[i:j]))
		for t in texts:
			if squeeze(t) not in part: ctx.violation(mech + '-facts', '%s does not tell %r:\n%s' % (label, t[:300], part[:1500]), case)
	ctx.count('chains')

def report(ctx, e, chain, case, server=True, mech='report'):
	ctx.count('reports')
	try: s = str(e); tb = ''.join(traceback.format_exception(e)); r = repr(e); f = format_element(e) if isinstance(e, pg_msg.Message) else s
	except Exception as x: ctx.violation(mech + ':' + type(x).__name__, 'the report of a %s raised %s: %s' % (type(e).__name__, type(x).__name__, str(x)[:300]), case); return ''
	for t, what in ((s, 'str'), (f, 'element'), (tb, 'traceback')):
		if secret_in(t): ctx.violation('secret:' + what, t[:500], case)
		if 'caused exception' in t: ctx.violation(mech + ':failed', t[-1500:], case)
	if server and isinstance(e, pg_exc.Error):
		ctx.expect(s.split('\n')[0] == e.message.split('\n')[0], mech + '-message', '%r begins %r' % (e.message, s[:100]), case)
		ctx.expect('\n  CODE: ' + e.code in s, mech + '-code', 'no CODE: %s in %r' % (e.code, s[:300]), case)
		for k, v in e.details.items():
			if k in ('hint', 'detail', 'context'): ctx.expect(k.upper() + ': ' + v in s and squeeze(v) in squeeze(f), mech + '-detail', 'no %s in %r' % (k, s[:600]), case)
	chain_of(ctx, s, chain, mech, case)
	if tb and not tb.rstrip().endswith(s.rstrip()[-60:]): ctx.violation(mech + '-traceback', tb[-300:], case)
	return s

def secret_in(t): return SECRET in t or 'S3cr' in t or 'p@ss' in t or 'p%40ss' in t

def tail(state, user='postgres'):
	return [('CONNECTION', [state] if state else []), ('CONNECTOR', ['pq://%s' % user]), ('DRIVER', ['postgresql.driver.pq3'])]

PAD = ['', ' ', '\n', '\t', '\n\n  ', ' -- a remark\n', '\r\n', ' /* é */ ', ' ' * 80]

def failures(ctx, rng):
	for n in range(ctx.scale(200, 4000)):
		r = random.Random(rng.random()); db = ctx.connect(password=SECRET); case = dict(n=n, history=[]); kept = []
		for k in range(r.choice([1, 3, 6])):
			inside = db.pq.state != b'I'
			if db.pq.state == b'E': db.execute('ROLLBACK'); inside = False
			if r.random() < .2 and not inside: db.execute('BEGIN'); inside = True
			st = '[failed block]' if inside else '[idle]'; pad = r.choice(PAD)
			kind = r.choice(['prepare', 'execute', 'first', 'call', 'rows', 'chunks', 'column', 'cursor', 'read', 'declare', 'proc', 'setting', 'load', 'many', 'parameter', 'count', 'type', 'notice', 'copy', 'commit', 'procname', 'statement-id', 'alock', 'library'])
			case['history'].append((kind, inside)); ctx.case((kind, inside, pad, k), sample=case); e = None; want = None; server = True
			ST = lambda q: ('STATEMENT', ['string: ' + q])
			q = None; par = (0, r.choice(['x', 'é€', 'a\nb', 'y' * 200, '', "it's"]))
			try:
				if kind == 'prepare': q = 'SELECT' + pad + ' nonsuch' + pad; want = [ST(q)] + tail(st); db.prepare(q)
				elif kind == 'execute': want = tail(st); db.execute('SELECT 1;' + pad + 'SELECT 1/0')
				elif kind in ('first', 'call', 'column', 'rows', 'chunks', 'many', 'read', 'cursor', 'declare'):
					q = 'SELECT' + pad + ' 5 / $1::int, $2::text' + pad
					if kind in ('rows', 'chunks', 'read'): q = 'SELECT c40.at(i, $1::int), $2::text' + pad + ' FROM generate_series(1, 3000) AS g(i)'; par = (r.choice([1, 5, 800, 3000]), par[1])
					ps = db.prepare(q)
					if kind == 'first': want = [ST(q)] + tail(st); ps.first(*par)
					elif kind == 'call': want = [ST(q)] + tail(st); ps(*par)
					elif kind == 'column': want = [ST(q)] + tail(st); list(ps.column(*par))
					elif kind == 'rows': want = [ST(q)] + tail(None); list(ps.rows(*par))
					elif kind == 'chunks':
						want = [('RESULT', ['parameters: (%r' % par[0], 'type:'])] + [ST(q)] + tail(None); c = ps.chunks(*par)
						for x in c: pass
					elif kind == 'many': want = [ST(q)] + tail(st); ps.load_rows([(1, 'a')] * r.choice([0, 3, 400]) + [par])
					elif kind == 'read': want = [('CURSOR', ['direction: FORWARD', 'parameters: (%r' % par[0]]), ST(q)] + tail(None); c = ps.declare(*par); c.read(); c.close()
					else: want = [('CURSOR', ['direction: FORWARD', 'parameters: (0']), ST(q)] + tail(st); c = ps.declare(*par); c.read(r.choice([1, None]))
				elif kind == 'proc':
					par = (3, par[1]); p = db.proc('c40.boom(int,text)'); want = [ST('SELECT * FROM c40.boom($1::INTEGER, $2::pg_catalog.text) AS func')[:1] + (['c40.boom('],)] + tail(st); p(*par)
				elif kind == 'setting': want = [('STATEMENT', ['set_config'])] + tail(st); db.settings['work_mem'] = 'as much as possible'
				elif kind == 'load': q = 'INSERT INTO c40.t VALUES ($1, $2)'; want = [ST(q)] + tail(st); db.prepare(q).load_rows([(1, 'a'), (2, 'b' * 60)])
				elif kind == 'parameter': q = 'SELECT $1::int,' + pad + '$2::text'; want = [ST(q)] + tail('[idle in block]' if inside else '[idle]'); server = False; db.prepare(q)(r.choice(['not a number', object(), [1]]), 'x')
				elif kind == 'count': q = 'SELECT $1::int' + pad; want = []; server = False; db.prepare(q)(1, 2)
				elif kind == 'type': q = 'SELECT $1::date'; want = [ST(q)] + tail('[idle in block]' if inside else '[idle]'); server = False; db.prepare(q).first(r.choice(['x', 5, b'']))
				elif kind == 'copy':
					q = 'COPY c40.t' + pad + ' FROM STDIN'; want = None; ps = db.prepare(q)
					ps.load_rows([b'1\tok\n', b'x\tnot a number\n']); 
				elif kind == 'commit':
					if inside: db.execute('ROLLBACK'); inside = False
					x = db.xact(isolation=r.choice([None, 'serializable'])); x.start(); db.execute('INSERT INTO c40.d VALUES (5)'); want = tail('[idle]'); x.commit()
				elif kind == 'procname': want = None; server = False; db.proc('no_such_function(int)')
				elif kind == 'statement-id': want = [('STATEMENT', ['statement_id: no such é'])] + tail(st); db.statement_from_id('no such é')
				elif kind == 'notice': want = tail(st); db.execute("DO $$ BEGIN RAISE EXCEPTION E'two\\nlines'; END $$")
				elif kind == 'alock': want = None; server = False; al.ExclusiveLock(db, 'x' * 3)
				elif kind == 'library':
					l = pg_lib.ILF.open(ctx.lib); b = pg_lib.Binding(db, l); par = (0,)
					want = [('STATEMENT', ['SYMBOL: div', 'source: SELECT 9 / $1::int', 'LIBRARY:', ctx.lib])] + tail(st); b.div(*par)
			except Exception as x: e = x
			if e is None:
				if kind in ('alock', 'parameter'): continue
				ctx.violation('no-error:' + kind, 'nothing failed', case); continue
			if not isinstance(e, pg_exc.Error) and kind not in ('count', 'procname', 'copy', 'parameter', 'type'): ctx.violation('error-kind:%s:%s' % (kind, type(e).__name__), str(e)[:300], case); continue
			ctx.count('failed ' + kind)
			if want is None and isinstance(e, pg_exc.Error) and kind != 'procname': want = tail(None)
			s = report(ctx, e, want or [], case, server and isinstance(e, pg_exc.Error), 'report-' + kind); kept.append((e, kind))
			if isinstance(e, pg_exc.Error):
				c = e.creator; seen = 0
				while c is not None and seen < 20:
					if c is db: break
					seen += 1; pf = getattr(c, '_e_factors', ()) ; c = getattr(c, pf[0], None) if pf else None
				ctx.expect(c is db, 'creator', '%s: the chain of creators of %r does not reach the connection' % (kind, type(e).__name__), case)
		if r.random() < .5: db.close()
		else: ctx.psql('SELECT pg_terminate_backend(%d)' % db.backend_id); _lost(ctx, db, case)
		for e, kind in kept:
			# and later, when the connection is no more
			ctx.count('closed reports'); report(ctx, e, [], case, isinstance(e, pg_exc.Error) and kind not in ('parameter', 'type', 'count', 'procname', 'alock', 'library'), 'later-' + kind)
		db.close()

def _lost(ctx, db, case):
	try: db.execute('SELECT 1')
	except Exception as e: report(ctx, e, tail(None) if isinstance(e, pg_exc.Error) else [], case, False, 'lost')

# -- every object, in whatever state
def states(ctx, rng):
	for n in range(ctx.scale(100, 1500)):
		r = random.Random(rng.random()); con = ctx.connector(password=SECRET); db = con(); objs = dict(connection=db, connector=con, driver=con.driver, settings=db.settings, typio=db.typio); h = []; case = dict(history=h); facts = {}
		show(ctx, objs, facts, h, case)
		db.connect(); db.msghook = lambda m: True; facts['connection'] = [('CONNECTION', ['127.0.0.1', 'PostgreSQL'])]
		ct = 'tmp%d' % n; db.execute('CREATE TEMP TABLE %s (a int)' % ct); it = None; mgr = None
		for k in range(r.choice([2, 5, 10])):
			op = 'prepare' if k == 0 and r.random() < .7 else r.choice(['prepare', 'declare', 'declare', 'declare', 'chunks', 'chunks', 'step', 'step', 'proc', 'xact', 'start', 'end', 'error', 'alock', 'acquire', 'close', 'copy', 'copystep', 'lib', 'cursor-id', 'statement-id', 'query', 'direction', 'terminate', 'disconnect', 'backwards'])
			h.append(op)
			try:
				if op == 'prepare': q = r.choice(['SELECT $1::int AS a', 'SELECT generate_series(1, $1::int)', 'SELECT é.é FROM (SELECT $1::int AS é) é', 'INSERT INTO %s VALUES ($1)' % ct]); objs['statement'] = db.prepare(q); facts['statement'] = [('STATEMENT', ['string: ' + q, objs['statement'].statement_id, 'INTEGER'])] + tail(None)
				elif op == 'declare' and 'statement' in objs: objs['cursor'] = objs['statement'].declare(5); facts['cursor'] = [('CURSOR', ['(5,)', objs['cursor'].cursor_id])] + facts['statement']
				elif op == 'cursor-id' and 'cursor' in objs: objs['reference'] = db.cursor_from_id(objs['cursor'].cursor_id); facts['reference'] = [('CURSOR', [objs['cursor'].cursor_id])] + tail(None)
				elif op == 'statement-id': db.execute('PREPARE "st %d" AS SELECT 1' % k); objs['named'] = db.statement_from_id('st %d' % k); facts['named'] = [('STATEMENT', ['st %d' % k])] + tail(None)
				elif op in ('direction', 'backwards') and 'cursor' in objs: objs['cursor'].direction = r.random() < .5; facts['cursor'][0] = ('CURSOR', [facts['cursor'][0][1][0], 'direction: ' + ('FORWARD' if objs['cursor'].direction else 'BACKWARD')])
				elif op == 'chunks' and 'statement' in objs: objs['chunks'] = it = objs['statement'].chunks(900); facts['chunks'] = [('RESULT', ['(900,)'])] + facts['statement']
				elif op == 'step' and it is not None: next(it, None)
				elif op == 'proc': objs['procedure'] = db.proc('version()'); facts['procedure'] = [('FUNCTION', ['procedure_id: version()', 'oid: 89'])] + tail(None)
				elif op == 'xact': objs['transaction'] = db.xact(isolation=r.choice([None, 'serializable']), mode=r.choice([None, 'READ ONLY'])); facts['transaction'] = [('XACT', ['isolation: %s' % objs['transaction'].isolation, 'mode: %s' % objs['transaction'].mode])] + tail(None)
				elif op == 'start' and 'transaction' in objs: objs['transaction'].start()
				elif op == 'end' and 'transaction' in objs: r.choice([objs['transaction'].commit, objs['transaction'].rollback])()
				elif op == 'error': objs.pop('error', None); db.execute('SELECT 1/0')
				elif op == 'alock': objs['lock'] = r.choice([al.ShareLock, al.ExclusiveLock])(db, 5, (1, 2)); facts['lock'] = [('ALOCK', ['(5, (1, 2))'])] + tail(None)
				elif op == 'acquire' and 'lock' in objs: r.choice([objs['lock'].acquire, objs['lock'].release])()
				elif op == 'copy':
					mgr = None; src = r.choice([cm.IteratorProducer([[b'1\n'], [b'2\n']]), cm.StatementProducer(db.prepare('COPY %s TO STDOUT' % ct)), cm.NullProducer()]); dst = r.choice([cm.CallReceiver(len), cm.NullReceiver()] + ([cm.StatementReceiver(db.prepare('COPY %s FROM STDIN' % ct))] if not isinstance(src, cm.StatementProducer) else []))
					mgr = cm.CopyManager(src, dst); objs.update(producer=src, receiver=dst, copy=mgr); facts.update(producer=[('PRODUCER', ['messages: 0'])], receiver=[('RECEIVER', [])], copy=[('COPY', ['RECEIVER']), ('PRODUCER', [])])
					for o in ('producer', 'receiver'):
						if hasattr(objs[o], 'statement'): facts[o] += [('STATEMENT', ['COPY %s' % ct])] + tail(None)
				elif op == 'copystep' and mgr is not None:
					if isinstance(objs['producer'], cm.NullProducer): continue
					facts['producer'][0] = ('PRODUCER', ['messages: '])
					mgr.__enter__(); show(ctx, objs, facts, h, case)
					try:
						for x in mgr: show(ctx, objs, facts, h, case)
					finally: m, mgr = mgr, None; m.__exit__(None, None, None)
					show(ctx, objs, facts, h, case)
				elif op == 'lib': objs['library'] = pg_lib.ILF.open(ctx.lib); objs['symbol'] = objs['library'].get_symbol('div'); objs['binding'] = pg_lib.Binding(db, objs['library']); objs['bound'] = db.sys.setting_get; facts['symbol'] = [('SYMBOL', ['div', 'SELECT 9 /']), ('LIBRARY', [])]; facts['library'] = [('LIBRARY', [ctx.lib])]
				elif op == 'query': objs['query'] = db.query
				elif op == 'close':
					x = r.choice([o for o in ('cursor', 'statement', 'chunks', 'named') if o in objs] or [None])
					if x: objs[x].close()
				elif op == 'terminate' and r.random() < .4: ctx.psql('SELECT pg_terminate_backend(%d)' % db.backend_id)
				elif op == 'disconnect' and r.random() < .4: db.close()
			except Exception as e:
				objs['error'] = e
				if secret_in(str(e)): ctx.violation('secret:error', str(e)[:500], case)
			ctx.case((tuple(h),), sample=case); show(ctx, objs, facts, h, case)
		db.close(); h.append('closed'); show(ctx, objs, facts, h, case)

def show(ctx, objs, facts, h, case):
	for name, o in list(objs.items()):
		ctx.count('states shown'); ctx.count('shown ' + name)
		try: s = format_element(o)
		except Exception as e: ctx.violation('state:%s:%s' % (name, type(e).__name__), 'showing %s after %s raised %s: %s' % (type(o).__name__, h[-4:], type(e).__name__, str(e)[:300]), case); continue
		if name in facts and s.startswith(facts[name][0][0]): chain_of(ctx, s, facts[name], 'state-' + name, case)
		elif name in facts: ctx.violation('state-label:' + name, s[:200], case)
		err = pg_exc.ClientCannotConnectError('synthetic', creator=o); t = str(err)
		if secret_in(s) or secret_in(t): ctx.violation('secret:' + name, s[:600], case)
		ctx.expect('caused exception' not in t and squeeze(s) in squeeze(t) or ' at 0x' in s, 'state-error:' + name, t[:500], case)
		if getattr(o, 'pq', None) is not None and name == 'connection':
			try: str(o.pq)
			except Exception as e: ctx.violation('pq:' + type(e).__name__, 'showing a protocol connection after %s raised %s' % (h[-4:], e), case)
		try: s = repr(o)
		except Exception as e: ctx.violation('repr:%s:%s' % (name, type(e).__name__), str(e)[:300], case); continue
		if secret_in(s) and name != 'connector': ctx.violation('secret:repr-' + name, s[:600], case)

# -- where in the statement
def positions(ctx, rng):
	db = ctx.connect(password=SECRET)
	for n in range(ctx.scale(250, 4000)):
		parts = [rng.choice(['1', '$1::int', "'é€'", '\t2', '3 /* x */', "E'a\\tb'", 'now()', '"tab"', '\n4', '\r\n\t5', "'x\ny'", '-- c\n 6', '  ', '\n\n7', 'a' * 60])for i in range(rng.choice([0, 1, 3, 9]))]
		parts = [p if p.strip() else '8' for p in parts]; bad = rng.choice(['nonsuch', '"no süch"', 'nofunc(1)', '1 + ]', 'z.y', "'1' + true"])
		parts = [p for p in parts if '"tab"' not in p and 'aaaa' not in p]
		i = rng.randrange(len(parts) + 1); sep = rng.choice([', ', ',\n', ',\r\n  ', ',\t', ' , '])
		q = rng.choice(['SELECT ', 'SELECT\n', '\n\n SELECT\t', 'select\r\n', '/* é\n */ SELECT ']) + sep.join(parts[:i] + [bad] + parts[i:]) + rng.choice(['', '\n', ' -- end', '\n\n FROM (SELECT 1) AS x'])
		ctx.case(('position', q), sample=q); case = dict(query=q)
		try: db.prepare(q); ctx.violation('position-accepted', 'prepared', case); continue
		except pg_exc.Error as e:
			p = e.details.get('position'); s = str(e)
		except Exception as e: ctx.violation('position-error:' + type(e).__name__, str(e)[:300], case); continue
		if p is None: continue
		p = int(p); ctx.count('positions'); before = q[:p - 1].replace('\r\n', '\n'); line = before.count('\n') + 1; col = len(before) - (before.rfind('\n') + 1) + 1
		m = re.search(r'^( *)\^ \[line (\d+), character (\d+)\]', s, re.M)
		if not m: ctx.violation('position-missing', s[:900], case); continue
		ctx.expect((int(m.group(2)), int(m.group(3))) == (line, col), 'position', 'line %s, character %s; it is at %d, %d: %r' % (m.group(2), m.group(3), line, col, q), case)
		shown = s[:m.start()].rstrip('\n').split('\n')[-1]; off = len(m.group(1)) - (col - 1); text = q.replace('\r\n', '\n').split('\n')[line - 1]
		ctx.expect(shown[off:].rstrip() == text.replace('\t', ' ').rstrip(), 'position-line', '%r is shown for %r' % (shown, text), case)
		chain_of(ctx, s, [('STATEMENT', ['string: ' + q])] + tail('[idle]'), 'position', case)
	db.close()

# -- the overridable functions
def overrides(ctx, rng):
	db = ctx.connect(); old = pg_sys.errformat
	e = None
	try: db.execute('SELECT 1/0')
	except pg_exc.Error as x: e = x
	plain = str(e)
	try:
		pg_sys.errformat = lambda err: 'formatted:' + err.message; ctx.expect(str(e) == 'formatted:division by zero', 'override', str(e)[:200], None); ctx.count('overrides')
		pg_sys.reset_errformat(); ctx.expect(str(e) == plain, 'reset-override', str(e)[:200], None)
	finally: pg_sys.errformat = old
	class Odd:
		_e_label = 'ODD'; _e_factors = ()
		def __repr__(self): return 'odd'
	class Broken(type(db)):
		def _e_metas(self): raise KeyError('broken')
	b = Broken(db.connector); x = pg_exc.Error('m', creator=b); s = str(x)
	ctx.expect(s.startswith('m\n') and 'KeyError' in s, 'broken-creator', s[:300], None); ctx.count('overrides')
	for creator in (Odd(), 'text', 5, None, ('a', 1)):
		s = str(pg_exc.Error('m', creator=creator)); ctx.expect(s.startswith('m\n') and 'caused exception' not in s, 'other-creator', s[:300], repr(creator))
	db.close()

# -- failures to connect
def unconnected(ctx, rng):
	s = socket.socket(); s.bind(('127.0.0.1', 0)); dead = s.getsockname()[1]
	for n in range(ctx.scale(30, 300)):
		kw, texts = rng.choice([(dict(port=dead), ['failures[0]', 'Connection refused', '127.0.0.1', str(dead)]), (dict(unix='/nonexistent/socket'), ['failures[0]', '/nonexistent/socket', 'No such file']), (dict(database='nonsuch'), ['failures[0]', 'nonsuch', '3D000']), (dict(user='nonsuch'), ['failures[0]', '"nonsuch"']), (dict(settings={'work_mem': 'x y'}), ['work_mem', '22023']), (dict(host='localhost', port=dead), ['Connection refused'])])
		mode = rng.choice(['disable', 'prefer', 'allow', 'require']); con = ctx.connector(password=SECRET, **dict(kw, sslmode=mode)); db = con(); case = repr((kw, mode)); ctx.case(case); ctx.count('connect failures')
		if mode == 'require' and 'port' not in kw and 'unix' not in kw: texts = ['failures[0]']
		try: db.connect(); ctx.violation('connected', '', case); continue
		except Exception as e: report(ctx, e, [('CONNECTION', ['[failed]'] + texts)] + [('CONNECTOR', []), ('DRIVER', [])], case, False, 'unconnected')
		show(ctx, dict(connection=db, connector=con, settings=db.settings), {}, ['failed'], case)
		for f in db.failures:
			try: t = str(f)
			except Exception as e: ctx.violation('attempt:' + type(e).__name__, 'showing a failed attempt raised %s: %s' % (type(e).__name__, str(e)[:200]), case); continue
			if str(f.socket_factory) not in t or 'refused' in texts and 'refused' not in t or secret_in(t): ctx.violation('attempt', t[:300], case)
			ctx.count('attempts shown')
	s.close()
