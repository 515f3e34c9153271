"""C03: native and pure-Python implementations side by side."""
import json, os, struct, subprocess, sys
from vf import boot, pq

class MyBase(BaseException): pass
class MyExc(Exception): pass

def outcome(f, *a):
	try:
		return ('ok', f(*a))
	except Exception as e:
		return ('fail', type(e).__name__, str(e)[:200])

def same(a, b):
	return a[0] == b[0] and (a[0] == 'fail' or (type(a[1]) is type(b[1]) and a[1] == b[1]))

INTS = [0, 1, -1, 127, 128, -128, -129, 255, 256, 32766, 32767, 32768, -32767, -32768, -32769, 65534, 65535, 65536, 2**31 - 1, 2**31, -2**31, -2**31 - 1, 2**32 - 1, 2**32, 2**63 - 1, 2**63, -2**63, -2**63 - 1, 2**64 - 1, 2**64, 2**100, -2**100]

def ints(ctx, r, ns, ps, opt):
	names = [n for n in ('short', 'ushort', 'long', 'ulong', 'longlong', 'ulonglong')]
	for n in names:
		np, nu, pp, pu = (getattr(m, n + s) for m in (ns, ps) for s in ('_pack', '_unpack'))
		size = {'s': 2, 'u': 2, 'l': 4}[n[0]]
		size = 8 if 'longlong' in n else 2 if 'short' in n else 4
		for v in INTS + [r.randrange(-2**(8 * size), 2**(8 * size)) for _ in range(40)] + [True, False, None, 'x', b'1', 1.5, []]:
			a, b = outcome(np, v), outcome(pp, v)
			ctx.case((n, 'pack', repr(v)), sample='%s_pack(%r) -> %r' % (n, v, a[:2]))
			if not same(a, b): ctx.violation('differs:%s_pack' % n, '%r: native %r, pure %r' % (v, a, b), repr(v))
		for k in range(60):
			d = r.choice((r.randbytes(size), r.randbytes(size), b'\xff' * size, b'\x80' + b'\0' * (size - 1), b'\x7f' + b'\xff' * (size - 1), r.randbytes(r.randrange(size)), r.randbytes(size + r.randrange(1, 9)), b''))
			for conv in (bytes, memoryview, bytearray) if size < 8 else (bytes,):
				x = conv(d)
				a, b = outcome(nu, x), outcome(pu, x)
				ctx.case((n, 'unpack', d))
				if not same(a, b): ctx.violation('differs:%s_unpack' % n, '%r: native %r, pure %r' % (x, a, b), d.hex())
		ctx.count('int-functions')
	# the remaining entry points of the native module against their specification
	for n, f in (('int2', 'h'), ('uint2', 'H'), ('int4', 'i'), ('uint4', 'I'), ('int8', 'q'), ('uint8', 'Q')):
		for pre, end in (('', '='), ('swap_', '>' if sys.byteorder == 'little' else '<')):
			pk, up = getattr(opt, pre + n + '_pack', None), getattr(opt, pre + n + '_unpack', None)
			if pk is None: continue
			s = struct.Struct(end + f)
			for v in INTS + [r.randrange(-2**70, 2**70) for _ in range(20)]:
				a, b = outcome(pk, v), outcome(s.pack, v)
				ctx.case((pre, n, v))
				if not same(a, b): ctx.violation('differs:%s%s_pack' % (pre, n), '%r: %r, expected %r' % (v, a, b), v)
			for k in range(30):
				d = r.randbytes(s.size + r.choice((0, 0, 0, 1, 5, -1, -2)))
				a, b = outcome(up, d), outcome(lambda d: s.unpack_from(d)[0], d)
				ctx.case((pre, n, d))
				if not same(a, b): ctx.violation('differs:%s%s_unpack' % (pre, n), '%r: %r, expected %r' % (d, a, b), d.hex())

def gvals(r, n=None):
	n = r.choice((0, 1, 2, 5, 30)) if n is None else n
	return tuple(None if r.random() < .3 else r.randbytes(r.choice((0, 1, 3, 4, 5, 300))) for _ in range(n))

def tuples(ctx, r, ne, pe):
	def cmp(what, fn, fp, *a):
		x, y = outcome(fn, *a), outcome(fp, *a)
		ctx.count(what); ctx.case((what, repr(a)[:3000]))
		if not same(x, y): ctx.violation('differs:' + what, 'args %s: native %s, pure %s' % (repr(a)[:500], str(x)[:300], str(y)[:300]), repr(a)[:3000])
	for k in range(40):
		v = gvals(r, r.choice((None, None, None, 65535, 65536)) if r.random() < .02 else None)
		cmp('pack_tuple_data', ne.pack_tuple_data, pe.pack_tuple_data, v)
		bad = list(v) + [r.choice((5, 'str', [], 1.5, ()))]
		r.shuffle(bad)
		cmp('pack_tuple_data', ne.pack_tuple_data, pe.pack_tuple_data, tuple(bad))
		body = pq.u16(len(v) & 0xffff) + pq.values(v)
		cmp('parse_tuple', ne.Tuple.parse, pe.Tuple.parse, body)
		b = bytearray(body)
		op = r.randrange(6)
		if op == 0 and b: b = b[:r.randrange(len(b))]
		elif op == 1: b += r.randbytes(r.randrange(1, 9))
		elif op == 2: b[0:2] = pq.u16(r.choice((0, 1, 2, len(v) + 1, max(0, len(v) - 1), 65535)) & 0xffff)
		elif op == 3 and len(b) >= 6: b[2:6] = pq.u32(r.choice((0, 1, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff, 0xfffffffc, r.randrange(2**32))))
		elif op == 4 and len(b) > 2: b[r.randrange(2, len(b))] ^= 1 << r.randrange(8)
		elif op == 5: b = bytearray(r.randbytes(r.randrange(12)))
		cmp('parse_tuple', ne.Tuple.parse, pe.Tuple.parse, bytes(b))
		seq = []
		for _ in range(r.randrange(12)):
			c = r.randrange(6)
			if c == 0: seq.append(r.randbytes(r.choice((0, 1, 9, 3000))))
			elif c == 1: seq.append(gvals(r))
			elif c == 2: seq.append('sync')
			elif c == 3: seq.append('q')
			elif c == 4: seq.append('startup')
			elif c == 5 and r.random() < .15: seq.append(r.choice(((b'a', 5), ('x',), (None,) * 65536, (None,) * 65535, 'badtype', 'badser', 'raise')))
		def build(e):
			def real(x):
				if x == 'sync': return e.SynchronizeMessage
				if x == 'q': return e.Query(b'select')
				if x == 'startup': return e.Startup({b'user': b'x'})
				if x in ('badtype', 'badser', 'raise'):
					class M(e.Message):
						type = 12 if x == 'badtype' else b'M'
						def serialize(self):
							if x == 'raise': raise MyExc('no')
							return 'text' if x == 'badser' else b'abc'
					return M()
				return x
			return [real(x) if isinstance(x, str) else x for x in seq]
		x, y = outcome(ne.cat_messages, build(ne)), outcome(pe.cat_messages, build(pe))
		ctx.count('cat_messages'); ctx.case(('cat', repr(seq)[:3000]))
		if not same(x, y): ctx.violation('differs:cat_messages', '%s: native %s, pure %s' % (repr(seq)[:400], str(x)[:200], str(y)[:200]), repr(seq)[:3000])

def functools(ctx, r, nf, pf):
	for k in range(60):
		n = r.randrange(6)
		failing = r.choice((None, None, None, 0, n - 1, r.randrange(n) if n else 0))
		kind = r.choice(('exc', 'exc', 'base', 'stop', 'key'))
		handler = r.choice(('raise', 'raise', 'return', 'reraise', 'base'))
		width = n + r.choice((0, 0, 0, 0, 1, -1))
		rows = [tuple(None if r.random() < .3 else (i, j) for j in range(max(0, width))) for i in range(r.randrange(5))]
		container = r.choice((list, tuple, iter))
		def run(m, chunk):
			log = []
			def mk(j):
				def f(x):
					log.append(('p', j, x))
					if j == failing and x[0] == 1:
						if kind == 'exc': raise ValueError('boom', j)
						if kind == 'stop': raise StopIteration(j)
						if kind == 'key': raise KeyError(j)
						raise MyBase(j)
					return [j, x]
				return f
			procs = tuple(mk(j) for j in range(n))
			def fail(cause, p, tup, at):
				log.append(('fail', type(cause).__name__, cause.args, p is procs, tup, at))
				if handler == 'raise': raise MyExc('generalised', at)
				if handler == 'reraise': raise cause
				if handler == 'base': raise MyBase('h')
				return 'nothing'
			try:
				if chunk: res = ('ok', m.process_chunk(procs, container(rows), fail))
				else: res = ('ok', [m.process_tuple(procs, t, fail) for t in rows])
			except BaseException as e:
				res = ('raised', type(e).__name__, e.args if isinstance(e, (MyExc, MyBase, ValueError, KeyError)) else (), type(e.__cause__).__name__)
			return res, log
		for chunk in (False, True):
			a, b = run(nf, chunk), run(pf, chunk)
			ctx.count('process'); ctx.case(('process', n, failing, kind, handler, width, repr(rows), chunk))
			if a[0][0] == 'raised' and a[0][1] == 'TypeError' and b[0][:2] == a[0][:2]: continue
			if a != b:
				ctx.violation('differs:process_%s' % ('chunk' if chunk else 'tuple'), 'native %s, pure %s' % (str(a)[:700], str(b)[:700]), dict(n=n, failing=failing, kind=kind, handler=handler, rows=repr(rows)))
		# composition
		fs = [r.choice((lambda x: (x, 1), repr, lambda x: [x], len, str, int)) for _ in range(r.randrange(6))]
		arg = r.choice((5, 'abc', (1, 2), None))
		a, b = outcome(nf.Composition(fs), arg), outcome(pf.Composition(fs), arg)
		ctx.count('compose'); ctx.case(('compose', [getattr(f, '__name__', '?') for f in fs], arg))
		if not same(a, b) or (a[0] == 'fail' and a[1:] != b[1:]): ctx.violation('differs:compose', '%r of %r: native %r, pure %r' % (fs, arg, a, b))
		class O: pass
		class S: __slots__ = ()
		for ob, attr in ((O(), 'x'), (S(), 'x'), (O(), 5)):
			a, b = outcome(nf.rsetattr, attr, 7, ob), outcome(pf.rsetattr, attr, 7, ob)
			if not same(a, b) or (a[0] == 'ok' and (a[1] is not ob or ob.x != 7)): ctx.violation('differs:rsetattr', 'native %r, pure %r' % (a, b))
			ctx.count('rsetattr')

def wirestates(ctx, r, nat, pure):
	"""COPY wire state: same counts, same leftovers, same end"""
	for k in range(40):
		data = b''
		for _ in range(r.randrange(12)):
			data += pq.copydata(r.randbytes(r.choice((0, 1, 2, 7, 100, 1000))))
		tail = r.randrange(6)
		if tail == 0: data += pq.complete('COPY 5') + pq.ready()
		elif tail == 1: data += pq.copydone + pq.complete('COPY 1')
		elif tail == 2: data += b'd' + pq.u32(r.randrange(4))
		elif tail == 3 and data: data = data[:r.randrange(len(data))]
		elif tail == 4: data += pq.note() + pq.copydata(b'x')
		a, b = nat(), pure()
		pos, dead = 0, False
		while pos < len(data):
			step = r.choice((1, 2, 3, 4, 5, 6, 50, len(data)))
			piece = data[pos:pos + step]; pos += step
			x, y = outcome(a.update, memoryview(piece)), outcome(b.update, memoryview(piece))
			ctx.count('wirestate')
			if not same(x, y):
				ctx.violation('differs:wirestate', 'update(%r): native %r, pure %r' % (piece[:60], x, y), data.hex()[:4000]); break
			if x[0] == 'fail':
				ctx.count('wirestate-refused'); break
			sa = (a.remaining_bytes, bytes(a.size_fragment), None if a.final_view is None else bytes(a.final_view))
			sb = (b.remaining_bytes, bytes(b.size_fragment), None if b.final_view is None else bytes(b.final_view))
			if sa != sb:
				ctx.violation('differs:wirestate', 'state after %r: native %r, pure %r' % (piece[:60], sa, sb), data.hex()[:4000]); break
			if sa[2] is not None: ctx.count('wirestate-ended')
		ctx.case(('wire', data))

def buffers(ctx, r, nat, pure):
	for k in range(25):
		data = b''.join(bytes([r.randrange(256)]) + pq.u32(n + 4) + r.randbytes(n) for n in (r.choice((0, 1, 5, 300)) for _ in range(r.randrange(8))))
		invalid = r.random() < .2
		if invalid: data += b'X' + pq.u32(r.randrange(4)) + b'zz'
		a, b, pos = nat(), pure(), 0
		trace = []
		while pos < len(data):
			n = r.choice((1, 2, 3, 4, 5, 9, 400)); piece = data[pos:pos + n]; pos += n
			a.write(piece); b.write(piece)
			op = r.choice(('len', 'has', 'next', 'read', 'read1', 'value', 'iter'))
			f = {'len': len, 'has': lambda s: bool(s.has_message()), 'next': lambda s: s.next_message(), 'read': lambda s: tuple(s.read()), 'read1': lambda s: tuple(s.read(1)), 'value': lambda s: bytes(s.getvalue()), 'iter': lambda s: list(zip(range(2), s))}[op]
			x, y = outcome(f, a), outcome(f, b)
			trace.append(op); ctx.count('buffer')
			if op == 'read1' and invalid and 'fail' in (x[0], y[0]): break     # a limited read may already report the bad header behind it
			if not same(x, y):
				ctx.violation('differs:buffer', '%s after %r: native %s, pure %s' % (op, trace, str(x)[:200], str(y)[:200]), data.hex()[:4000]); break
			if x[0] == 'fail': break
		ctx.case(('buf', data))

def xacts(ctx, r, nx, ne, px, pe):
	"""the protocol state machine fed the same wire in the same chunks"""
	for k in range(25):
		rows = [gvals(r, 2) for _ in range(r.choice((0, 1, 3, 60)))]
		mode = r.choice(('query', 'ext', 'copy'))
		if mode == 'copy': wire = [(b'H', b'\0\0\0')] + [(b'd', x[0] or b'') for x in rows] + [(b'c', b''), (b'C', b'COPY\0'), (b'Z', b'I')]
		else: wire = [(b'T', b'\0\0')] * (mode == 'query') + [(b'2', b'')] * (mode == 'ext') + [(b'D', pq.u16(2) + pq.values(x)) for x in rows] + [(b'C', b'SELECT 1\0'), (b'Z', b'I')]
		for _ in range(r.choice((0, 0, 1, 3))):
			wire.insert(r.randrange(len(wire)), r.choice(((b'N', b'SNOTICE\0Mhi\0\0'), (b'S', b'a\0b\0'), (b'A', b'\0\0\0\1c\0p\0'))))
		if r.random() < .2: wire.insert(r.randrange(len(wire)), r.choice(((b'D', b'\0\2\0'), (b'E', b'SERROR\0Mbad\0\0'), (b'd', b'zz'), (b'D', pq.u16(2) + pq.u32(0) + pq.u32(5) + b'abc'))))
		cutsize = r.choice((1, 2, 5, 100))
		def run(x3, e):
			log = []
			if mode == 'ext': cmds = (e.Bind(b'', b'', (), (), ()), e.Execute(b'', 0), e.SynchronizeMessage)
			else: cmds = (e.Query(b'q'),)
			t = x3.Instruction(cmds, asynchook=lambda m: log.append(('async', repr(m))))
			t.state[1]()
			i = 0
			while i < len(wire) and t.state[0] is True:
				chunk = tuple(wire[i:i + cutsize])
				try:
					n = t.state[1](chunk)
				except Exception as ex:
					return [('raise',)], None
				i += n
				log.append((n, [repr(m) for m in t.completed[-1][1]] if t.completed else None))
				if t.fatal is True or n == 0: log.append(('fatal', t.fatal)); break
			log.append(('end', i, t.fatal, repr(getattr(t, 'error_message', None)), t.state == x3.Complete))
			return log, [repr(m) for m in t.messages_received()] if t.fatal is not True else None
		a, b = run(nx, ne), run(px, pe)
		ctx.count('xact'); ctx.case(('xact', repr(wire), cutsize))
		if a[1] != b[1] or a[0][-1] != b[0][-1] or [x for x in a[0] if x[0] == 'async'] != [x for x in b[0] if x[0] == 'async']:
			k = next((i for i, (x, y) in enumerate(zip(a[1] or (), b[1] or ())) if x != y), None)
			ctx.violation('differs:transaction', 'completed %s and %s, first difference at %s; ends %s and %s; asyncs %s; mode %s cut %d: native %s, pure %s' % (a[1] and len(a[1]), b[1] and len(b[1]), k, a[0][-1], b[0][-1], [[x for x in c[0] if x[0] == 'async'] for c in (a, b)], mode, cutsize, str(a)[:600], str(b)[:600]), repr(wire)[:4000])

def transcripts(ctx, n):
	for k in range(n):
		outs = []
		ps = []
		for ext in (os.environ['VF_EXT'], 'none'):
			env = dict(os.environ, VF_EXT=ext)
			ps.append(subprocess.Popen([sys.executable, '-m', 'vf.transcript', '%d/%d' % (ctx.seed, k)], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True))
		for p in ps:
			with ctx.step('transcript', k, 300):
				o, e = p.communicate()
			if p.returncode != 0:
				ctx.violation('transcript:session-failed', 'a session %s ended with %r: %s' % (['with the module', 'without the module'][len(outs)], p.returncode, e[-1500:]))
				return
			outs.append([json.loads(l) for l in o.splitlines()])
		ctx.count('transcript-steps', len(outs[0]))
		if len(outs[0]) != len(outs[1]): ctx.violation('transcript:differs', 'lengths %d and %d' % tuple(map(len, outs)))
		for x, y in zip(*outs):
			ctx.case(('t', x[0]))
			ctx.count('transcript-errors' if x[1][0] == 'exc' else 'transcript-values')
			if x != y: ctx.violation('transcript:differs', 'step %r: native %s, pure %s' % (x[0], str(x[1])[:900], str(y[1])[:900]), [x, y])

def main(ctx):
	from postgresql.port import optimized as opt
	from postgresql.python import structlib as ns, functools as nf
	from postgresql.protocol import element3 as ne, xact3 as nx, buffer as nb
	ps, pf, pe, px, pb, pc = boot.pure_copy('postgresql.python.structlib', 'postgresql.python.functools', 'postgresql.protocol.element3', 'postgresql.protocol.xact3', 'postgresql.protocol.buffer', 'postgresql.copyman')
	assert nb.pq_message_stream is not pb.pq_message_stream and ns.long_pack is not ps.long_pack and nf.process_tuple is not pf.process_tuple
	ctx.rule = 'random arguments to each accelerated function and its fallback, compared by result or failure; plus whole sessions with and without the module; distinct by arguments'
	ctx.require('int-functions', 'pack_tuple_data', 'parse_tuple', 'cat_messages', 'process', 'compose', 'rsetattr', 'wirestate', 'wirestate-ended', 'wirestate-refused', 'buffer', 'xact', 'transcript-steps', 'transcript-errors')
	for k in range(ctx.scale(40, 1500)):
		if ctx.elapsed() > ctx.scale(60, 1200): break
		r = ctx.rng(k)
		with ctx.step('differential', k):
			ints(ctx, r, ns, ps, opt)
			tuples(ctx, r, ne, pe)
			functools(ctx, r, nf, pf)
			wirestates(ctx, r, opt.WireState, pc.WireState)
			buffers(ctx, r, nb.pq_message_stream, pb.pq_message_stream)
			xacts(ctx, r, nx, ne, px, pe)
	transcripts(ctx, ctx.scale(1, 8))
