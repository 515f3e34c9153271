"""
C04: the native module, compiled with AddressSanitizer and UndefinedBehaviorSanitizer,
under hostile calls.  A sanitizer report aborts the worker; run.py turns that into
the violation.  Reference counts and leaks are watched here and in a subprocess that
runs the plain build under the C allocator's statistics.
"""
import array, ctypes, gc, json, os, subprocess, sys
from vf import pq

class MyBase(BaseException): pass
class Obj: pass

def exact(b):
	"""a buffer of exactly len(b) heap bytes, without the byte past the end that bytes objects have"""
	return array.array('B', b)

def weird(r):
	k = r.randrange(16)
	return [None, True, -1, 2**63, 2**64, -2**63, 1.5, 'str', b'', b'\xff' * r.randrange(20), bytearray(b'abc'), memoryview(b'abcdef'), (), [], Obj(), {}][k]

def body(r):
	n = r.choice((0, 1, 2, 3, 9, 300))
	vs = [None if r.random() < .3 else r.randbytes(r.choice((0, 1, 4, 100))) for _ in range(n)]
	b = bytearray(pq.u16(n) + pq.values(vs))
	for _ in range(r.choice((0, 1, 1, 2, 4))):
		op = r.randrange(5)
		if op == 0: b = b[:r.randrange(len(b) + 1)]
		elif op == 1: b += r.randbytes(r.randrange(8))
		elif op == 2 and len(b) >= 2: b[0:2] = pq.u16(r.choice((0, 1, n + 1 & 0xffff, 255, 256, 32767, 32768, 65535)))
		elif op == 3 and len(b) >= 6:
			i = r.choice((2, r.randrange(2, len(b) - 3)))
			b[i:i + 4] = pq.u32(r.choice((0, 1, 0x7fffffff, 0x80000000, 0xfffffffe, 0xfffffffc, 0xffffff00, len(b), len(b) - 5 & 0xffffffff, r.randrange(2**32))))
		elif op == 4 and b: b[r.randrange(len(b))] ^= 1 << r.randrange(8)
	return bytes(b)

def tryit(ctx, f, *a, **k):
	ctx.count('calls')
	try:
		v = f(*a, **k)
		ctx.count('returned')
		return v
	except (Exception, MyBase) as e:
		if isinstance(e, SystemError):
			# what CPython raises when a native function breaks its calling contract
			ctx.violation('native:calling-contract', '%s%r raised SystemError: %s' % (getattr(f, '__name__', f), tuple(map(repr, a))[:3], e), repr(a)[:2000])
		ctx.count('raised')

def structs(ctx, r, opt):
	for name in dir(opt):
		f = getattr(opt, name)
		if name.endswith('_unpack'):
			size = int([c for c in name if c.isdigit()][0])
			for n in range(0, size + 3):
				d = r.randbytes(n)
				v = tryit(ctx, f, exact(d)); tryit(ctx, f, d); tryit(ctx, f, memoryview(d)[n // 2:]); tryit(ctx, f, bytearray(d))
				if n < size and v is not None: ctx.violation('native:short-read', '%s read %d bytes out of %d' % (name, size, n))
			tryit(ctx, f, weird(r))
		elif name.endswith('_pack'):
			tryit(ctx, f, r.randrange(-2**70, 2**70)); tryit(ctx, f, weird(r)); tryit(ctx, f)

def tuples(ctx, r, opt):
	for k in range(60):
		b = body(r)
		tryit(ctx, opt.parse_tuple_message, exact(b)); tryit(ctx, opt.parse_tuple_message, b)
		tryit(ctx, opt.parse_tuple_message, memoryview(b)[r.randrange(len(b) + 1):])
		ctx.case(('parse', b), sample='parse_tuple_message(%r)' % b[:60])
		msgs = tuple((r.choice((b'D', b'D', b'D', b'N', b'', b'DD', 'D', bytes([r.randrange(256)]))), r.choice((b, exact(b), body(r), weird(r)))) if r.random() < .93 else weird(r) for _ in range(r.randrange(6)))
		tryit(ctx, opt.consume_tuple_messages, msgs); tryit(ctx, opt.consume_tuple_messages, weird(r))
		vals = tuple(None if r.random() < .3 else r.randbytes(r.choice((0, 1, 7, 4096))) for _ in range(r.choice((0, 1, 5, 300))))
		tryit(ctx, opt.pack_tuple_data, vals); tryit(ctx, opt.pack_tuple_data, vals + (weird(r),)); tryit(ctx, opt.pack_tuple_data, weird(r))
		def mk():
			c = r.randrange(9)
			if c == 0: return r.randbytes(r.choice((0, 1, 300, 70000)))
			if c == 1: return vals
			if c == 2: return vals + (weird(r),)
			if c == 3: return weird(r)
			m = Obj()
			m.type = r.choice((b'', b'M', b'LONGTYPE', b'\xff', bytearray(b'M'), 5)) if c != 8 else b'M'
			if c == 5: m.serialize = lambda: weird(r)
			elif c == 6: m.serialize = lambda: 1 // 0
			elif c == 7: m.serialize = lambda: (gc.collect(0), r.randbytes(9))[1]
			else: m.serialize = lambda: r.randbytes(r.choice((0, 5, 2000)))
			if c == 4 and r.random() < .3: del m.type
			return m
		seq = [mk() for _ in range(r.randrange(8))]
		good = [x for x in seq if isinstance(x, bytes)]
		tryit(ctx, opt.cat_messages, seq); tryit(ctx, opt.cat_messages, good + seq[:1]); tryit(ctx, opt.cat_messages, iter(seq)); tryit(ctx, opt.cat_messages, weird(r))
		tryit(ctx, opt.cat_messages, [(None,) * r.choice((65535, 65536, 3))])

def functools(ctx, r, opt):
	for k in range(60):
		n = r.randrange(5)
		mode = r.randrange(10)
		rows = [tuple(None if r.random() < .2 else Obj() for _ in range(n + (r.random() < .1))) for _ in range(r.randrange(5))]
		box = r.choice((list, tuple, iter))
		chunk = list(rows)
		def proc(x):
			if mode == 1: raise ValueError('x')
			if mode == 2: raise MyBase()
			if mode == 3: gc.collect(0)
			if mode == 4: chunk.clear()
			if mode == 5: return opt.process_tuple((repr,), (x,), fail)
			if mode == 6 and r.random() < .5: raise KeyError(x)
			return (x, [x])
		def fail(*a):
			ctx.count('handler')
			if mode in (1, 6): raise r.choice((RuntimeError, a[0].__class__, MyBase))('again')
			return a
		procs = tuple(proc for _ in range(n))
		tryit(ctx, opt.process_tuple, procs, rows[0] if rows else (), fail)
		tryit(ctx, opt.process_chunk, procs, chunk if mode == 4 else box(rows), fail)
		tryit(ctx, opt.process_tuple, weird(r), rows[0] if rows else (), fail); tryit(ctx, opt.process_tuple, procs, weird(r), fail)
		tryit(ctx, opt.process_chunk, procs, weird(r), fail); tryit(ctx, opt.process_chunk, procs, rows + [weird(r)], fail); tryit(ctx, opt.process_tuple, procs, (1,) * n, weird(r))
		tryit(ctx, opt.process_tuple); tryit(ctx, opt.process_chunk, 1, 2)
		fs = [r.choice((lambda x: [x], repr, lambda x: 1 // 0, weird(r), lambda x: fs2.clear() or x)) for _ in range(r.randrange(5))]
		fs2 = list(fs)
		class Seq:
			def __len__(s): return r.choice((len(fs), len(fs) + 2, 0))
			def __getitem__(s, i): return fs[i]
		class BadLen:
			def __len__(s): raise ValueError
			def __getitem__(s, i): raise KeyError
		for s in (tuple(fs), fs2, Seq(), BadLen(), weird(r)): tryit(ctx, opt.compose, s, Obj())
		tryit(ctx, opt.compose); tryit(ctx, opt.compose, ())
		tryit(ctx, opt.rsetattr, r.choice(('a', 5, None, 'a\ud800')), Obj(), r.choice((Obj(), 5, None)))
		ctx.case(('fn', n, mode, len(rows), box.__name__))

def streams(ctx, r, opt):
	for k in range(30):
		b = opt.pq_message_stream()
		other = opt.pq_message_stream()
		log = []
		for i in range(r.randrange(60)):
			op = r.randrange(12)
			log.append(op)
			if op <= 3:
				t = bytes([r.randrange(256)])
				n = r.choice((0, 1, 2, 250, 3000)); raw = t + pq.u32(n + 4) + r.randbytes(n)
				if r.random() < .08: raw = t + pq.u32(r.choice((0, 1, 2, 3, 2**31 - 1, 2**31, 2**32 - 1))) + r.randbytes(r.randrange(9))
				while raw:
					c = r.choice((1, 2, 4, 5, 6, len(raw))); tryit(ctx, b.write, raw[:c]); raw = raw[c:]
			elif op == 4: tryit(ctx, b.read)
			elif op == 5: tryit(ctx, b.read, r.choice((0, 1, 2, 5, -1, -5, 2**31 - 1, -2**31, 2**31, 2**70, 'x', None, 1.5)))
			elif op == 6: tryit(ctx, b.next_message)
			elif op == 7: tryit(ctx, next, b, None)
			elif op == 8: tryit(ctx, len, b); tryit(ctx, b.has_message)
			elif op == 9: tryit(ctx, b.getvalue)
			elif op == 10: tryit(ctx, b.write, weird(r))
			elif op == 11:
				if r.random() < .3: tryit(ctx, b.truncate)
				for m in (tryit(ctx, b.read, 3) or ()): tryit(ctx, other.write, m[0] + pq.u32(len(m[1]) + 4) + m[1])
		ctx.case(('stream', tuple(log)))
		del b
	tryit(ctx, opt.pq_message_stream, 5); tryit(ctx, opt.pq_message_stream, x=5)
	for k in range(30):
		w = opt.WireState(condition=weird(r))
		data = b''.join(b'd' + pq.u32(r.choice((4, 5, 100, 0, 3, 2**31, 2**32 - 1)) if r.random() < .1 else 4 + 7) + b'1234567' for _ in range(8)) + r.choice((b'', b'C\0\0\0\4', b'd', b'd\0'))
		for _ in range(30):
			i, j = sorted((r.randrange(len(data) + 1), r.randrange(len(data) + 1)))
			tryit(ctx, w.update, r.choice((data[i:j], exact(data[i:j]), memoryview(data)[i:j], weird(r))))
			w.size_fragment, w.remaining_bytes, w.final_view
		ctx.case(('wire', data[:20]))

# -- reference counts: a fixed call repeated N times moves no count
def refs(ctx, opt):
	r = ctx.rng('refs')
	s1, s2, s3 = Obj(), b'sentinel' * 3, (b'x', None, b'yy')
	def boom(x): raise ValueError(x)
	def handler(*a): raise KeyError
	class M:
		type = b'M'
		def serialize(self): return s2
	class BadM:
		type = 5
		def serialize(self): return s2
	m, bm, lst = M(), BadM(), [s3, s3]
	ident = lambda x: x
	wire = b'd\0\0\0\5x'
	stream = opt.pq_message_stream()
	def stream_cycle():
		stream.write(s2); stream.getvalue(); stream.truncate(); stream.write(wire); stream.read(); stream.write(wire); next(stream, None); stream.next_message(); stream.write(b'X\0\0\0\1')
		for f in (stream.read, stream.next_message, lambda: len(stream), stream.has_message):
			try: f()
			except ValueError: pass
		stream.truncate()
	def wstate():
		w = opt.WireState(s1); w.update(s2); w.final_view
		w = opt.WireState(); w.update(wire); w.update(b'd\0'); w.size_fragment
		try: w.update(b'\0\0\1')
		except ValueError: pass
	ops = [
	 lambda: opt.process_tuple((ident, ident), (s1, s2), handler), lambda: opt.process_tuple((ident, boom), (s1, s2), handler), lambda: opt.process_tuple((ident,), (s1, s2), handler), lambda: opt.process_tuple((boom,), (s1,), ident),
	 lambda: opt.process_chunk((ident, ident, ident), lst, handler), lambda: opt.process_chunk((ident, ident, ident), tuple(lst), handler), lambda: opt.process_chunk((boom, ident, ident), lst, handler), lambda: opt.process_chunk((boom, ident, ident), iter(lst), handler),
	 lambda: opt.compose((ident, ident), s1), lambda: opt.compose([ident, boom], s1), lambda: opt.compose([ident, 5], s1), lambda: opt.compose({}, s1), lambda: opt.compose(5, s1),
	 lambda: opt.rsetattr('a', s2, m), lambda: opt.rsetattr('a', s2, 5),
	 lambda: opt.cat_messages([s2, m, s3, m, s2, s2]), lambda: opt.cat_messages([s2, bm]), lambda: opt.cat_messages([s2, (s1,)]), lambda: opt.cat_messages([m, s1]),
	 lambda: opt.pack_tuple_data(s3), lambda: opt.pack_tuple_data((s2, s1)), lambda: opt.parse_tuple_message(pq.u16(3) + pq.values(s3)), lambda: opt.parse_tuple_message(pq.u16(3) + pq.values(s3)[:-1]), lambda: opt.parse_tuple_message(s2),
	 lambda: opt.consume_tuple_messages(((b'D', pq.u16(3) + pq.values(s3)),) * 3 + ((b'N', s2),)), lambda: opt.consume_tuple_messages(((b'D', s2), 5)), lambda: opt.consume_tuple_messages(((b'D', b'\0\0'), (s1, s2))),
	 stream_cycle, wstate, lambda: opt.swap_int4_unpack(s2), lambda: opt.swap_int4_pack(s1), lambda: opt.swap_int8_unpack(s2),
	]
	watched = [s1, s2, s3, m, bm, ident, boom, handler, lst, wire, None.__class__, ValueError, KeyError]
	def run(op, n):
		for _ in range(n):
			try: op()
			except Exception: pass
	for i, op in enumerate(ops):
		run(op, 20); gc.collect()
		before = [sys.getrefcount(x) for x in watched]
		run(op, 200); gc.collect()
		after = [sys.getrefcount(x) for x in watched]
		ctx.count('refcount-ops'); ctx.case(('ref', i))
		for x, a, b in zip(watched, before, after):
			if abs(a - b) >= 100: ctx.violation('native:refcount:op%d' % i, 'the reference count of %r moved by %d over 200 calls (operation %d)' % (type(x).__name__, b - a, i))
	return ops, run

class MI(ctypes.Structure):
	_fields_ = [(n, ctypes.c_size_t) for n in 'arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost'.split()]

def leak_main():
	"""subprocess: plain build, PYTHONMALLOC=malloc; prints bytes kept per operation"""
	from vf import boot
	boot.install(os.environ['VF_EXT_PLAIN'])
	from postgresql.port import optimized as opt
	class Quiet:
		def rng(self, n):
			import random
			return random.Random(n)
		def count(self, *a): pass
		case = violation = count
	ops, run = refs(Quiet(), opt)
	libc = ctypes.CDLL(None); libc.mallinfo2.restype = MI
	def used(): m = libc.mallinfo2(); return m.uordblks + m.hblkhd
	out = []
	for i, op in enumerate(ops):
		run(op, 300); gc.collect()
		deltas = []
		for _ in range(3):
			a = used(); run(op, 2000); gc.collect(); deltas.append(used() - a)
		out.append(min(deltas))
	print(json.dumps(out))

def main(ctx):
	from postgresql.port import optimized as opt
	maps = open('/proc/self/maps').read()
	assert 'libasan' in maps and 'ext-asan' in maps, 'the sanitizer build is not loaded'
	ctx.count('sanitizer-loaded')
	ctx.rule = 'hostile calls into the sanitizer build; distinct by call kind and contents'
	ctx.require('sanitizer-loaded', 'calls', 'returned', 'raised', 'handler', 'refcount-ops', 'leak-ops', 'session-steps')
	refs(ctx, opt)
	for k in range(ctx.scale(60, 3000)):
		if ctx.elapsed() > ctx.scale(60, 1500): break
		r = ctx.rng(k)
		with ctx.step('native calls', k):
			structs(ctx, r, opt); tuples(ctx, r, opt); functools(ctx, r, opt); streams(ctx, r, opt)
	env = {k: v for k, v in os.environ.items() if k not in ('LD_PRELOAD', 'ASAN_OPTIONS', 'UBSAN_OPTIONS')}
	p = subprocess.run([sys.executable, '-c', 'from checks.c04 import leak_main; leak_main()'], env=env, capture_output=True, text=True, timeout=600)
	if p.returncode != 0:
		if p.returncode < 0: ctx.violation('native:crash', 'the plain build died with %d: %s' % (p.returncode, p.stderr[-2000:]))
		else: raise AssertionError(p.stderr[-3000:])
	else:
		for i, d in enumerate(json.loads(p.stdout)):
			ctx.count('leak-ops'); ctx.case(('leak', i))
			if d >= 2000 * 8: ctx.violation('native:leak:op%d' % i, 'operation %d keeps %d bytes per 2000 calls' % (i, d))
	# a real session on the sanitizer build
	p = subprocess.run([sys.executable, '-m', 'vf.transcript', 'asan'], capture_output=True, text=True, timeout=600)
	if p.returncode != 0:
		ctx.violation('native:session', 'a database session on the sanitizer build ended with %d: %s' % (p.returncode, p.stderr[-4000:]))
	else:
		ctx.count('session-steps', len(p.stdout.splitlines()))
