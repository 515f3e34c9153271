"""
Client-side transport under the monitor's control: wraps the sockets a connector
creates (or replaces them by a scripted server) so that fragmentation, injected
asynchronous messages, cuts, corruption and signals happen at chosen places
without depending on timing.
"""
import errno, socket, struct
from . import pq

class Policy:
	"""Faithful by default."""
	def chunk(self, n): return n                    # how much one recv may return
	def sendsize(self, n): return n                 # how much one send accepts
	def messages(self, t, body): yield t, body      # backend messages -> replacement
	def sent(self, data): pass                      # bytes given to send
	def before(self, what): pass                    # may raise, before a recv/send
	cut_at = None                                   # deliver exactly this many bytes, then end
	cut_how = 'eof'                                 # or 'reset'
	raw = False                                     # do not parse messages
	tls = False                                     # is for what is inside of TLS

class Socket:
	def __init__(self, real, policy):
		self.real, self.policy = real, policy
		self.out = b''          # to be delivered to the client
		self.part = b''         # incomplete backend message
		self.delivered = 0
		self.eof = False
		self.cut = False
		self.closed = False
		self.recvs = 0
		policy.socket = self

	def _transform(self, data):
		p = self.policy
		if p.raw:
			self.out += data
			return
		self.part += data
		try:
			msgs, self.part = pq.split(self.part)
		except ValueError:
			self.out += self.part; self.part = b''; p.raw = True
			return
		for t, b in msgs:
			for x in p.messages(t, b):
				self.out += x if isinstance(x, bytes) else pq.frame(*x)

	def _dead(self):
		self.cut = True
		try: self.real.close()
		except Exception: pass

	def _check_cut(self):
		p = self.policy
		if p.cut_at is not None and self.delivered >= p.cut_at and not self.cut:
			self._dead()
			if hasattr(p, 'was_cut'): p.was_cut()

	def recv(self, n, *a):
		self.recvs += 1
		self.policy.before('recv')
		self._check_cut()
		if self.cut:
			if self.policy.cut_how == 'reset': raise ConnectionResetError(errno.ECONNRESET, 'Connection reset by peer')
			return b''
		while not self.out and not self.eof:
			d = self.real.recv(65536)
			if not d:
				self.eof = True
				self.out += self.part; self.part = b''
			else:
				self._transform(d)
		k = max(1, min(n, self.policy.chunk(n)))
		if self.policy.cut_at is not None: k = min(k, self.policy.cut_at - self.delivered)
		r, self.out = self.out[:k], self.out[k:]
		self.delivered += len(r)
		return r

	def recv_into(self, buf, n=0, *a):
		d = self.recv(n or len(buf)); buf[:len(d)] = d
		return len(d)

	def send(self, data, *a):
		self.policy.before('send')
		self._check_cut()
		if self.cut: raise BrokenPipeError(errno.EPIPE, 'Broken pipe')
		k = max(1, min(len(data), self.policy.sendsize(len(data)))) if len(data) else 0
		n = self.real.send(data[:k])
		self.policy.sent(bytes(data[:n]))
		return n

	def sendall(self, data, *a):
		data = bytes(data)
		while data:
			data = data[self.send(data):]

	def close(self):
		self.closed = True
		self.real.close()

	def fileno(self): return self.real.fileno()
	def __getattr__(self, n): return getattr(self.real, n)

class Before(Policy):
	"""the negotiation ahead of TLS"""
	raw = True
	def __init__(self, then): self.then = then

class Factory:
	"""wraps a SocketFactory; `policy()` gives the policy of each socket (None: untouched)"""
	def __init__(self, sf, policy, made=None):
		self.__dict__.update(sf=sf, policy=policy, made=made if made is not None else [])
	def __call__(self, *a, **k):
		s = self.sf(*a, **k)
		try: s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
		except OSError: pass
		p = self.policy()
		if p is not None:
			s = Socket(s, p if not p.tls else Before(p))
		self.made.append(s)
		return s
	def secure(self, s):
		if not (isinstance(s, Socket) and isinstance(s.policy, Before)): return self.sf.secure(s)
		n = Socket(self.sf.secure(s.real), s.policy.then)
		self.made.append(n)
		return n
	def __getattr__(self, n): return getattr(self.sf, n)
	def __str__(self): return str(self.sf)

def wrap(connector, policy):
	"""make every socket of this connector go through `policy()`; returns the list of sockets made"""
	orig = connector.socket_factory_sequence
	made = []
	def seq(*a, **k):
		return [Factory(f, policy, made) for f in orig(*a, **k)]
	connector.socket_factory_sequence = seq
	return made

class Fragments(Policy):
	"""a transport giving any number of the bytes at a time: stretches of equal and of random pieces, some of single bytes"""
	raw = True
	def __init__(self, r, size=None): self.r = r; self.left = 0; self.fixed = size
	def chunk(self, n):
		if self.fixed: return self.fixed
		if self.left <= 0:
			k = self.r.choice((1, 7, 64, 100, 512, 1000, 4096, None, None, n)); self.size = k
			self.left = 40 if k in (1, 7) else 200
		self.left -= 1
		return self.size or self.r.choice((1, 5, 6, 30, 400, 2000, n))
def fragmented(ctx, r, size=None, **kw):
	def policy():
		p = Fragments(r, size); p.tls = kw.get('tls', False); return p
	c = ctx.connector(**kw); wrap(c, policy); db = c(); db.connect(); return db

# ---- a server that lives inside recv/send
class Script:
	"""
	Stands for a socket connected to a server implemented by `handler`: a generator
	function taking this object, yielding bytes to send; `got()` gives the unread
	client bytes so far.  The handler is resumed whenever the client wants data.
	"""
	def __init__(self, handler, policy=None):
		self.inbox = b''
		self.policy = policy or Policy()
		self.out = b''
		self.gen = handler(self)
		self.eof = False
		self.reset = False
		self.closed = False
		self.starved = False
		self.sends = []
	def take(self, n):
		x, self.inbox = self.inbox[:n], self.inbox[n:]
		return x
	def recv(self, n, *a):
		self.policy.before('recv')
		spins = 0
		while not self.out and not self.eof:
			try:
				x = next(self.gen)
			except StopIteration:
				self.eof = True
				break
			if x is None:
				spins += 1
				if spins > 1000:
					# the client waits for data although the server has nothing more to say
					self.starved = True
					self.eof = True
			else:
				self.out += x
		if not self.out:
			if self.reset: raise ConnectionResetError(errno.ECONNRESET, 'Connection reset by peer')
			return b''
		k = max(1, min(n, self.policy.chunk(n)))
		r, self.out = self.out[:k], self.out[k:]
		return r
	def send(self, data, *a):
		self.policy.before('send')
		if self.eof and not self.out and not self.inbox and self.reset: raise BrokenPipeError(errno.EPIPE, 'Broken pipe')
		k = max(1, min(len(data), self.policy.sendsize(len(data)))) if len(data) else 0
		self.inbox += bytes(data[:k]); self.sends.append(bytes(data[:k]))
		return k
	def sendall(self, data, *a):
		data = bytes(data)
		while data: data = data[self.send(data):]
	def close(self): self.closed = True
	def fileno(self): return -1
	def settimeout(self, *a): pass
	def setsockopt(self, *a): pass

def script_factory(make):
	"""a SocketFactory whose sockets are make() results"""
	from postgresql.python.socket import SocketFactory
	class F(SocketFactory):
		made = []
		def __call__(self, timeout=None):
			s = make()
			self.made.append(s)
			return s
	f = F((socket.AF_INET, socket.SOCK_STREAM), ('script', 0))
	f.made = []
	return f
