"""
A small PostgreSQL-speaking server on real loopback sockets, one thread per
connection, that records everything it receives.  What it answers during startup
is given by a plan per connection; after startup it answers the few queries the
driver makes when connecting.
"""
import hashlib, os, socket, ssl, struct, subprocess, threading
from . import pq

def certificates(d):
	"""two self-signed certificates: (cert, key) good, (cert, key) other"""
	out = []
	for n in ('good', 'other'):
		c, k = os.path.join(d, n + '.crt'), os.path.join(d, n + '.key')
		if not os.path.exists(c):
			subprocess.run(['openssl', 'req', '-x509', '-newkey', 'rsa:2048', '-nodes', '-keyout', k, '-out', c, '-days', '3650', '-subj', '/CN=' + n], check=True, capture_output=True)
		out.append((c, k))
	return out

class Gone(Exception): pass

class Conn:
	"""what one accepted connection did"""
	def __init__(self, sock, plan, n):
		self.sock, self.plan, self.n = sock, plan, n
		self.events = []        # ('ssl-request',) ('startup', [(k, v)]) ('password', bytes) ('query', sql) ('close',) ...
		self.raw = b''          # every byte received outside TLS
		self.tls = None         # None / 'ok' / 'failed'
		self.buf = b''
		self.done = threading.Event()
	def more(self):
		try: d = self.sock.recv(65536)
		except OSError: d = b''
		if not d: raise Gone
		if self.tls != 'ok': self.raw += d
		self.buf += d
	def take(self, n):
		while len(self.buf) < n: self.more()
		r, self.buf = self.buf[:n], self.buf[n:]
		return r
	def packet(self):
		h = self.take(4)
		n = struct.unpack('!I', h)[0]
		if n < 8 or n > 10000000: raise ValueError('startup length %d' % n)
		return h + self.take(n - 4)
	def message(self):
		h = self.take(5)
		n = struct.unpack('!I', h[1:])[0]
		return h[:1], self.take(n - 4)
	def say(self, b):
		cut = self.plan.get('pieces')
		try:
			if cut:
				for i in range(0, len(b), cut): self.sock.sendall(b[i:i + cut])
			else: self.sock.sendall(b)
		except OSError: raise Gone

	def run(self):
		try:
			self.sock.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
			self.serve()
		except Gone: self.events.append(('gone',))
		except ValueError as e: self.events.append(('malformed', str(e)))
		except ssl.SSLError as e: self.events.append(('ssl-error', str(e)))
		finally:
			# whatever else the client still sends is recorded, too
			try:
				self.sock.settimeout(10)
				self.sock.shutdown(socket.SHUT_WR) if self.tls != 'ok' else None
				while self.plan.get('drain', True): self.more()
			except Exception: pass
			try: self.sock.close()
			except OSError: pass
			self.done.set()

	def serve(self):
		p = self.plan
		pkt = pq.startup(self.packet())
		if pkt[0] == 'cancel': self.events.append(pkt); return
		if pkt[0] == 'ssl':
			self.events.append(('ssl-request',))
			if self.buf: self.events.append(('early', self.buf))
			a = p.get('ssl', b'N')
			if a == 'close': return
			if a == 'reset':
				self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0)); self.plan = dict(p, drain=False)
				self.sock.close(); return
			self.say(a)
			if a[:1] == b'S':
				how = p.get('tls', 'ok')
				if how == 'garbage':
					self.say(b'this is no TLS record at all, really not'); return
				if how == 'close': return
				if how == 'plain':
					# pretends to go on in plaintext
					self.say(pq.auth(0) + pq.key(1, 2) + pq.ready()); return
				ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
				ctx.load_cert_chain(*p['cert'])
				if p.get('ask'):
					ctx.verify_mode = ssl.CERT_OPTIONAL
					for f in p['ask']: ctx.load_verify_locations(f)
				# no bytes may be pending: the handshake starts with the next ones
				if self.buf: self.events.append(('early', self.buf))
				try: s = ctx.wrap_socket(self.sock, server_side=True)
				except (ssl.SSLError, OSError) as e:
					self.tls = 'failed'; self.events.append(('tls-failed',)); self.plan = dict(p, drain=False); return
				self.sock, self.tls = s, 'ok'
				self.events.append(('tls',))
				if p.get('ask'): self.events.append(('certificate', s.getpeercert(True)))
			elif a[:1] != b'N':
				return
			if p.get('close-after-n'): return
			pkt = pq.startup(self.packet())
			if pkt[0] == 'ssl': self.events.append(('ssl-request',)); return
		self.events.append(('startup', pkt[2], pkt[1]))
		if len(p.get('ssl', b'')) > 1 and p['ssl'][:1] == b'N': return   # the stream is garbage from here on
		auth = p.get('auth-tls' if self.tls == 'ok' else 'auth-plain', p.get('auth', 'ok'))
		self.authenticate(auth)
	def reject(self, msg='rejected'):
		self.say(pq.err('28P01', msg, 'FATAL'))
	def authenticate(self, auth):
		kind, *args = auth if isinstance(auth, tuple) else (auth,)
		if kind == 'script':
			# list of bytes to say, or None: expect a message
			for x in args[0]:
				if x is None: self.events.append(('message',) + self.message())
				else: self.say(x)
			if len(args) < 2 or not args[1]: return
		elif kind == 'reject': self.reject(); return
		elif kind == 'close': return
		elif kind in ('cleartext', 'md5', 'crypt'):
			code = dict(cleartext=3, md5=5, crypt=4)[kind]
			salt = args[0] if args else b''
			self.say(pq.auth(code, salt))
			t, b = self.message()
			self.events.append(('message', t, b))
			if len(args) > 1 and args[1] == 'reject': self.reject(); return
			self.hello()
		else: self.hello()
		self.loop()
	def hello(self):
		ps = b''.join(pq.param(k, v) for k, v in self.plan.get('params', DEFAULT_PARAMS))
		self.say(pq.auth(0) + ps + pq.key(4242, 77) + pq.ready())
	def loop(self):
		cols = 4
		while True:
			t, b = self.message()
			m = pq.front(t, b)
			k = m['m']
			if k in ('parse', 'query'): self.events.append(('query', m['sql']))
			if k == 'parse': self.say(pq.parse_ok)
			elif k == 'bind': self.say(pq.bind_ok)
			elif k == 'describe': self.say((pq.paramdesc([]) if m['kind'] == b'S' else b'') + pq.rowdesc([pq.col('c%d' % i, 25, 1) for i in range(cols)]))
			elif k == 'execute': self.say(pq.row([b'PostgreSQL 16.0 mini', b'2020-01-01 00:00:00+00', b'127.0.0.1', b'1']) + pq.complete('SELECT 1'))
			elif k == 'close': self.say(pq.close_ok)
			elif k == 'sync': self.say(pq.ready())
			elif k == 'query': self.say(pq.complete('SET') + pq.ready())
			elif k == 'terminate': self.events.append(('terminate',)); return
			else: raise ValueError(k)

DEFAULT_PARAMS = [('server_version', '16.0'), ('client_encoding', 'UTF8'), ('standard_conforming_strings', 'on'), ('server_encoding', 'UTF8')]

class Server:
	def __init__(self, plan):
		"""plan(n) -> dict for the n-th connection"""
		self.plan = plan
		self.conns = []
		self.listener = socket.socket()
		self.listener.bind(('127.0.0.1', 0))
		self.listener.listen(50)
		self.port = self.listener.getsockname()[1]
		self.stopped = False
		self.marked, self.marker = threading.Event(), None
		self.thread = threading.Thread(target=self.accept, daemon=True)
		self.thread.start()
	def accept(self):
		while True:
			try: s, a = self.listener.accept()
			except OSError: return
			if self.stopped:
				# all that came before the marker connection still counts
				self.marked.wait(20)
				if a == self.marker: s.close(); return
			c = Conn(s, self.plan(len(self.conns)), len(self.conns))
			self.conns.append(c)
			threading.Thread(target=c.run, daemon=True).start()
	def stop(self, wait=True):
		"""no more connections; returns the connections once all have ended"""
		self.stopped = True
		m = socket.create_connection(('127.0.0.1', self.port))
		self.marker = m.getsockname(); self.marked.set()
		self.thread.join(20)
		m.close()
		self.listener.close()
		ok = True
		if wait:
			for c in self.conns: ok = c.done.wait(30) and ok
		return ok
