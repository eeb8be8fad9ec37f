"""A simulated network: stream sockets, listeners and select().

Bytes travel in order, in fragments cut by the sender's and the network's
choice, with delays; buffers are bounded; connections can be reset, half
closed, or swallowed by a partition; every call can be made to fail as the
operating system would.  Numbers of file descriptors are reused, lowest first.
"""
import errno
import os
import select
import socket as _socket

from sim import engine

REAL_SOCKET = _socket.socket
MSG_DONTWAIT, MSG_WAITALL, MSG_PEEK = _socket.MSG_DONTWAIT, _socket.MSG_WAITALL, _socket.MSG_PEEK
FIRST_FD = 5


def err(code):
    return OSError(code, os.strerror(code))


class Pipe(object):
    """One direction of a connection."""

    def __init__(self, net, reader):
        self.net, self.reader = net, reader
        self.cap = net.capacity()
        self.flying = []            # [[arrival tick, bytes]], in order
        self.nflying = 0
        self.inbuf = bytearray()
        self.fin = False            # written
        self.eof = False            # arrived
        self.last = 0
        self.sent = 0
        self.wrote_at = 0
        self.taken = 0
        self.broken = False         # nothing arrives any more

    def space(self):
        return max(0, self.cap - self.nflying - len(self.inbuf))

    def write(self, data):
        net = self.net
        self.sent += len(data)
        self.wrote_at = net.sim.now
        self.nflying += len(data)
        i = 0
        while i < len(data):
            n = net.fragment(len(data) - i)
            self.flying.append([self._when(), bytes(data[i:i + n])])
            i += n
        self.pump()

    def _when(self):
        net = self.net
        self.last = max(self.last, net.sim.now + net.latency())
        return self.last

    def finish(self):
        if not self.fin:
            self.fin = True
            self.flying.append([self._when(), None])
            self.pump()

    def pump(self):
        """Moves what has arrived into the buffer of the reader."""
        sim = self.net.sim
        if self.net.cut(self):
            return
        while self.flying and self.flying[0][0] <= sim.now:
            _, data = self.flying.pop(0)
            if data is None:
                self.eof = True
            else:
                self.nflying -= len(data)
                if self.reader.closed or self.reader.rd_shut:
                    if self.reader.closed:
                        # nobody reads it: reset the sender
                        self.reader.net.reset_later(self.reader.peer, errno.EPIPE)
                else:
                    self.inbuf += data
        if self.flying:
            sim.at(max(self.flying[0][0], sim.now + 1), self.pump)


class SimSocket(object):

    def __init__(self, net, family=_socket.AF_INET, owner=None, hidden=False):
        self.net = net
        self.family, self.type, self.proto = _socket.AddressFamily(family), _socket.SOCK_STREAM, 0
        self.owner = owner
        net.serial += 1
        self.serial = net.serial
        self.fd = -1 if hidden else net.new_fd(self)
        self.closed = False
        self.timeout = None
        self.listening = False
        self.queue = []             # of a listener: endpoints to accept
        self.backlog = 0
        self.addr = None
        self.peer = None
        self.peer_addr = None
        self.rx = self.tx = None
        self.rd_shut = self.wr_shut = False
        self.error = None           # pending error (SO_ERROR)
        self.state = 'new'          # new, connecting, connected, failed, reset
        self.options = {}
        self.opened = net.sim.now
        self.closed_at = None

    def __hash__(self):
        return self.serial

    def __eq__(self, other):
        return self is other

    def __repr__(self):
        return '<socket %d fd=%d %s>' % (self.serial, self.fd, self.state)

    def __enter__(self):
        return self

    def __exit__(self, *exc_info):
        self.close()

    def fileno(self):
        return self.fd

    def setblocking(self, flag):
        self._check()
        self.timeout = None if flag else 0.0

    def settimeout(self, value):
        self._check()
        if value is not None and value < 0:
            raise ValueError('Timeout value out of range')
        self.timeout = None if value is None else float(value)

    def gettimeout(self):
        return self.timeout

    def getblocking(self):
        return self.timeout != 0.0

    def setsockopt(self, level, option, value):
        self._check()
        self.options[level, option] = value

    def getsockopt(self, level, option, *args):
        self._check()
        if (level, option) == (_socket.SOL_SOCKET, _socket.SO_ERROR):
            e, self.error = self.error, None
            return e or 0
        return self.options.get((level, option), 0)

    def getsockname(self):
        self._check()
        return self.addr or ('0.0.0.0', 0)

    def getpeername(self):
        self._check()
        self.net.maybe('getpeername', self)
        if self.state != 'connected' or self.error:
            raise err(errno.ENOTCONN)
        return self.peer_addr

    def _check(self):
        if self.closed:
            raise err(errno.EBADF)

    def _take_error(self):
        e, self.error = self.error, None
        if e is not None:
            raise err(e)

    def _wait(self, pred, flags=0):
        """Blocks as the mode of the socket says; False if it timed out."""
        sim = self.net.sim
        if pred():
            return
        if flags & MSG_DONTWAIT or self.timeout == 0.0:
            raise err(errno.EAGAIN)
        deadline = None if self.timeout is None else sim.now + engine.ticks(self.timeout)
        # a cooperative thread would block all of its thread
        if not sim.block(pred, deadline):
            raise _socket.timeout('timed out')

    # -- listening -----------------------------------------------------------------

    def bind(self, addr):
        self._check()
        if addr in self.net.listeners:
            raise err(errno.EADDRINUSE)
        self.addr = addr

    def listen(self, backlog=128):
        self._check()
        self.listening, self.backlog = True, max(1, backlog)
        self.net.listeners[self.addr] = self
        self.state = 'listening'

    def accept(self):
        self._check()
        self._wait(lambda: self.closed or self.queue)
        self._check()
        self.net.maybe('accept', self)
        self.net.check_limit('accept')
        sock = self.queue.pop(0)
        if sock.state == 'aborted':
            raise err(errno.ECONNABORTED)
        sock.fd = sock.first_fd = self.net.new_fd(sock)
        sock.owner = self.owner
        if self.timeout is not None and self.timeout != 0.0:
            sock.timeout = None
        return sock, sock.peer_addr

    # -- connecting ----------------------------------------------------------------

    def connect_ex(self, addr):
        self._check()
        net, sim = self.net, self.net.sim
        if self.state == 'connected':
            return errno.EISCONN
        if self.state == 'connecting':
            return errno.EALREADY
        now_ = sim.now
        net.attempts.append((now_, self))
        now, code, delay = net.connecting(self, addr)
        if now:
            if code:
                return code
            self._establish(addr)
            return self._fail_code() if self.state != 'connected' else 0
        self.state = 'connecting'

        def done():
            if self.closed:
                return
            if code:
                self.state, self.error = 'failed', code
            else:
                self._establish(addr)
        sim.at(sim.now + max(1, delay), done)
        if self.timeout == 0.0:
            return errno.EINPROGRESS
        try:
            self._wait(lambda: self.state != 'connecting')
        except _socket.timeout:
            return errno.EAGAIN
        finally:
            net.frozen = max(net.frozen, sim.now - now_)
        if self.error:
            e, self.error = self.error, None
            return e
        return 0

    def _fail_code(self):
        e, self.error = self.error, None
        return e or errno.ECONNREFUSED

    def connect(self, addr):
        e = self.connect_ex(addr)
        if e:
            raise err(e)

    def _establish(self, addr):
        net = self.net
        listener = net.listeners.get(addr)
        if listener is None or listener.closed:
            self.state, self.error = 'failed', errno.ECONNREFUSED
            return
        if len(listener.queue) > listener.backlog:
            # the kernel would retry its handshake
            net.sim.after(engine.ticks(1), lambda: self.closed or self._establish(addr))
            return
        other = SimSocket(net, self.family, listener.owner, hidden=True)    # no fd until accepted
        net.port += 1
        self.addr = self.addr or ('10.0.0.9', net.port)
        net.join(self, other)
        other.addr, other.peer_addr = addr, self.addr
        self.peer_addr = addr
        listener.queue.append(other)

    # -- transfer --------------------------------------------------------------------

    def _sendable(self):
        return (self.closed or self.error or self.wr_shut or self.state not in ('connected', 'connecting') or
                (self.state == 'connected' and self.tx.space() > 0))

    def send(self, data, flags=0):
        self._check()
        data = bytes(data)
        self.net.maybe('send', self)
        if self.state in ('new', 'listening', 'failed') and not self.error:
            raise err(errno.EPIPE if self.state == 'failed' else errno.ENOTCONN)
        once = flags & MSG_DONTWAIT or self.timeout is not None
        done = 0
        while True:
            if done and self.net.interrupted():
                return done         # a signal after a part was sent
            self._wait(self._sendable, flags)
            self._check()
            if done and (self.error or self.state != 'connected'):
                return done         # the error comes with the next call
            self._take_error()
            if self.wr_shut or self.state != 'connected':
                raise err(errno.EPIPE)
            n = min(self.tx.space(), len(data) - done)
            if n:
                self.tx.write(data[done:done + n])
                done += n
            if done == len(data) or once:
                if done < len(data) and self.net.on_partial is not None:
                    self.net.on_partial()
                return done
            engine.pt()

    def sendall(self, data, flags=0):
        data = bytes(data)
        i = 0
        while True:
            i += self.send(data[i:], flags)
            if i >= len(data):
                return
            engine.pt()

    def _readable(self):
        return (self.closed or self.error is not None or self.state not in ('connected', 'connecting') or
                (self.state == 'connected' and (self.rx.inbuf or self.rx.eof or self.rd_shut)))

    def recv(self, size, flags=0):
        self._check()
        if size < 0:
            raise ValueError('negative buffersize in recv')
        self.net.maybe('recv', self)
        if self.state in ('new', 'listening'):
            raise err(errno.ENOTCONN)
        out = b''
        while True:
            if out and self.timeout is not None or out and flags & MSG_DONTWAIT:
                return out
            self._wait(self._readable, flags)
            if self.closed:
                raise err(errno.EBADF)
            got = b''
            if self.rx is not None and self.rx.inbuf:
                n = min(size - len(out), len(self.rx.inbuf))
                if not flags & MSG_WAITALL:
                    n = self.net.short(n)
                got = bytes(self.rx.inbuf[:n])
                if not flags & MSG_PEEK:
                    del self.rx.inbuf[:n]
                    self.rx.taken += n
                out += got
            if got:
                if len(out) == size or not flags & MSG_WAITALL:
                    return out
                if self.net.interrupted():
                    return out      # a signal after a part was received
                engine.pt()
                continue
            if out:
                return out          # the end or error comes with the next call
            if size == 0:
                return b''
            self._take_error()
            return b''

    def recv_into(self, buf, nbytes=0, flags=0):
        data = self.recv(nbytes or len(buf), flags)
        buf[:len(data)] = data
        return len(data)

    # -- ending ------------------------------------------------------------------------

    def shutdown(self, how):
        self._check()
        if self.state != 'connected':
            raise err(errno.ENOTCONN)
        if how in (_socket.SHUT_WR, _socket.SHUT_RDWR):
            self.wr_shut = True
            self.tx.finish()
        if how in (_socket.SHUT_RD, _socket.SHUT_RDWR):
            self.rd_shut = True

    def close(self):
        if self.closed:
            return
        self.closed = True
        self.closed_at = self.net.sim.now
        if self.fd in self.net.fds and self.net.fds[self.fd] is self:
            del self.net.fds[self.fd]
        self.fd = -1
        if self.listening:
            if self.net.listeners.get(self.addr) is self:
                del self.net.listeners[self.addr]
            for sock in self.queue:
                sock.abort()
            self.queue = []
        if self.state == 'connected':
            if self.rx.inbuf:
                self.net.reset_later(self.peer, errno.ECONNRESET)
            self.tx.finish()
            del self.rx.inbuf[:]

    def abort(self):
        """Closes with a reset (linger 0, or the process's machine died)."""
        peer = self.peer
        if self.state == 'connected' and peer is not None:
            if peer.fd == -1 and not peer.closed:
                peer.net.aborted(peer)
            self.net.reset_later(peer, errno.ECONNRESET)
            self.tx.broken = True
        self.closed = True
        self.closed_at = self.net.sim.now
        if self.fd in self.net.fds and self.net.fds[self.fd] is self:
            del self.net.fds[self.fd]
        self.fd = -1

    def detach(self):
        fd, self.fd = self.fd, -1
        return fd


class Net(object):
    """The policy of a network and its parts."""

    def __init__(self, sim, s, latencies=(0,), fragments=(0,), caps=(1 << 20,), p_short=0, p_interrupt=0):
        self.sim, self.s = sim, s
        self.latencies, self.fragments, self.caps = latencies, fragments, caps
        self.p_short, self.p_interrupt = p_short, p_interrupt
        self.fds = {}
        self.first_fd = FIRST_FD
        self.fd_limit = None
        self.serial = 0
        self.port = 40000
        self.listeners = {}
        self.attempts = []
        self.frozen = 0             # the longest blocking connect
        self.faults = None          # fn(operation, socket) -> errno or None
        self.on_partial = None      # called after a part was sent
        self.on_connect = None      # fn(socket, addr) -> (immediately, errno, delay)
        self.partition = None       # fn(pipe) -> whether nothing gets through
        self.p_eintr = 0
        self.owner = lambda: None   # who opens a socket now
        self.sockets = []

    def capacity(self):
        return self.s.pick(self.caps)

    def latency(self):
        return self.s.pick(self.latencies)

    def fragment(self, n):
        if n <= 1 or self.fragments == (0,):
            return n
        kind = self.s.pick(self.fragments)
        if kind == 0:
            return n
        return min(n, max(1, self.s.randint(1, kind)))

    def short(self, n):
        """A receive may return less than there is."""
        if n > 1 and self.p_short and self.s.chance(self.p_short):
            return self.s.randint(1, n)
        return n

    def interrupted(self):
        if self.p_interrupt and self.s.chance(self.p_interrupt):
            self.sim.count('short-by-signal')
            return True
        return False

    def maybe(self, op, sock):
        if self.faults is not None:
            e = self.faults(op, sock)
            if e:
                self.sim.count('%s-%s' % (op, errno.errorcode[e]))
                raise err(e)

    def connecting(self, sock, addr):
        if self.on_connect is not None:
            return self.on_connect(sock, addr)
        return False, 0, self.latency()

    def cut(self, pipe):
        return pipe.broken or (self.partition is not None and self.partition(pipe))

    def heal(self):
        for sock in self.sockets:
            if sock.rx is not None:
                sock.rx.pump()

    def free_fd(self):
        fd = self.first_fd
        while fd in self.fds:
            fd += 1
        return fd

    def new_fd(self, sock):
        fd = self.free_fd()
        self.fds[fd] = sock
        if sock not in self.sockets:
            self.sockets.append(sock)
        return fd

    def join(self, a, b):
        a.rx, b.rx = Pipe(self, a), Pipe(self, b)
        a.tx, b.tx = b.rx, a.rx
        a.peer, b.peer = b, a
        a.state = b.state = 'connected'

    def reset_later(self, sock, code):
        """The other end told that the connection is gone."""
        if sock is None or sock.closed:
            return
        self.sim.count('resets')

        def hit():
            if sock.closed or sock.state != 'connected':
                return
            if self.partition is not None and self.partition(sock.rx):
                self.sim.after(engine.ticks(.5), hit)
                return
            self.break_(sock, code)
        self.sim.after(self.latency(), hit)

    def break_(self, sock, code):
        """The connection of this end fails with an error."""
        sock.error = code
        sock.state = 'reset'
        sock.tx.broken = True
        if self.s.chance(.5):
            # what has been received before may be lost or not
            sock.rx.inbuf = bytearray()

    def aborted(self, sock):
        sock.state = 'aborted' if self.s.chance(.5) else sock.state

    def check_limit(self, op):
        if self.fd_limit is not None and len(self.fds) >= self.fd_limit:
            self.sim.count(op + '-EMFILE')
            raise err(errno.EMFILE)

    def socket(self, family=_socket.AF_INET, type=_socket.SOCK_STREAM, proto=0, fileno=None):
        self.check_limit('socket')
        return SimSocket(self, family, owner=self.owner())

    def socketpair(self, family=_socket.AF_UNIX, type=_socket.SOCK_STREAM, proto=0):
        a, b = SimSocket(self, family, owner=self.owner()), SimSocket(self, family, owner=self.owner())
        self.join(a, b)
        a.addr = b.addr = a.peer_addr = b.peer_addr = ''
        return a, b

    # -- select ---------------------------------------------------------------------

    def lookup(self, x):
        fd = x if isinstance(x, int) else x.fileno()
        if fd < 0:
            raise ValueError('file descriptor cannot be a negative integer (%d)' % fd)
        if fd >= 1024:
            raise ValueError('filedescriptor out of range in select()')
        sock = self.fds.get(fd)
        if sock is None:
            raise err(errno.EBADF)
        return sock

    def readable(self, sock):
        if sock.listening:
            return bool(sock.queue)
        if sock.state == 'new':
            return True
        if sock.state == 'connecting':
            return False
        return bool(sock._readable())

    def writable(self, sock):
        if sock.listening or sock.state == 'connecting':
            return False
        return bool(sock._sendable())

    def select(self, rlist, wlist, xlist, timeout=None):
        sim = self.sim
        shuffle = isinstance(rlist, (set, frozenset))
        rlist, wlist = list(rlist), list(wlist)
        if timeout is not None and timeout < 0:
            raise ValueError('timeout must be non-negative')
        rs = [(x, self.lookup(x)) for x in rlist]
        ws = [(x, self.lookup(x)) for x in wlist]
        sim.count('selects')
        ready = lambda: any(self.readable(s) for _, s in rs) or any(self.writable(s) for _, s in ws)
        deadline = None if timeout is None else sim.now + engine.ticks(timeout)
        if self.p_eintr and timeout != 0 and self.s.chance(self.p_eintr):
            # a signal handler runs during the wait
            part = self.s.pick([1, 1000, 100000, 500000])
            if not sim.block(ready, sim.now + part if deadline is None else min(deadline, sim.now + part)):
                if deadline is None or sim.now < deadline:
                    sim.count('select-EINTR')
                    raise err(errno.EINTR)
        elif timeout == 0:
            sim.yield_()
        else:
            sim.block(ready, deadline)
        if shuffle:
            rs = self.s.shuffle(rs)
        return ([x for x, s in rs if self.readable(s)], [x for x, s in ws if self.writable(s)], [])


class Poll(object):
    """select.poll()"""

    def __init__(self, net):
        self.net = net
        self.masks = {}

    def _fd(self, x):
        fd = x if isinstance(x, int) else x.fileno()
        if fd < 0:
            raise ValueError('file descriptor cannot be a negative integer (%d)' % fd)
        return fd

    def register(self, x, mask=select.POLLIN | select.POLLPRI | select.POLLOUT):
        self.masks[self._fd(x)] = mask

    def modify(self, x, mask):
        if self._fd(x) not in self.masks:
            raise err(errno.ENOENT)
        self.masks[self._fd(x)] = mask

    def unregister(self, x):
        del self.masks[self._fd(x)]

    def events(self):
        found = []
        for fd, mask in self.masks.items():
            sock = self.net.fds.get(fd)
            if sock is None:
                found.append((fd, select.POLLNVAL))
                continue
            got = 0
            if mask & select.POLLIN and self.net.readable(sock):
                got |= select.POLLIN
            if mask & select.POLLOUT and self.net.writable(sock):
                got |= select.POLLOUT
            if got:
                found.append((fd, got))
        return found

    def poll(self, timeout=None):
        sim = self.net.sim
        sim.count('selects')
        if timeout is None or timeout < 0:
            deadline = None
        else:
            deadline = sim.now + engine.ticks(timeout / 1000.0)
        if timeout == 0:
            sim.yield_()
        else:
            sim.block(lambda: bool(self.events()), deadline)
        return self.net.s.shuffle(self.events())


class SocketFactory(REAL_SOCKET):
    """Stands in for socket.socket: inside of a simulation with a network its
    instances are simulated sockets."""

    def __new__(cls, family=_socket.AF_INET, type=_socket.SOCK_STREAM, proto=0, fileno=None):
        sim = engine.SIM
        if sim is None:
            return REAL_SOCKET.__new__(cls)
        net = sim.hooks.get('net')
        if net is None:
            raise engine.SimError('no network is simulated here')
        if family == -1:
            family = _socket.AF_INET
        return net.socket(family)


def install(patch, hooked):
    patch(_socket, 'socket', SocketFactory)
    patch(_socket, 'socketpair', hooked('socket.socketpair', _socket.socketpair))
    patch(_socket, 'create_connection', hooked('socket.create_connection', _socket.create_connection))
    for name in ('getaddrinfo', 'gethostbyname'):
        patch(_socket, name, hooked('socket.' + name, getattr(_socket, name)))


def use(sim, net):
    sim.hooks['net'] = net
    sim.hooks['select.select'] = net.select
    sim.hooks['select.poll'] = lambda: Poll(net)
    sim.hooks['socket.socketpair'] = net.socketpair
