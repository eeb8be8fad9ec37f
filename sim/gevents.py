"""Stand-ins for the parts of gevent which profiling.remote.gevent uses.

Greenlets are simulated tasks which are never preempted; blocking operations
switch, nothing else does.  Timeouts, semaphores, links, cooperative sockets
(including the errors of sockets closed or used by another greenlet) and the
accepting loop of StreamServer behave as those of gevent 1.x to 2x.
"""
import errno
import os
import socket as _socket
import sys
import types

from sim import engine
from sim.net import SimSocket, err, MSG_DONTWAIT

MIN_DELAY, MAX_DELAY, MAX_ACCEPT = .01, 1., 100


class ConcurrentObjectUseError(AssertionError):
    pass


class GreenletExit(BaseException):
    pass


def wait(pred, deadline=None):
    """Blocks the current greenlet, minding the timeouts it is under."""
    sim = engine.SIM
    timeouts = sim.cur.data.get('timeouts', ())
    first = min(timeouts, key=lambda t: t.deadline) if timeouts else None
    limit = deadline
    if first is not None and (limit is None or first.deadline < limit):
        limit = first.deadline
    ok = sim.block(pred, limit)
    if not ok and first is not None and sim.now >= first.deadline and not (
            deadline is not None and deadline <= first.deadline):
        sim.count('gevent-timeouts')
        raise first.exc
    return ok


class Timeout(BaseException):

    def __init__(self, seconds=None, exception=None):
        BaseException.__init__(self)
        self.seconds, self.exception = seconds, exception
        self.deadline = None

    @property
    def exc(self):
        if self.exception is None or self.exception is False:
            return self
        return self.exception() if isinstance(self.exception, type) else self.exception

    @classmethod
    def start_new(cls, timeout=None, exception=None):
        t = cls(timeout, exception)
        t.start()
        return t

    def start(self):
        if self.seconds is not None:
            sim = engine.SIM
            self.deadline = sim.now + engine.ticks(self.seconds)
            sim.cur.data.setdefault('timeouts', []).append(self)

    def cancel(self):
        timeouts = engine.SIM.cur.data.get('timeouts', [])
        if self in timeouts:
            timeouts.remove(self)

    close = cancel

    def __enter__(self):
        if self.deadline is None:
            self.start()
        return self

    def __exit__(self, typ, value, tb):
        self.cancel()
        if value is self and self.exception is False:
            return True


def with_timeout(seconds, function, *args, **kwargs):
    has = 'timeout_value' in kwargs
    default = kwargs.pop('timeout_value', None)
    t = Timeout.start_new(seconds)
    try:
        return function(*args, **kwargs)
    except Timeout as exc:
        if exc is t and has:
            return default
        raise
    finally:
        t.cancel()


class Greenlet(object):

    def __init__(self, run=None, *args, **kwargs):
        self._run, self.args, self.kwargs = run, args, kwargs
        self.value = self.exception = None
        self.links = []
        self.started = self.done = False

    def start(self):
        self.started = True
        engine.SIM.spawn(self._body, 'greenlet')

    @classmethod
    def spawn(cls, *args, **kwargs):
        g = cls(*args, **kwargs)
        g.start()
        return g

    def _body(self):
        sim = engine.SIM
        try:
            self.value = self._run(*self.args, **self.kwargs)
        except engine.SimKilled:
            raise
        except BaseException as exc:
            self.exception = exc
            import traceback
            report = sim.hooks.get('gevent-error')
            if report is not None and not isinstance(exc, GreenletExit):
                report(exc, traceback.format_exc())
        self.done = True
        for link in self.links:
            sim.spawn(lambda link=link: link(self), 'link')

    def __bool__(self):
        return self.started and not self.done

    __nonzero__ = __bool__

    @property
    def dead(self):
        return self.done

    def ready(self):
        return self.done

    def successful(self):
        return self.done and self.exception is None

    def link(self, callback):
        if self.done:
            engine.SIM.spawn(lambda: callback(self), 'link')
        else:
            self.links.append(callback)

    rawlink = link

    def unlink(self, callback):
        if callback in self.links:
            self.links.remove(callback)

    def join(self, timeout=None):
        wait(lambda: self.done, None if timeout is None else engine.SIM.now + engine.ticks(timeout))

    def get(self, block=True, timeout=None):
        self.join(timeout)
        if self.exception is not None:
            raise self.exception
        return self.value


spawn = Greenlet.spawn


def sleep(seconds=0, ref=True):
    sim = engine.SIM
    if seconds <= 0:
        sim.yield_()
    else:
        wait(None, sim.now + engine.ticks(seconds))


def idle(priority=0):
    engine.SIM.yield_()


def joinall(greenlets, timeout=None):
    for g in greenlets:
        g.join(timeout)


class Semaphore(object):

    def __init__(self, value=1):
        self.counter = value
        self.queue = []

    def acquire(self, blocking=True, timeout=None):
        if self.counter > 0 and not self.queue:
            self.counter -= 1
            return True
        if not blocking:
            return False
        me = object()
        self.queue.append(me)
        try:
            ok = wait(lambda: self.counter > 0 and self.queue[0] is me,
                      None if timeout is None else engine.SIM.now + engine.ticks(timeout))
        finally:
            self.queue.remove(me)
        if ok:
            self.counter -= 1
        return bool(ok)

    def release(self, *args):
        self.counter += 1
        return self.counter

    def locked(self):
        return self.counter <= 0

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *exc_info):
        self.release()


class RLock(object):

    def __init__(self):
        self.sem, self.owner, self.count = Semaphore(), None, 0

    def acquire(self, blocking=True, timeout=None):
        me = engine.SIM.cur
        if self.owner is me:
            self.count += 1
            return True
        if not self.sem.acquire(blocking, timeout):
            return False
        self.owner, self.count = me, 1
        return True

    def release(self):
        self.count -= 1
        if not self.count:
            self.owner = None
            self.sem.release()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *exc_info):
        self.release()


class Socket(object):
    """A cooperative socket around a simulated one."""

    def __init__(self, sock):
        self._s = sock
        self.timeout = None
        self.users = {'r': 0, 'w': 0}
        self.dead = False

    def __getattr__(self, name):
        return getattr(self._s, name)

    def __hash__(self):
        return self._s.serial

    def __eq__(self, other):
        return self is other

    def __enter__(self):
        return self

    def __exit__(self, *exc_info):
        self.close()

    def setblocking(self, flag):
        self.timeout = None if flag else 0.0

    def settimeout(self, value):
        self.timeout = value

    def gettimeout(self):
        return self.timeout

    def _check(self):
        if self.dead:
            raise err(errno.EBADF)

    def _wait(self, kind, timeout):
        if timeout == 0.0:
            raise err(errno.EAGAIN)
        if self.users[kind]:
            raise ConcurrentObjectUseError('This socket is already used by another greenlet')
        pred = self._s._readable if kind == 'r' else self._s._sendable
        self.users[kind] += 1
        try:
            ok = wait(lambda: self.dead or pred(),
                      None if timeout is None else engine.SIM.now + engine.ticks(timeout))
        finally:
            self.users[kind] -= 1
        if not ok:
            raise _socket.timeout('timed out')
        if self.dead:
            raise OSError(errno.EBADF, 'File descriptor was closed in another greenlet')

    def recv(self, size, flags=0):
        while True:
            self._check()
            try:
                return self._s.recv(size, flags | MSG_DONTWAIT)
            except BlockingIOError:
                if flags & MSG_DONTWAIT:
                    raise
            self._wait('r', self.timeout)

    def send(self, data, flags=0, timeout=-1):
        if timeout == -1:
            timeout = self.timeout
        self._check()
        try:
            return self._s.send(data, flags | MSG_DONTWAIT)
        except BlockingIOError:
            if flags & MSG_DONTWAIT or timeout == 0.0:
                raise
        self._wait('w', timeout)
        self._check()
        try:
            return self._s.send(data, flags | MSG_DONTWAIT)
        except BlockingIOError:
            return 0

    def sendall(self, data, flags=0):
        data = bytes(data)
        sim = engine.SIM
        end = None if self.timeout is None else sim.now + engine.ticks(self.timeout)
        i = 0
        while i < len(data):
            left = self.timeout
            if end is not None and self.timeout:
                left = engine.seconds(end - sim.now)
                if left <= 0:
                    raise _socket.timeout('timed out')
            i += self.send(data[i:], flags, left)

    def close(self):
        if not self.dead:
            self.dead = True
            self._s.close()

    def fileno(self):
        return -1 if self.dead else self._s.fd

    def getpeername(self):
        self._check()
        return self._s.getpeername()

    def getsockname(self):
        self._check()
        return self._s.getsockname()


class BaseServer(object):

    def __init__(self, listener, handle=None, spawn='default'):
        self._listener = listener
        if handle is not None:
            self.handle = handle
        self.started = False
        self.delay = MIN_DELAY

    @property
    def socket(self):
        return self._listener

    def start(self):
        if self.started:
            return
        self.started = True
        self._listener.setblocking(0)
        engine.SIM.spawn(self._accepting, 'accepting')

    def _accepting(self):
        sim = engine.SIM
        listener = self._listener
        while self.started:
            sim.block(lambda: listener.closed or listener.queue)
            for _ in range(MAX_ACCEPT):
                try:
                    sock, addr = listener.accept()
                except BlockingIOError:
                    self.delay = MIN_DELAY
                    break
                except OSError as exc:
                    if exc.errno in (errno.EBADF, errno.EINVAL, errno.ENOTSOCK):
                        self.started = False
                        return
                    sim.block(None, sim.now + engine.ticks(self.delay))
                    self.delay = min(MAX_DELAY, self.delay * 2)
                    break
                self.delay = MIN_DELAY
                Greenlet.spawn(self._handle_and_close, Socket(sock), addr)

    def _handle_and_close(self, sock, addr):
        try:
            return self.handle(sock, addr)
        finally:
            self.do_close(sock, addr)

    def do_close(self, sock, *args):
        sock.close()

    def serve_forever(self, stop_timeout=None):
        self.start()
        engine.SIM.block(lambda: not self.started)

    def stop(self, timeout=None):
        self.started = False

    close = stop


class StreamServer(BaseServer):

    def __init__(self, listener, handle=None, backlog=None, spawn='default', **ssl_args):
        BaseServer.__init__(self, listener, handle, spawn)


class wrap_errors(object):

    def __init__(self, errors, func):
        self.errors, self.func = errors, func

    def __call__(self, *args, **kwargs):
        try:
            return self.func(*args, **kwargs)
        except engine.SimKilled:
            raise
        except self.errors as exc:
            return exc


def install():
    """Makes `import gevent` find these stand-ins in this process."""
    me = sys.modules[__name__]

    def module(name, *names):
        m = types.ModuleType(name)
        for n in names:
            setattr(m, n, getattr(me, n))
        sys.modules[name] = m
        return m
    root = module('gevent', 'spawn', 'sleep', 'Timeout', 'with_timeout', 'Greenlet', 'GreenletExit', 'idle', 'joinall')
    root.__path__ = []
    root.lock = module('gevent.lock', 'Semaphore', 'RLock')
    root.lock.BoundedSemaphore = Semaphore
    root.server = module('gevent.server', 'StreamServer')
    root.util = module('gevent.util', 'wrap_errors')
    root.timeout = module('gevent.timeout', 'Timeout', 'with_timeout')
    root.greenlet = module('gevent.greenlet', 'Greenlet')
    root.socket = module('gevent.socket')
    for name in ('error', 'timeout', 'AF_INET', 'SOCK_STREAM', 'MSG_DONTWAIT', 'MSG_WAITALL'):
        setattr(root.socket, name, getattr(_socket, name))
    root.socket.wait_write = lambda fileno, timeout=None, *a: None
