"""Simulated processes: fork(), descriptors, pipes, exits, signals, wait.

A forked child starts over: a task of its own calls what its parent was told to
run by the scenario once more, and every call before fork() which made
something (pipes, socket pairs) returns duplicates of what the parent got, so
that both arrive at the same fork().
"""
import errno
import io
import os
import signal

from sim import engine, fs as simfs, net as net_
from sim.engine import SimError
from sim.net import err

PIPE = 65536


class Desc(object):
    """An open file: the end of a pipe, a socket, a sink or the null device."""

    def __init__(self, sock=None, kind='null'):
        self.sock, self.kind = sock, kind
        self.refs = 0
        self.data = bytearray()     # what was written

    def ref(self):
        self.refs += 1
        return self

    def unref(self):
        self.refs -= 1
        if self.refs == 0 and self.sock is not None:
            self.sock.close()

    def write(self, data):
        if self.kind == 'null':
            return len(data)
        if self.kind == 'sink':
            self.data += data
            return len(data)
        if self.kind != 'write':
            raise err(errno.EBADF)
        self.sock._wait(self.sock._sendable)
        try:
            n = self.sock.send(data, net_.MSG_DONTWAIT)
        except OSError as exc:
            raise err(errno.EPIPE if exc.errno != errno.EAGAIN else exc.errno)
        self.data += data[:n]
        return n

    def read(self, n):
        if self.kind == 'null':
            return b''
        if self.kind != 'read':
            raise err(errno.EBADF)
        return self.sock.recv(n)


class ProcSocket(object):
    """What one process sees of a socket."""

    def __init__(self, desc, fd):
        self.desc, self.fd = desc.ref(), fd
        self.gone = False

    def fileno(self):
        return -1 if self.gone else self.fd

    def close(self):
        if not self.gone:
            self.gone = True
            self.desc.unref()

    def __getattr__(self, name):
        if self.gone and name not in ('timeout', 'family', 'type', 'proto'):
            raise err(errno.EBADF)
        return getattr(self.desc.sock, name)

    def __repr__(self):
        return '<ProcSocket fd=%d>' % self.fileno()


class Proc(object):

    def __init__(self, pid, fds=(), replay=()):
        self.pid = pid
        self.fds = dict((fd, d.ref()) for fd, d in fds)
        self.replay = list(replay)
        self.made = []
        self.sockets = []
        self.held = []              # duplicates which the child has not come to yet
        self.forked = False
        self.status = None
        self.reaped = False
        self.ended_at = None

    @property
    def dead(self):
        return self.status is not None


class Procs(simfs.FS):
    """The file system and the process table."""

    def __init__(self, sim, net, body):
        super(Procs, self).__init__(sim)
        self.net, self.body = net, body
        self.sinks = {1: Desc(kind='sink'), 2: Desc(kind='sink')}
        self.first = Proc(100, [(0, Desc()), (1, self.sinks[1]), (2, self.sinks[2])])
        self.child = None
        self.pipes = []
        self.killed = []            # [(time, signal, dead before)]
        sim.keep = []
        sim.hooks['fs'] = self
        sim.cur.data['proc'] = self.first
        for name in ('fork', 'pipe', 'dup2', 'waitpid', '_exit'):
            sim.hooks['os.' + name] = getattr(self, 'sys_' + name.strip('_'))
        sim.hooks['socket.socketpair'] = self.socketpair
        sim.hooks['kill'] = self.kill
        sim.hooks['default_signal'] = self.die_by
        sim.hooks['proc'] = self

    @property
    def cur(self):
        return self.sim.cur.data['proc']

    # -- descriptors -----------------------------------------------------------------------

    def owns(self, path):
        return path == os.devnull or super(Procs, self).owns(path)

    def has_fd(self, fd):
        return fd in self.cur.fds or super(Procs, self).has_fd(fd)

    def open_fd(self, path, flags, *args, **kwargs):
        if path != os.devnull:
            return super(Procs, self).open_fd(path, flags, *args, **kwargs)
        fd = 60
        while fd in self.cur.fds:
            fd += 1
        self.cur.fds[fd] = Desc().ref()
        return fd

    def desc(self, fd):
        d = self.cur.fds.get(fd)
        return d if d is not None else super(Procs, self).desc(fd)

    def write_to(self, f, data):
        if isinstance(f, Desc):
            return f.write(bytes(data))
        return super(Procs, self).write_to(f, data)

    def read_from(self, f, size):
        if isinstance(f, Desc):
            return f.read(size)
        return super(Procs, self).read_from(f, size)

    def close_fd(self, fd):
        d = self.cur.fds.pop(fd, None)
        if d is None:
            return super(Procs, self).close_fd(fd)
        d.unref()

    def open(self, file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        d = self.cur.fds.get(file) if isinstance(file, int) else None
        if d is None:
            return super(Procs, self).open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        raw = RawPipe(self, file, closefd)
        if buffering == 0:
            return raw
        buf = io.BufferedReader(raw) if 'r' in mode else io.BufferedWriter(raw)
        self.sim.keep.append(buf)
        if 'b' in mode:
            return buf
        text = io.TextIOWrapper(buf, encoding or 'utf-8', errors, newline)
        self.sim.keep.append(text)
        return text

    def remember(self, make):
        """In a forked child, what its parent made before the fork."""
        if self.cur.replay:
            return self.cur.replay.pop(0)
        x = make()
        self.cur.made.append(x)
        return x

    def sys_pipe(self):
        def make():
            caps, self.net.caps = self.net.caps, (PIPE,)
            r, w = self.net.socketpair()
            self.net.caps = caps
            for d in (Desc(r, 'read'), Desc(w, 'write')):
                self.pipes.append(d)
                self.cur.fds[d.sock.fd] = d.ref()
            return r.fd, w.fd
        return self.remember(make)

    def socketpair(self, *args, **kwargs):
        def make():
            return [(Desc(s, 'sock'), s.fd) for s in self.net.socketpair()]
        cur, socks = self.cur, []
        for d, fd in self.remember(make):
            socks.append(ProcSocket(d, fd))
            if d in cur.held:
                cur.held.remove(d)
                d.unref()
        cur.sockets.extend(socks)
        return tuple(socks)

    def sys_dup2(self, fd, fd2, inheritable=True):
        d = self.desc(fd).ref()
        old = self.cur.fds.pop(fd2, None)
        if old is not None:
            old.unref()
        self.cur.fds[fd2] = d
        return fd2

    # -- processes -------------------------------------------------------------------------

    def sys_fork(self):
        sim = self.sim
        if self.cur is self.child:
            if self.child.replay:
                raise SimError('fork with %r left' % self.child.replay)
            if self.child.forked:
                raise SimError('a fork of the forked')
            self.child.forked = True
            return 0
        if self.child is not None:
            raise SimError('a second fork')
        parent = self.cur
        child = self.child = Proc(101, parent.fds.items(), parent.made)
        # the duplicates of sockets exist from now on
        child.held = [d.ref() for s in parent.sockets if not s.gone for d in [s.desc]]
        task = sim.cur
        task.main = False
        new = sim.spawn(self.child_body, 'program', main=True)
        new.data['proc'] = child
        new.data['end_sim'] = False
        return child.pid

    def child_body(self):
        child = self.child
        status = 1
        try:
            status = self.body()
        except KeyboardInterrupt:
            # the interpreter is finishing
            pass
        self.leave(child, (status & 0xff) << 8, False)

    def leave(self, proc, status, block=True):
        """The process is gone."""
        sim = self.sim
        if proc.dead:
            return
        proc.status, proc.ended_at = status, sim.now
        sim.log('exit', proc.pid, status)
        sim.itimer = (engine.FOREVER, 0)
        del sim.pending[:]
        sim.handlers.clear()
        for d in list(proc.fds.values()):
            d.unref()
        proc.fds.clear()
        for s in proc.sockets:
            s.close()
        for d in proc.held:
            d.unref()
        me = sim.cur
        for t in sim.tasks:
            if t.data.get('proc') is proc and t is not me and t.state != engine.Task.DONE:
                # never runs again
                t.state, t.pred, t.deadline, t.interruptible = engine.Task.BLOCKED, None, None, False
        if sim.main_task.data.get('proc') is proc:
            sim.main_task.interruptible = False
        if me.data.get('proc') is proc and block:
            sim.setprofile(None)
            while True:
                sim.block(lambda: False, None, False)

    def sys_exit(self, code):
        self.leave(self.cur, (code & 0xff) << 8)

    def die_by(self, signum):
        """The default action of a signal to the child."""
        self.leave(self.child, int(signum))

    def sys_waitpid(self, pid, options):
        child = self.child
        if child is None or pid not in (child.pid, -1) or child.reaped:
            raise err(errno.ECHILD)
        if not child.dead:
            if options & os.WNOHANG:
                return 0, 0
            self.sim.block(lambda: child.dead)
        child.reaped = True
        return child.pid, child.status

    def kill(self, pid, signum):
        sim, child = self.sim, self.child
        if child is None or pid != child.pid or child.reaped:
            self.killed.append((sim.now, int(signum), 'reaped'))
            raise err(errno.ESRCH)
        sim.log('kill', pid, int(signum))
        self.killed.append((sim.now, int(signum), 'dead' if child.dead else 'alive'))
        self.signal_child(signum)

    def signal_child(self, signum):
        child = self.child
        if child.dead or not signum:
            return
        if signum in (signal.SIGKILL, signal.SIGSEGV) or self.sim.getsignal(signum) == signal.SIG_DFL:
            # the kernel does not wait for the interpreter
            self.die_by(signum)
        else:
            self.sim.post_signal(signum)


class RawPipe(io.RawIOBase):

    def __init__(self, procs, fd, closefd):
        super(RawPipe, self).__init__()
        self.procs, self.fd, self.d, self.closefd = procs, fd, procs.desc(fd), closefd

    def fileno(self):
        return self.fd

    def readable(self):
        return self.d.kind == 'read'

    def writable(self):
        return self.d.kind == 'write'

    def readinto(self, b):
        data = self.d.read(len(b))
        b[:len(data)] = data
        return len(data)

    def write(self, b):
        return self.d.write(bytes(b))

    def close(self):
        if not self.closed:
            sim = engine.SIM
            if self.closefd and sim is self.procs.sim and not sim.killing:
                self.procs.close_fd(self.fd)
            io.RawIOBase.close(self)


class Std(object):
    """sys.stdin, stdout or stderr: whatever the descriptor of the current
    process stands for."""

    encoding, errors, closed = 'utf-8', 'strict', False

    class Buffer(object):

        def __init__(self, procs, fd):
            self.procs, self.fd = procs, fd

        def write(self, data):
            data = bytes(data)
            n = len(data)
            while data:
                data = data[self.procs.desc(self.fd).write(data):]
            return n

        def flush(self):
            pass

    def __init__(self, procs, fd):
        self.buffer = Std.Buffer(procs, fd)
        self.fd = fd

    def fileno(self):
        return self.fd

    def write(self, text):
        if not isinstance(text, str):
            raise TypeError('text expected')
        sim = engine.SIM
        if sim is not None and not sim.killing:
            self.buffer.write(text.encode('utf-8', 'surrogateescape'))
        return len(text)

    def flush(self):
        pass

    def isatty(self):
        return True
