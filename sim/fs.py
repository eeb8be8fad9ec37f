"""A simulated file system below /sim: what a process has handed over to the
operating system is in here, what it still holds in its buffers is not.

Every system call may fail, be short, or be the last thing the process does.
Paths elsewhere go to the real file system (they are only read).
"""
import builtins
import errno
import io
import os
import stat as _stat

from sim import engine

ROOT = '/sim'
FD0 = 700


class Crashed(BaseException):
    """The process is gone; nothing it does has an effect any more."""


def err(code, path=None):
    return OSError(code, os.strerror(code), path)


class Inode(object):

    def __init__(self, fs):
        self.data = bytearray()
        self.mtime = fs.now()
        self.mode = _stat.S_IFREG | 0o644
        self.fs = fs
        fs.serial += 1
        self.ino = fs.serial

    def stat(self):
        t = self.mtime
        return os.stat_result((self.mode, self.ino, 1, 1, 0, 0, len(self.data), int(t), int(t), int(t)),
                              dict(st_atime=t, st_mtime=t, st_ctime=t))


class Open(object):
    """An open file description."""

    def __init__(self, fs, inode, flags, path):
        self.fs, self.inode, self.flags, self.path = fs, inode, flags, path
        self.pos = 0
        self.written = False
        self.proc = fs.proc


class Process(object):

    def __init__(self, name):
        self.name = name
        self.dead = False
        self.fds = {}


class FS(object):

    def __init__(self, sim):
        self.sim = sim
        self.serial = 0
        self.files = {}
        self.dirs = set([ROOT])
        self.proc = Process('p0')
        self.policy = None          # fn(op, path, size) -> None, ('errno', e), ('short', n), ('crash', before)
        self.capacity = engine.FOREVER
        self.calls = 0

    def now(self):
        return (self.sim.now + self.sim.wall_off) / float(engine.TICKS)

    def used(self):
        return sum(len(i.data) for i in self.files.values())

    def owns(self, path):
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        elif hasattr(path, '__fspath__'):
            path = path.__fspath__()
        return isinstance(path, str) and (path == ROOT or path.startswith(ROOT + '/'))

    def norm(self, path):
        return os.path.normpath(os.fsdecode(path))

    # -- every call goes through here -------------------------------------------------

    def enter(self, op, path=None, size=0, proc=None):
        """Returns a limit of the size, or raises."""
        proc = proc or self.proc
        if self.sim.killing:
            raise engine.SimKilled
        if proc.dead:
            raise Crashed
        self.calls += 1
        what = self.policy(op, path, size) if self.policy is not None else None
        if what is None:
            return size, False
        kind, value = what
        self.sim.count('fs-%s-%s' % (op, kind if kind != 'errno' else errno.errorcode[value]))
        self.sim.log('fs', op, path, kind, value)
        if kind == 'errno':
            raise err(value, path)
        if kind == 'short':
            return min(size, value), False
        if kind == 'crash':
            if value == 0 or op != 'write':
                self.crash(proc)
            return min(size, value), True
        raise engine.SimError(kind)

    def crash(self, proc=None):
        (proc or self.proc).dead = True
        raise Crashed

    def alive(self, proc):
        if proc.dead or self.sim.killing:
            raise Crashed

    # -- paths --------------------------------------------------------------------------

    def find(self, path):
        path = self.norm(path)
        inode = self.files.get(path)
        if inode is None:
            if path in self.dirs:
                raise err(errno.EISDIR, path)
            raise err(errno.ENOENT, path)
        return inode

    def stat(self, path, *args, **kwargs):
        path = self.norm(path)
        self.enter('stat', path)
        if path in self.dirs:
            return os.stat_result((_stat.S_IFDIR | 0o755, 1, 1, 1, 0, 0, 0, 0, 0, 0))
        return self.find(path).stat()

    lstat = stat

    def access(self, path, mode, **kwargs):
        path = self.norm(path)
        return path in self.files or path in self.dirs

    def unlink(self, path, **kwargs):
        path = self.norm(path)
        self.enter('unlink', path)
        self.find(path)
        del self.files[path]

    remove = unlink

    def rename(self, a, b, **kwargs):
        a, b = self.norm(a), self.norm(b)
        self.enter('rename', a)
        self.files[b] = self.find(a)
        del self.files[a]

    replace = rename

    def chmod(self, path, mode, **kwargs):
        self.find(path).mode = _stat.S_IFREG | mode

    def utime(self, path, times=None, **kwargs):
        self.find(path).mtime = times[1] if times else self.now()

    def mkdir(self, path, mode=0o777, **kwargs):
        path = self.norm(path)
        self.enter('mkdir', path)
        if path in self.dirs or path in self.files:
            raise err(errno.EEXIST, path)
        self.dirs.add(path)

    def listdir(self, path='.'):
        path = self.norm(path)
        return sorted(p.rsplit('/', 1)[1] for p in list(self.files) + list(self.dirs)
                      if p != path and p.rsplit('/', 1)[0] == path)

    # -- descriptors ----------------------------------------------------------------------

    def open_fd(self, path, flags, mode=0o777, **kwargs):
        path = self.norm(path)
        self.enter('open', path)
        inode = self.files.get(path)
        if inode is None:
            if path in self.dirs:
                raise err(errno.EISDIR, path)
            if path.rsplit('/', 1)[0] not in self.dirs or not flags & os.O_CREAT:
                raise err(errno.ENOENT, path)
            inode = self.files[path] = Inode(self)
        elif flags & os.O_CREAT and flags & os.O_EXCL:
            raise err(errno.EEXIST, path)
        if flags & os.O_TRUNC:
            inode.data = bytearray()
            inode.mtime = self.now()
        fd = FD0
        while fd in self.proc.fds:
            fd += 1
        self.proc.fds[fd] = Open(self, inode, flags, path)
        return fd

    def has_fd(self, fd):
        return fd in self.proc.fds

    def desc(self, fd):
        try:
            return self.proc.fds[fd]
        except KeyError:
            raise err(errno.EBADF)

    def write_to(self, f, data):
        data = bytes(data)
        self.alive(f.proc)
        if not data:
            return 0
        if f.flags & 3 == os.O_RDONLY:
            raise err(errno.EBADF)
        n, crash = self.enter('write', f.path, len(data), f.proc)
        room = self.capacity - self.used()
        buf = f.inode.data
        pos = len(buf) if f.flags & os.O_APPEND else f.pos
        n = min(n, max(0, room + max(0, len(buf) - pos)))
        if n <= 0 and not crash:
            self.sim.count('fs-write-ENOSPC')
            raise err(errno.ENOSPC)
        if pos > len(buf):
            buf.extend(b'\0' * (pos - len(buf)))
        buf[pos:pos + n] = data[:n]
        f.pos = pos + n
        f.written = f.written or n > 0
        f.inode.mtime = self.now()
        if n < len(data):
            self.sim.count('fs-short-write')
        if crash:
            self.crash(f.proc)
        return n

    def read_from(self, f, size):
        self.alive(f.proc)
        n, _ = self.enter('read', f.path, size, f.proc)
        data = bytes(f.inode.data[f.pos:f.pos + max(1, n)]) if size else b''
        f.pos += len(data)
        return data

    def close_fd(self, fd):
        f = self.desc(fd)
        self.alive(f.proc)
        del self.proc.fds[fd]
        try:
            self.enter('close', f.path, 0, f.proc)
        except OSError:
            # what was written late is lost
            if f.written:
                self.lost(f)
            raise

    def lost(self, f):
        data = f.inode.data
        del data[max(0, len(data) - 1 - self.sim.s.small(len(data))):]

    def seek_in(self, f, pos, how):
        base = {0: 0, 1: f.pos, 2: len(f.inode.data)}[how]
        if base + pos < 0:
            raise err(errno.EINVAL)
        f.pos = base + pos
        return f.pos

    def truncate_to(self, f, size):
        self.alive(f.proc)
        self.enter('truncate', f.path, 0, f.proc)
        data = f.inode.data
        if size < len(data):
            del data[size:]
        else:
            data.extend(b'\0' * (size - len(data)))
        f.inode.mtime = self.now()

    # -- file objects -----------------------------------------------------------------------

    def open(self, file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True,
             opener=None):
        kinds = [c for c in mode if c in 'rwax']
        if len(kinds) != 1:
            raise ValueError('invalid mode: %r' % mode)
        plus = '+' in mode
        if isinstance(file, int):
            fd = file
            self.desc(fd)
        else:
            flags = {'r': 0, 'w': os.O_CREAT | os.O_TRUNC, 'a': os.O_CREAT | os.O_APPEND,
                     'x': os.O_CREAT | os.O_EXCL}[kinds[0]]
            flags |= os.O_RDWR if plus else os.O_RDONLY if kinds[0] == 'r' else os.O_WRONLY
            if opener is not None:
                fd = opener(file, flags)
            else:
                fd = self.open_fd(file, flags)
        raw = Raw(self, fd, file, kinds[0], plus, closefd)
        if buffering == 0:
            if 'b' not in mode:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
        if plus:
            buf = io.BufferedRandom(raw, size)
        elif kinds[0] == 'r':
            buf = io.BufferedReader(raw, size)
        else:
            buf = io.BufferedWriter(raw, size)
        self.sim.keep.append(buf)       # never left to the garbage collector
        if 'b' in mode:
            return buf
        text = io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)
        text.mode = mode
        self.sim.keep.append(text)
        return text


class Raw(io.RawIOBase):
    """A file of the simulated system."""

    def __init__(self, fs, fd, name, kind, plus, closefd):
        super(Raw, self).__init__()
        self.fs, self.fd, self.name, self.closefd = fs, fd, name, closefd
        self.f = fs.desc(fd)
        self.mode = {'r': 'rb', 'w': 'wb', 'a': 'ab', 'x': 'xb'}[kind] + ('+' if plus else '')
        self._r, self._w = kind == 'r' or plus, kind != 'r' or plus
        if kind == 'a':
            self.f.pos = len(self.f.inode.data)

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def fileno(self):
        return self.fd

    def isatty(self):
        return False

    def readinto(self, b):
        data = self.fs.read_from(self.f, len(b))
        b[:len(data)] = data
        return len(data)

    def write(self, b):
        return self.fs.write_to(self.f, b)

    def seek(self, pos, how=0):
        return self.fs.seek_in(self.f, pos, how)

    def tell(self):
        return self.f.pos

    def truncate(self, size=None):
        size = self.f.pos if size is None else size
        self.fs.truncate_to(self.f, size)
        return size

    def close(self):
        if self.closed:
            return
        if self.f.proc.dead or engine.SIM is not self.fs.sim or engine.SIM.killing:
            io.RawIOBase.close(self)
            return
        try:
            if self.closefd:
                self.fs.close_fd(self.fd)
        finally:
            io.RawIOBase.close(self)


def current():
    sim = engine.SIM
    return None if sim is None else sim.hooks.get('fs')


def install(patch):

    def by_path(name, method, real):
        def stand_in(path, *args, **kwargs):
            fs = current()
            if fs is not None and fs.owns(path):
                return getattr(fs, method)(path, *args, **kwargs)
            return real(path, *args, **kwargs)
        stand_in.__name__ = name
        return stand_in

    def by_fd(name, method, real):
        def stand_in(fd, *args, **kwargs):
            fs = current()
            if fs is not None and isinstance(fd, int) and fs.has_fd(fd):
                return method(fs, fd, *args, **kwargs)
            return real(fd, *args, **kwargs)
        stand_in.__name__ = name
        return stand_in

    real_open = io.open

    def open(file, *args, **kwargs):
        fs = current()
        if fs is not None and (fs.has_fd(file) if isinstance(file, int) else fs.owns(file)):
            return fs.open(file, *args, **kwargs)
        return real_open(file, *args, **kwargs)

    patch(io, 'open', open)
    patch(builtins, 'open', open)
    import tokenize
    patch(tokenize, '_builtin_open', open)
    for name, method in [('stat', 'stat'), ('lstat', 'lstat'), ('access', 'access'), ('unlink', 'unlink'),
                         ('remove', 'unlink'), ('rename', 'rename'), ('replace', 'rename'), ('chmod', 'chmod'),
                         ('utime', 'utime'), ('mkdir', 'mkdir'), ('listdir', 'listdir'), ('open', 'open_fd')]:
        patch(os, name, by_path(name, method, getattr(os, name)))
    for name, method in [
            ('write', lambda fs, fd, data: fs.write_to(fs.desc(fd), data)),
            ('read', lambda fs, fd, n: fs.read_from(fs.desc(fd), n)),
            ('close', lambda fs, fd: fs.close_fd(fd)),
            ('fsync', lambda fs, fd: fs.enter('fsync', fs.desc(fd).path) and None),
            ('fdatasync', lambda fs, fd: fs.enter('fsync', fs.desc(fd).path) and None),
            ('fstat', lambda fs, fd: fs.desc(fd).inode.stat()),
            ('ftruncate', lambda fs, fd, n: fs.truncate_to(fs.desc(fd), n)),
            ('lseek', lambda fs, fd, pos, how: fs.seek_in(fs.desc(fd), pos, how)),
            ('isatty', lambda fs, fd: False),
            ('fchmod', lambda fs, fd, mode: setattr(fs.desc(fd).inode, 'mode', _stat.S_IFREG | mode))]:
        patch(os, name, by_fd(name, method, getattr(os, name)))


def use(sim):
    sim.keep = []
    fs = FS(sim)
    sim.hooks['fs'] = fs
    return fs
