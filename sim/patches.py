"""Replaces every source of nondeterminism in the standard library by the
simulator.  install() must run before the code under test is imported.  Outside
of a simulation every replacement does what the original does."""
import _thread
import gc
import inspect
import itertools
import os
import select
import signal
import sys
import threading
import time

from sim import engine
from sim.engine import seconds, ticks
from sim.locks import SimLock, SimRLock

REAL = {}


class Clock(object):
    """A clock as a plain callable object (not a descriptor)."""

    def __init__(self, read, real, ns=False):
        self.read, self.real, self.ns = read, real, ns

    def __call__(self):
        sim = engine.SIM
        if sim is None:
            return self.real()
        t = self.read(sim)
        task = sim.cur
        if task is not None and task.in_callback:
            task.reads += 1
            if task.reads == 1 and sim.read_cost:
                sim.burn(sim.read_cost)
        if self.ns:
            return int(t * 1000000000) // engine.TICKS
        return t / float(engine.TICKS)


def read_cpu(sim):
    hook = sim.hooks.get('cpu_clock')
    if hook is not None:
        return hook(sim)
    return sim.cpu + sim.cpu_off


def read_thread(sim):
    return sim.cur.cpu


def read_mono(sim):
    return sim.now


def read_wall(sim):
    hook = sim.hooks.get('wall_clock')
    if hook is not None:
        return hook(sim)
    return sim.now + sim.wall_off


CLOCK_IDS = {}


def _clock_gettime(clock_id):
    sim = engine.SIM
    if sim is None:
        return REAL['time.clock_gettime'](clock_id)
    try:
        return CLOCK_IDS[clock_id]()
    except KeyError:
        raise engine.SimError('clock %r not simulated' % clock_id)


def _sleep(sec):
    sim = engine.SIM
    if sim is None:
        return REAL['time.sleep'](sec)
    if sec < 0:
        raise ValueError('sleep length must be non-negative')
    sim.sleep(ticks(sec))


def _start_new_thread(function, args, kwargs={}):
    sim = engine.SIM
    if sim is None:
        return REAL['_thread.start_new_thread'](function, args, kwargs)
    if sim.killing:
        raise engine.SimKilled
    task = sim.spawn(lambda: function(*args, **kwargs))
    sim.count('threads')
    return task.ident


def _get_ident():
    sim = engine.SIM
    if sim is None or sim.cur is None:
        return REAL['_thread.get_ident']()
    return sim.cur.ident


def _set_sentinel():
    lock = SimLock()
    sim = engine.SIM
    if sim is not None:
        sim.cur.sentinel = lock
    return lock


def _setprofile(func):
    sim = engine.SIM
    if sim is None:
        return REAL['sys.setprofile'](func)
    hook = sim.hooks.get('setprofile')
    if hook is not None:
        hook(func)
    sim.setprofile(func)


def _getprofile():
    sim = engine.SIM
    if sim is None:
        return REAL['sys.getprofile']()
    return sim.getprofile()


def _current_frames():
    sim = engine.SIM
    frames = REAL['sys._current_frames']()
    if sim is None:
        return frames
    out = {}
    for task in sim.tasks:
        f = frames.get(task.real_ident)
        if f is not None and task.state != engine.Task.DONE:
            while f is not None and f.f_code.co_filename.startswith(engine.SIMDIR):
                f = f.f_back
            if f is not None:
                out[task.ident] = f
    return out


def _signal(signum, handler):
    sim = engine.SIM
    if sim is None:
        return REAL['signal.signal'](signum, handler)
    hook = sim.hooks.get('signal')
    if hook is not None:
        hook(signum, handler)
    return sim.signal(signum, handler)


def _getsignal(signum):
    sim = engine.SIM
    if sim is None:
        return REAL['signal.getsignal'](signum)
    return sim.getsignal(signum)


def _setitimer(which, value, interval=0.0):
    sim = engine.SIM
    if sim is None:
        raise engine.SimError('setitimer outside of the simulation')
    if value < 0 or interval < 0:
        raise signal.ItimerError(22, 'Invalid argument')
    if which != signal.ITIMER_PROF:
        raise engine.SimError('itimer %r not simulated' % which)
    hook = sim.hooks.get('setitimer')
    if hook is not None:
        hook(which, value, interval)
    return sim.setitimer(which, value, interval)


def _getitimer(which):
    sim = engine.SIM
    if sim is None:
        return REAL['signal.getitimer'](which)
    if which != signal.ITIMER_PROF:
        raise engine.SimError('itimer %r not simulated' % which)
    return sim.getitimer(which)


def _set_wakeup_fd(fd, **kwargs):
    if engine.SIM is None:
        return REAL['signal.set_wakeup_fd'](fd, **kwargs)
    return -1


def _kill(pid, signum):
    sim = engine.SIM
    if sim is None:
        raise engine.SimError('kill outside of the simulation')
    if pid == sim.hooks.get('pid', REAL_PID):
        hook = sim.hooks.get('kill_self')
        if hook is not None:
            return hook(signum)
        sim.count('kill-self')
        sim.post_signal(signum)
        return
    hook = sim.hooks.get('kill')
    if hook is None:
        raise engine.SimError('kill(%r, %r)' % (pid, signum))
    return hook(pid, signum)


def _raise_signal(signum):
    sim = engine.SIM
    if sim is None:
        raise engine.SimError('raise_signal outside of the simulation')
    hook = sim.hooks.get('kill_self')
    if hook is not None:
        return hook(signum)
    sim.post_signal(signum, sim.cur.main)


def _pthread_kill(ident, signum):
    sim = engine.SIM
    if sim is None:
        raise engine.SimError('pthread_kill outside of the simulation')
    sim.post_signal(signum, sim.main_task is None or ident == sim.main_task.ident)


#: modules by the file name of their code, for the duration of a run
MODULES = {}
_modules = {}


def _getmodule(object, _filename=None):
    """inspect.getmodule() searches all modules, by Python code; this one
    remembers (and costs no events)."""
    filename = getattr(object, 'co_filename', None)
    if filename is None:
        return REAL['inspect.getmodule'](object, _filename)
    if filename in MODULES:
        return MODULES[filename]
    if filename not in _modules:
        sim = engine.SIM
        if sim is not None:
            sim.quiet += 1
        try:
            _modules[filename] = REAL['inspect.getmodule'](object, _filename)
        finally:
            if sim is not None:
                sim.quiet -= 1
    return _modules[filename]


REAL_PID = os.getpid()


def hooked(name, real):
    """A function that is real outside of a simulation, and inside only if a
    scenario provides a stand-in."""
    def stand_in(*args, **kwargs):
        sim = engine.SIM
        if sim is None:
            return real(*args, **kwargs)
        hook = sim.hooks.get(name)
        if hook is None:
            raise engine.SimError('%s is not simulated here' % name)
        return hook(*args, **kwargs)
    stand_in.__name__ = name.rsplit('.', 1)[-1]
    return stand_in


def _threading_excepthook(args):
    if args.exc_type is engine.SimKilled:
        return
    sim = engine.SIM
    if sim is None:
        return REAL['threading.excepthook'](args)
    import traceback
    tb = ''.join(traceback.format_exception(args.exc_type, args.exc_value, args.exc_traceback))
    sim.task_excs.append((sim.cur.name, args.exc_value, tb))
    sim.log('thread-exception', args.exc_type.__name__, str(args.exc_value))


def patch(obj, name, new, key=None):
    key = key or '%s.%s' % (obj.__name__, name)
    if key not in REAL:
        REAL[key] = getattr(obj, name, None)
    setattr(obj, name, new)


def warm_up():
    """What Python code caches at its first use."""
    import pickle
    for enc in ('utf-8', 'utf8', 'ascii', 'latin-1', 'raw-unicode-escape', 'UTF-8'):
        u'x'.encode(enc).decode(enc)
        u'x'.encode(enc, 'surrogateescape')
    u'x'.encode('utf-8', 'surrogatepass')
    for protocol in range(pickle.HIGHEST_PROTOCOL + 1):
        pickle.loads(pickle.dumps((u'\xe4\u20ac', b'x', 1, 1 << 80, 1.5, None, [1], {1: 2}, min), protocol))


def install():
    if REAL:
        return
    warm_up()
    R = lambda n: getattr(time, n, None)
    clocks = {
        'clock': read_cpu, 'process_time': read_cpu, 'thread_time': read_thread,
        'monotonic': read_mono, 'perf_counter': read_mono, 'time': read_wall,
    }
    REAL['time.real'] = time.time
    REAL['time.mono'] = time.monotonic
    objs = {}
    for name, read in clocks.items():
        if R(name) is None:
            continue
        objs[name] = Clock(read, R(name))
        if R(name + '_ns') is not None:
            patch(time, name + '_ns', Clock(read, R(name + '_ns'), ns=True))
        patch(time, name, objs[name])
    for cid, name in [('CLOCK_THREAD_CPUTIME_ID', 'thread_time'),
                      ('CLOCK_PROCESS_CPUTIME_ID', 'process_time'),
                      ('CLOCK_MONOTONIC', 'monotonic'), ('CLOCK_REALTIME', 'time'),
                      ('CLOCK_MONOTONIC_RAW', 'monotonic'), ('CLOCK_BOOTTIME', 'monotonic')]:
        if hasattr(time, cid):
            CLOCK_IDS[getattr(time, cid)] = objs.get(name) or objs['clock']
    if 'thread_time' not in objs:
        CLOCK_IDS[time.CLOCK_THREAD_CPUTIME_ID] = Clock(
            read_thread, lambda: REAL['time.clock_gettime'](time.CLOCK_THREAD_CPUTIME_ID))
    patch(time, 'clock_gettime', _clock_gettime)
    patch(time, 'sleep', _sleep)

    patch(_thread, 'start_new_thread', _start_new_thread)
    patch(_thread, 'start_new', _start_new_thread)
    patch(_thread, 'allocate_lock', SimLock)
    patch(_thread, 'allocate', SimLock)
    patch(_thread, 'RLock', SimRLock)
    patch(_thread, 'get_ident', _get_ident)
    patch(_thread, '_set_sentinel', _set_sentinel)
    for name, new in [('_start_new_thread', _start_new_thread), ('_allocate_lock', SimLock),
                      ('Lock', SimLock), ('_set_sentinel', _set_sentinel),
                      ('get_ident', _get_ident), ('_CRLock', SimRLock), ('RLock', SimRLock),
                      ('_time', objs['monotonic']), ('excepthook', _threading_excepthook)]:
        patch(threading, name, new)
    threading._active_limbo_lock = SimRLock()
    threading._shutdown_locks_lock = SimRLock()
    threading._main_thread._started._cond = threading.Condition(SimLock())

    patch(sys, 'setprofile', _setprofile)
    patch(sys, 'getprofile', _getprofile)
    patch(sys, '_current_frames', _current_frames)

    patch(signal, 'signal', _signal)
    patch(signal, 'getsignal', _getsignal)
    patch(signal, 'setitimer', _setitimer)
    patch(signal, 'getitimer', _getitimer)
    patch(signal, 'set_wakeup_fd', _set_wakeup_fd)
    if hasattr(signal, 'raise_signal'):
        patch(signal, 'raise_signal', _raise_signal)
    patch(signal, 'pthread_kill', _pthread_kill)
    patch(os, 'kill', _kill)
    for name in ('fork', 'pipe', 'dup2', 'waitpid', '_exit'):
        patch(os, name, hooked('os.' + name, getattr(os, name)))
    patch(os, 'killpg', hooked('os.killpg', os.killpg))
    patch(select, 'select', hooked('select.select', select.select))
    for name in ('poll', 'epoll'):
        patch(select, name, hooked('select.' + name, getattr(select, name)))
    patch(inspect, 'getmodule', _getmodule)
    from sim import fs, net
    net.install(patch, hooked)
    fs.install(patch)
    import logging
    logging._lock = SimRLock()
    for ref in list(logging._handlerList):
        handler = ref()
        if handler is not None:
            handler.lock = SimRLock()


class CostlySlot(object):
    """Storing a count or time costs CPU time inside a profiling callback."""

    def __init__(self, slot):
        self.slot = slot

    def __get__(self, obj, cls=None):
        if obj is None:
            return self
        return self.slot.__get__(obj, cls)

    def __set__(self, obj, value):
        sim = engine.SIM
        if sim is not None and sim.store_cost and sim.cur.in_callback:
            sim.burn(sim.store_cost)
        self.slot.__set__(obj, value)


def make_stores_costly():
    from profiling.stats import RecordingStatistics
    for attr in ('own_hits', 'deep_time'):
        slot = RecordingStatistics.__dict__.get(attr)
        if type(slot).__name__ in ('member', 'member_descriptor', 'getset_descriptor'):
            setattr(RecordingStatistics, attr, CostlySlot(slot))


class Session(object):
    """Clean process state around one simulated run."""

    def __enter__(self):
        gc.disable()
        self.active = dict(threading._active)
        threading._profile_hook = None
        threading._counter = itertools.count(1).__next__
        # a WeakSet behaves as the garbage collector does
        threading._dangling = set()
        threading._shutdown_locks.clear()
        return self

    def __exit__(self, *exc_info):
        threading._active.clear()
        threading._active.update(self.active)
        threading._limbo.clear()
        threading._shutdown_locks.clear()
        threading._profile_hook = None
        REAL['sys.setprofile'](None)
