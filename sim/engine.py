"""The deterministic simulator: tasks, scheduler, simulated time, signals.

Tasks are real threads of which exactly one runs at any time; every other one
is parked on its own lock.  Control changes hands only in `pt()` (a scheduling
point), in blocking operations of the simulator and at task ends, and the next
task is always drawn from the run's choice sequence.
"""
import _thread
import signal as _signal
import sys
import threading
import traceback

from sim.choices import Stream

SIMDIR = __file__.rsplit('/', 1)[0] + '/'

#: ticks per simulated second (dyadic, so that sums of times are exact floats)
TICKS = 1 << 20
FOREVER = 1 << 62

#: its module locks come and go with the garbage collector
IMPORTER = ('<frozen importlib._bootstrap>', '<frozen importlib._bootstrap_external>')

_alloc = _thread.allocate_lock
_start = _thread.start_new_thread
_ident = _thread.get_ident
_setprofile = sys.setprofile
_getprofile = sys.getprofile

#: the running simulation, or None
SIM = None


def _frames(f):
    while f is not None:
        yield f
        f = f.f_back


class SimKilled(BaseException):
    """Unwinds the tasks of a finished simulation."""


class SimError(Exception):
    """The simulator itself (not the code under test) is at fault."""


def seconds(ticks):
    return ticks / float(TICKS)


def ticks(sec):
    return int(round(sec * TICKS))


def pt():
    """A scheduling point."""
    sim = SIM
    if sim is None:
        return
    sim.n += 1
    if sim.n < sim.next_at:
        return
    sim._slow_point()


def ptv(value):
    """A scheduling point after a call; passes the value through."""
    sim = SIM
    if sim is None:
        return value
    sim.n += 1
    if sim.n < sim.next_at:
        return value
    sim._slow_point()
    return value


class ThreadState(object):
    """What the greenlets of one thread share."""

    def __init__(self):
        self.cpu = 0                # thread CPU clock in ticks
        self.ident = None
        self.profile_func = None


class Task(object):

    RUN, BLOCKED, DONE = range(3)

    def __init__(self, sim, name, main=False, fn=None, thread=None):
        self.sim = sim
        self.thread = thread or ThreadState()
        self.name = name
        self.main = main            # receives signals
        self.fn = fn
        self.lock = _alloc()
        self.lock.acquire()
        self.state = Task.RUN
        self.pred = None
        self.deadline = None
        self.interruptible = False
        self.real_ident = None
        self.sentinel = None
        self.no_profile = 0
        self.in_callback = 0
        self.reads = 0
        self.daemon = True
        self.exc = None
        self.data = {}
        self.coop = False           # never preempted at points

    for _attr in ('cpu', 'ident', 'profile_func'):
        locals()[_attr] = property(lambda self, a=_attr: getattr(self.thread, a),
                                   lambda self, v, a=_attr: setattr(self.thread, a, v))

    def ready(self):
        if self.state == Task.RUN:
            return True
        if self.state != Task.BLOCKED:
            return False
        if self.pred is not None:
            # a predicate of a check is none of the program's code
            self.sim.quiet += 1
            try:
                if self.pred():
                    return True
            finally:
                self.sim.quiet -= 1
        if self.deadline is not None and self.deadline <= self.sim.now:
            return True
        return self.main and self.interruptible and self.sim.signal_wakes()


class Sim(object):

    MAX_POINTS = 20000000

    def __init__(self, choices, preempt=0, horizon=None, max_points=None,
                 cpu0=0, wall0=0):
        self.choices = choices
        self.w = Stream(choices, 'w')
        self.s = Stream(choices, 's')
        self.preempt_mean = preempt
        self.horizon = horizon
        self.max_points = max_points or self.MAX_POINTS
        self.n = 0
        self.next_at = 1
        self.pre_at = FOREVER
        self.sig_at = FOREVER
        self.int_at = FOREVER
        self.int_mean = 0           # mean number of points between calls of int_fn
        self.int_fn = None
        self.now = wall0            # simulated true time in ticks
        self.start_now = wall0
        self.wall_off = 0           # wall clock skew (clock steps)
        self.cpu = cpu0             # process CPU clock
        self.cpu_off = 0
        self.tasks = []
        self.cur = None
        self.main_task = None
        self.timers = []
        self.seq = 0
        self.log_lines = []
        self.log_on = True
        self.killing = False
        self.end = None             # why the simulation ended
        self.fatal = None
        self.done_lock = _alloc()
        self.done_lock.acquire()
        self.handlers = {}          # signal table
        self.pending = []
        self.itimer = (FOREVER, 0)  # (expiry in process cpu ticks, interval)
        self.in_handler = 0
        self.sig_log = None         # called (signum, frame, handler) before a handler runs
        self.counters = {}
        self.switches = []
        self.next_ident = 1000
        self.free_idents = []
        self.ident_reuse = True
        self.task_excs = []
        self.on_profile = None      # fn(task, frame, event, arg) before a callback
        self.on_profile_end = None  # fn(task) after a callback
        self.alive_count = 0
        self.stuck_at = None
        self.sig_wakes = False      # a pending signal interrupts a wait
        self.killed_by = None       # fatal default signal action
        self.quiet = 0              # >0: no preemption and no signals at points
        self.read_cost = 0          # ticks charged after the first clock read of a callback
        self.store_cost = 0         # ticks charged when a callback stores a count or time
        self.preempt_callbacks = True
        self.hooks = {}             # stand-ins by name (see patches.py)
        self.hidden_files = IMPORTER  # code which causes no profile events

    # -- logging, counting (never draw choices, never switch) --------------

    def log(self, *what):
        if self.log_on:
            self.log_lines.append((self.now - self.start_now, self.cur.name if self.cur else '-') + what)

    def count(self, key, n=1):
        self.counters[key] = self.counters.get(key, 0) + n

    # -- time ---------------------------------------------------------------

    def at(self, when, fn):
        """Runs fn() in scheduler context at the given tick."""
        self.seq += 1
        entry = [when, self.seq, fn]
        timers = self.timers
        i = len(timers)
        while i and timers[i - 1][0] > when:
            i -= 1
        timers.insert(i, entry)
        return entry

    def after(self, delay, fn):
        return self.at(self.now + delay, fn)

    def cancel(self, entry):
        entry[2] = None

    def _fire(self):
        while self.timers and self.timers[0][0] <= self.now:
            _, __, fn = self.timers.pop(0)
            if fn is not None:
                fn()

    def work(self, n):
        """The current task burns n ticks of CPU."""
        task = self.cur
        while n > 0:
            step = n
            if self.itimer[0] < FOREVER:
                step = max(1, min(step, self.itimer[0] - self.cpu))
            if self.timers:
                step = max(1, min(step, self.timers[0][0] - self.now))
            task.thread.cpu += step
            self.cpu += step
            self.now += step
            n -= step
            if self.cpu >= self.itimer[0]:
                _, interval = self.itimer
                self.itimer = (self.cpu + interval, interval) if interval else (FOREVER, 0)
                self.count('itimer-expired')
                self.post_signal(_signal.SIGPROF)
                pt()
            self._fire()
        if self.horizon is not None and self.now >= self.horizon:
            self.finish('horizon')

    def burn(self, n):
        """CPU time of the current task without any scheduling effect (used
        for profiler overhead, inside callbacks)."""
        self.cur.thread.cpu += n
        self.cpu += n
        self.now += n

    # -- scheduling -----------------------------------------------------------

    def _arm(self):
        k = self.s.geo(self.preempt_mean) if self.preempt_mean else 0
        self.pre_at = self.n + k if k else FOREVER
        self._next()

    def _arm_int(self):
        k = self.s.geo(self.int_mean) if self.int_mean else 0
        self.int_at = self.n + k if k else FOREVER
        self._next()

    def interrupts(self, mean, fn):
        """Calls fn() every now and then, at arbitrary points."""
        self.int_mean, self.int_fn = mean, fn
        self._arm_int()

    def _next(self):
        self.next_at = min(self.pre_at, self.sig_at, self.int_at, self.max_points)

    def _slow_point(self):
        if self.killing:
            raise SimKilled
        task = self.cur
        if self.n >= self.max_points:
            self.stuck_at = [(f.f_code.co_filename, f.f_code.co_name, f.f_lineno)
                             for f in _frames(sys._getframe(2))]
            self.finish('steps')
        if self.n >= self.int_at:
            self._arm_int()
            if not self.quiet:
                self.int_fn()
        if self.n >= self.pre_at:
            self._arm()
            if not task.coop and not self.quiet and (self.preempt_callbacks or not task.in_callback):
                others = [t for t in self.tasks if t is not task and not t.coop and t.ready()]
                if others:
                    self.count('preemptions')
                    self._switch(others[self.s.below(len(others))])
        if task.main and self.pending and not self.quiet:
            self.deliver(sys._getframe(2))
        self._next()

    def _switch(self, other):
        task = self.cur
        self.cur = other
        self.switches.append((len(self.log_lines), other.tid))
        other.lock.release()
        task.lock.acquire()
        if self.killing:
            raise SimKilled

    def _choose_next(self, stay=None):
        """The next task to run when the current one cannot continue."""
        while True:
            self._fire()
            cands = [t for t in self.tasks if t.ready()]
            if cands:
                if stay is not None and stay in cands:
                    cands.remove(stay)
                    cands.insert(0, stay)
                return cands[self.s.below(len(cands))]
            when = self.timers[0][0] if self.timers else None
            for t in self.tasks:
                if t.state == Task.BLOCKED and t.deadline is not None:
                    if when is None or t.deadline < when:
                        when = t.deadline
            if when is None:
                return None
            if self.horizon is not None and when > self.horizon:
                self.now = self.horizon
                self.end = self.end or 'horizon'
                return None
            self.n += 1
            if self.n >= self.max_points:
                self.end = self.end or 'steps'
                return None
            self.now = max(self.now, when)

    def block(self, pred=None, deadline=None, interruptible=True):
        """Parks the current task until pred() holds (True), the deadline
        passes (False); runs signal handlers meanwhile in the main task."""
        task = self.cur
        if self.killing:
            raise SimKilled
        while True:
            if task.main and interruptible and self.signal_wakes():
                self.deliver(sys._getframe(1), True)
            if pred is not None and pred():
                return True
            if deadline is not None and self.now >= deadline:
                return False
            task.state, task.pred, task.deadline = Task.BLOCKED, pred, deadline
            task.interruptible = interruptible
            quiet, self.quiet = self.quiet, 0
            nxt = self._choose_next()
            if nxt is None:
                self.finish(self.end or 'idle')
            nxt.state, nxt.pred = Task.RUN, None
            if nxt is not task:
                self._switch(nxt)
            self.quiet = quiet
            task.state = Task.RUN
            if self.killing:
                raise SimKilled

    def yield_(self):
        """Voluntary scheduling choice among all ready tasks (0 = go on)."""
        task = self.cur
        if self.killing:
            raise SimKilled
        nxt = self._choose_next(stay=task)
        if nxt is not task:
            nxt.state = Task.RUN
            self._switch(nxt)
        if task.main and self.pending:
            self.deliver(sys._getframe(1), True)

    def sleep(self, n):
        if n <= 0:
            self.yield_()
            return
        deadline = self.now + n
        self.block(None, deadline)

    def finish(self, why):
        """Ends the simulation from within a task."""
        if self.end is None:
            self.end = why
        self.killing = True
        self.next_at = 0
        raise SimKilled

    # -- tasks ---------------------------------------------------------------

    def spawn(self, fn, name=None, main=False, thread=None):
        task = Task(self, name or 't%d' % len(self.tasks), main, fn, thread)
        task.tid = len(self.tasks)
        if self.cur is not None and 'proc' in self.cur.data:
            task.data['proc'] = self.cur.data['proc']
        self.tasks.append(task)
        self.alive_count += 1
        if thread is not None:
            pass
        elif main:
            task.ident = threading._main_thread.ident
        elif self.free_idents and self.ident_reuse:
            task.ident = self.free_idents.pop()
        else:
            self.next_ident += 8
            task.ident = self.next_ident
        if main:
            self.main_task = task
        _start(self._body, (task,))
        return task

    def _body(self, task):
        task.lock.acquire()
        task.real_ident = _ident()
        try:
            if not self.killing:
                task.fn()
        except SimKilled:
            pass
        except BaseException as exc:
            _setprofile(None)
            task.exc = exc
            self.quiet += 1
            try:
                tb = repr(exc) if self.killing else traceback.format_exc()
            except BaseException:
                # of the simulated file system
                tb = repr(exc)
            finally:
                self.quiet -= 1
            self.task_excs.append((task.name, exc, tb))
            self.log('task-exception', type(exc).__name__, str(exc))
        finally:
            _setprofile(None)
            self._task_done(task)

    def _task_done(self, task):
        shared = task.data.get('greenlet')
        if not shared:
            task.profile_func = None
        task.state = Task.DONE
        self.alive_count -= 1
        if task.sentinel is not None:
            task.sentinel.sim_force_release()
        if not task.main and not shared:
            self.free_idents.append(task.ident)
        nxt = None
        if not self.killing:
            try:
                if task.main and task.data.get('end_sim', True):
                    self.end = self.end or 'main'
                    self.killing = True
                else:
                    nxt = self._choose_next()
                    if nxt is None:
                        self.end = self.end or 'idle'
                        self.killing = True
            except BaseException:
                self.fatal = traceback.format_exc()
                self.end = 'fatal'
                self.killing = True
        if self.killing:
            self.next_at = 0
            nxt = None
            for t in self.tasks:
                if t.state != Task.DONE:
                    nxt = t
                    break
        if nxt is None:
            self.cur = None
            self.done_lock.release()
            return
        nxt.state, nxt.pred = Task.RUN, None
        self.cur = nxt
        nxt.lock.release()

    def run(self, fn, name='main', timeout=-1):
        """Runs the simulation with fn as the main task; returns `end`."""
        global SIM
        if SIM is not None:
            raise SimError('nested simulation')
        SIM = self
        try:
            task = self.spawn(fn, name, main=True)
            self.cur = task
            self._arm()
            task.lock.release()
            if not self.done_lock.acquire(True, timeout):
                raise SimError('simulation did not finish in real time')
        finally:
            SIM = None
        if self.fatal:
            raise SimError(self.fatal)
        return self.end

    # -- signals ---------------------------------------------------------------

    def getsignal(self, signum):
        return self.handlers.get(signum, _signal.SIG_DFL)

    def signal(self, signum, handler):
        if not self.cur.main:
            raise ValueError('signal only works in main thread')
        if not callable(handler) and handler not in (_signal.SIG_DFL, _signal.SIG_IGN):
            raise TypeError('signal handler must be signal.SIG_IGN, signal.SIG_DFL, or a callable object')
        prev = self.getsignal(signum)
        self.handlers[signum] = handler
        return prev

    def signal_ready(self):
        return bool(self.pending) and self.main_task is not None

    def signal_wakes(self):
        return self.sig_wakes and self.signal_ready()

    def post_signal(self, signum, wakes=True):
        """Marks the signal pending for the main task (coalescing).  A signal
        that another thread received does not interrupt the system call in
        which the main thread waits: its handler runs when that returns."""
        if self.getsignal(signum) == _signal.SIG_IGN:
            self.count('sig-ignored')
            return
        if wakes:
            self.sig_wakes = True
        if signum in self.pending:
            self.count('sig-coalesced')
            return
        self.pending.append(signum)
        self.count('sig-posted')
        # when the main task next executes, at one of its next points
        self.sig_at = self.n + 1 + self.s.weighted([(6, 0), (2, 1), (1, 3), (1, 7)])
        self._next()

    def deliver(self, frame, force=False):
        """Runs the handlers of all pending signals in the main task."""
        if not force and self.n < self.sig_at:
            return                  # at a later point of the main task
        while self.pending:
            signum = self.pending.pop(0)
            if not self.pending:
                self.sig_at = FOREVER
                self.sig_wakes = False
            handler = self.getsignal(signum)
            if handler == _signal.SIG_DFL:
                if self.killed_by is None:
                    self.killed_by = signum
                self.log('killed-by-signal', int(signum))
                if 'default_signal' in self.hooks:
                    self.hooks['default_signal'](signum)
                self.finish('killed')
            if handler == _signal.SIG_IGN:
                continue
            f = frame
            while f is not None and f.f_code.co_filename.startswith(SIMDIR):
                f = f.f_back
            if f is None:
                f = frame
            self.log('signal', int(signum))
            self.count('sig-delivered')
            if self.in_handler:
                self.count('sig-nested')
            if self.cur.in_callback:
                self.count('sig-in-callback')
            if self.sig_log is not None:
                self.sig_log(signum, f, handler)
            self.in_handler += 1
            try:
                handler(signum, f)
            finally:
                self.in_handler -= 1

    def setitimer(self, which, value, interval=0.0):
        old = self.getitimer(which)
        v, i = ticks(value), ticks(interval)
        if value > 0:
            v = max(v, 1)
        if interval > 0:
            i = max(i, 1)
        self.itimer = (self.cpu + v, i) if v > 0 else (FOREVER, 0)
        return old

    def getitimer(self, which):
        exp, interval = self.itimer
        if exp >= FOREVER:
            return (0.0, seconds(interval))
        return (seconds(max(1, exp - self.cpu)), seconds(interval))

    # -- profile hook -----------------------------------------------------------

    def setprofile(self, func):
        task = self.cur
        task.profile_func = func
        _setprofile(profile_shim if func is not None else None)

    def getprofile(self):
        return self.cur.profile_func


def profile_shim(frame, event, arg):
    """The real interpreter hook of a task: hides the simulator's own frames
    from the registered callback, otherwise passes every event on."""
    sim = SIM
    if sim is None:
        _setprofile(None)
        return
    task = sim.cur
    if frame.f_code.co_filename.startswith(SIMDIR) or sim.quiet or task.no_profile:
        return
    if frame.f_code.co_filename in sim.hidden_files:
        return
    func = task.thread.profile_func
    if func is None:
        return
    if sim.on_profile is not None:
        sim.on_profile(task, frame, event, arg)
    task.in_callback += 1
    task.reads = 0
    try:
        func(frame, event, arg)
    except BaseException:
        # as the interpreter does: a failing callback is unregistered
        task.profile_func = None
        raise
    finally:
        task.in_callback -= 1
        if sim.on_profile_end is not None:
            sim.on_profile_end(task)
