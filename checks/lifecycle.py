"""L02: start/stop histories of profilers, timers and samplers over a host
which has hooks of its own; every system-level step may fail."""
import signal
import sys
import threading

from sim import engine, greenlets
from sim.engine import seconds

SYS, THR, TRACE, ITIMER, SIG = 'sys profile', 'thread profile', 'greenlet trace', 'itimer', 'SIGPROF handler'
HOOK_OF = {'setprofile': SYS, 'settrace': TRACE, 'setitimer': ITIMER, 'signal': SIG}


class Injected(BaseException):
    pass


class InjectedError(Injected, Exception):
    pass


class InjectedOSError(Injected, OSError):
    pass


class InjectedValueError(Injected, ValueError):
    pass


class Body(Exception):
    """Leaves a with-block."""


def marker():
    engine.SIM.work(3)


def burner(n):
    engine.SIM.work(n)
    marker()


class Item(object):
    """A runnable under test."""

    def __init__(self, name, obj, resources, args=(), kind=None, sub=None):
        self.name, self.obj, self.resources, self.args = name, obj, frozenset(resources), args
        self.kind = kind            # how to see that it works: 'calls', 'samples' or None
        self.sub = sub              # the Item of its timer or sampler
        self.running = False
        self.before = None          # host state before its start


class Steps(object):
    """A user-defined runnable with undo actions which may fail."""

    def __new__(cls, run):
        from profiling.utils import deferral, Runnable

        class Custom(Runnable):
            mode = 'good'           # or how run() misbehaves
            fail_at = None          # a step which fails
            fail_undo = None

            def step(self, i):
                if i == self.fail_at:
                    raise self.failure('step %d' % i)
                self.done.append(i)

            def undo(self, i):
                self.undone.append(i)
                if i == self.fail_undo:
                    raise self.failure('undo %d' % i)

            def run(self):
                self.done, self.undone = [], []
                if self.mode == 'empty':
                    return
                with deferral() as defer:
                    for i in range(3):
                        self.step(i)
                        defer(self.undo, i)
                    yield 'value' if self.mode == 'value' else None
                    if self.mode == 'twice':
                        yield
        return Custom()


class LifecycleRun(object):

    def __init__(self, run, prop):
        self.run, self.prop = run, prop
        w = self.w = run.w
        from profiling.sampling import SamplingProfiler
        from profiling.sampling.samplers import ItimerSampler, TracingSampler
        from profiling.tracing import TracingProfiler
        from profiling.tracing.timers import GreenletTimer, ThreadTimer, Timer
        GreenletTimer.__dict__['greenlet'].module = None
        itimer = [ITIMER, SIG]
        prof = [SYS, THR]
        self.sink = SamplingProfiler()
        self.interval = w.pick([64, 256, 1024])
        dt = seconds(self.interval)
        items = []

        def profiler(name, cls, sub, res, sub_res, **kw):
            p = cls(**kw)
            s = Item(name + "'s " + sub, getattr(p, sub), sub_res)
            items.append(Item(name, p, list(res) + list(sub_res), (),
                              'calls' if cls is TracingProfiler else 'samples', s))
            return p
        greenlet_timer = GreenletTimer()
        itimer_sampler = ItimerSampler(dt)
        profiler('tracing', TracingProfiler, 'timer', prof, [])
        profiler('tracing-thread', TracingProfiler, 'timer', prof, [], timer=ThreadTimer())
        profiler('tracing-greenlet', TracingProfiler, 'timer', prof, [TRACE], timer=greenlet_timer)
        profiler('sampling', SamplingProfiler, 'sampler', [], itimer, sampler=ItimerSampler(dt))
        profiler('sampling-shared', SamplingProfiler, 'sampler', [], itimer, sampler=itimer_sampler)
        profiler('sampling-tracing', SamplingProfiler, 'sampler', [], prof, sampler=TracingSampler(dt))
        timer = Item('greenlet-timer', greenlet_timer, [TRACE], (self.sink,))
        sampler = Item('itimer-sampler', itimer_sampler, itimer, (self.sink,))
        items[2].sub, items[4].sub = timer, sampler
        items += [timer, sampler, Item('tracing-sampler', TracingSampler(dt), prof, (self.sink,)),
                  Item('custom', Steps(run), [])]
        n = w.randint(1, 5)
        self.items = w.shuffle(items)[:n]
        for it in list(self.items):
            if it.sub is not None and it.sub.args and it.sub not in self.items and w.chance(.5):
                self.items.append(it.sub)
        self.nops = w.randint(2, 10)
        self.host_handler = w.pick(['default', 'own', 'ignore'])
        self.host = {SYS: w.chance(.2), THR: w.chance(.3), TRACE: w.chance(.3),
                     ITIMER: w.chance(.3) and self.host_handler != 'default'}
        self.kicks = w.pick([0, 30, 200])
        self.faulty = w.chance(.6)
        self.stack = []
        self.ops = []

    # -- the host ------------------------------------------------------------------

    def state(self):
        sim = self.sim
        armed, interval = sim.itimer[0] < engine.FOREVER, sim.itimer[1]
        return {SYS: sim.getprofile(), THR: threading._profile_hook,
                TRACE: greenlets.group().trace, ITIMER: (armed, interval),
                SIG: sim.getsignal(signal.SIGPROF)}

    def set_state(self, key, value):
        sim = self.sim
        if key == SYS:
            sim.setprofile(value)
        elif key == THR:
            threading._profile_hook = value
        elif key == TRACE:
            greenlets.group().trace = value
        elif key == ITIMER:
            sim.setitimer(signal.ITIMER_PROF, seconds(value[1] or 1000) if value[0] else 0, seconds(value[1]))
        else:
            sim.handlers[signal.SIGPROF] = value

    def same(self, key, before, now):
        if key == SIG and before == signal.SIG_DFL:
            # the process-killing default may have become "ignore"
            return now in (signal.SIG_DFL, signal.SIG_IGN)
        return before == now

    def restored(self, key, before, now):
        if key == SIG and before == signal.SIG_DFL:
            return now == signal.SIG_IGN
        return before == now

    # -- operations ------------------------------------------------------------------

    def violate(self, cls, msg):
        self.run.out.violate('L02-' + cls, '%s [after %s]' % (msg, ', '.join(self.ops)))

    def inject(self):
        """Chooses a failing step for the next operation."""
        self.calls, self.failed = 0, None
        self.fail_at = self.run.s.randint(1, 4) if self.faulty and self.run.s.chance(.35) else None

    def hook(self, name):
        def called(*args):
            if self.fail_at is None:
                return
            self.calls += 1
            if self.calls == self.fail_at:
                self.fail_at = None
                self.failed = HOOK_OF[name]
                self.sim.count('failed-' + name)
                self.ops.append('(%s fails)' % name)
                error = {'setitimer': InjectedOSError, 'signal': InjectedValueError}.get(name, InjectedError)
                # or an interrupt
                raise (Injected if self.run.s.chance(.3) else error)(name)
        return called

    def call(self, fn, *args):
        """(exception or None)"""
        try:
            fn(*args)
        except (engine.SimKilled, KeyboardInterrupt):
            raise
        except BaseException as exc:
            return exc
        finally:
            self.fail_at = None

    def conflicts_later(self, item):
        """Somebody who started later uses the same hooks."""
        if item not in self.stack:
            return False
        i = self.stack.index(item)
        return any(o.resources & item.resources for o in self.stack[i + 1:])

    def used_by_other(self, item):
        """Its timer or sampler runs on its own (or another profiler's)."""
        return item.sub is not None and item.sub.running

    def fingerprint(self, item):
        p = item.obj
        if item.kind is None:
            return None
        self.sim.quiet += 1
        try:
            stats = p.stats
            todo, out = list(stats), []
            while todo:
                n = todo.pop()
                out.append((n.name, n.own_hits))
                todo.extend(n)
            return out
        finally:
            self.sim.quiet -= 1

    def mark_started(self, item, before):
        item.running, item.before = True, before
        self.stack.append(item)
        if item.sub is not None:
            item.sub.running = True

    def mark_stopped(self, item):
        item.running = False
        if item in self.stack:
            self.stack.remove(item)
        if item.sub is not None:
            item.sub.running = False

    def may_start(self, item):
        # two which want to undo each other's hooks are nested by the harness
        return True

    def expect_start(self, item, state):
        """What must come of starting it: None (fine) or why it fails."""
        if item.running:
            return 'running'
        if self.used_by_other(item):
            return 'shared'
        if isinstance(item.kind, str) and item.kind == 'calls' and state[SYS] is not None:
            return 'registered'
        return None

    def start(self, item, block=False):
        before = self.state()
        finger = self.fingerprint(item)
        why = self.expect_start(item, before)
        self.inject()
        self.ops.append('start ' + item.name)
        if item.name == 'custom':
            item.obj.mode = self.run.s.weighted([(6, 'good'), (1, 'value'), (1, 'empty'), (1, 'twice')])
            item.obj.failure = self.run.s.pick([InjectedError, Injected])
            item.obj.fail_at = self.run.s.pick([None, None, 0, 1, 2])
            item.obj.fail_undo = self.run.s.pick([None, None, 0, 1, 2])
            if not item.running and (item.obj.mode in ('value', 'empty') or item.obj.fail_at is not None):
                why = 'custom'
        exc = self.call(item.obj.__enter__ if block and not item.args else item.obj.start, *item.args)
        failed, self.failed = self.failed, None
        if why is None and failed is None:
            if exc is not None:
                self.violate('start', 'start of %s failed: %r' % (item.name, exc))
                return False
            self.mark_started(item, before)
            self.verify(item)
            return True
        if exc is None:
            self.violate('start', 'start of %s succeeded, although %s' % (
                item.name, why or '%s failed' % failed))
            return False
        self.sim.count('start-failed-' + (why or failed))
        if why in ('running', 'registered') and not isinstance(exc, RuntimeError):
            self.violate('start', 'start of %s raised %r' % (item.name, exc))
        if failed is None and isinstance(exc, Injected) and why != 'custom':
            raise engine.SimError('unexpected injection')
        if item.name == 'custom' and not item.running and item.obj.mode != 'empty':
            self.verify_undo(item)
        now = self.state()
        for key in before:
            if not self.same(key, before[key], now[key]):
                self.violate('failed-start', '%s is %r after a failed start of %s, was %r' % (
                    key, now[key], item.name, before[key]))
        if why == 'running' and item.kind and item.resources.isdisjoint([SYS, ITIMER]):
            pass
        if why == 'running' and finger is not None and self.fingerprint_lost(item, finger):
            self.violate('failed-start', 'starting the running %s changed its result' % item.name)
        self.verify(item)
        return False

    def fingerprint_lost(self, item, finger):
        now = {}
        for name, n in self.fingerprint(item):
            now[name] = now.get(name, 0) + n
        was = {}
        for name, n in finger:
            was[name] = was.get(name, 0) + n
        return any(now.get(k, 0) < n for k, n in was.items())

    def stop(self, item, exit=None):
        """exit: leave a with-block."""
        before = self.state()
        finger = self.fingerprint(item)
        was = item.running
        own_sub = item.sub
        self.inject()
        self.ops.append('stop ' + item.name)
        if exit is not None and not item.args:
            def leave():
                self.swallowed = item.obj.__exit__(*exit)
            exc = self.call(leave)
        else:
            exc = self.call(item.obj.stop)
        failed, self.failed = self.failed, None
        now = self.state()
        if not was:
            if not isinstance(exc, RuntimeError):
                self.violate('stop', 'stop of the stopped %s raised %r' % (item.name, exc))
            for key in before:
                if before[key] != now[key]:
                    self.violate('stop', 'stopping the stopped %s changed %s' % (item.name, key))
            if finger is not None and self.fingerprint(item) != finger:
                self.violate('stop', 'stopping the stopped %s changed its result' % item.name)
            self.verify(item)
            return
        custom = item.name == 'custom' and (item.obj.mode == 'twice' or item.obj.fail_undo is not None)
        if exc is None and (failed or custom):
            self.violate('stop', 'stop of %s hides that %s failed' % (item.name, failed))
        if exc is not None and not failed and not custom:
            self.violate('stop', 'stop of %s failed: %r' % (item.name, exc))
        self.mark_stopped(item)
        for key in before:
            want = item.before[key] if key in item.resources else before[key]
            ok = self.restored(key, want, now[key]) if key in item.resources else before[key] == now[key]
            if key == failed:
                # it could not be undone; help out
                self.set_state(key, signal.SIG_IGN if want == signal.SIG_DFL else want)
            elif not ok:
                self.violate('restore', '%s is %r after stop of %s, was %r before its start' % (
                    key, now[key], item.name, want))
        if item.name == 'custom' and item.obj.mode != 'twice':
            self.verify_undo(item)
        self.verify(item)

    def verify_undo(self, item):
        o = item.obj
        if o.undone != o.done[::-1]:
            self.violate('undo', 'did %r, undid %r' % (o.done, o.undone))

    # -- truth ---------------------------------------------------------------------------

    def verify(self, item):
        for it in self.items:
            if bool(it.obj.is_running()) != it.running:
                self.violate('running', '%s.is_running() is %s' % (it.name, it.obj.is_running()))
            if it.sub is not None and bool(it.sub.obj.is_running()) != it.sub.running:
                self.violate('running', '%s.is_running() is %s' % (it.sub.name, it.sub.obj.is_running()))

    def hits(self, item, name=None):
        return sum(n for k, n in self.fingerprint(item) if name is None or k == name)

    def activity(self):
        """Does some work and looks who sees it."""
        sim = self.sim
        profs = [it for it in self.items if it.kind]
        before = {it: self.hits(it, 'marker' if it.kind == 'calls' else None) for it in profs}
        burner(4 * self.interval)
        sim.work(1)
        marker()
        engine.pt()
        for _ in range(12):
            engine.pt()
        for it in profs:
            now = self.hits(it, 'marker' if it.kind == 'calls' else None)
            seen = now - before[it]
            if not it.running and seen:
                self.violate('running', 'the stopped %s recorded %d' % (it.name, seen))
            # a later one may have taken over the same hooks
            if it.running and it in self.stack and not self.conflicts_later(it):
                if it.kind == 'calls' and seen != 2:
                    self.violate('running', 'the running %s recorded %d of 2 calls' % (it.name, seen))
                if it.kind == 'samples' and not seen:
                    self.violate('running', 'the running %s took no sample' % it.name)

    def op(self, depth=0):
        s = self.run.s
        kind = s.weighted([(4, 'start'), (4, 'stop'), (2, 'work'), (2, 'with' if depth < 3 else 'work'),
                           (1, 'thread')])
        item = s.pick(self.items)
        if kind == 'start':
            self.start(item)
        elif kind == 'stop':
            if item.sub is None and item.args and any(o.sub is item and o.running for o in self.items):
                return              # stopping a running profiler's sampler behind its back
            if not self.conflicts_later(item):
                self.stop(item)
        elif kind == 'work':
            self.activity()
        elif kind == 'with':
            self.block(item, depth)
        else:
            self.in_thread(item)

    def block(self, item, depth):
        s = self.run.s
        if not self.start(item, block=True):
            return
        for _ in range(s.randint(0, 3)):
            self.op(depth + 1)
        # leave what was entered inside of the block first
        for other in reversed(self.stack[:]):
            if other is item:
                break
            if other.resources & item.resources:
                self.stop(other)
        if not item.running:
            return
        if s.chance(.5):
            kind = s.pick([Body, Body, GeneratorExit, SystemExit, KeyboardInterrupt, StopIteration, RuntimeError])
            try:
                raise kind()
            except kind:
                info = sys.exc_info()
            self.sim.count('left-by-exception')
            self.swallowed = None
            self.stop(item, info)
            if self.swallowed:
                self.violate('with', 'leaving the block of %s swallows %s' % (item.name, kind.__name__))
        else:
            self.stop(item, (None, None, None))

    def in_thread(self, item):
        """Start and stop in another thread."""
        before = self.state()
        if item.running or self.used_by_other(item) or item.name == 'custom':
            return
        self.ops.append('thread: %s' % item.name)
        needs_main = bool(item.resources & {SIG})
        res = {}

        def body():
            sim = self.sim
            prof0 = sim.getprofile()
            exc = self.call(item.obj.start, *item.args)
            if exc is not None:
                res['exc'] = exc
            else:
                res['running'] = item.obj.is_running()
                marker()
                res['stop'] = self.call(item.obj.stop)
            res['profile'] = sim.getprofile() == prof0
            res['hooked'] = prof0 is not None
        t = threading.Thread(target=body)
        t.start()
        t.join()
        exc = res.get('exc')
        self.sim.count('thread-cycles')
        if needs_main and exc is None:
            self.violate('start', '%s started outside of the main thread' % item.name)
        if not needs_main and exc is not None and not (item.kind == 'calls' and res['hooked']):
            self.violate('start', 'start of %s in a thread failed: %r' % (item.name, exc))
        if not res['profile']:
            self.violate('restore', 'the sys profile of a thread is not restored by %s' % item.name)
        if res.get('stop') is not None:
            self.violate('stop', 'stop of %s in a thread failed: %r' % (item.name, res['stop']))
        if exc is None and not res['running']:
            self.violate('running', '%s is not running in a thread' % item.name)
        now = self.state()
        for key in before:
            if not self.same(key, before[key], now[key]):
                self.violate('restore', '%s is %r after %s ran in a thread, was %r' % (
                    key, now[key], item.name, before[key]))
        self.verify(item)

    # -- the run ------------------------------------------------------------------------

    def setup(self, sim):
        greenlets.install()
        for name in HOOK_OF:
            sim.hooks[name] = self.hook(name)

    def main(self):
        self.sim = sim = engine.SIM
        self.fail_at = self.failed = None
        if self.host_handler != 'default':
            sim.handlers[signal.SIGPROF] = (
                signal.SIG_IGN if self.host_handler == 'ignore' else lambda n, f: sim.count('host-handler'))
        if self.host[THR]:
            threading._profile_hook = host_thread_profile
        if self.host[TRACE]:
            greenlets.group().trace = host_trace
        if self.host[ITIMER]:
            sim.setitimer(signal.ITIMER_PROF, seconds(5000), seconds(1000))
        if self.host[SYS]:
            sim.setprofile(host_profile)
        if self.kicks:
            def kick():
                if callable(sim.getsignal(signal.SIGPROF)) and not sim.in_handler \
                        and sim.counters.get('kick', 0) < 25:
                    sim.count('kick')
                    sim.post_signal(signal.SIGPROF)
            sim.interrupts(self.kicks, kick)
        for _ in range(self.nops):
            self.op()
        if self.run.s.chance(.7):
            self.activity()
        self.faulty = False
        for item in reversed(self.stack[:]):
            if item.running:
                self.stop(item)
        self.activity()

    def judge(self):
        out = self.run.out
        sim = self.run.sim
        for name, exc, tb in sim.task_excs:
            out.violate('L02-error', 'error in %s: %s' % (name, tb))
        if sim.end != 'main':
            out.violate('L02-killed', 'the process ended: %s %s [after %s]' % (
                sim.end, sim.killed_by, ', '.join(self.ops)))
        out.notes.append('host: %s %s kicks=%s' % (self.host, self.host_handler, self.kicks))
        out.notes.append('; '.join(self.ops))


def host_profile(frame, event, arg):
    pass


def host_thread_profile(frame, event, arg):
    pass


def host_trace(event, args):
    pass


def scenario(prop):
    def fn(run):
        t = LifecycleRun(run, prop)
        run.simulate(t.main, t.setup)
        t.judge()
        run.out.trivial = len(t.ops) < 2
        run.out.counters['operations'] = len(t.ops)
    return fn
