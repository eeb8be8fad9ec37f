"""L03: a background thread starts and stops a profiler in the main thread."""
import signal
import threading

from sim import engine
from sim.engine import seconds
from sim.program import Boom, Program, World, project


class Injected(Exception):
    pass


class InjectedOSError(Injected, OSError):
    pass


class InjectedRuntimeError(Injected, RuntimeError):
    pass


class Wrapped(object):
    """Makes a runnable which notes where it is started and stopped."""

    def __new__(cls, note):
        from profiling.profiler import Profiler

        class Noted(Profiler):

            def run(self):
                note('start')
                yield
                note('stop')
        return Noted()


class BackgroundRun(object):

    def __init__(self, run, prop):
        self.run, self.prop = run, prop
        w = self.w = run.w
        feats = set(['thread'])
        for f, p in [('gen', .3), ('exc', .5), ('closure', .3), ('sleep', .6)]:
            if w.chance(p):
                feats.add(f)
        self.kind = w.pick(['tracing', 'tracing-thread', 'sampling', 'sampling-tracing', 'plain'])
        self.program = Program(w, feats, heavy=self.kind.startswith('sampling'))
        self.roots = [(w.below(self.program.n), w.pick(['go', 'sleep', 'lock', 'queue', 'join', 'busy', 'native']))
                      for _ in range(w.randint(1, 4))]
        self.native = w.pick([.01, .3, 2.5, 12.0])
        self.depth = w.randint(1, 5)
        self.preempt = w.pick([60, 15, 6, 200])
        self.rounds = w.randint(1, 5)
        self.pauses = [w.pick([0, 0, 5, 500, 20000]) for _ in range(2 * self.rounds)]
        self.signum = w.pick([None, None, signal.SIGUSR1])
        self.faulty = w.chance(.4)
        self.other = w.pick([0, 0, 40])
        self.kicks = w.pick([0, 60]) if self.kind == 'sampling' else 0
        self.own_thread = w.chance(.3)      # one requesting thread per round
        self.awaits = w.chance(.4)  # a last wait which nothing but the requests end
        self.ops = []
        self.windows = []

    def violate(self, cls, msg):
        self.run.out.violate('L03-' + cls, '%s [%s]' % (msg, ', '.join(self.ops)))

    # -- faults ------------------------------------------------------------------------

    def hook(self, name):
        def called(*args):
            if not self.sim.cur.main and self.sim.cur is not self.by:
                return              # a new thread takes the hook of all threads
            self.noted.append((name, self.sim.cur.main))
            if self.fail_at is None:
                return
            self.steps += 1
            if self.steps == self.fail_at:
                self.fail_at = None
                self.failed = {'setitimer': InjectedOSError, 'note': InjectedRuntimeError}.get(name, Injected)(name)
                self.sim.count('failed-' + name)
                raise self.failed
        return called

    # -- the requester -----------------------------------------------------------------

    def request(self, what):
        sim, s = self.sim, self.run.s
        self.steps, self.failed, self.noted, self.by = 0, None, [], sim.cur
        self.fail_at = s.randint(1, 3) if self.faulty and s.chance(.4) else None
        t0 = self.world.tick()
        exc = None
        self.ops.append(what)
        try:
            getattr(self.trigger, what)()
        except engine.SimKilled:
            raise
        except BaseException as e:
            exc = e
        failed, self.failed, self.fail_at = self.failed, None, None
        t1 = self.world.tick()
        running = self.profiler.is_running()
        for name, main in self.noted:
            if not main:
                self.violate('thread', '%s did %s outside of the main thread' % (what, name))
        if failed is not None:
            self.ops.append('(%s fails)' % failed)
            if exc is not failed:
                self.violate('error', '%s raised %r, although %r happened in it' % (what, exc, failed))
            sim.count('failed-' + what)
        elif exc is not None:
            self.violate('error', '%s raised %r' % (what, exc))
        want = what == 'start' and failed is None
        if running != want:
            self.violate('state', 'the profiler is %srunning after %s returned' % ('' if running else 'not ', what))
        if bool(self.trigger.is_running()) != running:
            self.violate('state', 'is_running() is %s, of the profiler %s' % (self.trigger.is_running(), running))
        if failed is None and exc is None and not self.noted and self.kind != 'plain':
            self.violate('state', '%s had no effect' % what)
        return t0, t1, exc is None

    def one_round(self, i):
        sim = self.sim
        sim.sleep(self.pauses[2 * i])
        a, b, ok = self.request('start')
        if not ok or not self.trigger.is_running():
            return
        sim.sleep(self.pauses[2 * i + 1])
        c, d, ok = self.request('stop')
        if not ok:
            # what could not be undone stays in the way
            self.rounds = i
            return
        sim.quiet += 1
        try:
            if self.kind.startswith('tracing') and not self.faulty:
                self.windows.append((a, b, c, d, project(self.profiler.result()[0], self.world.names)))
        finally:
            sim.quiet -= 1
        self.served += 1

    def compare(self, a, b, c, d, counted):
        """The calls of the main thread well inside of the window count, those
        outside do not."""
        got = {}
        for chain, entry in counted.items():
            got[chain[-1]] = got.get(chain[-1], 0) + entry[0]
        low, high = {}, {}
        for call in self.world.calls:
            out = call.d is None or call.d > a
            if call.c < d and out:
                high[call.k] = high.get(call.k, 0) + 1
            if call.ctx.thread_start is None and b < call.c and call.d is not None and call.d < c:
                low[call.k] = low.get(call.k, 0) + 1
            elif call.ctx.thread_start is not None and call.ctx.thread_start > b \
                    and call.d is not None and call.d < c:
                low[call.k] = low.get(call.k, 0) + 1
        for k in set(got) | set(low):
            # a generator's resumptions are calls of the same function
            if self.program.kinds[k] == 'gen':
                continue
            if not low.get(k, 0) <= got.get(k, 0) <= high.get(k, 0):
                self.violate('window', '%s counted %d times, between %d and %d calls were made in the round' % (
                    self.program.names[k], got.get(k, 0), low.get(k, 0), high.get(k, 0)))

    def requester(self):
        for i in range(len(self.pauses) // 2):
            if i >= self.rounds:
                break
            if self.own_thread:
                th = threading.Thread(target=self.one_round, args=(i,))
                th.start()
                th.join()
            else:
                self.one_round(i)
        self.finished = True
        self.end.set()

    # -- the program ---------------------------------------------------------------------

    def idle(self, how):
        """Blocking calls in which a signal may find the main thread."""
        sim, w = self.sim, self.world
        if how == 'sleep':
            sim.sleep(30000)
        elif how == 'native':
            # foreign code, nothing interrupts it
            sim.block(None, sim.now + engine.ticks(self.native), False)
        elif how == 'busy':
            for _ in range(20):
                w.W(500)
                engine.pt()
        elif how in ('lock', 'queue', 'join'):
            ev = threading.Event()
            th = threading.Thread(target=lambda: (sim.sleep(15000), ev.set()))
            th.daemon = True
            th.start()
            if how == 'join':
                th.join()
            elif how == 'lock':
                ev.wait()
            else:
                while not ev.wait(seconds(700)):
                    pass

    def main(self):
        sim = self.sim = engine.SIM
        world = self.world = World(sim, budget=40, work_cap=300000)
        self.fail_at = self.failed = None
        self.noted, self.by = [], None
        self.served, self.finished, self.windows = 0, False, []
        self.end = threading.Event()
        self.program.load(world)
        from profiling.remote.background import BackgroundProfiler
        if self.kind.startswith('tracing'):
            from profiling.tracing import TracingProfiler
            from profiling.tracing.timers import ThreadTimer, Timer
            self.profiler = TracingProfiler(timer=ThreadTimer() if self.kind == 'tracing-thread' else Timer())
        elif self.kind == 'plain':
            self.profiler = Wrapped(self.hook('note'))
        else:
            from profiling.sampling import SamplingProfiler
            from profiling.sampling.samplers import ItimerSampler, TracingSampler
            cls = ItimerSampler if self.kind == 'sampling' else TracingSampler
            self.profiler = SamplingProfiler(sampler=cls(seconds(512)))
        for name in ('setprofile', 'setitimer', 'signal'):
            sim.hooks[name] = self.hook(name)
        trigger = self.trigger = BackgroundProfiler(self.profiler, *([] if self.signum is None else [self.signum]))
        trigger.prepare()
        signum = self.signum or signal.SIGUSR2
        if not callable(sim.getsignal(signum)):
            self.violate('signal', 'the control signal is not handled')
        if self.other:
            sim.signal(signal.SIGALRM, lambda n, f: (sim.count('other-signal'), engine.pt()))

            def ring():
                if sim.counters.get('rings', 0) < 20:
                    sim.count('rings')
                    sim.post_signal(signal.SIGALRM)
            sim.interrupts(self.other, ring)
        elif self.kicks:
            def kick():
                if callable(sim.getsignal(signal.SIGPROF)) and sim.counters.get('kick', 0) < 25:
                    sim.count('kick')
                    sim.post_signal(signal.SIGPROF)
            sim.interrupts(self.kicks, kick)
        th = threading.Thread(target=self.requester)
        th.daemon = True
        th.start()
        try:
            for k, how in self.roots:
                world.C()
                try:
                    world.F[k](self.depth)
                except Boom:
                    pass
                world.D()
                self.idle(how)
            # liveness: the main thread is up and takes signals
            if self.awaits:
                self.end.wait(60)
                if not self.finished:
                    self.violate('hangs', 'the request does not reach a waiting main thread')
                    return
            deadline = sim.now + engine.ticks(5)
            while not self.finished and sim.now < deadline:
                sim.sleep(5000)
                world.W(50)
                engine.pt()
        except Injected as exc:
            self.violate('surfaced', '%r surfaced in the program' % exc)
            return
        if not self.finished:
            self.violate('hangs', 'the request never returned')
            return
        world.J()


def scenario(prop):
    import profiling.remote.background
    import profiling.sampling.samplers
    import profiling.tracing.timers
    profiling.sampling, profiling.tracing, profiling.remote

    def fn(run):
        t = BackgroundRun(run, prop)
        run.simulate(t.main, preempt=t.preempt)
        sim, out = run.sim, run.out
        for name, exc, tb in sim.task_excs:
            if not isinstance(exc, Boom):
                out.violate('L03-error', 'error in %s: %s' % (name, tb))
        if sim.end != 'main':
            out.violate('L03-stuck', 'the program did not end: %s, at %s' % (sim.end, sim.stuck_at))
        for window in t.windows:
            t.compare(*window)
        out.notes.append(t.program.text())
        out.notes.append('%s preempt=%s kicks=%s roots=%s: %s' % (t.kind, t.preempt, t.kicks, t.roots, t.ops))
        out.counters['rounds'] = t.served
        out.trivial = not t.ops
    return fn
