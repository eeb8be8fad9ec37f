"""S01 S02: the sampling profiler under generated programs."""
import signal
import sys

from sim import engine
from sim.engine import seconds
from sim.program import Boom, Program, World


def key(code):
    name = code.co_name
    return (None if name == '<module>' else name, code.co_filename, code.co_firstlineno)


class Window(object):
    start_begin = start_end = stop_begin = stop_end = None
    base_frame = base_code = None
    ignored_frames = ignored_codes = ()


class Sample(object):
    __slots__ = ('chain', 'path', 't0', 't1', 'window', 'tid')


def walk(stats):
    """{path of keys: own hits}, hidden or not; all paths with their nodes."""
    out = {}
    todo = [((), n) for n in stats]
    while todo:
        path, node = todo.pop()
        path = path + ((node.name, node.filename, node.lineno),)
        out[path] = out.get(path, 0) + node.own_hits
        todo.extend((path, n) for n in node)
    return out


class SamplingRun(object):

    def __init__(self, run, prop):
        self.run, self.prop = run, prop
        w = self.w = run.w
        from profiling.sampling import SamplingProfiler
        from profiling.sampling.samplers import ItimerSampler, TracingSampler
        self.SamplingProfiler = SamplingProfiler
        self.kind = w.weighted([(6, 'itimer'), (4, 'tracing')] if prop == 'S01' else
                               [(8, 'tracing'), (2, 'itimer')])
        feats = set()
        for f, p in [('gen', .4), ('exc', .5), ('closure', .4), ('window', .6)]:
            if w.chance(p):
                feats.add(f)
        self.threaded = w.chance(.7 if self.kind == 'tracing' else .4)
        if self.threaded:
            feats.update(('thread', 'sleep') if w.chance(.5) else ('thread',))
        feats.update(('twin', 'deep'))
        self.feats = feats
        self.program = Program(w, feats, heavy=True)
        self.preempt = w.pick([0, 200, 60, 25]) if self.threaded else 0
        self.interval = w.pick([256, 500, 1024, 4096] if self.kind == 'itimer' else [1, 8, 64, 512, 2048])
        self.sampler = {'itimer': ItimerSampler, 'tracing': TracingSampler}[self.kind](seconds(self.interval))
        # runs of any length: start near the period of any internal clean-up
        n = w.pick([0, 9999, 9990, 9900])
        if isinstance(getattr(self.sampler, 'counter', None), int):
            self.sampler.counter = n
        self.kicks = self.w.pick([0, 100, 400, 2000]) if self.kind == 'itimer' and prop != 'S02' else 0
        self.base_mode = w.weighted([(4, None), (1, 'frame'), (1, 'code'), (2, 'ignore_codes'),
                                     (1, 'ignore_frames'), (2, 'mixed')])
        self.prev_handler = w.pick([None, 'own', 'ignore'])
        self.rounds = w.randint(1, 3)
        self.depth = w.randint(1, 5)
        self.roots = [w.below(self.program.n) for _ in range(self.rounds + 1)]
        self.windows, self.samples = [], []

    # -- ground truth -----------------------------------------------------------

    def note_sample(self, frame):
        world, sim = self.world, engine.SIM
        s = Sample()
        s.t0, s.t1 = world.tick(), None
        s.window = self.windows[-1] if self.windows else None
        s.tid = sim.cur.tid
        frames = []
        f = frame
        while f is not None:
            frames.append(f)
            f = f.f_back
        s.chain = tuple(frames)
        s.path = self.path_of(frames, s.window) if s.window else None
        sim.log('sample', s.path and s.path[-1][0])
        self.samples.append(s)
        return s

    def path_of(self, frames, wnd):
        path = []
        for f in frames:
            if f is wnd.base_frame or f.f_code is wnd.base_code:
                break
            if f not in wnd.ignored_frames and f.f_code not in wnd.ignored_codes:
                path.append(key(f.f_code))
        path.reverse()
        return tuple(path)

    def sig_log(self, signum, frame, handler):
        if signum == signal.SIGPROF and self.windows:
            self.note_sample(frame).t1 = self.world.tick()

    # -- S02: every event of every thread -------------------------------------------

    def on_profile(self, task, frame, event, arg):
        task.data['event_frame'] = frame
        task.data['cpu'] = task.cpu
        task.data['sampled'] = 0
        task.data['event_at'] = self.world.tick()

    def on_profile_end(self, task):
        data = task.data
        data.pop('event_frame', None)
        if self.prop != 'S02':
            return
        cpu, n, at = data['cpu'], data['sampled'], data['event_at']
        wnd = self.windows[-1] if self.windows else None
        last = data.get('last_sample', 0)
        sure = wnd is not None and wnd.start_end is not None and at > wnd.start_end and wnd.stop_begin is None
        if sure:
            if cpu - last >= self.interval and not n and task.exc is None:
                self.run.out.violate('S02-missed', 'a thread used %r s since its last sample (interval %r), but '
                                     'its next event was not sampled (cpu %r)' % (
                                         seconds(cpu - last), seconds(self.interval), cpu))
            lw = data.get('last_window')
            if n and lw is not None and cpu - last < self.interval:
                self.run.out.violate('S02-early', 'a thread was sampled %r s after its last sample (interval %r)' % (
                    seconds(cpu - last), seconds(self.interval)))
            if n > 1:
                self.run.out.violate('S02-twice', 'one event was sampled %d times' % n)
        if n:
            data['last_sample'] = cpu
            data['last_window'] = wnd

    # -- windows ----------------------------------------------------------------------

    def check_later(self):
        """Nothing changes the result of a stopped profiler."""
        sim = engine.SIM
        if not self.windows or self.profiler.is_running() or self.prop == 'S02':
            return
        wnd = self.windows[-1]
        if wnd.stop_end is None:
            return
        sim.quiet += 1
        try:
            later = walk(self.profiler.result()[0])
        finally:
            sim.quiet -= 1
        if later != wnd.got:
            self.run.out.violate(self.prop + '-late', 'the statistics changed after stop returned: %s' % (
                [(show(p), wnd.got.get(p), later.get(p)) for p in sorted(set(later) | set(wnd.got), key=repr)
                 if later.get(p) != wnd.got.get(p)],))

    def start(self):
        self.check_later()
        world, sim, s = self.world, engine.SIM, self.run.s
        wnd = Window()
        p = self.profiler
        frames = [c.frame for c in world.ctx().stack]
        mode = self.base_mode
        p.base_frame = p.base_code = None
        p.ignored_frames = p.ignored_codes = ()
        if mode == 'frame' and frames:
            p.base_frame = s.pick(frames)
        if mode in ('code', 'mixed'):
            p.base_code = world.codes[s.below(self.program.n)]
        if mode in ('ignore_codes', 'mixed'):
            p.ignored_codes = [world.codes[s.below(self.program.n)] for _ in range(s.randint(1, 3))]
        if mode == 'mixed' and frames and s.chance(.5):
            p.base_frame = s.pick(frames)
        if mode in ('ignore_frames', 'mixed') and frames:
            p.ignored_frames = [s.pick(frames) for _ in range(s.randint(1, 3))]
        wnd.base_frame, wnd.base_code = p.base_frame, p.base_code
        wnd.ignored_frames, wnd.ignored_codes = tuple(p.ignored_frames), tuple(p.ignored_codes)
        wnd.start_begin = world.tick()
        self.windows.append(wnd)
        sim.log('start')
        p.start()
        wnd.expired0, wnd.cpu0 = sim.counters.get('itimer-expired', 0), sim.cpu
        wnd.start_end = world.tick()

    def stop(self):
        world, sim = self.world, engine.SIM
        wnd = self.windows[-1]
        wnd.expired1, wnd.cpu1 = sim.counters.get('itimer-expired', 0), sim.cpu
        wnd.stop_begin = world.tick()
        sim.log('stop')
        self.profiler.stop()
        wnd.stop_end = world.tick()
        sim.quiet += 1
        try:
            stats, _, _ = self.profiler.result()
            wnd.got = walk(stats)
            wnd.total = stats.deep_hits
        finally:
            sim.quiet -= 1

    def window_op(self):
        s = self.run.s
        if not s.chance(.5):
            return
        if self.profiler.is_running():
            self.stop()
        else:
            self.start()

    def call(self, k):
        self.world.C()
        try:
            self.world.F[k](self.depth)
        except Boom:
            pass
        self.world.D()

    def setup(self, sim):
        if self.kind == 'tracing':
            sim.on_profile, sim.on_profile_end = self.on_profile, self.on_profile_end

    def main(self):
        sim = engine.SIM
        world = self.world = World(sim, work_cap=100000)
        run = self
        self.program.load(world)
        world.on_window_op = self.window_op if 'window' in self.feats else None

        class Profiler(self.SamplingProfiler):
            def sample(self, frame):
                if run.kind != 'tracing':
                    return super(Profiler, self).sample(frame)
                engine.SIM.cur.data['sampled'] = engine.SIM.cur.data.get('sampled', 0) + 1
                # what the interpreter reported, not what the sampler made of it
                s = run.note_sample(engine.SIM.cur.data.get('event_frame', frame))
                super(Profiler, self).sample(frame)
                s.t1 = run.world.tick()
        self.profiler = Profiler(sampler=self.sampler)
        if self.kind == 'itimer':
            sim.sig_log = self.sig_log
            if self.prev_handler == 'own':
                signal.signal(signal.SIGPROF, lambda signum, frame: sim.count('own-handler'))
            elif self.prev_handler == 'ignore':
                signal.signal(signal.SIGPROF, signal.SIG_IGN)

            def kick():
                if callable(sim.getsignal(signal.SIGPROF)) and sim.in_handler < 3 \
                        and sim.counters.get('kick', 0) < 150:
                    sim.count('kick')
                    sim.post_signal(signal.SIGPROF)
            if self.kicks:
                sim.interrupts(self.kicks, kick)
        s = self.run.s
        for i in range(self.rounds):
            if not self.profiler.is_running() and s.chance(.9 if i == 0 else .6):
                self.start()
            self.call(self.roots[i])
            if self.profiler.is_running() and s.chance(.4):
                self.stop()
        if s.chance(.5):
            world.J()
        if self.profiler.is_running():
            self.stop()
        world.J()
        self.check_later()

    def judge(self):
        out, world, prop = self.run.out, self.world, self.prop
        sim = self.run.sim
        for name, exc, tb in sim.task_excs:
            if not isinstance(exc, Boom):
                out.violate(prop + '-error', 'error in %s: %s' % (name, tb))
        if sim.end != 'main':
            out.violate(prop + '-stuck', 'the program did not end: %s %s, at %s' % (
                sim.end, sim.killed_by, sim.stuck_at))
            return
        for i, wnd in enumerate(self.windows):
            if wnd.stop_end is None:
                break               # start or stop failed
            if prop != 'S02':
                self.judge_counts(i, wnd)
            elif self.kind == 'itimer':
                self.judge_rate(i, wnd)
        out.counters['samples'] = len(self.samples)
        out.counters['windows'] = len(self.windows)

    def judge_rate(self, i, wnd):
        n = wnd.expired1 - wnd.expired0
        true = (wnd.cpu1 - wnd.cpu0) // self.interval
        if not true - 1 <= n <= true + 1:
            self.run.out.violate('S02-rate', 'window %d: %d samples triggered in %r s of process CPU time, '
                                 'interval %r' % (i, n, seconds(wnd.cpu1 - wnd.cpu0), seconds(self.interval)))

    def judge_counts(self, i, wnd):
        out = self.run.out
        exp = {}
        total = [0, 0]
        for s in self.samples:
            # a late sample of the previous window can come in while this one starts
            if s.t1 is not None and s.t1 < wnd.start_begin or s.t0 > wnd.stop_end:
                continue
            # None: of an earlier window's configuration
            path = self.path_of(s.chain, wnd)
            if not path:
                continue
            sure = s.t0 > wnd.start_end and s.t1 is not None and s.t1 < wnd.stop_begin
            x = exp.setdefault(path, [0, 0])
            x[0] += sure
            x[1] += 1
            total[0] += sure
            total[1] += 1
        for path, (lo, hi) in sorted(exp.items(), key=repr):
            n = wnd.got.get(path, 0)
            if not lo <= n <= hi:
                out.violate(self.prop + '-count', 'window %d: %s has %d own hits, %s samples were taken' % (
                    i, show(path), n, lo if lo == hi else '%d..%d' % (lo, hi)))
        prefixes = set()
        for path in exp:
            for j in range(1, len(path) + 1):
                prefixes.add(path[:j])
        for path, n in sorted(wnd.got.items(), key=repr):
            if n and path not in exp:
                out.violate(self.prop + '-phantom', 'window %d: %s has %d own hits without a sample' % (i, show(path), n))
            elif path not in prefixes:
                out.violate(self.prop + '-node', 'window %d: node %s, but no such stack was sampled' % (i, show(path)))
        if not total[0] <= wnd.total <= total[1]:
            out.violate(self.prop + '-total', 'window %d: %d hits in all, %s samples' % (i, wnd.total, total))
        if out.violations:
            out.notes.append('window %d: %s' % (i, {k: v for k, v in wnd.__dict__.items() if k != 'got'}))
            out.notes.extend('%s %s' % (show(p), n) for p, n in sorted(wnd.got.items(), key=repr))


def show(path):
    return '/'.join('%s@%s:%s' % (p[0], p[1].rsplit('/', 1)[-1], p[2]) for p in path)


def scenario(prop):
    def fn(run):
        t = SamplingRun(run, prop)
        out = run.out
        out.notes.append(t.program.text())
        out.notes.append('sampler=%s interval=%s preempt=%s kicks=%s base=%s prev=%s depth=%s rounds=%s' % (
            t.kind, t.interval, t.preempt, t.kicks, t.base_mode, t.prev_handler, t.depth, t.rounds))
        run.simulate(t.main, t.setup, preempt=t.preempt, cpu0=12345)
        t.judge()
        out.trivial = not t.windows or not (t.samples or run.sim.counters.get('itimer-expired'))
    return fn
