"""D01: freezing results, of stopped profilers and while others record."""
import copyreg
import pickle
import signal
import types

from sim import engine, patches
from sim.engine import seconds
from sim.program import Boom, Program, World

FUNCS = {}
#: pickle is Python code here, which costs too much to record
HIDDEN = (pickle.__file__, copyreg.__file__)


def CHAIN(chain):
    work(1)
    if chain:
        funcs[chain[0]](chain[1:])
    work(1)


def make_code(name, filename, lineno, salt):
    key = (name, filename, lineno, salt)
    code = FUNCS.get(key)
    if code is None:
        code = CHAIN.__code__ if salt == 'chain' else (lambda: salt).__code__
        code = code.replace(co_name=name, co_filename=filename, co_firstlineno=lineno)
        FUNCS[key] = code
    return code


def canonical(root):
    """(number of nodes, canonical form) of a tree, however deep."""
    order, todo = [], [root]
    kids = {}
    while todo:
        node = todo.pop()
        order.append(node)
        kids[id(node)] = list(node)
        todo.extend(kids[id(node)])
    intern, ids = {}, {}
    for node in reversed(order):
        members = (node.name, node.filename, node.lineno, node.module, node.own_hits, repr(node.deep_time))
        form = (members, tuple(sorted(ids[id(k)] for k in kids[id(node)])))
        ids[id(node)] = intern.setdefault(form, len(intern))
    # intern numbers depend on the order of visits: make them canonical
    names = {}
    for form, n in sorted(((f, n) for f, n in intern.items()), key=lambda x: x[1]):
        members, children = form
        names[n] = hash_of((members, sorted(names[c] for c in children)))
    return len(order), names[ids[id(root)]]


def hash_of(x):
    import hashlib
    return hashlib.sha1(repr(x).encode('utf-8', 'backslashreplace')).hexdigest()


def totals(root):
    """{chain of keys: (hits, time, nodes)}"""
    out = {}
    todo = [((), n) for n in root]
    while todo:
        chain, node = todo.pop()
        chain = chain + ((node.name, node.filename, node.lineno),)
        h, t, n = out.get(chain, (0, 0.0, 0))
        out[chain] = (h + node.own_hits, t + node.deep_time, n + 1)
        todo.extend((chain, k) for k in node)
    return out


class SnapshotRun(object):

    def __init__(self, run, prop):
        self.run, self.prop = run, prop
        w = self.w = run.w
        self.mode = w.weighted([(1, 'tree'), (2, 'record'), (2, 'dense')])
        self.protocols = list(range(pickle.HIGHEST_PROTOCOL + 1))
        self.snapshots = 0
        self.note = ''
        if self.mode == 'dense':
            self.preempt = w.pick([15, 40, 6, 100])
            self.plans = [[w.below(40) for _ in range(w.randint(3, 30))] for _ in range(w.randint(1, 3))]
            self.nested = w.pick([0, 2, 5])
            self.sampled = w.chance(.3)
            self.pause = w.pick([1, 20, 100])
        if self.mode == 'record':
            feats = set(['thread', 'window'])
            for f, p in [('gen', .4), ('exc', .5), ('closure', .4), ('sleep', .5)]:
                if w.chance(p):
                    feats.add(f)
            self.kind = w.pick(['tracing', 'tracing-thread', 'sampling', 'sampling-tracing'])
            self.program = Program(w, feats, heavy=self.kind.startswith('sampling'))
            self.preempt = w.pick([60, 25, 10, 200])
            self.depth = w.randint(2, 5)
            self.roots = [w.below(self.program.n) for _ in range(w.randint(1, 3))]
            self.kicks = w.pick([0, 100, 30]) if self.kind == 'sampling' else 0
            self.interval = w.pick([256, 2048])

    def violate(self, cls, msg):
        self.run.out.violate('D01-' + cls, msg)

    # -- trees of any shape ------------------------------------------------------

    def tree_main(self):
        w = self.w
        from profiling.stats import RecordingStatistics, VoidRecordingStatistics
        from profiling.profiler import Profiler
        p = Profiler()
        root = p.stats
        shape = w.weighted([(80, 'random'), (20, 'deep'), (17, 'wide'), (3, 'huge')])
        n = w.small({'random': 60, 'deep': 2500, 'wide': 1500, 'huge': 16000}[shape]) + 1000 * (shape == 'huge')
        self.note = '%s tree of %d nodes' % (shape, n)
        names = ['f', 'g', '<lambda>', '<module>', u'\xe4\u20ac', '', 'run', 'f' * 300]
        files = ['/prog/mod0.py', '/prog/mod1.py', '<string>', 'C:\\prog.py']
        nodes = [root]
        for i in range(n):
            parent = {'random': lambda: nodes[w.below(len(nodes))], 'deep': lambda: nodes[-1],
                      'wide': lambda: root,
                      'huge': lambda: nodes[w.below(i // 50 + 1)] if i < 2000 else nodes[i % 2000]}[shape]()
            if i < 80:
                code = make_code(w.pick(names), w.pick(files), w.pick([1, 2, 7, 100000]), w.below(4))
                cls = w.pick([RecordingStatistics, RecordingStatistics, VoidRecordingStatistics])
                hits, time = w.pick([0, 1, 3, 10 ** 6, 1 << 70]), w.pick([0.0, 0.1, 1e-300, 1.0 / 3, 1e12, 12345.678901])
            else:
                code = make_code('f%d' % i, '/prog/mod0.py', i, 0)
                cls, hits, time = RecordingStatistics, i, i * 0.7
            stats = parent.ensure_child(code, cls)
            if cls is RecordingStatistics:
                stats.own_hits, stats.deep_time = hits, time
            nodes.append(stats)
        if w.chance(.3):
            p._cpu_time_started = p._wall_time_started = 0
            p._cpu_time_stopped, p._wall_time_stopped = 1.25, 2.5
        self.check_frozen(p, p.result())

    def check_frozen(self, p, result):
        """A stopped profiler: the frozen result equals the result."""
        w = self.w
        protocol = w.pick(self.protocols)
        stats, cpu_time, wall_time = result
        want = canonical(stats)
        try:
            data = pickle.dumps((type(p) if type(p).__module__.startswith('profiling') else None, result), protocol)
            cls, loaded = pickle.loads(data)
        except engine.SimKilled:
            raise
        except BaseException as exc:
            self.violate('fail', '%s: cannot freeze with protocol %d: %r' % (self.note, protocol, exc))
            return
        self.snapshots += 1
        if tuple(loaded[1:]) != (cpu_time, wall_time):
            self.violate('totals', '%s: totals %r became %r' % (self.note, (cpu_time, wall_time), loaded[1:]))
        got = canonical(loaded[0])
        if got != want:
            self.violate('differs', '%s: the frozen tree differs (protocol %d): %s' % (
                self.note, protocol, difference(stats, loaded[0])))
        if type(loaded[0]).__name__.startswith(('Recording', 'Void')):
            self.violate('frozen', '%s: the result is not frozen: %r' % (self.note, type(loaded[0])))
        protocol = w.pick(self.protocols)
        again = pickle.loads(pickle.dumps(loaded, protocol))
        if canonical(again[0]) != got or tuple(again[1:]) != tuple(loaded[1:]):
            self.violate('again', '%s: freezing again (protocol %d) changed: %s' % (
                self.note, protocol, difference(loaded[0], again[0])))
        if canonical(stats) != want:
            self.violate('mutated', '%s: freezing changed the statistics' % self.note)

    # -- while others record -----------------------------------------------------------

    def snapshot(self):
        sim, s = self.sim, self.run.s
        protocol = s.pick(self.protocols)
        mine = s.weighted([(2, 'hidden'), (1, 'profiled')])
        sim.quiet += 1
        before = totals(self.profiler.stats)
        sim.quiet -= 1
        # recording how the snapshot is taken deepens the tree a lot
        if self.recorded or len(before) > 25 or max(map(len, before), default=0) > 8:
            mine = 'hidden'
        if mine == 'profiled':
            self.recorded = True
            sim.hidden_files = engine.IMPORTER + HIDDEN
        if mine == 'hidden':
            sim.cur.no_profile += 1
        try:
            data = pickle.dumps(self.profiler.result(), protocol)
        except engine.SimKilled:
            raise
        except Exception as exc:
            self.violate('fail', 'cannot freeze while recording: %r' % exc)
            return
        finally:
            sim.hidden_files = engine.IMPORTER
            if mine == 'hidden':
                sim.cur.no_profile -= 1
        sim.quiet += 1
        try:
            after = totals(self.profiler.stats)
            loaded = pickle.loads(data)
            now = totals(loaded[0])
        finally:
            sim.quiet -= 1
        self.snapshots += 1
        if after != before:
            sim.count('snapshots-racing')
        for chain in before:
            if chain not in now:
                self.violate('lost', 'function %s is missing' % (chain,))
        for chain, (h, t, n) in now.items():
            h0, t0, n0 = before.get(chain, (0, 0.0, 0))
            if chain not in after:
                self.violate('phantom', 'function %s was never recorded' % (chain,))
                continue
            h1, t1, n1 = after[chain]
            if not h0 <= h <= h1:
                self.violate('hits', '%s: %r hits, were %r before and %r after' % (chain[-1], h, h0, h1))
            if not t0 <= t <= t1:
                self.violate('time', '%s: time %r, was %r before and %r after' % (chain[-1], t, t0, t1))

    def dense_main(self):
        """Threads meet new functions all the time while the main thread
        freezes the statistics."""
        import threading
        sim = self.sim = engine.SIM
        self.recorded = True
        funcs = []
        glob = {'funcs': funcs, 'work': sim.work}
        for i in range(40):
            code = make_code('f%d' % (i % 30), '/prog/mod%d.py' % (i % 2), 10 + i % 15, 'chain')
            funcs.append(types.FunctionType(code, glob))
        if self.sampled:
            from profiling.sampling import SamplingProfiler
            from profiling.sampling.samplers import TracingSampler
            self.profiler = SamplingProfiler(sampler=TracingSampler(seconds(1)))
        else:
            from profiling.tracing import TracingProfiler
            self.profiler = TracingProfiler()
        nested = self.nested

        def recorder(plan):
            for i in range(0, len(plan), nested + 1):
                chain = plan[i:i + nested + 1]
                funcs[chain[0]](chain[1:])
        threads = [threading.Thread(target=recorder, args=(plan,)) for plan in self.plans]
        self.profiler.start()
        for th in threads:
            th.daemon = True
            th.start()
        while self.snapshots < 8 and any(th.is_alive() for th in threads):
            if self.pause > 1:
                sim.sleep(self.pause)
            else:
                sim.yield_()
            self.snapshot()
        for th in threads:
            th.join()
        self.profiler.stop()
        self.note = 'a recorded tree'
        sim.quiet += 1
        self.check_frozen(self.profiler, self.profiler.result())
        sim.quiet -= 1

    def window_op(self):
        if self.taking or self.taken >= 6:
            return
        if self.run.s.chance(.4):
            self.taking = True
            self.taken += 1
            self.snapshot()
            self.taking = False

    def record_main(self):
        sim = self.sim = engine.SIM
        world = self.world = World(sim, work_cap=60000)
        self.taking, self.taken, self.recorded = False, 0, False
        self.program.load(world)
        world.on_window_op = self.window_op
        if self.kind.startswith('tracing'):
            from profiling.tracing import TracingProfiler
            from profiling.tracing.timers import ThreadTimer, Timer
            self.profiler = TracingProfiler(timer=ThreadTimer() if self.kind == 'tracing-thread' else Timer())
        else:
            from profiling.sampling import SamplingProfiler
            from profiling.sampling.samplers import ItimerSampler, TracingSampler
            cls = ItimerSampler if self.kind == 'sampling' else TracingSampler
            self.profiler = SamplingProfiler(sampler=cls(seconds(self.interval)))
        if self.kicks:
            def kick():
                if callable(sim.getsignal(signal.SIGPROF)) and not sim.in_handler \
                        and sim.counters.get('kick', 0) < 30:
                    sim.count('kick')
                    sim.post_signal(signal.SIGPROF)
            sim.interrupts(self.kicks, kick)
        self.profiler.start()
        for k in self.roots:
            world.C()
            try:
                world.F[k](self.depth)
            except Boom:
                pass
            world.D()
            if self.run.s.chance(.5) and self.taken < 6:
                self.taken += 1
                self.snapshot()
        if self.run.s.chance(.7):
            world.J()
        self.profiler.stop()
        self.note = 'a recorded tree'
        sim.quiet += 1
        self.check_frozen(self.profiler, self.profiler.result())
        sim.quiet -= 1
        world.J()


def difference(a, b):
    todo = [((), a, b)]
    while todo:
        path, a, b = todo.pop()
        ma = (a.name, a.filename, a.lineno, a.module, a.own_hits, a.deep_time)
        mb = (b.name, b.filename, b.lineno, b.module, b.own_hits, b.deep_time)
        if ma != mb:
            return 'at %s: %r became %r' % ('/'.join(map(str, path[-5:])), ma, mb)
        ka, kb = list(a), list(b)
        if len(ka) != len(kb):
            return 'at %s: %d children became %d' % ('/'.join(map(str, path[-5:])), len(ka), len(kb))
        todo.extend((path + (x.name,), x, y) for x, y in zip(ka, kb))
    return 'order only'


def scenario(prop):
    import profiling.sampling.samplers
    import profiling.tracing.timers
    profiling.sampling, profiling.tracing

    def fn(run):
        t = SnapshotRun(run, prop)
        mods = {}
        for name in ('mod0', 'mod1'):
            mods['/prog/%s.py' % name] = types.ModuleType('pkg.' + name)
        patches.MODULES.clear()
        if run.w.chance(.5):
            patches.MODULES.update(mods)
        if t.mode == 'tree':
            run.simulate(t.tree_main)
        elif t.mode == 'dense':
            run.simulate(t.dense_main, preempt=t.preempt)
        else:
            run.simulate(t.record_main, preempt=t.preempt, max_points=40000000)
        sim, out = run.sim, run.out
        patches.MODULES.clear()
        for name, exc, tb in sim.task_excs:
            if not isinstance(exc, Boom):
                out.violate('D01-error', 'error in %s: %s' % (name, tb))
        if sim.end != 'main':
            out.violate('D01-stuck', 'the program did not end: %s, at %s' % (sim.end, sim.stuck_at))
        if t.mode == 'tree':
            out.notes.append(t.note)
        elif t.mode == 'dense':
            out.notes.append('plans %s nested=%s sampled=%s preempt=%s pause=%s' % (
                t.plans, t.nested, t.sampled, t.preempt, t.pause))
        else:
            out.notes.append(t.program.text())
            out.notes.append('%s preempt=%s kicks=%s' % (t.kind, t.preempt, t.kicks))
        out.counters['snapshots'] = t.snapshots
        out.counters['mode-' + t.mode] = 1
        out.trivial = not t.snapshots
    return fn
