"""T01 T02 T03 L01: the tracing profiler under generated programs."""
import sys

from checks import sampling
from sim import engine, greenlets, patches
from sim.engine import TICKS, seconds
from sim.program import Boom, Context, Program, World, project, tree_dump

INF = 1 << 60


class Window(object):
    start_begin = start_end = stop_begin = stop_end = None
    base_frame = base_code = None
    ignored_frames = ignored_codes = ()
    snap = snap_raw = later = None
    program_work = 0
    raw = ()


def hidden_chain(wnd, chain, frames):
    """The visible part of a call chain; None if the last frame is hidden."""
    first = 0
    for i in range(len(frames) - 1, -1, -1):
        if frames[i] is wnd.base_frame or frames[i].f_code is wnd.base_code:
            first = i + 1
            break
    vis = []
    for i in range(first, len(frames)):
        hid = frames[i] in wnd.ignored_frames or frames[i].f_code in wnd.ignored_codes
        if not hid:
            vis.append(chain[i])
        elif i == len(frames) - 1:
            return None
    if first == len(frames):
        return None
    return tuple(vis)


def visible(wnd, call):
    return hidden_chain(wnd, call.chain, call.frames)


NO, MAYBE, YES = 0, 1, 2


def entry_in(wnd, call):
    """Does the entry of the call belong to the window?"""
    stop_begin = INF if wnd.stop_begin is None else wnd.stop_begin
    stop_end = INF if wnd.stop_end is None else wnd.stop_end
    if call.e < wnd.start_begin or call.c > stop_end:
        return NO
    sure = call.c > wnd.start_end and call.e < stop_begin
    ctx = call.ctx
    if ctx.thread_start is not None:
        # threads are hooked when they start
        if not (ctx.thread_start > wnd.start_end and ctx.thread_begun < stop_begin):
            sure = False
    return YES if sure else MAYBE


def exit_in(wnd, call):
    stop_begin = INF if wnd.stop_begin is None else wnd.stop_begin
    stop_end = INF if wnd.stop_end is None else wnd.stop_end
    if call.x is None or call.x > stop_end:
        return NO
    if call.d is not None and call.d < stop_begin:
        return YES
    return MAYBE


def expected(world, wnd, value):
    """{chain: [hits_lo, hits_hi, time_lo, time_hi]} by the reference model."""
    exp = {}
    for call in world.calls:
        ent = entry_in(wnd, call)
        if ent == NO:
            continue
        chain = visible(wnd, call)
        if chain is None:
            continue
        x = exp.setdefault(chain, [0, 0, 0, 0])
        x[1] += 1
        if ent == YES:
            x[0] += 1
        ext = exit_in(wnd, call)
        if ext != NO:
            lo, hi = value(call)
            x[3] += hi
            if ent == YES and ext == YES:
                x[2] += lo
    return exp


def active_chains(world, wnd):
    """Chains of the functions which were active when the window began: what
    happened in them since then at most (they show what was observed beneath
    them, see check_tree_times)."""
    out = {}
    for call in world.calls:
        if call.e < wnd.start_end and (call.x is None or call.x > wnd.start_begin):
            chain = visible(wnd, call)
            if chain is not None:
                end = world.global_work if call.gwork_d is None else call.gwork_d
                out[chain] = out.get(chain, 0) + max(0, end - wnd.work0)
    return out


def check_counts(out, world, wnd, got, exp, cls='T01'):
    for chain, (lo, hi, _, __) in sorted(exp.items()):
        n = got.get(chain, (0,))[0]
        if not lo <= n <= hi:
            out.violate(cls + '-count', 'function chain %s: %d calls recorded, %s made' % (
                names(world, chain), n, lo if lo == hi else '%d..%d' % (lo, hi)))
    for chain, (n, t, nodes, _) in sorted(got.items()):
        if n and chain not in exp:
            out.violate(cls + '-phantom', 'function chain %s: %d calls recorded, none made' % (
                names(world, chain), n))
        if n < 0 or t < 0:
            out.violate(cls + '-negative', 'negative: %s %r %r' % (names(world, chain), n, t))


def check_hidden(out, world, wnd, raw, cls='T01'):
    """No frame below the base, no ignored function or frame is a node."""
    ignored = set(world.kids[c] for c in wnd.ignored_codes if c in world.kids)
    for chain in raw:
        if ignored.intersection(chain):
            out.violate(cls + '-hidden', 'ignored function in %s' % names(world, chain))
    possible = set()
    for call in world.calls:
        first = 0
        for i in range(len(call.frames) - 1, -1, -1):
            if call.frames[i] is wnd.base_frame or call.frames[i].f_code is wnd.base_code:
                first = i + 1
                break
        vis = tuple(c for c, f in list(zip(call.chain, call.frames))[first:]
                    if not (f in wnd.ignored_frames or f.f_code in wnd.ignored_codes))
        for j in range(len(vis) + 1):
            possible.add(vis[:j])
    for chain in raw:
        if chain not in possible:
            out.violate(cls + '-chain', 'no function was ever called through %s' % names(world, chain))


def names(world, chain):
    return '/'.join('f%d' % k for k in chain) or '(root)'


def check_times(out, world, wnd, got, exp, stats_raw, cls='T02', exact=True, lower=True):
    active = active_chains(world, wnd)
    for chain, (lo, hi, tlo, thi) in sorted(exp.items()):
        n, t, nodes, beneath = got.get(chain, (0, 0.0, 0, 0.0))
        if chain in active:
            # also shows the total of what was called by the call in progress
            thi += min(active[chain], beneath * TICKS)
        if not lower:
            tlo = 0
        if n == 0 and nodes:
            continue
        if exact and not seconds(tlo) <= t <= seconds(thi):
            out.violate(cls + '-time', 'function chain %s: inclusive time %r recorded, %r%s true (ticks %r)' % (
                names(world, chain), t, seconds(tlo), '' if tlo == thi else '..%r' % seconds(thi), t * TICKS))
    for chain, (n, t, nodes, _) in sorted(got.items()):
        if chain not in exp and chain not in active and t > 0:
            desc = sum(v[3] for c, v in exp.items() if len(c) > len(chain) and c[:len(chain)] == chain)
            if t > seconds(desc):
                out.violate(cls + '-phantom-time', 'function chain %s: time %r recorded without a call' % (
                    names(world, chain), t))
    check_tree_times(out, stats_raw, cls)


def check_tree_times(out, raw, cls):
    """Node by node: nothing is negative, exclusive time is what it says, a
    function without calls shows what was observed beneath it."""
    def observed(node):
        tot = 0.0
        for c in node[5]:
            tot += c[2] if c[1] else observed(c)
        return tot
    todo = list(raw)
    while todo:
        node = todo.pop()
        name, hits, deep, own, void, kids = node
        if deep < 0 or own < 0 or hits < 0:
            out.violate(cls + '-negative', 'negative value in %r' % (node[:4],))
        want = max(0.0, deep - sum(c[2] for c in kids))
        if own != want:
            out.violate(cls + '-own-time', '%s: exclusive time %r, but inclusive %r minus callees %r' % (
                name, own, deep, sum(c[2] for c in kids)))
        if not hits and kids and deep != observed(node):
            out.violate(cls + '-void-time', '%s was only active: shows %r, observed beneath %r' % (
                name, deep, observed(node)))
        todo.extend(kids)


def raw_tree(stats):
    return [(n.name, n.own_hits, n.deep_time, n.own_time, 0, raw_tree(n)) for n in stats]


class TracingRun(object):
    """Drives one program under one tracing profiler."""

    def __init__(self, run, prop):
        self.run, self.prop = run, prop
        w = self.w = run.w
        from profiling.tracing import TracingProfiler
        from profiling.tracing.timers import GreenletTimer, ThreadTimer, Timer
        feats = set()
        for f, p in [('gen', .4), ('exc', .5), ('closure', .4), ('window', .5)]:
            if w.chance(p):
                feats.add(f)
        threads = {'T01': .6, 'T02': .35, 'T03': 1, 'L01': .7}[prop]
        self.greenlets = prop == 'T03' and w.chance(.5)
        if self.greenlets:
            feats.update(('thread', 'greenlet'))
        elif w.chance(threads):
            feats.add('thread')
            if w.chance(.5):
                feats.add('sleep')
        if prop == 'L01':
            feats.add('window')
        feats.update(('twin', 'deep'))
        self.feats = feats
        self.program = Program(w, feats)
        self.threaded = 'thread' in feats and not self.greenlets
        self.preempt = w.pick([0, 200, 60, 25]) if self.threaded else 0
        self.timer_kind = 'greenlet' if self.greenlets else 'thread' if prop == 'T03' else 'plain'
        if prop in ('T01', 'L01') and w.chance(.3):
            self.timer_kind = 'thread'
        if prop == 'T02' and not self.threaded and w.chance(.2):
            self.timer_kind = 'thread'
        self.costs = w.weighted([(1, (0, 0)), (2, (5, 3)), (1, (0, 4)), (1, (900, 7)), (1, (3, 0)), (.5, (30000, 11))])
        self.base_mode = w.weighted([(5, None), (1, 'frame'), (1, 'code'), (1, 'ignore_codes'),
                                     (1, 'ignore_frames'), (1, 'mixed')])
        if prop in ('T02', 'T03'):
            self.base_mode = w.weighted([(7, None), (1, 'frame'), (1, 'ignore_codes')])
        self.wall0 = w.pick([0, 1 << 30, 3 << 48])
        self.clock_fault = prop == 'T02' and w.chance(.12)
        self.rounds = w.randint(1, 3)
        self.depth = w.randint(1, 5)
        self.roots = [w.below(self.program.n) for _ in range(self.rounds + 1)]
        self.windows = []
        self.TracingProfiler = TracingProfiler
        self.timer_class = {'greenlet': GreenletTimer, 'thread': ThreadTimer, 'plain': Timer}[self.timer_kind]
        if self.greenlets:
            GreenletTimer.__dict__['greenlet'].module = None

    # -- window operations -----------------------------------------------------

    def start(self):
        world, sim, s = self.world, self.sim, self.run.s
        self.check_later()
        wnd = Window()
        p = self.profiler
        ctx = world.ctx()
        frames = [c.frame for c in ctx.stack]
        mode = self.base_mode
        if mode == 'frame' and frames:
            p.base_frame = s.pick(frames)
        if mode in ('code', 'mixed'):
            p.base_code = world.codes[s.below(self.program.n)] if world.codes else None
        if mode in ('ignore_codes', 'mixed'):
            p.ignored_codes = [world.codes[s.below(self.program.n)] for _ in range(s.randint(1, 3))]
        if mode == 'mixed' and frames and s.chance(.5):
            p.base_frame = s.pick(frames)
        if mode in ('ignore_frames', 'mixed') and frames:
            p.ignored_frames = [s.pick(frames) for _ in range(s.randint(1, 3))]
        wnd.base_frame, wnd.base_code = p.base_frame, p.base_code
        wnd.ignored_frames, wnd.ignored_codes = p.ignored_frames, p.ignored_codes
        wnd.work0 = world.global_work
        wnd.start_begin = world.tick()
        sim.log('start')
        p.start()
        wnd.start_end = world.tick()
        sim.log('started')
        self.windows.append(wnd)

    def stop(self):
        world, sim = self.world, self.sim
        wnd = self.windows[-1]
        if self.prop == 'T02' and self.run.s.chance(.15):
            # the wall clock is set
            sim.wall_off -= self.run.s.pick([1, 1 << 20, 1 << 40, -(1 << 30)])
            sim.count('wall-clock-step')
        wnd.stop_begin = world.tick()
        sim.log('stop')
        wnd.work1 = world.global_work
        if self.run.s.chance(.3):
            sim.quiet += 1
            wnd.running_result = self.profiler.result()
            wnd.running_work = world.global_work
            sim.quiet -= 1
        self.profiler.stop()
        wnd.stop_end = world.tick()
        sim.log('stopped')
        self.snapshot(wnd)

    def snapshot(self, wnd):
        sim = self.sim
        sim.quiet += 1
        try:
            stats, wnd.cpu_time, wnd.wall_time = self.profiler.result()
            wnd.result_work = self.world.global_work
            wnd.got = project(stats, self.world.names)
            wnd.raw = raw_tree(stats)
            wnd.dump = tree_dump(stats)
        finally:
            sim.quiet -= 1

    def check_later(self):
        """Once stopped, nothing changes any more."""
        if not self.windows:
            return
        wnd = self.windows[-1]
        sim = self.sim
        sim.quiet += 1
        try:
            wnd.later = raw_tree(self.profiler.stats)
        finally:
            sim.quiet -= 1

    def window_op(self):
        s = self.run.s
        if not s.chance(.5):
            return
        if self.profiler.is_running():
            self.stop()
        else:
            self.start()

    # -- the run ------------------------------------------------------------------

    def setup(self, sim):
        sim.read_cost, sim.store_cost = self.costs
        if self.greenlets:
            greenlets.install()
        patches.make_stores_costly()
        sim.preempt_callbacks = self.timer_kind == 'thread' or self.prop in ('T01', 'L01')
        if self.clock_fault:
            w = self.run.w
            state = {'off': 0}
            kinds = w.pick(['back', 'stall', 'coarse', 'zero'])

            def cpu_clock(sim):
                if kinds == 'back':
                    if sim.s.chance(.1):
                        state['off'] -= sim.s.pick([1, 100, 5000])
                        sim.count('clock-step-back')
                    return sim.cpu + state['off']
                if kinds == 'stall':
                    if sim.s.chance(.05):
                        state['at'] = None if state.get('at') else sim.cpu
                        sim.count('clock-stall')
                    return state.get('at') or sim.cpu
                if kinds == 'coarse':
                    sim.count('clock-coarse')
                    return sim.cpu - sim.cpu % 4096
                sim.count('clock-zero')
                return 0
            sim.hooks['cpu_clock'] = cpu_clock

    def main(self):
        sim = engine.SIM
        self.sim = sim
        world = self.world = World(sim)
        self.program.load(world)
        world.on_window_op = self.window_op if 'window' in self.feats else None
        self.profiler = self.TracingProfiler(timer=self.timer_class())
        if self.greenlets:
            self.setup_greenlets(world)
        s = self.run.s
        for i in range(self.rounds):
            if not self.profiler.is_running() and s.chance(.9 if i == 0 else .6):
                self.start()
            self.call(self.roots[i])
            if self.profiler.is_running() and s.chance(.4):
                self.stop()
        if self.prop == 'T01' or s.chance(.5):
            world.J()
        if self.profiler.is_running():
            self.stop()
        if s.chance(.8):
            self.call(self.roots[-1])
            if self.profiler.is_running():
                self.stop()
        world.J()
        if self.profiler.is_running():
            self.stop()
        self.check_later()

    def call(self, k):
        world = self.world
        world.C()
        try:
            world.F[k](self.depth)
        except Boom:
            pass
        world.D()

    # -- greenlets -------------------------------------------------------------------

    def setup_greenlets(self, world):
        live, dead, made = [], [], [0]
        s = self.run.s

        def context():
            g = greenlets.getcurrent()
            ctx = getattr(g, 'ctx', None)
            if ctx is None:
                ctx = g.ctx = Context('greenlet')
                world.contexts.append(ctx)
            return ctx

        def spawn(k, d):
            if made[0] >= 8 or k not in world.F:
                return
            made[0] += 1
            if dead and s.chance(.7):
                g = dead.pop()          # the same id
                g.__init__()
                self.sim.count('greenlet-id-reused')
            else:
                g = greenlets.greenlet()
            ctx = g.ctx = Context('greenlet%d' % made[0])
            world.contexts.append(ctx)

            def body():
                ctx.last_c = world.tick()
                ctx.last_gwork = world.global_work
                try:
                    world.F[k](d)
                except Boom:
                    pass
                t = world.tick()
                for c in ctx.undone:
                    c.d = t
                    c.gwork_d = world.global_work
                live.remove(g)
                dead.append(g)
            g.run = body
            g.parent = greenlets.group().main
            live.append(g)

        def switch():
            me = greenlets.getcurrent()
            others = [g for g in live + [greenlets.group().main] if g is not me]
            if others and s.chance(.8):
                target = s.pick(others)
                if target.task is not None and s.chance(.2):
                    target.throw(Boom)
                else:
                    target.switch()

        def join():
            while live and greenlets.getcurrent() is greenlets.group().main:
                try:
                    s.pick(live).switch()
                except Boom:
                    pass
        world.current_context, world.on_spawn, world.on_switch, world.on_join = context, spawn, switch, join

    def value(self, call):
        """Bounds of the time of a call."""
        if self.timer_kind in ('thread', 'greenlet'):
            t = call.work_x - call.work_e
            return t, t
        t = call.gwork_x - call.gwork_e
        if not self.threaded:
            return t, t
        # other threads can work between the call's events and our markers
        done = self.world.global_work if call.gwork_d is None else call.gwork_d
        return t, done - call.gwork_c

    def judge(self):
        out, world, prop = self.run.out, self.world, self.prop
        sim = self.sim
        for name, exc, tb in sim.task_excs:
            if not isinstance(exc, Boom):
                out.violate(prop + '-error', 'error in %s: %s' % (name, tb))
        if sim.end != 'main':
            out.violate(prop + '-stuck', 'the program did not end: %s, at %s' % (sim.end, sim.stuck_at))
            return
        for i, wnd in enumerate(self.windows):
            exp = expected(world, wnd, self.value)
            if prop in ('T01', 'L01'):
                check_counts(out, world, wnd, wnd.got, exp, prop)
                check_hidden(out, world, wnd, wnd.got, prop)
            if prop == 'L01':
                if wnd.later is not None and wnd.later != wnd.raw:
                    out.violate('L01-late', 'window %d: the statistics changed after stop returned:\n%r\n%r' % (
                        i, wnd.raw, wnd.later))
                check_times(out, world, wnd, wnd.got, exp, wnd.raw, prop, lower=self.timer_kind == 'thread')
            if prop in ('T02', 'T03'):
                check_counts(out, world, wnd, wnd.got, exp, prop)
                if self.clock_fault:
                    check_tree_neg(out, wnd, prop)
                else:
                    check_times(out, world, wnd, wnd.got, exp, wnd.raw, prop)
                    if prop == 'T02' and (not self.threaded):
                        self.check_cpu_time(wnd, i)
                if wnd.cpu_time < 0 or wnd.wall_time < 0:
                    out.violate(prop + '-negative', 'total times %r %r' % (wnd.cpu_time, wnd.wall_time))
            if out.violations:
                out.notes.append('window %d: %s' % (i, {k: v for k, v in wnd.__dict__.items()
                                                         if k not in ('raw', 'got', 'dump', 'later', 'running_result')}))
                out.notes.extend(wnd.dump)
                break

    def check_cpu_time(self, wnd, i):
        true = seconds(wnd.result_work - wnd.work0)
        if wnd.cpu_time != true:
            self.run.out.violate('T02-total', 'window %d: total CPU time %r, the program used %r' % (
                i, wnd.cpu_time, true))
        rr = getattr(wnd, 'running_result', None)
        if rr is not None:
            true = seconds(wnd.running_work - wnd.work0)
            if rr[1] != true:
                self.run.out.violate('T02-total', 'window %d, running: total CPU time %r, the program used %r' % (
                    i, rr[1], true))


def check_tree_neg(out, wnd, cls):
    todo = list(wnd.raw)
    while todo:
        node = todo.pop()
        if node[2] < 0 or node[3] < 0 or node[1] < 0:
            out.violate(cls + '-negative', 'negative value in %r' % (node[:4],))
        todo.extend(node[5])


def scenario(prop):
    def fn(run):
        if prop == 'L01' and run.w.chance(.25):
            # the windows of the sampling profiler
            return sampling.scenario(prop)(run)
        t = TracingRun(run, prop)
        out = run.out
        out.notes.append(t.program.text())
        out.notes.append('preempt=%s timer=%s base=%s costs=%s clock_fault=%s depth=%s rounds=%s' % (
            t.preempt, t.timer_kind, t.base_mode, t.costs, t.clock_fault, t.depth, t.rounds))
        run.simulate(t.main, t.setup, preempt=t.preempt, cpu0=12345, wall0=t.wall0)
        t.judge()
        out.trivial = not t.windows or len(t.world.calls) < 2
        out.counters['calls'] = len(t.world.calls)
        out.counters['windows'] = len(t.windows)
    return fn
