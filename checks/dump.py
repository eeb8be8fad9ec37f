"""D02: dumping to a file and viewing it, on a storage which fails and in a
process which dies."""
import datetime
import errno
import os
import pickle
import selectors
import socket
import sys

import urwid
import urwid.display.common
import urwid.display.raw

from checks.reconnect import make_selector
from checks.snapshot import canonical, make_code
from sim import engine, fs as simfs, net as simnet
from sim.harness import h

SIZE = (100, 40)
PATHS = ['/sim/a.prof', '/sim/b.prof']
ERRNOS = [errno.ENOSPC, errno.EIO, errno.EDQUOT, errno.EACCES, errno.EMFILE, errno.EROFS]


def lines_of(canvas):
    return [b''.join(t for _, _, t in line).decode('utf-8', 'replace').rstrip() for line in canvas.content()]


class Screen(urwid.display.common.BaseScreen):
    """A terminal whose user looks at it and presses the keys of a script."""

    def __init__(self, *args, **kwargs):
        super(Screen, self).__init__()
        self.run = engine.SIM.hooks['terminal']
        self.handle = None
        self.mono = False

    def set_terminal_properties(self, colors=None, **kwargs):
        self.mono = colors == 1

    def get_cols_rows(self):
        return SIZE

    def hook_event_loop(self, event_loop, callback):
        tty = self.run.tty()

        def ready():
            if tty.recv(1):
                callback(self.run.keys(), [])
        self.handle = event_loop.watch_file(tty.fileno(), ready)

    def unhook_event_loop(self, event_loop):
        if self.handle is not None:
            event_loop.remove_watch_file(self.handle)
            self.handle = None

    def draw_screen(self, size, canvas):
        self.run.drawn(canvas)


class Shown(object):

    def __init__(self):
        self.kind = None
        self.result = self.args = None
        self.screen = None


def canonical_result(result):
    stats, cpu, wall = result
    return canonical(stats), repr(cpu), repr(wall)


class Terminal(object):
    """Sees what the viewer is given and what it draws."""

    def __init__(self, sim, net):
        self.sim, self.net = sim, net
        sim.hooks['terminal'] = self
        self.shown = None

    def tty(self):
        a, b = self.net.socketpair()
        self.sim.after(engine.ticks(.5), lambda: a.send(b'k'))
        return b

    def keys(self):
        return ['q']

    def drawn(self, canvas):
        self.shown.screen = lines_of(canvas)

    def see(self, args):
        """Runs the command; returns what it showed and how it ended."""
        from profiling.__main__ import cli
        shown = self.shown = Shown()
        exc = None
        path = list(sys.path)
        try:
            cli.main(args, prog_name='profiling', standalone_mode=False)
        except (engine.SimKilled, simfs.Crashed):
            raise
        except BaseException as e:
            exc = e
        finally:
            sys.path[:] = path
        return shown, exc


def watch_viewers():
    """What viewers are given is told to the terminal of the simulation."""
    from profiling.viewer import StatisticsViewer
    set_class, set_result = StatisticsViewer.set_profiler_class, StatisticsViewer.set_result

    def shown():
        sim = engine.SIM
        t = sim.hooks.get('terminal') if sim is not None else None
        return None if t is None else t.shown

    def set_profiler_class(self, cls):
        s = shown()
        if s is not None:
            s.kind = cls
        return set_class(self, cls)

    def set_result_(self, stats, cpu_time=0.0, wall_time=0.0, title=None, at=None):
        s = shown()
        if s is not None:
            sim = engine.SIM
            sim.quiet += 1
            try:
                s.args = stats, cpu_time, wall_time
                s.result = canonical_result(s.args)
            finally:
                sim.quiet -= 1
        return set_result(self, stats, cpu_time, wall_time, title, at)
    StatisticsViewer.set_profiler_class = set_profiler_class
    StatisticsViewer.set_result = set_result_


class DumpRun(object):

    def __init__(self, run, prop):
        self.run, self.prop = run, prop
        w = self.w = run.w
        self.steps = []
        for _ in range(w.randint(1, 5)):
            self.steps.append(dict(
                path=w.pick(PATHS[:1] * 3 + PATHS[1:]), kind=w.below(3), shape=w.weighted([
                    (3, 'small'), (2, 'medium'), (1, 'large'), (1, 'empty')]),
                protocol=w.pick([None] + list(range(pickle.HIGHEST_PROTOCOL + 1))),
                fault=w.weighted([(3, None), (2, 'short'), (3, 'errno'), (2, 'full'), (3, 'crash'), (1, 'interrupt')]),
                again=w.chance(.3), die=w.chance(.5), rfault=w.weighted([(6, None), (1, 'short'), (1, 'errno')])))
        self.notes = []
        self.served = 0

    def violate(self, cls, msg):
        self.run.out.violate('D02-' + cls, '%s [%s]' % (msg, '; '.join(self.notes[-4:])))

    # -- the profilers -------------------------------------------------------------------

    def make_profiler(self, kind, shape):
        from profiling.profiler import Profiler
        from profiling.sampling import SamplingProfiler
        from profiling.stats import RecordingStatistics
        from profiling.tracing import TracingProfiler
        s, sim = self.run.s, self.sim
        sim.quiet += 1
        try:
            p = [TracingProfiler, SamplingProfiler, Profiler][kind]()
            if kind == 2:
                p._cpu_time_started = p._wall_time_started = 0.
                p._cpu_time_stopped, p._wall_time_stopped = 1. + s.below(50), 64.
            else:
                p.start()
                sim.work(1000 + s.below(100000))
                p.stop()
                p.stats.clear()
            nodes = [p.stats]
            n = {'empty': 0, 'small': s.randint(1, 5), 'medium': s.randint(30, 60), 'large': 350}[shape]
            for i in range(n):
                code = make_code(s.pick(['f', 'g', u'\xe4\u20ac', 'h%d' % i]), s.pick(['/prog/mod0.py', '<string>']), i, 0)
                node = nodes[s.below(len(nodes))].ensure_child(code, RecordingStatistics)
                node.own_hits, node.deep_time = 1 + s.below(5000), s.below(100000) / 1024.
                nodes.append(node)
        finally:
            sim.quiet -= 1
        return p

    def expected(self, p, path):
        """What a viewer of the result in memory shows."""
        from profiling.viewer import StatisticsViewer
        sim = self.sim
        sim.quiet += 1
        self.terminal.shown = Shown()
        try:
            result = p.result()
            return dict(kind=type(p), result=canonical_result(result), args=result, n=self.n)
        finally:
            sim.quiet -= 1

    def reference(self, exp, path):
        from profiling.viewer import StatisticsViewer
        sim = self.sim
        sim.quiet += 1
        self.terminal.shown = Shown()
        try:
            viewer = StatisticsViewer()
            viewer.set_profiler_class(exp['kind'])
            stats, cpu, wall = exp['args']
            at = datetime.datetime.fromtimestamp(self.fs.files[path].mtime)
            viewer.set_result(stats, cpu, wall, title=os.path.basename(path), at=at)
            viewer.activate()
            return lines_of(viewer.widget.render(SIZE, True))
        finally:
            sim.quiet -= 1

    # -- faults ------------------------------------------------------------------------------

    def arm(self, fault):
        s, fs = self.run.s, self.fs
        fs.policy, fs.capacity = None, engine.FOREVER
        at = 1 + s.small(12)
        count = [0]
        self.fired = False
        if fault == 'short':
            def policy(op, path, size):
                if op in ('write', 'read') and size > 1:
                    return 'short', s.pick([1, 7, 100, 4096])
            if s.chance(.7):
                fs.policy = lambda *a: policy(*a) if s.chance(.5) else None
            else:
                fs.policy = policy
        elif fault in ('errno', 'crash'):
            e = s.pick(ERRNOS)
            frac = s.pick([0, 1, 100, 1 << 30])
            ops = s.pick([('write', 'close', 'open', 'fsync', 'rename', 'truncate', 'unlink', 'stat', 'read'), ('write',),
                          ('close',), ('rename', 'fsync', 'close')])

            def policy(op, path, size):
                if op not in ops:
                    return
                count[0] += 1
                if count[0] == at:
                    self.fired = True
                    return fault, (e if fault == 'errno' else frac)
            fs.policy = policy
        elif fault == 'full':
            fs.capacity = fs.used() + s.small(30000)

    def disarm(self):
        self.fs.policy, self.fs.capacity = None, engine.FOREVER
        self.sim.interrupts(0, None)

    # -- the history -----------------------------------------------------------------------------

    def main(self):
        sim = self.sim = engine.SIM
        fs = self.fs = simfs.use(sim)
        net = simnet.Net(sim, self.run.s)
        simnet.use(sim, net)
        self.terminal = Terminal(sim, net)
        complete = {}               # path: results which may be in there
        torn = {}                   # path: whether it may be damaged
        p = None
        for self.n, step in enumerate(self.steps):
            path = step['path']
            if p is None or not step['again']:
                p = self.make_profiler(step['kind'], step['shape'])
            exp = self.expected(p, path)
            note = 'dump %d of %s (%s, %s) to %s, %s' % (
                self.n, exp['kind'].__name__, step['shape'], step['protocol'], path, step['fault'] or 'no fault')
            self.notes.append(note)
            sim.log(note)
            self.arm(step['fault'])
            if step['fault'] == 'interrupt':
                def interrupt():
                    sim.interrupts(0, None)
                    sim.count('interrupted')
                    raise KeyboardInterrupt
                sim.interrupts(self.run.s.pick([3, 10, 100, 1000, 10000]), interrupt)
            how = 'returned'
            try:
                if step['protocol'] is None:
                    p.dump(path)
                else:
                    p.dump(path, step['protocol'])
            except engine.SimKilled:
                raise
            except simfs.Crashed:
                how = 'crashed'
            except BaseException as exc:
                how = repr(exc)
                if not isinstance(exc, (OSError, KeyboardInterrupt)) or step['fault'] in (None, 'short', 'crash'):
                    self.violate('error', 'dump raised %r' % exc)
            if fs.proc.dead:
                how = 'crashed'
            self.disarm()
            self.notes.append(how)
            sim.count('dump-' + (how if how in ('returned', 'crashed') else 'raised'))
            if how == 'returned':
                complete[path], torn[path] = [exp], False
            else:
                complete[path] = complete.get(path, []) + [exp]
                torn[path] = True
            if fs.proc.dead or step['die']:
                # whatever the process still holds is lost
                fs.proc.dead = True
                fs.proc = simfs.Process('p%d' % (self.n + 1))
            sim.sleep(self.run.s.pick([0, 1 << 20, 100 << 20]))
            for path in sorted(complete):
                if not self.view(path, complete, torn, step['rfault']):
                    return
            fs.proc = simfs.Process('p%d' % (self.n + 1))
            self.served += 1

    def view(self, path, complete, torn, rfault):
        sim = self.sim
        self.notes.append('view %s' % path)
        self.fs.proc = simfs.Process('viewer')
        self.arm(rfault)
        shown, exc = self.terminal.see(['view', path])
        self.disarm()
        if exc is not None and not isinstance(exc, Exception):
            self.violate('view', 'viewing ended by %r' % exc)
            return False
        if exc is not None:
            sim.count('view-rejected')
            self.notes.append('rejected: %s' % type(exc).__name__)
            if shown.result is not None and shown.screen is not None:
                self.violate('shown', 'a result was displayed before the error %r' % exc)
                return False
            if not torn[path] and rfault != 'errno':
                self.violate('lost', 'viewing %s failed: %r' % (path, exc))
                return False
            return True
        sim.count('view-shown')
        if shown.screen is None:
            self.violate('view', 'nothing was displayed')
            return False
        for exp in complete[path]:
            if shown.kind is exp['kind'] and shown.result == exp['result']:
                if shown.screen != self.reference(exp, path):
                    self.violate('screen', '%s shows %s instead of %s' % (path, shown.screen[:5],
                                                                          self.reference(exp, path)[:5]))
                    return False
                if torn[path]:
                    sim.count('complete-after-fault')
                complete[path], torn[path] = [exp], False
                return True
        self.violate('wrong', 'viewing %s shows %s of %s instead of %s' % (
            path, shown.result, shown.kind, [(e['result'], e['kind'].__name__) for e in complete[path]]))
        return False


def install_terminal():
    selectors.DefaultSelector = make_selector
    urwid.display.raw.Screen = Screen
    watch_viewers()


def scenario(prop):
    import profiling.__main__
    import urwid.event_loop.select_loop
    profiling.__main__, urwid.event_loop
    from checks.viewer import keep_canvases, warm_up, ALIVE
    keep_canvases()
    warm_up()
    install_terminal()

    def fn(run):
        urwid.CanvasCache.clear()
        del ALIVE[:]
        t = DumpRun(run, prop)
        run.simulate(t.main, max_points=40000000)
        sim, out = run.sim, run.out
        for name, exc, tb in sim.task_excs:
            raise engine.SimError('%s: %s' % (name, tb))
        if sim.end != 'main':
            out.violate('D02-stuck', 'hangs: %s at %s' % (sim.end, sim.stuck_at))
        out.notes.append('; '.join(t.notes))
        out.trivial = not t.served
        out.interleaving = h([x[2:] for x in out.log if x[2] == 'fs'])
    return fn
