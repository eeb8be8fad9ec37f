"""X02: the live-profile command: a program, its viewer and how either ends."""
import builtins
import linecache
import os
import signal
import sys
import threading
import traceback

import urwid

from checks.command import SCRIPT, Base, Finder
from checks.dump import Terminal, Shown, install_terminal, lines_of
from checks.session import MS, SessionRun, Window
from sim import engine, instrument, net as simnet, procs as simprocs
from sim.engine import TICKS, seconds, ticks
from sim.fs import Inode
from sim.program import Boom, World

#: how the program ends
ENDS = ['return', 'return', 'raise', 'exit', 'keyboard', 'base', '_exit', 'sigkill', 'sigsegv', 'hang', 'hang-handler']
CODES = {'return': 0, 'raise': 1, 'exit': 3, 'keyboard': 1, 'base': 1, '_exit': 7}
SIGNALS = {'sigkill': signal.SIGKILL, 'sigsegv': signal.SIGSEGV}


class TerminalFails(Exception):
    pass


class LiveShown(Shown):
    """Every result shown, and when."""

    run = None
    _args = None

    def __init__(self, run):
        self.run = None
        super(LiveShown, self).__init__()
        self.run = run

    @property
    def args(self):
        return self._args

    @args.setter
    def args(self, value):
        self._args = value
        run = self.run
        if run is not None and value is not None:
            run.results.append((run.sim.now, run.world.tick(), len(run.rounds), value))


class LiveTerminal(Terminal):

    def __init__(self, run):
        super(LiveTerminal, self).__init__(run.sim, run.net)
        self.run = run
        self.waiting = []

    def tty(self):
        a, b = self.net.socketpair()
        self.user = a
        return b

    def press(self, key):
        self.waiting.append(key)
        self.user.send(b'k')

    def keys(self):
        key = self.waiting.pop(0)
        self.sim.log('key', key)
        if key == '^C':
            raise KeyboardInterrupt
        if key == 'fail':
            raise TerminalFails
        if key == 'slow':
            self.sim.sleep(self.run.slow)
            return []
        return [key]


class LiveRun(SessionRun):

    def __init__(self, run, prop):
        super(LiveRun, self).__init__(run, prop)
        w = self.w
        self.end = w.pick(ENDS)
        self.clients = []
        self.verbose = False
        self.options = [o for o in self.options if o != '-v']
        if w.chance(.2):
            self.options.append('--mono')
        self.hold = 0
        self.slow = w.pick([self.I // 2, 2 * self.I])
        self.keys = []              # [(delay, key)] before the last one
        for _ in range(w.small(4)):
            self.keys.append((w.pick([1, 20 * MS, self.I]), w.pick(['down', 'up', 'right', '>', ' ', 'slow'])))
        self.lagging = any(k == 'slow' for _, k in self.keys)
        self.last = w.weighted([(4, 'q'), (2, '^C'), (1, 'fail')])
        self.when = w.weighted([(4, 'after'), (1, 'soon'), (2, 'before'), (1, 'inactive')])
        self.delay = w.pick([1, MS, self.I, 3 * self.I])
        if self.when == 'before':
            self.delay = w.pick([0, 1, MS, self.I // 2, 2 * self.I, 8 * self.I])
        if self.end.startswith('hang') and self.when != 'before':
            self.when = 'before'
            self.delay = 6 * self.I
        if self.lagging and self.when == 'after':
            self.delay += 5 * self.slow
        self.errs = [w.pick([0, 0, 0, 10, 3000, 70000]) for _ in self.roots]
        self.shutdown = w.pick([0, 0, 20 * MS])         # of the interpreter
        if self.when == 'inactive':
            # quits in the while between the end of the connection and that of the process
            self.shutdown = w.pick([20 * MS, 12 * self.I])
            self.delay = w.pick([0, 1, MS])
        self.slack = 80 * MS + 4 * max(self.lat)
        if any(how == 'native' for _, how in self.roots):
            self.slack += self.native       # a handler of a signal waits that long
        self.linger = 3 * self.I + self.slack
        self.prop = 'X02'

    def violate(self, cls, msg):
        self.run.out.violate('X02-' + cls, '%s [%s]' % (msg, '; '.join(self.notes)))

    # -- the program -----------------------------------------------------------------------

    def body(self):
        lines = ['SEE(sys.argv, __name__, globals().get("__file__"), sorted(globals()), sys.path[0])']
        if self.end == 'hang-handler':
            lines += ['import signal', 'def on_term(signum, frame):', '    ERR(10)', '    sys.exit(5)',
                      'signal.signal(signal.SIGTERM, on_term)']
        for (k, how), err in zip(self.roots, self.errs):
            lines += ['C()', 'try:', '    F[%d](%d)' % (k, self.depth), 'except Boom:', '    OUT("boom")', 'D()',
                      'OUT(IDLE(%r))' % how, 'PRINT()']
            if err:
                lines += ['ERR(%d)' % err]
        lines += ['J()', 'LINGER()', 'DONE()']
        lines += {'return': [], 'raise': ['raise Boom("the end")'], 'exit': ['sys.exit(3)'],
                  'keyboard': ['raise KeyboardInterrupt'], 'base': ['raise Base("gone")'],
                  '_exit': ['EXIT(7)'], 'sigkill': ['KILL(9)'], 'sigsegv': ['KILL(11)']}.get(
                      self.end, ['while True:', '    SLEEP()'])
        return '\n'.join(lines)

    def primitives(self, world, bare=False):
        super(LiveRun, self).primitives(world, bare)
        sim = self.sim
        self.errors = ''            # written to stderr

        def ERR(n):
            text = ('%d:%d ' % (len(self.errors), n)) * (n // 6) + '\n'
            if not bare:
                sys.stderr.write(text)
            self.errors += text

        def PRINT():
            if not bare:
                sys.stdout.write('printed\n')

        def EXIT(code):
            if not bare:
                self.ended = world.tick()
                os._exit(code)

        def KILL(signum):
            if not bare:
                self.ended = world.tick()
                sim.hooks['proc'].die_by(signum)

        def SLEEP():
            sim.sleep(5 * MS)

        def BEGIN():
            begin()
            self.started = True
        begin, self.started = self.env['BEGIN'], False

        def DONE():
            self.done_at = sim.now
        self.done_at = None
        self.env.update(BEGIN=BEGIN, ERR=ERR, PRINT=PRINT, EXIT=EXIT, KILL=KILL, SLEEP=SLEEP, DONE=DONE)
        builtins.__dict__.update(self.env)

    def command_line(self):
        args = [self.w.pick(['live-profile', 'live'])] + self.options
        if self.source == 'file':
            return args + ['--', SCRIPT] + self.argv
        elif self.source == '-c':
            return args + ['-c', self.script(), '--'] + self.argv
        return args + ['-m', 'simmod', '--'] + self.argv

    # -- the processes -----------------------------------------------------------------------

    def program_process(self):
        """What an interpreter does in the child."""
        from profiling.__main__ import cli
        code = 0
        try:
            cli.main(list(self.args), prog_name='profiling')
        except engine.SimKilled:
            raise
        except SystemExit as exc:
            code = exc.code
            if code is None:
                code = 0
            elif not isinstance(code, int):
                sys.stderr.write('%s\n' % code)
                code = 1
        except BaseException:
            # an interpreter of its own would have an empty cache
            linecache.clearcache()
            sys.stderr.write(traceback.format_exc())
            code = 1
        if self.shutdown:
            self.sim.block(None, self.sim.now + self.shutdown, False)
        return code

    def user(self):
        sim, procs = self.sim, self.procs
        t = self.terminal
        sim.block(lambda: hasattr(t, 'user') and procs.child is not None)
        for delay, key in self.keys:
            sim.sleep(delay)
            if self.over:
                return
            t.press(key)
        if self.when == 'before':
            sim.sleep(self.delay)
        elif self.when == 'inactive':
            sim.block(lambda: self.active is False or procs.child.dead)
            sim.sleep(self.delay)
        else:
            sim.block(lambda: procs.child.dead)
            if self.when == 'after':
                sim.sleep(self.delay)
        if self.over:
            return
        self.left_at = sim.now
        self.was_dead = procs.child.dead
        self.was_active = self.active
        self.was_shown = len(self.results)
        self.was_screen = t.shown.screen
        if self.last == '^C':
            # of the foreground process group
            procs.signal_child(signal.SIGINT)
        t.press(self.last)

    def toggled(self, on):
        sim, world = self.sim, self.world
        if sim.cur.data.get('proc') is not self.procs.child or not sim.cur.main or self.procs.child.dead:
            return
        rounds = self.rounds
        if on:
            if rounds and rounds[-1].off is None:
                self.violate('rounds', 'a round begins within another')
            rounds.append(Window(world.tick(), sim.now))
        elif rounds and rounds[-1].off is None:
            rounds[-1].off, rounds[-1].ended = world.tick(), sim.now

    def main(self):
        sim = self.sim = engine.SIM
        s = self.run.s
        net = self.net = simnet.Net(sim, s, self.lat, self.frag, self.caps)
        simnet.use(sim, net)
        net.first_fd = 10
        procs = self.procs = simprocs.Procs(sim, net, self.program_process)
        self.rounds, self.results, self.active, self.over = [], [], None, False
        self.marks = []
        self.left_at, self.interrupted, self.in_callback, self.finished = None, None, False, False
        self.was_dead = self.was_active = None
        self.was_shown, self.was_screen = 0, None
        terminal = self.terminal = LiveTerminal(self)
        terminal.shown = LiveShown(self)
        sim.hooks['live'] = self
        world = self.world = World(sim, budget=60, work_cap=1000000)
        self.primitives(world)
        inode = procs.files[SCRIPT] = Inode(procs)
        inode.data[:] = self.script().encode()
        sim.hooks['setprofile'] = lambda func: self.toggled(func is not None)
        sim.hooks['setitimer'] = lambda which, value, interval: self.toggled(value > 0)
        sim.handlers[signal.SIGINT] = signal.default_int_handler
        self.hurt = False

        def sig_log(signum, frame, handler):
            # an exception from the handler hits the profiler itself
            if signum in (signal.SIGINT, signal.SIGTERM) and (sim.in_handler or sim.cur.in_callback):
                self.hurt = True
                sim.count('interrupt-in-profiler')
        sim.sig_log = sig_log
        args = self.args = self.command_line()
        self.notes.append('%s, ends by %s; %s %s by %s %s; stderr %s; keys %s' % (
            ' '.join(repr(a) if len(a) < 60 else '...' for a in args), self.end, self.when, seconds(self.delay), self.last,
            self.lat, self.errs, [k for _, k in self.keys]))
        sys.stdin, sys.stdout, sys.stderr = [simprocs.Std(procs, i) for i in range(3)]
        sim.spawn(self.user, 'user').data.pop('proc', None)
        argv = list(sys.argv)
        path0 = list(sys.path)
        self.exc = None
        me = sim.cur
        from profiling.__main__ import cli
        try:
            cli.main(list(args), prog_name='profiling')
        except engine.SimKilled:
            raise
        except BaseException as exc:
            self.exc = exc
        finally:
            self.over = True
            sys.argv[:] = argv
            sys.path[:] = path0
        self.over_at = sim.now
        self.err = bytes(procs.sinks[2].data).decode('utf-8', 'replace')
        self.out = bytes(procs.sinks[1].data).decode('utf-8', 'replace')
        self.dead_then = procs.child is not None and procs.child.dead
        # the parent is gone: so are its ends of the connection
        for d in list(procs.first.fds.values()):
            d.unref()
        procs.first.fds.clear()
        for x in procs.first.sockets:
            x.close()
        if procs.child is not None and not procs.child.dead:
            sim.sleep(2 * self.I + TICKS // 10 + self.slack)
        me.main = True
        if sim.main_task is not me and procs.child is not None and not procs.child.dead:
            # whatever else it does does not matter any more
            sim.main_task.main = False
        self.finished = True
        self.name_functions(world)
        sim.quiet += 1
        try:
            self.judge()
        finally:
            sim.quiet -= 1

    # -- judging -----------------------------------------------------------------------------

    def judge(self):
        sim, procs, child = self.sim, self.procs, self.procs.child
        if child is None:
            self.violate('fork', 'there is no program: %r' % self.exc)
            return
        sim.count('results', len(self.results))
        sim.count('rounds', len(self.rounds))
        sim.count('left-' + ('after' if self.was_dead else 'before'))
        sim.count('end-' + self.end)
        if self.left_at is None:
            self.violate('end', 'the command ended by %r before its user quit: %s' % (self.exc, self.err[-300:]))
            return
        if self.last == 'fail':
            if not isinstance(self.exc, TerminalFails):
                self.violate('failure', 'the viewer failed, the command ended by %r' % self.exc)
        elif not isinstance(self.exc, SystemExit):
            self.violate('end', 'the command ended by %r %s' % (self.exc, getattr(self.exc, 'args', None)))
            return
        code = getattr(self.exc, 'code', None)
        self.judge_fate(code)
        self.judge_stderr()
        self.judge_results()
        if 'printed' in self.out:
            self.violate('stdout', 'the output of the program is on the terminal')

    def judge_fate(self, code):
        child = self.procs.child
        hurry = 3 * self.I + TICKS // 5 + self.slack + (5 * self.slow if self.lagging else 0)
        if not child.dead:
            self.violate('left-behind', 'the program is still running, signals: %s' % self.procs.killed)
        elif not self.was_dead and child.ended_at - self.left_at > hurry and not self.procs.killed:
            self.violate('not-told', 'the program was not told to terminate when its viewer quit, it ran on for %.3f s' % seconds(
                child.ended_at - self.left_at))
        if any(how == 'reaped' for _, _, how in self.procs.killed):
            self.violate('stray', 'a signal to a process which is gone: %s' % self.procs.killed)
        if self.over_at - max(self.left_at, child.ended_at or 0) > hurry:
            self.violate('slow', 'the command ended %.3f s after the viewer' % seconds(
                self.over_at - max(self.left_at, child.ended_at or 0)))
        if self.was_dead:
            natural = self.end in CODES or self.end in SIGNALS
            want = CODES[self.end] if self.end in CODES else None
            if self.last != 'fail':
                if want is not None and code not in (want, None if want == 0 else want):
                    self.violate('code', 'the exit code is %r, of the program %r' % (code, want))
                elif self.end in SIGNALS and code in (0, None):
                    self.violate('code', 'the exit code is %r although the program was killed by signal %d' % (
                        code, SIGNALS[self.end]))

    def judge_stderr(self):
        if self.last == 'fail' or self.hurt:
            return
        child = self.procs.child
        pipes = [d for d in self.procs.pipes if d.kind == 'write' and d.data]
        wrote = ''.join(bytes(d.data).decode('utf-8', 'replace') for d in pipes)
        err = self.err
        if err != wrote:
            if not self.started and not wrote and not self.was_dead:
                # ended before its stderr is redirected
                return
            self.violate('stderr', 'the program wrote %d characters to stderr, printed were %d: ...%r instead of ...%r' % (
                len(wrote), len(err), err[-200:], wrote[-200:]))
            return
        if not self.was_dead:
            if 'OSError' in wrote or 'Broken' in wrote or 'Bad file' in wrote:
                self.violate('stderr', 'the program wrote %r' % wrote[-1000:])
            return
        rest = wrote[len(self.errors):]
        want = {'raise': 'Boom: the end', 'base': 'Base: gone', 'keyboard': 'Aborted!'}.get(self.end, '')
        last = rest.rstrip().split('\n')[-1] if rest.strip() else ''
        if not wrote.startswith(self.errors) or not last.endswith(want) or not want and rest:
            self.violate('stderr', 'after its own text the program, which ended by %s, wrote %r' % (
                self.end, rest[-1000:]))

    def judge_results(self):
        child = self.procs.child
        got = self.results
        done = [r for r in self.rounds if r.off is not None]
        # no result is shown twice or out of order; with a lagging viewer some may be lost
        if len(got) > len(done):
            self.violate('result', '%d results are shown of %d rounds' % (len(got), len(done)))
            return
        for i, (at, tick, n, result) in enumerate(got):
            r = done[i]
            p = 'a result before the end of its round' if r.ended > at else self.misfit(result, r, tick)
            if p:
                self.violate('result', 'result %d: %s' % (i, p))
                return
        if self.left_at is None:
            return
        if self.was_dead and self.when == 'after' and self.delay >= self.I:
            if self.was_active:
                self.violate('active', 'the program ended %.3f s ago, the viewer is still active' % seconds(
                    self.left_at - child.ended_at))
            if self.was_screen is None:
                self.violate('screen', 'nothing is on the screen')
        for t, what in self.marks:
            if what == 'inactive' and (child.ended_at is None or t < child.ended_at) and t < self.left_at and \
                    self.done_at is None and not self.lagging and min(self.caps) >= 1 << 18:
                self.violate('inactive', 'the viewer is marked inactive while the program runs')
                return
        # while the program lingers, results arrive in time
        if self.lingers is None or self.lagging or min(self.caps) < 1 << 18:
            return
        a, b = self.lingers
        x, y = a, min(b, self.left_at)
        points = [x] + [at for at, _, _, _ in got if x < at < y] + [y]
        for p, q in zip(points, points[1:]):
            if q - p > self.I + self.slack:
                self.violate('progress', 'no result is shown from %.4f to %.4f' % (seconds(p), seconds(q)))
                return


def watch_activity():
    from profiling.viewer import StatisticsViewer

    def watch(name, state):
        real = getattr(StatisticsViewer, name)

        def method(self):
            sim = engine.SIM
            live = sim.hooks.get('live') if sim is not None else None
            if live is not None:
                live.active = state
                live.marks.append((sim.now, name.replace('ate', 'e')))
                sim.log(name)
            return real(self)
        setattr(StatisticsViewer, name, method)
    watch('activate', True)
    watch('inactivate', False)


def scenario(prop):
    import profiling.__main__
    import profiling.sampling.samplers
    import profiling.tracing.timers
    import profiling.remote.select
    import urwid.event_loop.select_loop
    profiling.sampling, profiling.tracing, profiling.remote, urwid.event_loop
    from checks.viewer import keep_canvases, warm_up, ALIVE
    keep_canvases()
    warm_up()
    install_terminal()
    watch_activity()
    sys.meta_path.insert(0, Finder())
    real_compile = compile

    def compile_(source, filename, mode, *args, **kwargs):
        if engine.SIM is not None and mode == 'exec':
            return instrument.compile_instrumented(source, filename)
        return real_compile(source, filename, mode, *args, **kwargs)
    profiling.__main__.compile = compile_
    before = set(builtins.__dict__)

    def fn(run):
        urwid.CanvasCache.clear()
        linecache.clearcache()
        del ALIVE[:]
        t = LiveRun(run, prop)
        std = sys.stdin, sys.stdout, sys.stderr
        try:
            run.simulate(t.main, preempt=t.preempt)
        finally:
            sys.stdin, sys.stdout, sys.stderr = std
            for name in set(builtins.__dict__) - before:
                del builtins.__dict__[name]
        sim, out = run.sim, run.out
        for name, exc, tb in sim.task_excs:
            if not isinstance(exc, Boom):
                if name == 'user':
                    raise engine.SimError('%s: %s' % (name, tb))
                if not t.hurt:
                    t.violate('server', 'an error in a thread: %s' % tb)
        if sim.end != 'main':
            out.violate('X02-stuck', 'the command hangs: %s at %s %s' % (sim.end, sim.stuck_at, t.notes))
        out.notes.append(t.script())
        out.notes.extend(t.notes)
        out.trivial = not sim.counters.get('results')
    return fn
