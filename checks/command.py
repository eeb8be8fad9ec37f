"""X01: the profile and timeit commands, however and whenever the script ends."""
import builtins
import errno
import importlib.abc
import importlib.machinery
import importlib.util
import io
import linecache
import os
import pickle
import signal
import sys
import threading

from checks.dump import Terminal, Shown, install_terminal
from sim import engine, fs as simfs, instrument, net as simnet
from sim.program import Boom, Program, Suspension, World, project

SCRIPT = '/sim/prog.py'
DUMP = '/sim/out.prof'
ENDS = ['return', 'raise', 'exit', 'keyboard', 'base', 'interrupt', 'interrupt', 'interrupt']


class Base(BaseException):
    """Not an Exception."""


class Finder(importlib.abc.MetaPathFinder, importlib.abc.InspectLoader):
    """The module of the script for -m."""

    def find_spec(self, name, path=None, target=None):
        fs = simfs.current()
        if name == 'simmod' and fs is not None and SCRIPT in fs.files:
            spec = importlib.machinery.ModuleSpec(name, self, origin=SCRIPT)
            spec.has_location = True
            return spec
        return None

    def get_source(self, name):
        return simfs.current().files[SCRIPT].data.decode()

    def get_code(self, name):
        return instrument.compile_instrumented(self.get_source(name), SCRIPT)

    def is_package(self, name):
        return False


def indent(text, by):
    return '\n'.join(by + line if line else line for line in text.split('\n'))


class CommandRun(object):

    def __init__(self, run, prop):
        self.run, self.prop = run, prop
        w = self.w = run.w
        feats = set()
        for f, p in [('gen', .3), ('exc', .5), ('closure', .3), ('sleep', .4), ('thread', .3)]:
            if w.chance(p):
                feats.add(f)
        self.threads = 'thread' in feats
        self.sampling = w.chance(.3)
        self.program = Program(w, feats, heavy=self.sampling)
        self.command = w.weighted([(5, 'profile'), (2, 'timeit')])
        self.source = w.pick(['file', 'file', 'file', '-c', '-m']) if self.command == 'profile' else 'stmt'
        self.end = w.pick(ENDS)
        self.catches = w.chance(.2)         # the script takes an interrupt and goes on
        self.depth = w.randint(1, 4)
        self.roots = [w.below(self.program.n) for _ in range(w.randint(1, 3))]
        self.argv = [w.pick(['a', 'b c', '-x', '--help', u'\xe4', '']) for _ in range(w.small(3))]
        self.dumps = w.chance(.75)
        self.protocol = w.pick([None, None] + list(range(pickle.HIGHEST_PROTOCOL + 1)))
        self.disk = w.weighted([(5, None), (1, 'errno'), (1, 'short')])
        self.options = []
        if self.sampling:
            self.options += ['-S', '--sampler', w.pick(['itimer', 'tracing']),
                             '--sampling-interval', w.pick(['0.0005', '0.002', '0.01'])]
        else:
            if w.chance(.3):
                self.options += ['-T']
            if w.chance(.5):
                self.options += ['--timer', w.pick(['basic', 'thread'])]
        if w.chance(.2):
            self.options += ['--mono']
        if self.protocol is not None:
            self.options += ['--pickle-protocol', str(self.protocol)]
        self.number = w.pick([None, 1, 2, 5])
        self.stmt_kind = w.pick(['line', 'lines', 'block'])
        self.preempt = w.pick([0, 60, 15, 200]) if self.threads else 0
        self.notes = []

    def violate(self, cls, msg):
        self.run.out.violate('X01-' + cls, '%s [%s]' % (msg, '; '.join(self.notes)))

    # -- the script ------------------------------------------------------------------------

    def body(self):
        lines = ['SEE(sys.argv, __name__, globals().get("__file__"), sorted(globals()), sys.path[0])']
        for k in self.roots:
            lines += ['C()', 'try:', '    F[%d](%d)' % (k, self.depth), 'except Boom:', '    OUT("boom")', 'D()']
            if self.catches:
                lines[-5:-1] = ['try:', '    F[%d](%d)' % (k, self.depth), 'except Boom:', '    OUT("boom")',
                                'except KeyboardInterrupt:', '    OUT("caught")']
            lines += ['OUT(W(50))']
        lines += {'return': [], 'raise': ['raise Boom("the end")'], 'exit': ['sys.exit(3)'],
                  'keyboard': ['raise KeyboardInterrupt'], 'base': ['raise Base("gone")'],
                  'interrupt': ['WAIT()']}[self.end]
        return '\n'.join(lines)

    def definitions(self):
        return 'import sys\n' + '\n'.join(s for _, s in sorted(self.program.files.items()))

    def script(self):
        return '%s\ntry:\n    BEGIN()\n%s\nfinally:\n    END()\n' % (self.definitions(), indent(self.body(), '    '))

    def statement(self):
        call = 'F[%d](%d)' % (self.roots[0], self.depth)
        if self.number is None:
            # calibration goes on until it took a fifth of a second
            call = 'W(30000); ' + call
        if self.stmt_kind == 'line':
            return 'STEP(); %s; STEPPED()' % call
        if self.stmt_kind == 'lines':
            return 'STEP()\n%s\nSTEPPED()' % call
        return 'if STEP() is None:\n    %s\n    STEPPED()' % call

    def primitives(self, world):
        sim = self.sim
        self.seen, self.output = [], []
        self.inside = self.begun = self.ended = None
        self.steps = self.stepped = 0

        def SEE(argv, name, file, names, path):
            self.seen.append((list(argv), name, file, [n for n in names if n[:2] == '__'], path))

        def OUT(what):
            self.output.append(what)

        def BEGIN():
            self.begun = world.tick()
            self.begun_at = sim.now
            self.inside = True

        def END():
            sim.interrupts(0, None)
            self.inside = False
            self.quiet_end()
            self.ended = world.tick()
            self.ended_at = sim.now

        def WAIT():
            # until it is interrupted
            while self.interrupted is None and not sim.killing:
                world.W(100)
                if self.catches:
                    break
                sim.sleep(1000)
                engine.pt()

        def STEP():
            self.steps += 1
            world.C()
            if self.limit is not None and self.steps > self.limit:
                self.failing = True
                raise {'raise': Boom, 'exit': SystemExit, 'keyboard': KeyboardInterrupt, 'base': Base}[self.end]('stop')

        def STEPPED():
            self.stepped += 1
            world.D()
        env = dict(Boom=Boom, P=Suspension((1,)), Base=Base, E=world.E, X=world.X, C=world.C, D=world.D, W=world.W, Z=world.Z, T=world.T,
                   J=world.J, M=world.M, Y=world.Y, G=world.G, F={}, SEE=SEE, OUT=OUT, BEGIN=BEGIN, END=END, WAIT=WAIT,
                   STEP=STEP, STEPPED=STEPPED)
        env[instrument.PT], env[instrument.PTV] = engine.pt, engine.ptv
        self.env = env
        builtins.__dict__.update(env)
        world.F = env['F']

    def quiet_end(self):
        """No interrupt is on its way any more."""
        while signal.SIGINT in self.sim.pending:
            self.sim.pending.remove(signal.SIGINT)

    def name_functions(self, world):
        world.names = {}
        for k, f in world.F.items():
            code = f.__code__
            world.names[(code.co_name, code.co_filename, code.co_firstlineno)] = k

    # -- the run -----------------------------------------------------------------------------

    def command_line(self):
        args = []
        if self.command == 'timeit':
            args = [self.w.pick(['timeit', 'timeit-profile'])] + self.options
            if self.number is not None:
                args += ['-n', str(self.number)]
            args += ['-s', self.definitions()]
        else:
            if not self.default:
                args = ['profile']
            args += self.options
        if self.dumps:
            args += ['--dump', DUMP]
        if self.command == 'timeit':
            args += ['--', self.statement()]
        elif self.source == 'file':
            args += ['--', SCRIPT] + self.argv
        elif self.source == '-c':
            args += ['-c', self.script(), '--'] + self.argv
        else:
            args += ['-m', 'simmod', '--'] + self.argv
        return args

    def main(self):
        sim = self.sim = engine.SIM
        s = self.run.s
        # (the group of commands takes the -- for itself)
        self.default = s.chance(.3) and not any(a.startswith('-') for a in self.argv)
        fs = self.fs = simfs.use(sim)
        net = simnet.Net(sim, s)
        simnet.use(sim, net)
        terminal = self.terminal = Terminal(sim, net)
        world = self.world = World(sim, budget=60 if self.command == 'profile' else 25, work_cap=3000000)
        self.interrupted = None
        self.in_callback = False
        self.failing = False
        self.limit = None
        self.windows = []
        self.primitives(world)
        if self.command == 'timeit' and self.end in ('raise', 'exit', 'keyboard', 'base'):
            self.limit = s.below(4)
        fs.proc.fds.clear()
        with_fs = self.script().encode()
        inode = fs.files[SCRIPT] = simfs.Inode(fs)
        inode.data[:] = with_fs
        sim.hooks['setprofile'] = lambda func: self.toggled(func is not None)
        sim.hooks['setitimer'] = lambda which, value, interval: self.toggled(value > 0)
        sim.handlers[signal.SIGINT] = signal.default_int_handler
        if self.disk is not None and self.dumps:
            at = 1 + s.small(5)
            count = [0]

            def policy(op, path, size):
                if path != DUMP:
                    return
                if self.disk == 'short':
                    return ('short', s.pick([1, 50, 4000])) if op == 'write' else None
                if op in ('open', 'write', 'close'):
                    count[0] += 1
                    if count[0] == at:
                        return 'errno', s.pick([errno.ENOSPC, errno.EIO])
            fs.policy = policy
        if self.end == 'interrupt' or self.command == 'timeit' and s.chance(.3):
            def interrupt():
                if self.command == 'profile' and not self.inside:
                    return
                if self.command == 'timeit' and not self.in_statement():
                    return
                if sim.cur.main and self.interrupted is None and not sim.in_handler:
                    if self.catches and sim.cur.in_callback:
                        return          # would be the end of profiling, not of the program
                    self.interrupted = world.tick()
                    world.torn = True
                    self.in_callback = bool(sim.cur.in_callback)
                    sim.count('interrupt-in-callback' if self.in_callback else 'interrupt')
                    sim.log('interrupt')
                    sim.interrupts(0, None)
                    raise KeyboardInterrupt
            sim.interrupts(s.pick([20, 100, 5, 500]), interrupt)
        args = self.command_line()
        self.notes.append('%s, ends by %s%s' % (
            ' '.join(repr(a) if len(a) < 60 else '...' for a in args), self.end, ' (caught)' if self.catches else ''))
        stdout, stderr, argv = sys.stdout, sys.stderr, list(sys.argv)
        out, err = io.StringIO(), io.StringIO()
        sys.stdout, sys.stderr = out, err
        path0 = list(sys.path)
        t0 = sim.now
        main_names = set(sys.modules['__main__'].__dict__)
        try:
            self.shown, self.exc = terminal.see(args)
        finally:
            self.t0, self.t1 = t0, sim.now
            sys.stdout, sys.stderr = stdout, stderr
            sys.argv[:] = argv
            sys.path[:] = path0
        sim.interrupts(0, None)
        self.out, self.err = out.getvalue(), err.getvalue()
        self.name_functions(world)
        sim.quiet += 1
        try:
            self.judge()
        finally:
            sim.quiet -= 1
        if not self.threads and self.command == 'profile' and self.interrupted is None and self.end != 'interrupt' \
                and not self.run.out.violations:
            self.bare()

    def toggled(self, on):
        self.windows.append((on, self.world.tick(), self.sim.cur.main, self.sim.now))

    def in_statement(self):
        f = sys._getframe(1)
        while f is not None:
            if f.f_code.co_filename in ('STATEMENT', '<string>'):
                return self.steps > 0
            f = f.f_back
        return False

    # -- what it should have done ------------------------------------------------------------------

    def judge(self):
        sim, world = self.sim, self.world
        if sim.cur.profile_func is not None or sys.getprofile() is not None:
            self.violate('hook', 'the profile hook is still registered')
        if getattr(threading, '_profile_hook', None) is not None:
            self.violate('hook', 'the profile hook of threads is still registered')
        if sim.itimer[0] < engine.FOREVER:
            self.violate('hook', 'the interval timer is still running')
        if callable(sim.getsignal(signal.SIGPROF)):
            self.violate('hook', 'SIGPROF is still handled')
        if self.command == 'profile':
            self.judge_profile()
        else:
            self.judge_timeit()

    def final_error(self):
        if self.interrupted is not None and not self.catches or self.end == 'keyboard':
            return 'KeyboardInterrupt'
        if self.interrupted is not None and self.end == 'interrupt':
            return None             # maybe caught
        return {'raise': 'checks.program.Boom: the end', 'exit': 'SystemExit: 3', 'base': 'Base: gone'}.get(self.end)

    def judge_profile(self):
        sim, world = self.sim, self.world
        if not self.seen:
            if self.begun is None or self.interrupted is None:
                self.violate('script', 'the script was not run: %r, %s' % (self.exc, self.err[-300:]))
                return
        for argv, name, file, names, path in self.seen[:1]:
            want = {'file': SCRIPT, '-c': '<string>', '-m': SCRIPT}[self.source]
            if argv != [want] + self.argv:
                self.violate('argv', 'the script sees %s instead of %s' % (argv, [want] + self.argv))
            if name != '__main__' or (file != want if self.source != '-c' else file not in (None, '<string>')):
                self.violate('globals', '__name__ is %r, __file__ %r' % (name, file))
            if self.source == 'file' and path != os.path.dirname(SCRIPT):
                self.violate('path', 'the first module search path is %r' % path)
        error = self.final_error()
        last = self.err.rstrip().split('\n')[-1] if self.err.strip() else ''
        if error is None:
            if self.interrupted is None and self.err:
                self.violate('stderr', 'printed %r although nothing failed' % self.err[-300:])
        elif not last.endswith(error.split('.')[-1]):
            self.violate('stderr', 'the script ended by %s, printed was %r' % (error, self.err[-300:]))
        self.judge_result(self.begun, self.ended)

    def judge_timeit(self):
        done = self.exc is None
        failed = self.steps > self.stepped or self.interrupted is not None
        starts = [t for on, t, main, _ in self.windows if on and main]
        stops = [t for on, t, main, _ in self.windows if not on and main]
        if not starts:
            if not failed:
                self.violate('script', 'nothing was profiled: %r' % self.exc)
            return
        calibrating = self.number is None and len(starts) < 2
        if calibrating and failed:
            # no measurement has begun
            if done:
                self.violate('error', 'the statement failed but the command did not')
            return
        if not failed:
            runs = self.stepped
            number = self.number
            if number is not None and runs != number:
                self.violate('number', 'the statement ran %d times instead of %d' % (runs, number))
            if self.err:
                self.violate('stderr', 'printed %r although nothing failed' % self.err[-300:])
        elif 'Traceback' not in self.err:
            self.violate('stderr', 'no error was printed: %r' % self.err[-300:])
        # every start is either of calibration or the measurement
        self.judge_result(starts[-1], stops[-1] if stops and stops[-1] > starts[-1] else self.world.tick())

    def judge_result(self, a, b):
        """The calls between a and b are in the result."""
        sim, world = self.sim, self.world
        data = self.fs.files.get(DUMP)
        if self.dumps:
            failed = any(k.startswith('fs-') and k.endswith(('ENOSPC', 'EIO')) for k in sim.counters)
            if failed:
                if self.exc is None:
                    self.violate('storage', 'the dump failed but the command did not: %r' % self.out)
                return
            if self.exc is not None:
                self.violate('error', 'the command failed: %r %s' % (self.exc, self.err[-500:]))
                return
            if data is None:
                self.violate('dump', 'there is no dump: %r' % self.err[-300:])
                return
            if DUMP not in self.out:
                self.violate('dump', 'not told about the dump: %r' % self.out)
            cls, result = pickle.loads(bytes(data.data))
        else:
            if self.exc is not None:
                self.violate('error', 'the command failed: %r %s' % (self.exc, self.err[-500:]))
                return
            if self.shown.args is None or self.shown.screen is None:
                self.violate('viewer', 'no result is shown')
                return
            cls, result = self.shown.kind, self.shown.args
        if cls.__name__ != ('SamplingProfiler' if self.sampling else 'TracingProfiler'):
            self.violate('kind', 'the result is of %s' % cls.__name__)
        stats, cpu, wall = result
        lasted = engine.seconds(self.t1 - self.t0)
        if not 0 <= cpu <= lasted * 1.001 or not 0 <= wall <= lasted * 1.001:
            self.violate('time', 'cpu %r, wall %r in a command of %r s' % (cpu, wall, lasted))
        if self.command == 'profile' and wall < engine.seconds(self.ended_at - self.begun_at) * .999:
            self.violate('time', 'wall time is %r, the script took %r' % (
                wall, engine.seconds(self.ended_at - self.begun_at)))
        todo, mine = list(stats), []
        while todo:
            node = todo.pop()
            if self.sampling and node.filename and node.filename.endswith('/samplers.py'):
                continue            # a sample of the sampling of the interrupted function
            todo.extend(node)
            if node.filename and ('/profiling/' in node.filename or '/click/' in node.filename):
                mine.append((node.name, node.filename))
        if mine:
            self.violate('own-frames', 'in the result are %s' % mine)
        counted = project(stats, world.names)
        self.count('results')
        if self.sampling:
            return
        low, high = {}, {}
        z = world.tick()
        short = self.interrupted is not None and self.catches
        if short:
            # an interrupt may have left calls on the stack of the history
            merged = {}
            for chain, entry in counted.items():
                if not any(self.program.kinds[k] == 'gen' for k in chain):
                    merged.setdefault(chain[-1:], [0])[0] += entry[0]
            counted = merged
        # threads are hooked separately from the main thread: between these
        # moments both surely are
        seen = [t for call in world.calls if call.ctx.thread_start is None
                for t in (call.c, call.d) if t is not None and a < t < b]
        a2, b2 = (min(seen), max(seen)) if seen else (b, a)
        for call in world.calls:
            chain = call.chain
            if any(self.program.kinds[k] == 'gen' for k in chain):
                continue
            chain = chain[-1:] if short else chain
            kind = self.program.kinds[call.k]
            if kind == 'gen':
                continue
            in_thread = call.ctx.thread_start is not None
            out = call.d is None or call.d > a
            if call.c < z and out:
                high[chain] = high.get(chain, 0) + 1
            sure = call.c > a and call.e < b and (
                not in_thread or call.ctx.thread_start > a2 and call.ctx.thread_begun < b2)
            if sure and self.interrupted is not None and self.in_callback and call.e > self.interrupted:
                sure = False
            if sure:
                low[chain] = low.get(chain, 0) + 1
        for chain in set(low) | set(high) | set(counted):
            if any(self.program.kinds[k] == 'gen' for k in chain):
                continue
            got = counted.get(chain, [0])[0]
            lo, hi = low.get(chain, 0), high.get(chain, 0)
            if self.interrupted is not None:
                # the interrupted call may be counted without having begun
                hi += 1
            if not lo <= got <= hi:
                self.violate('calls', '%s counted %d times, %d to %d calls were made' % (
                    '>'.join(self.program.names[k] for k in chain), got, lo, hi))
                return

    def count(self, key):
        self.sim.count(key)

    def bare(self):
        """The same script without profiling does the same."""
        sim = self.sim
        seen, output, calls = self.seen, self.output, [(c.k, c.chain) for c in self.world.calls]
        world = self.world = World(sim, budget=60, work_cap=3000000)
        self.primitives(world)
        argv = sys.argv[:]
        path = list(sys.path)
        sys.argv[:] = [SCRIPT] + self.argv
        exc = None
        try:
            exec(instrument.compile_instrumented(self.script(), SCRIPT), {'__name__': '__main__', '__file__': SCRIPT})
        except engine.SimKilled:
            raise
        except BaseException as e:
            exc = e
        finally:
            sys.argv[:] = argv
            sys.path[:] = path
        if [x for x in output] != [x for x in self.output]:
            self.violate('behaviour', 'its output is %s, unprofiled %s' % (output, self.output))
        elif calls != [(c.k, c.chain) for c in world.calls]:
            self.violate('behaviour', 'it makes other calls than unprofiled')
        self.count('compared')


def scenario(prop):
    import profiling.__main__
    import profiling.sampling.samplers
    import profiling.tracing.timers
    import urwid.event_loop.select_loop
    profiling.sampling, profiling.tracing, urwid.event_loop
    from checks.viewer import keep_canvases, warm_up, ALIVE
    import urwid
    keep_canvases()
    warm_up()
    install_terminal()
    sys.meta_path.insert(0, Finder())
    real_compile = compile

    def compile_(source, filename, mode, *args, **kwargs):
        if engine.SIM is not None and mode == 'exec':
            return instrument.compile_instrumented(source, filename)
        return real_compile(source, filename, mode, *args, **kwargs)
    profiling.__main__.compile = compile_
    before = set(builtins.__dict__)

    def fn(run):
        urwid.CanvasCache.clear()
        linecache.clearcache()
        del ALIVE[:]
        t = CommandRun(run, prop)
        try:
            run.simulate(t.main, preempt=t.preempt)
        finally:
            for name in set(builtins.__dict__) - before:
                del builtins.__dict__[name]
        sim, out = run.sim, run.out
        for name, exc, tb in sim.task_excs:
            if not isinstance(exc, Boom):
                raise engine.SimError('%s: %s' % (name, tb))
        if sim.end != 'main':
            out.violate('X01-stuck', 'the command hangs: %s at %s' % (sim.end, sim.stuck_at))
        out.notes.append(t.script() if t.command == 'profile' else t.definitions() + t.statement())
        out.notes.extend(t.notes)
        out.trivial = not sim.counters.get('results')
    return fn
