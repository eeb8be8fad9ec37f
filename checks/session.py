"""E01: profiling a running program remotely, the remote-profile command as a whole."""
import builtins
import io
import linecache
import pickle
import signal
import socket
import sys
import threading

from checks.command import SCRIPT, Base, CommandRun, Finder, indent
from checks.dump import Terminal, install_terminal
from checks.server import PROFILER, RESULT, WELCOME, Client
from sim import engine, fs as simfs, instrument, net as simnet
from sim.engine import TICKS, seconds, ticks
from sim.program import Boom, Program, World, project

ADDR = ('10.0.0.1', 8912)
ENDS = ['return', 'return', 'raise', 'exit', 'keyboard', 'base', 'interrupt', 'interrupt']
MS = TICKS // 1000


class Window(object):
    """A round of profiling: from the hook's registration to its removal."""

    def __init__(self, on, at):
        self.on, self.off = on, None        # ticks of the history
        self.begun, self.ended = at, None   # time


class SessionRun(CommandRun):

    prop = 'E01'

    def __init__(self, run, prop):
        self.run = run
        w = self.w = run.w
        feats = set()
        for f, p in [('gen', .3), ('exc', .5), ('closure', .3), ('sleep', .5), ('thread', .3)]:
            if w.chance(p):
                feats.add(f)
        self.threads = 'thread' in feats
        self.sampling = w.chance(.3)
        self.program = Program(w, feats, heavy=self.sampling)
        self.command = 'profile'
        self.source = w.pick(['file', 'file', 'file', '-c', '-m'])
        self.end = w.pick(ENDS)
        self.catches = False
        self.native = w.pick([10 * MS, 300 * MS, 2500 * MS])
        self.depth = w.randint(1, 4)
        self.roots = [(w.below(self.program.n), w.pick(['go', 'sleep', 'lock', 'queue', 'join', 'busy', 'native']))
                      for _ in range(w.randint(1, 6))]
        self.argv = [w.pick(['a', 'b c', '-x', u'\xe4']) for _ in range(w.small(3))]
        self.protocol = w.pick([None, None] + list(range(pickle.HIGHEST_PROTOCOL + 1)))
        self.interval = w.pick([.05, .1, .3, .5])
        self.I = ticks(self.interval)
        self.verbose = w.chance(.3)
        self.options = ['--interval', str(self.interval)]
        if self.sampling:
            self.options += ['-S', '--sampler', w.pick(['itimer', 'tracing']),
                             '--sampling-interval', w.pick(['0.0005', '0.002', '0.01'])]
        elif w.chance(.5):
            self.options += ['--timer', w.pick(['basic', 'thread'])]
        if self.protocol is not None:
            self.options += ['--pickle-protocol', str(self.protocol)]
        self.signum = w.pick([None, None, None, 'SIGUSR1', 'alrm', str(int(signal.SIGWINCH))])
        if self.signum:
            self.options += ['--signum', self.signum]
        if self.verbose:
            self.options += ['-v']
        if w.chance(.2):
            self.options += ['--spawn', 'threading']
        self.preempt = w.pick([4, 12, 30])
        self.lat = w.pick([(0,), (0, 10), (MS, 3 * MS)])
        self.frag = w.pick([(0,), (1, 50, 0), (0, 1500)])
        self.caps = w.pick([(1 << 18,), (1 << 18,), (5000,), (600,)])
        self.idle = w.pick([MS, 30 * MS, self.I])
        self.clients = []
        for i in range(w.weighted([(7, 1), (5, 2), (3, 3), (1, 0)])):
            at = w.pick([1, MS, self.I // 2, self.I, 3 * self.I])
            stay = w.pick([None, None, None, self.I, 2 * self.I, 5 * self.I, 1])
            kind = w.weighted([(6, 'healthy'), (1, 'stall'), (1, 'junk')])
            if stay is None and kind != 'healthy':
                stay = 2 * self.I
            self.clients.append(Client(i, kind, at, None if stay is None else at + stay,
                                       how=w.pick(['close', 'reset', 'halfclose'])))
        # those who stay connected without reading may hold up the others once
        self.hold = sum(c.kind != 'healthy' or c.how == 'halfclose' and c.until is not None
                        for c in self.clients) * self.I
        self.slack = 60 * MS + 4 * max(self.lat)
        if min(self.caps) < 1 << 18:
            self.slack += 40 * len(self.clients) * max(self.lat)
        self.linger = 3 * self.I + self.hold + self.slack
        self.notes = []
        self.rounds = []
        self.lingers = None

    def violate(self, cls, msg):
        self.run.out.violate('E01-' + cls, '%s [%s]' % (msg, '; '.join(self.notes)))

    # -- the script ------------------------------------------------------------------------

    def body(self):
        lines = ['SEE(sys.argv, __name__, globals().get("__file__"), sorted(globals()), sys.path[0])']
        for k, how in self.roots:
            lines += ['C()', 'try:', '    F[%d](%d)' % (k, self.depth), 'except Boom:', '    OUT("boom")', 'D()',
                      'OUT(IDLE(%r))' % how]
        lines += ['J()', 'LINGER()']
        lines += {'return': [], 'raise': ['raise Boom("the end")'], 'exit': ['sys.exit(3)'],
                  'keyboard': ['raise KeyboardInterrupt'], 'base': ['raise Base("gone")'],
                  'interrupt': ['WAIT()']}[self.end]
        return '\n'.join(lines)

    def primitives(self, world, bare=False):
        super(SessionRun, self).primitives(world)
        sim = self.sim

        def IDLE(how):
            if bare or how == 'go':
                return
            if how == 'sleep':
                sim.sleep(self.idle)
            elif how == 'native':
                # foreign code, nothing interrupts it
                sim.block(None, sim.now + self.native, False)
            elif how == 'busy':
                for _ in range(50):
                    world.W(self.idle // 50)
                    engine.pt()
            else:
                ev = threading.Event()
                th = threading.Thread(target=lambda: (sim.sleep(self.idle), ev.set()))
                th.daemon = True
                th.start()
                if how == 'join':
                    th.join()
                elif how == 'lock':
                    ev.wait()
                else:
                    while not ev.wait(seconds(self.idle // 4 + 1)):
                        pass

        def LINGER():
            if bare:
                return
            a = sim.now
            while sim.now < a + self.linger:
                sim.sleep(5 * MS)
                world.W(50)
                engine.pt()
            self.lingers = a, sim.now
        self.env.update(IDLE=IDLE, LINGER=LINGER)
        builtins.__dict__.update(self.env)

    def command_line(self):
        args = [self.w.pick(['remote-profile', 'remote'])] + self.options + ['--bind', '%s:%d' % ADDR]
        if self.source == 'file':
            return args + ['--', SCRIPT] + self.argv
        elif self.source == '-c':
            return args + ['-c', self.script(), '--'] + self.argv
        return args + ['-m', 'simmod', '--'] + self.argv

    # -- clients -----------------------------------------------------------------------------

    def client(self, c):
        sim, net = self.sim, self.net
        sim.sleep(c.at)
        sock = c.sock = net.socket()
        try:
            sock.connect(ADDR)
        except OSError as exc:
            c.ended = 'refused'
            return
        c.connected_at = sim.now
        c.server_end = sock.peer
        c.ticks = []
        sim.log('client', c.i, 'connected')
        while c.until is None or sim.now < c.until:
            if not sim.block(sock._readable, c.until):
                continue
            try:
                data = sock.recv(65536)
            except OSError as exc:
                c.ended, c.ended_at = 'error %r' % exc, sim.now
                return
            if not data:
                c.ended, c.ended_at = 'eof', sim.now
                return
            c.feed(data, sim.now)
            while len(c.ticks) < len(c.messages):
                c.ticks.append((self.world.tick(), len(self.rounds)))
            if c.torn:
                return
        c.left_at = sim.now
        sim.log('client', c.i, 'leaves')
        if c.kind == 'stall':
            return
        if c.kind == 'junk':
            try:
                sock.send(b'GET / HTTP/1.0\r\n')
            except OSError:
                pass
        elif c.how == 'reset':
            sock.abort()
        elif c.how == 'close':
            sock.close()
        else:
            try:
                sock.shutdown(socket.SHUT_WR)
            except OSError:
                pass

    # -- the run -----------------------------------------------------------------------------

    def toggled(self, on):
        sim, world = self.sim, self.world
        if not sim.cur.main:
            return
        if self.finished:
            return
        rounds = self.rounds
        if on:
            if rounds and rounds[-1].off is None:
                self.violate('rounds', 'a round begins within another')
            rounds.append(Window(world.tick(), sim.now))
        elif rounds and rounds[-1].off is None:
            rounds[-1].off, rounds[-1].ended = world.tick(), sim.now

    def main(self):
        sim = self.sim = engine.SIM
        s = self.run.s
        fs = self.fs = simfs.use(sim)
        net = self.net = simnet.Net(sim, s, self.lat, self.frag, self.caps)
        simnet.use(sim, net)
        terminal = self.terminal = Terminal(sim, net)
        world = self.world = World(sim, budget=60, work_cap=1000000)
        self.interrupted, self.in_callback, self.finished = None, False, False
        self.rounds = []
        self.primitives(world)
        fs.proc.fds.clear()
        inode = fs.files[SCRIPT] = simfs.Inode(fs)
        inode.data[:] = self.script().encode()
        sim.hooks['setprofile'] = lambda func: self.toggled(func is not None)
        sim.hooks['setitimer'] = lambda which, value, interval: self.toggled(value > 0)
        sim.handlers[signal.SIGINT] = signal.default_int_handler
        if self.end == 'interrupt':
            def interrupt():
                if self.inside and sim.cur.main and self.interrupted is None and not sim.in_handler:
                    if any(f.f_code.co_filename == threading.__file__ for f in engine._frames(sys._getframe(1))):
                        return          # locks of the standard library are not made for it
                    self.interrupted = world.tick()
                    world.torn = True
                    self.in_callback = bool(sim.cur.in_callback)
                    sim.count('interrupt-in-callback' if self.in_callback else 'interrupt')
                    sim.log('interrupt')
                    sim.interrupts(0, None)
                    raise KeyboardInterrupt
            sim.interrupts(s.pick([300, 1000, 4000, 20]), interrupt)
        args = self.command_line()
        self.notes.append('%s, ends by %s; %s' % (
            ' '.join(repr(a) if len(a) < 60 else '...' for a in args), self.end, '; '.join(map(str, self.clients))))
        for c in self.clients:
            sim.spawn(lambda c=c: self.client(c), 'client%d' % c.i)
        argv = list(sys.argv)
        out, err = io.StringIO(), io.StringIO()
        sys.stdout, sys.stderr = out, err       # fn() puts them back
        path0 = list(sys.path)
        try:
            self.shown, self.exc = terminal.see(args)
        finally:
            sys.argv[:] = argv
            sys.path[:] = path0
        sim.interrupts(0, None)
        self.finished = True
        self.ended_at = sim.now
        sim.setprofile(None)
        threading.setprofile(None)
        sim.itimer = (engine.FOREVER, 0)
        self.out, self.err = out.getvalue(), err.getvalue()
        self.name_functions(world)
        sim.quiet += 1
        try:
            self.judge()
            if not self.threads and self.interrupted is None and self.end != 'interrupt' \
                    and not self.run.out.violations:
                self.bare()
        finally:
            sim.quiet -= 1

    def bare(self):
        sim = self.sim
        seen, output, calls = self.seen, self.output, [(c.k, c.chain) for c in self.world.calls]
        world = self.world = World(sim, budget=60, work_cap=1000000)
        self.primitives(world, True)
        try:
            exec(instrument.compile_instrumented(self.script(), SCRIPT), {'__name__': '__main__', '__file__': SCRIPT})
        except engine.SimKilled:
            raise
        except BaseException:
            pass
        if output != self.output:
            self.violate('behaviour', 'its output is %s, unprofiled %s' % (output, self.output))
        elif calls != [(c.k, c.chain) for c in world.calls]:
            self.violate('behaviour', 'it makes other calls than unprofiled')
        sim.count('compared')

    # -- judging -----------------------------------------------------------------------------

    def judge(self):
        sim = self.sim
        want = {'return': None, 'raise': Boom, 'exit': SystemExit, 'keyboard': None, 'base': Base,
                'interrupt': None}[self.end]
        if (None if self.exc is None else type(self.exc)) is not want or \
                want is SystemExit and self.exc.code != 3:
            self.violate('end', 'the command ended by %r, the script by %s' % (self.exc, self.end))
            return
        if not self.seen:
            if self.begun is None or self.interrupted is None:
                self.violate('script', 'the script was not run: %r' % self.err[-300:])
            return
        for argv, name, file, names, path in self.seen[:1]:
            want = {'file': SCRIPT, '-c': '<string>', '-m': SCRIPT}[self.source]
            if argv != [want] + self.argv or name != '__main__':
                self.violate('globals', 'the script sees %s, %s' % (argv, name))
        if self.err:
            self.violate('stderr', 'printed was %r' % self.err[-300:])
        if not self.verbose and self.out:
            self.violate('quiet', 'printed was %r' % self.out[-300:])
        if self.verbose:
            lines = self.out.split('\n')
            if not lines or '%s:%d' % ADDR not in lines[0]:
                self.violate('verbose', 'not told the address: %r' % self.out[:200])
        connected = [c for c in self.clients if c.connected_at is not None]
        if self.rounds and not connected:
            self.violate('rounds', 'profiled without any client')
        sim.count('rounds', len(self.rounds))
        for c in connected:
            self.judge_client(c)
        self.judge_progress(connected)

    def judge_client(self, c):
        sim = self.sim
        if c.torn:
            self.violate('torn', '%s got %s' % (c, c.torn))
            return
        methods = [m for _, m, _ in c.messages]
        if methods[:2] != [WELCOME, PROFILER][:len(methods)] or \
                any(m != RESULT for m in methods[2:]):
            self.violate('order', '%s got messages %s' % (c, methods))
            return
        if len(methods) > 1:
            cls = c.messages[1][2]
            if cls.__name__ != ('SamplingProfiler' if self.sampling else 'TracingProfiler'):
                self.violate('kind', '%s is told of %s' % (c, cls))
        got = [(at, msg, tick, n) for (at, m, msg), (tick, n) in zip(c.messages[2:], c.ticks[2:])]
        # (with small buffers, a server thread starved by the program may take it for stalled)
        if c.kind == 'healthy' and c.ended is not None and min(self.caps) >= 1 << 18:
            if c.ended_at < self.ended_at:
                self.violate('dropped', '%s was disconnected: %s' % (c, c.ended))
        if not got:
            return
        sim.count('results', len(got))
        # the last is of a round which was over by then, those before it of the rounds before it
        problem = None
        done = [r for r in self.rounds[:got[-1][3]] if r.off is not None and r.ended <= got[-1][0]]
        for last in range(len(done) - 1, len(got) - 2, -1):
            for i, (at, result, tick, n) in enumerate(got):
                r = done[last - len(got) + 1 + i]
                p = 'a result before the end of its round' if r.ended > at else self.misfit(result, r, tick)
                if p:
                    problem = problem or '%s, result %d: %s' % (c, i, p)
                    break
            else:
                return
        self.violate('result', problem or '%s got %d results of %d rounds' % (c, len(got), len(done)))

    def misfit(self, result, r, tick):
        """Why the result cannot be of the round."""
        world = self.world
        stats, cpu, wall = result
        lasted = seconds(r.ended - r.begun)
        if not lasted * .999 - .0001 <= wall <= lasted + seconds(self.slack) or cpu < 0:
            return 'wall time %r, cpu time %r in a round of %r seconds' % (wall, cpu, lasted)
        todo = list(stats)
        while todo:
            node = todo.pop()
            todo.extend(node)
            f = node.filename or ''
            if '/click/' in f or f.endswith('/profiling/__main__.py') and node.name in (
                    'remote_profile', 'live_profile', 'wrapped'):
                return "the command's own frame %s (%s) is shown" % (node.name, f)
        counted = project(stats, world.names)
        if self.sampling:
            live = set()
            for call in world.calls:
                if call.c < tick and (call.d is None or call.d > r.on):
                    live.add(call.chain)
            for chain in counted:
                if not any(self.program.kinds[k] == 'gen' for k in chain) and chain not in live:
                    return '%s was not called in the round' % '>'.join(self.program.names[k] for k in chain)
            return
        low, high = {}, {}
        main = [c.c for c in world.calls if c.ctx.thread_start is None]
        a2 = min([t for t in main if t > r.on] or [1 << 60])
        b2 = max([t for t in main if t < r.off] or [-1])
        hurt = self.interrupted if self.in_callback and self.interrupted is not None else None
        for call in world.calls:
            chain = call.chain
            if any(self.program.kinds[k] == 'gen' for k in chain):
                continue
            thread = call.ctx.thread_start is not None
            if call.c < (tick if thread else r.off) and (call.d is None or call.d > r.on):
                high[chain] = high.get(chain, 0) + 1
            if thread:
                sure = a2 < call.ctx.thread_start < b2 and call.d is not None and call.d < b2
            else:
                sure = call.c > r.on and call.e < r.off
            if sure and hurt is not None and hurt > r.on and call.e > hurt:
                sure = False
            if sure:
                low[chain] = low.get(chain, 0) + 1
        extra = 1 if self.interrupted is not None else 0
        for chain in set(low) | set(counted):
            if any(self.program.kinds[k] == 'gen' for k in chain):
                continue
            n = counted.get(chain, [0])[0]
            if not low.get(chain, 0) <= n <= high.get(chain, 0) + extra:
                return '%s counted %d times, %d to %d calls were made in the round' % (
                    '>'.join(self.program.names[k] for k in chain), n, low.get(chain, 0), high.get(chain, 0))

    def judge_progress(self, connected):
        """While the program lingers, results arrive in time."""
        if self.lingers is None:
            return
        a, b = self.lingers
        for c in connected:
            if c.kind != 'healthy' or c.ended is not None:
                continue
            x, y = max(a, c.connected_at), min(b, c.left_at or b)
            times = [t for t, m, _ in c.messages if m == RESULT]
            points = [x] + [t for t in times if x < t < y] + [y]
            for p, q in zip(points, points[1:]):
                if q - p > self.I + self.hold + self.slack:
                    self.violate('progress', '%s waited for a result from %.4f to %.4f' % (c, seconds(p), seconds(q)))
                    return


def scenario(prop):
    import profiling.__main__
    import profiling.sampling.samplers
    import profiling.tracing.timers
    import profiling.remote.select
    import urwid.event_loop.select_loop
    profiling.sampling, profiling.tracing, profiling.remote, urwid.event_loop
    install_terminal()
    sys.meta_path.insert(0, Finder())
    real_compile = compile

    def compile_(source, filename, mode, *args, **kwargs):
        if engine.SIM is not None and mode == 'exec':
            return instrument.compile_instrumented(source, filename)
        return real_compile(source, filename, mode, *args, **kwargs)
    profiling.__main__.compile = compile_
    before = set(builtins.__dict__)

    def fn(run):
        linecache.clearcache()
        t = SessionRun(run, prop)
        stdout, stderr = sys.stdout, sys.stderr
        try:
            run.simulate(t.main, preempt=t.preempt)
        finally:
            sys.stdout, sys.stderr = stdout, stderr
            for name in set(builtins.__dict__) - before:
                del builtins.__dict__[name]
        sim, out = run.sim, run.out
        for name, exc, tb in sim.task_excs:
            if name.startswith('client'):
                raise engine.SimError('%s: %s' % (name, tb))
            if not isinstance(exc, Boom):
                t.violate('server', 'an error in a thread: %s' % tb)
        if sim.end != 'main':
            out.violate('E01-stuck', 'the program hangs: %s at %s %s' % (sim.end, sim.stuck_at, t.notes))
        out.notes.append(t.script())
        out.notes.extend(t.notes)
        out.trivial = not sim.counters.get('results')
    return fn
