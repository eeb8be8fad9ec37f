"""R02-R05: profiling servers and their clients."""
import errno
import pickle
import socket
import struct

from profiling.profiler import Profiler, ProfilerWrapper
from profiling.stats import FrozenStatistics
from sim import aio, engine, gevents, net as simnet
from sim.engine import TICKS, seconds, ticks

WELCOME, PROFILER, RESULT = 0x10, 0x11, 0x12
MS = TICKS // 1000


class RoundProfiler(Profiler):
    """Notes its rounds; its results carry their number and have any size."""

    host = None

    def run(self):
        self.host.note('start')
        yield
        self.host.note('stop')

    def result(self):
        host = self.host
        n = host.value(len(host.stops))
        wall = seconds(engine.SIM.now) if host.same == 1 else float(n)
        return FrozenStatistics('round', 'x' * host.size_of(n), 1, None, n, float(n)), float(n), wall


class OtherProfiler(RoundProfiler):
    pass


class Wrapper(ProfilerWrapper):

    def run(self):
        self.profiler.start()
        yield
        self.profiler.stop()


class Client(object):
    """A scripted client."""

    def __init__(self, i, kind, at, until, pause=0, how='close', lag=0):
        self.i, self.kind, self.at, self.until, self.pause, self.how = i, kind, at, until, pause, how
        self.junk = False           # sent
        self.sock = None
        self.data = b''
        self.messages = []          # [(arrival tick of its end, method, content)]
        self.torn = None
        self.woke = False
        self.sip = None             # reads only so many bytes at once
        self.connected_at = self.left_at = self.ended_at = None
        self.ended = None
        self.server_end = None

    @property
    def healthy(self):
        return self.kind == 'healthy'

    def __str__(self):
        return '%s client %d from %.4f to %s (%s)' % (
            self.kind, self.i, seconds(self.at), self.until and '%.4f' % seconds(self.until), self.how)

    def feed(self, data, now):
        self.data += data
        while len(self.data) >= 5 and self.torn is None:
            method, size = struct.unpack('!BI', self.data[:5])
            if method not in (WELCOME, PROFILER, RESULT) or size > 1 << 24:
                self.torn = 'method %d, size %d' % (method, size)
                return
            if len(self.data) < 5 + size:
                return
            try:
                msg = pickle.loads(self.data[5:5 + size])
            except Exception as exc:
                self.torn = 'a message which cannot be loaded: %r' % exc
                return
            self.data = self.data[5 + size:]
            self.messages.append((now, method, msg))


class Select(object):
    """profiling.remote.select"""

    name = 'select'

    def __init__(self, run):
        self.run = run

    def start(self):
        from profiling.remote.select import SelectProfilingServer
        run = self.run
        listener = run.net.socket()
        listener.bind(('127.0.0.1', 8912))
        listener.listen(run.backlog)
        self.server = SelectProfilingServer(listener, *run.server_args())
        run.sim.spawn(self.body, 'server')

    def serve(self):
        self.server.serve_forever()

    def body(self):
        try:
            self.serve()
        except engine.SimKilled:
            raise
        except BaseException as exc:
            import traceback
            self.run.died(exc, traceback.format_exc())
        else:
            self.run.died(None, 'it returned')


class Gevent(Select):
    """profiling.remote.gevent on stand-ins of gevent"""

    name = 'gevent'

    def start(self):
        from profiling.remote.gevent import GeventProfilingServer
        run = self.run
        run.sim.hooks['gevent-error'] = run.died
        listener = run.net.socket()
        listener.bind(('127.0.0.1', 8912))
        listener.listen(run.backlog)
        self.server = GeventProfilingServer(listener, *run.server_args())
        run.sim.spawn(self.body, 'server')


class AsyncIO(Select):
    """profiling.remote.asyncio on the real event loop of asyncio"""

    name = 'asyncio'

    def start(self):
        from profiling.remote.asyncio import AsyncIOProfilingServer
        self.server = AsyncIOProfilingServer(*self.run.server_args())
        self.run.sim.spawn(self.body, 'server')
        self.run.sim.block(lambda: self.run.net.listeners or self.run.death)

    def body(self):
        loop = aio.new_loop(self.run.net)

        def report(loop, context):
            exc = context.get('exception')
            if context.get('message', '').startswith('Exception in callback'):
                self.run.died(exc, context['message'])
            elif exc is not None:
                self.run.sim.log('loop', context['message'], type(exc).__name__)
        loop.set_exception_handler(report)
        super(AsyncIO, self).body()
    # asyncio.start_server() binds and listens

    def serve(self):
        self.server.serve_forever(('127.0.0.1', 8912))


HOSTS = {'select': Select, 'gevent': Gevent, 'asyncio': AsyncIO}

HOSTS_WEIGHTED = ['select', 'select', 'gevent', 'asyncio']
BAD_KINDS = ['stall', 'nap', 'drip', 'reset', 'close', 'halfclose', 'junk', 'early', 'error', 'vanish', 'abort']


class ServerRun(object):

    def __init__(self, run, prop):
        self.run, self.prop = run, prop
        w = self.w = run.w
        self.host = HOSTS[w.pick(HOSTS_WEIGHTED)](self)
        self.I = w.pick([TICKS, TICKS // 4, 3 * TICKS])
        self.lat = w.pick([(0,), (0, 10), (MS, 3 * MS)])
        self.maxlat = max(self.lat)
        self.frag = w.pick([(0,), (1, 50, 0), (0, 1500)])
        self.caps = w.pick([(1 << 18,), (1 << 18,), (600,), (5000,)])
        self.sizes = w.pick([(10,), (10, 400), (3000,), (20000, 10)])
        self.backlog = w.pick([128, 1])
        self.protocol = w.pick([2, 3, 4, 0])
        self.preempt = w.pick([0, 0, 30]) if self.host.name == 'select' else 0
        self.wrapped = w.pick([0, 0, 1, 2])
        self.cls = w.pick([RoundProfiler, OtherProfiler])
        n = w.randint(1, 5)
        bad = {'R04': .5, 'R02': .3, 'R03': .25, 'R05': .15}[prop]
        # the time it takes to send a result to everybody
        transfer = (n + 1) * ((max(self.sizes) + 700) // min(self.caps) + 3) * self.maxlat
        if transfer > self.I // 6:
            self.caps = (1 << 18,)
            transfer = (n + 1) * 4 * self.maxlat
        self.slack = transfer + 4 * self.maxlat + 2 * MS
        self.clients = []
        step = self.I // 4
        for i in range(n):
            # times on a coarse grid, so that things happen at the same instant
            at = w.below(16) * step + w.pick([0, 0, 0, 1, 7, step // 3])
            stay = w.pick([None, step, 3 * step, 8 * step, 12 * step, 20 * step, 1])
            until = None if stay is None else at + stay
            kind = w.pick(BAD_KINDS) if w.chance(bad) else 'healthy'
            if kind in ('reset', 'close', 'halfclose', 'junk', 'error', 'vanish', 'stall', 'nap', 'drip') and until is None:
                until = at + 5 * step
            self.clients.append(Client(i, kind, at, until, how=w.pick(['close', 'reset', 'halfclose'])))
        if w.chance(.3) and n > 1:
            # somebody comes in the instant in which somebody leaves
            a, b = w.below(n), w.below(n)
            if a != b and self.clients[a].until:
                self.clients[b].at = self.clients[a].until
                if self.clients[b].until is not None:
                    self.clients[b].until = self.clients[b].at + w.pick([step, 9 * step])
        self.eintr = w.pick([0, 0, .3]) if prop in ('R05', 'R04') else 0
        self.steps = w.pick([0, 0, 1]) if prop == 'R05' else 0
        self.emfile = w.pick([None, None, None, (w.below(16) * step, w.pick([step, 6 * step]))]) \
            if prop == 'R04' else None
        self.peer_errors = w.pick([0, 0, .3]) if prop == 'R04' else 0
        self.first_fd = w.pick([5, 5, 5, 1021]) if prop == 'R04' else 5
        # the server's process does not get to run for a while
        self.starved = w.pick([0, 0, 0, 0, 15, 60]) if prop in ('R04', 'R02') and self.host.name != 'gevent' else 0
        self.pause = w.pick([self.I // 5, self.I, 2 * self.I])
        self.pauses = 0
        # the program is idle: so many results in a row are equal
        self.same = w.pick([1, 1, 1, 1, 1, 3]) if prop in ('R02', 'R05') else 1
        self.starts, self.stops, self.marks = [], [], []
        self.death = None
        self.event_times = []       # socket events as the server sees them

    # -- hooks of the profiler -----------------------------------------------------------

    def note(self, what):
        sim = self.sim
        sim.log('profiler', what)
        (self.starts if what == 'start' else self.stops).append(sim.now)
        self.marks.append((sim.now, what))

    def value(self, n):
        """What the n-th result says."""
        return (n + self.same - 1) // self.same

    def numbered(self, c):
        """The possible numberings of the results the client received."""
        results = [(t, m[0].own_hits) for t, method, m in c.messages if method == RESULT]
        if self.same == 1 or not results:
            return [results]
        first = results[0][1]
        return [[(t, n + i) for i, (t, _) in enumerate(results)]
                for n in range((first - 1) * self.same + 1, first * self.same + 1)
                if all(self.value(n + i) == v for i, (_, v) in enumerate(results))]

    def size_of(self, n):
        return self.sizes[n % len(self.sizes)]

    def server_args(self):
        profiler = self.profiler = self.cls()
        profiler.host = self
        for _ in range(self.wrapped):
            profiler = Wrapper(profiler)
        return profiler, seconds(self.I), lambda line: self.sim.log('server', line), self.protocol

    def died(self, exc, tb):
        self.death = (exc, tb)
        self.sim.log('server-died', repr(exc))

    def violate(self, cls, msg):
        self.run.out.violate('%s-%s' % (self.prop, cls), '%s [%s]' % (msg, self.note_()))

    def note_(self):
        return '%s server, interval %.3f, %s%s%s' % (
            self.host.name, seconds(self.I), '; '.join(map(str, self.clients)),
            '; EMFILE at %s' % (self.emfile,) if self.emfile else '',
            '; first fd %d' % self.first_fd if self.first_fd != 5 else '')

    # -- clients -------------------------------------------------------------------------

    def client(self, c):
        sim, net = self.sim, self.net
        if c.at > sim.now:
            sim.sleep(c.at - sim.now)
        sock = c.sock = net.socket()
        try:
            sock.connect(('127.0.0.1', 8912))
        except OSError as exc:
            c.ended, c.ended_at = 'refused', sim.now
            sim.log('client', c.i, 'refused', repr(exc))
            return
        c.server_end = sock.peer
        c.connected_at = sim.now
        self.event_times.append(sim.now)
        sim.log('client', c.i, 'connected')
        if c.kind in ('early', 'abort'):
            # gone before it is greeted or accepted
            self.leave(c, 'reset' if c.kind == 'abort' else c.how)
            return
        while True:
            until = None if c.woke else c.until
            if c.kind == 'stall' and sim.now >= until:
                return              # stays connected and never reads again
            if until is not None and sim.now >= until:
                if c.kind == 'drip':
                    # reads on very slowly
                    sim.sleep(self.I // 3)
                    c.sip = self.run.s.pick([1, 10, 100, 700])
                    c.woke = True
                    continue
                if c.kind == 'nap':
                    # reads on later
                    sim.sleep(self.run.s.pick([self.I // 2, 2 * self.I, 5 * self.I]))
                    c.woke = True
                    continue
                break
            ready = sim.block(sock._readable, until)
            if not ready:
                continue
            try:
                if c.sip:
                    sim.sleep(self.I // 3)
                data = sock.recv(c.sip or 65536)
            except OSError as exc:
                c.ended, c.ended_at = 'error %r' % exc, sim.now
                break
            if not data:
                c.ended, c.ended_at = 'eof', sim.now
                break
            c.feed(data, sim.now)
            if c.torn:
                return
        if c.ended:
            sim.log('client', c.i, c.ended)
            self.event_times.append(sim.now)
            sock.close()
            return
        kind = c.kind if c.kind in ('reset', 'close', 'halfclose', 'junk', 'error', 'vanish') else c.how
        self.leave(c, kind)

    def leave(self, c, kind):
        sim, net, sock = self.sim, self.net, c.sock
        c.left_at = sim.now
        sim.log('client', c.i, 'leaves by', kind)
        self.event_times.append(sim.now)
        sim.count('leave-' + kind)
        if kind == 'reset':
            sock.abort()
        elif kind == 'close':
            sock.close()
        elif kind == 'halfclose':
            try:
                sock.shutdown(socket.SHUT_WR)
            except OSError:
                pass
            self.drain(sock)
        elif kind == 'junk':
            try:
                sock.send(b'GET / HTTP/1.0\r\n')
                c.junk = True
            except OSError:
                pass
            self.drain(sock)
        elif kind == 'error':
            if c.server_end.state == 'connected':
                net.break_(c.server_end, self.run.s.pick([errno.ETIMEDOUT, errno.EHOSTUNREACH, errno.ECONNRESET,
                                                          errno.EPIPE, errno.ENETDOWN]))
            sock.tx.broken = sock.rx.broken = True
        elif kind == 'vanish':
            sock.tx.broken = sock.rx.broken = True

    def drain(self, sock):
        while True:
            self.sim.block(sock._readable)
            try:
                if not sock.recv(65536):
                    break
            except OSError:
                break

    # -- the run -------------------------------------------------------------------------

    def faults(self, op, sock):
        if op == 'accept' and self.emfile is not None:
            a, n = self.emfile
            if a <= self.sim.now < a + n:
                return errno.EMFILE
        if op == 'getpeername' and self.peer_errors and self.run.s.chance(self.peer_errors):
            return self.run.s.pick([errno.ENOTCONN, errno.EINVAL, errno.ENOBUFS])

    def starve(self):
        sim = self.sim
        if self.starved and sim.cur.name == 'server' and self.pauses < 12 and self.run.s.chance(.3):
            self.pauses += 1
            sim.count('server-starved')
            sim.block(None, sim.now + 1 + self.run.s.below(self.pause), False)

    def main(self):
        sim = self.sim = engine.SIM
        net = self.net = simnet.Net(sim, self.run.s, self.lat, self.frag, self.caps)
        net.first_fd = self.first_fd
        net.client_fd = 5
        net.p_eintr = self.eintr
        net.faults = self.faults
        simnet.use(sim, net)
        self.host.start()
        for c in self.clients:
            sim.spawn(lambda c=c: self.client(c), 'client%d' % c.i)
        if self.steps:
            def step():
                sim.wall_off += self.run.s.pick([-3600 * TICKS, 3600 * TICKS, -TICKS // 2, TICKS // 3])
                sim.count('clock-steps')
            for i in range(1, 6):
                sim.at(sim.now + i * self.I + self.I // 3, step)
        if self.starved:
            sim.interrupts(self.starved, self.starve)
            net.on_partial = self.starve
        times = [t for c in self.clients for t in (c.at, c.until) if t is not None]
        last = max(times)
        if self.emfile:
            last = max(last, sum(self.emfile))
        last += 2 * self.I + 5
        sim.sleep(last - sim.now)
        # afterwards the server still serves
        sim.sleep(sum(c.kind in ('stall', 'nap', 'drip', 'vanish') for c in self.clients) * self.I + self.I // 8)
        net.faults = None
        if self.starved:
            self.starved = 0
            sim.sleep(self.pauses * self.pause + 2 * len(self.clients) * self.I)
        probe = self.probe = Client(len(self.clients), 'healthy', sim.now, None)
        self.clients.append(probe)
        sim.spawn(lambda: self.client(probe), 'probe')
        sim.sleep(5 * self.I // 2 + (2 * len(self.clients) * self.I if self.pauses else 0))
        self.end_at = sim.now

    # -- judging -------------------------------------------------------------------------

    def judge(self):
        from profiling.__about__ import __version__
        sim, out = self.run.sim, self.run.out
        prop = self.prop
        for name, exc, tb in sim.task_excs:
            self.violate('error', 'error in %s: %s' % (name, tb))
        if sim.end != 'main':
            self.violate('stuck', 'the server hangs or spins: %s at %s' % (sim.end, sim.stuck_at and [
                f for f in sim.stuck_at if 'profiling' in f[0]][:3]))
            return
        if self.death is not None:
            self.violate('died', 'the server died: %r %s' % self.death)
            return
        stalls = [c for c in self.clients if c.kind in ('stall', 'nap', 'drip', 'vanish') and c.connected_at is not None]
        # each may hold up the others once, for one interval
        self.hold = len(stalls) * self.I if self.host.name != 'asyncio' else 0
        if self.emfile:
            # asyncio waits for a second before it accepts again, gevent at most as long
            self.hold += self.emfile[1] + (TICKS // 5 if self.host.name == 'select' else TICKS + TICKS // 5)
        if self.host.name == 'gevent':
            # its server waits after it failed to accept
            n = sum(c.kind in ('abort', 'early') or c.how == 'reset' for c in self.clients)
            self.hold += (2 ** n - 1) * 10 * MS
        for c in self.clients:
            if c.connected_at is None:
                if prop == 'R04' and c.ended == 'refused':
                    self.violate('refused', '%s is refused' % c)
                continue
            if prop in ('R02', 'R04'):
                self.judge_stream(c, __version__)
        if self.pauses:
            # who was not given the time to receive may be dropped
            self.judge_delivery('harmed', [self.probe])
            return
        getattr(self, 'judge_' + prop)()

    def judge_stream(self, c, version):
        if c.torn:
            self.violate('torn', '%s received %s' % (c, c.torn))
            return
        want = None
        for i, (t, method, msg) in enumerate(c.messages):
            if i == 0:
                if method != WELCOME or msg != (self.protocol, version):
                    self.violate('greeting', '%s was greeted with %r %r' % (c, method, msg))
                    return
            elif i == 1:
                if method != PROFILER or msg is not self.cls:
                    self.violate('kind', '%s got %r %r instead of the profiler kind' % (c, method, msg))
                    return
            else:
                if method != RESULT:
                    self.violate('order', '%s received message %r again' % (c, method))
                    return
                stats, cpu_time, wall_time = msg
                n = stats.own_hits
                if cpu_time != n or len(stats.filename) != self.size_of(n):
                    self.violate('content', '%s received a wrong result %d' % (c, n))
                if want is not None and n != want and self.same == 1:
                    self.violate('sequence', '%s received result %d instead of %d' % (c, n, want))
                    return
                want = n + 1
        if not self.numbered(c):
            self.violate('sequence', '%s received results %s, each of which is made %d times' % (
                c, [m[0].own_hits for _, method, m in c.messages if method == RESULT], self.same))
            return
        if c.data and c.ended is None and c.left_at is None and c.healthy and \
                (self.end_at - c.messages[-1][0] if c.messages else 0) > self.I // 2 + self.slack and \
                self.quiet_end(c):
            self.violate('torn', '%s received only a part of a message' % c)

    def quiet_end(self, c):
        return not c.server_end.tx.flying

    def gone(self, c):
        """When the client was surely gone for the server."""
        t = [x for x in (c.left_at, c.ended_at) if x is not None]
        return min(t) if t else None

    def rounds_after(self, t, before):
        return [i + 1 for i, s in enumerate(self.stops) if t < s < before]

    def judge_delivery(self, cls, clients=None):
        """Healthy clients get the latest result at once and all later ones."""
        for c in clients or self.clients:
            if not c.healthy or c.connected_at is None or self.excused(c):
                continue
            end = self.gone(c) or self.end_at
            if c.ended is not None:
                self.violate('dropped', '%s was dropped: %s' % (c, c.ended))
                continue
            stayed = end - c.connected_at
            delay = self.slack + self.hold
            if stayed <= delay:
                continue
            if len(c.messages) < 2:
                self.violate('greeting', '%s was not greeted within %.3f s' % (c, seconds(stayed)))
                continue
            problems = [self.judge_results(c, results, end, delay) for results in self.numbered(c)]
            if problems and all(problems):
                self.violate(*problems[0])

    def judge_results(self, c, results, end, delay):
        had = sum(s < c.connected_at for s in self.stops)
        if had:
            if not results or results[0][0] > c.messages[0][0] + delay or results[0][1] < had:
                return 'latest', '%s was not given the latest result %d at once: %s' % (c, had, results[:1])
        got = set(n for _, n in results)
        for n in self.rounds_after(c.messages[0][0] + delay, end - delay):
            if n not in got:
                return 'missed', '%s did not receive result %d' % (c, n)

    def excused(self, c):
        """Its connection cannot be watched by select()."""
        return c.server_fd_high and self.host.name == 'select'

    def judge_R02(self):
        self.judge_delivery('missed')

    def present(self):
        """[(from, to)] during which healthy clients were connected."""
        spans = sorted((c.connected_at, self.gone(c) or self.end_at) for c in self.clients
                       if c.connected_at is not None and c.healthy and not self.excused(c))
        out = []
        for a, b in spans:
            if out and a <= out[-1][1]:
                out[-1][1] = max(b, out[-1][1])
            else:
                out.append([a, b])
        return out

    def anybody(self):
        """[(from, to)] during which the server may believe in clients."""
        spans = []
        for c in self.clients:
            if c.connected_at is None:
                continue
            end = self.gone(c)
            if c.kind in ('stall', 'nap', 'drip', 'vanish', 'junk') or end is None:
                end = self.end_at
            spans.append((c.connected_at, end))
        return spans

    def running_spans(self):
        out, start = [], None
        for t, what in self.marks:
            if what == 'start':
                start = t
            elif start is not None:
                out.append((start, t))
                start = None
        if start is not None:
            out.append((start, self.end_at))
        return out

    def judge_R03(self):
        running = self.running_spans()
        spans = self.anybody()
        limit = self.I + self.hold + self.slack
        # no moment of it may be later than one interval after the last client left
        covered = []
        for x, y in sorted(spans):
            if covered and x <= covered[-1][1]:
                covered[-1][1] = max(covered[-1][1], y + limit)
            else:
                covered.append([x, y + limit])
        for a, b in running:
            first = min([x for x, _ in spans] or [self.end_at])
            if a < first:
                self.violate('early', 'profiling started at %.4f, before any client' % seconds(a))
                return
            cover = max([y for x, y in spans if x <= a] or [-limit])
            if a > cover + self.slack + self.hold:
                self.violate('alone', 'profiling started at %.4f without clients' % seconds(a))
                return
            end = max([y for x, y in covered if x <= a] or [0])
            if b > end:
                self.violate('alone', 'profiling goes on at %.4f without clients' % seconds(end))
                return
        for a, b in self.present():
            # from soon after the first came until the last left
            gaps, t = [], a
            for x, y in running:
                if y <= t:
                    continue
                if x >= b:
                    break
                if x > t:
                    gaps.append((t, min(x, b)))
                t = max(t, y)
            if t < b:
                gaps.append((t, b))
            for x, y in gaps:
                if y - x > self.slack + self.hold:
                    self.violate('gap', 'no profiling from %.4f to %.4f although clients are connected' % (
                        seconds(x), seconds(y)))
                    return

        # two loops would take turns
        self.judge_early('rounds')

    def judge_R04(self):
        self.judge_delivery('harmed')
        self.judge_gaps('held')
        for c in self.clients:
            # the connection of one who is known to be gone is closed
            se = c.server_end
            if se is None or se.fd == -1 or se.closed:
                continue
            known = se.rx.eof or se.state != 'connected'
            if c.kind == 'junk':
                # asyncio's takes anything until the end of the stream
                known = c.junk and self.host.name != 'asyncio'
            end = self.gone(c)
            if known and end is not None and self.end_at - end > 2 * self.I + self.hold + self.slack:
                self.violate('open', 'the connection of %s is still open' % c)
            if c.kind in ('stall', 'vanish') and self.host.name != 'asyncio' and not se.tx.space() and \
                    self.end_at - se.tx.wrote_at > 3 * self.I + self.hold + self.slack and \
                    sum(t > se.tx.wrote_at for t in self.stops) > 2:
                self.violate('open', 'the connection of %s is still open, although results cannot be '
                             'delivered' % c)

    def judge_gaps(self, cls):
        """Nobody waits for longer than one interval."""
        for c in self.clients:
            if not c.healthy or c.connected_at is None or self.excused(c) or c.ended is not None:
                continue
            times = [t for t, method, _ in c.messages if method == RESULT]
            end = self.gone(c) or self.end_at
            for a, b in zip([c.connected_at] + times, times + [end]):
                if b - a > self.I + self.hold + self.slack:
                    self.violate(cls, '%s waited from %.4f to %.4f for a result' % (c, seconds(a), seconds(b)))
                    return

    def judge_R05(self):
        self.judge_gaps('late')
        self.judge_early('early')

    def judge_early(self, cls):
        # every early result is caused by another event at a socket
        events = sorted(self.event_times)
        for a, b in zip(self.stops, self.stops[1:]):
            if b - a < self.I - 2:
                for e in events:
                    if b - 2 * self.I - self.hold - self.slack <= e <= b:
                        events.remove(e)
                        break
                else:
                    self.violate(cls, 'results at %.4f and %.4f without an event at a socket' % (
                        seconds(a), seconds(b)))
                    return


def scenario(prop):
    import profiling.remote.select
    gevents.install()
    import profiling.remote.gevent
    import profiling.remote.asyncio
    profiling.remote

    def fn(run):
        t = ServerRun(run, prop)
        run.simulate(t.main, preempt=t.preempt, max_points=2000000)
        sim, out = run.sim, run.out
        for c in t.clients:
            se = c.server_end
            c.server_fd_high = se is not None and getattr(se, 'first_fd', 0) >= 1024
        t.judge()
        out.notes.append(t.note_())
        out.counters['rounds'] = len(t.stops)
        out.counters['clients'] = len(t.clients)
        out.counters['messages'] = sum(len(c.messages) for c in t.clients)
        out.counters['host-' + t.host.name] = 1
        out.trivial = not t.stops
    return fn
