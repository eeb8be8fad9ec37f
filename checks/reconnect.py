"""R06: the reconnecting client of the viewer."""
import errno
import pickle
import selectors
import socket
import struct

from sim import aio, engine, net as simnet
from sim.engine import TICKS, seconds, ticks

MS = TICKS // 1000
SEC = TICKS
WELCOME, PROFILER, RESULT = 0x10, 0x11, 0x12
TCP, UNIX = ('10.0.0.1', 8912), '/run/profiling.sock'
REAL_SELECTOR = selectors.DefaultSelector


def make_selector():
    sim = engine.SIM
    if sim is not None and 'net' in sim.hooks:
        return aio.Selector(sim.hooks['net'])
    return REAL_SELECTOR()


def pack(method, msg, protocol=2):
    dump = pickle.dumps(msg, protocol)
    return struct.pack('!BI', method, len(dump)) + dump


class Viewer(object):
    """Notes what the client tells it."""

    def __init__(self, run):
        self.run = run
        self.active = False
        self.shown = None

    def activate(self):
        self.active = True
        self.run.event('active')

    def inactivate(self):
        if self.active:
            self.run.event('inactive')
        self.active = False

    def set_profiler_class(self, cls):
        self.run.event('class', cls.__name__)

    def set_result(self, stats, cpu_time, wall_time, title=None, at=None):
        self.shown = (stats.own_hits, cpu_time, wall_time)
        self.run.event('result', stats.own_hits)
        if self.run.title != title or cpu_time != stats.own_hits / 2. or len(stats.filename) != self.run.size or \
                not self.active:
            self.run.problem('content', 'result %r with title %r is shown (active: %r)' % (self.shown, title,
                                                                                           self.active))


class Conn(object):
    """What the server knows about one connection."""

    def __init__(self, sock, client, at):
        self.sock, self.client, self.at = sock, client, at
        self.data = b''             # written
        self.sent = 0
        self.first = None           # number of its first result
        self.results = []           # (number, offset of its end)
        self.greeting = 0           # length of the greeting
        self.vanishes = False
        self.budget = None          # closed or reset after so many bytes
        self.ended = None
        self.late = 0               # how much later the client may notice the end


OUTAGES_TCP = ['refuse', 'refuse-now', 'unreach-now', 'unreach', 'timeout', 'dns', 'closer', 'resetter', 'partial',
               'mute', 'wedge']
OUTAGES_UNIX = ['missing', 'stale', 'full', 'denied', 'closer', 'resetter', 'partial', 'mute', 'wedge']
MODES_UP = ['up', 'up', 'up', 'flaky', 'slow']


class ReconnectRun(object):

    def __init__(self, run, prop):
        self.run, self.prop = run, prop
        w = self.w = run.w
        self.unix = w.chance(.4)
        self.addr = UNIX if self.unix else TCP
        self.title = w.pick([None, 'title'])
        self.size = w.pick([1, 300, 20000])
        self.I = w.pick([SEC, SEC // 4, 3 * SEC])
        self.lat = w.pick([(0,), (0, 10), (MS, 30 * MS)])
        self.frag = w.pick([(0,), (1, 50, 0), (0, 1500), (0, 1500)])
        if max(self.frag) == 50 and self.size > 1000:
            self.frag = (0, 1500)
        self.gap = w.pick([0, 0, min(300 * MS, self.I // 16)])     # between the parts of a slow server's messages
        outages = OUTAGES_UNIX if self.unix else OUTAGES_TCP
        n = w.randint(1, 6)
        self.script = []
        for i in range(n):
            mode = w.pick(outages) if w.chance(.6) else w.pick(MODES_UP)
            self.script.append((mode, w.pick([SEC // 3, SEC, 2 * SEC + 1, 5 * SEC, 100 * MS])))
        self.final = w.pick(['up', 'up', 'slow'])
        self.problems = []
        self.events = []
        self.conns = []
        self.mode = None
        self.n = 0                  # results so far
        self.trace = []             # (time, attempts, what) of the client
        self.death = None

    # -- notes ---------------------------------------------------------------------------

    def event(self, *what):
        self.sim.log(*what)
        self.events.append((self.sim.now,) + what)

    def problem(self, cls, msg):
        self.problems.append((cls, '%.4f: %s' % (seconds(self.sim.now), msg)))

    def violate(self, cls, msg):
        self.run.out.violate('R06-%s' % cls, '%s [%s]' % (msg, self.note()))

    def note(self):
        return '%s, results of %d bytes every %.2f s; server: %s, then %s' % (
            'local socket' if self.unix else 'TCP', self.size, seconds(self.I),
            ', '.join('%s for %.4f s' % (m, seconds(d)) for m, d in self.script), self.final)

    # -- the network ---------------------------------------------------------------------

    def connecting(self, sock, addr):
        mode, s = self.mode, self.run.s
        self.event('connect', mode)
        live = [x for x in self.clients() if x is not sock]
        if live:
            self.problem('leak', '%d older connections are still open' % len(live))
        if addr != self.addr:
            self.problem('address', 'connects to %r' % (addr,))
        delay = s.pick([1, MS, 30 * MS])
        now = {'refuse-now': errno.ECONNREFUSED, 'unreach-now': errno.ENETUNREACH, 'missing': errno.ENOENT,
               'stale': errno.ECONNREFUSED, 'full': errno.EAGAIN, 'denied': errno.EACCES}
        if mode in now:
            self.outcome('refused')
            return True, now[mode], 0
        if mode == 'dns':
            self.outcome('refused')
            raise socket.gaierror(s.pick([socket.EAI_AGAIN, socket.EAI_NONAME]), 'Name or service not known')
        later = {'refuse': errno.ECONNREFUSED, 'unreach': errno.EHOSTUNREACH, 'timeout': errno.ETIMEDOUT}
        if mode in later:
            if mode == 'timeout':
                delay = s.pick([300 * MS, 2 * SEC])
            self.sim.at(self.sim.now + max(1, delay), lambda: self.outcome('refused'))
            return False, later[mode], delay
        return self.unix, 0, s.pick(self.lat)

    def outcome(self, what):
        self.event('end', what)

    def clients(self):
        """The client's open sockets."""
        return [x for x in self.net.sockets if x.owner == 'client' and not x.closed and x.state != 'new']

    # -- the server ----------------------------------------------------------------------

    def server(self):
        sim, net = self.sim, self.net
        end = sim.now
        for i, (mode, duration) in enumerate(self.script + [(self.final, None)]):
            self.set_mode(mode)
            if duration is None:
                return
            end += duration
            sim.sleep(end - sim.now)

    def set_mode(self, mode):
        sim, net = self.sim, self.net
        old, self.mode = self.mode, mode
        self.event('server', mode)
        keep = mode in ('up', 'slow') and old in ('up', 'slow') and self.run.s.chance(.3)
        if not keep:
            # restarted: everything is gone
            for conn in self.conns:
                if conn.ended is None:
                    self.end(conn, self.run.s.pick(['reset', 'close']))
        if not keep and self.listener is not None:
            self.listener.close()
            self.listener = None
        if self.listener is None and mode in ('up', 'slow', 'flaky', 'closer', 'resetter', 'partial', 'mute',
                                              'wedge'):
            self.listener = simnet.SimSocket(net, owner='server')
            self.listener.bind(self.addr)
            self.listener.listen(5)

    def end(self, conn, how):
        conn.ended = self.sim.now
        self.event('end', how)
        if how == 'reset':
            conn.sock.abort()
        else:
            conn.sock.close()

    def accepting(self):
        sim = self.sim
        while True:
            sim.block(lambda: self.listener is not None and self.listener.queue)
            try:
                sock, addr = self.listener.accept()
            except OSError:
                continue
            conn = Conn(sock, sock.peer, sim.now)
            self.conns.append(conn)
            mode, s = self.mode, self.run.s
            if mode == 'closer':
                self.end(conn, 'close')
            elif mode == 'resetter':
                self.end(conn, 'reset')
            else:
                if mode == 'partial':
                    conn.budget = s.below(self.greeting_size)
                elif mode == 'wedge':
                    # the host vanishes in the middle of a message
                    self.wedge(conn)
                elif mode == 'flaky':
                    conn.budget = s.pick([s.below(self.greeting_size), s.below(4 * self.size + 500)])
                sim.spawn(lambda: self.serve(conn), 'conn')

    def wedge(self, conn):
        s = self.run.s
        welcome = len(self.welcome)
        conn.vanishes = True
        conn.budget = s.weighted([
            (1, lambda: s.randint(1, welcome - 1)), (1, lambda: s.randint(welcome + 1, self.greeting_size - 1)),
            (2, lambda: self.greeting_size + s.randint(1, 4)),
            (2, lambda: self.greeting_size + s.randint(5, len(self.result(1)) - 1))])()

    def vanish(self, conn):
        """Nothing follows, not even an end.  The client gives up after some
        seconds."""
        sim = self.sim
        conn.ended, conn.late = sim.now + SEC, 7 * SEC
        sim.count('vanished')

        def overdue():
            if not conn.client.closed:
                self.event('end', 'overdue')
        sim.at(sim.now + 8 * SEC, overdue)

    def serve(self, conn):
        sim, s = self.sim, self.run.s
        if self.mode == 'mute':
            return
        conn.greeting = self.greeting_size
        data = self.greeting
        conn.greeted_at = None
        n = self.n
        if n:
            data += self.result(n)
        while True:
            if not self.write(conn, data):
                return
            sim.block(lambda: self.n > n or conn.ended is not None)
            if conn.ended is not None:
                return
            n += 1
            data = self.result(n)

    def result(self, n):
        from profiling.stats import FrozenStatistics
        return pack(RESULT, (FrozenStatistics('r', 'x' * self.size, 1, None, n, float(n)), n / 2., n * 1.))

    def write(self, conn, data):
        sim, s = self.sim, self.run.s
        part = max(1, len(data) // 8)
        while data:
            if conn.ended is not None:
                return False
            n = len(data)
            if conn.budget is not None:
                n = min(n, conn.budget - conn.sent)
            if self.mode == 'slow' and self.gap and n > 1:
                n = s.randint(min(part, n), n)
            if n:
                sim.block(lambda: conn.ended is not None or conn.sock._sendable())
                if conn.ended is not None:
                    return False
                try:
                    n = conn.sock.send(data[:n], socket.MSG_DONTWAIT)
                except OSError:
                    conn.ended = sim.now
                    return False
                conn.sent += n
                data = data[n:]
            if conn.budget is not None and conn.sent >= conn.budget:
                if conn.vanishes:
                    self.vanish(conn)
                else:
                    self.end(conn, s.pick(['close', 'reset']))
                return False
            if data and self.mode == 'slow' and self.gap:
                sim.sleep(s.below(self.gap))
        return True

    def producing(self):
        while True:
            self.sim.sleep(self.I)
            if self.mode in ('up', 'slow', 'flaky', 'mute', 'partial', 'wedge'):
                self.n += 1
                self.log_n.append((self.sim.now, self.n))

    # -- the client ----------------------------------------------------------------------

    def client(self):
        import traceback
        from urwid.event_loop import SelectEventLoop
        from profiling.remote.client import FailoverProfilingClient
        try:
            loop = SelectEventLoop()
            self.viewer = Viewer(self)
            client = FailoverProfilingClient(self.viewer, loop, self.addr,
                                             socket.AF_UNIX if self.unix else socket.AF_INET, self.title)
            self.subject = client
            client.start()
            loop.run()
        except engine.SimKilled:
            raise
        except BaseException as exc:
            self.death = (exc, traceback.format_exc())
            self.sim.log('client-died', repr(exc))

    def main(self):
        from profiling.__about__ import __version__
        from profiling.profiler import Profiler
        sim = self.sim = engine.SIM
        net = self.net = simnet.Net(sim, self.run.s, self.lat, self.frag, (1 << 18,))
        net.owner = lambda: 'client'
        net.on_connect = self.connecting
        simnet.use(sim, net)
        self.listener = None
        self.log_n = []
        self.welcome = pack(WELCOME, (2, __version__), 0)
        self.greeting = self.welcome + pack(PROFILER, Profiler)
        self.greeting_size = len(self.greeting)
        sim.spawn(self.server, 'server')
        sim.spawn(self.accepting, 'accepting')
        sim.spawn(self.producing, 'producing')
        sim.yield_()
        sim.spawn(self.client, 'client')
        last = sum(d for _, d in self.script)
        sim.sleep(last - sim.now)
        self.final_at = sim.now
        # the latest attempt may still take two seconds to fail
        sim.sleep(6 * SEC + 2 * self.I + 8 * SEC * any(m == 'wedge' for m, _ in self.script))
        self.end_at = sim.now

    # -- judging -------------------------------------------------------------------------

    def judge(self):
        sim = self.run.sim
        for name, exc, tb in sim.task_excs:
            self.violate('error', 'error in %s: %s' % (name, tb))
        if self.death is not None:
            self.violate('died', 'the client failed: %r %s' % self.death)
            return
        if sim.end != 'main':
            self.violate('stuck', 'the client hangs or spins: %s at %s' % (sim.end, sim.stuck_at))
            return
        for cls, msg in self.problems:
            self.violate(cls, msg)
            return
        if self.net.frozen > 300 * MS:
            self.violate('frozen', 'the viewer was frozen for %.4f s by connecting' % seconds(self.net.frozen))
        self.judge_attempts()
        self.judge_shown()

    def judge_attempts(self):
        """Not more and not less than about one attempt per second."""
        greeted, end, last = False, 0, None
        slack = 50 * MS + 4 * max(self.lat) + (0 if self.frag == (0,) else 60 * max(self.lat))
        ended_seen = None
        for e in self.events + [(self.end_at, 'connect')]:
            t, what = e[0], e[1]
            if what == 'active':
                greeted = True
            elif what == 'connect':
                if last is not None and not greeted and t - last < SEC - 2 and e[2:]:
                    self.violate('spin', 'connects at %.4f and again at %.4f though it was not greeted' % (
                        seconds(last), seconds(t)))
                    return
                if last is not None and end is not None and t - end > SEC + slack and (
                        e[2:] or t - end > SEC + slack):
                    self.violate('idle', 'the connection ended at %.4f but the next attempt is at %.4f' % (
                        seconds(end), seconds(t)))
                    return
                if last is None and t > 10 * MS:
                    self.violate('idle', 'the first attempt is at %.4f' % seconds(t))
                    return
                last, greeted, end = t, False, None
            elif what == 'end' and end is None:
                end = t

    def judge_shown(self):
        """Active exactly while greeted; whole results in order; recovered at last."""
        slack = self.slack = 50 * MS + 100 * max(self.lat) + (
            10 * self.gap if any(m == 'slow' for m, _ in self.script + [(self.final, 0)]) else 0)
        n = None
        spans, since, end = [], None, None
        for e in self.events:
            t, what = e[0], e[1]
            if what == 'active':
                if since is not None:
                    self.violate('active', 'activated twice at %.4f' % seconds(t))
                since, n = t, None
            elif what == 'inactive':
                spans.append((since, t))
                since = None
            elif what == 'result':
                if since is None:
                    self.violate('active', 'result %d is shown while inactive' % e[2])
                    return
                if n is not None and e[2] != n + 1:
                    self.violate('order', 'result %d is shown after %d' % (e[2], n))
                    return
                n = e[2]
        if since is not None:
            spans.append((since, None))
        for a, b in spans:
            conns = [c for c in self.conns if c.at <= a and (c.ended is None or a <= c.ended + slack)]
            if not [c for c in conns if c.sent >= 15]:
                self.violate('active', 'active from %.4f without a connection which greeted' % seconds(a))
                return
            if b is not None and not [c for c in self.conns if c.ended is not None and c.ended <= b <= c.ended +
                                      slack + c.late]:
                self.violate('active', 'inactive at %.4f although the connection did not end' % seconds(b))
                return
        for c in self.conns:
            if c.ended is not None and [1 for a, b in spans if a < c.ended and (b is None or b > c.ended + slack + c.late) and
                                        a >= c.at]:
                self.violate('active', 'still active although the connection ended at %.4f' % seconds(c.ended))
                return
        if not spans or spans[-1][1] is not None:
            self.violate('recovery', 'not active in the end, though the server is up since %.4f' % seconds(self.final_at))
            return
        latest = [k for t, k in self.log_n if t < self.end_at - slack]
        if latest and (self.viewer.shown is None or self.viewer.shown[0] < latest[-1]):
            self.violate('recovery', 'shows %r in the end instead of result %d' % (self.viewer.shown, latest[-1]))


def scenario(prop):
    import urwid.event_loop.select_loop
    import profiling.remote.client
    import profiling.profiler
    profiling.remote, urwid.event_loop
    selectors.DefaultSelector = make_selector

    def fn(run):
        t = ReconnectRun(run, prop)
        run.simulate(t.main, max_points=2000000)
        t.judge()
        out = run.out
        out.notes.append(t.note())
        out.counters['attempts'] = sum(e[1] == 'connect' for e in t.events)
        out.counters['results'] = sum(e[1] == 'result' for e in t.events)
        for m, _ in t.script:
            out.counters['server-' + m] = out.counters.get('server-' + m, 0) + 1
        out.trivial = not t.conns
    return fn
