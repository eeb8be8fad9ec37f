"""R01: packed messages over a connection."""
import errno
import pickle
import socket

from sim import engine, net as simnet
from sim.engine import ticks


class Junk(object):
    """A message content with an identity."""

    def __init__(self, *args):
        self.args = args

    def __eq__(self, other):
        return type(other) is Junk and self.args == other.args

    def __repr__(self):
        return 'Junk%r' % (self.args,)


def frozen_form(stats):
    out, todo = [], [(None, stats)]
    for parent, node in todo:
        out.append((parent, node.name, node.filename, node.lineno, node.module, node.own_hits, node.deep_time))
        me = len(out) - 1
        todo.extend((me, c) for c in node)
    return out


def same(a, b):
    from profiling.stats import Statistics
    if isinstance(a, Statistics) or isinstance(b, Statistics):
        return isinstance(a, Statistics) and isinstance(b, Statistics) and frozen_form(a) == frozen_form(b)
    if type(a) is not type(b):
        return False
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


class WireRun(object):

    def __init__(self, run, prop):
        self.run = run
        w = self.w = run.w
        self.nmsgs = w.randint(1, 6)
        self.frag = w.pick([(0,), (1,), (3, 0), (10,), (1, 100, 5000), (0, 1500)])
        self.lat = w.pick([(0,), (0, 10), (100, 5000), (0, 1, 1000000)])
        self.caps = w.pick([(1 << 20,), (1,), (7,), (100,), (4096,)])
        self.p_short = w.pick([0, .3])
        self.p_interrupt = w.pick([0, .1, .5])
        self.timeout = w.pick([None, None, 10000.0])
        self.end = w.weighted([(3, 'whole'), (2, 'cut'), (2, 'reset'), (1, 'reset-now'), (1, 'late')])
        self.separate = w.chance(.5)
        self.preempt = w.pick([0, 20])
        self.received = []
        self.error = None

    def message(self):
        w = self.w
        from profiling import remote
        from profiling.profiler import Profiler
        from profiling.stats import FrozenStatistics
        kind = w.pick(['greeting', 'class', 'result', 'none', 'text', 'bytes', 'object', 'big'])
        method = w.pick([remote.WELCOME, remote.PROFILER, remote.RESULT, 0, 255])
        if kind == 'greeting':
            return method, (w.below(6), u'0.0.%d' % w.below(9))
        if kind == 'class':
            return method, w.pick([Profiler, type(None), dict]) if self.protocol > 0 else Profiler
        if kind == 'result':
            nodes = [FrozenStatistics('top', None, None, None, 0, 0.0)]
            for i in range(w.small(30)):
                node = FrozenStatistics('f%d' % i, u'/p/\xe4.py', i, 'm', w.below(1000), w.below(1000) / 7.0)
                nodes[w.below(len(nodes))].children.append(node)
                nodes.append(node)
            return method, (nodes[0], w.below(100) / 3.0, w.below(100) / 3.0)
        if kind == 'none':
            return method, None
        if kind == 'text':
            return method, u'\u20ac' * w.small(400)
        if kind == 'bytes':
            return method, bytes(w.small(400))
        if kind == 'object':
            return method, Junk(w.below(100), [], {u'k': 1.5})
        return method, b'x' * w.small(3000 if max(self.caps) < 100 or self.frag == (1,) else 200000)

    def violate(self, cls, msg):
        self.run.out.violate('R01-' + cls, '%s [%s]' % (msg, self.note()))

    def note(self):
        return 'messages of %s bytes, fragments %s, latencies %s, buffers %s, %s, cut at %s' % (
            [len(d) for d in self.datas], self.frag, self.lat, self.caps, self.end, self.cut)

    def build(self):
        from profiling import remote
        self.msgs, self.datas = [], []
        for _ in range(self.nmsgs):
            self.protocol = self.w.below(pickle.HIGHEST_PROTOCOL + 1)
            method, msg = self.message()
            self.msgs.append((method, msg))
            self.datas.append(remote.pack_msg(method, msg, pickle_protocol=self.protocol))
        total = sum(map(len, self.datas))
        self.cut = total
        if self.end in ('cut', 'reset', 'reset-now'):
            # also exactly between messages, or in the head of one
            edges = [0]
            for d in self.datas:
                edges.append(edges[-1] + len(d))
            self.cut = self.w.below(total + 1)
            if self.w.chance(.5):
                self.cut = min(total, self.w.pick(edges) + self.w.below(7))

    def sender(self):
        sim, sock = self.sim, self.a
        data, left = b''.join(self.datas), self.cut
        try:
            if self.separate:
                for d in self.datas:
                    sock.sendall(d[:left])
                    left -= len(d[:left])
                    sim.sleep(self.run.s.pick([0, 10, 100000]))
            else:
                sock.sendall(data[:left])
            if self.end == 'late':
                sim.sleep(ticks(50))
            if self.end == 'reset':
                sock.abort()
            elif self.end == 'reset-now':
                self.net.break_(self.b, errno.ECONNRESET)
                sock.abort()
            else:
                sock.close()
        except OSError:
            pass

    def main(self):
        from profiling import remote
        sim = self.sim = engine.SIM
        net = self.net = simnet.Net(sim, self.run.s, self.lat, self.frag, self.caps, self.p_short, self.p_interrupt)
        self.a, self.b = net.socketpair()
        self.b.settimeout(self.timeout)
        self.build()
        task = sim.spawn(self.sender, 'sender')
        sock = self.b
        while self.error is None and len(self.received) <= len(self.msgs):
            taken = sock.rx.taken
            try:
                got = remote.recv_msg(sock)
            except socket.error as exc:
                self.error = exc
                break
            except engine.SimKilled:
                raise
            except BaseException as exc:
                self.violate('error', 'receiving raised %r' % exc)
                return
            self.received.append(got)
            i = len(self.received) - 1
            if i >= len(self.msgs):
                self.violate('phantom', 'received %r, which was not sent' % (got,))
                return
            if got[0] != self.msgs[i][0] or not same(got[1], self.msgs[i][1]):
                self.violate('content', 'message %d %.200r was received as %.200r' % (i, self.msgs[i], got))
                return
            if sock.rx.taken - taken != len(self.datas[i]):
                self.violate('bytes', 'receiving message %d took %d bytes of %d' % (
                    i, sock.rx.taken - taken, len(self.datas[i])))
                return
        whole, n = 0, 0
        for d in self.datas:
            n += len(d)
            if n <= self.cut:
                whole += 1
        if self.error is None:
            self.violate('end', 'the end is not reported')
        if len(self.received) > whole:
            self.violate('phantom', '%d messages received of %d' % (len(self.received), whole))
        if len(self.received) < whole and not self.end.startswith('reset'):
            self.violate('lost', '%d messages received of %d, then %r' % (len(self.received), whole, self.error))


def scenario(prop):
    import profiling.remote
    import profiling.stats
    profiling.stats

    def fn(run):
        t = WireRun(run, prop)

        run.simulate(t.main, preempt=t.preempt)
        sim, out = run.sim, run.out
        for name, exc, tb in sim.task_excs:
            out.violate('R01-error', 'error in %s: %s' % (name, tb))
        if sim.end != 'main':
            out.violate('R01-stuck', 'receiving did not end: %s [%s]' % (sim.end, t.note()))
        out.notes.append(t.note())
        out.counters['messages'] = len(t.received)
        out.counters['end-' + t.end] = 1
    return fn
