"""Generated programs under profiling, and the history they leave behind.

The generated source is loaded with scheduling points.  Its functions call a
few primitives of this module (whose frames the simulator hides):

  E(k) X(k)   entry of / exit from function k        C() D()  before / after a call
  W(n)        burn n ticks of CPU                    Z(n)     sleep n ticks
  T(f, d)     start a thread                         J()      join the threads
  M()         maybe perform a window operation (start or stop the profiler)
  Y()         maybe switch to another greenlet
"""
import sys
import threading

from sim import engine, instrument

#: names that different functions may share
NAMES = ['alpha', 'beta', 'gamma', 'delta', 'run', 'call', 'handler', 'f']


class Boom(Exception):
    pass


class Suspension(tuple):
    """Awaiting it suspends once, without a frame of its own."""

    __await__ = tuple.__iter__


class Call(object):

    __slots__ = ('k', 'task', 'ctx', 'chain', 'frames', 'c', 'e', 'x', 'd', 'work_e',
                 'work_x', 'gwork_c', 'gwork_e', 'gwork_x', 'gwork_d', 'frame', 'parent',
                 'thread_start')


class Context(object):
    """A flow of control with a stack of its own (thread or greenlet)."""

    def __init__(self, name, thread_start=None):
        self.name = name
        self.stack = []
        self.last_c = 0
        self.last_gwork = 0                 # work of all contexts at last_c
        self.undone = []
        self.work = 0
        self.thread_start = thread_start    # seq when Thread.start() was called
        self.thread_begun = None


class Program(object):

    def __init__(self, w, features=(), max_funcs=6, heavy=False):
        self.heavy = heavy
        self.features = set(features)
        self.n = w.randint(1, max_funcs)
        self.names = []
        self.source = None
        self.files = {}
        self.build(w)

    def build(self, w):
        F = self.features
        n = self.n
        self.kinds = []
        self.flavors = []
        srcs = [[], []]
        two = w.chance(0.3)
        for k in range(n):
            name = w.pick(NAMES[:3 + n]) if w.chance(0.5) else 'f%d' % k
            self.names.append(name)
            gen = 'gen' in F and k > 0 and w.chance(0.25)
            self.kinds.append('gen' if gen else 'fun')
            self.flavors.append(w.pick(['gen', 'gen', 'coro', 'agen']) if gen else None)
        if 'twin' in F and two and n > 1 and w.chance(.4):
            # functions of different files whose code is equal
            body = ['def twin(d):', '    E(TW)', '    try:', '        ' + self.work(w),
                    '        if d > 0 and G():', '            C()', '            F[0](d - 1)', '            D()',
                    '    finally:', '        X(TW)']
            for i, out in enumerate(srcs):
                k = n + i
                self.names.append('twin')
                self.kinds.append('fun')
                out.extend(body + ['TW = %d' % k, 'F[%d] = twin' % k, ''])
        self.deep = None
        if 'deep' in F and w.chance(.03):
            # a recursion much deeper than usual
            self.deep = len(self.kinds)
            self.names.append('deep')
            self.kinds.append('deep')
            srcs[0].extend(['def deep(d):', '    E(%d)' % self.deep, '    try:', '        if d <= 0: return',
                            '        C()', '        F[%d](d - 1)' % self.deep, '        D()',
                            '        ' + self.work(w), '    finally:', '        X(%d)' % self.deep,
                            'F[%d] = deep' % self.deep, ''])
        for k in range(n):
            out = srcs[1 if two and k % 2 else 0]
            out.append('%sdef %s(d):' % ('async ' if self.flavors[k] in ('coro', 'agen') else '', self.names[k]))
            body = []
            body.append('    E(%d)' % k)
            body.append('    try:')
            inner = []
            inner.append('if d <= 0 or not G(): return')
            if k == 0 and self.deep is not None:
                inner.append('if H():\n    C()\n    F[%d](%d)\n    D()' % (self.deep, w.pick([70, 110, 160, 260])))
            for _ in range(w.randint(1, 4)):
                inner.extend(self.statement(w, k))
            if self.kinds[k] == 'gen':
                pos = w.below(len(inner)) if False else len(inner)
                leave = 'await P' if self.flavors[k] == 'coro' else 'yield 1'
                inner.insert(pos, 'X(%d)\ntry:\n    %s\nfinally:\n    E(%d)' % (k, leave, k))
                if w.chance(0.5):
                    inner.append(self.work(w))
                    inner.append('X(%d)\ntry:\n    %s\nfinally:\n    E(%d)' % (k, leave, k))
            for st in inner:
                for line in st.split('\n'):
                    body.append('        ' + line)
            body.append('    finally:')
            body.append('        X(%d)' % k)
            out.extend(body)
            out.append('F[%d] = %s' % (k, self.names[k]))
            out.append('')
        self.files = {'/prog/mod%d.py' % i: '\n'.join(s) + '\n' for i, s in enumerate(srcs) if s}

    def work(self, w):
        if self.heavy:
            return 'W(%d)' % w.weighted([(1, 7), (3, 300), (4, 1500), (2, 10000)])
        return 'W(%d)' % w.weighted([(3, 1), (3, 7), (2, 300), (2, 1500), (1, 20000)])

    def callee(self, w, kind='fun'):
        ks = [k for k in range(len(self.kinds)) if self.kinds[k] == kind]
        return w.pick(ks) if ks else None

    def call(self, w, indent=''):
        """Statements which call a random function (or drive a generator)."""
        gens = [k for k in range(self.n) if self.kinds[k] == 'gen']
        if gens and w.chance(0.3):
            k = w.pick(gens)
            if self.flavors[k] != 'gen':
                step, end, close = {
                    'coro': ('g.send(None)', 'StopIteration', 'g.close()'),
                    'agen': ('g.asend(None).send(None)', 'StopAsyncIteration', 'g.aclose().send(None)'),
                }[self.flavors[k]]
                if w.chance(0.7):
                    if self.flavors[k] == 'agen':
                        step = 'try:\n            %s\n        except StopIteration: pass' % step
                    return ('g = F[%d](d - 1)\nC()\ntry:\n    while 1:\n        %s\n        D()\n        %s\n        C()\n'
                            'except %s: pass\nD()' % (k, step, self.work(w), end))
                stops = '(StopIteration, StopAsyncIteration)'
                return ('g = F[%d](d - 1)\nC()\ntry: %s\nexcept %s: pass\nD()\n%s\nC()\ntry: %s\nexcept %s: pass\nD()' % (
                    k, step, stops, self.work(w), close, stops))
            if w.chance(0.7):
                return ('C()\nfor _ in F[%d](d - 1):\n    D()\n    %s\n    C()\nD()' % (k, self.work(w)))
            return ('g = F[%d](d - 1)\nC()\nnext(g, None)\nD()\n%s\nC()\ng.close()\nD()' % (k, self.work(w)))
        k = self.callee(w)
        if k is None:
            return self.work(w)
        return 'C()\nF[%d](d - 1)\nD()' % k

    def statement(self, w, k):
        F = self.features
        opts = [(4, 'work'), (6, 'call'), (2, 'trycall'), (1, 'loop')]
        if 'exc' in F:
            opts += [(1, 'raise')]
        if 'closure' in F:
            opts += [(1, 'closure'), (1, 'listcomp'), (1, 'lambda')]
        if 'window' in F:
            opts += [(2, 'M')]
        if 'thread' in F:
            opts += [(1.5, 'T'), (0.5, 'J')]
        if 'sleep' in F:
            opts += [(1, 'Z')]
        if 'greenlet' in F:
            opts += [(4, 'Y')]
        kind = w.weighted(opts)
        ind = lambda s, by='    ': '\n'.join(by + l for l in s.split('\n'))
        if kind == 'work':
            return [self.work(w)]
        if kind == 'call':
            return [self.call(w)]
        if kind == 'trycall':
            return ['try:\n' + ind(self.call(w)) + '\nexcept Boom:\n    D()\n    ' + self.work(w)]
        if kind == 'loop':
            return ['for _i in range(%d):\n' % w.randint(1, 3) + ind(self.call(w))]
        if kind == 'raise':
            return ['if d %% %d == %d: raise Boom(d)' % ((lambda m: (m, w.below(m)))(w.randint(2, 3)))]
        if kind == 'closure':
            return ['def inner():\n    ' + self.work(w) + '\n' + ind(self.call(w)) + '\ninner()']
        if kind == 'lambda':
            k2 = self.callee(w)
            if k2 is None:
                return [self.work(w)]
            return ['C()\n(lambda: F[%d](d - 1))()\nD()' % k2]
        if kind == 'listcomp':
            k2 = self.callee(w)
            if k2 is None:
                return [self.work(w)]
            return ['[(C(), F[%d](d - 1), D()) for _i in range(2)]' % k2]
        if kind == 'M':
            return ['M()']
        if kind == 'T':
            k2 = self.callee(w)
            if k2 is None:
                return [self.work(w)]
            return ['T(%d, d - 1)' % k2]
        if kind == 'J':
            return ['J()']
        if kind == 'Z':
            return ['Z(%d)' % w.pick([10, 1000, 50000])]
        if kind == 'Y':
            return ['Y()']
        raise AssertionError(kind)

    def load(self, world):
        """Compiles the program against the primitives of a world."""
        F = {}
        env = dict(F=F, Boom=Boom, P=Suspension((1,)), E=world.E, X=world.X, C=world.C, D=world.D, W=world.W,
                   Z=world.Z, T=world.T, J=world.J, M=world.M, Y=world.Y, G=world.G, H=world.H)
        for filename, source in sorted(self.files.items()):
            glob = dict(env, __name__='prog')
            instrument.inject(glob)
            key = (filename, source)
            code = _cache.get(key)
            if code is None:
                if len(_cache) > 200:
                    _cache.clear()
                code = _cache[key] = instrument.compile_instrumented(source, filename)
            exec(code, glob)
        world.F = F
        world.codes = {}
        world.kids = {}
        for k in F:
            code = F[k].__code__
            world.codes[k] = code
            world.kids[code] = k
            world.names[(code.co_name, code.co_filename, code.co_firstlineno)] = k
        return F

    def text(self):
        return '\n'.join('# %s\n%s' % (f, s) for f, s in sorted(self.files.items()))


_cache = {}


class World(object):
    """The primitives of a running program, and the recorded history."""

    def __init__(self, sim, budget=60, max_threads=3, work_cap=engine.FOREVER):
        self.work_cap = work_cap
        self.sim = sim
        self.seq = 0
        self.calls = []
        self.budget = budget
        self.max_threads = max_threads
        self.threads = []
        self.contexts = []
        self.names = {}
        self.global_work = 0
        self.thread_work = {}
        self.on_window_op = None
        self.on_switch = None
        self.on_spawn = None
        self.on_join = None
        self.current_context = None     # fn() -> Context, or None for per-thread
        self.unwound = False
        self.dived = False

    # -- bookkeeping ---------------------------------------------------------

    def tick(self):
        self.seq += 1
        return self.seq

    #: whether an interrupt might have come between a call and its note
    torn = False

    def ctx(self):
        if self.current_context is not None:
            return self.current_context()
        task = self.sim.cur
        ctx = task.data.get('ctx')
        if ctx is None:
            ctx = task.data['ctx'] = Context(task.name)
            self.contexts.append(ctx)
        return ctx

    def twork(self):
        return self.thread_work.get(self.sim.cur.tid, 0)

    # -- primitives ------------------------------------------------------------

    def G(self):
        self.budget -= 1
        return self.budget > 0

    def H(self):
        """Whether it is time for the deep recursion (only once)."""
        first, self.dived = not self.dived, True
        return first

    def C(self):
        ctx = self.ctx()
        ctx.last_c = self.tick()
        ctx.last_gwork = self.global_work

    def D(self):
        ctx = self.ctx()
        t = self.tick()
        for call in ctx.undone:
            call.d = t
            call.gwork_d = self.global_work
        del ctx.undone[:]

    def E(self, k):
        ctx = self.ctx()
        frame = sys._getframe(1)
        call = Call()
        call.k = k
        call.task = self.sim.cur.tid
        call.ctx = ctx
        call.frame = frame
        call.parent = ctx.stack[-1] if ctx.stack else None
        call.c = ctx.last_c
        call.e = self.tick()
        call.x = call.d = call.gwork_d = None
        call.gwork_c = ctx.last_gwork
        call.work_e = ctx.work
        call.gwork_e = self.global_work
        call.work_x = call.gwork_x = None
        ctx.stack.append(call)
        call.chain = tuple(c.k for c in ctx.stack)
        call.frames = tuple(c.frame for c in ctx.stack)
        ctx.last_c = call.e
        ctx.last_gwork = self.global_work
        self.calls.append(call)
        self.sim.log('E', k)

    def X(self, k):
        if self.sim.killing:
            return
        ctx = self.ctx()
        if self.torn and not ctx.stack:
            return
        call = ctx.stack.pop()
        while call.k != k and ctx.stack:
            call = ctx.stack.pop()      # left by a foreign exception
        if call.k != k:
            if self.torn:
                return
            raise engine.SimError('history: exit from %r inside %r' % (k, call.k))
        call.x = self.tick()
        call.work_x = ctx.work
        call.gwork_x = self.global_work
        for c in ctx.undone:
            # deeper calls have certainly returned by now
            c.d = call.x
            c.gwork_d = self.global_work
        ctx.undone = [call]
        self.sim.log('X', k)

    def W(self, n):
        ctx = self.ctx()
        if self.global_work > self.work_cap:
            n = 1
        # charge as it passes, so that a preempting observer sees it
        ctx.work += n
        self.global_work += n
        self.thread_work[self.sim.cur.tid] = self.thread_work.get(self.sim.cur.tid, 0) + n
        self.sim.work(n)

    def Z(self, n):
        self.sim.sleep(n)

    def T(self, k, d):
        if self.on_spawn is not None:
            return self.on_spawn(k, d)
        if len(self.threads) >= self.max_threads or k not in self.F:
            return
        world = self
        start = self.tick()

        def body():
            ctx = Context('thread', start)
            world.sim.cur.data['ctx'] = ctx
            world.contexts.append(ctx)
            ctx.thread_begun = ctx.last_c = world.tick()
            ctx.last_gwork = world.global_work
            try:
                world.F[k](d)
            except Boom:
                pass
            t = world.tick()
            for c in ctx.undone:
                c.d = t
                c.gwork_d = world.global_work
        th = threading.Thread(target=body)
        th.daemon = True
        self.threads.append(th)
        th.start()

    def J(self):
        if self.on_join is not None:
            return self.on_join()
        if not self.sim.cur.main:
            return
        for th in self.threads:
            th.join()

    def M(self):
        if self.on_window_op is not None and (self.sim.cur.main or self.on_spawn is not None):
            self.on_window_op()

    def Y(self):
        if self.on_switch is not None:
            self.on_switch()


# -- reading statistics trees ---------------------------------------------------


def project(stats, names):
    """{chain of program functions: [own_hits, deep_time, nodes, deep_time of
    their direct callees]} of a statistics
    tree (live or frozen); nodes of other functions are left out of chains."""
    out = {}
    todo = [((), child) for child in stats]
    while todo:
        chain, node = todo.pop()
        k = names.get((node.name, node.filename, node.lineno))
        if k is not None:
            chain = chain + (k,)
            entry = out.setdefault(chain, [0, 0.0, 0, 0.0])
            entry[0] += node.own_hits
            entry[1] += node.deep_time
            entry[2] += 1
            entry[3] += sum(child.deep_time for child in node)
        todo.extend((chain, child) for child in node)
    return out


def tree_dump(stats, depth=0, names=None):
    """A readable dump of a tree."""
    lines = []
    for node in stats:
        lines.append('%s%s %s:%s hits=%s deep=%s' % (
            '  ' * depth, node.name, node.filename, node.lineno, node.own_hits, node.deep_time))
        lines.extend(tree_dump(node, depth + 1))
    return lines
