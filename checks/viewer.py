"""V01, V02: the viewer behind the real client and the real urwid main loop."""
import datetime
import pickle
import selectors
import socket
import struct
import time

import urwid
import urwid.display.common

from checks.reconnect import make_selector, pack, PROFILER, RESULT, WELCOME
from sim import engine, net as simnet
from sim.engine import TICKS, seconds

MS = TICKS // 1000
SEC = TICKS
ADDR = ('10.0.0.1', 8912)
KINDS = ['TracingProfiler', 'SamplingProfiler', 'Profiler']
NESTED, FLAT = 'nested', 'flat'


# -- what should be seen (from the documented formats) -----------------------------------

def fmt_time(x):
    if x == 0:
        return '0'
    if x < 1e-3:
        return '%.0fus' % (x * 1e6)
    if x < 1:
        return '%.0fms' % (x * 1e3)
    if x < 60:
        return '%.1fsec' % x
    if x < 600:
        return '%.0fm%.0fs' % (x // 60, x % 60)
    return '%.0fm' % (x // 60)


def fmt_percent(x, denom):
    x = x / float(denom) if denom else 0
    precision = 0 if round(x, 2) >= 1 else 1 if round(x, 2) >= .1 else 2
    return '%.*f' % (precision, x * 100)


def fmt_int(n):
    return '%d' % n if n < 1000 else '%.1fk' % (n / 1e3)


def fmt_hits(n):
    return fmt_int(n) if n else 'n/a'


class Node(object):
    """A function in a result, as the reference sees it."""

    def __init__(self, func, hits, time, children):
        self.func, self.own_hits, self.deep_time, self.children = func, hits, time, children
        self.deep_hits = hits + sum(c.deep_hits for c in children)
        self.own_time = max(0., time - sum(c.deep_time for c in children))
        self.own_call = self.own_time / hits if hits else 0.
        self.deep_call = time / hits if hits else 0.

    def freeze(self, cls):
        name, filename, lineno, module = self.func
        return cls(name, filename, lineno, module, self.own_hits, self.deep_time,
                   [c.freeze(cls) for c in self.children])

    def walk(self):
        for c in self.children:
            yield c
            for x in c.walk():
                yield x


def label(func):
    name, filename, lineno, module = func
    if name:
        return '%s (%s:%d)' % (name, module or filename, lineno)
    return module or filename


def flat(root):
    rows = {}
    for n in root.walk():
        r = rows.get(n.func)
        if r is None:
            r = rows[n.func] = Node(n.func, 0, 0., [])
        r.own_hits += n.own_hits
        r.deep_hits += n.deep_hits
        r.own_time += n.own_time
        r.deep_time += n.deep_time
    for r in rows.values():
        r.own_call = r.own_time / r.own_hits if r.own_hits else 0.
        r.deep_call = r.deep_time / r.own_hits if r.own_hits else 0.
    out = Node(root.func, root.own_hits, root.deep_time, [])
    out.deep_hits, out.children = root.deep_hits, list(rows.values())
    return out


def by_function(n):
    return (n.func[3] or '', n.func[0] or '')


def deep_call(n):
    return -n.deep_call if n.deep_hits else -n.deep_time


def own_call(n):
    return (-n.own_call if n.own_hits else -n.own_time, deep_call(n))


#: kind: ([(column, order)], default order, cells)
COLUMNS = {
    'TracingProfiler': ([
        ('FUNCTION', by_function), ('CALLS', lambda n: -n.own_hits), ('OWN', lambda n: (-n.own_time, -n.deep_time)),
        ('/CALL', own_call), ('%', None), ('DEEP', lambda n: -n.deep_time), ('/CALL', deep_call), ('%', None)], 5,
        lambda n, r: [fmt_hits(n.own_hits), fmt_time(n.own_time), fmt_time(n.own_call),
                      fmt_percent(n.own_time, r.cpu), fmt_time(n.deep_time), fmt_time(n.deep_call),
                      fmt_percent(n.deep_time, r.cpu)]),
    'SamplingProfiler': ([
        ('FUNCTION', by_function), ('OWN', lambda n: -n.own_hits), ('%', None), ('DEEP', lambda n: -n.deep_hits),
        ('%', None)], 3,
        lambda n, r: [fmt_hits(n.own_hits), fmt_percent(n.own_hits, r.root.deep_hits), fmt_hits(n.deep_hits),
                      fmt_percent(n.deep_hits, r.root.deep_hits)]),
    'Profiler': ([('FUNCTION', by_function)], 0, lambda n, r: []),
}


class Result(object):

    def __init__(self, n, root, cpu, wall):
        self.n, self.root, self.cpu, self.wall = n, root, cpu, wall
        self.timeless = False
        self._flat = None

    def tree(self, layout):
        if layout == NESTED:
            return self.root
        if self._flat is None:
            self._flat = flat(self.root)
        return self._flat


FUNCS = [('f%d' % i, '/prog/mod%d.py' % (i % 2), 10 + i, 'mod%d' % (i % 2)) for i in range(5)] + [
    (None, '/prog/main.py', 1, '__main__'), ('f1', '/prog/mod1.py', 99, 'mod1'), ('run', '<string>', 1, None),
    (None, '<string>', 1, None), ('<lambda>', '/prog/mod1.py', 7, 'mod1'), (None, '/prog/mod0.py', 1, 'mod0')]
WEIRD = [(None, '', 0, None), ('', '', 1, ''), ('\n', '/a\nb', 3, None), (u'\u4f60\u597d' * 30, '/x', 1, 'y'),
         ('a\u0301\t\x1b[31m', '/\udcff', 2, None), ('x' * 500, '/x', 10 ** 9, 'z' * 500), (None, '\udc80', 1, None),
         ('f', '/prog/mod0.py', 1, None), ('f', '/prog/mod0.py', 1, 'mod0')]


class Screen(urwid.display.common.BaseScreen):
    """A terminal: keys arrive through a simulated pipe."""

    def __init__(self, run):
        super(Screen, self).__init__()
        self.run = run
        self.handle = None

    def get_cols_rows(self):
        return self.run.size

    def hook_event_loop(self, event_loop, callback):
        def ready():
            self.run.tty.recv(1)
            while self.run.typed:
                self.run.key(self.run.typed.pop(0), callback)
        self.handle = event_loop.watch_file(self.run.tty.fileno(), ready)

    def unhook_event_loop(self, event_loop):
        if self.handle is not None:
            event_loop.remove_watch_file(self.handle)
            self.handle = None

    def draw_screen(self, size, canvas):
        self.run.count('drawn')
        self.run.look(canvas, size)


class Row(object):

    def __init__(self, depth, mark, label, cells):
        self.depth, self.mark, self.label, self.cells = depth, mark, label, cells
        self.chain = None


KEYS = ['down', 'up', '+', '-', 'right', 'left', '>', '[', ']', '\\', 'enter', ' ', 'esc', 'page down', 'page up',
        'home', 'end', 'j', 'k', 'h', 'l', 'x', 'tab']
KEY_WEIGHTS = [(6, 'down'), (4, 'right'), (3, '+'), (2, 'left'), (2, '-'), (2, 'up'), (2, '>'), (2, ']'), (1, '['),
               (1, '\\'), (2, 'enter'), (1, ' '), (1, 'esc'), (.3, 'page down'), (.3, 'page up'), (.3, 'home'),
               (.3, 'end'), (.5, 'j'), (.3, 'k'), (.3, 'h'), (.3, 'l'), (.3, 'x'), (.3, 'tab'), (.5, 'mouse')]


class ViewerRun(object):

    def __init__(self, run, prop):
        self.run, self.prop = run, prop
        w = self.w = run.w
        self.weird = prop == 'V02' and w.chance(.3)
        self.title = w.pick([None, 'title'])
        self.varied = w.chance(.3)
        self.lat = w.pick([(0,), (0, 10), (MS, 30 * MS)])
        self.frag = w.pick([(0,), (0, 1500), (30, 300, 0)])
        self.kind = w.pick(KINDS[:2]) if w.chance(.85) else KINDS[2]
        self.p_end = w.pick([0, 0, .1, .3])
        self.p_kind = w.pick([0, .5]) if self.p_end else 0
        self.p_pause = w.pick([0, .3, .1]) if prop == 'V02' else w.pick([.3, .15])
        self.pool = FUNCS[:w.randint(2, len(FUNCS))]
        self.size = (120, 60)
        if self.weird:
            self.pool = w.shuffle(WEIRD + FUNCS)[:w.randint(2, 12)]
            self.size = w.pick([(80, 24), (40, 8), (200, 60), (20, 5), (10, 3)])
        self.rounds = w.randint(1, 8)
        self.steps = w.randint(3, 40)
        self.shape = '' if self.weird else w.weighted([(40, ''), (3, 'deep'), (1, 'tall')])
        if self.shape == 'deep':
            self.size = (200, 100)
        elif self.shape == 'tall':
            self.size = (120, 1000)
            self.pool = self.pool + [('t%d' % i, '/prog/mod0.py', 100 + i, 'mod0') for i in range(w.randint(100, 900))]
            self.rounds, self.steps = min(self.rounds, 2), min(self.steps, 8)
        self.problems = []
        self.notes = []
        self.results = []
        self.typed = []
        self.death = None
        self.quit = False
        # the model
        self.active = self.paused = False
        self.latest = self.shown = None
        self.latest_at = self.shown_at = None
        self.table = 'Profiler'     # kind of the table
        self.order = 0
        self.layout = NESTED
        self.E = {}                 # function label: expanded by the user; None: unknown
        self.rows = []
        self.cursor = ()
        self.expect_marks = False
        self.expect_cursor = None
        self.looked = 0
        self.unknown = False

    def note(self):
        return '%s%s, %d results, %s' % ('odd statistics, ' if self.weird else '', self.kind, self.rounds,
                                         ' '.join(self.notes[-40:]))

    def violate(self, cls, msg):
        self.run.out.violate('%s-%s' % (self.prop, cls), '%s [%s]' % (msg, self.note()))

    def count(self, key):
        c = self.run.out.counters
        c[key] = c.get(key, 0) + 1

    def problem(self, prop, cls, msg):
        """Only the problems of the property are judged."""
        if prop == self.prop and not self.problems:
            self.problems.append((cls, msg))
            self.problem_note = list(self.notes)

    # -- results -------------------------------------------------------------------------

    def times(self):
        return self.run.s.pick([0, 1, 3, 40, 1000, 1024, 2500]) / 1024.

    def grow(self, depth):
        s = self.run.s
        if depth > 5 or self.left <= 0:
            return []
        out = []
        funcs = s.shuffle(self.pool)[:s.below(5) if depth else s.randint(1, 4)]
        for func in funcs:
            if self.left <= 0:
                break
            self.left -= 1
            kids = self.grow(depth + 1)
            out.append(self.node(func, kids))
        return out

    def node(self, func, kids):
        s = self.run.s
        time = self.times() + sum(k.deep_time for k in kids)
        if s.chance(.1):
            time = self.times()
        hits = s.pick([0, 1, 2, 7, 150, 4321])
        if self.weird:
            hits = s.pick([hits, 1 << 80, 10 ** 30])
            time = s.pick([time, 1e-9, 1e18, -1.5])
        return Node(func, hits, time, kids)

    def mutate(self, root):
        """Functions appear, vanish, reorder, change."""
        s = self.run.s

        def change(children):
            out = []
            for c in children:
                if s.chance(.15):
                    continue
                kids = change(c.children)
                out.append(self.node(c.func, kids) if s.chance(.5) else Node(
                    c.func, c.own_hits, c.deep_time, kids))
            if self.left > 0 and s.chance(.3):
                func = s.pick(self.pool)
                if func not in [c.func for c in out]:
                    self.left -= 1
                    out.append(self.node(func, []))
            return out
        return change(root.children)

    def make_result(self):
        s = self.run.s
        n = len(self.results) + 1
        size = sum(1 for _ in self.results[-1].root.walk()) if self.results else 0
        self.left = 25
        if self.weird and s.chance(.3):
            # recursion
            kids, d = [], s.pick([20, 60, 150])
            for i in range(d):
                kids = [self.node(self.pool[i % len(self.pool)], kids)]
        elif size and s.chance(.8):
            self.left = max(0, (60 if self.shape else 25) - size)
            kids = self.mutate(self.results[-1].root)
        elif self.shape == 'tall':
            kids = [self.node(func, []) for func in s.shuffle(self.pool)[:s.below(len(self.pool))]]
            if kids and s.chance(.7):
                kids = [self.node(self.pool[0], kids)]
        elif self.shape == 'deep':
            self.left = 8
            kids = self.grow(3)
            for i in range(s.randint(10, 40)):
                kids = [self.node(s.pick(self.pool), kids)]
        else:
            kids = [] if s.chance(.1) else self.grow(0)
        if self.weird and kids and s.chance(.3):
            kids = kids + [self.node(kids[0].func, [])]         # two lambdas in one line
        root = Node((None, None, None, None), s.pick([0, 0, 3]), 0., kids)
        total = max([c.deep_time for c in flat(root).children] + [1.]) if not self.weird else 1.
        r = Result(n, root, min(59., total) * s.pick([1, .5, 0, 2, .25]), n + s.pick([0., .5]))
        r.title = self.title
        if self.varied:
            # as if other clients had received it
            r.title = s.pick([None, 'title', 'other'])
            r.timeless = s.chance(.3)
            if s.chance(.2):
                r.wall = 0.
        self.results.append(r)
        return r

    # -- the server ----------------------------------------------------------------------

    def server(self):
        from profiling.__about__ import __version__
        import profiling.profiler
        import profiling.sampling
        import profiling.tracing
        from profiling.stats import FrozenStatistics
        classes = {'TracingProfiler': profiling.tracing.TracingProfiler,
                   'SamplingProfiler': profiling.sampling.SamplingProfiler, 'Profiler': profiling.profiler.Profiler}
        sim, s = self.sim, self.run.s
        listener = simnet.SimSocket(self.net, owner='server')
        listener.bind(ADDR)
        listener.listen(5)
        sent = 0
        while sent < self.rounds:
            sock, _ = listener.accept()
            if sent and s.chance(self.p_kind):
                self.kind = s.pick(KINDS)
            data = pack(WELCOME, (2, __version__), 0) + pack(PROFILER, classes[self.kind])
            if self.results and s.chance(.5):
                data += self.packed(self.results[-1], FrozenStatistics)
            while True:
                try:
                    sock.sendall(data)
                except OSError:
                    break
                if s.chance(self.p_end):
                    break
                if sent == self.rounds:
                    break
                sim.sleep(s.pick([MS, SEC, SEC, 300 * MS]))
                sent += 1
                data = self.packed(self.make_result(), FrozenStatistics)
            if sent == self.rounds and not s.chance(self.p_end):
                self.live = sock
            else:
                sock.abort() if s.chance(.3) else sock.close()
        self.served = True

    def packed(self, result, cls):
        return pack(RESULT, (result.root.freeze(cls), result.cpu, result.wall or result.n * 1.))

    # -- the user ------------------------------------------------------------------------

    def user(self):
        sim, s = self.sim, self.run.s
        for i in range(self.steps):
            sim.sleep(s.pick([10 * MS, 0, 100 * MS, 400 * MS, 1500 * MS]) + 1)
            if s.chance(self.p_pause):
                key = 'enter'
            else:
                key = s.weighted(KEY_WEIGHTS)
            if key == 'mouse':
                key = (s.pick(['mouse press', 'mouse press', 'mouse release', 'mouse drag']), s.randint(1, 5),
                       s.below(self.size[0]), s.below(min(12, self.size[1])))
            self.type(key)
            if self.weird and s.chance(.1):
                self.size = s.pick([(80, 24), (40, 8), (200, 60), (20, 5), (10, 3), (120, 60)])
                self.type('window resize')
        sim.block(lambda: self.served)
        sim.sleep(7 * SEC)
        self.settled = True
        if self.latest is not self.results[-1] and self.active:
            self.problem('V01', 'latest', 'result %d did not reach the viewer' % len(self.results))
        if self.paused:
            self.type('enter')
            sim.sleep(SEC)
        self.type('q')
        sim.sleep(SEC)

    def type(self, key):
        self.typed.append(key)
        self.keyboard.send(b'k')

    # -- what happens to the viewer ------------------------------------------------------

    def event(self, *what):
        self.sim.log(*what)
        self.notes.append(' '.join(str(x) for x in what))

    def key(self, key, callback):
        if self.problems:
            raise urwid.ExitMainLoop()
        self.event('key', key)
        before = (self.rows, self.cursor, self.shown)
        self.changed = None
        if key == 'q':
            self.quit = True
            callback([key], [])
            self.problem('V02', 'quit', 'q does not quit')
            return
        refreshed = False
        if key in ('enter', ' '):
            self.paused = not self.paused
            self.count('paused' if self.paused else 'resumed')
            if not self.paused:
                self.show(self.latest, self.latest_at)
                refreshed = True
        elif key in ('[', ']') and self.table:
            orders = [i for i, (_, o) in enumerate(COLUMNS[self.table][0]) if o]
            i = (orders.index(self.order) + (1 if key == ']' else -1)) % len(orders)
            if self.order != orders[i]:
                self.order = orders[i]
                self.refresh()
                refreshed = True
        elif key == '\\':
            self.layout = FLAT if self.layout == NESTED else NESTED
            self.refresh()
            self.expect_cursor = None
            refreshed = True
        callback([key], [])
        self.capture()
        if not refreshed and self.table and not self.weird:
            self.moved(key, *before)

    def moved(self, key, rows, cursor, shown):
        """A key which doesn't change what is shown: what did it fold?"""
        if self.layout == FLAT or shown is None:
            return
        marks = {r.chain: r.mark for r in rows}
        path = self.cursor if key == '>' else ()
        for r in self.rows:
            f = r.chain[-1]
            if r.chain in marks and r.mark != marks[r.chain]:
                self.E[f] = r.mark == '-'
            elif len(r.chain) < len(path) and path[:len(r.chain)] == r.chain and len(r.chain) >= len(cursor):
                self.E[f] = True
            elif key in ('+', 'right', 'l', '-', 'left', 'h') and r.chain == cursor and r.mark != ' ':
                if self.E.get(f, False) != (r.mark == '-'):
                    self.E[f] = None
            if key[0] == 'mouse press' and r.mark != ' ' and self.E.get(f, False) != (r.mark == '-'):
                self.E[f] = None

    def show(self, result, at):
        self.shown, self.shown_at = result, at
        self.refresh()

    def refresh(self):
        """The tree is shown anew."""
        if self.shown is None:
            return
        if not self.expect_marks:
            self.expect_cursor = self.cursor
        self.expect_marks = True

    def activate(self):
        self.event('active')
        self.active = True

    def inactivate(self):
        self.event('inactive')
        self.active = False

    def new_class(self, cls):
        name = cls.__name__
        self.event('class', name)
        if name == self.table:
            return
        if self.shown is not None:
            self.count('kind-changed')
        self.table = name
        self.order = COLUMNS[name][1]
        self.layout = NESTED
        self.E = {}
        self.unknown = True         # about the expanded
        self.rows, self.cursor = [], ()
        self.refresh()
        self.expect_cursor = None

    def new_result(self, n, at):
        self.event('result', n)
        self.latest = r = self.results[n - 1]
        self.latest_at = at = None if r.timeless else at
        if not self.paused:
            self.show(self.latest, at)
        else:
            self.count('while-paused')

    # -- looking at the screen -----------------------------------------------------------

    def capture(self):
        if self.problems:
            return
        loop = self.loop
        loop.screen_size = None
        canvas = loop.widget.render(self.size, True)
        self.look(canvas, self.size)

    def look(self, canvas, size):
        if self.problems or size != self.size or self.quit:
            return
        self.looked += 1
        lines, focused, attrs = [], [], []
        for line in canvas.content():
            text = b''.join(t for _, _, t in line).decode('utf-8', 'replace')
            lines.append(text)
            focused.append(any(a == 'focus' for a, _, _ in line))
            attrs.append([(a, t.decode('utf-8', 'replace')) for a, _, t in line])
        if self.weird:
            if size[0] >= 80 and self.table:
                self.look_header(lines, attrs)
            return
        if self.shown is None:
            self.look_head(attrs[:2], False)
            for line in lines:
                if '(' in line:
                    self.problem('V01', 'shown', 'shows %r without a result' % line)
            return
        self.look_header(lines, attrs)
        rows = self.parse(lines[2:], focused[2:])
        if rows is not None:
            self.look_rows(rows)

    def look_header(self, lines, attrs):
        r = self.shown
        if r is None:
            self.look_head(attrs[:2], False)
            return
        usage = r.cpu / r.wall if r.wall else 0
        want = 'CPU %s%% (%s/%s)' % (fmt_percent(usage, 1), fmt_time(r.cpu), fmt_time(r.wall))
        right = []
        if r.title:
            right.append(r.title)
        if self.shown_at:
            right.append('{:%H:%M:%S}'.format(self.shown_at))
        want = (want.split() + right)
        if lines[0].split() != want:
            self.problem('V01', 'header', 'the header is %r instead of %r' % (lines[0].split(), want))
        self.look_head(attrs[1:2], True)

    def look_head(self, lines, order):
        """The state of the connection and the chosen column."""
        want = 'thead.paused' if self.paused else 'thead' if self.active else 'thead.inactive'
        for line in lines:
            seen = set(a for a, t in line if a and a.startswith('thead'))
            if not seen:
                continue
            states = set(a[:-7] if a.endswith('.sorted') else a for a in seen)
            if states != set([want]):
                self.problem('V01', 'state', 'the table looks %s instead of %s' % (sorted(states), want))
            if order:
                col, marked, names = -1, [], [name for name, _ in COLUMNS[self.table][0]]
                for a, t in line:
                    for word in t.split():
                        col += 1
                        if a and a.endswith('.sorted'):
                            marked.append(col)
                if len(self.size) and self.size[0] >= 80 and marked != [self.order]:
                    self.problem('V02', 'order', 'column %s is marked instead of %d' % (marked, self.order))

    def parse(self, lines, focused):
        rows, chain = [], []
        ncells = len(COLUMNS[self.table][0]) - 1
        cursor = ()
        for line, f in zip(lines, focused):
            if not line.strip():
                continue
            text = line.rstrip()
            body = text.lstrip(' ')
            lead = len(text) - len(body)
            if body[:2] in ('+ ', '- ') or body in ('+', '-'):
                mark, depth, body = body[0], lead + 1, body[2:]
            else:
                mark, depth = ' ', lead - 1
            parts = body.rsplit(None, ncells) if ncells else [body]
            row = Row(depth, mark, parts[0].strip(), parts[1:])
            if depth < 1 or depth > len(chain) + 1:
                self.problem('V02', 'rows', 'the row %r is nowhere in the tree' % line)
                return
            chain[depth - 1:] = [row.label]
            row.chain = tuple(chain)
            rows.append(row)
            if f:
                if cursor:
                    self.problem('V02', 'cursor', 'two rows have the focus: %r, %r' % (cursor, row.chain))
                cursor = row.chain
        self.seen_cursor = cursor
        return rows

    def look_rows(self, rows):
        r = self.shown
        tree = r.tree(self.layout)
        kids = {}
        top = []
        for row in rows:
            if len(row.chain) == 1:
                top.append(row)
            else:
                kids.setdefault(row.chain[:-1], []).append(row)
        columns, _, cells = COLUMNS[self.table]
        order = columns[self.order][1]
        expect, cursor = self.expect_marks, self.expect_cursor
        self.expect_marks, self.expect_cursor = False, None
        # a cursor below a folded function keeps it in sight
        odd = [False]
        changed = {}

        def compare(node, rows, chain):
            want = {label(c.func): c for c in node.children}
            seen = [row.label for row in rows]
            if sorted(seen) != sorted(want):
                self.problem('V01' if self.prop == 'V01' else 'V02', 'rows', 'under %s of result %d are %s instead of '
                             '%s' % ('>'.join(chain) or 'the root', r.n, seen, sorted(want)))
                return False
            keys = [order(want[x]) for x in seen]
            for i in range(len(keys) - 1):
                if keys[i] > keys[i + 1]:
                    self.problem('V02', 'order', '%s is above %s, sorted by %s: %r, %r' % (
                        seen[i], seen[i + 1], columns[self.order][0], keys[i], keys[i + 1]))
                    return False
            for row in rows:
                c = want[row.label]
                if row.cells != cells(c, r):
                    self.problem('V01', 'cells', '%s of result %d shows %s instead of %s' % (
                        '>'.join(row.chain), r.n, row.cells, cells(c, r)))
                    return False
                if (row.mark == ' ') != (not c.children or self.layout == FLAT):
                    self.problem('V02', 'mark', '%s is marked %r with %d children' % (
                        '>'.join(row.chain), row.mark, len(c.children)))
                    return False
                below = kids.get(row.chain, [])
                if row.mark != ' ' and expect:
                    known = self.E.get(row.label, None if self.unknown else False)
                    if known is None:
                        changed.setdefault(row.label, set()).add(row.mark)
                    elif known != (row.mark == '-'):
                        self.problem('V02', 'expanded', '%s is %s' % (
                            '>'.join(row.chain), 'folded' if known else 'expanded'))
                        return False
                if row.mark == '-':
                    if not compare(c, below, row.chain):
                        return False
                elif below:
                    if self.seen_cursor[:len(row.chain)] == row.chain:
                        odd[0] = True
                        continue
                    self.problem('V02', 'rows', '%s is folded but shows rows' % '>'.join(row.chain))
                    return False
            return True
        ok = compare(tree, top, ())
        if not ok:
            return
        for f, marks in changed.items():
            if len(marks) == 1:
                self.E[f] = marks == set('-')
        if expect and cursor:
            node, want = tree, ()
            for x in cursor:
                node = {label(c.func): c for c in node.children}.get(x)
                if node is None:
                    break
                want += (x,)
            if want != self.seen_cursor:
                self.problem('V02', 'cursor', 'the cursor was at %s and is at %s instead of %s' % (
                    '>'.join(cursor), '>'.join(self.seen_cursor) or '-', '>'.join(want) or '-'))
        if expect and not odd[0]:
            for f in [f for f in self.E if self.E[f] is None]:
                if f not in changed:
                    del self.E[f]
                    self.unknown = True
        self.rows, self.cursor = rows, self.seen_cursor

    # -- the client ----------------------------------------------------------------------

    def client(self):
        import traceback
        from urwid.event_loop import SelectEventLoop
        from profiling.remote.client import FailoverProfilingClient
        from profiling.viewer import StatisticsViewer
        run = self

        class Viewer(StatisticsViewer):
            """Tells the model what the client tells the viewer."""

            def activate(self):
                run.activate()
                super(Viewer, self).activate()
                run.capture()

            def inactivate(self):
                run.inactivate()
                super(Viewer, self).inactivate()
                run.capture()

            def set_profiler_class(self, cls):
                run.new_class(cls)
                super(Viewer, self).set_profiler_class(cls)
                run.capture()

            def set_result(self, stats, cpu_time=0.0, wall_time=0.0, title=None, at=None):
                run.new_result(int(wall_time), at)
                now = time.time()
                if at is None or abs(at.timestamp() - now) > .01:
                    run.problem('V01', 'time', 'result received at %r instead of %r' % (
                        at, datetime.datetime.fromtimestamp(now)))
                if title != run.title:
                    run.problem('V01', 'title', 'result received with title %r' % (title,))
                r = run.latest
                super(Viewer, self).set_result(stats, cpu_time, r.wall, r.title, run.latest_at)
                run.capture()
        try:
            loop = SelectEventLoop()
            viewer = self.viewer = Viewer()
            self.loop = viewer.loop(screen=Screen(self), event_loop=loop)
            client = FailoverProfilingClient(viewer, loop, ADDR, title=self.title)
            client.start()
            self.loop.run()
        except engine.SimKilled:
            raise
        except BaseException as exc:
            self.death = (exc, traceback.format_exc())
            self.sim.log('viewer-died', repr(exc))
        self.ended = True

    def main(self):
        sim = self.sim = engine.SIM
        net = self.net = simnet.Net(sim, self.run.s, self.lat, self.frag, (1 << 18,))
        net.owner = lambda: 'client'
        simnet.use(sim, net)
        self.served = self.settled = self.ended = False
        self.keyboard, self.tty = net.socketpair()
        sim.spawn(self.server, 'server')
        sim.yield_()
        sim.spawn(self.client, 'client')
        sim.spawn(self.user, 'user')
        sim.block(lambda: self.ended)

    def judge(self):
        sim = self.run.sim
        for name, exc, tb in sim.task_excs:
            raise engine.SimError('%s: %s' % (name, tb))
        for cls, msg in self.problems:
            self.notes = self.problem_note
            self.violate(cls, msg)
            return
        if self.death is not None:
            if self.death[1].rstrip().rsplit('File "', 1)[1].startswith(__file__):
                raise engine.SimError(self.death[1])
            self.violate('died', 'the viewer failed: %r %s' % self.death)
            return
        if sim.end != 'main':
            self.violate('stuck', 'the viewer hangs or spins: %s at %s' % (sim.end, sim.stuck_at))


ALIVE = []


def keep_canvases():
    """What is in the cache of canvases shall not depend on the garbage
    collector: nothing leaves it unless it is invalidated."""
    store = urwid.CanvasCache.store

    def keep(wcls, canvas):
        ALIVE.append(canvas)
        store(wcls, canvas)
    urwid.CanvasCache.store = keep


def warm_up():
    """Whatever is only done once in a process is done now."""
    from profiling.stats import FrozenStatistics
    from profiling.tracing import TracingProfiler
    from profiling.viewer import StatisticsViewer
    viewer = StatisticsViewer()
    viewer.set_profiler_class(TracingProfiler)
    leaf = Node(FUNCS[0], 1, 1., [])
    root = Node(FUNCS[1], 1, 1., [Node(FUNCS[1], 1, 1., [leaf]), leaf])
    viewer.set_result(root.freeze(FrozenStatistics), 1., 1., 'title')
    viewer.activate()
    for key in ['down', 'right', 'right', '-', '+', ']', '\\\\', 'enter', 'enter']:
        viewer.widget.keypress((100, 20), key)
        viewer.widget.render((100, 20), True)
    viewer.inactivate()


def scenario(prop):
    import profiling.profiler
    import profiling.remote.client
    import profiling.sampling
    import profiling.tracing
    import profiling.viewer
    import urwid.event_loop.select_loop
    profiling.remote, urwid.event_loop
    selectors.DefaultSelector = make_selector
    profiling.viewer.bind_vim_keys()
    keep_canvases()
    warm_up()

    def fn(run):
        urwid.CanvasCache.clear()
        del ALIVE[:]
        t = ViewerRun(run, prop)
        run.simulate(t.main, max_points=40000000)
        t.judge()
        out = run.out
        out.notes.append(t.note())
        out.counters['results'] = len(t.results)
        out.counters['looks'] = t.looked
        out.trivial = not t.results
    return fn
