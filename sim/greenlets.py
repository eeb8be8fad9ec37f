"""A stand-in for the greenlet module: every greenlet is a task of its own
(with a real stack of its own, as with the C greenlet), but shares the thread's
identity, clock and profile function; switching is explicit.

As the C implementation does, the trace function is called in the target after
the switch, with profiling disabled.
"""
import sys
import types

from sim import engine


class GreenletExit(BaseException):
    pass


class error(Exception):
    pass


class Group(object):
    """The greenlets of one thread."""

    def __init__(self, task):
        self.task = task
        self.main = greenlet(None)
        self.main.task = task
        self.main.group = self
        self.main.started = True
        self.current = self.main
        self.trace = None
        self.came_from = None


def group():
    task = engine.SIM.cur
    g = task.data.get('group')
    if g is None:
        g = task.data['group'] = Group(task)
    return g


class greenlet(object):

    def __init__(self, run=None, parent=None):
        self.run, self.parent = run, parent
        self.task = self.group = self.thrown = None
        self.started = self.dead = False

    def throw(self, *exc):
        """Switches to the greenlet and raises there."""
        self.thrown = exc[0] if exc else GreenletExit
        if self.task is None and not self.dead:
            raise engine.SimError('throw() into an unstarted greenlet is not simulated')
        return self.switch()

    def switch(self, *args):
        g = group()
        me = g.current
        target = self
        while target.dead:
            target = target.parent or g.main
        thrown, self.thrown = self.thrown, None
        if target is me:
            if thrown is not None:
                raise thrown
            return
        target.thrown = thrown
        sim = engine.SIM
        sim.count('greenlet-switches')
        task = sim.cur
        g.current, g.came_from = target, me
        if target.task is None:
            target.group = g
            target.started = True
            if target.parent is None:
                target.parent = me
            target.task = sim.spawn(target._run, thread=task.thread)
            target.task.data['group'] = g
            target.task.data['greenlet'] = True
            target.task.coop = task.coop
        task.state, task.pred, task.deadline = engine.Task.BLOCKED, (lambda: g.current is me), None
        task.interruptible = False
        t = target.task
        t.state, t.pred = engine.Task.RUN, None
        sim._switch(t)
        task.state = engine.Task.RUN
        self._arrive(g, me)

    def _arrive(self, g, me):
        sim = engine.SIM
        if sim.killing:
            raise engine.SimKilled
        origin, g.came_from = g.came_from, None
        thrown, me.thrown = me.thrown, None
        engine._setprofile(engine.profile_shim if sim.cur.thread.profile_func else None)
        if g.trace is not None and origin is not None:
            sim.cur.no_profile += 1
            try:
                g.trace('throw' if thrown else 'switch', (origin, me))
            finally:
                sim.cur.no_profile -= 1
        if thrown is not None:
            sim.count('greenlet-throws')
            raise thrown

    def _run(self):
        g = self.group
        try:
            self._arrive(g, self)
            self.run()
        except GreenletExit:
            pass
        finally:
            engine._setprofile(None)
            self.dead = True
            parent = self.parent
            while parent.dead:
                parent = parent.parent
            g.current, g.came_from = parent, self

    def __bool__(self):
        return self.started and not self.dead


def getcurrent():
    return group().current


def settrace(fn):
    hook = engine.SIM.hooks.get('settrace')
    if hook is not None:
        hook(fn)
    g = group()
    prev, g.trace = g.trace, fn
    return prev


def gettrace():
    return group().trace


def install():
    mod = types.ModuleType('greenlet')
    mod.__file__ = __file__
    for name in ('greenlet', 'getcurrent', 'settrace', 'gettrace', 'GreenletExit', 'error'):
        setattr(mod, name, globals()[name])
    sys.modules['greenlet'] = mod
    return mod
