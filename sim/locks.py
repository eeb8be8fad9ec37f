"""Stand-ins for thread locks; blocking is decided by the simulator.  Outside
of a simulation they work as uncontended locks of one thread."""
from sim import engine


class SimLock(object):

    def __init__(self):
        self._locked = False
        self._sim = None        # the simulation which locked it

    def _forget(self):
        """The tasks of a finished simulation hold nothing anymore."""
        if self._locked and self._sim is not None and self._sim is not engine.SIM:
            self._locked = False

    def acquire(self, blocking=True, timeout=-1):
        sim = engine.SIM
        self._forget()
        if sim is None:
            if self._locked:
                if not blocking or timeout != -1:
                    return False
                raise engine.SimError('deadlock outside of the simulation')
            self._locked, self._sim = True, None
            return True
        if not blocking and timeout != -1:
            raise ValueError("can't specify a timeout for a non-blocking call")
        if self._locked:
            if not blocking or timeout == 0:
                return False
            sim.count('lock-contended')
            deadline = None if timeout < 0 else sim.now + engine.ticks(timeout)
            if not sim.block(lambda: not self._locked, deadline):
                return False
        self._locked, self._sim = True, sim
        return True

    def release(self):
        if not self._locked:
            if engine.SIM is not None and engine.SIM.killing:
                return
            raise RuntimeError('release unlocked lock')
        self._locked = False

    def locked(self):
        self._forget()
        return self._locked

    def sim_force_release(self):
        self._locked = False

    def _at_fork_reinit(self):
        self._locked = False

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *exc_info):
        self.release()

    acquire_lock, release_lock, locked_lock = acquire, release, locked


class SimRLock(object):

    def __init__(self):
        self._owner, self._count = None, 0

    def acquire(self, blocking=True, timeout=-1):
        sim = engine.SIM
        me = 'outside' if sim is None else sim.cur
        if self._owner is me:
            self._count += 1
            return True
        if self._owner is not None and self._owner != 'outside' and self._owner.sim is not sim:
            # left over from a finished simulation
            self._owner, self._count = None, 0
        if self._owner is not None:
            if sim is None:
                raise engine.SimError('deadlock outside of the simulation')
            else:
                if not blocking or timeout == 0:
                    return False
                sim.count('lock-contended')
                deadline = None if timeout < 0 else sim.now + engine.ticks(timeout)
                if not sim.block(lambda: self._owner is None, deadline):
                    return False
        self._owner, self._count = me, 1
        return True

    def release(self):
        sim = engine.SIM
        me = 'outside' if sim is None else sim.cur
        if self._owner is not me:
            if sim is not None and sim.killing:
                return
            raise RuntimeError('cannot release un-acquired lock')
        self._count -= 1
        if not self._count:
            self._owner = None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *exc_info):
        self.release()

    def _is_owned(self):
        sim = engine.SIM
        return self._owner is ('outside' if sim is None else sim.cur)

    def _release_save(self):
        state = (self._count, self._owner)
        self._owner, self._count = None, 0
        return state

    def _acquire_restore(self, state):
        self.acquire()
        self._count, self._owner = state

    def _at_fork_reinit(self):
        self._owner, self._count = None, 0
