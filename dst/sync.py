"""Simulated locks; installed under threading/queue/asyncio primitives."""

from . import core


def _me(sim):
    """Identity of the running thread (OS identifiers may be reused)."""
    return 0 if sim is None or sim.cur is None else sim.cur.id


class SimLock:
    """threading.Lock / _thread.allocate_lock."""

    __slots__ = ("held", "waiters", "__weakref__")

    def __init__(self):
        self.held = False
        self.waiters = core.Waiters()

    def acquire(self, blocking=True, timeout=-1):
        sim = core.SIM
        if sim is None or not sim.active:
            if self.held:
                if not blocking:
                    return False
                raise core.SimError("real blocking outside the simulation")
            self.held = True
            return True
        if not blocking and timeout != -1:
            raise ValueError("can't specify a timeout for a non-blocking call")
        if timeout is not None and timeout < 0 and timeout != -1:
            raise ValueError("timeout value must be a non-negative number")
        sim.yield_point()
        if not self.held:
            self.held = True
            return True
        if not blocking:
            return False
        deadline = None if timeout in (-1, None) else sim.now + timeout
        while self.held:
            left = None
            if deadline is not None:
                left = deadline - sim.now
                if left <= 0:
                    return False
            sim.block(self.waiters, left)
        self.held = True
        return True

    def release(self):
        if not self.held:
            raise RuntimeError("release unlocked lock")
        self.held = False
        sim = core.SIM
        if sim is not None and sim.active:
            if self.waiters.threads:
                sim.wake_all(self.waiters)
            if sim.rel is None:
                sim.yield_point()
            else:
                sim.released()

    def force_release(self):
        """Release without yielding (thread exit)."""
        self.held = False
        if self.waiters.threads:
            core.SIM.wake_all(self.waiters)

    def locked(self):
        return self.held

    def _at_fork_reinit(self):
        self.held = False
        self.waiters = core.Waiters()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *_):
        self.release()

    acquire_lock = acquire
    release_lock = release
    locked_lock = locked


class SimRLock:
    """threading.RLock."""

    __slots__ = ("owner", "count", "waiters", "__weakref__")

    def __init__(self):
        self.owner = None
        self.count = 0
        self.waiters = core.Waiters()

    def acquire(self, blocking=True, timeout=-1):
        sim = core.SIM
        me = _me(sim)
        if sim is None or not sim.active:
            if self.owner not in (None, me):
                raise core.SimError("real blocking outside the simulation")
            self.owner = me
            self.count += 1
            return True
        sim.yield_point()
        if self.owner == me:
            self.count += 1
            return True
        if self.owner is None:
            self.owner = me
            self.count = 1
            return True
        if not blocking:
            return False
        deadline = None if timeout in (-1, None) else sim.now + timeout
        while self.owner is not None:
            left = None
            if deadline is not None:
                left = deadline - sim.now
                if left <= 0:
                    return False
            sim.block(self.waiters, left)
        self.owner = me
        self.count = 1
        return True

    def release(self):
        if self.owner != _me(core.SIM):
            raise RuntimeError("cannot release un-acquired lock")
        self.count -= 1
        if not self.count:
            self.owner = None
            sim = core.SIM
            if sim is not None and sim.active:
                if self.waiters.threads:
                    sim.wake_all(self.waiters)
                if sim.rel is None:
                    sim.yield_point()
                else:
                    sim.released()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *_):
        self.release()

    def _is_owned(self):
        return self.owner == _me(core.SIM)

    def _release_save(self):
        state = (self.count, self.owner)
        self.count = 0
        self.owner = None
        sim = core.SIM
        if self.waiters.threads:
            sim.wake_all(self.waiters)
        return state

    def _acquire_restore(self, state):
        sim = core.SIM
        while self.owner is not None:
            sim.block(self.waiters, None)
        self.count, self.owner = state

    def _recursion_count(self):
        return self.count if self.owner == _me(core.SIM) else 0

    def _at_fork_reinit(self):
        self.owner = None
        self.count = 0


def allocate_lock():
    return SimLock()


def rlock_factory(*_, **__):
    return SimRLock()


class Sentinel(SimLock):
    """The per-thread 'tstate lock' that join() waits for."""


def set_sentinel():
    lock = SimLock()
    sim = core.SIM
    if sim is not None and sim.active:
        sim.cur.sentinel = lock
    return lock
