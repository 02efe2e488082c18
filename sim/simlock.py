"""
Locks the simulator can schedule.  Installed as threading.Lock/RLock before the library is imported; without an active
scheduler they are the real locks.
"""
import _thread
import threading

real_lock = _thread.allocate_lock
ACTIVE = None        # the running scheduler, if any


class SimLock:
    reentrant = False

    def __init__(self):
        self._real = real_lock()
        self._owner, self._count = None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self.reentrant and self._owner == me:
            self._count += 1
            return True
        s = ACTIVE
        if s is None or not s.owns_current():
            ok = self._real.acquire(blocking, timeout)
        else:
            ok = self._real.acquire(False)
            while not ok:
                if not blocking:
                    return False
                if not s.block(self, timeout is not None and timeout >= 0):
                    return False        # simulated time-out: nobody else could run
                ok = self._real.acquire(False)
        if ok:
            self._owner, self._count = me, 1
        return ok

    def release(self):
        if self.reentrant:
            if self._owner != _thread.get_ident():
                raise RuntimeError('cannot release un-acquired lock')
            self._count -= 1
            if self._count:
                return
        self._owner = None
        self._real.release()
        if ACTIVE is not None:
            ACTIVE.unblock(self)

    def locked(self):
        return self._real.locked()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    # used by threading.Condition
    def _is_owned(self):
        return self._owner == _thread.get_ident() if self.reentrant else self._real.locked()

    def _at_fork_reinit(self):
        self._real = real_lock()
        self._owner, self._count = None, 0


class SimRLock(SimLock):
    reentrant = True

    def _release_save(self):
        c, self._count, self._owner = self._count, 0, None
        self._real.release()
        return c

    def _acquire_restore(self, c):
        self.acquire()
        self._count = c


def install():
    threading.Lock = SimLock
    threading.RLock = SimRLock
