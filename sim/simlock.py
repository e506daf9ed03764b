# Lock types created by code under test become scheduler-aware, so that a
# thread blocked on a lock is a scheduling decision and not a real wait.
import threading
import thread

_sched = [None]          # the active ThreadSched, if any
_all = []
_real = {}


class SimRLock(object):
    reentrant = True

    def __init__(self, *a):
        self.owner = None
        self.count = 0
        _all.append(self)

    def acquire(self, blocking=1, timeout=None):
        s = _sched[0]
        me = s.current_id() if s is not None else 'main'
        if self.owner == me and self.reentrant:
            self.count += 1
            return True
        while self.owner is not None:
            if not blocking:
                return False
            if s is None:
                raise RuntimeError('simulated deadlock: lock already held')
            s.block_on(self)
        self.owner = me
        self.count = 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError('release of un-acquired lock')
        self.count -= 1
        if self.count <= 0:
            self.owner = None
            self.count = 0
            s = _sched[0]
            if s is not None:
                s.lock_released(self)

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    # Condition support
    def _is_owned(self):
        s = _sched[0]
        me = s.current_id() if s is not None else 'main'
        return self.owner == me


class SimLock(SimRLock):
    reentrant = False


def RLock(*a, **k):
    return SimRLock()


def Lock(*a, **k):
    return SimLock()


_boot_n = [None]


def reset():
    if _boot_n[0] is None:
        _boot_n[0] = len(_all)
    del _all[_boot_n[0]:]
    for l in _all:
        l.owner = None
        l.count = 0


def install():
    # logging, Queue etc. are imported with their real locks first
    import logging, Queue, tempfile, random, urllib2, uuid  # noqa
    _real['RLock'] = threading.RLock
    _real['Lock'] = threading.Lock
    _real['allocate_lock'] = thread.allocate_lock
    caller_ok = ('pyamf',)

    def wrap(fake, real):
        def factory(*a, **k):
            import sys
            g = sys._getframe(1).f_globals.get('__name__', '')
            if g.split('.')[0] in caller_ok:
                return fake(*a, **k)
            return real(*a, **k)
        return factory
    threading.RLock = wrap(RLock, _real['RLock'])
    threading.Lock = wrap(Lock, _real['Lock'])
    thread.allocate_lock = wrap(Lock, _real['allocate_lock'])
    import snapshot
    snapshot.extra_restore.append(reset)
