# The clock and the entropy source of simulated processes.
#
# While a simulated clock is in use, time.time(), time.gmtime() and
# time.localtime() (without argument) read it.  os.urandom (and with it
# uuid.uuid4) and the random module are deterministic within a run.
import os
import random
import time
import uuid

from java.util import SplittableRandom, TimeZone

_real = {}
_clock = [None]
_entropy = [None]


class _Callable(object):
    def __init__(self, f):
        self.f = f

    def __call__(self, *a):
        return self.f(*a)


def install():
    if _real:
        return
    _real['time'] = time.time
    _real['gmtime'] = time.gmtime
    _real['localtime'] = time.localtime
    _real['urandom'] = os.urandom
    _real['zone'] = TimeZone.getDefault()

    def sim_time():
        c = _clock[0]
        return _real['time']() if c is None else c()

    def gmtime(*a):
        if not a or a[0] is None:
            a = (sim_time(),)
        return _real['gmtime'](*a)

    def localtime(*a):
        if not a or a[0] is None:
            a = (sim_time(),)
        return _real['localtime'](*a)

    def urandom(n):
        r = _entropy[0]
        if r is None:
            return _real['urandom'](n)
        return ''.join([chr(r.nextInt(256)) for _ in range(n)])

    # (the time module is a class in Jython: no plain functions)
    time.time = _Callable(sim_time)
    time.gmtime = _Callable(gmtime)
    time.localtime = _Callable(localtime)
    os.urandom = urandom
    random._urandom = urandom
    uuid._uuid_generate_random = None
    uuid._uuid_generate_time = None


def use(sim, clock):
    """clock: callable giving seconds since 1970."""
    _clock[0] = clock
    _entropy[0] = SplittableRandom(20240229)
    random.seed(20240229)

    def done():
        _clock[0] = None
        _entropy[0] = None
        set_zone(None)
    sim.on_cleanup(done)


def set_zone(name):
    """Local time zone of the (simulated) process."""
    z = _real['zone'] if name is None else TimeZone.getTimeZone(name)
    TimeZone.setDefault(z)
    # what tzset() changes
    time.timezone = -z.getRawOffset() // 1000
    time.altzone = time.timezone - z.getDSTSavings() // 1000
    time.daylight = int(z.useDaylightTime())
    time.tzname = (z.getDisplayName(False, 0), z.getDisplayName(True, 0))
