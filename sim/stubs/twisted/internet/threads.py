# Stub of twisted.internet.threads: the pool is the simulator's.
from twisted.internet import defer

#: reactor of the current simulation
reactor = None


def deferToThread(f, *a, **kw):
    d = defer.Deferred()
    reactor.in_thread(d, f, a, kw)
    return d
