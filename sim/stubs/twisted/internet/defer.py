# Stub of twisted.internet.defer: what the gateway and its services use, with
# Twisted's semantics (chaining, pausing on a returned Deferred, Failures).
import sys
import traceback


class AlreadyCalledError(Exception):
    pass


class Failure(object):
    def __init__(self, exc_value=None, exc_type=None, exc_tb=None):
        if exc_value is None:
            exc_type, exc_value, exc_tb = sys.exc_info()
            if exc_type is None:
                raise RuntimeError('NoCurrentExceptionError')
        elif isinstance(exc_value, Failure):
            f = exc_value
            exc_type, exc_value, exc_tb = f.type, f.value, f.tb
        elif exc_type is None:
            exc_type = exc_value.__class__
        self.type = exc_type
        self.value = exc_value
        self.tb = exc_tb
        handled.append(self)

    def getErrorMessage(self):
        try:
            return str(self.value)
        except Exception:
            return '<%s instance with broken str>' % (
                getattr(self.type, '__name__', self.type),)

    def getTraceback(self, *a, **kw):
        try:
            lines = traceback.format_exception(self.type, self.value, self.tb)
            return ''.join([l.encode('utf-8') if isinstance(l, unicode) else l
                            for l in lines])
        except Exception:
            return 'Traceback: %s\n' % (self.getErrorMessage(),)

    def check(self, *types):
        for t in types:
            if isinstance(self.value, t):
                return t
        return None

    def trap(self, *types):
        t = self.check(*types)
        if not t:
            raise self.value
        return t

    def raiseException(self):
        raise self.type, self.value, self.tb


#: every Failure made in this run (the simulator empties it)
handled = []
#: every Deferred made in this run (the simulator empties it)
made = []


class Deferred(object):
    def __init__(self):
        self.called = False
        self.callbacks = []
        self.paused = 0
        self._running = False
        self._chained = False
        made.append(self)

    def addCallbacks(self, cb, eb=None, cba=(), cbk=None, eba=(), ebk=None):
        self.callbacks.append((
            (cb, cba or (), cbk or {}), (eb or passthru, eba or (),
                                         ebk or {})))
        if self.called:
            self._run()
        return self

    def addCallback(self, f, *a, **kw):
        return self.addCallbacks(f, None, a, kw)

    def addErrback(self, f, *a, **kw):
        return self.addCallbacks(passthru, f, (), {}, a, kw)

    def addBoth(self, f, *a, **kw):
        return self.addCallbacks(f, f, a, kw, a, kw)

    def callback(self, result):
        self._start(result)

    def errback(self, fail=None):
        if not isinstance(fail, Failure):
            fail = Failure(fail)
        self._start(fail)

    def _start(self, result):
        if self.called:
            raise AlreadyCalledError()
        self.called = True
        self.result = result
        self._run()

    def _resume(self, result):
        self.paused -= 1
        self.result = result
        self._run()

    def _run(self):
        if self._running:
            return
        self._running = True
        try:
            while self.callbacks and not self.paused:
                cb, eb = self.callbacks.pop(0)
                f, a, kw = eb if isinstance(self.result, Failure) else cb
                try:
                    self.result = f(self.result, *a, **kw)
                except (KeyboardInterrupt, SystemExit):
                    self.result = Failure()
                except:
                    self.result = Failure()
                if isinstance(self.result, Deferred):
                    inner = self.result
                    self.paused += 1
                    inner._chained = True

                    def go(r):
                        self._resume(r)
                        return None
                    self._running = False
                    inner.addBoth(go)
                    if self.paused:
                        return
                    self._running = True
        finally:
            self._running = False


def passthru(r):
    return r


def succeed(result):
    d = Deferred()
    d.callback(result)
    return d


def fail(result=None):
    d = Deferred()
    d.errback(result)
    return d


def maybeDeferred(f, *a, **kw):
    try:
        result = f(*a, **kw)
    except:
        return fail(Failure())
    if isinstance(result, Deferred):
        return result
    if isinstance(result, Failure):
        return fail(result)
    return succeed(result)


class DeferredList(Deferred):
    def __init__(self, dl, fireOnOneCallback=False, fireOnOneErrback=False,
                 consumeErrors=False):
        Deferred.__init__(self)
        dl = list(dl)
        self.resultList = [None] * len(dl)
        self.left = len(dl)
        self.consume = consumeErrors
        if not dl and not fireOnOneCallback:
            self.callback(self.resultList)
        for i, d in enumerate(dl):
            d.addCallbacks(self._one, self._one, (i, True), None, (i, False))

    def _one(self, result, index, ok):
        self.resultList[index] = (ok, result)
        self.left -= 1
        if not self.called and self.left == 0:
            self.callback(self.resultList)
        if not ok and self.consume:
            result = None
        return result
