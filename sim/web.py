# HTTP around the gateways: requests and responses as a web server and an HTTP
# client library would handle them, and one adapter per gateway front end.
import gzip
import mimetools
import os
import StringIO
import sys
import urllib2

import core

HERE = os.path.dirname(os.path.abspath(__file__))
_ready = []


def setup(twisted=True, django=True, google=True):
    """Imports the front ends (real Django; stubs for absent frameworks)."""
    stubs = os.path.join(HERE, 'stubs')
    if stubs not in sys.path:
        sys.path.insert(1, stubs)
    if django:
        import django.conf
        if not django.conf.settings.configured:
            django.conf.settings.configure(
                DEBUG=False, DEFAULT_CHARSET='utf-8', ALLOWED_HOSTS=['*'],
                INSTALLED_APPS=(), DATABASES={}, USE_TZ=False)
        import django.http  # noqa
        import django.core.handlers.wsgi  # noqa
        import pyamf.remoting.gateway.django  # noqa
    if twisted:
        import pyamf.remoting.gateway.twisted  # noqa
    if google:
        import pyamf.remoting.gateway.google  # noqa
    import pyamf.remoting.gateway.wsgi  # noqa


class Post(object):
    """A request as the web server received it."""

    def __init__(self, body, method='POST', length=True, headers=None,
                 reset=None, path='/gw'):
        self.body = body
        self.method = method
        # the declared Content-Length: True = correct, None = absent
        self.length = str(len(body)) if length is True else length
        self.headers = headers or {}
        # reading past this many bytes fails (connection reset)
        self.reset = reset
        self.path = path

    def environ(self):
        e = {'REQUEST_METHOD': self.method, 'SCRIPT_NAME': '',
             'PATH_INFO': self.path, 'QUERY_STRING': '',
             'SERVER_NAME': 'sim', 'SERVER_PORT': '80',
             'SERVER_PROTOCOL': 'HTTP/1.1', 'wsgi.version': (1, 0),
             'wsgi.url_scheme': 'http', 'wsgi.errors': StringIO.StringIO(),
             'wsgi.multithread': False, 'wsgi.multiprocess': False,
             'wsgi.run_once': False, 'CONTENT_TYPE': 'application/x-amf',
             'wsgi.input': Input(self)}
        if self.length is not None:
            e['CONTENT_LENGTH'] = self.length
        for k, v in self.headers.items():
            e['HTTP_' + k.upper().replace('-', '_')] = v
        return e


class Input(object):
    def __init__(self, post):
        self.f = StringIO.StringIO(post.body)
        self.reset = post.reset

    def read(self, n=-1):
        if n is None or n < 0:
            n = len(self.f.getvalue())
        if self.reset is not None and self.f.tell() + n > self.reset:
            raise IOError('Connection reset by peer')
        return self.f.read(n)

    def readline(self, n=-1):
        return self.f.readline(n)

    def readlines(self, hint=-1):
        return self.f.readlines(hint)

    def __iter__(self):
        return iter(self.f)


class Reply(object):
    """What the web server sends back."""

    def __init__(self):
        self.starts = 0          # responses started
        self.finishes = 0
        self.status = None       # '200 OK'
        self.headers = []
        self.body = ''
        self.escaped = None      # text of an exception left to the server
        self.problems = []
        self.pending = False

    @property
    def code(self):
        return int(self.status.split(' ')[0]) if self.status else None

    def header(self, name):
        for k, v in self.headers:
            if k.lower() == name.lower():
                return v

    def validate(self):
        """Complaints about this response as an HTTP response."""
        p = list(self.problems)
        if self.escaped:
            p.append('exception escaped into the web server: %s'
                     % (self.escaped,))
            return p
        if self.pending:
            p.append('the request is never answered')
            return p
        if self.starts != 1:
            p.append('%d responses started' % self.starts)
        if self.finishes != 1:
            p.append('%d responses finished' % self.finishes)
        if not self.status or not self.status[:3].isdigit():
            p.append('bad status %r' % (self.status,))
        names = [k.lower() for k, _ in self.headers]
        for n in set(names):
            if names.count(n) > 1:
                p.append('header %s repeated' % n)
        for k, v in self.headers:
            if not isinstance(k, str) or not isinstance(v, str):
                p.append('header %r: %r is not a string' % (k, v))
            elif '\r' in v or '\n' in v:
                p.append('header %s has a line break' % k)
        cl = self.header('Content-Length')
        if cl is not None and cl != str(len(self.body)):
            p.append('Content-Length %s for %d bytes' % (cl, len(self.body)))
        if self.header('Content-Type') is None and self.body:
            p.append('no Content-Type')
        return p


def _text(e):
    try:
        return '%s: %s' % (e.__class__.__name__, core._safe(e))
    except Exception:
        return e.__class__.__name__


class Front(object):
    name = None

    def escape(self, reply):
        et, ev, tb = sys.exc_info()
        if isinstance(ev, (core.Violation, core.HarnessError,
                           core.TapeTooLong)):
            raise
        reply.escaped = '%s at %s' % (_text(ev), core.library_frames(tb))
        reply.status = '500 Internal Server Error'
        reply.headers = [('Content-Type', 'text/html')]
        reply.body = '<h1>500</h1>'
        return reply


class Wsgi(Front):
    name = 'wsgi'

    def __init__(self, *a, **kw):
        from pyamf.remoting.gateway.wsgi import WSGIGateway
        self.gw = WSGIGateway(*a, **kw)

    def serve(self, post):
        r = Reply()

        def start(status, headers, exc_info=None):
            if r.starts and not exc_info:
                r.problems.append('start_response called again')
            r.starts += 1
            if not isinstance(status, str):
                r.problems.append('status %r is not a str' % (status,))
            r.status = status
            r.headers = list(headers)

            def write(s):
                r.body += s
            return write
        try:
            result = self.gw(post.environ(), start)
            for s in result:
                if not r.starts:
                    r.problems.append('body before start_response')
                if not isinstance(s, str):
                    # a server can only send bytes
                    r.problems.append('body is %s, not bytes'
                                      % type(s).__name__)
                    s = s.encode('utf-8')
                r.body += s
            if hasattr(result, 'close'):
                result.close()
            r.finishes = 1
        except (KeyboardInterrupt, SystemExit):
            raise
        except:
            return self.escape(r)
        return r


class Django(Front):
    name = 'django'

    def __init__(self, *a, **kw):
        from pyamf.remoting.gateway.django import DjangoGateway
        self.gw = DjangoGateway(*a, **kw)

    def serve(self, post):
        from django.core.handlers.wsgi import WSGIRequest
        r = Reply()
        req = WSGIRequest(post.environ())
        try:
            resp = self.gw(req)
            from django.http import HttpResponse
            if not isinstance(resp, HttpResponse):
                r.problems.append('view returned %r' % (type(resp),))
                return r
            r.starts = r.finishes = 1
            r.status = '%d %s' % (resp.status_code, resp.reason_phrase)
            r.headers = [(str(k), str(v)) for k, v in resp.items()]
            r.body = resp.content
        except (KeyboardInterrupt, SystemExit):
            raise
        except:
            return self.escape(r)
        return r


class Google(Front):
    name = 'google'

    def __init__(self, *a, **kw):
        from pyamf.remoting.gateway.google import WebAppGateway
        self.gw = WebAppGateway(*a, **kw)

    def serve(self, post):
        from google.appengine.ext import webapp
        r = Reply()
        body = post.body
        if post.reset is not None:
            body = IOError('Connection reset by peer')
        req = webapp.Request(post.method, body, post.headers)
        resp = webapp.Response()
        try:
            # what webapp.WSGIApplication.__call__ does
            handler = self.gw()
            handler.initialize(req, resp)
            m = getattr(handler, post.method.lower(), None)
            if m is None:
                # webapp's RequestHandler answers these itself
                handler.error(405)
            else:
                m()
            r.starts = r.finishes = 1
            code, msg = resp.status
            r.status = '%d %s' % (code, msg)
            body = resp.out.getvalue()
            if isinstance(body, unicode):
                body = body.encode('utf-8')
            declared = [v for k, v in resp.headers.items()
                        if k.lower() == 'content-length']
            if declared and declared[0] != str(len(body)):
                r.problems.append('Content-Length %s for %d bytes'
                                  % (declared[0], len(body)))
            resp.headers['Content-Length'] = str(len(body))
            r.headers = list(resp.headers.items())
            r.body = body
        except (KeyboardInterrupt, SystemExit):
            raise
        except:
            return self.escape(r)
        return r


class Reactor(object):
    """
    The event loop of a simulated Twisted process: pending events fire in an
    order the simulator chooses.
    """

    def __init__(self, sim, fifo=False):
        from twisted.internet import defer, threads
        self.sim = sim
        self.fifo = fifo
        self.events = []         # [(what, f, args)]
        self.order = []
        threads.reactor = self
        del defer.handled[:]
        del defer.made[:]

        def gone():
            threads.reactor = None
            del defer.handled[:]
            del defer.made[:]
        sim.on_cleanup(gone)

    def call(self, what, f, *a):
        self.events.append((what, f, a))

    def in_thread(self, d, f, a, kw):
        from twisted.internet import defer

        def work():
            try:
                r = f(*a, **kw)
            except (core.Violation, core.HarnessError):
                raise
            except:
                r = defer.Failure()
                if isinstance(r.value, (core.Violation, core.HarnessError,
                                        core.TapeTooLong)):
                    raise r.value
                self.call('thread-error', d.errback, r)
            else:
                self.call('thread-result', d.callback, r)
        if not self.fifo and self.sim.chance(15):
            # the thread gets to run before its creator goes on
            work()
        else:
            self.call('thread', work)

    def step(self):
        i = 0 if self.fifo else self.sim.choose(len(self.events))
        what, f, a = self.events.pop(i)
        self.order.append(i)
        self.sim.steps += 1
        self.sim.now += 0.001 * (1 + i)
        f(*a)
        return what

    def run(self, limit=2000):
        while self.events:
            limit -= 1
            if limit < 0:
                raise core.HarnessError('reactor does not settle')
            self.step()


class TwistedRequest(object):
    """twisted.web.server.Request as far as the gateway can tell"""

    def __init__(self, post, reply, reactor):
        self.method = post.method
        self.content = StringIO.StringIO(post.body)
        self.reply = reply
        self.reactor = reactor
        self.code = 200
        self.finished = 0
        self.startedWriting = 0
        self._disconnected = False
        self.hdrs = {}
        self.late = 0            # things attempted after the client left
        self.finish_calls = 0
        self.post = post

    def setResponseCode(self, code, message=None):
        self.code = code

    def setHeader(self, k, v):
        self.hdrs[k.lower()] = (k, v)

    def getHeader(self, k):
        return self.post.headers.get(k)

    def disconnect(self):
        self._disconnected = True

    def write(self, data):
        if self.finished:
            self.reply.problems.append('write after finish')
            raise RuntimeError('Request.write called on a request after '
                               'Request.finish was called.')
        if self._disconnected:
            self.late += 1
            return
        if not isinstance(data, str):
            self.reply.problems.append('write(%s)' % type(data).__name__)
            raise TypeError('Data must not be unicode')
        if not self.startedWriting:
            self.startedWriting = 1
            self.reply.starts += 1
            self.reply.status = '%d x' % self.code
            self.reply.headers = [v for _, v in sorted(self.hdrs.items())]
        self.reply.body += data

    def finish(self):
        self.finish_calls += 1
        if self._disconnected:
            self.late += 1
            raise RuntimeError('Request.finish called on a request after its '
                               'connection was lost; use Request.notifyFinish '
                               'to keep track of this.')
        if self.finished:
            self.reply.finishes += 1
            self.reply.problems.append('finished twice')
            raise RuntimeError('Request.finish called on a request after '
                               'Request.finish was called.')
        if not self.startedWriting:
            self.write('')
        self.finished = 1
        self.reply.finishes += 1
        self.reply.pending = False


class Twisted(Front):
    name = 'twisted'

    def __init__(self, *a, **kw):
        from pyamf.remoting.gateway.twisted import TwistedGateway
        self.reactor = kw.pop('reactor')
        self.gw = TwistedGateway(*a, **kw)

    def begin(self, post):
        """Starts serving; the reply fills in as the reactor runs."""
        from twisted.web import server
        r = Reply()
        r.pending = True
        req = TwistedRequest(post, r, self.reactor)
        r.request = req
        try:
            res = self.gw.render(req)
        except server.UnsupportedMethod:
            r.starts = r.finishes = 1
            r.pending = False
            r.status = '405 Method Not Allowed'
            r.headers = [('Content-Type', 'text/html')]
            r.body = '405'
            return r
        except (KeyboardInterrupt, SystemExit):
            raise
        except:
            r.pending = False
            return self.escape(r)
        if res is not server.NOT_DONE_YET:
            req.write(res)
            req.finish()
        return r

    def serve(self, post):
        r = self.begin(post)
        self.reactor.run()
        return r


FRONTS = {'wsgi': Wsgi, 'django': Django, 'google': Google,
          'twisted': Twisted}


# the gateway is not told whether to expose the request
DEFAULT = object()


def make(name, sim, *a, **kw):
    """A gateway behind the named front end, expose_request off."""
    if kw.setdefault('expose_request', False) is DEFAULT:
        del kw['expose_request']
    if name == 'twisted' and 'reactor' not in kw:
        kw['reactor'] = Reactor(sim)
    return FRONTS[name](*a, **kw)


# ---------------------------------------------------------------------------
# the client's HTTP library

class Fetched(object):
    """What urllib2.urlopen returns."""

    def __init__(self, url, headers, body, reset=None):
        self.url = url
        self.f = StringIO.StringIO(body)
        self.reset = reset       # reading past this many bytes fails
        self.msg = mimetools.Message(StringIO.StringIO(
            ''.join(['%s: %s\r\n' % h for h in headers]) + '\r\n'))
        self.declared = None
        self.closed = False
        for k, v in headers:
            if k.lower() == 'content-length' and v.isdigit():
                self.declared = int(v)

    def info(self):
        return self.msg

    def geturl(self):
        return self.url

    def read(self, n=-1):
        if self.closed:
            return ''
        limit = len(self.f.getvalue())
        if self.declared is not None:
            limit = min(limit, self.declared)
        if n is None or n < 0:
            n = limit
        n = min(n, limit - self.f.tell())
        if self.reset is not None and self.f.tell() + n > self.reset:
            raise IOError('Connection reset by peer')
        return self.f.read(n)

    def close(self):
        self.closed = True


def http_error(url, code, headers, body):
    f = Fetched(url, headers, body)
    return urllib2.HTTPError(url, code, 'sim', f.info(), f.f)


def gz(data):
    out = StringIO.StringIO()
    g = gzip.GzipFile(fileobj=out, mode='wb', mtime=0)
    g.write(data)
    g.close()
    return out.getvalue()
