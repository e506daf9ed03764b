# The network between pyamf's client and a server: urllib2 and httplib are
# real, the sockets below them are the simulator's.
import errno
import httplib
import socket
import StringIO
import urllib2

import core
import web


class Plan(object):
    """What happens to one connection."""

    def __init__(self):
        self.refuse = False
        self.send_reset = None    # the connection resets after n sent bytes
        self.request_cut = None   # n bytes of the request body arrive
        self.deliver = 1          # times the server gets the request
        self.late = False         # ... some time after the client gave up
        self.timeout = False      # no answer in time
        self.answer = 0           # which delivery's answer is returned
        self.rewrite = None       # f(raw answer) -> raw answer
        self.cut = None           # the answer ends after n bytes
        self.reset = None         # the connection resets after n bytes


def raw(reply, version='HTTP/1.1'):
    """A Reply as the bytes a web server sends."""
    out = [str('%s %s\r\n' % (version, reply.status))]
    names = [k.lower() for k, v in reply.headers]
    for k, v in reply.headers:
        out.append(str('%s: %s\r\n' % (k, v)))
    if 'connection' not in names:
        out.append('Connection: close\r\n')
    return ''.join(out) + '\r\n' + reply.body


def split(data):
    """(status line, [(name, value)], body) of raw answer bytes"""
    head, _, body = data.partition('\r\n\r\n')
    lines = head.split('\r\n')
    return lines[0], [tuple(l.split(': ', 1)) for l in lines[1:]], body


def join(status, headers, body):
    return '\r\n'.join([status] + ['%s: %s' % h for h in headers]) + \
        '\r\n\r\n' + body


def set_header(headers, name, value):
    """value None removes"""
    out = [h for h in headers if h[0].lower() != name.lower()]
    if value is not None:
        out.append((name, value))
    return out


class Net(object):
    """
    server(Post, host) -> Reply.  next_plan() is asked for a Plan when a
    connection is made.
    """

    def __init__(self, sim, server):
        self.sim = sim
        self.server = server
        self.next_plan = Plan
        self.late = []           # requests still under way
        self.answers = []        # raw answers, by connection
        self.seen = []           # (method, url path, headers, body) received
        net = self

        class Connection(httplib.HTTPConnection):
            def connect(self):
                plan = net.next_plan()
                if plan.refuse:
                    raise socket.error(errno.ECONNREFUSED,
                                       'Connection refused')
                self.sock = Socket(net, plan, self.host if self.port == 80
                                   else '%s:%s' % (self.host, self.port))

        class Handler(urllib2.HTTPHandler):
            def http_open(self, req):
                return self.do_open(Connection, req)

        self.director = urllib2.OpenerDirector()
        for h in (Handler(), urllib2.HTTPDefaultErrorHandler(),
                  urllib2.HTTPRedirectHandler(),
                  urllib2.HTTPErrorProcessor()):
            self.director.add_handler(h)

    def opener(self, request):
        return self.director.open(request)

    def arrive(self, host, data, cut=None):
        """A request reaches the server; returns the raw answer."""
        head, _, body = data.partition('\r\n\r\n')
        lines = head.split('\r\n')
        method, path, version = lines[0].split(' ')
        headers = [tuple(l.split(': ', 1)) for l in lines[1:]]
        d = dict((k.lower(), v) for k, v in headers)
        if cut is not None:
            body = body[:cut]
        post = web.Post(body, method=method,
                        length=d.get('content-length'), headers=d, path=path)
        self.seen.append((host, method, path, headers, body))
        reply = self.server(post, host)
        if isinstance(reply, str):
            return reply
        p = reply.validate()
        self.sim.check(not p, 'http-response', 'server: %s', '; '.join(p))
        return raw(reply)

    def deliver_late(self):
        """A request that was under way arrives now."""
        if not self.late:
            return
        host, data = self.late.pop(self.sim.choose(len(self.late)))
        self.sim.fault('late-request')
        self.arrive(host, data)


class Socket(object):
    def __init__(self, net, plan, host):
        self.net = net
        self.plan = plan
        self.host = host
        self.out = ''
        self.closed = False

    def sendall(self, data):
        p = self.plan
        self.out += data
        if p.send_reset is not None and len(self.out) > p.send_reset:
            raise socket.error(errno.ECONNRESET, 'Connection reset by peer')

    def settimeout(self, t):
        pass

    def close(self):
        self.closed = True

    def makefile(self, mode='rb', bufsize=-1):
        p = self.plan
        net = self.net
        if p.late:
            net.late.append((self.host, self.out))
        answers = []
        for _ in range(p.deliver):
            answers.append(net.arrive(self.host, self.out, p.request_cut))
        if p.timeout or not answers:
            return Incoming('', 0, socket.timeout('timed out'))
        data = answers[p.answer % len(answers)]
        net.answers.append(data)
        if p.rewrite is not None:
            data = p.rewrite(data)
        if p.reset is not None:
            return Incoming(data, p.reset, socket.error(
                errno.ECONNRESET, 'Connection reset by peer'))
        if p.cut is not None:
            data = data[:p.cut]
        return Incoming(data, None, None)


class Incoming(object):
    """The receiving side of a connection."""

    def __init__(self, data, limit, error):
        self.f = StringIO.StringIO(data)
        self.limit = limit
        self.error = error

    def _may(self, n):
        if self.limit is not None and self.f.tell() + n > self.limit:
            raise self.error

    def read(self, n=-1):
        left = len(self.f.getvalue()) - self.f.tell()
        if n is None or n < 0:
            self._may(left + 1 if self.limit is not None else left)
            return self.f.read()
        self._may(min(n, left + 1 if self.limit is not None else left))
        return self.f.read(n)

    def readline(self, n=-1):
        pos = self.f.tell()
        line = self.f.readline(n)
        if self.limit is not None and self.f.tell() > self.limit or (
                self.limit is not None and not line):
            self.f.seek(pos)
            raise self.error
        return line

    def close(self):
        pass
