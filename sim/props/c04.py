# C04: a remote call returns its own result or raises, whatever the network
# does.
import socket

import pyamf
from pyamf import remoting
from pyamf.remoting import client

import core
import lab
import net
import simclock
import values
import web


def setup():
    simclock.install()
    web.setup()


class OwnError(Exception):
    "the caller's class for a code"


#: faults after which the call may still succeed, but only with its own result
HARD = ['refuse', 'drop-request', 'drop-response', 'late-request',
        'cut-request', 'cut-request-declared', 'send-reset', 'cut-response',
        'cut-response-undeclared', 'reset-response', 'stale-response',
        'bad-gateway', 'html-200', 'empty-200', 'gzip-cut', 'length-short',
        'garbage-status', 'redirect', 'no-content-type', 'cut-chunked',
        'gzip-undeclared', 'gzip-declared-plain', 'answer-swapped-type',
        'retry-refused', 'forbidden']
#: what the network may do without the call failing
BENIGN = ['gzip', 'no-length', 'chunked', 'type-parameters',
          'duplicate-request', 'duplicate-late', 'http10', 'header-case',
          'extra-headers']


class App(object):
    """Services that log what they did for each call."""

    def __init__(self, sim):
        self.sim = sim
        self.results = {}        # token -> [(outcome, canon)]
        self.count = 0
        self.problem = None
        self.relays = 0

    def token(self, token, args, f):
        self.count += 1
        sent = self.sent.get(token)
        got = values.canon(list(args))
        if got != sent:
            self.problem = (token, got, sent)
        try:
            r = f()
        except:                   # old-style instances too
            self.results.setdefault(token, []).append(('error', None))
            raise
        self.results.setdefault(token, []).append(('value', values.canon(r)))
        return r

    def services(self):
        app = self
        made = {}

        def echo(token, *args):
            return app.token(token, args, lambda: list(args))

        def count(token, *args):
            return app.token(token, args, lambda: [token, app.count])

        def first(token, *args):
            return app.token(token, args,
                             lambda: args[0] if args else None)

        def fail(token, kind):
            def f():
                raise lab.ERR[kind][1]()
            return app.token(token, (kind,), f)

        def nothing(token, *args):
            return app.token(token, args, lambda: None)

        def items(token, *args):
            # what a generator yields arrives as a list
            app.token(token, args, lambda: list(args))
            return (x for x in args)

        def unencodable(token, *args):
            return app.token(token, args, lambda: lab.NotMine())

        def relay(token, *args):
            # the service is itself a client
            def f():
                app.relays += 1
                inner = u'%s.%d' % (token, app.relays)
                app.sent[inner] = values.canon(list(args))
                return app.inner.getService('echo')(inner, *args)
            return app.token(token, args, f)

        class Svc(object):
            pass
        for f in (relay, echo, items, count, first, fail, nothing, unencodable):
            made[f.__name__] = f
            setattr(Svc, f.__name__, staticmethod(f))
        made['svc'] = Svc()
        made['deep.name'] = Svc
        return made


def run(sim):
    values.register_all()
    simclock.use(sim, lambda: 1300000000.0)
    name = sim.pick(['wsgi', 'wsgi', 'django', 'google', 'twisted'])
    app = App(sim)
    app.sent = {}
    # a strict side refuses the lengths (0) a side that is not writes
    strict = sim.chance(20)
    app.gate = None
    kw = {}
    if sim.chance(20):
        app.gate = (sim.pick(['user', 'jos\xc3\xa9', '']),
                    sim.pick(['secret', 'p\xc3\xa5ss', '']))
        kw['authenticator'] = lambda u, p: (u, p) == tuple(
            [x.decode('utf-8') for x in app.gate])
    front = web.make(name, sim, app.services(), strict=strict,
                     debug=sim.chance(20), **kw)
    inner = web.make('wsgi', sim, app.services(), strict=strict)
    n = net.Net(sim, lambda post, host: (
        inner if host == 'inner' else front).serve(post))
    log = None
    if sim.chance(30):
        log = lab.logger(sim)
    clients = []
    for _ in range(1 + sim.small(1)):
        c = client.RemotingService(
            'http://sim/gw', amf_version=sim.pick([0, 3]),
            strict=strict, logger=log, opener=n.opener)
        c.known = True
        if app.gate is not None:
            c.known = sim.chance(75)
            if c.known:
                c.setCredentials(*app.gate)
            elif sim.chance(60):
                c.setCredentials(app.gate[0], 'wrong')
        c.history = []           # raw answers this client got
        clients.append(c)
    app.inner = client.RemotingService('http://inner/gw', strict=strict,
                                       amf_version=clients[0].amf_version,
                                       opener=n.opener)
    if sim.chance(30):
        pyamf.add_error_class(OwnError, 'App.Error')
    sim.log('%s, clients %s', name, [c.amf_version for c in clients])
    w = World(sim, n, app, clients)
    for k in range(1 + sim.small(4)):
        w.call(sim.pick(clients), k)
    # the network is healthy again: each client's next call succeeds
    w.healthy = True
    while n.late:
        n.deliver_late()
    for c in clients:
        w.call(c, 'end')
    sim.state((name, tuple(w.kinds)))


class World(object):
    def __init__(self, sim, n, app, clients):
        self.sim = sim
        self.net = n
        self.app = app
        self.clients = clients
        self.healthy = False
        self.kinds = []
        self.number = 0

    def plan(self, c):
        """(kind, Plan)"""
        sim = self.sim
        p = net.Plan()
        k = 0 if self.healthy else sim.weighted([35, 25, 40])
        if k == 0:
            return None, p
        kind = sim.pick(BENIGN if k == 1 else HARD)
        if kind == 'stale-response' and not c.history:
            kind = 'drop-response'
        f = getattr(self, 'do_' + kind.replace('-', '_'))
        f(p, c)
        return kind, p

    def rewriting(self, p, f):
        def g(data):
            return net.join(*f(*net.split(data)))
        p.rewrite = g

    # -- faults ----------------------------------------------------------
    def do_refuse(self, p, c):
        p.refuse = True

    def do_drop_request(self, p, c):
        p.deliver = 0

    def do_drop_response(self, p, c):
        p.timeout = True

    def do_late_request(self, p, c):
        p.deliver = 0
        p.late = True

    def do_duplicate_late(self, p, c):
        p.late = True

    def do_duplicate_request(self, p, c):
        p.deliver = 2
        p.answer = self.sim.choose(2)

    def do_cut_request(self, p, c):
        p.request_cut = self.sim.choose(150)

    def do_cut_request_declared(self, p, c):
        # something in between shortened the request and its length
        n = self.sim.choose(150)
        p.request_cut = n
        p.redeclare = True

    def do_send_reset(self, p, c):
        p.send_reset = self.sim.choose(400)

    def do_cut_response(self, p, c):
        n = self.sim.choose(400)
        p.rewrite = lambda data: data[:min(n, len(data) - 1)]

    def do_cut_response_undeclared(self, p, c):
        n = self.sim.choose(250)
        self.rewriting(p, lambda s, h, b: (
            s, net.set_header(h, 'Content-Length', None),
            b[:min(n, len(b) - 1)]))

    def do_length_short(self, p, c):
        n = self.sim.choose(250)
        self.rewriting(p, lambda s, h, b: (
            s, net.set_header(h, 'Content-Length',
                              str(min(n, len(b) - 1))), b))

    def do_reset_response(self, p, c):
        p.reset = self.sim.choose(400)

    def do_stale_response(self, p, c):
        old = self.sim.pick(c.history)
        p.rewrite = lambda data: old

    def do_bad_gateway(self, p, c):
        code = self.sim.pick(['502 Bad Gateway', '503 Service Unavailable',
                              '504 Gateway Timeout', '404 Not Found'])
        amf = self.sim.choose(2)
        self.rewriting(p, lambda s, h, b: (
            'HTTP/1.1 ' + code, h if amf else
            [('Content-Type', 'text/html')], b if amf else '<html>'))

    def do_forbidden(self, p, c):
        # refused by something in front of the server
        p.deliver = 0
        p.canned = ('HTTP/1.1 403 Forbidden\r\nContent-Type: text/html\r\n'
                    'Content-Length: 2\r\n\r\nno')

    def do_html_200(self, p, c):
        self.rewriting(p, lambda s, h, b: (
            s, [('Content-Type', 'text/html')], '<html>login</html>'))

    def do_answer_swapped_type(self, p, c):
        self.rewriting(p, lambda s, h, b: (
            s, net.set_header(h, 'Content-Type', 'application/x-amfx'), b))

    def do_empty_200(self, p, c):
        self.rewriting(p, lambda s, h, b: (
            s, net.set_header(h, 'Content-Length', '0'), ''))

    def do_garbage_status(self, p, c):
        g = self.sim.pick(['', 'HTTP/1.1', 'ICY 200 OK', 'HTTP/1.1 2x0 OK',
                           '\x00\x03\x00\x00'])
        self.rewriting(p, lambda s, h, b: (g, h, b))

    def do_redirect(self, p, c):
        code = self.sim.pick(['301 Moved', '302 Found', '307 Temporary'])
        where = self.sim.pick(['http://sim/gw', 'http://sim/other', '/x'])
        p.deliver = 0
        p.canned = ('HTTP/1.1 %s\r\nLocation: %s\r\nContent-Length: 0\r\n'
                    '\r\n' % (code, where))

    def do_retry_refused(self, p, c):
        p.refuse = True

    def do_no_content_type(self, p, c):
        self.rewriting(p, lambda s, h, b: (
            s, net.set_header(h, 'Content-Type', None), b))

    def do_gzip(self, p, c):
        how = self.sim.pick(['gzip', 'GZIP', ' gzip '])
        self.rewriting(p, lambda s, h, b: self.zipped(s, h, b, how, None))

    def do_gzip_cut(self, p, c):
        n = self.sim.choose(200)
        self.rewriting(p, lambda s, h, b: self.zipped(s, h, b, 'gzip', n))

    def do_gzip_undeclared(self, p, c):
        def f(s, h, b):
            s, h, b = self.zipped(s, h, b, 'gzip', None)
            return s, net.set_header(h, 'Content-Encoding', None), b
        self.rewriting(p, f)

    def do_gzip_declared_plain(self, p, c):
        self.rewriting(p, lambda s, h, b: (
            s, net.set_header(h, 'Content-Encoding', 'gzip'), b))

    def zipped(self, s, h, b, how, cut):
        b = web.gz(b)
        if cut is not None:
            b = b[:min(cut, len(b) - 1)]
        h = net.set_header(h, 'Content-Encoding', how)
        return s, net.set_header(h, 'Content-Length', str(len(b))), b

    def do_no_length(self, p, c):
        self.rewriting(p, lambda s, h, b: (
            s, net.set_header(h, 'Content-Length', None), b))

    def do_chunked(self, p, c):
        n = 1 + self.sim.choose(60)
        self.rewriting(p, lambda s, h, b: self.chunked(s, h, b, n))

    def do_cut_chunked(self, p, c):
        n = 1 + self.sim.choose(60)
        cut = self.sim.choose(300)

        def f(s, h, b):
            s, h, b = self.chunked(s, h, b, n)
            return s, h, b[:min(cut, len(b) - 8)]
        self.rewriting(p, f)

    def chunked(self, s, h, b, n):
        h = net.set_header(h, 'Content-Length', None)
        h = net.set_header(h, 'Transfer-Encoding', 'chunked')
        out = []
        for i in range(0, len(b), n):
            x = b[i:i + n]
            out.append('%x\r\n%s\r\n' % (len(x), x))
        return s, h, ''.join(out) + '0\r\n\r\n'

    def do_type_parameters(self, p, c):
        v = self.sim.pick(['application/x-amf; charset=utf-8',
                           'application/x-amf ;x=y', ' application/x-amf'])
        self.rewriting(p, lambda s, h, b: (
            s, net.set_header(h, 'Content-Type', v), b))

    def do_http10(self, p, c):
        self.rewriting(p, lambda s, h, b: (
            s.replace('HTTP/1.1', 'HTTP/1.0'), h, b))

    def do_header_case(self, p, c):
        self.rewriting(p, lambda s, h, b: (
            s, [(k.upper(), v) for k, v in h], b))

    def do_extra_headers(self, p, c):
        self.rewriting(p, lambda s, h, b: (
            s, h + [('Set-Cookie', 'a=b'), ('Via', '1.1 proxy'),
                    ('X-Empty', '')], b))

    def install(self, plan):
        """The next connection meets plan; returns what undoes it."""
        plans = [plan]

        def next_plan():
            return plans.pop(0) if plans else net.Plan()
        self.net.next_plan = next_plan
        arrive = self.net.arrive
        if getattr(plan, 'redeclare', False):
            self.net.arrive = lambda host, data, cut=None: arrive(
                host, redeclared(data, cut))
        if getattr(plan, 'canned', None):
            plan.deliver = 1
            self.net.arrive = lambda host, data, cut=None: plan.canned
        del self.net.answers[:]
        del self.net.seen[:]

        def restore():
            self.net.arrive = arrive
            n = len([x for x in self.net.seen
                     if x[0] == 'sim' and x[1] == 'POST'])
            self.sim.check(n <= plan.deliver, 'sent-again', 'the client sent '
                           'what it was asked to send once %d times', n)
        return restore

    # -- several at once ----------------------------------------------------
    def batch(self, c):
        sim = self.sim
        svc = c.getService('svc', auto_execute=False)
        sent = []
        hopeless = not c.known
        # ids of one and of two digits
        for _ in range(2 + sim.small(3) + (8 if sim.chance(8) else 0)):
            self.number += 1
            token = u'T%d' % self.number
            gen = values.Gen(sim, c.amf_version, budget=5)
            method = sim.pick(['echo', 'items', 'count', 'first', 'fail',
                               'nothing', 'missing'] if not self.healthy
                              else ['echo'])
            args = [unicode(sim.pick(lab.ERRORS)[0])] if method == 'fail' \
                else [gen.value(1) for _ in range(sim.small(2))]
            self.app.sent[token] = values.canon(args)
            sent.append((token, method, args,
                         getattr(svc, method)(token, *args)))
        kind, plan = self.plan(c)
        self.kinds.append(('batch', len(sent), kind))
        sim.log('batch %s: %s', [x[:2] for x in sent], kind)
        if kind:
            sim.fault(kind)
            sim.nontrivial = True
        restore = self.install(plan)
        try:
            try:
                env = c.execute()
            finally:
                restore()
                if self.net.answers and kind != 'stale-response':
                    c.history.append(self.net.answers[-1])
        except Exception as e:
            if isinstance(e, (core.Violation, core.HarnessError,
                              core.TapeTooLong)):
                raise
            sim.log('raised %s', type(e).__name__)
            sim.check(kind in HARD, 'healthy-call', 'batch (network: %s) '
                      'raised %s: %s', kind, type(e).__name__, core._safe(e))
            return
        for token, method, args, w in sent:
            try:
                w.setResponse(env[w.id])
                got = w.result
            except Exception as e:
                self.raised(token, method, args, kind, hopeless, e)
            else:
                self.returned(token, method, kind, c.known, got)
        self.check_services(c, [x[0] for x in sent])

    # -- one call -----------------------------------------------------------
    def call(self, c, k):
        sim = self.sim
        if self.net.late and sim.chance(40):
            self.net.deliver_late()
        if sim.chance(20):
            self.batch(c)
            return
        self.number += 1
        token = u'T%d' % self.number
        gen = values.Gen(sim, c.amf_version, budget=8)
        how = 0 if self.healthy else sim.weighted(
            [40, 15, 10, 20, 6, 5, 5,
             5 if c.amf_version == self.clients[0].amf_version else 0, 6])
        method = ['echo', 'count', 'first', 'fail', 'nothing', 'unencodable',
                  'missing', 'relay', 'items'][how]
        if method == 'fail':
            e = sim.pick(lab.ERRORS)
            args = [unicode(e[0])]
        else:
            args = [gen.value(1) for _ in range(sim.small(3))]
        bad_args = not self.healthy and sim.chance(5)
        self.app.sent[token] = values.canon(args)
        kind, plan = self.plan(c)
        self.kinds.append((method, kind))
        sim.log('call %s %s(%s) v%d: %s', token, method,
                ', '.join([type(a).__name__ for a in args]), c.amf_version,
                kind)
        if kind:
            sim.fault(kind)
            sim.nontrivial = True
        restore = self.install(plan)
        proxy = c.getService(sim.pick(['svc', 'deep.name', '']) or method)
        if bad_args:
            args = args + [lab.NotMine()]
        try:
            try:
                if proxy._name == method:
                    got = proxy(token, *args)
                else:
                    got = getattr(proxy, method)(token, *args)
            finally:
                restore()
                if self.net.answers and kind != 'stale-response':
                    c.history.append(self.net.answers[-1])
        except (core.Violation, core.HarnessError, core.TapeTooLong,
                KeyboardInterrupt, SystemExit):
            raise
        except Exception as e:
            self.raised(token, method, args, kind,
                        bad_args or not c.known, e)
        else:
            self.returned(token, method, kind, c.known, got)
        self.check_services(c, [token])

    def check_services(self, c, tokens):
        sim = self.sim
        for token in tokens:
            if not c.known:
                sim.check(token not in self.app.results, 'credentials', 'call %s '
                          'ran without the right credentials', token)
        sim.check(self.app.problem is None, 'arguments', 'call %s reached '
                  'the service with other arguments: %s',
                  *(self.app.problem and (
                      self.app.problem[0],
                      values.diff(self.app.problem[2],
                                  self.app.problem[1])) or (0, 0)))

    def returned(self, token, method, kind, known, got):
        sim = self.sim
        did = self.app.results.get(token, [])
        sim.check(known, 'credentials', 'call %s without the right '
                  'credentials returned', token)
        c = values.canon(got)
        sim.log('returned')
        sim.check(('value', c) in did, 'own-result', 'call %s (%s, %s) '
                  'returned %s, the service %s', token, method, kind,
                  values.text(c), 'did not run' if not did else
                  '; '.join([r[0] if r[0] != 'value' else
                             'returned ' + values.text(r[1])
                             for r in did]))

    def raised(self, token, method, args, kind, hopeless, e):
        sim = self.sim
        sim.log('raised %s', type(e).__name__)
        if kind in HARD or hopeless or method in ('unencodable', 'missing'):
            return
        sim.check(method == 'fail', 'healthy-call', 'call %s (%s, network: '
                  '%s) raised %s: %s', token, method, kind,
                  type(e).__name__, core._safe(e))
        name, make, code, text = lab.ERR[args[0]]
        did = self.app.results.get(token, [])
        sim.check(('error', None) in did, 'own-error', 'call %s raised %s, '
                  'the service did not: %s', token, type(e).__name__,
                  core._safe(e))
        want = pyamf.ERROR_CLASS_MAP.get(code, remoting.RemotingError)
        if code is not None:
            sim.check(type(e) is want, 'error-class', 'call %s: %s of the '
                      'service surfaced as %s', token, code, type(e))
        if text is not None:
            sim.check(e.args and e.args[0] == text, 'error-message',
                      'call %s: %s with message %r surfaced as %r', token,
                      code, text, e.args)


def redeclared(data, cut):
    head, _, body = data.partition('\r\n\r\n')
    body = body[:cut]
    lines = ['Content-Length: %d' % len(body)
             if l.lower().startswith('content-length') else l
             for l in head.split('\r\n')]
    return '\r\n'.join(lines) + '\r\n\r\n' + body
