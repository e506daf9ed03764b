# C05: the client's request queue against a scripted server.
import struct

import pyamf
from pyamf import remoting
from pyamf.remoting import client

import core
import lab
import net
import simclock
import values
import web


def setup():
    simclock.install()
    web.setup()


BROKEN = ['refuse', 'drop', 'timeout', 'reset', 'cut', 'bad-gateway', 'html',
          'garbage', 'send-reset']
#: names of services and methods, with and without a method
NAMES = ['svc', 'svc.sub', 'echo', '']
METHODS = ['a', 'b', 'echo']


class Queued(object):
    """The model's view of a queued request."""

    def __init__(self, n, target, service, args, wrapper):
        self.n = n
        self.rid = u'/%d' % n
        self.target = target
        self.service = service
        self.args = args             # as passed
        self.canon = values.canon(list(args))
        self.wrapper = wrapper
        self.bad = self.repaired = False
        self.answer = None           # ('value' or 'error', ...) bound to it

    def __hash__(self):
        return self.n


class Model(object):
    """One client and what it must do."""

    def __init__(self, sim, client, url):
        self.sim = sim
        self.c = client
        self.url = url
        self.queue = []
        self.gone = []               # sent or removed
        self.number = 0
        self.headers = {}            # name -> (canon, required)
        self.http = {}
        self.services = []

    # -- what the server may answer with -----------------------------------
    def same(self):
        got = self.c.requests
        self.sim.check(
            [w for w in got] == [q.wrapper for q in self.queue],
            'queue', 'queued on the client: %s, must be: %s',
            [w.id for w in got], [q.rid for q in self.queue])
        for q in self.queue:
            w = q.wrapper
            self.sim.check(w.id == q.rid and str(w.service) == q.target and
                           values.canon(list(w.args)) == q.canon,
                           'queued', 'request %s became %s %s%r', q.rid, w.id,
                           w.service, w.args)
            self.sim.check(not hasattr(w, 'result'), 'pending',
                           'request %s, never sent, has a result', q.rid)
        for q in self.gone:
            if q.answer is None:
                self.sim.check(not hasattr(q.wrapper, 'result'), 'pending',
                               'request %s, never answered, has a result',
                               q.rid)


class Server(object):
    """Answers exchanges as scripted and records what arrives."""

    def __init__(self, sim):
        self.sim = sim
        self.arrived = []            # (url, http headers, envelope)
        self.script = None
        self.strict = False

    def serve(self, post, host):
        sim = self.sim
        url = 'http://%s%s' % (host, post.path)
        data = post.body
        version, count = struct.unpack('>HH', data[:4])
        env = remoting.decode(data, strict=self.strict)
        sim.check(len(env.headers) == count, 'header-count',
                  '%d headers announced, %d there', count, len(env.headers))
        sim.check(version == env.amfVersion, 'version', 'version')
        self.arrived.append((url, post.headers, env))
        script = self.script
        out = remoting.Envelope(env.amfVersion)
        for name, value in script.headers:
            out.headers[name] = value
        ids = list(env.keys())
        for i in script.order(ids):
            how = script.outcome(i)
            if how[0] == 'value':
                out[i] = remoting.Response(how[1])
            else:
                f = remoting.ErrorFault(code=how[1], description=how[2])
                out[i] = remoting.Response(f, remoting.STATUS_ERROR)
        body = remoting.encode(out, strict=self.strict).getvalue()
        r = web.Reply()
        r.status = '200 OK'
        r.headers = [('Content-Type', remoting.CONTENT_TYPE),
                     ('Content-Length', str(len(body)))]
        r.body = body
        return net.raw(r)


class Script(object):
    """How one exchange is answered."""

    def __init__(self, sim, n):
        self.sim = sim
        self.n = n
        self.headers = []
        self.outcomes = {}
        self.shuffle = sim.chance(60)
        self.omit = sim.chance(15)
        self.extra = sim.chance(15)
        self.omitted = set()

    def order(self, ids):
        sim = self.sim
        ids = list(ids)
        if self.extra:
            sim.fault('unknown-response')
            ids.append(sim.pick([u'/99999', u'/0', u'', u'onStatus',
                                 u'/1x']))
        if self.shuffle and len(ids) > 1:
            sim.fault('responses-reordered')
            sim.shuffle(ids)
        if self.omit and ids:
            gone = sim.pick(ids)
            sim.fault('response-omitted')
            ids.remove(gone)
            self.omitted.add(gone)
        return ids

    def outcome(self, i):
        if i not in self.outcomes:
            sim = self.sim
            text = u'r%d-%s' % (self.n, i)
            k = sim.weighted([75, 25])
            if k == 0:
                self.outcomes[i] = ('value', sim.pick(
                    [text, [text, i], {u'id': text}, pyamf.MixedArray(
                        {u'id': text})]))
            else:
                self.outcomes[i] = ('error', sim.pick(
                    [u'ValueError', u'Own.Code', u'Server.Call.Failed']),
                    text)
        return self.outcomes[i]


def run(sim):
    values.register_all()
    simclock.use(sim, lambda: 1300000000.0)
    server = Server(sim)
    n = net.Net(sim, server.serve)
    server.strict = sim.chance(30)
    log = None
    if sim.chance(20):
        log = lab.logger(sim)
    models = []
    for k in range(1 + sim.small(1)):
        url = 'http://' + sim.pick(['sim', 'h%d' % k, 'host.example'])
        if sim.chance(50):
            url += sim.pick([':8080', ''])
        url += sim.pick(['/gw', '/a/b', '/gw?x=1'])
        c = client.RemotingService(
            url, amf_version=sim.pick([0, 3]), strict=server.strict,
            logger=log, opener=n.opener,
            **({'referer': 'http://ref/'} if sim.chance(20) else {}))
        m = Model(sim, c, url)
        for _ in range(1 + sim.choose(3)):
            name = sim.pick(NAMES)
            auto = sim.chance(45)
            m.services.append((name, auto, c.getService(
                name, auto_execute=auto)))
        models.append(m)
    w = World(sim, n, server, models)
    for _ in range(6 + sim.choose(24)):
        m = sim.pick(models)
        w.step(m)
        for m in models:
            m.same()
    # the network is healthy now
    w.healthy = True
    for m in models:
        w.execute(m)
        m.same()
        sim.check(not m.c.requests, 'left', 'a successful exchange left %s '
                  'queued', [r.id for r in m.c.requests])
    sim.state((tuple(w.kinds),))


class World(object):
    def __init__(self, sim, n, server, models):
        self.sim = sim
        self.net = n
        self.server = server
        self.models = models
        self.healthy = False
        self.kinds = []
        self.exchanges = 0

    def args(self, m):
        sim = self.sim
        gen = values.Gen(sim, m.c.amf_version, budget=5)
        if sim.chance(40):
            # equal ones, so that removal by arguments is ambiguous
            return tuple([sim.pick([1, u'x', None])
                          for _ in range(sim.small(2))])
        return tuple([gen.value(1) for _ in range(sim.small(2))])

    def step(self, m):
        sim = self.sim
        k = sim.weighted([30, 15, 12, 10, 6, 8, 6, 5, 5, 3])
        if k == 0:
            self.add(m)
        elif k == 1:
            self.proxy(m)
        elif k == 2:
            self.execute(m)
        elif k == 3:
            self.remove(m)
        elif k == 4:
            self.remove_missing(m)
        elif k == 5:
            self.single(m)
        elif k == 6:
            self.lookup(m)
        elif k == 7:
            self.header(m)
        elif k == 8:
            self.http_header(m)
        else:
            self.bind_again(m)

    # -- queueing ----------------------------------------------------------
    def added(self, m, wrapper, target, service, args, bad=False):
        m.number += 1
        q = Queued(m.number, target, service, args, wrapper)
        q.bad = bad
        m.queue.append(q)
        self.sim.log('queued %s %s%r', q.rid, target, [type(a).__name__
                                                       for a in args])
        return q

    def target(self, m):
        """(service, target) to pass to addRequest"""
        sim = self.sim
        name, auto, proxy = sim.pick(m.services)
        k = sim.choose(4)
        if k == 0:
            t = sim.pick(['svc.a', 'echo', u'svc.a'])
            return t, str(t)
        if k == 1:
            return proxy, name
        method = sim.pick(METHODS)
        return getattr(proxy, method), '%s.%s' % (name, method)

    def add(self, m):
        service, target = self.target(m)
        args = self.args(m)
        bad = self.sim.chance(4)
        if bad:
            args += (Unsendable(),)
        w = m.c.addRequest(service, *args)
        self.added(m, w, target, service, args, bad)

    def proxy(self, m):
        sim = self.sim
        name, auto, proxy = sim.pick(m.services)
        args = self.args(m)
        if sim.chance(25):
            f, target = proxy, name
        else:
            method = sim.pick(METHODS)
            f, target = getattr(proxy, method), '%s.%s' % (name, method)
        if not auto:
            self.added(m, f(*args), target, None, args)
            return
        # travels at once and alone
        m.number += 1
        q = Queued(m.number, target, None, args, None)
        self.kinds.append('call')
        sim.log('call %s %s', q.rid, target)
        self.exchange(m, [q], lambda: f(*args), 'call')

    def remove(self, m):
        sim = self.sim
        if not m.queue:
            return
        q = sim.pick(m.queue)
        if sim.chance(50) or q.service is None or q.bad:
            m.c.removeRequest(q.wrapper)
        else:
            # the first request like it goes
            for other in m.queue:
                if other.service is not None and same_service(
                        other.service, q.service) and other.args == q.args:
                    break
            m.c.removeRequest(q.service, *q.args)
            q = other
        sim.log('removed %s', q.rid)
        m.queue.remove(q)
        m.gone.append(q)
        self.kinds.append('remove')

    def remove_missing(self, m):
        sim = self.sim
        k = sim.choose(4)
        if k == 0 and m.gone:
            what = (sim.pick(m.gone).wrapper,)
            if what[0] is None:
                return
        elif k == 1:
            what = ('no.such.service',)
        elif k == 2:
            what = ('svc.a', u'never used')
        else:
            others = [q for o in self.models if o is not m for q in o.queue]
            if not others:
                return
            what = (sim.pick(others).wrapper,)
        try:
            m.c.removeRequest(*what)
        except (LookupError, ValueError):
            sim.fault('remove-missing')
            return
        sim.check(False, 'remove-missing', 'a request that is not queued '
                  'was removed')

    def lookup(self, m):
        sim = self.sim
        for q in m.queue:
            sim.check(m.c.getRequest(q.rid) is q.wrapper, 'get-request',
                      'getRequest(%r) is another request', q.rid)
        for q in m.gone:
            try:
                m.c.getRequest(q.rid)
            except LookupError:
                continue
            sim.check(False, 'get-request', 'getRequest finds %s, which is '
                      'not queued', q.rid)

    def header(self, m):
        sim = self.sim
        k = sim.choose(3)
        name = sim.pick(['h1', u'h2', 'Credentials', 'S\xc3\xa9'])
        if k == 0:
            m.c.setCredentials('user', 'p\xc3\xa5ss')
            m.headers[u'Credentials'] = (values.canon(
                {u'userid': u'user', u'password': u'p\xe5ss'}), True)
            return
        value = values.Gen(sim, 0, budget=4).value(1)
        must = sim.chance(40)
        m.c.addHeader(name, value, must)
        if not isinstance(name, unicode):
            name = name.decode('utf-8')
        m.headers[name] = (values.canon(value), must)

    def http_header(self, m):
        sim = self.sim
        name = sim.pick(['X-A', 'X-B', 'Cookie'])
        if name in m.http and sim.chance(50):
            m.c.removeHTTPHeader(name)
            del m.http[name]
        else:
            m.http[name] = 'v%d' % sim.choose(100)
            m.c.addHTTPHeader(name, m.http[name])

    # -- exchanges -----------------------------------------------------------
    def execute(self, m):
        qs = list(m.queue)
        del m.queue[:]
        m.gone.extend(qs)
        self.sim.log('execute %s', [q.rid for q in qs])
        self.kinds.append('execute%d' % min(len(qs), 3))
        self.exchange(m, qs, m.c.execute, 'execute')

    def single(self, m):
        if not m.queue:
            return
        q = self.sim.pick(m.queue)
        m.queue.remove(q)
        m.gone.append(q)
        self.sim.log('execute_single %s', q.rid)
        self.kinds.append('single')
        self.exchange(m, [q], lambda: m.c.execute_single(q.wrapper), 'single')

    def exchange(self, m, qs, f, how):
        sim = self.sim
        self.exchanges += 1
        self.server.script = script = Script(sim, self.exchanges)
        plan = net.Plan()
        broken = None
        if not self.healthy and sim.chance(25):
            broken = sim.pick(BROKEN)
            self.damage(plan, broken)
            sim.fault(broken)
            self.kinds.append(broken)
        if self.healthy:
            for q in qs:
                if q.bad:
                    # the caller repaired the argument
                    q.bad = False
                    q.repaired = True
                    q.args[-1].ok = True
        unsendable = bool([q for q in qs if q.bad])
        if unsendable:
            sim.fault('unsendable-argument')
        effects = []
        if sim.chance(30):
            self.scripted_headers(m, script, effects)
        sim.nontrivial = sim.nontrivial or bool(broken) or script.shuffle
        plans = [plan]
        self.net.next_plan = lambda: plans.pop() if plans else net.Plan()
        del self.server.arrived[:]
        url, headers, http = m.url, dict(m.headers), dict(m.http)
        error = got = None
        try:
            got = f()
        except (core.Violation, core.HarnessError, core.TapeTooLong,
                KeyboardInterrupt, SystemExit):
            raise
        except Exception as e:
            error = e
        sim.log('%s', 'raised %s' % type(error).__name__ if error else
                'returned')
        sent = self.server.arrived
        want = 0 if unsendable or broken in ('refuse', 'drop', 'send-reset') \
            else 1
        sim.check(len(sent) == want, 'sent', '%s: %d envelopes reached the '
                  'server instead of %d (%s)', how, len(sent), want,
                  core._safe(error))
        if sent:
            self.check_sent(m, qs, sent[0], url, headers, http)
        if unsendable or broken:
            sim.check(error is not None, 'failed', '%s: the exchange failed '
                      '(%s), the caller was not told', how,
                      broken or 'unsendable')
            return
        for e in effects:
            e()
        self.check_answer(m, qs, script, how, got, error)

    def damage(self, p, kind):
        sim = self.sim
        if kind == 'refuse':
            p.refuse = True
        elif kind == 'drop':
            p.deliver = 0
        elif kind == 'timeout':
            p.timeout = True
        elif kind == 'reset':
            n = sim.choose(80)
            p.reset = n
        elif kind == 'cut':
            # the last byte of an answer always matters
            n = 1 + sim.choose(40)
            p.rewrite = lambda data: data[:-n]
        elif kind == 'send-reset':
            p.send_reset = sim.choose(100)
        elif kind == 'bad-gateway':
            p.rewrite = lambda data: data.replace('200 OK', '502 Bad', 1)
        elif kind == 'html':
            p.rewrite = lambda data: data.replace('x-amf', 'x-htm', 1)
        elif kind == 'garbage':
            p.rewrite = lambda data: 'garbage\r\n\r\n' + data

    def scripted_headers(self, m, script, effects):
        """headers with which the server steers the client"""
        sim = self.sim
        k = sim.choose(4)
        if k == 0:
            x = sim.pick([u';jsessionid=4', u'?s=1', u'/sub', u''])
            script.headers.append((remoting.APPEND_TO_GATEWAY_URL, x))
            sim.fault('append-to-url')

            def f():
                m.url = m.url + str(x)
            effects.append(f)
        elif k == 1:
            x = sim.pick([u'http://other/gw', u'http://sim/new',
                          u'http://sim:81/gw?y=2'])
            script.headers.append((remoting.REPLACE_GATEWAY_URL, x))
            sim.fault('replace-url')

            def f():
                m.url = str(x)
            effects.append(f)
        if k >= 2 or sim.chance(30):
            d = {}
            for _ in range(1 + sim.small(1)):
                d[sim.pick([u'h1', u'p1', u'p\xe9'])] = sim.pick(
                    [u'v%d' % self.exchanges, self.exchanges, [1, u'x'],
                     None, False])
            script.headers.append((remoting.REQUEST_PERSISTENT_HEADER, d))
            sim.fault('persistent-header')

            def g():
                for k, v in d.items():
                    m.headers[k] = (values.canon(v), m.headers.get(
                        k, (None, False))[1])
            effects.append(g)
        if sim.chance(20):
            script.headers.append((u'Other', u'ignored'))

    def check_sent(self, m, qs, sent, url, headers, http):
        sim = self.sim
        at, got_http, env = sent
        sim.check(at == url, 'url', 'the exchange went to %s instead of %s',
                  at, url)
        sim.check(list(env.keys()) == [q.rid for q in qs], 'ids',
                  'the envelope carries %s instead of %s', list(env.keys()),
                  [q.rid for q in qs])
        for q in qs:
            r = env[q.rid]
            body = list(r.body)
            if q.repaired:
                sim.check(len(body) == len(q.args), 'arguments',
                          'request %s: %r', q.rid, body)
                body[-1] = q.args[-1]
            c = values.canon(body)
            sim.check(r.target == q.target, 'target', 'request %s calls %r '
                      'instead of %r', q.rid, r.target, q.target)
            sim.check(c == q.canon, 'arguments', 'request %s: %s', q.rid,
                      values.diff(q.canon, c))
        got = dict((k, (values.canon(v), env.headers.is_required(k)))
                   for k, v in env.headers.iteritems())
        sim.check(got == headers, 'headers', 'headers of the envelope: %s, '
                  'must be %s', sorted(got.items()), sorted(headers.items()))
        for k, v in http.items():
            sim.check(got_http.get(k.lower()) == v, 'http-header',
                      'HTTP header %s is %r instead of %r', k,
                      got_http.get(k.lower()), v)
        for k in ('X-A', 'X-B', 'Cookie'):
            if k not in http:
                sim.check(k.lower() not in got_http, 'http-header',
                          'HTTP header %s was removed', k)

    def check_answer(self, m, qs, script, how, got, error):
        sim = self.sim
        if how == 'execute':
            sim.check(error is None, 'failed', 'execute raised %s: %s',
                      type(error).__name__, core._safe(error))
            for q in qs:
                if q.rid in script.omitted:
                    sim.check(q.rid not in got, 'answer', 'request %s, not '
                              'answered, has an answer', q.rid)
                    continue
                self.bind(m, q, got[q.wrapper.id], script)
            return
        q = qs[0]
        if q.rid in script.omitted:
            sim.check(error is not None, 'answer', 'request %s got no '
                      'response; the caller got %r', q.rid, got)
            return
        outcome = script.outcome(q.rid)
        if how == 'single':
            sim.check(error is None, 'failed', 'execute_single raised %s: %s',
                      type(error).__name__, core._safe(error))
            self.bind(m, q, got, script)
        elif outcome[0] == 'value':
            sim.check(error is None, 'failed', 'call raised %s: %s',
                      type(error).__name__, core._safe(error))
            a, b = values.canon(outcome[1]), values.canon(got)
            sim.check(a == b, 'answer', 'call %s: %s', q.rid,
                      values.diff(a, b))
        else:
            sim.check(error is not None and error.args[:1] == (outcome[2],),
                      'answer', 'call %s must raise %r: %r, %r', q.rid,
                      outcome[2], got, error)

    def bind(self, m, q, response, script):
        """The caller gives a request its response."""
        sim = self.sim
        outcome = script.outcome(q.rid)
        q.answer = outcome
        try:
            q.wrapper.setResponse(response)
        except Exception as e:
            sim.check(outcome[0] == 'error' and e.args[:1] == (outcome[2],),
                      'answer', 'request %s: %s raised %r', q.rid,
                      outcome, e)
        else:
            sim.check(outcome[0] == 'value', 'answer', 'request %s: %r must '
                      'raise', q.rid, outcome)
        self.check_bound(q)

    def check_bound(self, q):
        sim = self.sim
        r = q.wrapper.result
        if q.answer[0] == 'error':
            sim.check(isinstance(r, remoting.ErrorFault) and
                      r.description == q.answer[2], 'answer',
                      'request %s has result %r', q.rid, r)
            return
        a, b = values.canon(q.answer[1]), values.canon(r)
        sim.check(a == b, 'answer', 'request %s: %s', q.rid,
                  values.diff(a, b))

    def bind_again(self, m):
        """answers stay with their requests"""
        for q in m.gone:
            if q.answer is not None:
                self.check_bound(q)


def same_service(a, b):
    return a is b or isinstance(a, basestring) and a == b


class Unsendable(object):
    "cannot be encoded until it is repaired"
    class __amf__:
        static = ('value',)

    def __init__(self):
        self.ok = False

    @property
    def value(self):
        if not self.ok:
            raise ValueError('not now')
        return 7
