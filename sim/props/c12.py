# C12: the Twisted gateway answers each request once, in any completion order.
import pyamf  # noqa
from pyamf import remoting
from pyamf.flex import messaging

import lab
import simclock
import values
import web


def setup():
    simclock.install()
    web.setup(django=False, google=False)


PLANS = [
    # (plan, weight)
    ('now', 12), ('later', 30), ('later-error', 16), ('fired', 6),
    ('failed', 6), ('raise', 8), ('chain', 8), ('thread', 8),
    ('thread-error', 6), ('chain-error', 6), ('never', 3),
    ('unencodable', 3)]


class App(object):
    """Services whose results arrive when the simulator says so."""

    def __init__(self, sim, reactor):
        self.sim = sim
        self.reactor = reactor
        self.calls = []
        self.fired = []

    def delay(self, f, *a):
        """f(*a) a number of turns of the event loop later."""
        n = self.sim.small(4)

        def turn(n):
            if n:
                self.reactor.call('wait', turn, n - 1)
            else:
                self.fired.append(a[-1])
                f(*a[:-1])
        self.reactor.call('wait', turn, n)

    def act(self, plan, kind, value, token):
        from twisted.internet import defer, threads

        def error():
            return lab.ERR[kind][1]()

        def fail():
            raise error()
        if plan == 'now':
            return value
        if plan == 'raise':
            fail()
        if plan == 'fired':
            return defer.succeed(value)
        if plan == 'failed':
            try:
                fail()
            except Exception:
                return defer.fail(defer.Failure())
        if plan == 'unencodable':
            return defer.succeed(lab.NotMine())
        d = defer.Deferred()
        if plan == 'never':
            return d
        if plan == 'later':
            self.delay(d.callback, value, token)
            return d
        if plan == 'later-error':
            def fire():
                try:
                    fail()
                except:
                    d.errback(defer.Failure())
            self.delay(fire, token)
            return d
        if plan in ('chain', 'chain-error'):
            inner = defer.Deferred()
            d.addCallback(lambda r: inner)
            self.delay(d.callback, None, token)
            if plan == 'chain':
                self.delay(inner.callback, value, token)
            else:
                self.delay(lambda: inner.errback(error()), token)
            return d
        if plan == 'thread':
            return threads.deferToThread(lambda: value)
        return threads.deferToThread(fail)

    def service(self, *a):
        http = None
        if len(a) == 5:
            http, a = a[0], a[1:]
        plan, kind, value, token = a
        self.calls.append((token, http and http.getHeader('X-Sim')))
        return self.act(plan, kind, value, token)

    # gates: the plan travels in the credentials
    def authenticator(self, user, pw):
        if user is None:
            return True
        plan = user
        ok = pw == u'yes'
        if plan == u'raise' and not ok:
            raise ValueError('authenticator')
        if plan == u'later-raise' and not ok:
            return self.act('later-error', 'value', None, u'auth')
        if plan.startswith(u'later'):
            return self.act('later', None, ok, u'auth')
        return ok

    def preprocessor(self, sr, *a):
        cred = sr.request.headers.get('Credentials')
        plan = cred.get(u'pre') if cred else None
        if plan == u'later':
            return self.act('later', None, None, u'pre')
        if plan == u'later-raise':
            return self.act('later-error', 'value', None, u'pre')
        if plan == u'raise':
            raise ValueError('preprocessor')


def outcome_of(plan, kind, value, cred, ro):
    if cred and cred[u'password'] != u'yes' and not ro:
        if cred[u'userid'].endswith(u'raise'):
            return ('error', 'ValueError', None)
        return ('error', 'AuthenticationError', None)
    if cred and cred.get(u'pre', u'').endswith(u'raise'):
        return ('error', 'ValueError', None)
    if plan == 'never':
        return ('never',)
    if plan == 'unencodable':
        return ('unencodable',)
    if plan in ('raise', 'later-error', 'failed', 'thread-error',
                'chain-error'):
        e = lab.ERR[kind]
        return ('error', e[2], e[3])
    return ('echo', value)


class Exchange(object):
    pass


def build(sim, number, damaged):
    x = Exchange()
    x.marker = 'X%d' % number
    x.version = sim.pick([0, 3])
    x.cred = None
    if sim.chance(35):
        x.cred = {u'userid': sim.pick([u'now', u'raise', u'later',
                                       u'later-raise']),
                  u'password': sim.pick([u'yes', u'yes', u'no'])}
        if sim.chance(40):
            x.cred[u'pre'] = sim.pick([u'now', u'later', u'later-raise',
                                       u'raise'])
    e = remoting.Envelope(x.version)
    if x.cred:
        e.headers['Credentials'] = x.cred
    x.requests = []
    names = [p for p, w in PLANS]
    weights = [w for p, w in PLANS]
    # (an old-style or unencodable exception cannot be fired as an error)
    kinds = ['value', 'unicode', 'utf8', 'bytes', 'app', 'noargs',
             'intarg', 'eos', 'encode', 'unknown-service', 'broken-str']
    for i in range(1 + sim.small(4)):
        rid = u'/%d' % (i + 1)
        token = u'T%d.%d' % (number, i)
        ro = x.version == 3 and sim.chance(40)
        plan = names[sim.weighted(weights)]
        kind = sim.pick(kinds)
        value = [token, values.Gen(sim, x.version, budget=5).value(1)]
        target = sim.pick([u'svc', u'obj.service', u'nothing'] if
                          sim.chance(15) else [u'svc', u'obj.service'])
        args = [unicode(plan), unicode(kind), value, token]
        if target == u'nothing':
            out = ('error', 'Service.ResourceNotFound', None)
        else:
            out = outcome_of(plan, kind, value, x.cred, ro)
        if ro:
            m = messaging.RemotingMessage(
                body=args, messageId=token, headers={}, operation=target)
            e[rid] = remoting.Request(u'null', [m])
        else:
            e[rid] = remoting.Request(target, args)
        reached = target != u'nothing' and (
            out[1:2] != ('AuthenticationError',)) and (
            ro or not x.cred or x.cred[u'password'] == u'yes') and not (
            x.cred and x.cred.get(u'pre', u'').endswith(u'raise'))
        x.requests.append((rid, token, ro, plan, out, reached))
    data = remoting.encode(e, strict=True).getvalue()
    x.damaged = damaged
    if damaged:
        data = data[:sim.choose(len(data))]
    x.post = web.Post(data, headers={'X-Sim': x.marker})
    sim.log('%s v%d cred %r%s: %s', x.marker, x.version, x.cred,
            ' cut' if damaged else '',
            [('RO' if ro else '') + plan for _, _, ro, plan, _, _ in
             x.requests])
    return x


def run(sim):
    values.register_all()
    simclock.use(sim, lambda: 1300000000.0)
    reactor = web.Reactor(sim)
    app = App(sim, reactor)
    kw = {'debug': sim.chance(25), 'reactor': reactor,
          'expose_request': sim.chance(25), 'strict': sim.chance(20),
          'authenticator': app.authenticator,
          'preprocessor': app.preprocessor}
    if sim.chance(40):
        kw['logger'] = lab.logger(sim)
    front = web.make('twisted', sim, {'svc': app.service, 'obj': app}, **kw)
    served = []
    for k in range(1 + sim.small(3)):
        x = build(sim, k, sim.chance(6))
        r = front.begin(x.post)
        served.append((x, r))
        if sim.chance(15):
            n = sim.choose(12)

            def leave(n, x=x, r=r):
                if n:
                    reactor.call('client', leave, n - 1)
                elif r.pending:
                    sim.log('%s disconnects', x.marker)
                    sim.fault('disconnect')
                    r.request.disconnect()
            reactor.call('client', leave, n)
        for _ in range(sim.choose(8)):
            if reactor.events:
                reactor.step()
    reactor.run()
    sim.log('fired %s', app.fired)
    if any(reactor.order):
        sim.fault('reordered-completion')
        sim.nontrivial = True
    sim.state((tuple(app.fired), len(served)))

    want = []
    for x, r in served:
        judge(sim, x, r, kw)
        if not x.damaged:
            want += [(t, x.marker if kw['expose_request'] else None)
                     for _, t, _, _, _, reached in x.requests if reached]
    if not any(x.damaged for x, r in served):
        sim.check(sorted(app.calls) == sorted(want), 'services-run', 'ran '
                  '%s, expected %s', sorted(app.calls), sorted(want))
    else:
        sim.check(sorted(app.calls) == sorted(want), 'services-run', 'ran '
                  '%s although one request was cut short, expected %s',
                  sorted(app.calls), sorted(want))


def judge(sim, x, r, kw):
    req = r.request
    what = x.marker
    sim.check(req.finish_calls <= 1, 'finished-once', '%s: finished %d '
              'times', what, req.finish_calls)
    sim.check(not r.problems, 'http-response', '%s: %s', what,
              '; '.join(r.problems))
    if req._disconnected:
        return
    outs = [o[0] for _, _, _, _, o, _ in x.requests]
    if not x.damaged and 'never' in outs:
        sim.check(r.pending and not req.startedWriting, 'not-early',
                  '%s: answered although a result is still pending: %s %r',
                  what, r.status, r.body[:200])
        return
    p = r.validate()
    sim.check(not p, 'answered-once', '%s: %s', what, '; '.join(p))
    if x.damaged:
        sim.fault('truncated-request')
        sim.check(r.code == 400, 'bad-request', '%s: cut short, answered %s',
                  what, r.status)
        return
    if 'unencodable' in outs:
        sim.fault('unencodable-result')
        sim.check(r.code == 500, 'unencodable', '%s: a result cannot be '
                  'encoded, answered %s', what, r.status)
        return
    sim.check(r.code == 200, 'status', '%s: answered %s %r', what, r.status,
              r.body[:300])
    d = remoting.decode(r.body)
    n = lab.count(r.body)
    sim.check(n == len(x.requests) and sorted(d.keys()) == [
        q[0] for q in x.requests], 'response-ids', '%s: requests %s answered '
        'with %s bodies as %s', what, [q[0] for q in x.requests], n,
        sorted(d.keys()))
    for rid, token, ro, plan, out, reached in x.requests:
        if out[0] == 'error':
            sim.fault('failing-result')
        lab.expect(sim, '%s %s (%s%s)' % (what, token, 'RO ' if ro else '',
                                          plan), d[rid], out)
        if ro:
            sim.check(d[rid].body.correlationId == token, 'correlation-id',
                      '%s %s: %r', what, token, d[rid].body.correlationId)
