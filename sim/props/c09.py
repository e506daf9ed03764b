# C09: every RemoteObject message is acknowledged under its own id.
import random
import uuid

import pyamf
from pyamf import remoting
from pyamf.flex import messaging

import core
import lab
import simclock
import values
import web


def setup():
    simclock.install()
    web.setup()


ZONES = ['UTC', 'Asia/Tokyo', 'America/New_York', 'Pacific/Apia']


class Clock(object):
    """A server clock that stands still, runs, and jumps."""

    def __init__(self, sim):
        self.sim = sim
        self.now = 1300000000.25
        self.mode = 'run'
        self.read = []

    def __call__(self):
        if self.mode == 'run':
            self.now += 0.4
        elif self.mode == 'jumpy':
            self.now += self.sim.pick([0, 1.7, -3600.0, -0.3, 86400.0])
        self.read.append(self.now)
        return self.now

    def fault(self, kind):
        self.sim.fault(kind)
        self.sim.log(kind)
        if kind == 'clock-backwards':
            self.now -= self.sim.pick([1.0, 3600.0, 1e7])
        elif kind == 'clock-forwards':
            self.now += self.sim.pick([1.0, 86400.0, 2e8])
        elif kind == 'clock-stopped':
            self.mode = 'stop'
        elif kind == 'clock-jumpy':
            self.mode = 'jumpy'
        elif kind == 'clock-running':
            self.mode = 'run'


def run(sim):
    values.register_all()
    clock = Clock(sim)
    simclock.use(sim, clock)
    simclock.set_zone(sim.pick(ZONES))
    servers = []
    reactor = web.Reactor(sim)
    for name in [sim.pick(['wsgi', 'django', 'google', 'twisted'])
                 for _ in range(1 + sim.small(1))]:
        kw = {'debug': sim.chance(20), 'strict': sim.chance(20)}
        if sim.chance(30):
            kw['logger'] = lab.logger(sim)
        if name == 'twisted':
            kw['reactor'] = reactor
        servers.append((name, web.make(
            name, sim, lab.services(lab.Log()), **kw)))
    st = State(sim, clock)
    for _ in range(1 + sim.small(4)):
        k = sim.weighted([50, 10, 10, 10, 10, 10, 10])
        if k == 6:
            # the application fixes the seed of the random module
            sim.fault('random-reseeded')
            sim.log('random-reseeded')
            random.seed(7)
        elif k:
            clock.fault(['clock-running', 'clock-stopped', 'clock-backwards',
                         'clock-forwards', 'clock-jumpy'][k - 1])
        name, gw = sim.pick(servers)
        st.exchange(name, gw)
    sim.nontrivial = bool(sim.faults)
    sim.state((tuple(sorted(n for n, _ in servers)), clock.mode,
               tuple(sorted(st.kinds))))


class State(object):
    def __init__(self, sim, clock):
        self.sim = sim
        self.clock = clock
        self.counter = [sim.choose(1000)]
        self.seen = set()        # ids any message had
        self.sent = []           # requests sent before
        self.kinds = set()

    def exchange(self, name, gw):
        sim = self.sim
        if self.sent and sim.chance(15):
            # the client did not see the answer and posts again
            sim.fault('duplicate-request')
            data, reqs = sim.pick(self.sent)
        else:
            reqs = [(u'/%d' % (i + 1),) + self.request()
                    for i in range(1 + sim.small(4))]
            data = remoting.encode(lab.envelope(
                [(rid, t, a) for rid, t, a, _, _ in reqs], 3),
                strict=True).getvalue()
            self.sent.append((data, reqs))
        sim.log('%s %s', name, [(type(a[0]).__name__ if a else None, repr(m))
                                for rid, t, a, m, o in reqs])
        del self.clock.read[:]
        r = gw.serve(web.Post(data))
        p = r.validate()
        sim.check(not p, 'http-response', '%s: %s', name, '; '.join(p))
        sim.check(r.code == 200, 'http-status', '%s: %s', name, r.status)
        d = remoting.decode(r.body)
        n = lab.count(r.body)
        sim.check(n == len(reqs) and sorted(d.keys()) == sorted(
            [q[0] for q in reqs]), 'answered-once', '%s: requests %s '
            'answered with %s bodies as %s', name, [q[0] for q in reqs], n,
            sorted(d.keys()))
        sim.log('clock read %s', ['%.2f' % t for t in self.clock.read])
        stamps = set([int(t) for t in self.clock.read])
        for rid, target, args, mid, outcome in reqs:
            if target != 'null':
                lab.expect(sim, name + ': ' + target, d[rid], outcome)
                continue
            self.answer(name, args[0] if args else None, mid, outcome,
                        d[rid], stamps)

    def request(self):
        """(target, args, message id, outcome)"""
        sim = self.sim
        gen = values.Gen(sim, 3, budget=6)

        def graph():
            return gen.value(1)
        k = sim.weighted([60, 10, 15, 8])
        if k == 1:
            t, args, outcome = lab.calls(sim, graph)
            return t, args, None, outcome
        if k == 3:
            # no message at all
            junk = sim.pick([[], [3], [u'x'], [None], [{u'messageId': 3}],
                             [[1]]])
            return 'null', junk, ABSENT, ('error', None, None)
        m, outcome = lab.flex(sim, graph, self.counter)
        if k == 2:
            c = sim.pick([messaging.CommandMessageExt,
                          messaging.AsyncMessageExt])
            m = c(messageId=m.messageId, body=u'small', headers=m.headers,
                  timestamp=m.timestamp, operation=5)
            outcome = ('ack', True)
            if sim.choose(2):
                m.messageId = uuid.UUID(m.messageId)
            if sim.choose(2):
                m.clientId = uuid.UUID(int=7)
        elif sim.chance(25):
            m.messageId = sim.pick([u'', None, u'caf\xe9', u'1', 7, u'same'])
        if isinstance(m, messaging.AsyncMessage) and sim.chance(40):
            # what the message of the client is about
            m.correlationId = sim.pick([u'', u'earlier', u'\xe9',
                                        unicode(uuid.UUID(int=9))])
            if k == 2:
                m.correlationId = uuid.UUID(int=9)
        if sim.chance(10):
            m.headers = sim.pick([None, u'', [], {u'DSId': None},
                                  {u'DSId': u''}])
            if m.headers in (u'', []) and k == 2:
                m.headers = None
        return 'null', [m], m.messageId, outcome

    def answer(self, name, msg, mid, outcome, m, stamps):
        sim = self.sim
        b = m.body
        kind = type(msg).__name__
        self.kinds.add((kind, outcome[0]))
        what = '%s: %s %r' % (name, kind, mid)
        sim.check(isinstance(b, messaging.AcknowledgeMessage),
                  'acknowledgement', '%s is answered with %r', what, b)
        lab.expect(sim, what, m, outcome)
        if mid is not ABSENT:
            got = b.correlationId
            if isinstance(mid, uuid.UUID):
                mid = unicode(mid).upper()
            sim.check(got == mid and isinstance(got, bool) is False,
                      'correlation-id', '%s: the answer has correlation id '
                      '%r', what, got)
            if isinstance(mid, unicode):
                self.seen.add(mid.upper())
        else:
            sim.check(b.correlationId in (None, 3), 'correlation-id',
                      '%s: no message, but correlation id %r', what,
                      b.correlationId)
        sim.check(isinstance(b.messageId, unicode) and b.messageId,
                  'message-id', '%s: the answer has message id %r', what,
                  b.messageId)
        new = b.messageId.upper()
        sim.check(new not in self.seen, 'fresh-message-id',
                  '%s: the message id of the answer was used before', what)
        self.seen.add(new)
        # the session
        h = getattr(msg, 'headers', None)
        want = h.get(u'DSId') if isinstance(h, dict) else None
        sim.check(isinstance(b.headers, dict), 'headers', '%s: %r', what,
                  b.headers)
        got = b.headers.get(u'DSId')
        if want and want != u'nil':
            sim.check(got == want, 'session', '%s: session %r is answered '
                      'with %r', what, want, got)
        else:
            sim.check(isinstance(got, unicode) and got and got != u'nil',
                      'session', '%s: new session is answered with %r', what,
                      got)
            sim.check(got.upper() not in self.seen, 'fresh-session',
                      '%s: the id of the new session was used before', what)
            self.seen.add(got.upper())
        sim.check(b.timestamp in stamps, 'timestamp', '%s: stamped %r, the '
                  'clock read %s', what, b.timestamp, sorted(stamps))
        if outcome[0] == 'error':
            sim.check(b.faultCode, 'fault-code', '%s: no fault code', what)


class _Absent(object):
    def __repr__(self):
        return '-'


ABSENT = _Absent()
