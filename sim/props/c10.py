# C10: points in time between hosts with their own zones and clocks.
import datetime
import struct

import pyamf
from pyamf import remoting, sol, util
from pyamf.flex import ArrayCollection, ObjectProxy, messaging
from pyamf.remoting import client

import core
import net
import simclock
import values
import web

ZONES = ['UTC', 'America/New_York', 'Europe/London', 'Asia/Kathmandu',
         'Pacific/Apia', 'Australia/Lord_Howe', 'America/St_Johns',
         'Asia/Tokyo', 'Pacific/Kiritimati', 'Africa/Casablanca']
EPOCH = datetime.datetime(1970, 1, 1)
#: allowed difference: half the resolution of the wire
HALF_MS = datetime.timedelta(microseconds=500)

#: wall clock times at and around which zones change
EDGES = [datetime.datetime(2011, 3, 13, 2, 30),
         datetime.datetime(2011, 11, 6, 1, 30),
         datetime.datetime(2011, 3, 27, 1, 30),
         datetime.datetime(2011, 10, 30, 1, 0),
         datetime.datetime(2011, 12, 30, 12, 0),
         datetime.datetime(1968, 10, 27, 0, 30),
         datetime.datetime(2038, 1, 19, 3, 14, 7),
         datetime.datetime(2038, 1, 19, 3, 14, 8),
         datetime.datetime(2000, 2, 29, 23, 59, 59, 999000),
         datetime.datetime(1900, 2, 28, 23, 59, 59),
         datetime.datetime(1969, 12, 31, 23, 59, 59, 999000),
         datetime.datetime(1970, 1, 1, 0, 0, 0, 1000),
         datetime.datetime(1901, 12, 13, 20, 45, 51),
         EPOCH]


def setup():
    simclock.install()
    web.setup()


class Zone(datetime.tzinfo):
    "a fixed distance from UTC"

    def __init__(self, minutes):
        self.minutes = minutes

    def utcoffset(self, d):
        return datetime.timedelta(minutes=self.minutes)

    def dst(self, d):
        return datetime.timedelta(0)

    def tzname(self, d):
        return 'z%d' % self.minutes


class Host(object):
    """A process with a local time zone, a clock and a configured offset."""

    def __init__(self, sim, name):
        self.sim = sim
        self.name = name
        self.zone = sim.pick(ZONES)
        self.clock = 1300000000.0 + sim.choose(400) * 86400.0
        self.offset = None
        if sim.chance(50):
            self.offset = offset(sim)

    def enter(self):
        simclock.set_zone(self.zone)
        simclock._clock[0] = self.now

    def now(self):
        self.clock += 0.25
        return self.clock

    def utc(self, d):
        """The instant d denotes on this host, as a naive UTC datetime."""
        if not isinstance(d, datetime.datetime):
            d = datetime.datetime(d.year, d.month, d.day)
        if d.tzinfo is not None:
            d = (d - d.tzinfo.utcoffset(d)).replace(tzinfo=None)
        if self.offset is not None:
            d -= delta(self.offset)
        return d

    def text(self):
        return '%s(%s, offset %s)' % (self.name, self.zone, self.offset)


def offset(sim):
    k = sim.choose(5)
    if k == 0:
        return datetime.timedelta(hours=sim.choose(27) - 12)
    if k == 1:
        return datetime.timedelta(minutes=15 * (sim.choose(105) - 48))
    if k == 2:
        return datetime.timedelta(seconds=sim.choose(86400 * 3) - 86400,
                                  milliseconds=sim.choose(1000))
    if k == 3:
        return datetime.timedelta(0)
    return (sim.choose(27) - 12) * 3600 + sim.pick([0, 0, 1800, 45])


def delta(o):
    return o if isinstance(o, datetime.timedelta) else \
        datetime.timedelta(seconds=o)


def date(sim, host):
    """A date as the application on host has it."""
    k = sim.weighted([20, 25, 15, 15, 8, 8, 9])
    if k == 0:
        d = sim.pick(EDGES)
    elif k == 1:
        d = EPOCH + datetime.timedelta(seconds=sim.choose(2 ** 31 - 1))
        d += datetime.timedelta(milliseconds=sim.choose(1000))
    elif k == 2:
        d = EPOCH - datetime.timedelta(seconds=sim.choose(2 ** 31 - 1))
        d -= datetime.timedelta(milliseconds=sim.choose(1000))
    elif k == 3:
        d = datetime.datetime(1601, 1, 1) + datetime.timedelta(
            days=sim.choose(365 * 8390), milliseconds=sim.choose(86400000))
    elif k == 4:
        d = EPOCH + datetime.timedelta(seconds=sim.choose(2 ** 31 - 1),
                                       microseconds=sim.choose(1000000))
        if sim.choose(2):
            d = EPOCH - (d - EPOCH)
    elif k == 5:
        d = EPOCH + datetime.timedelta(days=sim.choose(40000) - 20000)
        return d.date()
    else:
        d = sim.pick(EDGES) + datetime.timedelta(
            milliseconds=sim.choose(7200000) - 3600000)
    if host.offset is None and sim.chance(15):
        # an aware datetime is an instant by itself
        d = d.replace(tzinfo=Zone(15 * (sim.choose(105) - 48)))
    return d


class Kept(datetime.datetime):
    "the application's own kind of date"


WRAPS = ['list', 'dict', 'plain', 'ext', 'mixed', 'ac', 'proxy', 'tuple',
         'asobject', 'derived', 'amf3']


def wrap(sim, kind, d):
    if kind == 'list':
        return [u'x', d]
    if kind == 'tuple':
        return (d, None)
    if kind == 'dict':
        return {u'when': d}
    if kind == 'asobject':
        return pyamf.ASObject(when=d)
    if kind == 'mixed':
        return pyamf.MixedArray({u'when': d, 0: u'x'})
    if kind == 'ac':
        return ArrayCollection([1, d])
    if kind == 'proxy':
        return ObjectProxy({u'when': d})
    o = {'plain': values.Plain, 'ext': values.Ext, 'amf3': values.Amf3Only,
         'derived': values.Derived}[kind]()
    if kind == 'ext':
        o.child = d
    elif kind == 'derived':
        o.b1, o.b2, o.d1 = None, None, d
    else:
        o.when = d
    return o


def unwrap(kind, v):
    if kind == 'list':
        return v[1]
    if kind == 'tuple':
        return v[0]
    if kind in ('dict', 'asobject', 'mixed'):
        return v[u'when']
    if kind == 'ac':
        return list(v)[1]
    if kind == 'proxy':
        o = v._amf_object if isinstance(v, ObjectProxy) else v
        return o[u'when'] if isinstance(o, dict) else o.when
    if kind == 'ext':
        return v.child
    if kind == 'derived':
        return v.d1
    return v.when


class Parcel(object):
    """Dates inside containers."""

    def __init__(self, sim, host):
        n = 1 + sim.small(2)
        self.dates = [date(sim, host) for _ in range(n)]
        if n > 1 and sim.chance(30):
            self.dates[-1] = self.dates[0]
        self.kinds = []
        self.value = []
        for d in self.dates:
            ks = [sim.pick(WRAPS) for _ in range(sim.small(2))]
            v = d
            for k in ks:
                v = wrap(sim, k, v)
            self.kinds.append(ks)
            self.value.append(v)

    def open(self, got):
        out = []
        for ks, v in zip(self.kinds, got):
            for k in reversed(ks):
                v = unwrap(k, v)
            out.append(v)
        return out


def run(sim):
    values.register_all()
    simclock.use(sim, lambda: 1300000000.0)
    hosts = [Host(sim, 'AB'[i]) for i in range(2)]
    if hosts[0].zone != hosts[1].zone:
        sim.nontrivial = True
    sim.log('%s, %s', hosts[0].text(), hosts[1].text())
    w = World(sim, hosts)
    kinds = []
    for _ in range(1 + sim.small(2)):
        k = sim.weighted([40, 35, 8, 12, 8])
        kinds.append(k)
        [w.pipe, w.gateway, w.shared_object, w.foreign, w.small][k]()
        if sim.chance(30):
            w.jump()
    sim.state((tuple(kinds), hosts[0].zone, hosts[1].zone,
               str(hosts[0].offset), str(hosts[1].offset)))


class World(object):
    def __init__(self, sim, hosts):
        self.sim = sim
        self.hosts = hosts

    def jump(self):
        """An operator sets a clock, or the zone of a host."""
        sim = self.sim
        h = sim.pick(self.hosts)
        if sim.chance(70):
            sim.fault('clock-jump')
            h.clock += sim.pick([-1, 1]) * sim.choose(10 ** 8)
        else:
            sim.fault('zone-change')
            h.zone = sim.pick(ZONES)

    def pair(self):
        a, b = self.hosts
        return (a, b) if self.sim.choose(2) else (b, a)

    def same(self, oracle, what, a, b, sent, got):
        """Dates sent by a and received by b denote the same instants."""
        sim = self.sim
        sim.check(len(sent) == len(got), oracle, '%s: %d dates became %d',
                  what, len(sent), len(got))
        for s, g in zip(sent, got):
            sim.check(isinstance(g, datetime.datetime) and g.tzinfo is None,
                      oracle, '%s: %r arrived as %r', what, s, g)
            x, y = a.utc(s), b.utc(g)
            sim.check(abs(x - y) < HALF_MS, oracle,
                      '%s from %s to %s: %s (%s UTC) arrived as %s (%s UTC)',
                      what, a.text(), b.text(), s, x, g, y)

    def maybe_jump(self):
        if self.sim.chance(20):
            self.jump()

    # -- ways to travel ------------------------------------------------------
    def pipe(self):
        """One stream from a to b, and one back."""
        sim = self.sim
        a, b = self.pair()
        amf = sim.pick([0, 3])
        kw = {}
        if amf == 0 and sim.choose(2):
            kw['use_amf3'] = True
        sim.log('pipe v%d %s: %s to %s', amf, sorted(kw), a.text(), b.text())
        out = pyamf.get_encoder(amf, timezone_offset=a.offset)
        back = pyamf.get_encoder(amf, timezone_offset=b.offset)
        if kw:
            out.use_amf3 = back.use_amf3 = True
        parcels = [Parcel(sim, a) for _ in range(1 + sim.small(2))]
        a.enter()
        for p in parcels:
            sim.log('%s', ['%s in %s' % x for x in zip(p.dates, p.kinds)])
            out.writeElement(p.value)
        data = out.stream.getvalue()
        self.maybe_jump()
        b.enter()
        dec = pyamf.get_decoder(amf, data, timezone_offset=b.offset)
        arrived = []
        for p in parcels:
            v = dec.readElement()
            got = p.open(v)
            self.same('instant', 'stream', a, b, p.dates, got)
            arrived.append((v, got))
        for v, _ in arrived:
            back.writeElement(v)
        data = back.stream.getvalue()
        a.enter()
        dec = pyamf.get_decoder(amf, data, timezone_offset=a.offset)
        for p, (v, there) in zip(parcels, arrived):
            got = p.open(dec.readElement())
            self.same('instant', 'stream back', b, a, there, got)
            self.echo('stream', a, p.dates, got)

    def echo(self, what, a, sent, got):
        """What comes back is what was sent."""
        for s, g in zip(sent, got):
            if not isinstance(s, datetime.datetime):
                s = datetime.datetime(s.year, s.month, s.day)
            if s.tzinfo is not None:
                s = (s - s.tzinfo.utcoffset(s)).replace(tzinfo=None)
            self.sim.check(abs(s - g) < 2 * HALF_MS, 'echo', '%s: %s sent by '
                           '%s came back as %s', what, s, a.text(), g)

    def gateway(self):
        """A client on a host without offset, a server on b."""
        sim = self.sim
        a, b = self.pair()
        was = a.offset
        a.offset = None
        try:
            self.calls(a, b)
        finally:
            a.offset = was

    def calls(self, a, b):
        sim = self.sim
        name = sim.pick(['wsgi', 'wsgi', 'django', 'django-settings',
                         'google', 'twisted'])
        seen = []

        def echo(p):
            seen.append(p)
            return p

        def own(p):
            seen.append(p)
            return [x for ds in mine for x in ds.value]
        mine = []
        kw = {'timezone_offset': b.offset}
        if name == 'twisted':
            kw['reactor'] = self.reactor()
        if name == 'django-settings':
            from django.conf import settings
            del kw['timezone_offset']
            settings.AMF_TIME_OFFSET = b.offset
            sim.on_cleanup(lambda: delattr(settings, 'AMF_TIME_OFFSET'))
            front = web.make('django', sim, {'echo': echo, 'own': own}, **kw)
            del settings.AMF_TIME_OFFSET
            settings.AMF_TIME_OFFSET = None
        elif name == 'django' and sim.chance(50):
            # what the gateway itself is told counts
            from django.conf import settings
            settings.AMF_TIME_OFFSET = datetime.timedelta(hours=7)
            sim.on_cleanup(lambda: delattr(settings, 'AMF_TIME_OFFSET'))
            front = web.make(name, sim, {'echo': echo, 'own': own}, **kw)
        else:
            front = web.make(name, sim, {'echo': echo, 'own': own}, **kw)

        def serve(post, host):
            self.maybe_jump()
            b.enter()
            r = front.serve(post)
            a.enter()
            return r
        n = net.Net(sim, serve)
        version = sim.pick([0, 3])
        sim.log('%s v%d: %s calls %s', name, version, a.text(), b.text())
        a.enter()
        c = client.RemotingService('http://sim/gw', amf_version=version,
                                   opener=n.opener)
        for _ in range(1 + sim.small(1)):
            p = Parcel(sim, a)
            q = Parcel(sim, b)
            mine[:] = [q]
            method = sim.pick(['echo', 'own'])
            ro = sim.chance(35)
            sim.log('%s%s %s', method, ' RO' * ro, [
                '%s in %s' % x for x in zip(p.dates, p.kinds)])
            a.enter()
            if ro:
                got = self.remote_object(n, method, p.value)
            else:
                got = c.getService(method)(p.value)
            self.same('instant', 'argument', a, b, p.dates,
                      p.open(seen.pop()))
            if method == 'echo':
                self.echo('call', a, p.dates, p.open(got))
            else:
                self.same('instant', 'result', b, a, q.dates, q.open(got))

    def reactor(self):
        if not hasattr(self, '_reactor'):
            self._reactor = web.Reactor(self.sim)
        return self._reactor

    def remote_object(self, n, method, value):
        m = messaging.RemotingMessage(
            operation=unicode(method), body=[value], messageId=u'M1',
            clientId=None, destination=None, headers={}, timestamp=0,
            timeToLive=0)
        e = remoting.Envelope(3)
        e[u'/1'] = remoting.Request('null', [m])
        data = remoting.encode(e).getvalue()
        post = 'POST /gw HTTP/1.1\r\nContent-Type: application/x-amf\r\n' \
            'Content-Length: %d\r\n\r\n%s' % (len(data), data)
        reply = n.arrive('sim', post)
        status, headers, body = net.split(reply)
        r = remoting.decode(body)[u'/1'].body
        self.sim.check(type(r) is messaging.AcknowledgeMessage, 'call',
                       'answered %r', r)
        return r.body

    def shared_object(self):
        """A file written on a and read on b; offsets do not apply."""
        sim = self.sim
        a, b = self.pair()
        was = a.offset, b.offset
        a.offset = b.offset = None
        try:
            amf = sim.pick([0, 3])
            p = Parcel(sim, a)
            a.enter()
            sim.log('sol v%d %s', amf, p.dates)
            s = sol.SOL('name')
            s[u'data'] = p.value
            data = sol.encode('name', s, encoding=amf).getvalue()
            self.maybe_jump()
            b.enter()
            got = sol.decode(data)[1][u'data']
            self.same('instant', 'shared object', a, b, p.dates, p.open(got))
        finally:
            a.offset, b.offset = was

    def foreign(self):
        """Dates written by a player, with its own zone in the tz field."""
        sim = self.sim
        b = sim.pick(self.hosts)
        ms = sim.pick([0, 1, -1, 999, -999, 1300000000123, -86400000001,
                       -11e12 + sim.choose(2 * 10 ** 9) * 1e4,
                       sim.choose(2 ** 30) * 2048.0, 0.25])
        want = EPOCH + datetime.timedelta(milliseconds=ms)
        if b.offset is not None:
            want += delta(b.offset)
        tz = sim.pick([0, 0, 60, -300, 720, 345])
        b.enter()
        k = sim.choose(3)
        amf3 = '\x08\x01' + struct.pack('>d', ms)
        if k == 0:
            dec = pyamf.get_decoder(0, '\x0b' + struct.pack(
                '>dh', ms, tz), timezone_offset=b.offset)
        elif k == 1:
            dec = pyamf.get_decoder(3, amf3, timezone_offset=b.offset)
        else:
            dec = pyamf.get_decoder(0, '\x11' + amf3,
                                    timezone_offset=b.offset)
        got = dec.readElement()
        sim.log('foreign %r ms, tz %d, form %d on %s', ms, tz, k, b.text())
        sim.check(isinstance(got, datetime.datetime) and
                  abs(got - want) < HALF_MS, 'foreign', '%r ms (tz %d) '
                  'arrived on %s as %s instead of %s', ms, tz, b.text(), got,
                  want)

    def small(self):
        """The timestamp of a small message."""
        sim = self.sim
        a, b = self.pair()
        was = a.offset, b.offset
        a.offset = b.offset = None
        try:
            d = date(sim, a)
            if a.utc(d) == EPOCH:
                # 0 is how these messages say that there is none
                return
            cls = sim.pick([messaging.AsyncMessage, messaging.CommandMessage,
                            messaging.AcknowledgeMessage])
            m = cls(body={}, messageId=u'M', clientId=u'C',
                    destination=u'd', headers={})
            m.timestamp = d
            if sim.chance(40):
                m.body = {u'when': d}
            a.enter()
            sim.log('small %s %s', cls.__name__, d)
            data = pyamf.encode(m.getSmallMessage(), encoding=3).getvalue()
            self.maybe_jump()
            b.enter()
            got = pyamf.decode(data, encoding=3).next()
            self.same('instant', 'timestamp', a, b, [d], [got.timestamp])
            if m.body:
                self.same('instant', 'body', a, b, [d], [got.body[u'when']])
        finally:
            a.offset, b.offset = was
