# C16: what an operation yields does not depend on what the process did before.
#
# A run is a timeline of registry operations, noise (any library operation,
# failing ones included, on new or recycled codecs) and probe steps.  It is
# executed twice: completely, and - from the state of a fresh process - without
# the noise.  The probe steps must yield the same bytes and values.
import collections
import datetime
import decimal

import pyamf
from pyamf import amf3, remoting, sol, util
from pyamf.remoting.gateway.wsgi import WSGIGateway

import core
import snapshot
import values


class PA(object):
    class __amf__:
        static = ('p1',)
        exclude = ('secret',)


class PB(object):
    class __amf__:
        dynamic = True
        synonym = {'free': 'wire'}


class PC(object):
    pass


class PD:
    pass


class FamilyBase(object):
    class __amf__:
        static = ('fam',)
        exclude = ('hush',)


class FamilyA(FamilyBase):
    class __amf__:
        static = ('one',)


class FamilyB(FamilyBase):
    class __amf__:
        synonym = {'two': 'deux'}


class ListKid(list):
    pass


class StrKid(unicode):
    pass


class Money(object):
    """told apart by a custom type with a predicate"""

    def __init__(self, n):
        self.n = n


class Boom(Exception):
    pass


class Mine(object):
    """cannot be encoded"""

    def __getattr__(self, n):
        if n == 'mine':
            raise Boom()
        raise AttributeError(n)

    class __amf__:
        static = ('a', 'mine')

    a = 1


class ErrA(Exception):
    pass


PRIV = [PA, PB, PC, PD]
NAMES = ['c16.A', 'c16.B', u'c16.\xe9', 'c16.C']
INTS = [0, 1, 127, 128, 16383, 16384, 0x1fffff, 0x200000, 0xfffffff, -1, -2,
        -0x10000000, 0x10000000, 0x1fffffff, 0x1ffffffe, -128, 5, 0x1ffffff0,
        -16, 0x10000001]


def is_rich(x):
    return isinstance(x, Money) and x.n > 10


def is_poor(x):
    return isinstance(x, Money) and x.n < 0


def rich(x, encoder=None):
    return u'rich %d' % x.n


def poor(x, encoder=None):
    return None


def kid(x, encoder=None):
    return u'kid' + u','.join([unicode(y) for y in x])


def echo(*a):
    return a and a[0]


def fail(*a):
    raise Boom('no')


def kaput(*a):
    return Mine()


def private(kind):
    o = kind()
    o.p1 = 1
    o.free = u'f'
    if kind is PA:
        o.secret = u'x'
    return o


class Holder(object):
    pass


def outcome(f):
    try:
        return ('ok', f())
    except (core.Violation, core.HarnessError, core.TapeTooLong):
        raise
    except Exception, e:
        return ('raise', type(e).__name__)


def shape(o):
    """like values.canon, with the private classes named"""
    if isinstance(o, (list, tuple)):
        return [shape(x) for x in o]
    K = o.__class__
    if K in PRIV or K in (FamilyA, FamilyB, FamilyBase, ListKid, Money):
        return (K.__name__, sorted((k, shape(v)) for k, v in
                                   getattr(o, '__dict__', {}).items()))
    if isinstance(o, pyamf.TypedObject):
        return ('typed', o.alias, sorted((k, shape(v))
                                         for k, v in o.items()))
    return values.canon(o, exact=True)


class Make(object):
    """builds operations; everything random is decided here"""

    def __init__(self, sim):
        self.sim = sim
        # swarm: each run concentrates on a few kinds of operations, values
        # and registry calls, so that they meet often
        self.vkinds = [sim.choose(9) for _ in range(1 + sim.choose(5))]
        self.okinds = [1 if sim.choose(3) else 0 for _ in range(10)]
        self.rkinds = [1 if sim.choose(2) else 0 for _ in range(6)]
        if not any(self.okinds):
            self.okinds[0] = 1
        if not any(self.rkinds):
            self.rkinds[0] = 1
        self.amfs = sim.pick([[3, 0], [3], [0]])
        self.types = sim.shuffle([(is_rich, rich), (is_poor, poor),
                                  (ListKid, kid), (Money, rich)])[
                                      :1 + sim.choose(4)]
        self.privs = sim.shuffle(PRIV)[:1 + sim.choose(4)]
        self.names = NAMES[:1 + sim.choose(4)]

    def vals(self, amf, bad=False):
        sim = self.sim
        out = []
        g = values.Gen(sim, amf, budget=sim.pick([4, 10]))
        for _ in range(1 + sim.small(2)):
            k = sim.pick(self.vkinds)
            if k <= 1:
                out.append(g.value(1))
            elif k == 2:
                out.append(g.instance(2))
            elif k == 3:
                out.append(private(sim.pick(self.privs)))
            elif k == 4:
                K = sim.pick([FamilyA, FamilyB, FamilyBase])
                o = K()
                o.fam = 1
                o.hush = 's'
                o.one = u'1'
                o.two = u'2'
                out.append(o)
            elif k == 5:
                out.append(Money(sim.pick([5, 50, -1, 7, 11])))
            elif k == 6:
                out.append(sim.pick([
                    ListKid([1, 2]), StrKid(u'kid'),
                    decimal.Decimal('1.5'), collections.deque([1]),
                    collections.OrderedDict([(u'k', 1)]),
                    ErrA('oops'), values.SimError(u'x')]))
            elif k == 7:
                out.append(sim.pick(INTS))
            else:
                out.append(sim.pick([
                    datetime.datetime(2001, 2, 3, 4, 5, 6),
                    datetime.date(1999, 1, 1), u'reuse', 'reuse',
                    u'sim.Plain', u'c16.A', {'p1': 1}, 1.5, -1.0, True]))
        if bad:
            self.sim.fault('unencodable-value')
            out.insert(sim.choose(len(out) + 1), sim.pick(
                [Mine(), [1, Mine()], datetime.time(1, 2), ErrA, fail,
                 {u'k': Mine()}]))
        return out

    def data(self, amf):
        """an encoded stream; mostly what earlier encodes produced"""
        sim = self.sim
        k = sim.choose(4)
        if k == 0:
            a = sim.pick(self.names + [u'sim.Plain', u'sim.Base', 'nobody.Knows'])
            o = pyamf.TypedObject(a)
            o['p1'] = sim.pick([1, u'v'])
            o['wire'] = None
            v = [o, [o]]
        elif k == 1:
            v = [private(sim.pick(self.privs)), u'reuse']
        else:
            g = values.Gen(sim, amf, budget=8)
            v = [g.instance(1), g.value(1)]
        b = pyamf.encode(*v, **{'encoding': amf}).getvalue()
        k = sim.choose(6)
        if k == 1 and b:
            b = b[:sim.choose(len(b))]
            sim.fault('truncated-stream')
        elif k == 2 and b:
            i = sim.choose(len(b))
            b = b[:i] + chr(sim.choose(256)) + b[i + 1:]
            sim.fault('corrupted-stream')
        return b

    def op(self, noise):
        """(name, f(h)); f keeps state in h only"""
        sim = self.sim
        amf = sim.pick(self.amfs)
        k = sim.weighted([w * f for w, f in zip(
            [20, 20, 20, 12, 8, 8, 5, 4, 5, 4], self.okinds)])
        bad = sim.chance(40 if noise else 15)
        if k == 0:
            vals = self.vals(amf, bad)
            kw = sim.pick([{}, {}, {'strict': True}, {'timezone_offset':
                           datetime.timedelta(hours=2)}])
            three = amf == 0 and sim.chance(20)

            def encode(h):
                e = pyamf.get_encoder(amf, **kw)
                if three:
                    e.use_amf3 = True
                out = [outcome(lambda: e.writeElement(v)) for v in vals]
                return out, e.stream.getvalue()
            return 'encode%d%s' % (amf, ' bad' if bad else ''), encode
        if k == 1:
            b = self.data(amf)
            strict = bool(sim.choose(2))

            def decode(h):
                d = pyamf.get_decoder(amf, b, strict=strict)
                out = []
                while len(out) < 10:
                    r = outcome(d.readElement)
                    if r[0] == 'ok':
                        out.append(shape(r[1]))
                    else:
                        out.append(r)
                        break
                return out
            return 'decode%d' % amf, decode
        if k == 2:
            vals = self.vals(amf, bad)
            clear = sim.chance(75)

            def recycled(h, e=None):
                # by default an encoder of its own that the probes go on with
                e = e or h.own(amf)
                out = [outcome(lambda: e.writeElement(v)) for v in vals]
                return out, e.stream.getvalue()
            if noise or clear:
                def cleaned(h):
                    e = h.encoder(amf)
                    e.stream.seek(0)
                    e.stream.truncate(0)
                    e.context.clear()
                    r = recycled(h, e)
                    if noise:
                        # handed back clean, whatever happened
                        e.stream.seek(0)
                        e.stream.truncate(0)
                        e.context.clear()
                    return r
                return 'recycled encode%d' % amf, cleaned
            return 'continued encode%d' % amf, recycled
        if k == 3:
            b = self.data(amf)

            def redecode(h):
                d = h.decoder(amf)
                d.stream.seek(0)
                d.stream.truncate(0)
                d.context.clear()
                d.send(b)
                out = []
                while len(out) < 10:
                    r = outcome(d.readElement)
                    if r[0] == 'ok':
                        out.append(shape(r[1]))
                    else:
                        out.append(r)
                        break
                return out
            return 'recycled decode%d' % amf, redecode
        if k == 4:
            ns = [sim.pick(INTS) for _ in range(1 + sim.small(3))]

            def ints(h):
                out = []
                for n in ns:
                    r = outcome(lambda: amf3.encode_int(n))
                    if r[0] == 'ok':
                        s = util.BufferedByteStream(r[1])
                        r += (amf3.decode_int(s, True),)
                    out.append(r)
                return out
            return 'encode_int %s' % (ns,), ints
        if k == 5:
            return self.request(noise)
        if k == 6:
            v = self.vals(0, bad)
            name = sim.pick(['a', u'reuse'])
            cut = sim.choose(3)

            def shared(h):
                # references reach from one value into the next
                d = collections.OrderedDict()
                for i, x in enumerate(v):
                    d['k%d' % i] = x
                b = sol.encode(name, d, encoding=amf).getvalue()
                if cut == 1:
                    b = b[:-3]
                n, got = sol.decode(b)
                return b, n, sorted((k, shape(x)) for k, x in got.items())
            return 'sol', shared
        if k == 7:
            text = sim.pick(['abc', '', 'z' * 200, '\x00\xff'])
            z = bool(sim.choose(2))

            def array(h):
                a = amf3.ByteArray()
                a.compressed = z
                a.writeUTF(u'x')
                a.write(text)
                b = pyamf.encode([a, a], encoding=3).getvalue()
                r = pyamf.decode(b, encoding=3).next()
                return b, [(x.getvalue(), x.compressed) for x in r]
            return 'bytearray', array
        if k == 8:
            code = sim.pick(['c16.Fault', 'TypeError', 'nothing',
                             'c16.Other'])

            def fault(h):
                f = remoting.ErrorFault(code=code, description=u'd')
                e = remoting.Envelope(pyamf.AMF0)
                e['/1'] = remoting.Response(f, remoting.STATUS_ERROR)
                b = remoting.encode(e).getvalue()
                got = remoting.decode(b)['/1'].body
                return b, type(got).__name__, outcome(got.raiseException)
            return 'fault', fault
        a = sim.pick(self.names + ['c16.nope', 'flex.messaging.io.nope'])

        def lookup(h):
            r = outcome(lambda: pyamf.get_class_alias(a))
            if r[0] == 'ok':
                return r[1].klass.__name__, r[1].alias
            return r
        return 'lookup', lookup

    def request(self, noise):
        sim = self.sim
        version = sim.pick([0, 3])
        env = remoting.Envelope(version)
        if sim.choose(2):
            env.headers[u'Credentials'] = {
                'userid': sim.pick([u'u', u'root']), 'password': u'p'}
        names = []
        for i in range(1 + sim.small(2)):
            n = sim.pick(['echo', 'safe', 'fail', 'nope', 'kaput', 'obj.m',
                          'obj._p'])
            names.append(n)
            g = values.Gen(sim, version, budget=5)
            env['/%d' % (i + 1)] = remoting.Request(
                n, body=[sim.pick([g.instance(2), g.value(2), u'x'])])
        b = remoting.encode(env).getvalue()
        k = sim.choose(5) if noise else 0
        if k == 1:
            b = b[:sim.choose(len(b))]
            sim.fault('truncated-stream')
        elif k == 2:
            i = sim.choose(len(b))
            b = b[:i] + chr(sim.choose(256)) + b[i + 1:]
            sim.fault('corrupted-stream')

        def serve(h):
            from cStringIO import StringIO
            st = []
            body = ''.join(h.gateway({
                'REQUEST_METHOD': 'POST', 'CONTENT_LENGTH': str(len(b)),
                'wsgi.input': StringIO(b)},
                lambda s, hd, *a: st.append((s, sorted(
                    (k, v) for k, v in hd if k != 'Server')))))
            if st[0][0][:3] != '200':
                return st[0][0][:3]
            return st, body
        return 'serve %s' % (','.join(names),), serve

    def reg(self):
        """a registry operation: (name, f())"""
        sim = self.sim
        k = sim.weighted([w * f for w, f in zip(
            [30, 20, 14, 14, 6, 6], self.rkinds)])
        if k == 0:
            K = sim.pick(self.privs + [FamilyBase, FamilyA])
            a = sim.pick(self.names + [None])
            return 'register %s %r' % (K.__name__, a), (
                lambda: pyamf.register_class(K, a) and None)
        if k == 1:
            x = sim.pick(self.names + self.privs)
            return 'unregister %s' % (getattr(x, '__name__', repr(x)),), (
                lambda: pyamf.unregister_class(x) and None)
        if k in (2, 3):
            t, f = sim.pick(self.types)
            if k == 2:
                return 'add_type %s' % t.__name__, (
                    lambda: pyamf.add_type(t, f))
            return 'remove_type %s' % t.__name__, (
                lambda: pyamf.remove_type(t) and None)
        if k == 4:
            c = sim.pick(['c16.Fault', 'c16.Other'])
            return 'add_error_class', (
                lambda: pyamf.add_error_class(ErrA, c))
        c = sim.pick(['c16.Fault', ErrA])
        return 'remove_error_class', (lambda: pyamf.remove_error_class(c))


class Obj(object):
    def m(self, x):
        return [x, x]

    def _p(self, x):
        return 'private'


def auth(u, p):
    return u == u'root'


def fresh(h):
    snapshot.restore()
    values.register_all()
    h.pool = {}
    h.gateway = WSGIGateway({'echo': echo, 'fail': fail, 'kaput': kaput,
                             'obj': Obj}, logger=None)
    h.gateway.addService(echo, 'safe', authenticator=auth)

    def codec(key, make):
        def get(amf):
            if (key, amf) not in h.pool:
                h.pool[key, amf] = make(amf)
            return h.pool[key, amf]
        return get
    h.encoder = codec('encoder', pyamf.get_encoder)
    h.decoder = codec('decoder', pyamf.get_decoder)
    h.own = codec('own', pyamf.get_encoder)


def run(sim):
    h = Holder()
    fresh(h)
    mk = Make(sim)
    line = []
    # the streams that are decoded were made by other processes
    for i in range(3 + sim.small(14)):
        k = sim.weighted([25, 50, 25])
        if k == 0:
            line.append(('probe',) + mk.op(False))
        elif k == 1:
            line.append(('noise',) + mk.op(True))
        else:
            line.append(('reg',) + mk.reg())
    line.append(('probe',) + mk.op(False))

    def play(noise, log):
        fresh(h)
        out = []
        n = 0
        for kind, name, f in line:
            sim.steps += 1
            if kind == 'reg':
                r = outcome(f)
                # a codec knows the custom types there were when it was made,
                # classes are looked up again once it has been cleared
                if name.split()[0] not in ('register', 'unregister'):
                    h.pool.clear()
            elif kind == 'noise':
                if not noise:
                    continue
                r = outcome(lambda: f(h))
                n += 1
            else:
                r = outcome(lambda: f(h))
                out.append((name, r, n))
            if log:
                sim.log('%s %s: %s', kind, name, brief(r))
        return out
    alone = play(False, False)
    full = play(True, True)
    for (name, want, _), (_, got, n) in zip(alone, full):
        if want != got:
            sim.fail('history-dependent', '%s yields %s after %d other '
                     'operations but %s in a fresh process', name,
                     clip(got, want), n, clip(want, got))
    if any(n for _, _, n in full):
        sim.nontrivial = True
    sim.state(tuple((k, n) for k, n, f in line))


def brief(r):
    if r[0] == 'raise':
        return r[1]
    return repr(r[1])[:80]


def clip(x, other):
    x, other = repr(x), repr(other)
    i = 0
    while i < min(len(x), len(other)) and x[i] == other[i]:
        i += 1
    if len(x) <= 300:
        return x
    return '..' + x[max(0, i - 60):i + 200]
