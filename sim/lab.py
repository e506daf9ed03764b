# -*- coding: utf-8 -*-
# Services behind the simulated gateways and requests made to them.
import datetime

import pyamf
from pyamf import remoting
from pyamf.flex import messaging
from pyamf.remoting import gateway as gwmod

import core
import values


class AppError(Exception):
    _amf_code = 'App.Error'


class UniCode(Exception):
    _amf_code = u'App.\xe9'


class BrokenStr(Exception):
    def __str__(self):
        raise RuntimeError('broken __str__')

    __unicode__ = __str__


class OddMessage(Exception):
    message = None


class BrokenAll(Exception):
    def __str__(self):
        raise RuntimeError('broken __str__')

    __unicode__ = __str__
    __repr__ = __str__


class OldStyle:
    def __init__(self, text):
        self.args = (text,)

    def __str__(self):
        return self.args[0]


class NotMine(object):
    "cannot be encoded: an attribute raises"
    class __amf__:
        static = ('a', 'bad')
    a = 1

    raises = ValueError

    @property
    def bad(self):
        raise self.raises('attribute')


class NotMineOld(NotMine):
    raises = OldStyle


class NotMineExit(NotMine):
    raises = GeneratorExit


class Holder(Exception):
    "carries something that cannot be encoded"


class NeedsArgs(Exception):
    def __init__(self, code, text):
        Exception.__init__(self, text)
        self.code = code


def _holder():
    e = Holder('held')
    e.held = _holder
    e.broken = NotMine()
    return e


#: name -> (factory, code of the fault, text of the fault or None = whatever)
ERRORS = [
    ('value', lambda: ValueError('wrong'), 'ValueError', u'wrong'),
    ('unicode', lambda: ValueError(u'caf\xe9'), 'ValueError', u'caf\xe9'),
    ('utf8', lambda: ValueError('caf\xc3\xa9'), 'ValueError', None),
    ('bytes', lambda: IOError('\xff\xfe'), 'IOError', None),
    ('app', lambda: AppError('own code'), 'App.Error', u'own code'),
    ('unicode-code', lambda: UniCode('c'), u'App.\xe9', u'c'),
    ('noargs', lambda: TypeError(), 'TypeError', u''),
    ('twoargs', lambda: OSError(2, 'No such file'), 'OSError', None),
    ('broken-str', lambda: BrokenStr('x'), 'BrokenStr', None),
    ('broken-all', lambda: BrokenAll('x'), 'BrokenAll', None),
    ('odd-message', lambda: OddMessage(u'm'), 'OddMessage', None),
    ('intarg', lambda: KeyError(3), 'KeyError', None),
    ('holder', _holder, 'Holder', u'held'),
    ('needs-args', lambda: NeedsArgs(3, 'needs'), 'NeedsArgs', u'needs'),
    ('old', lambda: OldStyle('old'), 'OldStyle', None),
    ('stop', lambda: StopIteration('stop'), 'StopIteration', u'stop'),
    ('decode', lambda: pyamf.DecodeError('d'), 'DecodeError', u'd'),
    ('eos', lambda: pyamf.EOStream('e'), 'EOStream', u'e'),
    ('encode', lambda: pyamf.EncodeError('e'), 'EncodeError', u'e'),
    ('unknown-service', lambda: gwmod.UnknownServiceError('u'),
     'Service.ResourceNotFound', u'u'),
    ('genexit', lambda: GeneratorExit('g'), 'GeneratorExit', u'g'),
]
ERR = dict((e[0], e) for e in ERRORS)


class Log(object):
    """What the services saw."""

    def __init__(self):
        self.calls = []

    def add(self, *what):
        self.calls.append(what)


def services(log, exposed=False):
    """
    The published services of a simulated application.  exposed: the first
    argument is the HTTP request.
    """
    shared = {u'shared': [1, 2, u'three']}
    if exposed:
        log.exposed = []

        def strip(f):
            def g(*a):
                a = list(a)
                i = 1 if a and isinstance(a[0], (Svc, Fresh)) else 0
                log.exposed.append(a.pop(i))
                return f(*a)
            return g
    else:
        def strip(f):
            return f

    @strip
    def echo(*a):
        log.add('echo', len(a))
        return a[0] if a else None

    @strip
    def add(a, b):
        log.add('add', a, b)
        return a + b

    @strip
    def fail(kind):
        log.add('fail', kind)
        raise ERR[kind][1]()

    def produce(n, a):
        for i in range(n):
            yield i
        for x in a:
            yield x

    def stops():
        yield shared
        raise ValueError('nothing more')

    class Svc(object):
        def __repr__(self):
            return '<Svc>'

        @strip
        def echo(self, *a):
            log.add('svc.echo', len(a))
            return a[0] if a else None

        @strip
        def fail(self, kind):
            log.add('svc.fail', kind)
            raise ERR[kind][1]()

        @strip
        def shared(self):
            log.add('svc.shared')
            return shared

        @strip
        def twice(self):
            log.add('svc.twice')
            return [shared, shared]

        @strip
        def instance(self):
            log.add('svc.instance')
            o = values.Derived()
            o.b1, o.b2, o.d1 = 1, 2, 3
            return o

        @strip
        def items(self, n, *a):
            log.add('svc.items', n)
            return produce(n, a)

        @strip
        def _hidden(self):
            log.add('svc._hidden')
            return 'hidden'

        notcallable = 3

        @strip
        def unencodable(self, kind=0):
            log.add('svc.unencodable')
            return [NotMine, lambda: [shared, NotMine()],
                    lambda: datetime.time(1, 2), lambda: {u'f': self.echo},
                    lambda: [shared, unencodable_class], NotMineOld,
                    NotMineExit, stops][kind]()

    class Fresh(object):
        "an instance serves one request"
        def __init__(self):
            self.n = 0

        def __repr__(self):
            return '<Fresh>'

        @strip
        def bump(self):
            log.add('fresh.bump')
            self.n += 1
            return self.n

    def unencodable_class():
        pass

    class Broken(object):
        def __init__(self):
            raise ValueError('cannot be instantiated')

        @strip
        def m(self):
            log.add('broken.m')

    return {'echo': echo, 'add': add, 'fail': fail, 'svc': Svc(),
            'cls': Svc, 'deep.name.svc': Svc(), 'broken': Broken, 'fresh': Fresh,
            u'caf\xe9': echo}


def calls(sim, graph, unencodable=False):
    """
    One request: (description, target, args, outcome).  outcome:
    ('echo', value), ('value', canon), ('error', code, text), ('any',),
    ('unencodable',).
    """
    k = sim.choose(14 if unencodable else 13)
    if k == 12:
        n = sim.choose(4)
        v = [graph() for _ in range(sim.choose(3))]
        return (sim.pick(['svc.items', 'cls.items']), [n] + v,
                ('echo', range(n) + v))
    if k == 0:
        v = graph()
        t = sim.pick(['echo', 'svc.echo', 'cls.echo', 'deep.name.svc.echo'])
        return (t, [v], ('echo', v))
    if k == 1:
        a, b = sim.choose(100), sim.choose(100)
        return ('add', [a, b], ('echo', a + b))
    if k in (2, 3):
        e = sim.pick(ERRORS)
        t = sim.pick(['fail', 'svc.fail', 'cls.fail'])
        return (t, [e[0]], ('error', e[2], e[3]))
    if k == 4:
        return (sim.pick(['nothing', 'no.such', 'svc', 'svc.echo.x',
                          'echo.x', 'deep.name', u'\xe9.\xe9', '.', '..']),
                [1], ('error', None, None))
    if k == 5:
        return (sim.pick(['svc.nope', u'svc.\xe9', 'svc.', 'cls.nope',
                          'svc.echo ', 'svc. echo', 'svc.Echo']),
                [], ('error', None, None))
    if k == 6:
        return (sim.pick(['svc._hidden', 'svc.__init__', 'svc.notcallable',
                          'cls.__class__']), [], ('error', None, None))
    if k == 7:
        return (sim.pick(['add', 'svc.shared']), [1, 2, 3, 4],
                ('error', 'TypeError', None))
    if k == 8:
        return (sim.pick(['broken.m', 'broken']), [],
                ('error', 'ValueError', None))
    if k == 9:
        return (sim.pick(['svc.shared', 'cls.shared']), [],
                ('echo', {u'shared': [1, 2, u'three']}))
    if k == 10:
        if sim.choose(2):
            s = {u'shared': [1, 2, u'three']}
            return ('svc.twice', [], ('echo', [s, s]))
        o = values.Derived()
        o.b1, o.b2, o.d1 = 1, 2, 3
        return ('svc.instance', [], ('echo', o))
    if k == 11:
        return ('fresh.bump', [], ('echo', 1))
    return ('svc.unencodable', sim.pick([[], [0], [1], [2], [3], [4], [5], [6],
                                        [7]]),
            ('unencodable',))


def flex(sim, graph, ids, unencodable=False):
    """
    One RemoteObject message: (message, outcome); outcome as in calls, plus
    ('ack', body).
    """
    ids[0] += 1
    mid = u'%08X-0000-4000-8000-%012X' % (ids[0], ids[0])
    kw = {'messageId': mid, 'clientId': sim.pick([None, u'CLIENT']),
          'timestamp': sim.pick([0, 1300000000]), 'timeToLive': 0,
          'headers': {}}
    if sim.choose(2):
        kw['headers'][u'DSId'] = sim.pick([u'nil', u'DS-ONE', u'DS-TWO'])
    k = sim.weighted([60, 12, 8, 8, 6])
    if k == 0:
        target, args, outcome = calls(sim, graph, unencodable)
        target = unicode(target) if isinstance(target, str) else target
        m = messaging.RemotingMessage(body=args, **kw)
        if '.' in target and sim.choose(2):
            d, _, op = target.rpartition('.')
            m.destination, m.operation = d, op
        else:
            m.destination, m.operation = sim.pick([None, u'']), target
        return m, outcome
    if k == 1:
        m = messaging.CommandMessage(body={}, destination=u'', **kw)
        m.operation = sim.pick([5, 12, 8, 0, 9, 1000])
        return m, {5: ('ack', True), 12: ('ack', None)}.get(
            m.operation, ('error', 'Server.Call.Failed', None))
    if k == 2:
        return messaging.AsyncMessage(body=u'hi', destination=u'd', **kw), (
            'ack', True)
    if k == 3:
        return messaging.AcknowledgeMessage(body=u'hi', **kw), ('ack', True)
    m = messaging.AbstractMessage(body=u'hi', **kw)
    return m, ('error', 'Server.Call.Failed', None)


def raw_envelope(requests, version, args3, headers=()):
    """
    Bytes of an envelope [(id, target, args)]; args3: ids whose arguments
    travel as one AMF3 array, as some clients send them.
    """
    import struct
    e = envelope([], version, headers)
    # version, count and the headers
    h = remoting.encode(e, strict=True).getvalue()[:-2]
    out = [h, struct.pack('>H', len(requests))]
    for rid, target, args in requests:
        for t in (target, rid):
            t = t.encode('utf-8') if isinstance(t, unicode) else t
            out.append(struct.pack('>H', len(t)) + t)
        if rid in args3:
            if isinstance(args, tuple):
                args = list(args)
            b = '\x11' + pyamf.encode(args, encoding=pyamf.AMF3).getvalue()
        else:
            e = remoting.Envelope(version)
            e[u'/1'] = remoting.Request('t', list(args))
            b = remoting.encode(e).getvalue()
            # version, counts, 't', '/1', length
            b = b[6 + 3 + 4 + 4:]
        out.append(struct.pack('>L', len(b)) + b)
    return ''.join(out)


def count(data):
    """Number of bodies an (undecorated) envelope announces."""
    import struct
    v, h, n = struct.unpack('>HHH', data[:6])
    return n if h == 0 else None


MSG = ('body', 'clientId', 'correlationId', 'destination', 'extendedData',
       'faultCode', 'faultDetail', 'faultString', 'headers', 'messageId',
       'rootCause', 'timeToLive', 'timestamp')


def view(m):
    """Comparable description of a decoded response."""
    b = m.body
    if isinstance(b, remoting.ErrorFault):
        return (m.status, 'fault', b.code, b.description, b.level,
                bool(b.details))
    if isinstance(b, messaging.AcknowledgeMessage):
        out = [m.status, b.__class__.__name__]
        for n in MSG:
            v = getattr(b, n, None)
            if n in ('clientId', 'messageId', 'timestamp'):
                v = type(v).__name__
            elif n in ('faultDetail', 'extendedData'):
                v = bool(v)
            elif n == 'headers' and isinstance(v, dict):
                v = dict(v)
                if not unicode(v.get('DSId')).startswith('DS-'):
                    v['DSId'] = 'fresh'
                v = values.canon(v)
            else:
                v = values.canon(v)
            out.append((n, v))
        return tuple(out)
    return (m.status, 'value', values.canon(b))


def logger(sim):
    """A logger as an application would pass it, at some level."""
    import logging
    log = logging.getLogger('sim')
    log.setLevel(sim.pick([logging.NOTSET, logging.DEBUG, logging.INFO,
                           logging.ERROR]))
    return log


def expect(sim, what, m, outcome, debug=None):
    """Compares a decoded response with the outcome its request must have."""
    b = m.body
    if debug is not None and m.status == remoting.STATUS_ERROR:
        d = b.faultDetail if isinstance(b, messaging.ErrorMessage) else \
            b.details
        sim.check(bool(d) == debug, 'details', '%s: %s debug mode the details '
                  'of the error are %r', what, 'in' if debug else 'outside',
                  d)
    ack = isinstance(b, messaging.AcknowledgeMessage)
    if outcome[0] == 'error':
        sim.check(m.status == remoting.STATUS_ERROR, 'status',
                  '%s: an error is answered with status %s: %r', what,
                  m.status, b)
        if ack:
            sim.check(isinstance(b, messaging.ErrorMessage), 'error-message',
                      '%s: answered %r', what, b)
            code, text = b.faultCode, b.faultString
        else:
            sim.check(isinstance(b, remoting.ErrorFault), 'fault',
                      '%s: answered %r', what, b)
            code, text = b.code, b.description
        if outcome[1] is not None:
            sim.check(code == outcome[1], 'error-code',
                      '%s: code %r instead of %r', what, code, outcome[1])
        if outcome[2] is not None and not (ack and outcome[1] ==
                                           'OSError'):
            sim.check(text == outcome[2], 'error-text',
                      '%s: text %r instead of %r', what, text, outcome[2])
        return
    sim.check(m.status == remoting.STATUS_OK, 'status',
              '%s: answered with status %s: %r', what, m.status, b)
    if ack:
        sim.check(type(b).__name__ == 'AcknowledgeMessage', 'acknowledge',
                  '%s: answered %r', what, b)
        b = b.body
    got, want = values.canon(b), values.canon(outcome[1])
    sim.check(got == want, 'result', '%s: %s', what, values.diff(want, got))


def envelope(requests, version, headers=()):
    e = remoting.Envelope(version)
    for k, v in headers:
        e.headers[k] = v
    for rid, target, args in requests:
        e[rid] = remoting.Request(target, args)
    return e
