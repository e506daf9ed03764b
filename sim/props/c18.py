# C18: custom types, error classes and payload processors against a model.
import array
import collections
import decimal
import sets
import weakref
from types import GeneratorType

import pyamf
from pyamf import remoting

import values


class P(object):
    def __init__(self, n=0):
        self.n = n


class Q(P):
    pass


class L(list):
    n = 1


class D(dict):
    n = 2


class O:
    """an old-style class"""

    def __init__(self, n=0):
        self.n = n


class Gone(weakref.ref):
    """a weak reference whose object is no more"""

    def __call__(self):
        return None


class Deque(collections.deque):
    pass


class Ordered(collections.OrderedDict):
    pass


class HandlerDown(Exception):
    pass


class AppError(Exception):
    pass


class SubError(AppError):
    pass


class OldError(LookupError):
    pass


def odd(x):
    return isinstance(x, (P, O)) and x.n % 2 == 1


def even(x):
    return isinstance(x, (P, O)) and x.n % 2 == 0


class Handler(object):
    """What the application declares for a type."""

    def __init__(self, n, kind, sim):
        self.n = n
        self.kind = kind
        self.sim = sim
        self.calls = 0

    def __hash__(self):
        return 7000 + self.n

    def __eq__(self, other):
        return self is other

    def answer(self, x):
        """('value', v), ('raise',); the model and the handler agree"""
        n = getattr(x, 'n', 0)
        if n == 13:
            return ('raise',)
        k = self.kind
        if k == 'text':
            return ('value', u'%d:%d' % (self.n, n))
        if k == 'pair':
            return ('value', [n, u'%d' % self.n, None])
        if k == 'none' or k == 'writes-null':
            return ('value', None)
        if k == 'writes':
            return ('value', [u'written', n])
        if k == 'generator':
            return ('value', [n, u'made', self.n])
        return ('value', 0.5 + self.n)

    def __call__(self, x, encoder=None):
        self.calls += 1
        a = self.answer(x)
        if a[0] == 'raise':
            self.sim.fault('handler-raises')
            raise HandlerDown('%d' % self.n)
        if self.kind == 'writes':
            encoder.writeElement(a[1])
            return None
        if self.kind == 'writes-null':
            encoder.writeElement(None)
            return None
        if self.kind == 'generator':
            return generate(a[1], False)
        return a[1]


KINDS = ['text', 'pair', 'none', 'writes', 'writes-null', 'number',
         'generator']

# the generators of this run: (generator, items, whether it raises)
GENERATORS = {}


def generate(items, fails):
    def gen():
        for x in items:
            yield x
        if fails:
            raise HandlerDown('generator')
    return gen()


def made(items, fails):
    g = generate(items, fails)
    GENERATORS[id(g)] = (g, items, fails)
    return g
TYPES = [('P', P), ('Q', Q), ('L', L), ('D', D), ('O', O),
         ('(P, L)', (P, L)), ('[Q, D]', [Q, D]), ('(O, D, L)', (O, D, L)),
         ('odd', odd), ('even', even)]
GARBAGE = [5, u'text', None, (P, 5), [u'x']]


def key(t):
    return tuple(t) if isinstance(t, list) else t


def applies(t, x):
    if t in (odd, even):
        return t(x)
    return isinstance(x, t)


class Model(object):
    def __init__(self):
        self.types = []             # (key, handler)
        self.errors = dict((c.__name__, c) for c in (
            KeyError, LookupError, IndexError, NameError, TypeError))
        self.processors = []

    def has(self, t):
        return [h for k, h in self.types if k == key(t)]

    def answers(self, x):
        """what may be done about x: a list of answers, [] for nothing"""
        return [h.answer(x) for t, h in self.types if applies(t, x)]

    def adapted(self, x, strict):
        t = type(x)
        if t in (collections.deque, array.ArrayType, Deque):
            return [('value', list(x))]
        if t in (sets.Set, sets.ImmutableSet):
            return [('value', list(x))]
        if t in (collections.defaultdict, collections.OrderedDict,
                 collections.Counter, Ordered):
            return [('value', dict(x))]
        if t is weakref.WeakValueDictionary:
            return [('value', dict(x))]
        if t is decimal.Decimal:
            return [('raise',) if strict else ('value', float(x))]
        if t is Gone:
            return [('value', None)]
        if isinstance(x, weakref.ref):
            return [('value', x())]
        return []

    def may_raise(self, x, strict, seen=0):
        if seen > 20:
            return False
        if type(x) is GeneratorType:
            g, items, fails = GENERATORS[id(x)]
            return fails or self.may_raise(items, strict, seen + 1)
        if type(x) in (list, tuple):
            return bool([y for y in x if self.may_raise(y, strict, seen + 1)])
        a = self.adapted(x, strict) or self.answers(x)
        if a:
            return bool([r for r in a if r[0] == 'raise' or
                         self.may_raise(r[1], strict, seen + 1)])
        if isinstance(x, dict):
            return bool([y for y in x.values()
                         if self.may_raise(y, strict, seen + 1)])
        if isinstance(x, list):
            return bool([y for y in x if self.may_raise(y, strict, seen + 1)])
        if isinstance(x, (P, O)):
            return bool([y for y in x.__dict__.values()
                         if self.may_raise(y, strict, seen + 1)])
        return False

    def match(self, x, got, strict):
        """whether the peer may receive x as got"""
        t = type(x)
        if t is GeneratorType:
            return self.each(GENERATORS[id(x)][1], got, strict)
        if x is None or t in (int, float, unicode, bool):
            return got == x and (isinstance(got, bool) == (t is bool)) and \
                isinstance(got, basestring) == (t is unicode)
        if t in (list, tuple):
            return self.each(x, got, strict)
        a = self.adapted(x, strict) or self.answers(x)
        if a:
            for r in a:
                if r[0] == 'value' and self.match(r[1], got, strict):
                    return True
            return False
        if isinstance(x, dict):
            return isinstance(got, dict) and \
                set(unicode(k) for k in x) == set(got) and \
                not [k for k in x if not self.match(x[k], got[unicode(k)],
                                                    strict)]
        if isinstance(x, list):
            return self.each(x, got, strict)
        return isinstance(got, pyamf.ASObject) and \
            set(x.__dict__) == set(got) and \
            not [k for k, v in x.__dict__.items()
                 if not self.match(v, got[k], strict)]

    def each(self, x, got, strict):
        return type(got) in (list, tuple) and len(got) == len(x) and \
            not [1 for a, b in zip(x, got) if not self.match(a, b, strict)]


def value(sim, depth, keep):
    k = sim.weighted([20, 14, 10, 10, 8, 14, 6 if depth else 12,
                      6 if depth else 12, 14])
    n = sim.weighted([5, 5, 5, 5, 2])
    n = [0, 1, 6, 7, 13][n]
    if k == 0:
        return P(n)
    if k == 1:
        return Q(n)
    if k == 2:
        return O(n)
    if k == 3:
        l = L([n, u'in'])
        l.n = n
        return l
    if k == 4:
        d = D({u'k': n})
        d.n = n
        return d
    if k == 5:
        return sim.pick([u'plain', 4, None, True, 1.5])
    if k == 6 and depth < 3:
        return [value(sim, depth + 1, keep) for _ in range(sim.choose(4))]
    if k == 7 and depth < 3:
        o = P(0)
        o.inner = value(sim, depth + 1, keep)
        return o
    k = sim.choose(13 if depth else 10)
    if k >= 10:
        items = [value(sim, depth + 1, keep) for _ in range(sim.choose(3))] \
            if depth < 3 else [n]
        fails = sim.chance(8)
        if fails:
            sim.fault('generator-raises')
        sim.probe('generator')
        return made(items, fails)
    if k == 0:
        return sim.pick([collections.deque, Deque])([n, u'd'])
    if k == 1:
        d = collections.defaultdict(list)
        d[u'k'] = value(sim, depth + 1, keep) if depth < 3 else 1
        return d
    if k == 2:
        return sim.pick([collections.OrderedDict, Ordered])(
            [(u'b', n), (u'a', u'x')])
    if k == 3:
        return collections.Counter([u'a', u'b', u'a'])
    if k == 4:
        return sim.pick([sets.Set, sets.ImmutableSet])([n])
    if k == 5:
        return array.array('i', [1, n, 3])
    if k == 6:
        return decimal.Decimal('1.5')
    if k == 7:
        o = P(n)
        keep.append(o)
        return weakref.ref(o)
    if k == 8:
        o = P(n)
        keep.append(o)
        sim.probe('dead-reference')
        return Gone(o)
    o = P(n)
    keep.append(o)
    d = weakref.WeakValueDictionary()
    d[u'w'] = o
    return d


EMPTY = {'none': None, 'zero': 0, 'list': [], 'text': u''}


class Processor(object):
    def __init__(self, n, sim):
        self.n = n
        self.kind = sim.pick(['wrap', 'wrap', 'wrap', 'same', 'same'] +
                             sorted(EMPTY))
        self.sim = sim
        self.down = 0
        self.seen = []

    def __hash__(self):
        return 8000 + self.n

    def __eq__(self, other):
        return self is other

    def __call__(self, payload, extra):
        self.seen.append(payload)
        self.sim.check(isinstance(extra, dict), 'processor', 'a processor '
                       'got %r instead of the dict of the context', extra)
        if self.down:
            self.down -= 1
            self.sim.fault('processor-raises')
            raise HandlerDown('processor')
        if self.kind == 'wrap':
            return [self.n, payload]
        if self.kind == 'same':
            return payload
        return EMPTY[self.kind]


class World(object):
    def __init__(self, sim):
        self.sim = sim
        self.m = Model()
        self.keep = []
        self.codecs = {}
        self.n = 0
        self.refused = 0

    # -- what is declared ----------------------------------------------------
    def add_type(self):
        sim = self.sim
        name, t = sim.pick(TYPES)
        if sim.chance(12):
            t = sim.pick(GARBAGE)
            self.refuse('add_type(%r)' % (t,), TypeError,
                        lambda: pyamf.add_type(t, self.handler()))
            return
        h = self.handler()
        known = self.m.has(t)
        if known:
            self.refuse('add_type(%s)' % name, KeyError,
                        lambda: pyamf.add_type(t, h))
            return
        sim.log('add type %s: %s', name, h.kind)
        pyamf.add_type(t, h)
        self.m.types.append((key(t), h))
        self.codecs.clear()

    def handler(self):
        self.n += 1
        return Handler(self.n, self.sim.pick(KINDS), self.sim)

    def refuse(self, what, error, f):
        self.refused += 1
        self.sim.fault('refused-declaration')
        self.sim.log('%s is refused', what)
        try:
            r = f()
        except error:
            return
        self.sim.fail('not-refused', '%s gave %r', what, r)

    def remove_type(self):
        sim = self.sim
        name, t = sim.pick(TYPES)
        known = self.m.has(t)
        if not known:
            self.refuse('remove_type(%s)' % name, KeyError,
                        lambda: pyamf.remove_type(t))
            return
        sim.log('remove type %s', name)
        r = pyamf.remove_type(t)
        sim.check(r is known[0], 'removed', 'remove_type(%s) returned %r',
                  name, r)
        self.m.types = [(k, h) for k, h in self.m.types if k != key(t)]
        self.codecs.clear()

    def add_error(self):
        sim = self.sim
        c = sim.pick([AppError, SubError, OldError])
        code = sim.pick([u'App.Error', 'App.Error', 'Other', 'TypeError',
                         u'\xe9'])
        k = sim.choose(8)
        if k == 0:
            bad = sim.pick([P, O])
            self.refuse('add_error_class(%s)' % bad.__name__, TypeError,
                        lambda: pyamf.add_error_class(bad, code))
        elif k == 1:
            self.refuse('add_error_class of an instance', TypeError,
                        lambda: pyamf.add_error_class(c('x'), code))
        elif code in self.m.errors:
            self.refuse('add_error_class(%r)' % code, ValueError,
                        lambda: pyamf.add_error_class(c, code))
        else:
            sim.log('error %r is %s', code, c.__name__)
            pyamf.add_error_class(c, code)
            self.m.errors[code] = c

    def remove_error(self):
        sim = self.sim
        m = self.m
        if sim.choose(2):
            code = sim.pick([u'App.Error', 'Other', 'TypeError', u'\xe9'])
            if code not in m.errors:
                self.refuse('remove_error_class(%r)' % code, ValueError,
                            lambda: pyamf.remove_error_class(code))
                return
            pyamf.remove_error_class(code)
            del m.errors[code]
            sim.log('error %r removed', code)
            return
        c = sim.pick([AppError, SubError, OldError, KeyError])
        codes = [k for k, v in m.errors.items() if v is c]
        if not codes:
            self.refuse('remove_error_class(%s)' % c.__name__, ValueError,
                        lambda: pyamf.remove_error_class(c))
            return
        pyamf.remove_error_class(c)
        # one of the codes of the class
        left = [k for k in codes if self.raised(k) is c]
        sim.check(len(left) < len(codes), 'error-class', '%s was removed but '
                  'is still raised for %r', c.__name__, codes)
        for k in codes:
            if k not in left:
                del m.errors[k]
        sim.log('error %s removed', c.__name__)

    def processor(self):
        sim = self.sim
        if sim.chance(15):
            self.refuse('add_post_decode_processor', TypeError,
                        lambda: pyamf.add_post_decode_processor(u'text'))
            return
        if len(self.m.processors) > 3:
            return
        p = Processor(len(self.m.processors), sim)
        sim.log('processor %d: %s', p.n, p.kind)
        pyamf.add_post_decode_processor(p)
        self.m.processors.append(p)

    # -- what is done ----------------------------------------------------------
    def exchange(self):
        """Values go out through an encoder and come back to the peer."""
        sim = self.sim
        m = self.m
        amf = sim.pick([3, 0])
        strict = bool(sim.choose(2))
        k = (amf, strict)
        fresh = k not in self.codecs or sim.chance(40)
        if fresh:
            enc = pyamf.get_encoder(amf, strict=strict)
            dec = pyamf.get_decoder(amf, strict=False)
            self.codecs[k] = enc, dec, [0]
        enc, dec, fed = self.codecs[k]
        for _ in range(1 + sim.choose(3)):
            v = value(sim, 0, self.keep)
            may = m.may_raise(v, strict)
            before = enc.stream.getvalue()
            try:
                enc.writeElement(v)
            except (HandlerDown, pyamf.EncodeError), e:
                sim.log('encoding raised %s', type(e).__name__)
                sim.check(may, 'encode-failed', 'no handler failed but '
                          'encoding %s raised %s: %s', text(v),
                          type(e).__name__, e)
                sim.check(enc.stream.getvalue() == before, 'bytes-left',
                          'a failed handler left bytes in the output')
                continue
            data = enc.stream.getvalue()
            dec.send(data[fed[0]:])
            fed[0] = len(data)
            ps = m.processors
            for p in ps:
                p.seen = []
                p.down = 0
            down = None
            if ps and sim.chance(12):
                down = sim.pick(ps)
                down.down = 1
            try:
                got = dec.next()
            except HandlerDown:
                sim.check(down is not None, 'processor', 'no processor '
                          'failed')
                # the application turns to the next message
                self.codecs.clear()
                self.unseen(down)
                return
            except (StopIteration, IOError, pyamf.BaseError, ValueError,
                    KeyError), e:
                sim.fail('undecodable', '%s was sent and the peer has %s %s',
                         text(v), type(e).__name__, e)
            sim.check(down is None, 'processor', 'a processor raised and '
                      'decoding went on')
            inner = got
            for p in reversed(ps):
                sim.check(len(p.seen) == 1, 'processor', 'processor %d saw '
                          '%d payloads', p.n, len(p.seen))
                x = p.seen[0]
                if p.kind == 'wrap':
                    ok = type(inner) is list and len(inner) == 2 and \
                        inner[0] == p.n and inner[1] is x
                else:
                    ok = inner is (x if p.kind == 'same' else EMPTY[p.kind])
                sim.check(ok, 'processor', 'the payload did not pass '
                          'processor %d of %d (%s): %r', p.n, len(ps),
                          p.kind, inner)
                inner = x
            sim.check(m.match(v, inner, strict), 'encoded-otherwise',
                      '%s arrived as %r with the types %s', text(v), inner,
                      ['%s: %s' % (name(t), h.kind) for t, h in m.types])
            sim.check(dec.stream.at_eof(), 'bytes-too-many', '%s left %d '
                      'bytes unread', text(v), dec.stream.remaining())
            sim.log('%s arrived', text(v))

    def unseen(self, down):
        for p in self.m.processors:
            self.sim.check(len(p.seen) == (1 if p.n <= down.n else 0),
                           'processor', 'processor %d saw %d payloads and '
                           '%d failed', p.n, len(p.seen), down.n)

    def raised(self, code):
        """the class raised for a fault with this code"""
        f = remoting.ErrorFault(code=code, description=u'it')
        try:
            f.raiseException()
        except Exception, e:
            return e.__class__

    def faults(self):
        sim = self.sim
        code = sim.pick([u'App.Error', 'Other', 'TypeError', 'KeyError',
                         u'\xe9', u'nobody'])
        want = self.m.errors.get(code, remoting.RemotingError)
        ps = list(pyamf.POST_DECODE_PROCESSORS)
        got = self.raised(code)
        sim.check(got is want, 'error-class', 'a fault with the code %r '
                  'raised %s instead of %s', code, got, want.__name__)
        sim.log('%r raised %s', code, got.__name__)


def text(v):
    if isinstance(v, (P, O)):
        return '%s(%s)' % (v.__class__.__name__, ', '.join(
            text(x) for k, x in sorted(v.__dict__.items())))
    if type(v) in (list, tuple, L):
        return '%s%s' % (v.__class__.__name__, [text(x) for x in v])
    if isinstance(v, weakref.ref):
        return v.__class__.__name__
    if type(v) is GeneratorType:
        return 'generator%s' % [text(x) for x in GENERATORS[id(v)][1]]
    if isinstance(v, weakref.WeakValueDictionary):
        return 'WeakValueDictionary'
    if isinstance(v, dict):
        return '%s%s' % (v.__class__.__name__, sorted(
            (k, text(x)) for k, x in v.items()))
    return repr(v)


def name(t):
    if isinstance(t, tuple):
        return '(%s)' % ', '.join(x.__name__ for x in t)
    return t.__name__


def run(sim):
    GENERATORS.clear()
    w = World(sim)
    for i in range(4 + sim.small(16)):
        sim.steps += 1
        k = sim.weighted([16, 10, 8, 6, 4, 40, 10])
        [w.add_type, w.remove_type, w.add_error, w.remove_error,
         w.processor, w.exchange, w.faults][k]()
        for nm, t in TYPES:
            known = w.m.has(t)
            try:
                got = pyamf.get_type(t)
            except KeyError:
                got = None
            sim.check(got is (known[0] if known else None), 'get-type',
                      'get_type(%s) gives %r', nm, got)
    w.exchange()
    if w.refused or sim.faults:
        sim.nontrivial = True
    sim.state((tuple(sorted(name(t) + h.kind for t, h in w.m.types)),
               tuple(sorted(c.__name__ for c in w.m.errors.values())),
               len(w.m.processors)))
