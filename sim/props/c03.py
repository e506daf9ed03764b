# C03: concurrent codecs in caller threads are isolated from each other.
import collections
import decimal

import pyamf
from pyamf import remoting
from pyamf.remoting.gateway.wsgi import WSGIGateway

import core
import sched
import snapshot
import values


class PrivA(object):
    class __amf__:
        static = ('p1',)
        exclude = ('secret',)


class PrivB(object):
    class __amf__:
        dynamic = True


class PrivC(object):
    pass


class PrivD:
    pass


# never registered, with a common base that is not registered either
class FamilyBase(object):
    class __amf__:
        static = ('fam',)
        exclude = ('hush',)


class FamilyA(FamilyBase):
    class __amf__:
        static = ('one',)


class FamilyB(FamilyBase):
    class __amf__:
        synonym = {'two': 'deux'}


# subclasses of dict and of the builtin bases are compiled at first use too
class FamilyBag(pyamf.ASObject):
    class __amf__:
        static = ('fam',)


class FamilyDict(dict):
    pass


FAMILY = [FamilyA, FamilyB, FamilyBase, FamilyBag, FamilyDict]


class LazyBase(object):
    class __amf__:
        static = ('base',)
        synonym = {'shown': 'wire'}


class LazyLeaf(LazyBase):
    class __amf__:
        static = ('leaf',)
        readonly = ('fixed',)
        exclude = ('hid',)


PRIV = [PrivA, PrivB, PrivC, PrivD]


def lazy_loader(alias):
    return {'lazy.Base': LazyBase, 'lazy.Leaf': LazyLeaf}.get(alias)


def echo(v):
    return v


def fail(v):
    raise ValueError('no ' + str(type(v).__name__))


class Holder(object):
    pass


def fresh(h):
    snapshot.restore()
    values.register_all()
    pyamf.register_class_loader(lazy_loader)
    h.gateway = WSGIGateway({'echo': echo, 'fail': fail}, timezone_offset=None)


def outcome(f):
    try:
        return ('ok', f())
    except (sched.Abort, core.Violation, core.HarnessError):
        raise
    except Exception, e:
        return ('raise', type(e).__name__, core._safe(e)[:200])


def attrs_canon(o):
    """any instance: its class name and attributes"""
    if isinstance(o, list):
        return [attrs_canon(x) for x in o]
    if isinstance(o, dict):
        return (type(o).__name__, getattr(o, 'alias', None),
                sorted((unicode(k), values.canon(v, exact=True))
                       for k, v in o.items()))
    return (type(o).__name__,
            sorted((k, values.canon(v, exact=True))
                   for k, v in o.__dict__.items()))


def make_op(sim, k, shared):
    """Returns (name, callable(h)); everything random is decided here."""
    amf = sim.pick([3, 0])

    def graph():
        g = values.Gen(sim, amf, budget=sim.pick([6, 14]))
        n = 1 + sim.small(2)
        vals = [g.instance(1) for _ in range(n)]
        if sim.chance(50):
            vals.append(g.value(1))
        return vals

    kind = sim.weighted([28, 23, 12, 10, 12, 8, 6, 5, 16])
    if kind == 0:
        if shared and sim.chance(40):
            amf, vals = sim.pick(shared)
        else:
            vals = graph()
            shared.append((amf, vals))

        def encode(h):
            return pyamf.encode(vals, encoding=amf).getvalue()
        return 'encode%d' % amf, encode
    if kind == 1:
        vals = graph()
        data = pyamf.encode(vals, encoding=amf).getvalue()

        def decode(h):
            return values.canon(list(pyamf.decode(data, encoding=amf)),
                                exact=True)
        return 'decode%d' % amf, decode
    if kind == 2:
        # one codec, several elements, some of which cannot be encoded
        g = values.Gen(sim, amf, budget=10)
        vals = [g.instance(1), g.value(1), make_op, g.instance(1)]

        def several(h):
            e = pyamf.get_encoder(amf)
            out = []
            for v in vals:
                out.append(outcome(lambda: e.writeElement(v))[0:2])
            return out, e.stream.getvalue()
        return 'several%d' % amf, several
    if kind == 3:
        # classes of this thread only come and go
        K = PRIV[k % len(PRIV)]
        name = 'priv.%s' % (K.__name__,)
        o = K()
        o.p1 = 1
        o.secret = 'x'
        o.other = [1, 2]
        if K in (PrivC, PrivD):
            del o.secret

        def private(h):
            out = []
            for i in range(2):
                a = pyamf.register_class(K, name)
                b = pyamf.encode([o, o], encoding=amf).getvalue()
                back = pyamf.decode(b, encoding=amf).next()
                out.append((a.alias, b, attrs_canon(back)))
                pyamf.unregister_class(name)
                out.append(outcome(
                    lambda: pyamf.load_class(name) and 'known')[:2])
                out.append(attrs_canon(
                    pyamf.decode(b, encoding=amf).next()))
            return out
        return 'private', private
    if kind == 4:
        # classes found by the class loader at first use
        data = []
        for K, name in ((LazyBase, 'lazy.Base'), (LazyLeaf, 'lazy.Leaf')):
            o = pyamf.TypedObject(name)
            o['base'] = 1
            o['wire'] = u's'
            if K is LazyLeaf:
                o['leaf'] = None
                o['fixed'] = 5
                o['hid'] = 6
            data.append(o)
        data = sim.shuffle(data)
        b = pyamf.encode(*data, **{'encoding': amf}).getvalue()

        def lazy(h):
            got = list(pyamf.decode(b, encoding=amf))
            return ([attrs_canon(x) for x in got],
                    pyamf.encode(*got, **{'encoding': amf}).getvalue())
        return 'lazy%d' % amf, lazy
    if kind == 5:
        g = values.Gen(sim, 0, budget=8)
        bodies = [[g.instance(1)], [u'x']]
        env = remoting.Envelope(pyamf.AMF0)
        names = sim.shuffle(['echo', 'fail', 'echo', 'nope'])[:2]
        for i, n in enumerate(names):
            env['/%d' % (i + 1)] = remoting.Request(n, body=bodies[i % 2])
        req = remoting.encode(env).getvalue()

        def serve(h):
            from cStringIO import StringIO
            st = []
            body = h.gateway({
                'REQUEST_METHOD': 'POST', 'CONTENT_LENGTH': str(len(req)),
                'wsgi.input': StringIO(req)},
                lambda s, hd, *a: st.append(s))
            r = remoting.decode(''.join(body))
            return (st, [(t, m.status,
                          values.canon(m.body, exact=True) if m.status == 0 else
                          (m.body.code, m.body.description))
                         for t, m in r.bodies])
        return 'serve', serve
    if kind == 6:
        vals = [decimal.Decimal('1.5'), collections.deque([1, 2]),
                values.SimError('boom'), {'k': 3 + k}]
        vals = sim.shuffle(vals)

        def adapted(h):
            return pyamf.encode(vals, encoding=amf).getvalue()
        return 'adapted%d' % amf, adapted
    if kind == 8:
        objs = []
        for _ in range(1 + sim.choose(3)):
            K = sim.pick(FAMILY)
            o = K()
            o.fam = 1
            o.hush = 'secret'
            o.one = u'1'
            o.two = u'2'
            o.free = None
            if isinstance(o, dict):
                o['free'] = 1
                o['other'] = u'o'
            objs.append(o)

        def family(h):
            return pyamf.encode(objs, encoding=amf).getvalue()
        return 'family%d' % amf, family
    ks = [values.Derived, values.Sealed, values.Props, values.Syn,
          values.Slotted, values.Anon]
    K = sim.pick(ks)

    def alias(h):
        a = pyamf.get_class_alias(K) if K is not values.Anon else None
        if a is None:
            return None
        if not a.is_compiled():
            a.compile()
        return (a.alias, a.klass.__name__, a.dynamic, a.sealed,
                sorted(a.static_attrs or ()), sorted(a.exclude_attrs or ()),
                sorted(a.readonly_attrs or ()),
                sorted((a.synonym_attrs or {}).items()))
    return 'alias', alias


def run(sim):
    h = Holder()
    fresh(h)
    nt = 2 + sim.weighted([60, 30, 10])
    plans = []
    shared = []
    for k in range(nt):
        plans.append([make_op(sim, k, shared)
                      for _ in range(1 + sim.small(2))])
    by_site = sim.chance(50)
    if sim.chance(80 if by_site else 30) and plans[0][0][0] != 'private':
        # the same first use from every thread
        for ops in plans[1:]:
            ops[0] = plans[0][0]
    for k, ops in enumerate(plans):
        sim.log('t%d: %s', k, ', '.join(n for n, f in ops))

    s = sched.ThreadSched(sim, max_preempt=sim.pick([2, 4, 10]))
    solo = []
    for ops in plans:
        fresh(h)

        def alone():
            return [outcome(lambda: f(h)) for n, f in ops]
        solo.append(s.record(alone) if by_site else alone())
    if by_site:
        s.choose_site()

    fresh(h)
    warm = sim.chance(15)
    if warm:
        for n, f in plans[0]:
            outcome(lambda: f(h))
    for k, ops in enumerate(plans):
        def body(ops=ops):
            out = []
            for n, f in ops:
                out.append(outcome(lambda: f(h)))
            return out
        s.spawn('t%d' % k, body)
    s.run()
    for k, t in enumerate(s.tasks):
        for (name, f), want, got in zip(plans[k], solo[k], t.result):
            if want != got:
                sim.log('t%d %s: %r', k, name, got)
                sim.fail('not-as-alone', 'thread %d, %s: alone %s, '
                         'concurrently %s', k, name, clip(want, got),
                         clip(got, want))
    if s.preemptions:
        sim.nontrivial = True
    for a, b in s.trail:
        sim.state((a, b))


def clip(x, other):
    x, other = repr(x), repr(other)
    i = 0
    while i < min(len(x), len(other)) and x[i] == other[i]:
        i += 1
    if len(x) <= 300:
        return x
    return '..' + x[max(0, i - 60):i + 200]
