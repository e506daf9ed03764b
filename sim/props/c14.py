# C14: the class registry against a model, with failing loaders and imports.
import imp
import struct
import sys

import pyamf
from pyamf import amf3  # noqa

import core


class K0(object):
    pass


class K1(object):
    class __amf__:
        exclude = ('hidden',)


class K2(object):
    class __amf__:
        alias = 'meta.K2'


class K3:
    pass


class K4(object):
    pass


class Mandatory:
    """cannot be instantiated by a decoder: refused by the registry"""

    def __init__(self, needed):
        self.needed = needed


# in the namespace of a package, but from elsewhere
class Sub(object):
    pass


class Other(object):
    pass


Sub.__module__ = __name__ + '.sub'
Other.__module__ = __name__[:-1]
META = {K2: 'meta.K2'}
CLASSES = [K0, K1, K2, K3, K4, Sub, Other]


# alias types that leave a mark on what they decode
class TypeA(pyamf.ClassAlias):
    tag = 'A'

    def applyAttributes(self, obj, attrs, codec=None):
        pyamf.ClassAlias.applyAttributes(self, obj, attrs, codec=codec)
        obj.tag = self.tag


class TypeB(TypeA):
    tag = 'B'


class NoAlias(object):
    pass


class Deep(object):
    pass


class Good(object):
    pass


class Flaky(object):
    pass


ALIASES = ['reg.A', 'reg.B', u'reg.\xe9', 'meta.K2', 'noDots', 'reg.A.B',
           'simr_mod.Good', 'simr_mod.Missing', 'simr_mod.NotClass',
           'simr_mod.Alias', 'simr_bad.X', 'simr_pkg.sub.Deep',
           'simr_flaky.Flaky', 'simr_none.X', 'flex.nothing.Here',
           'pkg.K0', 'pkg.K1', 'pkg::K4', '']


class LoaderBoom(Exception):
    pass


class SimLoader(object):
    """a class loader that answers from a table and fails on demand"""

    def __init__(self, n):
        self.n = n
        self.table = {}
        self.failures = 0
        self.calls = 0

    def __hash__(self):
        return 1000 + self.n

    def __eq__(self, other):
        return self is other

    def answer(self, alias):
        if self.failures:
            return ('raise', LoaderBoom)
        return self.table.get(alias, ('none',))

    def __call__(self, alias):
        self.calls += 1
        a = self.answer(alias)
        if a[0] == 'raise':
            if self.failures:
                self.failures -= 1
            raise a[1](alias)
        if a[0] == 'none':
            return None
        if a[0] == 'alias':
            return pyamf.ClassAlias(a[1], a[2])
        return a[1]


class Modules(object):
    """simulated importable modules; some fail, some only at first"""

    def __init__(self, sim):
        self.sim = sim
        self.flaky = 0

    def find_module(self, name, path=None):
        if name.startswith('simr_') and name.split('.')[0] != 'simr_none':
            return self

    def load_module(self, name):
        if name == 'simr_bad':
            self.sim.fault('import-fails')
            raise ImportError('simr_bad is broken')
        if name == 'simr_flaky' and self.flaky > 0:
            self.flaky -= 1
            self.sim.fault('import-fails')
            raise ImportError('simr_flaky is broken for now')
        if name not in ('simr_mod', 'simr_pkg', 'simr_pkg.sub',
                        'simr_flaky'):
            raise ImportError(name)
        m = sys.modules.setdefault(name, imp.new_module(name))
        m.__file__ = '<sim>'
        if name == 'simr_mod':
            m.Good = Good
            m.NotClass = 42
            m.Alias = pyamf.ClassAlias(Deep, 'simr_mod.Alias')
        elif name == 'simr_pkg':
            m.__path__ = []
        elif name == 'simr_pkg.sub':
            m.Deep = Deep
            sys.modules['simr_pkg'].sub = m
        elif name == 'simr_flaky':
            m.Flaky = Flaky
        return m


class Reg(object):
    """one registration in force"""

    def __init__(self, klass, alias, type_):
        self.klass = klass
        self.alias = alias
        self.type = type_


UNKNOWN = ('error', 'UnknownClassAlias')


class Model(object):
    def __init__(self, mods):
        self.names = {}
        self.classes = {}
        self.loaders = []
        self.mods = mods
        self.types = {}

    def type_of(self, klass):
        for t, ks in self.types.items():
            if klass in ks:
                return t
        return pyamf.ClassAlias

    def put(self, klass, alias, plain=False):
        r = Reg(klass, alias, pyamf.ClassAlias if plain else
                self.type_of(klass))
        if alias:
            self.names[alias] = r
        self.classes[klass] = r
        return r

    def unregister(self, x):
        r = self.names.get(x) if isinstance(x, basestring) else \
            self.classes.get(x)
        if r is None:
            return False
        if self.names.get(r.alias) is r:
            del self.names[r.alias]
        if self.classes.get(r.klass) is r:
            del self.classes[r.klass]
        return True

    def expect_name(self, alias):
        """
        List of allowed outcomes of looking alias up: ('class', K, how) or
        ('error', exception name...).
        """
        if alias in self.names:
            return [('class', self.names[alias].klass, None)]
        out = []
        for l in self.loaders:
            a = l.answer(alias)
            if a[0] == 'none':
                continue
            if a[0] == 'raise':
                out.append(('error', a[1].__name__))
            elif a[0] == 'class':
                if a[1] is Mandatory:
                    out.append(('error', 'TypeError'))
                else:
                    out.append(('class', a[1], alias))
            elif a[0] == 'alias':
                out.append(('class', a[1], a[2], True))
            else:
                out.append(('error', 'TypeError'))
        if alias.startswith('flex.'):
            out.append(UNKNOWN)
        if out:
            return out
        if alias == 'simr_mod.Good':
            return [('class', Good, alias)]
        if alias == 'simr_mod.Alias':
            return [('class', Deep, alias, True)]
        if alias == 'simr_pkg.sub.Deep':
            return [('class', Deep, alias)]
        if alias == 'simr_flaky.Flaky' and (
                'simr_flaky' in sys.modules or not self.mods.flaky):
            return [('class', Flaky, alias)]
        if alias == 'simr_mod.NotClass':
            # there is something of that name, but no class
            return [('error', 'TypeError'), UNKNOWN]
        return [UNKNOWN]


def amf0_typed(alias):
    a = alias.encode('utf-8') if isinstance(alias, unicode) else alias
    return ('\x10' + struct.pack('>H', len(a)) + a +
            '\x00\x01v\x00' + struct.pack('>d', 7.0) + '\x00\x00\x09')


def amf3_typed(alias):
    a = alias.encode('utf-8') if isinstance(alias, unicode) else alias
    return ('\x0a\x0b' + chr(len(a) << 1 | 1) + a +
            '\x03v\x04\x07' + '\x01')


def wire_name(sim, amf, data):
    """the class name an encoded instance carries"""
    if amf == 0:
        if data[0] == '\x03':
            return ''
        sim.check(data[0] == '\x10', 'encoded', 'unexpected %r', data)
        n = struct.unpack('>H', data[1:3])[0]
        return data[3:3 + n]
    sim.check(data[0] == '\x0a', 'encoded', 'unexpected %r', data)
    n = ord(data[2]) >> 1
    return data[3:3 + n]


def enc(s):
    return s.encode('utf-8') if isinstance(s, unicode) else (s or '')


def run(sim):
    mods = Modules(sim)
    mods.flaky = sim.choose(3)

    def clean():
        for n in list(sys.modules):
            if n.startswith('simr_'):
                del sys.modules[n]
        if mods in sys.meta_path:
            sys.meta_path.remove(mods)
    clean()
    sim.on_cleanup(clean)
    sys.meta_path.append(mods)
    m = Model(mods)
    loaders = [SimLoader(i) for i in range(3)]
    for l in loaders:
        for _ in range(sim.small(4)):
            a = sim.pick(ALIASES[:-1])
            k = sim.weighted([40, 15, 10, 8, 8])
            if k == 0:
                l.table[a] = ('class', sim.pick(CLASSES))
            elif k == 1:
                l.table[a] = ('alias', sim.pick(CLASSES), a)
            elif k == 2:
                l.table[a] = ('garbage', sim.pick(['text', 5, [1]]))
            elif k == 3:
                l.table[a] = ('raise', LoaderBoom)
            else:
                l.table[a] = ('class', Mandatory)
    err = 0
    lookups = 0
    hist = []
    for i in range(4 + sim.small(20)):
        sim.steps += 1
        op = sim.weighted([22, 12, 8, 6, 20, 6, 16, 12, 5, 5, 6])
        if op == 0:
            K = sim.pick(CLASSES)
            a = sim.pick(ALIASES[:6] + ['simr_mod.Good', None, None])
            sim.log('register %s as %r', K.__name__, a)
            if a is None:
                r = pyamf.register_class(K)
                a = META.get(K)
            else:
                r = pyamf.register_class(K, a)
            m.put(K, a)
            sim.check(r.klass is K and enc(r.alias) == enc(a),
                      'register-result', 'register_class(%s, %r) returned '
                      '%r', K.__name__, a, r)
        elif op == 1:
            x = sim.pick(ALIASES[:6]) if sim.choose(2) else sim.pick(CLASSES)
            known = m.unregister(x)
            sim.log('unregister %s (%s)', getattr(x, '__name__', x), known)
            try:
                pyamf.unregister_class(x)
                got = True
            except pyamf.UnknownClassAlias:
                got = False
            sim.check(got == known, 'unregister', 'unregistering %r: %s',
                      x, 'accepted though unknown' if got else
                      'refused though registered')
        elif op == 2:
            l = sim.pick(loaders)
            sim.log('install loader %d', l.n)
            pyamf.register_class_loader(l)
            if l not in m.loaders:
                m.loaders.append(l)
        elif op == 3:
            l = sim.pick(loaders)
            sim.log('remove loader %d', l.n)
            try:
                pyamf.unregister_class_loader(l)
                got = True
            except LookupError:
                got = False
            sim.check(got == (l in m.loaders), 'loader-removal',
                      'removing loader %d: %s', l.n, got)
            if got:
                m.loaders.remove(l)
        elif op in (4, 5, 6):
            lookups += 1
            alias = sim.pick(ALIASES)
            want = m.expect_name(alias)
            if op == 6:
                amf = sim.pick([0, 3])
                strict = bool(sim.choose(2))
                if alias == '':
                    continue
                data = (amf3_typed if amf == 3 else amf0_typed)(alias)
                what = 'decode%d%s %r' % (amf, ' strict' if strict else '',
                                          alias)
                try:
                    v = pyamf.decode(data, encoding=amf,
                                     strict=strict).next()
                    if isinstance(v, pyamf.TypedObject):
                        got = ('typed', enc(v.alias))
                        ok = v.get('v') == 7
                    else:
                        got = ('class', v.__class__)
                        ok = getattr(v, 'v', None) == 7
                    sim.check(ok, 'decoded-attributes', '%s lost its '
                              'attribute', what)
                    tag = getattr(v, 'tag', None)
                except Exception, e:
                    got = ('error', type(e).__name__)
                if not strict:
                    want = [('typed', enc(alias)) if w == UNKNOWN else w
                            for w in want]
            else:
                what = '%s %r' % (['get_class_alias', 'load_class'][op - 4],
                                  alias)
                try:
                    v = [pyamf.get_class_alias, pyamf.load_class][op - 4](
                        alias)
                    got = ('class', v.klass)
                except Exception, e:
                    got = ('error', type(e).__name__)
            sim.log('%s -> %s', what, getattr(got[1], '__name__', got[1]))
            hits = [w for w in want if w[:2] == got]
            if got[0] == 'error':
                err += 1
                if got[1] == 'LoaderBoom':
                    sim.fault('loader-raises')
            sim.check(hits, 'lookup', '%s gave %s, expected %s', what,
                      show(got), ' or '.join(show(w) for w in want))
            w = hits[0]
            if w[0] == 'class' and w[2] is not None:
                m.put(w[1], w[2], plain=len(w) > 3)
            if op == 6 and w[0] == 'class':
                sim.check(tag == getattr(m.names[alias].type, 'tag', None),
                          'alias-type', '%s was read by the alias type %r, '
                          'expected %s', what, tag,
                          m.names[alias].type.__name__)
        elif op == 7:
            # an instance travels under the name in force
            K = sim.pick(CLASSES)
            amf = sim.pick([0, 3])
            r = m.classes.get(K)
            want = r.alias if r is not None else META.get(K)
            o = K()
            o.s = 1
            data = pyamf.encode(o, encoding=amf).getvalue()
            got = wire_name(sim, amf, data)
            sim.log('encode%d %s -> %s', amf, K.__name__, got)
            sim.check(got == enc(want), 'wire-name', 'an instance of %s '
                      'travels as %r, registered as %r', K.__name__, got,
                      want)
        elif op == 8:
            # a package of classes, one of them ignored
            ns = {'__name__': __name__, 'K0': K0, 'K1': K1, 'K4': K4,
                  'x': 5, 'Sub': Sub, 'Other': Other, 'f': enc}
            ks = [K0, K1, K4]
            sep = sim.pick(['.', '::'])
            ig = sim.pick([[], ['K1']])
            how = sim.choose(4)
            kw = {}
            if how == 1:
                kw['strict'] = False
                ks += [Sub, Other]
            elif how == 2:
                ns['__all__'] = ['x', 'K4', 'Sub', 'K0']
                ks = [K0, K4]
            elif how == 3:
                ks = sim.shuffle([K0, K4, Sub])[:1 + sim.choose(3)]
                ns = [5] + ks + [enc]
            got = pyamf.register_package(ns, 'pkg', separator=sep, ignore=ig,
                                         **kw)
            want = dict((K, 'pkg%s%s' % (sep, K.__name__))
                        for K in ks if K.__name__ not in ig)
            sim.log('package %s %s %d', sep, ig, how)
            sim.check(dict((k, v.alias) for k, v in got.items()) == want,
                      'package', 'register_package gave %r', got)
            for K, a in sorted(want.items(), key=lambda x: x[1]):
                m.put(K, a)
        elif op == 10:
            T = sim.pick([TypeA, TypeB])
            args = sim.pick([(K0,), (K1,), (K0, K4), (K3, K2), ()])
            bad = sim.chance(8)
            if sim.chance(30):
                sim.log('remove alias type %s', T.__name__)
                pyamf.unregister_alias_type(T)
                m.types.pop(T, None)
            else:
                sim.log('alias type %s for %s', T.__name__,
                        [k.__name__ for k in args])
                want = None
                if bad:
                    want = ValueError
                elif not args:
                    want = ValueError
                elif [k for k in args if m.type_of(k) is not
                        pyamf.ClassAlias]:
                    want = RuntimeError
                elif T in m.types:
                    # the classes it was for are no longer
                    pass
                try:
                    pyamf.register_alias_type(NoAlias if bad else T, *args)
                    got = None
                except (ValueError, RuntimeError), e:
                    got = type(e)
                    sim.fault('refused-registration')
                sim.check(got is want, 'alias-type', 'registering the alias '
                          'type gave %r, expected %r', got, want)
                if want is None:
                    m.types[T] = args
                    for r in m.names.values() + m.classes.values():
                        if r.klass in args:
                            r.type = T
        elif op == 9:
            k = sim.choose(3)
            if k == 0:
                l = sim.pick(loaders)
                l.failures = sim.choose(3)
                sim.log('loader %d will fail %d times', l.n, l.failures)
            elif k == 1:
                sim.log('refused registration')
                sim.fault('refused-registration')
                try:
                    pyamf.register_class(Mandatory, sim.pick(ALIASES[:6]))
                    sim.fail('not-refused', 'a class that needs constructor '
                             'arguments was registered')
                except TypeError:
                    pass
            else:
                mods.flaky = 0
                sim.log('imports work again')
        hist.append(op)
        check_all(sim, m)
    if err:
        sim.nontrivial = True
    sim.state((tuple(sorted((enc(k), v.klass.__name__)
                            for k, v in m.names.items())),
               tuple(l.n for l in m.loaders), min(err, 3)))


def show(o):
    if o[0] == 'class':
        return 'class %s' % (getattr(o[1], '__name__', o[1]),)
    return '%s %s' % (o[0], o[1])


def check_all(sim, m):
    """the registrations in force, by class and by (registered) name"""
    for K in CLASSES:
        r = m.classes.get(K)
        try:
            a = pyamf.get_class_alias(K)
        except pyamf.UnknownClassAlias:
            a = None
        if r is None:
            sim.check(a is None, 'by-class', '%s is not registered but known '
                      'as %r', K.__name__, a)
        else:
            sim.check(a is not None and a.klass is K and
                      enc(a.alias) == enc(r.alias), 'by-class',
                      '%s is registered as %r but found as %r', K.__name__,
                      r.alias, a and a.alias)
            sim.check(type(a) is r.type, 'alias-type', '%s is handled by %s '
                      'instead of %s', K.__name__, type(a).__name__,
                      r.type.__name__)
    for n, r in m.names.items():
        try:
            a = pyamf.get_class_alias(n)
        except Exception, e:
            sim.fail('by-name', '%r is registered but looking it up raised '
                     '%r', n, e)
        sim.check(type(a) is r.type, 'alias-type', '%r is handled by %s '
                  'instead of %s', n, type(a).__name__, r.type.__name__)
        sim.check(a.klass is r.klass, 'by-name', '%r is registered for %s '
                  'but gives %r', n, r.klass.__name__, a.klass)
