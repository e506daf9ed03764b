# -*- coding: utf-8 -*-
# Generated AMF payload graphs and an independent structural comparator.
#
# Gen builds a Python object graph from simulator choices.  canon() turns a
# graph (as sent, or as received) into a list of tokens in which every
# container is numbered on first visit, so two graphs have equal tokens exactly
# when they agree on values, order, attribute names and shared references.

import collections
import datetime
import types
import xml.etree.ElementTree as _ET

import pyamf
from pyamf import amf3, flex


# ---------------------------------------------------------------------------
# application classes used in payloads

class Plain(object):
    "registered, dynamic"


class Old:
    "registered, old-style"


class Base(object):
    class __amf__:
        static = ('b1', 'b2')


class Derived(Base):
    class __amf__:
        static = ('d1',)
        dynamic = True


class Sealed(object):
    class __amf__:
        static = ('s1', 's2', 's3')
        dynamic = False


class Slotted(object):
    __slots__ = ('x1', 'x2')


class Props(object):
    """one encodable property with accessor methods, one read-only"""

    def __init__(self):
        self._v = None

    class __amf__:
        exclude = ('_v', 'hidden')

    def _get(self):
        return self._v

    def _set(self, v):
        self._v = v
    value = property(_get, _set)

    ro = property(lambda self: 'ro-const')


class Syn(object):
    class __amf__:
        synonym = {'public': 'wire'}


class Ext(object):
    class __amf__:
        external = True

    def __init__(self):
        self.flag = False
        self.n = 0
        self.u = 0
        self.d = 0.0
        self.name = u''
        self.child = None
        self.raw = u''
        self.short = 0
        self.fl = 0.0
        self.ub = 0
        self.tail = None

    def __writeamf__(self, o):
        o.writeBoolean(self.flag)
        o.writeInt(self.n)
        o.writeUnsignedInt(self.u)
        o.writeDouble(self.d)
        o.writeUTF(self.name)
        o.writeObject(self.child)
        b = self.raw.encode('utf-8')
        o.writeUnsignedShort(len(b))
        o.writeUTFBytes(self.raw)
        o.writeShort(self.short)
        o.writeFloat(self.fl)
        o.writeUnsignedByte(self.ub)
        o.writeObject(self.tail)

    def __readamf__(self, i):
        self.flag = i.readBoolean()
        self.n = i.readInt()
        self.u = i.readUnsignedInt()
        self.d = i.readDouble()
        self.name = i.readUTF()
        self.child = i.readObject()
        self.raw = i.readUTFBytes(i.readUnsignedShort())
        self.short = i.readShort()
        self.fl = i.readFloat()
        self.ub = i.readUnsignedByte()
        self.tail = i.readObject()


class Amf3Only(object):
    "forces AMF3 encoding inside an AMF0 stream"
    class __amf__:
        amf3 = True


class Anon(object):
    "never registered: travels as an anonymous object"


class RegAnon(object):
    "registered without an alias"


class SimError(Exception):
    pass


class ProxyAttr(object):
    class __amf__:
        proxy = ('prox',)


REGISTRY = [
    (Plain, u'sim.Plain'), (Old, u'sim.Old'), (Base, u'sim.Base'),
    (Derived, u'sim.Derived'), (Sealed, u'sim.Sealed'),
    (Slotted, u'sim.Slotted'), (Props, u'sim.Props'), (Syn, u'sim.Syn'),
    (Ext, u'sim.Ext'), (Amf3Only, u'sim.Amf3Only'), (RegAnon, None),
    (ProxyAttr, u'sim.ProxyAttr'),
]


def register_all():
    for k, a in REGISTRY:
        if a is None:
            pyamf.register_class(k)
        else:
            pyamf.register_class(k, a)


ALIAS = dict((k, a) for k, a in REGISTRY)
# the names an instance carries on the wire and hands over to the peer
FIELDS = {
    Derived: None, Base: None,
    Ext: ('flag', 'n', 'u', 'd', 'name', 'child', 'raw', 'short', 'fl', 'ub',
          'tail'),
    Slotted: ('x1', 'x2'),
    Sealed: ('s1', 's2', 's3'),
}

_STR = [u'', u'a', u'foo', u'bar', u'hello world', u'\xe9t\xe9', u'\u20ac',
        u'\u65e5\u672c\u8a9e', u'x' * 20, u'y' * 127, u'z' * 130,
        u'tab\tnl\n', u'\x00nul', u'\ufeffbom', u'sim.Plain', u'12', u'-1']
_KEYS = [u'a', u'b', u'c', u'foo', u'bar', u'key', u'name', u'\xe9', u'k1',
         u'k2', u'x', u'length', u'9', u'10']
_ATTRS = ['a', 'b', 'c', 'foo', 'name', 'x', 'spam', 'eggs']
_INTS = [0, 1, -1, 2, 127, 128, 255, 16383, 16384, 2097151, 2097152,
         268435455, 268435456, -268435456, -268435457, -2, -128, 2 ** 31,
         -2 ** 31, 2 ** 40, 65535, 65536]
_FLOATS = [0.0, 1.5, -1.5, 3.141592653589793, 1e300, -1e-300, 0.1, 1e16,
           float('inf'), float('-inf'), float('nan'), 123456.789]


class Gen(object):
    """
    :param amf: 0 or 3
    :param ref: allow shared references and cycles
    """

    def __init__(self, sim, amf, ref=True, budget=25, classes=True,
                 exotic=True, dates=True, xml=True):
        self.sim = sim
        self.amf = amf
        self.ref = ref
        self.budget = budget
        self.pool = []
        self.classes = classes
        self.exotic = exotic
        self.dates = dates
        self.xml = xml
        self.in3 = amf == 3
        self.kinds = set()

    def string(self):
        s = self.sim.pick(_STR)
        return s

    def scalar(self):
        sim = self.sim
        k = sim.choose(9)
        self.kinds.add('s%d' % k)
        if k == 0:
            return None
        if k == 1:
            return sim.pick(_INTS)
        if k == 2:
            return self.string()
        if k == 3:
            return bool(sim.choose(2))
        if k == 4:
            return sim.pick(_FLOATS)
        if k == 5:
            return pyamf.Undefined
        if k == 6:
            return self.string().encode('utf-8')
        if k == 7:
            return sim.choose(100000) - 50000
        if self.dates:
            return self.date()
        return sim.choose(300)

    def date(self):
        sim = self.sim
        k = sim.choose(4)
        base = datetime.datetime(1970, 1, 1)
        if k == 0:
            return base + datetime.timedelta(seconds=sim.choose(2000000000))
        if k == 1:
            return base + datetime.timedelta(
                seconds=sim.choose(2000000000),
                milliseconds=sim.choose(1000))
        if k == 2:
            return base - datetime.timedelta(seconds=sim.choose(1000000000))
        return datetime.datetime(2000, 1, 1) + datetime.timedelta(
            days=sim.choose(9000))

    def value(self, depth=0):
        sim = self.sim
        self.budget -= 1
        if depth >= 5 or self.budget <= 0:
            return self.scalar()
        kind = sim.weighted([40, 10, 10, 8,
                             10 if self.ref else 0,
                             14 if self.classes else 0,
                             12 if self.exotic else 0])
        if kind == 0:
            return self.scalar()
        if kind == 1:
            return self.list(depth)
        if kind == 2:
            return self.obj(depth)
        if kind == 3:
            return self.mixed(depth)
        if kind == 4:
            if self.pool:
                self.kinds.add('ref')
                return sim.pick(self.pool)
            return self.scalar()
        if kind == 5:
            return self.instance(depth)
        return self.special(depth)

    def list(self, depth):
        sim = self.sim
        n = sim.small(5)
        self.kinds.add('list')
        if sim.chance(15):
            # a tuple travels as an array too
            r = tuple([self.value(depth + 1) for _ in range(n)])
            if n:
                self.pool.append(r)
            return r
        r = []
        self.pool.append(r)
        for _ in range(n):
            r.append(self.value(depth + 1))
        return r

    def keys(self, n, names=_KEYS):
        out = []
        for _ in range(n):
            k = self.sim.pick(names)
            if k not in out:
                out.append(k)
        return out

    def obj(self, depth):
        self.kinds.add('obj')
        r = pyamf.ASObject() if self.sim.choose(2) else {}
        self.pool.append(r)
        for k in self.keys(self.sim.small(5)):
            r[k] = self.value(depth + 1)
        return r

    def mixed(self, depth):
        self.kinds.add('mixed')
        sim = self.sim
        r = pyamf.MixedArray()
        self.pool.append(r)
        for k in [u'm'] + self.keys(sim.small(3), [u'p', u'q', u'r', u's']):
            r[k] = self.value(depth + 1)
        for i in range(sim.small(3)):
            r[i] = self.value(depth + 1)
        return r

    def attrs(self, o, depth, names=_ATTRS):
        for k in self.keys(self.sim.small(4), names):
            setattr(o, k, self.value(depth + 1))

    def instance(self, depth):
        sim = self.sim
        v = self.value
        ks = [Plain, Old, Base, Derived, Sealed, Slotted, Props, Syn, Anon,
              RegAnon]
        ks.append(Amf3Only)
        if self.in3:
            ks += [Ext]
        K = sim.pick(ks)
        if K is Amf3Only and not self.in3:
            return self.in_amf3(lambda: self._amf3only(depth))
        self.kinds.add(K.__name__)
        o = K()
        self.pool.append(o)
        d = depth + 1
        if K in (Plain, Old, Anon, RegAnon, Amf3Only):
            self.attrs(o, depth)
        elif K is Base:
            o.b1 = v(d)
            o.b2 = v(d)
            self.attrs(o, depth)
        elif K is Derived:
            o.b1 = v(d)
            o.b2 = v(d)
            o.d1 = v(d)
            self.attrs(o, depth)
        elif K is Sealed:
            o.s1 = v(d)
            o.s2 = v(d)
            o.s3 = v(d)
        elif K is Slotted:
            o.x1 = v(d)
            o.x2 = v(d)
        elif K is Props:
            o.value = v(d)
            if sim.choose(2):
                o.hidden = 'secret'
            o.spam = v(d)
        elif K is Syn:
            o.public = v(d)
            self.attrs(o, depth)
        elif K is Ext:
            o.flag = bool(sim.choose(2))
            o.n = sim.pick([0, 1, -1, 2 ** 31 - 1, -2 ** 31])
            o.u = sim.pick([0, 1, 2 ** 32 - 1])
            o.d = sim.pick([0.0, 1.5, -2.25])
            o.name = self.string()
            o.child = v(d)
            o.raw = sim.pick(_STR[:-4])
            o.short = sim.pick([0, -1, 32767, -32768])
            o.fl = sim.pick([0.0, 0.5, -0.25])
            o.ub = sim.pick([0, 1, 255])
            o.tail = v(d)
        return o

    def _amf3only(self, depth):
        self.kinds.add('amf3-in-amf0')
        o = Amf3Only()
        self.pool.append(o)
        self.attrs(o, depth)
        return o

    def in_amf3(self, f):
        """Builds a value that switches an AMF0 stream to AMF3.  Its objects
        are not shared with the AMF0 part, which has separate tables."""
        pool, self.pool = self.pool, []
        was, self.in3 = self.in3, True
        try:
            return f()
        finally:
            self.in3 = was
            self.pool = pool

    def special(self, depth):
        if not self.in3 and self.sim.chance(60):
            return self.special0(depth)
        if not self.in3:
            return self.in_amf3(lambda: self.special3(depth, False))
        return self.special3(depth, True)

    def special0(self, depth):
        sim = self.sim
        k = sim.choose(4)
        if k == 0 and self.xml:
            return self.mkxml()
        if k in (1, 2):
            self.kinds.add('deque')
            return collections.deque([self.string() for _ in range(1)])
        self.kinds.add('error')
        return SimError(self.string())

    def mkxml(self):
        self.kinds.add('xml')
        e = _ET.fromstring(self.sim.pick(
            ['<a/>', '<a><b x="1">t</b></a>', '<root>text</root>']))
        self.pool.append(e)
        return e

    def special3(self, depth, shared):
        sim = self.sim
        k = sim.choose(5)
        if not shared and k not in (1, 2):
            k = 1       # only flex collections force AMF3 by themselves
        if k == 0:
            self.kinds.add('bytearray')
            b = amf3.ByteArray()
            b.write(sim.pick(['', 'abc', '\x00\x01\x02\xff', 'z' * 300,
                              'x\x9c']))
            self.pool.append(b)
            return b
        if k == 1:
            self.kinds.add('arraycollection')
            r = flex.ArrayCollection()
            self.pool.append(r)
            for _ in range(sim.small(4)):
                r.append(self.value(depth + 1))
            return r
        if k == 2:
            self.kinds.add('objectproxy')
            o = pyamf.ASObject()
            r = flex.ObjectProxy(o)
            self.pool.append(r)
            for n in self.keys(sim.small(3)):
                o[n] = self.value(depth + 1)
            return r
        if k == 3 and self.xml:
            return self.mkxml()
        self.kinds.add('error')
        return SimError(self.string())


# ---------------------------------------------------------------------------
# comparator

def _num(x):
    f = float(x)
    if f != f:
        return 'nan'
    if f == 0:
        return '0.0'
    return repr(f)


def _xml(e):
    return (e.tag, sorted(e.attrib.items()), (e.text or '').strip(),
            [_xml(c) for c in e])


def _is_xml(o):
    return hasattr(o, 'tag') and hasattr(o, 'attrib')


def _instdict(o):
    try:
        return dict((k, v) for k, v in o.__dict__.items())
    except AttributeError:
        return {}


class _Missing(object):
    pass


class _TooLarge(Exception):
    pass


def canon(root, limit=20000, exact=False):
    """
    Token list for a graph; identical graphs give identical lists.  Total:
    whatever the library produced has some token list.

    exact: tells apart what one AMF type can come back as (str and unicode,
    int and float), for comparing two decodings of the same bytes.
    """
    out = []
    try:
        _canon(root, out, limit, exact)
    except _TooLarge:
        out.append('<larger than anything that was sent>')
    except RuntimeError, e:
        out.append('<too deep: %s>' % (e,))
    return out


def _canon(root, out, limit, exact=False):
    seen = {}
    keep = []

    def ident(o):
        k = id(o)
        if k in seen:
            out.append('#%d' % seen[k])
            return True
        seen[k] = len(seen)
        keep.append(o)
        return False

    def attrs(items):
        for k, v in sorted(items):
            out.append('.' + key(k))
            walk(v)
        out.append('}')

    def key(k):
        if isinstance(k, str):
            k = k.decode('utf-8', 'replace')
            return 'b' + k if exact else k
        if exact and not isinstance(k, unicode):
            return u'n%s' % (k,)
        return unicode(k)

    def walk(o):
        if len(out) > limit:
            raise _TooLarge()
        if o is None:
            out.append('null')
        elif o is pyamf.Undefined:
            out.append('undef')
        elif o is True:
            out.append('true')
        elif o is False:
            out.append('false')
        elif isinstance(o, (int, long, float)):
            out.append('N' + _num(o))
            if exact and not isinstance(o, float):
                out.append('int')
        elif isinstance(o, unicode):
            out.append(u'S' + o)
        elif isinstance(o, str):
            out.append((u'B' if exact else u'S') +
                       o.decode('utf-8', 'replace'))
        elif isinstance(o, datetime.datetime):
            out.append('D' + o.isoformat())
        elif isinstance(o, datetime.date):
            out.append('D' + datetime.datetime(
                o.year, o.month, o.day).isoformat())
        elif isinstance(o, flex.ArrayCollection):
            if not ident(o):
                out.append('AC[')
                for x in list.__iter__(o):
                    walk(x)
                out.append(']')
        elif isinstance(o, flex.ObjectProxy):
            if not ident(o):
                out.append('OP(')
                walk(o._amf_object)
                out.append(')')
        elif isinstance(o, collections.deque):
            seen['deque%d' % len(seen)] = len(seen)
            out.append('[')
            for x in o:
                walk(x)
            out.append(']')
        elif isinstance(o, (list, tuple)):
            if not ident(o):
                out.append('[')
                for x in o:
                    walk(x)
                out.append(']')
        elif isinstance(o, amf3.ByteArray):
            if not ident(o):
                out.append('BA%r%s' % (o.getvalue(), o.compressed and 'z'
                                       or ''))
        elif isinstance(o, pyamf.TypedObject):
            if not ident(o):
                out.append('T:' + key(o.alias) + '{')
                attrs([(key(k), v) for k, v in o.items()])
        elif isinstance(o, pyamf.MixedArray):
            if not ident(o):
                out.append('M{')
                attrs([(key(k), v) for k, v in o.items()])
        elif isinstance(o, dict):
            if not ident(o):
                out.append('{')
                attrs([(key(k), v) for k, v in o.items()])
        elif isinstance(o, Exception):
            if not ident(o):
                out.append('{')
                attrs([(u'message', unicode(o)),
                       (u'name', o.__class__.__name__)])
        elif _is_xml(o):
            out.append('X%r' % (_xml(o),))
        else:
            K = o.__class__
            if K in (Anon, RegAnon):
                if not ident(o):
                    out.append('{')
                    attrs(_instdict(o).items())
                return
            if not isinstance(K, (type, types.ClassType)) or K not in ALIAS:
                out.append('<%s.%s>' % (getattr(K, '__module__', ''),
                                        getattr(K, '__name__', K)))
                return
            if ident(o):
                return
            out.append('I:%s{' % ALIAS[K])
            if K is Slotted:
                attrs([(n, getattr(o, n, _Missing)) for n in FIELDS[K]])
            elif K is Props:
                d = _instdict(o)
                d.pop('_v', None)
                d.pop('hidden', None)
                d['value'] = getattr(o, '_v', _Missing)
                attrs(d.items())
            elif K is ProxyAttr:
                attrs(_instdict(o).items())
            else:
                attrs(_instdict(o).items())
    walk(root)


def text(tokens, n=600):
    s = u' '.join([isinstance(t, unicode) and t or
                   t.decode('utf-8', 'replace') for t in tokens])
    return s[:n].encode('utf-8')


def diff(a, b):
    """First difference between two token lists, for messages."""
    for i in range(max(len(a), len(b))):
        x = a[i] if i < len(a) else '<end>'
        y = b[i] if i < len(b) else '<end>'
        if x != y:
            return 'token %d: %s != %s  [..%s | ..%s]' % (
                i, text([x], 80), text([y], 80),
                text(a[max(0, i - 4):i + 3], 200),
                text(b[max(0, i - 4):i + 3], 200))
    return 'equal'
