# -*- coding: utf-8 -*-
# C15: the byte buffer against a byte string with a cursor.
import struct
import StringIO

import pyamf
from pyamf import util, amf3


class Model(object):
    """A growable byte string with a cursor (POSIX file semantics)."""

    def __init__(self, data=''):
        self.d = data
        self.p = 0
        self.objects = []

    def write(self, s):
        if not s:
            return
        if self.p > len(self.d):
            self.d += '\0' * (self.p - len(self.d))
        self.d = self.d[:self.p] + s + self.d[self.p + len(s):]
        self.p += len(s)

    def avail(self):
        return max(0, len(self.d) - self.p)

    def take(self, n):
        s = self.d[self.p:self.p + n]
        self.p += n
        return s


def u24(s, big):
    a, b, c = [ord(x) for x in s]
    return (a << 16 | b << 8 | c) if big else (c << 16 | b << 8 | a)


def p24(n, big):
    n &= 0xffffff
    s = [chr(n >> 16 & 255), chr(n >> 8 & 255), chr(n & 255)]
    return ''.join(s if big else s[::-1])


FIXED = [
    # name, size, struct code or None, low, high
    ('uchar', 1, 'B', 0, 255),
    ('char', 1, 'b', -128, 127),
    ('ushort', 2, 'H', 0, 65535),
    ('short', 2, 'h', -32768, 32767),
    ('ulong', 4, 'I', 0, 2 ** 32 - 1),
    ('long', 4, 'i', -2 ** 31, 2 ** 31 - 1),
    ('24bit_uint', 3, 'u24', 0, 2 ** 24 - 1),
    ('24bit_int', 3, 's24', -2 ** 23, 2 ** 23 - 1),
    ('float', 4, 'f', None, None),
    ('double', 8, 'd', None, None),
]

TEXT = [u'', u'a', u'hello', u'\xe9t\xe9', u'\u20ac\u65e5', u'x' * 40]
DOUBLES = [0.0, -0.0, 1.5, -2.25, 1e300, float('inf'), float('-inf'),
           float('nan'), 5e-324]
FLOATS = [0.0, 0.5, -2.25, float('inf'), float('nan'), 16777216.0]


def pack(code, big, v):
    if code in ('u24', 's24'):
        return p24(v, big)
    return struct.pack(('>' if big else '<') + code, v)


def unpack(code, big, s):
    if code == 'u24':
        return u24(s, big)
    if code == 's24':
        n = u24(s, big)
        return n - 0x1000000 if n & 0x800000 else n
    return struct.unpack(('>' if big else '<') + code, s)[0]


def same(a, b):
    if isinstance(a, float) and isinstance(b, float):
        if a != a or b != b:
            return a != a and b != b
        return struct.pack('>d', a) == struct.pack('>d', b)
    return a == b and (isinstance(a, basestring) ==
                       isinstance(b, basestring))


def raw(sim, n):
    return ''.join(chr(sim.choose(256)) for _ in range(n))


INTS = [('Byte', 'b', -128, 127), ('UnsignedByte', 'B', 0, 255),
        ('Short', 'h', -32768, 32767), ('UnsignedShort', 'H', 0, 65535),
        ('Int', 'i', -2 ** 31, 2 ** 31 - 1),
        ('UnsignedInt', 'I', 0, 2 ** 32 - 1)]


def utf_bytes(sim, st, m):
    u = sim.pick(TEXT)
    b = u.encode('utf-8')
    m.p = len(m.d)
    st.seek(m.p)
    m.d += b
    st.append(b)
    short = sim.chance(40)
    try:
        got = st.readUTFBytes(len(b) + (1 if short else 0))
        err = None
    except Exception, e:
        err = e
    if short:
        sim.fault('end-of-data')
        sim.check(isinstance(err, IOError), 'eof-error', 'readUTFBytes past '
                  'the end: %r', err or got)
        return 'readUTFBytes', 1, 0
    sim.check(err is None and got == u, 'read-value', 'readUTFBytes gave %r, '
              'expected %r', err or got, u)
    m.p += len(b)
    return 'readUTFBytes', 0, 0


def object_op(sim, st, m, k):
    """Objects in a ByteArray: each stands for itself."""
    if k == 8:
        v = sim.pick(OBJECTS)
        e = amf3.Encoder()
        e.writeElement(v)
        whole = e.stream.getvalue()
        at = m.p
        cut = sim.choose(len(whole) + 1)
        st.seek(0, 2)
        start = m.p = len(m.d)
        st.write(whole[:cut])
        m.write(whole[:cut])
        st.seek(start)
        if cut < len(whole):
            sim.fault('end-of-data')
            try:
                got = st.readObject()
                sim.fail('eof-error', 'readObject with %d of %d bytes gave '
                         '%r', cut, len(whole), got)
            except (IOError, pyamf.EOStream):
                pass
            sim.check(st.tell() == start, 'cursor', 'readObject with %d of '
                      '%d bytes moved the cursor by %d', cut, len(whole),
                      st.tell() - start)
            st.append(whole[cut:])
            m.d += whole[cut:]
        m.p = start
        m.objects.append((start, whole, v))
        got = st.readObject()
        sim.check(type(got) is type(v) and got == v, 'read-value',
                  'readObject gave %r, expected %r', got, v)
        m.p += len(whole)
        if sim.chance(50):
            st.seek(at)
            m.p = at
        return 'readObject', int(cut < len(whole)), 0
    there = [o for o in m.objects if m.d[o[0]:o[0] + len(o[1])] == o[1]]
    for _ in range(sim.choose(3) + 1):
        if not there:
            break
        start, whole, v = sim.pick(there)
        st.seek(start)
        got = st.readObject()
        sim.check(type(got) is type(v) and got == v and
                  st.tell() == start + len(whole), 'read-value',
                  'readObject at %d gave %r, expected %r', start, got, v)
        m.p = start + len(whole)
    return 'readObject', 0, 0


OBJECTS = [u'abc', [1, 2, u'abc', u'abc'], pyamf.ASObject({u'a': 1.5, u'abc': u'a'}), None,
           [[u'x', u'y'], [u'x', u'y']], -5, u'abc']


def bytearray_op(sim, st, m, big):
    """The methods of flash.utils.ByteArray."""
    k = sim.choose(10)
    if k > 7:
        if not big:
            return 'nothing', 0, 0
        return object_op(sim, st, m, k)
    if k == 0:
        n, code, lo, hi = sim.pick(INTS)
        size = struct.calcsize('>' + code)
        try:
            got = getattr(st, 'read' + n)()
            err = None
        except Exception, e:
            err = e
        if m.avail() < size:
            sim.fault('end-of-data')
            sim.check(isinstance(err, IOError), 'eof-error', 'read%s with '
                      '%d bytes available: %r', n, m.avail(), err or got)
            return 'read' + n, 1, 0
        sim.check(err is None and got == unpack(code, big, m.take(size)),
                  'read-value', 'read%s: %r', n, err or got)
        return 'read' + n, 0, 0
    if k == 1:
        n, code, lo, hi = sim.pick(INTS)
        bad = sim.chance(40)
        v = sim.pick([lo - 1, hi + 1, 'x', None]) if bad else \
            sim.pick([lo, hi, 0, 1])
        try:
            getattr(st, 'write' + n)(v)
            err = None
        except Exception, e:
            err = e
        if bad:
            sim.fault('refused-write')
            sim.check(err is not None, 'not-refused', 'write%s accepted %r',
                      n, v)
            return 'write' + n, 0, 1
        sim.check(err is None, 'write-failed', 'write%s(%r): %r', n, v, err)
        m.write(pack(code, big, v))
        return 'write' + n, 0, 0
    if k in (2, 3):
        # the length and the text of a string may arrive apart
        u = sim.pick(TEXT)
        b = u.encode('utf-8')
        whole = struct.pack('>H' if big else '<H', len(b)) + b
        at = m.p
        cut = sim.choose(len(whole) + 1)
        st.seek(0, 2)
        m.p = len(m.d)
        start = m.p
        st.write(whole[:cut])
        m.write(whole[:cut])
        st.seek(start)
        m.p = start
        if cut < len(whole):
            sim.fault('end-of-data')
            try:
                got = st.readUTF()
                sim.fail('eof-error', 'readUTF with %d of %d bytes gave %r',
                         cut, len(whole), got)
            except IOError:
                pass
            sim.check(st.tell() == start, 'cursor', 'readUTF with %d of %d '
                      'bytes moved the cursor by %d', cut, len(whole),
                      st.tell() - start)
            st.append(whole[cut:])
            m.d += whole[cut:]
        got = st.readUTF()
        sim.check(got == u, 'read-value', 'readUTF gave %r, expected %r',
                  got, u)
        m.p += len(whole)
        if sim.chance(50):
            st.seek(at)
            m.p = at
        return 'readUTF', int(cut < len(whole)), 0
    if k == 4:
        if sim.chance(20):
            sim.fault('refused-write')
            try:
                st.writeUTF(u'y' * 65536)
                sim.fail('not-refused', 'writeUTF accepted 65536 bytes')
            except Exception, e:
                if e.__class__.__name__ == 'Violation':
                    raise
            return 'writeUTF', 0, 1
        u = sim.pick(TEXT)
        b = u.encode('utf-8')
        v = b if sim.chance(30) else u
        if sim.chance(50):
            st.writeUTF(v)
            m.write(struct.pack('>H' if big else '<H', len(b)) + b)
            return 'writeUTF', 0, 0
        if sim.chance(50):
            st.writeUTFBytes(v)
            m.write(b)
            return 'writeUTFBytes', 0, 0
        cs = sim.pick(['utf-8', 'utf-16-be'])
        st.writeMultiByte(u, cs)
        m.write(u.encode(cs))
        return 'writeMultiByte', 0, 0
    if k == 5:
        v = sim.pick([True, False, 1, None, 'x'])
        if isinstance(v, bool):
            st.writeBoolean(v)
            m.write('\x01' if v else '\0')
            return 'writeBoolean', 0, 0
        sim.fault('refused-write')
        try:
            st.writeBoolean(v)
            sim.fail('not-refused', 'writeBoolean accepted %r', v)
        except ValueError:
            pass
        return 'writeBoolean', 0, 1
    if k == 6:
        v = sim.pick(OBJECTS + [[u'x', object], {u'k': object}])
        before = len(m.d)
        at = m.p
        try:
            st.writeObject(v)
            err = None
        except Exception, e:
            err = e
        if 'object' in repr(v):
            sim.fault('refused-write')
            sim.check(err is not None, 'not-refused', 'writeObject accepted '
                      'a class')
            return 'writeObject', 0, 1
        if big:
            e = amf3.Encoder()
            e.writeElement(v)
            sim.check(err is None, 'write-failed', 'writeObject: %r', err)
            m.objects.append((m.p, e.stream.getvalue(), v))
            m.write(e.stream.getvalue())
        else:
            # values are network order whatever the order of the buffer
            m.d = st.getvalue()
            m.p = st.tell()
        return 'writeObject', 0, 0
    n = sim.choose(m.avail() + 3)
    if sim.chance(50):
        return utf_bytes(sim, st, m)
    try:
        got = st.readMultiByte(n, 'latin-1')
        err = None
    except Exception, e:
        err = e
    if n > m.avail():
        sim.fault('end-of-data')
        sim.check(isinstance(err, IOError), 'eof-error', 'readMultiByte(%d) '
                  'with %d bytes: %r', n, m.avail(), err or got)
        return 'readMultiByte', 1, 0
    sim.check(err is None and got.encode('latin-1') == m.take(n),
              'read-value', 'readMultiByte(%d): %r', n, err or got)
    return 'readMultiByte', 0, 0


class FileLike(object):
    """What a file offers and no more."""

    def __init__(self, data):
        self.data = data
        self.pos = 0

    def read(self, n=-1):
        end = len(self.data) if n < 0 else self.pos + n
        r = self.data[self.pos:end]
        self.pos += len(r)
        return r

    def seek(self, pos, how=0):
        self.pos = pos

    def tell(self):
        return self.pos


def run(sim):
    init = raw(sim, sim.small(12))
    if sim.chance(8):
        init = (init + 'long') * (sim.pick([60, 300, 3000]) +
                                  sim.choose(200))
    kind = sim.choose(5)
    if kind == 1:
        st = amf3.ByteArray()
        st.write(init)
        st.seek(0)
    elif kind == 2:
        src = util.BufferedByteStream(init)
        if init:
            src.seek(sim.choose(len(init)))
        at = src.tell()
        st = util.BufferedByteStream(src)
        sim.check(src.tell() == at and src.getvalue() == init,
                  'copy-source', 'copying a stream disturbed it')
    elif kind == 4:
        # a file, or something that looks like one
        src = sim.pick([StringIO.StringIO, FileLike])(init)
        src.seek(sim.choose(len(init) + 1))
        at = src.tell()
        st = util.BufferedByteStream(src)
        sim.check(src.tell() == at and st.getvalue() == init, 'copy-source',
                  'a stream made from a file holds %r of %r, the file is at '
                  '%d, was at %d', st.getvalue()[:40], init[:40], src.tell(),
                  at)
    else:
        st = util.BufferedByteStream(init)
    m = Model(init)
    big = True
    pending = None        # a read that hit the end of data
    eofs = refused = 0
    nops = 3 + sim.small(25)
    hist = []
    # how closely the buffer is watched: looking at it is an operation too
    watch = sim.pick([100, 60, 15])
    focus = sim.weighted([50, 12, 12, 12, 14])
    weights = [22, 14, 16, 10, 8, 6, 5, 5, 5, 5, 4, 4,
               14 if kind == 1 else 0]
    if focus == 1:
        weights[5] = weights[6] = 25
    elif focus == 2:
        weights[9] = weights[4] = weights[6] = 30
    elif focus == 3:
        weights[2] = weights[7] = weights[11] = 30
    elif focus == 4 and kind == 1:
        weights[12] = 60
    for i in range(nops):
        sim.steps += 1
        op = sim.weighted(weights)
        if pending is not None and sim.chance(60):
            op = 2 if sim.chance(50) else 0
        name = None
        if op == 0:
            # typed read
            if pending is not None and sim.chance(70):
                f = pending
            else:
                f = sim.pick(FIXED)
            pending = None
            name = 'read_' + f[0]
            try:
                got = getattr(st, name)()
                err = None
            except Exception, e:
                err = e
            if m.avail() < f[1]:
                eofs += 1
                sim.fault('end-of-data')
                sim.check(isinstance(err, IOError), 'eof-error',
                          '%s with %d of %d bytes available: %s', name,
                          m.avail(), f[1],
                          'returned %r' % (got,) if err is None else
                          repr(err))
                pending = f
            else:
                sim.check(err is None, 'read-failed', '%s with %d bytes '
                          'available raised %r', name, m.avail(), err)
                want = unpack(f[2], big, m.take(f[1]))
                sim.check(same(want, got), 'read-value',
                          '%s gave %r, expected %r', name, got, want)
        elif op == 1:
            # typed write
            f = sim.pick(FIXED)
            name = 'write_' + f[0]
            bad = sim.chance(35)
            if f[3] is None:
                v = sim.pick(FLOATS if f[0] == 'float' else DOUBLES)
                if bad:
                    v = sim.pick(['x', None, 3])
            else:
                lo, hi = f[3], f[4]
                v = sim.pick([lo, hi, lo + 1, hi - 1, 0, 1, hi // 2,
                              lo // 2])
                if bad:
                    v = sim.pick([lo - 1, hi + 1, 1.0, '1', None,
                                  hi * 256, -(hi * 256) - 1])
            try:
                getattr(st, name)(v)
                err = None
            except Exception, e:
                err = e
            if bad:
                refused += 1
                sim.fault('refused-write')
                sim.check(err is not None, 'not-refused',
                          '%s accepted %r', name, v)
            else:
                sim.check(err is None, 'write-failed', '%s(%r) raised %r',
                          name, v, err)
                m.write(pack(f[2], big, v))
        elif op == 2:
            # the network delivers more bytes behind the reader's back
            n = 1 + sim.small(9)
            how = sim.choose(4)
            if how == 3:
                s = ''
                refused += 1
                sim.fault('refused-write')
                try:
                    st.append(sim.pick([3, None, [u'a']]))
                    err = None
                except TypeError, e:
                    err = e
                sim.check(err is not None, 'not-refused', 'append accepted '
                          'a value that is no string')
            elif how == 0:
                s = raw(sim, n)
                st.append(s)
            elif how == 1:
                s = raw(sim, n)
                st.append(util.BufferedByteStream(s))
            else:
                u = sim.pick(TEXT)
                s = u.encode('utf-8')
                st.append(u)
            name = 'append %d' % len(s)
            sim.fault('late-bytes')
            m.d += s
        elif op == 3:
            n = sim.choose(m.avail() + 3)
            name = 'read %d' % n
            try:
                got = st.read(n)
                err = None
            except Exception, e:
                err = e
            if n > m.avail():
                eofs += 1
                sim.fault('end-of-data')
                sim.check(isinstance(err, IOError), 'eof-error',
                          'read(%d) with %d bytes available: %r', n,
                          m.avail(), err or got)
            else:
                sim.check(err is None and got == m.take(n), 'read-value',
                          'read(%d): %r', n, err or got)
        elif op == 4:
            mode = sim.choose(3)
            if mode == 0:
                to = sim.choose(len(m.d) + 1)
                st.seek(to)
            elif mode == 1:
                to = sim.choose(len(m.d) + 1)
                st.seek(to - m.p, 1)
            else:
                to = sim.choose(len(m.d) + 1)
                st.seek(to - len(m.d), 2)
            name = 'seek %d' % to
            m.p = to
        elif op == 5:
            st.consume()
            name = 'consume'
            m.d = m.d[m.p:]
            m.p = 0
        elif op == 6:
            n = sim.choose(len(m.d) + 3)
            name = 'truncate %d' % n
            st.truncate(n)
            m.d = m.d[:n]
            if n == 0:
                m.p = 0
            elif m.p > n:
                # where the cursor goes when its place vanishes is not
                # promised; it has to be usable
                sim.check(st.tell() in (m.p, n), 'cursor',
                          'truncate(%d) moved the cursor to %d', n,
                          st.tell())
                st.seek(n)
                m.p = n
        elif op == 7:
            n = sim.choose(m.avail() + 3) - 1
            name = 'peek %d' % n
            got = st.peek(n)
            want = m.d[m.p:] if n == -1 else m.d[m.p:m.p + n]
            sim.check(got == want, 'peek', 'peek(%d) gave %r, expected %r',
                      n, got, want)
        elif op == 8:
            u = sim.pick(TEXT)
            b = u.encode('utf-8')
            k = sim.choose(4)
            name = 'text'
            if k == 0:
                st.write_utf8_string(u)
                m.write(b)
            elif k == 1:
                st.write_utf8_string(b)
                m.write(b)
            elif k == 2:
                refused += 1
                sim.fault('refused-write')
                try:
                    st.write_utf8_string(sim.pick([3, None, [u'a']]))
                    sim.fail('not-refused', 'write_utf8_string accepted a '
                             'value that is no string')
                except TypeError:
                    pass
            else:
                n = m.avail() + 1 + sim.choose(3)
                try:
                    st.read_utf8_string(n)
                    sim.fail('eof-error', 'read_utf8_string past the end '
                             'returned')
                except IOError:
                    eofs += 1
                    sim.fault('end-of-data')
        elif op == 9:
            s = raw(sim, sim.small(5))
            name = 'write %d' % len(s)
            st.write(s)
            m.write(s)
        elif op == 10:
            big = not big
            name = 'endian'
            st.endian = sim.pick(['>', '!']) if big else \
                '<'
        elif op == 11:
            k = sim.choose(3)
            if k == 0:
                name = 'read all'
                try:
                    got = st.read()
                    err = None
                except Exception, e:
                    err = e
                if m.avail() == 0:
                    eofs += 1
                    sim.fault('end-of-data')
                    sim.check(isinstance(err, IOError), 'eof-error',
                              'read() at the end: %r', err or got)
                else:
                    sim.check(err is None and got == m.take(m.avail()),
                              'read-value', 'read(): %r', err or got)
            elif k == 1:
                name = 'backwards'
                for f, n in ((st.read, -2 - sim.choose(5)),
                             (st.peek, -2 - sim.choose(5))):
                    try:
                        got = f(n)
                        sim.fail('not-refused', 'reading %d bytes gave %r',
                                 n, got)
                    except (IOError, ValueError):
                        pass
            else:
                name = 'add'
                o = util.BufferedByteStream(raw(sim, 1 + sim.small(5)))
                at = sim.choose(len(o) + 1)
                o.seek(at)
                was = o.getvalue()
                new = st + o
                sim.check(new.getvalue() == m.d + was and new.tell() == 0,
                          'add', 'sum holds %r at %d', new.getvalue(),
                          new.tell())
                sim.check(o.getvalue() == was and o.tell() == at,
                          'add', 'the other operand is now %r at %d',
                          o.getvalue(), o.tell())
        else:
            name, e, r = bytearray_op(sim, st, m, big)
            eofs += e
            refused += r
        hist.append(name)
        sim.log('%s -> %d/%d', name, m.p, len(m.d))
        if i + 1 < nops and not sim.chance(watch):
            continue
        sim.check(st.getvalue() == m.d, 'content',
                  'after %s the buffer holds %r, expected %r', hist[-4:],
                  st.getvalue(), m.d)
        sim.check(st.tell() == m.p, 'cursor',
                  'after %s the cursor is at %d, expected %d', hist[-4:],
                  st.tell(), m.p)
        sim.check(len(st) == len(m.d) and
                  st.remaining() == len(m.d) - m.p and
                  st.at_eof() == (m.p == len(m.d)), 'size',
                  'after %s len %d, remaining %d, at_eof %r; expected %d '
                  'bytes, cursor %d', hist[-4:], len(st), st.remaining(),
                  st.at_eof(), len(m.d), m.p)
    if eofs or refused:
        sim.nontrivial = True
    sim.state((kind, big, eofs, refused, min(len(m.d), 30), m.p,
               tuple(h.split()[0] for h in hist[-3:])))
