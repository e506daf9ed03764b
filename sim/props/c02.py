# C02: a failed encode leaves nothing behind.
import datetime

import pyamf
from pyamf import codec, util

import values


class Boom(Exception):
    pass


class Landmine(object):
    """A value whose encoding fails with an application error."""
    armed = True

    class __amf__:
        static = ('before', 'mine')
        dynamic = False

    before = None

    def _get(self):
        if Landmine.armed:
            raise Boom('mine')
        return u'defused'
    mine = property(_get, lambda s, v: None)


class ExtMine(object):
    class __amf__:
        external = True

    after = 0
    payload = None
    armed = True

    def __writeamf__(self, o):
        o.writeInt(7)
        o.writeObject(self.payload)
        if ExtMine.armed:
            raise Boom('ext')

    def __readamf__(self, i):
        i.readInt()
        self.payload = i.readObject()


def failing_gen(vals):
    for v in vals:
        yield v
    raise Boom('generator')


def mine(sim, amf, g):
    """A fresh unencodable leaf and the exceptions that may legally escape."""
    kinds = ['time', 'class', 'function', 'landmine']
    if amf == 3:
        kinds += ['extmine', 'emptykey']
    k = sim.pick(kinds)
    sim.fault('unencodable-' + k)
    if k == 'time':
        return datetime.time(1, 2, 3)
    if k == 'class':
        return Landmine
    if k == 'function':
        return failing_gen
    if k == 'landmine':
        m = Landmine()
        m.before = g.value(2)
        return m
    if k == 'extmine':
        m = ExtMine()
        m.payload = g.value(2)
        return m
    if k == 'emptykey':
        return pyamf.MixedArray({'': 1})


def plant(sim, g, m):
    """Builds a container graph around the mine."""
    v = m
    for _ in range(sim.choose(4)):
        k = sim.choose(4)
        pre = [g.value(3) for _ in range(sim.small(3))]
        post = [g.value(3) for _ in range(sim.small(2))]
        if k == 0:
            v = pre + [v] + post
        elif k == 1:
            o = pyamf.ASObject()
            for i, x in enumerate(pre):
                o['k%d' % i] = x
            o['mine'] = v
            v = o
        elif k == 2:
            o = values.Plain()
            o.a = pre
            o.mine = v
            v = o
        else:
            o = values.Derived()
            o.b1 = pre
            o.b2 = v
            o.d1 = post
            v = o
    return v


def run(sim):
    amf = sim.pick([3, 0])
    values.register_all()
    pyamf.register_class(Landmine, 'sim.Landmine')
    pyamf.register_class(ExtMine, 'sim.ExtMine')
    Landmine.armed = ExtMine.armed = True
    via_next = sim.chance(40)
    use3 = amf == 0 and sim.chance(25)
    junk = ''
    base = 0
    if sim.chance(25):
        # the application encodes into a buffer that is being reused
        sim.probe('buffer-in-use')
        junk = ''.join(chr(65 + i % 26) for i in range(
            1 + sim.choose(sim.pick([8, 60, 400]))))
        base = sim.choose(len(junk) + 1)
        buf = util.BufferedByteStream(junk)
        buf.seek(base)
        enc = pyamf.get_encoder(amf, stream=buf)
    else:
        enc = pyamf.get_encoder(amf)
    if use3:
        enc.use_amf3 = True
    g = values.Gen(sim, 3 if use3 else amf, budget=sim.pick([20, 40, 70]))
    dec = pyamf.get_decoder(amf)        # the peer, fed continuously
    ok = []
    got = []
    fed = base
    fails = 0
    n = 2 + sim.small(6)
    wire = ''
    for i in range(n):
        bad = sim.chance(45)
        if bad:
            v = plant(sim, g, mine(sim, 3 if use3 else amf, g))
            if sim.chance(12):
                v = failing_gen([g.value(2) for _ in range(sim.small(2))])
        else:
            # leaves leave other traces in a codec than containers do
            v = g.scalar() if sim.chance(30) else g.value()
            sim.log('element %d: %s', i, values.text(values.canon(v), 200))
        before = enc.stream.getvalue()
        bpos = enc.stream.tell()
        piece = None
        try:
            if via_next:
                enc.send(v)
                piece = enc.next()
            else:
                enc.writeElement(v)
        except (Boom, pyamf.BaseError, TypeError, ValueError,
                AttributeError), e:
            fails += 1
            sim.log('element %d failed: %s', i, type(e).__name__)
            sim.check(bad, 'good-value-failed',
                      'a fully encodable value failed: %s %s: %s',
                      type(e).__name__, e, values.text(values.canon(v), 300)
                      if not bad else '')
            sim.check(enc.stream.getvalue() == before and
                      enc.stream.tell() == bpos, 'bytes-left-behind',
                      'a failed element left %r in the output',
                      enc.stream.getvalue()[bpos:][:60])
            # the application retries the same value once it is repaired
            if sim.chance(40) and not hasattr(v, 'next'):
                Landmine.armed = ExtMine.armed = False
                sim.probe('retry-after-repair')
                try:
                    try:
                        if via_next:
                            enc.send(v)
                            piece = enc.next()
                        else:
                            enc.writeElement(v)
                    except (pyamf.BaseError, TypeError, ValueError,
                            StopIteration, Boom):
                        sim.check(enc.stream.getvalue() == before and
                                  enc.stream.tell() == bpos,
                                  'bytes-left-behind',
                                  'a failed retry left bytes behind')
                        continue
                finally:
                    Landmine.armed = ExtMine.armed = True
            else:
                continue
        else:
            sim.check(not bad, 'bad-value-accepted',
                      'an unencodable value was accepted')
            sim.log('element %d ok', i)
        if via_next:
            after = enc.stream.getvalue()
            end = bpos + len(piece)
            sim.check(before[:bpos] + piece + before[end:] == after and
                      enc.stream.tell() == end, 'next-bytes',
                      'next() returned %r but the stream holds %r',
                      piece[:40], after[bpos:][:40])
        ok.append(v)
        if sim.chance(50):
            data = enc.stream.getvalue()[:enc.stream.tell()]
            dec.send(data[fed:])
            fed = len(data)
            receive(sim, dec, got, len(ok))
    data = enc.stream.getvalue()
    end = enc.stream.tell()
    sim.check(data[:base] == junk[:base] and data[end:] == junk[end:],
              'buffer-damaged', 'encoding changed bytes of the buffer before '
              'or after what was written')
    dec.send(data[fed:end])
    receive(sim, dec, got, len(ok))
    Landmine.armed = False
    a = canon(ok)
    b = canon(got)
    sim.check(a == b, 'peer-disagrees',
              'after %d failed elements the peer decodes something else: %s',
              fails, values.diff(a, b))
    if fails and ok:
        sim.nontrivial = True
        sim.probe('success-after-failure')
    sim.state((amf, use3, via_next, fails, len(ok),
               tuple(sorted(g.kinds))[:8]))


def canon(vals):
    old = dict(values.ALIAS)
    values.ALIAS[Landmine] = u'sim.Landmine'
    values.ALIAS[ExtMine] = u'sim.ExtMine'
    try:
        return values.canon(vals)
    finally:
        values.ALIAS.clear()
        values.ALIAS.update(old)


def receive(sim, dec, got, expect):
    while True:
        try:
            got.append(dec.next())
        except StopIteration:
            break
        except (IOError, pyamf.BaseError, UnicodeError, AttributeError,
                TypeError, ValueError), e:
            sim.fail('peer-cannot-decode',
                     'the peer failed on element %d: %s %s', len(got),
                     type(e).__name__, e)
    sim.check(len(got) == expect, 'peer-count',
              'the peer has %d elements, %d were sent', len(got), expect)
