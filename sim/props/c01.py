# C01: chunked, polled stream decoding equals whole-stream decoding.
import pyamf
from pyamf import codec, util

import values


def encode_all(sim, amf, vals, **kw):
    e = pyamf.get_encoder(amf, **kw)
    for v in vals:
        e.writeElement(v)
    return e.stream.getvalue()


def loader_for(sim, calls):
    """Class registrations of the receiving side, by lazy class loader."""
    table = dict((a, k) for k, a in values.REGISTRY if a)

    def loader(alias):
        calls.append(alias)
        return table.get(alias)
    return loader


def drain(dec):
    out = []
    for el in dec:
        out.append(el)
    return out


class CountingProcessor(object):
    def __init__(self):
        self.n = 0

    def __call__(self, payload, extra):
        self.n += 1
        return payload


def run(sim):
    amf = sim.pick([3, 0])
    nested3 = amf == 0 and sim.chance(30)      # AMF0 envelope, AMF3 values
    values.register_all()
    use_proxies = amf == 3 and sim.chance(15)
    g = values.Gen(sim, 3 if nested3 else amf, budget=sim.pick([6, 15, 40]),
                   ref=not use_proxies)
    n = 1 + sim.small(4)
    vals = []
    for _ in range(n):
        vals.append(g.value())
    enc = pyamf.get_encoder(amf)
    if nested3:
        enc.use_amf3 = True
    ends = []
    for v in vals:
        enc.writeElement(v)
        ends.append(enc.stream.tell())
    data = enc.stream.getvalue()
    total = len(data)
    sent = values.canon(vals)
    sim.log('amf%d%s %d elements, %d bytes: %s', amf,
            '/3' if nested3 else '', n, total, values.text(sent, 300))

    # receiving process: same class names known, lazily for some runs
    calls = []
    lazy = sim.chance(25)
    if lazy:
        for k, a in values.REGISTRY:
            if a:
                pyamf.unregister_class(a)
        pyamf.register_class_loader(loader_for(sim, calls))
    kw = {}
    if use_proxies:
        kw['use_proxies'] = True

    proc = CountingProcessor()
    whole_dec = pyamf.get_decoder(amf, data, **kw)
    whole = drain(whole_dec)
    W = values.canon(whole)
    sim.check(len(whole) == n, 'whole-count',
              'decoding the complete stream gave %d of %d elements',
              len(whole), n)
    if not use_proxies:
        sim.check(W == sent, 'whole-value',
                  'whole-stream decode differs from what was sent: %s',
                  values.diff(sent, W))

    counting = sim.chance(60)
    if counting:
        pyamf.add_post_decode_processor(proc)

    # connection may be cut for good at some byte
    cut = total
    if sim.chance(20) and total > 1:
        cut = sim.choose(total)
        sim.fault('connection-cut')
    own_stream = sim.chance(30)
    if own_stream:
        stream = util.BufferedByteStream()
        dec = pyamf.get_decoder(amf, stream, **kw)
        feed = stream.append
    else:
        dec = pyamf.get_decoder(amf, **kw)
        feed = dec.send
    compacting = sim.chance(25)
    mode = sim.choose(4)     # chunk size policy
    pos = 0
    got = []
    incomplete = 0
    while pos < cut:
        if mode == 0:
            size = 1 + sim.choose(max(1, cut - pos))
        elif mode == 1:
            size = 1 + total // 150
        elif mode == 2:
            size = 1 + sim.choose(8)
        else:
            # end the chunk right around an element boundary
            nxt = [e for e in ends if e > pos] or [cut]
            size = nxt[0] - pos + sim.pick([0, -1, 1, -2, 2])
            size = max(1, size)
        size = min(size, cut - pos)
        feed(data[pos:pos + size])
        pos += size
        sim.fault('chunk-split')
        sim.steps += 1
        avail = len([e for e in ends if e <= pos])
        polls = sim.choose(3) if pos < cut else 2
        if mode == 1 and pos < cut and sim.choose(2):
            polls = 0
        for _ in range(polls):
            while True:
                before = dec.stream.remaining()
                bpos = dec.stream.tell()
                try:
                    how = sim.choose(2)
                    if how == 0:
                        el = dec.next()
                    else:
                        el = dec.readElement()
                except (StopIteration, IOError, pyamf.EOStream), e:
                    incomplete += 1
                    sim.fault('poll-incomplete')
                    sim.check(len(got) >= avail, 'element-withheld',
                              'element %d is completely received (%d of %d '
                              'bytes) but polling says %s: %s', len(got), pos,
                              total, type(e).__name__, e)
                    sim.check(dec.stream.remaining() == before and
                              dec.stream.tell() == bpos, 'poll-consumed',
                              'polling an incomplete element moved the '
                              'stream from %d to %d', bpos,
                              dec.stream.tell())
                    break
                got.append(el)
                sim.check(len(got) <= avail, 'element-early',
                          'element %d delivered after %d of %d bytes',
                          len(got) - 1, pos, ends[len(got) - 1]
                          if len(got) <= n else total)
                sim.log('%d bytes: element %d', pos, len(got) - 1)
            if compacting and sim.chance(50):
                dec.stream.consume()
                sim.probe('compacted')
    C = values.canon(got, exact=True)
    expect = values.canon(whole, exact=True)
    if cut < total:
        k = len([e for e in ends if e <= cut])
        expect = values.canon(whole[:k], exact=True)
    sim.check(C == expect, 'chunked-value',
              'chunked decode differs from whole decode: %s',
              values.diff(expect, C))
    if counting:
        # nested AMF3 elements of an AMF0 stream are finalised as well
        if amf == 3:
            sim.check(proc.n == len(got), 'finalise-count',
                      'post-decode processors ran %d times for %d elements',
                      proc.n, len(got))
        else:
            sim.check(proc.n >= len(got), 'finalise-count',
                      'post-decode processors ran %d times for %d elements',
                      proc.n, len(got))
    if incomplete and 'ref' in g.kinds:
        sim.probe('incomplete-with-references')
    if incomplete:
        sim.nontrivial = True
    sim.state((amf, nested3, mode, use_proxies, lazy, cut < total,
               min(incomplete, 20), n, tuple(sorted(g.kinds))[:6]))
