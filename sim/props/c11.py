# C11: shared object files on a disk that fails.
import datetime
import errno
import struct

import pyamf
from pyamf import sol

import core
import simfs
import values

PATHS = ['/simfs/a.sol', '/simfs/b.sol']


class Boom(Exception):
    pass


class Mine(object):
    class __amf__:
        static = ('a', 'mine')

    a = 1

    def _get(self):
        raise Boom('mine')
    mine = property(_get)


def setup():
    simfs.install()


def foreign(sim):
    """A file some other program wrote: its bytes, and what it holds (None
    if it is damaged).  Written here by hand, as Flash does."""
    amf = sim.pick([0, 3])
    name = sim.pick(['other', '', 'n\xc3\xa4me'])
    body = 'TCSO\x00\x04\x00\x00\x00\x00' + struct.pack(
        '>H', len(name)) + name + '\x00\x00\x00' + chr(amf)
    n = sim.choose(4)
    ends = [(len(body), [])]
    held = []
    for i in range(n):
        k = 'k%d' % i
        v, b = [
            (u'v%d' % i, ('\x02' + struct.pack('>H', 2), '\x06\x05')),
            (True, ('\x01\x01', '\x03')),
            (None, ('\x05', '\x01')),
            (i + 0.5, ('\x00' + struct.pack('>d', i + 0.5),
                       '\x05' + struct.pack('>d', i + 0.5))),
            ][sim.choose(4)]
        b = b[amf == 3]
        if isinstance(v, unicode):
            b += str(v)
        body += (chr(len(k) * 2 + 1) if amf else struct.pack('>H', len(k)))
        body += k + b
        ends.append((len(body), None))
        body += '\x00'
        held.append((k, v))
        ends.append((len(body), list(held)))
    what = sim.weighted([30, 30, 15, 15, 10])
    if what == 0:
        at, held = len(body), held
    elif what == 1 and n:
        # cut short, but with the length of what is left in its header
        at = sim.pick(ends)[0] if sim.chance(40) else \
            ends[0][0] + sim.choose(len(body) - ends[0][0] + 1)
        body = body[:at]
        held = dict((e, h) for e, h in ends).get(at)
    elif what == 2 and n:
        # one padding byte is missing or something else
        at = sim.pick([e for e, h in ends if h is None])
        body = body[:at] + sim.pick(['', 'x', '\x01']) + body[at + 1:]
        held = None
        # what follows may, read differently, look like a padding byte
        if body[at:at + 1] == '\x00':
            return None, None
    elif what == 3:
        body = body[:sim.choose(ends[0][0])]
        held = None
    length = len(body)
    if what == 4:
        length += sim.pick([1, -1, 256, 1 << 24, -length])
        held = None
    data = '\x00\xbf' + struct.pack('>L', length) + body
    if held is None:
        return data, None
    s = sol.SOL(name.decode('utf-8'))
    s.update(held)
    return data, canon(s)


class Expect(object):
    """what a file may contain"""

    def __init__(self):
        # list of canonical objects it may load to
        self.objs = []
        # loading may (or, without objs, must) fail
        self.error = True
        self.amf = 0


def canon(o):
    return (o.name, values.canon(dict(o)))


def build(sim, amf):
    s = sol.SOL(sim.pick([u'settings', u'n\xe4me', u'x' * 40]))
    g = values.Gen(sim, amf, budget=sim.pick([3, 8, 20]), classes=False)
    for k in g.keys(sim.small(4)):
        s[k] = g.value(1)
    if sim.chance(10):
        s[u'big'] = u'B' * 1500
    return s


def break_(sim, s):
    m = sim.pick([Mine(), datetime.time(1, 2), core.execute])
    k = sim.choose(4)
    sim.fault('unencodable-content')
    if k == 0:
        s[u'bad'] = m
    elif k == 1:
        s[u'bad'] = [1, m]
    elif k == 2:
        s[u'zz'] = {u'k': [m]}
    else:
        s.name = sim.pick([5, None])


def run(sim):
    values.register_all()
    plan = []

    def decide(call):
        if not plan:
            return None
        at, kind, arg = plan[0]
        if at > 0:
            plan[0] = (at - 1, kind, arg)
            return None
        if kind in ('full', 'torn') and call != 'write':
            return None
        if kind == 'readerror' and call != 'read':
            return None
        if kind == 'openerror' and call != 'open':
            return None
        del plan[:]
        sim.fault('disk-' + kind)
        sim.log('   %s at %s', kind, call)
        if kind in ('readerror', 'openerror', 'error'):
            if kind == 'error' and call == 'truncated':
                return None
            return ('error', arg)
        return (kind, arg) if kind in ('full', 'torn') else (kind,)

    disk = simfs.Disk(decide)
    simfs.use(disk)
    sim.on_cleanup(lambda: simfs.use(None))
    want = dict((p, Expect()) for p in PATHS)
    failed = 0

    def arm():
        del plan[:]
        k = sim.weighted([50, 8, 8, 8, 8, 8, 8])
        if k:
            kind = [None, 'full', 'crash', 'torn', 'interrupt', 'error',
                    'openerror'][k]
            plan.append((sim.choose(3) if kind not in (
                'full', 'torn', 'openerror') else 0, kind,
                sim.choose(300) if kind in ('full', 'torn') else sim.pick(
                    [errno.EIO, errno.EACCES, errno.EMFILE])))

    def attempt(f):
        """('ok', value), ('error', exc), ('crash',) or ('interrupt',)"""
        try:
            return ('ok', f())
        except simfs.Crash:
            return ('crash',)
        except simfs.Interrupt:
            return ('interrupt',)
        except Exception, e:
            return ('error', e)

    def done(what, r):
        if r[0] == 'crash':
            disk.reboot()
        left = [h for h in disk.open_handles() if h not in callers]
        sim.check(not left, 'handle-left-open', '%s (%s) left %d file '
                  'handle(s) open', what, outcome(r), len(left))
        for h in callers:
            sim.check(not h.closed or h in gone, 'caller-handle',
                      '%s closed the file of the caller', what)

    def load_check(what, p, r, was_faulty):
        e = want[p]
        if r[0] == 'ok':
            c = canon(r[1])
            sim.check(isinstance(r[1], sol.SOL), 'load-type',
                      'load returned %r', type(r[1]))
            sim.check(c in e.objs, 'loaded-something-else',
                      '%s gave an object that was never completely saved '
                      'there: %s', what, values.text(c[1], 300))
        else:
            sim.check(was_faulty or e.error, 'cannot-load',
                      '%s failed although the last save succeeded: %s',
                      what, outcome(r))

    callers = []
    gone = []
    loaded = []
    # complete files that were there at some time
    good = set()
    for i in range(3 + sim.small(14)):
        sim.steps += 1
        op = sim.weighted([30, 12, 25, 8, 10, 8, 7])
        p = sim.pick(PATHS)
        e = want[p]
        arm()
        if op in (0, 1):
            amf = sim.pick([0, 3])
            if loaded and sim.chance(30):
                amf, s = loaded[0]
                s[u'again'] = i
            else:
                s = build(sim, amf)
            bad = op == 1
            if bad:
                break_(sim, s)
                if s in [x for a, x in loaded]:
                    loaded[:] = []
            c = None if bad else canon(s)
            api = sim.choose(3)
            before = disk.files.get(p)
            sim.log('save%s %s api %d amf %d', ' bad' if bad else '', p, api,
                    amf)
            if api == 2:
                saved, plan[:] = list(plan), []
                f = disk.open(p, 'wb+')
                plan[:] = saved
                callers.append(f)
                before = ''
                r = attempt(lambda: sol.save(s, f, encoding=amf))
            elif api == 1:
                r = attempt(lambda: s.save(p, encoding=amf))
            else:
                r = attempt(lambda: sol.save(s, unicode(p), encoding=amf))
            sim.log('  -> %s', outcome(r))
            done('save', r)
            if r[0] != 'crash' and api == 2:
                # the caller closes its own file
                gone.append(f)
                r2 = attempt(f.close)
                if r[0] == 'ok':
                    r = r2
                callers.remove(f)
                if r2[0] == 'crash':
                    disk.reboot()
            callers = [] if r[0] == 'crash' else callers
            if r[0] == 'ok':
                sim.check(not bad, 'bad-saved', 'content that cannot be '
                          'encoded was saved')
                e.objs = [c]
                e.error = False
                e.amf = amf
                good.add(disk.files.get(p))
            else:
                failed += 1
                if bad and r[0] == 'error' and api != 2 or \
                        disk.files.get(p) == before:
                    # encoding comes first, the disk is not reached
                    sim.check(disk.files.get(p) == before,
                              'previous-file-destroyed', 'a save that failed '
                              'to encode (%s) changed the file from %d to %s '
                              'bytes', outcome(r), len(before or ''),
                              len(disk.files.get(p) or ''))
                    if api == 2:
                        e.objs, e.error = [], True
                else:
                    if c is not None and c not in e.objs:
                        e.objs = e.objs + [c]
                    e.error = True
                    if api == 2:
                        e.objs = [c] if c is not None else []
        elif op in (2, 3):
            sim.log('load %s', p)
            if sim.chance(15):
                plan[:] = [(0, 'readerror', errno.EIO)]
            armed = list(plan)
            if op == 3 and p in disk.files:
                saved, plan[:] = list(plan), []
                f = disk.open(p, 'rb')
                plan[:] = saved
                callers.append(f)
                r = attempt(lambda: sol.load(f))
                done('load', r)
                hit = bool(armed) and not plan
                del plan[:]
                if r[0] != 'crash':
                    gone.append(f)
                    f.close()
                callers = []
            else:
                r = attempt(lambda: sol.load(p))
                hit = bool(armed) and not plan
            sim.log('  -> %s', outcome(r))
            done('load', r)
            load_check('load', p, r, hit)
            if r[0] == 'ok':
                loaded[:] = [(e.amf, r[1])]
        elif op == 4:
            del plan[:]
            # somebody else's file, or one cut short
            data = disk.files.get(p)
            if sim.chance(50):
                data, holds = foreign(sim)
                if data is None or data in good:
                    continue
                disk.files[p] = data
                e = want[p] = Expect()
                sim.log('foreign file %s, %d bytes, holds %r', p, len(data),
                        holds)
                sim.fault('foreign-or-truncated-file')
                if holds:
                    sim.probe('foreign-file-complete')
                    e.objs = [holds]
                    e.error = False
                else:
                    sim.probe('foreign-file-damaged')
                continue
            k = sim.choose(5)
            sim.fault('foreign-or-truncated-file')
            if k == 0 and data:
                data = data[:sim.choose(len(data))]
            elif k == 1 and data:
                data = data + 'x' * (1 + sim.choose(9))
            elif k == 2 and data and len(data) > 16:
                i = sim.choose(2) or 6 + sim.choose(10)
                data = data[:i] + chr(ord(data[i]) ^ 0x41) + data[i + 1:]
            else:
                data = sim.pick(['', '\x00', '\x00\xbf', 'GIF89a' * 9,
                                 '\x00\xbf\x00\x00\x00\x00TCSO'])
            if data in good:
                continue
            disk.files[p] = data
            want[p] = Expect()
            sim.log('foreign file %s, %d bytes', p, len(data))
        elif op == 5:
            del plan[:]
            # the application checks the file of every completed save
            for q in PATHS:
                r = attempt(lambda: sol.load(q))
                done('load', r)
                load_check('a later load', q, r, False)
        else:
            del plan[:]
            if p in disk.files:
                sim.log('delete %s', p)
                del disk.files[p]
            want[p] = Expect()
    del plan[:]
    for q in PATHS:
        r = attempt(lambda: sol.load(q))
        done('load', r)
        load_check('the last load', q, r, False)
    if failed or sim.faults:
        sim.nontrivial = True
    sim.state((tuple(sorted(sim.faults)), failed,
               tuple(len(disk.files.get(q) or '') for q in PATHS)))


def outcome(r):
    if r[0] == 'error':
        return '%s' % (type(r[1]).__name__,)
    return r[0]
