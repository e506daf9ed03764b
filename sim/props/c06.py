# C06: whatever is posted, one well-formed HTTP response; nothing escapes.
import pyamf
from pyamf import remoting
from pyamf.remoting import gateway as gwmod

import lab
import simclock
import values
import web


def setup():
    simclock.install()
    web.setup()


class Rude(object):
    "not text"


def headers(sim, e):
    k = sim.choose(8)
    if k == 1:
        e.headers['Credentials'] = {u'userid': u'u', u'password': u'p'}
    elif k == 2:
        e.headers['Credentials'] = sim.pick([None, u'x', {}, 3, [1]])
    elif k == 3:
        e.headers['DescribeService'] = True
    elif k == 4:
        e.headers[u'x\xe9'.encode('utf-8')] = [1, {u'a': 2}]
        e.headers.set_required(u'x\xe9'.encode('utf-8'))


def build(sim, strict):
    """(bytes, ids, all processable) of a well-formed envelope"""
    version = sim.pick([0, 3])
    e = remoting.Envelope(version)
    headers(sim, e)
    ids = []
    good = True
    mids = [sim.choose(1000)]
    for i in range(sim.pick([1, 1, 2, 3, 0, 1, 2, 7])):
        rid = u'/%d' % i
        gen = values.Gen(sim, version, budget=8)

        def graph():
            return gen.value(1)
        if version == 3 and sim.chance(40):
            k = sim.choose(12)
            if k == 11:
                m = sim.pick([[], [None], [u'text'], [{u'a': 1}],
                              [pyamf.Undefined]])
                e[rid] = remoting.Request(sim.pick(['null', '']), m)
                good = None
            else:
                m, out = lab.flex(sim, graph, mids, unencodable=True)
                if out == ('unencodable',) and good is not None:
                    good = False
                e[rid] = remoting.Request('null', [m])
        elif sim.chance(4):
            # something only a server sends
            e[rid] = remoting.Response(u'body', sim.choose(2))
            good = None
        else:
            t, args, out = lab.calls(sim, graph, unencodable=True)
            if out == ('unencodable',) and good is not None and \
                    'DescribeService' not in e.headers:
                good = False
            e[rid] = remoting.Request(t, args)
        ids.append(rid)
    body = remoting.encode(e, strict=strict).getvalue()
    return body, ids, good


def corrupt(sim, body):
    b = bytearray(body)
    for _ in range(1 + sim.small(4)):
        k = sim.choose(6)
        at = sim.choose(len(b) + 1)
        if k == 0 and b:
            at = min(at, len(b) - 1)
            b[at] ^= 1 << sim.choose(8)
        elif k == 1 and b:
            at = min(at, len(b) - 1)
            b[at] = sim.pick([0, 1, 0x7f, 0x80, 0xff, 3, 9, 0x0a, 0x11, 0x10])
        elif k == 2:
            b[at:at] = bytearray([sim.choose(256)
                                  for _ in range(1 + sim.small(4))])
        elif k == 3:
            del b[at:at + 1 + sim.small(8)]
        elif k == 4:
            n = 1 + sim.small(20)
            b[at:at] = b[max(0, at - n):at]
        else:
            del b[at:]
    # implausible counts only make the decoder read to the end of the data
    return str(b)


def run(sim):
    values.register_all()
    now = [1300000000.0]
    simclock.use(sim, lambda: now[0])
    log = lab.Log()
    name = sim.pick(['wsgi', 'django', 'google', 'twisted'])
    kw = {}
    if sim.chance(30):
        kw['strict'] = True
    if sim.chance(40):
        kw['debug'] = True
    if sim.chance(40):
        kw['logger'] = lab.logger(sim)
    if sim.chance(15):
        kw['expose_request'] = True
    if sim.chance(20):
        import datetime
        kw['timezone_offset'] = sim.pick(
            [3600, -3600, datetime.timedelta(hours=5)])
    kind = sim.choose(6)
    if kind == 1:
        kw['authenticator'] = lambda *a: True
    elif kind == 2:
        def auth(*a):
            raise lab.ERR[err][1]()
        err = sim.pick(lab.ERRORS)[0]
        kw['authenticator'] = auth
    elif kind == 3:
        def pre(*a):
            raise lab.ERR[perr][1]()
        perr = sim.pick(lab.ERRORS)[0]
        kw['preprocessor'] = pre
    svcs = lab.services(log, kw.get('expose_request', False))
    front = web.make(name, sim, svcs, **kw)
    sim.log('%s %s', name, sorted(kw))

    for _ in range(1 + sim.small(6)):
        exchange(sim, name, front, log, kw, kind)
        # whatever happened, the next request is served normally
        if sim.chance(30):
            plain(sim, name, front, log, kw, kind)
    plain(sim, name, front, log, kw, kind)


def plain(sim, name, front, log, kw, kind):
    e = lab.envelope([(u'/1', 'add', [3, 4])], 0)
    r = front.serve(web.Post(remoting.encode(e, strict=True).getvalue()))
    wellformed(sim, name, r, 'a plain request', 'debug' in kw)
    sim.check(r.code == 200, 'plain-request',
              '%s: a plain request is answered %s', name, r.status)
    d = decode(sim, name, r, kw)
    ok = kind not in (2, 3)
    m = d[u'/1']
    if not ok:
        sim.check(m.status == 1, 'gate-ignored', '%s: %r', name, m)
    else:
        sim.check(m.status == 0 and m.body == 7, 'plain-request',
                  '%s: add(3, 4) answered %r', name, m)


def wellformed(sim, name, r, what, debug=False):
    p = r.validate()
    sim.check(not p, 'http-response', '%s: %s: %s', name, what,
              '; '.join(p))
    if r.code != 200 and r.code != 405:
        pass
    sim.check(r.code in (200, 400, 405, 500), 'http-status',
              '%s: %s: status %s', name, what, r.status)
    if not debug and r.code != 200:
        sim.check('Traceback' not in r.body, 'traceback', '%s: %s: the '
                  'answer outside debug mode shows %r', name, what, r.body)


def decode(sim, name, r, kw):
    sim.check((r.header('Content-Type') or '').startswith(
        remoting.CONTENT_TYPE), 'content-type', '%s: %s', name,
        r.header('Content-Type'))
    try:
        return remoting.decode(r.body, strict=kw.get('strict', False))
    except Exception, e:
        sim.fail('undecodable-envelope', '%s: status 200 with a body that '
                 'does not decode: %s: %s (%r)', name, e.__class__.__name__,
                 e, r.body[:300])


def exchange(sim, name, front, log, kw, kind):
    body, ids, good = build(sim, kw.get('strict', False) or bool(sim.choose(2)))
    k = sim.weighted([25, 25, 20, 6, 8, 6, 4, 6])
    post = None
    what = None
    if k == 0:
        what = 'intact'
        post = web.Post(body)
    elif k == 1:
        what = 'truncated'
        post = web.Post(body[:sim.choose(len(body))])
        sim.fault('truncated-request')
    elif k == 2:
        what = 'corrupted'
        post = web.Post(corrupt(sim, body))
        sim.fault('corrupted-request')
    elif k == 3:
        what = 'method'
        post = web.Post(body, sim.pick(['GET', 'PUT', 'DELETE', 'OPTIONS']))
    elif k == 4:
        # the connection ended before the declared length arrived
        what = 'truncated'
        post = web.Post(body[:sim.choose(len(body))], length=str(len(body)))
        sim.fault('short-request')
    elif k == 5:
        what = 'length'
        post = web.Post(body, length=sim.pick(
            [None, '', 'abc', '-5', '0', '1e3', '12 ',
             str(sim.choose(len(body)))]))
        sim.fault('bad-content-length')
    elif k == 6:
        what = 'reset'
        post = web.Post(body, reset=sim.choose(len(body)))
        sim.fault('request-reset')
    else:
        what = 'trailing'
        post = web.Post(body + 'x' * (1 + sim.choose(5)))
        sim.fault('trailing-bytes')
    if name in ('google', 'twisted') and what in ('length', 'reset'):
        # their frameworks read the body before the gateway is called
        if what == 'reset' and name == 'google':
            pass
        return
    before = len(log.calls)
    sim.log('%s %d bytes %s %s', what, len(body), ids, good)
    r = front.serve(post)
    sim.log('-> %s %d', r.status, len(r.body))
    sim.state((name, what, r.code, good))
    if what != 'intact':
        sim.nontrivial = True
    wellformed(sim, name, r, '%s request' % what, 'debug' in kw)
    if what == 'method':
        sim.check(r.code in ((400, 405) if name == 'wsgi' else (405,)),
                  'method', '%s: %s answered %s', name, post.method, r.status)
        sim.check(len(log.calls) == before, 'method-effect',
                  '%s: %s ran a service', name, post.method)
        return
    sim.check(r.code != 405, 'http-status', '%s: POST answered 405', name)
    if r.code == 200:
        d = decode(sim, name, r, kw)
    if what == 'truncated' or what == 'reset':
        sim.check(r.code == 400, 'truncated', '%s: a request cut short is '
                  'answered %s', name, r.status)
        sim.check(len(log.calls) == before, 'truncated-effect',
                  '%s: a request cut short ran a service', name)
        return
    if what == 'intact':
        if good:
            sim.check(r.code == 200, 'processable', '%s: a well-formed '
                      'request is answered %s', name, r.status)
            sim.check([x for x in d.keys()] == ids, 'ids',
                      '%s: requests %s answered by %s', name, ids, d.keys())
        elif good is False and kind not in (2, 3):
            sim.check(r.code in (500, 200), 'unencodable', '%s: an '
                      'unencodable result is answered %s', name, r.status)
