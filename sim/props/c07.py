# C07: the members of a batch do not affect each other.
import pyamf  # noqa
from pyamf import remoting

import lab
import simclock
import values
import web


def setup():
    simclock.install()
    web.setup()


IDS = [u'/0', u'/1', u'/2', u'/3', u'/4', u'/10', u'/11', u'', u'r\xe9', u'null',
       u'/1/1', u'12']


def run(sim):
    values.register_all()
    now = [1300000000.0]
    simclock.use(sim, lambda: now[0])
    name = sim.pick(['wsgi', 'django', 'google', 'twisted'])
    kw = {}
    if sim.chance(25):
        kw['strict'] = True
    debug = sim.chance(30)
    if name == 'django' and sim.chance(50):
        from django.conf import settings
        settings.DEBUG = bool(sim.choose(2))
        sim.on_cleanup(lambda: setattr(settings, 'DEBUG', False))
        if debug or sim.choose(2):
            kw['debug'] = debug
        else:
            debug = settings.DEBUG
    elif debug:
        kw['debug'] = True
    if sim.chance(40):
        kw['logger'] = lab.logger(sim)
    kw['expose_request'] = sim.chance(20)

    def front():
        log = lab.Log()
        return web.make(name, sim, lab.services(
            log, kw['expose_request']), **kw), log

    version = sim.pick([0, 3])
    reqs = []
    mids = [sim.choose(1000)]
    ids = list(IDS)
    failures = 0
    odd = set()
    for i in range(1 + sim.small(5) + (6 if sim.chance(6) else 0)):
        rid = ids.pop(sim.choose(len(ids)))
        gen = values.Gen(sim, version, budget=10)

        def graph():
            return gen.value(1)
        if version == 3 and sim.chance(5):
            # arguments that are no list
            args = sim.pick([{u'a': 1}, {}, 3, u'', u'text', None, 1.5])
            out = ('error', None, None)
            reqs.append((rid, 'null', args, out))
            odd.add(rid)
        elif version == 3 and sim.chance(45):
            m, out = lab.flex(sim, graph, mids)
            reqs.append((rid, 'null', [m], out))
        else:
            t, args, out = lab.calls(sim, graph)
            reqs.append((rid, t, args, out))
        if out[0] == 'error':
            failures += 1
    headers = heads(sim)
    args3 = set(odd)
    if version == 3:
        for rid, t, args, out in reqs:
            if sim.chance(20):
                args3.add(rid)
    sim.log('%s v%d %s', name, version, sorted(k for k in kw if kw[k]))
    for rid, t, args, out in reqs:
        sim.log('%r %r %r -> %s', rid, t, 
                [type(a).__name__ for a in args] if rid not in odd else
                repr(args),
                out[0] if out[0] != 'error' else out[1])
    if failures:
        sim.fault('failing-request', failures)
        if len(reqs) > 1:
            sim.nontrivial = True
    sim.state((name, tuple(sorted((o[0], str(o[1:2])[:20])
                                  for _, _, _, o in reqs
                                  if o[0] == 'error')), len(reqs)))

    gw, log = front()
    # earlier traffic on the same gateway
    if sim.chance(30):
        post(sim, name, gw, reqs[:1], version, args3 & set([reqs[0][0]]), kw,
             headers)
        del log.calls[:]
    whole = post(sim, name, gw, reqs, version, args3, kw, headers)
    calls = list(log.calls)
    expected_calls = []
    for r in reqs:
        gw1, log1 = front()
        alone = post(sim, name, gw1, [r], version, args3 & set([r[0]]), kw,
                     headers)
        expected_calls += log1.calls
        what = '%s: %s' % (name, r[1])
        lab.expect(sim, what + ' in a batch', whole[r[0]], r[3],
                   debug)
        a, b = lab.view(alone[r[0]]), lab.view(whole[r[0]])
        sim.check(a == b, 'batch-isolation', '%s: alone it is answered %s, '
                  'in a batch %s', what, text(a), text(b))
    sim.check(calls == expected_calls, 'invocations', '%s: services invoked '
              '%s, expected %s', name, calls, expected_calls)


def text(v):
    return repr(v)[:600]


def heads(sim):
    """Headers every envelope of the run has."""
    out = []
    if sim.chance(30):
        out.append((u'Credentials', {u'userid': u'u', u'password': u'p'}))
    if sim.chance(15):
        shared = [u'one', {u'two': 2}]
        out.append((u'token', [shared, shared, {u'deep': shared}]))
    if sim.chance(10):
        o = values.Derived()
        o.b1, o.b2, o.d1 = 1, u'two', [3]
        out.append((u'object', o))
    return out


def post(sim, name, gw, reqs, version, args3, kw, headers=()):
    plain = [(rid, t, args) for rid, t, args, out in reqs]
    if args3:
        data = lab.raw_envelope(plain, version, args3, headers)
    else:
        data = remoting.encode(lab.envelope(plain, version, headers),
                               strict=True).getvalue()
    r = gw.serve(web.Post(data))
    p = r.validate()
    sim.check(not p, 'http-response', '%s: %s', name, '; '.join(p))
    sim.check(r.code == 200, 'whole-batch', '%s: a batch of %d is answered '
              '%s', name, len(reqs), r.status)
    n = lab.count(r.body)
    sim.check(n == len(reqs), 'response-count', '%s: %d requests, %s '
              'responses', name, len(reqs), n)
    d = remoting.decode(r.body, strict=kw.get('strict', False))
    sim.check(sorted(d.keys()) == sorted([x[0] for x in reqs]),
              'response-ids', '%s: requests %s answered as %s', name,
              [x[0] for x in reqs], d.keys())
    sim.check(d.amfVersion == version, 'version', '%s: version %s answered '
              'with %s', name, version, d.amfVersion)
    return d
