# C08: no service runs without its gates, and only exposed methods run.
import types

import pyamf  # noqa
from pyamf import remoting
from pyamf.flex import messaging
from pyamf.remoting import gateway

import boot
import lab
import sched
import simclock
import web


def setup():
    simclock.install()
    web.setup()


MASTER = u'master'


def http_marker(x):
    """Which HTTP request an exposed request object is."""
    if isinstance(x, dict):
        return x.get('HTTP_X_SIM')
    if hasattr(x, 'META'):
        return x.META.get('HTTP_X_SIM')
    if hasattr(x, 'getHeader'):
        return x.getHeader('X-Sim')
    if hasattr(x, 'headers') and hasattr(x, 'body'):
        return x.headers.get('X-Sim')
    return None


def shape(args):
    out = []
    for a in args:
        m = http_marker(a)
        out.append(('http', m) if m is not None else a)
    return tuple(out)


class Refused(Exception):
    _amf_code = 'Refused'


class Gate(object):
    """An authenticator or preprocessor of the application."""

    def __init__(self, kind, label, behaviour, exposed, later):
        self.kind = kind
        self.label = label
        self.behaviour = behaviour
        self.exposed = exposed
        self.later = later

    def accepts(self, pw):
        if self.behaviour == 'truthy':
            return False
        return pw in (MASTER, u'pw-' + self.label)

    def lets(self, user):
        # (of a preprocessor)
        return not (self.behaviour == 'raises' and user == u'blocked')

    def describe(self):
        return '%s%s%s' % (self.behaviour, '+http' if self.exposed else '',
                           '+later' if self.later else '')


class Site(object):
    def __init__(self, sim, reactor=None):
        self.sim = sim
        self.reactor = reactor
        self.log = []
        self.gates = {}
        self.services = {}
        self.desc = []
        self.gw_auth = self.gate('auth', u'G', 35)
        self.gw_pre = self.gate('pre', u'G', 35)
        self.gw_expose = sim.chance(30)

    # -- what the application consists of ------------------------------------
    def gate(self, kind, label, percent):
        sim = self.sim
        if not sim.chance(percent):
            return None
        if kind == 'auth':
            b = sim.pick(['bool', 'bool', 'none', 'raises', 'truthy'])
        else:
            b = sim.pick(['passes', 'raises'])
        g = Gate(kind, label, b, sim.chance(25),
                 self.reactor is not None and sim.chance(60))
        # (an old-style exception cannot be fired as an error)
        g.error = sim.pick([Refused, GeneratorExit, Refused] +
                           ([] if g.later else [lab.OldStyle]))
        self.gates[kind, label] = g
        self.desc.append('%s(%s): %s' % (kind, label, g.describe()))
        return g

    def later(self, f, *a):
        """The outcome of f arrives as a later event."""
        from twisted.internet import defer
        d = defer.Deferred()

        def fire():
            try:
                r = f(*a)
            except:
                d.errback(defer.Failure())
            else:
                d.callback(r)
        self.reactor.call('later', fire)
        return d

    def function(self, g):
        """The callable of a gate."""
        if g is None:
            return None
        if g.kind == 'auth':
            def work(user, pw):
                ok = g.accepts(pw)
                self.log.append(('verdict', g.label, user, pw, ok))
                if not ok:
                    if g.behaviour == 'raises':
                        raise g.error('no')
                    return {'bool': False, 'none': None, 'truthy': 1}[
                        g.behaviour]
                return True

            def auth(*a):
                s = shape(a)
                want = 3 if g.exposed else 2
                if len(s) != want:
                    self.sim.fail('authenticator-arguments', '%s called with '
                                  '%r', g.label, s)
                user, pw = s[-2:]
                self.log.append(('auth', g.label, user, pw, s[:-2]))
                if g.later:
                    return self.later(work, user, pw)
                return work(user, pw)
            return auth

        def passed(user):
            if not g.lets(user):
                raise g.error('preprocessor')
            self.log.append(('passed', g.label, user))

        def pre(*a):
            s = a
            http = ()
            if g.exposed:
                http = shape(a[:1])
                s = a[1:]
            sr = s[0]
            if not isinstance(sr, gateway.ServiceRequest):
                self.sim.fail('preprocessor-arguments', '%s called with %r',
                              g.label, shape(a))
            cred = sr.request.headers.get('Credentials')
            user = cred.get('userid') if isinstance(cred, dict) else None
            self.log.append(('pre', g.label, user, sr.method, http))
            if g.later:
                return self.later(passed, user)
            return passed(user)
        return pre

    def guard(self, f, label):
        """Method-level settings."""
        sim = self.sim
        for kind, deco in (('auth', gateway.authenticate),
                           ('pre', gateway.preprocess)):
            g = self.gate(kind, label, 25)
            if g is not None:
                c = self.function(g)
                # decorators, or settings of the method of a finished class
                at = f
                if isinstance(f, types.FunctionType) and sim.chance(25):
                    at = types.MethodType(f, None, Site)
                if g.exposed and sim.choose(2):
                    r = deco(at, c, expose_request=True)
                else:
                    if g.exposed:
                        c = gateway.expose_request(c)
                    r = deco(at, c)
                if at is f:
                    f = r
        if sim.chance(15):
            return gateway.expose_request(f), True
        return f, False

    def method(self, name, bound):
        log = self.log
        async = self.reactor is not None and self.sim.chance(40)

        def work(args):
            return args[-1] if args and isinstance(
                args[-1], unicode) else None

        def f(*a):
            if bound:
                a = a[1:]
            args = shape(a)
            log.append(('call', name, args))
            if async:
                return self.later(work, args)
            return work(args)
        return f

    def service(self, name):
        """Makes a published service: the model of it."""
        sim = self.sim
        kind = sim.pick(['function', 'instance', 'class', 'module',
                         'callable', 'delegate', 'callable-class'])
        m = Service(name, kind)
        raising = sim.chance(20)
        if kind == 'function':
            f = self.method(name, False)
            m.obj, m.expose[None] = self.guard(f, name + u'()')
        else:
            ns = {}
            # (Jython takes old-style classes of one name to be equal)
            tag = str(name).replace('.', '_')
            for n in ('a', 'b', '_hidden'):
                f = self.method(name + u'.' + n, kind != 'module')
                if n != '_hidden':
                    f, m.expose[n] = self.guard(f, u'%s:%s' % (name, n))
                ns[n] = f
            ns['attr'] = 3
            if kind == 'module':
                m.obj = types.ModuleType('mod_' + str(name).replace('.', '_'))
                m.obj.__dict__.update(ns)
            else:
                if raising and kind != 'delegate':
                    ns['raising'] = property(_raising)
                if kind in ('callable', 'callable-class'):
                    ns['__call__'] = self.method(name, True)
                ns['__repr__'] = lambda self: '<service>'
                ns['__hash__'] = lambda self: 1
                if kind == 'class' and sim.choose(2):
                    cls = types.ClassType('Svc' + tag, (), ns)
                else:
                    cls = type('Svc' + tag, (object,), ns)
                if kind in ('class', 'callable-class'):
                    m.obj = cls
                elif kind == 'delegate':
                    m.obj = Delegate(cls())
                else:
                    m.obj = cls()
                if kind == 'callable':
                    # settings of the object itself
                    m.obj, m.expose[None] = self.guard(m.obj, name + u'()')
                elif kind == 'callable-class':
                    m.expose[None] = False
        m.level_auth = self.gate('auth', name, 30)
        m.level_pre = self.gate('pre', name, 30)
        m.level_expose = sim.pick([None, None, True, False])
        m.description = u'about ' + name
        self.desc.append('%s is a %s' % (name, kind))
        return m

    def publish(self, gw, m):
        a, p = self.function(m.level_auth), self.function(m.level_pre)
        for g, f in ((m.level_auth, a), (m.level_pre, p)):
            if g is not None and g.exposed:
                gateway.expose_request(f)
        gw.addService(m.obj, m.name, description=m.description,
                      authenticator=a, expose_request=m.level_expose,
                      preprocessor=p)
        self.services[m.name] = m

    # -- the model ------------------------------------------------------------
    def resolve(self, target):
        if target in self.services:
            return self.services[target], None
        name, _, meth = target.rpartition(u'.')
        if u'.' in target and name in self.services:
            return self.services[name], meth
        return None, None

    def gates_of(self, kind, m, meth):
        own = u'%s()' % m.name if meth is None else u'%s:%s' % (m.name, meth)
        if meth in m.expose and (kind, own) in self.gates:
            return self.gates[kind, own]
        level = m.level_auth if kind == 'auth' else m.level_pre
        if level is not None:
            return level
        return self.gw_auth if kind == 'auth' else self.gw_pre

    def exposed(self, m, meth):
        if m.expose[meth]:
            return True
        if m.level_expose is not None:
            return m.level_expose
        return self.gw_expose


class Service(object):
    def __init__(self, name, kind):
        self.name = name
        self.kind = kind
        self.expose = {}         # methods that exist -> own expose setting


class Delegate(object):
    def __init__(self, inner):
        self.__dict__['inner'] = inner

    def __getattr__(self, name):
        return getattr(self.inner, name)

    def __repr__(self):
        return '<delegate>'


def _raising(self):
    raise ValueError('property')


class Exchange(object):
    """One HTTP request with a batch of AMF requests."""

    def __init__(self, site, number, bare=False):
        sim = site.sim
        self.bare = set()        # requests without arguments
        self.number = number
        self.marker = 'X%d' % number
        self.user = sim.pick([u'u%d' % number, u'u%d' % number,
                              u'blocked', None])
        labels = sorted(l for k, l in site.gates if k == 'auth') or [u'none']
        self.pw = sim.pick([MASTER, u'bad', u'pw-' + sim.pick(labels)])
        # how the credentials arrive
        self.form = sim.weighted([70, 15, 5, 5, 5])
        if self.form or self.user is None:
            self.pw = None
            if self.user is not None and self.form != 3:
                self.user = None
        self.describe = sim.chance(8)
        self.version = sim.pick([0, 3])
        self.requests = []
        for i in range(1 + sim.small(3)):
            rid = u'/%d' % (i + 1)
            token = u'T%d.%d' % (number, i)
            self.requests.append((rid, token) + self.request(site))
            if bare and sim.chance(20):
                self.bare.add(token)

    def request(self, site):
        sim = site.sim
        names = sorted(site.known)
        name = sim.pick(names)
        m = site.known[name]
        if sim.chance(75):
            meth = sim.pick(sorted(m.expose, key=lambda x: x or ''))
            target = name if meth is None else name + u'.' + meth
        else:
            target = sim.pick([
                name + u'._hidden', name + u'.nope', name + u'.attr', name,
                name + u'.raising', name + u'.__init__', name + u'.',
                name + u'.a.__call__', name + u'.__class__', u'.' + name,
                name + u'.A', name.upper(), name + u'.a.b', u'a',
                name + u'. a', u'._hidden', name + u'.\xe9',
                name + u'.a\x00', name + u'.__getattribute__'])
        ro = self.version == 3 and sim.chance(25)
        if ro and target.startswith(u'.'):
            ro = False
        if ro:
            s, meth = site.resolve(target)
            if s is not None and site.gates_of('auth', s, meth) is not None:
                # documented: authenticators are not asked for these
                ro = False
        return target, ro

    def encode(self):
        e = remoting.Envelope(self.version)
        if self.user is not None or self.pw is not None:
            if self.form == 3:
                e.headers['Credentials'] = {u'userid': self.user}
            else:
                e.headers['Credentials'] = {u'userid': self.user,
                                            u'password': self.pw}
        elif self.form == 2:
            e.headers['Credentials'] = u'junk'
        elif self.form == 4:
            e.headers['Credentials'] = [MASTER, MASTER]
        if self.describe:
            e.headers['DescribeService'] = True
        for rid, token, target, ro in self.requests:
            args = [] if token in self.bare else [token]
            if ro:
                msg = messaging.RemotingMessage(
                    body=args, messageId=token, headers={})
                d, _, op = target.rpartition(u'.')
                msg.destination, msg.operation = d, op
                e[rid] = remoting.Request(u'null', [msg])
            else:
                e[rid] = remoting.Request(target, args)
        return remoting.encode(e, strict=True).getvalue()

    def text(self):
        return '%s user %r pw %r form %d v%d%s: %s' % (
            self.marker, self.user, self.pw, self.form, self.version,
            ' describe' if self.describe else '',
            [(t + (' (RO)' if ro else '') + (
                ' ()' if token in self.bare else '')).encode('utf-8')
             for _, token, t, ro in self.requests])


def run(sim):
    simclock.use(sim, lambda: 1300000000.0)
    mode = sim.pick(['sequence', 'async', 'threads'])
    reactor = None
    if mode == 'async':
        reactor = web.Reactor(sim)
        name = 'twisted'
    elif mode == 'threads':
        name = sim.pick(['wsgi', 'wsgi', 'django'])
    else:
        name = sim.pick(['wsgi', 'django', 'google', 'twisted'])
    site = Site(sim, reactor)
    kw = {'authenticator': site.function(site.gw_auth),
          'preprocessor': site.function(site.gw_pre),
          'expose_request': site.gw_expose}
    if site.gw_expose == (name in ('twisted', 'django')) and sim.chance(50):
        # the default
        kw['expose_request'] = web.DEFAULT
    for k, g in (('authenticator', site.gw_auth),
                 ('preprocessor', site.gw_pre)):
        if g is not None and g.exposed:
            gateway.expose_request(kw[k])
    if reactor is not None:
        kw['reactor'] = reactor
    front = web.make(name, sim, {}, **kw)
    gw = front.gw
    if name == 'google':
        # one handler instance per request; the services are shared
        gw = Published(front.gw)
    site.known = {}
    names = [u'fn', u'svc', u'deep.svc', u'svc.a', u'mod', u'deep']
    for _ in range(1 + sim.small(2)):
        n = names.pop(sim.choose(len(names)))
        m = site.known[n] = site.service(n)
        if sim.chance(90) or not site.services:
            site.publish(gw, m)
    sim.log('%s, %s; %s', name, mode, '; '.join(
        [d.encode('utf-8') for d in site.desc]))

    exchanges = []

    def make():
        x = Exchange(site, len(exchanges), mode == 'sequence')
        exchanges.append(x)
        sim.log('%s', x.text())
        return x, web.Post(x.encode(), headers={'X-Sim': x.marker})

    if mode == 'sequence':
        for _ in range(1 + sim.small(4)):
            if sim.chance(20):
                change(sim, site, gw)
            x, post = make()
            del site.log[:]
            judge(sim, site, name, [(x, front.serve(post))], True)
    elif mode == 'async':
        open_ = []
        for _ in range(2 + sim.small(2)):
            x, post = make()
            open_.append((x, front.begin(post)))
            for _ in range(sim.choose(6)):
                if reactor.events:
                    reactor.step()
        reactor.run()
        if any(reactor.order):
            sim.fault('reordered-completion')
        judge(sim, site, name, open_, False)
    else:
        open_ = []
        s = sched.ThreadSched(sim, max_preempt=sim.pick([2, 5, 10]))
        # preempt while requests are processed rather than coded (how many
        # lines the codecs run depends on the order of adapted types)
        s.tracer.prefix = boot.SCRATCH + '/pyamf/remoting'
        for _ in range(2 + sim.small(1)):
            x, post = make()

            def body(post=post):
                return front.serve(post)
            s.spawn(x.marker, body)
            open_.append(x)
        s.run()
        judge(sim, site, name, zip(open_, [t.result for t in s.tasks]),
              False)
        for a, b in s.trail:
            sim.state(('switch', a, b))
    sim.state((name, mode, tuple(sorted(
        (k, g.behaviour, g.exposed) for (k, l), g in site.gates.items())),
        tuple(sorted(m.kind for m in site.services.values()))))


class Published(object):
    """addService/removeService of App Engine's factory of gateways."""

    def __init__(self, factory):
        self.factory = factory
        self.args = []

    def addService(self, *a, **kw):
        self.factory_gateway().addService(*a, **kw)

    def removeService(self, *a, **kw):
        self.factory_gateway().removeService(*a, **kw)

    def factory_gateway(self):
        return self.factory()


def change(sim, site, gw):
    """The application adds or removes a service."""
    out = sorted(n for n in site.known if n not in site.services)
    if out and sim.choose(2):
        n = sim.pick(out)
        site.publish(gw, site.known[n])
        sim.log('added %s', n)
        sim.fault('service-added')
    elif len(site.services) > 0:
        n = sim.pick(sorted(site.services))
        if sim.choose(2):
            gw.removeService(n)
        else:
            gw.removeService(site.services[n].obj)
        del site.services[n]
        sim.log('removed %s', n)
        sim.fault('service-removed')


def judge(sim, site, name, served, ordered):
    """Compares what ran with what may have run."""
    expected_calls = []
    for x, r in served:
        p = r.validate()
        sim.check(not p, 'http-response', '%s: %s', name, '; '.join(p))
        sim.check(r.code == 200, 'http-status', '%s: %s', name, r.status)
        d = remoting.decode(r.body)
        for rid, token, target, ro in x.requests:
            what = '%s %s: %s%s' % (name, x.marker, target.encode('utf-8'),
                                    ' (RO)' if ro else '')
            sim.check(rid in d, 'answered', '%s: no answer', what)
            verdict, reason = decide(site, x, target, ro)
            m = d[rid]
            if verdict == 'refused':
                sim.fault('unauthorised-request')
                sim.nontrivial = True
            elif verdict == 'error':
                sim.fault('unpublished-name')
            if verdict in ('refused', 'error'):
                sim.check(m.status == remoting.STATUS_ERROR,
                          'rejected-is-error', '%s: %s, but answered %r',
                          what, reason, m.body)
                continue
            if verdict == 'any':
                continue
            body = m.body
            if ro:
                sim.check(isinstance(body, messaging.AcknowledgeMessage),
                          'answer', '%s: %r', what, body)
                if m.status == 0:
                    body = body.body
            sim.check(m.status == remoting.STATUS_OK, 'allowed-runs',
                      '%s: is allowed, but answered %r', what, body)
            if verdict == 'describe':
                sim.check(body == site.resolve(target)[0].description,
                          'description', '%s: %r', what, body)
                continue
            args = () if token in x.bare else (token,)
            want = token if args else None
            sim.check(body == want, 'result', '%s: returned %r instead of '
                      '%r', what, body, want)
            s, meth = site.resolve(target)
            if site.exposed(s, meth):
                args = (('http', x.marker),) + args
            n = s.name if meth is None else u'%s.%s' % (s.name, meth)
            expected_calls.append((('call', n, args), x, s, meth, ro))
    calls = [e for e in site.log if e[0] == 'call']
    want = [c[0] for c in expected_calls]
    if not ordered:
        calls, want = sorted(calls, key=repr), sorted(want, key=repr)
    sim.check(calls == want, 'services-run', '%s: ran %s, expected %s', name,
              calls, want)
    # every call comes after its own gates
    for kind, verdict in (('auth', 'verdict'), ('pre', 'passed')):
        need = {}
        for c in expected_calls:
            e, x, s, meth, ro = c
            if kind == 'auth' and ro:
                continue
            g = site.gates_of(kind, s, meth)
            if g is not None:
                need[e] = (g.label, x.user)
        had = {}
        for e in site.log:
            if e[0] == verdict:
                if kind == 'pre' or e[4]:
                    had[e[1:3]] = had.get(e[1:3], 0) + 1
            elif e[0] == 'call' and e in need:
                k = need[e]
                sim.check(had.get(k, 0) > 0, 'gate-first', '%s: %r ran '
                          'before the %s of %r passed for it: %s', name, e,
                          {'auth': 'authenticator',
                           'pre': 'preprocessor'}[kind], k, site.log)
                had[k] -= 1
    # the gates saw the right credentials and the right HTTP request
    for e in site.log:
        if e[0] == 'auth':
            g = site.gates['auth', e[1]]
            sim.check(any(e[2:4] == (x.user, x.pw) and e[4] == (
                (('http', x.marker),) if g.exposed else ())
                for x, r in served), 'own-credentials', '%s: authenticator '
                '%s was asked about %r', name, e[1], e[2:])
        elif e[0] == 'pre':
            g = site.gates['pre', e[1]]
            sim.check(any(e[2] == x.user and e[4] == (
                (('http', x.marker),) if g.exposed else ())
                for x, r in served), 'own-request', '%s: preprocessor %s '
                'was given %r', name, e[1], e[2:])
    # nothing happens for a refused request
    allowed = {}
    for x, r in served:
        for rid, token, target, ro in x.requests:
            s, meth = site.resolve(target)
            if s is None:
                continue
            g = site.gates_of('pre', s, meth)
            if g is not None and (ro or authorised(site, x, s, meth)):
                k = (g.label, x.user)
                allowed[k] = allowed.get(k, 0) + 1
    for e in site.log:
        if e[0] == 'pre':
            k = (e[1], e[2])
            allowed[k] = allowed.get(k, 0) - 1
            sim.check(allowed[k] >= 0, 'no-effect', '%s: preprocessor %s ran '
                      'for a refused request of %r: %s', name, e[1], e[2],
                      site.log)


def authorised(site, x, s, meth):
    g = site.gates_of('auth', s, meth)
    if x.form in (2, 3, 4) and (x.form != 3 or x.user is not None):
        # credentials that cannot be read
        return False
    return g is None or g.accepts(x.pw)


def decide(site, x, target, ro):
    s, meth = site.resolve(target)
    if s is None:
        return 'error', 'unknown service'
    if not ro and not authorised(site, x, s, meth):
        return 'refused', 'not authorised'
    g = site.gates_of('pre', s, meth)
    if g is not None and not g.lets(x.user):
        return 'refused', 'preprocessor raises'
    if x.describe and not ro:
        return 'describe' if meth in s.expose else 'any', None
    if meth not in s.expose:
        return 'error', 'not published'
    return 'run', None
