# C17: Django models through the real ORM over a simulated database.
import datetime
import os
import sys

import pyamf

import core
import values
import web


class Mine(object):
    """Something that cannot be encoded."""


def setup():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    stubs = os.path.join(here, 'stubs')
    if stubs not in sys.path:
        sys.path.insert(1, stubs)
    import django.conf
    django.conf.settings.configure(
        DEBUG=False, DEFAULT_CHARSET='utf-8', ALLOWED_HOSTS=['*'],
        INSTALLED_APPS=('simapp',), USE_TZ=False,
        DATABASES={'default': {'ENGINE': 'simdb', 'NAME': 'sim'}})
    import django
    django.setup()
    global models, SERVER, connection, NAMES
    from simapp import models
    from simdb.base import SERVER
    from django.db import connection
    web.setup(twisted=False, google=False)
    NAMES = {models.Author: 'app.Author', models.Book: 'app.Book',
             models.Tag: 'app.Tag', models.CookBook: 'app.CookBook',
             models.Student: 'app.Student'}
    # Django resolves relations and imports lazily: settle that
    SERVER.reset()
    populate(core.Sim(tape=[]))
    for k in NAMES:
        for o in k.objects.all():
            pyamf.encode(o).getvalue()
    list(models.Book.objects.select_related('author', 'editor').
         prefetch_related('tags'))
    reset()


def reset():
    SERVER.reset()
    for m in (models.Author, models.Tag, models.Book):
        SERVER.pks[m._meta.db_table] = 'id'
    SERVER.pks['simapp_book_tags'] = 'id'
    connection.in_atomic_block = False
    connection.needs_rollback = False
    connection.savepoint_ids = []
    connection.closed_in_transaction = False
    connection.close()
    connection.connection = None


WORDS = [u'', u'ada', u'b\xe9la', u'\u6f22', u'x' * 30, u'ada']


def a_date(sim):
    return datetime.date(sim.pick([1970, 1969, 2000, 2024]),
                         1 + sim.choose(12), 1 + sim.choose(28))


def a_time(sim):
    return datetime.time(sim.choose(24), sim.choose(60), sim.choose(60),
                         sim.choose(1000) * 1000)


def a_moment(sim):
    return datetime.datetime.combine(a_date(sim), a_time(sim))


def author_row(sim, ids):
    return {'name': sim.pick(WORDS),
            'born': a_date(sim) if sim.chance(60) else None,
            'wakes': a_time(sim) if sim.chance(60) else None,
            'seen': a_moment(sim) if sim.chance(60) else None,
            'agent_id': sim.pick(ids) if ids and sim.chance(40) else None}


def book_row(sim, authors):
    return {'title': sim.pick(WORDS), 'pages': sim.pick(
        [0, 1, 127, 128, 2 ** 28, -1]),
        'cover': sim.pick([u'', u'a.png', None]),
        'author_id': sim.pick(authors) if sim.chance(70) else None,
        'editor_id': sim.pick(authors) if sim.chance(40) else None}


def populate(sim):
    """Rows as other programs stored them."""
    S = SERVER
    reset()
    authors = []
    for i in range(1 + sim.choose(3)):
        authors.append(S.insert('simapp_author', author_row(sim, authors)))
    if sim.chance(20):
        S.rows('simapp_author')[0]['agent_id'] = sim.pick(authors)
    tags = [S.insert('simapp_tag', {'label': sim.pick(WORDS)})
            for _ in range(sim.choose(4))]
    for i in range(1 + sim.choose(4)):
        b = S.insert('simapp_book', book_row(sim, authors))
        if sim.chance(30):
            S.insert('simapp_cookbook', {'book_ptr_id': b,
                                         'vegan': sim.chance(50)})
        for t in tags:
            if sim.chance(40):
                S.insert('simapp_book_tags', {'book_id': b, 'tag_id': t})
    for i in range(sim.choose(3)):
        S.insert('simapp_student', {'group': u'g%d' % i,
                                    'age': sim.choose(90)})


def meddle(sim):
    """Another program changes rows."""
    S = SERVER
    k = sim.choose(4)
    if k == 0:
        r = sim.pick(S.rows('simapp_author'))
        r['name'] = sim.pick(WORDS) + u'!'
    elif k == 1:
        r = sim.pick(S.rows('simapp_book'))
        r['title'] = sim.pick(WORDS) + u'?'
        r['author_id'] = sim.pick(S.rows('simapp_author'))['id']
    elif k == 2 and S.rows('simapp_book_tags'):
        rows = S.rows('simapp_book_tags')
        del rows[sim.choose(len(rows))]
    elif S.rows('simapp_tag'):
        S.insert('simapp_book_tags', {
            'book_id': sim.pick(S.rows('simapp_book'))['id'],
            'tag_id': sim.pick(S.rows('simapp_tag'))['id']})


class Faults(object):
    """What the database does to the next statements."""

    def __init__(self, sim, at=None, meddle_at=None):
        self.sim = sim
        self.at = at
        self.meddle_at = meddle_at
        self.n = 0
        self.fired = None

    def __call__(self, conn, sql, params):
        from simdb.base import Database
        self.n += 1
        if self.n == self.meddle_at:
            meddle(self.sim)
            self.sim.fault('change-meanwhile')
        if self.at is None or self.n != self.at:
            return
        what = self.sim.pick(['error', 'lost', 'locked'])
        self.fired = what
        self.sim.fault('database-' + what)
        self.sim.log('statement %d (%s) fails: %s', self.n,
                     sql.split()[0], what)
        if what == 'lost' and conn is not None:
            conn.drop()
        if what == 'locked':
            raise Database.InternalError('deadlock detected')
        raise Database.OperationalError('could not reach the database')


def faults(sim, pct, change=False):
    f = Faults(sim, 1 + sim.small(6) if sim.chance(pct) else None,
               1 + sim.small(6) if change and sim.chance(25) else None)
    SERVER.hook = f
    del SERVER.log[:]
    return f


def calm(sim):
    """What Django does at the end of a request."""
    SERVER.hook = None
    if connection.connection is not None and connection.connection.broken \
            or connection.errors_occurred or connection.needs_rollback:
        connection.in_atomic_block = False
        connection.needs_rollback = False
        connection.closed_in_transaction = False
        try:
            connection.close()
        except Exception:
            pass
        connection.connection = None


def register(sim, all_=False):
    reg = {}
    for k in sorted(NAMES, key=lambda k: NAMES[k]):
        if all_ or sim.chance(80):
            pyamf.register_class(k, NAMES[k])
            reg[k] = NAMES[k]
    return reg


def unregister(reg):
    for k in reg:
        pyamf.unregister_class(k)


# -- what is sent ------------------------------------------------------------
class Loader(object):
    """
    One element's view of the database: every row loaded once, all in the same
    way, so that two instances of one row say the same.
    """

    def __init__(self, sim):
        self.sim = sim
        self.authors = {}
        self.rel = sim.choose(3)      # relations loaded: none, author, both
        self.agents = sim.chance(40)
        self.how = sim.choose(3)
        self.prefetch = sim.chance(20)

    def author(self, pk):
        if pk is None:
            return None
        if pk not in self.authors:
            a = self.authors[pk] = models.Author.objects.get(pk=pk)
            if self.agents and a.agent_id is not None:
                a.agent = self.author(a.agent_id)
        return self.authors[pk]

    def book(self, cls, pk):
        q = cls.objects.all()
        if self.prefetch:
            q = q.prefetch_related('tags')
        if self.how == 1 and not self.agents and not self.authors:
            # the ORM loads the relations itself
            if self.rel == 1:
                q = q.select_related('author')
            elif self.rel == 2:
                q = q.select_related('author', 'editor')
            return list(q.filter(pk=pk))[0]
        b = list(q.filter(pk=pk))[0]
        if self.rel:
            b.author = self.author(b.author_id)
        if self.rel == 2:
            b.editor = self.author(b.editor_id)
        return b

    def any(self):
        sim = self.sim
        k = sim.choose(8)
        if k == 0:
            t = list(models.Tag.objects.all())
            if t:
                return sim.pick(t)
        if k == 1 and self.how != 1:
            return self.author(sim.pick(SERVER.rows('simapp_author'))['id'])
        if k == 2 and SERVER.rows('simapp_student'):
            return models.Student.objects.get(
                pk=sim.pick(SERVER.rows('simapp_student'))['group'])
        if k == 3 and SERVER.rows('simapp_cookbook'):
            return self.book(models.CookBook, sim.pick(
                SERVER.rows('simapp_cookbook'))['book_ptr_id'])
        if k == 4:
            return sim.pick([models.Author, models.Tag, models.Book,
                             models.CookBook, models.Student]).objects.all()
        if k == 5:
            # not stored (yet)
            a = models.Author(**dict(author_row(sim, [])))
            if sim.chance(30):
                sim.probe('unsaved-with-key')
                a.id = 77
            return a
        b = self.book(models.Book, sim.pick(
            SERVER.rows('simapp_book'))['id'])
        if sim.chance(20):
            b.note = sim.pick([u'n', 3, None])
        return b


FIELDS = {}


def fields_of(cls):
    if not FIELDS:
        M = models
        FIELDS.update({
            M.Author: (['id', 'name', 'born', 'wakes', 'seen'], ['agent']),
            M.Tag: (['id', 'label'], []),
            M.Book: (['id', 'title', 'pages', 'cover'],
                     ['author', 'editor']),
            M.CookBook: (['id', 'title', 'pages', 'cover', 'vegan'],
                         ['author', 'editor']),
            M.Student: (['group', 'age'], [])})
    return FIELDS[cls]


def wire(v):
    """A stored value as it is sent."""
    if isinstance(v, datetime.datetime):
        return v
    if isinstance(v, datetime.date):
        return datetime.datetime(v.year, v.month, v.day)
    if isinstance(v, datetime.time):
        return datetime.datetime(1970, 1, 1, v.hour, v.minute, v.second,
                                 v.microsecond)
    if hasattr(v, 'storage'):
        return v.name
    return v


class Expect(object):
    """The graph the peer must receive for what was offered."""

    def __init__(self, reg):
        self.reg = reg
        self.memo = {}
        self.keep = []

    def element(self, v, log):
        """The received form of `v`; `log` holds the statements it took."""
        self.members = {}
        self.queries = 0
        for sql, params, rows in log:
            if 'simapp_book_tags' in sql and 'SELECT' in sql:
                self.members.setdefault(params[0], []).append(rows)
        self.log = log
        before = dict(self.memo)
        self.taken = []
        r = self.walk(v)
        self.before = before
        return r

    def walk(self, v):
        if isinstance(v, list):
            return [self.walk(x) for x in v]
        if isinstance(v, pyamf.ASObject):
            o = pyamf.ASObject()
            for k, x in v.items():
                o[k] = self.walk(x)
            return o
        if hasattr(v, 'model') and hasattr(v, 'query'):
            return [self.walk(x) for x in (v._result_cache or [])]
        if v.__class__ not in NAMES:
            return v
        return self.instance(v)

    def instance(self, i):
        cls = i.__class__
        pk = i.pk
        k = (NAMES[cls], pk) if pk is not None else id(i)
        if k in self.memo:
            return self.memo[k]
        self.keep.append(i)
        o = self.memo[k] = (pyamf.TypedObject(self.reg[cls])
                            if cls in self.reg else pyamf.ASObject())
        plain, rel = fields_of(cls)
        d = i.__dict__
        for n in plain:
            o[n] = wire(d[n])
        for n in rel:
            if '_%s_cache' % n in d:
                x = d['_%s_cache' % n]
                o[n] = None if x is None else self.walk(x)
        if 'note' in d:
            o['note'] = d['note']
        if cls in (models.Book, models.CookBook):
            pre = d.get('_prefetched_objects_cache', {}).get('tags')
            if pre is not None:
                o['tags'] = [self.walk(t) for t in pre]
            else:
                rows = self.members.get(pk)
                if not rows:
                    raise core.Violation(
                        'members-not-read', 'the members of %s %r were not '
                        'read from the database' % (cls.__name__, pk))
                self.queries += 1
                o['tags'] = [self.walk(models.Tag(id=a, label=b))
                             for a, b in rows.pop(0)]
        return o


def graph(sim, loader):
    """An element: instances in lists, as services return them."""
    k = sim.choose(4)
    if k == 0:
        return loader.any()
    n = 1 + sim.small(4)
    out = [loader.any() for _ in range(n)]
    if sim.chance(25):
        out.append(sim.pick(out))
    if sim.chance(30):
        # the same rows loaded once more: different instances
        again = Loader(core.Sim(tape=[]))
        again.rel, again.agents = loader.rel, loader.agents
        again.how, again.prefetch = loader.how, loader.prefetch
        for x in list(out):
            if x.__class__ in (models.Book, models.CookBook) and \
                    'note' not in x.__dict__:
                out.append(again.book(x.__class__, x.pk))
                sim.probe('row-loaded-twice')
            elif x.__class__ in (models.Tag, models.Student):
                out.append(x.__class__.objects.get(pk=x.pk))
                sim.probe('row-loaded-twice')
    if k == 1:
        o = pyamf.ASObject()
        o['result'] = out
        return o
    return out


def qsets(v):
    if isinstance(v, list):
        return sum([qsets(x) for x in v], [])
    if isinstance(v, pyamf.ASObject):
        return sum([qsets(x) for x in v.values()], [])
    if hasattr(v, 'model') and hasattr(v, 'query'):
        return [v]
    return []


def rewrapped(v):
    """The same instances in new containers, as an application that kept
    the instances would answer again."""
    if type(v) is list:
        return [rewrapped(x) for x in v]
    if isinstance(v, pyamf.ASObject):
        o = pyamf.ASObject()
        for k in v.keys():
            o[k] = rewrapped(v[k])
        return o
    return v


def encoding(sim):
    reg = register(sim)
    amf = sim.pick([3, 0])
    enc = pyamf.get_encoder(amf)
    if amf == 0 and sim.chance(25):
        enc.use_amf3 = True
    exp = Expect(reg)
    sent = []
    messages = []
    failed = 0
    held = []
    for i in range(1 + sim.choose(5)):
        if held and sim.chance(35):
            # the application kept the instances
            sim.probe('instances-kept')
            v = rewrapped(sim.pick(held))
        else:
            v = graph(sim, Loader(sim))
            held.append(v)
        bad = sim.chance(12)
        if bad:
            v = [v, Mine]
            sim.fault('unencodable-value')
        sets = []
        for q in qsets(v):
            if q._result_cache is None and not [
                    x for x in sets if x is q]:
                sets.append(q)
        f = faults(sim, 30, True)
        before = enc.stream.getvalue()
        try:
            enc.writeElement(v)
        except Exception, e:
            log = list(SERVER.log)
            calm(sim)
            failed += 1
            sim.log('element %d failed: %s', i, e.__class__.__name__)
            sim.check(bad or f.fired, 'healthy-failed', 'encoding failed '
                      'although the database did not: %s: %s',
                      e.__class__.__name__, e)
            sim.check(enc.stream.getvalue() == before, 'bytes-left-behind',
                      'a failed element left bytes in the output')
        else:
            log = list(SERVER.log)
            calm(sim)
            sim.check(not bad and not f.fired, 'fault-swallowed',
                      'the database failed (%s) while the value was encoded '
                      'and nothing was raised', f.fired)
            sent.append(exp.element(v, log))
            n = exp.queries + len(sets)
            sim.check(len(log) == n, 'extra-query',
                      '%d statements where %d relations and querysets had '
                      'to be read: %s', len(log), n,
                      [s[:90] for s, p, r in log])
            sim.log('element %d: %s', i, values.text(
                values.canon(sent[-1]), 150))
        if sim.chance(40):
            meddle(sim)
            sim.fault('change-between')
        if sim.chance(25):
            # the next message starts with an encoder that has been cleared
            sim.probe('recycled-encoder')
            messages.append((sent, enc.stream.getvalue()))
            sent = []
            exp = Expect(reg)
            enc.stream.seek(0)
            enc.stream.truncate()
            enc.context.clear()
    messages.append((sent, enc.stream.getvalue()))
    unregister(reg)
    a = []
    for sent, data in messages:
        dec = pyamf.get_decoder(amf)
        dec.send(data)
        got = []
        try:
            for x in dec:
                got.append(x)
        except Exception, e:
            sim.fail('undecodable', '%s: %s after %d of %d elements',
                     e.__class__.__name__, e, len(got), len(sent))
        a, b = values.canon(sent), values.canon(got)
        sim.check(a == b, 'sent-differs', 'the peer received something '
                  'else: %s', values.diff(a, b))
    if failed and sent:
        sim.nontrivial = True
        sim.probe('success-after-failure')
    sim.state(('enc', amf, failed, len(sent), len(a) // 20))


# -- what is received ----------------------------------------------------------
class _Remote(pyamf.ASObject):
    """A class of the client."""


class RAuthor(_Remote):
    alias = 'app.Author'


class RBook(_Remote):
    alias = 'app.Book'


class RTag(_Remote):
    alias = 'app.Tag'


class RStudent(_Remote):
    alias = 'app.Student'


def client(f):
    """Runs `f` as the client, which has classes of its own."""
    them = (RAuthor, RBook, RTag, RStudent)
    for c in them:
        pyamf.register_class(c, c.alias)
    try:
        return f()
    finally:
        for c in them:
            pyamf.unregister_class(c)


def message(sim):
    """Objects as a client sends them."""
    out = []
    cache = {}

    def author(row):
        k = row['id']
        if k in cache:
            return cache[k]
        o = cache[k] = RAuthor()
        o['id'] = row['id']
        o['name'] = sim.pick(WORDS)
        o['born'] = wire(a_date(sim)) if sim.chance(70) else None
        o['wakes'] = wire(a_time(sim)) if sim.chance(70) else None
        o['seen'] = a_moment(sim) if sim.chance(70) else None
        # (a cycle of foreign keys cannot be resolved while it is decoded)
        below = [r for r in SERVER.rows('simapp_author') if r['id'] < k]
        if below and sim.chance(30):
            o['agent'] = author(sim.pick(below))
        return o
    used = set()
    for _ in range(1 + sim.small(3)):
        k = sim.choose(4)
        if k == 0:
            o = author(sim.pick(SERVER.rows('simapp_author')))
        elif k == 1 and SERVER.rows('simapp_student'):
            o = RStudent()
            o['group'] = sim.pick(SERVER.rows('simapp_student'))['group']
            o['age'] = sim.choose(90)
        else:
            row = sim.pick(SERVER.rows('simapp_book'))
            pk = row['id']
            if pk in used:
                continue
            used.add(pk)
            o = RBook()
            o['id'] = pk
            kind = sim.choose(6)
            if kind == 0:
                o['id'] = 0                     # a new one, for Flash
                o['title'] = sim.pick(WORDS)
                o['pages'] = sim.choose(500)
                o['cover'] = u'evil.png'
                o['tags'] = []
                if sim.chance(50):
                    o['author'] = author(sim.pick(
                        SERVER.rows('simapp_author')))
                out.append(o)
                continue
            if kind == 1:
                o['id'] = 900                   # deleted meanwhile
            o['title'] = sim.pick(WORDS)
            o['pages'] = sim.choose(500)
            o['cover'] = u'evil.png'
            if sim.chance(60):
                o['author'] = author(sim.pick(SERVER.rows('simapp_author')))
            if sim.chance(20):
                o['editor'] = None
            if o['id'] != 900 and sim.chance(70):
                tags = []
                for t in SERVER.rows('simapp_tag'):
                    if sim.chance(50):
                        x = RTag()
                        x['id'], x['label'] = t['id'], t['label']
                        tags.append(x)
                o['tags'] = tags
        out.append(o)
    return out


def links(pk):
    return sorted(r['tag_id'] for r in SERVER.rows('simapp_book_tags')
                  if r['book_id'] == pk)


def field(o, n):
    v = o.__dict__.get(n)
    return wire(v)


def same(a, b):
    return values.canon(a) == values.canon(b)


def decoding(sim):
    amf = sim.pick([3, 0])
    msg = message(sim)
    data = client(lambda: pyamf.encode(msg, encoding=amf).getvalue())
    reg = register(sim, True)
    before = SERVER.snapshot()
    f = faults(sim, 40)
    try:
        got = pyamf.decode(data, encoding=amf).next()
    except Exception, e:
        calm(sim)
        sim.log('decoding failed: %s %s', e.__class__.__name__, e)
        sim.check(f.fired, 'healthy-failed', 'decoding failed although the '
                  'database did not: %s: %s', e.__class__.__name__, e)
        sim.nontrivial = True
        stored(sim, before, msg, False)
        # the database is back: the message is sent again
        got = pyamf.decode(data, encoding=amf).next()
        f = None
    calm(sim)
    sim.check(f is None or not f.fired, 'fault-swallowed', 'the database '
              'failed (%s) while decoding and nothing was raised',
              f and f.fired)
    stored(sim, before, msg, True)
    sim.check(len(got) == len(msg), 'lost-object', '%d objects of %d',
              len(got), len(msg))
    seen = {}
    for o, g in zip(msg, got):
        compare(sim, o, g, before, seen)
    save(sim, msg, got)
    unregister(reg)
    sim.state(('dec', amf, len(msg), f is None,
               tuple(sorted(o.alias for o in msg))))


def stored(sim, before, msg, done):
    """Decoding stores nothing but the received members."""
    now = SERVER.snapshot()
    for t in set(before) | set(now):
        if t == 'simapp_book_tags':
            continue
        sim.check(before.get(t, []) == now.get(t, []), 'row-changed',
                  'decoding changed the table %s', t)
    sent = dict((o['id'], sorted(x['id'] for x in o['tags']))
                for o in msg if 'tags' in o)
    was = {}
    for r in before.get('simapp_book_tags', []):
        was.setdefault(r['book_id'], []).append(r['tag_id'])
    for b in before['simapp_book']:
        pk = b['id']
        old = sorted(was.get(pk, []))
        new = links(pk)
        if pk not in sent:
            sim.check(new == old, 'members-changed', 'the members of book '
                      '%r changed from %r to %r', pk, old, new)
        elif done:
            sim.check(new == sent[pk], 'members-lost', 'book %r was received '
                      'with the members %r and has %r', pk, sent[pk], new)
        else:
            sim.check(new in (old, sent[pk]), 'members-torn', 'the members '
                      'of book %r were %r, received %r, are %r', pk, old,
                      sent[pk], new)


def rowof(before, o):
    t, c = {'app.Author': ('simapp_author', 'id'),
            'app.Book': ('simapp_book', 'id'),
            'app.Student': ('simapp_student', 'group'),
            'app.Tag': ('simapp_tag', 'id')}[o.alias]
    for r in before.get(t, []):
        if r[c] == o[c]:
            return r
    return None


# what instances hold in these fields
KINDS = {'born': datetime.date, 'wakes': datetime.time,
         'seen': datetime.datetime}


def compare(sim, o, g, before, seen):
    cls = dict((v, k) for k, v in NAMES.items())[o.alias]
    sim.check(g.__class__ is cls, 'wrong-class', '%s became %r', o.alias,
              type(g))
    if id(o) in seen:
        sim.check(seen[id(o)] is g, 'reference-lost', 'one object of the '
                  'message became two')
        return
    seen[id(o)] = g
    row = rowof(before, o)
    plain, rel = fields_of(cls)
    for n in plain:
        have = field(g, n)
        if n == cls._meta.pk.attname:
            want = o[n] if row is not None else None
            if cls is models.Student and row is None:
                want = u''
        elif n == 'cover':
            want = row[n] if row is not None else u''
            have = have or u''
            want = want or u''
        else:
            want = o[n]
        sim.check(same(want, have), 'wrong-value', '%s.%s should be %r and '
                  'is %r', o.alias, n, want, have)
        kind = KINDS.get(n)
        raw = g.__dict__.get(n)
        sim.check(kind is None or raw is None or raw.__class__ is kind,
                  'wrong-kind', '%s.%s of an instance is a %s: %r', o.alias,
                  n, raw.__class__.__name__, raw)
    for n in rel:
        if n in o:
            x = getattr(g, n)
            if o[n] is None:
                sim.check(x is None, 'wrong-relation', '%s.%s should be '
                          'None', o.alias, n)
            else:
                compare(sim, o[n], x, before, seen)
                sim.check(g.__dict__.get(n + '_id') == o[n]['id'],
                          'wrong-relation', '%s.%s_id is %r', o.alias, n,
                          g.__dict__.get(n + '_id'))
        else:
            want = row[n + '_id'] if row is not None else None
            have = g.__dict__.get(n + '_id')
            sim.check(have == want, 'wrong-relation', '%s.%s_id should be '
                      '%r and is %r', o.alias, n, want, have)


def save(sim, msg, got):
    """The application stores what it received."""
    o, g = sim.pick(zip(msg, got))
    n0 = dict((t, len(r)) for t, r in SERVER.snapshot().items())
    new = rowof(SERVER.snapshot(), o) is None
    g.save()
    t = g._meta.db_table
    sim.check(len(SERVER.rows(t)) == n0.get(t, 0) + (1 if new else 0),
              'save-inserted', 'saving %s %r made %d rows of %d', o.alias,
              o.get('id'), len(SERVER.rows(t)), n0.get(t, 0))


# -- through a gateway -------------------------------------------------------
def gateway(sim):
    from pyamf import remoting
    reg = register(sim, True)
    calls = []

    def books(*a):
        calls.append('books')
        return models.Book.objects.all()

    def store(o):
        calls.append('store')
        return o.title if o is not None else None

    def plain():
        calls.append('plain')
        return u'ok'
    front = web.make(sim.pick(['wsgi', 'django']), sim,
                     {'books': books, 'store': store, 'plain': plain})
    for i in range(2 + sim.choose(3)):
        amf = sim.pick([0, 3])
        env = remoting.Envelope(amf)
        what = []
        for j in range(1 + sim.choose(2)):
            k = sim.pick(['books', 'store', 'plain'])
            args = []
            if k == 'store':
                b = RBook()
                row = sim.pick(SERVER.rows('simapp_book'))
                b['id'], b['title'], b['pages'] = row['id'], u'new', 3
                b['cover'] = u''
                args = [b]
            env[u'/%d' % (j + 1)] = remoting.Request(k, args)
            what.append(k)
        unregister(reg)
        body = client(lambda: remoting.encode(env).getvalue())
        reg = register(sim, True)
        del calls[:]
        f = faults(sim, 40)
        r = front.serve(web.Post(body))
        calm(sim)
        sim.log('post %d %s: %s %s', i, what, r.status, f.fired)
        sim.check(not r.problems and not r.escaped, 'http',
                  '%s %s', r.problems, r.escaped)
        code = int(r.status.split()[0])
        if f.fired:
            sim.nontrivial = True
            sim.check(code in (200, 400, 500), 'status', 'answered %s',
                      r.status)
            if code != 200:
                continue
        sim.check(code == 200, 'status', 'answered %s', r.status)
        unregister(reg)
        try:
            resp = remoting.decode(r.body)
        finally:
            reg = register(sim, True)
        for j, k in enumerate(what):
            x = resp[u'/%d' % (j + 1)]
            if f.fired and x.status == remoting.STATUS_ERROR:
                continue
            sim.check(x.status == 0, 'call-failed', '%s failed: %r', k,
                      x.body)
            if k == 'store':
                sim.check(x.body == u'new', 'wrong-result', '%r', x.body)
            elif k == 'plain':
                sim.check(x.body == u'ok', 'wrong-result', '%r', x.body)
            else:
                got = sorted((b['id'], b['title'], sorted(
                    t['id'] for t in b['tags'])) for b in x.body)
                want = sorted((b['id'], b['title'], links(b['id']))
                              for b in SERVER.rows('simapp_book'))
                sim.check(got == want, 'wrong-result', 'books are %r and '
                          'the answer says %r', want, got)
        sim.check(calls == what, 'calls', 'called %r for %r', calls, what)
        if sim.chance(40):
            meddle(sim)
    sim.state(('gw', front.name, i))


def run(sim):
    populate(sim)
    k = sim.choose(8)
    if k < 4:
        encoding(sim)
    elif k < 7:
        decoding(sim)
    else:
        gateway(sim)
    reset()
