"""Per-property configuration of the driver (budgets and evidence texts)."""

PY = 'CPU-bound library code of the working tree, executed under Jython 2.7'

PROPS = {
    'C01': {
        'technique': 'decoder fed by a simulated byte pipe with seeded '
                     'chunking, polling and cuts',
        'note': 'Oracle: whole-stream decode, the graph that was sent, and '
                'the element boundaries recorded while encoding.',
        'runs': {'quick': 6000, 'thorough': 120000},
        'rule': 'one run = one generated element sequence + one chunking and '
                'polling schedule; non-trivial when at least one poll met an '
                'incomplete element; distinct by event-log digest',
        'states_measure': 'tuple (amf version, chunk policy, proxies, lazy '
                          'loading, cut, number of incomplete polls, value '
                          'kinds)',
        'real': ['pyamf.codec', 'pyamf.amf0', 'pyamf.amf3', 'pyamf.util',
                 'pyamf.alias', 'class registry'],
        'stub': ['the network: a byte pipe whose chunking, poll times and cut '
                 'the simulator decides'],
        'probes': ['incomplete-with-references'],
    },
    'C02': {
        'technique': 'seeded failing values injected between good ones on '
                     'one encoder, with a decoding peer',
        'note': 'Oracle: the graphs that were sent successfully, and the '
                'stream bytes before a failed element.',
        'runs': {'quick': 6000, 'thorough': 120000},
        'rule': 'one run = one sequence of encodable and failing values on '
                'one encoder with a peer decoding the output; non-trivial '
                'when an element failed and another one was sent; distinct '
                'by event-log digest',
        'states_measure': 'tuple (amf version, api, failures, successes, '
                          'value kinds)',
        'real': ['pyamf.codec', 'pyamf.amf0', 'pyamf.amf3', 'pyamf.util',
                 'pyamf.alias', 'class registry'],
        'stub': ['the peer connection: an in-memory byte pipe'],
        'probes': ['success-after-failure', 'retry-after-repair',
                   'buffer-in-use'],
    },
    'C03': {
        'technique': 'library threads under a seeded deterministic scheduler '
                     'with preemption at any library line',
        'note': 'Oracle: the bytes, values and errors of the same operations '
                'run alone from the same initial library state. Preemption '
                'points are source lines and lock operations; races inside '
                'one line are out of reach.',
        'runs': {'quick': 12000, 'thorough': 80000},
        'rule': 'one run = 2-4 threads with generated codec/registry/gateway '
                'operations and one seeded interleaving; non-trivial when at '
                'least one thread was preempted inside the library; distinct '
                'by event-log digest',
        'states_measure': 'pairs (line of library code at which a thread was '
                          'preempted, line at which the next one resumed)',
        'real': ['pyamf.codec', 'pyamf.amf0', 'pyamf.amf3', 'pyamf.util',
                 'pyamf.alias', 'class registry', 'pyamf.remoting',
                 'pyamf.remoting.gateway.wsgi', 'threads (parked and released '
                 'one at a time)'],
        'stub': ['thread scheduler', 'locks created by the library',
                 'web server: direct calls of the WSGI application'],
        'probes': [],
    },
    'C15': {
        'technique': 'seeded histories of a reader, a writer and late '
                     'network bytes on one buffer against a byte string '
                     'model',
        'note': 'Oracle: byte string with a cursor, compared after every '
                'operation (content, cursor, length).',
        'runs': {'quick': 40000, 'thorough': 1000000},
        'rule': 'one run = one history of buffer operations with end-of-data '
                'and refused writes injected; non-trivial when at least one '
                'of them happened; distinct by event-log digest',
        'states_measure': 'tuple (buffer class, byte order, end-of-data '
                          'hits, refused writes, size, cursor, last three '
                          'operations)',
        'real': ['pyamf.util.pure', 'pyamf.amf3.ByteArray'],
        'stub': ['the network that appends bytes', 'the reader and writer '
                 'tasks sharing the buffer'],
        'probes': [],
    },
    'C13': {
        'technique': 'simulated module store with seeded failing, nested, '
                     'circular and repeated imports',
        'note': 'Oracle: exactly-once and ordering bookkeeping per hook, '
                'evaluated at every import statement, and again after all '
                'modules stopped failing.',
        'runs': {'quick': 20000, 'thorough': 500000},
        'rule': 'one run = one set of module bodies and one history of hook '
                'registrations, imports and unloads; non-trivial when an '
                'import failed in a run with hooks; distinct by event-log '
                'digest',
        'states_measure': 'tuple (failed imports, hooks, modules loaded, '
                          'body sizes)',
        'real': ['pyamf.util.imports', 'pyamf.adapters.register_adapter',
                 'the interpreter\'s import machinery and sys.modules'],
        'stub': ['module store (PEP 302 loader) holding the scripted '
                 'modules'],
        'probes': ['nested-failure-swallowed'],
    },
    'C14': {
        'technique': 'seeded registry histories with failing loaders and '
                     'imports against a reference registry',
        'note': 'Oracle: a two-dictionary model of the registrations in '
                'force, compared after every operation; with several '
                'installed loaders any of their answers is accepted.',
        'runs': {'quick': 20000, 'thorough': 500000},
        'rule': 'one run = one history of registrations, loaders, imports, '
                'lookups, encodes and decodes; non-trivial when a lookup '
                'failed; distinct by event-log digest',
        'states_measure': 'tuple (names registered and their classes, '
                          'loaders installed, failures)',
        'real': ['class registry', 'pyamf.util.get_module', 'pyamf.amf0',
                 'pyamf.amf3', 'pyamf.alias', 'pyamf.util.imports'],
        'stub': ['application class loaders', 'importable modules'],
        'probes': [],
    },
    'C16': {
        'technique': 'seeded histories of good and failing operations '
                     'replayed with and without the noise in one simulated '
                     'process',
        'note': 'Oracle: the same probe operations in a process that has '
                'just started with the same registrations.',
        'runs': {'quick': 10000, 'thorough': 150000},
        'rule': 'one run = one timeline of registry operations, noise '
                'operations and probes; non-trivial when noise preceded a '
                'probe; distinct by event-log digest',
        'states_measure': 'sequence of operations of the timeline',
        'real': ['pyamf.codec', 'pyamf.amf0', 'pyamf.amf3', 'pyamf.util',
                 'pyamf.alias', 'pyamf.sol', 'class registry',
                 'pyamf.remoting', 'pyamf.remoting.gateway.wsgi'],
        'stub': ['process restart: restoring the state of the freshly '
                 'imported library', 'web server'],
        'probes': [],
    },
    'C17': {
        'technique': 'the real Django ORM over a simulated database with '
                     'seeded failing statements, lost connections and '
                     'concurrent changes',
        'note': 'Oracle: the graph that the loaded instances and the rows '
                'read by the recorded statements amount to, the number of '
                'statements, and the tables before and after.',
        'runs': {'quick': 4000, 'thorough': 150000},
        'rule': 'one run = one history of elements on an encoder, one '
                'received message or a series of posts, with database '
                'faults; non-trivial when a statement failed and work went '
                'on; distinct by event-log digest',
        'states_measure': 'tuple (direction, amf version, failures, '
                          'successes, size or classes)',
        'real': ['pyamf.adapters (Django)', 'pyamf.codec', 'pyamf.amf0',
                 'pyamf.amf3', 'pyamf.alias', 'pyamf.remoting',
                 'pyamf.remoting.gateway.wsgi',
                 'pyamf.remoting.gateway.django', 'django.db (1.8 ORM)'],
        'stub': ['the database server and driver: tables in memory behind a '
                 'small SQL interpreter with transactions', 'web server'],
        'probes': ['row-loaded-twice', 'success-after-failure',
                   'recycled-encoder', 'instances-kept'],
    },
    'C18': {
        'technique': 'seeded histories of declaring and withdrawing custom '
                     'types, error classes and payload processors between '
                     'exchanges, with handlers that fail',
        'note': 'Oracle: a model of what is declared, of what each handler '
                'answers and of the standard library types, compared with '
                'what the decoding peer receives.',
        'runs': {'quick': 8000, 'thorough': 200000},
        'rule': 'one run = one history of declarations and exchanges; '
                'non-trivial when a declaration was refused or a handler, '
                'generator or processor failed; distinct by event-log digest',
        'states_measure': 'tuple (types and kinds of handler declared, error '
                          'classes, number of processors)',
        'real': ['pyamf (add_type, add_error_class, '
                 'add_post_decode_processor)', 'pyamf.codec', 'pyamf.amf0',
                 'pyamf.amf3', 'pyamf.adapters (array, collections, decimal, '
                 'sets, weakref)', 'pyamf.remoting.ErrorFault'],
        'stub': ['the peer connection: an in-memory byte pipe'],
        'probes': ['dead-reference', 'generator'],
    },
    'C11': {
        'technique': 'shared object files on a simulated disk with seeded '
                     'errors, full disk, torn writes, crashes and interrupts',
        'note': 'Oracle: per file the set of objects it may load to, kept by '
                'a model of completed, failed and interrupted saves.',
        'runs': {'quick': 10000, 'thorough': 300000},
        'rule': 'one run = one history of saves, loads and foreign files '
                'with disk faults; non-trivial when a fault was injected; '
                'distinct by event-log digest',
        'states_measure': 'tuple (fault kinds, failed saves, file sizes)',
        'real': ['pyamf.sol', 'pyamf.codec', 'pyamf.amf0', 'pyamf.amf3',
                 'pyamf.util'],
        'stub': ['the disk: in-memory files with a user-space write buffer '
                 'behind open(), file objects, rename and remove'],
        'probes': [],
    },
    'C06': {
        'technique': 'simulated web servers around the real gateways, with '
                     'seeded request corruption, connection failures and '
                     'failing services',
        'note': 'Oracle: HTTP rules checked by the simulated server, status '
                'expected from what was done to a well-formed request.',
        'runs': {'quick': 4000, 'thorough': 150000},
        'rule': 'one run = one gateway behind one front end serving a series '
                'of intact, truncated, corrupted and mis-declared requests; '
                'non-trivial when a request was damaged; distinct by '
                'event-log digest',
        'states_measure': 'tuple (front end, damage, status, processable)',
        'real': ['WSGIGateway', 'DjangoGateway on Django 1.8', 'WebAppGateway',
                 'TwistedGateway', 'pyamf.remoting', 'codecs',
                 'flex messages'],
        'stub': ['web server', 'Twisted (Deferred, thread pool, Resource, '
                 'Request)', 'App Engine webapp'],
        'probes': [],
    },
    'C07': {
        'technique': 'batches of seeded succeeding and failing services run '
                     'through the real gateways and again one request at a '
                     'time',
        'note': 'Oracle: the outcome a reference model gives each request, '
                'and the answer the same request gets when it is sent alone '
                'to a fresh gateway.',
        'runs': {'quick': 4000, 'thorough': 150000},
        'rule': 'one run = one generated batch served by one front end, then '
                'each of its requests alone; failing services are the '
                'injected faults; non-trivial when a request of a batch of '
                'two or more fails; distinct by event-log digest',
        'states_measure': 'tuple (front end, errors in the batch, size)',
        'real': ['WSGIGateway', 'DjangoGateway on Django 1.8', 'WebAppGateway',
                 'TwistedGateway', 'request processors', 'pyamf.remoting',
                 'codecs', 'flex messages'],
        'stub': ['web server', 'Twisted (Deferred, thread pool, Resource, '
                 'Request)', 'App Engine webapp', 'clock'],
        'probes': [],
    },
    'C09': {
        'technique': 'histories of RemoteObject messages through the real '
                     'gateways under a simulated server clock, with retried '
                     'posts and reseeded randomness',
        'note': 'Oracle: a model of the acknowledgement each message must '
                'get; ids seen anywhere in the run; readings of the '
                'simulated clock.',
        'runs': {'quick': 4000, 'thorough': 150000},
        'rule': 'one run = a history of posts, each a batch of RemoteObject '
                'and plain requests, to one or two servers whose clock stops, '
                'runs and jumps; non-trivial when a fault was injected; '
                'distinct by event-log digest',
        'states_measure': 'tuple (front ends, clock mode, (message kind, '
                          'outcome) pairs seen)',
        'real': ['WSGIGateway', 'DjangoGateway on Django 1.8', 'WebAppGateway',
                 'TwistedGateway', 'pyamf.remoting.amf3', 'flex messages',
                 'pyamf.remoting', 'codecs', 'uuid'],
        'stub': ['web server', 'Twisted (Deferred, thread pool, Resource, '
                 'Request)', 'App Engine webapp', 'clock', 'time zone',
                 'entropy source'],
        'probes': [],
    },
    'C08': {
        'technique': 'generated applications with gates at every level, '
                     'serving authorised and unauthorised requests in '
                     'sequence, from threads under a seeded scheduler, and '
                     'with gates that decide later in any order',
        'note': 'Oracle: a model of which gate guards which method, checked '
                'against the log of gate and service invocations.',
        'runs': {'quick': 6000, 'thorough': 150000},
        'rule': 'one run = one generated application and a history of posts '
                'with different credentials; non-trivial when a request was '
                'refused; distinct by event-log digest',
        'states_measure': 'tuple (front end, mode, gates, service kinds) and '
                          'pairs of preempted and resumed library lines',
        'real': ['ServiceWrapper, BaseGateway and decorators', 'WSGIGateway',
                 'DjangoGateway on Django 1.8', 'WebAppGateway',
                 'TwistedGateway', 'request processors', 'pyamf.remoting',
                 'codecs', 'flex messages'],
        'stub': ['web server', 'thread scheduler', 'Twisted (Deferred, '
                 'thread pool, Resource, Request)', 'App Engine webapp',
                 'clock'],
        'probes': [],
    },
    'C12': {
        'technique': 'simulated Twisted reactor firing pending results, '
                     'thread results and disconnects in seeded orders',
        'note': 'Oracle: the outcome planned for each call, the calls made '
                'on each HTTP request object, and the services that ran. '
                'Twisted itself is a stub with its documented semantics.',
        'runs': {'quick': 5000, 'thorough': 150000},
        'rule': 'one run = several concurrent posts whose services, gates '
                'and pool threads complete in a seeded order; non-trivial '
                'when something completed out of order; distinct by '
                'event-log digest',
        'states_measure': 'order in which the pending results fired',
        'real': ['TwistedGateway', 'Twisted request processors',
                 'pyamf.remoting', 'codecs', 'flex messages'],
        'stub': ['Twisted (reactor, Deferred, thread pool, Resource, '
                 'Request)', 'HTTP connection', 'clock'],
        'probes': [],
    },
    'C04': {
        'technique': 'the real client (over real urllib2 and httplib) '
                     'against the real gateways through a simulated network '
                     'with seeded faults',
        'note': 'Oracle: the values the service returned for the token of '
                'each call. Damage that leaves a valid exchange (flipped '
                'payload bytes) is outside: AMF carries no checksum.',
        'runs': {'quick': 6000, 'thorough': 150000},
        'rule': 'one run = one gateway, one or two clients and a series of '
                'calls, each with one network plan, then fault-free calls; '
                'non-trivial when a plan was not the plain one; distinct by '
                'event-log digest',
        'states_measure': 'tuple (front end, (method, fault) of each call)',
        'real': ['pyamf.remoting.client', 'urllib2, httplib', 'WSGIGateway',
                 'DjangoGateway on Django 1.8', 'WebAppGateway',
                 'TwistedGateway', 'pyamf.remoting', 'codecs'],
        'stub': ['sockets and the network', 'web servers', 'webapp2',
                 'Twisted (reactor, Deferred, HTTP)', 'clock'],
        'probes': [],
    },
    'C05': {
        'technique': 'histories of queueing, calls, removals and exchanges '
                     'on the real client against a scripted server that '
                     'reorders and omits responses, behind a simulated '
                     'network that breaks exchanges',
        'note': 'Oracle: a model of the queue, the ids, the persistent '
                'headers and the gateway url, compared after every step and '
                'with every envelope that reaches the server.',
        'runs': {'quick': 6000, 'thorough': 150000},
        'rule': 'one run = one or two clients and a history of 6 to 29 '
                'operations; non-trivial when responses were reordered or an '
                'exchange broke; distinct by event-log digest',
        'states_measure': 'sequence of the kinds of operations and faults of '
                          'a history',
        'real': ['pyamf.remoting.client', 'pyamf.remoting', 'codecs',
                 'urllib2, httplib'],
        'stub': ['the server (scripted)', 'sockets and the network',
                 'clock'],
        'probes': [],
    },
    'C10': {
        'technique': 'simulated hosts, each with its own local zone, jumping '
                     'clock and configured offset, exchanging dates over '
                     'streams, files, calls and raw player bytes',
        'note': 'Oracle: the instant a date denotes on its host, computed by '
                'the harness; half a millisecond of tolerance.',
        'runs': {'quick': 12000, 'thorough': 400000},
        'rule': 'one run = two hosts and one to three exchanges; zone '
                'differences, clock jumps and zone changes during an '
                'exchange are the faults; non-trivial when the zones differ; '
                'distinct by event-log digest',
        'states_measure': 'tuple (kinds of exchange, both zones, both '
                          'offsets)',
        'real': ['pyamf.util dates', 'pyamf.amf0', 'pyamf.amf3', 'pyamf.sol',
                 'pyamf.remoting and client', 'WSGIGateway',
                 'DjangoGateway on Django 1.8', 'WebAppGateway',
                 'TwistedGateway', 'flex messages'],
        'stub': ['local time zone and clock of each host', 'sockets',
                 'web servers', 'webapp2', 'Twisted'],
        'probes': [],
    },
}
