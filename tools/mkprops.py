import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))
p('C01','Decoding a stream that arrives in pieces equals decoding it whole',
 'However the bytes of an AMF0 or AMF3 stream are cut into chunks, and however often the decoder is polled in between, it delivers exactly the elements (values, order, attribute names and shared references) that decoding the complete stream delivers, each as soon as its last byte has arrived and never before. Polling while an element is incomplete reports that no element is available, moves the stream not at all and changes nothing about what later polls deliver. A connection cut for good yields exactly the elements that were complete.',
 ['inputs','schedules','fault_sequences'],'every element sequence, every chunking of its bytes, every polling schedule, every cut point',
 'The tests decode complete strings and split one or two fixed ones; the property ranges over all cut points times all reference-sharing patterns, where a half-read element may leave entries in string/object/class tables.',
 ['pyamf/codec.py','pyamf/amf0.py','pyamf/amf3.py','pyamf/util/pure.py'],
 [('Decoder.next / readElement / send: rewind on EOF','pyamf/codec.py'),('Context reference tables: checkpoint and rollback','pyamf/codec.py'),('finalise / post-decode processors run once per delivered element','pyamf/codec.py')],
 ['elements returned by the decoder','exceptions raised by a poll','stream position before and after a poll'],
 [('reference tables','objects, strings, classes numbered so far in a message','pyamf/codec.py Context, pyamf/amf3.py Context')])
p('C02','A value that cannot be encoded leaves nothing behind',
 'When encoding a value fails part way (an unsupported value deep inside it, an attribute or an externalised class that raises), the error reaches the caller and the encoder is left as if that value had never been offered: no byte of it stays in the stream. Everything encoded on the same encoder before and afterwards, including a repaired version of the failed value, decodes at the peer to exactly what was sent, shared references included.',
 ['inputs','fault_sequences','histories'],'every sequence of encodable values and values failing at any depth, on one AMF0 or AMF3 encoder',
 'Tests check that an exception type is raised for one unencodable value and drop the encoder; nothing encodes further elements on it.',
 ['pyamf/codec.py','pyamf/amf0.py','pyamf/amf3.py'],
 [('Encoder.writeElement at the root: rollback of stream and reference tables','pyamf/codec.py'),('Encoder.next / send bucket','pyamf/codec.py')],
 ['bytes in the encoder stream','values the peer decodes','exception raised to the caller'],
 [('reference tables','strings, objects and class definitions already sent','pyamf/codec.py Context, pyamf/amf3.py Context')])
p('C03','Threads encoding and decoding at the same time do not affect each other',
 'Threads that encode, decode, register classes or serve requests at the same time, each with its own codec, each obtain exactly the bytes, values and errors they would obtain running alone, in every interleaving, including when several threads are the first in the process to use a class or a type. No interleaving makes an operation fail, hang or use a half-initialised class definition.',
 ['schedules','inputs','histories'],'every preemption point inside the library, every mix of concurrent codec operations, every state of the process-wide caches',
 'The test-suite is single threaded; a race on first use needs one particular interleaving in a process that has never used the class.',
 ['pyamf/__init__.py','pyamf/alias.py','pyamf/codec.py','pyamf/amf3.py','pyamf/xml.py','pyamf/util/pure.py'],
 [('ClassAlias.compile and its class-level inheritance','pyamf/alias.py'),('process-wide registries CLASS_CACHE, TYPE_MAP, LOADERS','pyamf/__init__.py'),('per-encoder function cache','pyamf/codec.py')],
 ['encoded bytes','decoded values','exceptions, deadlock'],
 [('class alias cache','definitions compiled lazily on first use and shared by all threads','pyamf/__init__.py CLASS_CACHE, pyamf/alias.py')])
p('C04','A remote call returns its own result or raises, whatever the network does',
 'A call made through the client to a gateway, over a network that may delay, refuse, drop, duplicate, truncate, reset, corrupt the status of or compress the exchange, is sent at most once and either returns a value equal to the one the service method returned when invoked with exactly the arguments given, or raises an error; it never returns a value from another call, a partial value or silently nothing. A service that raises surfaces at the caller as an error carrying its message, raised as the class registered for its code or as a RemotingError. Once faults stop the next call on the same client succeeds.',
 ['inputs','fault_sequences','histories'],'every payload, every sequence of calls and batches, every placement of transport faults in requests and responses',
 'Client tests use canned responses and gateway tests canned requests; no test connects the two, and none truncates, reorders or duplicates an exchange.',
 ['pyamf/remoting/client/__init__.py','pyamf/remoting/__init__.py','pyamf/remoting/gateway/__init__.py','pyamf/remoting/gateway/wsgi.py','pyamf/remoting/amf0.py'],
 [('RemotingService._getResponse checks status, content type, length and decodes','pyamf/remoting/client/__init__.py'),('remoting.decode / encode','pyamf/remoting/__init__.py')],
 ['value returned or exception raised by a proxy call','arguments seen by the service method'])
p('C05','Queued client requests are each answered once, in order, by id',
 'Requests queued on a client all travel together in one envelope, in the order in which they were added and with ids never used before on that client; each response of the exchange belongs to the request bearing its id (whatever order the responses arrive in), and a request without one stays pending. A request leaves the queue when its exchange starts or when it is removed, and not otherwise: removing a request, a call made meanwhile or an exchange that fails never loses, repeats, alters or re-numbers another request, and an exchange leaves nothing queued. The url and headers in force - those the caller set and those the server asked to append, replace or persist - apply from the next exchange on and to no earlier one, and an exchange that fails changes neither.',
 ['histories','fault_sequences'],'every history of add, remove, call, batch execution, transport failure, server-sent headers and gateway redirects',
 'Tests add one or two requests and check list contents; histories that mix queueing, immediate calls, failed exchanges and re-ordered bodies are unreachable by sampling a handful.',
 ['pyamf/remoting/client/__init__.py','pyamf/remoting/__init__.py'],
 [('RemotingService.addRequest/removeRequest/execute/execute_single','pyamf/remoting/client/__init__.py'),('gateway url and persistent header handling','pyamf/remoting/client/__init__.py')],
 ['envelopes that reach the server','results attached to request objects','requests still queued'],
 [('requests','queued, unanswered request wrappers','pyamf/remoting/client/__init__.py')])
p('C06','Every gateway answers any POST with one well-formed HTTP response',
 'Whatever bytes a client posts, and whatever the services behind it raise, each gateway front end (WSGI, Django, Twisted, App Engine) answers with exactly one HTTP response whose body has the declared length: status 200 with a decodable AMF envelope when the request could be processed, 400 for a truncated request, 400 or 500 for other garbage, 405 (WSGI: 400) for another method, 500 when a result cannot be encoded. A request cut short runs no service. No exception escapes into the web server (process exit requests apart), no traceback is shown outside debug mode and the next request is served normally.',
 ['inputs','fault_sequences','configurations'],'every request body (generated, truncated, corrupted), every service outcome, every gateway front end',
 'Tests post a few fixed bodies to each front end; arbitrary truncation and corruption at any byte, followed by a good request, is not sampled, and the Twisted and App Engine front ends are not tested at all here.',
 ['pyamf/remoting/gateway/wsgi.py','pyamf/remoting/gateway/django.py','pyamf/remoting/gateway/google.py','pyamf/remoting/gateway/twisted.py','pyamf/remoting/gateway/__init__.py'],
 [('WSGIGateway.__call__ error mapping','pyamf/remoting/gateway/wsgi.py'),('DjangoGateway.__call__','pyamf/remoting/gateway/django.py'),('WebAppGateway.post','pyamf/remoting/gateway/google.py'),('TwistedGateway.render_POST','pyamf/remoting/gateway/twisted.py')],
 ['status, headers and body handed to the web server'])
p('C07','Each request of a batch is answered on its own, whatever the others do',
 'A gateway answers an envelope of requests with exactly one response per request, under the id the request carried, and each response is the one that request would have received had it been sent alone: a service that fails (whatever its exception looks like), does not exist, is private or is called with the wrong arguments affects its own response only, and that response says so - with the details of the failure (its traceback) exactly when the gateway runs in debug mode. Services are invoked exactly once per request, in the order of the envelope.',
 ['inputs','histories','fault_sequences'],'every batch of well-formed requests whose services return encodable values, every assignment of outcomes (return, raise, unknown, private, bad arguments) to its members, AMF0 and AMF3',
 'Tests send batches of one; isolation between the members of a batch is a property of combinations.',
 ['pyamf/remoting/gateway/__init__.py','pyamf/remoting/gateway/wsgi.py','pyamf/remoting/amf0.py','pyamf/remoting/amf3.py','pyamf/remoting/__init__.py'],
 [('request processors turn exceptions into faults','pyamf/remoting/amf0.py, pyamf/remoting/amf3.py'),('Envelope bodies keyed by id','pyamf/remoting/__init__.py')],
 ['response envelope as decoded by the peer','log of service invocations'])
p('C08','No service runs without its gates, and only exposed methods run',
 'A service method is invoked only if it is reachable by the published name (never a private or unpublished attribute), its applicable authenticator accepted the credentials of that very request, and its preprocessor ran first and did not raise; the most specific authenticator, preprocessor and expose-request setting (method, then service, then gateway) applies. A rejected request produces an error response and no effect, also when requests with different credentials are processed one after the other, concurrently or in one batch. (Authenticators are not asked about RemoteObject messages; the documentation says so. Gates are those the registered object presents; an object that a class service creates per call has no others.)',
 ['configurations','histories','schedules'],'every combination of gateway-, service- and method-level settings, every sequence and interleaving of authorised and unauthorised requests, every published and unpublished name',
 'Tests cover each setting alone with one request; combinations across levels, mixed credentials and concurrent requests are not sampled.',
 ['pyamf/remoting/gateway/__init__.py','pyamf/remoting/amf0.py','pyamf/remoting/amf3.py','pyamf/remoting/__init__.py'],
 [('ServiceWrapper / ServiceRequest method lookup','pyamf/remoting/gateway/__init__.py'),('BaseGateway.getAuthenticator/getPreprocessor/mustExposeRequest/authenticateRequest','pyamf/remoting/gateway/__init__.py')],
 ['log of authenticator, preprocessor and service invocations','response'])
p('C09','Every flex message is acknowledged under its own correlation id',
 'Each AMF3 RemoteObject message is answered by exactly one acknowledgement or error message that carries that message\'s id as correlation id, a fresh message id never used before in the process, and the session id (DSId) the message came with or, if it had none, a fresh one; an error message carries the type and text of what the service raised. This holds for every message kind, batch composition and failure, for messages delivered twice, and for a server clock that stands still or jumps backwards; the answer is stamped with what that clock reads.',
 ['inputs','histories','fault_sequences'],'every sequence of remoting, command and ping messages in any batch, every service outcome, every behaviour of the server clock',
 'Tests process one message of each kind under the real clock and do not compare ids across messages.',
 ['pyamf/remoting/amf3.py','pyamf/flex/messaging.py'],
 [('generate_acknowledgement / generate_error / generate_random_id','pyamf/remoting/amf3.py'),('RequestProcessor._processRemotingMessage, _processCommandMessage','pyamf/remoting/amf3.py')],
 ['response messages decoded by the peer'])
p('C10','Points in time survive the trip between hosts in different time zones',
 'A date sent by one host and received by another denotes the same instant, whatever local time zone or daylight-saving state either process runs in and whatever its clock reads or jumps to: a naive datetime denotes UTC shifted by the time zone offset configured on its host, an aware one (no offset configured) its own instant, and a datetime.date its midnight. A configured offset is applied once when encoding and once when decoding, so an echo returns the date that was sent. This holds to within half a millisecond for AMF0 and AMF3, inside any container, through shared objects, small messages, client and gateway.',
 ['configurations','inputs'],'every date representable on the wire at millisecond resolution, every pair of host time zones, every configured offset',
 'Tests run in one process time zone with a handful of dates.',
 ['pyamf/util/__init__.py','pyamf/amf0.py','pyamf/amf3.py','pyamf/remoting/gateway/__init__.py'],
 [('get_timestamp / get_datetime','pyamf/util/__init__.py'),('timezone_offset in encoders and decoders','pyamf/amf0.py, pyamf/amf3.py')],
 ['datetime received by the peer'])
p('C11','Shared object files load completely or are refused, whatever fails',
 'A save that reports success leaves a file that loads to exactly what was saved, also after later saves that could not be encoded and loads that failed; a save that fails because the content cannot be encoded leaves the previous file untouched. A failed or interrupted save or load always raises, and loading afterwards gives a completely saved object or an error, never a partial one; so does loading a truncated or foreign file. No file handle is left open, whatever fails, and a file object supplied by the caller is never closed.',
 ['crash_points','fault_sequences','inputs'],'every content, every history of saves and loads, every position of a disk error, short write, full disk or crash',
 'Tests save and load one good file; no disk error, truncation or encode failure is injected.',
 ['pyamf/sol.py'],
 [('save / load / encode / decode','pyamf/sol.py')],
 ['contents of the file','exception raised','open handles'])
p('C12','The Twisted gateway answers each request once, in any completion order',
 'When services behind the Twisted gateway return asynchronously, each HTTP request is completed exactly once, with one response per body request under its own id and carrying the result or failure of that very call, in every order in which the pending results fire, whether they fire with a value or an error, at once or later or after the client has gone. No completion order loses a response, finishes a request twice or mixes results between concurrent HTTP requests.',
 ['schedules','fault_sequences','histories'],'every completion order of pending results over several concurrent requests, every outcome, client disconnects',
 'Twisted is not installed in the build, so its tests are skipped; they also only fire results immediately.',
 ['pyamf/remoting/gateway/twisted.py'],
 [('AMF0RequestProcessor / AMF3RequestProcessor with deferreds','pyamf/remoting/gateway/twisted.py'),('TwistedGateway.render_POST, getResponse, _finaliseRequest','pyamf/remoting/gateway/twisted.py')],
 ['calls made on the HTTP request object','decoded response'])
p('C13','Import hooks fire once per import of their module, whatever fails around it',
 'A function registered to run when a module is imported runs exactly once with that module, after the module has been fully executed, immediately if it is already loaded, and in registration order with the others; it does not run for a module whose import failed, and a failing or nested import of another module never stops the hooks of later imports. A module imported normally is the same object it would be without the hooks.',
 ['histories','fault_sequences'],'every history of registrations and imports, nested imports included, with any subset of them failing at any point',
 'Tests import one fixed spam module successfully.',
 ['pyamf/util/imports.py','pyamf/__init__.py'],
 [('ModuleFinder find_module / load_module / when_imported','pyamf/util/imports.py')],
 ['order and arguments of hook calls','module objects in sys.modules'],
 [('loaded_modules','modules whose import is in progress','pyamf/util/imports.py'),('post_load_hooks','registered functions by module','pyamf/util/imports.py')])
p('C14','The class registry answers by the latest registrations, loaders included',
 'After any history of registering, unregistering, installing and removing class loaders and packages, resolving a class name or class gives exactly what the registrations in force say: the registered class, otherwise what an installed loader that knows it provides, otherwise an importable class of that name, otherwise an unknown-class error that decoding turns into a typed object when not strict. A loader or import that fails leaves the registry as it was and the next lookup works.',
 ['histories','fault_sequences'],'every history of registry operations and lookups, with loaders and module imports failing at any call',
 'Tests perform one or two operations per case and reset in between.',
 ['pyamf/__init__.py','pyamf/codec.py','pyamf/util/__init__.py'],
 [('register_class / unregister_class / load_class / get_class_alias / register_class_loader / register_package','pyamf/__init__.py')],
 ['return values and exceptions of the registry functions','decoded objects'],
 [('CLASS_CACHE, CLASS_LOADERS','registered classes by alias and by class; loaders','pyamf/__init__.py')])
p('C15','The byte stream never half-performs an operation',
 'Under every interleaving of writes, appends, seeks, truncations, consumption and typed reads, the byte buffer behaves like a plain byte string with a cursor: a read that runs past the end of what has arrived raises and moves nothing, so that it succeeds once the missing bytes have been appended, and a write that is refused (value out of range, wrong type) changes nothing.',
 ['histories','fault_sequences'],'every history of buffer operations in both byte orders, with end-of-data at any read and invalid values at any write',
 'Tests exercise each accessor once on a full buffer.',
 ['pyamf/util/pure.py'],
 [('BufferedByteStream, DataTypeMixIn, StringIOProxy','pyamf/util/pure.py')],
 ['values returned, exceptions, cursor, content'])
p('C16','A long-lived process answers exactly like a fresh one',
 'What an encoder, decoder, client or gateway produces depends only on its own input and the registrations in force, never on what the process handled before: after any history of successful and failed operations, on recycled or new codecs, an operation yields the same bytes and values as in a process that has just started.',
 ['histories','fault_sequences','inputs'],'every history of encode, decode, registry and remoting operations, failures included, followed by any operation',
 'Tests run from a nearly fresh state and assert fixed outputs; caches filled by one operation and consulted by a later, different one are not exercised in combination.',
 ['pyamf/__init__.py','pyamf/amf3.py','pyamf/amf0.py','pyamf/codec.py','pyamf/alias.py','pyamf/util/pure.py'],
 [('process-wide caches: ENCODED_INT_CACHE, type maps, alias caches, encoder function cache','pyamf/amf3.py, pyamf/__init__.py, pyamf/codec.py')],
 ['bytes and values produced'],
 [('ENCODED_INT_CACHE','encodings of integers already used','pyamf/amf3.py')])
# not applicable
p('C17','Django models travel as their rows, whatever the database does',
 'Encoding model instances and querysets sends the field values each instance holds, the related objects that were already loaded (a foreign key that was not is left out, and not queried for) and the members its many-to-many relations have at that moment; one row is one object of the stream, however many instances of it were loaded. When the database fails at any statement, encoding raises and leaves the encoder as if the value had never been offered: the rows encode as usual when they are offered again. Decoding an instance whose primary key is stored gives that row with the received values applied (file fields excepted), and changes nothing in the database but the received many-to-many members, for each instance completely or not at all; when the database fails, decoding raises. Through a gateway such a failure affects that request only.',
 ['inputs','fault_sequences','histories'],'all rows and ways of loading them, every statement failing, rows changed by others in between, every history of elements on one encoder',
 'The adapter tests need a database driver and compare single round trips with a healthy one; no statement ever fails and no encoder is used after a failure.',
 ['pyamf/adapters/_django_db_models_base.py','pyamf/adapters/_django_db_models_query.py','pyamf/adapters/_django_db_models_fields.py','pyamf/codec.py'],
 [('DjangoClassAlias.getEncodableAttributes / getDecodableAttributes','pyamf/adapters/_django_db_models_base.py'),('writeDjangoObject: one row, one reference','pyamf/adapters/_django_db_models_base.py'),('Context.checkpoint / rollback of adapter data','pyamf/codec.py')],
 ['values the peer decodes','statements the database receives','rows after decoding'],
 [('django_objects','rows already sent in this stream, by class and primary key','encoder context')])
p('C18','Custom types, error classes and processors act exactly while declared',
 'A value of a type declared with add_type (a class, a tuple or list of classes, or a predicate) is sent as what the declared handler answers for it - a value, None for null, or what it wrote itself - for as long as the type is declared and not afterwards; a handler that raises fails the whole element and leaves no byte of it. Containers of the standard library, weak references (a dead one is null), decimals and generators, wherever they occur in a value, are each sent as one element: the list, object or number they amount to. A fault is raised as the class declared for its code, otherwise as RemotingError. Every post-decode processor runs once per decoded element, in order, each on what the previous one returned. A declaration that is refused (declared twice, never declared, of the wrong type) changes nothing.',
 ['inputs','histories','fault_sequences'],'every history of declaring and withdrawing types, error classes and processors between elements, every value built from such types, every handler, generator and processor that fails',
 'Tests declare one type, encode one value and withdraw it again; combinations of declarations, nested values and failing handlers are not exercised.',
 ['pyamf/__init__.py','pyamf/codec.py','pyamf/adapters/_array.py','pyamf/adapters/_collections.py','pyamf/adapters/_decimal.py','pyamf/adapters/_sets.py','pyamf/adapters/_weakref.py','pyamf/remoting/__init__.py'],
 [('add_type / get_type / remove_type','pyamf/__init__.py'),('Encoder.getCustomTypeFunc, _CustomTypeFunc','pyamf/codec.py'),('add_error_class / remove_error_class, ErrorFault.raiseException','pyamf/__init__.py, pyamf/remoting/__init__.py'),('add_post_decode_processor, Decoder.finalise','pyamf/__init__.py, pyamf/codec.py')],
 ['values the peer decodes','exceptions raised','bytes in the stream after a failure'],
 [('TYPE_MAP, ERROR_CLASS_MAP, POST_DECODE_PROCESSORS','what is declared','pyamf/__init__.py')])
p('C20','Encoding then decoding any supported value gives an equal value',
 'For every value composed of supported types, decoding what was encoded yields an equal value, for every codec option.',
 ['inputs'],'all values','Tests sample fixed values.',['pyamf/amf0.py','pyamf/amf3.py'],[('type maps','pyamf/amf0.py, pyamf/amf3.py')],['decoded value'])
p('C21','The wire format conforms to the AMF0/AMF3 specifications and Flash players',
 'Bytes produced are valid AMF as other implementations read it, and any valid AMF from another implementation is accepted.',
 ['inputs'],'all values and all valid streams','Only fixed byte strings are compared.',['pyamf/amf0.py','pyamf/amf3.py'],[('encoders','pyamf/amf0.py, pyamf/amf3.py')],['bytes'])
p('C22','XML in a message cannot expand entities or load external documents',
 'Decoding XML from an untrusted peer refuses document type declarations and entities as configured.',
 ['inputs','configurations'],'all XML documents','Tests use a few attack documents.',['pyamf/xml.py'],[('defusedxml parser','pyamf/xml.py')],['exception or element'])
p('C23','Class attribute policies filter what is sent and accepted',
 'Attributes excluded, read-only, static or renamed for a class are never sent or applied other than as declared.',
 ['inputs','configurations'],'all class declarations and all attribute sets','Tests cover each option mostly alone.',['pyamf/alias.py'],[('getEncodableAttributes / getDecodableAttributes','pyamf/alias.py')],['attributes'])
p('C24','The C extension and the pure Python codecs agree byte for byte',
 'For every value and stream both implementations produce the same bytes, values and errors.',
 ['inputs'],'all values and streams','The extension is not built here.',['cpyamf'],[('cpyamf','cpyamf')],['bytes'])
p('C25','SQLAlchemy and App Engine entities keep their identity, keys and lazy attributes',
 'SQLAlchemy and App Engine entities keep identity, keys and lazy attributes through a round trip.',
 ['inputs','configurations'],'all models and entity states','Most adapter tests are skipped.',['pyamf/adapters'],[('adapters','pyamf/adapters')],['entities'])
p('C26','Decoding hostile input uses bounded time, memory and stack',
 'Decoding n bytes needs resources bounded by a modest multiple of n.',
 ['inputs'],'all byte strings','Not tested.',['pyamf/amf0.py','pyamf/amf3.py','pyamf/util/pure.py'],[('decoders','pyamf')],['time, memory'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
