import json
P=[]
def p(id,title,st,over,qt,why,files,mech,observe,hook=None,state=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
R='src/rbus/'; C='src/core/'; T='src/rtmessage/'
p('P01','A value keeps its type and content in every representation',
 "Whatever an application stores in a typed rbus value (any boolean, integer, float, time, string, byte array, property or object) it reads back with the same type and content from the value itself, from a copy of it, and from the value a receiver rebuilds from a message carrying it. Comparison reports zero exactly for equal content (numbers by numeric value, times by instant) and orders numbers consistently, and the text of a boolean, integer, character, string, time or (to the printed precision) floating-point value parses back to an equal value. Values are reference counted: none is freed while a holder remains, none survives its last release.",
 ['inputs','programs'],"every value content of every type (extreme numbers, empty and long strings and byte arrays, nested objects) and every sequence of set/get/copy/compare/print/parse/retain/release calls",
 "the unit tests try a few dozen fixed values per type, never adjacent or extreme ones, and never under a memory checker",
 [R+'rbus_value.c',R+'rbus_buffer.c','include/rbus_value.h',R+'rbus.c'],
 [('typed setters/getters and reference count',R+'rbus_value.c'),('wire encoding of a value',R+'rbus.c rbusValue_appendToMessage / rbusValue_initFromMessage'),('compare',R+'rbus_value.c rbusValue_Compare')],
 ['return values of the public value API','address/undefined-behaviour sanitizer'])
p('P02','Objects and property lists behave as ordered maps by name',
 "An rbus object holds one property per name: setting a property or value by name replaces exactly that one and leaves the number, order and content of the others, and lookup by name returns what was last set. Property lists keep their items in append order and report their true length; objects compare equal exactly when their name, their properties by name and value, and (if asked) their children are equal, and an object sent in a message arrives equal, children included. Every property and object is released exactly once, whatever order they are linked, shared and released in.",
 ['inputs','programs'],"every sequence of set/append/replace/link/lookup/compare/send/release operations over properties and (nested) objects",
 "tests build a handful of fixed small objects; ordering, replacement and sharing patterns are unbounded",
 [R+'rbus_object.c',R+'rbus_property.c',R+'rbus.c'],
 [('replace-by-name',R+'rbus_object.c rbusObject_SetProperty/SetValue'),('list append and count',R+'rbus_property.c'),('wire encoding of objects',R+'rbus.c rbusObject_appendToMessage/initFromMessage')],
 ['public object/property API results','address sanitizer'])
p('P03','A message gives back exactly the items that were written, in order',
 "Every sequence of integers, floating-point numbers, strings and byte arrays written to a bus message is read back in the same order with the same types and contents, both locally and after the message has been turned into bytes and rebuilt; reading past the end or as a wrong type reports an error and never invents data. The routing metadata attached to a message is read back intact and leaves the body untouched. Named fields of a JSON-style broker message, and the fields of a frame header, survive encoding and decoding in the same way.",
 ['inputs','programs'],"every sequence and size of items, every metadata content, every header field content within the documented limits",
 "tests write fixed short sequences and one metadata triple",
 [C+'rbuscore_message.c',T+'rtMessage.c',T+'rtMessageHeader.c',T+'rtEncoder.c'],
 [('typed pack/unpack',C+'rbuscore_message.c'),('meta section offset',C+'rbuscore_message.c rbusMessage_BeginMetaSectionWrite/Read'),('JSON fields',T+'rtMessage.c'),('frame header',T+'rtMessageHeader.c')],
 ['values popped by the reader'])
p('P04','Malformed bytes never corrupt memory, crash or hang a receiver',
 "Whatever bytes arrive as a message body, an encoded value, object, property list, filter, event, broker JSON message, frame header or stored subscription file, decoding them ends in bounded time without reading or writing outside the received data, without aborting the process, and without using data that was never decoded. Decoding reports failure rather than success for truncated input.",
 ['inputs'],"every byte string at each decoder",
 "no test feeds malformed or truncated input to any decoder, and none runs under a memory checker",
 [C+'rbuscore_message.c',R+'rbus_buffer.c',R+'rbus_filter.c',R+'rbus_value.c',R+'rbus.c',T+'rtMessage.c',T+'rtMessageHeader.c',T+'rtBase64.c',R+'rbus_subscriptions.c'],
 [('bounds checks in the TLV reader',R+'rbus_buffer.c'),('typed message reads',C+'rbuscore_message.c'),('value and object rebuild',R+'rbus.c'),('cache file load',R+'rbus_subscriptions.c rbusSubscriptions_loadCache')],
 ['address/undefined-behaviour sanitizer reports, crash signals, time limit'])
p('P05','A filter decides what its expression says, before and after being sent',
 "A relation filter is true exactly when the value stands in the stated relation (greater, greater or equal, less, less or equal, equal, not equal) to the filter's value, and AND, OR and NOT combine sub-filters by ordinary logic to any depth. A filter that is encoded and decoded, or carried in a message to another process, decides every value the same way as the original and compares equal to it. Two filters compare equal exactly when they have the same structure, operators and values.",
 ['inputs','programs'],"every filter tree over every value type and every value it is applied to",
 "tests apply a few fixed filters to a few fixed values and never send deep trees",
 [R+'rbus_filter.c',R+'rbus_value.c',R+'rbus.c'],
 [('evaluation',R+'rbus_filter.c rbusFilter_Apply'),('encoding',R+'rbus_filter.c rbusFilter_Encode/Decode')],
 ['results of the filter API against an independent evaluator'])
p('P06','Each name is routed to exactly the component that owns it',
 "After any history of components adding and removing topics, the broker resolves a name to exactly the component that currently owns it: an exact name or a table instance of an owned table pattern to its owner, an unowned or removed name to nobody. A topic that is already owned is refused to a second owner without disturbing the first, and removing a component's topics, or the component, removes exactly those. A partial path or wildcard resolves to exactly the components owning something below it, and the list of a component's topics is exactly what it added and has not removed.",
 ['histories','inputs'],"every history of route/topic add, alias, remove, client removal and every lookup name (deep, long, wildcard, instance, malformed)",
 "the routing tests add a few dozen fixed names and remove them in one order",
 [T+'rtRoutingTree.c',T+'rtrouted.c'],
 [('topic tree',T+'rtRoutingTree.c'),('route table',T+'rtrouted.c')],
 ['route lookups of the routing tree against a reference map','address sanitizer'],None,
 [('topic tree','name -> owner','src/rtmessage/rtRoutingTree.c')])
p('P07','No client can take the broker down or disturb the others',
 "Whatever a client sends to the broker (random bytes, truncated, oversized or inconsistent frames, malformed requests, split at any byte) and however it disconnects, the broker keeps running without memory errors, and other clients' requests, replies and messages keep arriving unchanged, in order and only at their addressees. A client that disconnects leaves no route behind.",
 ['inputs','fault_sequences','histories'],"every byte stream from every number of hostile clients, every disconnect point, interleaved with well-behaved traffic",
 "no test connects anything but the library's own client",
 [T+'rtrouted.c',T+'rtRoutingTree.c',T+'rtMessageHeader.c',T+'rtMessage.c'],
 [('frame reassembly and size checks',T+'rtrouted.c rtConnectedClient_Read'),('client teardown',T+'rtrouted.c rtRouted_ClearClientRoutes')],
 ['broker process under sanitizers','payload log of well-behaved clients'])
p('P08','Every request gets its own answer within its time limit, or a timeout',
 "When any number of threads and processes have requests outstanding, each call returns the answer produced for that very request, never that of another one, each request is executed at most once, and concurrent callers do not lose or swap replies. A request whose provider does not answer within the configured time limit fails with a timeout close to that limit; its late answer is discarded and later requests on the same handle work normally. A request to a name nobody owns fails promptly with a not-found error, and losing the connection to the broker ends the calls under way with an error.",
 ['schedules','histories'],"every interleaving of concurrent requests, slow or dying providers and timeouts",
 "tests issue requests one at a time, with one slow provider",
 [T+'rtConnection.c',C+'rbuscore.c',R+'rbus.c',R+'rbus_handle.c'],
 [('pending request table matched by sequence number',T+'rtConnection.c rtConnection_SendRequestInternal / onDefaultMessage'),('undeliverable turn-around',T+'rtrouted.c'),('timeout configuration',R+'rbus_handle.c')],
 ['call/return log with unique tokens echoed by providers'])
p('P09','A get returns the latest accepted set, with type and value intact',
 "A successful set delivers exactly the given name, value, type, session and commit flag to the owning provider once, and subsequent gets return what the provider holds, with the same type and content; under concurrent setters and getters every property behaves as one atomic register. A rejected set reports the provider's error, and get or set on a property whose provider offers no reader or writer, or on an unknown name, fails with an error and invokes no handler. The typed convenience calls agree with the generic ones and refuse a value of another type.",
 ['inputs','schedules','histories'],"every value, property, and interleaving of concurrent gets and sets from several consumers",
 "tests get and set from a single consumer at a time with fixed values",
 [R+'rbus.c',R+'rbus_element.c',C+'rbuscore.c'],
 [('get/set request encoding and handlers',R+'rbus.c rbus_get / rbus_set / _get_callback_handler / _set_callback_handler'),('element lookup',R+'rbus_element.c')],
 ['provider handler log','consumer call/return log checked for linearizability'])
p('P10','A multi-parameter set applies fully or reports failure and is undone',
 "A multi-parameter set that reports success has applied every given parameter exactly once with its value. One that reports an error (unknown or read-only parameter, rejection by a provider, at any position and across any number of providers) leaves every readable parameter it touched at its previous value, and the extended call names the parameter that failed. Duplicate or single-parameter calls follow the same rule.",
 ['inputs','histories','fault_sequences'],"every number and order of parameters, every partition over providers, every failing position and reason",
 "tests cover success and one or two failing patterns over at most two providers",
 [R+'rbus.c'],
 [('provider-side rollback',R+'rbus.c _set_callback_handler'),('consumer-side rollback',R+'rbus.c _setMultiInternal')],
 ['provider stores before and after, handler log, reported failing name'])
p('P11','Wildcard, partial-path and multi gets return each match exactly once',
 "A get of a partial path or of a wildcard over table rows returns exactly the readable properties below that path that currently exist, each once, with its current value, across all providers and nested tables; a get of several names returns one result per requested property. The reported count equals the number of properties returned, and names that match nothing yield an error or an empty result, never a foreign property.",
 ['inputs','histories'],"every data model shape, set of table rows, and query",
 "tests query one fixed data model with fixed rows",
 [R+'rbus.c',R+'rbus_element.c',T+'rtRoutingTree.c'],
 [('recursive get',R+'rbus.c get_recursive_partialpath_handler / get_recursive_wildcard_handler'),('wildcard destinations',T+'rtrouted.c')],
 ['result set against a reference data model'])
p('P12','Each published event reaches every current subscriber exactly once, in order',
 "An event published while a subscription is in place is delivered to that subscriber exactly once with the published name, type and data, and events of one publisher thread arrive in publishing order, for any number of publishers, subscribers and events as long as subscribers keep up. Nobody without a subscription receives it, and after unsubscribing returns no event published later is delivered. Publishing reports an absence of subscribers.",
 ['schedules','histories'],"every interleaving of publishes, subscribes and unsubscribes over many publishers, events and subscribers",
 "tests publish single events to one subscriber and compare counters",
 [R+'rbus.c',C+'rbuscore.c',R+'rbus_subscriptions.c',T+'rtConnection.c'],
 [('fan-out over element subscriptions',R+'rbus.c rbusEvent_Publish'),('client dispatch',C+'rbuscore.c master_event_callback'),('client side subscription lookup',R+'rbus.c _master_event_callback_handler')],
 ['publisher log and per-subscriber delivery log with sequence numbers'])
p('P13','Subscriptions follow one life cycle, seen alike by both sides',
 "A subscription is identified by its event, filter, interval, duration and kind: subscribing again to an identical one is refused, different ones on the same event coexist and are removed independently, and unsubscribing one that does not exist is an error. The provider's subscription handler sees each subscribe and unsubscribe with its event, filter and interval, and a subscription it rejects does not exist. Subscribing to several events at once is all or nothing, an asynchronous subscribe reports its outcome exactly once, and removing a table row ends only the subscriptions of that row.",
 ['histories','inputs'],"every sequence of subscribe/unsubscribe calls of every flavour by several consumers, with provider rejections and row removal at any point",
 "tests exercise one subscription flavour at a time; combinations on the same event are not tested",
 [R+'rbus.c',R+'rbus_subscriptions.c',R+'rbus_asyncsubscribe.c',R+'rbus_element.c',C+'rbuscore.c'],
 [('provider registry',R+'rbus_subscriptions.c'),('consumer registry',R+'rbus.c rbusEvent_SubscribeWithRetries'),('async retrier',R+'rbus_asyncsubscribe.c')],
 ['subscription handler log, API return codes, deliveries of probe events'])
p('P14','Value-change events report real changes, chain, and converge',
 "A subscriber to changes of a property receives an event only when the value differs from the last one reported, each event carries the new value, the value reported before it as old value and the component that made the change, and once the value stops changing the last event received carries the current value. With a filter, an event is sent exactly when the filter starts or stops matching and says which. It holds for every value type and for changes made through the bus or inside the provider.",
 ['histories','inputs'],"every sequence and type of value changes, subscription points and filters",
 "tests count a few integer changes with fixed filters",
 [R+'rbus_valuechange.c',R+'rbus.c',R+'rbus_filter.c',R+'rbus_value.c'],
 [('poll and compare',R+'rbus_valuechange.c rbusValueChange_pollingThreadFunc'),('threshold crossing',R+'rbus.c rbusEvent_Publish')],
 ['delivered old/new chain against the provider write history'])
p('P15','Interval, duration and initial-value subscriptions deliver as asked',
 "A subscription with an interval receives the current value of the property, or of all rows for a wildcard, about once per interval until it is removed or its duration has elapsed, and with a duration it ends with exactly one completion event and nothing after it. A subscription that asks for the initial value receives exactly one initial event holding the value at that time, before any later event. Intervals of different subscriptions to one property do not influence each other.",
 ['histories','configurations'],"every combination of interval, duration, initial-value and filter options on any number of subscriptions",
 "tests use a single interval subscription and count events coarsely",
 [R+'rbus_intervalsubscription.c',R+'rbus.c'],
 [('publishing thread per subscription',R+'rbus_intervalsubscription.c'),('initial value',R+'rbus.c _subscribe_callback_handler')],
 ['timestamped delivery log'])
p('P16','Table rows: what was added and not removed is there, and announced once',
 "After any sequence of row additions and removals, by consumers or by the provider, the rows of a table are exactly those added and not removed, with the instance number and alias they were given; each row can be addressed by number and by alias and has its own instance of every element registered below the table. Adding a row that exists or removing one that does not is refused without side effects. Subscribers of the table receive exactly one created or deleted event per change, carrying the row name, instance number and alias.",
 ['histories','inputs'],"every history of add/remove/register/unregister over nested tables with and without alias, concurrent with gets",
 "tests add and remove a few fixed rows",
 [R+'rbus.c',R+'rbus_element.c',R+'rbus_subscriptions.c'],
 [('row instantiation',R+'rbus_element.c instantiateTableRow/deleteTableRow'),('row requests and events',R+'rbus.c registerTableRow/unregisterTableRow')],
 ['row names, element info, gets and events against a reference table'])
p('P17','A name has one owner at a time and is free after release or crash',
 "At any time at most one component owns an element name or a component name; registering an owned element fails with a duplicate error, leaves the owner undisturbed, and leaves none of the elements of the failed call registered. After the owner unregisters an element, closes, or dies at any point, the name answers not found, disappears from discovery, and can be registered and served by another component. Registering, unregistering or closing one component never affects the elements of others.",
 ['histories','crash_points','schedules'],"every history of register/unregister/open/close/crash over competing components, including mid-request kills",
 "tests register disjoint names and never crash an owner",
 [R+'rbus.c',C+'rbuscore.c',T+'rtrouted.c',T+'rtRoutingTree.c'],
 [('duplicate check',T+'rtRoutingTree.c rtRoutingTree_AddTopicRoute'),('transactional registration',R+'rbus.c rbus_regDataElements'),('client cleanup',T+'rtrouted.c')],
 ['return codes, answers of gets, discovery results'])
p('P18','Discovery and element information report exactly what is registered',
 "The discovery calls and element information calls report exactly the components, elements, rows, types and access rights that are registered at that time: the owner of each element, all elements of each component, and for a path and depth exactly the objects, tables, rows and elements within that depth, each once. Access rights shown are those the provider gave handlers for.",
 ['histories','inputs'],"every registered data model, row set, path and depth",
 "tests compare one fixed tree",
 [R+'rbus.c',C+'rbuscore.c',T+'rtrouted.c'],
 [('name requests',R+'rbus.c _get_parameter_names_handler / rbusElementInfo_get'),('broker discovery',T+'rtrouted.c')],
 ['discovery results against a reference data model'])
p('P19','A method call runs once and its result reaches exactly its caller',
 "Each invocation of a registered method runs the provider's handler exactly once with the given name and arguments, and the caller gets exactly the error code and output parameters that the handler, or its later asynchronous response, produced; if the handler fails or cannot be reached the caller gets an error with code and text. Asynchronous invocation calls back exactly once, also on failure or timeout, and concurrent invocations of fast, slow, deferred and failing methods do not mix up results. Methods on table rows receive the row's own name.",
 ['inputs','schedules','histories'],"every argument object, completion order and mix of concurrent synchronous, asynchronous and deferred calls",
 "tests invoke one method at a time",
 [R+'rbus.c',C+'rbuscore.c'],
 [('invocation',R+'rbus.c rbusMethod_InvokeInternal / _method_callback_handler'),('deferred response',R+'rbus.c rbusMethod_SendAsyncResponse')],
 ['handler log and caller log matched by token'])
p('P20','At most one session exists, and only its holder number closes it',
 "At any time at most one bus session is active: creating one while another is active fails, the current-session query returns the active session to everyone and none otherwise, and only closing the active session's number ends it, after which a new one can be created. Under concurrent requests from several components exactly one creation succeeds per free period.",
 ['schedules','histories'],"every interleaving of create, query and close by several components, with right and wrong numbers",
 "the test runs one create/close sequence from one process",
 ['src/session_manager/session_manager.c',R+'rbus.c'],
 [('session state',"src/session_manager/session_manager.c sessionManager_methodHandler"),('client calls',R+'rbus.c rbus_createSession/rbus_closeSession')],
 ['call/return log against a session automaton'])
p('P21','A crashed or restarted peer neither harms others nor loses subscriptions',
 "When a subscriber dies at any point its provider and the other subscribers keep working and events keep flowing to the living ones. When a provider dies and comes back under the same name, the subscriptions of consumers that are still alive are in force again without the consumers doing anything, each once, with their filter and interval; those of dead consumers or already unsubscribed are not. Consumers' calls while the provider is away fail with an error instead of hanging.",
 ['crash_points','fault_sequences'],"every point at which a subscriber or provider is killed, and every set of subscriptions in place",
 "crash recovery is only tried by hand with a sample program",
 [R+'rbus_subscriptions.c',R+'rbus.c',T+'rtrouted.c',C+'rbuscore.c'],
 [('subscription cache file',R+'rbus_subscriptions.c rbusSubscriptions_saveCache/loadCache'),('re-subscription',R+'rbus_subscriptions.c rbusSubscriptions_resubscribeElementCache')],
 ['delivery log before and after kills'])
p('P22','A direct connection behaves like the brokered path',
 "With a direct connection open to a provider, gets, sets, method calls, table operations and events on its elements give the same results as through the broker, also under concurrent use, with several direct consumers, and with several providers. Closing the direct connection, or the death of either side, returns to the brokered path without lost or duplicated replies, crash or hang, and repeating it does not make a process grow. (An event in flight while the path switches may be lost but never doubled.)",
 ['histories','schedules','fault_sequences'],"every sequence of open/close direct, operations, and peer deaths over several consumers and providers",
 "one sample program opens a direct connection; nothing tests it",
 [C+'rbuscore.c',T+'rtrouteBase.c',R+'rbus.c'],
 [('private connection lists',C+'rbuscore.c rbuscore_openPrivateConnectionToProvider'),('direct listener',T+'rtrouteBase.c')],
 ['same oracles as the brokered checks, applied to direct handles'])
p('P23','Components open and close in any order without loss, leak or hang',
 "Any number of component handles can be opened, used and closed in any order and by any thread within one or many processes: each close ends in bounded time, frees what the handle held, and leaves the other handles fully working. Calls on a closed or null handle are refused with an error and do not crash. Repeating any operation cycle makes neither the process nor the broker grow in memory, open files or threads.",
 ['histories','schedules'],"every sequence of open, register, subscribe, call and close over many handles, repeated any number of times",
 "tests open and close a few handles once",
 [R+'rbus.c',R+'rbus_handle.c',C+'rbuscore.c',T+'rtConnection.c'],
 [('handle list and last-close teardown',R+'rbus.c rbus_open/rbus_close'),('connection shutdown',T+'rtConnection.c rtConnection_Destroy')],
 ['live heap bytes, open descriptors and thread count per repeated cycle', 'address sanitizer'])
p('P24','Trace context travels with the calls of its thread and with nothing else',
 "A trace context set by a thread is the one it reads back and the one the provider's handler sees during each call made by that thread; other threads' calls carry their own context or none. After clearing, calls carry none, a context that is too long is not carried in part, and the context seen in a provider's handler does not leak into later requests it serves.",
 ['inputs','schedules'],"every context string up to and beyond the limits, every interleaving of set, clear and calls over threads",
 "tests set and read back one context in one thread",
 [C+'rbuscore.c',C+'rbuscore_message.c',R+'rbus.c'],
 [('thread-local context',C+'rbuscore.c rbus_setOpenTelemetryContext'),('metadata of requests',C+'rbuscore_message.c rbusMessage_SetMetaInfo')],
 ['context seen by handlers against the caller log'])
p('P25','The internal containers are faithful sequences, lists and maps',
 "Vectors, linked lists and hash maps used throughout the bus behave as the abstract sequence, list and map for every operation history: size, order, lookup, removal by item and by comparison, and destruction calling the clean-up function once per element. Base64 encoding followed by decoding returns the original bytes for every length, and time arithmetic orders and measures instants consistently.",
 ['inputs','histories'],"every operation history and content",
 "unit tests use short fixed sequences",
 [T+'rtVector.c',T+'rtList.c',T+'rtHashMap.c',T+'rtBase64.c',T+'rtTime.c'],
 [('vector',T+'rtVector.c'),('list with cached free items',T+'rtList.c'),('hash map with resizing',T+'rtHashMap.c')],
 ['container API results against reference containers','address sanitizer'])
p('P26','Concurrent use of the library is free of data races and deadlock',
 "Several threads of one process may get, set, invoke, publish, subscribe and unsubscribe through one handle, or through several, at the same time while the library's own threads deliver requests, responses and events, without any data race on the library's state, deadlock, or lost wake-up. Every call returns. (Elements are registered and unregistered, and rows added and removed by the provider's own threads, while no request for that component is under way; rows that come and go by requests are in scope.)",
 ['schedules'],"every interleaving of public calls on shared and separate handles with the library's own threads",
 "tests are almost single-threaded and never run under a race detector",
 [T+'rtConnection.c',C+'rbuscore.c',R+'rbus.c',R+'rbus_handle.c',R+'rbus_subscriptions.c',R+'rbus_valuechange.c',R+'rbus_asyncsubscribe.c',R+'rbus_intervalsubscription.c'],
 [('connection mutex and callback queue',T+'rtConnection.c'),('rbuscore lock',C+'rbuscore.c'),('handle mutexes',R+'rbus_handle.h')],
 ['thread sanitizer reports, completion of every call'])
p('P27','Raw messages reach exactly the matching listeners, byte for byte',
 "A raw message sent to a topic, or raw event data published, is delivered to every listener whose topic matches, once per listener, with exactly the bytes and length sent (from one byte to large), in sending order per sender, and to no listener that does not match or was removed. Several listeners, on one or more handles, can be added and removed independently, and a send that asks for confirmation reports whether a receiver exists.",
 ['inputs','histories'],"every payload, topic set and history of listener add/remove",
 "no automated test covers the raw message interface",
 [R+'rbus_message.c',R+'rbus.c',T+'rtConnection.c'],
 [('listener table',R+'rbus_message.c'),('dispatch by subscription id',T+'rtConnection.c')],
 ['sent and received payload logs'])
p('P28','The core object interface calls, answers and notifies exactly as registered',
 "Through the interface below the component handles (objects, methods, elements and events), a call to an object or to an element of it reaches exactly the handler registered for that method there, or the object's own handler if there is none, once and with exactly the items sent; the caller gets exactly the answer given, also when it is given late or while the handler itself calls others, and calling a name nobody has fails at once. A published event reaches each current subscriber of that object and event once, in publishing order, with its items and its user data. Registering a name twice, or removing or publishing what is not there, is refused and changes nothing; all of it holds under concurrent use and leaves nothing behind when undone.",
 ['histories','schedules','inputs'],"every history of registration, removal, calls, subscriptions and publications over several processes, payloads of every item type",
 "tests register a handful of objects, call and publish each once from one thread",
 [C+'rbuscore.c',C+'rbuscore_message.c',T+'rtVector.c'],
 [('object, method and event lists',C+'rbuscore.c rbus_registerObj/rbus_registerMethod/rbus_registerEvent'),('dispatch of requests and events',C+'rbuscore.c dispatch_method_call/master_event_callback'),('publication',C+'rbuscore.c rbus_publishEvent')],
 ['handler and event logs against a reference model', 'live heap bytes per cycle','address sanitizer'])
p('P29','A thread pool runs each task once within its threads; a post admits one',
 "Every task a pool accepts runs exactly once, from whatever number of threads and tasks it was given, also when it comes just as an idle thread ends; at no time more threads than allowed run tasks, and as long as fewer are busy a task does not wait behind another one. Destroying a pool without a time limit waits for all tasks, with a limit it waits at most that long and no less while tasks are left, reports exactly whether tasks were cancelled, lets those under way finish and leaves neither thread nor memory behind. A semaphore admits exactly one waiter per post, immediately if a post is there, loses none, and a wait with a time limit gives up at that time and not before.",
 ['schedules','histories'],"every schedule of producers, tasks, idle threads ending, waiters, posters and destruction",
 "tests never start more than a few tasks, and never at the moment an idle thread ends or the pool is destroyed",
 [T+'rtThreadPool.c',T+'rtSemaphore.c',T+'rtTime.c'],
 [('running and queueing of tasks',T+'rtThreadPool.c rtThreadPool_RunTask/rtThread_WorkerThreadFunc'),('stopping',T+'rtThreadPool.c rtThreadPool_StopAllThread/rtThreadPool_Destroy'),('semaphore',T+'rtSemaphore.c rtSemaphore_TimedWait/rtSemaphore_Post')],
 ['start and end counters of each task, most tasks at once, admissions against posts','time of destruction and thread count','address and thread sanitizers'])
p('P30','The messaging layer alone delivers messages and answers exactly',
 "A program that uses the messaging layer alone gets over each of its connections, Unix or TCP, however many it has, exactly the messages sent to names its listeners, their aliases or its own inbox (default listener) stand for: each once per listener, unchanged, in the order each thread sent them, with the sender's reply name. Each request ends with an answer to that very request, given at once or late, or with the code for nobody listening at once, or for a time-out at its time limit; a late answer reaches nobody. A listener removed isn't called any more, an alias already taken is refused, and after the router was killed and started again connections come back by themselves with all their listeners. What is no address is refused by connections and router without harm.",
 ['histories','schedules','crash_points','inputs'],"every history of connections, listeners, aliases, messages and requests, every schedule of their threads and every moment the router or a receiver dies",
 "tests of this layer send a few messages each from one thread and never restart the router under it",
 [T+'rtConnection.c',T+'rtConnection.h',T+'rtMessage.c',T+'rtSocket.c',T+'rtrouted.c'],
 [('sending and requests',T+'rtConnection.c rtConnection_SendRequestInternal/rtConnection_SendLocked'),('listeners and aliases',T+'rtConnection.c rtConnection_AddListenerWithId/rtConnection_AddAlias'),('reading and dispatch',T+'rtConnection.c rtConnection_Read/rtConnection_CallbackThread'),('reconnection',T+'rtConnection.c rtConnection_ConnectAndRegister'),('addresses',T+'rtSocket.c rtSocketStorage_FromString')],
 ['delivery and answer logs of all connections against a reference matcher','time of requests','address sanitizer'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,s); assert len(x['title'])<=80
print(len(P))
