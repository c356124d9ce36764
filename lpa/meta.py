"""The properties: text, and how each is decided. tool/mkdocs.py writes properties.jsonl and MANIFEST.json from it."""
BUSF = ['src/lamppost/bus/Bus.cpp', 'include/lamppost/bus/Bus.h']
PROPS = []


def P(id, title, statement, over, quant, why, files, mech, rule, technique, note, state=(), observe=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                      rule=rule, technique=technique, note=note, state=state, observe=observe))


PATHNOTE = ('Every path of the named operations is enumerated by a summarising interpreter over clang\'s AST (loops summarised once per '
            'body path, callees inlined, branches collected as facts); an obligation that cannot be established is reported. ')
TRUST = ('Trusts clang\'s name resolution, the models of std/zmq/json-c/flatbuffers calls in lpa/engine.py, and that allocation does not fail.')

P('C01', 'Every published message is delivered once, unchanged and in order',
  'A message published on a bus, by any of its publishers or on a bus below it, is put once behind the messages already waiting, and carries its datagram, its topic and the identifier of the bus as sender. '
  'Unless a stop was requested, all messages taken are handed out in that order, each once and unchanged, in full passes over the subscribers and over the buses below; one subscriber, bus or message does not end the hand-out to the others, and nothing else takes messages away. '
  'A subscriber passes what it receives to its callback exactly once.',
  ['programs', 'histories', 'inputs'], 'any tree of buses, any set of subscribers and callbacks, any sequence of published messages',
  'The tests publish one message to one subscriber; the statement is about every set of subscribers, child buses and queued messages.',
  BUSF + ['src/lamppost/bus/Subscriber.cpp', 'src/lamppost/bus/Publisher.cpp', 'src/lamppost/messages/Message.cpp'],
  [('queueing, the worker loop and the distribution to subscribers and child buses', 'src/lamppost/bus/Bus.cpp: Publish, Run, Distribute')],
  'The queue is the location that publishing on a bus built by its constructor writes. Publishing (direct, by created publishers, by created child buses) appends exactly one message whose datagram, topic and sender terms are the arguments and the bus identifier. Every path of the worker: only front removals or whole takes; each taken sequence consumed by one full oldest-first pass; each message dispatched in exactly one full pass over the subscriber list and one over the child list; bodies continue; callback invoked at most once with the same message; children recursed into once; loop exit only with the running flag false.',
  'path-sensitive abstract interpretation with loop summaries', 'Sound over all paths and inputs for the control and data flow of the delivery; interleavings are the subject of C03 to C05.')
P('C02', 'A subscriber receives exactly the messages its topic pattern matches',
  'A subscriber is called for a message if its pattern equals the topic of the message or is the match-everything pattern, and only then. '
  'This holds for the subscribers of the bus itself and of every bus below it.',
  ['inputs'], 'all topics and patterns',
  'The tests use one matching topic and do not show that nothing else is delivered.',
  ['src/lamppost/utilities/AntMatcher.cpp', 'src/lamppost/bus/Bus.cpp'],
  [('matching of pattern and topic', 'src/lamppost/utilities/AntMatcher.cpp: Matches'), ('test before the hand-out', 'src/lamppost/bus/Bus.cpp: Distribute')],
  'In every body path of the passes over subscribers: the callback is invoked iff the path facts include topic(message)==pattern(subscriber) or pattern=="/**/*", with the string comparisons inlined from the matcher.',
  'path-sensitive abstract interpretation (guard facts)', 'All strings; equality of strings is an uninterpreted atom.')
P('C03', 'A queued message always wakes the worker',
  'When a message is put into the queue the worker is woken, or is not waiting: the notification comes after the message is in the queue, and the worker waits under the mutex that guards the queue, only while the queue is empty. '
  'A stop request ends the waiting too. '
  'While messages are queued the worker neither sleeps nor waits for anything else.',
  ['schedules'], 'every interleaving of publishers, the worker and a stop request',
  'A lost wake-up needs a publication between the worker\'s test and its wait, which tests do not provoke.',
  BUSF, [('condition variable with the queue mutex', 'src/lamppost/bus/Bus.cpp: Publish, Run, Stop')],
  'For each publishing path: a notify event follows the queue write unless the queue was known non-empty; each wait event of the worker on that condition variable uses the mutex held at the queue write, its predicate outcomes (or the facts before it) are true whenever the queue is non-empty, it is bounded or a stop notifies under the mutex; no other wait or sleep on worker paths.',
  'lock and condition-variable protocol analysis', 'Sound for the wait/notify protocol over all schedules given the C++ memory model; relies on the standard condition variable semantics.')
P('C04', 'Shared state of the bus and its participants is only used under its mutex',
  'Every field of a bus, publisher, subscriber, action provider or action consumer that may change after construction is either atomic or is always read and written under one and the same mutex. '
  'So no interleaving of publishing, subscribing, deleting, requesting, responding and delivering is a data race.',
  ['schedules'], 'every interleaving of calls to the public operations and of the worker',
  'A race shows only under some schedules and mostly not as a failed assertion.',
  BUSF + ['src/lamppost/bus/Publisher.cpp', 'src/lamppost/bus/Subscriber.cpp', 'src/lamppost/bus/ActionConsumer.cpp', 'src/lamppost/bus/ActionProvider.cpp'],
  [('one mutex per shared field', 'src/lamppost/bus/*.cpp')],
  'Lockset: every access event (location, read/write, mutexes held) on every path of every non-constructing operation and of the callbacks they store; per mutable non-atomic field the intersection of the locksets, by owning object, must be non-empty.',
  'lockset analysis', 'Eraser-style, path-sensitive in the locks held; fields only written while the object is constructed are exempt. Objects reached through user callbacks are out of view.')
P('C05', 'Bus operations cannot deadlock, also from callbacks and while waiting',
  'No operation of the bus, its participants or its worker locks a mutex its thread already holds, and mutexes are taken in one global order. '
  'A subscriber callback may publish, respond and make requests: no mutex these operations need is held while it runs. '
  'No mutex is held across a sleep, a wait for something else or a wait for another thread that needs it, and all mutexes are free when an operation is over.',
  ['schedules', 'programs'], 'every interleaving of public operations and every callback that uses them',
  'A deadlock needs two threads at the right points or a callback that calls back; the tests have neither.',
  BUSF + ['src/lamppost/bus/Publisher.cpp', 'src/lamppost/bus/Subscriber.cpp', 'src/lamppost/bus/ActionConsumer.cpp', 'src/lamppost/bus/ActionProvider.cpp'],
  [('mutexes held around callbacks, joins, waits', 'src/lamppost/bus/*.cpp')],
  'Lock-order graph over mutex classes (declaring class and field) from every path of every operation; cycles, re-locking, callbacks invoked while holding a mutex that publish/respond/request acquire, joins and waits with foreign mutexes, and locks held at return are reported. Parent-to-child recursion on one mutex kind must go in one direction.',
  'lock-order analysis', 'Mutexes of one class and field are one node; a hierarchy is accepted only with one direction of nesting.')
P('C06', 'Creating and deleting publishers and subscribers takes effect at once',
  'A publisher or subscriber created by a bus is registered with it exactly once and is reported as contained; a deleted one is taken out, exactly that one, and is no longer contained. '
  'After deletion a publisher publishes nothing and a subscriber calls no callback, and neither fails. '
  'Once deleting a subscriber has returned, no callback of it is running for a delivery or started by one.',
  ['histories', 'schedules'], 'any history of creating and deleting, and any delivery in progress meanwhile',
  'The tests delete the only participant of an idle bus.',
  BUSF + ['src/lamppost/bus/Publisher.cpp', 'src/lamppost/bus/Subscriber.cpp'],
  [('participant lists and reset of the stored callbacks', 'src/lamppost/bus/Bus.cpp: CreatePublisher, DeletePublisher, CreateSubscriber, DeleteSubscriber, Contains*')],
  'End state of create/delete paths as list terms (append of the returned object; removal of the argument), contains result equals the membership fact, follow-up interpretation of publish/receive in the end state calls nothing, and deletion removes under a mutex that delivery holds around callbacks.',
  'abstract interpretation of operation sequences plus lockset', 'All lists and participants; identity of participants is that of their addresses.')
P('C07', 'A callback that was never set is never called',
  'No operation of the bus, publishers, subscribers, action providers and consumers calls a stored callback without knowing that it is set, on any path, so an unset callback or a cleared one leads to no failure. ',
  ['inputs', 'histories'], 'all histories of setting, clearing and deleting before a message arrives',
  'Each combination of unset callback and arriving message would need its own test.',
  BUSF + ['src/lamppost/bus/Publisher.cpp', 'src/lamppost/bus/Subscriber.cpp', 'src/lamppost/bus/ActionConsumer.cpp', 'src/lamppost/bus/ActionProvider.cpp'],
  [('tests before the calls', 'src/lamppost/bus/*.cpp')],
  'Every invocation of a function object that is not a local lambda, on every path of every member of the bus classes and of the callbacks they store: the path facts must include that this very value is non-null.',
  'path-sensitive null-state (typestate) analysis', 'The test must be on the same value that is called (a re-read of the field under the same uninterrupted lock is the same value).')
P('C08', 'Bus arguments are validated and child buses are unique by name',
  'Empty bus names and missing functions are rejected with the null-argument error, a second child of the same name with the duplicate-key error, and asking for an unknown child with the key-not-found error, each naming the key; a rejected call changes nothing. '
  'A created child carries its name, is started, and is the one found under that name, until it is deleted; deleting an unknown one does nothing. '
  'Starting a child returns at once while starting the root runs its worker.',
  ['inputs', 'histories'], 'all names and functions, any existing children',
  'The tests cover a few of the argument combinations and not that nothing changed.',
  BUSF + ['src/lamppost/bus/Publisher.cpp', 'src/lamppost/bus/ActionConsumer.cpp'],
  [('argument checks', 'src/lamppost/bus/Bus.cpp: constructors, CreateChildBus, GetChildBus, Start')],
  'Contract rule: on every path the first true error condition decides a throw of the given type with the given key, no write precedes it, and a returning path has decided every condition false; end states as map terms.',
  'abstract interpretation against error contracts', 'All inputs.')
P('C10', 'Destroying or stopping a bus leaves nothing behind that refers to it',
  'A stop request stays in effect: the worker ends, no operation turns it on again unasked, and a bus that was stopped hands out nothing. '
  'When a bus is destroyed it is stopped, its child buses are stopped and detached from it (as is a child bus that is deleted), and publishers and subscribers that outlive it no longer refer to it: publishing on what is left does nothing and does not fail.',
  ['histories', 'schedules'], 'any participants still alive when their bus is destroyed, any moment of stopping',
  'Use after destruction needs a participant that outlives its bus; the tests destroy everything together.',
  BUSF + ['src/lamppost/bus/Publisher.cpp', 'src/lamppost/bus/Subscriber.cpp'],
  [('destructor and Stop', 'src/lamppost/bus/Bus.cpp: ~Bus, Stop')],
  'Paths of Stop and the destructor: the running flag found as what the worker loop tests is false at the end; full pass over each participant list whose body clears every stored function that refers to the bus (found by comparing captured terms). Every call of a subscriber, reached from a bus a message is handed down to, is preceded by a test of that bus\'s flag, in the operation itself or at each of its call sites.',
  'escape and lifetime analysis', 'Covers the participants a bus creates; raw pointers copied by the user are out of view.')
P('C11', 'Responses reach the request they answer, once',
  'A request is published on <topic>/request with a fresh invocation id, and a provider is called once for each with itself, that id and the request; what it responds is published on <topic>/response with the id. '
  'A response is passed once to the callback of the open request with its id, which is then forgotten; any other response changes and calls nothing. '
  'A blocking request returns the response to its own request or ends after the given time, and a response that comes later touches nothing that is gone.',
  ['histories', 'schedules', 'inputs'], 'any number of open requests, any order of responses, late, duplicate and unknown responses',
  'The tests make one request and answer it.',
  BUSF + ['src/lamppost/bus/ActionConsumer.cpp', 'src/lamppost/bus/ActionProvider.cpp'],
  [('open requests by invocation id', 'src/lamppost/bus/ActionConsumer.cpp'), ('request/response topics', 'src/lamppost/bus/Bus.cpp: CreateActionProvider, CreateActionConsumer')],
  'Provider and consumer built by the bus, then requests, responses and receptions interpreted in the resulting states: topic terms, datagram keys, the map of open requests as put/del terms with the id as key, at most one callback invocation guarded by membership and preceded by the removal, wait protocol of the blocking request, no captured reference to its frame.',
  'abstract interpretation of protocol steps plus wait protocol analysis', 'All ids and datagrams; uniqueness of generated ids is not decided (see N01).')
DATAF = ['src/lamppost/messages/RawDatagram.cpp', 'include/lamppost/messages/RawDatagram.h', 'src/lamppost/messages/Datagram.cpp', 'include/lamppost/messages/Datagram.h', 'include/lamppost/messages/Data.h']
P('C09', 'Datagram operations do what they say or fail cleanly',
  'Reading, adding, removing, counting and clearing entries of a datagram act on exactly the named key or position, and a read with the wrong type, a missing key or position to remove or read, or an operation that does not fit the type of the datagram is refused with its own error, which names the key or position. '
  'A refused operation and a question change nothing; only asking for a missing key adds an empty entry under it. '
  'Reading with a path and a default never fails and gives the value the path leads to if it has the type, the default otherwise.',
  ['inputs', 'histories'], 'every datagram, key, position, path and value type',
  'Tests read back a few values they stored themselves and do not look at what a refused operation left behind.',
  DATAF, [('the operations of raw datagrams and their front end', 'src/lamppost/messages/RawDatagram.cpp, include/lamppost/messages/RawDatagram.h')],
  'Every public operation is interpreted on every shape of datagram (empty, list, dictionary, value) with symbolic content; per path the thrown error, its argument and the facts (membership, index below size, stored type) must agree, end states are compared as container terms, refused and questioning paths must leave the store untouched.',
  'path-sensitive abstract interpretation against contracts', 'All shapes, keys, positions; values are uninterpreted. A datagram that was never given a value of some type is taken as not having it.')
P('C12', 'A copied datagram is equal and shares nothing',
  'Copying a datagram gives a new one of the same type with copies of everything in it, at every depth, and nothing else. '
  'So changing one of them, or anything in it, never changes the other; copying changes nothing.',
  ['inputs', 'histories'], 'every datagram of any depth and every later change',
  'Tests compare one flat copy and do not change it afterwards.',
  DATAF, [('copying', 'src/lamppost/messages/RawDatagram.cpp: Copy; include/lamppost/messages/Data.h: Copy')],
  'Interpretation of the copy operation per shape: the result is a fresh object, every element is the copy operation applied to the element at the same key or position of the source, in a loop that visits all of them, values are fresh objects built from the stored content; induction over depth.',
  'escape and alias analysis by abstract interpretation', 'Depth by induction on the copy operation itself.')
P('C13', 'A datagram always holds exactly what its type says',
  'A datagram is empty, a list, a dictionary or a value, and holds only what belongs to that type: no operation leaves remains of a former type behind, or a value without content. '
  'A value given to a datagram is read back as what was given, with its type, and an element added to a list is its last one.',
  ['inputs', 'histories'], 'every sequence of operations on every datagram',
  'Tests store each type in a fresh datagram and hardly ever change the type of one.',
  DATAF, [('type changes', 'src/lamppost/messages/RawDatagram.cpp: assignment operators, Get, Add; include/lamppost/messages/RawDatagram.h: SetValue')],
  'Every operation is interpreted on every consistent state; the end state of every path must be consistent again (tag and containers agree); assigned values are followed into the stored value object and compared as terms with the type they are read with.',
  'invariant preservation by abstract interpretation', 'Inductive over the public operations; direct access by other classes would be reported by the compiler (private members).')
P('C14', 'Datagrams and messages survive the trip over the wire',
  'A datagram that was turned into bytes and read back is equal to the original: same type, same values, all elements of lists in order and all entries of dictionaries under their keys, at every depth; empty lists and dictionaries too. '
  'A message comes back with its sender, topic and datagram.',
  ['inputs'], 'all datagrams and messages, nested as deep as the reader of JSON texts allows',
  'The tests send a handful of flat datagrams.',
  DATAF + ['src/lamppost/messages/Message.cpp', 'schemas/FBDatagram.fbs', 'schemas/FBMessage.fbs'],
  [('writing and reading the tables', 'src/lamppost/messages/RawDatagram.cpp: SerializeToStructure, DeserializeFromStructure; src/lamppost/messages/Message.cpp')],
  'Composition: for every path of the writer the slots of the built table are taken as terms and substituted for the accessors of the reader; the reader paths that stay feasible must rebuild the shape, content term, and per-element correspondence of the source, with full loops. Slot types come from the schemas.',
  'symbolic composition of writer and reader summaries', 'Depth by induction; the flatbuffers library is trusted to return what was put in.')
P('C15', 'JSON texts are read completely and faithfully',
  'Reading a JSON text gives a datagram with the same structure: booleans, integers, doubles and whole strings as values of that type, every element of an array in order, every member of an object under its key, at every depth, and null as an empty datagram. '
  'A text that is no JSON gives an empty datagram.',
  ['inputs'], 'all JSON texts',
  'Tests read a few documents that contain no literal at the top and no empty containers.',
  ['src/lamppost/messages/RawDatagram.cpp'], [('JSON reader', 'src/lamppost/messages/RawDatagram.cpp: DeserializeFromJson, ParseJsonObject')],
  'Per path: the kinds of JSON the facts leave open must each suit the state of the built datagram; scalars are compared with the getter of their kind, arrays need a counting loop over all indexes, objects the walk over the entry chain, children are read by the same reader into fresh datagrams; the parser must be given the end of the text.',
  'path-sensitive abstract interpretation with loop summaries', 'Depth by induction; the parser itself (json-c) and the range of numbers are trusted (see N03).')
P('C16', 'Bytes from outside cannot break the reader of messages',
  'Bytes that are no message, or an incomplete one, are refused with the invalid-operation error. '
  'Whatever bytes are given, nothing beyond them is read, nothing absent is used, and the message that comes out holds a well-formed datagram.',
  ['inputs'], 'every sequence of bytes',
  'Tests only read bytes the same program wrote.',
  ['src/lamppost/messages/Message.cpp', 'src/lamppost/messages/RawDatagram.cpp'],
  [('reading messages', 'src/lamppost/messages/Message.cpp: Deserialize; src/lamppost/messages/RawDatagram.cpp: DeserializeFromStructure')],
  'Dominance: each use of an accessor of received tables, strings and vectors needs, among the facts at that point, a successful verification of the same bytes in their full size, and for each optional part that it is there; indexes are below the number of elements of that same vector; the depth limit of the verification is bounded and not below the JSON limit.',
  'dominance (taint and check) analysis with null-state facts', 'The flatbuffers verifier is trusted for what it verifies.')
P('C17', 'Equality means same type and same content',
  'Two datagrams, values, messages or configurations are equal exactly when they are of the same type and all their parts are equal: all list elements in order, all dictionary entries by key, every field of a configuration. '
  'Unequal is its opposite, and comparing neither fails nor changes anything.',
  ['inputs'], 'all pairs of datagrams, messages and configurations',
  'Tests compare few pairs, mostly with themselves.',
  DATAF + ['src/lamppost/messages/Message.cpp', 'include/lamppost/LampPostConfiguration.h', 'include/lamppost/plugin/PluginManagerConfiguration.h'],
  [('comparison operators', 'src/lamppost/messages/RawDatagram.cpp: operator==; include/lamppost/LampPostConfiguration.h')],
  'For each pair of shapes and each path the truth value must agree with the facts: true only when tags agree and a full loop (or the standard comparison) established equality of every element, false only with a difference among the facts; fields of configurations are matched by name between both operands.',
  'relational path-sensitive abstract interpretation', 'Depth by induction.')
P('C18', 'Byte buffers and raw copies stay inside their memory',
  'A byte buffer holds a copy of all bytes given to it or appended to it, in order, knows their number, and releases its memory once; two buffers never own the same memory, and missing bytes are refused with the null-argument error. '
  'Wherever bytes are copied into or out of raw memory there is room for all of them.',
  ['inputs', 'histories'], 'all contents, sizes and sequences of operations',
  'Reading or writing a byte too far and releasing memory twice mostly goes unnoticed in tests.',
  ['src/lamppost/data/RawBytes.cpp', 'include/lamppost/data/RawBytes.h', 'src/plugins/link/Link.cpp', 'src/lamppost/Filesystem.cpp', 'include/lamppost/utilities/Uuid.h'],
  [('byte buffer', 'src/lamppost/data/RawBytes.cpp'), ('copies into messages and local buffers', 'src/plugins/link/Link.cpp: SendZmqMessage; src/lamppost/Filesystem.cpp')],
  'Ownership and extent analysis: per path the copies into the new array must tile it exactly with the old and the given bytes, sizes compared as linear terms; old memory released once, as an array, and not used after; copy operations deleted or deep. Every call of a copying function in the sources is an obligation: length term against the extent of source and destination.',
  'ownership and buffer extent analysis', 'Sizes as linear terms over the inputs; overflow of the size type is not modelled.')
PLUGF = ['src/lamppost/plugin/PluginManager.cpp', 'src/lamppost/plugin/PluginTemplate.cpp', 'src/lamppost/plugin/PluginInstance.cpp', 'src/lamppost/LampPost.cpp']
P('C20', 'Exactly the usable plugin libraries become plugins',
  'Loading looks at every file of every search path, in the order of the paths, and opens exactly the existing files whose name starts with libplugin_ and ends with the extension so. '
  'Such a library becomes a plugin if it offers a description with an identifier that is not empty and not in use yet and a function that creates instances; it is then known by that identifier, stays open, and its instances are created by its own function. '
  'Every other library that was opened is closed once, is not used after that and leaves the plugins there are unchanged.',
  ['inputs', 'histories'], 'all directory contents, all libraries and all orders of loading',
  'The tests load the plugins of this repository and no broken, unnamed or repeated ones.',
  PLUGF[:1] + ['include/lamppost/plugin/PluginManager.h', 'include/lamppost/plugin/PluginInstance.h'],
  [('looking through the search paths', 'src/lamppost/plugin/PluginManager.cpp: LoadTemplates'), ('opening and checking one library', 'src/lamppost/plugin/PluginManager.cpp: LoadTemplate')],
  'Typestate of the library handle on every path of loading: opened only under the name facts (existence, extension equality, prefix of the file name) and always when they hold; looked-up functions called only when found; description read only when there is one; one map insertion under the identifier of the description iff all conditions are among the facts, with handle and creating function; otherwise one close, nothing after it, and no change. The loops over paths and files must be full.',
  'typestate of library handles by path-sensitive abstract interpretation', 'Helpers of the file system (extension, file name) are taken by name here.')
P('C21', 'Plugin instances start and end in order, and nothing of them stays',
  'A new instance is initialized and then started, which lets its worker run; stopping an instance clears its run flag and then waits for its worker, whether or not the worker has ended by itself, and every worker of a plugin looks at the flag in every round. '
  'Unloading or destroying a template or the plugin manager stops every instance before it deinitializes it, once each, then releases it and takes its bus off the parent bus, and only then closes the library, once; instances that were never created are skipped. '
  'When a plugin is deinitialized it removes everything it created on the bus.',
  ['histories', 'schedules'], 'all sets of templates and instances, all orders of starting, stopping and unloading',
  'Calling into a closed library or leaving a thread behind depends on what is loaded and on timing; tests do neither.',
  PLUGF + ['src/plugins/sysinfo/SysInfo.cpp', 'src/plugins/link/Link.cpp'],
  [('stopping and deinitializing', 'src/lamppost/plugin/PluginTemplate.cpp: Unload'), ('closing libraries', 'src/lamppost/plugin/PluginManager.cpp: UnloadTemplates'), ('worker thread', 'src/lamppost/plugin/PluginInstance.cpp: Start, Stop')],
  'Typestate of instances, workers and libraries: per loop over the instance map the sequence of calls on the generic element, over all loops in order, must contain a stop before one deinitialization, skip exactly the null elements, and be followed by clearing the map; a loop over all remembered parent buses lets go of the child bus of each instance under its name (the operation of the bus that does so is found by its effect on the children); each library closed exactly once after that. Flag write before thread creation, flag clear before join, join iff joinable on every path. Every unbounded loop of a worker rereads the flag. Whatever a plugin stores from the bus while initializing must have its removal on every path of deinitializing.',
  'typestate analysis over loop summaries', 'A worker that never comes back from one round (blocking call) is not excluded.')
P('C22', 'Plugins run exactly as the configuration files say',
  'After the plugins were loaded and before the bus runs, LampPost follows every configuration file and every entry of its list of plugins in order: an entry with a type gives one instance of the plugin it names, with the configuration of that entry, which is initialized and started. '
  'An instance gets an identifier that no other instance of its template has and a bus of its own of that name below the bus given, or else the default bus; its template remembers it. It keeps that configuration and bus, and creates and deletes on that bus. '
  'The program follows the file named on its command line, if there is one. '
  'An unknown plugin gives no instance and changes nothing; the entry is reported and the others are followed all the same.',
  ['inputs', 'histories'], 'all configuration files and all orders of creating instances',
  'Tests use one configuration with plugins that exist.',
  PLUGF, [('following the configuration', 'src/lamppost/LampPost.cpp: Start, ReadConfigurationFile'), ('creating instances', 'src/lamppost/plugin/PluginTemplate.cpp: Instantiate; src/lamppost/plugin/PluginManager.cpp: InstantiateTemplate')],
  'On every path of starting: order of setting the default bus, loading, following files, running the bus; full loops over files and entries; for every body path of the entry loop, one instantiation iff the type is present, with the type and configuration terms of that entry, followed by initialize and start iff the result is not null, a report otherwise, and the loop going on. On every path of instantiating: freshness of the identifier among the facts, child bus term, configuration kept, result stored and returned. The constructors of instances are run on a symbolic configuration, which must be what its members hold afterwards; the creating operations of an instance are traced to the bus in it; the program\'s paths are split by the number of arguments.',
  'path-sensitive abstract interpretation with loop summaries', 'Exceptions of plugin code other than a failed operation, and files that are not JSON, are outside the statement.')
LINKF = ['src/plugins/link/Link.cpp', 'src/lamppost/messages/Message.cpp']
P('C23', 'Linked processes exchange every message once and never send it back',
  'Every message on the bus of a link that did not come in through this link is sent, once and unchanged, through each of its open sending sockets, as one whole under a topic that the receiving end subscribes to; one that came in through it is not sent out again. '
  'The worker of the link reads every open receiving socket in every round; the parts after the topic are put together in order, and the message read from them is published once on the bus of the link, with topic and data unchanged and the identifier of the link in front of its sender. '
  'Parts that are no message are dropped, and the work goes on; no message closes a socket or ends the worker, and no socket is told to leave out messages.',
  ['inputs', 'histories'], 'all messages, senders, contents and numbers of parts',
  'The tests have no linked processes at all.',
  LINKF, [('sending', 'src/plugins/link/Link.cpp: Initialize (callback), SendZmqMessage'), ('receiving', 'src/plugins/link/Link.cpp: Run, ReceiveMessage')],
  'Which fields hold sockets of which type is read off the paths of initialization. On every path of the callback: no send call iff the sender is known to start with identifier + "/", else for each sending socket that is not null exactly one topic frame (more parts to come) and one last frame whose contents and both sizes are those of the serialized, unchanged argument. Subscribed prefix against sent topic. On every body path of the worker loop: one read per open receiving socket; first part not appended, every later successful read appended once with its own data and size to a buffer created for this read; the loop over parts guarded by the more-parts option of this socket; deserialized, and then published once with field-wise equal message but for the sender; nothing published after a failed read, and the loop goes on. No path of the callback or of a round changes a socket or the flag that keeps the worker going; socket options that filter, limit or conflate messages are rejected where they are set.',
  'path-sensitive abstract interpretation (taint of messages through the zmq calls)', 'What zmq and the network do with a sent message (loss, late joining) is outside the statement.')
P('C24', 'The sockets of a link are closed, once, and before their context',
  'Every socket a link opens is kept until it is closed. When the link ends it stops listening to the bus first, then closes every socket it opened once, and its context once after all of them; a closed socket is not used. Every socket is opened from that context. '
  'No socket is used by two threads at the same time.',
  ['histories', 'schedules'], 'all roles, all orders of ending and sending',
  'A socket left open blocks the end of the process for ever, but only in a linked process.',
  LINKF[:1], [('opening and closing', 'src/plugins/link/Link.cpp: Initialize, Deinitialize')],
  'Typestate over the paths of initialization and of deinitialization: each socket and context handle stored in exactly one place; on every path of ending, for each handle not known to be null exactly one close, sockets before the context, unsubscription before the first close, no later use; the context given to each opening call is the one created before on that path. Users of each socket (callback, worker) collected with the mutexes held: one user, or a common mutex.',
  'typestate of handles, lock sets', 'That removing a subscriber waits for its callback is part of C04 and C05.')
P('C26', 'Server and client role use the configured endpoints, and fit together',
  'A role a link is configured to take opens exactly one socket to send and one to receive, a role that is not enabled none. '
  'A server accepts at its interface and a client connects to its host, over TCP, each sending at its port-pub and receiving at its port-sub. '
  'Without configuration, and with the configuration files provided, the ports of the client are those of the server crosswise.',
  ['inputs'], 'all configurations', 'The tests have no linked processes at all.',
  LINKF[:1] + ['config/default_server.cfg', 'config/default_client.cfg'], [('roles and endpoints', 'src/plugins/link/Link.cpp: Initialize')],
  'On every path of initialization the endpoint terms of all bind and connect calls are matched against "tcp://" host ":" port with host and port read from the keys of the role whose enabled flag is among the facts; type of the socket against kind of the port; number of sockets against number of enabled roles; defaults compared crosswise, and the keys, types and ports of the files in config against what is read.',
  'path-sensitive abstract interpretation (symbolic strings)', 'Whether an address can be bound is up to the system.')
HOSTF = ['src/lamppost/LampPost.cpp', 'src/main.cpp', 'src/lamppost/platformspecific/xnix/Xnix.cpp']
P('C27', 'Signals and stop requests end the host in an orderly way',
  'Interrupt and termination signals, every time they come, and stop requests from any thread make the running root bus end; the signal handler does nothing that is not allowed in one, and no request touches something that is going away. '
  'When the bus has ended the buses are detached, then all plugins are unloaded, and only after that the host is reported as stopped.',
  ['schedules', 'histories'], 'any moment at which a signal or a stop request comes, any number of them',
  'A handler that locks or allocates deadlocks only if the signal comes at the wrong moment, and tests send no signals.',
  HOSTF + ['src/lamppost/bus/Bus.cpp'], [('hooking signals', 'src/lamppost/platformspecific/xnix/Xnix.cpp'), ('handling them', 'src/main.cpp: HandleShutdownSignal; src/lamppost/LampPost.cpp: Stop'), ('shutting down', 'src/lamppost/LampPost.cpp: Start, Teardown')],
  'On every path of main both signals are hooked before the host starts. For each signal, on every path of its handler the running flag of the root bus (what the worker loop tests) is cleared, unless the host or its bus is known not to exist; every call in the transitive call graph of the handler is async-signal-safe (lock-free atomics, looking through smart pointers, POSIX-listed functions), with no lock, allocation, stream, string or exception. Fields read by stop requests are atomic, never written outside construction and destruction, or guarded. Order of run, detach, unload and the first value that reads as stopped, on every path.',
  'call graph effect analysis (async-signal-safety) and path-sensitive ordering', 'A request that comes before the root bus runs, or while the process already exits, is outside the statement.')
P('C28', 'Log lines are whole and complete',
  'Every message logged, of every kind, is written to the standard output once, as one line: the prefix of its log in brackets, a space, two spaces for each level of indentation, and the message unchanged. '
  'Lines written by several threads at the same time do not mix, and everything else the library writes there follows the same lock. As each plugin brings a lock of its own, a line with its line break goes out in one piece.',
  ['schedules', 'inputs'], 'all prefixes, messages and levels, all threads',
  'No test looks at the output.',
  ['src/lamppost/log/Log.cpp', 'include/lamppost/log/Log.h'], [('writing a line', 'src/lamppost/log/Log.cpp: Write, WriteSynchronized')],
  'On every path of every logging operation of a log built by its constructor, the concatenation of everything streamed to the output (strings, streams and indentation loops as symbolic texts) is "[" prefix "] " indent message newline; the part with the text is a single insertion; one mutex is held from the first to the last part without a gap, the same one for all operations; every other function of the library that names an output of the process holds it, too.',
  'path-sensitive abstract interpretation (symbolic texts) and lockset analysis', 'What main itself prints before and after running the host is not part of the library.')
P('C29', 'Errors can be caught as what they are and keep what they are told',
  'Everything the library raises is one of its own errors, which can be caught as itself, as the base error and as the standard runtime error, but not as one of another kind. '
  'An error gives back exactly the message and the key, position or parameter name it was raised with. '
  'A missing argument is reported under the name of the parameter that is missing.',
  ['inputs', 'programs'], 'all errors, messages, keys and positions',
  'Tests mostly only look at whether something is thrown.',
  ['src/lamppost/exceptions/', 'include/lamppost/exceptions/'], [('errors', 'src/lamppost/exceptions/*.cpp'), ('raising them', 'src/lamppost/bus/Bus.cpp, src/lamppost/data/RawBytes.cpp')],
  'Over all classes of the namespace of errors: public, unambiguous bases; constructors interpreted, the standard base gets the message parameter, and the accessor in the resulting state returns the other parameter. Over all throw expressions: the type is one of them. On every path of every public operation that raises the null-argument error, the name given is that of a parameter that is among the facts as empty or null.',
  'class hierarchy query and abstract interpretation', 'Which condition raises which error is decided with the operations themselves (C08, C09, C16, C18).')
P('C19', 'What an operation acquires from the system it gives back, once',
  'Every directory handle, JSON parser, parsed JSON value and network message that an operation acquires for itself is released exactly once on every way out of the operation, errors included. '
  'Nothing is used after it was released, and nothing is released that was only borrowed.',
  ['inputs', 'faults'], 'all inputs and all ways out of the operations',
  'A leak or a second release on a rare path passes every assertion; tests do not count handles.',
  ['src/lamppost/Filesystem.cpp', 'src/lamppost/messages/RawDatagram.cpp', 'src/plugins/link/Link.cpp'],
  [('directories', 'src/lamppost/Filesystem.cpp: GetDirectoryContents'), ('JSON', 'src/lamppost/messages/RawDatagram.cpp: DeserializeFromJson'), ('network messages', 'src/plugins/link/Link.cpp: ReceiveMessage, SendZmqMessage')],
  'Typestate over every function that calls one of the acquiring functions of libc, json-c or zmq (a table), and over the callers of functions that hand the handle on: on every abstract path, in every loop turn and on every way out of a loop, a handle that may exist is released once by the function that belongs to it (directly, by a guard object or by an owning pointer), is not passed on or read through afterwards, and nothing is released that was not acquired.',
  'typestate analysis', 'Handles kept in objects are decided elsewhere (sockets C24, libraries C20, byte buffers C18). Exceptions of the standard library other than those the code throws are not followed.')
P('C30', 'File system queries report what is there',
  'Asking whether a path exists, is a file or is a directory says what is there, links followed, and a directory listing holds exactly the entries of the requested kinds, by name. '
  'Joining puts one separator between two parts; file name, base directory and extension are the parts after and before the last separator and after the last dot of the name, and are empty where there is none. '
  'The path of the running program and the working directory are reported whole or as empty, without reading or writing past a buffer.',
  ['inputs', 'faults'], 'all paths, directory contents, filters and failures of system calls',
  'Tests look at a few paths of the build machine; wrong kinds, failing calls and long links do not occur there.',
  ['src/lamppost/Filesystem.cpp', 'include/lamppost/Filesystem.h'], [('queries and listing', 'src/lamppost/Filesystem.cpp'), ('use for plugin search', 'src/lamppost/plugin/PluginManager.cpp')],
  'Abstract interpretation of each helper. For the kinds of things that can be at a path (file, directory, other, nothing) and the three filters, the facts of every path and loop turn are decided case by case: the answer, or the number of times the entry is added, must be the one for that case. Split results must be the substrings delimited by the last separator or dot on paths whose facts say it exists, and empty on the others. Buffer extents bound the size passed to readlink and getcwd and the index of the terminator.',
  'abstract interpretation with finite case analysis', 'A link longer than the buffer is cut to it. Entries that change while the directory is read are outside the property.')
P('C31', 'The text of a datagram or message shows all of its content',
  'Written to a stream, an empty datagram is shown as null, a value as its text (strings in double quotes), a list as its elements in order between square brackets, and a dictionary as its keys and values between braces, elements separated by comma and space and keys followed by colon and space. '
  'A message is shown with its sender and topic in square brackets, a colon, and its datagram. '
  'This holds at every depth and for any number of elements, and the stream is given back.',
  ['inputs'], 'all datagrams, nesting depths and element counts',
  'Tests print a few small values; separators, nesting and later elements only go wrong for other shapes.',
  ['include/lamppost/messages/'], [('printing', 'include/lamppost/messages/RawDatagram.h, DataBase.h, Data.h, Datagram.h, Message.h: operator<<, ToString'), ('use in error logs', 'src/lamppost/LampPost.cpp')],
  'Abstract interpretation of each printing operation from each of the four kinds and for each type of value gives the sequence of pieces written: constants, members, and elements shown by a printing operation that is itself looked at (induction over depth). Loops are run turn by turn over a symbolic container of 0 to N elements, where N exceeds every constant the loop compares with, so that later turns repeat the last ones; the sequence must be the one stated for each count.',
  'abstract interpretation with loop unrolling to a cutoff', 'How the standard library writes numbers is not looked at; quotes inside strings are written as they are.')
P('C25', 'New identifiers are random, and identifiers compare by their text',
  'A new identifier carries at least 96 bits drawn from the system\'s source of randomness, all of them visible in its text, and is never the empty identifier. '
  'Two identifiers are equal exactly if both are empty or neither is and their texts are the same. '
  'Converted to a string or written to a stream, an identifier gives its text.',
  ['inputs', 'histories'], 'all identifiers ever made',
  'A test that draws a few identifiers cannot tell 32 random bits from 200, nor a generator seeded with the time from one seeded by the system.',
  ['include/lamppost/utilities/Uuid.h', 'src/lamppost/utilities/Uuid.cpp'], [('making and comparing', 'include/lamppost/utilities/Uuid.h'), ('use for requests', 'src/lamppost/bus/ActionConsumer.cpp: RequestAsync')],
  'Quantitative information flow over the value of the new identifier\'s text: each distinct draw that flows into it counts with the bits its range and the masks, remainders, conversions and buffer sizes on the way leave of it; draws from a seeded generator together count at most with the bits of its seed, and only draws from std::random_device count at all. Comparison, conversion and printing are interpreted on new, copied and empty identifiers.',
  'information-flow analysis and abstract interpretation', 'The quality of std::random_device is assumed. That 96 random bits do not repeat is a matter of probability (N01).')
P('C32', 'Plugins are looked for in every configured place, in a fixed order',
  'A new plugin manager looks for plugins in the search paths of its configuration, then in the directory of the executable, then in the working directory unless that is the same, then in its lib directory: each once, in this order, none lost. '
  'A search path that is added comes last. '
  'The host hands its configuration to the plugin manager and, after it read all its configuration files, adds every search path of its settings, in their order. A configuration holds the parts it was made from.',
  ['inputs', 'histories'], 'all configurations, directories and added search paths',
  'Tests run in one directory with one layout; which places are searched, and which of two plugins of the same name is found first, depends on the list.',
  ['src/lamppost/plugin/PluginManager.cpp', 'src/lamppost/LampPost.cpp', 'src/lamppost/settings/SettingsManager.cpp'], [('list of places', 'src/lamppost/plugin/PluginManager.cpp: PluginManager, AddTemplateSearchPath'), ('settings', 'src/lamppost/LampPost.cpp: LampPost; src/lamppost/settings/SettingsManager.cpp')],
  'Abstract interpretation of the constructors and of the operations that add a search path gives the list they leave as a symbolic sequence (elements appended, and whole lists appended by loops); it must be the one stated on every path, by whether the two directories are the same. The member that holds it is found by what adding a path changes, and no operation anyone may call may take from it.',
  'abstract interpretation', 'What the file system functions report is C30; that every listed path is searched is C20.')
P('C33', 'Names and sender addresses are kept exactly',
  'A message gives back the sender, topic and datagram it was made with; putting a name in front of the sender adds exactly that name and a slash, taking it away removes exactly these if they stand in front and changes nothing otherwise, and only a sender that starts with the name and a slash counts as sent by it. '
  'None of this changes topic or datagram. '
  'Buses, publishers, subscribers, action providers and consumers, plugins and plugin templates tell the name or topic they were made with.',
  ['inputs'], 'all names, topics and senders, of any length',
  'Tests use a few names; names that are empty, contain each other, or end where another begins are where address handling goes wrong.',
  ['src/lamppost/messages/Message.cpp', 'src/lamppost/Identifiable.cpp', 'src/lamppost/bus/'], [('addresses', 'src/lamppost/messages/Message.cpp: PrependSender, RemoveSender, WasSentBySender'), ('names', 'src/lamppost/Identifiable.cpp, src/lamppost/bus/BusParticipant.cpp')],
  'Abstract interpretation over symbolic names: each operation on addresses is reduced to the texts it leaves and to one condition, that the name followed by a slash is a prefix of the sender; every path must agree with what that condition says. Each class with a name is made by each of its constructors, and the question for the name is run on the object that leaves.',
  'abstract interpretation', '')
P('C34', 'The sysinfo plugin reports when it is told to and answers every request',
  'If its configuration says so under send-datagram, the sysinfo plugin publishes one datagram on /sysinfo in every round of its worker, and otherwise, also without configuration, it publishes nothing. '
  'Every request made on /sysinfoaction is answered exactly once, through the provider it was handed and under the invocation id it came with. '
  'Whatever it receives, and in every round, nothing fails. The configuration files provided are understood.',
  ['inputs', 'histories'], 'all configurations, all requests and received datagrams, any number of rounds',
  'No test loads the plugin into a running bus; and a test would see some rounds and some requests.',
  ['src/plugins/sysinfo/SysInfo.cpp', 'include/lamppost/plugin/PluginInstance.h', 'config/'], [('rounds and answers', 'src/plugins/sysinfo/SysInfo.cpp: Initialize, Run')],
  'The plugin is the one whose initialization creates an action provider. Initialization is run to find where the publisher and the configured flag are kept; every path of a round of the worker is split by that flag, with one publication through the kept publisher or none; every path of the callback for requests holds one answer, through its first argument with its second; reads of a received datagram that can fail are exceptional paths, none of which may leave a callback. The configuration files are read and compared with the keys and types looked up.',
  'abstract interpretation with exceptional paths', 'The interval between the rounds and the wording of the texts are not part of it.')
BY = {p['id']: p for p in PROPS}
NA = []


def N(id, title, statement, over, quant, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, reason=reason, state=(), observe=()))


N('N01', 'Generated invocation ids are unique',
  'Two ids generated anywhere in a system of linked processes differ, so requests of different consumers are never confused.',
  ['histories'], 'all ids ever generated', 'No test can draw enough ids.',
  ['src/lamppost/utilities/Uuid.cpp'], [('random ids', 'src/lamppost/utilities/Uuid.cpp: CreateUuid')],
  'uniqueness of random numbers is a probability over the entropy source; no static argument over the source bounds it')
N('N02', 'A message is delivered within a bounded time',
  'A message put into an idle bus reaches its subscribers within the period of the worker\'s check.',
  ['schedules'], 'all schedules and loads', 'Tests only show that delivery happened on an idle machine.',
  ['src/lamppost/bus/Bus.cpp'], [('periodic check', 'src/lamppost/bus/Bus.cpp: Run')],
  'real time depends on scheduling and on what callbacks do; that a queued message wakes the worker is decided as C03, the time it takes cannot be')
N('N03', 'Numbers keep their value through the JSON reader',
  'A number in a JSON text is the number found in the datagram, whatever its size.',
  ['inputs'], 'all numbers', 'Tests read a few small numbers.',
  ['src/lamppost/messages/RawDatagram.cpp'], [('json-c getters', 'src/lamppost/messages/RawDatagram.cpp: ParseJson')],
  'the value is what json-c computes at run time (saturation, rounding); which getter is used for which kind of value is decided as C15')
