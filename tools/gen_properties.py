#!/usr/bin/env python3
"""Source of properties.jsonl (easier to edit than the JSON lines). Run: python3 tools/gen_properties.py"""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=observe, hook_needed=None)))

T='scalopus_transport/'; I='scalopus_interface/'; G='scalopus_general/'; R='scalopus_tracing/'; C='scalopus_catapult/'; Y='scalopus_python/'

prop('C01', 'Every request is answered with exactly its own response',
 "On the unix and the loopback transport, a request a client sends to an endpoint of the server makes that endpoint (and no other) handle exactly the bytes sent, exactly once, and when the endpoint answers, that request's future, and no other, yields exactly the answered bytes. "
 "This holds for every payload (any bytes, empty to many megabytes), every endpoint name, any number of endpoints, clients, threads and requests in flight, awaited in any order, and for requests made before, between or after requests that go unanswered (unknown endpoint, endpoint declines) or whose future was dropped. "
 "The number of outstanding requests a client reports is the number still awaiting an answer, and a dropped future stops being counted.",
 ['inputs','schedules','histories'], "all payloads, endpoint names and interleavings of any number of client threads on any number of clients of one server",
 "The tests send one tiny request at a time to one endpoint from one thread, so neither sizes, mixing of concurrent requests, nor reuse after unanswered ones is exercised.",
 [T+'src/transport_unix.cpp', T+'src/transport_loopback.cpp', T+'src/protocol.cpp', I+'src/transport.cpp'],
 [('request ids plus endpoint name match a response to its promise', T+'src/transport_unix.cpp'), ('write lock keeps one message contiguous', T+'src/transport_unix.cpp'), ('queue of pending requests', T+'src/transport_loopback.cpp')],
 ['Transport::request future', 'Transport::pendingRequests', 'Endpoint::handle invocations'],
 [('ongoing_requests_', 'promises waiting for an answer', T+'src/transport_unix.h')])

prop('C02', 'The unix wire format is as documented, independent of fragmentation',
 "Everything a unix transport writes to a connection is a concatenation of whole messages in the documented layout (8 byte request id, 2 byte name length, name, 4 byte data length, data, in host byte order); an answer repeats the id and endpoint name of its request and a broadcast carries id 0. "
 "However a peer splits such messages over writes or joins several into one, the transport acts on exactly those messages, in order. "
 "A connection that ends anywhere inside a message is dropped, and nothing is ever delivered to an endpoint or a future from the incomplete message.",
 ['inputs','fault_sequences','crash_points'], "all message sequences, all ways of cutting their bytes into writes, all points at which the peer can vanish, in both directions (server receiving, client receiving)",
 "The tests only let the library talk to itself over a local socket with small messages that always arrive whole.",
 [T+'src/protocol.cpp', T+'src/protocol.h', T+'README.md', T+'src/transport_unix.cpp'],
 [('length prefixed protocol', T+'src/protocol.cpp'), ('read until the announced length is complete', T+'src/protocol.cpp')],
 ['raw bytes on the abstract unix socket', 'Endpoint::handle / Endpoint::unsolicited invocations', 'Transport::request future'])

prop('C03', 'A broadcast reaches every connected client exactly once and in order',
 "Each broadcast made on a server is delivered exactly once, with unmodified bytes, to the endpoint with the given name on every client that stays connected, and the broadcasts of one thread arrive in the order in which they were made. "
 "Clients without that endpoint, clients that have gone away and requests in flight at the same time neither disturb nor are disturbed by the delivery. "
 "When the receiving endpoint answers a broadcast, the server's endpoint of that name receives exactly that answer.",
 ['inputs','schedules','histories'], "all sequences of broadcasts from any number of threads, with any clients connecting and leaving and any requests in flight, on both transports",
 "The tests make a single broadcast to a single client and wait for it.",
 [I+'src/transport.cpp', T+'src/transport_unix.cpp', T+'src/transport_loopback.cpp'],
 [('broadcast queue', I+'src/transport.cpp'), ('per connection send of each queued broadcast', T+'src/transport_unix.cpp'), ('unsolicited dispatch by endpoint name', T+'src/transport_unix.cpp')],
 ['Endpoint::unsolicited on clients', 'Endpoint::handle on the server'],
 [('broadcast_messages_', 'queue of broadcasts not yet sent', I+'include/scalopus_interface/transport.h')])

prop('C04', 'Loss of a peer is reported and never harms the process or other peers',
 "Connecting to or serving on something that is not available yields no transport, and never terminates the process or leaks descriptors. "
 "When a server goes away at any point, each of its clients reports that it is no longer connected, requests made afterwards fail with a communication error or stay unanswered, and no outstanding request is ever answered with invented data. "
 "When a client goes away at any point, in the middle of a message included, the server keeps serving every other client, and transports can be destroyed at any time, in any order, with requests and broadcasts outstanding.",
 ['fault_sequences','crash_points','histories'], "all histories of serve, connect, request, broadcast, destroy and peer loss, with the loss at any byte of the conversation",
 "The tests only cover one orderly disconnect per transport; failure to connect or serve, abrupt loss and destruction order are not exercised.",
 [T+'src/transport_unix.cpp', T+'src/transport_loopback.cpp'],
 [('isConnected and communication_error', T+'src/transport_unix.cpp'), ('factories return nullptr on failure', T+'src/transport_unix.cpp')],
 ['TransportFactory::connect/serve result', 'Transport::isConnected', 'future state', 'survival of the process', '/proc/self/fd'])

prop('C05', 'No bytes sent to a built-in endpoint can take down the traced process',
 "Whatever bytes arrive as a request for any of the built-in endpoints (introspection, process info, trace mapping, trace configuration, native trace sender) or as a broadcast for the native trace receiver, over either transport, the process keeps running, its tracing configuration is unchanged unless the request was a well-formed change, and well-formed requests are still answered correctly afterwards. "
 "An endpoint whose handler throws does not take the process, the transport or other endpoints down.",
 ['inputs','histories'], "all byte strings (random, and mutations of valid requests) interleaved with valid requests",
 "The tests only send requests produced by the library's own client side.",
 [G+'src/endpoint_introspect.cpp', G+'src/endpoint_process_info.cpp', R+'src/endpoint_trace_mapping.cpp', R+'src/endpoint_trace_configurator.cpp', R+'src/native/native_trace_source.cpp', T+'src/transport_unix.cpp', T+'src/transport_loopback.cpp'],
 [('request parsing in each handle()', G+'src/endpoint_process_info.cpp'), ('worker thread that calls handle()', T+'src/transport_unix.cpp')],
 ['survival of the process', 'answers to later requests', 'TraceConfigurator state'])

prop('C06', 'Discovery lists exactly the live servers and its results can be connected to',
 "Discovering over a transport yields a destination for every server that is being served at that time and for none whose server is gone, independent of how many clients are connected and of unrelated sockets on the host. "
 "Connecting to a discovered destination reaches that very server, a server's own address equals the destination discovered for it, and destinations have equal hash codes exactly when they denote the same server.",
 ['histories','configurations'], "all histories of processes starting and stopping servers (orderly or killed), clients connecting and leaving, and foreign sockets being bound",
 "The tests look for a single server in a single process.",
 [T+'src/transport_unix.cpp', T+'src/transport_loopback.cpp', I+'src/destination.cpp'],
 [('scan of /proc/net/unix for non-client entries', T+'src/transport_unix.cpp'), ('list of weak pointers to servers', T+'src/transport_loopback.cpp')],
 ['TransportFactory::discover', 'Transport::getAddress', 'Destination::hash_code'])

prop('C07', 'The endpoint manager always mirrors the live servers and their endpoints',
 "After the manager has managed, it holds exactly one connected transport per live server (none for servers that are gone, also when a server is replaced by another or a connection attempt fails), and for each of them an endpoint for exactly those names that the server offers and for which a factory is registered (and produced one; one that fails does not affect the others), created by that factory and attached to that transport. "
 "Introspection of a server returns exactly the names of the endpoints attached to it, and endpoints held by the manager keep reaching the server they were created for.",
 ['histories','fault_sequences','configurations'], "all histories of servers appearing, vanishing and adding endpoints, factories being registered, managing and polling, and connects that fail",
 "The tests manage once with one loopback server.",
 [G+'src/endpoint_manager_poll.cpp', G+'src/endpoint_introspect.cpp', I+'include_consumer/scalopus_interface/endpoint_manager.h'],
 [('manage(): clean up, discover, connect', G+'src/endpoint_manager_poll.cpp'), ('introspection of the remote', G+'src/endpoint_introspect.cpp')],
 ['EndpointManager::endpoints', 'Transport::endpoints', 'EndpointIntrospect::supported'],
 [('transports_', 'transport per destination hash', G+'include_consumer/scalopus_general/endpoint_manager_poll.h')])

prop('C08', 'Process and thread names shown are exactly the current ones',
 "The process info obtained from a process carries its process id, the last process name set, and exactly one entry per live thread that has named itself, with the last name it gave; a thread that ended leaves no entry, and a later thread that happens to reuse its id does not inherit its name. "
 "The metadata events produced for a recording contain exactly one process_name event per connected process and one thread_name event per live thread that has named itself of it, with those names.",
 ['histories','inputs','schedules'], "all histories of threads starting, naming themselves once or repeatedly, and ending, with any (UTF-8) names, in any number of processes",
 "The tests name one thread once.",
 [G+'src/thread_name_tracker.cpp', G+'include/scalopus_general/map_tracker.h', G+'src/endpoint_process_info.cpp', G+'src/general_source.cpp', G+'src/general_provider.cpp'],
 [('destructor callback erases a thread on exit', G+'src/thread_name_tracker.cpp'), ('BSON exchange of process info', G+'src/endpoint_process_info.cpp'), ('metadata events', G+'src/general_source.cpp')],
 ['EndpointProcessInfo::processInfo', 'GeneralSource::finishInterval'])

prop('C09', 'Trace ids resolve to the right name for the right process',
 "The trace mapping obtained from a process contains, under its process id, exactly the ids registered in that process with their last registered name, and a consumer connected to several processes resolves each (process, id) pair to the name registered in that process, or to \"Unknown 0x<id in hex>\" when that process registered none. "
 "A counter's registered name is split at its separator into the counter name and the series name, where a counter without a series name uses the series \"count\".",
 ['inputs','histories','configurations'], "all sets of ids and (UTF-8) names, any number of connected processes with overlapping ids, connecting and leaving",
 "The tests register one or two names in one process.",
 [R+'src/endpoint_trace_mapping.cpp', R+'src/scope_tracing_provider.cpp', R+'src/static_string_tracker.cpp', G+'include/scalopus_general/map_tracker.h'],
 [('id to string map', R+'src/static_string_tracker.cpp'), ('mapping request', R+'src/endpoint_trace_mapping.cpp'), ('merge over processes and lookup', R+'src/scope_tracing_provider.cpp')],
 ['EndpointTraceMapping::mapping', 'ScopeTracingProvider::getMapping/getScopeName/splitCounterSeriesName'])

prop('C10', 'Tracing state is per process and per thread, and is restored on scope exit',
 "The process state and each thread's state behave as independent switches that start enabled: setting one returns its previous value and affects only it, a scoped change is undone when its scope ends, in nested order and whether it ends normally or by exception, and a thread that reuses the id of an ended thread starts enabled. "
 "A remote state change applies exactly the process state (only if asked to) and the states of the listed threads that exist, and both remote calls report the resulting state of the process and of all its known live threads.",
 ['histories','schedules','inputs'], "all histories of local sets, nested scoped changes, threads starting and ending, and remote gets and sets with any subset of known and unknown thread ids",
 "The tests toggle a handful of fixed states in one thread.",
 [R+'src/trace_configurator.cpp', R+'src/trace_configuration_raii.cpp', R+'src/endpoint_trace_configurator.cpp'],
 [('process flag and per thread flags', R+'src/trace_configurator.cpp'), ('RAII restore of the previous state', R+'src/trace_configuration_raii.cpp'), ('remote get/set', R+'src/endpoint_trace_configurator.cpp')],
 ['TraceConfigurator getters', 'EndpointTraceConfigurator::getTraceState/setTraceState'])

prop('C11', 'A tracepoint is emitted if and only if process and thread are enabled',
 "With the native and the LTTng backend, every scope entry, scope exit, marker and counter executed while both the process and the executing thread are enabled emits exactly one event with its kind, id and value, and one executed while either is disabled emits none, for every order of toggles, remote toggles included, in every thread. "
 "With the no-operation backend no tracepoint ever emits anything.",
 ['histories','schedules'], "all interleavings of tracepoints of all kinds with local, scoped and remote toggles of the process and of any thread",
 "The tests check one toggle sequence for scope events of one thread.",
 [R+'src/native/native_tracepoint.cpp', R+'src/lttng/lttng_tracepoint.cpp', R+'src/nop/nop_tracepoint.cpp', R+'src/nop/scope_tracepoint_nop.cpp'],
 [('gate on process and thread flag before the push / tracepoint', R+'src/native/native_tracepoint.cpp'), ('same gate', R+'src/lttng/lttng_tracepoint.cpp')],
 ['broadcast of the native trace sender', 'LTTng probe callbacks'])

prop('C12', 'The event ring buffer is a lossless bounded FIFO',
 "The single producer, single consumer ring buffer delivers exactly the elements whose insertion was accepted, once each, unmodified and in order, whether taken one by one or in bulk; insertion is refused (changing nothing) exactly when one less than its storage size is held, and removal exactly when it is empty. "
 "With one producer and one consumer running concurrently there are no data races, no element is lost, duplicated, reordered or torn, and the reported size never exceeds the capacity.",
 ['histories','schedules'], "all operation sequences, capacities, wrap-arounds and element types (move-only included), and all interleavings of one producer with one consumer",
 "The tests check a few fixed sequences on small buffers and one concurrent run.",
 [R+'src/spsc_ringbuffer.h'],
 [('acquire/release read and write indices, one slot kept empty', R+'src/spsc_ringbuffer.h')],
 ['SPSCRingBuffer public methods'],
 [('read_index_, write_index_', 'positions of next read and next write', R+'src/spsc_ringbuffer.h')])

prop('C13', 'Trace macros emit properly nested, correctly named events',
 "In any program built with the trace macros, each executed macro emits exactly the event it documents: a scope macro one entry when reached and one exit with the same id when its scope ends (by return, break or exception included), start and end of the same name in the same file the same id, a marker its level, a counter its value. "
 "Every emitted id is registered with the macro's name from its first execution on, ids are those documented (CRC-32 of the file name plus line, or plus CRC-32 of the name), and distinct lines of one file never share a scope id.",
 ['programs','inputs'], "all programs using the macros: nesting, recursion, loops, early exits, exceptions, several macros, files and threads",
 "The tests only use a few macros in one function and mostly check that they compile.",
 [R+'include/scalopus_tracing/trace_macro.h', R+'include/scalopus_tracing/internal/trace_macro.h', R+'include/scalopus_tracing/internal/compile_time_crc.hpp', R+'src/scope_trace_raii.cpp'],
 [('compile time id', R+'include/scalopus_tracing/internal/trace_macro.h'), ('RAII entry/exit', R+'src/scope_trace_raii.cpp')],
 ['calls into the backend functions', 'StaticStringTracker map'])

prop('C14', 'A babeltrace line is parsed faithfully, any other line harmlessly',
 "For every event line in babeltrace's text format, the parsed event carries exactly the time, domain, name, and every integer of the stream context, event context and payload that the line states (negative ones included, as their two's complement), also when contexts are empty or contain strings. "
 "For every other string parsing neither throws nor reads out of bounds, and yields an event that reports no data that is not in the line.",
 ['inputs'], "all event lines of the format and all byte strings",
 "The tests parse a few fixed lines.",
 [R+'src/lttng/ctfevent.cpp', R+'include_consumer/scalopus_tracing/ctfevent.h', R+'src/lttng/babeltrace_parser.cpp'],
 [('substring based parser', R+'src/lttng/ctfevent.cpp')],
 ['CTFEvent getters'])

prop('C15', 'LTTng recordings contain exactly the interval\'s events, converted faithfully',
 "A recording made from LTTng output consists of exactly the scalopus events read between the start and the stop of that recording, each converted to one trace event with its time in microseconds, process, thread, resolved name, phase and scope level, ordered by time with equal times in reading order. "
 "Counter events carry, per process and counter, the latest value of every series of that counter in time order (series not seen yet take their first later value). "
 "Other or malformed lines in the output never abort the recording or affect the remaining events, and concurrent recordings do not affect each other.",
 ['inputs','histories','schedules'], "all streams of event and non-event lines, and all interleavings of recordings with them",
 "No test reaches the LTTng source; it needs a babeltrace process.",
 [R+'src/lttng/lttng_source.cpp', R+'src/lttng/babeltrace_parser.cpp', R+'src/lttng/babeltrace_tool.cpp', R+'src/lttng/lttng_provider.cpp'],
 [('callbacks registered during an interval', R+'src/lttng/babeltrace_parser.cpp'), ('conversion', R+'src/lttng/lttng_source.cpp')],
 ['TraceEventSource::finishInterval'])

prop('C16', 'Native tracing delivers every event exactly once, in order, also at thread exit',
 "Every tracepoint executed with the native backend while the thread's buffer has room is transmitted to every connected consumer exactly once, attributed to the executing process and thread, with its kind, id, value and a timestamp taken when it executed, and the events of a thread arrive in the order in which they were executed. "
 "This includes events of threads that have ended or whose id was reused, and tracing from any number of threads at once.",
 ['schedules','histories'], "all programs of any number of threads starting, tracing and ending in any order relative to the transmissions, up to the per thread buffer capacity between transmissions",
 "The tests trace a fixed small sequence from one or two threads; the native backend is not even built in the reference configuration.",
 [R+'src/native/native_tracepoint.cpp', R+'src/native/tracepoint_collector_native.cpp', R+'src/native/endpoint_native_trace_sender.cpp', R+'src/spsc_ringbuffer.h'],
 [('ring buffer per thread, orphan list at thread exit', R+'src/native/tracepoint_collector_native.cpp'), ('sender thread drains all buffers', R+'src/native/endpoint_native_trace_sender.cpp')],
 ['broadcasts to native_trace_receiver', 'NativeTraceSource::finishInterval'])

prop('C17', 'Native recordings contain exactly the interval\'s events, converted faithfully',
 "A native recording consists of exactly the events received between the start and the stop of that recording, each converted to one trace event with its time in microseconds, process, thread, resolved name, phase and scope level, ordered by time with equal times in arrival order. "
 "Counter events carry, per process and counter, the latest value of every series of that counter in time order (series not seen yet take their first later value), also for negative and extreme values. "
 "Malformed data from one process neither aborts the recording nor affects the events of others, concurrent recordings do not affect each other, and a recording can be restarted, stopped twice, or dropped at any time.",
 ['inputs','histories','schedules'], "all sequences of received event batches from several processes (valid and corrupted) interleaved with the life cycle of any number of recordings",
 "The tests check one recording with a handful of events of one process, and are not built in the reference configuration.",
 [R+'src/native/native_trace_source.cpp', R+'src/native/native_trace_provider.cpp', R+'src/native/endpoint_native_trace_receiver.cpp'],
 [('batches stored while recording', R+'src/native/native_trace_provider.cpp'), ('conversion', R+'src/native/native_trace_source.cpp')],
 ['TraceEventSource::finishInterval'])

prop('C18', 'The trace viewer session answers the protocol and transmits every event once',
 "Every well-formed tracing request of a connected viewer is answered, in order, with one result that repeats its id; starting starts the interval of every source of that viewer, and ending stops them all and then transmits, in valid JSON chunks of at most 1000 events, exactly the events the sources yielded, once each and in order, followed by exactly one completion message. "
 "Any other message (malformed JSON, other JSON values, unknown or missing methods, binary data) is ignored: the session, the process and later requests are unaffected. The sources are given regular work while the viewer is connected, one call at a time. "
 "Text that is not valid UTF-8 in an event does not prevent the transmission of the other events, and a source that fails (throws an exception) only loses its own.",
 ['histories','inputs'], "all message sequences (valid, unknown, malformed) and all event lists, of any size around the chunk limit",
 "No test covers the catapult component at all.",
 [C+'src/trace_session.cpp', C+'src/catapult_backend.cpp'],
 [('message queue and worker', C+'src/trace_session.cpp'), ('chunked transmission', C+'src/trace_session.cpp')],
 ['messages sent to the websocket', 'calls on the sources'])

prop('C19', "The recorder yields exactly the recorded interval's events, in any life cycle",
 "For every order of adding providers, starting, starting and stopping intervals, collecting, stopping and destroying, the recorder returns or writes a valid JSON array with exactly the events its sources yielded, in order, creates one source per provider each time it is started, gives its sources regular work while running, one call at a time, and writes the configured dump file on destruction. "
 "No order of calls terminates or blocks the process, and text that is not valid UTF-8 or a source that fails (throws an exception) does not prevent the other events from being written.",
 ['histories','inputs'], "all sequences of recorder calls and all event lists",
 "No test covers the catapult component at all.",
 [C+'src/catapult_recorder.cpp'],
 [('source list, worker thread, JSON formatting', C+'src/catapult_recorder.cpp')],
 ['CatapultRecorder::collectEvents', 'written files', 'calls on the sources'])

prop('C20', 'Each connected viewer has its own independent session on the served port',
 "The catapult server listens on the port it was asked to use, serves its version and target description as valid JSON, and gives every connected viewer its own session with one fresh source per provider; messages of one viewer only affect and are only answered to that viewer, in order. "
 "A viewer that leaves at any point, also with answers still queued, has its sources released, receives nothing further and affects no other viewer, a later viewer (also one at the same address) starts afresh, and the server can be destroyed at any time.",
 ['histories','schedules','configurations'], "all interleavings of viewers connecting, sending, leaving and reconnecting, with providers and ports of any number",
 "No test covers the catapult component at all.",
 [C+'src/catapult_backend.cpp', C+'src/catapult_server.cpp', C+'src/scalopus_catapult_server.cpp'],
 [('session map keyed by websocket', C+'src/catapult_backend.cpp'), ('executor on the server thread', C+'src/catapult_server.cpp')],
 ['messages per websocket', 'source life times', 'port passed to the web server'])

prop('C21', 'The Python helpers emit balanced, correctly named events and restore state',
 "In any Python program using the scalopus module, a trace context or traced function emits exactly one entry and, however it is left (normally or by exception), exactly one exit with the same id, passes arguments, results, exceptions and function metadata through unchanged, and registers its name for that id; the attribute-style helper traces under its prefix followed by the name used, and distinct names never share an id. "
 "Suppression of tracing holds exactly within its scope or decorated function, also when nested, recursive, or used from several threads, and the state found on entry is restored on exit.",
 ['programs','histories','schedules'], "all nestings of contexts, decorated functions, recursion, exceptions and suppression, in any number of threads",
 "The Python tests need the compiled bindings, which cannot be built here, and use a few fixed sequences.",
 [Y+'scalopus/tracing.py', Y+'scalopus/general.py'],
 [('context managers and decorators', Y+'scalopus/tracing.py'), ('a new id for each context', Y+'scalopus/tracing.py')],
 ['calls into the bindings'])

prop('C22', 'The babeltrace viewer process is started, consumed and ended cleanly',
 "For every kind of viewer program (absent, failing at once, producing any output at any pace, never ending, closing its output early) creating, using and destroying the LTTng provider never terminates, clones or hangs the host process, leaves no child process behind and leaks no descriptors. "
 "A session name is viewed through lttng and a path containing a slash directly through babeltrace, with the documented arguments, and each line the viewer writes is delivered once and in order to every recording that is active when it is read and to none that has been stopped.",
 ['fault_sequences','histories','schedules'], "all viewer behaviours and all points at which recordings start, stop and the provider is destroyed",
 "No test starts a viewer process.",
 [R+'src/lttng/babeltrace_tool.cpp', R+'src/lttng/babeltrace_parser.cpp', R+'include_consumer/scalopus_tracing/subprocess.hpp', R+'src/lttng/lttng_provider.cpp'],
 [('fork/exec with pipes', R+'include_consumer/scalopus_tracing/subprocess.hpp'), ('parser worker thread', R+'src/lttng/babeltrace_tool.cpp')],
 ['child processes and descriptors of the host', 'arguments seen by the viewer', 'callbacks'])

prop('C23', 'The public API is free of data races and deadlocks under concurrent use',
 "Transports, endpoints, managers, registries, trace configuration, tracepoints and recordings can be used from several threads at once (requesting, broadcasting, adding endpoints, naming threads, tracing, toggling, starting and finishing recordings, querying state, servers and clients coming and going) without data races, deadlocks or use of freed memory. "
 "An endpoint that itself uses its transport from within a callback does not deadlock it.",
 ['schedules','histories'], "all interleavings of public operations of several threads on shared transports, managers, registries and sources",
 "The tests are single threaded apart from the transport's own worker, and are run without a race detector.",
 [T+'src/transport_unix.cpp', T+'src/transport_loopback.cpp', I+'src/transport.cpp', G+'src/endpoint_manager_poll.cpp', G+'include/scalopus_general/map_tracker.h', R+'src/trace_configurator.cpp', R+'src/native/tracepoint_collector_native.cpp', C+'src/trace_session.cpp'],
 [('mutexes and atomics around shared state', T+'src/transport_unix.cpp')],
 ['ThreadSanitizer reports', 'completion of every operation'])

prop('C24', 'JSON values cross the Python binding unchanged',
 "Every JSON value (integers over the whole signed and unsigned 64 bit range, finite numbers, any text, nested arrays and objects) becomes in Python exactly the value that Python's own JSON parser makes of it, and back it is the same JSON. "
 "Python values made of None, booleans, integers, floats, texts, sequences, sets and dictionaries (also of derived classes) become the JSON that they denote. "
 "A value that contains a dictionary with a key that is not a text, or an integer outside of 64 bits, is rejected with an exception, wherever it is nested. No conversion keeps or loses references.",
 ['inputs'], "all JSON values and Python objects of these types",
 "The tests convert a fixed list of values.",
 [Y+'lib/json_util.cpp', Y+'lib/json_util.h'],
 [('recursive conversion', Y+'lib/json_util.cpp')],
 ['scalopus_python_lib conversions'])

prop('C25', 'The Python command line tools report and change exactly what was asked for',
 "Whatever processes are found, offering whichever endpoints and answering or not: discover lists every process that identifies itself, once, with all its endpoints and threads; trace_configure sets exactly the processes and threads whose ids are given to the requested state, the other processes only if asked to and then to the state asked for; catapult_server serves every provider on the requested port; record writes a valid JSON array with every event of its sources. "
 "A weak provider factory makes endpoints while its provider lives, none after, and does not keep it alive.",
 ['inputs','configurations'], "all command lines, sets of processes, endpoints, threads and recorded events",
 "No test runs the tools.",
 [Y+'scalopus/__main__.py', Y+'scalopus/general.py'],
 [('command functions', Y+'scalopus/__main__.py'), ('weak factory', Y+'scalopus/general.py')],
 ['standard output', 'calls into the bindings'])

prop('C26', 'A recording of running programs is what they did while it was recorded',
 "For programs traced with the public macros and the native backend, connected to a manager over a transport, the trace a recorder yields contains every event that an enabled thread traced (and that was transmitted) between the start and the end of the interval exactly once, in the order of its thread, under its process and thread with its name, kind, scope or counter value, and no event traced outside the interval or while disabled, by whichever process, thread, or side it was disabled. "
 "Processes that appear are picked up while recording, processes that end do not lose what they sent and do not disturb the others, and the running processes and their named threads are named, by the same ids as the events, with their current names.",
 ['histories','schedules','configurations','fault_sequences'], "all programs of several processes and threads (that come and go), all orders of intervals, remote and local toggles, processes appearing and ending (orderly or killed), and collecting, over both transports",
 "The tests exercise the parts with fixed values; nothing runs them together.",
 [R+'include/scalopus_tracing/trace_macro.h', R+'src/native/endpoint_native_trace_sender.cpp', R+'src/native/native_trace_provider.cpp', R+'src/native/native_trace_source.cpp', G+'src/endpoint_manager_poll.cpp', G+'src/general_source.cpp', C+'src/catapult_recorder.cpp', T+'src/transport_unix.cpp', T+'src/transport_loopback.cpp'],
 [('macros', R+'include/scalopus_tracing/trace_macro.h'), ('events are collected and broadcast', R+'src/native/endpoint_native_trace_sender.cpp'), ('conversion', R+'src/native/native_trace_source.cpp'), ('recorder', C+'src/catapult_recorder.cpp')],
 ['CatapultRecorder::collectEvents'])

prop('C27', 'Python programs take part through the binding like C++ ones',
 "Endpoints, endpoint factories, trace providers and trace event sources written in Python are called and answered like ones in C++, over every transport: each request is handled once by the named endpoint with exactly the bytes that were sent and its answer is exactly the bytes that it returned, whichever way Python spells them (bytes, text, bytearray, lists of numbers); what is not data is refused with an exception; a handler, factory or source that raises, returns nothing or returns nonsense yields no answer, endpoint or events and disturbs nobody else. "
 "A Python object lives as long as C++ uses it, also if Python has dropped it, and is released afterwards, in whichever order and on whichever thread transports, managers and sessions go. "
 "No call blocks for ever because of other Python threads, and no thread touches the interpreter without holding its lock. "
 "The tracing state, its registries and its endpoints report and set in Python exactly what they do in C++, here and from afar.",
 ['inputs','histories','schedules'], "all Python programs of endpoints, factories, providers, sources and tracing calls by several threads, and all orders of dropping the objects",
 "The tests of the binding make a few fixed calls on one thread.",
 [Y+'lib/scalopus_interface.cpp', Y+'lib/scalopus_interface.h', Y+'lib/scalopus_transport.cpp', Y+'lib/scalopus_general.cpp', Y+'lib/scalopus_tracing.cpp', Y+'lib/scalopus_catapult.cpp'],
 [('trampolines and conversions of data', Y+'lib/scalopus_interface.cpp'), ('factories', Y+'lib/scalopus_general.cpp'), ('providers and sources', Y+'lib/scalopus_catapult.cpp'), ('tracing', Y+'lib/scalopus_tracing.cpp')],
 ['scalopus_python_lib module'])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P))
