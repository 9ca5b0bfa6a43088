"""The properties' campaigns: which harness, build variant, budget."""

import macro_gen
import py_campaign

CPP = 'pbt: choice-tape generators, shrinking by tape edits'


def camp(name, target, variant='asan', quick=(2000, 20), thorough=(200000, 600), workers=8, **kw):
    d = {'name': name, 'target': target, 'variant': variant,
         'quick': {'cases': quick[0], 'seconds': quick[1], 'workers': workers},
         'thorough': {'cases': thorough[0], 'seconds': thorough[1], 'workers': workers}}
    d.update(kw)
    return d


PROPS = {}

PROPS['C12'] = {
    'rule': 'A sequential case is a storage (vector or array, 1..200 slots) and a history of push, pop, pop_into, size and '
            'empty calls over move-only elements, compared with a bounded queue; non-trivial if an insertion was refused and '
            'indices wrapped. A concurrent case is one producer and one consumer thread under ThreadSanitizer; every one is '
            'non-trivial.',
    'assumptions': ['one producer, one consumer', 'ThreadSanitizer models the C++ memory order of the schedules that occurred'],
    'campaigns': [
        camp('model', 'h_ring', 'asan', (40000, 25), (3000000, 300)),
        camp('threads', 'h_ring', 'tsan', (4000, 30), (200000, 300), workers=4, env={'VERIF_CONCURRENT': '1'}),
    ],
}

PROPS['C01'] = {
    'rule': 'A case is a transport, endpoints (names of 0..65535 bytes; echoing, growing, declining), clients, and per thread a '
            'history of requests (payloads up to megabytes), awaits in any order and drops, run under short reads, delays and '
            'signals; non-trivial if at least three requests are made over more than one thread or client.',
    'assumptions': ['liveness is judged with a 15 s limit and must reproduce'],
    'campaigns': [
        camp('histories', 'h_request', 'asan', (3000, 45), (200000, 900)),
    ],
}

PROPS['C02'] = {
    'rule': 'A case is a raw socket peer (client or server side) that sends generated messages in generated fragments, possibly '
            'ending inside a message; non-trivial if two or more messages are sent and message and write boundaries differ or '
            'the stream is truncated.',
    'assumptions': ['liveness is judged with a 15 s limit and must reproduce'],
    'campaigns': [
        camp('streams', 'h_wire', 'asan', (6000, 45), (400000, 900)),
    ],
}

PROPS['C03'] = {
    'rule': 'A case is a transport, clients with subsets of the endpoints that stay, leave, join or are raw sockets, and threads '
            'broadcasting generated payloads while requests are made; non-trivial if at least two broadcasts are made to more '
            'than one client.',
    'assumptions': ['liveness is judged with a 15 s limit and must reproduce',
                    'at most 12 answered broadcasts per case: the transports write blocking, so that unboundedly many answers '
                    'in flight in both directions can fill both socket buffers'],
    'campaigns': [
        camp('histories', 'h_broadcast', 'asan', (3000, 45), (200000, 900)),
    ],
}

PROPS['C04'] = {
    'rule': 'A case is one of: a history of serving, connecting (also to what is gone, of another kind, or without descriptors '
            'left) and leaving; a server process killed, destroyed or ended at a generated time with requests outstanding; '
            'clients that are killed, close inside a message or are destroyed while others are served, with every freed '
            'descriptor number reused at once; destruction of all transports in a generated order with requests and '
            'broadcasts outstanding. Server loss is non-trivial if requests were outstanding, the others always.',
    'level': 'fault_enumeration',
    'assumptions': ['liveness is judged with a 15 s limit and must reproduce'],
    'campaigns': [
        camp('faults', 'h_peer', 'asan', (3000, 60), (100000, 900)),
    ],
}

PROPS['C14'] = {
    'rule': 'A case is an event line with generated time, names and contexts (integers in decimal, negative and hexadecimal '
            'notation, quoted strings that contain separators and braces, floats, empty contexts), or a mutilated event line, or '
            'a string of separators and bytes. Event lines are non-trivial with at least one integer, other lines if longer '
            'than three bytes; distinct by text.',
    'assumptions': ['flat contexts (no nested structures or arrays), as scalopus tracepoints and lttng contexts have',
                    'a NUL byte ends no line'],
    'campaigns': [
        camp('lines', 'h_ctf', 'asan', (400000, 25), (40000000, 600)),
    ],
}

PROPS['C10'] = {
    'rule': 'A case is a history of threads starting, ending, setting and getting states, nested scopes (left normally or by '
            'exception) and remote get and set calls over unix, loopback or directly, compared after every step with a model of '
            'independent switches; non-trivial with at least one local and one remote operation.',
    'assumptions': ['one operation at a time (concurrent use is C23)'],
    'campaigns': [
        camp('histories', 'h_config', 'asan', (20000, 25), (1000000, 600)),
    ],
}

PROPS['C09'] = {
    'rule': 'A case is a history of registrations in this and up to four other (simulated) processes, of which some are gone, '
            'silent or answer nonsense, with the mapping obtained over unix, loopback or directly and names resolved by a '
            'consumer; or a counter name to split. Histories are non-trivial if something registered was asked for.',
    'assumptions': ['other processes are stand-ins that answer with the documented encoding of their mapping'],
    'campaigns': [
        camp('histories', 'h_mapping', 'asan', (20000, 25), (1000000, 600)),
    ],
}

PROPS['C08'] = {
    'rule': 'A case is a history of threads starting, naming themselves (call or macro), being renamed and ending, the process '
            'being renamed, and other (simulated) processes of which some are gone, silent or answer nonsense; process info and '
            'metadata events are compared with a model; non-trivial if asked while a thread is named or after one ended.',
    'assumptions': ['other processes are stand-ins that answer with the documented encoding of their info',
                    'threads name themselves (entries set by other threads for an id are the caller\'s)'],
    'campaigns': [
        camp('histories', 'h_procinfo', 'asan', (12000, 25), (600000, 600)),
    ],
}

PROPS['C06'] = {
    'rule': 'A case is a history of server processes starting and ending (killed, destroyed, exited), clients (also raw sockets) '
            'joining and leaving, and unrelated sockets with resembling names, or of loopback servers; each discovery is '
            'compared with the live servers of the case and one result is connected to; non-trivial with at least one discovery.',
    'assumptions': ['several destinations for one server are taken as one (a server is listed once per connection)',
                    'hash codes are compared between live servers; processes of this case only, others on the host are ignored'],
    'campaigns': [
        camp('histories', 'h_discover', 'asan', (3000, 30), (100000, 600)),
    ],
}

PROPS['C07'] = {
    'rule': 'A case is a history of servers (scripted transports, or real loopback servers, or server processes) starting, ending, being replaced under '
            'the same address, refusing connections, dying or answering nonsense while asked, listed several times, connections '
            'breaking, with the manager managing explicitly or polling; after each the transports and endpoints held are '
            'compared with the live servers. Non-trivial if compared after a connection was made.',
    'assumptions': ['factories are registered before the servers start, endpoints are attached before the manager connects',
                    'a server that does not answer the introspection request within its 200 ms is out of scope'],
    'campaigns': [
        camp('histories', 'h_manager', 'asan', (40000, 25), (2000000, 600)),
    ],
}

PROPS['C05'] = {
    'rule': 'A case is a sequence of messages to the built-in endpoints (arbitrary bytes, mutated encodings, encodings of other '
            'values, deep nesting) and broadcasts to the native trace receiver, over unix, loopback or directly, followed each '
            'time by well-formed requests; non-trivial if at least one message is no well-formed change of the configuration.',
    'assumptions': ['messages of which it is debatable whether they are well-formed (ids that are not unsigned integers, listed '
                    'twice, or with surplus elements) may be applied or not'],
    'campaigns': [
        camp('messages', 'h_endpoints', 'asan', (200000, 25), (5000000, 600)),
    ],
}

PROPS['C22'] = {
    'rule': 'A case is a history of one or two tools (or providers) whose viewer is absent, fails, is told what to write in '
            'which pieces (long lines, any bytes, error output), closes its output, exits, is killed, stopped or ignores '
            'signals, with recordings starting and stopping in between and creation and destruction at any point, also with '
            'failing system calls; non-trivial if lines were delivered to recordings or a viewer was unusual.',
    'assumptions': ['viewers are stand-ins found through PATH', 'lines hold no newline, the last one may be incomplete'],
    'campaigns': [
        camp('histories', 'h_viewer', 'asan', (20000, 25), (1000000, 600)),
    ],
}

PROPS['C15'] = {
    'rule': 'A case is a set of processes with generated mappings, a history of batches of lines written by a stand-in for the '
            'viewer (events of all kinds and values, in and out of time order, other events, malformed lines) and of up to four '
            'recordings being started, stopped, finished, restarted and dropped, settled or not; each finished recording is '
            'compared with a reference conversion; non-trivial if a recording with two or more events is compared.',
    'assumptions': ['counter names do not contain more than one separator', 'times are equal or a microsecond or more apart',
                    'liveness is judged with a 15 s limit and must reproduce'],
    'campaigns': [
        camp('histories', 'h_lttng', 'asan', (60000, 30), (1000000, 600)),
    ],
}

PROPS['C11'] = {
    'rule': 'A case is a history over up to four threads (starting, ending, reusing ids) of tracepoints of every kind with the '
            'native, LTTng and no-operation backend, scope objects, and local, scoped and remote toggles of process and threads, '
            'executed one after the other; what each thread emitted (native: decoded transmissions, LTTng: probes registered '
            'for the tracepoints) is compared with a model of the switches; non-trivial if tracepoints were executed both '
            'enabled and disabled.',
    'assumptions': ['remote changes only name threads that certainly are, or certainly are not, known to the configuration',
                    'what LTTng does with an event it is handed is LTTng\'s'],
    'campaigns': [
        camp('histories', 'h_tracepoint', 'asan', (30000, 30), (1000000, 600)),
    ],
}

PROPS['C16'] = {
    'rule': 'A case is a transport, one to three clients, and phases of chains of threads that run at once, each executing '
            'generated bursts of native tracepoints with pauses and ending, settled in between or not, a client possibly leaving; '
            'what every client received is compared with what was executed; non-trivial if ten or more events of two or more '
            'threads were executed.',
    'assumptions': ['a thread executes less than its buffer holds', 'the cbor library is replaced by a minimal one (shims/cbor), '
                    'as it is not available; the messages are decoded by an independent decoder',
                    'liveness is judged with a 15 s limit and must reproduce'],
    'campaigns': [
        camp('histories', 'h_native', 'asan', (6000, 30), (300000, 600)),
    ],
}

PROPS['C17'] = {
    'rule': 'A case is a set of processes with generated mappings and a history of messages arriving at one to three receivers '
            '(events of all kinds, in and out of time order, in one or several threads, or corrupted) and of up to four recordings '
            'being started, stopped, finished, restarted, dropped or outliving their provider; each finished recording is '
            'compared with a reference conversion; non-trivial if a recording with two or more events is compared.',
    'assumptions': ['counter names do not contain more than one separator', 'times are equal or a microsecond or more apart',
                    'the cbor library is replaced by a minimal one (shims/cbor), as it is not available; the messages are encoded '
                    'by an independent encoder'],
    'campaigns': [
        camp('histories', 'h_recnative', 'asan', (150000, 25), (5000000, 600)),
    ],
}

PROPS['C13'] = {
    'rule': 'A case is a generated program (functions, templates, methods and lambdas over several files and #line sections; '
            'macros in nested blocks, loops, branches, recursion, constructors and destructors, left by return, break and '
            'exceptions; one or several threads), compiled, run and compared with an interpreter; non-trivial if it emits at '
            'least five events of three kinds and has an early exit, an exception, a call or several threads.',
    'assumptions': ['programs are compiled with the compiler and the language standard of the reference build'],
    'campaigns': [
        {'name': 'programs', 'variant': 'asan', 'extra_targets': ['scalopus_scope_tracing'],
         'python': macro_gen.make('asan', (64, 40), (4000, 900), False), 'python_replay': macro_gen.replay},
        {'name': 'threads', 'variant': 'tsan', 'extra_targets': ['scalopus_scope_tracing'],
         'python': macro_gen.make('tsan', (32, 30), (2000, 600), True), 'python_replay': macro_gen.replay},
    ],
}

PROPS['C21'] = {
    'rule': 'A case is a program of nested trace contexts (of every kind, new and shared), decorated functions, switchers, '
            'recursion, exceptions, markers and counters in one to three threads, and a schedule that says which thread goes on '
            'at each call into the bindings; non-trivial if at least six events are expected and several threads or features '
            'are involved.',
    'assumptions': ['the compiled bindings are replaced with a stand-in of the same interface: threads switch at calls into it'],
    'campaigns': [
        {'name': 'helpers', 'python': py_campaign.make('C21', 'helpers', (20000, 35), (2000000, 900)), 'python_replay': py_campaign.make_replay('C21', 'helpers')},
    ],
}

PROPS['C25'] = {
    'rule': 'A case is a command line and a set of processes (any subset of endpoints, any threads, unresponsive ones), lists of '
            'recorded events, or a history of uses of a weak factory; non-trivial if more than one process, an id to change, or '
            'a whole recording is involved.',
    'assumptions': ['the compiled bindings are replaced with a stand-in of the same interface'],
    'campaigns': [
        {'name': 'tools', 'python': py_campaign.make('C25', 'tools', (20000, 20), (1000000, 300)), 'python_replay': py_campaign.make_replay('C25', 'tools')},
    ],
}

PROPS['C18'] = {
    'rule': 'A case is a set of providers with generated batches of events (around the limit of a chunk, with any text) and a '
            'sequence of messages to one session (requests with ids of several types, unknown methods, malformed or foreign '
            'JSON, binary data), in generated bursts; the messages received are parsed and compared with a model; non-trivial '
            'if there is a source, a recording is ended and at least three messages are sent.',
    'assumptions': ['the web server library is replaced by a stand-in that runs the handlers on a thread as the real one does'],
    'campaigns': [
        camp('session', 'h_catapult', 'asan', (20000, 30), (1000000, 600), env={'VERIF_MODE': 'session'}),
    ],
}

PROPS['C19'] = {
    'rule': 'A case is a sequence of up to fourteen calls of a recorder (adding providers, starting, starting and stopping '
            'intervals, collecting, writing, stopping, setting the dump file) followed by its destruction, with generated '
            'events; what is returned and written is compared with a model; non-trivial if events of a source are collected.',
    'assumptions': [],
    'campaigns': [
        camp('calls', 'h_recorder', 'asan', (100000, 25), (3000000, 600)),
    ],
}

PROPS['C20'] = {
    'rule': 'A case is a server with generated providers, port and page requests, and a history of up to three viewers '
            'connecting, asking, leaving (also while a recording is being finished), coming back at the same address, and of '
            'the server being destroyed; non-trivial if two viewers lived and three requests were made. A second campaign '
            'runs under ThreadSanitizer, a third starts the executable with generated arguments.',
    'assumptions': ['the web server library is replaced by a stand-in that runs the handlers on a thread as the real one does, '
                    'and disconnects its viewers when its loop ends'],
    'campaigns': [
        camp('viewers', 'h_catapult', 'asan', (20000, 25), (1000000, 600), env={'VERIF_MODE': 'viewers'}),
        camp('threads', 'h_catapult', 'tsan', (4000, 20), (300000, 300), env={'VERIF_MODE': 'viewers'}),
        camp('executable', 'h_catexe', 'asan', (200, 10), (5000, 120)),
    ],
}

PROPS['C23'] = {
    'rule': 'A case is a world (transports with servers and clients coming and going; a manager with its endpoints, registries '
            'and the trace configuration; tracepoints, their transmission and recordings; a recorder; lttng recordings) and '
            'a generated program for each of two to four threads, run at once under ThreadSanitizer or AddressSanitizer; every '
            'case is non-trivial.',
    'assumptions': ['ThreadSanitizer models the C++ memory order of the schedules that occurred',
                    'loggers are set before what they log is used; polling is started and stopped by one thread; a source is '
                    'used by one thread at a time'],
    'campaigns': [
        camp('races', 'h_threads', 'tsan', (4000, 45), (300000, 900)),
        camp('lifetimes', 'h_threads', 'asan', (4000, 15), (300000, 300)),
    ],
}

PROPS['C26'] = {
    'rule': 'A case is a set of traced processes (with the programs of their threads: macros of all kinds, names, local '
            'toggles) and a history of the recording side (intervals, phases of the programs, remote toggles, processes that '
            'appear and end, collecting), over the unix transport or within one process; non-trivial if at least one traced '
            'event was in a recording.',
    'assumptions': ['events are transmitted in the order of their ring buffers: what was traced before a sentinel that '
                    'arrived has arrived (decided by C16)'],
    'campaigns': [
        camp('sessions', 'h_e2e', 'asan', (4000, 35), (300000, 900)),
    ],
}

PROPS['C24'] = {
    'rule': 'A case is one JSON value (converted to Python and back), one Python value with the JSON it is (converted and '
            'back), or a Python value with something inside that has no JSON; non-trivial if it has more than two parts.',
    'assumptions': ['pybind11 is not installed: the conversion is compiled against a stand-in for the part of it that it uses, '
                    'on the real Python interpreter'],
    'campaigns': [
        camp('values', 'h_pyjson', 'asan', (400000, 20), (30000000, 600)),
    ],
}

PROPS['C27'] = {
    'rule': 'A case is a Python program on the compiled binding: endpoints in Python that answer, decline, raise or answer '
            'nonsense, and threads that make requests and broadcasts in all forms of data over either transport; a manager with '
            'factories in Python, polled while threads look at it; providers and sources in Python that C++ keeps and records; '
            'a history of the tracing state and its endpoints, here and from afar; threads that are traced with the helpers, recorded by the native provider; or viewers of a catapult server with Python providers; with other busy threads in the '
            'interpreter. Non-trivial if more than one exchange, endpoint, event or operation was judged.',
    'assumptions': ['pybind11 is not installed: the binding is compiled against a stand-in for the part of it that it uses, '
                    'on the real Python interpreter', 'liveness is judged with a 15 s limit and must reproduce'],
    'campaigns': [
        camp('programs', 'h_binding', 'asan', (6000, 40), (400000, 900)),
    ],
}

NOT_APPLICABLE = {}
