"""C27: programs that use the compiled binding, run by h_binding.cpp in an embedded interpreter.
A scenario comes as JSON, what went wrong goes back as JSON."""
import collections, gc, json, os, random, sys, threading, time, traceback, weakref

import scalopus
import verif  # made by h_binding.cpp

lib = scalopus.lib
PATIENCE = 15.0
OWN_TID = threading.get_native_id


class Bad(Exception):
    pass


class Soft(Exception):
    pass


def check(cond, text):
    if not cond:
        raise Bad(text)


def eventually(f, text):
    end = time.monotonic() + PATIENCE
    while not f():
        if time.monotonic() > end:
            raise Soft(text)
        time.sleep(0.001)


def payload(seed, size, text):
    r = random.Random(seed)
    if text:
        return ''.join(r.choice('ab \0\n\u00e9\u20ac\U0001f600"') for _ in range(size)).encode('utf-8')
    return r.randbytes(size)


FORMS = {
    'bytes': bytes,
    'bytearray': bytearray,
    'list': list,
    'str': lambda b: b.decode('utf-8'),
    'substr': lambda b: type('S', (str,), {})(b.decode('utf-8')),
    'subbytes': lambda b: type('B', (bytes,), {})(b),
}
NOT_DATA = {'none': None, 'int': 3, 'float': 1.5, 'dict': {}, 'object': object(), 'big': [256], 'negative': [-1], 'texts': ['a'], 'floats': [1.0], 'nested': [[1]]}


class Echo(scalopus.interface.Endpoint):
    def __init__(self, name, kind, form, log):
        scalopus.interface.Endpoint.__init__(self)
        self.n, self.kind, self.form, self.log = name, kind, form, log

    def getName(self):
        return self.n

    def answer(self, incoming):
        """what is answered to this, None for nothing"""
        if self.kind == 'echo':
            return incoming
        if self.kind == 'reverse':
            return incoming[::-1]
        if self.kind == 'prefix':
            return b'x' + incoming
        if self.kind == 'const':
            return b'constant'
        if self.kind == 'empty':
            return b''
        return None

    def handle(self, transport, incoming):
        self.log.append((id(transport), type(incoming), bytes(incoming)))
        if self.kind == 'raise':
            raise ValueError('no')
        if self.kind == 'exit':
            raise KeyboardInterrupt()
        if self.kind == 'bad':
            return NOT_DATA[self.form] if self.form in NOT_DATA else 3
        if self.kind == 'slow':
            time.sleep(0.003)
            return incoming
        a = self.answer(incoming)
        if a is None:
            return None
        try:
            return FORMS[self.form](a)
        except UnicodeDecodeError:
            return a

    def unsolicited(self, transport, incoming):
        self.log.append((id(transport), type(incoming), bytes(incoming)))
        if self.kind == 'raise':
            raise ValueError('no')
        return None if self.kind in ('none', 'bad') else False if self.kind == 'echo' else None


class Super(Echo):
    """asks the C++ implementations too"""

    def handle(self, transport, incoming):
        lib.interface.Endpoint.getTransport(self)
        return Echo.handle(self, transport, incoming)


class Silent(scalopus.interface.Endpoint):
    def getName(self):
        return 'silent'


def expected(kind, data):
    return {'echo': data, 'slow': data, 'reverse': data[::-1], 'prefix': b'x' + data, 'const': b'constant', 'empty': b''}.get(kind)


def wait(pending, text):
    end = time.monotonic() + PATIENCE
    while True:
        t = time.monotonic()
        r = pending.wait_for(0.5)
        if r is not None:
            return r
        check(time.monotonic() - t > 0.45, 'an answer is not awaited as long as asked for')
        if time.monotonic() > end:
            raise Soft('no answer to ' + text)


def nothing(pending, text):
    """there is no answer, and there never will be"""
    try:
        r = pending.wait_for(0.0)
    except RuntimeError:
        return
    check(r is None, '%s is answered: %r' % (text, r))


class Spinner:
    """other threads of the program that want the interpreter too"""

    def __init__(self, n):
        self.stop = False
        self.t = [threading.Thread(target=self.work) for _ in range(n)]
        for t in self.t:
            t.start()

    def work(self):
        x = []
        while not self.stop:
            x = [bytes(3 + i % 40) for i in range(200)] + [x[:1]]

    def end(self):
        self.stop = True
        for t in self.t:
            t.join()


def factory_of(kind):
    return lib.transport.TransportUnixFactory() if kind == 'unix' else lib.transport.TransportLoopbackFactory()


def connect(factory, kind):
    for _ in range(50):
        for d in factory.discover():
            if kind == 'unix' and d.hash_code() != os.getpid():
                continue
            check(str(d).startswith('<' + kind + ':'), 'a destination is ' + str(d))
            c = factory.connect(d)
            if c is not None and c.isConnected():
                return c
        time.sleep(0.02)
    raise Soft('can not connect')


# ------------------------------------------------------------------------------------------------ exchanges
def exchange(s):
    kind = s['transport']
    factory = factory_of(kind)
    server = factory.serve()
    logs, alive, kept = {}, [], []
    for e in s['endpoints']:
        logs[e['name']] = []
        ep = (Super if e.get('super') else Echo)(e['name'], e['kind'], e['form'], logs[e['name']])
        server.addEndpoint(ep)
        check(ep.getTransport() is server, 'the transport of an endpoint is not the one that it was added to')
        check(lib.interface.Endpoint.getName(ep) == e['name'], 'the name of an endpoint is ' + repr(lib.interface.Endpoint.getName(ep)))
        alive.append(weakref.ref(ep))
        if e['keep']:
            kept.append(ep)
        del ep
    server.addEndpoint(lib.general.EndpointIntrospect())
    server.addEndpoint(Silent())
    gc.collect()
    kinds = {e['name']: e['kind'] for e in s['endpoints']}
    clients, clogs = [], []
    for i in range(s['clients']):
        c = connect(factory, kind)
        log = {}
        for e in s['endpoints']:
            log[e['name']] = []
            ep = Echo(e['name'], e['kind'], e['form'], log[e['name']])
            c.addEndpoint(ep)
            alive.append(weakref.ref(ep))
            del ep
        clients.append(c)
        clogs.append(log)
    for c in clients:
        intro = lib.general.EndpointIntrospect()
        c.addEndpoint(intro)
        end = time.monotonic() + PATIENCE
        names = []
        while not names and time.monotonic() < end:
            names = intro.supported()
        if not names:
            raise Soft('the server does not tell its endpoints')
        check(sorted(names) == sorted(set(list(kinds) + ['introspect', 'silent'])), 'the server supports %r' % (names,))
    spin = Spinner(s['spin'])
    asked = {n: [] for n in kinds}
    told = {n: [] for n in kinds}
    errors, unanswered = [], []
    lock = threading.Lock()

    def work(ops):
        pending = []
        try:
            for op in ops:
                name = s['endpoints'][op['endpoint'] % len(s['endpoints'])]['name']
                client = clients[op['client'] % len(clients)]
                what = op['op']
                if what == 'request':
                    data = payload(op['seed'], op['size'], 'str' in op['form'])
                    with lock:
                        asked[name].append(data)
                    p = client.request(name, FORMS[op['form']](data))
                    want = expected(kinds[name], data)
                    text = 'a request of %d bytes to a %s endpoint' % (len(data), kinds[name])
                    if want is None:
                        with lock:
                            unanswered.append((p, text))
                    elif op['now']:
                        r = wait(p, text)
                        check(type(r) is bytes and r == want, '%s is answered by %r instead of %r' % (text, r[:60], want[:60]))
                    else:
                        pending.append((p, text, want))
                elif what == 'bad':
                    try:
                        client.request(name, NOT_DATA[op['bad']])
                    except ValueError:
                        check(op['bad'] not in ('big', 'negative', 'texts', 'floats', 'nested'), 'wrong elements raise a ValueError')
                    except (RuntimeError, TypeError):
                        check(op['bad'] in ('big', 'negative', 'texts', 'floats', 'nested'), 'what is no data raises something else than a ValueError')
                    else:
                        raise Bad('%s was sent as data' % op['bad'])
                elif what == 'missing':
                    p = client.request('no such endpoint', b'x')
                    with lock:
                        unanswered.append((p, 'a request to no endpoint'))
                elif what == 'silent':
                    p = client.request('silent', b'x')
                    with lock:
                        unanswered.append((p, 'a request to an endpoint that does not handle any'))
                elif what == 'broadcast':
                    data = payload(op['seed'], op['size'], False)
                    with lock:
                        told[name].append(data)
                    server.broadcast(name, list(data) if op['now'] else data)
                elif what == 'burst':
                    # more than the client's side can hold while it waits for the interpreter
                    data = payload(op['seed'], 150000, False)
                    with lock:
                        told[name] += [data] * 4
                    for _ in range(4):
                        server.broadcast(name, data)
                elif what == 'drop':
                    client.request(name, b'dropped')
                    with lock:
                        asked[name].append(b'dropped')
                elif what == 'gc':
                    gc.collect()
            for p, text, want in reversed(pending):
                r = wait(p, text)
                check(type(r) is bytes and r == want, '%s is answered by %r instead of %r' % (text, r[:60], want[:60]))
        except BaseException as e:
            errors.append(e)

    threads = [threading.Thread(target=work, args=(ops,)) for ops in s['threads'][1:]]
    for t in threads:
        t.start()
    work(s['threads'][0])
    for t in threads:
        t.join()
    if errors:
        spin.end()
        raise errors[0]
    # each request is handled once, each broadcast reaches each client once. A request that nobody awaits may be skipped.
    skip = kind == 'loopback'
    handled = 0
    for n in kinds:
        want = sorted(asked[n])

        def got(log):
            return sorted(x[2] for x in log if not (skip and x[2] == b'dropped'))
        if skip:
            want = [w for w in want if w != b'dropped']
        eventually(lambda: len(got(logs[n])) >= len(want), 'not every request is handled')
        check(got(logs[n]) == want, 'the %s endpoint has handled %d requests, and not what was asked for' % (kinds[n], len(logs[n])))
        for t, ty, d in logs[n]:
            check(ty is bytes and t == id(server), 'a handler was called with %r and the transport %r' % (ty, t))
        handled += len(want)
        want = sorted(told[n])
        for i, log in enumerate(clogs):
            eventually(lambda: len(log[n]) >= len(want), 'a broadcast does not arrive')
            # the answers to requests that were given up are handed over too
            late = collections.Counter({expected(kinds[n], b'dropped'): sum(op['op'] == 'drop' for ops in s['threads'] for op in ops)})
            eventually(lambda: not collections.Counter(want) - collections.Counter(x[2] for x in log[n]), 'a broadcast does not arrive')
            more = collections.Counter(x[2] for x in log[n]) - collections.Counter(want)
            check(not more - late, 'a client was told something else than what was broadcast: %r' % (list(more)[:3],))
            for t, ty, d in log[n]:
                check(ty is bytes and t == id(clients[i]), 'unsolicited was called with %r and the transport %r' % (ty, t))
    for p, text in unanswered:
        nothing(p, text)
    check(all(w() is not None for w in alive), 'an endpoint is gone while its transport needs it')
    if s['leave']:
        # while the handlers are busy
        for n in kinds:
            for c in clients:
                c.request(n, b'last words')
    del unanswered[:], threads[:]
    work = t = p = c = client = None
    # released in any order, while the other threads go on
    order = clients if s['leave'] else list(reversed(clients))
    clients = None
    while order:
        order.pop()
    server = factory = intro = ep = None
    kept = None
    errors = None
    spin.end()

    def gone():
        gc.collect()
        return all(w() is None for w in alive)
    eventually(gone, 'endpoints remain when their transports are gone')
    return handled, {'requests': handled, kind: 1, 'broadcasts': sum(len(v) for v in told.values()), 'endpoints': len(kinds)}


# ------------------------------------------------------------------------------------------------ managers
def manager(s):
    factory = factory_of(s['transport'])
    servers, kinds, made = [], [], []
    for names in s['servers']:
        server = factory.serve()
        for n in names:
            server.addEndpoint(Echo('e%d' % n, 'echo', 'bytes', []))
        server.addEndpoint(lib.general.EndpointIntrospect())
        servers.append((server, names))
    m = lib.general.EndpointManagerPoll(factory)
    made_logs, logged = [], []
    if s['log']:
        class Log:
            def __call__(self, text):
                logged.append(type(text))
        log = Log()
        made_logs.append(weakref.ref(log))
        m.setLogger(log)
        log = None
    calls = []
    keep = []

    def make(n, how):
        def f(transport):
            calls.append((n, transport))
            if how == 'slow':
                time.sleep(0.002)
            if how == 'none':
                return None
            if how == 'raise':
                raise ValueError('no')
            if how == 'wrong':
                return 3
            ep = Echo('e%d' % n, 'echo', 'bytes', [])
            made.append(weakref.ref(ep))
            if how == 'kept':
                keep.append(ep)
            return ep
        return f
    spin = Spinner(s['spin'])
    later = []
    for n, how in enumerate(s['factories']):
        if how == 'later':
            later.append(n)
        elif how != 'absent':
            m.addEndpointFactory('e%d' % n, make(n, how))
    m.addEndpointFactory('introspect', lib.general.EndpointIntrospect.factory)
    if s['poll']:
        m.startPolling(0.001)
    else:
        m.manage()
    errors = []

    def look():
        try:
            for _ in range(s['looks']):
                for t, eps in m.endpoints().items():
                    check(t.isConnected(), 'a managed transport is not connected')
                    for n, e in eps.items():
                        check(e.getName() == n, 'an endpoint is listed by another name')
                if not s['poll']:
                    m.manage()
        except BaseException as e:
            errors.append(e)
    threads = [threading.Thread(target=look) for _ in range(s['threads'])]
    for t in threads:
        t.start()
    look()
    for t in threads:
        t.join()
    for n in later:
        m.addEndpointFactory('e%d' % n, make(n, 'good'))
    if errors:
        spin.end()
        raise errors[0]
    good = {n for n, how in enumerate(s['factories']) if how in ('good', 'slow', 'kept', 'later')}
    want = sorted(sorted(['e%d' % n for n in set(names) & good] + ['introspect']) for _, names in servers)

    def listed():
        if not s['poll']:
            m.manage()
        return sorted(sorted(e) for e in m.endpoints().values())
    eventually(lambda: listed() == want, 'the manager offers %r instead of %r' % (listed(), want))
    # through what it offers, all servers are reached
    asked = 0
    for t, eps in m.endpoints().items():
        for n, e in eps.items():
            if n == 'introspect':
                continue
            check(isinstance(e, Echo) and e.n == n, 'what a factory made is not what the manager offers')
            check(wait(t.request(n, b'to ' + n.encode()), 'a request') == b'to ' + n.encode(), 'a managed transport answers wrongly')
            asked += 1
    ok = {id(t) for t in m.endpoints()}
    check(all(id(t) in ok for n, t in calls), 'a factory was given another transport')
    n0 = len(calls)
    if s['poll']:
        m.stopPolling()
        n0 = len(calls)
    t = eps = e = None
    calls.clear()
    m = None
    servers = server = factory = f = None
    keep.clear()
    threads = None
    look = listed = None
    spin.end()

    def gone():
        gc.collect()
        return all(w() is None for w in made + made_logs)
    eventually(gone, 'endpoints or loggers remain when their manager is gone')
    check(set(logged) <= {str}, 'logged were %r' % (set(logged),))
    return asked, {'managers': 1, 'managed endpoints': asked, 'polling': int(s['poll'])}


# ------------------------------------------------------------------------------------------------ providers and sources
class Source(scalopus.interface.TraceEventSource):
    def __init__(self, what, log):
        scalopus.interface.TraceEventSource.__init__(self)
        self.what, self.log = what, log

    def startInterval(self):
        self.log.append('start')
        if self.what == 'raise':
            raise ValueError('no')

    def stopInterval(self):
        self.log.append('stop')

    def finishInterval(self):
        self.log.append('finish')
        if self.what == 'raise':
            raise ValueError('no')
        if self.what == 'nojson':
            return [{1: 2}]
        if self.what == 'nolist':
            return 3
        return self.what


class Bare(scalopus.interface.TraceEventSource):
    pass


class Provider(scalopus.interface.TraceEventProvider):
    def __init__(self, whats, log):
        scalopus.interface.TraceEventProvider.__init__(self)
        self.whats, self.log, self.made = list(whats), log, []

    def makeSource(self):
        w = self.whats.pop(0)
        if w == 'fail':
            raise ValueError('no')
        if w == 'none':
            return None
        s = Bare() if w == 'bare' else Source(w, self.log)
        self.made.append(weakref.ref(s))
        return s


def provider(s):
    events = 0
    spin = Spinner(s['spin'])
    try:
        for whats in s['providers']:
            log = []
            made = []
            spawner = lib.lib.test_helpers.PythonSubclasserSpawner()
            p = Provider([json.loads(json.dumps(w)) for w in whats], log)
            p.made = made
            wp = weakref.ref(p)
            spawner.addProvider(p)
            p = None
            gc.collect()
            check(wp() is not None, 'the Python part of a provider is gone while it is used')
            for w in whats:
                del log[:]
                try:
                    spawner.makeSourceFrom()
                except ValueError:
                    check(w == 'fail', 'a source could not be made')
                    continue
                check(w != 'fail', 'the failure of a provider is lost')
                gc.collect()
                src = spawner.getSource()
                if w == 'none':
                    check(src is None, 'there is a source')
                    continue
                if w != 'bare':
                    check(type(src) is Source and src.what == w, 'another source')
                src = None
                gc.collect()
                check(made[-1]() is not None, 'the Python part of a source is gone while it is used')
                res = verif.interval(spawner.getSource(), s['thread'])
                if w == 'bare':
                    check(res == [], 'a source without events gives %r' % (res,))
                    continue
                if w in ('raise', 'nojson', 'nolist'):
                    check(res is None, 'the failure of a source is lost: %r' % (res,))
                    if w == 'raise':
                        check(log == ['start', 'finish'] or log == ['start'], 'called were %r' % (log,))
                    continue
                check(log == ['start', 'stop', 'finish'], 'called were %r' % (log,))
                check(json.dumps(res, sort_keys=True) == json.dumps(w, sort_keys=True), 'the events are %r instead of %r' % (res, w))
                events += len(w)
            if s['thread'] and spawner.getSource() is not None:
                verif.release_later(spawner.getSource())
            spawner.resetSource()
            spawner = None

            def gone():
                gc.collect()
                return wp() is None and all(x() is None for x in made)
            eventually(gone, 'providers or sources remain')
    finally:
        spin.end()
    return events, {'sources': sum(len(w) for w in s['providers']), 'events': events}


# ------------------------------------------------------------------------------------------------ the tracing state and its endpoints
def state(s):
    T, G = lib.tracing, lib.general
    factory = factory_of(s['transport'])
    server = factory.serve()
    info = G.EndpointProcessInfo()
    info.setProcessName('')
    for e in (info, T.EndpointTraceMapping(), T.EndpointTraceConfigurator(), G.EndpointIntrospect()):
        server.addEndpoint(e)
    e = None
    c = connect(factory, s['transport'])
    rinfo, rmap, rconf = G.EndpointProcessInfo(), T.EndpointTraceMapping(), T.EndpointTraceConfigurator()
    for r in (rinfo, rmap, rconf):
        c.addEndpoint(r)
    check(len({T.MarkLevel.GLOBAL, T.MarkLevel.PROCESS, T.MarkLevel.THREAD}) == 3, 'levels are the same')
    names, pname = {}, ''
    lib.lib.test_helpers.clearTraceNames()
    T.setProcessState(True)
    T.setThreadState(True)
    process, thread = True, True
    main = threading.get_ident()
    tname = {}
    ids = []
    n = 0

    def remote(f, ok):
        """the requests of these endpoints are given up after some time"""
        for _ in range(4):
            r = f()
            if ok(r):
                return r
        raise Soft('an endpoint does not answer')
    for op in s['ops']:
        what, v, t = op['op'], op['value'], op['text']
        n += 1
        if what == 'trace name':
            i = v % 2 ** 32
            T.setTraceName(i, t)
            names[i] = t
        elif what == 'process name':
            info.setProcessName(t)
            pname = t
        elif what == 'thread name':
            G.setThreadName(t)
            tname[main] = t
        elif what == 'other thread':
            # a named thread is listed while it runs, and has states of its own
            res = []

            def other():
                G.setThreadName(t)
                res.append(threading.get_ident())
                res.append(T.getThreadState())
                T.setThreadState(v % 2 == 0)
                res.append(T.getThreadState())
                res.append(remote(rinfo.processInfo, lambda r: r.pid).threads)
                conf = T.EndpointTraceConfigurator.TraceConfiguration()
                conf.add_thread_entry(res[0], v % 3 == 0)
                res.append(remote(lambda: rconf.setTraceState(conf), lambda r: r.cmd_success).thread_state)
                res.append(T.getThreadState())
            th = threading.Thread(target=other)
            th.start()
            th.join()
            if len(res) < 6:
                raise Soft('the other thread has not finished')
            check(res[3].get(res[0]) == t, 'a running thread is called %r instead of %r' % (res[3].get(res[0]), t))
            check(res[1] is True and res[2] is (v % 2 == 0), 'the state of another thread is %r and %r' % (res[1], res[2]))
            check(res[4].get(res[0]) is (v % 3 == 0) and res[5] is (v % 3 == 0), 'the state of the other thread is not set from afar')
            check(T.getThreadState() is thread, 'the state of this thread was changed by another')
        elif what == 'local':
            process, thread = bool(v & 1), bool(v & 2)
            T.setProcessState(process)
            T.setThreadState(thread)
        elif what == 'remote':
            conf = T.EndpointTraceConfigurator.TraceConfiguration()
            conf.set_process_state = bool(v & 1)
            conf.process_state = bool(v & 2)
            if v & 4:
                conf.add_thread_entry(main, bool(v & 16))
                conf.add_thread_entry(main, bool(v & 8))
                check(conf.thread_state == {main: bool(v & 8)}, 'the threads of a configuration are %r' % (conf.thread_state,))
            d = conf.to_dict()
            check(d['set_process_state'] is bool(v & 1) and d['process_state'] is bool(v & 2) and set(d) == {'set_process_state', 'process_state', 'cmd_success', 'thread_state'}, 'a configuration is %r' % (d,))
            r = remote(lambda: rconf.setTraceState(conf), lambda r: r.cmd_success)
            process = bool(v & 2) if v & 1 else process
            thread = bool(v & 8) if v & 4 else thread
            check(r.process_state is process and r.thread_state.get(main, thread) is thread, 'the states are answered as %r' % (r.to_dict(),))
        elif what == 'ids':
            out = [[] for _ in range(3)]
            ts = [threading.Thread(target=lambda o: [o.append(T.uniqueTraceId()) for _ in range(50)], args=(o,)) for o in out]
            for x in ts:
                x.start()
            for x in ts:
                x.join()
            for o in out:
                ids += o
            check(len(set(ids)) == len(ids), 'an id is given twice')
        elif what == 'emit':
            # leaves no traces here, but must be accepted
            for f in (T.native, T.nop):
                f.scope_entry(v % 2 ** 32)
                f.mark_event(v % 2 ** 32, T.MarkLevel.THREAD)
                f.count_event(v % 2 ** 32, v)
                f.scope_exit(v % 2 ** 32)
        check(T.getProcessState() is process and T.getThreadState() is thread, 'the states are %r, %r instead of %r, %r' % (T.getProcessState(), T.getThreadState(), process, thread))
        if op['look']:
            r = remote(rmap.mapping, lambda r: r)
            check(r == {os.getpid(): names}, 'the mapping is %r instead of %r' % (r, names))
            i = remote(rinfo.processInfo, lambda r: r.pid)
            check((i.pid, i.name) == (os.getpid(), pname), 'the process is %r' % ((i.pid, i.name),))
            check(i.to_dict() == {'pid': i.pid, 'name': i.name, 'threads': i.threads}, 'the process info is %r' % (i.to_dict(),))
            if main in tname:
                check(i.threads.get(main) == tname[main], 'the thread is called %r' % (i.threads.get(main),))
            r = remote(rconf.getTraceState, lambda r: r.cmd_success)
            check(r.process_state is process and r.thread_state.get(main) is thread, 'the states seen from afar are %r' % (r.to_dict(),))
    T.setProcessState(True)
    T.setThreadState(True)
    return n, {'state operations': n}


# ------------------------------------------------------------------------------------------------ Python programs that are traced
def traced(s):
    import scalopus.tracing as st
    T, G = lib.tracing, lib.general
    factory = factory_of(s['transport'])
    server = factory.serve()
    info = scalopus.general.EndpointProcessInfo()
    info.setProcessName(s['process'])
    for e in (info, st.EndpointTraceMapping(), st.EndpointTraceConfigurator(), st.EndpointNativeTraceSender(), scalopus.general.EndpointIntrospect()):
        server.addEndpoint(e)
    m = scalopus.general.EndpointManagerPoll(factory)
    native = st.NativeTraceProvider(m)
    general = scalopus.general.GeneralProvider(m)
    m.addEndpointFactory(st.EndpointTraceMapping.name, st.EndpointTraceMapping.factory)
    m.addEndpointFactory(scalopus.general.EndpointProcessInfo.name, scalopus.general.EndpointProcessInfo.factory)
    m.addEndpointFactory(scalopus.general.EndpointIntrospect.name, scalopus.general.EndpointIntrospect.factory)
    if s['weak']:
        m.addEndpointFactory(st.EndpointNativeTraceSender.name, scalopus.general.weak_provider_endpoint_factory(native))
    else:
        m.addEndpointFactory(st.EndpointNativeTraceSender.name, native.factory)
    names = sorted([st.EndpointTraceMapping.name, scalopus.general.EndpointProcessInfo.name, scalopus.general.EndpointIntrospect.name, st.EndpointNativeTraceSender.name])

    def offered():
        m.manage()
        return sorted(sorted(e) for t, e in m.endpoints().items()) == [names]
    eventually(offered, 'the manager offers %r' % ([sorted(e) for e in m.endpoints().values()],))
    st.setProcessState(True)
    st.setThreadState(True)
    spin = Spinner(s['spin'])

    def attempt(k):
        source, meta = native.makeSource(), general.makeSource()
        for x in (meta, source):
            x.startInterval()
        want, errors = {}, []

        def work(n, ops):
            tid = threading.get_ident()
            w = want[n] = (tid, [])
            pre = 'n%d.%d.' % (k, n)
            on, nop, opened = [True], [False], []

            def event(ph, name, **more):
                if on[-1] and not nop[0]:
                    w[1].append((ph, name, more))
            ctx = st.TraceContextHelper(prefix=pre)
            quiet = st.ThreadStateSwitcher(False)

            @st.traced(pre + 'function')
            def f(x):
                event('B', pre + 'function')
                return x + 1

            @st.traced
            def raises():
                raise KeyError(1)

            @st.suppressed
            def quietly(x):
                on.append(False)
                with ctx('quietly'):
                    on.pop()
                    return x

            def go(todo):
                while todo:
                    op = todo.pop(0)
                    what, name = op['op'], 'c%d' % op['which']
                    b = T.nop if nop[0] else T.native
                    if what == 'with':
                        try:
                            with ctx(name):
                                event('B', pre + name)
                                if len(todo) % 2:
                                    go(todo)
                                if op['which'] == 2:
                                    raise KeyError(0)
                        except KeyError:
                            pass
                        event('E', pre + name)
                    elif what == 'enter':
                        getattr(ctx, name).enter()
                        event('B', pre + name)
                    elif what == 'exit':
                        getattr(ctx, name).exit()
                        event('E', pre + name)
                    elif what == 'mark':
                        e = st.MarkerEvent(pre + name)
                        (e.global_, e.process, e.thread)[op['which']]()
                        event('i', pre + name, s='gpt'[op['which']])
                    elif what == 'count':
                        st.CountEvent(pre + 'counter/' + name).count(op['value'])
                        event('C', pre + 'counter', series=name, value=op['value'])
                    elif what == 'call':
                        check(f(op['value']) == op['value'] + 1, 'a traced function returns something else')
                        event('E', pre + 'function')
                    elif what == 'quiet':
                        with quiet:
                            on.append(False)
                            check(st.getThreadState() is False, 'the thread is not switched off')
                            go(todo[:2])
                        on.pop()
                        check(st.getThreadState() is on[-1], 'the state of the thread is not restored')
                    elif what == 'quietly':
                        check(quietly(op) is op, 'a function that is not traced returns something else')
                    elif what in ('on', 'off'):
                        check(st.setThreadState(what == 'on') is on[-1], 'the former state is wrong')
                        on[-1] = what == 'on'
                    elif what == 'nop':
                        x = ctx('nothing')
                        T.nop.scope_entry(x.trace_id)
                        T.nop.mark_event(x.trace_id, st.MarkLevel.GLOBAL)
                        T.nop.count_event(x.trace_id, 4)
                        T.nop.scope_exit(x.trace_id)
                    elif what == 'name':
                        scalopus.general.setThreadName(op['text'])
            try:
                go([dict(op) for op in ops])
                st.setThreadState(True)
                st.MarkerEvent(pre + 'last').thread()
                w[1].append(('i', pre + 'last', {'s': 't'}))
            except BaseException as e:
                errors.append(e)
            st.setThreadState(True)
        threads = [threading.Thread(target=work, args=(n + 1, ops)) for n, ops in enumerate(s['threads'][1:])]
        main_name = 'main%d' % k
        scalopus.general.setThreadName(main_name)
        for t in threads:
            t.start()
        ops0 = [op for op in s['threads'][0] if op['op'] != 'name']
        work(0, ops0)
        for t in threads:
            t.join()
        if errors:
            raise errors[0]
        time.sleep(0.02 * 2 ** k)
        source.stopInterval()
        meta.stopInterval()
        got = source.finishInterval()
        data = meta.finishInterval()
        check(source.finishInterval() == [], 'events are given twice')
        per = {}
        for e in got:
            if e['name'].startswith('n%d.' % k):
                check(e['pid'] == os.getpid(), 'an event of the process %r' % (e['pid'],))
                per.setdefault((e['tid'], e['name'].split('.')[1]), []).append(e)
        complete = True
        total = 0
        for n, (tid, events) in want.items():
            g = per.pop((tid, str(n)), [])
            if not g or g[-1]['name'] != 'n%d.%d.last' % (k, n):
                complete = False
                continue
            check(len(g) == len(events), 'a thread has traced %d events, and %d are recorded: %r' % (len(events), len(g), [(e['ph'], e['name']) for e in g]))
            for e, (ph, name, more) in zip(g, events):
                check((e['ph'], e['name']) == (ph, name), '%r is recorded as %r' % ((ph, name, more), e))
                if ph == 'i':
                    check(e['s'] == more['s'], 'a mark is of another level')
                if ph == 'C':
                    check(type(e['args'].get(more['series'])) is int and e['args'][more['series']] == more['value'], 'a value of %r is recorded as %r' % (more, e['args']))
            check(all(a['ts'] <= b['ts'] for a, b in zip(g, g[1:])), 'time goes backwards')
            total += len(events)
        check(not per, 'events of other threads are recorded: %r' % (list(per),))
        process = [e['args']['name'] for e in data if e['name'] == 'process_name' and e['pid'] == os.getpid()]
        thread = [e['args']['name'] for e in data if e['name'] == 'thread_name' and e['tid'] == threading.get_ident()]
        if not process:
            complete = False
        else:
            check(len(process) == 1 and process[0] == s['process'] and thread == [main_name], 'the process is called %r, the thread %r' % (process, thread))
            i = general.getMapping().get(os.getpid())
            check(i is not None and i.name == s['process'] and i.threads[threading.get_ident()] == main_name, 'the mapping is %r' % (i and i.to_dict(),))
        if s['drop']:
            gc.collect()
        return complete, total
    try:
        for k in range(8):
            ok, total = attempt(k)
            if ok:
                break
        else:
            raise Soft('not every event is recorded')
    finally:
        spin.end()
        st.setThreadState(True)
    wn = weakref.ref(native)
    native = None
    gc.collect()
    if s['weak']:
        check(wn() is None, 'a weak factory keeps its provider')
    m = general = server = factory = offered = attempt = None
    gc.collect()
    eventually(lambda: gc.collect() is not None and wn() is None, 'the provider remains')
    return total, {'traced events': total, 'traced programs': 1}


# ------------------------------------------------------------------------------------------------ providers for viewers
def served(s):
    server = lib.catapult.CatapultServer()
    logged, logs = [], []
    if s['logger']:
        class Log:
            def __call__(self, text):
                logged.append(type(text))
        log = Log()
        logs.append(weakref.ref(log))
        server.setLogger(log)
        log = None
    if s['weblog']:
        server.setSeasocksWarningLogger()
    if s['buffer']:
        server.setMaxBuffersize(s['buffer'])
    alive, made = [], []

    class P(scalopus.interface.TraceEventProvider):
        def __init__(self, what):
            scalopus.interface.TraceEventProvider.__init__(self)
            self.what = what

        def makeSource(self):
            if self.what == 'fail':
                raise ValueError('no')
            if self.what == 'none':
                return None
            src = Bare() if self.what == 'bare' else Source(self.what, [])
            made.append(weakref.ref(src))
            return src
    for w in s['providers']:
        p = P(w)
        alive.append(weakref.ref(p))
        server.addProvider(p)
        p = None
    gc.collect()
    check(verif.web_ports() == [], 'a server listens before it is started')
    if s['port']:
        server.start(port=s['port'])
    else:
        server.start()
    check(verif.web_ports() == [s['port'] or 9222], 'the ports are %r' % (verif.web_ports(),))
    if s['buffer']:
        check(verif.web_buffer() == s['buffer'], 'the buffer is %r' % (verif.web_buffer(),))
    spin = Spinner(s['spin'])
    model = {}
    asked = events = 0
    good = [w for w in s['providers'] if isinstance(w, list)]

    def do(x):
        if not x:
            raise Soft('the thread of the server is stuck')

    def judge(who):
        asks = model[who]

        def complete():
            return sum('tracingComplete' in t for t in verif.told(who)) >= sum(a[0] == 'end' for a in asks) and sum('"id"' in t for t in verif.told(who)) >= len(asks)
        eventually(complete, 'a viewer is not answered: %r' % (verif.told(who),))
        msgs = [json.loads(t) for t in verif.told(who)]
        n = 0
        for what, i in asks:
            check(msgs and msgs[0].get('id') == i and 'result' in msgs[0], 'request %r is answered by %r' % (i, msgs[:1]))
            msgs.pop(0)
            if what != 'end':
                continue
            got = []
            while msgs and msgs[0].get('method') == 'Tracing.dataCollected':
                got += msgs.pop(0)['params']['value']
            check(msgs and msgs[0].get('method') == 'Tracing.tracingComplete', 'no completion but %r' % (msgs[:1],))
            msgs.pop(0)
            want = [e for w in good for e in w]
            check(sorted(json.dumps(e, sort_keys=True) for e in got) == sorted(json.dumps(e, sort_keys=True) for e in want), 'the events are %r instead of %r' % (got[:5], want[:5]))
            n += len(got)
        check(not msgs, 'also told was %r' % (msgs[:1],))
        return n
    try:
        for op in s['ops']:
            what, who, i = op['op'], op['who'], op['id']
            if what == 'view':
                if who not in model:
                    model[who] = []
                    do(verif.view(who, '/devtools/browser' if i % 2 else '/devtools/page/bar'))
            elif what == 'gc':
                gc.collect()
                check(all(w() is not None for w in alive), 'a provider is gone while it is used')
            elif who not in model:
                continue
            elif what in ('start', 'end', 'categories'):
                name = {'start': 'Tracing.start', 'end': 'Tracing.end', 'categories': 'Tracing.getCategories'}[what]
                model[who].append((what, i))
                do(verif.tell(who, json.dumps({'id': i, 'method': name})))
                asked += 1
            elif what == 'nonsense':
                do(verif.tell(who, '{"id": %d, ' % i))
            elif what == 'leave':
                events += judge(who)
                del model[who]
                do(verif.unview(who))
        gc.collect()
        check(all(w() is not None for w in alive), 'a provider is gone while it is used')
        for who in model:
            events += judge(who)
        check(set(logged) <= {str}, 'logged were %r' % (set(logged),))
    finally:
        server = None
        spin.end()
        verif.forget()

    def gone():
        gc.collect()
        return all(w() is None for w in alive + made + logs)
    eventually(gone, 'providers, sources or loggers remain')
    return asked, {'requests of viewers': asked, 'events for viewers': events}


def run(text):
    s = json.loads(text)
    res = {'error': '', 'soft': False, 'labels': {}, 'nontrivial': False}
    try:
        n, res['labels'] = globals()[s['kind']](s)
        res['nontrivial'] = n > 1
    except Soft as e:
        res['error'], res['soft'] = str(e), True
    except Bad as e:
        res['error'] = str(e)
    except BaseException as e:
        res['error'] = 'an exception: ' + ''.join(traceback.format_exception(e))[-1500:]
    gc.collect()
    return json.dumps(res)
