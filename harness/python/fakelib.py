"""Stands in for the compiled bindings: the same names and signatures, recording what is called."""
import sys, threading, types

events = []          # (thread key, backend, kind, id, level/value, thread state, process state)
names = {}           # id -> name, as the static string tracker
on_call = [lambda: None]  # the schedule: called whenever the Python code enters the bindings
state = threading.local()
process_state = [True]
counter = [0]
lock = threading.Lock()
key_of_thread = {}


def reset():
    del events[:]
    names.clear()
    process_state[0] = True
    counter[0] = 0
    key_of_thread.clear()


def me():
    return key_of_thread.get(threading.get_ident(), 'main')


def thread_state():
    return getattr(state, 'on', True)


class MarkLevel:
    GLOBAL, PROCESS, THREAD = 'GLOBAL', 'PROCESS', 'THREAD'


def module(name, **kw):
    m = types.ModuleType(name)
    m.__dict__.update(kw)
    return m


def backend(name):
    def put(kind, ident, x=None):
        if not isinstance(ident, int) or isinstance(ident, bool) or not 0 <= ident < 2 ** 32:
            raise TypeError('incompatible function arguments: id %r' % (ident,))
        on_call[0]()
        events.append((me(), name, kind, ident, x, thread_state(), process_state[0]))

    def scope_entry(ident):
        put('E', ident)

    def scope_exit(ident):
        put('X', ident)

    def mark_event(ident, level):
        if level not in ('GLOBAL', 'PROCESS', 'THREAD'):
            raise TypeError('incompatible function arguments: level')
        put('M', ident, level)

    def count_event(ident, value):
        if not isinstance(value, int):
            raise TypeError('incompatible function arguments: value')
        put('C', ident, value)

    return dict(scope_entry=scope_entry, scope_exit=scope_exit, mark_event=mark_event, count_event=count_event)


def uniqueTraceId():
    on_call[0]()
    counter[0] += 1
    return counter[0] - 1


def setTraceName(ident, name):
    if not isinstance(ident, int) or not 0 <= ident < 2 ** 32 or not isinstance(name, str):
        raise TypeError('incompatible function arguments: setTraceName(%r, %r)' % (ident, name))
    on_call[0]()
    names[ident] = name


def getThreadState():
    return thread_state()


def setThreadState(v):
    if not isinstance(v, bool):
        raise TypeError('incompatible function arguments: setThreadState(%r)' % (v,))
    on_call[0]()
    old = thread_state()
    state.on = v
    return old


def getProcessState():
    return process_state[0]


def setProcessState(v):
    if not isinstance(v, bool):
        raise TypeError('incompatible function arguments: setProcessState(%r)' % (v,))
    on_call[0]()
    old, process_state[0] = process_state[0], v
    return old


# ---------------------------------------------------------------- what the command line tool sees: `world` is set by the harness
world = {}


class Endpoint:
    def __init__(self):
        pass


class TraceConfiguration:
    def __init__(self):
        self.process_state, self.set_process_state, self.cmd_success = False, False, False
        self._threads = {}

    # as with the bindings: a copy
    @property
    def thread_state(self):
        return dict(self._threads)

    @thread_state.setter
    def thread_state(self, v):
        self._threads = dict(v)

    def add_thread_entry(self, ident, on):
        self._threads[int(ident)] = bool(on)

    def to_dict(self):
        return {'set_process_state': self.set_process_state, 'process_state': self.process_state, 'cmd_success': self.cmd_success, 'thread_state': dict(self._threads)}


class EndpointTraceConfigurator(Endpoint):
    name = 'trace_configurator'
    TraceConfiguration = TraceConfiguration

    def __init__(self, process=None):
        self.p = process

    @staticmethod
    def factory(transport):
        return EndpointTraceConfigurator(transport.process)

    def setTraceState(self, c):
        self.p['calls'].append(('set', c.set_process_state, c.process_state, dict(c._threads)))
        r = TraceConfiguration()
        if self.p.get('mute'):
            return r
        if c.set_process_state:
            self.p['state'] = c.process_state
        for t, on in c._threads.items():
            self.p['thread_states'][t] = on
        r.cmd_success = True
        r.process_state = self.p['state']
        r._threads = dict(self.p['thread_states'])
        return r

    def getTraceState(self):
        return self.setTraceState(TraceConfiguration())


class EndpointTraceMapping(Endpoint):
    name = 'scope_tracing'

    @staticmethod
    def factory(transport):
        return EndpointTraceMapping()

    def mapping(self):
        return {}


class EndpointNativeTraceSender(Endpoint):
    name = 'native_trace_sender'


class Source:
    def __init__(self, events):
        self.events, self.calls = events, []

    def startInterval(self):
        self.calls.append('start')

    def stopInterval(self):
        self.calls.append('stop')

    def finishInterval(self):
        self.calls.append('finish')
        return list(self.events)

    def work(self):
        pass


class Provider:
    kind = 'other'

    def __init__(self, *a):
        self.args = a
        world.setdefault('providers', []).append(self)

    def makeSource(self):
        s = Source(world.get('events', {}).get(self.kind, []))
        world.setdefault('sources', []).append((self.kind, s))
        return s

    def factory(self, transport):
        return EndpointNativeTraceSender()

    def receiveEndpoint(self, e):
        pass

    def getMapping(self):
        return {}

    def updateMapping(self):
        pass


class NativeTraceProvider(Provider):
    kind = 'native'


class GeneralProvider(Provider):
    kind = 'general'


class LttngProvider(Provider):
    kind = 'lttng'


class ProcessInfo:
    def __init__(self, name='', pid=0, threads=None):
        self.name, self.pid, self._threads = name, pid, dict(threads or {})

    @property
    def threads(self):
        return dict(self._threads)

    def to_dict(self):
        return {'name': self.name, 'pid': self.pid, 'threads': dict(self._threads)}


class EndpointProcessInfo(Endpoint):
    name = 'process_info'

    def __init__(self, process=None):
        self.p = process

    def setProcessName(self, name):
        pass

    def processInfo(self):
        p = self.p
        return ProcessInfo(p['name'], p['pid'], p['threads'])

    @staticmethod
    def factory(transport):
        return EndpointProcessInfo(transport.process)


class EndpointIntrospect(Endpoint):
    name = 'introspect'

    def __init__(self, process=None):
        self.p = process

    def supported(self):
        return list(self.p['endpoints'])


class Transport:
    def __init__(self, process):
        self.process = process

    def getAddress(self):
        return 'fake:%d' % self.process['pid']

    def addEndpoint(self, e):
        pass


class Factory:
    def serve(self):
        return Transport({'pid': 1})


class EndpointManager:
    pass


class EndpointManagerPoll(EndpointManager):
    def __init__(self, factory):
        self.factories, self.connected = {}, {}
        world.setdefault('pollers', []).append(self)

    def addEndpointFactory(self, name, factory):
        self.factories[name] = factory

    def manage(self):
        self.connected = {}
        for p in world.get('processes', []):
            t = Transport(p)
            es = {'introspect': EndpointIntrospect(p)}
            for n in p['endpoints']:
                if n in self.factories:
                    es[n] = self.factories[n](t)
            self.connected[t] = es

    def startPolling(self, interval):
        if not interval > 0:
            raise ValueError('interval')
        self.polling = True
        self.manage()

    def stopPolling(self):
        self.polling = False

    def setLogger(self, f):
        pass

    def endpoints(self):
        return {t: dict(es) for t, es in self.connected.items()}


class CatapultServer:
    def __init__(self):
        self.providers, self.port = [], None
        world.setdefault('servers', []).append(self)

    def addProvider(self, p):
        self.providers.append(p)

    def setLogger(self, f):
        pass

    def setSeasocksWarningLogger(self, f):
        pass

    def setMaxBuffersize(self, n):
        pass

    def start(self, port=9222):
        self.port = port


native = module('native', EndpointNativeTraceSender=EndpointNativeTraceSender, NativeTraceProvider=NativeTraceProvider, **backend('native'))
lttng = module('lttng', LttngProvider=LttngProvider, **backend('lttng'))
nop = module('nop', **backend('nop'))
tracing = module('tracing', uniqueTraceId=uniqueTraceId, setTraceName=setTraceName, getThreadState=getThreadState, setThreadState=setThreadState,
                 getProcessState=getProcessState, setProcessState=setProcessState, MarkLevel=MarkLevel, EndpointTraceMapping=EndpointTraceMapping,
                 EndpointTraceConfigurator=EndpointTraceConfigurator, native=native, lttng=lttng, nop=nop)
general = module('general', EndpointIntrospect=EndpointIntrospect, EndpointProcessInfo=EndpointProcessInfo, EndpointManagerPoll=EndpointManagerPoll,
                 GeneralProvider=GeneralProvider, setThreadName=lambda n: None, ProcessInfo=ProcessInfo)
interface = module('interface', Endpoint=Endpoint, TraceEventSource=Source, TraceEventProvider=Provider)
transport = module('transport', TransportLoopbackFactory=Factory, TransportUnixFactory=Factory)
catapult = module('catapult', CatapultServer=CatapultServer)


def install(repo):
    lib = module('scalopus.scalopus_python_lib', interface=interface, tracing=tracing, general=general, transport=transport, catapult=catapult)
    sys.modules['scalopus.scalopus_python_lib'] = lib
    sys.path.insert(0, repo + '/scalopus_python')
    import scalopus
    return scalopus
