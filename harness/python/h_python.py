"""C21: generated Python programs using scalopus.tracing, with generated thread schedules, against an interpreter.
usage: h_python.py <repo> helpers|tools --run SEED CASES SECONDS OUT | --replay FILE"""
import functools, gc, hashlib, inspect, io, json, os, sys, threading, time, weakref, contextlib

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import fakelib as fake

REPO = sys.argv[1]
scalopus = fake.install(REPO)
T = scalopus.tracing
from hypothesis import HealthCheck, Phase, given, seed, settings
from hypothesis import strategies as st

HELPER_NAMES = ['alpha', 'beta', 'Gamma', 'a_b', 'x', 'My Section', 'enter', 'exit', 'name', 'trace_id', 'caf\u00e9', 'with.dot', '']
COUNT_NAMES = ['count', 'memory/used', 'c', 'name', 'x']


class Boom(Exception):
    def __init__(self, v):
        Exception.__init__(self, v)
        self.v = v


class Stop(Exception):
    pass


# what ends a block
BOOMS = (Boom, StopIteration, KeyboardInterrupt, SystemExit, GeneratorExit)


# ------------------------------------------------------------------------------------------------ programs
# context sources: how a context is obtained; shared ones are created once per program and used from everywhere
ctx = st.one_of(
    st.tuples(st.just('new'), st.sampled_from(HELPER_NAMES)),
    st.tuples(st.just('explicit'), st.sampled_from(HELPER_NAMES), st.integers(0, 3)),
    st.tuples(st.just('shared'), st.integers(0, 1)),
    st.tuples(st.just('attr'), st.sampled_from(['alpha', 'beta', 'Gamma', 'a_b', 'x'])),
    st.tuples(st.just('call'), st.sampled_from([n for n in HELPER_NAMES])),
    st.tuples(st.just('prefix'), st.integers(0, 1), st.sampled_from(HELPER_NAMES)),
)
switch = st.one_of(st.tuples(st.just('new'), st.booleans()), st.tuples(st.just('shared'), st.integers(0, 1)))
leaf = st.one_of(
    st.tuples(st.just('mark'), st.sampled_from(HELPER_NAMES), st.sampled_from(['global_', 'process', 'thread'])),
    st.tuples(st.just('count'), st.sampled_from(COUNT_NAMES), st.integers(-2 ** 63, 2 ** 63 - 1)),
    st.tuples(st.just('raise'), st.integers(0, 4)),
    st.tuples(st.just('stop')),
    st.tuples(st.just('set'), st.booleans()),
    st.tuples(st.just('call'), st.integers(0, 3), st.integers(0, 9)),
)


def extend(body):
    b = st.lists(body, min_size=0, max_size=4)
    return st.one_of(
        st.tuples(st.just('with'), ctx, b),
        st.tuples(st.just('manual'), ctx, b),
        st.tuples(st.just('switch'), switch, b),
        st.tuples(st.just('manualswitch'), st.booleans(), b),
        st.tuples(st.just('try'), b, b),
        st.tuples(st.just('loop'), st.integers(0, 3), b),
        st.tuples(st.just('call'), st.integers(0, 3), st.integers(0, 9)),
    )


stmt = st.recursive(leaf, extend, max_leaves=12)
stmts = st.lists(stmt, max_size=5)
decor = st.lists(st.sampled_from(['traced', 'traced()', 'traced-name', 'suppressed']), min_size=0, max_size=3)
function = st.fixed_dictionaries({'decor': decor, 'body': stmts, 'method': st.booleans()})
program = st.fixed_dictionaries({
    'functions': st.lists(function, min_size=4, max_size=4),
    'threads': st.lists(st.tuples(stmts, st.integers(0, 2)), min_size=1, max_size=3),
    'backend': st.sampled_from(['native', 'lttng', 'nop']),
    'states': st.tuples(st.booleans(), st.booleans(), st.booleans()),
    'schedule': st.lists(st.integers(0, 2), max_size=40),
})
# several threads in the same contexts, switchers and decorated functions at once
shared_stmt = st.recursive(
    st.one_of(st.tuples(st.just('mark'), st.just('x'), st.just('thread')), st.tuples(st.just('call'), st.integers(0, 3), st.just(0))),
    lambda b: st.one_of(st.tuples(st.just('with'), st.tuples(st.sampled_from(['shared']), st.integers(0, 1)), st.lists(b, min_size=1, max_size=2)),
                        st.tuples(st.just('with'), st.tuples(st.sampled_from(['attr', 'call']), st.sampled_from(['alpha', 'x'])), st.lists(b, min_size=1, max_size=2)),
                        st.tuples(st.just('switch'), st.tuples(st.just('shared'), st.integers(0, 1)), st.lists(b, min_size=1, max_size=2))), max_leaves=5)
contention = st.fixed_dictionaries({
    'functions': st.lists(st.fixed_dictionaries({'decor': st.sampled_from([['suppressed'], ['traced'], ['suppressed', 'traced'], ['traced-name', 'suppressed']]),
                                                 'body': st.lists(shared_stmt, min_size=1, max_size=2), 'method': st.just(False)}), min_size=4, max_size=4),
    'threads': st.lists(st.tuples(st.lists(shared_stmt, min_size=1, max_size=3), st.integers(0, 2)), min_size=2, max_size=3),
    'backend': st.just('native'),
    'states': st.tuples(st.booleans(), st.booleans(), st.booleans()),
    'schedule': st.lists(st.integers(0, 2), min_size=10, max_size=60),
})


def prefixes():
    return ['', 'pre.']


class World:
    """the shared objects of one program, made with the module under test"""

    def __init__(self, prog):
        self.prog = prog
        T.setBackend(getattr(fake, prog['backend']))
        self.section = T.trace_section.__class__()
        self.counters = T.trace_count.__class__()
        self.counters.ctx_type = T.CountEvent
        self.markers = T.trace_section.__class__()
        self.markers.ctx_type = T.MarkerEvent
        self.pre = [T.TraceContextHelper(prefix=p) for p in ('', 'pre.')]
        self.shared = [T.TraceContext('shared%d' % i) for i in range(2)]
        self.switchers = [T.ThreadStateSwitcher(False), T.ThreadStateSwitcher(True)]
        self.fns = [self.function(i, f) for i, f in enumerate(prog['functions'])]

    def function(self, i, f):
        world = self

        def raw(thread, depth, token, *args, **kw):
            """the documentation"""
            if kw.get("marker") is not token:
                thread.bad('keyword argument lost')
            thread.run(world.prog['functions'][i]['body'], depth)
            return token, args

        raw.__name__ = 'fn%d' % i
        raw.__qualname__ = 'Q.fn%d' % i
        raw.custom = marker = object()
        w = raw
        for d in reversed(f['decor']):
            w = {'traced': lambda g: T.traced(g), 'traced()': lambda g: T.traced()(g), 'traced-name': lambda g: T.traced('named %d' % i)(g),
                 'suppressed': lambda g: T.suppressed(g)}[d](w)
        if (w.__name__, w.__doc__, w.__module__, w.__qualname__) != (raw.__name__, raw.__doc__, raw.__module__, raw.__qualname__) or getattr(w, 'custom', None) is not marker \
                or inspect.signature(w) != inspect.signature(raw):
            raise AssertionError('metadata of a decorated function changed')
        if f['method']:
            holder = type('Holder', (), {'m': lambda self, *a, **k: w(*a, **k)})()
            cls = type('C', (), {})

            def unself(self, *a, **k):
                return w(*a, **k)
            return holder.m
        return w

    def context(self, c):
        k = c[0]
        if k == 'new':
            return T.TraceContext(c[1])
        if k == 'explicit':
            return T.TraceContext(c[1], 5000 + 16 * HELPER_NAMES.index(c[1]) + c[2]) if c[2] % 2 else T.TraceContext(c[1], trace_id=5000 + 16 * HELPER_NAMES.index(c[1]) + c[2])
        if k == 'shared':
            return self.shared[c[1]]
        if k == 'attr':
            return getattr(self.section, c[1])
        if k == 'call':
            return self.section(c[1])
        return self.pre[c[1]](c[2])

    @staticmethod
    def context_name(c):
        k = c[0]
        if k == 'shared':
            return 'shared%d' % c[1]
        if k == 'prefix':
            return ['', 'pre.'][c[1]] + c[2]
        return c[1]


class Limit(Exception):
    pass


class Thread:
    """executes the statements of one thread on the real module"""

    def __init__(self, world, key):
        self.w, self.key, self.problems, self.steps = world, key, [], 0

    def bad(self, m):
        self.problems.append(m)

    def run(self, body, depth):
        for s in body:
            self.stmt(s, depth)

    def stmt(self, s, depth):
        self.steps += 1
        if self.steps > 250:
            raise Limit()
        k = s[0]
        if k == 'with':
            with self.w.context(s[1]):
                self.run(s[2], depth)
        elif k == 'manual':
            c = self.w.context(s[1])
            c.enter()
            try:
                self.run(s[2], depth)
            finally:
                c.exit()
        elif k == 'switch':
            sw = T.ThreadStateSwitcher(s[1][1]) if s[1][0] == 'new' else self.w.switchers[s[1][1]]
            with sw:
                self.run(s[2], depth)
        elif k == 'manualswitch':
            sw = T.ThreadStateSwitcher(s[1])
            sw.enter()
            try:
                self.run(s[2], depth)
            finally:
                sw.exit()
        elif k == 'try':
            try:
                self.run(s[1], depth)
            except BOOMS:
                self.run(s[2], depth)
        elif k == 'loop':
            for _ in range(s[1]):
                self.run(s[2], depth)
        elif k == 'mark':
            getattr(self.w.markers(s[1]), s[2])()
        elif k == 'count':
            self.w.counters(s[1]).count(s[2])
        elif k == 'raise':
            raise BOOMS[s[1]](s[1])
        elif k == 'stop':
            raise Stop()
        elif k == 'set':
            T.setThreadState(s[1])
        elif k == 'call' and depth > 0:
            marker = object()
            try:
                r = self.w.fns[s[1]](self, depth - 1, marker, s[2], marker=marker)
            except Stop:
                return
            if r[0] is not marker or r[1] != (s[2],):
                self.bad('arguments or result changed')

    def top(self, body, depth):
        try:
            self.run(body, depth)
        except BOOMS + (Stop,):
            pass
        if T.getThreadState() is not fake.thread_state():
            self.bad('getThreadState')


class Model:
    """what a thread must emit: (kind, name, value, thread state)"""

    def __init__(self, prog):
        self.prog, self.state, self.ev, self.steps = prog, True, [], 0
        self.features = set()

    def put(self, kind, name, x=None):
        self.ev.append((kind, name, x, self.state))

    def run(self, body, depth):
        for s in body:
            self.stmt(s, depth)

    def scope(self, name, f):
        self.put('E', name)
        try:
            f()
        finally:
            self.put('X', name)

    def switched(self, v, f):
        old, self.state = self.state, v
        try:
            f()
        finally:
            self.state = old

    def stmt(self, s, depth):
        self.steps += 1
        if self.steps > 250:
            raise Limit()
        k = s[0]
        if k in ('with', 'manual'):
            self.scope(World.context_name(s[1]), lambda: self.run(s[2], depth))
            self.features.add('scope')
        elif k == 'switch':
            v = s[1][1] if s[1][0] == 'new' else bool(s[1][1])
            self.switched(v, lambda: self.run(s[2], depth))
            self.features.add('switch')
        elif k == 'manualswitch':
            self.switched(s[1], lambda: self.run(s[2], depth))
        elif k == 'try':
            try:
                self.run(s[1], depth)
            except BOOMS:
                self.features.add('exception')
                self.run(s[2], depth)
        elif k == 'loop':
            for _ in range(s[1]):
                self.run(s[2], depth)
        elif k == 'mark':
            self.put('M', s[1], {'global_': 'GLOBAL', 'process': 'PROCESS', 'thread': 'THREAD'}[s[2]])
        elif k == 'count':
            self.put('C', s[1], s[2])
        elif k == 'raise':
            raise BOOMS[s[1]](s[1])
        elif k == 'stop':
            raise Stop()
        elif k == 'set':
            self.state = s[1]
        elif k == 'call' and depth > 0:
            self.features.add('call')
            f = self.prog['functions'][s[1]]

            def go(i):
                if i == len(f['decor']):
                    self.run(f['body'], depth - 1)
                elif f['decor'][i] == 'suppressed':
                    self.features.add('suppressed')
                    self.switched(False, lambda: go(i + 1))
                else:
                    self.scope('named %d' % s[1] if f['decor'][i] == 'traced-name' else 'fn%d' % s[1], lambda: go(i + 1))
            try:
                go(0)
            except Stop:
                pass

    def top(self, body, depth):
        try:
            self.run(body, depth)
        except BOOMS + (Stop,):
            pass
        self.ev.append(('end', None, None, self.state))
        return self.ev


class Scheduler:
    """lets one thread run at a time, switching where the Python code enters the bindings"""

    def __init__(self, choices, n):
        self.cv = threading.Condition()
        self.choices, self.pos = choices, 0
        self.turn = None
        self.alive = set()
        self.waiting = set()
        self.n = n

    def pause(self):
        key = fake.me()
        if key == 'main':
            return
        with self.cv:
            self.waiting.add(key)
            self.turn = None
            self.cv.notify_all()
            while self.turn != key:
                self.cv.wait(10)
            self.waiting.discard(key)

    def finish(self, key):
        with self.cv:
            self.alive.discard(key)
            self.turn = None
            self.cv.notify_all()

    def drive(self):
        with self.cv:
            while self.alive:
                if not self.waiting:
                    # a thread that holds a lock another one runs into: let both go on
                    self.cv.wait(0.2)
                    continue
                if self.turn is not None:
                    if not self.cv.wait(0.2):
                        self.turn = None
                    continue
                ready = sorted(self.waiting)
                if len(ready) < len(self.alive) and not self.started:
                    self.cv.wait(0.2)
                    continue
                self.started = True
                c = self.choices[self.pos] if self.pos < len(self.choices) else 0
                self.pos += 1
                self.turn = ready[c % len(ready)]
                self.cv.notify_all()
    started = False


def execute(prog):
    """runs the program on the module; returns a failure text or None, and the features for the evidence"""
    fake.reset()
    fake.state.on = True
    fake.on_call[0] = lambda: None
    models, features = [], set()
    try:
        for i, (body, depth) in enumerate(prog['threads']):
            m = Model(prog)
            m.state = prog['states'][i]
            models.append(m.top(body, depth))
            features |= m.features
    except Limit:
        return None, None, 0
    try:
        w = World(prog)
    except AssertionError as e:
        return str(e), features, 0
    threads = [Thread(w, 't%d' % i) for i in range(len(prog['threads']))]
    errors = []
    if len(threads) == 1:
        fake.key_of_thread[threading.get_ident()] = 't0'
        fake.state.on = prog['states'][0]
        try:
            threads[0].top(prog['threads'][0][0], prog['threads'][0][1])
        except Exception as e:
            errors.append('t0 raised %r' % (e,))
        fake.events.append(('t0', None, 'end', None, None, fake.thread_state(), None))
        fake.key_of_thread.clear()
    else:
        sch = Scheduler(prog['schedule'], len(threads))
        fake.on_call[0] = sch.pause

        def body(i):
            fake.key_of_thread[threading.get_ident()] = 't%d' % i
            fake.state.on = prog['states'][i]
            sch.pause()
            try:
                threads[i].top(*prog['threads'][i])
            except Exception as e:
                errors.append('t%d raised %r' % (i, e))
            fake.events.append(('t%d' % i, None, 'end', None, None, fake.thread_state(), None))
            sch.finish('t%d' % i)

        sch.alive = {'t%d' % i for i in range(len(threads))}
        ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(threads))]
        for t in ts:
            t.start()
        sch.drive()
        for t in ts:
            t.join(30)
        fake.on_call[0] = lambda: None
    if errors:
        return errors[0], features, 0
    for t in threads:
        if t.problems:
            return t.problems[0], features, 0
    owner = {}
    n = 0
    for i, want in enumerate(models):
        got = [e for e in fake.events if e[0] == 't%d' % i]
        stack = []
        for j, wv in enumerate(want):
            n += 1
            if j >= len(got):
                return 'thread %d: event %d %r missing' % (i, j, wv), features, n
            g = got[j]
            if g[2] != wv[0]:
                return 'thread %d event %d: expected %r, got %r' % (i, j, wv, g), features, n
            if g[5] != wv[3]:
                return 'thread %d event %d %r: thread state is %s' % (i, j, wv, g[5]), features, n
            if wv[0] == 'end':
                continue
            if g[1] != prog['backend']:
                return 'thread %d event %d: backend %s' % (i, j, g[1]), features, n
            name = fake.names.get(g[3])
            if name != wv[1]:
                return 'thread %d event %d: expected name %r, id %d is registered as %r' % (i, j, wv[1], g[3], name), features, n
            if owner.setdefault(g[3], wv[1]) != wv[1]:
                return 'id %d used for %r and %r' % (g[3], owner[g[3]], wv[1]), features, n
            if g[4] != wv[2]:
                return 'thread %d event %d: expected %r, got %r' % (i, j, wv, g), features, n
            if wv[0] == 'E':
                stack.append(g[3])
            elif wv[0] == 'X':
                if stack.pop() != g[3]:
                    return 'thread %d event %d: exit with another id than its entry' % (i, j), features, n
        if len(got) > len(want):
            return 'thread %d: unexpected %r' % (i, got[len(want)]), features, n
    return None, features, n


# ------------------------------------------------------------------------------------------------ command line tools
ENDPOINTS = ['introspect', 'process_info', 'scope_tracing', 'native_trace_sender', 'trace_configurator', 'other']
proc = st.fixed_dictionaries({
    'pid': st.integers(0, 6), 'name': st.sampled_from(['a', 'proc', 'caf\u00e9', '']),
    'threads': st.dictionaries(st.sampled_from([1, 2, 3, 10, 11, 2 ** 40]), st.sampled_from(['main', 't', '']), max_size=3),
    'endpoints': st.lists(st.sampled_from(ENDPOINTS), unique=True, max_size=6),
    'state': st.booleans(), 'mute': st.booleans(),
})
text = st.sampled_from(['x', 'caf\u00e9', '"', '\n', ''])
event = st.dictionaries(st.sampled_from(['name', 'ph', 'cat']), text, max_size=3)
tool = st.one_of(
    st.fixed_dictionaries({'tool': st.just('discover'), 'processes': st.lists(proc, max_size=4, unique_by=lambda p: p['pid'] or id(p))}),
    st.fixed_dictionaries({'tool': st.just('configure'), 'processes': st.lists(proc, max_size=4, unique_by=lambda p: p['pid'] or id(p)),
                           'on': st.booleans(), 'ids': st.lists(st.sampled_from([1, 2, 3, 4, 5, 6, 10, 11, 2 ** 40]), max_size=4), 'unmatched': st.sampled_from([None, 'on', 'off'])}),
    st.fixed_dictionaries({'tool': st.just('record'), 'native': st.lists(event, max_size=4), 'general': st.lists(event, max_size=4)}),
    st.fixed_dictionaries({'tool': st.just('server'), 'port': st.sampled_from([None, 1, 8080, 65535]), 'session': st.sampled_from([None, 'mine', ''])}),
    st.fixed_dictionaries({'tool': st.just('weak'), 'ops': st.lists(st.sampled_from(['make', 'drop']), max_size=4)}),
)


def run_main(args):
    src = os.path.join(REPO, 'scalopus_python', 'scalopus', '__main__.py')
    with open(src) as f:
        code = compile(f.read(), src, 'exec')
    out = io.StringIO()
    argv, sys.argv = sys.argv, ['scalopus'] + args
    import time as t
    naps, real = [0], t.sleep

    def nap(s):
        naps[0] += 1
        if naps[0] > 1:
            raise KeyboardInterrupt()
    t.sleep = nap
    rc = None
    try:
        with contextlib.redirect_stdout(out):
            exec(code, {'__name__': '__main__', '__file__': src})
    except SystemExit as e:
        rc = e.code
    finally:
        sys.argv = argv
        t.sleep = real
    return rc, out.getvalue()


def execute_tool(c):
    fake.reset()
    fake.world.clear()
    k = c['tool']
    features = {k}
    if k == 'weak':
        class P:
            def factory(self, transport):
                return ('endpoint', self.__class__.__name__, transport)
        p = P()
        ref = weakref.ref(p)
        f = scalopus.general.weak_provider_endpoint_factory(p)
        for op in c['ops']:
            if op == 'make':
                r = f('tr')
                want = ('endpoint', 'P', 'tr') if p is not None else None
                if r != want:
                    return 'weak factory returned %r, expected %r' % (r, want), features, 1
            else:
                p = None
                gc.collect()
                if ref() is not None:
                    return 'the factory keeps its provider alive', features, 1
        return None, features, 2 * len(c['ops'])
    if k in ('discover', 'configure'):
        ps = [dict(p, calls=[], threads={int(t): n for t, n in p['threads'].items()}) for p in c['processes']]
        for p in ps:
            p['thread_states'] = {t: True for t in p['threads']}
        fake.world['processes'] = ps
    if k == 'discover':
        rc, out = run_main(['discover'])
        if rc != 0:
            return 'discover ended with %r' % (rc,), features, 1
        pids = [int(l.split()[1]) for l in out.splitlines() if l.startswith('PID:')]
        want = sorted(p['pid'] for p in ps if 'process_info' in p['endpoints'])
        if [p for p in pids if p in want] != want:
            return 'discover listed %r, running are %r' % (pids, want), features, 1
        blocks = out.split('PID:')[1:]
        for b in blocks:
            pid = int(b.split()[0])
            if pid == 0:
                continue  # several may not have answered
            p = [x for x in ps if x['pid'] == pid][0]
            for e in p['endpoints']:
                if not any(l.strip() == e for l in b.splitlines()):
                    return 'endpoint %s of %d is not listed' % (e, pid), features, 1
            for t, n in p['threads'].items():
                if not any(l.split()[:1] == [str(t)] and '"%s"' % n in l for l in b.splitlines()):
                    return 'thread %d of %d is not listed' % (t, pid), features, 1
        return None, features, 3 if len(want) > 1 else 1
    if k == 'configure':
        args = ['trace_configure', 'on' if c['on'] else 'off'] + [str(i) for i in c['ids']]
        if c['unmatched']:
            args += ['--unmatched-pid', c['unmatched']]
        before = [(p['state'], dict(p['thread_states'])) for p in ps]
        rc, out = run_main(args)
        if rc != 0:
            return 'trace_configure ended with %r' % (rc,), features, 1
        for p, (st0, th0) in zip(ps, before):
            want, wth = st0, dict(th0)
            if 'trace_configurator' in p['endpoints'] and not p['mute']:
                known = 'process_info' in p['endpoints']
                if not known:
                    if p['calls'] and any(x[1] or x[3] for x in p['calls']) and not c['unmatched']:
                        return 'a process of unknown id was changed', features, 1
                    continue
                if p['pid'] in c['ids']:
                    want = c['on']
                elif c['unmatched']:
                    want = c['unmatched'] == 'on'
                for t in p['threads']:
                    if t in c['ids']:
                        wth[t] = c['on']
            if p['state'] != want or p['thread_states'] != wth:
                return 'process %d: state %s %r, expected %s %r' % (p['pid'], p['state'], p['thread_states'], want, wth), features, 1
        return None, features, 3 if c['ids'] and ps else 1
    if k == 'record':
        fake.world['events'] = {'native': c['native'], 'general': c['general']}
        rc, out = run_main(['record'])
        if rc != 0:
            return 'record ended with %r' % (rc,), features, 1
        try:
            got = json.loads(out)
        except ValueError as e:
            return 'record wrote invalid JSON: %r' % out, features, 1
        key = lambda e: json.dumps(e, sort_keys=True)
        if sorted(got, key=key) != sorted(c['native'] + c['general'], key=key):
            return 'record wrote %r' % got, features, 1
        for kind, s in fake.world.get('sources', []):
            if s.calls != ['start', 'stop', 'finish']:
                return 'calls on the %s source: %r' % (kind, s.calls), features, 1
        return None, features, 3
    args = ['catapult_server']
    if c['port'] is not None:
        args += ['--port', str(c['port'])]
    if c['session'] is not None:
        args += ['--lttng-session', c['session']]
    rc, out = run_main(args)
    servers = fake.world.get('servers', [])
    if rc != 0 or len(servers) != 1 or servers[0].port != (9222 if c['port'] is None else c['port']):
        return 'catapult_server: status %r, port %r' % (rc, [s.port for s in servers]), features, 1
    kinds = sorted(p.kind for p in servers[0].providers)
    if kinds != ['general', 'lttng', 'native']:
        return 'catapult_server: providers %r' % kinds, features, 1
    sess = [p.args[0] for p in servers[0].providers if p.kind == 'lttng']
    if sess != [c['session'] if c['session'] is not None else 'scalopus_target_session']:
        return 'catapult_server: session %r' % sess, features, 1
    return None, features, 3


MODES = {'helpers': (st.one_of(program, contention), execute), 'tools': (tool, execute_tool)}


def guarded(f, c):
    try:
        return f(c)
    except Exception as e:
        import traceback
        return '%s raised %r at %s' % (c.get('tool', 'program'), e, traceback.extract_tb(e.__traceback__)[-1][:3]), set(), 0


def main():
    strategy, f = MODES[sys.argv[2]]
    if sys.argv[3] == '--replay':
        c = json.load(open(sys.argv[4]))
        bad, _, _ = guarded(f, c)
        print('FAIL ' + bad if bad else 'held')
        return 1 if bad else 0
    sd, cases, seconds, out = int(sys.argv[4]), int(sys.argv[5]), float(sys.argv[6]), sys.argv[7]
    end = time.time() + seconds
    res = {'evaluations': 0, 'discarded': 0, 'distinct': [], 'labels': {}, 'samples': [], 'failure': None}
    distinct, last = set(), [None]

    def one(c):
        if time.time() > end and last[0] is None:
            return
        bad, features, n = guarded(f, c)
        if features is None:
            res['discarded'] += 1
            return
        res['evaluations'] += 1
        for x in features:
            res['labels'][x] = res['labels'].get(x, 0) + 1
        threads = len(c.get('threads', []))
        if n >= 3 and (sys.argv[2] == 'tools' or n >= 6 and (threads > 1 or len(features) > 1)):
            h = hashlib.sha1(json.dumps(c, sort_keys=True).encode()).hexdigest()[:16]
            if h not in distinct:
                distinct.add(h)
                if len(res['samples']) < 3:
                    res['samples'].append(json.dumps(c)[:200])
        if bad:
            last[0] = (c, bad)
            raise AssertionError(bad)

    runs = 0
    while time.time() < end and res['evaluations'] + res['discarded'] < cases and last[0] is None:
        test = seed(sd * 1000 + runs)(settings(max_examples=200, deadline=None, database=None, phases=[Phase.generate, Phase.shrink], derandomize=False,
                                             suppress_health_check=list(HealthCheck))(given(strategy)(one)))
        runs += 1
        try:
            test()
        except AssertionError:
            break
        except BaseException as e:
            if last[0] is None:
                raise
            break
    res['distinct'] = sorted(distinct)
    if last[0]:
        res['failure'] = {'case': last[0][0], 'text': last[0][1]}
    json.dump(res, open(out, 'w'))
    return 0


if __name__ == '__main__':
    sys.exit(main())
