"""C13: generated programs that use the trace macros, and the interpreter that says what they must emit.

A case is a program: functions (free, inline, template; spread over files), classes with traced constructors and
destructors, and statements with macros, nested blocks, loops, branches, early exits, exceptions, lambdas, recursion.
The program is printed as C++, compiled against /repo's headers with a recording backend, run, and its record compared
with what the interpreter below derives from the same program."""
import copy, json, os, random, subprocess, sys, time, zlib, hashlib
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
RT = os.path.join(HERE, 'harness', 'macro')
MAX_EVENTS = 600
M32 = 1 << 32


# ------------------------------------------------------------------------------------------------ names and values
def gen_name(r):
    k = r.randrange(10)
    if k == 0:
        return b''
    if k <= 4:
        return bytes(r.choice(b'abcxyz') for _ in range(r.randint(1, 3)))
    if k <= 6:
        return ('%s %d' % (r.choice(['scope', 'dé', '日本', 'foo::bar()', 'a/b', '"q"', 'x\\n', '%s', '??/']), r.randrange(4))).encode()
    if k <= 8:
        return bytes(r.randrange(1, 256) for _ in range(r.randint(1, 24)))
    return bytes(r.randrange(1, 256) for _ in range(r.choice([255, 256, 1000])))


def lit(r_seed, name):
    """a C++ literal (possibly several adjacent ones) of these bytes; on one line"""
    r = random.Random(r_seed)
    parts, cur = [], ''
    for b in name:
        c = chr(b)
        cur += c if c.isalnum() and b < 128 or c in ' _:.(),/-' else '\\%03o' % b
        if r.randrange(12) == 0:
            parts.append(cur)
            cur = ''
    parts.append(cur)
    return ' '.join('"%s"' % p for p in parts)


# (C++ text, value); {v} is the innermost loop variable or the depth
def gen_value(r):
    k = r.randrange(8)
    if k == 0:
        return ['next']
    if k == 1:
        return ['var', r.randrange(-3, 4), r.randrange(-100, 100)]
    if k == 2:
        return ['const', r.choice(['9223372036854775807ll', '(-9223372036854775807ll - 1)', '0', '-1', '4294967295u',
                                   '2147483648ll', '-2147483649ll', '255', '256'])]
    if k == 3:
        return ['const', 'std::uint8_t(%d)' % r.randrange(256)]
    if k == 4:
        return ['const', r.choice(['true', 'false', '3.75', '-3.75', '1e9', '0.5f', "'A'", 'std::int8_t(-5)', 'short(-300)'])]
    if k == 5:
        return ['const', 'std::uint64_t(%du)' % r.randrange(1 << 30)]
    return ['const', str(r.randrange(-10 ** 9, 10 ** 9))]


CONST = {'9223372036854775807ll': 2 ** 63 - 1, '(-9223372036854775807ll - 1)': -2 ** 63, '4294967295u': 2 ** 32 - 1, '2147483648ll': 2 ** 31,
         '-2147483649ll': -2 ** 31 - 1, 'true': 1, 'false': 0, '3.75': 3, '-3.75': -3, '1e9': 10 ** 9, '0.5f': 0, "'A'": 65,
         'std::int8_t(-5)': -5, 'short(-300)': -300}


def const_value(t):
    if t in CONST:
        return CONST[t]
    if t.startswith('std::uint'):
        return int(t[t.index('(') + 1:-1].rstrip('u'))
    return int(t)


# ------------------------------------------------------------------------------------------------ generation
class Gen:
    def __init__(self, r, threads):
        self.r, self.threads = r, threads
        self.budget = r.randint(6, 45)
        self.names = [gen_name(r) for _ in range(4)]
        self.nkeys = 0
        self.nf = r.randint(1, 4)
        self.nc = r.randint(0, 2)

    def name(self):
        return self.r.choice(self.names) if self.r.randrange(3) else gen_name(self.r)

    def cond(self):
        return [self.r.choice(['d', 'v']), self.r.randint(1, 4), self.r.randrange(3)]

    def simple(self, inline):
        r = self.r
        k = r.randrange(6)
        if k == 0:
            return {'k': 'start', 'name': self.name()}
        if k == 1:
            return {'k': 'end', 'name': self.name()}
        if k == 2:
            return {'k': 'mark', 'level': r.randrange(3), 'name': self.name()}
        if k == 3:
            return {'k': 'count', 'name': self.name(), 'value': gen_value(r)}
        if k == 4:
            return {'k': 'series', 'name': self.name(), 'series': self.name(), 'value': gen_value(r)}
        return {'k': 'pair', 'name': self.name()}

    def stmts(self, depth, ctx, n=None):
        out = []
        for _ in range(self.r.randint(1, 5) if n is None else n):
            if self.budget <= 0:
                break
            self.budget -= 1
            out.append(self.stmt(depth, ctx))
        return out

    def stmt(self, depth, ctx):
        r = self.r
        k = r.randrange(30)
        dtor = ctx.get('dtor')
        if k < 5:
            return {'k': 'raii', 'style': r.choice(['lit', 'lit', 'arr', 'str']), 'name': self.name()}
        if k == 5 and not ctx.get('template'):
            self.nkeys += 1
            return {'k': 'pretty', 'key': self.nkeys}
        if k < 11 or depth <= 0:
            return self.simple(False)
        if k == 11:
            return {'k': 'block', 'a': self.stmts(depth - 1, ctx)}
        if k == 12 or k == 13:
            return {'k': 'for', 'n': r.randint(0, 4), 'a': self.stmts(depth - 1, dict(ctx, loop=True))}
        if k == 14:
            return {'k': 'while', 'n': r.randint(0, 3), 'a': self.stmts(depth - 1, dict(ctx, loop=True))}
        if k == 15:
            return {'k': 'if', 'c': self.cond(), 'a': self.stmts(depth - 1, ctx), 'b': self.stmts(depth - 1, ctx)}
        if k == 16 and ctx.get('loop'):
            return {'k': 'break', 'c': self.cond()}
        if k == 17 and ctx.get('loop'):
            return {'k': 'continue', 'c': self.cond()}
        if k == 18:
            return {'k': 'return', 'c': self.cond()}
        if k == 19 and not dtor:
            return {'k': 'throw', 'c': self.cond()}
        if k in (20, 21) and not dtor:
            return {'k': 'try', 'a': self.stmts(depth - 1, ctx), 'b': self.stmts(depth - 1, ctx)}
        if k in (22, 23, 24) and not dtor:
            return {'k': 'call', 'f': r.randrange(self.nf), 't': r.randrange(2)}
        if k == 25:
            return {'k': 'lambda', 'a': self.stmts(depth - 1, dict(ctx, loop=False))}
        if k == 26 and self.nc and not dtor and not ctx.get('ctor'):
            return {'k': 'obj', 'c': r.randrange(self.nc)}
        if k == 27:
            return {'k': 'switch', 'm': r.randint(1, 3), 'b': [self.stmts(depth - 1, dict(ctx, loop=False), 2) for _ in range(r.randint(1, 3))]}
        if k == 28:
            process = self.threads == 1 and r.randrange(2) == 0
            return {'k': 'cfg', 'process': process, 'on': r.randrange(2)}
        if k == 29:
            return {'k': 'line', 'a': [self.simple(True) for _ in range(r.randint(2, 4))]}
        return {'k': 'twice', 'name': self.name()}  # two scopes on one line of one block

    def program(self, index):
        r = self.r
        kinds = [r.choice(['free', 'free', 'inline', 'template', 'method']) for _ in range(self.nf)]
        kinds[0] = 'free'
        fns = []
        for k in kinds:
            self.budget = max(self.budget, 5)
            fns.append({'kind': k, 'file': r.randrange(3), 'relabel': r.randrange(4) == 0, 'a': self.stmts(3, {'template': k == 'template'}, r.randint(2, 6))})
        classes = []
        for _ in range(self.nc):
            self.budget = max(self.budget, 4)
            classes.append({'ctor': self.stmts(2, {'ctor': True}), 'dtor': self.stmts(2, {'dtor': True, 'ctor': True})})
        return {'index': index, 'fns': fns, 'classes': classes, 'arg': r.randint(0, 3), 'threads': self.threads, 'keys': self.nkeys,
                'ts': r.randrange(4) != 0, 'ps': r.randrange(4) != 0}


# ------------------------------------------------------------------------------------------------ printing
class Writer:
    def __init__(self, path, key):
        self.path, self.key, self.rows, self.line = path, key, [], 1

    def w(self, text):
        self.rows.append(text)
        self.line += 1

    def label(self, key, line, name):
        self.rows.append('#line %d "%s"' % (line, name))
        self.line, self.key = line, key

    def text(self):
        return '\n'.join(self.rows) + '\n'


LEVELS = ['GLOBAL', 'PROCESS', 'THREAD']


class Printer:
    def __init__(self, programs, seed):
        self.r = random.Random(seed)
        self.uid = 0
        self.keys = 0
        self.programs = programs
        self.files = []
        names = ['a.cpp', './sub dir/b.cpp', 'sub/../sub/c_%d.cpp' % self.r.randrange(1000)]
        self.writers = [self.open(n) for n in names]
        self.header = self.open('inl.h')
        decl = ['#ifndef DECL_H', '#define DECL_H', '#include "rt.h"', '#include <string>', '#include <scalopus_tracing/trace_macro.h>']
        for p in programs:
            decl.append('namespace p%d {' % p['index'])
            for i, f in enumerate(p['fns']):
                if f['kind'] == 'template':
                    decl.append('template <int N> void f%d(int d);' % i)
                elif f['kind'] == 'method':
                    decl.append('struct S%d { int x; void f(int d) const; };' % i)
                else:
                    decl.append('%svoid f%d(int d);' % ('inline ' if f['kind'] == 'inline' else '', i))
            decl.append('}')
        decl.append('#include <inl.h>')
        decl.append('#endif')
        self.decl = '\n'.join(decl) + '\n'
        for w in self.writers:
            w.w('#include "decl.h"')
            self.announce(w)
            for _ in range(self.r.choice([0, 0, 3, 300])):
                w.w('')
        self.announce(self.header)
        for p in programs:
            self.program(p)
        main = ['#include "decl.h"', 'namespace verif {', 'const Prog programs[] = {']
        for p in programs:
            main.append('{%d, &p%d::f0, %d, %d, %s, %s},' % (p['index'], p['index'], p['arg'], p['threads'], 'true' if p['ts'] else 'false', 'true' if p['ps'] else 'false'))
        main += ['};', 'const int program_count = %d;' % len(programs), '}']
        self.main = '\n'.join(main) + '\n'

    def open(self, path):
        self.keys += 1
        w = Writer(path, self.keys)
        return w

    def announce(self, w):
        w.w('namespace { const int verif_file_%d = verif::file(%d, __FILE__); }' % (w.key, w.key))

    def relabel(self, w):
        self.keys += 1
        name = self.r.choice(['/usr/src/x%d.cpp', 'gen %d.yy', 'caf\u00e9%d.cpp', 'C:/a/b%d.cc', 'x' * 300 + '%d.h']) % self.keys
        line = self.r.choice([1, 2, 77, 65530, 1000000])
        w.label(self.keys, line, name)
        self.announce(w)

    def program(self, p):
        n = p['index']
        h = self.header
        h.w('namespace p%d {' % n)
        for i, c in enumerate(p['classes']):
            h.w('struct C%d { int d; ' % i)
            h.w('explicit C%d(int d) : d(d) { int v = d; (void)v;' % i)
            self.stmts(h, c['ctor'], p)
            h.w('}')
            h.w('~C%d() { int v = d; (void)v;' % i)
            self.stmts(h, c['dtor'], p)
            h.w('} };')
        for i, f in enumerate(p['fns']):
            if f['kind'] in ('inline', 'template'):
                h.w(('template <int N> ' if f['kind'] == 'template' else 'inline ') + 'void f%d(int d) { int v = d; (void)v;' % i)
                self.stmts(h, f['a'], p)
                h.w('}')
        h.w('}')
        for i, f in enumerate(p['fns']):
            if f['kind'] in ('free', 'method'):
                w = self.writers[f['file']]
                if f['relabel']:
                    self.relabel(w)
                w.w('namespace p%d {' % n)
                w.w('void %s {' % ('f%d(int d)' % i if f['kind'] == 'free' else 'S%d::f(int d) const' % i))
                w.w('int v = d; (void)v;')
                self.stmts(w, f['a'], p)
                w.w('}')
                w.w('}')

    def stmts(self, w, a, p):
        for s in a:
            self.stmt(w, s, p)

    def value(self, v):
        return {'next': 'verif::next()', 'var': None, 'const': None}.get(v[0]) or (v[1] if v[0] == 'const' else 'v * %d + %d' % (v[1], v[2]))

    def cond(self, c):
        return '%s %% %d == %d' % (c[0], c[1], c[2])

    def l(self, s, name):
        self.uid += 1
        return lit(self.uid, name)

    def macro(self, s):
        k = s['k']
        if k == 'start':
            return 'TRACE_SCOPE_START(%s);' % self.l(s, s['name'])
        if k == 'end':
            return 'TRACE_SCOPE_END(%s);' % self.l(s, s['name'])
        if k == 'pair':
            return 'TRACE_SCOPE_START(%s); { TRACE_SCOPE_END(%s); }' % (self.l(s, s['name']), self.l(s, s['name']))
        if k == 'mark':
            return 'TRACE_MARK_EVENT_%s(%s);' % (LEVELS[s['level']], self.l(s, s['name']))
        if k == 'count':
            return 'TRACE_COUNT(%s, %s);' % (self.l(s, s['name']), self.value(s['value']))
        return 'TRACE_COUNT_SERIES(%s, %s, %s);' % (self.l(s, s['name']), self.l(s, s['series']), self.value(s['value']))

    def stmt(self, w, s, p):
        k = s['k']
        s['key'] = s.get('key')
        self.uid += 1
        u = self.uid
        if k == 'raii':
            if s['style'] == 'arr':
                w.w('static constexpr char n%d[] = %s;' % (u, self.l(s, s['name'])))
                arg = 'n%d' % u
            elif s['style'] == 'str':
                arg = 'std::string(%s)' % self.l(s, s['name'])
            else:
                arg = self.l(s, s['name'])
            s['at'] = (w.key, w.line)
            w.w('TRACE_SCOPE_RAII(%s);' % arg)
        elif k == 'twice':
            s['at'] = (w.key, w.line)
            w.w('TRACE_SCOPE_RAII(%s); TRACE_SCOPE_RAII(%s);' % (self.l(s, s['name']), self.l(s, s['name'])))
        elif k == 'pretty':
            s['at'] = (w.key, w.line)
            w.w('verif::pretty(%d, __PRETTY_FUNCTION__); TRACE_PRETTY_FUNCTION();' % s['key'])
        elif k in ('start', 'end', 'mark', 'count', 'series', 'pair'):
            s['at'] = (w.key, w.line)
            w.w(self.macro(s))
        elif k == 'line':
            for e in s['a']:
                e['at'] = (w.key, w.line)
            w.w(' '.join('{ %s }' % self.macro(e) for e in s['a']))
        elif k == 'block':
            w.w('{')
            self.stmts(w, s['a'], p)
            w.w('}')
        elif k == 'for':
            w.w('for (int v = 0; v < %d; v++) {' % s['n'])
            self.stmts(w, s['a'], p)
            w.w('}')
        elif k == 'while':
            w.w('for (int c%d = 0; c%d < %d;) { int v = c%d++; (void)v;' % (u, u, s['n'], u))
            self.stmts(w, s['a'], p)
            w.w('}')
        elif k == 'if':
            w.w('if (%s)' % self.cond(s['c']))
            w.w('{')
            self.stmts(w, s['a'], p)
            w.w('} else {')
            self.stmts(w, s['b'], p)
            w.w('}')
        elif k in ('break', 'continue', 'return'):
            w.w('if (%s) %s;' % (self.cond(s['c']), k))
        elif k == 'throw':
            w.w('if (%s) throw verif::Ex{ v };' % self.cond(s['c']))
        elif k == 'try':
            w.w('try {')
            self.stmts(w, s['a'], p)
            w.w('} catch (const verif::Ex& e) { int v = e.v; (void)v;')
            self.stmts(w, s['b'], p)
            w.w('}')
        elif k == 'call':
            f = p['fns'][s['f']]
            name = {'template': 'f%d<%d>' % (s['f'], s['t']), 'method': 'S%d{ 1 }.f' % s['f']}.get(f['kind'], 'f%d' % s['f'])
            w.w('if (d > 0) %s(d - 1);' % name)
        elif k == 'lambda':
            w.w('[&]() { ')
            self.stmts(w, s['a'], p)
            w.w('}();')
        elif k == 'obj':
            w.w('C%d o%d(d);' % (s['c'], u))
        elif k == 'switch':
            w.w('switch (v %% %d) {' % s['m'])
            for i, b in enumerate(s['b']):
                w.w('%s: {' % ('default' if i == len(s['b']) - 1 else 'case %d' % i))
                self.stmts(w, b, p)
                w.w('} break;')
            w.w('}')
        elif k == 'cfg':
            w.w('TRACING_CONFIG_%s_STATE_RAII(%s);' % ('PROCESS' if s['process'] else 'THREAD', 'true' if s['on'] else 'false'))


# ------------------------------------------------------------------------------------------------ interpretation
class Return(Exception):
    pass


class Break(Exception):
    pass


class Continue(Exception):
    pass


class Ex(Exception):
    def __init__(self, v):
        self.v = v


class TooLong(Exception):
    pass


class Interp:
    """the events a thread of the program emits: (kind, id as (file, line) or (file, name), level, value, name, states)"""

    def __init__(self, p):
        self.p = p
        self.ev = []
        self.ts, self.ps = p['ts'], p['ps']
        self.counter = 0
        self.features = set()
        self.steps = 0

    def run(self):
        try:
            self.call(0, self.p['arg'])
        except Ex:
            pass
        self.ev.append(('S', None, 0, 0, None, self.ts, self.ps))
        return self.ev

    def put(self, kind, ident, level=0, value=0, name=None):
        self.ev.append((kind, ident, level, value, name, self.ts, self.ps))
        if len(self.ev) > MAX_EVENTS:
            raise TooLong()

    def call(self, f, d):
        if d < self.p['arg']:
            self.features.add('call')
        self.body(self.p['fns'][f]['a'], d, d)

    def body(self, a, d, v):
        try:
            self.block(a, d, v)
        except Return:
            self.features.add('early exit')

    def block(self, a, d, v):
        self.steps += 1
        if self.steps > 20000:
            raise TooLong()
        cleanups = []
        try:
            for s in a:
                self.stmt(s, d, v, cleanups)
        finally:
            for c in reversed(cleanups):
                c()

    @staticmethod
    def holds(c, d, v):
        x = d if c[0] == 'd' else v
        return (abs(x) % c[1]) * (1 if x >= 0 else -1) == c[2]

    def value(self, val, v):
        if val[0] == 'next':
            self.counter += 1
            return self.counter
        if val[0] == 'var':
            return v * val[1] + val[2]
        return const_value(val[1])

    def simple(self, s, v):
        k = s['k']
        fk = s['at'][0]
        if k == 'start':
            self.put('E', (fk, s['name']), name=s['name'])
        elif k == 'end':
            self.put('X', (fk, s['name']), name=None)
        elif k == 'pair':
            self.put('E', (fk, s['name']), name=s['name'])
            self.put('X', (fk, s['name']), name=s['name'])
        elif k == 'mark':
            self.put('M', (fk, s['name']), s['level'], name=s['name'])
        elif k == 'count':
            n = s['name'] + b'/'
            self.put('C', (fk, n), 0, self.value(s['value'], v), n)
        elif k == 'series':
            n = s['name'] + b'/' + s['series']
            self.put('C', (fk, n), 0, self.value(s['value'], v), n)
        self.features.add(k)

    def stmt(self, s, d, v, cleanups):
        k = s['k']
        if k in ('raii', 'pretty'):
            name = s['name'] if k == 'raii' else s['key']
            if k == 'pretty':
                self.ev.append(('P', s['key'], 0, 0, None, None, None))
            self.put('E', s['at'], name=name)
            cleanups.append(lambda: self.put('X', s['at'], name=name))
            self.features.add(k)
        elif k == 'twice':
            for _ in range(2):
                self.put('E', s['at'], name=s['name'])
                cleanups.append(lambda: self.put('X', s['at'], name=s['name']))
            self.features.add('raii')
        elif k in ('start', 'end', 'mark', 'count', 'series', 'pair'):
            self.simple(s, v)
        elif k == 'line':
            for e in s['a']:
                self.simple(e, v)
        elif k == 'block':
            self.block(s['a'], d, v)
        elif k in ('for', 'while'):
            for i in range(s['n']):
                try:
                    self.block(s['a'], d, i)
                except Break:
                    self.features.add('early exit')
                    break
                except Continue:
                    self.features.add('early exit')
                    continue
        elif k == 'if':
            self.block(s['a'] if self.holds(s['c'], d, v) else s['b'], d, v)
        elif k == 'break':
            if self.holds(s['c'], d, v):
                raise Break()
        elif k == 'continue':
            if self.holds(s['c'], d, v):
                raise Continue()
        elif k == 'return':
            if self.holds(s['c'], d, v):
                raise Return()
        elif k == 'throw':
            if self.holds(s['c'], d, v):
                raise Ex(v)
        elif k == 'try':
            try:
                self.block(s['a'], d, v)
            except Ex as e:
                self.features.add('exception')
                x = e.v
            else:
                return
            self.block(s['b'], d, x)
        elif k == 'call':
            if d > 0:
                self.call(s['f'], d - 1)
        elif k == 'lambda':
            self.body(s['a'], d, v)
        elif k == 'obj':
            self.body(self.p['classes'][s['c']]['ctor'], d, d)
            cleanups.append(lambda: self.body(self.p['classes'][s['c']]['dtor'], d, d))
        elif k == 'switch':
            x = (abs(v) % s['m']) * (1 if v >= 0 else -1)
            n = len(s['b'])
            self.block(s['b'][x if 0 <= x < n - 1 else n - 1], d, v)
        elif k == 'cfg':
            if s['process']:
                prev, self.ps = self.ps, bool(s['on'])

                def undo():
                    self.ps = prev
            else:
                prev, self.ts = self.ts, bool(s['on'])

                def undo():
                    self.ts = prev
            cleanups.append(undo)
            self.features.add('cfg')


# ------------------------------------------------------------------------------------------------ running
FLAGS = {'asan': ['-fsanitize=address', '-fno-omit-frame-pointer'], 'tsan': ['-fsanitize=thread', '-fno-omit-frame-pointer']}


def write_files(d, pr):
    for rel, text in [('decl.h', pr.decl), ('inl.h', pr.header.text()), ('main.cpp', pr.main)] + [(w.path, w.text()) for w in pr.writers]:
        p = os.path.normpath(os.path.join(d, rel))
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as f:
            f.write(text)
    os.makedirs(os.path.join(d, 'sub'), exist_ok=True)
    os.makedirs(os.path.join(d, 'sub dir'), exist_ok=True)
    return [w.path for w in pr.writers] + ['main.cpp']


class Tool:
    def __init__(self, ck, variant, scratch):
        self.ck, self.variant = ck, variant
        repo = ck.REPO
        self.inc = ['-I' + os.path.join(repo, m, 'include') for m in ('scalopus_tracing', 'scalopus_general', 'scalopus_interface')]
        b = os.path.join(ck.BUILD, variant)
        self.libs = []
        for m, n in (('scalopus_tracing', 'scalopus_scope_tracing'), ('scalopus_general', 'scalopus_general'), ('scalopus_interface', 'scalopus_interface')):
            self.libs += ['-L' + os.path.join(b, m), '-Wl,-rpath,' + os.path.join(b, m), '-l' + n]
        self.base = ['/usr/bin/g++', '-std=c++14', '-O1', '-g0', '-w', '-I' + RT, '-pthread'] + FLAGS[variant] + self.inc
        self.env = ck.run_env(scratch)
        self.objs = []
        for src in (os.path.join(RT, 'rt.cpp'), os.path.join(repo, 'scalopus_tracing', 'src', 'scope_trace_raii.cpp')):
            o = os.path.join(scratch, 'macro-%s-%s.o' % (variant, os.path.basename(src)[:-4]))
            r = subprocess.run(self.base + ['-c', src, '-o', o], env=self.env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                print(r.stdout[-3000:])
                ck.die('the runtime of the generated programs does not compile')
            self.objs.append(o)

    def compile(self, d, srcs):
        exe = os.path.join(d, 'prog')
        objs = []
        for i, s in enumerate(srcs):
            o = os.path.join(d, 'o%d.o' % i)
            r = subprocess.run(self.base + ['-I.', '-c', s, '-o', o], cwd=d, env=self.env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
            if r.returncode:
                return None, r.stdout[-1500:]
            objs.append(o)
        r = subprocess.run(self.base + objs + self.objs + self.libs + ['-o', exe], cwd=d, env=self.env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
        return (exe, '') if r.returncode == 0 else (None, r.stdout[-1500:])

    def run(self, d, exe, timeout=60):
        out = os.path.join(d, 'log.txt')
        try:
            r = subprocess.run([exe, out], cwd=d, env=self.env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
            rc, text = r.returncode, r.stdout.decode('utf-8', 'replace')
        except subprocess.TimeoutExpired:
            rc, text = 'hang', ''
        return rc, text, open(out).read() if os.path.exists(out) else ''


def unhex(s):
    return bytes.fromhex(s[1:])


def parse(log):
    files, runs, cur, begun, done = {}, {}, None, None, set()
    for row in log.splitlines():
        f = row.split(' ')
        if f[0] == 'F':
            files[int(f[1])] = unhex(f[2])
        elif f[0] == 'B':
            begun = int(f[1])
        elif f[0] == 'D':
            done.add(int(f[1]))
        elif f[0] == 'T':
            cur = runs.setdefault(int(f[1]), [])
            cur.append([])
        else:
            cur[-1].append((f[0], int(f[1]), int(f[2]), int(f[3]), f[4] == '1', f[5] == '1', f[6] == '1', unhex(f[7])))
    return files, runs, begun, done


def ident(files, i):
    fk, x = i
    base = zlib.crc32(files.get(fk, b'?missing'))
    return (base + (zlib.crc32(x) if isinstance(x, bytes) else x)) % M32


def compare(files, want, got):
    """the first difference, or None"""
    pretty = {}
    for i, w in enumerate(want):
        if i >= len(got):
            return 'event %d missing: %r' % (i, w)
        g = got[i]
        if w[0] != g[0]:
            return 'event %d: expected %r, got %r' % (i, w, g)
        if w[0] == 'P':
            if g[1] != w[1]:
                return 'event %d: expected %r, got %r' % (i, w, g)
            pretty[w[1]] = g[7]
            continue
        if g[5] != w[5] or g[6] != w[6]:
            return 'event %d %r: thread and process state should be %s %s, are %s %s' % (i, w, w[5], w[6], g[5], g[6])
        if w[0] == 'S':
            continue
        if g[1] != ident(files, w[1]):
            return 'event %d %r: id %d, documented id %d' % (i, w, g[1], ident(files, w[1]))
        if g[2] != w[2] or g[3] != w[3]:
            return 'event %d %r: level/value %d %d' % (i, w, g[2], g[3])
        name = pretty.get(w[4]) if isinstance(w[4], int) else w[4]
        if name is not None:
            if not g[4]:
                return 'event %d %r: emitted before its name was registered' % (i, w)
            if g[7] != name:
                return 'event %d %r: registered as %r' % (i, w, g[7])
    if len(got) > len(want):
        return 'unexpected event %d: %r' % (len(want), got[len(want)])
    return None


def collides(files, wants):
    """two different names under one documented id: outside of the property (a CRC collision)"""
    seen = {}
    for want in wants:
        for w in want:
            if w[0] in 'PS' or w[4] is None:
                continue
            i = ident(files, w[1])
            if seen.setdefault(i, (w[1], w[4])) != (w[1], w[4]) and seen[i][1] != w[4]:
                return True
    return False


def evaluate(tool, programs, seed, d, again=1):
    """compiles and runs programs; returns ({index: failure text}, want per program)"""
    os.makedirs(d, exist_ok=True)
    for p in programs:
        p.pop('want', None)
    pr = Printer(programs, seed)
    wants = {}
    for p in programs:
        it = Interp(p)
        wants[p['index']] = it.run()
        p['features'] = sorted(it.features)
    srcs = write_files(d, pr)
    exe, err = tool.compile(d, srcs)
    if exe is None:
        return {programs[0]['index'] if len(programs) == 1 else None: 'does not compile: ' + err}, wants, pr
    res = {}
    for _ in range(again):
        rc, text, log = tool.run(d, exe)
        files, runs, begun, done = parse(log)
        if rc == 0 and collides(files, list(wants.values())):
            return {}, wants, pr
        for p in programs:
            i = p['index']
            for t, got in enumerate(runs.get(i, [])):
                diff = compare(files, wants[i], got)
                if diff and i not in res:
                    res[i] = 'program %d thread %d: %s' % (i, t, diff)
        if rc != 0:
            i = begun if begun is not None else programs[0]['index']
            if i in done:
                i = programs[-1]['index']
            res.setdefault(i, 'program %s ended with %s: %s' % (i, rc, tool.ck.interesting(text) or text[-500:]))
        else:
            for p in programs:
                if p['index'] not in runs:
                    res.setdefault(p['index'], 'program %d did not run' % p['index'])
    return res, wants, pr


# ------------------------------------------------------------------------------------------------ shrinking
def lists(p):
    """all statement lists of a program"""
    out = []

    def walk(a):
        out.append(a)
        for s in a:
            for key in ('a', 'b'):
                x = s.get(key)
                if isinstance(x, list) and x and isinstance(x[0], list):
                    for y in x:
                        walk(y)
                elif isinstance(x, list) and s['k'] != 'line':
                    walk(x)

    for f in p['fns']:
        walk(f['a'])
    for c in p['classes']:
        walk(c['ctor'])
        walk(c['dtor'])
    return out


def candidates(p):
    n = len(lists(p))
    for li in range(n):
        m = len(lists(p)[li])
        size = m
        while size >= 1:
            for s in range(0, m, size):
                q = copy.deepcopy(p)
                a = lists(q)[li]
                del a[s:s + size]
                yield q
            size //= 2
        for i in range(m):
            s = lists(p)[li][i]
            if s['k'] in ('block', 'if', 'try', 'for', 'while', 'lambda'):
                q = copy.deepcopy(p)
                a = lists(q)[li]
                a[i:i + 1] = a[i]['a']
                yield q
            if s['k'] == 'line' and len(s['a']) > 1:
                q = copy.deepcopy(p)
                lists(q)[li][i]['a'].pop()
                yield q
            if len(s.get('name', b'')) > 1:
                q = copy.deepcopy(p)
                lists(q)[li][i]['name'] = s['name'][:len(s['name']) // 2]
                yield q
    if p['arg']:
        q = copy.deepcopy(p)
        q['arg'] -= 1
        yield q
    if p['threads'] > 1:
        q = copy.deepcopy(p)
        q['threads'] = 1
        yield q


def valid(p):
    # a removed loop may leave a break behind
    def ok(a, loop):
        for s in a:
            if s['k'] in ('break', 'continue') and not loop:
                return False
            inner = loop
            if s['k'] in ('for', 'while'):
                inner = True
            if s['k'] in ('lambda', 'switch'):
                inner = False
            if s['k'] == 'switch':
                if not all(ok(b, inner) for b in s['b']):
                    return False
                continue
            if s['k'] == 'line':
                continue
            if not ok(s.get('a', []), inner) or not ok(s.get('b', []), inner):
                return False
        return True

    try:
        Interp_check = [ok(f['a'], False) for f in p['fns']] + [ok(c[k], False) for c in p['classes'] for k in ('ctor', 'dtor')]
        return all(Interp_check)
    except Exception:
        return False


def shrink(tool, p, seed, d, budget, again):
    end = time.time() + budget
    best = p
    n = [0]

    def fails(q):
        n[0] += 1
        sub = os.path.join(d, 's%d' % n[0])
        try:
            res, _, _ = evaluate(tool, [q], seed, sub, again)
        except TooLong:
            res = {}
        except subprocess.TimeoutExpired:
            res = {}
        tool.ck.shutil.rmtree(sub, ignore_errors=True)
        return bool(res)

    with ThreadPoolExecutor(max_workers=8) as pool:
        improved = True
        while improved and time.time() < end:
            improved = False
            cands = [q for q in candidates(best) if valid(q)]
            pos = 0
            while pos < len(cands) and time.time() < end:
                chunk = cands[pos:pos + 8]
                pos += 8
                rs = list(pool.map(fails, chunk))
                hit = [q for q, f in zip(chunk, rs) if f]
                if hit:
                    best = hit[0]
                    improved = True
                    break
    return best


def enc(o):
    if isinstance(o, bytes):
        return {'hex': o.hex()}
    raise TypeError


def dec(o):
    return bytes.fromhex(o['hex']) if set(o) == {'hex'} else o


# ------------------------------------------------------------------------------------------------ campaigns
def make(variant, quick, thorough, concurrent):
    """a campaign: batches of programs; quick/thorough = (batches, seconds)"""

    def run(tier, seed, scratch, ck):
        res = ck.Result()
        batches, seconds = quick if tier == 'quick' else thorough
        end = time.time() + seconds
        tool = Tool(ck, variant, scratch.path)
        again = 3 if concurrent else 1

        def one(b):
            if time.time() > end:
                return None
            programs = []
            for i in range(12):
                r = random.Random('%d/%d/%d/%s' % (seed, b, i, variant))
                g = Gen(r, r.choice([2, 4, 8]) if concurrent else r.choice([1, 1, 1, 1, 2, 4]))
                p = g.program(i)
                try:
                    Printer([p], 0)
                    Interp(p).run()
                except TooLong:
                    res.discarded += 1
                    continue
                programs.append(p)
            if not programs:
                return None
            d = scratch.sub('macro-%s-%d' % (variant, b))
            out = evaluate(tool, programs, seed * 1000 + b, d, 1)
            ck.shutil.rmtree(d, ignore_errors=True)
            return programs, out, seed * 1000 + b

        failure = None
        with ThreadPoolExecutor(max_workers=ck.NCPU) as pool:
            pos = 0
            while pos < batches and time.time() < end and failure is None:
                for r in pool.map(one, range(pos, min(batches, pos + ck.NCPU))):
                    if r is None:
                        continue
                    programs, (bad, wants, pr), pseed = r
                    for p in programs:
                        res.evaluations += 1
                        w = wants[p['index']]
                        kinds = {e[0] for e in w}
                        for f in p['features']:
                            res.labels[f] = res.labels.get(f, 0) + 1
                        if len(w) >= 6 and len(kinds) >= 3 and ({'early exit', 'exception', 'call'} & set(p['features']) or p['threads'] > 1):
                            key = hashlib.sha1(json.dumps([p['fns'], p['classes'], p['arg']], default=enc, sort_keys=True).encode()).hexdigest()[:16]
                            res.distinct.add(key)
                            if len(res.samples) < 3:
                                res.samples.append('%d functions, %d threads, %d events: %s' % (len(p['fns']), p['threads'], len(w), ' '.join(e[0] for e in w)[:120]))
                    if bad and failure is None:
                        failure = (programs, bad, pseed)
                pos += ck.NCPU
        if failure:
            programs, bad, pseed = failure
            text = next(iter(bad.values()))
            which = [i for i in bad if i is not None]
            d = scratch.sub('macro-fail')
            cands = [p for p in programs if p['index'] in which] if which else programs
            found = None
            for n, p in enumerate(cands):
                b2, _, _ = evaluate(tool, [p], pseed, os.path.join(d, 'c%d' % n), 12 if concurrent else 3)
                if b2:
                    found = (p, next(iter(b2.values())))
                    break
            if found:
                p, text = found
                budget = min(90, ck.DEADLINE - time.time() - 60)
                p = shrink(tool, p, pseed, d, budget, 12 if concurrent or p['threads'] > 1 else 1) if budget > 0 else p
                programs = [p]
                b2, _, _ = evaluate(tool, [p], pseed, os.path.join(d, 'final'), 12)
                if b2:
                    text = next(iter(b2.values()))
            path = store(ck, variant, programs, pseed, text)
            res.failure = (path, text)
        return res

    return run


def store(ck, variant, programs, pseed, text):
    os.makedirs(os.path.join(ck.VERIF, 'replays'), exist_ok=True)
    body = json.dumps({'variant': variant, 'seed': pseed, 'programs': programs, 'failure': text}, default=enc, indent=1)
    name = 'programs' if variant == 'asan' else 'threads'
    path = os.path.join(ck.VERIF, 'replays', 'C13-%s-%s.json' % (name, hashlib.sha1(body.encode()).hexdigest()[:10]))
    with open(path, 'w') as f:
        f.write(body + '\n')
    pr = Printer(programs, pseed)
    with open(path + '.txt', 'w') as f:
        f.write('%s\n\nreplay: python3 check.py C13 --replay %s\n' % (text, path))
        for n, t in [('decl.h', pr.decl), ('inl.h', pr.header.text()), ('main.cpp', pr.main)] + [(w.path, w.text()) for w in pr.writers]:
            f.write('\n==== %s\n%s' % (n, t))
    return path


def replay(path, ck):
    j = json.load(open(path), object_hook=dec)
    ck.build(j['variant'], ['scalopus_scope_tracing'])
    sc = ck.Scratch('C13')
    try:
        tool = Tool(ck, j['variant'], sc.path)
        bad, _, _ = evaluate(tool, j['programs'], j['seed'], sc.sub('replay'), 12)
    finally:
        sc.close()
    for t in bad.values():
        print(t)
    print('replay:', 'failed' if bad else 'held')
    return 1 if bad else 0
