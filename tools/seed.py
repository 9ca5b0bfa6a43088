#!/usr/bin/env python3
"""Development helper for planted bugs (never used by a check).
  seed.py new ID PROP   < JSON {"edits":[[file,old,new],...],"needs":..,"breaks":..,"demo":"cpp","inc":[],"libs":[]}
  seed.py try ID [--nocheck]    demo on the clean tree, build+tests+demo+check with the patch
"""
import json, os, subprocess, sys, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
DEMO = r'''#!/bin/bash
# exit 0: the property holds; nonzero: it is violated
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 1
trap 'rm -rf "$t"' EXIT
B=/repo/_build
export LTTNG_UST_REGISTER_TIMEOUT=0 TMPDIR=$t
inc="%(inc)s"
libs="%(libs)s"
flags=""
for i in $inc; do flags="$flags -I/repo/$i"; done
for l in $libs; do
  f=$(ls $B/*/lib$l.so $B/*/lib$l.a 2>/dev/null | head -1)
  flags2="$flags2 $f -Wl,-rpath,$(dirname "$f")"
done
g++ -std=c++17 -w -g -O1 -pthread "$d/demo.cpp" $flags $flags2 $flags2 -ldl -Wl,-rpath-link,$B/scalopus_interface:$B/scalopus_general:$B/scalopus_transport:$B/scalopus_tracing -o "$t/demo" || exit 3
cd "$t" && timeout 120 ./demo
'''
INC = ['scalopus_interface/include', 'scalopus_interface/include_consumer', 'scalopus_transport/include',
       'scalopus_general/include', 'scalopus_general/include_consumer', 'scalopus_tracing/include',
       'scalopus_tracing/include_consumer', 'scalopus_tracing/src', 'scalopus_transport/src']


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def apply_edits(edits):
    for f, old, new in edits:
        p = os.path.join(REPO, f)
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))


def new(id, prop, spec):
    assert not sh('git -C /repo status --porcelain -uno').stdout.strip()
    d = os.path.join(ROOT, 'seeded', id)
    os.makedirs(d, exist_ok=True)
    try:
        apply_edits(spec['edits'])
        open(d + '/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
    finally:
        sh('git -C /repo checkout -- .')
    if 'demo_sh' in spec:
        open(d + '/demo.sh', 'w').write(spec['demo_sh'])
    else:
        open(d + '/demo.sh', 'w').write(DEMO % {'inc': ' '.join(spec.get('inc', INC)), 'libs': ' '.join(spec['libs'])})
    if 'demo' in spec:
        open(d + '/demo.cpp', 'w').write(spec['demo'])
    for n, t in spec.get('files', {}).items():
        os.makedirs(os.path.dirname(d + '/' + n), exist_ok=True)
        open(d + '/' + n, 'w').write(t)
    json.dump({'property': prop, 'needs': spec['needs'], 'what_it_breaks': spec['breaks']}, open(d + '/meta.json', 'w'), indent=1)


def demo(id):
    return sh('bash %s/seeded/%s/demo.sh' % (ROOT, id), cwd=REPO)


def attempt(id, check=True, seed='1'):
    prop = json.load(open('%s/seeded/%s/meta.json' % (ROOT, id)))['property']
    assert not sh('git -C /repo status --porcelain -uno').stdout.strip()
    b = sh('bash /opt/vp/build.sh')
    assert b.returncode == 0
    r = demo(id)
    print(id, prop, 'demo clean:', r.returncode, '' if r.returncode == 0 else r.stdout[-1500:])
    a = sh('git -C /repo apply %s/seeded/%s/patch.diff' % (ROOT, id))
    try:
        if a.returncode:
            print('  does not apply', a.stdout); return
        t = sh('bash /opt/vp/test.sh /tmp/seed_t.json')
        res = json.load(open('/tmp/seed_t.json'))
        print('  tests passed %d failed %s' % (len(res['passed']), res['failed']), '' if len(res['passed']) == 8 else t.stdout[-1500:])
        r = demo(id)
        print('  demo patched:', r.returncode, r.stdout.strip()[-300:])
        if check:
            c = sh('VERIF_SEED=%s VERIF_TIER=quick python3 check.py %s --tier quick --seed %s' % (seed, prop, seed), cwd=ROOT)
            print('  check exit', c.returncode, [l for l in c.stdout.splitlines() if 'VIOLATION' in l], c.stdout.strip()[-400:] if c.returncode != 1 else '')
    finally:
        sh('git -C /repo checkout -- .')
        sh('bash /opt/vp/build.sh')


if sys.argv[1] == 'new':
    new(sys.argv[2], sys.argv[3], json.load(sys.stdin))
else:
    for id in [a for a in sys.argv[2:] if not a.startswith('-')]:
        attempt(id, '--nocheck' not in sys.argv)
