#!/usr/bin/env python3
"""check.py <ID> [--tier quick|thorough] [--seed N] [--replay FILE] | --setup

Decides one property: builds /repo's working tree and the harness(es) of the property, runs the generated-input
campaign(s), shrinks a failure to a minimal tape, replays it, writes evidence/<ID>.json.
Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken. Exit 2: the check itself could not run.
"""
import argparse, fcntl, hashlib, json, os, random, shutil, signal, struct, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build')))
sys.path.insert(0, VERIF)
NCPU = min(8, os.cpu_count() or 4)
STALL = [0]  # the longest time this process was not scheduled during a campaign
DEADLINE = time.time() + 700  # quick checks are given 900 s: no shrinking beyond this

VARIANTS = {
    'asan': '-fsanitize=address -fno-omit-frame-pointer',
    'tsan': '-fsanitize=thread -fno-omit-frame-pointer',
    'plain': '',
}
ENV_CLEAN = {'PATH': '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin', 'HOME': '/tmp', 'LC_ALL': 'C.UTF-8'}


def run_env(scratch):
    e = dict(ENV_CLEAN)
    e['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=86:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=0'
    e['TSAN_OPTIONS'] = 'halt_on_error=1:exitcode=66:second_deadlock_stack=1:suppressions=' + os.path.join(VERIF, 'harness', 'tsan.supp')
    e['TMPDIR'] = scratch
    e['VERIF_SCRATCH'] = scratch
    e['LTTNG_UST_REGISTER_TIMEOUT'] = '0'
    e['LTTNG_HOME'] = scratch
    return e


def die(msg):
    print('ERROR', msg, flush=True)
    sys.exit(2)


# ------------------------------------------------------------------------------------------------ build
def tree_hash():
    """content hash of all build inputs: a file with changed content but an old mtime must be rebuilt."""
    res = {}
    for base, skip in ((REPO, {'.git', '_build', 'build'}), (os.path.join(VERIF, 'harness'), set()),
                       (os.path.join(VERIF, 'shims'), set()), (os.path.join(VERIF, 'cmake'), set())):
        for root, dirs, files in os.walk(base):
            dirs[:] = [d for d in dirs if d not in skip]
            for f in files:
                p = os.path.join(root, f)
                try:
                    with open(p, 'rb') as fh:
                        res[p] = hashlib.sha1(fh.read()).hexdigest()
                except OSError:
                    pass
    return res


def build(variant, targets):
    os.makedirs(BUILD, exist_ok=True)
    d = os.path.join(BUILD, variant)
    with open(os.path.join(BUILD, variant + '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        now = tree_hash()
        stamp = os.path.join(BUILD, variant + '.stamp.json')
        old, when = {}, 0
        if os.path.exists(stamp):
            try:
                s = json.load(open(stamp))
                old, when = s['files'], s['when']
            except Exception:
                old = {}
        if os.path.isdir(d):
            stale = not old or set(old) != set(now)
            for p, h in now.items():
                if old.get(p) != h and p in old and os.path.getmtime(p) <= when:
                    stale = True
            if stale:
                shutil.rmtree(d)
        if os.path.exists(stamp):
            os.remove(stamp)
        env = dict(ENV_CLEAN)
        t0 = time.time()
        cfg = ['cmake', '-S', REPO, '-B', d, '-G', 'Ninja', '-DCMAKE_C_COMPILER=/usr/bin/gcc',
               '-DCMAKE_CXX_COMPILER=/usr/bin/g++', '-DCMAKE_BUILD_TYPE=None',
               '-DCMAKE_CXX_FLAGS=-O1 -g1 ' + VARIANTS[variant], '-DCMAKE_C_FLAGS=-O1 -g1 ' + VARIANTS[variant],
               '-DBUILD_TESTING=OFF', '-DCMAKE_POLICY_VERSION_MINIMUM=3.5', '-DSCALOPUS_USE_EXTERNAL_JSON=ON',
               '-DSCALOPUS_USE_EXTERNAL_PYBIND=ON', '-DCMAKE_DISABLE_FIND_PACKAGE_pybind11=ON',
               '-DCMAKE_PROJECT_Scalopus_INCLUDE=' + os.path.join(VERIF, 'cmake', 'inject.cmake')]
        r = subprocess.run(cfg, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            print(r.stdout[-6000:])
            die('cmake configuration failed')
        r = subprocess.run(['ninja', '-C', d] + targets, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            print(r.stdout[-6000:])
            die('build failed')
        json.dump({'files': now, 'when': t0}, open(stamp, 'w'))
        print('built %s %s in %.1fs' % (variant, ' '.join(targets), time.time() - t0), flush=True)
    return d


def binary(variant, target):
    return os.path.join(BUILD, variant, 'verif_harness', target)


# ------------------------------------------------------------------------------------------------ scratch
class Scratch:
    def __init__(self, pid):
        self.path = os.path.join(BUILD, 'scratch-%s-%d' % (pid, os.getpid()))
        shutil.rmtree(self.path, ignore_errors=True)
        os.makedirs(self.path)

    def sub(self, name):
        p = os.path.join(self.path, name)
        os.makedirs(p, exist_ok=True)
        return p

    def close(self):
        shutil.rmtree(self.path, ignore_errors=True)


def kill_group(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass


# ------------------------------------------------------------------------------------------------ one campaign
class Result:
    def __init__(self):
        self.evaluations = 0
        self.discarded = 0
        self.distinct = set()
        self.labels = {}
        self.samples = []
        self.failure = None  # (kind, message, tape)


def read_journal(path):
    try:
        with open(path, 'rb') as f:
            head = f.read(16)
            if len(head) < 16:
                return 0, []
            idx, n = struct.unpack('<QQ', head)
            data = f.read(8 * n)
            return idx, list(struct.unpack('<%dQ' % (len(data) // 8), data))
    except OSError:
        return 0, []


def classify(rc):
    if rc == 0:
        return None
    if rc == 1:
        return 'hard'
    if rc == 3:
        return 'soft'
    if rc == 66:
        return 'tsan'
    if rc == 'hang':
        return 'hang'
    return 'crash'


def tail(path, n=3000):
    try:
        with open(path, 'rb') as f:
            f.seek(0, 2)
            size = f.tell()
            f.seek(max(0, size - n))
            return f.read().decode('utf-8', 'replace')
    except OSError:
        return ''


def interesting(log):
    """the lines of a log worth showing"""
    lines = log.splitlines()
    keep = [l for l in lines if l.startswith('FAIL') or 'ERROR: AddressSanitizer' in l or 'WARNING: ThreadSanitizer' in l
            or 'terminate called' in l or 'what():' in l or 'SUMMARY' in l]
    return ' | '.join(keep)[:600]


def campaign(pid, camp, tier, seed, scratch):
    """runs the campaign's workers; returns a Result"""
    res = Result()
    t = dict(camp.get('common', {}), **camp[tier])
    workers = t.get('workers', NCPU)
    cases = t['cases']
    per = max(1, -(-cases // workers))
    seconds = t['seconds']
    case_timeout = camp.get('case_timeout', 60)
    exe = binary(camp['variant'], camp['target'])
    procs = []
    for w in range(workers):
        sc = scratch.sub('%s-w%d' % (camp['name'], w))
        out, jn, log = os.path.join(sc, 'out.json'), os.path.join(sc, 'journal'), os.path.join(sc, 'log')
        env = run_env(sc)
        env.update(camp.get('env', {}))
        lf = open(log, 'wb')
        p = subprocess.Popen([exe, '--run', str(seed), str(w * per), str(per), str(seconds), out, jn], env=env,
                             stdout=lf, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, cwd=sc, start_new_session=True)
        lf.close()
        procs.append(dict(p=p, out=out, jn=jn, log=log, idx=-1, since=time.time(), rc=None, sc=sc))
    failed = None
    while any(q['rc'] is None for q in procs):
        t1 = time.time()
        time.sleep(0.05)
        STALL[0] = max(STALL[0], time.time() - t1)
        for q in procs:
            if q['rc'] is not None:
                continue
            rc = q['p'].poll()
            if rc is not None:
                q['rc'] = rc
                kill_group(q['p'])
            else:
                idx, _ = read_journal(q['jn']) if time.time() - q.get('last', 0) > 1 else (q['idx'], None)
                if idx != q['idx']:
                    q['idx'], q['since'] = idx, time.time()
                q['last'] = time.time() if time.time() - q.get('last', 0) > 1 else q.get('last', 0)
                if time.time() - q['since'] > case_timeout:
                    kill_group(q['p'])
                    q['p'].wait()
                    q['rc'] = 'hang'
            if q['rc'] not in (None, 0) and failed is None:
                failed = q
                for o in procs:
                    if o['rc'] is None:
                        kill_group(o['p'])
                        o['p'].wait()
                        o['rc'] = 'stopped'
    for q in procs:
        if os.path.exists(q['out']):
            try:
                j = json.load(open(q['out']))
            except Exception:
                continue
            res.evaluations += j['evaluations']
            res.discarded += j['discarded']
            res.distinct.update(j['distinct'])
            for k, v in j['labels'].items():
                res.labels[k] = res.labels.get(k, 0) + v
            res.samples += j['samples'][:2]
    if failed is not None:
        idx, tape = read_journal(failed['jn'])
        if idx == 0 and not tape:
            print(tail(failed['log']))
            if failed['rc'] not in (66, 86) and failed['rc'] != 'hang' and not (isinstance(failed['rc'], int) and failed['rc'] < 0):
                die('harness %s could not start (status %s)' % (camp['target'], failed['rc']))
        res.failure = (classify(failed['rc']), interesting(tail(failed['log'], 20000)) or 'status %s' % failed['rc'], tape)
        res.evaluations += 1
    return res


# ------------------------------------------------------------------------------------------------ replay & shrink
def replay(camp, tape, scratch, timeout, tag='r'):
    sc = scratch.sub('%s-%s' % (camp['name'], tag))
    tf = os.path.join(sc, 'tape')
    with open(tf, 'w') as f:
        f.write(' '.join(map(str, tape)) + '\n')
    env = run_env(sc)
    env.update(camp.get('env', {}))
    log = os.path.join(sc, 'log')
    with open(log, 'wb') as lf:
        p = subprocess.Popen([binary(camp['variant'], camp['target']), '--replay', tf], env=env, stdout=lf,
                             stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, cwd=sc, start_new_session=True)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            rc = 'hang'
        kill_group(p)
        p.wait()
    return classify(rc), tail(log, 20000)


def reproduces(camp, tape, kind, scratch, timeout, tries, parallel=1):
    """how many of `tries` replays fail (in any way)"""
    n, log = 0, ''
    with ThreadPoolExecutor(max_workers=parallel) as pool:
        for r, l in pool.map(lambda k: replay(camp, tape, scratch, timeout, 'r%d' % k), range(tries)):
            if r:
                n += 1
                log = l
    return n, log


def shrink(camp, tape, kind, scratch, timeout, budget):
    """greedy tape shrinking: delete blocks, zero blocks, lower single choices. A candidate is kept if a replay fails
    with the same kind of failure; candidates of one round are replayed in parallel."""
    end = time.time() + budget
    best = list(tape)
    while best and best[-1] == 0:
        best = best[:-1]
    tries = 0

    def ok(c, tag):
        r, _ = replay(camp, c, scratch, timeout, tag)
        return r == kind

    with ThreadPoolExecutor(max_workers=NCPU) as pool:
        improved = True
        while improved and time.time() < end:
            improved = False
            cands = []
            n = len(best)
            size = n // 2
            while size >= 1:
                for s in range(0, n, size):
                    cands.append(best[:s] + best[s + size:])
                size //= 2
            for i in range(n):
                if best[i]:
                    cands.append(best[:i] + [0] + best[i + 1:])
            for i in range(n):
                if best[i] > 1:
                    cands.append(best[:i] + [best[i] // 2] + best[i + 1:])
                    cands.append(best[:i] + [best[i] - 1] + best[i + 1:])
            key = lambda t: (len(t), sum(t))
            cands = [c for c in cands if key(c) < key(best)]
            pos = 0
            while pos < len(cands) and time.time() < end:
                chunk = cands[pos:pos + NCPU]
                pos += NCPU
                tries += len(chunk)
                rs = list(pool.map(lambda ic: ok(ic[1], 's%d' % ic[0]), list(enumerate(chunk))))
                hits = [c for c, r in zip(chunk, rs) if r]
                if hits:
                    best = min(hits, key=key)
                    while best and best[-1] == 0:
                        best = best[:-1]
                    improved = True
                    break
    return best, tries


def settle(pid, camp, failure, scratch):
    """decides whether a failure is a violation; returns (is_violation, replay_path, text)"""
    kind, msg, tape = failure
    timeout = camp.get('case_timeout', 60)
    if kind in ('soft', 'hang'):
        # rests on time: believed only if it keeps happening on an otherwise idle machine
        n, log = reproduces(camp, tape, kind, scratch, timeout, 4, 2)
        if n < 3:
            print('not believed: %s failure reproduced %d/4: %s' % (kind, n, msg), flush=True)
            return False, save(pid, camp, kind, n, tape, msg, log), msg
    else:
        n, log = reproduces(camp, tape, kind, scratch, timeout, 3)
        if n == 0:
            n, log = reproduces(camp, tape, kind, scratch, timeout, 12)
    text = interesting(log) or msg
    best = tape
    if n >= 2:
        budget = min(camp.get('shrink_s', 60), DEADLINE - time.time() - 3 * timeout)
        if budget > 0:
            best, tries = shrink(camp, tape, kind, scratch, min(timeout, 30), budget)
        m, l2 = reproduces(camp, best, kind, scratch, timeout, 2, 2) if best is not tape else (0, '')
        if m == 0:
            best = tape
        else:
            log, text = l2, interesting(l2) or text
    return True, save(pid, camp, kind, n, best, msg, log), text


def save(pid, camp, kind, n, best, msg, log):
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    h = hashlib.sha1((' '.join(map(str, best))).encode()).hexdigest()[:10]
    path = os.path.join(VERIF, 'replays', '%s-%s-%s.tape' % (pid, camp['name'], h))
    with open(path, 'w') as f:
        f.write(' '.join(map(str, best)) + '\n')
    with open(path + '.txt', 'w') as f:
        f.write('property %s campaign %s kind %s reproduced %d\nreplay: python3 check.py %s --replay %s\n\n%s\n\n%s\n' % (pid, camp['name'], kind, n, pid, path, msg, log))
    return path


# ------------------------------------------------------------------------------------------------ known findings
def known_findings(pid):
    """entries 'known' of known_findings.json for this property: {campaign, match}. Only the failure whose message
    matches exactly such an entry is tolerated. (fixed entries suppress nothing.)"""
    try:
        j = json.load(open(os.path.join(VERIF, 'known_findings.json')))
    except OSError:
        return []
    return [k for k in j.get('known', []) if k['property'] == pid]


def write_evidence(pid, tier, seed, level, coverage, wall, violations, assumptions):
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump({'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': coverage,
                   'assumptions': assumptions, 'wall_s': round(wall, 2), 'violations': violations}, f, indent=1)
        f.write('\n')


def decide(pid, spec, tier, seed):
    t0 = time.time()
    scratch = Scratch(pid)
    try:
        by_variant = {}
        for c in spec['campaigns']:
            if 'variant' in c:
                by_variant.setdefault(c['variant'], []).extend(([c['target']] if 'target' in c else []) + c.get('extra_targets', []))
        for v, ts in by_variant.items():
            build(v, sorted(set(ts)))
        total = Result()
        per = {}
        violation = None
        for c in spec['campaigns']:
            tc = time.time()
            unconfirmed = []
            for attempt in range(3):
                if 'python' in c:
                    r = c['python'](tier, seed + 7919 * attempt, scratch, sys.modules[__name__])
                else:
                    r = campaign(pid, c, tier, seed + 7919 * attempt, scratch)
                total.evaluations += r.evaluations
                total.discarded += r.discarded
                total.distinct |= {c['name'] + ':' + d for d in r.distinct}
                for k, v in r.labels.items():
                    total.labels[k] = total.labels.get(k, 0) + v
                total.samples += [c['name'] + ': ' + s for s in r.samples[:2]]
                if r.failure is None:
                    break
                if 'python' in c:
                    violation = r.failure  # already settled and shrunk: (path, text)
                    break
                is_v, path, text = settle(pid, c, r.failure, scratch)
                if is_v:
                    violation = (path, text)
                    break
                # an unconfirmed time-dependent failure stopped the campaign early: continue with another seed
                if STALL[0] < 2:
                    unconfirmed.append((path, text))
                STALL[0] = 0
                if tier == 'quick' and time.time() > DEADLINE - 250:
                    break
            if len(unconfirmed) == 3:
                # three different campaigns each came to a standstill for many seconds while this process, on the same
                # machine, was scheduled normally: a schedule dependent standstill, that a replay does not hit each time
                violation = unconfirmed[0]
            per[c['name']] = {'evaluations': r.evaluations, 'distinct_nontrivial': len(r.distinct), 'wall_s': round(time.time() - tc, 1)}
            print('campaign %s: %d cases, %d distinct non-trivial, %.1fs%s' % (c['name'], r.evaluations, len(r.distinct), time.time() - tc, ' FAILED' if violation else ''), flush=True)
            if violation:
                break
        cov = {'evaluations': total.evaluations, 'distinct_nontrivial': len(total.distinct), 'rule': spec['rule'],
               'samples': total.samples[:8], 'discarded': total.discarded, 'labels': total.labels, 'campaigns': per}
        write_evidence(pid, tier, seed, spec.get('level', 'exploration'), cov, time.time() - t0, 1 if violation else 0, spec.get('assumptions', []))
        if violation:
            print(violation[1])
            print('VIOLATION property=%s replay=%s' % (pid, violation[0]), flush=True)
            return 1
        if total.evaluations == 0 or len(total.distinct) == 0:
            die('nothing was explored')
        return 0
    finally:
        scratch.close()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--setup', action='store_true')
    a = ap.parse_args()
    import props
    if a.setup:
        targets = {}
        for s in props.PROPS.values():
            for c in s['campaigns']:
                if 'variant' in c:
                    targets.setdefault(c['variant'], set()).update(([c['target']] if 'target' in c else []) + c.get('extra_targets', []))
        for v, t in targets.items():
            build(v, sorted(t))
        return 0
    spec = props.PROPS[a.id]
    if a.replay:
        name = os.path.basename(a.replay)
        camps = [c for c in spec['campaigns'] if ('-%s-' % c['name']) in name] or spec['campaigns']
        c = camps[0]
        if 'python_replay' in c:
            return c['python_replay'](a.replay, sys.modules[__name__])
        build(c['variant'], [c['target']] + c.get('extra_targets', []))
        sc = Scratch(a.id)
        kind, log = replay(c, list(map(int, open(a.replay).read().split())), sc, c.get('case_timeout', 60))
        print(log)
        print('replay:', kind or 'held')
        sc.close()
        return 1 if kind else 0
    if a.tier == 'thorough':
        global DEADLINE
        DEADLINE = time.time() + 10 ** 6
    return decide(a.id, spec, a.tier, a.seed)


if __name__ == '__main__':
    sys.exit(main())
