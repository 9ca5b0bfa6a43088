"""C21, C25: runs harness/python/h_python.py (Hypothesis) in parallel workers."""
import hashlib, json, os, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
SCRIPT = os.path.join(HERE, 'harness', 'python', 'h_python.py')


def interpreter():
    return shutil.which('python3-vt') or '/opt/veriftools/pyvenv/bin/python'


def environment(ck, scratch):
    e = dict(ck.ENV_CLEAN)
    e.update(PYTHONDONTWRITEBYTECODE='1', TMPDIR=scratch, PYTHONHASHSEED='0', HYPOTHESIS_STORAGE_DIRECTORY=os.path.join(scratch, 'hypothesis'))
    return e


def make(pid, mode, quick, thorough):
    def run(tier, seed, scratch, ck):
        res = ck.Result()
        cases, seconds = quick if tier == 'quick' else thorough
        procs = []
        for w in range(ck.NCPU):
            sc = scratch.sub('%s-w%d' % (mode, w))
            out, log = os.path.join(sc, 'out.json'), open(os.path.join(sc, 'log'), 'wb')
            p = subprocess.Popen([interpreter(), SCRIPT, ck.REPO, mode, '--run', str(seed * 100 + w), str(-(-cases // ck.NCPU)), str(seconds), out],
                                 env=environment(ck, sc), cwd=sc, stdout=log, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, start_new_session=True)
            procs.append((p, out, sc))
        end = time.time() + seconds + 200
        for p, out, sc in procs:
            try:
                p.wait(timeout=max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                ck.kill_group(p)
                p.wait()
            if not os.path.exists(out):
                text = ck.tail(os.path.join(sc, 'log'))
                print(text)
                # the module does not even load, or a generated program never ended
                res.failure = (store(ck, pid, mode, None, text), 'the generated programs could not be run: ' + (text.strip().splitlines() or ['no output'])[-1])
                continue
            j = json.load(open(out))
            res.evaluations += j['evaluations']
            res.discarded += j['discarded']
            res.distinct.update(j['distinct'])
            for k, v in j['labels'].items():
                res.labels[k] = res.labels.get(k, 0) + v
            res.samples += j['samples'][:1]
            if j['failure'] and res.failure is None:
                path = store(ck, pid, mode, j['failure']['case'], j['failure']['text'])
                res.failure = (path, j['failure']['text'])
        return res

    return run


def store(ck, pid, mode, case, text):
    os.makedirs(os.path.join(ck.VERIF, 'replays'), exist_ok=True)
    body = json.dumps(case, indent=1)
    path = os.path.join(ck.VERIF, 'replays', '%s-%s-%s.json' % (pid, mode, hashlib.sha1(body.encode()).hexdigest()[:10]))
    with open(path, 'w') as f:
        f.write(body + '\n')
    with open(path + '.txt', 'w') as f:
        f.write('%s\n\nreplay: python3 check.py %s --replay %s\n' % (text, pid, path))
    return path


def make_replay(pid, mode):
    def replay(path, ck):
        sc = ck.Scratch(pid)
        try:
            r = subprocess.run([interpreter(), SCRIPT, ck.REPO, mode, '--replay', path], env=environment(ck, sc.path), cwd=sc.path, timeout=120)
        finally:
            sc.close()
        return 1 if r.returncode else 0

    return replay
