#!/usr/bin/env python3
"""Development tool (not a check): apply each change of bugs.py / refactors.py to a scratch copy of /repo and run every
check on it.   run.py bugs|refactors [id-prefix...] [--props C01,C02] [--jobs 8] [--tests]"""
import argparse, importlib, json, os, queue, re, shutil, subprocess, sys, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
ap = argparse.ArgumentParser()
ap.add_argument('which'); ap.add_argument('ids', nargs='*'); ap.add_argument('--props'); ap.add_argument('--jobs', type=int, default=8)
ap.add_argument('--tests', action='store_true'); ap.add_argument('--out')
o = ap.parse_args()
cases = importlib.import_module(o.which).CASES
if o.ids:
    cases = [c for c in cases if any(c[0].startswith(i) for i in o.ids)]
q = queue.Queue()
for c in cases:
    q.put(c)
STABLE = json.load(open('/opt/vp/BASELINE.json'))
STABLE = STABLE if isinstance(STABLE, list) else next(v for v in STABLE.values() if isinstance(v, list))
BASE = '/tmp/mut'
os.makedirs(BASE, exist_ok=True)
results = {}
lock = threading.Lock()


def work(w):
    repo = '%s/repo%d' % (BASE, w)
    shutil.rmtree(repo, ignore_errors=True)
    subprocess.run(['git', 'clone', '-q', '/repo', repo], check=True)
    for extra in ('.cargo',):
        if os.path.exists('/repo/' + extra):
            subprocess.run(['cp', '-a', '/repo/' + extra, repo])
    cache = '%s/cache%d' % (BASE, w)
    if not os.path.exists(cache) and os.path.exists(VERIF + '/.cache'):
        os.makedirs(cache)
        subprocess.run(['cp', '-a', VERIF + '/.cache/extract', cache + '/extract'])
    while True:
        try:
            c = q.get_nowait()
        except queue.Empty:
            return
        subprocess.run(['git', '-C', repo, 'checkout', '-q', '--', '.'])
        subprocess.run(['git', '-C', repo, 'clean', '-qfd', '-e', 'target'])
        err = None
        for ed in c[2]:
            p = os.path.join(repo, ed[0])
            s = open(p).read()
            n = s.count(ed[1])
            k = ed[3] if len(ed) > 3 else None
            if n == 0 or (k is None and n != 1):
                err = 'edit of %s matches %d times: %r' % (ed[0], n, ed[1][:60])
                break
            if k == 'all':
                s = s.replace(ed[1], ed[2])
            else:
                i = -1
                for _ in range((k or 0) + 1):
                    i = s.index(ed[1], i + 1)
                s = s[:i] + ed[2] + s[i + len(ed[1]):]
            open(p, 'w').write(s)
        if err:
            with lock:
                print(c[0], 'BAD EDIT', err, flush=True)
            continue
        t = time.time()
        env = dict(os.environ, VERIF_REPO=repo, VERIF_CACHE=cache, VERIF_EVIDENCE='%s/ev%d' % (BASE, w))
        props = o.props.split(',') if o.props else ['--all']
        out = ''
        for p in props:
            r = subprocess.run(['python3', VERIF + '/check.py', p], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            out += r.stdout
        tests = ''
        if o.tests:
            r = subprocess.run(['cargo', 'test', '--workspace', '--offline', '--', '--test-threads=4'], cwd=repo, env=dict(os.environ, CARGO_TARGET_DIR='%s/tt%d' % (BASE, w)),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            fl = set(re.findall(r'^test (\S+) \.\.\. FAILED', r.stdout, re.M))
            stable = set(x.split(' ')[-1].split('::', 1)[-1] if False else x for x in STABLE)
            fl = sorted(f for f in fl if any(s.endswith(f) for s in stable))
            build = 'could not compile' in r.stdout
            tests = ' TESTS:' + ('BUILD' if build else 'FAIL ' + ','.join(fl) if fl else 'ok')
        vio = sorted(set(re.findall(r'VIOLATION property=(C\d+)', out)))
        und = sorted(set(re.findall(r'UNDECIDED (C\d+)', out)))
        with lock:
            results[c[0]] = {'want': c[1], 'violations': vio, 'undecided': und}
            open('%s/%s.out' % (BASE, c[0]), 'w').write(out)
            want = c[1] if isinstance(c[1], (list, tuple)) else [c[1]]
            if o.which.startswith('bugs'):
                st = 'caught' if any(x in vio for x in want) else ('other' if vio else 'MISSED')
            else:
                st = 'quiet' if not vio and not und else ('ALARM' if vio else 'undec')
            if 'BuildError' in out or 'does not compile' in out:
                st = 'NOBUILD ' + ' '.join(re.findall(r'error[^\n]*\n[^\n]*', out)[:2])
            print('%-22s %-7s want %s vio %s und %s %.0fs%s' % (c[0], st, '/'.join(want), ','.join(vio), ','.join(und), time.time() - t, tests), flush=True)


ths = [threading.Thread(target=work, args=(i,)) for i in range(min(o.jobs, len(cases)))]
[t.start() for t in ths]
[t.join() for t in ths]
if o.out:
    json.dump(results, open(o.out, 'w'), indent=1)
