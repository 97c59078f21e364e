#!/usr/bin/env python3
"""Development tool (not a check): writes /verif/seeded/<id>/{patch.diff,demo.sh,main.rs,meta.json} from the table in seeds.py.
   mkseed.py [id-prefix...] [--verify]     --verify builds, tests and runs the demonstration on a scratch copy of /repo"""
import importlib, json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path[:0] = [HERE, VERIF + '/corpus']
from seeds import SEEDS, PRELUDE, DEMO
args = [a for a in sys.argv[1:] if not a.startswith('--')]
verify = '--verify' in sys.argv
STABLE = json.load(open('/opt/vp/BASELINE.json'))['stable']
W = '/tmp/seedwork'
if not os.path.exists(W):
    os.makedirs(W)
    subprocess.run(['git', 'clone', '-q', '/repo', W + '/repo'], check=True)
repo = W + '/repo'
subprocess.run(['git', '-C', repo, 'fetch', '-q'], check=True)
subprocess.run(['git', '-C', repo, 'reset', '-q', '--hard', 'origin/HEAD'], check=True)
env = dict(os.environ, CARGO_TARGET_DIR=W + '/target', CARGO_NET_OFFLINE='true')
for s in SEEDS:
    if args and not any(s['id'].startswith(a) for a in args):
        continue
    d = VERIF + '/seeded/' + s['id']
    os.makedirs(d, exist_ok=True)
    subprocess.run(['git', '-C', repo, 'checkout', '-q', '--', '.'])
    for ed in s['edits']:
        p = os.path.join(repo, ed[0])
        t = open(p).read()
        k = ed[3] if len(ed) > 3 else None
        n = t.count(ed[1])
        assert n and (k is not None or n == 1), (s['id'], ed[0], n, ed[1][:80])
        i = -1
        for _ in range((k or 0) + 1):
            i = t.index(ed[1], i + 1)
        open(p, 'w').write(t[:i] + ed[2] + t[i + len(ed[1]):])
    diff = subprocess.run(['git', '-C', repo, 'diff'], stdout=subprocess.PIPE, text=True).stdout
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/main.rs', 'w').write(PRELUDE + s['demo'])
    open(d + '/demo.sh', 'w').write(DEMO)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    if verify:
        def demo():
            return subprocess.run(['bash', d + '/demo.sh'], cwd=repo, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        r1 = demo()
        t = subprocess.run(['cargo', 'test', '--workspace', '--offline', '--no-fail-fast', '--', '--test-threads=8'], cwd=repo, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        subprocess.run(['git', '-C', repo, 'checkout', '-q', '--', '.'])
        r0 = demo()
        bad = [l.split()[1] for l in t.stdout.splitlines() if l.startswith('test ') and l.endswith('FAILED')]
        fails = [x for x in bad if any(s.endswith('::' + x) for s in STABLE)] + [l for l in t.stdout.splitlines() if l.startswith('error') and 'target' not in l and 'test failed' not in l]
        print(s['id'], 'GOOD' if r0.returncode == 0 and r1.returncode != 0 and not fails else 'BAD', 'clean', r0.returncode, 'patched', r1.returncode, 'tests', fails[:3], flush=True)
        if r0.returncode:
            print(r0.stdout[-1500:])
        elif r1.returncode != 101:
            print(r1.stdout[-600:])
