"""Extraction of the typed program (THIR of every function) and its in-memory form."""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.environ.get('VERIF_CACHE', os.path.join(HERE, '.cache'))
CRATES = ['common.lib', 'multi_target_decision_tree.lib', 'multi_target_grad_boost.lib', 'main.bin']


class BuildError(Exception):
    pass


def sysroot():
    return subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], stdout=subprocess.PIPE, text=True, check=True).stdout.strip()


def build_driver():
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(CACHE, 'extract'))
    r = subprocess.run(['cargo', '+nightly', 'build', '--offline'], cwd=os.path.join(HERE, 'extract'), env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError('extraction driver does not build:\n' + r.stdout[-3000:])
    return os.path.join(CACHE, 'extract', 'debug', 'extract')


def extract(repo=None):
    """compile the workspace with the driver; returns {crate: json}"""
    repo = repo or REPO
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        drv = build_driver()
        tag = hashlib.sha1(os.path.realpath(repo).encode()).hexdigest()[:8]
        target = os.path.join(CACHE, 'target' if repo == '/repo' else 'target-' + tag)
        for pat in ('common', 'main', 'multi-target-*', 'multi_target_*'):
            for d in glob.glob(os.path.join(target, 'debug', 'build', pat)) + \
                    glob.glob(os.path.join(target, 'debug', '.fingerprint', pat + '-*')):
                shutil.rmtree(d, ignore_errors=True)
        out = tempfile.mkdtemp(prefix='ir-', dir=CACHE)
        try:
            env = dict(os.environ)
            env.pop('RUSTFLAGS', None)
            env.update(LD_LIBRARY_PATH=sysroot() + '/lib', EXTRACT_OUT=out, RUSTC_WORKSPACE_WRAPPER=drv,
                       CARGO_TARGET_DIR=target, CARGO_PROFILE_DEV_DEBUG_ASSERTIONS='false',
                       CARGO_PROFILE_DEV_OVERFLOW_CHECKS='false')
            r = subprocess.run(['cargo', '+nightly', 'check', '--workspace', '--offline', '--locked'], cwd=repo, env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise BuildError('the workspace does not compile:\n' + r.stdout[-4000:])
            res = {}
            for f in glob.glob(os.path.join(out, '*.json')):
                with open(f) as fh:
                    res[os.path.basename(f)[:-5]] = json.load(fh)
            if not res:
                raise BuildError('the extraction produced nothing:\n' + r.stdout[-2000:])
            return res
        finally:
            shutil.rmtree(out, ignore_errors=True)


class Prog:
    def __init__(self, irs):
        self.fns, self.adts, self.crates = {}, {}, {}
        self.statics = []
        for name, d in sorted(irs.items()):
            self.crates[name] = d
            for a in d['adts']:
                self.adts[a['key']] = a
                a['_types'] = d['types']
            for s in d.get('statics', []):
                s['_crate'] = name
                self.statics.append(s)
            for f in d['fns']:
                f['_types'] = d['types']
                f['_crate'] = name
                self.fns[f['key']] = f
        self.bypath = {}
        for k, f in self.fns.items():
            if f['kind'] == 'Closure':
                continue
            f['short'] = f.get('name') or norm(f['path']).split('::')[-1]
            self.bypath.setdefault(f['short'], []).append(f)

    def find(self, name, self_ty=None, trait=None, module=None, crate=None):
        """functions by name, self type name (last path segment), trait and module"""
        out = []
        for f in self.bypath.get(name, []):
            if crate and not f['_crate'].startswith(crate):
                continue
            st = f.get('self_ty')
            if self_ty is not None:
                if st is None:
                    continue
                s = f['_types'][st]['s']
                if tyname(s) != self_ty:
                    continue
            elif st is not None:
                continue
            if trait is not None and (f.get('impl_trait') or '').split('::')[-1].split('<')[0] != trait:
                continue
            if module and module not in f['key']:
                continue
            out.append(f)
        return out

    def one(self, name, **kw):
        l = self.find(name, **kw)
        return l[0] if len(l) == 1 else None


def norm(path):
    out, d = '', 0
    for ch in path:
        if ch == '<':
            d += 1
        elif ch == '>':
            d -= 1
        elif d == 0:
            out += ch
    return re.sub(r'::+', '::', out).strip(':')


def tyname(s):
    s = s.lstrip('&').replace('mut ', '')
    return norm(s).split('::')[-1]


def load(repo=None):
    return Prog(extract(repo))
