#!/usr/bin/env python3
"""Decide one property of the current tree.   check.py <property>|--setup|--all [--tier quick|thorough]"""
import json, os, resource, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.join(HERE, 'analyzer'))
import prog as P, spec

RULE = {}
EVID = os.environ.get('VERIF_EVIDENCE', os.path.join(HERE, 'evidence'))


def props():
    import importlib
    out = {}
    for mod in ('props_core', 'props_tree', 'props_boost', 'props_lint'):
        if not os.path.exists(os.path.join(HERE, 'analyzer', mod + '.py')):
            continue
        md = importlib.import_module(mod)
        for k in dir(md):
            if k[0] == 'C' and k[1:].isdigit():
                out.setdefault(k, []).append(getattr(md, k))
    return out


def known():
    """failing construct -> text, for the findings recorded (not repaired) on the original tree"""
    out = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: '):
                head, _, what = l[len('finding: '):].partition(' :: ')
                pid, _, key = head.partition(' ')
                out[(pid.replace('property=', ''), key)] = what
    return out


def run(pid, fns, prog, tier, seed):
    t0 = time.time()
    a = spec.A(prog, tier, seed)
    a.deadline = t0 + (600 if tier == 'quick' else 6000)
    for f in fns:
        f(a)
    kf = known()
    viol, undec, okc = [], [], 0
    for o in a.obs:
        if o.status == 'violation':
            if (pid, o.name) in kf:
                print('KNOWN-FINDING: property=%s %s' % (pid, kf[(pid, o.name)]))
            else:
                viol.append(o)
        elif o.status == 'undecided':
            undec.append(o)
        else:
            okc += 1
    if not a.obs:
        undec.append(spec.Ob('obligations', 'undecided', 'no obligation was generated'))
    os.makedirs(EVID, exist_ok=True)
    replay = os.path.join(EVID, pid + '.replay.txt')
    try:
        os.unlink(replay)
    except OSError:
        pass
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': spec.EXPLAIN,
            'rules': sorted(a.rules),
            'obligations': len(a.obs), 'discharged': okc, 'violated': len(viol),
            'undecided': ['%s: %s' % (o.name, o.detail[:600]) for o in undec],
            'functions_analysed': sorted(a.fns), 'function_count': len(a.fns),
            'calls_summarised': a.calls, 'loops_summarised': len(a.loops),
            'loops': ['%s %s %s' % tuple(str(x)[:120] for x in l[:3]) if isinstance(l, tuple) and len(l) >= 3 else str(l)[:160]
                      for l in a.loops][:120],
            'normal_form_nodes_compared': a.terms,
            'calls_not_modelled': {str(k): str(v)[:200] for k, v in a.unknown.items()},
            'sites': a.cover,
            'samples': [{'obligation': o.name, 'where': o.where, 'status': o.status, 'required': o.text} for o in a.obs][:200],
        },
        'assumptions': spec.ASSUME,
        'wall_s': round(time.time() - t0, 3), 'violations': len(viol),
    }
    with open(os.path.join(EVID, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if viol:
        with open(replay, 'w') as f:
            f.write('property %s: %d obligation(s) violated by the current source of %s\n' % (pid, len(viol), P.REPO))
            for o in viol:
                f.write('\n[%s]\n at %s\n %s\n' % (o.name, o.where, o.detail))
            f.write('\nre-run: cd %s && python3 check.py %s\n' % (HERE, pid))
        for o in viol:
            print('  %s: %s at %s: %s' % (pid, o.name, o.where, o.detail.split('\n')[0][:300]))
        print('VIOLATION property=%s replay=%s' % (pid, replay))
    for o in undec:
        print('  UNDECIDED %s: %s: %s' % (pid, o.name, o.detail.strip().split('\n')[-1][:300]))
    print('%s: %d obligations, %d discharged, %d violated, %d undecided, %d functions, %.1f s' %
          (pid, len(a.obs), okc, len(viol), len(undec), len(a.fns), time.time() - t0))
    return 1 if viol else 0


def main():
    args = sys.argv[1:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in args:
        i = args.index('--tier')
        tier = args[i + 1]
        del args[i:i + 2]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    prog = P.load()
    if args == ['--setup']:
        print('extracted %d functions of %s' % (len(prog.fns), sorted(prog.crates)))
        return 0
    # an analysis that runs out of memory is reported as undecided instead of being ended
    cap = 12 << 30
    try:
        resource.setrlimit(resource.RLIMIT_AS, (cap, cap))
    except (ValueError, OSError):
        pass
    ps = props()
    ids = sorted(ps) if args == ['--all'] else args
    rc = 0
    for pid in ids:
        rc |= run(pid, ps[pid], prog, tier, seed)
    return rc


if __name__ == '__main__':
    sys.exit(main())
