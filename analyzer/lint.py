"""Effect and type rules over the typed program: what a function may touch besides its arguments, what runs in parallel
and how its results are combined, and which types can change behind a shared reference."""
from prog import norm

LIBS = ('common.lib', 'multi_target_decision_tree.lib', 'multi_target_grad_boost.lib')

# foreign paths (prefix after normalisation) -> the effect they have besides their arguments
EFFECTS = [
    ('clock', ('std::time', 'chrono', 'time')),
    ('random source', ('rand', 'rand_core', 'rand_chacha', 'getrandom', 'fastrand', 'oorandom', 'std::random', 'core::random')),
    ('hash seed', ('std::hash::random', 'std::collections::hash_map::RandomState')),
    ('environment', ('std::env',)),
    ('file system', ('std::fs', 'std::os', 'tempfile')),
    ('network', ('std::net',)),
    ('process', ('std::process',)),
    ('standard input', ('std::io::stdin', 'std::io::stdio::stdin', 'std::io::stdio::Stdin')),
    ('thread identity or timing', ('std::thread',)),
    ('parallelism of the machine', ('rayon_core::current_num_threads', 'rayon_core::current_thread_index', 'rayon::current_num_threads',
                                    'rayon::current_thread_index', 'rayon_core::max_num_threads', 'num_cpus')),
    ('raw memory', ('core::ptr', 'std::ptr', 'core::mem::transmute', 'core::intrinsics', 'alloc::alloc', 'std::alloc', 'core::mem::zeroed',
                    'core::mem::uninitialized', 'core::mem::maybe_uninit')),
    ('channel', ('std::sync::mpsc', 'std::sync::mpmc', 'crossbeam')),
]
HASHED = ('std::collections::hash::map::HashMap', 'std::collections::hash::set::HashSet', 'std::collections::HashMap',
          'std::collections::HashSet', 'std::collections::hash_map::HashMap', 'std::collections::hash_set::HashSet')
ITERATION = ('iter', 'iter_mut', 'keys', 'values', 'values_mut', 'into_keys', 'into_values', 'into_iter', 'drain', 'retain',
             'extract_if', 'next', 'union', 'intersection', 'difference', 'par_iter', 'into_par_iter', 'fmt')
CELLS = ('core::cell::', 'std::cell::', 'once_cell::', 'std::sync::poison::mutex::Mutex', 'std::sync::poison::rwlock::RwLock',
         'std::sync::mutex::Mutex', 'std::sync::rwlock::RwLock', 'std::sync::nonpoison::', 'std::sync::Mutex', 'std::sync::RwLock', 'std::sync::once_lock', 'std::sync::lazy_lock',
         'std::sync::OnceLock', 'std::sync::LazyLock', 'core::sync::atomic::', 'std::sync::atomic::', 'std::sync::poison::', 'parking_lot::',
         'std::thread::local::')
UNSHARED = ('alloc::rc::', 'std::rc::', 'alloc::rcs::rc::')
PURE = ('core::', 'alloc::', 'std::f64', 'std::f32', 'std::num', 'std::collections', 'std::io', 'std::panicking', 'std::panic', 'std::rt',
        'std::error', 'std::string', 'std::vec', 'std::iter', 'std::cmp', 'std::ops', 'std::fmt', 'std::option', 'std::result', 'std::hash',
        'std::sync', 'std::path', 'std::ffi', 'std::macros', 'std::convert', 'std::default', 'std::clone', 'std::slice', 'std::mem', 'std::boxed', 'std::primitive_docs',
        'rayon::', 'rayon_core::', 'csv::', 'csv_core::', 'serde', 'either::', 'itertools::')
# parallel operations whose result depends on the schedule when the operation is not exactly associative / whose result is any match
RACY = {'find_any': 'returns whichever match a thread finds first', 'position_any': 'returns whichever match a thread finds first',
        'find_map_any': 'returns whichever match a thread finds first', 'par_bridge': 'hands items out in arrival order',
        'try_for_each_with': '', 'scope_fifo': '', 'spawn': 'starts a detached task', 'spawn_fifo': 'starts a detached task'}
REDUCE = ('sum', 'product', 'reduce', 'reduce_with', 'fold', 'fold_with', 'try_reduce', 'try_reduce_with', 'fold_chunks', 'try_fold')
DROPS = {'par_sort_unstable_by': 'is not stable', 'par_sort_unstable': 'is not stable', 'par_sort_unstable_by_key': 'is not stable'}


def starts(path, prefixes):
    return any(path == p.rstrip(':') or path.startswith(p if p.endswith(':') else p + '::') for p in prefixes)


def paths_of(g):
    for k in ('rpath', 'path', 'rkey', 'key'):
        if g.get(k):
            yield norm_path(g[k])


def norm_path(p):
    if p.startswith('<'):
        # <T as Trait>::m -> keep the type's own path
        return p
    return norm(p)


def nodes(e):
    """every expression/pattern dictionary below e"""
    st = [e]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if 'k' in x:
                yield x
            st.extend(x.values())
        elif isinstance(x, list):
            st.extend(x)


def calls(f):
    for e in nodes(f['body']):
        g = e.get('fn')
        if isinstance(g, dict) and g.get('key'):
            yield e, g


def ty(f, i):
    return f['_types'][i]


class TypeScan:
    """which foreign type constructors a type is built from, looking through the workspace's own types"""

    def __init__(self, prog):
        self.prog = prog

    def parts(self, types, i, seen=None, path=''):
        """(description, type record) of everything stored in type i"""
        seen = set() if seen is None else seen
        t = types[i]
        k = t['k']
        key = t['s']
        if (key, id(types)) in seen:
            return
        seen.add((key, id(types)))
        yield path, t
        if k == 'adt':
            for a in t.get('args', []):
                if isinstance(a, int):
                    yield from self.parts(types, a, seen, path)
            ad = self.prog.adts.get(t['key'])
            if ad is not None:
                for v in ad['variants']:
                    for fl in v['fields']:
                        yield from self.parts(ad['_types'], fl['ty'], seen, '%s.%s' % (t['key'].split('::')[-1], fl['name']))
        elif k in ('ref', 'ptr', 'slice', 'array'):
            yield from self.parts(types, t['to'], seen, path)
        elif k == 'tuple':
            for a in t.get('args', []):
                if isinstance(a, int):
                    yield from self.parts(types, a, seen, path)

    def hidden(self, types, i):
        """a reason why a value of the type can change behind a shared reference, or not be shared"""
        for p, t in self.parts(types, i):
            if t['k'] == 'adt' and t['key'] not in self.prog.adts:
                pth = norm(t.get('path', t['key']))
                if starts(pth, CELLS) or starts(t['key'], CELLS):
                    return '%s is a %s, which changes behind a shared reference' % (p or 'the value', t['s'])
                if starts(pth, UNSHARED) or starts(t['key'], UNSHARED):
                    return '%s is a %s, which cannot be shared between threads' % (p or 'the value', t['s'])
            if t['k'] == 'ptr':
                return '%s is a raw pointer %s' % (p or 'the value', t['s'])
        return None


def unsafe_sites(f):
    if f.get('unsafe') is True:
        yield f['sp'], 'unsafe fn'
    for e in nodes(f['body']):
        if e.get('unsafe') is True and e['k'] == 'Block':
            yield e.get('sp', f['sp']), 'unsafe block'
        if e['k'] == 'RawBorrow':
            yield e.get('sp', f['sp']), 'raw borrow'


def shared_to_mut(f):
    """a writable pointer made from a shared one"""
    for e in nodes(f['body']):
        to = ty(f, e['ty']) if e.get('ty') is not None else {'k': ''}
        if e['k'] in ('Cast', 'Coerce', 'PtrCast') and isinstance(e.get('e'), dict) and 'ty' in e['e']:
            fr = ty(f, e['e']['ty'])
            if to['k'] == 'ptr' and to.get('mut') and (fr['k'] in ('ptr', 'ref')) and not fr.get('mut'):
                yield e.get('sp', f['sp']), 'casts %s to %s' % (fr['s'], to['s'])
        g = e.get('fn')
        if isinstance(g, dict) and g.get('key', '').split('::')[-1] in ('cast_mut', 'transmute') and to['k'] in ('ptr', 'ref') and to.get('mut'):
            yield e.get('sp', f['sp']), 'makes %s through %s' % (to['s'], g['path'])


def foreign_effects(prog, f):
    """(span, callee, effect) for every call or function value in f that reaches outside its arguments"""
    for e, g in calls(f):
        if g['key'] in prog.fns or g.get('rkey') in prog.fns:
            continue
        ps = list(paths_of(g))
        for what, pre in EFFECTS:
            if any(starts(p, pre) for p in ps):
                yield e.get('sp', f['sp']), g['path'], what, e
                break
        else:
            if not any(starts(p, PURE) for p in ps) and not any(p.startswith('<') for p in ps) and \
                    not any(p.split('::')[0] in crate_names(prog) for p in ps):
                yield e.get('sp', f['sp']), g['path'], None, e


def crate_names(prog):
    return {c.split('.')[0] for c in prog.crates}


def hash_iteration(f):
    for e, g in calls(f):
        name = g['key'].split('::')[-1]
        if name not in ITERATION:
            continue
        for a in e.get('args', [])[:1]:
            t = strip(f, a.get('ty'))
            if t and t['k'] == 'adt':
                base = norm(t.get('path', ''))
                tail = t['key']
                if starts(base, HASHED) or starts(tail, HASHED) or 'collections::hash' in base or 'hashbrown' in base:
                    yield e.get('sp', f['sp']), g['path'], t['s']


def strip(f, i):
    while i is not None:
        t = ty(f, i)
        if t['k'] in ('ref', 'ptr'):
            i = t['to']
        else:
            return t
    return None


def is_parallel(g):
    return any(starts(p, ('rayon', 'rayon_core')) for p in paths_of(g)) or \
        any('rayon' in str(g.get(k, '')) for k in ('path', 'rpath', 'trait'))


def closure_keys(f, e):
    """closures and functions handed to a call"""
    for a in e.get('args', []):
        for x in nodes(a):
            if x['k'] == 'Closure':
                yield x['key'], x
        t = a.get('ty')
        if t is not None and ty(f, t)['k'] in ('fndef', 'closure'):
            yield ty(f, t)['key'], a


def reachable(prog, roots):
    seen, st = set(), list(roots)
    while st:
        k = st.pop()
        if k in seen or k not in prog.fns:
            continue
        seen.add(k)
        f = prog.fns[k]
        for e in nodes(f['body']):
            if e['k'] == 'Closure':
                st.append(e['key'])
            g = e.get('fn')
            if isinstance(g, dict):
                for q in (g.get('rkey'), g.get('key')):
                    if q:
                        st.append(q)
            t = e.get('ty')
            if t is not None and ty(f, t)['k'] in ('fndef', 'closure'):
                st.append(ty(f, t)['key'])
    return seen


def called(prog, key):
    """functions named in a function or in the closures written in it"""
    out, st, seen = set(), [key], set()
    while st:
        k = st.pop()
        if k in seen or k not in prog.fns:
            continue
        seen.add(k)
        f = prog.fns[k]
        for e in nodes(f['body']):
            if e['k'] == 'Closure':
                st.append(e['key'])
            g = e.get('fn')
            if isinstance(g, dict):
                out |= {q for q in (g.get('rkey'), g.get('key')) if q}
            t = e.get('ty')
            if t is not None and ty(f, t)['k'] == 'fndef':
                out.add(ty(f, t)['key'])
            elif t is not None and ty(f, t)['k'] == 'closure':
                st.append(ty(f, t)['key'])
    return out


def is_float(t):
    return t['k'] == 'prim' and t['s'] in ('f64', 'f32')


GUARDS = ('MutexGuard<', 'RwLockWriteGuard<', 'RwLockReadGuard<')


def through_guard(f, x):
    """the expression reaches a value behind a lock"""
    return any('ty' in y and any(g in ty(f, y['ty'])['s'] for g in GUARDS) for y in nodes(x))


def order_dependent(f, outer):
    """updates of a shared value under a lock whose outcome depends on which task comes first"""
    sorts = any(isinstance(x.get('fn'), dict) and 'sort' in (x['fn'].get('path') or '').split('::')[-1] for x in nodes(outer['body']))
    for x in nodes(f['body']):
        sp = x.get('sp', f['sp'])
        if x['k'] == 'AssignOp' and through_guard(f, x['l'] if 'l' in x else x):
            lhs = x.get('l')
            if lhs is not None and 'ty' in lhs and is_float(ty(f, lhs['ty'])):
                yield sp, 'a floating-point sum is built in the order the tasks happen to run'
        if x['k'] == 'If':
            c = x.get('c') or x.get('cond')
            if c is None or c['k'] != 'Binary' or c.get('op') not in ('Lt', 'Le', 'Gt', 'Ge') or not through_guard(f, c):
                continue
            if not any('ty' in y and is_float(ty(f, y['ty'])) for y in nodes(c) if y is not c):
                continue
            if any(y['k'] == 'Assign' and through_guard(f, y) for y in nodes(x)):
                yield sp, 'of equal candidates the one whose task comes first or last is kept'
        g = x.get('fn')
        if isinstance(g, dict) and (g.get('path') or '').endswith('::push') and x.get('args') and through_guard(f, x['args'][0]) and not sorts:
            yield sp, 'values are appended in the order the tasks happen to run'
