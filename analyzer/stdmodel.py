"""Transfer functions for the standard library, rayon and csv entry points the repository can use."""
import re
import terms as X
from terms import T, TRUE, FALSE, UNIT, ABSENT, ZERO, ONE, INF, Abort, OPT, RES
import machine as M
from machine import It, MRef, Clo, obj, mkobj, mref, unk, Undecided

RANGES = {'Range', 'RangeInclusive', 'RangeFrom', 'RangeTo', 'RangeToInclusive', 'RangeFull'}


def last(path):
    s = path
    # drop generic arguments
    out, d = '', 0
    for ch in s:
        if ch == '<':
            d += 1
        elif ch == '>':
            d -= 1
        elif d == 0:
            out += ch
    parts = [p for p in out.split('::') if p]
    return parts[-1] if parts else s


def isrange(t):
    return t.op == 'rec' and t.a[0].split('::')[-1] in RANGES


def max0(t):
    if X.isint(t):
        return X.ite(X.lt(t, ZERO), ZERO, t)
    return t


def min2(a, b):
    if a is b:
        return a
    return X.ite(X.lt(b, a), b, a)


def range_bounds(r, n):
    """(lo, hi) of a range value used as slice index on a sequence of length n"""
    k = r.a[0].split('::')[-1]
    d = dict(r.a[1])
    lo = d.get('start', ZERO)
    if k in ('Range', 'RangeTo'):
        hi = d['end']
    elif k in ('RangeInclusive', 'RangeToInclusive'):
        hi = X.add(d['end'], ONE)
    else:
        hi = n
    return lo, hi


# ------------------------------------------------------------------ iterators
def it_state(o, pos=ZERO):
    return X.mk('rec', 'iter', (('it', o), ('pos', pos)))


def mkit(n, elem, guard=None, par=False, src=None):
    return it_state(mkobj(It(n, elem, guard, par, src)))


def get_it(v):
    """It of an iterator value"""
    if v.op == 'rec' and v.a[0] == 'iter':
        it = obj(v.a[1][0][1])
        pos = v.a[1][1][1]
        if isinstance(it, It):
            if pos is ZERO:
                return it
            g = it.guard
            return It(max0(X.sub(it.n, pos)), lambda st, k: it.elem(st, X.add(k, pos)),
                      (lambda st, k: g(st, X.add(k, pos))) if g else None, it.par)
    return None


def seq_iter(v):
    return It(X.length(v), lambda st, k: X.index(v, k))


def is_seq(v):
    s = X.sort(v)
    return v.op in ('comp', 'list') or (isinstance(s, tuple) and s[0] == 'arr')


def to_iter(m, v, st, ty=None):
    """value -> It, or None"""
    o = obj(v)
    if isinstance(o, It):
        return o
    if isinstance(o, MRef):
        cur = m.read(st, o.cell, o.path)
        it = get_it(cur)
        if it is not None:
            m.write(st, o.cell, o.path, unk('iterator consumed by reference'))
            return it
        if is_seq(cur):
            return It(X.length(cur), lambda s, k: mref(o.cell, o.path + (('i', k),)))
        return None
    it = get_it(v)
    if it is not None:
        return it
    if isrange(v):
        return range_iter(v)
    if v.op == 'enum' and v.a[0] == OPT:
        c = X.is_some(v)
        return It(X.ite(c, ONE, ZERO), lambda s, k: X.payload(v, 1, '0'))
    if v.op == 'ite':
        a, b = to_iter(m, v.a[1], st, ty), to_iter(m, v.a[2], st, ty)
        if a is None or b is None or a.guard or b.guard:
            return None
        c = v.a[0]
        return It(X.ite(c, a.n, b.n), lambda s, k: X.ite(c, a.elem(s, k), b.elem(s, k)))
    if is_seq(v):
        return seq_iter(v)
    return None


def range_iter(v):
    k = v.a[0].split('::')[-1]
    d = dict(v.a[1])
    lo = d.get('start', ZERO)
    if k == 'RangeFrom':
        return It(INF, lambda s, i: X.add(lo, i))
    hi = d['end']
    if k == 'RangeInclusive':
        hi = X.add(hi, ONE)
    if lo is ZERO:
        return It(max0(hi) if X.sort(hi) != 'i' else hi, lambda s, i: i)
    d2 = X.sub(hi, lo)
    def nonneg(t):
        return nonneg(t.a[1]) and nonneg(t.a[2]) if t.op == 'ite' else X.prove_ge0(X.P(t), ())
    if not nonneg(lo):
        return It(max0(d2), lambda s, i: X.add(lo, i))
    return It(max0(hi), lambda s, i: i, lambda s, i: X.le(lo, i), src=('ge', lo))


class Flat:
    """evaluated pure iterator: value b and guard g as functions of v in [0,n)"""
    def __init__(self, n, v, g, b, par):
        self.n, self.v, self.g, self.b, self.par = n, v, g, b, par


def flat(m, it, st):
    """evaluate an iterator symbolically; None when its closures have effects"""
    v = X.fresh('i', 'k')
    X.C.range[v] = it.n
    s = st.fork()
    pre = dict(s.cells)
    np, nl = len(m.panics), len(m.log)
    m.outer_pc.append(st.pc)
    s.pc = TRUE
    try:
        g = it.guard(s, v) if it.guard else TRUE
        s.pc = X.and_(s.pc, g)
        fs = tuple(X.conj_lits(g))
        b = it.elem(s, v)
        g = it.guard_after(s, v) if hasattr(it, 'guard_after') else g
    finally:
        m.outer_pc.pop()
    if s.dead:
        # the element always panics
        return Flat(it.n, v, g, unk('diverging element'), it.par)
    for c, x in pre.items():
        if s.cells.get(c) is not x:
            del m.panics[np:]
            del m.log[nl:]
            return None
    for c, x in s.cells.items():
        if c not in pre:
            st.cells[c] = x
    if has_obj(b, MRef) and v in X.mk('list', b).fv:
        return None
    return Flat(it.n, v, g, b, it.par)


def has_obj(t, cls):
    if t.op == 'obj':
        return isinstance(M.OBJ[t.a[0]], cls)
    if t.op in ('rec', 'enum', 'list'):
        return any(has_obj(c, cls) for c in X._walk(t.a))
    return False


def dep_obj(t):
    """an object reference inside t (cannot be substituted into)"""
    if t.op == 'obj':
        return True
    if t.op in ('rec', 'enum', 'list'):
        return any(dep_obj(c) for c in X._walk(t.a))
    return False


def materialise(m, it, st):
    """iterator -> array value"""
    f = flat(m, it, st)
    if f is None or dep_obj(f.b):
        return push_loop(m, it, st)
    if f.g is TRUE:
        return X.comp_body(f.n, f.v, f.b)
    f.b = X.prune(f.b, tuple(X.conj_lits(f.g))) if f.b.op == 'ite' else f.b
    cnt = X.sum_body(f.n, f.v, X._ite(f.g, ONE, ZERO))
    return X.comp(cnt, lambda j: X.subst(f.b, {f.v: X.nth_body(f.n, f.v, f.g, j)}))


def push_loop(m, it, st):
    import loops
    c = m.newcell(st, X.mk('list'))

    def run(s, el, k):
        m.write(s, c, (), X.append(s.cells[c], el))
    loops.run_loop(m, st, it, run, [], m.span)
    return st.cells[c]


def each(m, it, st, f):
    """run f(st, elem) for every element"""
    import loops

    def run(s, el, k):
        f(s, el)
    loops.run_loop(m, st, it, run, [], m.span)


def settle(m, it, st):
    """iterator without guard"""
    if it.guard is None:
        return it
    arr = materialise(m, it, st)
    return It(X.length(arr), lambda s, k: X.index(arr, k), None, it.par)


def cmp_keys(m, st, f, fl):
    """sort keys of comparison closure f over flat sequence: list of ascending key terms in fl.v, or None"""
    u, w = X.fresh('i'), X.fresh('i')
    X.C.range[u] = X.C.range[w] = fl.n
    a, b = X.subst(fl.b, {fl.v: u}), X.subst(fl.b, {fl.v: w})
    s = st.fork()
    r = m.call_value(f, [a, b], s)
    if r.op == 'enum' and r.a[0] == M.ORD and r.a[1] is ONE:
        return []
    if r.op != 'ord':
        r = ord_of_tree(r)
        if r is None:
            return None
    keys = []
    for x, y in r.a[0]:
        if w not in x.fv and u not in y.fv and X.subst(x, {u: w}) is y:
            keys.append(X.subst(x, {u: fl.v}))
        elif u not in x.fv and w not in y.fv and X.subst(y, {u: w}) is x:
            keys.append(X.neg(X.subst(y, {u: fl.v})))
        else:
            return None
    return keys


def ord_of_tree(r):
    """Ordering written out by hand: if a<b {Less} else if a>b {Greater} else {Equal}"""
    if r.op != 'enum' or r.a[0] != M.ORD:
        return None
    t = r.a[1]
    L = X.map_leaves(t, lambda l: X.boolT(l is ZERO))
    G = X.map_leaves(t, lambda l: X.boolT(l is X.num(2)))
    for at in X.tree_atoms(L):
        if at.op == 'pos':
            for x, y in ((ZERO, at.a[0]), (at.a[0], ZERO)):
                if L is X.lt(x, y) and G is X.lt(y, x):
                    return X.mk('ord', ((x, y),)) if False else split_ord(at.a[0], x is ZERO)
    return None


def split_ord(p, lt):
    """p>0 as a<b"""
    d = X.P(p)
    a = X.unP({k: -c for k, c in d.items() if c < 0})
    b = X.unP({k: c for k, c in d.items() if c > 0})
    return X.mk('ord', ((a, b),)) if lt else X.mk('ord', ((b, a),))


def natural_keys(t):
    if t.op == 'rec':
        out = []
        for _, x in t.a[1]:
            k = natural_keys(x)
            if k is None:
                return None
            out += k
        return out
    if X.sort(t) in ('i', 'z', 'r'):
        return [t]
    if X.sort(t) == 'b':
        return [X.ite(t, ONE, ZERO)]
    return None


def sorted_seq(m, st, arr, keysf, stable):
    n = X.length(arr)
    v = X.fresh('i', 'k')
    X.C.range[v] = n
    fl = Flat(n, v, TRUE, X.index(arr, v), False)
    keys = keysf(fl)
    if keys is None:
        return None
    keys = [k for k in keys if v in k.fv]
    if stable and not keys:
        return arr
    kr = X.mk_rec('tup', [(str(i), k) for i, k in enumerate(keys)])
    return X.comp(n, lambda j: X.subst(fl.b, {v: X.mk_perm(n, v, kr, stable, j)}))


# ------------------------------------------------------------------ dispatch
def result_sort(m, e):
    if e is None or not m.frames:
        return 'o'
    return m.sort_of(m.ty(e['ty']), m.frames[-1].T)


def elem_ty_of_result(m, e):
    if e is None:
        return {}
    return m.strip(m.ty(e['ty']), m.frames[-1].T)


class Nest:
    """flattened iterator: the elements of inner(st,k) for every position k of outer"""
    def __init__(self, outer, inner):
        self.outer, self.inner = outer, inner


def nest_call(m, o, name, args, st, e, path):
    it, inner = o.outer, o.inner

    def again(s, k):
        return TABLE[name](m, [inner(s, k)] + list(args[1:]), s, e, path)
    if name in ('copied', 'cloned', 'into_iter', 'iter', 'by_ref', 'inspect', 'fuse'):
        return args[0] if name != 'inspect' else NotImplemented
    if name in ('map', 'filter', 'filter_map', 'rev') and not it.par:
        if name == 'rev':
            return NotImplemented
        return mkobj(Nest(it, again))
    if name in ('sum', 'count', 'any', 'all') and not it.par:
        probe = again(st.fork(), X.fresh('i'))
        if probe is NotImplemented:
            return NotImplemented
        each_ = It(it.n, again, it.guard)
        if name in ('sum', 'count'):
            return sum_(m, [mkobj(each_)], st, e, path)
        f = flat(m, each_, st)
        if f is None:
            return NotImplemented
        if name == 'all':
            return X.not_(X.exists_body(f.n, f.v, X.and_(f.g, X.not_(f.b))))
        return X.exists_body(f.n, f.v, X.and_(f.g, f.b))
    if name in ('fold', 'for_each') and not it.par:
        c = m.newcell(st, args[1]) if name == 'fold' else None

        def one(s, x):
            if c is None:
                m.call_value(args[1], [x], s)
            else:
                s.cells[c] = m.call_value(args[2], [s.cells[c], x], s)
        nest_each(m, o, st, one)
        return UNIT if c is None else st.cells[c]
    return NotImplemented


def nest_each(m, o, st, f, labs=()):
    import loops

    def outer(s, el, k):
        ii = get_it(o.inner(s, k))
        loops.run_loop(m, s, ii, lambda s2, x, j: f(s2, x), list(labs), m.span)
    loops.run_loop(m, st, It(o.outer.n, lambda s, k: k, o.outer.guard), outer, [], m.span)


def call(m, f, args, st, e):
    if st.dead:
        return UNIT
    name = last(f['path'])
    path = f['path']
    h = TABLE.get(name)
    if args:
        o = obj(args[0])
        cur = m.read(st, o.cell, o.path) if isinstance(o, MRef) else args[0]
        if isinstance(obj(cur), Nest):
            r = nest_call(m, obj(cur), name, [cur] + list(args[1:]), st, e, path)
            if r is NotImplemented:
                return unknown(m, path, args, st, e)
            if o is not obj(cur):
                m.write(st, o.cell, o.path, unk('iterator consumed by reference'))
            return r
    if h is not None:
        r = h(m, args, st, e, path)
        if r is not NotImplemented:
            return r
    return unknown(m, path, args, st, e)


def unknown(m, path, args, st, e):
    m.unknown_calls.setdefault(path, (e or {}).get('sp'))
    deps = []
    for a in args:
        o = obj(a)
        if isinstance(o, MRef):
            old = m.read(st, o.cell, o.path)
            deps.append(old)
            m.write(st, o.cell, o.path, unk('mut by ' + path, X.sort(old), old))
        else:
            for r in M.refs_in(a):
                old = m.read(st, r.cell, r.path)
                m.write(st, r.cell, r.path, unk('mut by ' + path, X.sort(old), old))
            deps.append(a)
    return unk('call:' + path, result_sort(m, e), *deps)


TABLE = {}


def reg(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f
    return d


def V(m, st, a):
    return m.rd(st, a)


def deep_rd(m, st, a):
    o = obj(a)
    if isinstance(o, MRef):
        return deep_rd(m, st, m.read(st, o.cell, o.path))
    return a


# ---- identity-like
@reg('deref', 'as_ref', 'borrow', 'to_owned', 'as_slice', 'as_str', 'clone', 'to_vec', 'into', 'from', 'into_boxed_slice',
     'into_vec', 'must_use', 'as_deref', 'into_inner', 'box_assume_init_into_vec_unsafe', 'new_in', 'to_string', 'cloned', 'copied',
     'into_iter_identity', 'by_ref', 'into_owned', 'black_box', 'as_bytes', 'assume_init')
def ident(m, args, st, e, path):
    name = last(path)
    if not args:
        return NotImplemented
    v = args[0]
    if name == 'from' and 'From' not in path:
        v = V(m, st, v)
        if not (X.sort(v) == 's' and ('alloc::string' in path or result_sort(m, e) == 's')):
            return NotImplemented
        return v
    if name in ('cloned', 'copied'):
        it = to_iter(m, v, st) if get_it(v) is not None else None
        if it is not None:
            return v
        return V(m, st, v)
    if name == 'by_ref':
        return v
    v = V(m, st, v)
    if name == 'to_string':
        return v if X.sort(v) == 's' else X.app('s', 'disp', v)
    if name in ('into', 'from'):
        if X.sort(v) == 'b' and result_sort(m, e) != 'b':
            return X.ite(v, ONE, ZERO)
        # numeric widening, String/Box/Arc conversions
        return v
    return v


@reg('clone_from', 'clone_into')
def clone_from(m, args, st, e, path):
    a, b = args if last(path) == 'clone_from' else args[::-1]
    a = target(m, st, a)
    if a is None:
        return NotImplemented
    m.write(st, a.cell, a.path, V(m, st, b))
    return UNIT


@reg('deref_mut', 'as_mut_slice', 'borrow_mut')
def mutident(m, args, st, e, path):
    return args[0]


@reg('as_mut')
def as_mut(m, args, st, e, path):
    o = obj(args[0])
    if isinstance(o, MRef):
        v = m.read(st, o.cell, o.path)
        if v.op == 'enum':
            return X.opt(X.is_some(v), mref(o.cell, o.path + (('p', 1, '0'),)))
    return args[0]


@reg('new')
def new(m, args, st, e, path):
    if 'Vec' in path and not args:
        return X.mk('list')
    if 'String' in path and not args:
        return X.mk('str', '')
    if 'Arguments' in path:
        return fmt_args(m, args, st, e, path)
    if 'Argument' in path:
        return NotImplemented
    if 'ReaderBuilder' in path:
        return csv_builder()
    if 'RangeInclusive' in path:
        return X.mk('rec', 'core::ops::range::RangeInclusive', (('start', args[0]), ('end', args[1])))
    if any(s in path for s in ('Box', 'Arc', 'Rc', 'Cell', 'Mutex', 'RwLock', 'Reverse')):
        if any(s in path for s in ('Cell', 'Mutex', 'RwLock')):
            m.log.append(('shared-mutable', path, (e or {}).get('sp')))
            return NotImplemented
        return args[0]
    return NotImplemented


@reg('with_capacity')
def with_cap(m, args, st, e, path):
    if 'Vec' in path:
        return X.mk('list')
    if 'String' in path:
        return X.mk('str', '')
    return NotImplemented


@reg('default')
def default(m, args, st, e, path):
    s = result_sort(m, e)
    if s in ('i', 'z', 'r'):
        return ZERO
    if s == 'b':
        return FALSE
    if s == 's':
        return X.mk('str', '')
    if isinstance(s, tuple) and s[0] == 'arr':
        return X.mk('list')
    if s == ('adt', OPT):
        return X.NONE
    return NotImplemented


@reg('from_elem')
def from_elem(m, args, st, e, path):
    return X.comp(args[1], lambda w: args[0])


@reg('len')
def length(m, args, st, e, path):
    v = V(m, st, args[0])
    it = get_it(v)
    if it is not None:
        return settle(m, it, st).n
    if isrange(v):
        return range_iter(v).n if range_iter(v).guard is None else X.sub(range_iter(v).n, v.a[1][0][1])
    if X.sort(v) == 's':
        return X.app('i', 'strlen', v)
    return X.length(v)


@reg('is_empty')
def is_empty(m, args, st, e, path):
    v = V(m, st, args[0])
    if X.sort(v) == 's':
        return X.eq(v, X.mk('str', ''))
    return X.eqz(X.length(v))


@reg('capacity')
def capacity(m, args, st, e, path):
    return unk('capacity', 'i')


@reg('reserve', 'shrink_to_fit', 'reserve_exact', 'drop', 'forget')
def noop(m, args, st, e, path):
    return UNIT


def target(m, st, a):
    o = obj(a)
    if not isinstance(o, MRef):
        return None
    # follow reference chains
    for _ in range(5):
        v = m.read(st, o.cell, o.path)
        p = obj(v)
        if isinstance(p, MRef):
            o = p
        else:
            break
    return o


@reg('push')
def push(m, args, st, e, path):
    o = target(m, st, args[0])
    if o is None:
        return NotImplemented
    v = m.read(st, o.cell, o.path)
    if X.sort(v) == 's':
        m.write(st, o.cell, o.path, X.cat(v, args[1]))
        return UNIT
    m.write(st, o.cell, o.path, X.append(v, args[1]))
    return UNIT


@reg('push_str')
def push_str(m, args, st, e, path):
    o = target(m, st, args[0])
    if o is None:
        return NotImplemented
    m.write(st, o.cell, o.path, X.cat(m.read(st, o.cell, o.path), V(m, st, args[1])))
    return UNIT


@reg('insert')
def insert(m, args, st, e, path):
    o = target(m, st, args[0])
    if o is None or 'Vec' not in path:
        return NotImplemented
    v = m.read(st, o.cell, o.path)
    i, x = args[1], args[2]
    n = X.length(v)
    m.write(st, o.cell, o.path, X.comp(X.add(n, ONE), lambda j: X.ite(
        X.lt(j, i), X.index(v, j), X.ite(X.eqz(X.sub(j, i)), x, X.index(v, X.sub(j, ONE))))))
    return UNIT


@reg('pop')
def pop(m, args, st, e, path):
    o = target(m, st, args[0])
    if o is None:
        return NotImplemented
    v = m.read(st, o.cell, o.path)
    n = X.length(v)
    c = X.lt(ZERO, n)
    if v.op == 'list':
        if not v.a:
            return X.NONE
        m.write(st, o.cell, o.path, X.mk('list', *v.a[:-1]))
        return X.some(v.a[-1])
    m.write(st, o.cell, o.path, X.comp(X.ite(c, X.sub(n, ONE), ZERO), lambda j: X.index(v, j)))
    return X.opt(c, X.index(v, X.sub(n, ONE)))


@reg('remove', 'swap_remove')
def remove(m, args, st, e, path):
    o = target(m, st, args[0])
    if o is None or 'Vec' not in path:
        return NotImplemented
    v = m.read(st, o.cell, o.path)
    i = args[1]
    n = X.length(v)
    x = X.index(v, i)
    if last(path) == 'remove':
        m.write(st, o.cell, o.path, X.comp(X.sub(n, ONE), lambda j: X.ite(X.lt(j, i), X.index(v, j), X.index(v, X.add(j, ONE)))))
    else:
        m.write(st, o.cell, o.path, X.comp(X.sub(n, ONE), lambda j: X.ite(X.eqz(X.sub(j, i)), X.index(v, X.sub(n, ONE)), X.index(v, j))))
    return x


@reg('truncate')
def truncate(m, args, st, e, path):
    o = target(m, st, args[0])
    if o is None:
        return NotImplemented
    v = m.read(st, o.cell, o.path)
    m.write(st, o.cell, o.path, X.comp(min2(X.length(v), args[1]), lambda j: X.index(v, j)))
    return UNIT


@reg('clear')
def clear(m, args, st, e, path):
    o = target(m, st, args[0])
    if o is None:
        return NotImplemented
    v = m.read(st, o.cell, o.path)
    m.write(st, o.cell, o.path, X.mk('str', '') if X.sort(v) == 's' else X.mk('list'))
    return UNIT


@reg('resize')
def resize(m, args, st, e, path):
    o = target(m, st, args[0])
    if o is None:
        return NotImplemented
    v = m.read(st, o.cell, o.path)
    n, x = args[1], args[2]
    L = X.length(v)
    m.write(st, o.cell, o.path, X.comp(n, lambda j: X.ite(X.lt(j, L), X.index(v, j), x)))
    return UNIT


@reg('fill')
def fill(m, args, st, e, path):
    o = target(m, st, args[0])
    if o is None:
        return NotImplemented
    v = m.read(st, o.cell, o.path)
    m.write(st, o.cell, o.path, X.comp(X.length(v), lambda j: args[1]))
    return UNIT


@reg('reverse')
def reverse(m, args, st, e, path):
    v = V(m, st, args[0])
    if v.op == 'ord':
        return M.ord_rev(v)
    o = target(m, st, args[0])
    if o is None:
        return NotImplemented
    n = X.length(v)
    m.write(st, o.cell, o.path, X.comp(n, lambda j: X.index(v, X.sub(X.sub(n, ONE), j))))
    return UNIT


@reg('swap')
def swap(m, args, st, e, path):
    if 'mem' in path:
        a, b = target(m, st, args[0]), target(m, st, args[1])
        if a is None or b is None:
            return NotImplemented
        x, y = m.read(st, a.cell, a.path), m.read(st, b.cell, b.path)
        m.write(st, a.cell, a.path, y)
        m.write(st, b.cell, b.path, x)
        return UNIT
    o = target(m, st, args[0])
    if o is None:
        return NotImplemented
    v = m.read(st, o.cell, o.path)
    i, j = args[1], args[2]
    a, b = X.index(v, i), X.index(v, j)
    m.write(st, o.cell, o.path, X.store(X.store(v, i, b), j, a))
    return UNIT


@reg('replace')
def replace(m, args, st, e, path):
    a = target(m, st, args[0])
    if a is None:
        return NotImplemented
    x = m.read(st, a.cell, a.path)
    if 'Option' in path:
        m.write(st, a.cell, a.path, X.some(args[1]))
    else:
        m.write(st, a.cell, a.path, args[1])
    return x


@reg('take')
def take(m, args, st, e, path):
    it = get_it(args[0])
    if len(args) == 2 and 'io' in path.split('::'):
        # the first bytes of a file are another file
        src = V(m, st, args[0])
        return X.app('o', 'taken', src, V(m, st, args[1])) if src.op == 'app' else NotImplemented
    if it is None and isrange(args[0]):
        it = range_iter(args[0])
    if it is not None and len(args) == 2:
        it = settle(m, it, st)
        return mkit(min2(it.n, args[1]), it.elem, None, it.par)
    a = target(m, st, args[0])
    if a is None:
        return NotImplemented
    x = m.read(st, a.cell, a.path)
    if X.sort(x) == ('adt', OPT):
        m.write(st, a.cell, a.path, X.NONE)
    elif is_seq(x):
        m.write(st, a.cell, a.path, X.mk('list'))
    elif X.sort(x) in ('i', 'z', 'r'):
        m.write(st, a.cell, a.path, ZERO)
    elif X.sort(x) == 'b':
        m.write(st, a.cell, a.path, FALSE)
    else:
        return NotImplemented
    return x


@reg('append')
def vappend(m, args, st, e, path):
    a, b = target(m, st, args[0]), target(m, st, args[1])
    if a is None or b is None:
        return NotImplemented
    x, y = m.read(st, a.cell, a.path), m.read(st, b.cell, b.path)
    m.write(st, a.cell, a.path, X.concat(x, y))
    m.write(st, b.cell, b.path, X.mk('list'))
    return UNIT


@reg('extend', 'extend_from_slice', 'par_extend')
def extend(m, args, st, e, path):
    a = target(m, st, args[0])
    if a is None:
        return NotImplemented
    it = to_iter(m, args[1], st)
    if it is None:
        return NotImplemented
    y = materialise(m, it, st)
    x = m.read(st, a.cell, a.path)
    m.write(st, a.cell, a.path, X.concat(x, y))
    return UNIT


@reg('drain')
def drain(m, args, st, e, path):
    a = target(m, st, args[0])
    if a is None:
        return NotImplemented
    v = m.read(st, a.cell, a.path)
    n = X.length(v)
    if not isrange(args[1]):
        return NotImplemented
    lo, hi = range_bounds(args[1], n)
    out = m.slice(v, lo, X.sub(hi, lo))
    rest = X.concat(m.slice(v, ZERO, lo), m.slice(v, hi, X.sub(n, hi)))
    m.write(st, a.cell, a.path, rest)
    it = seq_iter(out)
    return mkit(it.n, it.elem)


@reg('split_at')
def split_at(m, args, st, e, path):
    v = V(m, st, args[0])
    k = args[1]
    return X.tup(m.slice(v, ZERO, k), m.slice(v, k, X.sub(X.length(v), k)))


@reg('split_off')
def split_off(m, args, st, e, path):
    a = target(m, st, args[0])
    if a is None:
        return NotImplemented
    v = m.read(st, a.cell, a.path)
    k = args[1]
    m.write(st, a.cell, a.path, m.slice(v, ZERO, k))
    return m.slice(v, k, X.sub(X.length(v), k))


@reg('split_first', 'split_last')
def split_first(m, args, st, e, path):
    v = V(m, st, args[0])
    n = X.length(v)
    c = X.lt(ZERO, n)
    if last(path) == 'split_first':
        return X.opt(c, X.tup(X.index(v, ZERO), m.slice(v, ONE, X.sub(n, ONE))))
    return X.opt(c, X.tup(X.index(v, X.sub(n, ONE)), m.slice(v, ZERO, X.sub(n, ONE))))


@reg('first', 'last')
def firstlast(m, args, st, e, path):
    v = V(m, st, args[0])
    it = get_it(v)
    if it is not None:
        v = materialise(m, it, st)
    if not is_seq(v):
        return NotImplemented
    n = X.length(v)
    if v.op == 'list':
        return X.some(v.a[0 if last(path) == 'first' else -1]) if v.a else X.NONE
    return X.opt(X.lt(ZERO, n), X.index(v, ZERO if last(path) == 'first' else X.sub(n, ONE)))


@reg('first_mut', 'last_mut', 'get_mut')
def first_mut(m, args, st, e, path):
    o = target(m, st, args[0])
    if o is None:
        return NotImplemented
    v = m.read(st, o.cell, o.path)
    n = X.length(v)
    name = last(path)
    i = ZERO if name == 'first_mut' else X.sub(n, ONE) if name == 'last_mut' else args[1]
    c = X.lt(ZERO, n) if name != 'get_mut' else X.lt(i, n)
    return X.opt(c, mref(o.cell, o.path + (('i', i),)))


@reg('get')
def get(m, args, st, e, path):
    v = V(m, st, args[0])
    i = V(m, st, args[1])
    if not is_seq(v):
        return NotImplemented
    if isrange(i):
        lo, hi = range_bounds(i, X.length(v))
        return X.opt(X.and_(X.le(lo, hi), X.le(hi, X.length(v))), m.slice(v, lo, X.sub(hi, lo)))
    return X.opt(X.lt(i, X.length(v)), X.index(v, i))


@reg('get_unchecked')
def get_unchecked(m, args, st, e, path):
    return X.index(V(m, st, args[0]), args[1])


@reg('index')
def index(m, args, st, e, path):
    v = V(m, st, args[0])
    i = V(m, st, args[1])
    if isrange(i):
        lo, hi = range_bounds(i, X.length(v))
        return m.slice(v, lo, X.sub(hi, lo))
    if X.sort(i) not in ('i', 'z'):
        return NotImplemented
    s = result_sort(m, e)
    if X.sort(v) == 'o' or isinstance(X.sort(v), tuple) and X.sort(v)[0] == 'arr':
        m.inbounds(st, i, v, e)
    return X.index(v, i, s if s != 'o' else None)


@reg('index_mut')
def index_mut(m, args, st, e, path):
    o = target(m, st, args[0])
    i = V(m, st, args[1])
    if o is None:
        return NotImplemented
    if isrange(i):
        lo, hi = range_bounds(i, X.length(m.read(st, o.cell, o.path)))
        return mref(o.cell, o.path + (('s', lo, X.sub(hi, lo)),))
    if 'index' in m.watch:
        m.inbounds(st, i, m.read(st, o.cell, o.path), e)
    return mref(o.cell, o.path + (('i', i),))


@reg('contains')
def contains(m, args, st, e, path):
    v = V(m, st, args[0])
    x = V(m, st, args[1])
    if isrange(v):
        lo, hi = range_bounds(v, INF)
        return X.and_(X.le(lo, x), X.lt(x, hi))
    if not is_seq(v):
        return NotImplemented
    return X.exists(X.length(v), lambda k: X.eq(X.index(v, k), x))


@reg('concat')
def concat(m, args, st, e, path):
    v = V(m, st, args[0])
    if v.op == 'list':
        if result_sort(m, e) == 's':
            return X.cat(*v.a)
        r = X.mk('list')
        for x in v.a:
            r = X.concat(r, x)
        return r
    return NotImplemented


@reg('repeat')
def repeat(m, args, st, e, path):
    v = V(m, st, args[0])
    if X.sort(v) == 's' and len(args) == 2:
        return X.app('s', 'strrep', v, args[1])
    if len(args) == 1:
        return mkit(INF, lambda s, k: v)
    return NotImplemented


@reg('sort', 'sort_unstable', 'sort_by', 'sort_unstable_by', 'sort_by_key', 'sort_unstable_by_key', 'sort_by_cached_key',
     'par_sort', 'par_sort_by', 'par_sort_unstable', 'par_sort_unstable_by', 'par_sort_by_key')
def sort(m, args, st, e, path):
    o = target(m, st, args[0])
    if o is None:
        return NotImplemented
    name = last(path)
    v = m.read(st, o.cell, o.path)
    stable = 'unstable' not in name

    def keys(fl):
        if name.endswith('_key'):
            return natural_keys(m.call_value(args[1], [fl.b], st.fork()))
        if name.endswith('_by'):
            return cmp_keys(m, st, args[1], fl)
        return natural_keys(fl.b)
    r = sorted_seq(m, st, v, keys, stable)
    if r is None:
        r = unk('sort order', X.sort(v), v)
    m.write(st, o.cell, o.path, r)
    return UNIT


@reg('retain')
def retain(m, args, st, e, path):
    o = target(m, st, args[0])
    if o is None:
        return NotImplemented
    v = m.read(st, o.cell, o.path)
    f = args[1]
    it = It(X.length(v), lambda s, k: X.index(v, k), lambda s, k: m.call_value(f, [X.index(v, k)], s))
    m.write(st, o.cell, o.path, materialise(m, it, st))
    return UNIT


def distinct_on(t):
    """t compares two values for equality: comparing neighbours is comparing with the last one kept"""
    return t.op in ('true', 'false', 'eqz') or (t.op == 'ite' and t.a[2] is FALSE and distinct_on(t.a[0]) and distinct_on(t.a[1]))


def before(k):
    # (0 itself for 0: never asked, but always there)
    return X.ite(X.eqz(k), X.num(0), X.sub(k, ONE))


@reg('dedup', 'dedup_by', 'dedup_by_key')
def dedup(m, args, st, e, path):
    o = target(m, st, args[0])
    if o is None:
        return NotImplemented
    v = m.read(st, o.cell, o.path)
    if len(args) == 2:
        n = X.length(v)
        k = X.fresh('i', 'k')
        X.C.range[k] = n
        el, pr = X.index(v, k), X.index(v, before(k))

        def neighbours(pr):
            if last(path) == 'dedup_by':
                return m.call_value(args[1], [el, pr], st.fork())
            return X.eq(m.call_value(args[1], [el], st.fork()), m.call_value(args[1], [pr], st.fork()))
        same = neighbours(pr)
        if not distinct_on(neighbours(X.index(v, X.sub(k, ONE)))):
            m.write(st, o.cell, o.path, unk('dedup', X.sort(v), v))
            return UNIT
        it = It(n, lambda s, j: X.index(v, j), lambda s, j: X.or_(X.eqz(j), X.not_(X.subst(same, {k: j}))))
        m.write(st, o.cell, o.path, materialise(m, it, st))
        return UNIT
    it = It(X.length(v), lambda s, k: X.index(v, k),
            lambda s, k: X.or_(X.eqz(k), X.not_(X.eq(X.index(v, k), X.index(v, before(k))))))
    m.write(st, o.cell, o.path, materialise(m, it, st))
    return UNIT


@reg('partition_point')
def partition_point(m, args, st, e, path):
    v = V(m, st, args[0])
    f = args[1]
    return X.first(X.length(v), lambda k: X.not_(m.call_value(f, [X.index(v, k)], st.fork())))


# ---- Option / Result
def resopt(v):
    s = X.sort(v)
    if v.op == 'enum':
        return v.a[0]
    if isinstance(s, tuple) and s[0] == 'adt':
        return s[1]
    return None


def good_bad(v):
    """(is good, good payload)"""
    if resopt(v) == RES:
        return X.eqz(X.tag(v)), X.payload(v, 0, '0')
    return X.is_some(v), X.payload(v, 1, '0')


def typed_payload(m, v, e, st):
    k = resopt(v)
    s = result_sort(m, e)
    return X.payload(v, 0 if k == RES else 1, '0', s)


@reg('unwrap', 'expect', 'unwrap_unchecked')
def unwrap(m, args, st, e, path):
    v = V(m, st, args[0])
    if v.op == 'ord':
        return v
    if resopt(v) not in (OPT, RES):
        return NotImplemented
    c, _ = good_bad(v)
    m.require(st, c, 'unwrap', e)
    p = typed_payload(m, v, e, st)
    if c is FALSE:
        st.dead = True
        return UNIT
    return p


@reg('unwrap_err')
def unwrap_err(m, args, st, e, path):
    return X.payload(V(m, st, args[0]), 1, '0')


@reg('unwrap_or', 'unwrap_or_default', 'unwrap_or_else')
def unwrap_or(m, args, st, e, path):
    v = V(m, st, args[0])
    if resopt(v) not in (OPT, RES):
        return NotImplemented
    name = last(path)
    c, _ = good_bad(v)
    p = typed_payload(m, v, e, st)
    if name == 'unwrap_or':
        d = args[1]
    elif name == 'unwrap_or_default':
        d = default(m, [], st, e, path)
        if d is NotImplemented:
            return NotImplemented
    else:
        a, b = st.fork(), st.fork()
        a.pc, b.pc = X.and_(st.pc, c), X.and_(st.pc, X.not_(c))
        d = m.call_value(args[1], [X.payload(v, 1, '0')] if resopt(v) == RES else [], b)
        return m.merge(st, c, a, b, p, d)
    return X.ite(c, p, d)


@reg('is_some', 'is_ok')
def is_some(m, args, st, e, path):
    v = V(m, st, args[0])
    return good_bad(v)[0] if resopt(v) in (OPT, RES) else NotImplemented


@reg('is_none', 'is_err')
def is_none(m, args, st, e, path):
    v = V(m, st, args[0])
    return X.not_(good_bad(v)[0]) if resopt(v) in (OPT, RES) else NotImplemented


@reg('is_some_and', 'is_none_or', 'is_ok_and')
def is_some_and(m, args, st, e, path):
    v = V(m, st, args[0])
    c, p = good_bad(v)
    r = m.call_value(args[1], [p], st.fork())
    return X.and_(c, r) if last(path) != 'is_none_or' else X.or_(X.not_(c), r)


@reg('ok')
def ok(m, args, st, e, path):
    v = V(m, st, args[0])
    c, p = good_bad(v)
    return X.opt(c, p)


@reg('ok_or', 'ok_or_else')
def ok_or(m, args, st, e, path):
    v = V(m, st, args[0])
    c, p = good_bad(v)
    err = args[1] if last(path) == 'ok_or' else m.call_value(args[1], [], st.fork())
    return X.ite(c, mk_ok(p), mk_err(err))


def mk_ok(x):
    return X.mk_enum(RES, ZERO, [X.mk_rec('v', [('0', x)]), ABSENT])


def mk_err(x):
    return X.mk_enum(RES, ONE, [ABSENT, X.mk_rec('v', [('0', x)])])


@reg('map_err')
def map_err(m, args, st, e, path):
    v = V(m, st, args[0])
    c, p = good_bad(v)
    er = m.call_value(args[1], [X.payload(v, 1, '0')], st.fork())
    return X.ite(c, mk_ok(p), mk_err(er))


@reg('and_then', 'or_else', 'or', 'xor', 'map_or', 'map_or_else')
def and_then(m, args, st, e, path):
    v = V(m, st, args[0])
    if resopt(v) not in (OPT, RES):
        return NotImplemented
    c, p = good_bad(v)
    name = last(path)
    a, b = st.fork(), st.fork()
    a.pc, b.pc = X.and_(st.pc, c), X.and_(st.pc, X.not_(c))
    if name == 'and_then':
        x = m.call_value(args[1], [p], a)
        y = X.NONE if resopt(v) == OPT else mk_err(X.payload(v, 1, '0'))
    elif name == 'or_else':
        x, y = v, m.call_value(args[1], [] if resopt(v) == OPT else [X.payload(v, 1, '0')], b)
    elif name == 'or':
        x, y = v, args[1]
    elif name == 'map_or':
        x, y = m.call_value(args[2], [p], a), args[1]
    elif name == 'map_or_else':
        x, y = m.call_value(args[2], [p], a), m.call_value(args[1], [], b)
    else:
        return NotImplemented
    return m.merge(st, c, a, b, x, y)


@reg('map')
def map_(m, args, st, e, path):
    v = args[0]
    f = args[1]
    it = iter_arg(m, v, st, path)
    if it is not None:
        g = it.guard

        def el(s, k):
            return m.call_value(f, [it.elem(s, k)], s)
        return mkit(it.n, el, g, it.par)
    v = V(m, st, v)
    if 'array' in path:
        n = X.length(v) if is_seq(v) else None
        if n is not None and n.op == 'num' and n.a[0] <= 8:
            return X.mk('list', *[m.call_value(f, [X.index(v, X.num(k))], st) for k in range(int(n.a[0]))])
        return NotImplemented
    if resopt(v) in (OPT, RES):
        c, p = good_bad(v)
        a, b = st.fork(), st.fork()
        a.pc, b.pc = X.and_(st.pc, c), X.and_(st.pc, X.not_(c))
        x = m.call_value(f, [p], a)
        if resopt(v) == OPT:
            return m.merge(st, c, a, b, X.some(x), X.NONE)
        return m.merge(st, c, a, b, mk_ok(x), mk_err(X.payload(v, 1, '0')))
    return NotImplemented


# ---- iterator construction and adaptors
def iter_arg(m, v, st, path=''):
    it = get_it(v)
    if it is not None:
        return it
    if isrange(v):
        return range_iter(v)
    o = obj(v)
    if isinstance(o, MRef):
        cur = m.read(st, o.cell, o.path)
        if get_it(cur) is not None:
            return to_iter(m, v, st)
    return None


@reg('iter', 'into_iter', 'par_iter', 'into_par_iter', 'iter_mut', 'par_iter_mut')
def iter_(m, args, st, e, path):
    name = last(path)
    v = args[0]
    o = obj(v)
    if name in ('iter', 'par_iter') and isinstance(o, MRef):
        v = V(m, st, v)
    it = to_iter(m, v, st)
    if it is None:
        return NotImplemented
    par = it.par or name in ('par_iter', 'into_par_iter', 'par_iter_mut')
    if par:
        m.log.append(('rayon', name, (e or {}).get('sp')))
    return mkit(it.n, it.elem, it.guard, par)


CSV = {'fields': False}        # set when the program reads records as text: a bad record is then a malformed one or one with a bad field


def csv_bad(src, opt_, k):
    if not CSV['fields']:
        return X.app('i', 'csv_bad', src, opt_, k)
    return X.ite(X.or_(X.not_(X.eqz(X.app('i', 'csv_rbad', src, opt_, k))),
                       X.exists(X.app('i', '+csv_w', src, opt_), lambda j: X.not_(X.eqz(
                           X.app('i', 'not_num', X.app('s', 'csv_str', src, opt_, k, j)))))), ONE, ZERO)


@reg('parse')
def parse(m, args, st, e, path):
    v = V(m, st, args[0])
    t = m.sort_of(m.frames[-1].T[m.ty(e['ty'])['args'][0]], m.frames[-1].T) if e is not None and m.ty(e['ty']).get('args') else None
    if t != 'r' or X.sort(v) != 's':
        return NotImplemented

    def one(x):
        val = X.app('r', 'csv_val', *x.a[2:]) if x.op == 'app' and x.a[1] == 'csv_str' else X.app('r', 'parsed', x)
        return X.mk_enum(RES, X.app('i', 'not_num', x), [X.mk_rec('v', [('0', val)]), X.mk_rec('v', [('0', X.app('o', 'parse_err', x))])])
    return X.lift(one, v)


@reg('deserialize', 'records', 'into_deserialize', 'into_records')
def deserialize(m, args, st, e, path):
    v = V(m, st, args[0])
    if v.op != 'rec' or v.a[0] != 'csvreader':
        return NotImplemented
    src = X.field(v, 'src')
    opt_ = X.field(v, 'opt')
    n = X.app('i', 'csv_n', src, opt_)
    # record type: from the iterator's type arguments
    rs = ('arr', 'r')
    if e is not None:
        t = m.ty(e['ty'])
        if t.get('args'):
            cand = [m.sort_of(m.frames[-1].T[a], m.frames[-1].T) for a in t['args']]
            arrs = [c for c in cand if isinstance(c, tuple) and c[0] == 'arr']
            rs = arrs[-1] if arrs else cand[-1] if cand else rs
            if not arrs:
                m.unknown_calls.setdefault('csv record type ' + t['s'], e.get('sp'))

    def el(s, k):
        if last(path).endswith('records') or rs == ('arr', 's'):
            # the fields as text: only a malformed record is refused
            bad = X.app('i', 'csv_rbad', src, opt_, k)
            row = X.comp(X.app('i', '+csv_w', src, opt_), lambda j: X.app('s', 'csv_str', src, opt_, k, j))
            return X.mk_enum(RES, bad, [X.mk_rec('v', [('0', row)]), X.mk_rec('v', [('0', X.app('o', 'csv_err', src, opt_, k))])])
        bad = csv_bad(src, opt_, k)
        if isinstance(rs, tuple) and rs[0] == 'arr':
            row = X.comp(X.app('i', '+csv_w', src, opt_), lambda j: X.app(rs[1], 'csv_val', src, opt_, k, j))
        else:
            row = X.app(rs, 'csv_row', src, opt_, k)
        return X.mk_enum(RES, bad, [X.mk_rec('v', [('0', row)]),
                                    X.mk_rec('v', [('0', X.app('o', 'csv_err', src, opt_, k))])])
    return mkit(n, el)


def csv_builder(opt=None, hdr=FALSE):
    return X.mk('rec', 'csvbuilder', (('opt', opt or X.mk('str', 'default')), ('hdr', hdr)))


@reg('has_headers', 'delimiter', 'flexible', 'trim', 'quote', 'comment', 'terminator', 'quoting', 'escape', 'double_quote', 'ascii', 'buffer_capacity')
def csv_opt(m, args, st, e, path):
    o = obj(args[0])
    v = V(m, st, args[0])
    if v.op != 'rec' or v.a[0] != 'csvbuilder':
        return NotImplemented
    name = last(path)
    a = V(m, st, args[1]) if len(args) > 1 else UNIT
    dflt = {'has_headers': TRUE, 'delimiter': X.num(44), 'flexible': FALSE, 'quoting': TRUE, 'double_quote': TRUE,
            'quote': X.num(34), 'comment': X.NONE, 'escape': X.NONE}.get(name)
    if a is not dflt and name != 'buffer_capacity':
        hdr = X.field(v, 'hdr')
        if name == 'trim' and a.op == 'app' and a.a[1] == 'variant':
            w = [x.a[0] for x in a.a[2:] if isinstance(x, X.T) and x.op == 'str']
            if 'None' in w:
                return args[0]
            if 'Headers' in w or 'All' in w:
                hdr = TRUE
            if 'Headers' in w:
                v = csv_builder(X.field(v, 'opt'), hdr)
                if isinstance(o, MRef):
                    m.write(st, o.cell, o.path, v)
                return args[0]
        if name in ('trim', 'terminator', 'escape', 'double_quote', 'ascii'):
            a = unk('csv option ' + name)       # may or may not matter for the files in question
        v = csv_builder(X.app('s', 'csvopt', X.field(v, 'opt'), X.mk('str', name), a), hdr)
        if isinstance(o, MRef):
            m.write(st, o.cell, o.path, v)
    return args[0]


@reg('from_reader', 'from_path')
def from_reader(m, args, st, e, path):
    if len(args) == 2:
        b = V(m, st, args[0])
        src, opt_, hdr = args[1], X.field(b, 'opt'), X.field(b, 'hdr')
    else:
        src, opt_, hdr = args[0], X.mk('str', 'default'), FALSE
    src = V(m, st, src)
    if last(path) == 'from_path':
        m.log.append(('fs', 'csv::Reader::from_path', (e or {}).get('sp'), src))
        f = X.app('o', 'file', src)
        return X.mk_enum(RES, X.app('i', 'open_bad', src), [
            X.mk_rec('v', [('0', X.mk('rec', 'csvreader', (('src', f), ('opt', opt_), ('hdr', hdr))))]),
            X.mk_rec('v', [('0', X.app('o', 'open_err', src))])])
    return X.mk('rec', 'csvreader', (('src', src), ('opt', opt_), ('hdr', hdr)))


@reg('open')
def fopen(m, args, st, e, path):
    if 'File' not in path:
        return NotImplemented
    p = V(m, st, args[0])
    m.log.append(('fs', path, (e or {}).get('sp'), p))
    return X.mk_enum(RES, X.app('i', 'open_bad', p), [X.mk_rec('v', [('0', X.app('o', 'file', p))]),
                                                     X.mk_rec('v', [('0', X.app('o', 'open_err', p))])])


@reg('trim', 'trim_start', 'trim_end', 'to_lowercase', 'to_uppercase', 'to_ascii_lowercase', 'to_ascii_uppercase',
     'trim_matches', 'trim_start_matches', 'trim_end_matches')
def strfn(m, args, st, e, path):
    if '<impl str>' not in path:
        return csv_opt(m, args, st, e, path) if last(path) == 'trim' else NotImplemented
    v = V(m, st, args[0])
    name = last(path)
    if len(args) == 2:
        # by the characters to cut, when they are written out
        c = V(m, st, args[1])
        if c.op not in ('str', 'num', 'list'):
            return NotImplemented
        return X.lift(lambda x: X.app('s', name, x, c), v) if X.sort(v) == 's' else NotImplemented
    return X.lift(lambda x: X.app('s', name, x), v) if X.sort(v) == 's' else NotImplemented


def trimmed(on, name):
    return X.app('s', 'trim', name) if on is TRUE else name


@reg('headers')
def headers(m, args, st, e, path):
    v = V(m, st, args[0])
    if v.op != 'rec' or v.a[0] != 'csvreader':
        return NotImplemented
    a = (X.field(v, 'src'), X.field(v, 'opt'))
    return X.mk_enum(RES, X.app('i', 'csv_hdrbad', *a), [X.mk_rec('v', [('0', X.comp(
        X.app('i', 'csv_nhdr', *a), lambda k: trimmed(X.field(v, 'hdr'), X.app('s', 'csv_hdr', *(a + (k,))))))]),
                                                        X.mk_rec('v', [('0', X.app('o', 'csv_hdrerr', *a))])])


@reg('enumerate')
def enumerate_(m, args, st, e, path):
    it = iter_arg(m, args[0], st)
    if it is None:
        return NotImplemented
    it = settle(m, it, st)
    return mkit(it.n, lambda s, k: X.tup(k, it.elem(s, k)), None, it.par)


@reg('zip', 'zip_eq')
def zip_(m, args, st, e, path):
    a = to_iter(m, args[0], st)
    b = to_iter(m, args[1], st)
    if a is None or b is None:
        return NotImplemented
    a, b = settle(m, a, st), settle(m, b, st)
    return mkit(min2(a.n, b.n), lambda s, k: X.tup(a.elem(s, k), b.elem(s, k)), None, a.par)


@reg('filter')
def filter_(m, args, st, e, path):
    it = iter_arg(m, args[0], st)
    f = args[1]
    if it is None:
        v = V(m, st, args[0])
        if resopt(v) == OPT:
            c, p = good_bad(v)
            return X.opt(X.and_(c, m.call_value(f, [p], st.fork())), p)
        return NotImplemented

    def g(s, k):
        a = it.guard(s, k) if it.guard else TRUE
        return X.and_(a, m.call_value(f, [it.elem(s, k)], s))
    return mkit(it.n, it.elem, g, it.par)


@reg('flatten', 'flat_map', 'flat_map_iter')
def flatten(m, args, st, e, path):
    it = iter_arg(m, args[0], st)
    if it is None:
        v = V(m, st, args[0])
        if resopt(v) == OPT and last(path) == 'flatten':
            w = X.payload(v, 1, '0')
            return X.opt(X.and_(X.is_some(v), X.is_some(w)), X.payload(w, 1, '0'))
        return NotImplemented
    if last(path) == 'flat_map':
        it0 = it
        it = It(it0.n, lambda s, k: m.call_value(args[1], [it0.elem(s, k)], s), it0.guard, it0.par)
    np, nl = len(m.panics), len(m.log)
    k0 = X.fresh('i', 'k')
    X.C.range[k0] = it.n
    v0 = it.elem(st.fork(), k0)
    del m.panics[np:]
    del m.log[nl:]
    v0 = V(m, st, v0)
    if resopt(v0) in (OPT, RES):
        isopt = resopt(v0) == OPT
        g0 = it.guard

        def good(s, k):
            return X.and_(g0(s, k) if g0 else TRUE, good_bad(V(m, s, it.elem(s, k)))[0])
        return mkit(it.n, lambda s, k: X.payload(V(m, s, it.elem(s, k)), 1 if isopt else 0, '0'), good, it.par)
    if to_iter(m, v0, st) is None:
        return NotImplemented

    def inner(s, k):
        ii = to_iter(m, it.elem(s, k), s)
        return mkit(ii.n, ii.elem, ii.guard)
    return mkobj(Nest(it, inner))


@reg('filter_map')
def filter_map(m, args, st, e, path):
    it = iter_arg(m, args[0], st)
    if it is None:
        return NotImplemented
    f = args[1]

    def val(s, k):
        return m.call_value(f, [it.elem(s, k)], s)

    def g(s, k):
        a = it.guard(s, k) if it.guard else TRUE
        return X.and_(a, X.is_some(val(s, k)))

    def el(s, k):
        v = val(s, k)
        return X.payload(v, 1, '0')
    return mkit(it.n, el, g, it.par)


@reg('rev')
def rev(m, args, st, e, path):
    it = iter_arg(m, args[0], st)
    if it is None:
        return NotImplemented
    n = it.n
    if n is INF:
        return NotImplemented
    r = lambda k: X.sub(X.sub(n, ONE), k)
    g = it.guard
    return mkit(n, lambda s, k: it.elem(s, r(k)), (lambda s, k: g(s, r(k))) if g else None, it.par)


@reg('skip')
def skip(m, args, st, e, path):
    it = iter_arg(m, args[0], st)
    if it is None:
        return NotImplemented
    c = args[1]
    it = settle(m, it, st)
    return mkit(it.n, it.elem, lambda s, k: X.le(c, k), it.par, ('ge', c))


@reg('take_while')
def take_while(m, args, st, e, path):
    it = iter_arg(m, args[0], st)
    if it is None:
        return NotImplemented
    it = settle(m, it, st)
    f = args[1]
    n = X.first(it.n, lambda k: X.not_(m.call_value(f, [it.elem(st.fork(), k)], st.fork())))
    return mkit(n, it.elem, None, it.par)


@reg('map_while')
def map_while(m, args, st, e, path):
    it = iter_arg(m, args[0], st)
    if it is None:
        return NotImplemented
    it = settle(m, it, st)
    f = args[1]
    n = X.first(it.n, lambda k: X.not_(X.is_some(m.call_value(f, [it.elem(st.fork(), k)], st.fork()))))
    return mkit(n, lambda s, k: X.payload(m.call_value(f, [it.elem(s, k)], s), 1, '0'), None, it.par)


@reg('skip_while')
def skip_while(m, args, st, e, path):
    it = iter_arg(m, args[0], st)
    if it is None:
        return NotImplemented
    it = settle(m, it, st)
    f = args[1]
    n = X.first(it.n, lambda k: X.not_(m.call_value(f, [it.elem(st.fork(), k)], st.fork())))
    return mkit(it.n, it.elem, lambda s, k: X.le(n, k), it.par)


@reg('step_by')
def step_by(m, args, st, e, path):
    it = iter_arg(m, args[0], st)
    if it is None:
        return NotImplemented
    it = settle(m, it, st)
    c = args[1]
    if c is ONE:
        return mkit(it.n, it.elem, None, it.par)
    n = m.idiv(X.sub(X.add(it.n, c), ONE), c)
    return mkit(n, lambda s, k: it.elem(s, X.mul(k, c)), None, it.par)


@reg('chain')
def chain(m, args, st, e, path):
    a = iter_arg(m, args[0], st)
    b = to_iter(m, args[1], st)
    if a is None or b is None:
        return NotImplemented
    a, b = settle(m, a, st), settle(m, b, st)
    return mkit(X.add(a.n, b.n), lambda s, k: X.ite(X.lt(k, a.n), a.elem(s, k), b.elem(s, X.sub(k, a.n))), None, a.par)


@reg('once')
def once(m, args, st, e, path):
    return mkit(ONE, lambda s, k: args[0])


@reg('windows')
def windows(m, args, st, e, path):
    v = V(m, st, args[0])
    w = args[1]
    n = X.length(v)
    return mkit(max0(X.add(X.sub(n, w), ONE)), lambda s, k: m.slice(v, k, w))


@reg('chunks', 'chunks_exact', 'par_chunks', 'par_chunks_exact')
def chunks(m, args, st, e, path):
    v = V(m, st, args[0])
    w = args[1]
    n = X.length(v)
    if last(path).endswith('_exact'):
        # the remainder is left out
        return mkit(m.idiv(n, w), lambda s, k: m.slice(v, X.mul(k, w), w), None, last(path).startswith('par'))
    cnt = m.idiv(X.sub(X.add(n, w), ONE), w)
    if last(path).startswith('par'):
        return mkit(cnt, lambda s, k: m.slice(v, X.mul(k, w), min2(w, X.sub(n, X.mul(k, w)))), None, True)
    return mkit(cnt, lambda s, k: m.slice(v, X.mul(k, w), min2(w, X.sub(n, X.mul(k, w)))))


@reg('peekable', 'fuse', 'into_par', 'with_min_len', 'with_max_len', 'par_bridge', 'lazy')
def same_iter(m, args, st, e, path):
    if last(path) == 'par_bridge':
        m.log.append(('rayon-unordered', path, (e or {}).get('sp')))
    return args[0]


@reg('inspect')
def inspect(m, args, st, e, path):
    it = iter_arg(m, args[0], st)
    if it is None:
        return NotImplemented
    f = args[1]

    def el(s, k):
        x = it.elem(s, k)
        m.call_value(f, [x], s)
        return x
    return mkit(it.n, el, it.guard, it.par)


# ---- terminals
@reg('next')
def next_(m, args, st, e, path):
    o = target(m, st, args[0])
    if o is None:
        return NotImplemented
    v = m.read(st, o.cell, o.path)
    if isrange(v):
        it = range_iter(v)
        lo, n = dict(v.a[1]).get('start', ZERO), it.n
        v = it_state(mkobj(It(max0(X.sub(n, lo)) if it.guard else n, (lambda s, k: it.elem(s, X.add(k, lo))) if it.guard else it.elem)))
    if v.op != 'rec' or v.a[0] != 'iter':
        return NotImplemented
    io = v.a[1][0][1]
    it, pos = obj(io), v.a[1][1][1]
    if not isinstance(it, It):
        return NotImplemented
    if it.guard is not None:
        it = settle(m, it, st)
        io = mkobj(it)
    c = X.lt(pos, it.n)
    s = st.fork()
    s.pc = X.and_(s.pc, c)
    x = it.elem(s, pos)
    st.cells.update(s.cells)
    m.write(st, o.cell, o.path, it_state(io, X.ite(c, X.add(pos, ONE), pos)))
    return X.opt(c, x)


@reg('peek')
def peek(m, args, st, e, path):
    o = target(m, st, args[0])
    v = m.read(st, o.cell, o.path) if o else args[0]
    if v.op != 'rec' or v.a[0] != 'iter':
        return NotImplemented
    it, pos = obj(v.a[1][0][1]), v.a[1][1][1]
    if not isinstance(it, It) or it.guard is not None:
        return NotImplemented
    return X.opt(X.lt(pos, it.n), it.elem(st.fork(), pos))


def strictness(m, it, e, what):
    if it.par:
        m.log.append(('rayon-' + what, what, (e or {}).get('sp')))


@reg('collect', 'collect_vec', 'collect_into_vec')
def collect(m, args, st, e, path):
    it = iter_arg(m, args[0], st)
    if it is None:
        return NotImplemented
    strictness(m, it, e, 'collect')
    t = elem_ty_of_result(m, e)
    if t.get('k') == 'adt' and t['key'] not in ('alloc::vec::Vec', 'alloc::string::String', RES, OPT) and t['key'] not in M.TRANSP:
        return NotImplemented
    arr = materialise(m, it, st)
    if t.get('k') == 'tuple':
        return unzip_arr(arr, len(t['args']))
    if t.get('key') == 'alloc::string::String':
        n = X.length(arr)
        if n.op == 'num':
            return X.cat(*[X.index(arr, X.num(i)) for i in range(int(n.a[0]))])
        v = X.fresh('i')
        return X.mk('app', 's', 'cats', n, X.mk_lam(v, X.index(arr, v)))
    if t.get('key') in (RES, OPT):
        n = X.length(arr)
        isres = t['key'] == RES
        bad = X.first(n, lambda k: X.not_(good_bad(X.index(arr, k))[0]))
        okv = X.comp(n, lambda k: X.payload(X.index(arr, k), 0 if isres else 1, '0'))
        c = X.eqz(X.sub(bad, n))
        if isres:
            return X.ite(c, mk_ok(okv), mk_err(X.payload(X.index(arr, bad), 1, '0')))
        return X.opt(c, okv)
    return arr


def unzip_arr(arr, k=2):
    n = X.length(arr)
    return X.tup(*[X.comp(n, lambda j, i=i: X.field(X.index(arr, j), str(i))) for i in range(k)])


@reg('unzip')
def unzip(m, args, st, e, path):
    it = iter_arg(m, args[0], st)
    if it is None:
        return NotImplemented
    strictness(m, it, e, 'collect')
    return unzip_arr(materialise(m, it, st))


@reg('partition')
def partition(m, args, st, e, path):
    it = iter_arg(m, args[0], st)
    if it is None:
        return NotImplemented
    arr = materialise(m, it, st)
    f = args[1]
    sq = seq_iter(arr)
    yes = It(sq.n, sq.elem, lambda s, k: m.call_value(f, [sq.elem(s, k)], s))
    no = It(sq.n, sq.elem, lambda s, k: X.not_(m.call_value(f, [sq.elem(s, k)], s)))
    return X.tup(materialise(m, yes, st), materialise(m, no, st))


def reduce_flat(m, it, st, e, what):
    if it.par:
        m.log.append(('rayon-reduce', what, (e or {}).get('sp')))
    return flat(m, it, st)


@reg('sum')
def sum_(m, args, st, e, path):
    it = iter_arg(m, args[0], st)
    if it is None:
        return NotImplemented
    f = reduce_flat(m, it, st, e, 'sum')
    if f is None:
        arr = push_loop(m, it, st)
        return X.summ(X.length(arr), lambda k: X.index(arr, k))
    if it.n is INF:
        return NotImplemented
    return X.sum_body(f.n, f.v, X.ite(f.g, f.b, ZERO))


@reg('product')
def product(m, args, st, e, path):
    it = iter_arg(m, args[0], st)
    if it is None:
        return NotImplemented
    return fold_loop(m, it, st, ONE, lambda s, a, x: X.mul(a, x))


def fold_loop(m, it, st, init, f):
    import loops
    c = m.newcell(st, init)

    def run(s, el, k):
        s.cells[c] = f(s, s.cells[c], el)
    loops.run_loop(m, st, it, run, [], m.span)
    return st.cells[c]


@reg('fold')
def fold(m, args, st, e, path):
    it = iter_arg(m, args[0], st)
    if it is None:
        return NotImplemented
    if it.par:
        m.log.append(('rayon-reduce', 'fold', (e or {}).get('sp')))
        return NotImplemented
    return fold_loop(m, it, st, args[1], lambda s, a, x: m.call_value(args[2], [a, x], s))


@reg('reduce')
def reduce(m, args, st, e, path):
    it = iter_arg(m, args[0], st)
    if it is None:
        return NotImplemented
    if it.par:
        m.log.append(('rayon-reduce', 'reduce', (e or {}).get('sp')))
        if len(args) == 3:
            init = m.call_value(args[1], [], st)
            return fold_loop(m, it, st, init, lambda s, a, x: m.call_value(args[2], [a, x], s))
        return NotImplemented
    arr = materialise(m, it, st)
    n = X.length(arr)
    rest = It(n, lambda s, k: X.index(arr, k), lambda s, k: X.le(ONE, k), src=('ge', ONE))
    r = fold_loop(m, rest, st, X.index(arr, ZERO), lambda s, a, x: m.call_value(args[1], [a, x], s))
    return X.opt(X.lt(ZERO, n), r)


@reg('try_fold')
def try_fold(m, args, st, e, path):
    return NotImplemented


@reg('for_each')
def for_each(m, args, st, e, path):
    it = iter_arg(m, args[0], st)
    if it is None:
        return NotImplemented
    if it.par:
        m.log.append(('rayon-for_each', 'for_each', (e or {}).get('sp')))
    each(m, it, st, lambda s, x: m.call_value(args[1], [x], s))
    return UNIT


@reg('any', 'all')
def any_(m, args, st, e, path):
    it = iter_arg(m, args[0], st)
    if it is None:
        return NotImplemented
    allq = last(path) == 'all'
    f = flat(m, it, st)
    if f is None:
        return NotImplemented
    p = m.call_value(args[1], [f.b], st.fork())
    if allq:
        return X.not_(X.exists_body(f.n, f.v, X.and_(f.g, X.not_(p))))
    return X.exists_body(f.n, f.v, X.and_(f.g, p))


@reg('position', 'find', 'find_map', 'rposition')
def find(m, args, st, e, path):
    it = iter_arg(m, args[0], st)
    if it is None:
        return NotImplemented
    name = last(path)
    if name == 'rposition':
        if it.guard or it.n is INF:
            return NotImplemented
        n, el = it.n, it.elem
        it = mkit(n, lambda s, k: el(s, X.sub(X.sub(n, ONE), k)))
        it = iter_arg(m, it, st)
    if name == 'position':
        it = settle(m, it, st)
    f = flat(m, it, st)
    if f is None:
        return NotImplemented
    r = m.call_value(args[1], [f.b], st.fork())
    p = X.is_some(r) if name == 'find_map' else r
    g = X.and_(f.g, p)
    i = X.first_body(f.n, f.v, g)
    has = X.exists_body(f.n, f.v, g)
    if name == 'position':
        return X.opt(has, i)
    if name == 'rposition':
        return X.opt(has, X.sub(X.sub(n, ONE), i))
    out = X.payload(r, 1, '0') if name == 'find_map' else f.b
    return X.opt(has, X.subst(out, {f.v: i}))


@reg('count')
def count(m, args, st, e, path):
    it = iter_arg(m, args[0], st)
    if it is None:
        return NotImplemented
    f = flat(m, it, st)
    if f is None:
        return NotImplemented
    return X.sum_body(f.n, f.v, X.ite(f.g, ONE, ZERO))


@reg('nth')
def nth(m, args, st, e, path):
    it = iter_arg(m, args[0], st)
    if it is None:
        return NotImplemented
    it = settle(m, it, st)
    return X.opt(X.lt(args[1], it.n), it.elem(st, args[1]))


@reg('max', 'min', 'max_by', 'min_by', 'max_by_key', 'min_by_key')
def maxmin(m, args, st, e, path):
    name = last(path)
    it = iter_arg(m, args[0], st)
    if it is None:
        if name in ('max', 'min') and len(args) == 2:
            a, b = V(m, st, args[0]), V(m, st, args[1])
            if X.sort(a) in ('i', 'z', 'r') and X.sort(b) in ('i', 'z', 'r'):
                return X.ite(X.lt(a, b), b, a) if name == 'max' else X.ite(X.lt(b, a), b, a)
        return NotImplemented
    f = reduce_flat(m, it, st, e, name) if name.endswith('by') or name.endswith('key') else flat(m, it, st)
    if f is None:
        return NotImplemented
    if name.endswith('_by'):
        keys = cmp_keys(m, st, args[1], f)
    elif name.endswith('_key'):
        keys = natural_keys(m.call_value(args[1], [f.b], st.fork()))
    else:
        keys = natural_keys(f.b)
    if not keys:
        return NotImplemented
    mx = name.startswith('max')
    g = f.g
    for k in keys:
        # ties on the earlier keys are what the next key decides; the first (min) or last (max) one remains
        k = X.neg(k) if mx else k
        i = X.argmin_body(f.n, f.v, g, k, mx)
        g = X.and_(g, X.eqz(X.sub(k, X.subst(k, {f.v: i}))))
    has = X.exists_body(f.n, f.v, f.g)
    return X.opt(has, X.subst(f.b, {f.v: i}))


@reg('join')
def join(m, args, st, e, path):
    if 'rayon' in path:
        m.log.append(('rayon-join', path, (e or {}).get('sp')))
        a = m.call_value(args[0], [], st)
        b = m.call_value(args[1], [], st)
        return X.tup(a, b)
    v = V(m, st, args[0])
    if is_seq(v) and len(args) == 2:
        n = X.length(v)
        w = X.fresh('i')
        return X.mk('app', 's', 'join', n, X.mk_lam(w, X.index(v, w)), V(m, st, args[1]))
    return NotImplemented


@reg('scope', 'spawn', 'install', 'thread', 'broadcast')
def spawn(m, args, st, e, path):
    m.log.append(('thread', path, (e or {}).get('sp')))
    return NotImplemented


@reg('call', 'call_mut', 'call_once')
def fcall(m, args, st, e, path):
    t = V(m, st, args[1])
    xs = [x for _, x in t.a[1]] if t.op == 'rec' else [t]
    return m.call_value(args[0], xs, st, e)


# ---- comparison
@reg('partial_cmp', 'cmp', 'total_cmp')
def cmp_(m, args, st, e, path):
    a, b = deep_rd(m, st, args[0]), deep_rd(m, st, args[1])
    if isinstance(X.sort(a), tuple) and X.sort(a)[0] == 'adt' and 'Reverse' in X.sort(a)[1]:
        return NotImplemented
    ka, kb = natural_keys(a), natural_keys(b)
    if ka is None or kb is None or len(ka) != len(kb):
        return NotImplemented
    o = X.mk('ord', tuple(zip(ka, kb)))
    if X.C.strict_float and last(path) != 'cmp' and len(ka) == 1 and X.sort(ka[0]) == 'r' and X.sort(kb[0]) == 'r':
        x, y = ka[0], kb[0]
        nan = X.or_(M.isnan(x), M.isnan(y))
        if last(path) == 'partial_cmp':
            return X.opt(X.not_(nan), M.ord_enum(o))
        # total_cmp puts NaN at either end
        t = M.ord_enum(o)
        far = X.app('b', 'nan_below', x, y)
        return X.mk_enum(t.a[0], X.ite(nan, X.ite(far, ZERO, X.num(2)), t.a[1]), t.a[2])
    return X.some(o) if last(path) == 'partial_cmp' else o


@reg('then')
def then(m, args, st, e, path):
    a = V(m, st, args[0])
    if a.op == 'ord' and args[1].op == 'ord':
        return X.mk('ord', a.a[0] + args[1].a[0])
    if X.sort(a) == 'b':
        return X.opt(a, m.call_value(args[1], [], st.fork()))
    return NotImplemented


@reg('then_some')
def then_some(m, args, st, e, path):
    return X.opt(V(m, st, args[0]), args[1])


@reg('then_with')
def then_with(m, args, st, e, path):
    a = V(m, st, args[0])
    b = m.call_value(args[1], [], st.fork())
    if a.op == 'ord' and b.op == 'ord':
        return X.mk('ord', a.a[0] + b.a[0])
    return NotImplemented


@reg('is_lt', 'is_le', 'is_gt', 'is_ge', 'is_eq', 'is_ne')
def is_ord(m, args, st, e, path):
    a = V(m, st, args[0])
    if a.op != 'ord':
        return NotImplemented
    l, g = M.ord_lt(a), M.ord_lt(M.ord_rev(a))
    return {'is_lt': l, 'is_le': X.not_(g), 'is_gt': g, 'is_ge': X.not_(l), 'is_eq': X.and_(X.not_(l), X.not_(g)),
            'is_ne': X.or_(l, g)}[last(path)]


@reg('eq', 'ne', 'lt', 'le', 'gt', 'ge')
def cmpop(m, args, st, e, path):
    if len(args) != 2:
        return NotImplemented
    a, b = deep_rd(m, st, args[0]), deep_rd(m, st, args[1])
    n = last(path)
    fl = X.sort(a) == 'r' or X.sort(b) == 'r'
    return m.compare(n.capitalize(), a, b, fl)


# ---- arithmetic traits and f64/usize methods
@reg('add', 'sub', 'mul', 'div', 'rem', 'neg', 'not')
def arith(m, args, st, e, path):
    vs = [deep_rd(m, st, a) for a in args]
    n = last(path)
    s = result_sort(m, e)
    if n == 'neg':
        return X.neg(vs[0])
    if n == 'not':
        return X.not_(vs[0]) if X.sort(vs[0]) == 'b' else NotImplemented
    if X.sort(vs[0]) not in ('i', 'z', 'r', 's'):
        return NotImplemented
    ty = 'f64' if s == 'r' else 'usize'
    return m.binop(n.capitalize(), vs[0], vs[1], ty, st, e)


@reg('add_assign', 'sub_assign', 'mul_assign', 'div_assign', 'rem_assign')
def arith_assign(m, args, st, e, path):
    o = target(m, st, args[0])
    if o is None:
        return NotImplemented
    old = m.read(st, o.cell, o.path)
    b = deep_rd(m, st, args[1])
    ty = 'f64' if X.sort(old) == 'r' or X.sort(b) == 'r' else 'usize'
    if X.sort(old) not in ('i', 'z', 'r', 's'):
        return NotImplemented
    # the operand type decides integer or float division
    t = m.frames[-1].T
    m.write(st, o.cell, o.path, m.binop(last(path)[:3].capitalize(), old, b, ty, st, e))
    return UNIT


@reg('abs')
def abs_(m, args, st, e, path):
    return X.absT(V(m, st, args[0]))


@reg('powi', 'pow')
def powi(m, args, st, e, path):
    b = V(m, st, args[1])
    if b.op == 'num' and b.a[0].denominator == 1 and abs(b.a[0]) <= 6:
        return X.powi(V(m, st, args[0]), int(b.a[0]))
    return X.app('r', 'pow', V(m, st, args[0]), b)


@reg('powf')
def powf(m, args, st, e, path):
    b = V(m, st, args[1])
    from fractions import Fraction
    a = V(m, st, args[0])
    if b.op == 'num' and b.a[0].denominator == 1 and abs(b.a[0]) <= 6:
        return X.powi(a, int(b.a[0]))
    if b.op == 'num' and b.a[0] == Fraction(1, 2):
        return X.fn1('sqrt', a)
    if a.op == 'num' and abs(float(a.a[0]) - 2.718281828459045) < 1e-12:
        return X.exp(b)
    return X.app('r', 'pow', a, b)


@reg('exp')
def exp(m, args, st, e, path):
    a = V(m, st, args[0])
    m.event(st, 'exp', X.pos(a), e)
    m.event(st, 'exp700', X.pos(X.sub(a, X.num(700))), e)
    return X.exp(a)


@reg('sqrt', 'ln', 'log10', 'log2', 'floor', 'ceil', 'round', 'trunc', 'sin', 'cos', 'tanh', 'exp2', 'exp_m1', 'ln_1p', 'cbrt', 'signum', 'fract')
def f1(m, args, st, e, path):
    v = V(m, st, args[0])
    n = last(path)
    if n in ('floor', 'ceil', 'round', 'trunc') and X.isint(v):
        return v
    if n == 'fract':
        return X.num(0) if X.isint(v) else X.sub(v, X.fn1('trunc', v))
    return X.fn1(n, v)


@reg('recip')
def recip(m, args, st, e, path):
    m.event(st, 'div0', X.eqz(V(m, st, args[0])), e)
    m.event(st, 'uflow', X.app('b', 'uflow', V(m, st, args[0])), e)
    return X.inv(V(m, st, args[0]))


@reg('mul_add')
def mul_add(m, args, st, e, path):
    a, b, c = [V(m, st, x) for x in args]
    return X.add(X.mul(a, b), c)


@reg('clamp')
def clamp(m, args, st, e, path):
    x, lo, hi = [V(m, st, a) for a in args]
    return X.ite(X.lt(x, lo), lo, X.ite(X.lt(hi, x), hi, x))


@reg('is_nan')
def is_nan(m, args, st, e, path):
    if X.C.strict_float:
        return M.isnan(V(m, st, args[0]))
    return X.not_(finite(V(m, st, args[0]), inf_ok=True))


@reg('is_finite')
def is_finite(m, args, st, e, path):
    if X.C.strict_float:
        x = V(m, st, args[0])
        return X.and_(X.not_(M.isnan(x)), X.not_(X.app('b', 'infinite', x)))
    return finite(V(m, st, args[0]))


@reg('is_normal')
def is_normal(m, args, st, e, path):
    x = V(m, st, args[0])
    f = is_finite(m, args, st, e, path)
    return X.and_(f, X.not_(X.eqz(x)))


@reg('is_sign_negative')
def is_sign_negative(m, args, st, e, path):
    x = V(m, st, args[0])
    if x.op == 'num':
        return X.boolT(x.a[0] < 0)
    return X.ite(X.eqz(x), unk('sign of zero', 'b', x), X.lt(x, X.num(0)))


@reg('is_sign_positive')
def is_sign_positive(m, args, st, e, path):
    return X.not_(is_sign_negative(m, args, st, e, path))


@reg('is_infinite')
def is_inf(m, args, st, e, path):
    if X.C.strict_float:
        return X.app('b', 'infinite', V(m, st, args[0]))
    return FALSE if finite(V(m, st, args[0])) is TRUE else unk('is_infinite', 'b', V(m, st, args[0]))


def finite(t, inf_ok=False):
    """all divisors non-zero (over/underflow abstracted)"""
    if t.op == 'ite':
        return X.ite(t.a[0], finite(t.a[1]), finite(t.a[2]))
    r = TRUE
    for d in divisors(t):
        r = X.and_(r, X.not_(X.eqz(d)))
    if t is INF or (t.op == 'poly' and any(x is INF for mm, _ in t.a for x, _ in mm)):
        return X.boolT(inf_ok)
    return r


def divisors(t):
    out = []
    for mm, c in X.P(t).items():
        for x, ex in mm:
            if x.op == 'inv':
                out.append(x.a[0])
            elif ex < 0:
                out.append(x)
    seen = []
    for d in out:
        if d not in seen:
            seen.append(d)
    return seen


@reg('saturating_sub')
def satsub(m, args, st, e, path):
    a, b = V(m, st, args[0]), V(m, st, args[1])
    return X.ite(X.lt(a, b), ZERO, X.sub(a, b))


@reg('checked_sub')
def chksub(m, args, st, e, path):
    a, b = V(m, st, args[0]), V(m, st, args[1])
    return X.opt(X.le(b, a), X.sub(a, b))


@reg('wrapping_add', 'saturating_add', 'unchecked_add')
def wadd(m, args, st, e, path):
    return X.add(V(m, st, args[0]), V(m, st, args[1]))


@reg('abs_diff')
def abs_diff(m, args, st, e, path):
    return X.absT(X.sub(V(m, st, args[0]), V(m, st, args[1])))


@reg('abs_sub')
def abs_sub(m, args, st, e, path):
    return NotImplemented


@reg('try_from', 'try_into')
def try_from(m, args, st, e, path):
    return NotImplemented


@reg('into_result', 'branch')
def branch(m, args, st, e, path):
    return NotImplemented


# ---- panics
@reg('panic', 'panic_fmt', 'panic_display', 'assert_failed', 'unreachable', 'begin_panic', 'panic_str', 'expect_failed',
     'unwrap_failed', 'panic_explicit', 'panic_nounwind', 'unreachable_display', 'panic_bounds_check', 'exit', 'abort', 'todo', 'unimplemented', 'panic_2021', 'panic_cold_explicit', 'panic_cold_display')
def panic(m, args, st, e, path):
    return m.panic(st, last(path), e)


# ---- formatting and output
@reg('new_display', 'new_debug', 'new_lower_exp', 'new_upper_exp')
def new_arg(m, args, st, e, path):
    v = deep_rd(m, st, args[0])
    if X.sort(v) == 's' and last(path) == 'new_display':
        return v
    return X.app('s', {'new_display': 'disp', 'new_debug': 'dbg'}.get(last(path), last(path)), v)


def fmt_args(m, args, st, e, path):
    t = V(m, st, args[0])
    if t.op != 'list' or len(args) < 2:
        return NotImplemented
    bs = [int(x.a[0]) for x in t.a]
    xs = V(m, st, args[1])
    xs = list(xs.a) if xs.op == 'list' else []
    return template(bs, xs)


def template(bs, xs):
    out, i, k = [], 0, 0
    while i < len(bs):
        b = bs[i]
        if b == 0:
            break
        if b == 192:
            if k >= len(xs):
                return unk('format', 's')
            out.append(xs[k])
            k += 1
            i += 1
        elif b < 128:
            s = bytes(bs[i + 1:i + 1 + b]).decode('utf8', 'replace')
            out.append(X.mk('str', s))
            i += 1 + b
        else:
            # formatting options: keep the placeholder but mark the option bytes
            out.append(X.app('s', 'fmtopt', X.mk('str', repr(bs[i:])), *xs[k:]))
            return X.cat(*out)
    return X.cat(*out)


@reg('from_str', 'new_const', 'from_str_nonconst')
def args_const(m, args, st, e, path):
    if 'Arguments' not in path:
        return NotImplemented
    v = V(m, st, args[0])
    if v.op == 'list':
        return X.cat(*v.a)
    return v


@reg('format')
def fformat(m, args, st, e, path):
    return args[0]


@reg('_print', '_eprint')
def print_(m, args, st, e, path):
    m.log.append(('print', last(path), (e or {}).get('sp')))
    if last(path) == '_print' and m.stdout is not None and m.stdout in st.cells:
        st.cells[m.stdout] = X.cat(st.cells[m.stdout], args[0])
    return UNIT


@reg('now', 'elapsed', 'duration_since')
def clock(m, args, st, e, path):
    m.log.append(('clock', path, (e or {}).get('sp')))
    return unk('clock', 'o')


@reg('write_box_via_move')
def write_box_via_move(m, args, st, e, path):
    # vec![a, b] writes its array into a fresh box
    return V(m, st, args[1])


@reg('new_uninit')
def new_uninit(m, args, st, e, path):
    return UNIT if 'Box' in path else NotImplemented


@reg('partition_point')
def partition_point(m, args, st, e, path):
    """first element the predicate rejects (the slice is partitioned by it, or the result is unspecified)"""
    f = slice_flat(m, args[0], st)
    if f is None:
        return NotImplemented
    r = m.call_value(args[1], [f.b], st.fork())
    g = X.not_(r)
    return X.ite(X.exists_body(f.n, f.v, g), X.first_body(f.n, f.v, g), f.n)


@reg('binary_search_by', 'binary_search_by_key', 'binary_search')
def binary_search(m, args, st, e, path):
    """the position of an element that compares equal (which one is not specified), or that of the first greater one"""
    f = slice_flat(m, args[0], st)
    if f is None:
        return NotImplemented
    name = last(path)
    if name == 'binary_search_by':
        r = m.call_value(args[1], [f.b], st.fork())
    else:
        x = f.b if name == 'binary_search' else m.call_value(args[2], [f.b], st.fork())
        a, b = natural_keys(deep_rd(m, st, x)), natural_keys(deep_rd(m, st, args[1]))
        if a is None or b is None or len(a) != len(b):
            return NotImplemented
        r = X.mk('ord', tuple(zip(a, b)))
    if r.op != 'ord':
        r = ord_of_tree(r)
        if r is None:
            return NotImplemented
    eq, gt = X.and_(X.not_(M.ord_lt(r)), X.not_(M.ord_lt(M.ord_rev(r)))), M.ord_lt(M.ord_rev(r))
    # any match may be returned: taken as the last one, which can refute but not prove
    X.C.weak = 'binary search may return any of the equal elements'
    q = X.ite(X.exists_body(f.n, f.v, gt), X.first_body(f.n, f.v, gt), f.n)
    before = X.sub(q, ONE)
    found = X.and_(X.le(ONE, q), X.subst(eq, {f.v: before}))
    pos = X.ite(found, before, q)
    if pos.op == 'ite':
        pos = X.mk('app', 'i', 'opq', X.mk_lam(X.fresh('i'), pos))        # kept as one value: a slice may start or end there
    p = X.mk_rec('v', [('0', pos)])
    return X.mk_enum(RES, X.ite(found, ZERO, ONE), [p, p])


def slice_flat(m, a, st):
    arr = V(m, st, a)
    if not is_seq(arr):
        return None
    return flat(m, seq_iter(arr), st)


@reg('to_bits')
def to_bits(m, args, st, e, path):
    """the bit pattern, up to order: negative numbers come after all others, in reverse; good for refuting only"""
    x = V(m, st, args[0])
    if X.sort(x) != 'r':
        return NotImplemented
    X.C.weak = 'the value of a bit pattern is modelled up to order only'
    return X.ite(X.lt(x, ZERO), X.sub(X.num(10 ** 30), x), x)


@reg('split_at_mut')
def split_at_mut(m, args, st, e, path):
    o = target(m, st, args[0])
    if o is None:
        return NotImplemented
    n, k = X.length(m.read(st, o.cell, o.path)), V(m, st, args[1])
    return X.tup(mref(o.cell, o.path + (('s', ZERO, k),)), mref(o.cell, o.path + (('s', k, X.sub(n, k)),)))


@reg('rotate_left', 'rotate_right')
def rotate(m, args, st, e, path):
    o = target(m, st, args[0])
    if o is None:
        return NotImplemented
    v = m.read(st, o.cell, o.path)
    if not is_seq(v):
        return NotImplemented
    n, k = X.length(v), V(m, st, args[1])
    m.require(st, X.le(k, n), 'rotate', e)
    k = k if last(path) == 'rotate_left' else X.sub(n, k)
    m.write(st, o.cell, o.path, X.comp(n, lambda j: X.ite(X.lt(j, X.sub(n, k)), X.index(v, X.add(j, k)), X.index(v, X.sub(X.add(j, k), n)))))
    return UNIT


def pure_call(m, f, args, st):
    """the value of a call that changes nothing, or None"""
    s = st.fork()
    before = dict(s.cells)
    x = m.call_value(f, args, s)
    if s.dead or any(s.cells.get(c) is not v for c, v in before.items()):
        return None
    return x


@reg('fill_with')
def fill_with(m, args, st, e, path):
    o = target(m, st, args[0])
    x = pure_call(m, args[1], [], st)
    if o is None or x is None:
        return NotImplemented
    m.write(st, o.cell, o.path, X.comp(X.length(m.read(st, o.cell, o.path)), lambda j: x))
    return UNIT


@reg('resize_with')
def resize_with(m, args, st, e, path):
    x = pure_call(m, args[2], [], st)
    return NotImplemented if x is None else resize(m, [args[0], args[1], x], st, e, path)


@reg('copy_from_slice', 'clone_from_slice')
def copy_from_slice(m, args, st, e, path):
    o = target(m, st, args[0])
    src = V(m, st, args[1])
    if o is None or not is_seq(src):
        return NotImplemented
    n = X.length(m.read(st, o.cell, o.path))
    m.require(st, X.eqz(X.sub(n, X.length(src))), last(path), e)
    m.write(st, o.cell, o.path, X.comp(n, lambda j: X.index(src, j)))
    return UNIT


@reg('extend_from_within')
def extend_from_within(m, args, st, e, path):
    o = target(m, st, args[0])
    if o is None or not isrange(args[1]):
        return NotImplemented
    v = m.read(st, o.cell, o.path)
    lo, hi = range_bounds(args[1], X.length(v))
    m.write(st, o.cell, o.path, X.concat(v, m.slice(v, lo, X.sub(hi, lo))))
    return UNIT


@reg('starts_with', 'ends_with')
def starts_with(m, args, st, e, path):
    v, w = V(m, st, args[0]), V(m, st, args[1])
    if not is_seq(v) or not is_seq(w):
        return NotImplemented
    n, k = X.length(v), X.length(w)
    off = ZERO if last(path) == 'starts_with' else X.sub(n, k)
    return X.and_(X.le(k, n), X.not_(X.exists(k, lambda j: X.not_(X.eq(X.index(v, X.add(j, off)), X.index(w, j))))))


@reg('is_sorted', 'is_sorted_by_key')
def is_sorted(m, args, st, e, path):
    it = iter_arg(m, args[0], st) if get_it(args[0]) is not None else None
    v = materialise(m, it, st) if it is not None else V(m, st, args[0])
    if not is_seq(v):
        return NotImplemented
    n = X.length(v)

    def key(x):
        k = natural_keys(m.call_value(args[1], [x], st.fork()) if len(args) == 2 else x)
        return k[0] if k and len(k) == 1 else None
    probe = X.fresh('i')
    X.C.range[probe] = n
    if key(X.index(v, probe)) is None:
        return NotImplemented
    return X.not_(X.exists(n, lambda j: X.and_(X.lt(X.add(j, ONE), n), X.lt(key(X.index(v, X.add(j, ONE))), key(X.index(v, j))))))


@reg('rfold', 'rfind')
def rfold(m, args, st, e, path):
    it = rev(m, args[:1], st, e, 'rev')
    if it is NotImplemented:
        return NotImplemented
    f = fold if last(path) == 'rfold' else find
    return f(m, [it] + list(args[1:]), st, e, path.rsplit('::', 1)[0] + '::' + last(path)[1:])


@reg('find_first', 'position_first', 'find_any', 'position_any')
def find_first(m, args, st, e, path):
    name = last(path)
    if name.endswith('any'):
        X.C.weak = 'any of the matching elements may be returned'
    return find(m, args, st, e, path.rsplit('::', 1)[0] + '::' + name.split('_')[0])


@reg('reduce_with')
def reduce_with(m, args, st, e, path):
    it = iter_arg(m, args[0], st)
    if it is None:
        return NotImplemented
    m.log.append(('rayon-reduce', 'reduce_with', (e or {}).get('sp')))
    seq = It(it.n, it.elem, it.guard, False, it.src) if hasattr(it, 'src') else It(it.n, it.elem, it.guard)
    return reduce(m, [mkobj(seq), args[1]], st, e, path.rsplit('::', 1)[0] + '::reduce')


@reg('hypot')
def hypot(m, args, st, e, path):
    a, b = V(m, st, args[0]), V(m, st, args[1])
    return X.fn1('sqrt', X.add(X.mul(a, a), X.mul(b, b)))


@reg('copysign')
def copysign(m, args, st, e, path):
    a, b = V(m, st, args[0]), V(m, st, args[1])
    if b.op == 'num':
        return X.neg(X.absT(a)) if b.a[0] < 0 else X.absT(a)
    X.C.weak = 'the sign of zero is not modelled'
    return X.ite(X.lt(b, ZERO), X.neg(X.absT(a)), X.absT(a))


@reg('maximum', 'minimum')
def maximum(m, args, st, e, path):
    a, b = V(m, st, args[0]), V(m, st, args[1])
    return X.ite(X.lt(a, b), b, a) if last(path) == 'maximum' else X.ite(X.lt(b, a), b, a)


@reg('checked_add', 'checked_mul')
def chkadd(m, args, st, e, path):
    a, b = V(m, st, args[0]), V(m, st, args[1])
    return X.some(X.add(a, b) if last(path) == 'checked_add' else X.mul(a, b))


@reg('saturating_mul', 'wrapping_mul')
def wmul(m, args, st, e, path):
    return X.mul(V(m, st, args[0]), V(m, st, args[1]))


@reg('checked_div', 'checked_rem')
def chkdiv(m, args, st, e, path):
    a, b = V(m, st, args[0]), V(m, st, args[1])
    return X.opt(X.not_(X.eqz(b)), m.idiv(a, b) if last(path) == 'checked_div' else m.irem(a, b))


@reg('div_ceil', 'next_multiple_of')
def div_ceil(m, args, st, e, path):
    a, b = V(m, st, args[0]), V(m, st, args[1])
    if X.sort(a) not in ('i',) or X.sort(b) not in ('i',):
        return NotImplemented
    q = m.idiv(X.sub(X.add(a, b), ONE), b)
    return q if last(path) == 'div_ceil' else X.mul(q, b)


@reg('is_multiple_of')
def is_multiple_of(m, args, st, e, path):
    a, b = V(m, st, args[0]), V(m, st, args[1])
    return X.ite(X.eqz(b), X.eqz(a), X.eqz(m.irem(a, b)))


@reg('and')
def opt_and(m, args, st, e, path):
    v = V(m, st, args[0])
    if resopt(v) == OPT:
        return X.ite(good_bad(v)[0], args[1], X.NONE)
    if resopt(v) == RES:
        return X.ite(good_bad(v)[0], args[1], mk_err(X.payload(v, 1, '0')))
    return NotImplemented


@reg('err')
def opt_err(m, args, st, e, path):
    v = V(m, st, args[0])
    return X.opt(X.not_(good_bad(v)[0]), X.payload(v, 1, '0')) if resopt(v) == RES else NotImplemented


@reg('get_or_insert', 'get_or_insert_with', 'insert')
def get_or_insert(m, args, st, e, path):
    if last(path) == 'insert' and 'Option' not in path:
        return insert(m, args, st, e, path)
    o = target(m, st, args[0])
    if o is None or 'Option' not in path:
        return NotImplemented
    v = m.read(st, o.cell, o.path)
    if last(path) == 'insert':
        m.write(st, o.cell, o.path, X.some(args[1]))
    else:
        x = args[1] if last(path) == 'get_or_insert' else pure_call(m, args[1], [], st)
        if x is None:
            return NotImplemented
        m.write(st, o.cell, o.path, X.ite(X.is_some(v), v, X.some(x)))
    return mref(o.cell, o.path + (('p', 1, '0'),))


@reg('take_if')
def take_if(m, args, st, e, path):
    o = target(m, st, args[0])
    if o is None:
        return NotImplemented
    v = m.read(st, o.cell, o.path)
    c = pure_call(m, args[1], [X.payload(v, 1, '0')], st)
    if c is None:
        return NotImplemented
    c = X.and_(X.is_some(v), c)
    m.write(st, o.cell, o.path, X.ite(c, X.NONE, v))
    return X.ite(c, v, X.NONE)


@reg('transpose')
def transpose(m, args, st, e, path):
    v = V(m, st, args[0])
    p = X.payload(v, 1 if resopt(v) == OPT else 0, '0')
    if resopt(v) == OPT and resopt(p) == RES:
        g, x = good_bad(p)
        return X.ite(X.is_some(v), X.ite(g, mk_ok(X.some(x)), mk_err(X.payload(p, 1, '0'))), mk_ok(X.NONE))
    if resopt(v) == RES and resopt(p) == OPT:
        return X.ite(good_bad(v)[0], X.ite(X.is_some(p), X.some(mk_ok(X.payload(p, 1, '0'))), X.NONE), X.some(mk_err(X.payload(v, 1, '0'))))
    return NotImplemented


@reg('push_back', 'push_front', 'pop_back', 'pop_front', 'front', 'back')
def deque(m, args, st, e, path):
    name = last(path)
    if name in ('push_back', 'pop_back', 'front', 'back'):
        f = {'push_back': push, 'pop_back': pop}.get(name, firstlast)
        return f(m, args, st, e, path.rsplit('::', 1)[0] + '::' + {'front': 'first', 'back': 'last'}.get(name, name[:-5]))
    o = target(m, st, args[0])
    if o is None:
        return NotImplemented
    v = m.read(st, o.cell, o.path)
    if name == 'push_front':
        m.write(st, o.cell, o.path, X.concat(X.mk('list', args[1]), v))
        return UNIT
    n = X.length(v)
    c = X.lt(ZERO, n)
    m.write(st, o.cell, o.path, X.comp(X.ite(c, X.sub(n, ONE), ZERO), lambda j: X.index(v, X.add(j, ONE))))
    return X.opt(c, X.index(v, ZERO))
