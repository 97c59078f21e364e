"""Properties of the shared data layer: splitting, presorting, questions, arithmetic, CSV."""
import terms as X, machine as M, inputs as I
from terms import TRUE, FALSE, ZERO, ONE, ABSENT, UNIT
from spec import Missing
from stdmodel import csv_bad

NUM = dict(crate='common')


# ---------------------------------------------------------------- required values
def side(x, y, n, d, k, g):
    """the rows r with g(r), in order, as a dataset"""
    cnt = X.summ(n, lambda r: X.ite(g(r), ONE, ZERO))
    row = lambda i: X.nth(n, g, i)
    return X.mk_rec(I.DS, [
        ('feature_rows', X.comp(cnt, lambda i: X.comp(d, lambda j: x(row(i), j)))),
        ('labels', X.comp(cnt, lambda i: X.comp(k, lambda j: y(row(i), j)))),
        ('feature_columns', X.comp(d, lambda j: X.comp(cnt, lambda i: x(row(i), j))))])


def xa(r, c):
    return X.app('r', 'x', r, c)


def ya(r, c):
    return X.app('r', 'y', r, c)


def question(col=None, val=None):
    return X.mk_rec(I.Q, [('column', col if col is not None else X.var('col')),
                          ('value', val if val is not None else X.var('val', 'r'))])


def part(a, strict=False):
    m = a.machine()
    X.C.strict_float = strict
    X.C.ordered = (X.var('val', 'r'),)       # the threshold itself is a number
    f = a.fn('partition', module='data_partitioner')
    n, d, k = I.dim('n'), I.dim('d'), I.dim('K')
    col, val = X.var('col'), X.var('val', 'r')
    facts = X.and_(X.lt(col, d), X.exists(n, lambda r: X.lt(xa(r, col), val)),
                   X.exists(n, lambda r: X.ge(xa(r, col), val)))
    s = a.run(m, f, [I.dataset(n=n, d=d, k=k), question(col, val)], facts)
    yes = lambda r: X.ge(xa(r, col), val)
    no = lambda r: X.lt(xa(r, col), val)
    return s, side(xa, ya, n, d, k, yes), side(xa, ya, n, d, k, no)


def C01(a):
    def split():
        s, yes, no = part(a)
        for nme, got, want in (('no side', X.field(s.r, '0'), no), ('yes side', X.field(s.r, '1'), yes)):
            for fl in ('feature_rows', 'labels'):
                a.eq('%s %s' % (nme, fl), X.field(got, fl), X.field(want, fl), where=s)
        a.no_panics(s)
    a.group('partition', split)

    def kept():
        s, _, _ = part(a, True)
        X.C.strict_float = False
        sides = [X.field(s.r, '0'), X.field(s.r, '1')]
        for fl in ('feature_rows', 'labels'):
            a.eq('no row is lost, whatever compares as unordered: %s' % fl,
                 X.add(*[X.length(X.field(x, fl)) for x in sides]), X.var('n'), where=s)
        # an unordered value answers no and takes its row along
        n, d, k, col, val = X.var('n'), X.var('d'), X.var('K'), X.var('col'), X.var('val', 'r')
        nan = lambda r: X.app('b', 'nan', xa(r, col))
        for nme, got, c in (('no', sides[0], lambda r: X.or_(nan(r), X.lt(xa(r, col), val))),
                            ('yes', sides[1], lambda r: X.and_(X.not_(nan(r)), X.ge(xa(r, col), val)))):
            want = side(xa, ya, n, d, k, c)
            for fl in ('feature_rows', 'labels'):
                a.eq('%s side %s with unordered values' % (nme, fl), X.field(got, fl), X.field(want, fl), where=s)
    a.group('partition with unordered values', kept)


def C02(a):
    def columns():
        m = a.machine()
        n, d = I.dim('n'), I.dim('d')
        s = a.run(m, a.fn('create_feature_columns'), [I.mat('x', n, d)])
        a.eq('transpose', s.r, X.comp(d, lambda j: X.comp(n, lambda i: xa(i, j))), where=s)
        a.no_panics(s)
    a.group('create_feature_columns', columns)

    def split():
        s, yes, no = part(a)
        for nme, got in (('no side', X.field(s.r, '0')), ('yes side', X.field(s.r, '1'))):
            rows = X.field(got, 'feature_rows')
            a.eq('%s columns are the transpose of its rows' % nme, X.field(got, 'feature_columns'),
                 transpose(rows, X.var('d')), where=s)
    a.group('partition', split)
    for nm, args in (('read_csv_data_one_hot_multi_target', ('p', 'K')), ('read_csv_data_multi_target', ('p', 'p2'))):
        def csv(nm=nm, args=args):
            m = a.machine()
            s = a.run(m, a.fn(nm, crate='common'), [X.var(q, 'i' if q == 'K' else 's') for q in args])
            rows = X.field(s.r, 'feature_rows')
            w = X.length(X.index(rows, ZERO))
            n = X.length(rows)
            a.eq('columns are the transpose of the rows', X.field(s.r, 'feature_columns'), transpose(rows, w), X.pos(n), s)
        a.group(nm, csv)


def transpose(rows, d):
    n = X.length(rows)
    return X.comp(d, lambda j: X.comp(n, lambda i: X.index(X.index(rows, i), j)))


def sorted_side(n, N, d, k, g):
    """presorted side: the member rows with g(row)"""
    mem = lambda r: X.and_(I.member(r), g(r))
    cnt = X.summ(N, lambda r: X.ite(mem(r), ONE, ZERO))
    return X.mk_rec(I.SF, [
        ('labels', X.comp(cnt, lambda i: X.comp(k, lambda t: ya(X.nth(N, mem, i), t)))),
        ('sorted_feature_columns', X.comp(d, lambda c: filtered_column(n, c, g)))])


def filtered_column(n, c, g):
    keep = lambda j: g(X.app('i', 'si', c, j))
    cnt = X.summ(n, lambda j: X.ite(keep(j), ONE, ZERO))
    return X.comp(cnt, lambda j: X.tup(X.app('r', 'sv', c, X.nth(n, keep, j)), X.app('i', 'si', c, X.nth(n, keep, j))))


def presorted_node(a):
    n, d, k, N = I.dim('n', 0), I.dim('d'), I.dim('K'), I.dim('N')
    a.ps = (n, N)
    return n, d, k, N, I.presorted(n, d, k, N)


def C03(a):
    def split():
        m = a.machine()
        n, d, k, N, ds = presorted_node(a)
        col, val = X.var('col'), X.var('val', 'r')
        al = X.comp(N, lambda i: X.comp(k, lambda j: ya(i, j)))
        s = a.run(m, a.fn('new_partition', crate='common'), [ds, col, val, al], X.lt(col, d))
        for nme, got, g in (('yes side', X.field(s.r, '0'), lambda r: X.ge(xa(r, col), val)),
                            ('no side', X.field(s.r, '1'), lambda r: X.lt(xa(r, col), val))):
            want = sorted_side(n, N, d, k, g)
            for fl in ('labels', 'sorted_feature_columns'):
                a.eq('%s %s' % (nme, fl), X.field(got, fl), X.field(want, fl), where=s)
        a.no_panics(s)
    a.group('new_partition', split)


def C04(a):
    def column():
        m = a.machine()
        n = I.dim('n', 0)
        s = a.run(m, a.fn('get_sorted_feature_tuple_vector'), [I.vec('v', n)])
        a.eq('ascending permutation', s.r, sorted_pairs(n, lambda i: X.app('r', 'v', i)), where=s)
        a.no_panics(s)
    a.group('get_sorted_feature_tuple_vector', column)

    def dataset():
        m = a.machine()
        n, d, k = I.dim('n'), I.dim('d'), I.dim('K')
        s = a.run(m, a.fn('create_dataset_with_sorted_features'), [I.dataset(n=n, d=d, k=k)])
        a.eq('every column presorted', X.field(s.r, 'sorted_feature_columns'),
             X.comp(d, lambda c: sorted_pairs(n, lambda i: xa(i, c))), where=s)
        a.eq('labels kept in row order', X.field(s.r, 'labels'),
             X.comp(n, lambda i: X.comp(k, lambda t: ya(i, t))), where=s)
        a.no_panics(s)
    a.group('create_dataset_with_sorted_features', dataset)


def perm(n, key, j):
    v = X.fresh('i')
    X.C.range[v] = n
    return X.mk_perm(n, v, X.tup(key(v)), True, j)


def sorted_pairs(n, f):
    return X.comp(n, lambda j: X.tup(f(perm(n, f, j)), perm(n, f, j)))


def C05(a):
    def new():
        m = a.machine()
        s = a.run(m, a.method('Question', 'new'), [X.var('col'), X.var('val', 'r')])
        a.eq('keeps column and threshold', s.r, question(), where=s)
        a.no_panics(s)
    a.group('Question::new', new)

    def solve():
        m = a.machine()
        X.C.strict_float = True
        d = I.dim('d')
        col, val = X.var('col'), X.var('val', 'r')
        s = a.run(m, a.method('Question', 'solve'), [question(), I.vec('row', d)], X.lt(col, d))
        v = X.app('r', 'row', col)
        want = m.compare('Ge', v, val, True)
        a.eq('inclusive comparison, NaN answers no', s.r, want, where=s)
        X.C.strict_float = False
        a.no_panics(s)
    a.group('Question::solve', solve)


# ---------------------------------------------------------------- C27, C28
def C27(a):
    ops = {'add_f64_slices_as_vector': X.add, 'subtract_f64_slices_as_vector': X.sub,
           'multiply_f64_slices_as_vector': X.mul, 'divide_f64_slices_as_vector': X.div}
    av, bv = (lambda i: X.app('r', 'a', i)), (lambda i: X.app('r', 'b', i))

    def lengths(s, n, k):
        """the call panics when the lengths differ, and only then"""
        pc = FALSE
        for c, kind, sp, fn in s.m.panics:
            pc = X.or_(pc, c)
        a.never('lengths that differ are refused', X.and_(X.not_(pc), X.not_(X.eqz(X.sub(n, k)))), (), s,
                'the call returns although the lengths differ')
        a.never('equal lengths are accepted', X.and_(pc, X.eqz(X.sub(n, k))), (), s,
                'the call panics although the lengths are equal')
    for nm, op in ops.items():
        def go(nm=nm, op=op):
            m = a.machine()
            X.C.strict_float = True         # the elements may be unordered values too
            n, k = I.dim('n', 0), I.dim('k', 0)
            s = a.run(m, a.fn(nm, crate='common'), [I.vec('a', n), I.vec('b', k)])
            X.C.strict_float = False
            a.eq('elementwise', s.r, X.comp(n, lambda i: op(av(i), bv(i))), X.eqz(X.sub(n, k)), where=s.where())
            lengths(s, n, k)
            if op is X.div:
                # IEEE: a zero divisor gives an infinity or NaN, never an ordinary number
                i = X.fresh('i')
                X.C.range[i] = n
                e = X.simp(X.index(s.r, i), tuple(X.conj_lits(X.eqz(X.sub(n, k)))) + tuple(X.conj_lits(X.eqz(bv(i)))))
                lv = X.leaves(e)
                odd = [x for x in lv if not x.unk and x is not X.INF and 'inv0' not in X.show(x) and '^-' not in X.show(x)]
                if any(x.unk for x in lv):
                    a.undecided('a zero divisor is not replaced', 'not understood', s.where())
                elif odd:
                    a.bad('a zero divisor is not replaced', 'where the divisor is 0 the result is %s' % X.show(odd[0])[:200], s.where())
                else:
                    a.ok('a zero divisor is not replaced', s.where())
        a.group(nm, go)

    def msd():
        m = a.machine()
        n, k = I.dim('n'), I.dim('k')
        s = a.run(m, a.fn('mean_sum_of_squared_differences_between_f64_slices'), [I.vec('a', n), I.vec('b', k)])
        a.eq('mean squared difference', s.r,
             X.div(X.summ(n, lambda i: X.powi(X.sub(av(i), bv(i)), 2)), n), X.eqz(X.sub(n, k)), where=s.where())
        lengths(s, n, k)
    a.group('mean_sum_of_squared_differences_between_f64_slices', msd)

    def scale():
        m = a.machine()
        X.C.strict_float = True
        n, c = I.dim('n', 0), X.var('c', 'r')
        f = a.fn('multiply_f64_slice_by_f64_scalar')
        args = [c, I.vec('a', n)]
        t = m.sort_of(f['_types'][f['params'][0]['ty']], f['_types']) if 'ty' in f['params'][0] else 'r'
        if isinstance(t, tuple):
            args.reverse()
        s = a.run(m, f, args)
        X.C.strict_float = False
        a.eq('scaling', s.r, X.comp(n, lambda i: X.mul(c, av(i))), where=s)
        a.no_panics(s)
    a.group('multiply_f64_slice_by_f64_scalar', scale)


def C28(a):
    for nm in ('sum_of_f64_vectors', 'calculate_average_f64_vector'):
        def go(nm=nm):
            m = a.machine()
            n, k = I.dim('n'), I.dim('k', 0)
            s = a.run(m, a.fn(nm, crate='common'), [I.mat('a', n, k)])
            tot = lambda t: X.summ(n, lambda i: X.app('r', 'a', i, t))
            want = X.comp(k, tot) if nm.startswith('sum') else X.comp(k, lambda t: X.div(tot(t), n))
            a.eq('componentwise over all vectors', s.r, want, where=s)
            a.no_panics(s)
        a.group(nm, go)


# ---------------------------------------------------------------- C25, C26
def csv_file(p):
    return X.app('o', 'file', p)


def csv(p):
    """symbols the csv model uses for file p"""
    f = csv_file(p)
    o = X.mk('str', 'default')
    w = X.app('i', '+csv_w', f, o)
    n = X.app('i', 'csv_n', f, o)
    return n, w, lambda i, j: X.app('r', 'csv_val', f, o, i, j), lambda i: csv_bad(f, o, i)


def open_bad(p):
    return X.not_(X.eqz(X.app('i', 'open_bad', p)))


def failing(p):
    n, w, v, bad = csv(p)
    return X.or_(open_bad(p), X.exists(n, lambda i: X.not_(X.eqz(bad(i)))))


def readers(a, which):
    """(name, summary, required dataset fields, failing condition)"""
    p, q, k = X.var('p', 's'), X.var('p2', 's'), X.var('K')
    if which == 'single':
        n, w, v, bad = csv(p)
        return 'read_csv_data', [p], {
            'features': X.comp(n, lambda i: X.comp(X.sub(w, ONE), lambda j: v(i, j))),
            'labels': X.comp(n, lambda i: v(i, X.sub(w, ONE)))}, failing(p)
    if which == 'onehot':
        n, w, v, bad = csv(p)
        return 'read_csv_data_one_hot_multi_target', [p, k], {
            'feature_rows': X.comp(n, lambda i: X.comp(X.sub(w, ONE), lambda j: v(i, j))),
            'labels': X.comp(n, lambda i: X.comp(k, lambda c: X.ite(
                X.eqz(X.sub(X.trunc_(v(i, X.sub(w, ONE))), c)), ONE, ZERO)))}, failing(p)
    n, w, v, bad = csv(p)
    n2, w2, v2, bad2 = csv(q)
    return 'read_csv_data_multi_target', [p, q], {
        'feature_rows': X.comp(n, lambda i: X.comp(w, lambda j: v(i, j))),
        'labels': X.comp(n2, lambda i: X.comp(w2, lambda j: v2(i, j)))}, X.or_(failing(p), failing(q))


def good_labels(p, k):
    n, w, v, bad = csv(p)
    t = lambda i: X.trunc_(v(i, X.sub(w, ONE)))
    whole = lambda i: X.eqz(X.sub(v(i, X.sub(w, ONE)), t(i)))
    return X.and_(X.and_(X.pos(n), X.not_(X.exists(n, lambda i: X.or_(X.lt(t(i), ZERO), X.ge(t(i), k))))),
                  X.not_(X.exists(n, lambda i: X.not_(whole(i)))))


def C25(a):
    for which in ('single', 'onehot', 'two'):
        def go(which=which):
            m = a.machine()
            nm, args, fields, fail = readers(a, which)
            s = a.run(m, a.fn(nm, crate='common'), args)
            fields = dict(fields)
            if which == 'onehot':
                fields.pop('labels')
            for fl, want in fields.items():
                got = X.field(s.r, fl)
                n = X.length(want)
                a.eq(fl, got, want, X.and_(X.pos(n), X.not_(fail)), s)
            pc = FALSE
            for c, kind, sp, fn in m.panics:
                pc = X.or_(pc, c)
            a.never('no error is dropped', X.and_(fail, X.not_(pc)), (), s, 'reading succeeds although the file or a record is bad')
            good = X.and_(*[X.pos(csv(q)[0]) for q in args if X.sort(q) == 's'])
            if which == 'onehot':
                good = good_labels(*args)
            a.never('good files are read', X.and_(pc, X.not_(fail), good), (), s, 'reading fails although file and records are good')
            for kd, what, sp in [(l[0], l[1], l[2]) for l in m.log if l[0] == 'fs']:
                a.cover.setdefault('file accesses', []).append('%s %s' % (what, sp))
        a.group({'single': 'read_csv_data', 'onehot': 'read_csv_data_one_hot_multi_target',
                 'two': 'read_csv_data_multi_target'}[which], go)

    def names():
        m = a.machine()
        p = X.var('p', 's')
        s = a.run(m, a.fn('get_feature_names'), [p])
        f, o = csv_file(p), X.mk('str', 'default')
        n = X.app('i', 'csv_nhdr', f, o)
        fail = X.or_(open_bad(p), X.not_(X.eqz(X.app('i', 'csv_hdrbad', f, o))))
        a.eq('header fields in order', s.r, X.comp(n, lambda i: X.app('s', 'csv_hdr', f, o, i)), X.not_(fail), s)
        pc = FALSE
        for c, kind, sp, fn in m.panics:
            pc = X.or_(pc, c)
        a.never('no error is dropped', X.and_(fail, X.not_(pc)), (), s, 'a bad header is accepted')
        a.never('good files are read', X.and_(pc, X.not_(fail)), (), s, 'a good header is refused')
    a.group('get_feature_names', names)


def C26(a):
    def go():
        m = a.machine()
        nm, args, fields, fail = readers(a, 'onehot')
        s = a.run(m, a.fn(nm, crate='common'), args)
        n = X.length(fields['labels'])
        p, k = args
        nn, w, v, bad = csv(p)
        lab = lambda i: v(i, X.sub(w, ONE))
        a.eq('one-hot labels', X.field(s.r, 'labels'), fields['labels'], X.and_(X.and_(X.pos(n), X.not_(fail)), good_labels(p, k)), s)
        pc = FALSE
        for c, kind, sp, fn in m.panics:
            pc = X.or_(pc, c)
        a.never('accepted', X.and_(pc, X.not_(fail), good_labels(p, k)), (), s, 'reading fails on a good file')
        # a panic at some element is a panic
        some = FALSE
        for c, kind, sp, fn in m.panics:
            for x in sorted((x for x in c.fv if x in X.C.range and x is not k), key=str):
                c = X.exists_body(X.C.range[x], x, c)
            some = X.or_(some, c)
        pc = some
        high = X.exists(nn, lambda i: X.ge(X.trunc_(lab(i)), k))
        a.never('no class beyond the last', X.and_(X.not_(pc), X.not_(fail), X.pos(nn), high), (), s,
                'a label that names none of the K classes is accepted, so its row has no 1 at the labelled position')
    a.group('read_csv_data_one_hot_multi_target', go)
