"""Symbolic well-formed inputs."""
import terms as X
from terms import TRUE, FALSE, ZERO, ONE

DS = 'common::datasets::MultiTargetDataSet'
SF = 'common::datasets::MultiTargetDataSetSortedFeatures'
Q = 'common::question::Question'


def dim(name, lo=1):
    v = X.var(name, 'i')
    X.C.minv[v] = lo
    return v


def vec(name, n, ty='r', *pre):
    return X.comp(n, lambda i: X.app(ty, name, *(pre + (i,))))


def mat(name, n, m, ty='r', *pre):
    return X.comp(n, lambda i: X.comp(m, lambda j: X.app(ty, name, *(pre + (i, j)))))


def dataset(name='', n=None, d=None, k=None):
    n = n if n is not None else dim('n')
    d = d if d is not None else dim('d')
    k = k if k is not None else dim('K')
    x, y = name + 'x', name + 'y'
    return X.mk_rec(DS, [
        ('feature_rows', X.comp(n, lambda i: X.comp(d, lambda j: X.app('r', x, i, j)))),
        ('labels', X.comp(n, lambda i: X.comp(k, lambda j: X.app('r', y, i, j)))),
        ('feature_columns', X.comp(d, lambda j: X.comp(n, lambda i: X.app('r', x, i, j))))])


def presorted(n=None, d=None, k=None, N=None):
    """a node of the presorted layout: n of N rows, each once in every column, columns ascending in value (and row
    number among equal values); si(c,.) is a bijection onto the member rows, sv(c,k) the value of row si(c,k)"""
    n = n if n is not None else dim('n')
    d = d if d is not None else dim('d')
    k = k if k is not None else dim('K')
    N = N if N is not None else dim('N')
    X.C.sorted.add('sv')
    X.C.ubapp['si'] = N
    X.C.ubapp['ri'] = n
    X.C.hooks['sv'] = lambda c, j: X.app('r', 'x', j.a[3], c) if j.op == 'app' and j.a[1] == 'ri' and j.a[2] is c else None
    X.C.hooks['si'] = lambda c, j: j.a[3] if j.op == 'app' and j.a[1] == 'ri' and j.a[2] is c else None
    X.C.hooks['ri'] = lambda c, r: r.a[3] if r.op == 'app' and r.a[1] == 'si' and r.a[2] is c else None
    X.C.hooks['x'] = lambda r, c: X.app('r', 'sv', c, r.a[3]) if r.op == 'app' and r.a[1] == 'si' and r.a[2] is c else None
    X.C.hooks['member'] = lambda r: TRUE if r.op == 'app' and r.a[1] == 'si' else None
    w = X.fresh('i')
    X.C.range[w] = N
    X.C.counts[(N, X.mk_lam(w, member(w)))] = n
    X.C.bijection['si'] = lambda a: (n, N, member)
    X.C.inverse['si'] = lambda a, r: (member(r), X.app('i', 'ri', a[0], r))
    return X.mk_rec(SF, [
        ('labels', X.comp(n, lambda i: X.comp(k, lambda t: X.app('r', 'y', X.nth(N, member, i), t)))),
        ('sorted_feature_columns', X.comp(d, lambda c: X.comp(n, lambda i: X.tup(X.app('r', 'sv', c, i),
                                                                                X.app('i', 'si', c, i)))))])


def member(r):
    return X.app('b', 'member', r)


def fieldty(m):
    """types of fields of opaque records, from the extracted type definitions"""
    def f(s, name):
        if isinstance(s, tuple) and s[0] == 'adt':
            a = m.adts.get(s[1])
            if a is None:
                return None
            if isinstance(name, tuple):
                vi, nm = name
                if vi < len(a['variants']):
                    for fd in a['variants'][vi]['fields']:
                        if fd['name'] == nm:
                            return m.sort_of(a['_types'][fd['ty']], a['_types'])
                return None
            for fd in a['variants'][0]['fields']:
                if fd['name'] == name:
                    return m.sort_of(a['_types'][fd['ty']], a['_types'])
        if isinstance(s, tuple) and s[0] == 'tup' and name.isdigit() and int(name) + 1 < len(s):
            return s[int(name) + 1]
        return None
    return f


TN = 'multi_target_decision_tree::node::TreeNode'
TREE = ('adt', TN)


def tree(name='T'):
    return X.var(name, TREE)


def isleaf(t):
    return X.app('b', 'isleaf', t)


def ncls():
    return C_LEAF.get('#K') or X.app('i', '+ncls')


def leaf_dataset(leaf):
    """the rows stored in a leaf: at least one row, K labels per row"""
    k = ncls()
    n = X.app('i', '+nleaf', leaf)
    d = X.app('i', '+nfeat')
    return X.mk_rec(DS, [
        ('feature_rows', X.comp(n, lambda i: X.comp(d, lambda j: X.app('r', 'leafx', leaf, i, j)))),
        ('labels', X.comp(n, lambda i: X.comp(k, lambda j: X.app('r', 'leafy', leaf, i, j)))),
        ('feature_columns', X.comp(d, lambda j: X.comp(n, lambda i: X.app('r', 'leafx', leaf, i, j))))])


def leaf_sorted(leaf):
    k = ncls()
    n = X.app('i', '+nleaf', leaf)
    d = X.app('i', '+nfeat')
    return X.mk_rec(SF, [
        ('labels', X.comp(n, lambda i: X.comp(k, lambda j: X.app('r', 'leafy', leaf, i, j)))),
        ('sorted_feature_columns', X.comp(d, lambda j: X.comp(n, lambda i: X.tup(X.app('r', 'leafv', leaf, j, i),
                                                                               X.app('i', 'leafi', leaf, j, i)))))])


def leaf_output(leaf):
    return X.comp(ncls(), lambda j: X.app('r', 'leafout', leaf, j))


def tree_hook(m):
    """well-formed trees: an inner node has both branches and no leaf, a leaf node has a leaf and no branch,
    and the Option fields of a leaf are filled in"""
    leafopts = {}
    for k, a in m.adts.items():
        if '::leaf::' in k and a['kind'] == 'Struct':
            for fd in a['variants'][0]['fields']:
                ty = a['_types'][fd['ty']]
                if ty['k'] == 'adt' and ty.get('key') == X.OPT:
                    inner = m.sort_of(a['_types'][ty['args'][0]], a['_types'])
                    leafopts.setdefault(fd['name'], []).append((('adt', k), inner))

    def h(t, name):
        if t.op != 'fld' or name not in ('#tag', '#pay1.0'):
            return None
        base, f = t.a[1], t.a[2]
        s = X.sort(base)
        if s == TREE:
            if f in ('true_branch', 'false_branch'):
                if name == '#tag':
                    return X.ite(isleaf(base), ZERO, ONE)
                return X.app(TREE, 'yes' if f == 'true_branch' else 'no', base)
            if f == 'leaf':
                if name == '#tag':
                    return X.ite(isleaf(base), ONE, ZERO)
                return X.app('o', 'leafdata', base)
            return None
        if f in leafopts:
            if name == '#tag':
                return ONE
            c = [x for x in leafopts[f] if x[0] == s] or (leafopts[f] if len(leafopts[f]) == 1 else [])
            inner = c[0][1] if len(c) == 1 else C_LEAF.get(f)
            if inner == ('adt', DS):
                return leaf_dataset(base)
            if inner == ('adt', SF):
                return leaf_sorted(base)
            if inner == ('arr', 'r'):
                return leaf_output(base)
            if isinstance(inner, str):
                return X.app(inner, 'leaf.' + f, base)
        return None
    return h


C_LEAF = {}


def columns_below(d):
    """every question of a tree asks about one of the d features"""
    def h(x):
        if x.op == 'fld' and x.a[2] == 'column' and x.a[1].op == 'fld' and x.a[1].a[2] == 'question' and X.sort(x.a[1].a[1]) == TREE:
            return d
        return None
    X.C.ub_hook = h
