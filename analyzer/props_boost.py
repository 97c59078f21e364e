"""Properties of leaf outputs and of the boosting ensembles: residuals, rounds, updates, predictions and scores."""
import math, sys
import terms as X, machine as M, inputs as I, loops
from terms import TRUE, FALSE, ZERO, ONE, ABSENT, T
from spec import Missing
from props_core import xa, ya
from props_tree import adt, cfg, loc, lookup, lits

BT = 'multi_target_grad_boost::boosting_ensemble::boosting_types::'
MODELS = {'RegressionBoostModel': 'GradBoostMultiTargetDecisionTree',
          'MultiClassBoostModel': 'GradBoostMultiTargetDecisionTree',
          'AMGBoostModel': 'AMGBoostTree'}
EVENTS = ('div0', 'exp', 'exp700', 'uflow')
SHORT = {'RegressionBoostModel': 'regression', 'MultiClassBoostModel': 'multi-class', 'AMGBoostModel': 'approximate multi-class'}


# ---------------------------------------------------------------- leaf outputs
def leaf_function(a, m, kind):
    """the function the calculator of the given kind selects"""
    k = adt(a, 'LeafOutputType')
    names = [v['name'] for v in a.prog.adts[k]['variants']]
    if kind not in names:
        raise Missing('leaf output type %s' % kind)
    lt = X.mk_enum(k, X.num(names.index(kind)), [ABSENT] * len(names))
    s = a.run(m, a.method('LeafOutputCalculator', 'new'), [lt])
    fr = X.field(s.r, 'calculate_leaf_output')
    o = M.obj(fr)
    if isinstance(o, M.Clo) and o.key in a.prog.fns:
        # a closure that captures nothing
        return dict(a.prog.fns[o.key], value=fr)
    if fr.op != 'fnref' or fr.a[-1] not in a.prog.fns:
        raise M.Undecided('leaf output function is not a plain function: %s' % X.show(fr)[:200])
    return a.prog.fns[fr.a[-1]]


def leaf_run(a, kind, kmin=1, strict=False):
    m = a.machine()
    X.C.strict_float = strict
    n, k = I.dim('n'), I.dim('K', kmin)
    f = leaf_function(a, m, kind)
    s = a.run(m, f, [I.dataset(n=n, k=k)])
    return s, n, k


def leaf_term(s, k):
    t = X.fresh('i')
    X.C.range[t] = k
    return t, X.index(s.r, t)


def C14(a):
    def go():
        s, n, k = leaf_run(a, 'Regression')
        a.eq('one output per target', X.length(s.r), k, where=s)
        t, got = leaf_term(s, k)
        a.eq('output is the mean over the leaf\'s rows', got, X.div(X.summ(n, lambda r: ya(r, t)), n), where=s)
        a.no_panics(s)
    a.group('regression leaf output', go)

    def odd():
        s, n, k = leaf_run(a, 'Regression', strict=True)
        X.C.strict_float = False
        t, got = leaf_term(s, k)
        a.eq('output is the mean over the leaf\'s rows', got, X.div(X.summ(n, lambda r: ya(r, t)), n), where=s)
    a.group('regression leaf output, whatever the feature values', odd)


def C15(a):
    def go():
        s, n, k = leaf_run(a, 'MultiClassClassification', 2)
        a.eq('one output per class', X.length(s.r), k, where=s)
        t, got = leaf_term(s, k)
        D = X.summ(n, lambda r: X.mul(X.absT(ya(r, t)), X.sub(ONE, X.absT(ya(r, t)))))
        want = X.mul(X.div(X.sub(k, ONE), k), X.div(X.summ(n, lambda r: ya(r, t)), D))
        a.eq('Newton step of the class where the divisor is not zero', got, want, X.not_(X.eqz(D)), s)
        a.no_panics(s)
    a.group('multi-class leaf output', go)


# ---------------------------------------------------------------- training
def leaf_contribution(kind, a, tree, row, k):
    """c -> what the leaf reached by the row adds to the score of component c"""
    leaf = lookup(tree, row, a)
    if kind == 'AMGBoostModel':
        v, c0 = X.app('r', 'leaf.max_value', leaf), X.app('i', 'leaf.class', leaf)
        return lambda c: X.ite(X.eqz(X.sub(c, c0)), v, X.neg(X.div(v, X.sub(k, ONE))))
    return lambda c: X.app('r', 'leafout', leaf, c)


def softmax(p, k):
    return lambda c: X.div(X.exp(p(c)), X.summ(k, lambda q: X.exp(p(q))))


class Train:
    """the summary of one ensemble's training, tree fitting abstracted by what is fitted"""

    def __init__(self, a, kind):
        self.a, self.kind = a, kind
        self.fits = []

    def start(self):
        a = self.a
        m = a.machine()
        m.watch |= {'div0', 'exp', 'exp700', 'uflow'}
        self.k = I.dim('K', 1 if self.kind == 'RegressionBoostModel' else 2)
        I.C_LEAF['#K'] = self.k
        X.C.ubapp['leaf.class'] = self.k
        self.n, self.d, self.it = I.dim('n'), I.dim('d'), I.dim('IT', 0)
        I.columns_below(self.d)
        self.lr = X.var('lr', 'r')
        self.data, self.cfg = I.dataset(n=self.n, d=self.d, k=self.k), cfg(a)
        for f in a.prog.find('new', self_ty=MODELS[self.kind]) or self.missing(MODELS[self.kind] + '::new'):
            m.boundary[f['key']] = self.fit
        return m

    def missing(self, what):
        raise Missing(what)

    def fit(self, m, key, args, st, e):
        f = self.a.prog.fns[key]
        v = [m.rd(st, x) for x in args]
        self.fits.append((v, st.pc))
        return X.mk_rec(m.sort_of(f['_types'][f['ret']], f['_types'])[1], [('root', X.app(I.TREE, 'fit', *v))])

    def whole(self):
        m = self.start()
        self.m = m
        self.s = self.a.run(m, self.a.method(self.kind, 'train'), [self.data, self.cfg, self.it, self.lr])
        return self.s

    # ------------------------------------------------ specification pieces
    def residual(self, P):
        """P(r, c) -> residual(r, c)"""
        if self.kind == 'RegressionBoostModel':
            return lambda r, c: X.sub(ya(r, c), P(r, c))
        return lambda r, c: X.sub(ya(r, c), softmax(lambda q: P(r, q), self.k)(c))

    def guess(self):
        if self.kind == 'RegressionBoostModel':
            return lambda c: X.div(X.summ(self.n, lambda r: ya(r, c)), self.n)
        return lambda c: X.inv(self.k)

    def fit_data(self, labels):
        n, d, k = self.n, self.d, self.k
        return X.mk_rec(I.DS, [
            ('feature_rows', X.comp(n, lambda r: X.comp(d, lambda c: xa(r, c)))),
            ('labels', X.comp(n, lambda r: X.comp(k, lambda c: labels(r, c)))),
            ('feature_columns', X.comp(d, lambda c: X.comp(n, lambda r: xa(r, c))))])

    def updated(self, P, tree):
        def g(r, c):
            return X.add(P(r, c), X.mul(self.lr, leaf_contribution(self.kind, self.a, tree, lambda f: xa(r, f), self.k)(c)))
        return g

    def rounds(self, init, step):
        """t -> (r, c) -> score after t rounds, where step maps one score matrix to the next"""
        K = X.fresh('i', 'K')
        X.C.range[K] = self.it
        r, c = X.fresh('i'), X.fresh('i')
        X.C.range[r], X.C.range[c] = self.n, self.k
        S = lambda i, j: X.mk('st', 'r', '$P', i, j)
        leaf = loops.Leaf('$P', 'r', (r, c))
        so = loops.Solver(K, '$P', self.it)
        so.solve([(leaf, step(S)(r, c), init(r, c))])
        return lambda t: (lambda i, j: so.fn('$P', t)((i, j)))

    # ------------------------------------------------ one round from arbitrary scores
    def one_round(self):
        """(fit arguments, score matrix after the round, rest of the training data) from arbitrary scores P, or None"""
        a = self.a
        m = self.start()
        visited = self.visited
        cands = []
        for key in sorted(visited):
            f = a.prog.fns.get(key)
            if f is None or f['kind'] == 'Closure':
                continue
            ps = [f['_types'][p['ty']] for p in f['params']]
            kinds = [self.param(m, f, t) for t in ps]
            if 'data' in kinds and 'it' in kinds and None not in kinds:
                cands.append((f, kinds))
        if len(cands) != 1:
            return None
        f, kinds = cands[0]
        td = self.training_data(m)
        if td is None:
            return None
        st = M.St()
        c = m.newcell(st, td)
        val = {'data': M.mref(c, ()), 'it': ONE, 'cfg': self.cfg, 'lr': self.lr}
        self.fits = []
        s = a.run(m, f, [val[x] for x in kinds], st=st)
        if not self.fits:
            return None
        if len(self.fits) != 1 or X.simp(self.fits[0][1], ()) is not TRUE:
            raise M.Undecided('one round fits %d trees' % len(self.fits))
        self.one = s
        out = st.cells[c]
        return self.fits[0][0], X.field(out, self.fields['scores']), X.field(out, self.fields['data'])

    def param(self, m, f, t):
        while t['k'] == 'ref':
            t = f['_types'][t['to']]
        if t['k'] == 'adt' and t.get('key', '').endswith('::GradBoostTrainingData'):
            return 'data'
        if t['k'] == 'adt' and t.get('key', '').endswith('::TreeConfig'):
            return 'cfg'
        s = m.sort_of(t, f['_types'])
        return {'i': 'it', 'r': 'lr'}.get(s if isinstance(s, str) else '')

    def training_data(self, m):
        k = adt(self.a, 'GradBoostTrainingData')
        ad = self.a.prog.adts[k]
        out, self.fields = [], {}
        for fd in ad['variants'][0]['fields']:
            s = m.sort_of(ad['_types'][fd['ty']], ad['_types'])
            if s == ('adt', I.DS) and 'data' not in self.fields:
                self.fields['data'] = fd['name']
                out.append((fd['name'], self.data))
            elif s == ('arr', ('arr', 'r')) and 'scores' not in self.fields:
                self.fields['scores'] = fd['name']
                out.append((fd['name'], I.mat('P', self.n, self.k)))
            elif s == 'i' and 'size' not in self.fields:
                self.fields['size'] = fd['name']
                out.append((fd['name'], self.n))
            else:
                return None
        return X.mk_rec(k, out) if len(self.fields) == 3 else None


def Pv(r, c):
    return X.app('r', 'P', r, c)


def at2(mat, r, c):
    return X.index(X.index(mat, r), c)


def abstract_P(t, P):
    """the same relation over another score matrix"""
    memo = {}

    def f(t):
        r = memo.get(t)
        if r is None:
            if t.op == 'app' and t.a[1] == 'P':
                r = P(*[f(x) for x in t.a[2:]])
            else:
                r = X.rebuild(t, f)
            memo[t] = r
        return r
    return f(t)


class Relations:
    """what one training round of the code does to arbitrary scores: labels fitted and scores afterwards"""

    def __init__(self, a, kind):
        self.a, self.kind = a, kind
        t0 = Train(a, kind)
        s = t0.whole()
        self.visited = set(s.m.visited)
        self.round = None
        self.t = Train(a, kind)
        self.t.visited = self.visited
        try:
            o = self.t.one_round()
        except M.Undecided:
            o = None
        if o is not None:
            self.args, self.scores, self.rest = o
            self.round = self.t.one
        ds = [x for x in (self.args if o else ()) if X.sort(x) == ('adt', I.DS)]
        if o is None or len(ds) != 1:
            a.cover.setdefault('round analysed through the whole training loop only', []).append(kind)
            self.round = None
        else:
            self.fitted = ds[0]

    def code_residual(self, P):
        if self.round is None:
            return self.t.residual(P)
        lab = X.field(self.fitted, 'labels')
        return lambda r, c: abstract_P(at2(lab, r, c), P)

    def code_step(self, P):
        if self.round is None:
            return self.t.updated(P, X.app(I.TREE, 'fit', *self.fit_args(self.t.residual(P))))
        return lambda r, c: abstract_P(at2(self.scores, r, c), P)

    def fit_args(self, labels):
        """required arguments of the tree fitting call"""
        t = self.t
        return [t.fit_data(labels), t.cfg, self.leaf_kind()]

    def leaf_kind(self):
        k = adt(self.a, 'LeafOutputType')
        names = [v['name'] for v in self.a.prog.adts[k]['variants']]
        want = 'Regression' if self.kind == 'RegressionBoostModel' else 'MultiClassClassification'
        if want not in names:
            raise Missing('leaf output type %s' % want)
        lt = X.mk_enum(k, X.num(names.index(want)), [ABSENT] * len(names))
        m = M.Machine(self.a.prog)
        return m.run(self.a.method('LeafOutputCalculator', 'new')['key'], [lt], M.St())


def whole(a, rel):
    """the complete training, with the generic tree of round t"""
    t = rel.t
    s = t.whole()
    trees = X.field(s.r, 'trees')
    r = X.fresh('i')
    X.C.range[r] = t.it
    el = X.index(trees, r)
    if el.op != 'app' or el.a[1] != 'fit':
        raise M.Undecided('the tree of round t is not a single fit: %s' % X.show(el)[:300])
    ds = [x for x in el.a[2:] if X.sort(x) == ('adt', I.DS)]
    if len(ds) != 1:
        raise M.Undecided('fit takes %d datasets' % len(ds))
    return s, trees, r, el, ds[0]


def code_guess(s):
    g = X.field(s.r, 'initial_guess')
    return lambda r, c: X.index(g, c)


def ensembles(a, thunk, kinds=tuple(MODELS)):
    for kind in kinds:
        def go(kind=kind):
            thunk(Relations(a, kind))
        a.group(SHORT[kind], go)


def rc(t):
    r, c = X.fresh('i'), X.fresh('i')
    X.C.range[r], X.C.range[c] = t.n, t.k
    return r, c


def C17(a):
    def chk(rel):
        t = rel.t
        if rel.round is not None:
            r, c = rc(t)
            lab = X.field(rel.fitted, 'labels')
            a.eq('residuals of all rows', X.length(lab), t.n, where=rel.round)
            a.eq('residuals of all targets', X.length(X.index(lab, r)), t.k, where=rel.round)
            a.eq('residual from arbitrary scores', at2(lab, r, c), t.residual(Pv)(r, c), where=rel.round)
        s, trees, q, el, ds = whole(a, rel)
        P = t.rounds(code_guess(s), rel.code_step)
        r, c = rc(t)
        lab = X.field(ds, 'labels')
        a.eq('one residual vector per row in every round', X.length(lab), t.n, where=s)
        a.eq('residual in round t', at2(lab, r, c), t.residual(P(q))(r, c), where=s)
    ensembles(a, chk)


def C18(a):
    def chk(rel):
        t = rel.t
        s, trees, q, el, ds = whole(a, rel)
        g = X.field(s.r, 'initial_guess')
        r, c = rc(t)
        a.eq('initial guess has one entry per target', X.length(g), t.k, where=s)
        a.eq('initial guess', X.index(g, c), t.guess()(c), where=s)
        want = lambda i, j: t.guess()(j)
        lab = X.subst(at2(X.field(ds, 'labels'), r, c), {q: ZERO})
        a.eq('the first round starts from it', lab, rel.code_residual(want)(r, c), X.lt(ZERO, t.it), s)
    ensembles(a, chk)


def C19(a):
    def chk(rel):
        t = rel.t
        if rel.round is not None:
            r, c = rc(t)
            args = rel.args
            w = rel.round
            a.eq('fitted on the original feature rows', X.field(rel.fitted, 'feature_rows'), X.field(t.data, 'feature_rows'), where=w)
            a.eq('fitted on the original feature columns', X.field(rel.fitted, 'feature_columns'), X.field(t.data, 'feature_columns'), where=w)
            tree = X.app(I.TREE, 'fit', *args)
            a.eq('scores of all rows are kept', X.length(rel.scores), t.n, where=w)
            a.eq('every row grows by rate times its leaf\'s contribution', at2(rel.scores, r, c), t.updated(Pv, tree)(r, c), where=w)
            a.eq('the training data itself does not change', rel.rest, t.data, where=w)
        s, trees, q, el, ds = whole(a, rel)
        a.eq('as many trees as rounds requested', X.length(trees), t.it, where=s)
        for x in el.a[2:]:
            if X.sort(x) == ('adt', adt(a, 'TreeConfig')):
                a.eq('fitted with the caller\'s configuration', x, t.cfg, where=s)
            if X.sort(x) == ('adt', adt(a, 'LeafOutputCalculator')):
                a.eq('fitted with the leaf output of the ensemble', X.field(x, 'calculate_leaf_output'),
                     X.field(rel.leaf_kind(), 'calculate_leaf_output'), where=s)
        for fl in ('feature_rows', 'feature_columns'):
            a.eq('every round is fitted on the original ' + fl.replace('_', ' '), X.field(ds, fl), X.field(t.data, fl), where=s)
        r, c = rc(t)

        def step(P):
            data = t.fit_data(rel.code_residual(P))
            tree = X.app(I.TREE, 'fit', *[data if X.sort(x) == ('adt', I.DS) else x for x in el.a[2:]])
            return t.updated(P, tree)
        P = t.rounds(code_guess(s), step)
        a.eq('scores before round t are those of all earlier rounds', at2(X.field(ds, 'labels'), r, c),
             rel.code_residual(P(q))(r, c), where=s)
        a.eq('the model keeps the learning rate', X.field(s.r, 'learning_rate'), t.lr, where=s)
        a.no_panics(s, skip=EVENTS)
    ensembles(a, chk)


# ---------------------------------------------------------------- C16: finite scores
def atoms_named(t, name):
    out, seen = [], set()

    def go(x):
        if x in seen:
            return
        seen.add(x)
        if x.op == 'app' and x.a[1] == name:
            out.append(x)
        for y in X._walk(x.a):
            go(y)
    go(t)
    return out


def has_exp(t):
    return any(True for _ in exps(t))


def exps(t, seen=None):
    seen = set() if seen is None else seen
    if t in seen:
        return
    seen.add(t)
    if t.op == 'exp':
        yield t
    for y in X._walk(t.a):
        yield from exps(y, seen)


def bounded_below(b):
    """for a divisor: ('ok'|'bad'|'?', reason): whether exponentials that are too small to represent can make it zero"""
    d = X.P(b)
    if not any(x.op == 'exp' or (x.op == 'sum' and has_exp(x.a[1])) for m in d for x, _ in m):
        return 'ok', 'no exponential in the divisor'
    if any(c < 0 for c in d.values()):
        return '?', 'differences of exponentials'
    if d.get((), 0) > 0:
        return 'ok', 'at least %s' % d[()]
    res = ('?', 'no term is known')
    for m, c in d.items():
        rest, sums = X.num(c), []
        for x, e in m:
            if x.op == 'sum' and e == 1:
                sums.append(x)
            else:
                rest = X.mul(rest, X.powi(X.unP({((x, 1),): 1}), e))
        if len(sums) != 1:
            continue
        S = sums[0]
        v, body = X.open_lam(S.a[1], S.a[0])
        if rest.op == 'num':
            res = ('bad', 'every term of the sum can be too small to represent')
        for A in X.argmins(rest):
            if A.a[0] is not S.a[0]:
                continue
            t = X.mul(rest, X.subst(body, {v: A}))
            if t.op == 'num':
                if t.a[0] > 0:
                    return 'ok', 'one term is exactly %s' % t.a[0]
            elif t.op in ('exp', 'poly'):
                (mm, cc), = X.P(t).items() if len(X.P(t)) == 1 else ((None, None),)
                if mm and all(x.op == 'exp' and x.a[0].op == 'num' for x, _ in mm):
                    val = sum(float(x.a[0].a[0]) * e for x, e in mm)
                    if val > -700:
                        return 'ok', 'one term is exp(%g)' % val
                    res = ('bad', 'the largest term is exp(%g), which is 0' % val)
    return res


def finite_events(a, s, allow_facts=()):
    by = {}
    for pc, kind, sp, fn in s.m.panics:
        if kind in ('exp', 'exp700', 'uflow', 'div0'):
            by.setdefault((kind, sp, fn), []).append(pc)
    for kind in ('exp', 'div0'):
        a.cover['%s sites' % kind] = a.cover.get('%s sites' % kind, 0) + s.m.watched.get(kind, 0)
    for (kind, sp, fn), pcs in sorted(by.items(), key=lambda x: x[0]):
        nm = fn.split('::{closure')[0].split('::')[-1]
        w = '%s (%s)' % (fn, sp)
        if kind == 'exp':
            big = by.get(('exp700', sp, fn), [])
            if all(X.simp(q, s.facts) is FALSE for q in big):
                a.ok('exponential cannot overflow in %s' % nm, w, 'argument at most 700')
                continue
            for q in pcs:
                a.never('exponential cannot overflow in %s' % nm, q, (), w, 'exp of a positive, unbounded score at %s' % sp)
        elif kind == 'div0':
            for q in pcs:
                a.never('no division by zero in %s' % nm, q, (), w, 'division by zero at %s' % sp)
        elif kind == 'uflow':
            for q in pcs:
                for u in atoms_named(X.simp(q, s.facts), 'uflow'):
                    r, why = bounded_below(u.a[2])
                    if r == 'ok':
                        a.ok('divisor stays representable in %s' % nm, w, why)
                    elif r == 'bad':
                        a.bad('divisor stays representable in %s' % nm, '%s: %s (divisor %s)' % (sp, why, X.show(u.a[2])[:600]), w)
                    else:
                        a.undecided('divisor stays representable in %s' % nm, '%s: %s' % (why, X.show(u.a[2])[:600]), w)


def C16(a):
    def chk(rel):
        s = rel.t.whole()
        n0 = len(a.obs)
        finite_events(a, s)
        if len(a.obs) == n0:
            a.ok('no exponential or division left to check', s.where())
    ensembles(a, chk, ('MultiClassBoostModel', 'AMGBoostModel'))

    def leaf():
        m = a.machine()
        m.watch |= {'div0', 'exp', 'exp700', 'uflow'}
        n, k = I.dim('n'), I.dim('K', 2)
        s = a.run(m, leaf_function(a, m, 'MultiClassClassification'), [I.dataset(n=n, k=k)])
        a.cover['division sites in the leaf output'] = s.m.watched.get('div0', 0)
        if not [1 for q in m.panics if q[1] == 'div0' and X.simp(q[0], ()) is not FALSE]:
            a.ok('leaf output never divides by zero', s.where(), 'no division with a divisor that can be zero')
        finite_events(a, s)
    a.group('leaf output', leaf)

    def saturated():
        most = X.num(int(sys.float_info.max))
        for v in (1, -1):
            m = a.machine()
            n, k = I.dim('n'), I.dim('K', 2)
            d = m.upd(I.dataset(n=n, k=k), (('f', 'labels'),), X.comp(n, lambda i: X.comp(k, lambda j: X.num(v))))
            s = a.run(m, leaf_function(a, m, 'MultiClassClassification'), [d])
            t, out = leaf_term(s, k)
            a.never('output of a leaf whose residuals are all %d is finite' % v, X.or_(X.lt(most, out), X.lt(out, X.neg(most))), s.facts, s.where(),
                    'the output overflows')
    a.group('saturated leaf', saturated)


# ---------------------------------------------------------------- prediction and scores
class Predict:
    """an arbitrary trained model of one kind"""

    def __init__(self, a, kind):
        self.a, self.kind = a, kind
        self.m = a.machine()
        self.k = k = I.dim('K', 1 if kind == 'RegressionBoostModel' else 2)
        I.C_LEAF['#K'] = k
        X.C.ubapp['leaf.class'] = k
        self.d = I.dim('d')
        I.columns_below(self.d)
        self.nt = I.dim('NT', 0)
        self.lr = X.var('lr', 'r')
        key = adt(a, kind)
        vals = {'trees': X.comp(self.nt, lambda t: X.app(I.TREE, 'tr', t)), 'initial_guess': I.vec('g', k), 'learning_rate': self.lr}
        names = [f['name'] for f in a.prog.adts[key]['variants'][0]['fields']]
        if not set(vals) <= set(names):
            raise Missing('fields of %s' % kind)
        self.model = X.mk_rec(key, [(n, vals.get(n, X.var('model_' + n, 'o'))) for n in names])

    def score(self, row):
        """c -> required score of component c for the row"""
        def g(c):
            return X.add(X.app('r', 'g', c), X.mul(self.lr, X.summ(
                self.nt, lambda t: leaf_contribution(self.kind, self.a, X.app(I.TREE, 'tr', t), row, self.k)(c))))
        return g

    def predict(self):
        row = lambda c: X.app('r', 'row', c)
        self.s = self.a.run(self.m, self.a.method(self.kind, 'predict'), [self.model, I.vec('row', self.d)])
        return self.s, row

    def component(self):
        c = X.fresh('i')
        X.C.range[c] = self.k
        return c

    def code_score(self, s):
        """c -> the score whose first maximum the code's one-hot prediction marks (multi-class)"""
        c = self.component()
        t = X.simp(X.index(s.r, c), s.facts)
        seen, out = set(), []

        def go(x):
            if x in seen:
                return
            seen.add(x)
            if x.op == 'argmin' and x.a[0] is self.k:
                if x not in out:
                    out.append(x)
                return
            for y in X._walk(x.a):
                go(y)
        go(t)
        if len(out) != 1:
            raise M.Undecided('the predicted class is not a single position of an extreme score: %s' % X.show(t)[:400])
        self.at = out[0]
        return lambda q: X.neg(X.inst(out[0].a[2], q))


def predicts(a, thunk, kinds=tuple(MODELS)):
    for kind in kinds:
        a.group(SHORT[kind], lambda kind=kind: thunk(Predict(a, kind)))


def C20(a):
    def chk(p):
        s, row = p.predict()
        c = p.component()
        if p.kind == 'RegressionBoostModel':
            got, want = X.index(s.r, c), p.score(row)(c)
        else:
            # observable only through the class ranked first: equal up to a common shift and scale
            best = lambda f: X.argmin(p.k, lambda q: TRUE, lambda q: X.neg(f(q)))
            try:
                got, want = best(p.code_score(s)), best(p.score(row))
            except M.Undecided:
                # no single ranking of the classes: compare the predictions themselves
                got, want = X.index(s.r, c), X.ite(X.eqz(X.sub(c, best(p.score(row)))), ONE, ZERO)
        a.eq('score is the initial guess plus rate times all leaf contributions', got, want, where=s)
        a.no_panics(s, skip=EVENTS)
    predicts(a, chk)

    def kept(rel):
        s = rel.t.whole()
        a.eq('the model keeps the learning rate used in training', X.field(s.r, 'learning_rate'), rel.t.lr, where=s)
        ws, trees, q, el, ds = whole(a, rel)
        # the scores the first tree is fitted to are those the model starts prediction from
        r, c = rc(rel.t)
        lab = X.subst(at2(X.field(ds, 'labels'), r, c), {q: ZERO})
        a.eq('prediction starts from the scores training started from', lab,
             rel.code_residual(lambda i, j: X.index(X.field(ws.r, 'initial_guess'), j))(r, c), X.lt(ZERO, rel.t.it), ws)
        if rel.round is not None:
            tree = X.app(I.TREE, 'fit', *rel.args)
            a.eq('training adds what prediction adds', at2(rel.scores, r, c), rel.t.updated(Pv, tree)(r, c), where=rel.round)
    for kind in MODELS:
        a.group(SHORT[kind] + ' training', lambda kind=kind: kept(Relations(a, kind)))


def C21(a):
    def chk(p):
        p.m.watch |= {'exp', 'exp700'}
        s, row = p.predict()
        a.eq('one entry per class or target', X.length(s.r), p.k, where=s)
        c = p.component()
        if p.kind == 'RegressionBoostModel':
            a.eq('prediction is the score vector', X.index(s.r, c), p.score(row)(c), where=s)
        else:
            true_best = X.argmin(p.k, lambda q: TRUE, lambda q: X.neg(p.score(row)(q)))
            try:
                sc = p.code_score(s)
            except M.Undecided:
                a.eq('1 at the highest score and 0 elsewhere', X.index(s.r, c), X.ite(X.eqz(X.sub(c, true_best)), ONE, ZERO), where=s)
                finite_events(a, s)
                return
            best = X.argmin(p.k, lambda q: TRUE, lambda q: X.neg(sc(q)))
            a.eq('1 at the first highest score and 0 elsewhere', X.index(s.r, c), X.ite(X.eqz(X.sub(c, best)), ONE, ZERO), where=s)
            # what is compared ranks the classes as the scores do, and stays apart where the scores are far apart
            a.eq('the values compared rank the classes as their scores do', best, true_best, where=s)
            finite_events(a, s)
    predicts(a, chk)


def code_prediction(a, p):
    """row number -> the code's own single-row prediction"""
    s, _ = p.predict()
    r0 = s.r

    def at(r):
        memo = {}

        def f(t):
            x = memo.get(t)
            if x is None:
                x = X.app('r', 'x', r, f(t.a[2])) if t.op == 'app' and t.a[1] == 'row' else X.rebuild(t, f)
                memo[t] = x
            return x
        return f(r0)
    return at


def C22(a):
    def chk(kind):
        p = Predict(a, kind)
        n = I.dim('n')
        one = code_prediction(a, p)
        data = I.dataset(n=n, d=p.d, k=p.k)
        s = a.run(p.m, a.method(kind, 'calculate_all_predictions'), [p.model, data])
        r, c = X.fresh('i'), X.fresh('i')
        X.C.range[r], X.C.range[c] = n, p.k
        a.eq('one prediction per row', X.length(s.r), n, where=s)
        a.eq('prediction of row r is the single-row prediction', at2(s.r, r, c), X.index(one(r), c), where=s)
        s2 = a.run(p.m, a.method(kind, 'calculate_score'), [p.model, data])
        if kind == 'RegressionBoostModel':
            want = X.div(X.summ(n, lambda r: X.div(X.summ(p.k, lambda c: X.powi(X.sub(X.index(one(r), c), ya(r, c)), 2)), p.k)), n)
            a.eq('score is the mean squared error', s2.r, want, where=s2)
        else:
            want = X.div(X.count(n, lambda r: X.not_(X.exists(p.k, lambda c: X.not_(X.eqz(X.sub(X.index(one(r), c), ya(r, c))))))), n)
            a.eq('score is the fraction of rows predicted exactly', s2.r, want, where=s2)
        a.no_panics(s2, skip=EVENTS)
    for kind in MODELS:
        a.group(SHORT[kind], lambda kind=kind: chk(kind))


# ---------------------------------------------------------------- single trees
def leaf_rows(leaf):
    return X.app('i', '+nleaf', leaf)


def leafy(leaf, r, c):
    return X.app('r', 'leafy', leaf, r, c)


def tree_setup(a, lay):
    m = a.machine(leaf=lay)
    k = I.dim('K')
    I.C_LEAF['#K'] = k
    d = I.dim('d')
    I.columns_below(d)
    return m, k, d, I.tree()


def replaced(t, old, new):
    memo = {}

    def f(q):
        if q is old:
            return new
        x = memo.get(q)
        if x is None:
            x = memo[q] = X.rebuild(q, f)
        return x
    return f(t)


def C23(a):
    def marks(leaf, c):
        return X.count(leaf_rows(leaf), lambda r: X.eqz(X.sub(leafy(leaf, r, c), ONE)))

    def single():
        m, k, d, t = tree_setup(a, I.DS)
        row = lambda c: X.app('r', 'row', c)
        s = a.run(m, a.fn('predict_class'), [I.vec('row', d), t])
        leaf = lookup(t, row, a)
        a.eq('one entry per class', X.length(s.r), k, where=s)
        c = X.fresh('i')
        X.C.range[c] = k
        some = X.exists(k, lambda c: X.not_(X.eqz(marks(leaf, c))))
        best = X.argmin(k, lambda q: TRUE, lambda q: X.neg(marks(leaf, q)))
        a.eq('1 at the first most frequent class', X.index(s.r, c), X.ite(X.eqz(X.sub(c, best)), ONE, ZERO), some, s)
        # without marks all counts are equal, and the first class has the largest
        a.eq('class 0 when no label marks a class', replaced(X.index(s.r, c), best, ZERO), X.ite(X.eqz(c), ONE, ZERO), X.not_(some), s)
        a.no_panics(s)
    a.group('predict_class', single)

    def acc():
        m, k, d, t = tree_setup(a, I.DS)
        n = I.dim('n')
        key = a.fn('predict_class')
        s0 = a.run(m, key, [I.vec('row', d), t])

        def one(r):
            memo = {}

            def f(q):
                x = memo.get(q)
                if x is None:
                    x = X.app('r', 'x', r, f(q.a[2])) if q.op == 'app' and q.a[1] == 'row' else X.rebuild(q, f)
                    memo[q] = x
                return x
            return f(s0.r)
        s = a.run(m, a.fn('calculate_accuracy', module='scorer'), [I.dataset(n=n, d=d, k=k), t])
        want = X.div(X.count(n, lambda r: X.not_(X.exists(k, lambda c: X.not_(X.eqz(X.sub(X.index(one(r), c), ya(r, c))))))), n)
        a.eq('accuracy is the fraction of rows predicted exactly', s.r, want, where=s)
        a.no_panics(s)
    a.group('accuracy', acc)


def C24(a):
    for nm, lay in (('calculate_overall_mean_squared_error', I.DS), ('calculate_overall_mean_squared_error_new_partition', I.SF)):
        def go(nm=nm, lay=lay):
            m, k, d, t = tree_setup(a, lay)
            n = I.dim('n')
            s = a.run(m, a.fn(nm), [I.dataset(n=n, d=d, k=k), t])

            def err(r):
                leaf = lookup(t, lambda c: xa(r, c), a)
                nl = leaf_rows(leaf)
                return X.div(X.summ(k, lambda c: X.powi(X.sub(ya(r, c), X.div(X.summ(nl, lambda q: leafy(leaf, q, c)), nl)), 2)), k)
            a.eq('mean squared distance to the leaf mean', s.r, X.div(X.summ(n, err), n), where=s)
            a.no_panics(s)
        a.group(nm, go)
