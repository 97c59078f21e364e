"""Properties of tree growth, split search, leaf outputs, tree lookup, scoring and printing."""
import terms as X, machine as M, inputs as I, lint as L
from terms import TRUE, FALSE, ZERO, ONE, ABSENT, UNIT, T
from spec import Missing
from props_core import xa, ya, side, sorted_side, perm, question

MT = 'multi_target_decision_tree::'
BSR = 'common::results::BestSplitResult'
BTR = 'common::results::BestThresholdResult'
LOC = MT + 'grad_boost_decision_trees::grad_boost_leaf_output::LeafOutputCalculator'


def adt(a, end):
    l = [k for k in a.prog.adts if k.endswith('::' + end)]
    if len(l) != 1:
        raise Missing('type %s' % end)
    return l[0]


def cfg(a, classes=None):
    sf = X.mk_rec(adt(a, 'SplitFinder'), [(f['name'], X.var('FBS' if f['name'] == 'find_best_split' else 'sf_' + f['name'], 'o'))
                                          for f in a.prog.adts[adt(a, 'SplitFinder')]['variants'][0]['fields']])
    vals = {'split_finder': sf, 'use_multi_threading': X.var('mt', 'b'),
            'number_of_classes': classes if classes is not None else X.var('NC'), 'max_levels': X.var('ML')}
    X.C.minv[vals['max_levels']] = 0
    return X.mk_rec(adt(a, 'TreeConfig'), [(f['name'], vals.get(f['name'], X.var('cfg_' + f['name'], 'o')))
                                           for f in a.prog.adts[adt(a, 'TreeConfig')]['variants'][0]['fields']])


def loc(a, clo=None):
    k = adt(a, 'LeafOutputCalculator')
    return X.mk_rec(k, [(f['name'], X.var('CLO', 'o') if f['name'] == 'calculate_leaf_output' else X.var('loc_' + f['name'], 'o'))
                        for f in a.prog.adts[k]['variants'][0]['fields']])


def returning(a, key):
    """functions (not closures) whose result is the given type"""
    out = []
    for f in a.prog.fns.values():
        if f['kind'] != 'Closure' and f.get('body') is not None:
            t = f['_types'][f['ret']]
            if t['k'] == 'adt' and t.get('key') == key:
                out.append(f)
    return out


KINDS = {'plain': ('RegressionMultiTargetDecisionTree', I.DS), 'presorted': ('RegressionMultiTargetDecisionTreeNewPartition', I.SF),
         'boosting': ('GradBoostMultiTargetDecisionTree', I.DS), 'approximate': ('AMGBoostTree', I.DS)}


class Grow:
    """one builder function on a generic node: dataset G, depth L, everything else invariant"""
    pass


class Build:
    def __init__(self, a, kind, cfgv=None):
        self.a, self.kind = a, kind
        self.ty, self.lay = KINDS[kind]
        self.new = a.method(self.ty, 'new')
        self.L = None
        self.probe = None
        self.steps, self.strict = {}, False

    # -------------------------------------------------- symbolic arguments
    def start(self):
        a = self.a
        m = self.m = a.machine()
        self.n, self.d, self.k, self.N = I.dim('n'), I.dim('d'), I.dim('K'), I.dim('N')
        if self.lay == I.SF:
            a.ps = (self.n, self.N)
        self.L = X.var('L')
        X.C.minv[self.L] = 0
        if self.lay == I.SF:
            self.G = I.presorted(self.n, self.d, self.k, self.N)
            self.G0 = X.mk_rec(I.SF, [
                ('labels', X.comp(self.N, lambda i: X.comp(self.k, lambda t: ya(i, t)))),
                ('sorted_feature_columns', X.comp(self.d, lambda c: X.comp(self.N, lambda i: X.tup(
                    X.app('r', 'rv', c, i), X.app('i', 'rsi', c, i)))))])
            X.C.ubapp['rsi'] = self.N
        else:
            self.G = I.dataset(n=self.n, d=self.d, k=self.k)
            self.G0 = I.dataset('r', n=self.N, d=self.d, k=self.k)
        self.cfg = cfg(a)
        self.ml, self.mt, self.nc = X.field(self.cfg, 'max_levels'), X.field(self.cfg, 'use_multi_threading'), \
            X.field(self.cfg, 'number_of_classes')
        self.loc = loc(a)
        self.fbs, self.clo, self.rec = [], [], []
        m.boundary['*fnptr'] = self.fnptr
        if self.lay == I.SF:
            for f in returning(a, BSR):
                m.boundary[f['key']] = self.search
        return m

    def split(self, data):
        return X.mk_rec(BSR, [('gain', X.app('r', 'gain', data)), ('question', X.mk_rec(I.Q, [
            ('column', X.app('i', 'qcol', data)), ('value', X.app('r', 'qval', data))]))])

    def leaf_out(self, data):
        return X.comp(self.k, lambda t: X.app('r', 'clo', data, t))

    def fnptr(self, m, f, args, st, e):
        if f is X.var('FBS', 'o'):
            v = [m.rd(st, x) for x in args]
            self.fbs.append((v, st.pc, e))
            return self.split(v[0])
        if f is X.var('CLO', 'o'):
            v = [m.rd(st, x) for x in args]
            self.clo.append((v, st.pc, e))
            return self.leaf_out(v[0])
        return None

    def search(self, m, key, args, st, e):
        v = [m.rd(st, x) for x in args]
        d = [x for x in v if X.sort(x) == ('adt', self.lay)]
        if len(d) != 1:
            return None
        self.fbs.append((v, st.pc, e, key, list(args)))
        if self.probe is not None:
            self.probe(m, key, args, st)
        return self.split(d[0])

    # -------------------------------------------------- the recursive functions
    def discover(self):
        m = self.start()
        args = [self.G0, self.cfg] + ([self.loc] if self.kind in ('boosting', 'approximate') else [])
        # builders that call themselves directly need not be entered to be found
        prog = self.a.prog
        direct = set()
        for k in L.reachable(prog, [self.new['key']]):
            f = prog.fns[k]
            if f['kind'] != 'Closure' and k in L.called(prog, k) and m.sort_of(f['_types'][f['ret']], f['_types']) == I.TREE:
                direct.add(k)

        def opaque(m, key, args, st, e):
            return X.app(I.TREE, 'found', X.var(key, 'o'))
        for k in direct:
            m.boundary[k] = opaque
        m.run(self.new['key'], args, M.St())
        self.R = sorted(direct | set(m.rec_args))
        self.a.note(m)
        return args

    def bound(self, m, level):
        def h(m, key, args, st, e):
            if not m.stack:
                return None
            v = tuple(m.rd(st, x) for x in args)
            self.rec.append((key, v, st.pc))
            d = [x for x in v if X.sort(x) == ('adt', self.lay)]
            lv = level
            for i, c in self.steps.get(key, {}).items():
                # the depth this call is made for
                lv = X.div(X.sub(v[i], self.A0[key][i]), c)
                break
            more = []
            if self.strict and hasattr(self, 'A0'):
                more = [self.neutral(x) for i, x in enumerate(v) if self.configures(x) and
                        self.neutral(x) is not self.neutral(self.A0[key][i])]
            return X.app(I.TREE, 'grow', d[0] if len(d) == 1 else X.mk('unk', 'no dataset argument'), lv, *more)
        for k in self.R:
            m.boundary[k] = h

    def configures(self, x):
        return X.sort(x) in (('adt', adt(self.a, 'TreeConfig')), ('adt', adt(self.a, 'LeafOutputCalculator')))

    def neutral(self, x):
        """a configuration without the threading flag, which may change nothing (C09)"""
        if X.sort(x) != ('adt', adt(self.a, 'TreeConfig')):
            return x
        return X.mk_rec(x.a[0] if x.op == 'rec' else adt(self.a, 'TreeConfig'),
                        [(f['name'], X.field(x, f['name'])) for f in self.a.prog.adts[adt(self.a, 'TreeConfig')]['variants'][0]['fields']
                         if f['name'] != 'use_multi_threading'])

    def root(self):
        args = self.discover()
        a = self.a
        if not self.R:
            raise M.Undecided('no recursive builder function found below %s' % self.new['key'])
        m = self.start()
        self.bound(m, ZERO)
        self.rootval = a.run(m, self.new, args)
        self.A0 = {}
        for key, v, pc in self.rec:
            if key in self.A0 and self.A0[key] != v:
                raise M.Undecided('%s is called with different initial arguments' % key)
            self.A0[key] = v
        return self.rootval

    def count(self, key):
        """which arguments of the builder count levels, and how the builders it calls start"""
        A0 = self.A0[key]
        self.rec = []
        m = self.start()
        self.bound(m, X.add(self.L, ONE))
        # whole-number arguments may count levels: take any value for them first
        any_ = {i: X.var('a%d' % i) for i, x in enumerate(A0) if X.sort(x) in ('i', 'z')}
        m.run(key, [any_.get(i, self.G if X.sort(x) == ('adt', self.lay) else x) for i, x in enumerate(A0)], M.St())
        step, odd = {}, {}
        for k2, v, pc in self.rec:
            if k2 == key:
                for i, x in enumerate(v):
                    if X.sort(x) != ('adt', self.lay) and x is not any_.get(i, A0[i]):
                        if self.configures(x):
                            continue        # compared with the configuration of the parent below
                        dl = X.simp(X.sub(x, any_[i]), ()) if X.sort(x) in ('i', 'z') else None
                        if dl is None or dl.op != 'num':
                            odd[i] = x
                        elif step.get(i, dl) is not dl:
                            raise M.Undecided('argument %d of %s changes irregularly: %s' % (i, key, X.show(x)[:300]))
                        else:
                            step[i] = dl
        for i, x in odd.items():
            if i not in step:
                # advances by different amounts: hold it to one of them
                ls = [l for l in X.leaves(X.simp(X.sub(x, any_[i]), ())) if l.op == 'num' and l is not ZERO] \
                    if X.sort(x) in ('i', 'z') and i in any_ else []
                if ls:
                    step[i] = ONE if ONE in ls else ls[0]
                    continue
                raise M.Undecided('argument %d of %s changes irregularly: %s' % (i, key, X.show(x)[:300]))
        if m.unknown_calls and not any(k2 == key for k2, v, pc in self.rec):
            raise M.Undecided('the calls %s makes of itself are not understood: %s' % (key, sorted(m.unknown_calls)[:4]))
        self.steps[key] = step
        # a builder only other builders call: where its count would have stood at the root
        back = {any_[i]: X.sub(A0[i], c) for i, c in step.items()}
        back.update({any_[i]: A0[i] for i in any_ if i not in step})
        for k2, v, pc in self.rec:
            if k2 not in self.A0:
                self.A0[k2] = tuple(self.G0 if X.sort(x) == ('adt', self.lay) else X.simp(X.subst(x, back), ()) for x in v)

    def generic(self, key):
        """summary of the builder on a generic node, plus the calls it makes"""
        a = self.a
        A0 = self.A0[key]
        f = a.prog.fns[key]

        def args_for(base):
            return [self.G if X.sort(x) == ('adt', self.lay) else x for x in base]
        if key not in self.steps:
            self.count(key)
        step = self.steps[key]
        A = args_for(A0)
        for i, c in step.items():
            A[i] = X.add(A0[i], X.mul(c, self.L))
        self.rec, self.fbs, self.clo = [], [], []
        m = self.start()
        self.bound(m, X.add(self.L, ONE))
        s = a.run(m, f, A, X.le(self.L, self.ml))
        g = Grow()
        g.key, g.s, g.A, g.step, g.rec, g.fbs, g.clo, g.fn = key, s, A, step, self.rec, self.fbs, self.clo, f
        g.S = self.split(self.G)
        g.gain, g.q = X.field(g.S, 'gain'), X.field(g.S, 'question')
        g.col, g.val = X.field(g.q, 'column'), X.field(g.q, 'value')
        below = X.exists(self.rows(), lambda r: X.and_(self.mem(r), X.lt(xa(r, g.col), g.val)))
        above = X.exists(self.rows(), lambda r: X.and_(self.mem(r), X.ge(xa(r, g.col), g.val)))
        g.base = X.and_(X.le(self.L, self.ml), X.lt(g.col, self.d), X.ge(g.gain, ZERO))
        g.isleaf = X.or_(X.eqz(g.gain), X.eqz(X.sub(self.L, self.ml)))
        g.leaf = X.and_(g.base, g.isleaf)
        g.inner = X.and_(g.base, X.not_(g.isleaf), below, above)
        return g

    def rows(self):
        return self.N if self.lay == I.SF else self.n

    def mem(self, r):
        return I.member(r) if self.lay == I.SF else TRUE

    def sides(self, g):
        yes, no = (lambda r: X.ge(xa(r, g.col), g.val)), (lambda r: X.lt(xa(r, g.col), g.val))
        if self.lay == I.SF:
            mk = lambda c: sorted_side(self.n, self.N, self.d, self.k, c)
        else:
            mk = lambda c: side(xa, ya, self.n, self.d, self.k, c)
        return mk(yes), mk(no)

    def each(self, thunk):
        """thunk(g) for every recursive builder function of this kind"""
        a = self.a

        def root():
            self.root()
            r = X.field(self.rootval.r, 'root')
            a.eq('the root is grown from the whole dataset', r, X.app(I.TREE, 'grow', self.G0, ZERO), where=self.rootval)
            a.no_panics(self.rootval, 'no panic before growing')
        obs = a.group('%s::new' % self.ty, root)
        if not hasattr(self, 'A0'):
            return
        a.cover.setdefault('recursive builders', []).extend(self.R)
        def counts():
            tried = set()
            while True:
                todo = [k for k in self.R if k in self.A0 and k not in tried]
                if not todo:
                    return
                tried.add(todo[0])
                try:
                    self.count(todo[0])
                except (M.Undecided, X.Abort, RecursionError):
                    pass                # again, and reported, when its turn comes
        a.group('levels', counts)
        for key in self.R:
            if key not in self.A0:
                a.undecided('%s' % key.split('::')[-1], 'recursive function is not entered from %s' % self.new['key'])
                continue
            a.group(key.split('::')[-1], lambda key=key: thunk(self.generic(key)))


def lits(t):
    return tuple(X.conj_lits(t))


def branch(node, name):
    o = X.field(node, name)
    return X.tag(o), o


def node_parts(a, g, facts):
    """fields of the built node under an assumption"""
    r = X.simp(g.s.r, lits(facts))
    return r


def grown(a, b, g):
    """C06/C07 shared: the two children under the inner condition"""
    yes, no = b.sides(g)
    r = node_parts(a, g, g.inner)
    out = {}
    for nm, want in (('true_branch', yes), ('false_branch', no)):
        o = X.field(r, nm)
        out[nm] = (X.simp(X.tag(o), lits(g.inner)), X.payload(o, 1, '0', I.TREE), X.app(I.TREE, 'grow', want, X.add(b.L, ONE)))
    return out


def C06(a):
    for kind in KINDS:
        b = Build(a, kind)

        def chk(g, b=b):
            for nm, (tag, got, want) in grown(a, b, g).items():
                a.eq('%s is grown from its side of the split' % nm.replace('_', ' '), rows_of(X.simp(got, lits(g.inner))), want.a[2], g.inner, g.s)
            a.eq('the node keeps the question its rows were split by',
                 X.field(node_parts(a, g, g.inner), 'question'), g.q, g.inner, g.s)
        b.each(chk)
    for mod, strict in (('scorer', False), ('tree_traverse', False), ('scorer', True), ('tree_traverse', True)):
        def look(mod=mod, strict=strict):
            m = a.machine()
            X.C.strict_float = strict
            f = a.fn('find_leaf_node_for_data', module=mod)
            d = I.dim('d')
            t = I.tree()
            I.columns_below(d)
            s = a.run(m, f, [I.vec('row', d), t])
            a.eq('routes by the question from the root to a leaf', s.r, lookup(t, lambda c: X.app('r', 'row', c), a, m), where=s)
            X.C.strict_float = False
            a.no_panics(s)
        a.group('find_leaf_node_for_data (%s%s)' % (mod, ', unordered values' if strict else ''), look)


def lookup(t, row, a, m=None):
    """the leaf contents reached from node t"""
    import loops
    v = X.fresh(I.TREE)
    q = X.field(v, 'question')
    go = X.ge(row(X.field(q, 'column')), X.field(q, 'value'))
    if m is not None:
        go = m.compare('Ge', row(X.field(q, 'column')), X.field(q, 'value'), True)
    s = 'o'
    rc = lambda x: X.mk('rc', s, 'rec', x)
    body = X.ite(I.isleaf(v), X.app('o', 'leafdata', v),
                 X.ite(go, rc(X.app(I.TREE, 'yes', v)), rc(X.app(I.TREE, 'no', v))))
    return loops.mk_fix(s, [v], body, [t])


def C07(a):
    for kind in KINDS:
        b = Build(a, kind)

        def chk(g, b=b):
            s = g.s
            fl = lits(g.base)
            tl, fl2 = X.field(s.r, 'true_branch'), X.field(s.r, 'false_branch')
            for nm, o, leafv in (('true branch', tl, ZERO), ('false branch', fl2, ZERO), ('leaf', X.field(s.r, 'leaf'), ONE)):
                a.eq('%s is present exactly as required' % nm, X.tag(o), X.ite(g.isleaf, leafv, X.sub(ONE, leafv)), g.base, s)
            a.eq('carries the best question', X.field(node_parts(a, g, g.inner), 'question'), g.q, g.inner, s)
            for nm, (tag, got, want) in grown(a, b, g).items():
                d = X.leaves(X.simp(got, lits(g.inner)))
                a.eq('%s is one level deeper' % nm.replace('_', ' '),
                     depth_of(X.simp(got, lits(g.inner))), X.add(b.L, ONE), g.inner, s)
            # the recursion passes on exactly what the generic call assumes
            for k2, v, pc in g.rec:
                other = [x for x in [b.A0.get(k2)] if x]
                exp = [X.simp(X.subst(x, {b.L: X.add(b.L, ONE)}), ()) if isinstance(x, T) else x
                       for x in (g.A if k2 == g.key else generic_args(b, k2, g))]
                for i, x in enumerate(v):
                    if X.sort(x) == ('adt', b.lay):
                        continue
                    a.eq('child call argument %d' % i, b.neutral(x) if b.configures(x) else x,
                         b.neutral(exp[i]) if b.configures(x) else exp[i], X.and_(g.inner, pc), s)
            for c in g.fbs:
                dat = [x for x in c[0] if X.sort(x) == ('adt', b.lay)]
                a.eq('the split is searched on the node\'s own rows', dat[0], b.G, X.and_(g.base, c[1]), s)
                if b.lay == I.DS and len(c[0]) > 1:
                    a.eq('with the configured number of targets', c[0][1], b.nc, X.and_(g.base, c[1]), s)
            if not g.fbs:
                a.bad('split search', 'the builder never searches a split', s.where())
        b.each(chk)


def rows_of(t):
    return X.map_leaves(t, lambda l: l.a[2] if l.op == 'app' and l.a[1] == 'grow' else X.app('o', 'nodata', l))


def depth_of(t):
    return X.map_leaves(t, lambda l: l.a[3] if l.op == 'app' and l.a[1] == 'grow' else X.app('i', 'nodepth', l))


def generic_args(b, k2, g):
    """arguments of another builder of the same kind at the generic node (same depth convention)"""
    if k2 not in b.A0:
        raise M.Undecided('calls %s, which is not entered from the root' % k2)
    out = []
    for i, x in enumerate(b.A0[k2]):
        if k2 in b.steps and i in b.steps[k2]:
            out.append(X.add(x, X.mul(b.steps[k2][i], b.L)))
        else:
            out.append(b.G if X.sort(x) == ('adt', b.lay) else x)
    return out


def C08(a):
    for kind in KINDS:
        b = Build(a, kind)

        def chk(g, b=b):
            s = g.s
            r = node_parts(a, g, g.leaf)
            o = X.field(r, 'leaf')
            leaf = X.payload(o, 1, '0')
            if b.kind in ('plain', 'presorted'):
                d = X.field(leaf, 'data')
                a.eq('the leaf is filled', X.tag(d), ONE, g.leaf, s)
                for fl in (('feature_rows', 'labels', 'feature_columns') if b.lay == I.DS else ('labels', 'sorted_feature_columns')):
                    a.eq('leaf %s are those of the node\'s rows' % fl, X.field(X.payload(d, 1, '0'), fl), X.field(b.G, fl), g.leaf, s)
            else:
                out = b.leaf_out(b.G)
                for c in g.clo:
                    a.eq('leaf output is computed from the node\'s rows', c[0][0], b.G, X.and_(g.base, c[1]), s)
                if b.kind == 'boosting':
                    v = X.field(leaf, 'leaf_output')
                    a.eq('the leaf is filled', X.tag(v), ONE, g.leaf, s)
                    a.eq('leaf output', X.payload(v, 1, '0'), out, g.leaf, s)
                else:
                    at = X.argmin(b.k, lambda t: TRUE, lambda t: X.neg(X.index(out, t)))
                    v, c = X.field(leaf, 'max_value'), X.field(leaf, 'class')
                    a.eq('the leaf is filled', X.add(X.tag(v), X.tag(c)), X.num(2), g.leaf, s)
                    a.eq('largest component', X.payload(v, 1, '0', 'r'), X.index(out, at), g.leaf, s)
                    a.eq('its first position', X.payload(c, 1, '0', 'i'), at, g.leaf, s)
            for nm, (tag, got, want) in grown(a, b, g).items():
                a.eq('the %s receives exactly its rows' % nm.replace('_', ' '), rows_of(X.simp(got, lits(g.inner))), want.a[2], g.inner, s)
            a.no_panics(s, 'making a leaf never panics', facts=g.leaf)
            a.no_panics(s, 'splitting a node never panics', facts=g.inner)
        b.each(lambda g, b=b, chk=chk: chk(g))


def C09(a):
    for kind in ('plain', 'boosting', 'approximate'):
        b = Build(a, kind)
        b.strict = True
        gs = []

        def chk(g, b=b):
            gs.append(g)
            a.ok('summarised', g.s.where()) if b.mt not in X.simp(g.s.r, ()).fv - frozenset() or True else None
        def go(b=b):
            b.root()
            for on in (True, False):
                a.eq('root with multi-threading %s' % ('on' if on else 'off'),
                     X.simp(X.field(b.rootval.r, 'root'), ((b.mt, on),)) if b.mt.op != 'ite' else None,
                     X.app(I.TREE, 'grow', b.G0, ZERO), where=b.rootval)
            ref = None
            for key in b.R:
                g = b.generic(key)
                if ref is None:
                    ref = g
                for cond, nm in ((g.leaf, 'leaf node'), (g.inner, 'inner node')):
                    rr, gg = X.simp(ref.s.r, lits(cond)), X.simp(g.s.r, lits(cond))
                    if nm == 'inner node':
                        for fl in ('question', 'true_branch', 'false_branch', 'leaf'):
                            a.eq('%s: %s of a %s as in %s' % (short(key), fl, nm, short(ref.key)), X.field(gg, fl), X.field(rr, fl), cond, g.s)
                    else:
                        for fl in ('true_branch', 'false_branch', 'leaf'):
                            a.eq('%s: %s of a %s as in %s' % (short(key), fl, nm, short(ref.key)), X.field(gg, fl), X.field(rr, fl), cond, g.s)
                    for on in (True, False):
                        a.eq('%s: %s does not depend on the threading flag (%s)' % (short(key), nm, on),
                             X.simp(gg, ((b.mt, on),)), gg, cond, g.s)
        a.group(b.ty, go)


def short(k):
    return k.split('::')[-1]


# ---------------------------------------------------------------- C10 - C13: split search
class Search:
    """one split search on a generic node: its rows (n, labels), columns (value and row of the j-th smallest entry),
    the summary of the search with every threshold search abstracted by its column, and those threshold searches"""

    def __init__(self, n, d, k, val, row, lab, X_below, total):
        self.n, self.d, self.k, self.val, self.row, self.lab = n, d, k, val, row, lab
        self.below = X_below            # (column, t) -> some row of the node is below t
        self.total = total              # f(label value) summed over the rows of the node, for target t
        self.calls = []
        self.out = None

    def V(self):
        """total variance summed over targets"""
        n, k = self.n, self.k
        return X.summ(k, lambda t: X.sub(X.div(self.total(t, 2), n), X.powi(X.div(self.total(t, 1), n), 2)))

    def loss(self, c, j):
        """size-weighted variance with the j smallest entries of column c on the left"""
        n = self.n
        r = X.sub(n, j)

        def tgt(t):
            sl = X.summ(j, lambda i: self.lab(self.row(c, i), t))
            ql = X.summ(j, lambda i: X.powi(self.lab(self.row(c, i), t), 2))
            sr, qr = X.sub(self.total(t, 1), sl), X.sub(self.total(t, 2), ql)
            vl = X.sub(X.div(ql, j), X.powi(X.div(sl, j), 2))
            vr = X.sub(X.div(qr, r), X.powi(X.div(sr, r), 2))
            return X.div(X.add(X.mul(j, vl), X.mul(r, vr)), n)
        return X.summ(self.k, tgt)

    def candidate(self, c):
        return lambda j: X.and_(X.not_(X.eqz(j)), X.not_(X.eqz(X.sub(self.val(c, j), self.val(c, X.sub(j, ONE))))))

    def best(self, c):
        """(there is a candidate, its position, its loss)"""
        P = self.candidate(c)
        at = X.argmin(self.n, P, lambda j: self.loss(c, j))
        return X.exists(self.n, P), at, self.loss(c, at)


def column_of(col):
    """the column whose entries the argument lists"""
    i = X.fresh('i')
    X.C.range[i] = X.length(col)
    x = X.index(col, i)
    if isinstance(X.sort(x), tuple):
        x = X.field(x, '0')
    if x.op != 'app':
        return None
    if x.a[1] == 'x' and x.a[2] is i:
        return x.a[3]
    if x.a[1] == 'sv' and x.a[3] is i:
        return x.a[2]
    return None


def tl(c):
    return X.app('r', 'tl', c)


def tt(c):
    return X.app('r', 'tt', c)


def thresholds(a, m, sr):
    """abstract every threshold search by the column it is given"""
    def h(m, key, args, st, e):
        if key in m.stack:
            return None
        cols = [c for c in (column_of(x) for x in (m.rd(st, y) for y in args) if isinstance(X.sort(x), tuple) and
                            X.sort(x)[0] == 'arr' and X.sort(x)[1] != ('arr', 'r')) if c is not None]
        if len(cols) != 1:
            return None
        v = m.enter(a.prog.fns[key], args, st, None)
        sr.calls.append((key, cols[0], v, st.pc))
        return X.mk_rec(BTR, [('loss', tl(cols[0])), ('threshold_value', tt(cols[0]))])
    for f in returning(a, BTR):
        m.boundary[f['key']] = h


def plain_search(a, abstract=True):
    m = a.machine()
    n, d, k = I.dim('n'), I.dim('d'), I.dim('K')
    sr = Search(n, d, k, lambda c, j: xa(perm(n, lambda i: xa(i, c), j), c), lambda c, j: perm(n, lambda i: xa(i, c), j), ya,
                lambda c, t: X.exists(n, lambda r: X.lt(xa(r, c), t)),
                lambda t, e: X.summ(n, lambda r: X.powi(ya(r, t), e)))
    sr.above = lambda c, t: X.exists(n, lambda r: X.ge(xa(r, c), t))
    if abstract:
        thresholds(a, m, sr)
    f = a.fn('find_best_split', module='split_finder_variance')
    sr.out = a.run(m, f, [I.dataset(n=n, d=d, k=k), k])
    sr.r = sr.out.r
    sr.facts = TRUE
    return sr


def presorted_search(a, abstract=True):
    b = Build(a, 'presorted')
    b.root()
    box = []

    def probe(m, key, args, st):
        sr = Search(b.n, b.d, b.k, lambda c, j: X.app('r', 'sv', c, j), lambda c, j: X.app('i', 'si', c, j), ya,
                    lambda c, t: X.exists(b.n, lambda j: X.lt(X.app('r', 'sv', c, j), t)),
                    lambda t, e: X.summ(b.N, lambda r: X.ite(I.member(r), X.powi(ya(r, t), e), ZERO)))
        sr.above = lambda c, t: X.exists(b.n, lambda j: X.ge(X.app('r', 'sv', c, j), t))
        if abstract:
            thresholds(a, m, sr)
        box.append(sr)
        b.fbs = []
        fn = a.prog.fns[key]
        sr.r = m.enter(fn, args, st, None)
        sr.fnkey, sr.pc = fn, st.pc
    for key in b.R:
        b.probe = probe
        g = b.generic(key)
        b.probe = None
        if not box:
            raise M.Undecided('no split search found in %s' % key)
        sr = box[-1]
        sr.facts = X.le(b.L, b.ml)
        sr.out = g.s
    return sr


def searches(a, thunk, name=''):
    for nm, mk in (('rows', plain_search), ('presorted columns', presorted_search)):
        def go(mk=mk):
            sr = mk(a)
            if not sr.calls:
                a.cover.setdefault('threshold search inlined', []).append(nm)
                sr = mk(a, False)
            thunk(sr)
        a.group('split search on ' + nm, go)


def where(a, key):
    f = a.prog.fns[key]
    return '%s (%s)' % (f['key'], f.get('sp', ''))


def C10(a):
    def chk(sr):
        if sr.calls:
            los, thr = tl, tt
        else:
            los = lambda c: X.ite(sr.best(c)[0], sr.best(c)[2], X.INF)
            thr = lambda c: X.ite(sr.best(c)[0], sr.val(c, sr.best(c)[1]), ZERO)
        V = sr.V()
        gains = X.exists(sr.d, lambda c: X.gt(X.sub(V, los(c)), ZERO))
        best = X.argmin(sr.d, lambda c: TRUE, los)
        q = X.field(sr.r, 'question')
        a.eq('gain of the best column, 0 without gain', X.field(sr.r, 'gain'), X.ite(gains, X.sub(V, los(best)), ZERO), sr.facts, sr.out)
        a.eq('the column of the best threshold, first on ties', X.field(q, 'column'), best, X.and_(sr.facts, gains), sr.out)
        a.eq('the threshold of that column', X.field(q, 'value'), thr(best), X.and_(sr.facts, gains), sr.out)
        if sr.calls:
            for key, c, v, pc in sr.calls:
                a.cover.setdefault('threshold searches', []).append('%s on column %s' % (key, X.show(c)))
    searches(a, chk)


def per_column(a, sr, f):
    if not sr.calls:
        raise M.Undecided('threshold search is not a separate function; covered by C10')
    for key, c, v, pc in sr.calls:
        f(key, c, v, X.and_(sr.facts, pc), where(a, key))


def C11(a):
    def chk(sr):
        def col(key, c, v, facts, w):
            ex, at, loss = sr.best(c)
            a.eq('threshold is the best distinct value above the smallest', X.field(v, 'threshold_value'), sr.val(c, at), X.and_(facts, ex), w)
            a.eq('loss of that value; infinite when all values are equal', X.field(v, 'loss'), X.ite(ex, loss, X.INF), facts, w)
        per_column(a, sr, col)
    searches(a, chk)


def finite(t):
    return X.map_leaves(t, lambda l: X.boolT(l is not X.INF))


def C12(a):
    def chk(sr):
        def col(key, c, v, facts, w):
            los = X.field(v, 'loss')
            fin = X.and_(facts, finite(los))
            at = split_positions(X.simp(los, lits(fin)))
            if len(at) != 1:
                ex, p, loss = sr.best(c)
                a.eq('loss of the returned threshold', los, X.ite(ex, loss, X.INF), facts, w)
            else:
                a.eq('loss is the size-weighted variance summed over targets', los, sr.loss(c, at[0]), fin, w)
        V = sr.V()
        g = X.simp(X.field(sr.r, 'gain'), lits(sr.facts))
        per_column(a, sr, col)
        for l in [l for l in X.leaves(g) if l is not ZERO] or [g]:
            # gain + loss at the returned column is the total variance
            loss, rest = loss_part(l)
            if loss is None:
                a.undecided('total variance of the node', 'the gain is not a node total minus one threshold loss: %s' % X.show(l)[:300], sr.out)
            else:
                only = X.map_leaves(g, lambda l2, l=l: X.boolT(l2 is l))
                a.eq('total variance of the node', rest, V, X.and_(sr.facts, only), sr.out)
    searches(a, chk)


def mentions_loss(t):
    seen = set()

    def go(x):
        if x in seen:
            return False
        seen.add(x)
        return (x.op == 'app' and x.a[1] == 'tl') or any(go(y) for y in X._walk(x.a))
    return go(t)


def loss_part(l):
    """(loss, l + loss) when the gain l is a loss-free term minus one threshold loss, else (None, None)"""
    d = X.P(l)
    hit = [(mm, q) for mm, q in d.items() if any(mentions_loss(x) for x, e in mm)]
    if len(hit) != 1 or len(hit[0][0]) != 1 or hit[0][0][0][1] != 1:
        return None, None
    x = hit[0][0][0][0]
    if x.op != 'app' or x.a[1] != 'tl':
        return None, None
    return X.unP({hit[0][0]: -hit[0][1]}), X.add(l, x)


def split_positions(t):
    out = []
    seen = set()

    def go(x):
        if x in seen:
            return
        seen.add(x)
        if x.op == 'argmin':
            if x not in out:
                out.append(x)
            return
        for y in X._walk(x.a):
            go(y)
    go(t)
    return out


def C13(a):
    def chk(sr):
        if not sr.calls:
            q = X.field(sr.r, 'question')
            c, t = X.field(q, 'column'), X.field(q, 'value')
            cond = X.and_(sr.facts, X.not_(X.eqz(X.field(sr.r, 'gain'))))
            separates(a, sr, c, t, cond, sr.out)
            return
        def col(key, c, v, facts, w):
            separates(a, sr, c, X.field(v, 'threshold_value'), X.and_(facts, finite(X.field(v, 'loss'))), w)
        per_column(a, sr, col)
        g, q = X.field(sr.r, 'gain'), X.field(sr.r, 'question')
        gain = X.and_(sr.facts, X.not_(X.eqz(g)))
        for cs in spec_cases(gain):
            gg, cc, vv = X.simp(g, cs), X.simp(X.field(q, 'column'), cs), X.simp(X.field(q, 'value'), cs)
            a.eq('a split with gain uses its own column\'s threshold', vv, tt(cc), cs, sr.out)
            loss, rest = loss_part(gg)
            if loss is None:
                a.undecided('gain is finite only where a threshold was found', 'the gain is not a node total minus one threshold loss: %s' % X.show(gg)[:300], sr.out)
            else:
                a.eq('gain is finite only where a threshold was found', loss, tl(cc), cs, sr.out)
    searches(a, chk)


def spec_cases(t):
    import spec
    return spec.cases(t)


def separates(a, sr, c, t, facts, w):
    """some row of the node is below t and some row is not"""
    for cs in spec_cases(facts):
        tv = X.simp(t, cs)
        pos = entry_position(sr, c, tv)
        if pos is not None and pos.op == 'argmin':
            v, g = X.open_lam(pos.a[1], pos.a[0])
            if X.implied_by(X.simp(g, ()), sr.candidate(c)(v)) and pos.a[0] is sr.n and \
                    X.simp(X.exists_body(pos.a[0], v, g), cs) is TRUE:
                a.ok('threshold lies strictly above an entry of its column and is one itself', str(w),
                     'threshold = %s with candidate condition %s' % (X.show(tv)[:200], X.show(g)[:200]))
                continue
        a.never('threshold separates the rows', X.not_(X.and_(sr.below(c, tv), sr.above(c, tv))), cs, w,
                'the returned threshold leaves one side empty')


def entry_position(sr, c, t):
    """p when t is the p-th smallest entry of column c"""
    for p in split_positions(t):
        if t is sr.val(c, p):
            return p
    return None
