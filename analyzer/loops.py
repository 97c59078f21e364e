"""Loops as recurrence systems.

The body is interpreted once over a symbolic state (one leaf symbol per scalar component of every variable the
loop changes).  The resulting equations  S(K+1) = F(K, S(K))  are solved by classification: invariant, last
value, additive, guarded last write, boolean flag, best-of (first/last minimum or maximum), append.  What cannot
be classified becomes a canonical `fold` (bounded loops) or `fix` (unbounded loops) term.
"""
import signal
import time
import terms as X
from terms import T, TRUE, FALSE, UNIT, ABSENT, ZERO, ONE, INF, Abort
import machine as M
from machine import St, MRef, obj, unk, Undecided

DROP = X.mk('drop')


class Soft(BaseException):
    pass


OVER = object()
SOLVE_LIMIT = 6


def limited(sec, f):
    """f(), or OVER when it takes longer; a stricter limit already running stays in force"""
    left = signal.getitimer(signal.ITIMER_REAL)[0]
    if left and left <= sec + 1:
        return f()
    t0 = time.time()
    C = X.C
    keep = C.facts, C.steps, set(C.subbing), C.strict_float, C.ordered, C.weak

    def over(sig, fr):
        raise Soft()
    old = signal.signal(signal.SIGALRM, over)
    try:
        try:
            signal.setitimer(signal.ITIMER_REAL, sec)
            return f()
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except Soft:
        C.facts, C.steps, C.subbing, C.strict_float, C.ordered, C.weak = keep
        return OVER
    finally:
        signal.signal(signal.SIGALRM, old)
        if left:
            signal.setitimer(signal.ITIMER_REAL, max(left - (time.time() - t0), 0.01))

# ------------------------------------------------------------------ shapes


def shape(v):
    if v is ABSENT or (v.op == 'unk' and v.a[1] == 'uninit'):
        return None
    op = v.op
    if op == 'rec':
        return ('rec', v.a[0], tuple((n, shape(x)) for n, x in v.a[1]))
    if op == 'enum':
        return ('enum', v.a[0], tuple(None if p is ABSENT else tuple((n, shape(x)) for n, x in p.a[1]) for p in v.a[2]))
    if op == 'list':
        if not v.a:
            return ('arr0',)
        return ('list', tuple(shape(x) for x in v.a))
    if op == 'comp':
        w, b = X.open_lam(v.a[1], v.a[0])
        return ('arr', v.a[0], shape(b))
    if op in ('obj', 'ord', 'fnref'):
        return ('const', v)
    s = X.sort(v)
    if isinstance(s, tuple) and s[0] == 'arr':
        w = X.fresh('i')
        n = X.length(v)
        X.C.range[w] = n
        return ('arr', n, shape(X.index(v, w)))
    if isinstance(s, tuple) and s[0] == 'tup':
        return ('rec', 'tup', tuple((str(i), shape(X.field(v, str(i)))) for i in range(len(s) - 1)))
    return ('sc', s)


RK = {'i': 0, 'z': 1, 'r': 2}


def sjoin(a, b):
    if a == b or b is None:
        return a
    if a is None:
        return b
    if a[0] == 'sc' and b[0] == 'sc':
        if a[1] in RK and b[1] in RK:
            return a if RK[a[1]] >= RK[b[1]] else b
        return ('sc', 'o')
    if a[0] == 'sc' and b[0] in ('rec', 'enum', 'arr', 'list'):
        return b
    if b[0] == 'sc' and a[0] in ('rec', 'enum', 'arr', 'list'):
        return a
    if a[0] == 'rec' and b[0] == 'rec' and [n for n, _ in a[2]] == [n for n, _ in b[2]]:
        return ('rec', a[1], tuple((n, sjoin(x, y)) for (n, x), (_, y) in zip(a[2], b[2])))
    if a[0] == 'enum' and b[0] == 'enum':
        out = []
        for p, q in zip(a[2], b[2]):
            if p is None or q is None:
                out.append(p or q)
            else:
                out.append(tuple((n, sjoin(x, y)) for (n, x), (_, y) in zip(p, q)))
        return ('enum', a[1], tuple(out))
    seq = ('arr', 'list', 'arr0')
    if a[0] in seq and b[0] in seq:
        if a[0] == 'list' and b[0] == 'list' and len(a[1]) == len(b[1]):
            return ('list', tuple(sjoin(x, y) for x, y in zip(a[1], b[1])))
        es = None
        for s in (a, b):
            if s[0] == 'arr':
                es = sjoin(es, s[2])
            elif s[0] == 'list':
                for x in s[1]:
                    es = sjoin(es, x)
        if a[0] == 'arr' and b[0] == 'arr' and a[1] is b[1]:
            return ('arr', a[1], es)
        return ('arr', None, es)
    return ('sc', 'o')


class Leaf:
    def __init__(self, name, sort, idx, lens=None):
        self.name, self.sort, self.idx = name, sort, idx
        self.lenleaf = lens

    def x(self):
        return X.mk('st', self.sort, self.name, *self.idx)


def build(sh, name, idx):
    """symbolic value of shape sh"""
    if sh is None:
        return ABSENT
    k = sh[0]
    if k == 'sc':
        return X.mk('st', sh[1], name, *idx)
    if k == 'const':
        return sh[1]
    if k == 'rec':
        return X.mk('rec', sh[1], tuple((n, build(s, name + '.' + n, idx)) for n, s in sh[2]))
    if k == 'enum':
        return X.mk_enum(sh[1], X.mk('st', 'i', name + '#tag', *idx),
                         [ABSENT if p is None else X.mk('rec', 'v', tuple((n, build(s, '%s#%d.%s' % (name, i, n), idx)) for n, s in p))
                          for i, p in enumerate(sh[2])])
    if k == 'list':
        return X.mk('list', *[build(s, '%s[%d]' % (name, i), idx) for i, s in enumerate(sh[1])])
    if k == 'arr0':
        return X.mk('list')
    if k == 'arr':
        n = sh[1] if sh[1] is not None else X.mk('st', 'i', name + '#len', *idx)
        v = X.fresh('i')
        X.C.range[v] = n
        return X.mk('comp', n, X.mk_lam(v, build(sh[2], name + '[]', idx + (v,))))
    raise Abort('shape')


def walk(sh, name, idx, vals, out, lens=None):
    """collect (Leaf, [component of each value])"""
    if sh is None:
        return
    k = sh[0]
    if k == 'sc':
        out.append((Leaf(name, sh[1], idx, lens), vals))
    elif k == 'const':
        return
    elif k == 'rec':
        for n, s in sh[2]:
            walk(s, name + '.' + n, idx, [v if v is ABSENT else X.field(v, n) for v in vals], out, lens)
    elif k == 'enum':
        out.append((Leaf(name + '#tag', 'i', idx, lens), [v if v is ABSENT else X.tag(v) for v in vals]))
        for i, p in enumerate(sh[2]):
            for n, s in p or ():
                walk(s, '%s#%d.%s' % (name, i, n), idx,
                     [v if v is ABSENT else X.payload(v, i, n, s[1] if s and s[0] == 'sc' else 'o') for v in vals], out, lens)
    elif k == 'list':
        for i, s in enumerate(sh[1]):
            walk(s, '%s[%d]' % (name, i), idx, [v if v is ABSENT else X.index(v, X.num(i)) for v in vals], out, lens)
    elif k == 'arr':
        w = X.fresh('i')
        ll = lens
        if sh[1] is None:
            L = Leaf(name + '#len', 'i', idx, None)
            out.append((L, [v if v is ABSENT else X.length(v) for v in vals]))
            ll = (L.name, idx, w)
        else:
            X.C.range[w] = sh[1]
        walk(sh[2], name + '[]', idx + (w,), [v if v is ABSENT else X.index(v, w) for v in vals], out, ll)


def walk_fix(v):
    return v


# ------------------------------------------------------------------ state symbols in terms
_names = {}


def stnames(t):
    r = _names.get(t)
    if r is None:
        s = frozenset()
        if t.op == 'st' or (t.op == 'app' and isinstance(t.a[1], str) and t.a[1].startswith('§')):
            s = frozenset([t.a[1]])
        for c in X._walk(t.a):
            s = s | stnames(c)
        r = _names[t] = s
    return r


def apply_sol(t, sol, memo=None):
    """replace solved state symbols by their solutions; sol: name -> function(idx tuple) -> term"""
    memo = {} if memo is None else memo
    keys = frozenset(sol)

    def f(t):
        r = memo.get(t)
        if r is not None:
            return r
        if not (stnames(t) & keys):
            r = t
        elif t.op == 'st' and t.a[1] in sol:
            r = sol[t.a[1]](tuple(f(x) for x in t.a[2:]))
        else:
            r = X.rebuild(t, f)
        memo[t] = r
        return r
    return f(t)


class Solver:
    def __init__(self, K, pref, n=None):
        """K: the iteration a body runs in (0 <= K < n); J: a number of completed iterations (0 <= J <= n)"""
        self.K = K
        self.J = X.fresh('i', 'J')
        if n is not None and n is not INF:
            X.C.range[self.J] = X.add(n, ONE)
        self.pref = pref
        self.sol = {}       # name -> (idxvars, term in J and idxvars)
        self.pending = {}
        self.fold_used = False
        self.cases = 0

    def deps(self, t):
        return {n for n in stnames(t) if n.startswith(self.pref)}

    def fn(self, name, k):
        idx, term = self.sol[name]

        def g(args):
            mp = {self.J: k}
            mp.update(zip(idx, args))
            mp = {a: b for a, b in mp.items() if a is not b}
            return X.subst(term, mp) if mp else term
        return g

    def at(self, t, k):
        """state-dependent term t (in K and S) at iteration k"""
        ns = self.deps(t)
        if any(n not in self.sol for n in ns):
            raise Abort('unsolved state')
        if k is self.K or self.K not in t.fv:
            return apply_sol(t, {n: self.fn(n, k) for n in ns}) if ns else t
        # t belongs to an iteration
        t2 = apply_sol(t, {n: self.fn(n, self.K) for n in ns}) if ns else t
        return X.subst(t2, {self.K: k})

    def reduce(self, t, k=None):
        ns = [n for n in self.deps(t) if n in self.sol]
        return apply_sol(t, {n: self.fn(n, k or self.K) for n in ns}) if ns else t

    # eqs: list of (Leaf, F, init)
    def solve(self, eqs, allow_fold=True, plain=False):
        pend = {l.name: [l, X.rename(F, {self.K: self.J}) if F is not ABSENT else F, init] for l, F, init in eqs}
        self.pending = pend
        progress = True

        def again():
            # classified solutions do not fit together: keep the larger recurrences as they are
            for l2, _, _ in eqs:
                self.sol.pop(l2.name, None)
            X.C.coarse = X.C.cut = True
            return self.solve(eqs, allow_fold, True)
        while pend:
            progress = False
            for name in list(pend):
                l, F, init = pend[name]
                F2 = limited(SOLVE_LIMIT, lambda: self.reduce(F, self.J))
                if F2 is OVER:
                    if plain or not allow_fold:
                        raise Undecided('loop state too large')
                    return again()
                F = F2
                pend[name][1] = F
                d = self.deps(F)
                if not d <= {name} or plain and F.sz > 300:
                    continue
                r = limited(SOLVE_LIMIT, lambda: self.solve1(l, F, init))
                if r is OVER and allow_fold and not plain:
                    return again()
                if r is not None and r is not OVER and not (plain and r.sz > 600):
                    self.sol[name] = (l.idx, r)
                    del pend[name]
                    progress = True
            if progress:
                continue
            for name in list(pend):
                if name in pend and not plain:
                    r = limited(SOLVE_LIMIT, lambda: self.best_of(name, pend))
                    if r is OVER:
                        if not allow_fold:
                            raise Undecided('loop state too large')
                        return again()
                    if r:
                        progress = True
            if progress:
                continue
            if not allow_fold:
                return False
            self.fold(pend)
        return True

    def solve1(self, l, F, init):
        K, x = self.J, l.x()
        if F is x or F is ABSENT:
            return init
        if l.name not in stnames(F):
            if init is ABSENT:
                return X.subst(F, {K: X.sub(K, ONE)})
            prev = X.subst(F, {K: X.sub(K, ONE)})
            if init is prev:
                return init
            if X.subst(F, {K: X.sub(K, ONE)}) is F:
                return X.ite(X.eqz(K), init, F)
            return X.ite(X.eqz(K), init, prev)
        if l.sort == 's':
            r = self.strings(l, F, init)
            if r is not None or F.op == 'cat':
                return r
        if l.sort == 'b':
            return self.boolean(l, F, init)
        if l.sort in ('i', 'z', 'r'):
            D = X.sub(F, x)
            if l.name not in stnames(D):
                v = X.fresh('i', 'k')
                X.C.range[v] = K
                s = X.sum_body(K, v, X.subst(D, {K: v}))
                return s if init is ABSENT else X.add(init, s)
        r = self.guarded(l, F, init)
        return r if r is not None or F.op != 'ite' else self.by_case(l, F, init)

    def by_case(self, l, F, init):
        """the recurrence under each outcome of a condition no iteration changes"""
        if self.cases > 3:
            return None
        for a in X.tree_atoms(F):
            if self.J in a.fv or stnames(a):
                continue
            self.cases += 1
            try:
                out = []
                for v in (True, False):
                    F2 = X.prune(X.restrict(F, a, v), ((a, v),))
                    r = self.solve1(l, F2, init)
                    if r is None:
                        return None
                    out.append(r)
                return X.ite(a, *out)
            finally:
                self.cases -= 1
        return None

    def strings(self, l, F, init):
        x = l.x()
        if F.op == 'cat' and F.a[0] is x and not any(l.name in stnames(p) for p in F.a[1:]):
            v = X.fresh('i', 'k')
            X.C.range[v] = self.J
            rest = X.cat(*F.a[1:])
            return X.cat(init, X.mk('app', 's', 'cats', self.J, X.mk_lam(v, X.subst(rest, {self.J: v}))))
        return None

    def boolean(self, l, F, init):
        K, x = self.J, l.x()
        f1, f0 = X.restrict(X._asite(F), x, True), X.restrict(X._asite(F), x, False)
        if l.name in stnames(f1) or l.name in stnames(f0):
            return None
        v = X.fresh('i', 'k')
        X.C.range[v] = K
        i0 = FALSE if init is ABSENT else init
        if f1 is TRUE:
            return X.or_(i0, X.exists_body(K, v, X.subst(f0, {K: v})))
        if f0 is FALSE:
            return X.and_(i0, X.not_(X.exists_body(K, v, X.not_(X.subst(f1, {K: v})))))
        toggles = X.and_(X.not_(f1), f0)
        if toggles is FALSE:
            g = X.or_(X.and_(f1, f0), X.and_(X.not_(f1), X.not_(f0)))
            return self.glast(l, g, f0, i0)
        return None

    def guarded(self, l, F, init):
        x = l.x()
        g, V = split_guard(F, x)
        if V is DROP:
            return None
        if l.name in stnames(V):
            return None if init is ABSENT else self.once(l, g, V, init)
        if l.name in stnames(g):
            return None
        return self.glast(l, g, V, init)

    def once(self, l, g, V, init):
        """a component updated from its own value at no more than one iteration"""
        K, x = self.J, l.x()
        v = X.fresh('i', 'k')
        X.C.range[v] = K
        y = X.fresh(l.sort, 'own')
        gv = X.prune(X.subst(X.subst(g, {K: v}), {x: y}))
        e = X.eq_on(gv, v)
        if not e or X.restrict(gv, e[0], False) is not FALSE:
            return None
        a, ex = e
        g2 = X.subst(X.subst(X.restrict(gv, a, True), {v: ex}), {x: y})
        V2 = X.subst(X.subst(V, {K: ex}), {x: y})
        if l.name in stnames(g2) or l.name in stnames(V2):
            return None
        hit = X.and_(X.in_range(ex, K), X.subst(g2, {y: init}))
        return X.ite(hit, X.subst(V2, {y: init}), init)

    def glast(self, l, g, V, init):
        """value last written under g"""
        K = self.J
        # append
        if l.lenleaf and l.lenleaf[0] in self.sol:
            ln, lidx, j = l.lenleaf
            if j is l.idx[-1] or j in l.idx:
                iv, lt_ = self.sol[ln]
                L = X.subst(lt_, dict(zip(iv, lidx))) if iv else lt_
                L1 = X.subst(L, {K: X.add(K, ONE)})
                D = X.sub(L1, L)
                c = None
                if D is ONE:
                    c = TRUE
                elif D.op == 'ite' and set(X.leaves(D)) <= {ZERO, ONE}:
                    c = X.map_leaves(D, lambda q: X.boolT(q is ONE))
                if c is not None:
                    want = X.and_(c, X.le(L, j))
                    want2 = X.and_(c, X.eqz(X.sub(L, j)))
                    if any(g is w or X.prune(g) is X.prune(w) for w in (want, want2)):
                        L0 = X.subst(L, {K: ZERO})
                        w = X.fresh('i', 'k')
                        X.C.range[w] = K
                        pos = X.nth_body(K, w, X.subst(c, {K: w}), X.sub(j, L0))
                        val = X.subst(V, {K: pos})
                        if init is ABSENT or L0 is ZERO:
                            return val
                        return X.ite(X.lt(j, L0), init, val)
        v = X.fresh('i', 'k')
        X.C.range[v] = K
        gv, Vv = X.prune(X.subst(g, {K: v})), X.subst(V, {K: v})
        e = X.eq_on(gv, v)
        if e:
            a, ex = e
            if X.restrict(gv, a, False) is FALSE:
                hit = X.and_(X.in_range(ex, K), X.subst(X.restrict(gv, a, True), {v: ex}))
                return X.ite(hit, X.subst(Vv, {v: ex}), init)
        E = X.exists_body(K, v, gv)
        if v not in Vv.fv:
            return Vv if init is ABSENT else X.ite(E, Vv, init)
        i = X.argmin_body(K, v, gv, ZERO, True)
        val = X.subst(Vv, {v: i})
        return val if init is ABSENT else X.ite(E, val, init)

    # -------------------------------------------------------------- best-of
    def best_of(self, name, pend):
        l, F, init = pend[name]
        if l.sort not in ('i', 'z', 'r'):
            return False
        x, K = l.x(), self.J
        c, V = split_guard(F, x)
        if V is DROP:
            return False
        if self.deps(V):
            return False
        if name in stnames(c):
            r = self.best_value(l, c, V, init, pend) or self.best_index(l, c, V, init, pend)
            if r:
                return True
        return False

    def followers(self, c, pend, skip=()):
        out = []
        for n2, (l2, F2, i2) in list(pend.items()):
            c2, W = split_guard(F2, l2.x())
            if W is DROP or self.deps(W):
                continue
            if c2 is c:
                out.append((l2, W, i2))
        return out

    def flagged(self, l, c, pend):
        """the condition for taking a new best, once something was taken (c1) and before (c0), when other states tell which"""
        others = self.deps(c) - {l.name}
        flags = []
        c1, c0 = c, None
        for n in others:
            if n not in pend:
                return None
            l2, F2, i2 = pend[n]
            cc, W = split_guard(F2, l2.x())
            if cc is not c:
                # boolean flag: F = c or x
                if l2.sort == 'b' and i2 is FALSE:
                    f0 = X.restrict(X._asite(F2), l2.x(), False)
                    if X.restrict(X._asite(F2), l2.x(), True) is TRUE and f0 is X.restrict(c, l2.x(), False):
                        flags.append((l2, TRUE, FALSE))
                        c0 = X.restrict(c0 if c0 is not None else c, l2.x(), False)
                        c1 = X.restrict(c1, l2.x(), True)
                        continue
                # the same with the tag of an option: once set it stays
                if l2.sort in ('i', 'z') and i2.op == 'num':
                    Ws = {y for y in X.leaves(X._asite(F2)) if y.op == 'num' and y is not i2}
                    W = Ws.pop() if len(Ws) == 1 else None
                    if W is not None and X.subst(F2, {l2.x(): W}) is W:
                        f0 = X.subst(c0 if c0 is not None else c, {l2.x(): i2})
                        if X.subst(F2, {l2.x(): i2}) is X.ite(f0, W, i2):
                            flags.append((l2, W, i2))
                            c0 = f0
                            c1 = X.subst(c1, {l2.x(): W})
                            continue
                return None
            if W.op not in ('num', 'true', 'false') or i2.op not in ('num', 'true', 'false') or W is i2:
                return None
            flags.append((l2, W, i2))
            if l2.sort == 'b':
                c0 = X.restrict(c0 if c0 is not None else c, l2.x(), W is not TRUE)
                c1 = X.restrict(c1, l2.x(), W is TRUE)
            else:
                c0 = X.subst(c0 if c0 is not None else c, {l2.x(): i2})
                c1 = X.subst(c1, {l2.x(): W})
        return flags, c1, c0

    def best_value(self, l, c, V, init, pend):
        K, x = self.J, l.x()
        fl = self.flagged(l, c, pend)
        if fl is None:
            return False
        flags, c1, c0 = fl
        res = None
        for mx in (False, True):
            G = X.subst(c1, {x: X.neg(INF) if mx else INF})
            if self.deps(G):
                continue
            for strict in (True, False):
                op = {(False, True): X.lt, (False, False): X.le, (True, True): X.gt, (True, False): X.ge}[(mx, strict)]
                if same_cond(c1, X.and_(G, op(V, x))):
                    res = (mx, strict, G, op)
                    break
            if res:
                break
        if not res:
            return False
        mx, strict, G, op = res
        base = init
        if flags and c0 is not None and not same_cond(c0, G):
            # the first one taken has to beat a fixed value
            base = beaten(c0, G, V, op, K)
            if base is None:
                return False
        v = X.fresh('i', 'k')
        X.C.range[v] = K
        Gv, Vv = X.subst(G, {K: v}), X.subst(V, {K: v})
        foll = self.followers(c, pend)
        extreme = INF if not mx else X.neg(INF)
        lim = (init is extreme or init is ABSENT or bool(flags) or is_extreme(init, mx)) and base is init
        key = X.neg(Vv) if mx else Vv
        if not lim and base is init and X.subst(Vv, {v: ZERO}) is init and all(X.subst(W, {K: ZERO}) is i2 for _, W, i2 in foll):
            g2 = X.prune(X.or_(X.eqz(v), Gv))
            i = X.argmin_body(K, v, g2, key, not strict)
            for l2, W, i2 in foll:
                self.sol[l2.name] = (l2.idx, X.ite(X.eqz(K), i2, X.subst(W, {K: i})))
                del pend[l2.name]
            return True
        E = X.exists_body(K, v, Gv if lim else X.and_(Gv, op(Vv, base)))
        i = X.argmin_body(K, v, Gv, key, not strict)
        done = set()
        for l2, W, i2 in foll:
            val = X.subst(W, {K: i})
            self.sol[l2.name] = (l2.idx, val if i2 is ABSENT else X.ite(E, val, i2))
            del pend[l2.name]
            done.add(l2.name)
        for l2, W, i2 in flags:
            if l2.name not in done:
                self.sol[l2.name] = (l2.idx, X.ite(E, W, i2))
                del pend[l2.name]
        return True

    def best_index(self, l, c, V, init, pend):
        K, x = self.J, l.x()
        if V is not K:
            return False
        flags, c0, c_all = [], None, c
        if self.deps(c) != {l.name} or init is ABSENT:
            fl = self.flagged(l, c, pend)
            if not fl or not fl[0]:
                return False
            flags, c, c0 = fl
            if self.deps(c) != {l.name}:
                return False
        elif init is not ZERO:
            return False
        for a in X.tree_atoms(c):
            if a.op != 'pos' or l.name not in stnames(a):
                continue
            p = X.P(a.a[0])
            ip = X.unP({m: q for m, q in p.items() if any(l.name in stnames(y) for y, _ in m)})
            kp = X.sub(a.a[0], ip)
            off = X.add(X.subst(ip, {x: K}), kp)
            loose = off is ONE and X.isint(a.a[0])      # a > 0 is a + 1 > 1: equal ones count on the other side
            if off is not ZERO and not loose:
                continue
            G1, G0 = X.restrict(c, a, True), X.restrict(c, a, False)
            v = X.fresh('i', 'k')
            X.C.range[v] = K
            if G0 is FALSE and not self.deps(G1):
                G, key, lst = G1, X.subst(ip, {x: v}), loose     # ip(I)-ip(K) > 0: smaller ip wins
            elif G1 is FALSE and not self.deps(G0):
                G, key, lst = G0, X.neg(X.subst(ip, {x: v})), not loose
            else:
                continue
            if flags:
                # taken the first time under c0: any, or one that beats a fixed value
                Gk, keyk = G, X.subst(key, {v: K})
                if not same_cond(c0, Gk) and beaten(c0, Gk, keyk, X.le if lst else X.lt, K) is None:
                    return False
                g2 = X.prune(X.subst(c0, {K: v}))
                E = X.exists_body(K, v, g2)
                i = X.argmin_body(K, v, X.prune(X.subst(G, {K: v})), key, lst)
                for l2, W, i2 in self.followers(c_all, pend):
                    val = X.subst(W, {K: i})
                    self.sol[l2.name] = (l2.idx, val if i2 is ABSENT else X.ite(E, val, i2))
                    del pend[l2.name]
                for l2, W, i2 in flags:
                    if l2.name in pend:
                        self.sol[l2.name] = (l2.idx, X.ite(E, W, i2))
                        del pend[l2.name]
                return True
            g2 = X.prune(X.or_(X.eqz(v), X.subst(G, {K: v})))
            i = X.argmin_body(K, v, g2, key, lst)
            foll = self.followers(c, pend)
            E = None
            for l2, W, i2 in foll:
                if X.subst(W, {K: ZERO}) is i2:
                    self.sol[l2.name] = (l2.idx, X.ite(X.eqz(K), i2, X.subst(W, {K: i})))
                else:
                    self.sol[l2.name] = (l2.idx, X.ite(X.eqz(i), i2, X.subst(W, {K: i})))
                del pend[l2.name]
            return True
        return False

    # -------------------------------------------------------------- general recurrences
    def sccs(self, pend):
        reach = {}
        for n in pend:
            seen, todo = set(), [n]
            while todo:
                m = todo.pop()
                for d in self.deps(pend[m][1]):
                    if d in pend and d not in seen:
                        seen.add(d)
                        todo.append(d)
            reach[n] = seen
        best = None
        for n in pend:
            scc = frozenset({m for m in reach[n] if n in reach[m]} | {n})
            if reach[n] <= scc:
                if best is None or len(scc) < len(best):
                    best = scc
        return best

    def fold(self, pend):
        self.fold_used = True
        scc = self.sccs(pend)
        lvl = 0
        for n in scc:
            for m in stnames(pend[n][1]):
                if m.startswith('§'):
                    lvl = max(lvl, int(m[1:].split('.')[0]) + 1)
            for m in stnames(pend[n][2]):
                if m.startswith('§'):
                    lvl = max(lvl, int(m[1:].split('.')[0]) + 1)

        def anon(n, nm):
            l, F, init = pend[n]
            return apply_sol(F, {m: (lambda a, m=m: X.mk('app', pend[m][0].sort, nm(m), *a)) for m in scc})
        order = sorted(scc, key=lambda n: (str(pend[n][0].sort), len(pend[n][0].idx), lamd(self.J, pend[n][0].idx, anon(n, lambda m: '§?')).dg, n))
        num = {m: '§%d.%d' % (lvl, i) for i, m in enumerate(order)}
        bodies = tuple(lamd(self.J, pend[n][0].idx, anon(n, lambda m: num[m])) for n in order)
        inits = tuple(ABSENT if pend[n][2] is ABSENT else lamd(None, pend[n][0].idx, pend[n][2]) for n in order)
        for i, n in enumerate(order):
            l = pend[n][0]
            self.sol[n] = (l.idx, X.mk('fold', l.sort, self.J, bodies, inits, i, *l.idx))
            del pend[n]


def lamd(K, idx, body):
    for v in reversed(idx):
        body = X.mk_lam(v, body)
    if K is not None:
        body = X.mk_lam(K, body)
    return body


def is_extreme(t, mx):
    if t.op != 'num':
        return False
    return t.a[0] < -10**300 if mx else t.a[0] > 10**300


def same_cond(a, b):
    return a is b or X.prune(a) is X.prune(b)


def beaten(c0, G, V, op, K):
    """the fixed value b such that c0 is G and op(V, b)"""
    for a, val in X.conj_lits(c0):
        if a.op != 'pos':
            continue
        for sg in (1, -1):
            p = a.a[0] if sg > 0 else X.neg(a.a[0])
            for off in (ZERO, ONE):
                b = X.sub(X.sub(V, p), off)
                if not b.fv & {K} and not stnames(b) and not X.contains(b, K) and same_cond(c0, X.and_(G, op(V, b))):
                    return b
    return None


def own_alias(t, x, al):
    """undo 'j == e' substitutions inside references to the component's own old value"""
    if t.op != 'ite':
        for a in al:
            if a is not x and X.contains(t, a):
                t = X.subst(t, {a: x})
        return t
    hi, al2 = t.a[1], al
    if t.a[0].op == 'eqz':
        s = X.solve_eq(t.a[0].a[0])
        if s is not None:
            more = {X.subst(a, {s[0]: s[1]}) for a in al if X.contains(a, s[0])}
            al2 = al | more
    h2, l2 = own_alias(hi, x, al2), own_alias(t.a[2], x, al)
    return t if h2 is hi and l2 is t.a[2] else X._ite(t.a[0], h2, l2)


def split_guard(F, x):
    """(condition under which F is not x, value then)"""
    F = own_alias(F, x, frozenset([x]))
    if F.op != 'ite':
        return (FALSE, DROP) if F is x else (TRUE, F)
    c = X.map_leaves(F, lambda l: X.boolT(l is not x))

    def drop(t):
        if t.op == 'ite':
            a, b = drop(t.a[1]), drop(t.a[2])
            if a is DROP:
                return b
            if b is DROP:
                return a
            return X._ite(t.a[0], a, b)
        return DROP if t is x else t
    return c, drop(F)


# ------------------------------------------------------------------ driver
def run_loop(m, st, it, run, labs, sp):
    m.loopno += 1
    no = m.loopno
    fr = m.frames[-1] if m.frames else None
    n = it.n if it is not None else INF
    if it is not None and n.op == 'num' and n.a[0] <= 0:
        return UNIT
    if it is not None and n.op == 'num' and n.a[0] <= 4:
        return unroll(m, st, it, run, labs, int(n.a[0]))
    if n.op == 'ite':
        # fix the trip count first
        v = X.fresh('i', 'N')
        X.C.minv.setdefault(('ub', v), None)
        X.C.minv.pop(('ub', v))
    K = X.fresh('i', 'K')
    if n is not INF:
        X.C.range[K] = n
    pre = dict(st.cells)
    mark = (len(m.panics), len(m.log))
    shapes = {}
    widen = set()
    outer_frames = list(m.frames)
    rc_mark = {k: len(v) for k, v in m.rec_args.items()}
    for rnd in range(10):
        pref = 'L%d.%d.' % (no, rnd)
        del m.panics[mark[0]:]
        del m.log[mark[1]:]
        for k, v in m.rec_args.items():
            del v[rc_mark.get(k, 0):]
        start = dict(pre)
        for c, sh in shapes.items():
            start[c] = build(sh, '%sc%d' % (pref, c), ())
        s = St(dict(start), TRUE)
        saved = save_labels(m)
        for lb in labs:
            fr.labels[lb] = {'break': [], 'continue': []}
        own = {id(fr.labels[lb]) for lb in labs}
        m.outer_pc.append(st.pc)
        try:
            g = it.guard(s, K) if it is not None and it.guard else TRUE
            s.pc = g
            el = it.elem(s, K) if it is not None else None
            run(s, el, K)
        finally:
            m.outer_pc.pop()
            brk, cont = [], []
            for lb in labs:
                d = fr.labels.pop(lb)
                brk += d['break']
                cont += d['continue']
            escapes = restore_labels(m, saved)
        # normal end
        ends = list(cont)
        if not s.dead:
            ends.append((s.pc, s.cells, UNIT))
        exits = [('break', None, pc, cs, v) for pc, cs, v in brk] + escapes
        end = None
        if ends:
            e2 = St()
            m.join_exits(e2, ends)
            end = e2.cells
        changed = False
        allends = ([end] if end is not None else []) + [x[3] for x in exits]
        for cs in allends:
            for c in pre:
                v = cs.get(c)
                if v is not None and v is not start[c] and c not in shapes:
                    shapes[c] = shape(pre[c])
                    changed = True
        for c in list(shapes):
            sh = shapes[c]
            for cs in allends:
                v = cs.get(c)
                if v is not None:
                    sh2 = sjoin(sh, shape(v))
                    if sh2 != sh:
                        sh = sh2
            sh = widen_shape(sh, '%sc%d' % ('', c), widen)
            if sh != shapes[c]:
                shapes[c] = sh
                changed = True
        if changed:
            continue
        # nonnegativity of integer leaves
        if end is not None:
            bad = check_nonneg(shapes, pref, end, pre, widen)
            if bad:
                for c in list(shapes):
                    shapes[c] = widen_shape(shapes[c], 'c%d' % c, widen)
                continue
        break
    else:
        raise Undecided('loop state does not stabilise at %s' % sp)
    return finish(m, st, it, n, K, pref, shapes, pre, end, exits, g, mark, sp, fr)


def widen_shape(sh, name, widen):
    if sh is None:
        return sh
    if sh[0] == 'sc':
        return ('sc', 'z') if sh[1] == 'i' and name in widen else sh
    if sh[0] == 'rec':
        return ('rec', sh[1], tuple((n, widen_shape(s, name + '.' + n, widen)) for n, s in sh[2]))
    if sh[0] == 'enum':
        return ('enum', sh[1], tuple(None if p is None else tuple((n, widen_shape(s, '%s#%d.%s' % (name, i, n), widen)) for n, s in p)
                                     for i, p in enumerate(sh[2])))
    if sh[0] == 'list':
        return ('list', tuple(widen_shape(s, '%s[%d]' % (name, i), widen) for i, s in enumerate(sh[1])))
    if sh[0] == 'arr':
        return ('arr', sh[1], widen_shape(sh[2], name + '[]', widen))
    return sh


def check_nonneg(shapes, pref, end, pre, widen):
    bad = False
    for c, sh in shapes.items():
        out = []
        walk(sh, '%sc%d' % (pref, c), (), [end.get(c, pre[c]), pre[c]], out)
        for l, (F, init) in out:
            if l.sort == 'i' and not l.name.endswith(('#tag', '#len')):
                for t in (F, init):
                    if t is ABSENT:
                        continue
                    ok = all(X.sort(q) == 'i' or q is l.x() or X.prove_ge0(X.P(q), ()) for q in X.leaves(t))
                    if not ok and t.op == 'ite':
                        ok = X.lt(t, ZERO) is FALSE
                    if not ok:
                        nm = l.name[len(pref):]
                        if nm not in widen:
                            widen.add(nm)
                            bad = True
    return bad


def save_labels(m):
    return [(f, len(f.rets), {k: (len(d['break']), len(d['continue'])) for k, d in f.labels.items()}) for f in m.frames]


def restore_labels(m, saved):
    """exits recorded by the body for enclosing constructs; they are removed and returned"""
    out = []
    for f, nr, labs in saved:
        for pc, cs, v in f.rets[nr:]:
            out.append(('ret', (f,), pc, cs, v))
        del f.rets[nr:]
        for k, (nb, nc) in labs.items():
            d = f.labels.get(k)
            if d is None:
                continue
            for pc, cs, v in d['break'][nb:]:
                out.append(('lb', (f, k, 'break'), pc, cs, v))
            for pc, cs, v in d['continue'][nc:]:
                out.append(('lb', (f, k, 'continue'), pc, cs, v))
            del d['break'][nb:]
            del d['continue'][nc:]
    return out


def unroll(m, st, it, run, labs, n):
    fr = m.frames[-1] if m.frames else None
    for lb in labs:
        fr.labels[lb] = {'break': [], 'continue': []}
    brk = []
    for i in range(n):
        k = X.num(i)
        g = it.guard(st, k) if it.guard else TRUE
        if g is FALSE:
            continue
        s = st.fork()
        pc0 = st.pc
        s.pc = X.and_(pc0, g)
        el = it.elem(s, k)
        run(s, el, k)
        cont = []
        for lb in labs:
            cont += fr.labels[lb]['continue']
            brk += fr.labels[lb]['break']
            fr.labels[lb] = {'break': [], 'continue': []}
        ends = list(cont)
        if not s.dead:
            ends.append((s.pc, s.cells, UNIT))
        if not ends:
            s.dead = True
        else:
            e2 = St()
            m.join_exits(e2, ends)
            pcs = FALSE
            for e in ends:
                pcs = X.or_(pcs, e[0])
            s.cells, s.pc, s.dead = e2.cells, pcs, False
        if g is not TRUE:
            o = st.fork()
            o.pc = X.and_(pc0, X.not_(g))
            m.merge(st, g, s, o)
        else:
            st.adopt(s)
        if st.dead:
            break
    for lb in labs:
        fr.labels.pop(lb)
    if brk:
        exits = list(brk)
        if not st.dead:
            exits.append((st.pc, st.cells, UNIT))
        pcs = FALSE
        for e in exits:
            pcs = X.or_(pcs, e[0])
        v = m.join_exits(st, exits)
        st.pc, st.dead = pcs, False
        return v
    return UNIT


def finish(m, st, it, n, K, pref, shapes, pre, end, exits, guard, mark, sp, fr):
    B = FALSE
    for x in exits:
        B = X.or_(B, x[2])
    notB = tuple(X.conj_lits(X.not_(B))) if B is not FALSE else ()
    eqs = []
    if end is None:
        # the body never completes: at most one iteration
        sol = Solver(K, pref, n)
        for c, sh in shapes.items():
            out = []
            walk(sh, '%sc%d' % (pref, c), (), [pre[c]], out)
            for l, (init,) in out:
                sol.sol[l.name] = (l.idx, init)
        return assemble(m, st, n, K, sol, shapes, pre, exits, B, mark, pref, lambda: None)
    for c, sh in shapes.items():
        out = []
        walk(sh, '%sc%d' % (pref, c), (), [end.get(c, pre[c]), pre[c]], out)
        for l, (F, init) in out:
            x = l.x()
            if F is ABSENT:
                F = x
            if guard is not TRUE:
                F = X.ite(guard, F, x)
            if B is not FALSE and F.op == 'ite':
                F = X.prune(F, notB)
            eqs.append((l, F, init))
    sol = Solver(K, pref, n)
    old = X.C.facts
    ok = sol.solve(eqs, allow_fold=n is not INF)
    if not ok and B is not FALSE:
        # the exit condition depends on solved counters only and first holds at a known iteration: a bounded loop
        Br = sol.reduce(B)
        if not sol.deps(Br) and K in Br.fv:
            v = X.fresh('i', 'k')
            E = X.first_body(INF, v, X.subst(Br, {K: v}))
            if not has_first(E):
                X.C.range[sol.J] = X.add(E, ONE)
                ok = sol.solve([(l, F, init) for l, F, init in eqs if l.name not in sol.sol], allow_fold=True)
    if not ok:
        return while_loop(m, st, K, pref, shapes, pre, eqs, exits, B, mark, sp)
    m.loops.append((sp, 'fold' if sol.fold_used else 'solved'))
    return assemble(m, st, n, K, sol, shapes, pre, exits, B, mark, pref, None)


def has_first(t, _memo={}):
    r = _memo.get(t)
    if r is None:
        r = _memo[t] = t.op in ('first', 'unk') or any(has_first(x) for x in X._walk(t.a))
    return r


def solved_value(sh, name, sol, k, idx=()):
    """value of shape sh at iteration k"""
    v = build(sh, name, idx)
    return sol.at(v, k)


def assemble(m, st, n, K, sol, shapes, pre, exits, B, mark, pref, _):
    pc0 = st.pc
    if exits:
        v = X.fresh('i', 'k')
        if n is not INF:
            X.C.range[v] = n
        Bv = sol.at(B, v) if sol.deps(B) or K in B.fv else B
        E = X.first_body(n, v, Bv)
        has = X.exists_body(n, v, Bv) if n is not INF else TRUE
        if E.op == 'first' and n is not INF:
            X.C.minv[('ub', E)] = n
    else:
        if n is INF:
            raise Undecided('loop without exit')
        E, has = n, FALSE
    # panics inside the body
    for i in range(mark[0], len(m.panics)):
        pc, kind, psp, fn = m.panics[i]
        if sol.deps(pc) or K in pc.fv or any(
                isinstance(X.C.range.get(y), T) and (sol.deps(X.C.range[y]) or K in X.C.range[y].fv) for y in pc.fv):
            w = X.fresh('i', 'k')
            if n is not INF:
                X.C.range[w] = n
            try:
                q = sol.at(pc, w)
                for y in sorted(q.fv, key=lambda y: y.dg):
                    ry = X.C.range.get(y)
                    if y is not w and isinstance(ry, T) and (sol.deps(ry) or K in ry.fv):
                        z = X.fresh('i', 'k')
                        X.C.range[z] = sol.at(ry, w)
                        q = X.subst(q, {y: z})
                if exits:
                    q = X.and_(q, X.le(w, E))
                q = X.exists_body(n, w, q) if n is not INF else q
            except Abort:
                q = unk('panic condition', 'b')
            m.panics[i] = (q, kind, psp, fn)
        elif n is not INF and (i >= mark[0]):
            m.panics[i] = (X.and_(pc, X.lt(ZERO, n)), kind, psp, fn)
    for k, lst in m.rec_args.items():
        pass

    def at_exit(t):
        if not sol.deps(t) and K not in t.fv:
            return t
        return sol.at(t, E)

    def cells_at_exit(cs):
        out = dict(pre)
        for c, v in cs.items():
            if c in shapes:
                out[c] = at_exit(v)
            elif c not in pre:
                if v.op != 'obj':
                    try:
                        out[c] = at_exit(v)
                    except Abort:
                        pass
        return out
    outs = []
    gone = FALSE
    for kind, tgt, pc, cs, val in exits:
        p = X.and_(pc0, has, at_exit(pc))
        rec = (p, cells_at_exit(cs), at_exit(val) if val.op != 'obj' else val)
        if kind == 'break':
            outs.append(rec)
        else:
            gone = X.or_(gone, X.and_(has, at_exit(pc)))
            if kind == 'ret':
                tgt[0].rets.append(rec)
            else:
                tgt[0].labels[tgt[1]][tgt[2]].append(rec)
    # normal end
    normal = X.not_(has)
    if n is not INF and normal is not FALSE:
        cells = dict(pre)
        for c, sh in shapes.items():
            cells[c] = solved_value(sh, '%sc%d' % (pref, c), sol, n)
        outs.append((X.and_(pc0, normal), cells, UNIT))
    if not outs:
        st.dead = True
        return UNIT
    val = m.join_exits(st, outs) if True else UNIT
    st.pc = pc0 if gone is FALSE else X.and_(pc0, X.not_(gone))
    st.dead = False
    return val


# ------------------------------------------------------------------ unbounded loops over opaque state
def while_loop(m, st, K, pref, shapes, pre, eqs, exits, B, mark, sp):
    if not exits:
        raise Undecided('loop without exit')
    sol = Solver(K, pref)
    pend = {}
    for l, F, init in eqs:
        if F is l.x():
            sol.sol[l.name] = (l.idx, init)
        else:
            pend[l.name] = (l, F, init)
    red = {}
    for nme, (l, F, init) in pend.items():
        red[nme] = (l, sol.reduce(F), init)
    B = sol.reduce(B)
    if K in B.fv or any(K in F.fv for _, F, _ in red.values()) or any(l.idx for l, _, _ in red.values()):
        raise Undecided('unbounded loop with indexed state at %s' % sp)
    pc0 = st.pc
    m.loops.append((sp, 'fix'))

    def at_exit(t):
        t = sol.reduce(t)
        need = {d for d in (sol.deps(t) | sol.deps(B))}
        while True:
            more = set(need)
            for d in need:
                more |= sol.deps(red[d][1])
            if more == need:
                break
            need = more
        if not sol.deps(t):
            return t
        order = sorted(need, key=lambda d: (str(red[d][0].sort), red[d][0].name))
        vs = {d: X.fresh(red[d][0].sort) for d in order}
        sub = {d: (lambda a, d=d: vs[d]) for d in order}
        s = X.sort(t)
        bt = apply_sol(t, sub)
        bB = apply_sol(B, sub)
        nxt = [apply_sol(red[d][1], sub) for d in order]
        return mk_fix(s, [vs[d] for d in order], X.ite(bB, bt, X.lift(lambda *a: X.mk('rc', s, 'rec', *a), *nxt)),
                      [red[d][2] for d in order])

    def cells_at_exit(cs):
        out = dict(pre)
        for c, v in cs.items():
            if c in shapes:
                out[c] = at_exit_deep(v)
        return out

    def at_exit_deep(v):
        if v.op == 'rec':
            return X.mk_rec(v.a[0], [(n, at_exit_deep(x)) for n, x in v.a[1]])
        if v.op in ('obj', 'fnref'):
            return v
        return at_exit(v)
    outs = []
    kinds = {x[0] == 'break' for x in exits}
    gone = FALSE
    lastkind = exits[-1]
    for i, (kind, tgt, pc, cs, val) in enumerate(exits):
        same = len(kinds) == 1 and (kind == 'break' or all(x[0] == kind and x[1] == tgt for x in exits))
        if same:
            continue
        p = at_exit(pc)
        rec = (X.and_(pc0, p), cells_at_exit(cs), at_exit_deep(val))
        if kind == 'break':
            outs.append(rec)
        else:
            gone = X.or_(gone, p)
            (tgt[0].rets if kind == 'ret' else tgt[0].labels[tgt[1]][tgt[2]]).append(rec)
    if len(kinds) == 1 and all(x[0] == exits[0][0] and x[1] == exits[0][1] for x in exits):
        s2 = St()
        # one joined exit; the joined value is read at the exit iteration
        v = m.join_exits(s2, [(x[2], x[3], x[4]) for x in exits])
        rec = (pc0, cells_at_exit(s2.cells), at_exit_deep(v))
        kind, tgt = exits[0][0], exits[0][1]
        if kind == 'break':
            st.cells = rec[1]
            st.pc, st.dead = pc0, False
            return rec[2]
        (tgt[0].rets if kind == 'ret' else tgt[0].labels[tgt[1]][tgt[2]]).append(rec)
        st.dead = True
        return UNIT
    if not outs:
        st.dead = True
        return UNIT
    v = m.join_exits(st, outs)
    st.pc = X.and_(pc0, X.not_(gone))
    st.dead = False
    return v


def mk_fix(sort, vs, body, inits):
    """least solution f of f(vs) = body (with rc(..) for f), applied to inits"""
    body = X.prune(body)
    if len(vs) == 1:
        # every exit applies the same function to the state: that function of the state the loop ends in
        ends = [l for l in X.leaves(body) if l.op != 'rc']
        if len(ends) == 1 and ends[0] is not vs[0] and vs[0] in ends[0].fv and all(len(l.a) == 3 for l in X.leaves(body) if l.op == 'rc'):
            s = X.sort(vs[0])
            b2 = X.map_leaves(body, lambda l: X.mk('rc', s, *l.a[1:]) if l.op == 'rc' else vs[0])
            return X.subst(ends[0], {vs[0]: mk_fix(s, vs, b2, inits)})
    t = body
    for v in reversed(vs):
        t = X.mk_lam(v, t)
    return X.mk('fix', sort, t, *inits)
