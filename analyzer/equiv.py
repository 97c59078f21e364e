"""Equality of two terms by cases: Shannon expansion on their conditions with the equalities of each case
substituted, and congruence below binders.  Used when the two normal forms differ."""
import time

import terms as X
from terms import T, P, TRUE, FALSE, ZERO, C


class Budget(Exception):
    pass


class Prover:
    def __init__(self, seconds=10, splits=400):
        self.end = time.time() + seconds
        self.left = splits
        self.memo = {}

    def tick(self):
        if time.time() > self.end:
            raise Budget()

    # facts: tuple of (atom, bool), already in force
    def eqv(self, a, b, facts, d=0):
        if a is b:
            return True
        self.tick()
        if d > 12:
            return False
        k = (a, b, facts)
        r = self.memo.get(k)
        if r is None:
            self.memo[k] = False
            r = self.memo[k] = self._eqv(a, b, facts, d)
        return r

    def _eqv(self, a, b, facts, d):
        a, b = X.simp(a, facts), X.simp(b, facts)
        if a is b:
            return True
        if a.op in ('rec', 'enum', 'list', 'comp') or b.op in ('rec', 'enum', 'list', 'comp'):
            return self.agg(a, b, facts, d)
        a1, b1 = X._asite(a), X._asite(b)
        if a1.op == 'ite' or b1.op == 'ite':
            return self.split(a1, b1, facts, d)
        return self.leaf(a, b, facts, d)

    def agg(self, a, b, facts, d):
        if a.op == 'rec' and b.op == 'rec' and a.a[0] == b.a[0] and [n for n, _ in a.a[1]] == [n for n, _ in b.a[1]]:
            return all(self.eqv(x, y, facts, d) for (_, x), (_, y) in zip(a.a[1], b.a[1]))
        if a.op in ('comp', 'list') or b.op in ('comp', 'list'):
            n = X.length(a)
            if not self.eqv(n, X.length(b), facts, d):
                return False
            v = X.fresh('i')
            C.range[v] = n
            return self.eqv(X.index(a, v), X.index(b, v), facts, d + 1)
        if a.op == 'enum' and b.op == 'enum' and a.a[0] == b.a[0] and len(a.a[2]) == len(b.a[2]):
            return self.eqv(a.a[1], b.a[1], facts, d) and all(
                x is y or (x is not X.ABSENT and y is not X.ABSENT and self.eqv(x, y, facts, d))
                for x, y in zip(a.a[2], b.a[2]))
        return False

    def merge(self, xs, ys, b, facts, d):
        """replace in b the opaque terms ys that are provably equal to one of xs"""
        mp = {}
        for y in ys:
            for x in xs:
                if x.op == y.op and x not in mp.values() and self.cong(x, y, facts, d + 1):
                    mp[y] = x
                    break
        return X.subst(b, mp) if mp else None

    def split(self, a, b, facts, d):
        xa, xb = X.tree_atoms(a), X.tree_atoms(b)
        only_a = [x for x in xa if x not in xb]
        only_b = [x for x in xb if x not in xa]
        if only_a and only_b:
            b2 = self.merge([x for x in only_a if x.op in ('exists', 'eqo')],
                            [x for x in only_b if x.op in ('exists', 'eqo')], b, facts, d)
            if b2 is not None:
                return self.eqv(a, b2, facts, d)
        self.left -= 1
        if self.left < 0:
            raise Budget()
        atom = min(list(xa) + list(xb), key=lambda x: x.key)
        for val in (True, False):
            fs = self.assume(facts, atom, val)
            if fs is None:
                continue
            fs, mp = fs
            x = X.restrict(a, atom, val)
            y = X.restrict(b, atom, val)
            if mp:
                x, y = X.subst(x, mp), X.subst(y, mp)
            if not self.eqv(x, y, fs, d):
                return False
        return True

    def assume(self, facts, atom, val):
        """facts and atom=val, or None when contradictory; with the substitution an equality gives"""
        v = X.decide(atom, facts)
        if v is not None:
            return (facts, None) if v == val else None
        mp = None
        if atom.op == 'eqz' and val:
            s = X.solve_eq(atom.a[0])
            if s is not None:
                mp = {s[0]: s[1]}
        out = []
        for f, w in facts:
            if mp and X.contains(f, s[0]):
                g = X.subst(f, mp)
                if g is TRUE or g is FALSE:
                    if (g is TRUE) != w:
                        return None
                    continue
                if X._isatom(g):
                    out.append((g, w))
                else:
                    out.append((f, w))
                    h = X._asite(g)
                    if h.op == 'ite' and h.a[1] is FALSE and h.a[2] is TRUE:
                        out.append((h.a[0], not w))
            else:
                out.append((f, w))
        out.append((atom, val))
        fs = tuple(dict.fromkeys(out))
        for i, (f, w) in enumerate(fs[:-1]):
            if f.op in ('eqz', 'pos'):
                v = X.decide(f, fs[:i] + fs[i + 1:])
                if v is not None and v != w:
                    return None
        return fs, mp

    def leaf(self, a, b, facts, d):
        if a in (TRUE, FALSE) or b in (TRUE, FALSE):
            return False
        num = self.isnum(a) or self.isnum(b)
        if num:
            df = X.sub(a, b)
            if X.prune(X.eqz(df), facts) is TRUE:
                return True
            if df.op == 'ite':
                return False
            da, db = P(a), P(b)
            ta = {x for m in da for x, _ in m}
            tb = {x for m in db for x, _ in m}
            oa = [x for x in ta - tb if x.op not in ('var', 'bv')]
            ob = [x for x in tb - ta if x.op not in ('var', 'bv')]
            oa.sort(key=lambda t: t.dg)
            ob.sort(key=lambda t: t.dg)
            if oa and ob:
                b2 = self.merge(oa, ob, b, facts, d)
                if b2 is not None:
                    return self.eqv(a, b2, facts, d)
            return self.sums(df, facts, d)
        return self.cong(a, b, facts, d)

    def isnum(self, t):
        return t.op in ('num', 'poly', 'sum', 'inv', 'exp', 'abs', 'trunc', 'fn1', 'argmin', 'len', 'first', 'nth', 'perm') or \
            (t.op in ('var', 'app', 'sel', 'fld', 'st') and X.sort(t) in ('i', 'r'))

    def sums(self, df, facts, d):
        """a combination of sums over one domain vanishes when the combined terms do"""
        dd = P(df)
        groups = {}
        for m, c in dd.items():
            s = [(x, e) for x, e in m if x.op == 'sum' and e == 1]
            if len(s) != 1:
                return False
            groups.setdefault(s[0][0].a[0], []).append((m, c, s[0][0]))
        for n, ms in groups.items():
            v = X.fresh('i')
            C.range[v] = n
            body = ZERO
            for m, c, s in ms:
                t = X.inst(s.a[1], v)
                for x, e in m:
                    if x is not s:
                        t = X.mul(t, X.powi(x, e))
                body = X.add(body, X.mul(X.num(c), t))
            if not self.eqv(body, ZERO, facts, d + 1):
                return False
        return True

    def cong(self, x, y, facts, d):
        if x is y:
            return True
        if x.op != y.op or len(x.a) != len(y.a):
            return False
        if d > 12:
            return False
        self.tick()
        if x.op in ('sum', 'exists', 'first'):
            if not self.eqv(x.a[0], y.a[0], facts, d):
                return False
            return self.lams(x.a[0], [(x.a[1], y.a[1])], facts, d)
        if x.op == 'argmin':
            return x.a[3] == y.a[3] and self.eqv(x.a[0], y.a[0], facts, d) and \
                self.lams(x.a[0], [(x.a[1], y.a[1]), (x.a[2], y.a[2])], facts, d)
        if x.op in ('nth', 'perm'):
            if x.op == 'perm' and x.a[2] != y.a[2]:
                return False
            j = 2 if x.op == 'nth' else 3
            return self.eqv(x.a[0], y.a[0], facts, d) and self.lams(x.a[0], [(x.a[1], y.a[1])], facts, d) and \
                self.eqv(x.a[j], y.a[j], facts, d)
        if x.op in ('eqz', 'pos'):
            return False
        if x.op in ('app', 'sel', 'fld', 'inv', 'exp', 'abs', 'trunc', 'fn1', 'len', 'eqo', 'st', 'cat'):
            for p, q in zip(x.a, y.a):
                if isinstance(p, T) != isinstance(q, T):
                    return False
                if isinstance(p, T):
                    if not self.eqv(p, q, facts, d + 1):
                        return False
                elif p != q:
                    return False
            return True
        return False

    def lams(self, n, pairs, facts, d):
        l = pairs[0][0]
        v = X.fresh(l.a[0])
        C.range[v] = n
        return all(self.eqv(X.inst(p, v), X.inst(q, v), facts, d + 1) for p, q in pairs)


def equal(a, b, facts, seconds=10):
    try:
        return Prover(seconds).eqv(a, b, tuple(facts))
    except Budget:
        return False
