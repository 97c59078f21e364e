"""Hash-consed value terms and their normal forms.

A term denotes the value of a program expression as a function of the inputs.  Arithmetic is kept as
Laurent polynomials over atoms (real arithmetic: rounding is abstracted), conditionals as ordered decision
trees over atomic conditions, arrays as comprehensions, loops results as sums / exists / argmin / nth / perm
binders.  Binders are named by height, so alpha-equivalent terms are the same object.
"""
import hashlib, itertools, re, sys
from fractions import Fraction as Fr

sys.setrecursionlimit(20000)


class T:
    __slots__ = ('op', 'a', 'dg', 'fv', 'h', 'unk', 'key', 'sz')

    def __repr__(self):
        return show(self)


_tab = {}
_E = frozenset()


def _walk(a):
    for x in a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            yield from _walk(x)


RANK = {'eqz': 0, 'eqo': 1, 'pos': 2}


_STATE = re.compile(r'L\d+\.\d+\.').match


def mk(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is not None:
        return t
    t = T()
    t.op = op
    t.a = a
    hh = hashlib.blake2b(op.encode(), digest_size=10)

    def feed(x):
        if isinstance(x, T):
            hh.update(b'T' + x.dg)
        elif isinstance(x, tuple):
            hh.update(b'(')
            for y in x:
                feed(y)
            hh.update(b')')
        else:
            hh.update(repr(x).encode() + b';')
    feed(a)
    t.dg = hh.digest()
    fv = _E
    h = 0
    unk = _E
    sz = 1
    for c in _walk(a):
        if c.fv:
            fv = fv | c.fv
        if c.h > h:
            h = c.h
        if c.unk:
            unk = unk | c.unk
        sz += c.sz
    if op == 'var':
        fv = frozenset([t])
    if op == 'lam':
        h = max(h, a[1])
    if op == 'unk':
        unk = unk | frozenset([a[1]])
    elif op == 'st' and isinstance(a[1], str) and _STATE(a[1]):
        # the state of a loop whose recurrence was not solved: its value is not known
        unk = unk | frozenset(['loop state ' + a[1]])
    t.fv = fv
    t.h = h
    t.unk = unk
    t.sz = sz
    t.key = (RANK.get(op, 3), t.dg)
    _tab[k] = t
    return t


TRUE = mk('true')
FALSE = mk('false')
UNIT = mk('rec', 'tup', ())
ABSENT = mk('absent')
INF = mk('inf')


class Abort(Exception):
    pass


# ---------------------------------------------------------------- context
class Ctx:
    """Assumptions that hold for the whole analysis of one obligation."""
    def __init__(self):
        self.minv = {}       # atom -> assumed minimal value
        self.range = {}      # bound variable -> exclusive upper bound
        self.facts = ()      # ((atom,bool),...) currently assumed
        self.sorted = set()  # names of 'app' functions ascending in their last index
        self.inverse = {}    # name of app injective in its last index -> f(args, value) = (member, index)
        self.ubapp = {}      # app name -> exclusive upper bound
        self.ub_hook = None  # atom -> exclusive upper bound
        self.counts = {}     # (domain, guard) -> declared number of elements with the guard
        self.bijection = {}  # name of app -> f(args) = (domain, codomain bound, guard): onto the guarded values
        self.hooks = {}      # app name -> constructor law
        self.strict_float = False
        self.ordered = ()
        self.weak = None     # reason why equal results prove nothing (a choice was fixed)
        self.field_hook = None
        self.fieldty = None
        self.subbing = set() # equations being substituted
        self.steps = None    # of the outermost pruning
        self.coarse = False  # no pruning: the terms have grown out of reach of proofs, and may only refute
        self.cut = False     # a computation was cut short by the clock: nothing may be refuted
        self.caches = {}

    def clear(self):
        self.caches = {}


C = Ctx()


def reset():
    global C
    c = Ctx()
    C.__dict__.update(c.__dict__)


def cache(name):
    d = C.caches.get((name, C.facts))
    if d is None:
        d = C.caches[(name, C.facts)] = {}
    return d


_ctr = itertools.count()


def fresh(ty='i', pre='~'):
    return mk('var', ty, '%s%d' % (pre, next(_ctr)))


def var(name, ty='i'):
    return mk('var', ty, name)


def num(c):
    return mk('num', Fr(c))


ZERO = num(0)
ONE = num(1)


def boolT(b):
    return TRUE if b else FALSE


# ---------------------------------------------------------------- sorts
def sort(t):
    op = t.op
    if op in ('var', 'bv', 'sel', 'fld', 'app', 'st', 'rc', 'unk', 'fold'):
        return t.a[0]
    if op == 'num':
        return ('i' if t.a[0] >= 0 else 'z') if t.a[0].denominator == 1 else 'r'
    if op == 'poly':
        return 'z' if isint(t) else 'r'
    if op in ('true', 'false', 'pos', 'eqz', 'eqo', 'exists'):
        return 'b'
    if op == 'ite':
        s = sort(t.a[1])
        if s in ('i', 'z') and sort(t.a[2]) == 'r':
            return 'r'
        return s
    if op in ('len', 'argmin', 'nth', 'perm', 'first'):
        return 'i'
    if op == 'sum':
        s = sort(t.a[1].a[2])
        return s
    if op == 'abs':
        return 'i' if isint(t.a[0]) else 'r'
    if op == 'trunc':
        return 'z'
    if op in ('inv', 'exp', 'inf', 'fn1'):
        return 'r'
    if op in ('str', 'cat'):
        return 's'
    if op == 'rec':
        return ('adt', t.a[0]) if t.a[0] != 'tup' else ('tup',) + tuple(sort(x) for _, x in t.a[1])
    if op in ('comp',):
        return ('arr', sort(t.a[1].a[2]))
    if op == 'list':
        return ('arr', sort(t.a[0]) if t.a else 'o')
    if op == 'enum':
        return ('adt', t.a[0])
    if op == 'while':
        return sort(t.a[0])
    if op == 'fix':
        return t.a[0]
    return 'o'


def isint(t):
    if t.op == 'poly':
        for m, c in t.a:
            if c.denominator != 1:
                return False
            for x, e in m:
                if e < 0 or sort(x) not in ('i', 'z'):
                    return False
        return True
    if t.op == 'ite':
        return isint(t.a[1]) and isint(t.a[2])
    return sort(t) in ('i', 'z')


def isbool(t):
    return sort(t) == 'b'


# ---------------------------------------------------------------- polynomials
def P(t):
    if t.op == 'num':
        return {(): t.a[0]} if t.a[0] else {}
    if t.op == 'poly':
        return dict(t.a)
    return {((t, 1),): Fr(1)}


def _mk(m):
    return tuple((x.dg, e) for x, e in m)


def unP(d):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return ZERO
    for m, c in d.items():
        for x, e in m:
            if x is INF:
                sgn = 1 if c > 0 else -1
                return mk('poly', (((INF, 1),), Fr(sgn))) if sgn < 0 else INF
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return mk('poly', *sorted(d.items(), key=lambda x: _mk(x[0])))


def mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for x, e in m2:
        d[x] = d.get(x, 0) + e
    return tuple(sorted(((x, e) for x, e in d.items() if e), key=lambda y: y[0].dg))


def _lm(q):
    """leading monomial of a poly dict: inputs last, since they also occur in denominators (1/n)"""
    return max(q, key=lambda m: (sum(e for _, e in m), sum(not _isinput(x) for x, _ in m), _mk(m)))


def _isinput(x):
    return x.op == 'var' and x.a[1][0] not in '~k' or x.op == 'app' and all(y.op == 'var' and _isinput(y) for y in _walk(x.a))


def _reduce(d):
    """apply q*inv(q)=1 and inv(q)^-1=q"""
    work = dict(d)
    out = {}
    n = 0
    while work:
        n += 1
        if n > 4000:
            raise Abort('poly too large')
        m, c = work.popitem()
        if not c:
            continue
        done = False
        for x, e in m:
            if x.op == 'inv':
                q = P(x.a[0])
                if e < 0:
                    rest = mmul(m, ((x, 1),))
                    for m2, c2 in q.items():
                        mm = mmul(rest, m2)
                        work[mm] = work.get(mm, 0) + c * c2
                    done = True
                    break
                lm = _lm(q)
                if not lm:
                    continue
                md = dict(m)
                if all(md.get(y, 0) >= f for y, f in lm):
                    # LM*inv = (1 - (q-LM*lc)*inv)/lc
                    base = mmul(m, tuple((y, -f) for y, f in lm))
                    lc = q[lm]
                    b1 = mmul(base, ((x, -1),))
                    work[b1] = work.get(b1, 0) + c / lc
                    for m2, c2 in q.items():
                        if m2 != lm:
                            mm = mmul(base, m2)
                            work[mm] = work.get(mm, 0) - c * c2 / lc
                    done = True
                    break
        if not done:
            out[m] = out.get(m, 0) + c
    return out


def _hasinv(d):
    return any(x.op == 'inv' for m in d for x, _ in m)


def padd(a, b, k=1):
    d = dict(a)
    for m, c in b.items():
        d[m] = d.get(m, 0) + k * c
    return d


def pmul(a, b):
    d = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mmul(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    if _hasinv(d):
        d = _reduce(d)
    return d


def add_(a, b):
    return unP(padd(P(a), P(b)))


def mul_(a, b):
    return squares(pmul(P(a), P(b)))


def squares(d):
    """the square of an absolute value is the square of the value"""
    if not any(x.op == 'abs' and e > 1 for m in d for x, e in m):
        return unP(d)
    out = {}
    for m, c in d.items():
        r = {tuple((x, e % 2 if x.op == 'abs' and e > 1 else e) for x, e in m if not (x.op == 'abs' and e > 1 and e % 2 == 0)): c}
        for x, e in m:
            if x.op == 'abs' and e > 1:
                q = P(x.a[0])
                for _ in range(e // 2 * 2):
                    r = pmul(r, q)
        for mm, cc in r.items():
            out[mm] = out.get(mm, 0) + cc
    return unP(out)


def lift(f, *ts):
    if not any(t.op == 'ite' for t in ts):
        return f(*ts)
    memo = {}

    def rec(ts):
        r = memo.get(ts)
        if r is not None:
            return r
        top = None
        for t in ts:
            if t.op == 'ite' and (top is None or t.a[0].key < top.key):
                top = t.a[0]
        if top is None:
            r = f(*ts)
        else:
            hi = rec(tuple(t.a[1] if t.op == 'ite' and t.a[0] is top else t for t in ts))
            lo = rec(tuple(t.a[2] if t.op == 'ite' and t.a[0] is top else t for t in ts))
            r = node(top, hi, lo)
        memo[ts] = r
        return r
    r = rec(tuple(ts))
    return prune(r) if r.op == 'ite' else r


AGG = ('comp', 'rec', 'enum', 'list')


def isagg(t):
    return t.op in AGG


def node(atom, hi, lo):
    if hi is lo:
        return hi
    if isagg(hi) or isagg(lo) or hi is ABSENT or lo is ABSENT:
        return ite(atom, hi, lo)
    return _ite(atom, hi, lo)


def add(a, b):
    return lift(add_, a, b)


def mul(a, b):
    return lift(mul_, a, b)


def neg(a):
    return mul(num(-1), a)


def sub(a, b):
    return add(a, neg(b))


def inv(a):
    return lift(inv_, a)


def inv_(t):
    d = P(t)
    if not d:
        return mk('fn1', 'inv0')
    if len(d) == 1:
        (m, c), = d.items()
        if m == ((INF, 1),):
            return ZERO
        return unP(_reduce({tuple((x, -e) for x, e in m): 1 / c}))
    # common monomial factor
    atoms = {}
    for m in d:
        for x, e in m:
            atoms.setdefault(x, []).append(e)
    common = []
    for x, es in atoms.items():
        lo = min(es + ([0] if len(es) < len(d) else []))
        if lo:
            common.append((x, lo))
    common = tuple(sorted(common, key=lambda y: y[0].dg))
    ic = tuple((x, -e) for x, e in common)
    d = {mmul(m, ic): c for m, c in d.items()}
    lc = d[_lm(d)]
    d = {m: c / lc for m, c in d.items()}
    q = mk('inv', unP(d))
    return unP(_reduce({mmul(ic, ((q, 1),)): 1 / lc}))


def div(a, b):
    return mul(a, inv(b))


def powi(a, n):
    if n < 0:
        return powi(inv(a), -n)
    r = ONE
    for _ in range(n):
        r = mul(r, a)
    return r


def exp(a):
    return lift(exp_, a)


def exp_(t):
    d = P(t)
    r = {(): Fr(1)}
    for m, c in d.items():
        if c.denominator == 1:
            r = pmul(r, {((mk('exp', unP({m: Fr(1)})), int(c)),): Fr(1)})
        else:
            r = pmul(r, {((mk('exp', unP({m: c})), 1),): Fr(1)})
    return unP(r)


def abs_(t):
    d = P(t)
    if not d:
        return ZERO
    if len(d) == 1 and () in d:
        return num(abs(d[()]))
    if prove_ge0(d, ()):
        return t
    if d[_lm(d)] < 0:
        d = {m: -c for m, c in d.items()}
    if len(d) == 1:
        (m, c), = d.items()
        return unP({((mk('abs', unP({m: Fr(1)})), 1),): c})
    return mk('abs', unP(d))


def absT(t):
    return lift(abs_, t)


def trunc_(t):
    if t.op == 'num':
        return num(int(t.a[0]))
    if isint(t):
        return t
    return mk('trunc', t)


def fn1(name, t):
    return lift(lambda x: mk('fn1', name, x), t)


# ---------------------------------------------------------------- conditions
def content(d, skip_const=False):
    from math import gcd, lcm
    cs = [c for m, c in d.items() if m or not skip_const]
    if not cs:
        return Fr(1)
    g = 0
    l = 1
    for c in cs:
        g = gcd(g, abs(c.numerator))
        l = lcm(l, c.denominator)
    # gcd of rationals
    g2 = None
    for c in cs:
        n = abs(c) * l
        g2 = int(n) if g2 is None else gcd(g2, int(n))
    return Fr(g2, l)


def pos(t):
    """t > 0"""
    return lift(pos_, t)


def pos_(t):
    if t.op == 'num':
        return boolT(t.a[0] > 0)
    if t is INF:
        return TRUE
    d = P(t)
    if ((INF, 1),) in d:
        return boolT(d[((INF, 1),)] > 0)
    if isint(t):
        g = content(d, True)
        c0 = d.get((), Fr(0))
        e = {m: c / g for m, c in d.items() if m}
        # g*q + c0 >= 1  <=> q + floor((c0-1)/g) + 1 > 0
        k = ((c0 - 1) / g).__floor__() + 1
        if k:
            e[()] = Fr(k)
        if prove_gt0(e, ()):
            return TRUE
        if prove_gt0(padd({(): Fr(1)}, e, -1), ()):
            return FALSE
        r = pos_int_rules(e)
        if r is not None:
            return r
        if prove_ge0(e, ()):
            return _ite(eqz_(unP(e)), FALSE, TRUE)
        lead = min((m for m in e if m), key=_mk)
        if e[lead] > 0:
            return mk('pos', unP(e))
        e = padd({(): Fr(1)}, e, -1)
        if prove_ge0(e, ()):
            return eqz_(unP(e))
        return _ite(mk('pos', unP(e)), FALSE, TRUE)
    g = content(d)
    d = {m: c / g for m, c in d.items()}
    if prove_gt0(d, ()):
        return TRUE
    if prove_ge0({m: -c for m, c in d.items()}, ()):
        return FALSE
    if prove_ge0(d, ()):
        return _ite(eqz_(unP(d)), FALSE, TRUE)
    if not least(d):
        return FALSE
    r = at_boundary(d) if C.sorted else None
    return r if r is not None else mk('pos', unP(d))


def argmins(t):
    cc = cache('argmins')
    r = cc.get(t)
    if r is None:
        s = [t] if t.op == 'argmin' else []
        if t.op in ('poly', 'app', 'exp', 'argmin', 'st', 'fold', 'sel', 'fld', 'inv', 'sum'):
            for x in _walk(t.a):
                for y in argmins(x):
                    if y not in s:
                        s.append(y)
        r = cc[t] = tuple(s)
    return r


def least(d):
    """False when d > 0 would need an entry with a smaller key than the argmin found: d = s*(key(A) - key(j)) + c, s > 0, c <= 0"""
    c0 = d.get((), Fr(0))
    if c0 > 0 or len(d) < 2 or _least[0] >= 2:
        return True
    _least[0] += 1
    try:
        return _least1(d)
    finally:
        _least[0] -= 1


_least = [0]


def _least1(d):
    for m in d:
        for x, _ in m:
            for A in argmins(x):
                n = A.a[0]
                if n.op == 'ite' or n is INF:
                    continue
                v, g = open_lam(A.a[1], n)
                key = inst(A.a[2], v)
                if key.op == 'ite':
                    continue
                kA = P(subst(key, {v: A}))
                if m not in kA:
                    continue
                s = d[m] / kA[m]
                if s <= 0:
                    continue
                rest = {a: b for a, b in padd(d, kA, -s).items() if b and a}
                want = {a: -b / s for a, b in rest.items()}
                if len(want) != len([a for a in P(key) if a]):
                    continue
                for j in _solve_inst(P(key), want, v):
                    if {a: b for a, b in P(subst(key, {v: j})).items() if a} != want or \
                            P(subst(key, {v: j})).get((), 0) != kA.get((), 0):
                        continue
                    dj = P(j)
                    if prune(subst(g, {v: j})) is TRUE and prove_ge0(dj, ()) and prove_gt0(padd(P(n), dj, -1), ()):
                        return False
    return True


def _solve_inst(key, want, v):
    """candidate j with key(j) == want"""
    out = []
    for m in key:
        for x, e in m:
            if x.op in ('app', 'st', 'fold', 'sel') and any(y is v for y in x.a):
                i = [q for q, y in enumerate(x.a) if y is v][0]
                for m2 in want:
                    for y, e2 in m2:
                        if y.op == x.op and len(y.a) == len(x.a) and e2 == e and y.a[i] not in out and \
                                (not isinstance(y.a[1], str) or y.a[1] == x.a[1]):
                            out.append(y.a[i])
    return out


def at_boundary(d):
    """the first element past the prefix where h holds does not satisfy h (element read in range)"""
    for m in d:
        for x, _ in m:
            if x.op != 'app' or x.a[1] not in C.sorted:
                continue
            k = x.a[-1]
            if k.op != 'sum' or not indicator(k.a[1].a[2]):
                continue
            v, b = open_lam(k.a[1], k.a[0])
            h = map_leaves(b, lambda l: boolT(l is ONE))
            if not is_monotone(_ite(h, FALSE, TRUE), v):
                continue
            p, val = (h, True) if h.op == 'pos' else (h.a[0], False)
            q = P(subst(p.a[0], {v: k}))
            g = content(q)
            if unP({a: c / g for a, c in q.items()}) is unP(d):
                return boolT(not val)
    return None


def pos_int_rules(e):
    """rules for e > 0 over the integers"""
    for m, c in e.items():
        if len(m) != 1 or m[0][1] != 1 or abs(c) != 1:
            continue
        x = m[0][0]
        if x.op == 'first' and c == -1:
            # n - first(n,g) > 0  <=>  exists g
            rest = unP({k: q for k, q in e.items() if k != m})
            if rest is x.a[0]:
                v, g = open_lam(x.a[1], x.a[0])
                return exists_body(x.a[0], v, g)
        if x.op == 'sum' and indicator(x.a[1].a[2]):
            # count of a prefix-closed condition h: count > k <=> h(k)  (0 <= k < n)
            rest = {k: q for k, q in e.items() if k != m}
            if c == 1:
                k = unP({a: -q for a, q in rest.items()})            # count - k > 0
            else:
                k = unP(padd(rest, {(): Fr(1)}, -1))                 # k+1 - count > 0  <=> not (count > k)
            if not (prove_ge0(P(k), ()) and prove_gt0(padd(P(x.a[0]), P(k), -1), ())):
                continue
            v, b = open_lam(x.a[1], x.a[0])
            h = map_leaves(b, lambda l: boolT(l is ONE))
            if is_monotone(_ite(h, FALSE, TRUE), v):
                r = subst(h, {v: k})
                return r if c == 1 else _ite(r, FALSE, TRUE)
    return None


def count_zero(d):
    """count == 0 and count == n in terms of exists"""
    if len(d) > 3:
        return None
    for m, c in d.items():
        if len(m) != 1 or m[0][1] != 1 or abs(c) != 1:
            continue
        x = m[0][0]
        if x.op == 'sum' and x.a[0] is not INF and indicator(x.a[1].a[2]):
            rest = unP({k: -q / c for k, q in d.items() if k != m})
            if rest is ZERO or rest is x.a[0]:
                v, b = open_lam(x.a[1], x.a[0])
                full = rest is not ZERO
                h = map_leaves(b, lambda l: boolT((l is ONE) != full))
                return not_(exists_body(x.a[0], v, prune(h)))
    return None


def eqz(t):
    return lift(eqz_, t)


def eqz_(t):
    if t.op == 'num':
        return boolT(t.a[0] == 0)
    d = P(t)
    if t is INF or ((INF, 1),) in d:
        return FALSE
    g = content(d)
    lead = min((m for m in d if m), key=_mk)
    if d[lead] < 0:
        g = -g
    d = {m: c / g for m, c in d.items()}
    for m, c in d.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'first' and abs(c) == 1:
            x = m[0][0]
            rest = unP({k: -q / c for k, q in d.items() if k != m})
            if rest is x.a[0]:
                v, gg = open_lam(x.a[1], x.a[0])
                return not_(exists_body(x.a[0], v, gg))
    if prove_gt0(d, ()) or prove_gt0({m: -c for m, c in d.items()}, ()):
        return FALSE
    r = count_zero(d)
    if r is not None:
        return r
    if len(d) == 1 and () not in d:
        (m, c), = d.items()
        fs = [x for x, e in m if e > 0 and not never0(x)]
        if len(fs) == 1:
            x = fs[0]
            return mk('eqz', x)
        if not fs:
            return FALSE
        r = FALSE
        for x in fs:
            r = or_(r, mk('eqz', x))
        return r
    return mk('eqz', unP(d))


def never0(x):
    if x.op in ('exp', 'inv'):
        return True
    return prove_gt0({((x, 1),): Fr(1)}, ())


def lt(a, b):
    return pos(sub(b, a))


def le(a, b):
    return not_(pos(sub(a, b)))


def gt(a, b):
    return lt(b, a)


def ge(a, b):
    return le(b, a)


def _cof(t, atom, val):
    if t is atom:
        return TRUE if val else FALSE
    if t.op == 'ite' and t.a[0] is atom:
        return t.a[1] if val else t.a[2]
    return t


def _isatom(t):
    return sort(t) == 'b' and t.op not in ('true', 'false', 'ite')


def _asite(t):
    """view a boolean atom used as value"""
    if t.op not in ('ite', 'true', 'false') and t.op in ('pos', 'eqz', 'eqo', 'exists') or \
            (t.op in ('var', 'bv', 'sel', 'fld', 'app', 'st', 'rc', 'unk', 'fold') and t.a[0] == 'b'):
        return mk('ite', t, TRUE, FALSE)
    return t


_ite_memo = {}


def _ite(c, a, b):
    """ordered decision tree of if c then a else b; no theory reasoning"""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    k = (c, a, b)
    r = _ite_memo.get(k)
    if r is not None:
        return r
    ca, aa, ba = _asite(c), _asite(a), _asite(b)
    if ca.op != 'ite':
        raise Abort('condition is not boolean: ' + show(c)[:80])
    top = ca.a[0]
    for t in (aa, ba):
        if t.op == 'ite' and t.a[0].key < top.key:
            top = t.a[0]
    hi = _ite(_cof(c, top, True), _cof(a, top, True), _cof(b, top, True))
    lo = _ite(_cof(c, top, False), _cof(a, top, False), _cof(b, top, False))
    if hi is lo:
        r = hi
    elif hi is TRUE and lo is FALSE:
        r = top
    else:
        r = mk('ite', top, hi, lo)
        if top.op == 'pos' and hi.op in ('poly', 'var', 'sel', 'app', 'bv', 'fld', 'st') and lo.op in ('poly', 'var', 'sel', 'app', 'bv', 'fld', 'st'):
            # |x|
            p = top.a[0]
            s = add_(hi, lo)
            if s is ZERO and not isint(p):
                q = div(hi, p)
                if q.op == 'num':
                    r = mul(q, abs_(p))
    _ite_memo[k] = r
    return r


# the tree root may be a bare boolean atom; normal code treats it via _asite
JOIN_OBJ = [None]


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is ABSENT:
        return b
    if b is ABSENT:
        return a
    if isagg(a) or isagg(b):
        return merge(c, a, b)
    if a.op == 'obj' and b.op == 'obj' and JOIN_OBJ[0] is not None:
        r = JOIN_OBJ[0](c, a, b)
        if r is not None:
            return r
    r = _ite(c, a, b)
    return prune(r) if r.op == 'ite' else r


def merge(c, a, b):
    for x, y in ((a, b), (b, a)):
        if x.op == 'rec' and y.op != 'rec':
            if isagg(y):
                raise Abort('cannot merge %s and %s' % (a.op, b.op))
            y2 = mk_rec(x.a[0], [(n, field(y, n)) for n, _ in x.a[1]])
            return merge(c, x, y2) if x is a else merge(c, y2, x)
        if x.op == 'enum' and y.op != 'enum':
            if isagg(y):
                raise Abort('cannot merge %s and %s' % (a.op, b.op))
            y2 = as_enum(y, x)
            return merge(c, x, y2) if x is a else merge(c, y2, x)
    if a.op == 'list' and b.op == 'list' and len(a.a) == len(b.a):
        return mk('list', *[ite(c, x, y) for x, y in zip(a.a, b.a)])
    if a.op in ('comp', 'list') or b.op in ('comp', 'list'):
        n = ite(c, length(a), length(b))
        v = fresh('i')
        # element may be read under either length
        C.range[v] = n
        return comp_body(n, v, ite(c, index(a, v), index(b, v)))
    if a.op == 'rec' and b.op == 'rec':
        if a.a[0] != b.a[0] or [n for n, _ in a.a[1]] != [n for n, _ in b.a[1]]:
            raise Abort('merge of different records')
        return mk_rec(a.a[0], [(n, ite(c, x, y)) for (n, x), (_, y) in zip(a.a[1], b.a[1])])
    if a.op == 'enum' and b.op == 'enum':
        tag = ite(c, a.a[1], b.a[1])
        return mk_enum(a.a[0], tag, [ite(c, x, y) for x, y in zip(a.a[2], b.a[2])])
    raise Abort('cannot merge %s and %s' % (a.op, b.op))


def not_(a):
    return _ite(a, FALSE, TRUE)


def and_(*xs):
    r = TRUE
    for x in xs:
        r = ite(r, x, FALSE)
    return r


def or_(*xs):
    r = FALSE
    for x in xs:
        r = ite(r, TRUE, x)
    return r


def conj_lits(t):
    """literals implied by the boolean tree t (conjunctive spine)"""
    out = []
    while True:
        t = _asite(t)
        if t.op != 'ite':
            return out
        if t.a[2] is FALSE:
            out.append((t.a[0], True))
            t = t.a[1]
        elif t.a[1] is FALSE:
            out.append((t.a[0], False))
            t = t.a[2]
        else:
            return out


# ---------------------------------------------------------------- entailment
def fact_polys(facts):
    k = ('fp', facts)
    r = C.caches.get(k)
    if r is not None:
        return r
    out = []
    for a, v in facts:
        if a.op == 'pos':
            d = P(a.a[0])
            if v:
                out.append((d, True))
            elif isint(a.a[0]):
                out.append((padd({(): Fr(1)}, d, -1), True))
            else:
                out.append(({m: -c for m, c in d.items()}, False))
        elif a.op == 'eqz':
            d = P(a.a[0])
            if v:
                out.append((d, False))
                out.append(({m: -c for m, c in d.items()}, False))
            else:
                # nonneg and nonzero -> positive
                if lbound(d) is not None and lbound(d) >= 0:
                    out.append((d, True))
        elif a.op == 'exists' and v:
            out.append((P(a.a[0]), True))
    C.caches[k] = out
    return out


def ub_of(x):
    if x.op == 'var':
        n = C.range.get(x)
        if n is not None:
            if n is INF:
                return None
            return padd(P(n), {(): Fr(1)}, -1) if n.op != 'ite' else None
        return None
    if x.op in ('argmin', 'nth', 'perm'):
        return padd(P(x.a[0]), {(): Fr(1)}, -1) if x.a[0].op != 'ite' else None
    if x.op == 'first':
        return P(x.a[0]) if x.a[0].op != 'ite' else None
    if x.op == 'sum' and indicator(x.a[1].a[2]):
        return P(x.a[0]) if x.a[0].op != 'ite' else None
    u = C.minv.get(('ub', x))
    if u is not None:
        return P(u)
    if C.ub_hook is not None:
        u = C.ub_hook(x)
        if u is not None:
            return padd(P(u), {(): Fr(1)}, -1)
    if x.op == 'app' and x.a[1] in C.ubapp:
        return padd(P(C.ubapp[x.a[1]]), {(): Fr(1)}, -1)
    return None


def indicator(b):
    if b.op == 'ite':
        return indicator(b.a[1]) and indicator(b.a[2])
    return b is ZERO or b is ONE


def lb_atom(x):
    m = C.minv.get(x)
    if m is not None:
        return Fr(m)
    if x.op == 'app' and x.a[1][0] == '+':
        return Fr(1)
    if x.op in ('exp', 'abs'):
        return Fr(0)
    if sort(x) == 'i':
        return Fr(0)
    if x.op == 'sum':
        b = x.a[1].a[2]
        if indicator(b):
            return Fr(0)
        cc = cache('nnsum')
        r = cc.get(x)
        if r is None:
            r = cc[x] = _exponly(b) and lbound(P(b)) is not None and lbound(P(b)) >= 0
        if r:
            return Fr(0)
    return None


def _exponly(b):
    """a sum of products that each contain an exponential (the only sums whose sign matters)"""
    return b.op in ('poly', 'exp') and all(any(x.op == 'exp' for x, _ in m) for m in P(b))


def posatom(x):
    if x.op == 'exp':
        return True
    if x.op == 'inv':
        return strictly_pos(P(x.a[0]))
    if x.op == 'sum':
        b = x.a[1].a[2]
        return x.a[0].op != 'ite' and _exponly(b) and (lbound(P(x.a[0])) or 0) >= 1 and strictly_pos(P(b))
    l = lb_atom(x)
    return l is not None and l > 0


def strictly_pos(d):
    l = lbound(d)
    return l is not None and l >= 0 and (l > 0 or any(c > 0 and m and all(posatom(x) for x, _ in m) for m, c in d.items()))


def lbound(d, depth=0):
    tot = Fr(0)
    bad = None
    for m, c in d.items():
        if not c:
            continue
        if not m:
            tot += c
            continue
        if c > 0:
            r = Fr(1)
            ok = True
            for x, e in m:
                if e % 2 == 0:
                    r = Fr(0)
                    continue
                l = lb_atom(x)
                if l is None or l < 0:
                    ok = False
                    break
                if e < 0:
                    r = Fr(0)
                else:
                    r *= l ** e
            if ok:
                tot += c * r
                continue
            return None
        if not (len(m) == 1 and m[0][1] == 1 and ub_of(m[0][0]) is not None):
            return None
        if bad is None or (bad[0][0].op == 'sum') > (m[0][0].op == 'sum') or \
                (m[0][0].op == 'var') > (bad[0][0].op == 'var'):
            bad = m
    if bad is None:
        return tot
    if depth > 4:
        return None
    e = dict(d)
    c = e.pop(bad)
    return lbound(padd(e, ub_of(bad[0][0]), c), depth + 1)


def _isintd(d):
    return all(c.denominator == 1 and all(e > 0 and sort(x) in ('i', 'z') for x, e in m) for m, c in d.items())


def prove(d, strict, facts):
    l = lbound(d)
    if l is not None and (l > 0 if strict else l >= 0):
        return True
    if strict and l == 0 and any(c > 0 and m and any(x.op in ('exp', 'sum') for x, _ in m) and
                                 all(posatom(x) for x, _ in m) for m, c in d.items()):
        return True
    fp = fact_polys(tuple(facts) + C.facts)
    if not fp:
        return False
    ints = _isintd(d)
    atoms = {x for m in d for x, _ in m}
    rel = [(q, s) for q, s in fp if any(x in atoms for m in q for x, _ in m)] if atoms else []
    for q, s in rel:
        r = padd(d, q, -1)
        r = {m: c for m, c in r.items() if c}
        l = lbound(r)
        if l is None:
            continue
        if s:
            if l >= 0 or (ints and _isintd(q) and (l >= -1 if not strict else l >= 0)):
                return True
        else:
            if (l > 0 if strict else l >= 0):
                return True
    if len(rel) <= 8:
        for q, s in rel:
            r1 = {m: c for m, c in padd(d, q, -1).items() if c}
            for q2, s2 in fp:
                if q2 is q:
                    continue
                # at least so many terms stay
                if abs(len(r1) - len(q2)) > 3:
                    continue
                k = 0
                for m, c in r1.items():
                    if q2.get(m) != c:
                        k += 1
                        if k > 3:
                            break
                if k > 3:
                    continue
                r = {m: c for m, c in padd(r1, q2, -1).items() if c}
                if len(r) > 3:
                    continue
                l = lbound(r)
                if l is None:
                    continue
                slack = 0
                if s and s2 and ints:
                    slack = 1
                if (s or s2):
                    if l + slack >= 0:
                        return True
                elif (l > 0 if strict else l >= 0):
                    return True
    return False


def prove_gt0(d, facts):
    return prove(d, True, facts)


def prove_ge0(d, facts):
    if _isintd(d):
        return prove(padd(d, {(): Fr(1)}), True, facts)
    return prove(d, False, facts)


def decide(atom, facts):
    for a, v in facts:
        if a is atom:
            return v
    for a, v in C.facts:
        if a is atom:
            return v
    if atom.op == 'pos':
        d = P(atom.a[0])
        if prove_gt0(d, facts):
            return True
        nd = {m: -c for m, c in d.items()}
        if prove_ge0(nd, facts):
            return False
    elif atom.op == 'eqz':
        d = P(atom.a[0])
        nd = {m: -c for m, c in d.items()}
        if prove_gt0(d, facts) or prove_gt0(nd, facts):
            return False
        if prove_ge0(d, facts) and prove_ge0(nd, facts):
            return True
        fl = tuple(facts) + C.facts
        eqs = [P(a.a[0]) for a, v in fl if a.op == 'eqz' and v]
        if eqs:
            # d = s*f + t*e with f /= 0 and e = 0
            for a, v in fl:
                if a.op == 'eqz' and not v:
                    for s in (1, -1):
                        r = {m: c for m, c in padd(d, P(a.a[0]), -s).items() if c}
                        for e in eqs:
                            m0 = next(iter(e))
                            if m0 in r and len(r) == len(e):
                                q = r[m0] / e[m0]
                                if all(r.get(m) == c * q for m, c in e.items()):
                                    return False
    elif atom.op == 'exists':
        # exists over a larger domain / weaker guard known false
        n, lam = atom.a
        if facts:
            fo = first_of(atom)
            if fo is not None and any(contains(a, fo[0]) for a, v in facts) and prune(fo[1], facts) is FALSE:
                return False
        for a, v in tuple(facts) + C.facts:
            if a.op == 'exists' and not v and implies_body(lam, a.a[1]) and le_known(n, a.a[0]):
                return False
            if a.op == 'exists' and v and implies_body(a.a[1], lam) and le_known(a.a[0], n):
                return True
    return None


def le_known(a, b):
    if a is b or b is INF:
        return True
    d = padd(P(b), P(a), -1) if a.op != 'ite' and b.op != 'ite' else None
    if d is None:
        return False
    d = {m: c for m, c in d.items() if c}
    return not d or prove_ge0(d, ())


def implies_body(l1, l2):
    """forall v: l1(v) -> l2(v), by decision-tree implication"""
    if l1 is l2:
        return True
    memo = cache('implies')
    r = memo.get((l1, l2))
    if r is None:
        v = memo.get('v')
        if v is None:
            v = memo['v'] = fresh('i')
        a, b = (memo.get(l) or memo.setdefault(l, inst(l, v)) for l in (l1, l2))
        r = memo[(l1, l2)] = _ite(a, b, TRUE) is TRUE
    return r


def solve_eq(p, occurs_ok=None):
    """p == 0 -> (atom, expr) to substitute, canonical choice"""
    d = P(p)
    best = None
    for m, c in d.items():
        if len(m) == 1 and m[0][1] == 1:
            x = m[0][0]
            if isint(p) and abs(c) != 1:
                continue
            # x must not occur elsewhere
            if any(y is not x and contains(y, x) for m2 in d for y, _ in m2) or \
                    sum(1 for m2 in d if any(y is x for y, _ in m2)) > 1:
                continue
            pr = {'bv': 0, 'var': 0, 'st': 1, 'len': 2}.get(x.op, 3)
            k = (pr, -x.sz if pr == 3 else 0, x.dg)
            if best is None or k < best[0]:
                best = (k, x, c)
    if best is None:
        return None
    _, x, c = best
    rest = {m: -k / c for m, k in d.items() if m != ((x, 1),)}
    return x, unP(rest)


def contains(t, x):
    if t is x:
        return True
    if x.op == 'var':
        return x in t.fv
    if t.sz < x.sz:
        return False
    return any(contains(c, x) for c in _walk(t.a))


def first_of(ex):
    """(f, P(f)) for an exists atom with condition P when the term f = "first position with P" is in use"""
    f = _tab.get(('first', ex.a))
    if f is None:
        return None
    return f, inst(ex.a[1], f)


def full_count(ex):
    """the number of positions that violate the condition of an exists: all of them when it is false"""
    memo = cache('full_count')
    if ex in memo:
        return memo[ex]
    v, g = open_lam(ex.a[1], ex.a[0])
    c = sum_body(ex.a[0], v, map_leaves(g, lambda l: ZERO if l is TRUE else ONE) if g.op == 'ite' else _ite(g, ZERO, ONE))
    memo[ex] = c = c if c.op == 'sum' else None
    return c


PRUNE_STEPS = 600


def prune(t, facts=()):
    if C.coarse:
        return t
    outer = C.steps
    if outer is None:
        C.steps = 0
    try:
        for _ in range(4):
            r = _prune(t, facts)
            if r is t:
                return t
            t = r
        return t
    finally:
        if outer is None:
            C.steps = None


def support(t):
    """what the conditions of a decision tree speak about"""
    memo = cache('support')
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == 'ite':
        r = support(t.a[0]) | support(t.a[1]) | support(t.a[2])
    elif t.op in ('pos', 'eqz'):
        r = frozenset(x for m in P(t.a[0]) for x, _ in m)
    elif sort(t) == 'b':
        r = frozenset((t,))
    else:
        r = frozenset()
    memo[t] = r
    return r


def related(facts, t):
    s = support(t)
    return tuple(f for f in facts if not s.isdisjoint(support(f[0])))


def _prune(t, facts):
    if t.op != 'ite':
        t2 = _asite(t)
        if t2.op != 'ite' or not (facts or C.facts):
            return t
        v = decide(t, facts)
        return t if v is None else boolT(v)
    memo = cache('prune')
    if C.steps is not None:
        C.steps += 1
        if C.steps > PRUNE_STEPS:
            # too many combinations: keep what concerns the conditions below, so that equal parts are looked at once
            facts = related(facts, t)
            if C.steps > 2 * PRUNE_STEPS and (t, facts) not in memo:
                return t
    k = (t, facts)
    r = memo.get(k)
    if r is not None:
        return r
    atom = t.a[0]
    v = decide(atom, facts)
    if v is not None:
        r = _prune(t.a[1] if v else t.a[2], facts)
    else:
        hi = t.a[1]
        if atom.op == 'eqz':
            s = solve_eq(atom.a[0])
            if s is not None and atom not in C.subbing and contains(hi, s[0]):
                C.subbing.add(atom)
                try:
                    hi = subst(hi, {s[0]: s[1]})
                finally:
                    C.subbing.discard(atom)
        fo = first_of(atom) if atom.op == 'exists' else None
        if fo is not None and contains(hi, fo[0]):
            hi = _prune(hi, facts + ((atom, True),) + tuple(x for x in conj_lits(fo[1]) if x[0] is not atom))
        else:
            hi = _prune(hi, facts + ((atom, True),))
        lo = t.a[2]
        cnt = None
        if atom.op == 'exists':
            cnt = full_count(atom)
            if cnt is not None and contains(lo, cnt):
                lo = subst(lo, {cnt: atom.a[0]})
        lo = _prune(lo, facts + ((atom, False),))
        if cnt is not None and contains(hi, cnt) and subst(hi, {cnt: atom.a[0]}) is lo:
            memo[k] = hi
            return hi
        r = t if hi is t.a[1] and lo is t.a[2] else _ite(atom, hi, lo)
        if r.op == 'ite' and hi is not lo and r.a[0].op == 'eqz' and r.a[0] is atom:
            # "if x == e then f(e) else f(x)" is f(x)
            s = solve_eq(atom.a[0])
            if s is not None and contains(r.a[2], s[0]) and r.a[2].op != 'ite':
                if subst(r.a[2], {s[0]: s[1]}) is r.a[1]:
                    r = r.a[2]
    memo[k] = r
    return r


def restrict(t, atom, val):
    """cofactor at any depth of the decision tree"""
    if t.op != 'ite':
        if t is atom:
            return boolT(val)
        return t
    if t.a[0] is atom:
        return t.a[1] if val else t.a[2]
    hi, lo = restrict(t.a[1], atom, val), restrict(t.a[2], atom, val)
    if hi is t.a[1] and lo is t.a[2]:
        return t
    return _ite(t.a[0], hi, lo)


def tree_atoms(t, acc=None):
    acc = {} if acc is None else acc
    t = _asite(t)
    if t.op == 'ite':
        acc[t.a[0]] = 1
        tree_atoms(t.a[1], acc)
        tree_atoms(t.a[2], acc)
    return acc


def leaves(t, acc=None):
    acc = {} if acc is None else acc
    if t.op == 'ite':
        leaves(t.a[1], acc)
        leaves(t.a[2], acc)
    else:
        acc[t] = 1
    return acc


def map_leaves(t, f):
    if t.op == 'ite':
        return _ite(t.a[0], map_leaves(t.a[1], f), map_leaves(t.a[2], f))
    return f(t)


# ---------------------------------------------------------------- binders
def mk_lam(v, body):
    h = body.h + 1
    b = mk('bv', v.a[0], h)
    return mk('lam', v.a[0], h, rename(body, {v: b}))


def open_lam(l, n=None):
    v = fresh(l.a[0])
    if n is not None:
        C.range[v] = n
    return v, rename(l.a[2], {mk('bv', l.a[0], l.a[1]): v})


def inst(l, arg):
    if arg.op == 'var' and arg.a[0] == l.a[0]:
        return rename(l.a[2], {mk('bv', l.a[0], l.a[1]): arg})
    memo = cache('inst')
    r = memo.get((l, arg))
    if r is None:
        v, b = open_lam(l)
        r = subst(b, {v: arg})
        memo[(l, arg)] = r
    return r


def rename(t, mp, memo=None):
    """replace leaves by leaves of the same sort; only re-sorts"""
    memo = {} if memo is None else memo
    keys = list(mp)

    def rn(t):
        r = memo.get(t)
        if r is not None:
            return r
        op = t.op
        if t in mp:
            r = mp[t]
        elif op in ('num', 'str', 'var', 'bv', 'true', 'false', 'inf', 'absent'):
            r = t
        elif all(k.op == 'var' for k in keys) and not any(k in t.fv for k in keys):
            r = t
        elif op == 'poly':
            d = {}
            for m, c in t.a:
                q = {(): c}
                for x, e in m:
                    y = rn(x)
                    if e >= 0 or y.op not in ('poly', 'num'):
                        if y.op in ('poly', 'num'):
                            for _ in range(e):
                                q = pmul(q, P(y))
                        else:
                            q = pmul(q, {((y, e),): Fr(1)})
                    else:
                        for _ in range(-e):
                            q = pmul(q, P(inv_(y)))
                d = padd(d, q)
            r = unP(d)
        elif op == 'ite':
            r = _ite(rn(t.a[0]), rn(t.a[1]), rn(t.a[2]))
        elif op == 'pos':
            r = _pos_raw(rn(t.a[0]))
        elif op == 'eqz':
            r = _eqz_raw(rn(t.a[0]))
        elif op == 'eqo':
            r = mk('eqo', *sorted((rn(x) for x in t.a), key=lambda x: x.dg))
        elif op == 'inv':
            r = inv_(rn(t.a[0]))
        elif op == 'exp':
            r = exp_(rn(t.a[0]))
        elif op == 'abs':
            r = _abs_raw(rn(t.a[0]))
        else:
            r = mk(op, *[g(x) for x in t.a])
        memo[t] = r
        return r

    def g(x):
        if isinstance(x, T):
            return rn(x)
        if isinstance(x, tuple):
            return tuple(g(y) for y in x)
        return x
    return rn(t)


def _pos_raw(t):
    d = P(t)
    if not d or (len(d) == 1 and () in d):
        return boolT(d.get((), 0) > 0)
    if isint(t):
        lead = min((m for m in d if m), key=_mk)
        if d[lead] > 0:
            return mk('pos', t)
        return _ite(mk('pos', unP(padd({(): Fr(1)}, d, -1))), FALSE, TRUE)
    return mk('pos', t)


def _eqz_raw(t):
    d = P(t)
    if not d or (len(d) == 1 and () in d):
        return boolT(not d)
    lead = min((m for m in d if m), key=_mk)
    if d[lead] < 0:
        t = unP({m: -c for m, c in d.items()})
    return mk('eqz', t)


def _abs_raw(t):
    d = P(t)
    if d and d[_lm(d)] < 0:
        t = unP({m: -c for m, c in d.items()})
    return mk('abs', t)


def subst(t, mp, memo=None):
    """replace subterms (smart rebuild, normalising)"""
    memo = {} if memo is None else memo
    keys = list(mp)
    onlyvars = all(k.op == 'var' for k in keys)
    minsz = min((k.sz for k in keys), default=0)

    def sb(t):
        r = memo.get(t)
        if r is not None:
            return r
        if t in mp:
            r = mp[t]
        elif t.op in ('num', 'str', 'var', 'bv', 'true', 'false', 'inf', 'absent'):
            r = t
        elif onlyvars and not any(k in t.fv for k in keys):
            r = t
        elif t.sz < minsz:
            r = t
        else:
            r = rebuild(t, sb)
        memo[t] = r
        return r
    return sb(t)


def rebuild(t, f):
    op, a = t.op, t.a
    if op == 'poly':
        r = ZERO
        simple = True
        parts = []
        for m, c in a:
            fac = []
            for x, e in m:
                y = f(x)
                if y is not x:
                    simple = False
                fac.append((y, e))
            parts.append((fac, c))
        if simple:
            return t
        for fac, c in parts:
            q = num(c)
            for y, e in fac:
                q = mul(q, powi(y, e))
            r = add(r, q)
        return r
    if op == 'ite':
        return ite(f(a[0]), f(a[1]), f(a[2]))
    if op == 'pos':
        return pos(f(a[0]))
    if op == 'eqz':
        return eqz(f(a[0]))
    if op == 'eqo':
        return eq(f(a[0]), f(a[1]))
    if op == 'inv':
        return inv(f(a[0]))
    if op == 'exp':
        return exp(f(a[0]))
    if op == 'abs':
        return absT(f(a[0]))
    if op == 'trunc':
        return lift(trunc_, f(a[0]))
    if op == 'fn1' and len(a) == 2:
        return fn1(a[0], f(a[1]))
    if op == 'len':
        return length(f(a[0]))
    if op == 'sel':
        return index(f(a[1]), f(a[2]), a[0])
    if op == 'fld':
        return field(f(a[1]), a[2], a[0])
    if op == 'rec':
        return mk_rec(a[0], [(n, f(x)) for n, x in a[1]])
    if op == 'enum':
        return mk_enum(a[0], f(a[1]), [f(x) for x in a[2]])
    if op == 'list':
        return mk('list', *[f(x) for x in a])
    if op == 'cat':
        return cat(*[f(x) for x in a])
    if op in ('sum', 'exists', 'comp', 'first'):
        n = f(a[0])
        v, b = open_lam(a[1], a[0])
        b = f(b)
        C.range[v] = n
        return {'sum': sum_body, 'exists': exists_body, 'comp': comp_body, 'first': first_body}[op](n, v, b)
    if op == 'argmin':
        n = f(a[0])
        v, g = open_lam(a[1], a[0])
        key = f(inst(a[2], v))
        g = f(g)
        C.range[v] = n
        return argmin_body(n, v, g, key, a[3])
    if op == 'nth':
        n = f(a[0])
        v, g = open_lam(a[1], a[0])
        g = f(g)
        C.range[v] = n
        return nth_body(n, v, g, f(a[2]))
    if op == 'perm':
        n = f(a[0])
        v, k = open_lam(a[1], a[0])
        k = f(k)
        C.range[v] = n
        return mk_perm(n, v, k, a[2], f(a[3]))
    if op == 'lam':
        v, b = open_lam(t)
        return mk_lam(v, f(b))
    if op == 'fold':
        ins = f(a[1])
        def bf(k):
            if k is ZERO and a[3][a[4]] is not ABSENT:
                r = f(a[3][a[4]])
                for x in a[5:]:
                    r = inst(r, f(x))
                return r
            return mk('fold', a[0], k, tuple(f(x) for x in a[2]), tuple(f(x) for x in a[3]), a[4], *[f(x) for x in a[5:]])
        return lift(bf, ins)
    if op == 'app' and (a[1] in C.hooks or a[0] == 'b'):
        return app(a[0], a[1], *[f(x) if isinstance(x, T) else x for x in a[2:]])
    if op in ('app', 'st', 'unk', 'rc'):
        # strict in ite-free scalar arguments: lift decision trees out of the arguments
        idx = [i for i, x in enumerate(a) if isinstance(x, T)]
        args = [f(a[i]) for i in idx]

        def bld(*xs):
            na = list(a)
            for i, x in zip(idx, xs):
                na[i] = x
            return mk(op, *na)
        return lift(bld, *args)

    def g(x):
        if isinstance(x, T):
            return f(x)
        if isinstance(x, tuple):
            return tuple(g(y) for y in x)
        return x
    return mk(op, *[g(x) for x in a])


def fix_end(F, name):
    """TRUE/FALSE when the predicate holds/fails in every state in which the loop F ends, else None"""
    key = (F.a[1], name)
    if key not in _FIXEND:
        v, b = open_lam(F.a[1])
        p = mk('app', 'b', name, v)
        seen = set()

        def go(t, known):
            if t.op == 'ite':
                for br, val in ((t.a[1], True), (t.a[2], False)):
                    k = known
                    c, x = t.a[0], val
                    while c.op == 'not':
                        c, x = c.a[0], not x
                    if c is p:
                        k = x
                    go(br, k)
            elif t.op != 'rc':
                seen.add(known if t is v else None)
        go(b, None)
        _FIXEND[key] = (TRUE if seen == {True} else FALSE if seen == {False} else None)
    return _FIXEND[key]


_FIXEND = {}


def app(ty, name, *args):
    h = C.hooks.get(name)
    if ty == 'b' and len(args) == 1 and args[0].op == 'fix' and not h:
        r = fix_end(args[0], name)
        if r is not None:
            return r
    if h:
        def g(*xs):
            r = h(*xs)
            return mk('app', ty, name, *xs) if r is None else r
        return lift(g, *args)
    return lift(lambda *xs: mk('app', ty, name, *xs), *args) if args else mk('app', ty, name)


# ---------------------------------------------------------------- aggregates
def mk_rec(name, fields):
    fields = tuple(fields)
    # eta
    if fields and all(x.op == 'fld' and x.a[2] == n for n, x in fields):
        o = fields[0][1].a[1]
        if all(x.a[1] is o for _, x in fields):
            s = sort(o)
            if isinstance(s, tuple) and s[0] == 'adt' and s[1] == name:
                return o
    return mk('rec', name, fields)


def tup(*xs):
    return mk_rec('tup', [(str(i), x) for i, x in enumerate(xs)])


def mk_enum(adt, tag, pays):
    out = []
    for i, p in enumerate(pays):
        if p is not ABSENT and tag.op != 'num':
            l = conj_lits(eqz(sub(tag, num(i))))
            if l:
                p = deep_prune(p, tuple(l))
        elif p is not ABSENT and tag.op == 'num' and tag.a[0] != i:
            p = ABSENT
        out.append(p)
    return mk('enum', adt, tag, tuple(out))


def deep_prune(t, facts):
    """prune through records only"""
    if t.op == 'rec':
        return mk_rec(t.a[0], [(n, deep_prune(x, facts)) for n, x in t.a[1]])
    if t.op == 'enum':
        return mk('enum', t.a[0], prune(t.a[1], facts), tuple(x if x is ABSENT else deep_prune(x, facts) for x in t.a[2]))
    if t.op in ('ite',):
        return prune(t, facts)
    return t


OPT = 'core::option::Option'
RES = 'core::result::Result'


def some(x):
    return mk_enum(OPT, ONE, [ABSENT, mk_rec('v', [('0', x)])])


NONE = mk('enum', OPT, ZERO, (ABSENT, ABSENT))


def opt(c, x):
    """Some(x) if c else None"""
    return ite(c, some(x), NONE)


def is_some(t):
    return eqz(sub(tag(t), ONE))


def as_enum(t, like):
    return mk('enum', like.a[0], tag(t), tuple(
        ABSENT if p is ABSENT else mk_rec('v', [(n, payload(t, i, n, sort(x))) for n, x in p.a[1]])
        for i, p in enumerate(like.a[2])))


def tag(t):
    if t.op == 'enum':
        return t.a[1]
    if t.op == 'ite':
        return lift(tag, t)
    if C.field_hook:
        r = C.field_hook(t, '#tag')
        if r is not None:
            return r
    return mk('app', 'i', 'tag', t)


def payload(t, i, name, ty='o'):
    if t.op == 'enum':
        p = t.a[2][i]
        if p is ABSENT:
            return ABSENT
        return field(p, name)
    if t.op == 'ite':
        return lift(lambda x: payload(x, i, name, ty), t)
    if C.field_hook:
        r = C.field_hook(t, '#pay%d.%s' % (i, name))
        if r is not None:
            return r
    if C.fieldty:
        ty = C.fieldty(sort(t), (i, name)) or ty
    return mk('app', ty, 'pay%d.%s' % (i, name), t)


def field(t, name, ty=None):
    if t.op == 'rec':
        for n, x in t.a[1]:
            if n == name:
                return x
        raise Abort('no field %s' % name)
    if t.op == 'ite':
        return lift(lambda x: field(x, name, ty), t)
    if t is ABSENT:
        return ABSENT
    if C.field_hook:
        r = C.field_hook(t, name)
        if r is not None:
            return r
    if ty is None and C.fieldty:
        ty = C.fieldty(sort(t), name)
    return mk('fld', ty or 'o', t, name)


def length(t):
    if t is ABSENT:
        return ABSENT
    if t.op == 'comp':
        return t.a[0]
    if t.op == 'list':
        return num(len(t.a))
    if t.op == 'ite':
        return lift(length, t)
    if C.field_hook:
        r = C.field_hook(t, '#len')
        if r is not None:
            return r
    return mk('len', t)


def index(t, i, ty=None):
    if t is ABSENT:
        return ABSENT
    if t.op == 'comp':
        return inst(t.a[1], i)
    if t.op == 'list' and not t.a:
        return ABSENT
    if i.op == 'ite':
        return lift(lambda j: index(t, j, ty), i)
    if t.op == 'list':
        if i.op == 'num':
            k = int(i.a[0])
            if 0 <= k < len(t.a):
                return t.a[k]
            return mk('app', ty or 'o', 'oob', t, i)
        if not t.a:
            return ABSENT
        r = t.a[-1]
        for k in range(len(t.a) - 2, -1, -1):
            r = ite(eqz(sub(i, num(k))), t.a[k], r)
        return r
    if t.op == 'ite':
        return lift(lambda x, j: index(x, j, ty), t, i)
    if C.field_hook:
        r = C.field_hook(t, ('#idx', i))
        if r is not None:
            return r
    s = sort(t)
    if ty is None and isinstance(s, tuple) and s[0] == 'arr':
        ty = s[1]
    return mk('sel', ty or 'o', t, i)


def comp(n, f, ty='i'):
    v = fresh('i')
    C.range[v] = n
    return comp_body(n, v, f(v))


def comp_body(n, v, body):
    if n.op == 'num' and n.a[0] <= 8:
        k = max(0, int(n.a[0]))
        return mk('list', *[subst(body, {v: num(i)}) for i in range(k)])
    if body.op == 'ite':
        body = prune(body)
    if body.op == 'sel' and body.a[2] is v and v not in body.a[1].fv and length(body.a[1]) is n:
        return body.a[1]
    return mk('comp', n, mk_lam(v, body))


def store(arr, i, val):
    n = length(arr)
    if arr.op == 'list' and i.op == 'num' and 0 <= int(i.a[0]) < len(arr.a):
        l = list(arr.a)
        l[int(i.a[0])] = val
        return mk('list', *l)
    return comp(n, lambda v: ite(eqz(sub(v, i)), val, index(arr, v)))


def append(arr, x):
    if arr.op == 'list' and len(arr.a) < 8:
        return mk('list', *(arr.a + (x,)))
    n = length(arr)
    return comp(add(n, ONE), lambda v: ite(lt(v, n), index(arr, v), x))


def concat(a, b):
    if a.op == 'list' and b.op == 'list' and len(a.a) + len(b.a) <= 8:
        return mk('list', *(a.a + b.a))
    if length(a) is ZERO:
        return b
    if length(b) is ZERO:
        return a
    n = length(a)
    return comp(add(n, length(b)), lambda v: ite(lt(v, n), index(a, v), index(b, sub(v, n))))


def cat(*parts):
    out = []
    for p in parts:
        xs = p.a if p.op == 'cat' else (p,)
        for x in xs:
            if x.op == 'str':
                if x.a[0] == '':
                    continue
                if out and out[-1].op == 'str':
                    out[-1] = mk('str', out[-1].a[0] + x.a[0])
                    continue
            out.append(x)
    if not out:
        return mk('str', '')
    if len(out) == 1:
        return out[0]
    return mk('cat', *out)


def eq(a, b):
    if a is b:
        return TRUE
    sa, sb = sort(a), sort(b)
    if a.op == 'ite' and sa not in ('i', 'z', 'r', 'b') or b.op == 'ite' and sb not in ('i', 'z', 'r', 'b'):
        return lift(eq, a, b)
    if sa in ('i', 'z', 'r') and sb in ('i', 'z', 'r'):
        return eqz(sub(a, b))
    if sa == 'b' and sb == 'b':
        return ite(a, b, not_(b))
    if a.op == 'rec' or b.op == 'rec':
        r = a if a.op == 'rec' else b
        return and_(*[eq(field(a, n), field(b, n)) for n, _ in r.a[1]])
    if a.op == 'enum' or b.op == 'enum':
        e = a if a.op == 'enum' else b
        r = eq(tag(a), tag(b))
        for i, p in enumerate(e.a[2]):
            if p is not ABSENT:
                for n, x in p.a[1]:
                    y, z = payload(a, i, n), payload(b, i, n)
                    if y is ABSENT or z is ABSENT:
                        continue
                    r = and_(r, or_(not_(eqz(sub(tag(a), num(i)))), eq(y, z)))
        return r
    isarr = lambda t, s: t.op in ('comp', 'list') or (isinstance(s, tuple) and s[0] == 'arr')
    if isarr(a, sa) and isarr(b, sb):
        le_ = eq(length(a), length(b))
        v = fresh('i')
        C.range[v] = length(a)
        return and_(le_, not_(exists_body(length(a), v, not_(eq(index(a, v), index(b, v))))))
    if a.op == 'str' and b.op == 'str':
        return boolT(a.a[0] == b.a[0])
    x, y = sorted((a, b), key=lambda t: t.dg)
    return mk('eqo', x, y)


# ---------------------------------------------------------------- binder rules
def vfree_atom(t, v):
    for a in tree_atoms(t):
        if v not in a.fv:
            return a
    return None


def summ(n, f):
    v = fresh('i')
    C.range[v] = n
    return sum_body(n, v, f(v))


def exists(n, f):
    v = fresh('i')
    C.range[v] = n
    return exists_body(n, v, f(v))


def implied_by(p, q):
    """p => q"""
    return q is TRUE or p is FALSE or and_(p, not_(q)) is FALSE


def argmin(n, guard, key, last=False):
    v = fresh('i')
    C.range[v] = n
    return argmin_body(n, v, guard(v), key(v), last)


def nth(n, guard, j):
    v = fresh('i')
    C.range[v] = n
    return nth_body(n, v, guard(v), j)


def first(n, guard):
    v = fresh('i')
    C.range[v] = n
    return first_body(n, v, guard(v))


def count(n, g):
    return summ(n, lambda v: ite(g(v), ONE, ZERO))


def sum_body(n, v, body):
    if n.op == 'ite':
        def at(m):
            w = fresh('i')
            C.range[w] = m
            return sum_body(m, w, rename(body, {v: w}))
        return lift(at, n)
    if n.op == 'num' and n.a[0] <= 8:
        r = ZERO
        for i in range(int(n.a[0])):
            r = add(r, subst(body, {v: num(i)}))
        return r
    body = prune(body)
    if body is ZERO:
        return ZERO
    if sort(body) not in ('i', 'z', 'r'):
        raise Abort('sum of non-number')
    if body.op == 'ite':
        a = vfree_atom(body, v)
        if a is not None:
            return ite(a, sum_body(n, v, restrict(body, a, True)), sum_body(n, v, restrict(body, a, False)))
        monos = {}
        for l in leaves(body):
            for m in P(l):
                monos[m] = 1
        tot = ZERO
        for m in sorted(monos, key=_mk):
            ct = map_leaves(body, lambda l: num(P(l).get(m, 0)))
            tot = add(tot, _sum_ind(n, v, ct, m))
        return tot
    tot = ZERO
    for m, c in P(body).items():
        tot = add(tot, mul(num(c), _sum_ind(n, v, ONE, m)))
    return tot


def _allfalse(t):
    while t.op == 'ite':
        t = t.a[2]
    return t


def _sum_ind(n, v, ct, m):
    if m == ((INF, 1),):
        return INF if ct is ONE else ite(exists_body(n, v, map_leaves(ct, lambda l: boolT(l is not ZERO))), INF, ZERO)
    free = tuple((x, e) for x, e in m if v not in x.fv)
    dep = tuple((x, e) for x, e in m if v in x.fv)
    if ct.op == 'ite':
        d = _allfalse(ct)
        if d is not ZERO:
            c2 = map_leaves(ct, lambda l: num(l.a[0] - d.a[0]))
            return add(mul(d, _sum_ind(n, v, ONE, m)), _sum_ind(n, v, c2, m))
        tot = ZERO
        for l in leaves(ct):
            if l is not ZERO:
                g = map_leaves(ct, lambda x: boolT(x is l))
                tot = add(tot, mul(l, _sum_atom(n, v, g, dep)))
    else:
        tot = mul(ct, _sum_atom(n, v, TRUE, dep))
    return mul(unP({free: Fr(1)}), tot)


def in_range(e, n):
    return and_(le(ZERO, e), lt(e, n))


def eq_on(g, v):
    """an eqz atom of g solvable for v: (atom, e)"""
    for a in tree_atoms(g):
        if a.op == 'eqz' and v in a.fv:
            d = P(a.a[0])
            c = d.get(((v, 1),))
            if c is not None and abs(c) == 1:
                rest = unP({m: -k / c for m, k in d.items() if m != ((v, 1),)})
                if v not in rest.fv:
                    return a, rest
    return None


def bound_atom(g, v):
    """conjunctive atoms v<a / v>=a: yields (atom, polarity, 'lt'|'ge', a)"""
    for a, val in conj_lits(g):
        if a.op == 'eqz' and not val and a.a[0] is v:
            yield a, val, 'ge', ONE
        if a.op == 'pos' and v in a.fv and isint(a.a[0]):
            d = P(a.a[0])
            c = d.get(((v, 1),))
            if c is None or abs(c) != 1:
                continue
            rest = {m: k for m, k in d.items() if m != ((v, 1),)}
            if any(v in x.fv for m in rest for x, _ in m):
                continue
            # c*v + rest > 0
            if val:
                if c == 1:      # v > -rest  : v >= 1-rest
                    yield a, val, 'ge', unP(padd({(): Fr(1)}, rest, -1))
                else:           # v < rest
                    yield a, val, 'lt', unP(rest)
            else:
                if c == 1:      # v + rest <= 0 : v < 1-rest
                    yield a, val, 'lt', unP(padd({(): Fr(1)}, rest, -1))
                else:           # v >= rest
                    yield a, val, 'ge', unP(rest)


def only_in(t, v, pred):
    """every occurrence of v in t lies inside a subterm satisfying pred (list them), else None"""
    found = {}

    def w(t):
        if v not in t.fv:
            return True
        if pred(t):
            found[t] = 1
            return True
        if t is v:
            return False
        return all(w(c) for c in _walk(t.a))
    return list(found) if w(t) else None


def index_exprs(t, v, acc=None):
    """maximal integer polynomials containing v at index positions (sel/app/nth/perm arguments)"""
    acc = {} if acc is None else acc

    def w(t, idxpos):
        if v not in t.fv:
            return
        if idxpos and (t is v or (t.op == 'poly' and isint(t))):
            acc[t] = 1
            return
        if t is v:
            acc[t] = 1
            return
        if t.op in ('sel',):
            w(t.a[1], False)
            w(t.a[2], True)
        elif t.op in ('app', 'st'):
            for x in t.a:
                if isinstance(x, T):
                    w(x, True)
        elif t.op in ('nth', 'perm'):
            for x in t.a[:-1]:
                if isinstance(x, T):
                    w(x, False)
            w(t.a[-1], True)
        else:
            for c in _walk(t.a):
                w(c, False)
    w(t, False)
    return list(acc)


def affine(e, v):
    d = P(e)
    c = d.get(((v, 1),))
    if c is None:
        return None
    rest = {m: k for m, k in d.items() if m != ((v, 1),)}
    if any(v in x.fv for m in rest for x, _ in m):
        return None
    return c, unP(rest)


def count_parts(n):
    """n = Count(n0, g) as a sum atom -> (n0, lam indicator)"""
    if n.op == 'sum' and indicator(n.a[1].a[2]):
        return n.a[0], n.a[1]
    return None


def domain_rewrites(n, v, bodies):
    """try to simplify the domain of a binder; returns (n2, v2, bodies2, kind) or None"""
    whole = mk('list', *bodies)
    # complement-count domain: n = n0 - Count: recognised through nth atoms
    nths = {}

    def coll(t):
        if v not in t.fv:
            return
        if t.op == 'nth' and t.a[2] is v:
            nths[t] = 1
        for c in _walk(t.a):
            coll(c)
    coll(whole)
    for t in nths:
        n0, lam = t.a[0], t.a[1]
        if v in n0.fv or v in lam.fv:
            continue
        w = fresh('i')
        C.range[w] = n0
        g = inst(lam, w)
        if C.counts.get((n0, lam)) is not n and sum_body(n0, w, _ite(g, ONE, ZERO)) is not n:
            continue
        if only_in(whole, v, lambda s: s is t) is None:
            continue
        w = fresh('i')
        C.range[w] = n0
        g = inst(lam, w)
        return n0, w, [subst(b, {t: w}) for b in bodies], ('nth', g)
    for name, f in C.bijection.items():
        bij = {}

        def collb(t):
            if v not in t.fv:
                return
            if t.op == 'app' and t.a[1] == name and t.a[-1] is v:
                bij[t] = 1
            for c in _walk(t.a):
                collb(c)
        collb(whole)
        if len(bij) == 1:
            t = list(bij)[0]
            dom, n0, g = f(t.a[2:-1])
            if dom is n and only_in(whole, v, lambda s: s is t) is not None:
                w = fresh('i')
                C.range[w] = n0
                return n0, w, [subst(b, {t: w}) for b in bodies], ('bij', g(w))
    perms = {}

    def collp(t):
        if v not in t.fv:
            return
        if t.op == 'perm' and t.a[3] is v and t.a[0] is n:
            perms[t] = 1
        for c in _walk(t.a):
            collp(c)
    collp(whole)
    if len(perms) == 1:
        t = list(perms)[0]
        if only_in(whole, v, lambda s: s is t) is not None:
            w = fresh('i')
            C.range[w] = n
            return n, w, [subst(b, {t: w}) for b in bodies], ('perm', None)
    # reversal
    es = index_exprs(whole, v)
    if es:
        af = [affine(e, v) for e in es]
        if all(x is not None and x[0] == -1 for x in af) and all(x[1] is sub(n, ONE) for x in af):
            w = fresh('i')
            C.range[w] = n
            return n, w, [subst(b, {v: sub(sub(n, ONE), w)}) for b in bodies], ('rev', None)
    for hook in DOMAIN_HOOKS:
        r = hook(n, v, whole, bodies)
        if r is not None:
            return r
    return None


DOMAIN_HOOKS = []


def _sum_atom(n, v, g, dep):
    if g is FALSE:
        return ZERO
    if n is ZERO:
        return ZERO
    m = unP({dep: Fr(1)})
    if g is not TRUE:
        e = eq_on(g, v)
        if e:
            a, ex = e
            gt_, gf = restrict(g, a, True), restrict(g, a, False)
            at, r = subst(m, {v: ex}), in_range(ex, n)
            pt = sub(ite(and_(r, subst(gt_, {v: ex})), at, ZERO), ite(and_(r, subst(gf, {v: ex})), at, ZERO))
            return add(pt, sum_body(n, v, ite(gf, m, ZERO)))
        for a, val, kind, b in bound_atom(g, v):
            if v in b.fv:
                continue
            if b.op == 'ite':
                continue
            if kind == 'lt' and le_known(b, n):
                g2 = restrict(g, a, val)
                w = fresh('i')
                C.range[w] = b
                return sum_body(b, w, subst(ite(g2, m, ZERO), {v: w}))
            if kind == 'ge' and le_known(b, n):
                g2 = restrict(g, a, val)
                w = fresh('i')
                C.range[w] = b
                return sub(sum_body(n, v, ite(g2, m, ZERO)), sum_body(b, w, subst(ite(g2, m, ZERO), {v: w})))
    body = _ite(g, m, ZERO) if g is not TRUE else m
    if not dep and g is TRUE:
        return n
    if g is TRUE and dep == ((v, 1),):
        return mul(mul(n, sub(n, ONE)), num(Fr(1, 2)))
    r = domain_rewrites(n, v, [body])
    if r:
        n2, w, (b2,), (kind, g2) = r
        if kind in ('nth', 'bij'):
            b2 = ite(g2, b2, ZERO)
        return sum_body(n2, w, b2)
    es = index_exprs(body, v)
    if es:
        af = [affine(e, v) for e in es]
        if all(x is not None and x[0] == 1 for x in af):
            off = af[0][1]
            if off is not ZERO and all(x[1] is off for x in af) and prove_ge0(P(off), ()):
                w = fresh('i')
                N = add(n, off)
                C.range[w] = N
                f = subst(body, {v: sub(w, off)})
                if only_shift(f, w):
                    w2 = fresh('i')
                    C.range[w2] = off
                    return sub(sum_body(N, w, f), sum_body(off, w2, rename(f, {w: w2})))
    if g is TRUE:
        ss = [(x, e) for x, e in dep if x.op == 'sum']
        if len(ss) == 1 and ss[0][1] == 1:
            # nested sums in canonical order, factors innermost
            inner = ss[0][0]
            n2 = inner.a[0]
            if v not in n2.fv and n2.dg < n.dg:
                u, b = open_lam(inner.a[1], n2)
                rest = tuple(q for q in dep if q[0] is not inner)
                if rest:
                    b = mul(unP({rest: Fr(1)}), b)
                return sum_body(n2, u, sum_body(n, v, b))
    d = P(n)
    c0 = d.get((), Fr(0))
    if c0 and len(d) > 1 and isint(n) and abs(c0) <= 4:
        N = unP({k: c for k, c in d.items() if k})
        w = fresh('i')
        C.range[w] = N
        r = sum_body(N, w, subst(body, {v: w}))
        if c0 > 0:
            for i in range(int(c0)):
                r = add(r, subst(body, {v: add(N, num(i))}))
        else:
            for i in range(int(-c0)):
                r = sub(r, subst(body, {v: sub(N, num(i + 1))}))
        return r
    return mk('sum', n, mk_lam(v, body))


def only_shift(f, w):
    return True


def exists_body(n, v, g):
    if n.op == 'ite':
        def at(m):
            w = fresh('i')
            C.range[w] = m
            return exists_body(m, w, rename(g, {v: w}))
        return lift(at, n)
    if n.op == 'num' and n.a[0] <= 8:
        r = FALSE
        for i in range(int(n.a[0])):
            r = or_(r, subst(g, {v: num(i)}))
        return r
    g = prune(g)
    if g is FALSE:
        return FALSE
    if g is TRUE:
        return pos(n)
    a = vfree_atom(g, v)
    if a is not None:
        return ite(a, exists_body(n, v, restrict(g, a, True)), exists_body(n, v, restrict(g, a, False)))
    if C.inverse:
        g2 = unfold_inverse(g, v)
        if g2 is not g:
            return exists_body(n, v, g2)
    e = eq_on(g, v)
    if e:
        a, ex = e
        gt_, gf = subst(restrict(g, a, True), {v: ex}), restrict(g, a, False)
        if gf is FALSE:
            return and_(in_range(ex, n), gt_)
        if gt_ is not FALSE:
            rest = gf if implied_by(subst(gf, {v: ex}), gt_) else and_(not_(a), gf)
            return or_(and_(in_range(ex, n), gt_), exists_body(n, v, rest))
    for a, val, kind, b in bound_atom(g, v):
        if kind == 'lt' and v not in b.fv and b.op != 'ite' and le_known(b, n):
            w = fresh('i')
            C.range[w] = b
            return exists_body(b, w, subst(restrict(g, a, val), {v: w}))
        if kind == 'ge' and v not in b.fv and b.op != 'ite' and restrict(g, a, val) is TRUE and prove_ge0(P(b), ()):
            return pos(sub(n, b))
    r = domain_rewrites(n, v, [g])
    if r:
        n2, w, (b2,), (kind, g2) = r
        if kind in ('nth', 'bij'):
            b2 = and_(g2, b2)
        return exists_body(n2, w, b2)
    for hook in EXISTS_HOOKS:
        r = hook(n, v, g)
        if r is not None:
            return r
    return mk('exists', n, mk_lam(v, g))


EXISTS_HOOKS = []


def unfold_inverse(g, v):
    """f(e(v)) == r, f injective  ->  r is in the image and e(v) is its index"""
    for a in tree_atoms(g):
        if a.op != 'eqz' or v not in a.fv:
            continue
        d = P(a.a[0])
        for m, c in d.items():
            if len(m) != 1 or m[0][1] != 1 or abs(c) != 1:
                continue
            x = m[0][0]
            if x.op != 'app' or x.a[1] not in C.inverse or v not in x.a[-1].fv or \
                    any(v in y.fv for y in x.a[2:-1] if isinstance(y, T)):
                continue
            rest = unP({k: -q / c for k, q in d.items() if k != m})
            if v in rest.fv:
                continue
            mem, ix = C.inverse[x.a[1]](x.a[2:-1], rest)
            return ite(and_(mem, eqz(sub(x.a[-1], ix))), restrict(g, a, True), restrict(g, a, False))
    return g


def argmin_body(n, v, g, key, last=False):
    if n.op == 'ite':
        def at(m):
            w = fresh('i')
            C.range[w] = m
            return argmin_body(m, w, rename(g, {v: w}), rename(key, {v: w}), last)
        return lift(at, n)
    g = prune(g)
    key = prune(key, tuple(conj_lits(g))) if key.op == 'ite' else key
    for t in (g, key):
        a = vfree_atom(t, v) if t.op == 'ite' or t.op in ('pos', 'eqz', 'exists') else None
        if a is not None:
            return ite(a, argmin_body(n, v, restrict(g, a, True), restrict(key, a, True), last),
                       argmin_body(n, v, restrict(g, a, False), restrict(key, a, False), last))
    if key.op == 'ite':
        # drop a common additive part: monomials free of v present in all finite leaves
        ls = [P(l) for l in leaves(key) if ((INF, 1),) not in P(l)]
        if ls:
            com = {m: c for m, c in ls[0].items() if all(l.get(m) == c for l in ls) and not any(v in x.fv for x, _ in m)}
            if com:
                key = map_leaves(key, lambda l: l if ((INF, 1),) in P(l) else unP(padd(P(l), com, -1)))
    else:
        d = {m: c for m, c in P(key).items() if any(v in x.fv for x, _ in m)}
        if d:
            ct = content(d)
            d = {m: c / ct for m, c in d.items()}
        key = unP(d)
        if d:
            # a bound on the key itself: the least key satisfies it if any does
            for a, val in conj_lits(g):
                if a.op != 'pos' or v not in a.fv:
                    continue
                vp = {m: c for m, c in P(a.a[0]).items() if any(v in x.fv for x, _ in m)}
                if set(vp) == set(d):
                    qs = {c / d[m] for m, c in vp.items()}
                    if len(qs) == 1 and (min(qs) < 0) == val:
                        g = prune(restrict(g, a, val))
    key = drop_pos_factor(key, v)
    if key.op == 'num':
        key = ZERO
        if g is TRUE:
            return sub(n, ONE) if last else ZERO
    e = eq_on(g, v)
    if e and restrict(g, e[0], False) is FALSE:
        return e[1]
    for a, val, kind, b in bound_atom(g, v):
        if v in b.fv or b.op == 'ite':
            continue
        g2 = restrict(g, a, val)
        if kind == 'ge' and key is ZERO and last and g2 is TRUE:
            return sub(n, ONE)
        if kind == 'lt' and le_known(b, n) and b is not n:
            w = fresh('i')
            C.range[w] = b
            return argmin_body(b, w, subst(g2, {v: w}), subst(key, {v: w}), last)
    if key is ZERO and not last:
        return first_body(n, v, g)
    r = domain_rewrites(n, v, [g, key])
    if r and r[3][0] in ('nth', 'rev'):
        n2, w, (g2, k2), (kind, gg) = r
        if kind == 'rev':
            return sub(sub(n, ONE), argmin_body(n2, w, g2, k2, not last))
        m = argmin_body(n2, w, and_(gg, g2), k2, last)
        return mk('app', 'i', 'rank', n, m) if False else RankOf(n2, w, gg, m)
    return mk('argmin', n, mk_lam(v, g), mk_lam(v, key), last)


def drop_pos_factor(key, v):
    """argmin of q*x is argmin of x for a positive v-free q"""
    if key.op not in ('poly',):
        return key
    d = P(key)
    com = None
    for m in d:
        f = {x: e for x, e in m if v not in x.fv}
        com = f if com is None else {x: e for x, e in com.items() if f.get(x) == e}
    if com:
        com = {x: e for x, e in com.items() if sort(x) == 'i' or x.op == 'exp'}
        if com:
            ic = tuple(sorted(((x, -e) for x, e in com.items()), key=lambda y: y[0].dg))
            return unP({mmul(m, ic): c for m, c in d.items()})
    return key


def RankOf(n0, w, g, m):
    """number of guard-satisfying positions before m: the j with nth(n0,g,j)=m"""
    lam = mk_lam(w, g)
    return mk('app', 'i', 'rank', n0, lam, m)


def nth_body(n, v, g, j):
    if j.op == 'ite':
        return lift(lambda x: nth_body(n, v, g, x), j)
    g = prune(g)
    if g is TRUE:
        return j
    a = vfree_atom(g, v)
    if a is not None:
        return ite(a, nth_body(n, v, restrict(g, a, True), j), nth_body(n, v, restrict(g, a, False), j))
    if g is FALSE:
        return j
    ba = list(bound_atom(g, v))
    if len(ba) == 1:
        a, val, kind, b = ba[0]
        if restrict(g, a, val) is TRUE:
            if kind == 'ge':
                return add(j, b)
            return j
    lam = mk_lam(v, g)
    if j.op == 'app' and j.a[1] == 'rank' and j.a[2] is n and j.a[3] is lam:
        return j.a[4]
    return mk('nth', n, lam, j)


def first_body(n, v, g):
    g = prune(g)
    if g is FALSE:
        return n
    if g is TRUE:
        return ZERO
    a = vfree_atom(g, v)
    if a is not None:
        return ite(a, first_body(n, v, restrict(g, a, True)), first_body(n, v, restrict(g, a, False)))
    ba = list(bound_atom(g, v))
    if len(ba) == 1:
        a, val, kind, b = ba[0]
        if kind == 'ge' and restrict(g, a, val) is TRUE:
            if not isnonneg(b):
                b = ite(lt(b, ZERO), ZERO, b)
            if n is INF or le_known(b, n):
                return b
            return ite(lt(b, n), b, n)
    for a, val, kind, b in bound_atom(not_(g), v):
        # g holds wherever v >= b
        if kind == 'lt' and b.op != 'ite' and v not in b.fv and le_known(b, n) and b is not n:
            w = fresh('i')
            C.range[w] = b
            r = first_body(b, w, subst(restrict(g, a, val), {v: w}))
            return r if isnonneg(b) else ite(lt(b, ZERO), ZERO, r)
    if is_monotone(g, v):
        return sum_body(n, v, _ite(g, ZERO, ONE))
    return mk('first', n, mk_lam(v, g))


def isnonneg(b):
    return b.op != 'ite' and prove_ge0(P(b), ())


def is_monotone(g, v):
    """g false..false true..true along v, by the declared sortedness of the values it compares"""
    pol = True
    if g.op == 'ite' and g.a[1] is FALSE and g.a[2] is TRUE:
        g = g.a[0]
        pol = False
    if g.op != 'pos':
        return False
    d = P(g.a[0])
    vs = [(m, c) for m, c in d.items() if any(v in x.fv for x, _ in m)]
    if len(vs) != 1:
        return False
    (m, c), = vs
    if len(m) != 1 or m[0][1] != 1:
        return False
    x = m[0][0]
    if not ascending(x, v):
        return False
    return (c > 0) == pol


def ascending(x, v):
    if x.op == 'app' and x.a[1] in C.sorted and x.a[-1] is v and all(v not in y.fv for y in x.a[2:-1] if isinstance(y, T)):
        return True
    # col[perm(n,[col],v)]
    ps = []

    def w(t):
        if t.op == 'perm' and t.a[3] is v:
            ps.append(t)
        for c in _walk(t.a):
            if v in c.fv:
                w(c)
    w(x)
    if len(set(ps)) == 1:
        p = ps[0]
        if only_in(x, v, lambda s: s is p) is not None:
            u, k = open_lam(p.a[1], p.a[0])
            keys = [t for _, t in k.a[1]]
            if keys and subst(x, {p: u}) is keys[0]:
                return True
    return False


def mk_perm(n, v, keys, stable, j):
    """keys: rec of sort keys (ascending, lexicographic) at index v; ties by index when stable"""
    if j.op == 'ite':
        return lift(lambda x: mk_perm(n, v, keys, stable, x), j)
    ks = []
    for nme, k in keys.a[1]:
        if k is v:
            stable = True
            break
        ks.append(k)
    if not ks and stable:
        return j
    return mk('perm', n, mk_lam(v, mk_rec('tup', [(str(i), k) for i, k in enumerate(ks)])), stable, j)


# ---------------------------------------------------------------- deep simplification under facts
def simp(t, facts):
    """rebuild t with additional facts everywhere (also below binders)"""
    old = C.facts
    C.facts = tuple(facts) + old
    try:
        mp = {}
        for a, v in facts:
            if a.op == 'eqz' and v:
                s = solve_eq(subst(a.a[0], mp) if mp else a.a[0])
                if s:
                    mp = {k: subst(x, {s[0]: s[1]}) for k, x in mp.items()}
                    mp[s[0]] = s[1]
        if mp:
            t = subst(t, mp)
        memo = {}

        def f(x):
            r = memo.get(x)
            if r is None:
                if x.op in ('num', 'str', 'var', 'bv', 'true', 'false', 'inf', 'absent'):
                    r = x
                else:
                    r = rebuild(x, f)
                    r = prune(r)
                memo[x] = r
            return r
        return f(t)
    finally:
        C.facts = old


# ---------------------------------------------------------------- printing
def show(t, d=0):
    if not isinstance(t, T):
        return str(t)
    if d > 14:
        return '..'
    s = lambda x: show(x, d + 1)
    op, a = t.op, t.a
    if op == 'num':
        return str(a[0])
    if op in ('true', 'false', 'inf', 'absent'):
        return op
    if op == 'var':
        return a[1]
    if op == 'bv':
        return 'x%d' % a[1]
    if op == 'poly':
        out = []
        for m, c in a:
            f = '*'.join((s(x) if e == 1 else '%s^%d' % (s(x), e)) for x, e in m)
            out.append(str(c) if not m else (f if c == 1 else ('-' + f if c == -1 else '%s*%s' % (c, f))))
        return '(' + ' + '.join(out) + ')'
    if op == 'ite':
        if a[1] is FALSE and a[2] is TRUE:
            return '!' + s(a[0])
        if a[2] is FALSE:
            return '(%s && %s)' % (s(a[0]), s(a[1]))
        if a[1] is TRUE:
            return '(%s || %s)' % (s(a[0]), s(a[2]))
        return '(%s ? %s : %s)' % tuple(map(s, a))
    if op == 'pos':
        return '%s>0' % s(a[0])
    if op == 'eqz':
        return '%s==0' % s(a[0])
    if op == 'lam':
        return '\\x%d.%s' % (a[1], s(a[2]))
    if op == 'comp':
        return '[%s | x%d<%s]' % (s(a[1].a[2]), a[1].a[1], s(a[0]))
    if op == 'sum':
        return 'SUM{x%d<%s}(%s)' % (a[1].a[1], s(a[0]), s(a[1].a[2]))
    if op == 'exists':
        return 'EX{x%d<%s}(%s)' % (a[1].a[1], s(a[0]), s(a[1].a[2]))
    if op == 'sel':
        return '%s[%s]' % (s(a[1]), s(a[2]))
    if op == 'fld':
        return '%s.%s' % (s(a[1]), a[2])
    if op in ('app', 'st', 'unk'):
        return ('?' if op == 'unk' else '') + '%s(%s)' % (a[1], ', '.join(s(x) for x in a[2:]))
    if op == 'rec':
        return '%s{%s}' % (a[0].split('::')[-1], ', '.join('%s: %s' % (n, s(x)) for n, x in a[1]))
    if op == 'list':
        return '[' + ', '.join(map(s, a)) + ']'
    if op == 'enum':
        return '%s#%s<%s>' % (a[0].split('::')[-1], s(a[1]), ', '.join(s(x) for x in a[2]))
    if op == 'str':
        return repr(a[0])

    def g(x):
        if isinstance(x, T):
            return s(x)
        if isinstance(x, tuple):
            return '(' + ','.join(g(y) for y in x) + ')'
        return str(x)
    return '%s(%s)' % (op, ', '.join(g(x) for x in a))
