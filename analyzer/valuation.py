"""Alarm filter: two summaries whose normal forms differ are reported as a violation only when a small finite
assignment of their input symbols makes the closed forms differ.  The assignment becomes the explanation of the
report.  Nothing of the program is executed: only the terms of terms.py are evaluated."""
import math, random, os
from fractions import Fraction as Fr
import terms as X
from terms import T, TRUE, FALSE


class Undef(Exception):
    pass


class NoEval(Exception):
    pass


class OutOfTime(Exception):
    pass


POOLS = [
    [0, 1], [0, 1, 2], [-1, 0, 1], [-2, -1, 0, 1, 2, 3], [Fr(1, 2), Fr(-1, 2), 1, 2, 0], [1, 2, 3, 5, 7, 11],
    [Fr(-3, 4), Fr(1, 4), Fr(1, 3), Fr(2, 3), 0, 1, -1],
]
TOL = 1e-7


class Ap:
    """a real number known to about 70 digits"""
    __slots__ = ('v',)

    def __init__(self, v):
        v = Fr(v)
        k = v.denominator.bit_length()
        if k > 420:
            # a power of two below is enough: keep 260 significant bits
            e = 260 - (v.numerator.bit_length() - k)
            v = Fr(round(v * Fr(2) ** e)) / Fr(2) ** e
        self.v = v

    def op(f):
        def g(self, o):
            if isinstance(o, float):
                if math.isfinite(o):
                    o = Ap(o)
                else:
                    return f(float(self.v), o)
            return Ap(f(self.v, o.v if isinstance(o, Ap) else o))
        return g
    __add__ = op(lambda a, b: a + b)
    __radd__ = op(lambda a, b: b + a)
    __sub__ = op(lambda a, b: a - b)
    __rsub__ = op(lambda a, b: b - a)
    __mul__ = op(lambda a, b: a * b)
    __rmul__ = op(lambda a, b: b * a)
    __truediv__ = op(lambda a, b: a / b)
    __rtruediv__ = op(lambda a, b: b / a)

    def __pow__(self, e):
        return Ap(self.v ** e)

    def __abs__(self):
        return Ap(abs(self.v))

    def __neg__(self):
        return Ap(-self.v)

    def __float__(self):
        return float(self.v)

    def __int__(self):
        return int(self.v)

    def __hash__(self):
        return hash(self.v)

    def cmp(f):
        return lambda self, o: f(self.v, o.v if isinstance(o, Ap) else o)
    __lt__ = cmp(lambda a, b: a < b)
    __le__ = cmp(lambda a, b: a <= b)
    __gt__ = cmp(lambda a, b: a > b)
    __ge__ = cmp(lambda a, b: a >= b)
    __eq__ = cmp(lambda a, b: a == b)


TINY = Fr(1, 10 ** 30)


def dec(f, v):
    """a function of the decimal module at high precision"""
    import decimal
    with decimal.localcontext() as c:
        c.prec = 75
        v = v.v if isinstance(v, Ap) else Fr(v)
        return Ap(Fr(f(decimal.Decimal(v.numerator) / decimal.Decimal(v.denominator))))


def near(a, b):
    if a == b:
        return True
    if (isinstance(a, Ap) or isinstance(b, Ap)) and not isinstance(a, float) and not isinstance(b, float):
        return abs(a - b) <= TINY * max(1, abs(a), abs(b))
    if isinstance(a, float) or isinstance(b, float):
        if math.isinf(a) or math.isinf(b):
            return False
        try:
            return abs(a - b) <= TOL * max(1.0, abs(a), abs(b))
        except OverflowError:
            return False
    return False


def info(t):
    """(free bound variables, fold names, names of symbols, numbers) of a term; bound variables as (sort, level)"""
    r = _info.get(t)
    if r is not None:
        return r
    fb, fd, nm, cs = set(), set(), set(), set()
    op, a = t.op, t.a
    if op == 'bv':
        fb.add((str(a[0]), a[1]))
    elif op == 'num':
        cs.add(a[0])
    elif op == 'poly':
        cs.update(c for _, c in a)
    elif op in ('app', 'st') and isinstance(a[1], str):
        if a[1].startswith('§'):
            fd.add(a[1][1:].split('.')[0])
        nm.add(a[1])
    elif op == 'len':
        nm.add('len')
    elif op == 'sel':
        nm.add('sel')
    elif op == 'fld':
        nm.add('fld.%s' % (a[2],))
    for x in X._walk(a):
        i = info(x)
        fb.update(i[0])
        fd.update(i[1])
        nm.update(i[2])
        cs.update(i[3])
    if op == 'lam':
        fb.discard((str(a[0]), a[1]))
    if op == 'fold' and fd:
        # the fold's own variables have the highest level its bodies mention
        own = set()
        for b in a[2]:
            own.update(info(b)[1])
        if own:
            fd.discard(max(own, key=int))
    r = _info[t] = (tuple(sorted(fb)), tuple(sorted(fd)), frozenset(nm), frozenset(cs))
    return r


_info = {}


class Val:
    def __init__(self, seed, presorted=None, small=False, const=None, scale=None, uniform=False):
        self.uniform = uniform
        self.r = random.Random(seed)
        self.tab = {}
        self.memo = {}
        self.steps = 0
        self.pools = {}
        self.small = small
        self.ps = presorted
        self.junk = None
        self.f32bits, self.usedf32 = 24, False
        self.const = const
        self.logs = None
        self.rounds = False
        self.twins = None
        self.scale = scale
        self.wide = False
        # how far trees go down: past every depth the code mentions
        self.tall = 2
        if const is not None and const == int(const) and 1 < const <= 130 and self.r.random() < 0.5:
            self.tall = int(const) + 2
        self.maxn = 12 if const is None else 3000
        self.maxfold = 10 if const is None else 70
        self.maxsteps = 200000
        if presorted:
            self.setup_presorted()

    # -------------------------------------------------- symbols
    def pool(self, name):
        p = self.pools.get(name)
        if p is None:
            r = self.r
            p = r.choice(POOLS) if not self.uniform else [r.choice([0, 0, Fr(1, 2), Fr(1, 2), 1])]
            c = self.const
            if self.rounds and r.random() < 0.6:
                p = r.choice([[0, 1, Fr(3, 2)], [Fr(-3, 2), Fr(3, 2), 1], [Fr(1, 4), Fr(3, 4), Fr(5, 4), Fr(7, 4)]])
            elif self.logs:
                # bounds on probabilities correspond to their logarithms among the scores
                e = math.log(abs(c))
                p = [0, Fr(round(r.choice([e * 1.04, e * 0.96, e * 1.2]) * 64), 64) * r.choice([-1, 1])] if name in self.logs else [0, 1]
            elif c is not None and r.random() < 0.6:
                k = abs(c)
                m = r.choice([k, k / 2, 2 * k, Fr(math.sqrt(k)).limit_denominator(10 ** 12), k * 4])
                b = r.choice([0, 0, 1, c])
                if k > 100 and r.random() < 0.4:
                    # literals below one appear as their inverses
                    p = r.choice([[0, 1 / Fr(2 * k), 2 / Fr(k)], [1, 1 + 1 / Fr(2 * k)], [1 / Fr(2 * k), -1 / Fr(2 * k)]])
                else:
                    p = r.choice([[b, b + m], [b, b + m, b - m], [c, c + 1, c - 1], [c, 0], [-c, c], [0, m, 2 * m, 3 * m]])
            self.pools[name] = p
        return p

    def pick(self, ty, name, key):
        r = self.r
        if ty == 'b':
            return r.random() < 0.5
        if ty == 'r':
            return Fr(r.choice(self.pool(name)))
        if ty in ('i', 'z'):
            v = self.near_const()
            if v is not None:
                return v
            if ty == 'z':
                return r.randint(-2, 3)
            if name.startswith('+'):
                return r.randint(1, 3)
            if self.wide:
                return r.randint(0, 6)
            return r.randint(0, 3)
        if ty == 's' and key and self.twins is None:
            self.twins = r.random() < 0.3
        if ty == 's' and key and self.twins and r.random() < 0.7:
            return ('sym', name, 'twin')        # equal texts
        return ('sym', name, key)

    def near_const(self):
        c = self.const
        if c is None or c != int(c) or abs(c) > 2900 or self.r.random() > 0.3:
            return None
        v = int(abs(c)) + self.r.choice([-1, 0, 0, 1, 1, 2, 3])
        return v if v >= 0 else None

    def var(self, t):
        if t in self.tab:
            return self.tab[t]
        ty, name = t.a[0], t.a[1]
        lo = X.C.minv.get(t)
        up = X.C.range.get(t)
        if up is not None and ty == 'i' and up is not X.INF:
            n = self.ev(up, {})
            if n <= 0:
                raise Undef()
            v = self.r.choice([0, int(n) - 1, self.r.randint(0, int(n) - 1)])
        elif lo is not None and ty == 'i':
            v = self.near_const()
            if v is None and self.wide:
                v = int(lo) + self.r.choice([0, 1, 1, 2, 3, 4])
            if v is None or v < lo:
                v = int(lo) + self.r.choice([3, 4, 5] if self.scale and self.r.random() < 0.6 else [0, 0, 1] if self.uniform else [0, 1, 1, 2, 2, 3] if not self.small else [0, 1, 1, 2])
        else:
            v = self.pick(ty, name, ())
        self.tab[t] = v
        return v

    def appval(self, ty, name, args):
        if name in ('irem', 'idiv') and len(args) == 2:
            x, y = args
            if y == 0:
                raise Undef()
            t = int(Fr(x) / Fr(y))
            return t if name == 'idiv' else x - y * t
        if name in ('BitAnd', 'BitOr', 'BitXor', 'Shl', 'Shr') and len(args) == 2:
            import machine
            v = machine.bitop(name, *args)
            if v is None:
                raise Undef()
            return v
        k = (name, args)
        if k in self.tab:
            return self.tab[k]
        if self.ps and name in ('si', 'sv', 'ri', 'member'):
            v = self.presorted(name, args)
        elif name == 'isleaf':
            v = self.depth(args[0]) >= self.tall or self.r.random() < (0.3 if self.tall == 2 else 0.03)
        elif name in X.C.ubapp:
            n = self.ev(X.C.ubapp[name], {})
            if n <= 0:
                raise Undef()
            v = self.r.randint(0, int(n) - 1)
        else:
            v = self.pick(ty, name, args)
        self.tab[k] = v
        return v

    @property
    def used(self):
        d = {}
        for k, v in self.tab.items():
            if isinstance(k, T):
                d[k.a[1]] = v
            elif isinstance(v, (bool, int, float, Fr)):
                d['%s(%s)' % (k[0], ', '.join(map(show, k[1])))] = v
        return d

    # -------------------------------------------------- making the assumptions true
    def satisfy(self, facts, rounds=60):
        for _ in range(rounds):
            bad = None
            for a, val in facts:
                try:
                    if bool(self.ev(a, {})) != val:
                        bad = a
                        break
                except Undef:
                    bad = a
                    break
            if bad is None:
                stale = self.stale()
                if not stale:
                    return True
                for k in stale:
                    del self.tab[k]
                self.memo.clear()
                continue
            nm = info(bad)[2]
            if nm & {'sv', 'si', 'ri'}:
                nm = nm | {'x'}
            ks = [k for k in self.tab if (k in bad.fv if isinstance(k, T) else k[0] in nm) and not self.fixed(k)]
            if not ks:
                return False
            for k in self.r.sample(ks, min(len(ks), self.r.choice([1, 1, 2, 3]))):
                del self.tab[k]
                nmk = k.a[1] if isinstance(k, T) else k[0]
                if self.r.random() < 0.3:
                    self.pools.pop(nmk, None)
            if self.ps:
                for k in [k for k in self.tab if not isinstance(k, T) and k[0] in ('si', 'sv', 'ri')]:
                    del self.tab[k]
            self.memo.clear()
        return False

    def stale(self):
        """positions chosen for a length that has changed since"""
        out = []
        for k, v in list(self.tab.items()):
            if isinstance(k, T):
                up = X.C.range.get(k) if k.a[0] == 'i' and not self.fixed(k) else None
                if up is X.INF:
                    up = None
            else:
                up = X.C.ubapp.get(k[0]) if not self.fixed(k) else None
            if up is not None:
                try:
                    if not v < self.ev(up, {}):
                        out.append(k)
                except (Undef, TypeError):
                    pass
        return out

    def fixed(self, k):
        if self.ps:
            return k in self.ps if isinstance(k, T) else k[0] in ('si', 'sv', 'ri', 'member')
        return False

    # -------------------------------------------------- comparing without evaluating everything
    def probe(self, g, w, n):
        """None, or a position and the two different values"""
        for _ in range(n):
            r = self.probe1(g, {}, w, {}, '')
            if r is not None:
                return r
        return None

    def probe1(self, g, ge, w, we, path):
        while True:
            if g.op == 'rec' and w.op == 'rec' and len(g.a[1]) == len(w.a[1]) and g.a[1]:
                i = self.r.randrange(len(g.a[1]))
                path += '.' + g.a[1][i][0]
                g, w = g.a[1][i][1], w.a[1][i][1]
                continue
            if g.op == 'enum' and w.op == 'enum':
                tg, tw = self.ev(g.a[1], ge), self.ev(w.a[1], we)
                if tg != tw:
                    return path + '#', tg, tw
                pg, pw = g.a[2][int(tg)], w.a[2][int(tg)]
                if pg is X.ABSENT or pw is X.ABSENT:
                    return None
                g, w = pg, pw
                continue
            if g.op in ('comp', 'list') and w.op in ('comp', 'list'):
                ng = self.ev(g.a[0], ge) if g.op == 'comp' else len(g.a)
                nw = self.ev(w.a[0], we) if w.op == 'comp' else len(w.a)
                if ng != nw:
                    return path + '.len', ng, nw
                if ng <= 0:
                    return None
                n = int(ng)
                c = [0, n - 1, self.r.randrange(n)]
                if self.const is not None:
                    c += [i for i in (int(abs(self.const)) + x for x in (-1, 0, 1)) if 0 <= i < n]
                i = self.r.choice(c)
                path += '[%d]' % i
                g, ge = self.at(g, ge, i)
                w, we = self.at(w, we, i)
                continue
            x, y = self.ev(g, ge), self.ev(w, we)
            return None if same(x, y) else (path, x, y)

    def at(self, t, env, i):
        if t.op == 'list':
            return t.a[i], env
        l = t.a[1]
        e = dict(env)
        e[(str(l.a[0]), l.a[1])] = i
        return l.a[2], e

    def depth(self, v):
        d = 0
        while isinstance(v, tuple) and len(v) == 3 and v[0] == 'sym' and v[1] in ('yes', 'no'):
            d += 1
            v = v[2][0]
        return d

    def setup_presorted(self):
        n, N = self.ps
        nv = self.var(n)
        Nv = nv if N is n else nv + self.r.choice([0, 1, 2])
        self.tab[N] = Nv
        self.members = sorted(self.r.sample(range(Nv), nv))

    def presorted(self, name, args):
        if name == 'member':
            return args[0] in self.members
        c = args[0]
        order = sorted(self.members, key=lambda r: (self.appval('r', 'x', (r, c)), r))
        if name == 'ri':
            if args[1] not in order:
                raise Undef()
            return order.index(args[1])
        if not 0 <= args[1] < len(order):
            raise Undef()
        r = order[int(args[1])]
        return r if name == 'si' else self.appval('r', 'x', (r, c))

    # -------------------------------------------------- evaluation
    def ev(self, t, env):
        fb, fd, _, _ = info(t)
        try:
            k = (t, tuple([env[x] for x in fb]) if fb else (), env['§'] if fd else None)
        except KeyError:
            raise NoEval('bv')
        r = self.memo.get(k, self)
        if r is not self:
            return r
        self.steps += 1
        if self.steps > self.maxsteps:
            raise OutOfTime()
        r = self.ev1(t, env)
        self.memo[k] = r
        return r

    def lam(self, l, env, *vals):
        e = dict(env)
        for v in vals:
            if l.op != 'lam':
                raise NoEval('lam')
            e[(str(l.a[0]), l.a[1])] = v
            l = l.a[2]
        return self.ev(l, e)

    def rng(self, n, env):
        v = self.ev(n, env)
        if v == math.inf:
            raise NoEval('inf')
        if isinstance(v, (str, tuple)):
            raise Undef()
        if self.scale and n.op == 'num':
            v = self.scale.get(v, v)
        if v > self.maxn:
            raise NoEval('range')
        return range(int(v))

    def anywhere(self, n, env):
        """a position that does not exist: it cannot matter, so that two meanings for it have to agree"""
        r = self.rng(n, env)
        if self.junk is None or not len(r):
            raise Undef()
        return r[-self.junk]

    def ev1(self, t, env):
        op, a = t.op, t.a
        if op == 'num':
            return a[0]
        if op == 'true':
            return True
        if op == 'false':
            return False
        if op == 'inf':
            return math.inf
        if op == 'absent':
            return 'absent'
        if op == 'var':
            return self.var(t)
        if op == 'bv':
            try:
                return env[(str(a[0]), a[1])]
            except KeyError:
                raise NoEval('bv')
        if op == 'poly':
            s = Fr(0)
            sc = self.scale if self.scale and X.sort(t) in ('i', 'z') else None
            for m, c in a:
                p = c if sc is None or m else sc.get(c, c)
                for x, e in m:
                    v = self.ev(x, env)
                    if isinstance(v, bool) or not isinstance(v, (int, float, Fr, Ap)):
                        raise Undef()
                    if e < 0:
                        if v == 0:
                            raise Undef()
                        if isinstance(v, int):
                            v = Fr(v)
                    try:
                        p = p * (v ** e if e != 1 else v)
                    except OverflowError:
                        raise Undef()
                s = s + p
            if isinstance(s, float) and math.isnan(s):
                raise Undef()
            return s
        if op == 'ite':
            try:
                c = self.ev(a[0], env)
            except Undef:
                # conditions are ordered arbitrarily: a meaningless one does not matter when both sides agree
                x, y = self.ev(a[1], env), self.ev(a[2], env)
                if same(x, y):
                    return x
                raise
            return self.ev(a[1] if c else a[2], env)
        if op == 'eqz':
            v = self.ev(a[0], env)
            if isinstance(v, float):
                return abs(v) < TOL
            if isinstance(v, Ap):
                return abs(v) < TINY
            return v == 0
        if op == 'pos':
            v = self.ev(a[0], env)
            if not isinstance(v, (int, float, Fr, Ap)):
                raise Undef()
            if isinstance(v, float):
                return v > TOL
            if isinstance(v, Ap):
                return v > TINY
            return v > 0
        if op == 'eqo':
            return self.ev(a[0], env) == self.ev(a[1], env)
        if op in ('exp', 'abs', 'inv', 'trunc'):
            v = self.ev(a[0], env)
            if op == 'abs':
                return abs(v)
            if op == 'exp':
                if v == 0:
                    return Fr(1)
                if isinstance(v, float) or abs(v) > 700:
                    try:
                        return math.exp(v)
                    except OverflowError:
                        raise Undef()
                return dec(lambda d: d.exp(), v)
            if op == 'trunc':
                return max(0, int(v.v if isinstance(v, Ap) else v))
            if v == 0:
                raise Undef()
            return 1 / v
        if op == 'fn1':
            if len(a) < 2:
                raise Undef()
            return self.fn1(a[0], self.ev(a[1], env))
        if op in ('app', 'st'):
            if isinstance(a[1], str) and a[1].startswith('§'):
                lvl, j = a[1][1:].split('.')
                fd = env.get('§')
                args = tuple(self.ev(x, env) for x in a[2:])
                while fd is not None:
                    if fd[0] == lvl:
                        return self.foldval(fd[1], int(j), fd[2], args, fd[3])
                    fd = fd[4]
                raise NoEval('fold var')
            if self.scale and a[1] in ('irem', 'idiv') and a[3].op == 'num':
                return self.appval(a[0], a[1], (self.ev(a[2], env), self.scale.get(a[3].a[0], a[3].a[0])))
            if a[1] == 'opq':
                return self.lam(a[2], env, 0)
            if a[1] == 'cats':
                n = self.rng(a[2], env)
                return ''.join(strv(self.lam(a[3], env, i)) for i in n)
            if a[1] == 'tag':
                v = self.ev(a[2], env)
            args = tuple(self.ev(x, env) if isinstance(x, T) else x for x in a[2:])
            return self.appval(a[0], a[1], args)
        if op == 'sum':
            s = Fr(0)
            for i in self.rng(a[0], env):
                s = s + self.lam(a[1], env, i)
            return s
        if op == 'exists':
            for i in self.rng(a[0], env):
                if self.lam(a[1], env, i):
                    return True
            return False
        if op == 'argmin':
            best = None
            for i in self.rng(a[0], env):
                if not self.lam(a[1], env, i):
                    continue
                try:
                    k = self.lam(a[2], env, i)
                except Undef:
                    continue        # 0/0: not a number is never smaller
                if best is None or (k < best[0] and not near(k, best[0])) or (a[3] and near(k, best[0])):
                    best = (k, i)
            if best is None:
                return self.anywhere(a[0], env)
            return best[1]
        if op == 'nth':
            j = self.ev(a[2], env)
            for i in self.rng(a[0], env):
                if self.lam(a[1], env, i):
                    if j == 0:
                        return i
                    j -= 1
            return self.anywhere(a[0], env)
        if op == 'first':
            for i in self.rng(a[0], env):
                if self.lam(a[1], env, i):
                    return i
            return self.ev(a[0], env)
        if op == 'perm':
            n = self.rng(a[0], env)
            keys = [self.lam(a[1], env, i) for i in n]
            keys = [tuple(x for _, x in k[1]) if isinstance(k, tuple) else (k,) for k in keys]
            # an unstable sort may return equal elements in any order: take the reverse one
            o = sorted(n, key=lambda i: (keys[i], i if a[2] else -i))
            j = self.ev(a[3], env)
            if not 0 <= j < len(o):
                if self.junk is None or not o:
                    raise Undef()
                return o[-self.junk]
            return o[int(j)]
        if op == 'comp':
            return ('vec',) + tuple(self.lam(a[1], env, i) for i in self.rng(a[0], env))
        if op == 'list':
            return ('vec',) + tuple(self.ev(x, env) for x in a)
        if op == 'rec':
            return ('rec', tuple((n, self.ev(x, env)) for n, x in a[1]))
        if op == 'enum':
            tg = self.ev(a[1], env)
            pays = []
            for i, x in enumerate(a[2]):
                pays.append(self.ev(x, env) if (i == tg and x is not X.ABSENT) else None)
            return ('enum', a[0], tg, tuple(pays))
        if op == 'len':
            v = self.ev(a[0], env)
            if isinstance(v, tuple) and v and v[0] == 'vec':
                return len(v) - 1
            return self.appval('i', 'len', (v,))
        if op == 'sel':
            v = self.ev(a[1], env)
            i = self.ev(a[2], env)
            if isinstance(v, tuple) and v and v[0] == 'vec':
                if not 0 <= i < len(v) - 1:
                    raise Undef()
                return v[1 + int(i)]
            return self.appval(a[0], 'sel', (v, i))
        if op == 'fld':
            v = self.ev(a[1], env)
            if isinstance(v, tuple) and v and v[0] == 'rec':
                for n, x in v[1]:
                    if n == a[2]:
                        return x
            return self.appval(a[0], 'fld.' + a[2], (v,))
        if op == 'str':
            return a[0]
        if op == 'cat':
            return ''.join(strv(self.ev(x, env)) for x in a)
        if op == 'fnref':
            return ('fn', a[0])
        if op == 'fix':
            lam = a[1]
            vals = tuple(self.ev(x, env) for x in a[2:])
            for _ in range(200):
                e = dict(env)
                l = lam
                for v in vals:
                    e[(str(l.a[0]), l.a[1])] = v
                    l = l.a[2]
                r = self.fixstep(l, e)
                if r[0] == 'done':
                    return r[1]
                vals = r[1]
            raise Undef()
        if op == 'rc':
            return ('sym', 'rc', tuple(self.ev(x, env) if isinstance(x, T) else x for x in a[2:]))
        if op == 'fold':
            k = self.ev(a[1], env)
            if k > self.maxfold:
                raise NoEval('fold')
            args = tuple(self.ev(x, env) for x in a[5:])
            i = info(t)
            e0 = tuple((x, env[x]) for x in i[0] if x in env)
            return self.foldval(t, a[4], int(k), args, (e0, env.get('§') if i[1] else None))
        raise NoEval(op)

    def fixstep(self, l, e):
        while l.op == 'ite':
            l = l.a[1] if self.ev(l.a[0], e) else l.a[2]
        if l.op == 'rc':
            return ('again', tuple(self.ev(x, e) for x in l.a[2:]))
        return ('done', self.ev(l, e))

    def foldval(self, t, j, k, args, ctx):
        key = ('fold', t, j, k, args, ctx)
        if key in self.memo:
            return self.memo[key]
        self.steps += 1
        if self.steps > self.maxsteps:
            raise OutOfTime()
        env = dict(ctx[0])
        if ctx[1] is not None:
            env['§'] = ctx[1]
        bodies, inits = t.a[2], t.a[3]
        if k == 0:
            r = self.lam(inits[j], env, *args) if inits[j] is not X.ABSENT else 'absent'
        else:
            lvl = self.level(t)
            env['§'] = (lvl, t, k - 1, ctx, ctx[1])
            r = self.lam(bodies[j], env, k - 1, *args)
        self.memo[key] = r
        return r

    def level(self, t):
        """the binder level of a fold: the highest § name used by its bodies"""
        own = [-1]
        for b in t.a[2]:
            own += map(int, info(b)[1])
        return str(max(own))

    def fn1(self, name, v):
        if name == 'f32':
            self.usedf32 = True
            return bits(v, self.f32bits)
        try:
            if not isinstance(v, float) and name in ('sqrt', 'ln') and v > 0:
                return dec(lambda d: getattr(d, name)(), v)
            f = float(v)
            if name in ('floor', 'ceil', 'round', 'trunc'):
                v = v.v if isinstance(v, Ap) else v
                return {'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc,
                        'round': lambda x: math.floor(abs(x) + Fr(1, 2)) * (1 if x >= 0 else -1)}[name](v)
            if name == 'sqrt':
                return math.sqrt(f)
            if name == 'ln':
                return math.log(f)
            return getattr(math, name)(f)
        except (ValueError, OverflowError, AttributeError):
            raise Undef()


def bits(v, k):
    """v rounded to k significant bits"""
    if isinstance(v, Ap):
        v = v.v
    if not isinstance(v, (int, Fr)):
        if math.isinf(v) or math.isnan(v):
            return v
        v = Fr(v)
    if v == 0:
        return v
    e = 0
    while abs(v) >= 1 << k:
        v, e = v / 2, e + 1
    while abs(v) < 1 << (k - 1):
        v, e = v * 2, e - 1
    return Fr(round(v)) * Fr(2) ** e


def strv(v):
    return v if isinstance(v, str) else repr(v)


def show(v):
    if isinstance(v, Ap):
        return repr(float(v))
    if isinstance(v, Fr):
        return str(v)
    if isinstance(v, tuple) and v and v[0] == 'vec':
        return '[' + ', '.join(map(show, v[1:])) + ']'
    if isinstance(v, tuple) and v and v[0] == 'rec':
        return '{' + ', '.join('%s: %s' % (n, show(x)) for n, x in v[1]) + '}'
    if isinstance(v, tuple) and v and v[0] == 'enum':
        return '%s#%s(%s)' % (v[1].split('::')[-1], v[2], ', '.join(show(x) for x in v[3] if x is not None))
    if isinstance(v, tuple) and len(v) == 3 and v[0] == 'sym':
        return '%s(%s)' % (v[1], ', '.join(map(show, v[2]))) if v[2] else str(v[1])
    return str(v)


def same(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, (int, float, Fr, Ap)) and isinstance(b, (int, float, Fr, Ap)):
        return near(a, b)
    return a == b


def constants(got, want, facts):
    """unusual literals of the compared terms, commonest first"""
    cs = set(info(got)[3] | info(want)[3])
    for a, _ in facts:
        cs |= info(a)[3]
    cs = {abs(c) for c in cs if isinstance(c, (int, Fr))}
    return sorted(c for c in cs if c not in (0, 1, 2, Fr(1, 2)))[:6]


def in_exp(t, seen=None):
    """names of the symbols below exponentials"""
    seen = set() if seen is None else seen
    if t in seen:
        return set()
    seen.add(t)
    if t.op == 'exp':
        return set(info(t)[2])
    out = set()
    for x in X._walk(t.a):
        out |= in_exp(x, seen)
    return out


def rounding(t, seen=None):
    """a number is rounded somewhere in t"""
    seen = set() if seen is None else seen
    if t in seen:
        return False
    seen.add(t)
    if t.op == 'trunc' or t.op == 'fn1' and t.a[0] in ('floor', 'ceil', 'round', 'trunc'):
        return True
    return any(rounding(x, seen) for x in X._walk(t.a))


def scaled(cs, base=2):
    """a map from large whole literals to small ones, keeping their order and small distances"""
    big = [c for c in cs if c == int(c) and c > 8]
    if not big:
        return None
    mp, last, cur = {}, None, base
    for c in big:
        cur = cur + min(int(c - last), 2) if last is not None else base
        last = c
        mp[c] = Fr(cur)
        mp[-c] = Fr(-cur)
    return mp


def disagreements(got, want, facts, limit=24):
    """conditions under which the two terms come down to different ones"""
    out, todo, steps = [], [(got, want, ())], 0
    while todo and steps < 160 and len(out) < limit:
        g, w, path = todo.pop(0)
        steps += 1
        if g is w or len(path) > 14:
            continue
        if g.op == 'rec' and w.op == 'rec' and len(g.a[1]) == len(w.a[1]):
            todo += [(x, y, path) for (_, x), (_, y) in zip(g.a[1], w.a[1])]
            continue
        if g.op == 'comp' and w.op == 'comp':
            n, k = X.length(g), X.length(w)
            if n is k:
                t = X.fresh('i')
                X.C.range[t] = n
                todo.append((X.index(g, t), X.index(w, t), path))
            else:
                todo.append((n, k, path))
            continue
        c = g.a[0] if g.op == 'ite' else w.a[0] if w.op == 'ite' else None
        if c is None:
            out.append(path)
            continue
        for val in (True, False):
            p = path + ((c, val),)
            todo.append((X.simp(g, tuple(facts) + p), X.simp(w, tuple(facts) + p), p))
    return [p for p in out if p]


def separate(got, want, facts=(), presorted=None, tries=400, seed=1, time_limit=20):
    """-> ('sep', text) | ('same', evaluations) | ('noeval', why)"""
    import time
    t0 = time.time()
    ok = 0
    why = ''
    cs = constants(got, want, facts)
    logs = in_exp(got) | in_exp(want)
    scs = [s for s in (scaled(cs), scaled(cs, 1)) if s]
    rounds = rounding(got) or rounding(want)
    paths = None
    for i in range(tries if tries > 400 else 1600):
        if time.time() - t0 > (time_limit if i < tries else 5):
            break
        const = scale = None
        if i == 40:
            try:
                import loops
                paths = loops.limited(4, lambda: disagreements(got, want, facts))
                paths = None if paths is loops.OVER else paths
            except (RecursionError, TypeError, KeyError, AttributeError, ValueError):
                paths = None
        path = paths[i // 5 % len(paths)] if paths and i % 5 == 0 else ()
        if path:
            pass
        elif cs and i % 3 == 1:
            const = cs[(i // 3) % len(cs)]
        if scs and i % 3 == 2 and not path:
            scale = scs[i // 12 % 2]
            const = Fr(list(scale.values())[0]) if i % 2 else None
        v = Val(seed * 100003 + i, presorted, small=i % 2 == 0, const=const, scale=scale, uniform=i % 4 == 3 and const is None)
        if i % 4 >= 2:
            v.f32bits = 1
        v.rounds = rounds and const is None and i % 4 < 2
        v.wide = i % 10 == 9 or (path and i % 2)
        if const is not None and scale is None and logs and abs(const) > 100 and i % 2:
            v.logs = logs
        try:
            if not v.satisfy(tuple(facts) + tuple(path)):
                continue
            if const is not None:
                r = v.probe(got, want, 6)
                ok += 1
                if r is None:
                    continue
                pos, g, w = r
                pos = ' at %s' % pos if pos else ''
            else:
                try:
                    w = v.ev(want, {})
                    g = v.ev(got, {})
                except Undef:
                    # positions outside a sorted order may cancel out: judge by two meanings for them
                    agree = False
                    for junk in (0, 1):
                        v.memo.clear()
                        v.junk = junk
                        w = v.ev(want, {})
                        g = v.ev(got, {})
                        agree = agree or same(g, w) or (junk and (g, w) != first)
                        first = (g, w)
                    if agree:
                        ok += 1
                        continue
                ok += 1
                if same(g, w):
                    continue
                pos = ''
        except Undef:
            if os.environ.get('DBGV'):
                import traceback; print('undef', i, traceback.format_exc()[-300:])
            continue
        except OutOfTime:
            if os.environ.get('DBGV'):
                print('outoftime', i)
            continue
        except (NoEval, RecursionError, TypeError, KeyError, OverflowError) as e:
            why = '%s: %s' % (type(e).__name__, e)
            if i > 60 and not ok:
                break
            continue
        note = ''
        if scale:
            note = ' (large literals scaled down: %s)' % ', '.join('%s->%s' % (show(a), show(b)) for a, b in scale.items() if a > 0)
        if v.usedf32 and v.f32bits < 24:
            note += ' (single precision scaled down to %d significant bits)' % v.f32bits
        return ('sep', 'with %s%s: the code gives %s, required %s%s' % (
            ', '.join('%s=%s' % (k, show(x)) for k, x in list(v.used.items())[:40]), note, show(g)[:1500], show(w)[:1500], pos))
    if ok:
        return ('same', ok)
    return ('noeval', why or 'no admissible valuation')
