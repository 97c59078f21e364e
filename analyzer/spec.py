"""Obligations: what a check compares, how a comparison is decided, and what is reported."""
import signal, sys, time, traceback
import terms as X, machine as M, inputs as I, valuation, equiv, stdmodel, lint
from terms import T, TRUE, FALSE, UNIT, ABSENT, ZERO, ONE, Abort
from machine import Undecided


EXPLAIN = (
    'Every function in scope is summarised from its typed source (rustc THIR, extracted from /repo on this run) into a term '
    'over its symbolic arguments: a forward dataflow analysis whose transfer functions are the typed expressions, whose '
    'joins are guarded merges, and whose loops, iterator chains and recursions are closed by algebraic summaries (sums, '
    'quantifiers, ranks, permutations, folds, fixed points). Terms are kept in a canonical normal form; an obligation is '
    'discharged when the normal form of the code equals the normal form of the required value, or when a forbidden '
    'condition normalises to false. No code is run and no path is enumerated.')
ASSUME = [
    'float arithmetic is treated as real arithmetic (rounding and overflow are outside the properties unless stated); comparisons with NaN only where a property mentions NaN',
    'integers do not overflow',
    'library calls (std, rayon, csv) behave as modelled in analyzer/stdmodel.py; rayon adaptors are modelled as their sequential counterparts, justified by the effect rules of C09',
    'inputs satisfy the shape preconditions stated in the property (rectangular data, at least one row unless stated, column in range)',
    'rustc type checking, borrow checking and THIR construction are trusted']


class Missing(Exception):
    pass


class TooLong(BaseException):
    pass


def alarm(sig, fr):
    raise TooLong()


class Ob:
    def __init__(self, name, status, detail='', where='', text=''):
        self.name, self.status, self.detail, self.where, self.text = name, status, detail, where, text


SIMP_LIMIT = 8


def simp(t, facts):
    """simplified under the facts, or as it is when that takes too long (then it may only be refuted)"""
    import loops
    if X.C.coarse:
        return t
    r = loops.limited(SIMP_LIMIT, lambda: X.simp(t, facts))
    if r is loops.OVER:
        X.C.coarse = True
        return t
    return r


class Summary:
    def __init__(self, r, m, st, facts, fn):
        self.r, self.m, self.st, self.facts, self.fn = r, m, st, facts, fn

    def where(self):
        return '%s (%s)' % (self.fn['key'], self.fn.get('sp', ''))


class A:
    """analysis context of one property"""
    def __init__(self, prog, tier='quick', seed=1):
        self.prog, self.tier, self.seed = prog, tier, seed
        self.obs = []
        self.fns, self.calls, self.loops, self.terms = set(), 0, [], 0
        self.unknown = {}
        self.limit = 60 if tier == 'quick' else 240
        self.deadline = None
        self.ps = None
        self.cover = {}
        self.rules = set()
        self.cur = ''

    # ------------------------------------------------------------ locating anchors
    def fn(self, name, **kw):
        l = [f for f in self.prog.find(name, **kw)]
        if not l and kw.get('module'):
            k2 = dict(kw)
            k2.pop('module')
            l = self.prog.find(name, **k2)
        if len(l) != 1:
            raise Missing('%s %s: %d candidates' % (name, kw, len(l)))
        return l[0]

    def method(self, ty, name):
        l = self.prog.find(name, self_ty=ty)
        if len(l) != 1:
            raise Missing('%s::%s: %d candidates' % (ty, name, len(l)))
        return l[0]

    # ------------------------------------------------------------ a fresh machine
    def csv_fields(self):
        """does the program read csv records as text?"""
        if getattr(self.prog, '_csv_fields', None) is None:
            self.prog._csv_fields = any('csv::' in (g.get('path') or '') and g['path'].split('::')[-1].endswith('records')
                                        for f in self.prog.fns.values() if f.get('body') for e, g in lint.calls(f))
        return self.prog._csv_fields

    def machine(self, leaf=None, k=None, tree=True):
        X.reset()
        self.ps = None
        m = M.Machine(self.prog)
        stdmodel.CSV['fields'] = self.csv_fields()
        if tree is not None:
            m.watch.add('index')
        X.C.fieldty = I.fieldty(m)
        I.C_LEAF.clear()
        if leaf:
            I.C_LEAF['data'] = ('adt', leaf)
        if k is not None:
            I.C_LEAF['#K'] = k
        if tree:
            X.C.field_hook = I.tree_hook(m)
        return m

    def run(self, m, f, args, facts=TRUE, st=None):
        """summary of f on symbolic arguments under the assumption facts"""
        st = st or M.St()
        fl = tuple(X.conj_lits(facts))
        old = X.C.facts
        r = m.call_value(f['value'], args, st) if 'value' in f else m.run(f['key'], args, st)
        X.C.facts = old
        if st.dead:
            r = ABSENT
        r = simp(r, fl + tuple(X.conj_lits(st.pc)))
        self.note(m)
        return Summary(r, m, st, fl, f)

    def note(self, m):
        self.fns |= m.visited
        self.calls += m.calls
        self.loops += [x for x in m.loops if x not in self.loops]
        self.unknown.update(m.unknown_calls)

    # ------------------------------------------------------------ deciding
    def ok(self, name, where='', text=''):
        if X.C.weak:
            return self.undecided(name, X.C.weak, where)
        self.obs.append(Ob(self.cur + name, 'ok', '', where, text))

    def bad(self, name, detail, where=''):
        self.obs.append(Ob(self.cur + name, 'violation', detail, where))

    def undecided(self, name, detail, where=''):
        self.obs.append(Ob(self.cur + name, 'undecided', detail, where))

    def eq(self, name, got, want, facts=(), where='', raw=False):
        """the two terms denote the same function of the inputs"""
        if isinstance(facts, T):
            cs = cases(facts)
            if len(cs) != 1:
                return all([self.eq(name + (' (case %d)' % (i + 1)), got, want, c, where) for i, c in enumerate(cs)])
            facts = cs[0]
        if isinstance(where, Summary):
            facts = tuple(facts) + tuple(where.facts)
            where = where.where()
        g, w = got, want
        if not raw:
            g, w = simp(got, facts), simp(want, facts)
        self.terms += g.sz + w.sz
        if g is w and (g is ABSENT or g is UNIT):
            self.undecided(name, 'nothing to compare', where)
            return False
        if g is w:
            self.ok(name, where, X.show(w)[:400])
            return True
        if contains_unk(g):
            self.undecided(name, 'not understood: %s' % sorted(map(str, g.unk))[:5], where)
            return False
        if equiv.equal(g, w, facts, 8 if self.tier == 'quick' else 60):
            self.ok(name, where, X.show(w)[:400] + '  (by cases)')
            return True
        v = valuation.separate(g, w, facts, self.ps, seed=self.seed, tries=400 if self.tier == 'quick' else 4000,
                               time_limit=15 if self.tier == 'quick' else 90)
        if v[0] == 'sep' and X.C.cut:
            self.undecided(name, 'a loop took too long to solve; it seems that %s' % (v[1],), where)
        elif v[0] == 'sep':
            self.bad(name, '%s\n  computed: %s\n  required: %s' % (v[1], X.show(g)[:3000], X.show(w)[:3000]), where)
        else:
            self.undecided(name, 'normal forms differ but no separating valuation (%s): %s  /  %s' %
                           (v, X.show(g)[:1500], X.show(w)[:1500]), where)
        return False

    def never(self, name, cond, facts=(), where='', what=''):
        """the condition is unsatisfiable"""
        if isinstance(facts, T):
            cs = cases(facts)
            if len(cs) != 1:
                return all([self.never(name + (' (case %d)' % (i + 1)), cond, c, where, what) for i, c in enumerate(cs)])
            facts = cs[0]
        if isinstance(where, Summary):
            facts = tuple(facts) + tuple(where.facts)
            where = where.where()
        c = simp(cond, facts)
        self.terms += c.sz
        if c is not FALSE:
            # what holds at no position does not hold at the ones the condition mentions
            alls = [x for x in X.tree_atoms(c) if x.op == 'exists']
            if alls and len(alls) <= 6:
                c2 = c
                for v in sorted((v for v in c.fv if v in X.C.range), key=str):
                    for x in alls:
                        if X.C.range[v] is x.a[0]:
                            c2 = X.and_(c2, X.or_(x, X.not_(X.inst(x.a[1], v))))
                if c2 is not c and X.simp(c2, facts) is FALSE:
                    c = FALSE
        if c is FALSE:
            self.ok(name, where, what)
            return True
        if contains_unk(c):
            self.undecided(name, 'not understood: ' + X.show(c)[:500], where)
            return False
        v = valuation.separate(c, FALSE, facts, self.ps, seed=self.seed, tries=400 if self.tier == 'quick' else 4000,
                               time_limit=15 if self.tier == 'quick' else 90)
        if v[0] == 'sep' and X.C.cut:
            self.undecided(name, 'a loop took too long to solve; it seems that %s' % (v[1],), where)
        elif v[0] == 'sep':
            self.bad(name, '%s: %s (condition %s)' % (what, v[1], X.show(c)[:1500]), where)
        else:
            self.undecided(name, '%s: condition not refuted, not witnessed %s: %s' % (what, v, X.show(c)[:800]), where)
        return False

    def no_panics(self, s, name='no panic on valid input', allow=FALSE, facts=(), skip=()):
        """every recorded panic condition is unsatisfiable, or implied by allow"""
        n = 0
        done = {}
        for pc, kind, sp, fn in s.m.panics:
            if kind in skip:
                continue
            c = X.and_(pc, X.not_(allow)) if allow is not FALSE else pc
            key = (c, kind, sp)
            if key in done:
                continue
            done[key] = 1
            n += 1
            self.never('%s [%s in %s]' % (name, kind, fn.split('::{closure')[0].split('::')[-1]), c,
                       facts if isinstance(facts, T) and not s.facts else (X.and_(facts, relit(s.facts)) if isinstance(facts, T) else tuple(facts) + s.facts), '%s (%s)' % (fn, sp), '%s at %s' % (kind, sp))
        if not n:
            self.ok(name, s.where(), 'no reachable panic recorded')

    # ------------------------------------------------------------ driving
    def group(self, name, thunk):
        old = self.cur
        self.cur = name + ': '
        limit = self.limit if self.deadline is None else min(self.limit, int(self.deadline - time.time()))
        if limit <= 0:
            self.undecided('time', 'the time of this check is used up')
            self.cur = old
            return []
        signal.signal(signal.SIGALRM, alarm)
        signal.alarm(limit)
        n0 = len(self.obs)
        try:
            thunk()
        except Missing as e:
            self.bad('anchor', 'public anchor not found: %s' % e)
        except TooLong:
            self.undecided('time', 'analysis exceeded %d s' % limit)
        except (Undecided, Abort) as e:
            self.undecided('analysis', '%s: %s' % (type(e).__name__, e))
        except RecursionError:
            self.undecided('analysis', 'recursion depth')
        except Exception:
            self.undecided('analysis', 'internal: ' + traceback.format_exc()[-1500:])
        finally:
            signal.alarm(0)
            self.cur = old
        return self.obs[n0:]


def relit(lits):
    return X.and_(*[X.ite(a, TRUE, FALSE) if v else X.ite(a, FALSE, TRUE) for a, v in lits])


def cases(t):
    """the disjoint ways in which a condition holds, as literal tuples"""
    lits = tuple(X.conj_lits(t))
    rest = t
    for a, v in lits:
        rest = (rest.a[1] if v else rest.a[2]) if rest.op == 'ite' else TRUE
    if rest is TRUE:
        return [lits]
    if rest is FALSE:
        return []
    a, hi, lo = rest.a
    return [lits + ((a, True),) + c for c in cases(hi)] + [lits + ((a, False),) + c for c in cases(lo)]


def contains_unk(t):
    return bool(t.unk)
