"""Interprocedural value-flow analysis over the extracted THIR.

Every function body is interpreted once over the abstract domain of terms.py: variables hold terms over the
inputs, branches are joined as decision trees, loops are solved by recurrence classification (loops.py),
recursion is summarised inductively.  Nothing is executed and no path is enumerated.
"""
import json
import os
import terms as X
from terms import T, TRUE, FALSE, UNIT, ABSENT, ZERO, ONE, INF, Abort

OPT, RES = X.OPT, X.RES
CF = 'core::ops::control_flow::ControlFlow'
ORD = 'core::cmp::Ordering'
NVAR = {OPT: ['None', 'Some'], RES: ['Ok', 'Err'], CF: ['Continue', 'Break'], ORD: ['Less', 'Equal', 'Greater']}
TRANSP = {'alloc::boxed::Box', 'alloc::sync::Arc', 'alloc::rcs::arc::Arc', 'alloc::rc::Rc', 'alloc::rcs::rc::Rc',
          'alloc::borrow::Cow', 'core::pin::Pin'}


class Undecided(Exception):
    pass


# ------------------------------------------------------------------ objects held inside terms
OBJ = {}
_objkey = {}


def mkobj(o, key=None):
    if key is not None and key in _objkey:
        return _objkey[key]
    n = len(OBJ)
    t = X.mk('obj', n)
    OBJ[n] = o
    if key is not None:
        _objkey[key] = t
    return t


def obj(t):
    return OBJ[t.a[0]] if isinstance(t, T) and t.op == 'obj' else None


class MRef:
    def __init__(self, cell, path):
        self.cell, self.path = cell, path


def mref(cell, path):
    return mkobj(MRef(cell, path), ('mref', cell, path))


class Phi:
    """the place behind a reference that is one of two, depending on a condition"""
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


_phis = {}


def join_refs(c, x, y):
    a, b = obj(x), obj(y)
    if not isinstance(a, MRef) or not isinstance(b, MRef):
        return None
    p = _phis.get((c, x, y))
    if p is None:
        p = _phis[(c, x, y)] = Phi(c, a, b)
    return mref(p, ())


X.JOIN_OBJ[0] = join_refs


class Clo:
    def __init__(self, key, env, types, muts=()):
        self.key, self.env, self.types, self.muts = key, env, types, muts


def nodes_in(x):
    """every syntax node below x"""
    if isinstance(x, dict):
        if 'k' in x:
            yield x
        for y in x.values():
            yield from nodes_in(y)
    elif isinstance(x, (list, tuple)):
        for y in x:
            yield from nodes_in(y)


class It:
    """lazy iterator: position k in [0,n) yields elem(st,k) when guard(st,k)"""
    def __init__(self, n, elem, guard=None, par=False, src=None):
        self.n, self.elem, self.guard, self.par = n, elem, guard, par
        self.src = src


def refs_in(t):
    """every mutable reference held in t"""
    if t.op == 'obj':
        o = OBJ[t.a[0]]
        if isinstance(o, MRef):
            return [o]
        if isinstance(o, Clo):
            return list(o.muts)
        return []
    if t.op in ('rec', 'enum', 'list', 'ite', 'comp', 'lam', 'unk'):
        return [r for x in X._walk(t.a) for r in refs_in(x)]
    return []


def isnan(t):
    return X.lift(lambda x: FALSE if x.op == 'num' or x in X.C.ordered else X.app('b', 'nan', x), t)


def fnref(key, targs=()):
    return X.mk('fnref', key)


def unk(name, ty='o', *deps):
    return X.mk('unk', ty, name, *[d for d in deps if isinstance(d, T)])


def has_rc(t, _memo={}):
    r = _memo.get(t)
    if r is None:
        r = (t.op == 'rc' and t.a[1] == 'rc') or any(has_rc(x) for x in X._walk(t.a))
        _memo[t] = r
    return r


class St:
    __slots__ = ('cells', 'pc', 'dead')

    def __init__(self, cells=None, pc=TRUE, dead=False):
        self.cells = cells if cells is not None else {}
        self.pc = pc
        self.dead = dead

    def fork(self):
        return St(dict(self.cells), self.pc, self.dead)

    def adopt(self, o):
        self.cells, self.pc, self.dead = o.cells, o.pc, o.dead


class Env:
    __slots__ = ('v', 'up')

    def __init__(self, up=None):
        self.v = {}
        self.up = up

    def get(self, k):
        e = self
        while e is not None:
            if k in e.v:
                return e.v[k]
            e = e.up
        return None


class Frame:
    def __init__(self, fn, env):
        self.fn = fn
        self.env = env
        self.T = fn['_types']
        self.rets = []
        self.labels = {}


def bitop(op, x, y):
    x, y = int(x), int(y)
    if x < 0 or y < 0 or op in ('Shl', 'Shr') and y > 63:
        return None
    return {'BitAnd': lambda: x & y, 'BitOr': lambda: x | y, 'BitXor': lambda: x ^ y,
            'Shl': lambda: x << y, 'Shr': lambda: x >> y}[op]()


class Machine:
    def __init__(self, prog):
        self.prog = prog
        self.fns = prog.fns
        self.adts = prog.adts
        self.frames = []
        self.stack = []
        self.ncell = 0
        self.panics = []
        self.log = []            # effects worth reporting: (kind, detail, span)
        self.boundary = {}       # fn key -> handler(machine, args, st, e) -> value or None
        self.rec_args = {}
        self.rec_result = {}
        self.outer_pc = []
        self.visited = set()
        self.calls = 0
        self.loopno = 0
        self.loops = []
        self.unknown_calls = {}
        self.stdout = None
        self.span = ''
        self.watch = set()
        self.watched = {}
        self.depth_budget = 0

    # -------------------------------------------------------------- cells
    def newcell(self, st, v):
        self.ncell += 1
        st.cells[self.ncell] = v
        return self.ncell

    def read(self, st, cell, path=()):
        if isinstance(cell, Phi):
            v = self.join(cell.c, self.read(st, cell.a.cell, cell.a.path), self.read(st, cell.b.cell, cell.b.path))
            for p in path:
                v = self.proj(v, p)
            return v
        v = st.cells.get(cell)
        if v is None:
            return unk('uninit', 'o')
        for p in path:
            v = self.proj(v, p)
        return v

    def proj(self, v, p):
        k = p[0]
        if k == 'f':
            return X.field(v, p[1])
        if k == 'i':
            return X.index(v, p[1])
        if k == 'p':
            return X.payload(v, p[1], p[2])
        if k == 's':
            return self.slice(v, p[1], p[2])
        raise Abort('projection')

    def slice(self, v, lo, n):
        return X.comp(n, lambda w: X.index(v, X.add(w, lo)))

    def write(self, st, cell, path, val):
        if isinstance(cell, Phi):
            a, b = cell.a, cell.b
            olda = self.read(st, a.cell, a.path)
            self.write(st, a.cell, a.path, self.join(cell.c, self.upd(olda, path, val), olda))
            oldb = self.read(st, b.cell, b.path)
            self.write(st, b.cell, b.path, self.join(cell.c, oldb, self.upd(oldb, path, val)))
            return
        if not path:
            st.cells[cell] = val
        else:
            st.cells[cell] = self.upd(st.cells[cell], path, val)

    def upd(self, v, path, val):
        if not path:
            return val
        p, rest = path[0], path[1:]
        k = p[0]
        if k == 'f':
            if v.op != 'rec':
                v = self.expand(v)
            if v.op == 'ite':
                return X.ite(v.a[0], self.upd(v.a[1], path, val), self.upd(v.a[2], path, val))
            if v.op != 'rec':
                raise Abort('field update of opaque value')
            return X.mk_rec(v.a[0], [(n, self.upd(x, rest, val) if n == p[1] else x) for n, x in v.a[1]])
        if k == 'i':
            if v.op == 'grow':
                return unk('write into a growing vector', 'o', v)
            new = self.upd(X.index(v, p[1]), rest, val)
            return X.store(v, p[1], new)
        if k == 'p':
            if v.op != 'enum':
                raise Abort('payload update of opaque value')
            pays = list(v.a[2])
            r = pays[p[1]]
            pays[p[1]] = X.mk_rec('v', [(n, self.upd(x, rest, val) if n == p[2] else x) for n, x in r.a[1]])
            return X.mk_enum(v.a[0], v.a[1], pays)
        if k == 's':
            lo, n = p[1], p[2]
            new = self.upd(self.slice(v, lo, n), rest, val)
            return X.comp(X.length(v), lambda w: X.ite(X.and_(X.le(lo, w), X.lt(w, X.add(lo, n))),
                                                      X.index(new, X.sub(w, lo)), X.index(v, w)))
        raise Abort('update')

    def expand(self, v):
        s = X.sort(v)
        if isinstance(s, tuple) and s[0] == 'adt':
            a = self.adts.get(s[1])
            if a and a['kind'] == 'Struct':
                return X.mk('rec', s[1], tuple((f['name'], X.field(v, f['name'])) for f in a['variants'][0]['fields']))
        return v

    # -------------------------------------------------------------- merging
    def merge(self, st, c, a, b, va=UNIT, vb=UNIT):
        """state after `if c {a} else {b}`"""
        if a.dead and b.dead:
            st.adopt(a)
            return UNIT
        if a.dead:
            st.adopt(b)
            return vb
        if b.dead:
            st.adopt(a)
            return va
        cells = dict(b.cells)
        for k, x in a.cells.items():
            y = cells.get(k)
            if y is None:
                cells[k] = x
            elif y is not x:
                cells[k] = self.join(c, x, y)
        st.cells = cells
        st.pc = X.or_(a.pc, b.pc) if a.pc is not b.pc else a.pc
        st.dead = False
        return self.join(c, va, vb)

    def join(self, c, x, y):
        if x is y:
            return x
        try:
            return X.ite(c, x, y)
        except Abort as e:
            return unk('join:' + str(e)[:60], 'o', c, x, y)

    # -------------------------------------------------------------- types
    def ty(self, i):
        return self.frames[-1].T[i]

    def strip(self, t, T_):
        """type entry behind references and transparent boxes"""
        for _ in range(10):
            if t['k'] == 'ref':
                t = T_[t['to']]
            elif t['k'] == 'adt' and t.get('key') in TRANSP and t.get('args'):
                t = T_[t['args'][0]]
            else:
                return t
        return t

    def sort_of(self, t, T_):
        t = self.strip(t, T_)
        k, s = t['k'], t['s']
        if k == 'prim':
            if s in ('f64', 'f32'):
                return 'r'
            if s in ('usize', 'u8', 'u16', 'u32', 'u64', 'u128'):
                return 'i'
            if s in ('isize', 'i8', 'i16', 'i32', 'i64', 'i128'):
                return 'z'
            if s == 'bool':
                return 'b'
            if s == 'str':
                return 's'
            return 'o'
        if k in ('slice', 'array'):
            return ('arr', self.sort_of(T_[t['to']], T_))
        if k == 'adt':
            if t['key'] == 'alloc::vec::Vec':
                return ('arr', self.sort_of(T_[t['args'][0]], T_))
            if t['key'] == 'alloc::string::String':
                return 's'
            if t['key'].endswith('::StringRecord'):
                return ('arr', 's')
            return ('adt', t['key'])
        return 'o'

    # -------------------------------------------------------------- running functions
    def find(self, path_end, self_ty=None):
        return self.prog.find(path_end, self_ty)

    def run(self, key, args, st):
        return self.call_key(key, args, st, None)

    def call_key(self, key, args, st, e):
        h = self.boundary.get(key)
        if h is not None:
            r = h(self, key, args, st, e)
            if r is not None:
                return r
        fn = self.fns.get(key)
        if fn is None or fn.get('body') is None:
            return None
        if key in self.stack:
            return self.rcall(key, fn, args, st)
        before = len(self.rec_args.get(key, ()))
        marks = (len(self.panics), len(self.log))
        v = self.enter(fn, args, st, None)
        if len(self.rec_args.get(key, ())) > before and not st.dead and X.sort(v) != 'o?':
            w = self.tail(key, fn, args, st, v, before, marks)
            if w is not None:
                return w
        return v

    def tail(self, key, fn, args, st, v, before, marks):
        """tail recursion on immutable arguments: the least fixed point of the body"""
        def leaf_rc(t):
            return t.op == 'rc' and t.a[1] == 'rc'

        def tailform(t):
            if t.op == 'ite':
                return not has_rc(t.a[0]) and tailform(t.a[1]) and tailform(t.a[2])
            if leaf_rc(t):
                return not any(has_rc(x) for x in t.a[2:])
            return not has_rc(t)
        if any(isinstance(obj(a), MRef) for a in args) or not has_rc(v) or not tailform(v):
            return None
        recs = self.rec_args[key][before:]
        var = [i for i, a in enumerate(args) if any(r[0][i] is not a for r in recs)]
        if not var or any(args[i].op in ('rec', 'tup', 'obj', 'enum', 'comp') for i in var):
            return None
        log = self.log[marks[1]:]
        del self.panics[marks[0]:]
        del self.log[marks[1]:]
        vs = {i: X.fresh(X.sort(args[i])) for i in var}
        st2 = st.fork()
        st2.pc = TRUE
        n0 = len(self.rec_args[key])
        a2 = [vs.get(i, a) for i, a in enumerate(args)]
        w = self.enter(fn, a2, st2, None)
        recs = self.rec_args[key][n0:]
        if not tailform(w) or any(r[0][i] is not args[i] for r in recs for i in range(len(args)) if i not in vs):
            return unk('recursion that changes its arguments irregularly', X.sort(v), *args)
        s = X.sort(v)
        order = sorted(var, key=lambda i: (str(X.sort(args[i])), i))
        body = X.map_leaves(w, lambda t: X.mk('rc', s, 'rec', *[t.a[2 + i] for i in order]) if leaf_rc(t) else t)
        import loops
        return loops.mk_fix(s, [vs[i] for i in order], body, [args[i] for i in order])

    def rcall(self, key, fn, args, st):
        vals = []
        for a in args:
            m = obj(a)
            if isinstance(m, MRef):
                v = self.read(st, m.cell, m.path)
                vals.append(v)
                self.write(st, m.cell, m.path, unk('recursion through &mut', 'o', v))
            else:
                for r in refs_in(a):
                    self.write(st, r.cell, r.path, unk('recursion through &mut'))
                vals.append(a)
        self.rec_args.setdefault(key, []).append((tuple(vals), st.pc))
        s = self.sort_of(fn['_types'][fn['ret']], fn['_types'])
        if fn['_types'][fn['ret']]['s'] == '()':
            if self.stdout is not None:
                o = st.cells[self.stdout]
                st.cells[self.stdout] = X.cat(o, X.mk('rc', 's', 'rc', *vals))
            return UNIT
        return X.mk('rc', s, 'rc', *vals)

    def enter(self, fn, args, st, up):
        self.visited.add(fn['key'])
        self.calls += 1
        if len(self.frames) > 60:
            raise Undecided('call depth')
        fr = Frame(fn, Env(up))
        self.frames.append(fr)
        isclo = fn['kind'] == 'Closure'
        if not isclo:
            self.stack.append(fn['key'])
        pc0 = st.pc
        st.pc = TRUE
        self.outer_pc.append(pc0)
        try:
            params = fn['params']
            if isclo:
                params = params[1:]
            for p, a in zip(params, args):
                if 'pat' in p:
                    self.bind(p['pat'], a, None, st)
            v = self.ev(fn['body'], st)
            exits = list(fr.rets)
            if not st.dead:
                exits.append((st.pc, st.cells, v))
            if not exits:
                st.dead = True
                return UNIT
            v = self.join_exits(st, exits)
            pcs = FALSE
            if len(exits) == 1:
                pcs = exits[0][0]
            else:
                for x in exits:
                    pcs = X.or_(pcs, x[0])
            st.dead = False
            st.pc = pc0 if pcs is TRUE else X.and_(pc0, pcs)
            return v
        finally:
            self.frames.pop()
            self.outer_pc.pop()
            if not isclo:
                self.stack.pop()

    def join_exits(self, st, exits):
        """exits: (pc, cells, value) mutually exclusive; the last is the default"""
        cells, v = dict(exits[-1][1]), exits[-1][2]
        for pc, cs, w in reversed(exits[:-1]):
            for k, x in cs.items():
                y = cells.get(k)
                if y is None:
                    cells[k] = x
                elif y is not x:
                    cells[k] = self.join(pc, x, y)
            v = self.join(pc, w, v)
        st.cells = cells
        return v

    def call_value(self, f, args, st, e=None):
        """call a function value"""
        if f.op == 'ite':
            a, b = st.fork(), st.fork()
            a.pc, b.pc = X.and_(st.pc, f.a[0]), X.and_(st.pc, X.not_(f.a[0]))
            va = self.call_value(f.a[1], args, a, e)
            vb = self.call_value(f.a[2], args, b, e)
            return self.merge(st, f.a[0], a, b, va, vb)
        o = obj(f)
        if isinstance(o, MRef):
            return self.call_value(self.read(st, o.cell, o.path), args, st, e)
        if isinstance(o, Clo):
            fn = self.fns[o.key]
            return self.enter(fn, args, st, o.env)
        if f.op == 'fnref':
            r = self.call_key(f.a[0], args, st, e)
            if r is not None:
                return r
            import stdmodel
            return stdmodel.call(self, {'path': f.a[0], 'key': f.a[0]}, args, st, e)
        h = self.boundary.get('*fnptr')
        if h is not None:
            r = h(self, f, args, st, e)
            if r is not None:
                return r
        ty = 'o'
        if e is not None:
            ty = self.sort_of(self.ty(e['ty']), self.frames[-1].T)
        return X.app(ty, 'call', f, *[self.rd(st, a) for a in args])

    def rd(self, st, v):
        """dereference mutable references"""
        for _ in range(8):
            o = obj(v)
            if isinstance(o, MRef):
                v = self.read(st, o.cell, o.path)
            else:
                return v
        return v

    def event(self, st, kind, cond, e):
        """a watched condition: recorded like a panic, does not end the path"""
        if kind not in self.watch:
            return
        self.watched[kind] = self.watched.get(kind, 0) + 1
        if cond is not FALSE:
            self.panics.append((X.and_(*(self.outer_pc[1:] + [st.pc, cond])), kind, (e or {}).get('sp', ''),
                                self.frames[-1].fn['key'] if self.frames else ''))

    def panic(self, st, kind, e):
        self.panics.append((X.and_(*(self.outer_pc[1:] + [st.pc])), kind, (e or {}).get('sp', ''), self.frames[-1].fn['key'] if self.frames else ''))
        st.dead = True
        return UNIT

    def require(self, st, cond, kind, e):
        """implicit panic unless cond"""
        if cond is TRUE:
            return
        pc = X.and_(*(self.outer_pc[1:] + [st.pc, X.not_(cond)]))
        if pc is not FALSE:
            self.panics.append((pc, kind, (e or {}).get('sp', ''), self.frames[-1].fn['key'] if self.frames else ''))

    # -------------------------------------------------------------- expressions
    def ev(self, e, st):
        if st.dead:
            return UNIT
        m = getattr(self, 'x_' + e['k'], None)
        if m is None:
            return unk('expr:' + e['k'])
        if 'sp' in e:
            self.span = e['sp']
        return m(e, st)

    def x_Block(self, e, st):
        fr = self.frames[-1]
        lab = e.get('label')
        if lab:
            fr.labels[lab] = {'break': [], 'continue': []}
        for s in e['stmts']:
            if st.dead:
                break
            if s['k'] == 'Expr':
                self.ev(s['e'], st)
            else:
                if 'init' in s:
                    if 'else' in s:
                        v, pl = self.scrutinee(s['init'], st)
                        c = self.test(s['pat'], v, st)
                        b = st.fork()
                        b.pc = X.and_(st.pc, X.not_(c))
                        if c is not TRUE:
                            self.ev(s['else'], b)
                        st.pc = X.and_(st.pc, c)
                        self.bind(s['pat'], v, pl, st)
                    else:
                        v, pl = self.scrutinee(s['init'], st, s['pat'])
                        if not st.dead:
                            self.bind(s['pat'], v, pl, st)
                else:
                    self.declare(s['pat'], st)
        v = UNIT
        if not st.dead and 'e' in e:
            v = self.ev(e['e'], st)
        if lab:
            ex = fr.labels.pop(lab)['break']
            if ex:
                exits = list(ex)
                if not st.dead:
                    exits.append((st.pc, st.cells, v))
                pcs = FALSE
                for x in exits:
                    pcs = X.or_(pcs, x[0])
                v = self.join_exits(st, exits)
                st.pc = pcs
                st.dead = False
        return v

    def declare(self, p, st):
        if p['k'] == 'Bind':
            self.frames[-1].env.v[p['var']] = self.newcell(st, unk('uninit'))
        for s in ('sub',):
            if s in p:
                self.declare(p[s], st)
        for _, q in p.get('fields', []):
            self.declare(q, st)

    def x_NeverToAny(self, e, st):
        return self.ev(e['e'], st)

    def x_Coerce(self, e, st):
        return self.ev(e['e'], st)

    def x_Lit(self, e, st):
        lk, v = e['lk'], e['v']
        if lk == 'int':
            return X.num(int(v))
        if lk == 'float':
            return self.flt(v)
        if lk == 'bool':
            return X.boolT(v in (True, 'true'))
        if lk == 'str':
            return X.mk('str', v)
        if lk == 'char':
            return X.mk('str', v)
        if lk == 'bytestr':
            b = json.loads(v) if isinstance(v, str) else v
            return X.mk('list', *[X.num(x) for x in b])
        if lk == 'other' and v.startswith('Byte(') and v[5:-1].isdigit():
            return X.num(int(v[5:-1]))
        return unk('lit:' + lk)

    def flt(self, v):
        from fractions import Fraction
        s = str(v).replace('_', '').replace('f64', '').replace('f32', '')
        try:
            return X.num(Fraction(s if not s.endswith('.') else s + '0'))
        except ValueError:
            f = float(s)
            if f == float('inf'):
                return INF
            if f == float('-inf'):
                return X.neg(INF)
            if f != f:
                return X.mk('app', 'r', 'nan')
            return X.num(Fraction(f))

    def x_Const(self, e, st):
        if 'f64' in e:
            f = float(e['f64'])
            if f != f:
                return X.mk('app', 'r', 'nan')
            if f > 1e308:
                return INF
            if f < -1e308:
                return X.neg(INF)
            from fractions import Fraction
            return X.num(Fraction(f))
        if 'bits' in e:
            t = self.ty(e['ty'])
            b = int(e['bits'])
            if t['s'] == 'bool':
                return X.boolT(b)
            if t['s'].startswith('i'):
                w = {'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'isize': 64}.get(t['s'], 128)
                if b >= 1 << (w - 1):
                    b -= 1 << w
            return X.num(b)
        return unk('const:' + e.get('path', '?'))

    def x_Zst(self, e, st):
        f = e.get('fn')
        if f:
            return fnref(f.get('rkey') or f.get('key'))
        return UNIT

    def x_Static(self, e, st):
        return unk('static:' + str(e.get('path')))

    x_ThreadLocal = x_Static

    def x_Unsupported(self, e, st):
        return unk('unsupported')

    def x_Var(self, e, st):
        c = self.frames[-1].env.get(e['var'])
        if c is None:
            return unk('var:' + e['var'])
        return self.read(st, c)

    def x_Deref(self, e, st):
        v = self.ev(e['e'], st)
        o = obj(v)
        if isinstance(o, MRef):
            return self.read(st, o.cell, o.path)
        return v

    def x_Field(self, e, st):
        v = self.ev(e['e'], st)
        return X.field(v, e['name'], self.sort_of(self.ty(e['ty']), self.frames[-1].T))

    def x_Index(self, e, st):
        a = self.ev(e['e'], st)
        i = self.ev(e['i'], st)
        if st.dead:
            return UNIT
        self.inbounds(st, i, a, e)
        return X.index(a, i)

    def inbounds(self, st, i, a, e):
        if 'index' in self.watch:
            n = X.length(a)
            c = X.and_(X.ge(i, ZERO), X.lt(i, n))
            self.event(st, 'index', X.not_(c), e)

    def place(self, e, st):
        """(cell, path) of a place expression, or None"""
        k = e['k']
        if k == 'Var':
            c = self.frames[-1].env.get(e['var'])
            return None if c is None else (c, ())
        if k == 'Field':
            p = self.place(e['e'], st)
            return p and (p[0], p[1] + (('f', e['name']),))
        if k == 'Index':
            p = self.place(e['e'], st)
            i = self.ev(e['i'], st)
            return p and (p[0], p[1] + (('i', i),))
        if k == 'Deref':
            x = e['e']
            if x['k'] == 'Borrow':
                return self.place(x['e'], st)
            v = self.ev(x, st)
            if st.dead:
                return None
            o = obj(v)
            if isinstance(o, MRef):
                return (o.cell, o.path)
            t = self.ty(x['ty'])
            if t['k'] == 'adt' and t.get('key') in TRANSP:
                return self.place(x, st)
            return None
        if k in ('NeverToAny', 'Coerce'):
            return self.place(e['e'], st)
        return None

    def x_Borrow(self, e, st):
        if not e['mut']:
            return self.ev(e['e'], st)
        p = self.place(e['e'], st)
        if st.dead:
            return UNIT
        if p is None:
            v = self.ev(e['e'], st)
            if isinstance(obj(v), MRef):
                return v
            p = (self.newcell(st, v), ())
        # &mut *m where m: &mut is a reborrow of the same place
        return mref(*p)

    def x_RawBorrow(self, e, st):
        return unk('raw borrow')

    def x_Assign(self, e, st):
        v = self.ev(e['r'], st)
        if st.dead:
            return UNIT
        p = self.place(e['l'], st)
        if st.dead:
            return UNIT
        if p is None:
            self.log.append(('assign', 'unresolved place', e.get('sp')))
            raise Undecided('assignment to unresolved place at ' + str(e.get('sp')))
        self.write(st, p[0], p[1], v)
        return UNIT

    def x_AssignOp(self, e, st):
        v = self.rd(st, self.ev(e['r'], st))
        if st.dead:
            return UNIT
        p = self.place(e['l'], st)
        if p is None:
            raise Undecided('assignment to unresolved place at ' + str(e.get('sp')))
        old = self.read(st, *p)
        op = e['op'].replace('Assign', '')
        self.write(st, p[0], p[1], self.binop(op, old, v, self.ty(e['l']['ty'])['s'], st, e))
        return UNIT

    def x_Binary(self, e, st):
        a = self.ev(e['l'], st)
        b = self.ev(e['r'], st)
        if st.dead:
            return UNIT
        t = self.strip(self.ty(e['l']['ty']), self.frames[-1].T)
        return self.binop(e['op'], self.rd(st, a), self.rd(st, b), t['s'], st, e)

    def binop(self, op, a, b, ty, st, e=None):
        fl = ty in ('f64', 'f32')
        if op == 'Add':
            if X.sort(a) == 's' or X.sort(b) == 's':
                return X.cat(a, b)
            return X.add(a, b)
        if op == 'Sub':
            return X.sub(a, b)
        if op == 'Mul':
            return X.mul(a, b)
        if op == 'Div':
            if fl:
                self.event(st, 'div0', X.eqz(b), e)
                if 'uflow' in self.watch and X.sort(b) == 'r':
                    self.event(st, 'uflow', X.app('b', 'uflow', b), e)
                return X.div(a, b)
            return self.idiv(a, b)
        if op == 'Rem':
            if fl:
                return X.sub(a, X.mul(b, X.fn1('trunc', X.div(a, b))))
            return self.irem(a, b)
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            return self.compare(op, a, b, fl)
        if ty == 'bool':
            if op == 'BitAnd':
                return X.and_(a, b)
            if op == 'BitOr':
                return X.or_(a, b)
            if op == 'BitXor':
                return X.ite(a, X.not_(b), b)
        if op in ('BitAnd', 'BitOr', 'BitXor', 'Shl', 'Shr') and 'r' in (X.sort(a), X.sort(b)):
            return unk('bit pattern', 'i', a, b)
        if op == 'BitAnd' and str(ty).startswith('u'):
            for x, k in ((a, b), (b, a)):
                if k.op == 'num' and k.a[0] >= 0 and (int(k.a[0]) + 1) & int(k.a[0]) == 0:
                    return self.irem(x, X.num(int(k.a[0]) + 1))
        if op == 'Shl' and b.op == 'num':
            return X.mul(a, X.num(2 ** int(b.a[0])))
        if op == 'Shr' and b.op == 'num':
            return self.idiv(a, X.num(2 ** int(b.a[0])))
        if op in ('BitAnd', 'BitOr', 'BitXor', 'Shl', 'Shr') and X.sort(a) in ('i', 'z') and X.sort(b) in ('i', 'z'):
            if a.op == 'num' and b.op == 'num':
                r = bitop(op, a.a[0], b.a[0])
                if r is not None:
                    return X.num(r)
            return X.app('i', op, a, b)
        return unk('binop:' + op, 'i' if not fl else 'r', a, b)

    def idiv(self, a, b):
        if b is ONE:
            return a
        if a.op == 'num' and b.op == 'num' and b.a[0] > 0 and a.a[0] >= 0:
            return X.num(int(a.a[0]) // int(b.a[0]))
        return X.app('i', 'idiv', a, b)

    def irem(self, a, b):
        if a.op == 'num' and b.op == 'num' and b.a[0] > 0 and a.a[0] >= 0:
            return X.num(int(a.a[0]) % int(b.a[0]))
        return X.app('i', 'irem', a, b)

    def compare(self, op, a, b, fl=False):
        if a.op == 'ord' or b.op == 'ord':
            a, b = ord_enum(a), ord_enum(b)
        sa, sb = X.sort(a), X.sort(b)
        num = ('i', 'z', 'r')
        if fl and X.C.strict_float and op not in ('Eq', 'Ne'):
            # false whenever an operand is NaN
            nan = X.or_(isnan(a), isnan(b))
            return X.and_(X.not_(nan), {'Lt': X.lt, 'Le': X.le, 'Gt': X.gt, 'Ge': X.ge}[op](a, b))
        if fl and X.C.strict_float and sa == 'r' and sb == 'r':
            r = X.and_(X.not_(X.or_(isnan(a), isnan(b))), X.eq(a, b))
            return r if op == 'Eq' else X.not_(r)
        if op == 'Eq':
            return X.eq(a, b)
        if op == 'Ne':
            return X.not_(X.eq(a, b))
        if sa == 'b' and sb == 'b':
            a, b = X.ite(a, ONE, ZERO), X.ite(b, ONE, ZERO)
        elif sa not in num or sb not in num:
            return unk('compare', 'b', a, b)
        return {'Lt': X.lt, 'Le': X.le, 'Gt': X.gt, 'Ge': X.ge}[op](a, b)

    def x_Logical(self, e, st):
        a = self.ev(e['l'], st)
        if st.dead:
            return UNIT
        s2 = st.fork()
        if e['op'] == 'And':
            s2.pc = X.and_(st.pc, a)
            b = self.ev(e['r'], s2)
            s0 = st.fork()
            s0.pc = X.and_(st.pc, X.not_(a))
            return self.merge(st, a, s2, s0, b, FALSE)
        s2.pc = X.and_(st.pc, X.not_(a))
        b = self.ev(e['r'], s2)
        s0 = st.fork()
        s0.pc = X.and_(st.pc, a)
        return self.merge(st, a, s0, s2, TRUE, b)

    def x_Unary(self, e, st):
        v = self.rd(st, self.ev(e['e'], st))
        if e['op'] == 'Not':
            if X.sort(v) == 'b':
                return X.not_(v)
            return unk('bitnot', 'i', v)
        return X.neg(v)

    def x_Cast(self, e, st):
        v = self.rd(st, self.ev(e['e'], st))
        if st.dead:
            return UNIT
        return self.cast(v, self.ty(e['e']['ty'])['s'], self.ty(e['ty'])['s'])

    def cast(self, v, src, dst):
        flt = ('f64', 'f32')
        if dst == 'f32' and src != 'f32':
            if v.op == 'num' and v.a[0].denominator == 1:
                return v
            return X.fn1('f32', v)
        if dst in flt:
            return X.ite(v, ONE, ZERO) if X.sort(v) == 'b' else v
        bits = {'u8': 8, 'i8': 8, 'u16': 16, 'i16': 16, 'u32': 32, 'i32': 32}.get(dst, 64)
        if X.sort(v) == 'b':
            return X.ite(v, ONE, ZERO)
        if X.sort(v) not in ('i', 'z', 'r'):
            return v
        sbits = {'u8': 8, 'i8': 8, 'u16': 16, 'i16': 16, 'u32': 32, 'i32': 32}.get(src, 64)
        r = X.lift(X.trunc_, v) if src in flt else v        # saturates at 0, as the cast to an unsigned type does
        if dst.startswith('i') and src in flt and r is not v and r.op != 'num':
            r = X.ite(X.lt(v, ZERO), X.neg(X.lift(X.trunc_, X.neg(v))), r)
        if bits <= 16 and bits < sbits:
            return X.lift(lambda x: x if x.op == 'num' and 0 <= x.a[0] < 1 << (bits - 1) else X.mk('app', 'i', 'wrap%d' % bits, x), r)
        return r

    def x_If(self, e, st):
        c = self.cond(e['cond'], st)
        if st.dead:
            return UNIT
        cv, binds = c
        if cv is TRUE:
            for p, v, pl in binds:
                self.bind(p, v, pl, st)
            return self.ev(e['then'], st)
        if cv is FALSE:
            return self.ev(e['else'], st) if 'else' in e else UNIT
        a, b = st.fork(), st.fork()
        a.pc, b.pc = X.and_(st.pc, cv), X.and_(st.pc, X.not_(cv))
        if a.pc is FALSE:
            a.dead = True
        if b.pc is FALSE:
            b.dead = True
        va = vb = UNIT
        if not a.dead:
            for p, v, pl in binds:
                self.bind(p, v, pl, a)
            va = self.ev(e['then'], a)
        if not b.dead:
            vb = self.ev(e['else'], b) if 'else' in e else UNIT
        return self.merge(st, cv, a, b, va, vb)

    def cond(self, e, st):
        """condition with let-bindings: (term, [(pat, value, place)])"""
        if e['k'] == 'LetCond':
            v, pl = self.scrutinee(e['e'], st, e['pat'])
            if st.dead:
                return FALSE, []
            c = self.test(e['pat'], v, st)
            return c, [(e['pat'], v, pl)]
        if e['k'] == 'Logical' and e['op'] == 'And' and (has_let(e['l']) or has_let(e['r'])):
            c1, b1 = self.cond(e['l'], st)
            if st.dead or c1 is FALSE:
                return FALSE, []
            s2 = st.fork()
            for p, v, pl in b1:
                self.bind(p, v, pl, s2)
            st.cells.update({k: v for k, v in s2.cells.items() if k not in st.cells})
            c2, b2 = self.cond(e['r'], s2)
            for k, v in s2.cells.items():
                if k not in st.cells:
                    st.cells[k] = v
                elif st.cells[k] is not v:
                    st.cells[k] = self.join(c1, v, st.cells[k])
            return X.and_(c1, c2), b1 + b2
        v = self.rd(st, self.ev(e, st))
        return v, []

    def x_LetCond(self, e, st):
        c, b = self.cond(e, st)
        for p, v, pl in b:
            self.bind(p, v, pl, st)
        return c

    def scrutinee(self, e, st, pat=None):
        """value and place (for by-reference bindings)"""
        pl = None
        if e['k'] in ('Var', 'Field', 'Index', 'Deref') and (pat is None or needs_place(pat)):
            s2 = st.fork()
            pl = self.place(e, s2)
        v = self.ev(e, st)
        return v, pl

    # -------------------------------------------------------------- patterns
    def test(self, p, v, st):
        k = p['k']
        if k in ('Wild', 'Never'):
            return TRUE
        if k == 'Bind':
            return self.test(p['sub'], v, st) if 'sub' in p else TRUE
        if k == 'Deref':
            return self.test(p['sub'], self.rd(st, v), st)
        if k == 'Leaf':
            v = self.rd(st, v)
            r = TRUE
            for n, q in p['fields']:
                if refutable(q):
                    r = X.and_(r, self.test(q, X.field(v, str(n), self.sort_of(self.ty(q['ty']), self.frames[-1].T)), st))
            return r
        if k == 'Variant':
            v = self.rd(st, v)
            adt, vi = self.variant(p)
            v = ord_enum(v)
            r = X.eqz(X.sub(X.tag(v), X.num(vi)))
            for n, q in p['fields']:
                if refutable(q):
                    r = X.and_(r, self.test(q, X.payload(v, vi, str(n), self.sort_of(self.ty(q['ty']), self.frames[-1].T)), st))
            return r
        if k == 'Const':
            v = self.rd(st, v)
            c = self.pconst(p, v)
            if c is None:
                return unk('const pattern', 'b', v)
            return X.eq(v, c)
        if k == 'Or':
            r = FALSE
            for q in p['pats']:
                r = X.or_(r, self.test(q, v, st))
            return r
        if k == 'Range':
            return unk('range pattern', 'b', v)
        if k == 'Slice':
            v = self.rd(st, v)
            n = len(p.get('prefix', [])) + len(p.get('suffix', []))
            L = X.length(v)
            r = X.le(X.num(n), L) if p.get('slice') is not None else X.eqz(X.sub(L, X.num(n)))
            for i, q in enumerate(p.get('prefix', [])):
                if refutable(q):
                    r = X.and_(r, self.test(q, X.index(v, X.num(i)), st))
            for i, q in enumerate(p.get('suffix', [])):
                if refutable(q):
                    r = X.and_(r, self.test(q, X.index(v, X.sub(L, X.num(len(p['suffix']) - i))), st))
            return r
        return unk('pattern:' + k, 'b', v)

    def pconst(self, p, v):
        s = str(p.get('val', ''))
        t = self.strip(self.ty(p['ty']), self.frames[-1].T)['s']
        if t == 'bool':
            return X.boolT(s in ('true', '1') or 'true' in s)
        if t in ('f64', 'f32'):
            try:
                return self.flt(s.replace('f64', ''))
            except Exception:
                return None
        import re
        m = re.match(r'-?\d+', s)
        if m:
            return X.num(int(m.group(0)))
        if t == 'str':
            return X.mk('str', s.strip('"'))
        return None

    def variant(self, p):
        t = self.strip(self.ty(p['ty']), self.frames[-1].T)
        key = t.get('key')
        return key, self.vindex(key, p['variant'])

    def vindex(self, key, name):
        if key in NVAR:
            return NVAR[key].index(name)
        a = self.adts.get(key)
        if a:
            return [x['name'] for x in a['variants']].index(name)
        raise Undecided('unknown enum ' + str(key))

    def bind(self, p, v, pl, st):
        """bind variables of pattern p (which matches); pl: place of v when known"""
        k = p['k']
        if k in ('Wild', 'Const', 'Range', 'Never'):
            return
        if k == 'Bind':
            if p['by'] == 'mut' or p['by'] == 'refmut':
                if pl is None:
                    o = obj(v)
                    if not isinstance(o, MRef):
                        pl = (self.newcell(st, v), ())
                        val = mref(*pl)
                    else:
                        val = v
                else:
                    val = mref(*pl)
            else:
                val = v
            self.frames[-1].env.v[p['var']] = self.newcell(st, val)
            if 'sub' in p:
                self.bind(p['sub'], v, pl, st)
            return
        if k == 'Deref':
            o = obj(v)
            if isinstance(o, MRef):
                self.bind(p['sub'], self.read(st, o.cell, o.path), (o.cell, o.path), st)
            else:
                self.bind(p['sub'], v, pl, st)
            return
        o = obj(v)
        if isinstance(o, MRef):
            pl = (o.cell, o.path)
            v = self.read(st, *pl)
        if k == 'Leaf':
            for n, q in p['fields']:
                self.bind(q, X.field(v, str(n), self.sort_of(self.ty(q['ty']), self.frames[-1].T)), pl and (pl[0], pl[1] + (('f', str(n)),)), st)
            return
        if k == 'Variant':
            adt, vi = self.variant(p)
            for n, q in p['fields']:
                if q['k'] == 'Wild':
                    continue
                x = X.payload(v, vi, str(n), self.sort_of(self.ty(q['ty']), self.frames[-1].T))
                self.bind(q, x, pl and (pl[0], pl[1] + (('p', vi, str(n)),)), st)
            return
        if k == 'Or':
            cands = [(self.test(q, v, st), q) for q in p['pats']]
            names = {}
            for c, q in cands:
                for b in binders(q):
                    names.setdefault(b['name'], []).append((c, q, b))
            if not names:
                return
            raise Undecided('or-pattern with bindings')
        if k == 'Slice':
            L = X.length(v)
            for i, q in enumerate(p.get('prefix', [])):
                self.bind(q, X.index(v, X.num(i)), pl and (pl[0], pl[1] + (('i', X.num(i)),)), st)
            ns = len(p.get('suffix', []))
            for i, q in enumerate(p.get('suffix', [])):
                ix = X.sub(L, X.num(ns - i))
                self.bind(q, X.index(v, ix), pl and (pl[0], pl[1] + (('i', ix),)), st)
            if p.get('slice') is not None:
                npre = len(p.get('prefix', []))
                n = X.sub(L, X.num(npre + ns))
                self.bind(p['slice'], self.slice(v, X.num(npre), n), pl and (pl[0], pl[1] + (('s', X.num(npre), n),)), st)
            return
        raise Undecided('pattern ' + k)

    # -------------------------------------------------------------- match
    def x_Match(self, e, st):
        src = e.get('src', '')
        if src.startswith('ForLoop'):
            r = self.for_loop(e, st)
            if r is not NotImplemented:
                return r
        if src.startswith('TryDesugar'):
            return self.try_op(e, st)
        needs = any(needs_place(a['pat']) for a in e['arms'])
        pl = None
        if needs:
            pl = self.place(e['e'], st.fork()) if e['e']['k'] in ('Var', 'Field', 'Index', 'Deref') else None
        v = self.ev(e['e'], st)
        if st.dead:
            return UNIT
        return self.arms(e, v, pl, st)

    def arms(self, e, v, pl, st):
        done = []
        cur = st
        for a in e['arms']:
            if cur.dead:
                break
            c = self.test(a['pat'], v, cur)
            last = a is e['arms'][-1] and 'guard' not in a
            if last:
                c = TRUE
            if c is FALSE:
                continue
            s = cur.fork()
            s.pc = X.and_(cur.pc, c)
            if s.pc is FALSE and c is not TRUE:
                continue
            self.bind(a['pat'], v, pl, s)
            if 'guard' in a:
                g, binds = self.cond(a['guard'], s)
                c = X.and_(c, g)
                for p, w, q in binds:
                    self.bind(p, w, q, s)
                s.pc = X.and_(cur.pc, c)
            r = self.ev(a['body'], s)
            done.append((c, s, r))
            if c is TRUE:
                cur = None
                break
            cur = cur.fork()
            cur.pc = X.and_(cur.pc, X.not_(c))
        if not done:
            st.dead = True
            return UNIT
        c, s, r = done[-1]
        out, val = s, r
        for c, s, r in reversed(done[:-1]):
            o = St()
            val = self.merge(o, c, s, out, r, val)
            out = o
        st.adopt(out)
        return val

    def try_op(self, e, st):
        """`x?`"""
        inner = e['e']
        v = self.ev(inner['args'][0] if inner['k'] == 'Call' else inner, st)
        if st.dead:
            return UNIT
        v = self.rd(st, v)
        t = self.strip(self.ty(inner['args'][0]['ty']), self.frames[-1].T) if inner['k'] == 'Call' else {}
        key = t.get('key')
        if key == OPT:
            ok = X.is_some(v)
            bad, good = X.NONE, X.payload(v, 1, '0')
        else:
            ok = X.eqz(X.tag(v))
            err = X.payload(v, 1, '0')
            bad, good = X.mk_enum(RES, ONE, [ABSENT, X.mk_rec('v', [('0', err)])]), X.payload(v, 0, '0')
        if ok is not TRUE:
            fr = self.frames[-1]
            s = st.fork()
            s.pc = X.and_(st.pc, X.not_(ok))
            if s.pc is not FALSE:
                self.record_ret(fr, s, bad)
            st.pc = X.and_(st.pc, ok)
            if ok is FALSE:
                st.dead = True
        return good

    def record_ret(self, fr, s, v):
        fr.rets.append((s.pc, s.cells, v))

    def x_Return(self, e, st):
        v = self.ev(e['e'], st) if 'e' in e else UNIT
        if st.dead:
            return UNIT
        self.record_ret(self.frames[-1], st, v)
        st.dead = True
        st.cells = dict(st.cells)
        return UNIT

    def x_Break(self, e, st):
        v = self.ev(e['e'], st) if 'e' in e else UNIT
        if st.dead:
            return UNIT
        self.frames[-1].labels[e['label']]['break'].append((st.pc, st.cells, v))
        st.cells = dict(st.cells)
        st.dead = True
        return UNIT

    def x_Continue(self, e, st):
        self.frames[-1].labels[e['label']]['continue'].append((st.pc, st.cells, UNIT))
        st.cells = dict(st.cells)
        st.dead = True
        return UNIT

    # -------------------------------------------------------------- aggregates
    def x_Tuple(self, e, st):
        vs = [self.ev(x, st) for x in e['es']]
        return X.tup(*vs)

    def x_Array(self, e, st):
        return X.mk('list', *[self.ev(x, st) for x in e['es']])

    def x_Repeat(self, e, st):
        v = self.ev(e['e'], st)
        n = e['n']
        if isinstance(n, dict):
            n = self.ev(n, st)
        else:
            try:
                n = X.num(int(n))
            except (TypeError, ValueError):
                n = unk('array length', 'i')
        return X.comp(n, lambda w: v)

    def x_Adt(self, e, st):
        t = self.ty(e['ty'])
        key = t.get('key')
        fs = [(n, self.ev(x, st)) for n, x in e['fields']]
        if st.dead:
            return UNIT
        if e.get('enum') or key in NVAR:
            return self.mkvariant(key, e['variant'], fs)
        a = self.adts.get(key)
        d = dict(fs)
        if 'base' in e and e['base'] is not None:
            b = self.rd(st, self.ev(e['base'], st))
            names = [f['name'] for f in a['variants'][0]['fields']]
            return X.mk_rec(key, [(n, d[n] if n in d else X.field(b, n)) for n in names])
        if a:
            names = [f['name'] for f in a['variants'][0]['fields']]
            return X.mk_rec(key, [(n, d[n]) for n in names if n in d])
        return X.mk_rec(key, fs)

    def mkvariant(self, key, name, fs):
        if key not in NVAR and key not in self.adts:
            return X.app('o', 'variant', X.mk('str', str(key)), X.mk('str', name), *[x for _, x in fs])
        vi = self.vindex(key, name)
        nv = len(NVAR[key]) if key in NVAR else len(self.adts[key]['variants'])
        pays = [ABSENT] * nv
        if fs:
            pays[vi] = X.mk('rec', 'v', tuple((str(n), x) for n, x in fs))
        return X.mk_enum(key, X.num(vi), pays)

    def x_Closure(self, e, st):
        fr = self.frames[-1]
        env = Env(fr.env)
        muts = []
        # by-value captures are snapshots
        for u in e['upvars']:
            x = u
            byval = True
            if x['k'] == 'Borrow':
                byval = False
                if x.get('mut'):
                    p = self.place(x['e'], st)
                    if p is not None:
                        muts.append(MRef(p[0], p[1]))
            while x['k'] in ('Field', 'Deref', 'NeverToAny', 'Borrow'):
                x = x['e']
            if x['k'] == 'Var' and byval:
                c = fr.env.get(x['var'])
                if c is not None and x['var'] not in env.v:
                    env.v[x['var']] = self.newcell(st, st.cells.get(c))
        return mkobj(Clo(e['key'], env, fr.T, muts))

    # -------------------------------------------------------------- loops
    def for_loop(self, e, st):
        import stdmodel
        import loops
        itx = e['e']
        arg = itx['args'][0] if itx['k'] == 'Call' and itx['args'] else itx
        v = self.ev(arg, st)
        if st.dead:
            return UNIT
        it = stdmodel.to_iter(self, v, st, self.ty(arg['ty']))
        loop = e['arms'][0]['body']
        while loop['k'] in ('NeverToAny',) or (loop['k'] == 'Block' and not loop['stmts']):
            loop = loop['e']
        if loop['k'] != 'Loop':
            return NotImplemented
        m = loop['body']
        while m['k'] != 'Match':
            if m['k'] == 'Block' and len(m['stmts']) == 1 and 'e' not in m:
                m = m['stmts'][0]['e']
            elif m['k'] == 'Block' and not m['stmts'] and 'e' in m:
                m = m['e']
            elif m['k'] == 'NeverToAny':
                m = m['e']
            else:
                return NotImplemented
        arm = [a for a in m['arms'] if a['pat']['k'] == 'Variant' and a['pat']['variant'] == 'Some'][0]
        pat = arm['pat']['fields'][0][1]
        body = arm['body']
        nest = stdmodel.obj(v)
        if it is None and isinstance(nest, stdmodel.Nest) and not any(x['k'] == 'Break' for x in nodes_in(body)):
            def one(s, elem):
                self.bind(pat, elem, None, s)
                self.ev(body, s)
            stdmodel.nest_each(self, nest, st, one, labels(loop))
            return UNIT
        if it is None:
            return self.havoc_loop(e, st, 'loop over unknown iterator')
        labs = [str(s) for s in loop.get('scopes', [])] + [str(s) for s in ([loop.get('label')] if loop.get('label') else [])]

        def run(s, elem, k):
            self.bind(pat, elem, None, s)
            self.ev(body, s)
        return loops.run_loop(self, st, it, run, labels(loop), e.get('sp'))

    def x_Loop(self, e, st):
        import loops

        def run(s, elem, k):
            self.ev(e['body'], s)
        return loops.run_loop(self, st, None, run, labels(e), e.get('sp'))

    def havoc_loop(self, e, st, why):
        raise Undecided(why + ' at ' + str(e.get('sp')))

    # -------------------------------------------------------------- calls
    def x_Call(self, e, st):
        import stdmodel
        if 'fn' not in e or e['fn'] is None:
            f = self.ev(e['funexpr'], st)
            args = [self.ev(a, st) for a in e['args']]
            if st.dead:
                return UNIT
            return self.call_value(f, args, st, e)
        f = e['fn']
        if f.get('ctor'):
            args = [self.ev(a, st) for a in e['args']]
            if st.dead:
                return UNIT
            t = self.ty(e['ty'])
            key = t.get('key')
            name = f['path'].split('::')[-1]
            if key in NVAR or (key in self.adts and self.adts[key]['kind'] == 'Enum'):
                return self.mkvariant(key, name, [(str(i), a) for i, a in enumerate(args)])
            return X.mk_rec(key, [(str(i), a) for i, a in enumerate(args)])
        key = f.get('rkey') or f.get('key')
        args = [self.ev(a, st) for a in e['args']]
        if st.dead:
            return UNIT
        if (key in self.fns and '{closure' not in key) or key in self.boundary:
            fn = self.fns.get(key)
            if fn is None or not self.derived(fn):
                r = self.call_key(key, args, st, e)
                if r is not None:
                    return r
        return stdmodel.call(self, f, args, st, e)

    def derived(self, fn):
        """derived Clone/Debug impls are modelled structurally"""
        return fn.get('derived') and (fn.get('name') in ('clone', 'fmt'))


def ord_enum(v):
    """an 'ord' comparison result viewed as Ordering enum"""
    if v.op == 'ord':
        lt_, gt_ = ord_lt(v), ord_lt(ord_rev(v))
        tag = X.ite(lt_, ZERO, X.ite(gt_, X.num(2), ONE))
        return X.mk_enum(ORD, tag, [ABSENT] * 3)
    return v


def ord_rev(v):
    return X.mk('ord', tuple((b, a) for a, b in v.a[0]))


def ord_lt(v):
    r = FALSE
    for a, b in reversed(v.a[0]):
        r = X.or_(X.lt(a, b), X.and_(X.eq(a, b), r))
    return r


def labels(loop):
    out = []
    for s in loop.get('scopes', []) or []:
        out.append(s)
    if loop.get('label'):
        out.append(loop['label'])
    return out


def has_let(e):
    return e['k'] == 'LetCond' or (e['k'] == 'Logical' and (has_let(e['l']) or has_let(e['r'])))


def refutable(p):
    k = p['k']
    if k == 'Wild':
        return False
    if k == 'Bind':
        return 'sub' in p and refutable(p['sub'])
    if k == 'Deref':
        return refutable(p['sub'])
    if k == 'Leaf':
        return any(refutable(q) for _, q in p['fields'])
    return True


def needs_place(p):
    k = p['k']
    if k == 'Bind':
        return p['by'] == 'mut' or ('sub' in p and needs_place(p['sub']))
    if 'sub' in p:
        return needs_place(p['sub'])
    if 'fields' in p:
        return any(needs_place(q) for _, q in p['fields'])
    if k == 'Slice':
        return True
    return False


def binders(p):
    if p['k'] == 'Bind':
        yield p
    if 'sub' in p:
        yield from binders(p['sub'])
    for _, q in p.get('fields', []):
        yield from binders(q)
