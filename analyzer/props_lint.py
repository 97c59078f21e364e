"""Effect, sharing and determinism rules (C09, C29, C30) and the printed tree (C31)."""
import terms as X, machine as M, inputs as I, lint as L
import spec, valuation
from terms import TRUE, FALSE, ZERO, ONE, ABSENT, UNIT


def libfns(a):
    return [f for f in a.prog.fns.values() if f['_crate'] in L.LIBS]


def short(f):
    return f['key'].split('::', 1)[-1].replace('::{closure#', ' closure ').replace('}', '')


# ---------------------------------------------------------------- C09: what runs in parallel
def C09(a):
    def go():
        prog = a.prog
        scan = L.TypeScan(prog)
        sites = tasks = 0
        for f in libfns(a):
            for e, g in L.calls(f):
                if not L.is_parallel(g):
                    continue
                sites += 1
                a.fns.add(f['key'])
                nm = g['key'].split('::')[-1]
                sp = e.get('sp', f['sp'])
                where = '%s (%s)' % (f['key'], sp)
                if nm in L.RACY:
                    a.bad('parallel results are combined in input order [%s in %s]' % (nm, short(f)),
                          '%s at %s: rayon %s %s' % (f['key'], sp, nm, L.RACY[nm]), where)
                    continue
                if nm in L.REDUCE:
                    t = L.ty(f, e['ty']) if 'ty' in e else None
                    flo = any(L.is_float(t2) for _, t2 in scan.parts(f['_types'], e['ty'])) if t else True
                    if flo:
                        a.bad('parallel results are combined in input order [%s in %s]' % (nm, short(f)),
                              '%s at %s: a parallel %s over floats groups the terms as the schedule happens to fall' % (f['key'], sp, nm), where)
                        continue
                a.ok('%s in %s combines in input order' % (nm, short(f)), where)
                roots = []
                for key, ce in L.closure_keys(f, e):
                    roots.append(key)
                    for u in ce.get('upvars', []):
                        r = scan.hidden(f['_types'], u['ty'])
                        if r:
                            a.bad('no shared mutable state [%s in %s]' % (nm, short(f)),
                                  'a task started at %s captures %s' % (sp, r), where)
                for k in sorted(L.reachable(prog, roots)):
                    tasks += 1
                    h = prog.fns[k]
                    a.fns.add(k)
                    for x in L.nodes(h['body']):
                        if x['k'] in ('Static', 'ThreadLocal'):
                            bad_static(a, prog, h, x, 'no shared mutable state [%s in %s]' % (nm, short(f)), where)
                    a.ok('%s, run in parallel by %s, shares no mutable state' % (short(h), short(f)), h['sp'])
        a.cover['parallel call sites'] = sites
        a.cover['functions reachable from parallel tasks'] = tasks
        # the two flags of the tree types are what multi-threading switches: with none of these sites the rule checks nothing
        if sites == 0:
            a.ok('no parallel call site left')
    a.group('parallel tasks', go)


def bad_static(a, prog, f, x, name, where):
    st = {s['key']: s for s in prog.statics}
    s = st.get(x.get('key') or x.get('def') or '')
    if s is None or s['mut'] or not s['freeze'] or L.TypeScan(prog).hidden(prog.crates[s['_crate']]['types'], s['ty']):
        a.bad(name, '%s uses %s at %s' % (f['key'], 'process-wide mutable state ' + (s['path'] if s else str(x.get('key', x['k']))),
                                          x.get('sp', f['sp'])), where)


# ---------------------------------------------------------------- C29
def C29(a):
    def go():
        prog = a.prog
        seen = {}
        ncalls = 0
        for f in libfns(a):
            a.fns.add(f['key'])
            bad = False
            where = '%s (%s)' % (f['key'], f['sp'])
            for sp, path, what, e in L.foreign_effects(prog, f):
                if what == 'file system' and path.split('::')[-1] == 'open' and from_argument(prog, f, e):
                    a.ok('%s opens only the path it is given' % short(f), sp)
                    continue
                bad = True
                if what is None:
                    a.undecided('%s calls %s' % (short(f), path), 'no effect summary for %s' % path, sp)
                else:
                    a.bad('%s: %s' % (short(f), what), '%s calls %s at %s' % (f['key'], path, sp), where)
            for sp, path, t in L.hash_iteration(f):
                bad = True
                a.bad('%s: unordered iteration' % short(f), '%s iterates a %s through %s at %s' % (f['key'], t, path, sp), where)
            for sp, what in L.unsafe_sites(f):
                bad = True
                a.undecided('%s: %s' % (short(f), what), 'memory safety rests on the block at %s' % sp, where)
            for x in L.nodes(f['body']):
                ncalls += 'fn' in x
                if x['k'] in ('Static', 'ThreadLocal'):
                    n0 = len(a.obs)
                    bad_static(a, prog, f, x, '%s: process-wide state' % short(f), where)
                    bad = bad or len(a.obs) > n0
                if x['k'] == 'Cast' and 'e' in x and 'ty' in x.get('e', {}):
                    t = L.ty(f, x['e']['ty'])
                    to = L.ty(f, x['ty'])
                    if t['k'] == 'ptr' and to['k'] == 'prim':
                        bad = True
                        a.bad('%s: address used as a number' % short(f), '%s at %s' % (f['key'], x.get('sp')), where)
                g = x.get('fn')
                if isinstance(g, dict) and g.get('key') and L.is_parallel(g):
                    nm = g['key'].split('::')[-1]
                    if nm in ('find_any', 'position_any', 'find_map_any', 'par_bridge'):
                        bad = True
                        a.bad('%s: order of threads' % short(f), '%s calls rayon %s at %s, which %s' % (f['key'], nm, x.get('sp'), L.RACY[nm]), where)
                    scan = L.TypeScan(prog)
                    for key, ce in L.closure_keys(f, x):
                        for u in ce.get('upvars', []):
                            if scan.hidden(f['_types'], u['ty']):
                                bad = True
                                ts = L.ty(f, u['ty'])['s'].replace(' ', '')
                                if any(c in ts for c in ('Mutex<f64>', 'RwLock<f64>', 'Mutex<f32>', 'RwLock<f32>')):
                                    a.bad('%s: order of threads' % short(f), '%s at %s: tasks update one floating-point number (%s) in the order they '
                                          'happen to run' % (f['key'], x.get('sp'), ts), where)
                                elif key in prog.fns and list(L.order_dependent(prog.fns[key], f)):
                                    for sp2, why in L.order_dependent(prog.fns[key], f):
                                        a.bad('%s: order of threads' % short(f), '%s at %s: %s (%s)' % (f['key'], sp2, why, ts), where)
                                else:
                                    a.undecided('%s: order of threads' % short(f), '%s at %s: tasks share %s' % (f['key'], x.get('sp'), ts), where)
                    if nm in L.REDUCE and float_result(f, x):
                        bad = True
                        a.bad('%s: order of threads' % short(f), '%s at %s: a parallel %s over floats groups the terms as the schedule happens to fall' % (
                            f['key'], x.get('sp'), nm), where)
                if isinstance(g, dict) and g.get('key', '').split('::')[-1] == 'new_pointer':
                    bad = True
                    a.bad('%s: address printed' % short(f), '%s at %s' % (f['key'], x.get('sp')), where)
                if x.get('ty') is not None:
                    t = L.ty(f, x['ty'])
                    if t['k'] == 'adt' and ('LocalKey' in t['s']) and 'thread' in t.get('path', ''):
                        bad = True
                        a.bad('%s: thread-local state' % short(f), '%s at %s' % (f['key'], x.get('sp')), where)
            if not bad:
                a.ok('%s depends on its arguments only' % short(f), f['sp'])
        for s in prog.statics:
            if s['_crate'] not in L.LIBS:
                continue
            h = L.TypeScan(prog).hidden(prog.crates[s['_crate']]['types'], s['ty'])
            if s['mut'] or not s['freeze'] or h:
                a.bad('static %s' % s['path'], 'process-wide mutable state at %s: %s' % (s['sp'], h or 'mutable'), s['sp'])
            else:
                a.ok('static %s is constant' % s['path'], s['sp'])
        a.cover['functions'] = len(libfns(a))
        a.cover['calls and function values classified'] = ncalls
        if len(libfns(a)) < 20 or ncalls < 100:
            a.undecided('scope', 'only %d functions and %d calls found' % (len(libfns(a)), ncalls))
    a.group('effects', go)


def float_result(f, e):
    if 'ty' not in e:
        return False
    t = L.ty(f, e['ty'])
    return L.is_float(t) or (t['k'] in ('adt', 'tuple') and any(L.is_float(L.ty(f, q)) for q in t.get('args', []) if isinstance(q, int)))


def from_argument(prog, f, e, depth=0):
    """every variable the path is computed from is a parameter (or a local computed from parameters), and no text is mixed in"""
    params = set()
    for p in f['params']:
        for x in L.nodes(p):
            if x.get('var'):
                params.add(x['var'])
    inits = {}
    for x in L.nodes(f['body']):
        if x['k'] == 'Let' and 'init' in x:
            for y in L.nodes(x['pat']):
                if y['k'] == 'Bind':
                    inits[y['var']] = x['init']
    ok = set()

    def good(e, d=0):
        vs = [x['var'] for x in L.nodes(e) if x['k'] in ('Var', 'Upvar') and 'var' in x]
        if any(x['k'] == 'Lit' for x in L.nodes(e)):
            return False
        if not vs:
            return False
        for v in vs:
            if v in params or v in ok:
                continue
            if v in inits and d < 8 and good(inits[v], d + 1):
                ok.add(v)
                continue
            return False
        return True
    return good(e['args'][0])


# ---------------------------------------------------------------- C30
READERS = [('predict', ()), ('calculate_all_predictions', ()), ('calculate_score', ()), ('find_leaf_node_for_data', ()), ('predict_class', ()),
           ('calculate_accuracy', ()), ('calculate_overall_mean_squared_error', ()), ('calculate_overall_mean_squared_error_new_partition', ()),
           ('print_tree_regression', ())]


def C30(a):
    def go():
        prog = a.prog
        scan = L.TypeScan(prog)
        n = 0
        for k, ad in sorted(prog.adts.items()):
            if not any(k.startswith(c.split('.')[0]) for c in L.LIBS):
                continue
            n += 1
            r = scan.hidden(ad['_types'], ad['ty'])
            if r:
                a.bad('%s holds nothing that changes behind a shared reference' % k.split('::')[-1], r, ad['sp'])
            else:
                a.ok('%s holds nothing that changes behind a shared reference' % k.split('::')[-1], ad['sp'])
        for s in prog.statics:
            if s['_crate'] in L.LIBS and s['mut']:
                a.bad('static %s' % s['path'], 'mutable static at %s' % s['sp'], s['sp'])
        a.cover['types'] = n
        if n < 8:
            a.undecided('scope', 'only %d types found' % n)
        readers = 0
        for nm, _ in READERS:
            for f in prog.bypath.get(nm, []):
                if f['_crate'] not in L.LIBS:
                    continue
                readers += 1
                a.fns.add(f['key'])
                bad = None
                for p in f['params']:
                    t = L.ty(f, p['ty'])
                    if t['k'] == 'ref' and t['mut']:
                        bad = '%s takes %s' % (f['key'], t['s'])
                a.bad('%s borrows its arguments as shared' % short(f), bad, f['sp']) if bad else \
                    a.ok('%s borrows its arguments as shared' % short(f), f['sp'])
                # nothing it reaches may circumvent the borrow checker
                for q in sorted(L.reachable(prog, [f['key']])):
                    h = prog.fns[q]
                    a.fns.add(q)
                    us = list(L.unsafe_sites(h))
                    for sp, what in L.shared_to_mut(h):
                        a.bad('%s writes through nothing it was lent' % short(f), '%s at %s: %s' % (q, sp, what), sp)
                    if us:
                        a.undecided('%s reaches no unsafe code' % short(f), '%s: %s at %s' % (q, us[0][1], us[0][0]), us[0][0])
                    for x in L.nodes(h['body']):
                        if x['k'] in ('Static', 'ThreadLocal'):
                            bad_static(a, prog, h, x, '%s touches no process-wide state' % short(f), f['sp'])
                        # a shared reference turned into a mutable one
                        g = x.get('fn')
                        if isinstance(g, dict) and any(L.starts(p, ('core::ptr', 'core::mem::transmute')) or p.endswith('::cast_mut') or
                                                       'get_mut_unchecked' in p for p in L.paths_of(g)):
                            a.bad('%s reaches no raw memory access' % short(f), '%s at %s' % (q, x.get('sp')), f['sp'])
        a.cover['reading operations'] = readers
        if readers < 6:
            a.undecided('scope', 'only %d reading operations found' % readers)
    a.group('sharing', go)


# ---------------------------------------------------------------- C31
def C31(a):
    def go():
        m = a.machine(leaf=I.DS)
        I.C_LEAF['#K'] = I.dim('K')
        d = I.dim('d')
        I.columns_below(d)
        t = I.tree()
        st = M.St()
        m.stdout = m.newcell(st, X.mk('str', ''))
        sp = X.var('sp', 's')
        f = a.fn('print_tree_regression')
        s = a.run(m, f, [t, sp, X.comp(d, lambda i: X.app('s', 'name', i))], st=st)
        out = st.cells[m.stdout]
        q = X.field(t, 'question')
        col, val = X.field(q, 'column'), X.field(q, 'value')
        isleaf = X.is_some(X.field(t, 'leaf'))
        yes, no = (X.payload(X.field(t, b), 1, '0') for b in ('true_branch', 'false_branch'))
        data = X.payload(X.field(t, 'leaf'), 1, '0')
        where = s.where()

        def items(o):
            return list(o.a) if o.op == 'cat' else [o]

        def kids(x):
            return [y for y in subterms(x) if y.op == 'rc']

        def understood(o, what):
            if o.unk:
                a.undecided(what, 'not understood: %s' % sorted(map(str, o.unk))[:4], where)
                return False
            return True

        def inside(o):
            """a condition a piece of the text, or a text handed to a recursive call, depends on"""
            for x in items(o) if kids(o) else ():
                if x.op == 'ite':
                    return x.a[0]
                if x.op == 'rc':
                    for y in x.a:
                        if isinstance(y, X.T) and X.sort(y) == 's':
                            for z in [y] + items(y):
                                if z.op == 'ite':
                                    return z.a[0]
            return None

        def ways(o, base, what):
            """the ways the output depends on more than being a leaf: (extra conditions, output, how to report)"""
            out = []

            def go(o, path):
                if o.op == 'ite' and len(out) < 40:
                    go(X.simp(o.a[1], path + ((o.a[0], True),)), path + ((o.a[0], True),))
                    go(X.simp(o.a[2], path + ((o.a[0], False),)), path + ((o.a[0], False),))
                elif len(out) < 40 and inside(o) is not None:
                    c = inside(o)
                    go(X.simp(o, path + ((c, True),)), path + ((c, True),))
                    go(X.simp(o, path + ((c, False),)), path + ((c, False),))
                else:
                    out.append((path, o))
            go(o, tuple(X.conj_lits(base)))
            n0 = len(X.conj_lits(base))
            res = []
            for path, o in out:
                extra = path[n0:]
                if o.op == 'ite':
                    a.undecided(what, 'the output depends on too much: %s' % X.show(o)[:400], where)
                    continue

                def bad(name, detail, extra=extra, path=path, sure=True):
                    if not extra and sure:
                        a.bad(name, detail, where)
                        return
                    cond = spec.relit(extra)
                    v = valuation.separate(cond, FALSE, path[:n0], None, seed=a.seed) if sure else ('same', 0)
                    if v[0] == 'sep':
                        a.bad(name, 'when %s (%s): %s' % (X.show(cond)[:300], v[1][:200], detail), where)
                    else:
                        a.undecided(name, 'when %s: %s' % (X.show(cond)[:300], detail), where)
                res.append((extra, o, bad))
            return res
        def inner(o, extra, bad):
            its = items(o)
            text = X.show(o)[:900]
            ky = [i for i, x in enumerate(its) if x.op == 'rc' and any(y is yes for y in x.a if isinstance(y, X.T))]
            kn = [i for i, x in enumerate(its) if x.op == 'rc' and any(y is no for y in x.a if isinstance(y, X.T))]
            ka = [x for x in its if kids(x)]
            if len(ky) != 1 or len(kn) != 1 or len(ka) != 2:
                # a leaf child may be printed in place
                inline = any(X.contains(x, c) for x in its if x.op != 'rc' for c, kc in ((yes, ky), (no, kn)) if not kc)
                bad('both subtrees are printed once', 'an inner node prints %s' % text, sure=not inline)
                return
            a.ok('both subtrees are printed once', where)
            y, n = ky[0], kn[0]
            if n < y:
                bad('the yes subtree comes first', 'an inner node prints %s' % text)
                return
            a.ok('the yes subtree comes first', where)
            name = X.app('s', 'name', col)
            qi = [i for i, x in enumerate(its) if X.contains(x, name) and x.op != 'rc']
            vi = [i for i, x in enumerate(its) if X.contains(x, val) and x.op != 'rc']
            oth = [i for i, x in enumerate(its) if x.op != 'rc' and any(z.op == 'app' and z.a[1] == 'name' and z is not name for z in subterms(x))]
            if len(qi) != 1 or len(vi) != 1 or qi[0] > y or vi[0] > y or oth:
                bad('the question is printed once, before the subtrees, with the name of its own feature', 'an inner node prints %s' % text)
            else:
                a.ok('the question is printed once, before the subtrees, with the name of its own feature', where)
                t1 = lit(its[max(qi[0], vi[0]):y])
                t2 = lit(its[y:n])
                if 'true' not in t1.lower() or 'false' in t1.lower():
                    bad('a True marker precedes the yes subtree', 'an inner node prints %s' % text)
                elif 'false' not in t2.lower() or 'true' in t2.lower():
                    bad('a False marker precedes the no subtree', 'an inner node prints %s' % text)
                else:
                    a.ok('True and False markers precede their subtrees', where)
            if its[0] is not sp:
                bad('a question is indented', 'an inner node prints %s' % text, sure=not extra)
            for i, nm in ((y, 'yes'), (n, 'no')):
                ss = [x for x in its[i].a if isinstance(x, X.T) and X.sort(x) == 's']
                if len(ss) == 1 and ss[0].op == 'cat' and ss[0].a[0] is sp and all(x.op == 'str' for x in ss[0].a[1:]) and lit(ss[0].a[1:]):
                    a.ok('the %s subtree is indented deeper' % nm, where)
                elif len(ss) == 1 and (ss[0] is sp or ss[0].op == 'str'):
                    bad('the %s subtree is indented deeper' % nm, 'its indentation is %s' % X.show(ss[0]))
                else:
                    a.undecided('the %s subtree is indented deeper' % nm, 'indentation %s' % [X.show(x) for x in ss], where)
        lf = X.simp(out, tuple(X.conj_lits(isleaf)))
        inn = X.simp(out, tuple(X.conj_lits(X.not_(isleaf))))
        a.terms += lf.sz + inn.sz
        ld = X.simp(data, tuple(X.conj_lits(isleaf)))
        for extra, o, bad in ways(lf, isleaf, 'leaf') if understood(lf, 'leaf') else ():
            its = items(o)
            n = sum(1 for x in its if x.op == 'app' and X.contains(x, ld))
            if kids(o):
                bad('a leaf prints no subtree', 'a leaf prints %s' % X.show(o)[:600])
            elif n != 1:
                bad('a leaf prints its data once', 'a leaf prints %s' % X.show(o)[:600])
            elif its[0] is not sp:
                bad('a leaf is indented', 'a leaf prints %s' % X.show(o)[:600], sure=not extra)
            else:
                # the leaf or its data as a whole, or at least its rows and their labels
                sub = [z for x in its for z in subterms(x)]
                whole = any(z.op == 'fld' and z.a[1] is ld for z in sub) or any(z.op == 'app' and ld in z.a[2:] and not str(z.a[1]).lstrip('+').startswith(('leaf', 'nleaf')) for z in sub)
                # (a label of a fixed row alone is not the labels)
                nm = {z.a[1] for z in sub if z.op == 'app' and ld in z.a[2:] and not (z.a[1].startswith('leaf') and len(z.a) > 3 and z.a[3].op == 'num')}
                lack = [w for w, syms in (('labels', ('leafy',)), ('rows', ('leafx', 'leafrow'))) if not nm & set(syms)]
                if whole or not lack:
                    a.ok('a leaf prints its data once', where, X.show(o)[:300])
                else:
                    bad('a leaf prints its data', 'a leaf prints %s, without its %s' % (X.show(o)[:600], ' and '.join(lack)))
        for extra, o, bad in ways(inn, X.not_(isleaf), 'inner node') if understood(inn, 'inner node') else ():
            inner(o, extra, bad)

        a.no_panics(s)
    a.group('print_tree_regression', go)


def lit(xs):
    return ''.join(x.a[0] for x in xs if x.op == 'str')


def subterms(t):
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(X._walk(x.a))
