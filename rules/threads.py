"""Work divided between threads: every element is computed exactly once, the result is that of the serial evaluation, and no task
writes what another can see."""
from program import AnalysisBroken, walk, rel, parse, repo_units, witness
from terms import *
from physics import leaves, add, mul, sub, div
from sched import Use
from ckpt import units
from vg import LV, select
from lin import same, entails, divnorm
import store, table, lazy


class Race(AnalysisBroken): pass


def prep(late):
    """threads run at once (late=False) or not before they are joined (late=True); either order is a legal schedule"""
    def go(I):
        store.prep(I); table.prep(I)
        I.exact_try = True; I.deref_ite = True; I.reclimit = 8; I.budget = 40000000
        M = I.models; V = I.rv
        I.wrote = {}; I.left = set(); I.depth_ = []; jobs = {}; count = [0]
        def run(k):
            f, args, e = jobs.pop(k)
            new0 = I.state.mem.keys() - set(); before = set(new0); I.depth_.append((k, before))
            try: I.apply_any(f, args, e)
            finally: I.depth_.pop()
        orig = I.store
        def watch(loc, val, *a, **kw):
            if I.depth_:
                l = loc if isinstance(loc, LV) else I.lv(loc); k, before = I.depth_[-1]
                if l.loc in before:
                    for (r, p), who in I.wrote.items():
                        if r == l.loc and who != k and (p[:len(l.path)] == l.path or l.path[:len(p)] == p): raise Race('two threads write the same element')
                    I.wrote[(l.loc, l.path)] = k
            return orig(loc, val, *a, **kw)
        I.store = watch
        def spawn(I, e, t, args):
            if not args: return mk('rec', 'std::thread', (('running', ZERO),))
            v = V(args[0])
            if v.op == 'rec' and v.a[0] == 'std::thread': return v
            count[0] += 1; k = count[0]; jobs[k] = (v, [V(a) for a in args[1:]], e); I.left.add(k)
            if not late: run(k)
            return mk('rec', 'std::thread', (('running', num(k)),))
        I.cmodels['std::thread'] = spawn
        def assign(I, e, obj, args):
            old = V(obj)
            if old.op == 'rec' and select(old, ('f', 'running')) is not ZERO and isnum(select(old, ('f', 'running'))): raise Race('a running thread is overwritten, which ends the program')
            I.store(I.lv(obj), V(args[0])); return obj
        M['std::thread::operator='] = assign
        def join(I, e, obj, args):
            k = select(V(obj), ('f', 'running'))
            if not isnum(k): raise AnalysisBroken('unknown thread')
            k = int(k.a[0])
            if k == 0: raise Race('a thread is joined that does not run')
            if k in jobs: run(k)
            I.left.discard(k); I.store(I.lv(obj), mk('rec', 'std::thread', (('running', ZERO),))); return VOID
        M['std::thread::join'] = join
        def detach(I, e, obj, args): raise Race('a thread is detached: nothing waits for its results')
        M['std::thread::detach'] = detach
        M['std::thread::joinable'] = lambda I, e, obj, args: FALSE if select(V(obj), ('f', 'running')) is ZERO else TRUE
        # ---- futures: evaluated at once or when the value is asked for
        pend = []
        def async_(I, e, obj, args, skip=1):
            a = [V(x) for x in args]
            if skip and 'launch' in I.tu.ts(args_type(e, 0)): a = a[1:]
            if late: pend.append((a[0], a[1:], e)); return mk('rec', 'std::future', (('job', num(len(pend) - 1)),))
            return mk('rec', 'std::future', (('value', V(I.apply_any(a[0], a[1:], e))),))
        def args_type(e, i):
            a = e['args'][i]
            while 't' not in a and 'e' in a: a = a['e']
            return a.get('t')
        M['std::async'] = async_
        M['mara::thread_pool_t::enqueue'] = lambda I, e, obj, args: async_(I, e, obj, args, 0)
        def get(I, e, obj, args):
            v = V(obj); d = dict(v.a[1])
            if 'value' in d: return d['value']
            f, a, w = pend[int(d['job'].a[0])]; return V(I.apply_any(f, a, w))
        for n in ('std::future::get', 'std::__basic_future::get'): M[n] = get
        for n in ('std::future::wait', 'std::__basic_future::wait'): M[n] = lambda I, e, obj, args: VOID
        I.cmodels['std::future'] = lambda I, e, t, a: V(a[0]) if a else None
        I.cmodels['mara::thread_pool_t'] = lambda I, e, t, a: mk('rec', 'mara::thread_pool_t', ())
    return go


def prop_parallel(c):
    c.rule('the value graph of every parallel evaluation, with threads run at once and with threads run only when joined, is that of the serial one; no two threads write the same element, all are joined')
    units(c, 'parallel.cpp', lambda u: (evaluation(u), blocks(u), factors(u), trees(u)))
    import effects
    c.rule('(effects) no function reachable from a closure that is handed to a thread, a future or the thread pool writes a global, a static or a captured object that belongs to the thread handing it over, or calls a library function with hidden state')
    c.interp = None
    effects.check(c)
    import lifetime
    c.rule('(lifetime) closures handed to workers and back do not refer to dead objects')
    lifetime.check(c, lambda f: f in ('src/app_parallel.hpp', 'src/core_tree.hpp', 'src/core_thread_pool.hpp'), ['core_test.cpp', 'subprog_binary_scheme.cpp', 'subprog_cloud.cpp', witness('parallel.cpp')])
    c.assumptions.append('the models of std::thread, std::async and std::future; shapes up to 9 elements and 5 x 4 stand for all (the partition for every shape is decided symbolically by C11)')
    c.minimum = 12


def evaluation(u):
    c = u.c
    def each(name, sizes, want):
        ok = True; n = 0
        for late in (False, True):
            u.prep = prep(late)
            for a in sizes:
                try: v = u.run(name, [num(x) for x in a])
                except Race as e: c.ob(name, False, where(u), '%s%s: %s' % (name, a, e)); return
                except AnalysisBroken as e: return c.undecided(name, '', '%s: %s' % (a, str(e)[:250]))
                if u.I.left: c.ob(name, False, u.where, '%s%s: %d threads are not joined' % (name, a, len(u.I.left))); return
                w = want(*a); n += 1
                if v is BOT or u.ret is FALSE: c.ob(name, False, u.where, '%s%s: always throws' % (name, a)); return
                if v is not w:
                    d = same(leaves(v), leaves(w), TRUE, [])
                    if d is not None: c.ob(name, False, u.where, '%s%s: the code yields %s, required %s (threads run %s)' % (name, a, show(v)[:150], show(w)[:150], 'when joined' if late else 'at once')); return
        c.ob(name, ok, u.where, '', '%d elements and schedules' % n)
    top = 10
    for P in (1, 2, 3, 4, 7): each('at%d' % P, [(n, k) for n in range(1, top if P == 3 else 6) for k in range(n)] + [(9, 0), (9, 8)], lambda n, k: mk('call', 'witness::fe', '', num(k)))
    two = [(n, m, i, j) for n, m in ((1, 1), (2, 1), (1, 3), (4, 2), (5, 4)) for i in range(n) for j in range(m)]
    for P in (2, 3): each('at2d%d' % P, two, lambda n, m, i, j: mk('call', 'witness::fe2', '', num(i), num(j)))
    u.prep = prep(False)
    for n in range(4): u.val('shape3', lambda *_: [num(n)], args=[num(n)])
    u.val('shape2d', lambda *_: [num(3), num(2)], args=[num(3), num(2)])


def where(u): return min([x for x in (getattr(u.w, 'site', None) or []) if x.startswith('src/')] or ['src/app_parallel.hpp'])


def blocks(u):
    """blocks tile the domain: consecutive, from one end to the other, none empty; refused exactly if there are fewer elements than blocks"""
    c = u.c; u.prep = prep(False)
    S = u.w.tu
    def runb(name, ix):
        f = u.w.fn(name); from vg import Interp
        I = Interp(S); return u.run(name, [I.symbolic(p['t'], p['name']) if i is None else num(i) for p, i in zip(f.d['params'], ix)])
    # a size is a multiple of the number of blocks and a rest, so that every edge is linear in the multiple
    class Case:
        def __init__(self, sizes, rests, many):
            self.m = {}; self.pre = TRUE
            for (S, B), r in zip(sizes, rests):
                if many: p = mk('fld', S, 'multiple'); self.pre = band(self.pre, cmp_('>=', p, ZERO)); self.m[S] = arith('+', arith('*', num(B), arith('+', p, ONE)), num(r))
                else: self.m[S] = num(r)
        def __call__(self, t): return fold(divnorm(subst(t, self.m)), self.pre)
        def eq(self, x, y): return same([self(x)], [self(y)], self.pre, []) is None
        def lt(self, x, y): return entails(self.pre, cmp_('<', self(x), self(y)), [])
    def tiles(tag, k_, edges, size):
        bad = None
        for k, (s, f) in enumerate(edges):
            prev = edges[k - 1][1] if k else ZERO
            if not k_.eq(s, prev): return 'block %d begins at %s, required %s' % (k, show(k_(s))[:100], show(k_(prev))[:100])
            if not k_.lt(s, f): return 'block %d can be empty' % k
        if not k_.eq(edges[-1][1], size): return 'the last block ends at %s, required %s' % (show(k_(edges[-1][1]))[:100], show(k_(size))[:100])
    for B in (1, 2, 3, 4, 5):
        try:
            es = []
            for i in range(B):
                v = runb('block1', [None, B, i]); s, f, j = leaves(v); es.append((s, f)); ret = u.ret
                if j is not ONE: c.ob('block1:stride', False, u.where, 'blocks leave out elements')
            n = leaves(u.A[0])[0]; bad = None
            for r in range(B):
                k = Case([(n, B)], [r], True)
                if not entails(k.pre, k(ret), []): bad = bad or 'a decomposition into %d blocks can be refused although there are as many elements' % B
                else: bad = bad or tiles('', k, es, n)
                few = Case([(n, B)], [r], False)
                if few(ret) is not FALSE: bad = bad or 'a decomposition of %d elements into %d blocks is not refused: a block is empty' % (r, B)
            c.ob('blocks %d' % B, bad is None, u.where, bad, '%d residues of the size' % B)
        except AnalysisBroken as e: c.undecided('blocks %d' % B, '', str(e)[:250])
    try:
        E = {}
        for i in range(2):
            for j in range(3):
                v = runb('block2', [None, 2, 3, i, j]); l = leaves(v); E[i, j] = [(l[0], l[2]), (l[1], l[3])]; ret = u.ret
                if l[4] is not ONE or l[5] is not ONE: c.ob('block2:stride', False, u.where, 'blocks leave out elements')
        n = leaves(u.A[0]); bad = None
        for r in range(2):
            for q in range(3):
                k = Case([(n[0], 2), (n[1], 3)], [r, q], True)
                for j in range(3): bad = bad or tiles('', k, [E[i, j][0] for i in range(2)], n[0])
                for i in range(2): bad = bad or tiles('', k, [E[i, j][1] for j in range(3)], n[1])
        c.ob('blocks 2 x 3', bad is None, u.where, bad)
    except AnalysisBroken as e: c.undecided('blocks 2 x 3', '', str(e)[:250])
    try:
        v = runb('blocks', [None, 2, 3]); c.ob('number of blocks', same(leaves(v), [num(2), num(3)], u.ret, []) is None, u.where, 'the array of blocks has shape %s' % show(v)[:100])
    except AnalysisBroken as e: c.undecided('number of blocks', '', str(e)[:250])


def fold(t, pre):
    """conditions of t that follow from pre, or cannot hold with it, are decided"""
    for _ in range(30):
        cs = [x for x in atoms((t,), lambda y: y.op in ('<', '<=', '==', '>', '>=')) if not atoms(x.a, lambda y: y.op == 'ite' and y is not x)]
        m = {}
        for x in cs:
            if entails(pre, x, []): m[x] = TRUE
            elif entails(band(pre, x), FALSE, []): m[x] = FALSE
        if not m: return t
        t = divnorm(subst(t, m))
    return t


def product(xs):
    r = ONE
    for x in xs: r = mul(r, x)
    return r


def alternatives(v, g=TRUE):
    if v.op == 'ite': yield from alternatives(v.a[1], band(g, v.a[0])); yield from alternatives(v.a[2], band(g, bnot(v.a[0])))
    else: yield g, v


def factors(u):
    c = u.c
    # one factor: in every outcome the two numbers multiply to the argument
    def step(I): prep(False)(I)
    u.prep = step
    try:
        v = u.run('factors'); n = u.A[0]
        N = Norm()
        from physics import leaves as L
        a, b = L(v); bad = None; outcomes = 0
        for g, p, q in pairs(a, b):
            outcomes += 1
            conds = [y for x in [g, *u.I.after_loop] for y in conjuncts(x)]
            rem = {x.a[0] if isnum(x.a[1]) else x.a[1] for x in conds if x.op == '==' and (x.a[0] is ZERO or x.a[1] is ZERO)}
            def field(x): return x
            m = {}
            for d in atoms((p, q), lambda y: y.op == 'idiv'):
                r = mk('%', d.a[0], d.a[1])
                m[d] = div(d.a[0] if r in rem else sub(d.a[0], r), d.a[1])
            if not N.equal(mul(subst(p, m), subst(q, m)), n): bad = (show(p), show(q), show(g)); break
        c.interp = None
        c.ob('factor_once', bad is None, u.where, bad and 'the factors %s and %s (when %s) do not multiply to the number' % tuple(x[:150] for x in bad), '%d outcomes' % outcomes)
    except AnalysisBroken as e: c.undecided('factor_once', '', str(e)[:250])
    # all of them: by induction over the recursion, a recursive call appends factors whose product is its argument
    def induct(I):
        prep(False)(I); depth = [0]
        def impl(I, e, obj, args):
            if depth[0] == 0:
                depth[0] = 1; return None
            r = I.lv(args[0]); v = I.rv(args[0])
            if v.op == 'new' and not v.a[1]: v = mk('arr')
            if v.op != 'arr': raise AnalysisBroken('a list of unknown contents')
            I.store(r, mk('arr', *(v.a + (I.rv(args[1]),)))); return VOID
        I.models['mara::parallel::detail::prime_factors_impl'] = impl
        a, b = sym('p'), sym('q')
        I.models['mara::parallel::detail::factor_once'] = lambda I, e, obj, args: mk('rec', 'std::pair', (('first', a), ('second', div(I.rv(args[0]), a))))
    u.prep = induct
    try:
        v = u.run('all_factors'); n = u.A[0]; bad = None; N = Norm()
        for g, t in alternatives(v):
            if t.op == 'new' and not t.a[1]: t = mk('arr')
            if t.op != 'arr': raise AnalysisBroken('a list of unknown contents: ' + show(t)[:100])
            eq = {}
            for x in conjuncts(g):
                if x.op == '==' and any(N.equal(d, sub(div(n, sym('p')), ONE)) for d in (sub(x.a[0], x.a[1]), sub(x.a[1], x.a[0]))): eq[n] = sym('p')
            if not N.equal(subst(product(t.a), eq), subst(n, eq)): bad = (show(t), show(g)); break
        c.ob('prime_factors', bad is None, u.where, bad and 'the factors %s (when %s) do not multiply to the number' % tuple(x[:200] for x in bad))
    except AnalysisBroken as e: c.undecided('prime_factors', '', str(e)[:250])
    # grouped: the extents multiply to the number of subdomains
    for R in (1, 2, 3):
        bad = None; name = 'proposed%d' % R
        try:
            for k in range(1, 8):
                fs = [sym('f%d' % i) for i in range(k)]
                def group(I):
                    prep(False)(I)
                    def pf(I, e, obj, args):
                        at = I.alloc(mk('arr', *fs)); return made(I, e, fs)
                    I.models['mara::parallel::detail::prime_factors'] = pf
                u.prep = group
                v = u.run(name); l = leaves(v)
                if u.ret is not TRUE: bad = '%d prime factors: can be refused' % k; break
                N = Norm()
                if not N.equal(product(l), product(fs)): bad = '%d prime factors: the extents %s do not multiply to their product' % (k, show(v)[:200]); break
            c.ob(name, bad is None, u.where, bad and '%s: %s' % (name, bad))
        except AnalysisBroken as e: c.undecided(name, '', str(e)[:250])


def made(I, e, fs):
    n = len(fs); t = e['t']
    fn = [f for f in I.tu.funcs.values() if f.n == 'nd::make_array_from' and 'body' in f.d and not f.get('dep')]
    if not fn: raise AnalysisBroken('no function makes an array from a list')
    return I.rv(I.call(fn[0], [I.alloc(mk('arr', *fs))], None, e))


def conjuncts(g):
    if g.op == 'and':
        for x in g.a: yield from conjuncts(x)
    elif g.op == 'loopexit': yield from conjuncts(g.a[1])
    else: yield g


def pairs(a, b, g=TRUE):
    for x in (a, b):
        if x.op == 'ite':
            c_ = x.a[0]
            pick = lambda y, k: y.a[k] if y.op == 'ite' and y.a[0] is c_ else y
            yield from pairs(pick(a, 1), pick(b, 1), band(g, c_)); yield from pairs(pick(a, 2), pick(b, 2), band(g, bnot(c_))); return
    yield g, a, b


def trees(u):
    ft = lambda x: mk('call', 'witness::ft', '', x); fu = lambda x, y: mk('call', 'witness::fu', '', x, y)
    for late in (False, True):
        u.prep = prep(late)
        for n in ('serial', 'async', 'deferred', 'pooled'): u.val(n, lambda *a: [ft(x) for x in a])
        for n in ('applied', 'async_applied', 'pool_applied'): u.val(n, lambda *a: [fu(x, ft(x)) for x in a])
