"""Multi-dimensional arrays: the index law, shape and guard of every public operation, for arbitrary shapes and
elements (witness/ndarray.cpp applies each operation to an uninterpreted array a2(i, j) of symbolic shape)."""
from program import parse_all, witness, AnalysisBroken
from vg import Interp, select, LV
from terms import *
from physics import leaves, add, mul, sub, div, neg, nfcond
from algebra import W, returns, beq
import lin, time
from lin import sat, entails, equiv, same, term_equal

LE = lambda a, b: cmp_('<=', a, b)
LT = lambda a, b: cmp_('<', a, b)
EQ = lambda a, b: cmp_('==', a, b)


def conj(*l):
    r = TRUE
    for x in l: r = band(r, x)
    return r


def F(name): return lambda *i: mk('call', 'witness::' + name, '', *i)


a1, b1, a2, b2, a3, t2 = [F(n) for n in ('a1', 'b1', 'a2', 'b2', 'a3', 't2')]


def prep(I): I.peel = 4


class ND:
    def __init__(self, c, unit='ndarray.cpp'):
        self.c = c; self.w = W(c, unit)

    def call(self, name):
        try: v = self.w.call(name, prep=prep)
        except AnalysisBroken as e: raise
        A = [leaves(a) for a in self.w.args]
        self.facts = [LE(ZERO, x) for a in A for x in a if x.op == 'sym']
        self.ret = returns(self.w.last)
        self.where = (self.w.site or ['?'])[0]
        return leaves(v), A

    def guard(self, name, cond, nonempty=(), pre=TRUE):
        """the call throws exactly when cond is false (for operands whose sizes in `nonempty` are at least one)"""
        self.facts = self.facts + [LE(ONE, x) for x in nonempty]
        if not entails(band(pre, self.ret), cond, self.facts): self.c.ob(name + ':guard', False, self.where, '%s accepts operands for which it must throw (required: %s)' % (name, show(cond)[:200]))
        elif not entails(band(pre, cond), self.ret, self.facts): self.c.ob(name + ':guard', False, self.where, '%s throws for valid operands' % name)
        else: self.c.ob(name + ':guard', True, self.where)

    def val(self, name, *a, **k):
        """one obligation, with a time budget: an obligation that exceeds it is reported as undecided"""
        left = max(5, 600 - (time.time() - self.c.t0))
        lin.DEADLINE[0] = time.time() + min(100, left)
        try: self.val_(name, *a, **k)
        except lin.Budget: self.c.undecided(name, self.where, 'time budget exceeded')
        finally: lin.DEADLINE[0] = None

    def val_(self, name, spec, pre=None, guard=None, extra=None, ne=None, total=False):
        r, A = self.call(name)
        want = spec(*A)
        if not isinstance(want, list): want = [want]
        assume = pre(*A) if pre else TRUE
        if guard is not None:
            keep = self.facts; self.guard(name, guard(*A), ne(*A) if ne else (), assume if total else TRUE); self.facts = keep
        facts = self.facts + (extra(*A) if extra else [])
        d = ('count', 'count', TRUE) if len(r) != len(want) else same(r, want, assume, facts)
        if d is not None and len(r) == len(want): d = same(r, want, band(assume, self.ret), facts)
        self.c.ob(name, d is None, self.where, d and '%s: the code computes %s, required %s' % (name, str(d[0])[:200], str(d[1])[:200]))

    def cond(self, name, spec, pre=None, extra=None, guard=None):
        r, A = self.call(name)
        want = spec(*A); assume = pre(*A) if pre else TRUE
        facts = self.facts + (extra(*A) if extra else [])
        ok = entails(band(assume, r[0]), want, facts) and entails(band(assume, want), r[0], facts)
        self.c.ob(name, ok, self.where, '%s: the code decides %s, required %s' % (name, show(r[0])[:250], show(want)[:250]))
        if guard is not None: self.guard(name, guard(*A))


def prop_ndarray(c):
    c.rule('for arbitrary shape and elements, the value graph of (A | op)(index), of (A | op).shape() and of the throwing condition equal the index law of op; conditions are compared by linear integer reasoning')
    c.assumptions += ['sizes and indexes do not wrap around (mathematical integers)', 'jumps >= 1']
    n = ND(c)
    val, cond = n.val, n.cond
    S = lambda s, *r: s
    inr = lambda sh: (lambda s, i, j, *r: conj(*[LT(x[0], y) for x, y in zip((i, j), sh(s, *r))]))
    def op2(name, f, sh, guard=None, pre=None):
        g = lambda s, i, j, *r: f(s, i[0], j[0], *[x[0] for x in r])
        h = lambda s, *r: sh(s, *[x[0] for x in r])
        p = lambda s, i, j, *r: conj(*([LT(i[0], h(s, *r)[0]), LT(j[0], h(s, *r)[1])] + ([pre(s, *[x[0] for x in r])] if pre else [])))
        val(name, g, p)
        val(name + '_shape', h, (lambda s, *r: pre(s, *[x[0] for x in r])) if pre else None, guard=(lambda s, *r: guard(s, *[x[0] for x in r])) if guard else (lambda *r: TRUE), ne=lambda s, *r: list(s) + [x[0] for x in r], total=guard is None)
    at = lambda ax, e: (lambda i, j: (e(i), j) if ax == 0 else (i, e(j)))
    plus = lambda k: (lambda x: arith('+', x, k if isinstance(k, T) else num(k)))
    def sh(ax, f): return lambda s, *r: [f(s[0], *r), s[1]] if ax == 0 else [s[0], f(s[1], *r)]
    same_ = lambda s, *r: list(s)
    ge1 = lambda ax, k=1: (lambda s, *r: LE(num(k), s[ax]))
    op2('ident', lambda s, i, j: a2(i, j), same_)
    for ax in (0, 1):
        x = str(ax)
        A_ = lambda k, i, j: a2(*at(ax, plus(k))(i, j))
        op2('diff' + x, lambda s, i, j: sub(A_(1, i, j), A_(0, i, j)), sh(ax, lambda m: sub(m, ONE)), pre=ge1(ax))
        op2('mid' + x, lambda s, i, j: mul(num('1/2'), add(A_(1, i, j), A_(0, i, j))), sh(ax, lambda m: sub(m, ONE)), pre=ge1(ax))
        op2('dropf' + x, lambda s, i, j: A_(1, i, j), sh(ax, lambda m: sub(m, ONE)), pre=ge1(ax))
        op2('dropl' + x, lambda s, i, j: A_(0, i, j), sh(ax, lambda m: sub(m, ONE)), pre=ge1(ax))
        op2('first' + x, lambda s, i, j, k: a2(i, j), sh(ax, lambda m, k: k), guard=lambda s, k: bor(LE(k, s[ax]), bnot(TRUE)))
        op2('final' + x, lambda s, i, j, k: a2(*at(ax, lambda y: sub(add(s[ax], y), k))(i, j)), sh(ax, lambda m, k: k), pre=lambda s, k: LE(k, s[ax]))
        def ext(lo, hi, g=lambda r: ONE):
            def f(s, i, j, *r):
                k = g(r); p = (i, j)[ax]; m = s[ax]
                e = ite(LT(p, k), lo(p, m, k), ite(LT(p, add(m, k)), a2(*at(ax, lambda y: sub(y, k))(i, j)), hi(p, m, k)))
                return e
            return f
        def per(s, i, j, *r):
            k = r[0] if r else ONE; p = (i, j)[ax]; m = s[ax]
            w = lambda e: a2(e, j) if ax == 0 else a2(i, e)
            return ite(LT(p, k), w(sub(add(m, p), k)), ite(LT(p, add(m, k)), w(sub(p, k)), w(sub(sub(p, k), m))))
        def zgr(s, i, j):
            p = (i, j)[ax]; m = s[ax]
            w = lambda e: a2(e, j) if ax == 0 else a2(i, e)
            return ite(LT(p, ONE), w(ZERO), ite(LT(p, add(m, ONE)), w(sub(p, ONE)), w(sub(m, ONE))))
        def zer(s, i, j):
            p = (i, j)[ax]; m = s[ax]
            w = lambda e: a2(e, j) if ax == 0 else a2(i, e)
            return ite(LT(p, ONE), ZERO, ite(LT(p, add(m, ONE)), w(sub(p, ONE)), ZERO))
        op2('per' + x, per, sh(ax, lambda m: add(m, num(2))), pre=ge1(ax), guard=ge1(ax))
        op2('pern' + x, per, sh(ax, lambda m, k: add(m, k, k)), pre=lambda s, k: LE(k, s[ax]), guard=lambda s, k: LE(k, s[ax]))
        op2('zgrad' + x, zgr, sh(ax, lambda m: add(m, num(2))), pre=ge1(ax), guard=ge1(ax))
        op2('zeros' + x, zer, sh(ax, lambda m: add(m, num(2))), pre=ge1(ax), guard=ge1(ax))
    op2('takef0', lambda s, i, j: a2(i, j), sh(0, lambda m: ONE), guard=ge1(0))
    op2('takel1', lambda s, i, j: a2(i, sub(add(s[1], j), ONE)), sh(1, lambda m: ONE), pre=ge1(1))
    el = lambda f: (lambda s, i, j: f(a2(i, j)))
    op2('mulc', el(lambda x: mul(x, num(3))), same_); op2('divc', el(lambda x: div(x, num(3))), same_)
    op2('mapped', el(lambda x: add(mul(x, x), ONE)), same_); op2('uplus', el(lambda x: x), same_); op2('uminus', el(neg), same_)
    op2('pluss', el(lambda x: add(x, num(2))), same_); op2('minuss', el(lambda x: sub(x, num(2))), same_); op2('timess', el(lambda x: mul(x, num(2))), same_); op2('overs', el(lambda x: div(x, num(2))), same_)
    op2('bounds', lambda s, i, j: a2(i, j), same_)
    n.call('bounds'); A = [leaves(a) for a in n.w.args]
    n.guard('bounds', conj(LT(A[1][0], A[0][0]), LT(A[2][0], A[0][1])))
    # zipping
    sd = lambda k, ax: (lambda s: [sub(s[0], num(k)), s[1]] if ax == 0 else [s[0], sub(s[1], num(k))])
    for k in (0, 1): val('adj2_%d' % k, lambda s, i, j: a2(add(i[0], num(k)), j[0]))
    for k in (0, 1, 2): val('adj3_%d' % k, lambda s, i, j: a2(i[0], add(j[0], num(k))))
    val('adj2_shape', sd(1, 0), lambda s: LE(ONE, s[0])); val('adj3_shape', sd(2, 1), lambda s: LE(num(2), s[1]))
    eqs = lambda s, t, *r: conj(EQ(s[0], t[0]), EQ(s[1], t[1]))
    bins = {'plus': lambda x, y: add(x, y), 'minus': sub, 'times': lambda x, y: mul(x, y), 'over': div}
    for k, f in bins.items(): val(k, lambda s, t, i, j: f(a2(i[0], j[0]), b2(i[0], j[0]))); val(k + '_shape', lambda s, t: list(s), guard=eqs)
    for k, o in (('eq', '=='), ('ne', '!='), ('lt', '<'), ('gt', '>'), ('le', '<='), ('ge', '>=')):
        r, A = n.call(k); i, j = A[2][0], A[3][0]
        c.ob(k, beq(r[0], cmp_(o, a2(i, j), b2(i, j))), n.where, 'element-wise %s computes %s' % (o, show(r[0])[:200]))
        val(k + '_shape', lambda s, t: list(s), guard=eqs)
    for k, f in (('land', lambda x: x), ('lor', lambda x: TRUE), ('lnot', bnot)):
        r, A = n.call(k); c.ob(k, beq(r[0], f(t2(A[1][0], A[2][0]))), n.where, 'element-wise logic: %s' % show(r[0])[:200])
    val('zip0', lambda s, t, i, j: a2(i[0], j[0])); val('zip1', lambda s, t, i, j: b2(i[0], j[0])); val('zip_shape', lambda s, t: list(s), guard=eqs)
    val('get1', lambda s, i, j: b2(i[0], j[0])); val('unzip0', lambda s, i, j: a2(i[0], j[0])); val('applied', lambda s, i, j: sub(a2(i[0], j[0]), mul(num(2), b2(i[0], j[0]))))
    val('cart0', lambda s, t, i, j: a1(i[0])); val('cart1', lambda s, t, i, j: b1(j[0])); val('cart_shape', lambda s, t: [s[0], t[0]]); val('mesh1', lambda s, t, i, j: b1(j[0]))
    for ax in (0, 1):
        def cc(s, t, i, j):
            p = (i[0], j[0]); q = list(p); q[ax] = sub(p[ax], s[ax])
            return ite(LT(p[ax], s[ax]), a2(*p), b2(*q))
        val('concat%d' % ax, cc)
        val('concat%d_shape' % ax, lambda s, t: [add(x, y) if k == ax else x for k, (x, y) in enumerate(zip(s, t))], guard=lambda s, t: EQ(s[1 - ax], t[1 - ax]))
    # selection and replacement (p = start0 start1 final0 final1 jumps0 jumps1)
    pos = lambda p: conj(LE(ONE, p[4]), LE(ONE, p[5]))
    nonempty = lambda p: conj(LT(p[0], p[2]), LT(p[1], p[3]))
    q_ = lambda p, k: intdiv(sub(sub(p[2 + k], p[k]), ONE), p[4 + k])
    def pshape(p): return [ite(LT(p[k], p[2 + k]), add(q_(p, k), ONE), ZERO) for k in (0, 1)]
    def divf(p, *idx):
        """floor-division facts for symbolic jumps (jumps >= 1, final > start): j*q <= final-start-1 < j*q + j"""
        out = []
        for k in (0, 1):
            q, j = q_(p, k), p[4 + k]
            x = sub(sub(p[2 + k], p[k]), ONE)
            out += [LE(mul(q, j), x), LT(x, add(mul(q, j), j)), LE(ZERO, q), LE(ZERO, mul(q, j))]
            for i in idx: out += [LE(mul(j, i[k]), mul(j, q)), LE(ZERO, mul(i[k], j))]
        return out
    r1 = lambda p: conj(nonempty(p), pos(p))
    val('pshape', lambda p: pshape(p), pos)
    val('psize', lambda p: mul(*pshape(p)), pos)
    val('pmap', lambda p, i: [add(p[k], mul(p[4 + k], i[k])) for k in (0, 1)])
    val('pinv', lambda p, i: [intdiv(sub(i[k], p[k]), p[4 + k]) for k in (0, 1)])
    cond('pgen', lambda p, i: conj(*[conj(LE(p[k], i[k]), LT(i[k], p[2 + k]), EQ(bitop('%', sub(i[k], p[k]), p[4 + k]), ZERO)) for k in (0, 1)]))
    cond('pcon', lambda p, i: conj(*[LT(i[k], pshape(p)[k]) for k in (0, 1)]), lambda p, i: pos(p))
    # within: sound and complete for non-empty patterns
    r, A = n.call('pwithin'); p, s = A
    last = [add(p[k], mul(p[4 + k], q_(p, k))) for k in (0, 1)]
    f = n.facts + divf(p)
    good = conj(*[LT(last[k], s[k]) for k in (0, 1)])
    c.ob('within:sound', entails(conj(r1(p), r[0]), good, f), n.where, 'access_pattern_t::within accepts a region that generates indexes outside the array')
    c.ob('within:complete', entails(conj(r1(p), good), r[0], f), n.where, 'access_pattern_t::within rejects a region all of whose indexes are inside the array')
    for nm, sh_ in (('sel', False),):
        r, A = n.call(nm); s, p, i, j = A[0], A[1], A[2][0], A[3][0]
        d = same(r, [a2(add(p[0], mul(p[4], i)), add(p[1], mul(p[5], j)))], n.ret, n.facts)
        c.ob('sel', d is None, n.where, 'select does not read the mapped index: %s' % show(r[0])[:200])
        f = n.facts + divf(p, (i, j))
        m = (add(p[0], mul(p[4], i)), add(p[1], mul(p[5], j)))
        inside = conj(LT(i, add(q_(p, 0), ONE)), LT(j, add(q_(p, 1), ONE)))
        c.ob('sel:bounds', entails(conj(r1(p), n.ret, inside), conj(LT(m[0], s[0]), LT(m[1], s[1])), f), n.where, 'select can read outside the array: its bounds guard does not cover the selected region')
        last = [add(p[k], mul(p[4 + k], q_(p, k))) for k in (0, 1)]
        c.ob('sel:guard', entails(conj(r1(p), LT(last[0], s[0]), LT(last[1], s[1])), n.ret, f), n.where, 'select throws for a region inside the array')
    val('sel_shape', lambda s, p: pshape(p), lambda s, p: pos(p))
    val('selfrom', lambda s, f, t, i, j: a2(add(f[0], i[0]), add(f[1], j[0])))
    val('selax', lambda s, i, j, f, t, k: a2(i[0], add(f[0], mul(k[0], j[0])))); val('selaxe', lambda s, i, j, f, t, k: a2(add(f[0], mul(k[0], i[0])), j[0]))
    val('selax_shape', lambda s, f, t: [s[0], sub(t[0], f[0])], lambda s, f, t: LE(f[0], t[0])); val('selaxe_shape', lambda s, f, t: [sub(sub(s[0], t[0]), f[0]), s[1]], lambda s, f, t: LE(add(f[0], t[0]), s[0]))
    r, A = n.call('selax_shape'); s, f, t = A[0], A[1][0], A[2][0]
    n.guard('selax', LE(t, s[1]), [s[0], f], LT(f, t))
    r, A = n.call('selaxe_shape'); s, f, t = A[0], A[1][0], A[2][0]
    n.guard('selaxe', TRUE, [s[1]], LT(add(f, t), s[0]))
    for nm, ax in (('selax', 1), ('selaxe', 0)):
        r, A = n.call(nm); s, i, j, f, t, k = A[0], A[1][0], A[2][0], A[3][0], A[4][0], A[5][0]
        fin = t if ax == 1 else sub(s[0], t); x = (i, j)[ax]
        q = intdiv(sub(sub(fin, f), ONE), k); e = sub(sub(fin, f), ONE)
        ff = n.facts + [LE(mul(q, k), e), LT(e, add(mul(q, k), k)), LE(ZERO, q), LE(ZERO, mul(q, k)), LE(mul(k, x), mul(k, q)), LE(ZERO, mul(k, x))]
        m = add(f, mul(k, x))
        c.ob(nm + ':bounds', entails(conj(n.ret, LT(f, fin), LE(x, q), LT((j, i)[ax], s[1 - ax]), LE(ONE, k), LE(ONE, s[0]), LE(ONE, s[1])), LT(m, s[ax]), ff), n.where, 'an axis selection can read outside of the array')
    def gen(p, i): return conj(*[conj(LE(p[k], i[k]), LT(i[k], p[2 + k]), EQ(bitop('%', sub(i[k], p[k]), p[4 + k]), ZERO)) for k in (0, 1)])
    val('repl', lambda s, t, p, i, j: ite(gen(p, (i[0], j[0])), b2(intdiv(sub(i[0], p[0]), p[4]), intdiv(sub(j[0], p[1]), p[5])), a2(i[0], j[0])), lambda s, t, p, i, j: r1(p))
    val('repl_shape', lambda s, t, p: list(s), lambda s, t, p: pos(p))
    r, A = n.call('repl_shape'); s, t, p = A
    c.ob('repl:guard', equiv(band(pos(p), n.ret), conj(pos(p), *[EQ(pshape(p)[k], t[k]) for k in (0, 1)]), n.facts), n.where, 'replace must throw exactly when the region and the replacement differ in shape')
    val('replf', lambda s, t, f, l, i, j: ite(conj(LE(f[0], i[0]), LT(i[0], l[0]), LE(f[1], j[0]), LT(j[0], l[1])), b2(sub(i[0], f[0]), sub(j[0], f[1])), a2(i[0], j[0])))
    val('freeze0', lambda s, m, j: a2(m[0], j[0])); val('freeze1', lambda s, m, j: a2(j[0], m[0])); val('freeze3', lambda s, m, i, j: a3(i[0], m[0], j[0]))
    val('freeze0_shape', lambda s, m: [s[1]]); val('freeze1_shape', lambda s, m: [s[0]])
    val('shiftm', lambda s, i, j: a2(i[0], add(j[0], num(2)))); val('shiftm_shape', lambda s: [s[0], sub(s[1], num(2))], guard=lambda s: LT(num(2), s[1]))
    r, A = n.call('shiftp'); s, i, j = A[0], A[1][0], A[2][0]
    rd = atoms(tuple(r), lambda t: t.op == 'call' and t.a[0] == 'witness::a2')
    okp = all(entails(conj(n.ret, LT(i, s[0]), LT(j, sub(s[1], num(2)))), conj(LE(ZERO, t.a[3]), LT(t.a[3], s[1])), n.facts) for t in rd)
    c.ob('shift-positive:bounds', okp, n.where, 'an array shifted by a positive amount reads elements before its beginning')
    val('readi', lambda s, i, j: a2(i[0], j[0]))
    ixf = lambda i: mk('call', 'witness::ix', '', i)
    r, A = n.call('readis'); v = atoms(tuple(r), lambda t: t.op == 'call' and t.a[0] == 'witness::a2')
    ok = len(r) == 1 and r[0] in v and all(ixf(A[2][0]) in atoms(x, lambda t: t.op == 'call') for x in r[0].a[2:]) and '[0]' in show(r[0].a[2]) and '[1]' in show(r[0].a[3])
    c.ob('readis', ok, n.where, 'read_indexes does not read the indexed element: %s' % show(r[0])[:200])
    val('readis_shape', lambda s, t: [t[0]])
    val('coll0', lambda s, i: a2(num(7), i[0])); val('coll1', lambda s, i: a2(i[0], num(7))); val('coll0_shape', lambda s: [s[1]]); val('coll1_shape', lambda s: [s[0]])
    # factories
    val('lin', lambda x0, x1, m, i: add(x0[0], div(mul(sub(x1[0], x0[0]), i[0]), sub(m[0], ONE)))); val('lin_shape', lambda x0, x1, m: [m[0]])
    val('ara', lambda m, i: [i[0]]); val('ara_shape', lambda m: [m[0]])
    edge = lambda g, s, m: intdiv(mul(g, s), m)
    val('divv_count', lambda s, m: [m[0]])
    r, A = n.call('divv'); s, m, g, i = [x[0] for x in A]
    r2, A2 = n.call('divv_shape')
    # the groups tile [0, size): group g starts where group g-1 ends, group 0 at 0, group n-1 ends at size
    ok = False
    if r[0].op == 'call' and r[0].a[0] == 'witness::a1':
        st_ = subst(r[0].a[2], {i: ZERO}); N = Norm()
        en = arith('+', st_, r2[0])
        step = term_equal(r[0].a[2], arith('+', st_, i))
        nxt = subst(st_, {g: add(g, ONE)})
        first = tile_eq(subst(st_, {g: ZERO}), ZERO); lastq = tile_eq(subst(en, {g: sub(m, ONE)}), s)
        ok = step and tile_eq(en, nxt) and first and lastq
    c.ob('divvy', ok, n.where, 'the groups of divvy are not contiguous blocks covering the array exactly once')
    val('zero2', lambda a, b, i, j: ZERO); val('one2', lambda a, b, i, j: ONE); val('zero2_shape', lambda a, b: [a[0], b[0]])
    val('idx2', lambda s, i, j: [i[0], j[0]]); val('idx2_shape', lambda s: list(s))
    # shapes and indexes
    val('volume2', lambda s: mul(*s)); val('volume3', lambda s: mul(*s)); cond('contains2', lambda s, i: conj(LT(i[0], s[0]), LT(i[1], s[1])))
    val('lastidx', lambda s: list(s)); val('insert3', lambda s, v: [s[0], v[0], s[1]]); val('remove3', lambda s: [s[0], s[2]])
    val('next0', lambda i: [add(i[0], ONE), i[1]]); val('prev1', lambda i: [i[0], sub(i[1], ONE)])
    n.call('nextax'); n.guard('nextax', LT(leaves(n.w.args[1])[0], num(2)))
    for k, f in (('lt', LT), ('le', LE), ('gt', lambda x, y: LT(y, x)), ('ge', lambda x, y: LE(y, x)), ('eq', EQ)): cond('i' + k, lambda a, b: conj(f(a[0], b[0]), f(a[1], b[1])))
    cond('ine', lambda a, b: bnot(conj(EQ(a[0], b[0]), EQ(a[1], b[1]))))
    cond('peq', lambda a, b: conj(*[EQ(x, y) for x, y in zip(a, b)])); cond('pne', lambda a, b: bnot(conj(*[EQ(x, y) for x, y in zip(a, b)])))
    # odometer
    def adv(R):
        def f(p, i):
            st_, fi, ju = p[:R], p[R:2 * R], p[2 * R:]
            def go(k, idx):
                x = list(idx); x[k] = add(idx[k], ju[k])
                if k == 0: over = [FALSE] + list(fi)
                else:
                    y = list(x); y[k] = st_[k]; over = go(k - 1, y)
                g = LT(x[k], fi[k])
                return [ite(g, u, v) for u, v in zip([TRUE] + x, over)]
            return go(R - 1, list(i))
        return f
    for R in (1, 2, 3): val('padv%d' % R, adv(R))
    val('pinc', lambda p: adv(2)(p, p[:2])[1:], r1, extra=lambda p: posprod([], p, q_))
    r, A = n.call('pbegin'); p = A[0]
    f = n.facts + [LE(mul(sub(x, ONE), y), mul(sub(x, ONE), y)) for x, y in ()]
    d = same(r, p[:2], r1(p), n.facts + posprod(r, p, q_))
    c.ob('pbegin', d is None, n.where, 'iteration over a non-empty access pattern does not start at its first index')
    e0 = band(pos(p), bnot(nonempty(p)))
    d = same(r, p[2:4], e0, n.facts)
    c.ob('pbegin-empty', d is None, n.where, 'iteration over an empty access pattern visits elements')
    val('pend', lambda p: p[2:4])
    val('pws', lambda p, i: i + p[2:]); val('pwf', lambda p, i: p[:2] + i + p[4:]); val('pwj', lambda p, i: p[:4] + i)
    full = lambda s: [ZERO, ZERO, s[0], s[1], ONE, ONE]
    val('pmake', full); val('indexes', full); val('asize', lambda s: mul(*s))
    val('strides1', lambda s: [ONE]); val('strides2', lambda s: [s[1], ONE]); val('strides3', lambda s: [mul(s[1], s[2]), s[2], ONE])
    val('offset3', lambda m, i: add(*[mul(x, y) for x, y in zip(m, i)]))
    # partitions tile the first axis
    parts = []
    for k in range(4):
        r, A = n.call('part%d' % k); parts.append((r, A[0]))
    ok = all(N_eq(p[4], ONE) and N_eq(p[5], ONE) and N_eq(p[1], ZERO) and N_eq(p[3], s[1]) for p, s in parts)
    s0 = parts[0][1][0]
    edges = [parts[0][0][0]] + [p[2] for p, _ in parts]
    ok = ok and tile_eq(edges[0], ZERO) and tile_eq(edges[-1], s0) and all(tile_eq(parts[k][0][2], parts[k + 1][0][0]) for k in range(3))
    mono_ = all(entails(TRUE, LE(parts[k][0][0], parts[k][0][2]), [LE(ZERO, s0)]) for k in range(4))
    c.ob('partition', ok and mono_, n.where, 'partition_shape does not split the first axis into consecutive blocks covering it exactly once')
    reductions(c, n)
    memory(c, n)
    c.minimum = 200


def N_eq(x, y): return Norm().equal(x, y)


def tile_eq(x, y):
    """equality of partition edges; (k*n) idiv k = n and 0 idiv k = 0"""
    def red(t):
        for q in atoms(t, lambda z: z.op == 'idiv'):
            N = Norm(); a, b = q.a
            if N.equal(a, ZERO): return red(subst(t, {q: ZERO}))
            try:
                p, d = N.reduce(N.nf(arith('/', a, b)))
                if list(d.keys()) == [()] and not any(e < 0 for m in p for _, e in m): return red(subst(t, {q: arith('/', a, b)}))
            except TooBig: pass
        return t
    return term_equal(red(x), red(y))


def posprod(r, p, q_):
    """a product of two numbers >= 1 is not zero"""
    z = [g for g in atoms(tuple(r), lambda t: t.op == '==')]
    out = []
    for k in (0, 1): out += [LE(ZERO, q_(p, k))]
    out.append(LE(ZERO, mul(q_(p, 0), q_(p, 1))))
    return out


def full_range(t, s):
    """t = each(full access pattern of shape s)"""
    if t.op != 'each': return False
    l = leaves(t.a[0])
    return len(l) == 6 and all(N_eq(x, y) for x, y in zip(l, [ZERO, ZERO, s[0], s[1], ONE, ONE]))


def idx_of(t, s):
    """the pair (i, j) of components of the loop index over all of s"""
    e = atoms(t, lambda x: x.op == 'each')
    if len(set(e)) != 1 or not full_range(e[0], s): return None
    m = mk('fld', e[0], 'memory')
    return select(m, ('i', ZERO)), select(m, ('i', ONE))


def reductions(c, n):
    def mu(name):
        r, A = n.call(name); return r[0], A[0]
    def one(name, init, step, what):
        """mu(init, step(acc, element))"""
        t, s = mu(name); ok = False
        if t.op == 'mu':
            ij = idx_of(t.a[3], s)
            if ij:
                acc = mk('loopvar', t.a[0], t.a[1], t.a[2])
                ok = N_eq(t.a[2], init) and term_equal(t.a[3], step(acc, *ij))
        c.ob(name, ok, n.where, '%s: loop computes %s' % (what, show(t)[:250]))
    c.allow |= {'loop'}
    one('rsum', ZERO, lambda acc, i, j: add(acc, a2(i, j)), 'sum must add every element once')
    one('rcount', ZERO, lambda acc, i, j: add(acc, t2(i, j)), 'the sum of a boolean array must count its true elements')
    for name, o in (('rmin', '<'), ('rmax', '>')):
        t, s = mu(name); ok = False
        if t.op == 'mu':
            ij = idx_of(t.a[3], s)
            if ij:
                acc = mk('loopvar', t.a[0], t.a[1], t.a[2]); el = a2(*ij)
                flags = [v for v in set(atoms(t.a[3], lambda x: x.op == 'loopvar')) if v is not acc]
                fin = n.w.last.state.mem
                ok = True
                for g in batoms_of(t.a[3]):
                    if not any(x in (acc, el) or x in flags for x in atoms(g, lambda x: True)): ok = False
                from algebra import cases
                better = cmp_(o, el, acc)
                for conds, (v,) in cases([t.a[3]]):
                    known = TRUE
                    for g, pol in conds: known = band(known, g if pol else bnot(g))
                    isfirst = flags and any(pol for g, pol in conds if g in flags)
                    notfirst = (not flags) or not isfirst
                    if isfirst: ok = ok and v is el
                    else:
                        if v is el: ok = ok and implies_(known, bor(better, EQ(el, acc)))
                        elif v is acc: ok = ok and implies_(known, bnot(better))
                        elif v.op in ('min', 'max') and v.op == ('min' if o == '<' else 'max') and set(v.a) == {acc, el}: pass
                        else: ok = False
                # the flag is true exactly on the first iteration
                for fl in flags:
                    m = [x for x in fin.values() if x.op == 'mu' and x.a[0] == fl.a[0] and x.a[1] == fl.a[1]]
                    ok = ok and N_eq(fl.a[2], ONE) and all(N_eq(x.a[3], ZERO) for x in m) and bool(m)
                if not flags: ok = ok and t.a[2].op == 'call' and t.a[2].a[0] == 'witness::a2'
        c.ob(name, ok, n.where, 'the %s of an array is not the extremum of its elements: %s' % (name[1:], show(t)[:250]))
    for name, stop in (('rall', lambda x: bnot(x)), ('rany', lambda x: x)):
        t, s = mu(name); ok = False
        ij = idx_of(t, s)
        if ij:
            el = t2(*ij)
            if t.op == 'ite' and t.a[0].op == 'loopexit': ok = beq(t.a[0].a[1], stop(el)) and N_eq(t.a[1], num(0 if name == 'rall' else 1)) and N_eq(t.a[2], num(1 if name == 'rall' else 0))
            elif t.op in ('!',) and t.a[0].op == 'loopexit': ok = name == 'rall' and beq(t.a[0].a[1], stop(el))
            elif t.op == 'loopexit': ok = name == 'rany' and beq(t.a[1], stop(el))
            elif t.op == 'mu':
                acc = mk('loopvar', t.a[0], t.a[1], t.a[2])
                ok = beq(t.a[3], band(acc, el) if name == 'rall' else bor(acc, el)) and N_eq(t.a[2], num(1 if name == 'rall' else 0))
        c.ob(name, ok, n.where, 'the %s-reduction does not test every element: %s' % (name[1:], show(t)[:250]))


def batoms_of(t):
    from props_bool import batoms
    out = []
    for x in atoms(t, lambda y: y.op == 'ite'): batoms(x.a[0], out)
    return out


def implies_(a, b):
    from props_bool import implies
    return implies(nfcond(a), nfcond(b))


def stored(I, ptr_):
    """final content of the buffer a pointer designates"""
    return I.state.mem.get(ptr_.a[0]) if ptr_.op == 'ptr' else None


def memory(c, n):
    # element access of memory-backed arrays: row-major offset
    for name in ('ush', 'shd'):
        r, A = n.call(name); I = n.w.last; arr_ = A[0]; i, j = A[1][0], A[2][0]
        want = None
        off = [t for t in atoms(tuple(r), lambda t: t.op in ('padd',))]
        a = n.w.args[0]; prov = select(a, ('f', 'provider')); st_ = leaves(select(prov, ('f', 'strides')))
        o = add(mul(st_[0], i), mul(st_[1], j))
        ok = len(off) == 1 and N_eq(off[0].a[1], o)
        c.ob(name, ok, n.where, 'element access does not use the strides: %s' % show(r[0])[:200])
    for name in ('evalu', 'evaltu', 'evals', 'evalts'):
        r = n.w.call(name, prep=prep); I = n.w.last; s = leaves(n.w.args[0]); n.where = (n.w.site or ['?'])[0]
        prov = select(r, ('f', 'provider')); shp = leaves(select(prov, ('f', 'the_shape'))); sd = leaves(select(prov, ('f', 'strides')))
        b = select(prov, ('f', 'buffer'))
        if b.op == 'ptr': b = I.load(LV(b.a[0], b.a[1]))
        cnt = select(b, ('f', 'count')); mem = select(b, ('f', 'memory'))
        ok = all(N_eq(x, y) for x, y in zip(shp, s)) and all(N_eq(x, y) for x, y in zip(sd, [s[1], ONE])) and N_eq(cnt, mul(*s))
        c.ob(name + ':layout', ok, n.where, 'evaluating an array must produce a row-major buffer of its shape')
        m = stored(I, mem) if mem.op == 'ptr' else None
        if m is None: ok = False
        else:
            w_ = copies(m)
            ok = False
            if w_ is not None:
                idx, v = w_
                ij = idx_of(v, s)
                ok = ij is not None and N_eq(idx, add(mul(ij[0], s[1]), ij[1])) and term_equal(v, a2(*ij))
        if not ok and m is not None and m.op == 'ite': c.undecided(name + ':copy', n.where, 'the copy is not a single loop over the index space'); continue
        c.ob(name + ':copy', ok, n.where, 'evaluating an array does not store element (i, j) at its row-major offset for every index: %s' % (show(m)[:300] if m is not None else mem))
    # reshape: same buffer, guard
    r = n.w.call('resh', prep=prep); I = n.w.last; a, t = n.w.args; n.where = (n.w.site or ['?'])[0]
    sp = leaves(select(select(a, ('f', 'provider')), ('f', 'the_shape'))); tt = leaves(t); prov = select(r, ('f', 'provider'))
    ok = select(prov, ('f', 'buffer')) is select(select(a, ('f', 'provider')), ('f', 'buffer')) and all(x is y for x, y in zip(leaves(select(prov, ('f', 'the_shape'))), tt)) and all(N_eq(x, y) for x, y in zip(leaves(select(prov, ('f', 'strides'))), [mul(tt[1], tt[2]), tt[2], ONE]))
    c.ob('reshape', ok, n.where, 'reshape must keep the buffer and recompute the row-major strides')
    c.ob('reshape:guard', entails(returns(I), EQ(mul(*sp), mul(*tt))), n.where, 'reshape to a different number of elements is accepted')
    # provider constructors refuse buffers of the wrong size
    for name in ('mkshared', 'mkunique'):
        n.w.call(name, prep=prep); s, b = n.w.args; I = n.w.last
        b0 = I.load(I.deref(b)) if b.op == 'sym' else b
        cnt = select(b, ('f', 'count')) if name == 'mkunique' else select(mk('deref', b), ('f', 'count'))
        ok = entails(returns(I), EQ(mul(*leaves(s)), cnt)) and entails(EQ(mul(*leaves(s)), cnt), returns(I))
        c.ob(name + ':guard', ok, (n.w.site or ['?'])[0], 'a memory-backed array accepts a buffer whose size differs from the volume of its shape: returns when %s' % show(returns(I))[:200])
    # buffers
    r, A = n.call('bufat'); n.guard('bufat', LT(A[1][0], A[0][0]))
    r = n.w.call('bufmove', prep=prep); I = n.w.last
    b = n.w.args[0]
    c.ob('buffer-move', leaves(r) == leaves(b), (n.w.site or ['?'])[0], 'moving a buffer must transfer its memory and count')
    for nm, fn in (('buffer-move-releases', 'bufmove2'), ('buffer-assign', 'bufassign2')):
        r = leaves(n.w.call(fn, prep=prep)); src = leaves(n.w.args[-1]); I = n.w.last
        want = [ZERO, mk('nullptr')] + src
        c.ob(nm, [x for x in r] == want, (n.w.site or ['?'])[0], 'after a buffer was moved from, it must own nothing and the target must own its memory (else it is freed twice): %s' % [show(x) for x in r])
        if fn == 'bufassign2':
            dl = [e for e in I.events if e.kind == 'delete']
            c.ob(nm + ':frees', any(e.args[0] is leaves(n.w.args[0])[1] for e in dl), (n.w.site or ['?'])[0], 'assigning to a buffer must release the memory it owned')
    r = n.w.call('bufmake', prep=prep); I = n.w.last; l = leaves(r)
    m = stored(I, l[1]); w_ = copies(m) if m is not None else None
    ok = l[0] is n.w.args[0] and w_ is not None and N_eq(w_[1], num(2)) and w_[0].op == 'loopvar' and N_eq(w_[0].a[2], ZERO)
    c.ob('buffer-fill', ok, (n.w.site or ['?'])[0], 'a buffer constructed with a value must be filled with it')
    # where
    r = n.w.call('wher', prep=prep); I = n.w.last; s = leaves(n.w.args[0]); where = (n.w.site or ['?'])[0]
    prov = select(r, ('f', 'provider')); cnt = leaves(select(prov, ('f', 'the_shape')))[0]
    ok = False
    ij = idx_of(cnt, s) if cnt.op == 'mu' else None
    if ij: ok = N_eq(cnt.a[2], ZERO) and term_equal(cnt.a[3], add(mk('loopvar', *cnt.a[:3]), t2(*ij)))
    c.ob('where:count', ok, where, 'where must have one entry per true element')
    best = False
    for m in I.state.mem.values():
        if m.op == 'mu' and m.a[3].op == 'ite':
            acc = mk('loopvar', *m.a[:3]); g, x, y = m.a[3].a
            ij = idx_of(g, s)
            if ij and y is acc and x.op == 'upd' and x.a[0] is acc and beq(g, t2(*ij)):
                k = x.a[1]
                nm = [z for z in I.state.mem.values() if k.op == 'loopvar' and z.op == 'mu' and z.a[:3] == k.a[:3]]
                el = leaves(x.a[2]); e0 = atoms(g, lambda t: t.op == 'each')[0]
                same_idx = x.a[2] is e0 or (len(el) == 2 and N_eq(el[0], ij[0]) and N_eq(el[1], ij[1]))
                stepok = any(z.a[3].op == 'ite' and beq(z.a[3].a[0], t2(*ij)) and N_eq(z.a[3].a[1], add(k, ONE)) and z.a[3].a[2] is k and N_eq(z.a[2], ZERO) for z in nm)
                best = best or (same_idx and stepok)
    c.ob('where:indexes', best, where, 'where must list the index of every true element in order')


def copies(m):
    """m = mu(.., upd(acc, index, value)): (index, value) of the unconditional store of a loop"""
    if m.op != 'mu': return None
    acc = mk('loopvar', *m.a[:3])
    u = m.a[3]
    if u.op == 'upd' and u.a[0] is acc: return u.a[1], u.a[2]
    return None
