"""Vector, tuple, matrix, dimensional and rational algebra: every public operation is used once in
witness/algebra.cpp with arbitrary operands; its value graph must equal the component-wise law."""
from program import parse_all, witness, AnalysisBroken
from vg import Interp, select, LV
from terms import *
from physics import leaves, add, mul, sub, div, neg, sqrt, nfcond
from props_bool import implies


class W:
    """a witness unit: call functions of namespace witness with arbitrary arguments"""

    def __init__(self, c, unit, **kw):
        self.c = c; self.tu = parse_all([witness(unit)])[0]; self.kw = kw

    def fn(self, name):
        fs = self.tu.find('witness::' + name)
        if not fs: raise AnalysisBroken('witness function %s not instantiated' % name)
        return fs[0]

    def call(self, name, args=None, prep=None):
        f = self.fn(name)
        I = Interp(self.tu); I.unroll_breaks = self.kw.get('unroll_breaks', True)
        if prep: prep(I)
        self.last = I
        A = [I.alloc(I.symbolic(p['t'], p['name'])) for p in f.d['params']] if args is None else [I.alloc(a) for a in args]
        self.args = [I.load(a) for a in A]; self.locs = A
        try: r = I.call(f, A)
        except AnalysisBroken: raise
        except Exception as e: raise AnalysisBroken('internal error %r' % e)
        self.c.seen([v for v in I.visited if '/witness/' not in v[0]])
        self.site = sorted('%s:%s' % (rel_(v[0]), v[1]) for v in I.visited if '/witness/' not in v[0])
        return I.rv(r)


def rel_(p):
    from program import rel
    return rel(p)


def beq(a, b):
    """equality of boolean terms"""
    a, b = nfcond(a), nfcond(b)
    return a is b or (implies(a, b) and implies(b, a))


def blist(x): return leaves(x)


def prop_algebra(c):
    c.rule('the value graph of each public vector/tuple/matrix/dimensional operation, applied to arbitrary operands, equals the component-wise law')
    w = W(c, 'algebra.cpp')
    def num_(name, spec, what=''):
        r = leaves(w.call(name))
        A = [leaves(a) for a in w.args]
        want = spec(*A)
        if not isinstance(want, list): want = [want]
        N = Norm()
        ok = len(r) == len(want) and all(N.equal(x, y) for x, y in zip(r, want))
        msg = ''
        if not ok:
            bad = [(x, y) for x, y in zip(r, want) if not N.equal(x, y)] or [(mk('num', len(r)), mk('num', len(want)))]
            msg = '%s: code computes %s, required %s' % (what or name, show(bad[0][0])[:200], show(bad[0][1])[:200])
        c.ob(name, ok, (w.site or ['?'])[0], msg)
    def bool_(name, spec):
        r = leaves(w.call(name)); A = [leaves(a) for a in w.args]
        want = spec(*A)
        if not isinstance(want, list): want = [want]
        ok = len(r) == len(want) and all(beq(x, y) for x, y in zip(r, want))
        c.ob(name, ok, (w.site or ['?'])[0], '%s: code computes %s, required %s' % (name, show(mk('tup', *r))[:200], show(mk('tup', *want))[:200]))
    zw = lambda f: (lambda a, b: [f(x, y) for x, y in zip(a, b)])
    zs = lambda f: (lambda a, s: [f(x, s[0]) for x in a])
    un = lambda f: (lambda a: [f(x) for x in a])
    ADD, SUB, MUL, DIV = (lambda a, b: arith('+', a, b)), sub, mul, div
    ident = lambda x: x
    for p in ('seq', 'dseq', 'tup', 'dtup'):
        num_(p + '_add', zw(ADD)); num_(p + '_sub', zw(SUB)); num_(p + '_neg', un(neg))
    for p in ('seq', 'tup'): num_(p + '_mul', zw(MUL)); num_(p + '_div', zw(DIV)); num_(p + '_muls', zs(MUL)); num_(p + '_divs', zs(DIV))
    for p in ('dseq', 'dtup'): num_(p + '_mul', zs(MUL)); num_(p + '_div', zs(DIV))
    num_('seq_adds', zs(ADD)); num_('seq_subs', zs(SUB)); num_('seq_pos', un(ident)); num_('dseq_pos', un(ident))
    C = {'lt': lambda x, y: cmp_('<', x, y), 'gt': lambda x, y: cmp_('>', x, y), 'le': lambda x, y: cmp_('<=', x, y), 'ge': lambda x, y: cmp_('>=', x, y), 'eq': lambda x, y: cmp_('==', x, y), 'ne': lambda x, y: cmp_('!=', x, y)}
    for k, f in C.items():
        bool_('seq_' + k, zw(f)); bool_('seq_' + k + 's', zs(f)); bool_('tup_' + k, zw(f)); bool_('dim_' + k, zw(f))
    allof = lambda l: l[0] if len(l) == 1 else band(l[0], allof(l[1:]))
    anyof = lambda l: l[0] if len(l) == 1 else bor(l[0], anyof(l[1:]))
    bool_('seq_and', zw(band)); bool_('seq_or', zw(bor))
    bool_('seq_all', allof); bool_('seq_any', anyof)
    for p in ('dseq', 'dtup', 'mat'):
        bool_(p + '_eq', lambda a, b: allof([cmp_('==', x, y) for x, y in zip(a, b)]))
        bool_(p + '_ne', lambda a, b: anyof([cmp_('!=', x, y) for x, y in zip(a, b)]))
    num_('seq_sum', lambda a: add(*a))
    num_('seq_min', lambda a: mk('min', mk('min', a[0], a[1]), a[2])); num_('seq_max', lambda a: mk('max', mk('max', a[0], a[1]), a[2]))
    num_('seq_reverse', lambda a: a[::-1]); num_('seq_init', lambda a: a[:-1]); num_('seq_tail', lambda a: a[1:])
    num_('seq_head', lambda a: a[0]); num_('seq_last', lambda a: a[-1]); num_('seq_get2', lambda a: a[2]); num_('seq_at1', lambda a: a[1])
    num_('seq_concat', lambda a, b: a + b); num_('seq_append', lambda a, b: a + b); num_('seq_prepend', lambda a, b: b + a)
    num_('seq_transpose', lambda a: [a[3 * i + j] for j in range(3) for i in range(2)])
    for i in range(4): num_('seq_set%d' % i, lambda a, b: [b[0] if j == i else x for j, x in enumerate(a)])
    g = lambda x: arith('+', mul(x, x), ONE)
    num_('seq_update1', lambda a: [a[0], g(a[1]), a[2]]); num_('seq_map', lambda a: [g(x) for x in a])
    num_('seq_make', lambda a, b: a + b); num_('seq_iota', lambda: [num(i) for i in range(4)])
    num_('seq_lift', lambda a, b: [sub(mul(x, x), y) for x, y in zip(a, b)])
    num_('tup_set1', lambda a, s: [a[0], s[0], a[2]]); num_('tup_get2', lambda a: a[2]); num_('tup_make', lambda a, b: a + b); num_('tup_seq', lambda a: a)
    for k, f in (('add', ADD), ('sub', SUB), ('mul', MUL), ('div', DIV), ('ratio', DIV), ('muls', MUL), ('divs', DIV), ('addeq', ADD), ('subeq', SUB)): num_('dim_' + k, zw(f))
    num_('dim_neg', un(neg)); num_('dim_pow2', lambda a: mul(a[0], a[0])); num_('dim_powm3', lambda a: div(ONE, mul(a[0], a[0], a[0]))); num_('dim_sqrt', lambda a: sqrt(a[0]))
    num_('mat_add', zw(ADD)); num_('mat_sub', zw(SUB)); num_('mat_muls', zs(MUL)); num_('mat_divs', zs(DIV))
    prod = lambda a, b: [add(*[mul(a[3 * i + k], b[2 * k + j]) for k in range(3)]) for i in range(2) for j in range(2)]
    num_('mat_prod', prod); num_('mat_prod2', prod)
    num_('mat_zero', lambda: [ZERO] * 6); num_('mat_id', lambda: [ONE if i == j else ZERO for i in range(3) for j in range(3)])
    num_('mat_diag', lambda a, b, d: [(a, b, d)[i][0] if i == j else ZERO for i in range(3) for j in range(3)]); num_('mat_get', lambda a: a[5])
    def unit(a, b, d):
        n = sqrt(add(mul(a[0], a[0]), mul(b[0], b[0]), mul(d[0], d[0])))
        return [div(a[0], n), div(b[0], n), div(d[0], n)]
    num_('uv_make', unit)
    for i in range(3):
        e = [ONE if j == i else ZERO for j in range(3)]
        num_('uv_%d' % (i + 1), lambda: e); num_('uv_on%d' % i, lambda: e)
        num_('uv_i%d' % i, lambda n: n[i]); num_('uv_g%d' % i, lambda n: n[i])
    num_('uv_project', lambda n, a, b, d: add(mul(n[0], a[0]), mul(n[1], b[0]), mul(n[2], d[0])))
    num_('uv_scale', lambda n, s: [mul(x, s[0]) for x in n])
    num_('sc_make', lambda a, b, d: a + b + d); num_('ae_make', lambda a, b, d: a + b + d)
    c.minimum = 120


# ====================================================================== rational numbers
def loops_of(body):
    """loop statements of a function body in source order (not nested ones)"""
    out = []
    def go(s):
        if s is None: return
        if isinstance(s, list):
            for x in s: go(x)
            return
        if not isinstance(s, dict): return
        if s.get('k') in ('While', 'For', 'Do'): out.append(s); return
        for v in s.values():
            if isinstance(v, (dict, list)): go(v)
    go(body)
    return out


def cases(terms):
    """joint case split of the gating terms in a list: [(conditions, [values])]"""
    for t in terms:
        x = [y for y in atoms(t, lambda y: y.op == 'ite') if not atoms(y.a[0], lambda z: z.op == 'ite')]
        if x:
            from props_bool import batoms
            g = batoms(x[0].a[0])[0]
            out = []
            for pol in (True, False):
                ts = [subst(y, {g: TRUE if pol else FALSE}) for y in terms]
                for cs, vs in cases(ts): out.append(([(g, pol)] + cs, vs))
            return out
    return [([], list(terms))]


def prop_rational(c):
    c.allow |= {'loop', 'mara::rational_number_t::gcd', 'std::gcd'}
    c.rule('exact arithmetic: each operation constructs num/den whose quotient equals the exact rational result; the constructor divides both by the same gcd, makes the denominator positive, zero canonical, and throws on den = 0; comparisons equal the exact ones for positive denominators')
    w = W(c, 'rational.cpp')
    isg = lambda t: t.op == 'call' and t.a[0].split('::')[-1] in ('gcd', '__gcd')
    def prep(I): I.opaque = lambda fn: fn.n.split('::')[-1] == 'gcd'
    def val(name): return w.call(name, prep=prep)
    def same_ratio(name, spec, raw=False):
        """the quotient of the stored pair is spec, the pair is canonical, in every case of the gating conditions"""
        r = leaves(val(name))
        A = [leaves(a) for a in w.args]
        pn, pd = spec(*A)                       # exact numerator / denominator before reduction
        pos = [] if raw else [a[1] for a in A if len(a) == 2]
        where = (w.site or ['?'])[0]
        bad = None
        N = Norm()
        for conds, (n, d) in feasible(cases([unexact(r[0]), unexact(r[1])]), pos):
            z = zero_set(conds)
            if z: n, d, conds = subst(n, z), subst(d, z), [(subst(g, z), pol) for g, pol in conds]
            qn, qd = subst(pn, z) if z else pn, subst(pd, z) if z else pd
            if N.equal(qn, ZERO) or any(pol and zero_of(g, qn, pos) for g, pol in conds):
                if not (N.equal(n, ZERO) or not N.equal(qn, ZERO) and sign(div(n, qn), pos) is not None): bad = 'zero is not stored with numerator 0'
                if not N.equal(d, ONE): bad = 'zero is not stored as 0/1, so equal values compare unequal'
                continue
            if not N.equal(mul(n, qd), mul(d, qn)): bad = 'the stored quotient differs from the exact result'; continue
            # lowest terms: both components are divided by one gcd of themselves
            gs = [g for g in atoms((n, d), isg)]
            top = [g for g in gs if not any(g is not h and g in atoms(h, isg) for h in gs)]
            if not isnum(d):
                ok = False
                for g in top:
                    u, v = [strip_abs(x) for x in g.a[2:]]
                    if z: u, v = subst(u, z), subst(v, z)
                    for x, y in ((u, v), (v, u)):
                        if (N.equal(mul(n, g), x) or N.equal(mul(n, g), neg(x))) and (N.equal(mul(d, g), y) or N.equal(mul(d, g), neg(y))): ok = True
                if not ok: bad = 'the fraction is not divided by the gcd of its numerator and denominator'
            # positive denominator
            ok = isnum(d) and d.a[0] > 0 or sign(d, pos) == 1
            for g, pol in conds:
                if g.op in ('<', '<='):
                    for t, neg_when in ((g.a[0] if g.a[1] is ZERO else None, True), (g.a[1] if g.a[0] is ZERO else None, False)):
                        if t is not None and N.equal(d, neg(t) if pol == neg_when else t): ok = True
            if not ok: bad = bad or 'the stored denominator is not made positive'
        c.ob(name, bad is None, where, 'rational %s: %s' % (name, bad))
    N = Norm()
    one = [ONE]
    same_ratio('make', lambda n, d: (n[0], d[0]), raw=True)
    ret = returns(w.last)
    d0 = w.args[1]
    c.ob('zero-denominator', implies(nfcond(ret), nfcond(bnot(cmp_('==', d0, ZERO)))), (w.site or ['?'])[0], 'a rational number with denominator 0 can be constructed')
    for nm, v in (('make1', None), ('zero', None)):
        r = leaves(val(nm)); A = [leaves(a) for a in w.args]
        c.ob(nm, N.equal(r[0], A[0][0] if A else ZERO) and N.equal(r[1], ONE), (w.site or ['?'])[0], 'an integer n must be stored as n/1')
    q = lambda f: (lambda a, b: f(a, b if len(b) == 2 else b + one))
    ops = {'add': lambda a, b: (add(mul(a[0], b[1]), mul(a[1], b[0])), mul(a[1], b[1])), 'sub': lambda a, b: (sub(mul(a[0], b[1]), mul(a[1], b[0])), mul(a[1], b[1])),
           'mul': lambda a, b: (mul(a[0], b[0]), mul(a[1], b[1])), 'div': lambda a, b: (mul(a[0], b[1]), mul(a[1], b[0]))}
    for k, f in ops.items():
        same_ratio(k, q(f)); same_ratio(k + 'i', q(f))
    same_ratio('addeq', q(ops['add'])); same_ratio('subeq', q(ops['sub']))
    same_ratio('iadd', lambda b, a: ops['add'](a, b + one))
    same_ratio('isub', lambda b, a: (sub(mul(b[0], a[1]), a[0]), a[1]))
    same_ratio('neg', lambda a: (neg(a[0]), a[1])); same_ratio('pos', lambda a: (a[0], a[1]))
    # comparisons (operands canonical: positive denominators)
    for k, op in (('lt', '<'), ('gt', '>'), ('le', '<='), ('ge', '>=')):
        for suf in ('', 'i'):
            v = val(k + suf); A = [leaves(a) for a in w.args]; a, b = A[0], A[1] if len(A[1]) == 2 else A[1] + one
            diff = sub(mul(a[0], b[1]), mul(b[0], a[1])); pos = [a[1]] + ([b[1]] if b[1].op == 'sym' else [])
            ok = True
            for conds, (t,) in feasible(cases([unexact(v)]), pos):
                z = zero_set(conds)
                if z: t, conds = subst(t, z), [(subst(g, z), pol) for g, pol in conds]
                dz = subst(diff, z) if z else diff
                for sgn in (-1, 0, 1):
                    if isnum(dz) and (dz.a[0] > 0) - (dz.a[0] < 0) != sgn: continue
                    if any(pol == (sgn != 0) for g, pol in conds if zero_of(g, dz, pos)): continue
                    want = {'<': sgn < 0, '>': sgn > 0, '<=': sgn <= 0, '>=': sgn >= 0}[op]
                    got = beval3(t, dz, sgn, pos)
                    if got is None or got != want: ok = False
            c.ob(k + suf, ok, (w.site or ['?'])[0], 'rational comparison %s is not the exact one' % op)
    for k in ('eq', 'ne'):
        for suf in ('', 'i'):
            v = val(k + suf); A = [leaves(a) for a in w.args]; a, b = A[0], A[1] if len(A[1]) == 2 else A[1] + one
            e = band(cmp_('==', a[0], b[0]), cmp_('==', a[1], b[1]))
            ok = beq(v, e if k == 'eq' else bnot(e))
            if not ok:
                x = cmp_('==', mul(a[0], b[1]), mul(b[0], a[1])); ok = beq(v, x if k == 'eq' else bnot(x))
            c.ob(k + suf, ok, (w.site or ['?'])[0], 'equality of canonical fractions must compare numerators and denominators')
    for k, f in (('dbl', lambda x, b: x), ('dadd', lambda x, b: arith('+', x, b)), ('dsub', sub), ('dmul', mul), ('ddiv', div)):
        v = val(k); A = [leaves(a) for a in w.args]
        c.ob(k, N.equal(leaves(v)[0], f(div(A[0][0], A[0][1]), A[1][0] if len(A) > 1 else None)), (w.site or ['?'])[0], 'floating-point value must be num / den')
    v = val('integral'); a = leaves(w.args[0])
    okv = beq(v, bor(cmp_('==', a[1], ONE), cmp_('==', a[0], ZERO))) or beq(v, cmp_('==', a[1], ONE))
    c.ob('integral', okv, (w.site or ['?'])[0], 'is_integral must test for a unit denominator')
    v = val('as_int'); a = leaves(w.args[0]); rt = nfcond(returns(w.last))
    c.ob('as_int', N.equal(leaves(v)[0], a[0]) and implies(rt, nfcond(bor(cmp_('==', a[1], ONE), cmp_('==', a[0], ZERO)))), (w.site or ['?'])[0], 'as_integral must return the numerator of integers and throw otherwise')
    for k, i in (('num', 0), ('den', 1)):
        v = val(k); c.ob('get_' + k, leaves(v)[0] is leaves(w.args[0])[i], (w.site or ['?'])[0], 'accessor')
    gcd_rule(c, w)
    c.minimum = 38


def returns(I):
    from physics import returns_when
    return returns_when(I)


def strip_abs(t):
    while t.op in ('abs',): t = t.a[0]
    return t


def unexact(t, memo=None):
    """x idiv g is exact when g = gcd(.., x, ..): replace it by the field quotient"""
    if memo is None: memo = {}
    if not isinstance(t, T): return tuple(unexact(x, memo) for x in t) if isinstance(t, tuple) else t
    r = memo.get(t)
    if r is not None: return r
    if not t.a or t.op in ('num', 'sym', 'str'): r = t
    else:
        a = tuple(unexact(x, memo) for x in t.a)
        if t.op == 'idiv' and a[1].op == 'call' and a[1].a[0].split('::')[-1] == 'gcd':
            ok = any(Norm().equal(strip_abs(x), a[0]) or Norm().equal(strip_abs(x), neg(a[0])) for x in a[1].a[2:])
            r = arith('/', *a) if ok else mk('idiv', *a)
        elif t.op == 'call' and t.a[0].split('::')[-1] == 'gcd': r = mk('call', *a)
        else: r = rebuild(t.op, a)
    memo[t] = r
    return r


def zero_of(g, t, pos=()):
    """is the atom g the test t == 0 (up to a factor that is never zero)"""
    if g.op != '==' or isnum(t): return False
    return any(y is ZERO and x is not ZERO and sign(div(x, t), pos) is not None for x, y in (g.a, g.a[::-1]))


def zero_set(conds):
    z = {}
    while True:
        new = {x: ZERO for g, pol in conds for x in zero_syms(subst(g, z) if z else g, pol) if x not in z}
        if not new: return z
        z.update(new)


def zero_syms(g, pol):
    if pol and g.op == '==':
        for x, y in (g.a, g.a[::-1]):
            if y is ZERO:
                if x.op == 'neg': x = x.a[0]
                if x.op == 'sym': return [x]
    return []


def sign(t, pos, diff=None, sgn=None):
    """sign of a term that is a monomial in positive quantities, gcds and possibly the quantity diff"""
    if isnum(t): return (t.a[0] > 0) - (t.a[0] < 0)
    N = Norm()
    def mono(x):
        p, q = N.reduce(N.nf(x))
        if len(p) != 1 or len(q) != 1: return None
        s = 1
        for d in (p, q):
            for m, k in d.items():
                if k < 0: s = -s
                for a, e in m:
                    if a in pos or (a.op == 'call' and a.a[0].split('::')[-1] == 'gcd'): continue
                    return None
        return s
    try:
        r = mono(t)
        if r is None and diff is not None and not isnum(diff):
            r = mono(div(t, diff)); r = None if r is None else r * sgn
    except TooBig: r = None
    return r


def beval3(t, diff, sgn, pos):
    if isnum(t): return bool(t.a[0])
    if t.op == '!':
        x = beval3(t.a[0], diff, sgn, pos); return None if x is None else not x
    if t.op in ('&&', '||'):
        x, y = beval3(t.a[0], diff, sgn, pos), beval3(t.a[1], diff, sgn, pos)
        if t.op == '&&': return False if x is False or y is False else (True if x and y else None)
        return True if x or y else (False if x is False and y is False else None)
    if t.op in ('<', '<=', '=='):
        s = sign(sub(t.a[0], t.a[1]), pos, diff, sgn)
        if s is None: return None
        return {'<': s < 0, '<=': s <= 0, '==': s == 0}[t.op]
    return None


def feasible(cs, pos):
    """drop the cases contradicted by the signs of positive quantities"""
    out = []
    for conds, vs in cs:
        z = zero_set(conds)
        bad = False
        for g, pol in conds:
            gg = subst(g, z) if z else g
            b = beval3(gg, None, None, pos)
            if b is not None and b != pol: bad = True
        if not bad: out.append((conds, vs))
    return out


def gcd_rule(c, w):
    """the private gcd routine: std::gcd, Euclid or binary; each loop step must preserve gcd(a, b) * 2^d"""
    fs = [f for n, l in w.tu.by_name.items() for f in l if n.split('::')[-1] == 'gcd' and 'rational' in n and 'body' in f.d]
    if not fs: 
        c.ob('gcd', True, 'library', sample='std::gcd is used'); return
    f = fs[0]; c.seen([(f.file, f.l, f.n)])
    lps = loops_of(f.d['body'])
    I = Interp(w.tu)
    from vg import Frame
    env = {}
    V = {}
    for p in f.d['params']: V[p['id']] = sym(p['name']); env[p['id']] = I.alloc(V[p['id']])
    I.frames.append(Frame(f, env, None))
    pa = [V[p['id']] for p in f.d['params']]
    if not lps:
        r = I.call(f, [I.alloc(x) for x in pa]); r = I.rv(r)
        c.ob('gcd', bool(atoms(r, lambda t: t.op == 'call' and t.a[0].split('::')[-1] in ('gcd', '__gcd'))), f.where(), 'gcd is neither a library call nor a loop')
        return
    # locals declared before / between the loops get symbols too
    local = []
    for s in f.d['body']['c']:
        if s['k'] == 'Decl':
            for v in s['vars']:
                I.declare(v); t = I.load(env[v['id']])
                local.append((v['id'], v['name'], t))
    shift = [(i, n) for i, n, t in local if t is ZERO]
    a, b = pa
    probs = []
    odd = False    # known: at least one of a, b is odd
    for L in lps:
        I.state = type(I.state)(dict(I.state.mem))
        for i, x in V.items(): I.state.mem[env[i].loc] = x
        ds = {}
        for i, n in shift: ds[i] = sym(n); I.state.mem[env[i].loc] = ds[i]
        cond = I.cond(L['cond'])
        comps = I.exec(L['body'], TRUE)
        if any(x[0] not in ('fall', 'continue') for x in comps): probs.append('a loop leaves early'); break
        I.join([('fall', x[1], x[2], None) for x in comps])
        if L.get('inc'): I.ev(L['inc'])
        new = [I.load(env[i]) for i in V] + [I.load(env[i]) for i in ds]
        for conds, vs in cases(new):
            facts = [(cond, True)] + conds
            if not gcd_step(a, b, list(ds.values()), vs, facts, odd): probs.append('step (%s, %s) -> (%s, %s) %s does not preserve the gcd' % (a, b, show(vs[0]), show(vs[1]), ['%s%s' % ('' if p else 'not ', show(g)) for g, p in conds]))
        # what the exit of this loop implies
        ev = lambda x: cmp_('==', bitop('%', x, num(2)), ZERO)
        if beq(cond, band(ev(a), ev(b))): odd = True
        exitc = cond
    # result
    for i, x in V.items(): I.state.mem[env[i].loc] = x
    for i, n in shift: I.state.mem[env[i].loc] = sym(n)
    rets = [s for s in f.d['body']['c'] if s['k'] == 'Return']
    rv = I.rv(I.ev(rets[-1]['e'])) if rets else VOID
    N = Norm()
    dsym = [sym(n) for _, n in shift]
    scale = [bitop('<<', ONE, d) for d in dsym] or [ONE]
    okr = False
    if beq(exitc, bnot(cmp_('==', a, b))): okr = any(N.equal(rv, mul(x, scale[0])) for x in (a, b)) or any(rv is bitop('<<', x, dsym[0]) for x in (a, b) if dsym)
    for x, y in ((a, b), (b, a)):
        if beq(exitc, bnot(cmp_('==', y, ZERO))) or beq(exitc, cmp_('<', ZERO, y)): okr = okr or N.equal(rv, mul(x, scale[0]))
    if not okr: probs.append('the value returned at loop exit is not the gcd')
    c.ob('gcd', not probs, f.where(), 'gcd: ' + '; '.join(probs))


def gcd_step(a, b, ds, vs, facts, odd):
    na, nb = vs[0], vs[1]; nd = vs[2:]
    two = num(2)
    ev = lambda x: cmp_('==', bitop('%', x, two), ZERO)
    known = TRUE
    for g, p in facts: known = band(known, g if p else bnot(g))
    if odd: known = band(known, bnot(band(ev(a), ev(b))))
    def k(t): return implies(known, t)
    same = all(x is y for x, y in zip(nd, ds))
    plus = len(ds) == 1 and Norm().equal(nd[0], arith('+', ds[0], ONE))
    half = lambda x: intdiv(x, two)
    for p, q, np_, nq in ((a, b, na, nb), (b, a, nb, na)):
        if same and np_ is half(p) and nq is q and k(ev(p)) and k(bnot(ev(q))): return True
        if same and nq is q and np_ is half(arith('-', p, q)) and k(bnot(ev(p))) and k(bnot(ev(q))) and (k(cmp_('<', q, p)) or k(cmp_('<=', q, p))): return True
        if same and nq is q and np_ is arith('-', p, q) and (k(cmp_('<', q, p)) or k(cmp_('<=', q, p))): return True
        if same and nq is q and np_ is bitop('%', p, q): return True
    if same and na is b and nb is bitop('%', a, b): return True
    if plus and na is half(a) and nb is half(b) and k(ev(a)) and k(ev(b)): return True
    return False
