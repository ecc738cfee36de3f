"""Slope limiter, roots of polynomials, and the search for shock features."""
from program import AnalysisBroken
from terms import *
from physics import leaves, add, mul, sub, div, sqrt
from vg import select, BOT
from ckpt import units
from setup import fold
from shells import minmod
from separate import Eval, Undefined, NotANumber, mp, rnd, separated
from scheme import neg_
import store, table

THIRD = num(Q(1, 3)); HALF = num(Q(1, 2))
cube = lambda x: mul(x, x, x)
sq = lambda x: mul(x, x)


def prep(I):
    store.prep(I); table.prep(I); I.exact_try = True; I.wrap = True; I.peel = 12; I.deref_ite = True; I.reclimit = 8; I.budget = 4000000
    I.resolvent = []


class Facts:
    """signs of terms and roots of terms that are known in a case; sample() gives values of the parameters of the case"""

    def __init__(self, signs=(), roots=(), angle=None): self.N = Norm(); self.signs = list(signs); self.roots = list(roots); self.angle = angle

    def ratio(self, a, b):
        try: p, q = self.N.nf(div(a, b))
        except (ZeroDivisionError, TooBig): return None
        if set(p) <= {()} and set(q) <= {()} and q: return p.get((), 0) / q[()]

    def sign(self, d):
        try:
            p, q = self.N.nf(d)
        except TooBig: return None
        if not p: return 0
        if set(p) == {()} and set(q) == {()}: return 1 if p[()] / q[()] > 0 else -1
        for k, s in self.signs:
            r = self.ratio(d, k)
            if r: return s * (1 if r > 0 else -1)
        # a sum or product of positive parameters
        pos = {self.N.nf(k)[0] and next(iter(self.N.nf(k)[0])) for k, s in self.signs if s > 0 and len(self.N.nf(k)[0]) == 1}
        atoms_ = {a for m in pos for a, e in m if len(m) == 1}
        if all(a in atoms_ or e % 2 == 0 for x in (p, q) for m in x for a, e in m):
            sp = {c > 0 for c in p.values()}; sq_ = {c > 0 for c in q.values()}
            if len(sp) == 1 and len(sq_) == 1: return 1 if sp == sq_ else -1

    def step(self, x):
        """x simplified at its root, or None"""
        o = x.op; N = self.N
        if o in ('<', '<=', '==') and len(x.a) == 2:
            s = self.sign(sub(x.a[0], x.a[1]))
            if s is None: return None
            return TRUE if (s < 0 and o != '==') or (s == 0 and o != '<') else FALSE
        if o in ('sqrt', 'pow', 'cbrt'):
            n = {'sqrt': 2, 'cbrt': 3}.get(o); e = None
            if o == 'pow':
                if not isnum(x.a[1]): return None
                e = x.a[1].a[0]
                if not hasattr(e, 'denominator') or e.denominator == 1: return None
                n = e.denominator if e.denominator < 4 else 3 if abs(e - Q(1, 3)) < Q(1, 10 ** 15) else None; e = e.numerator if e.denominator < 4 else 1
                if n is None: return None
            for r in self.roots + [ZERO]:
                if N.equal(x.a[0], mul(*[r] * n)):
                    s = self.sign(r)
                    if n == 3 and o == 'cbrt' or s is not None and s >= 0: return mul(*[r] * (e or 1))
                    if n == 2 and s is not None: return mul(*[neg_(r)] * (e or 1))
            return None
        if o in ('abs', 'copysign'):
            s = self.sign(x.a[0 if o == 'abs' else 1])
            if s is None: return None
            v = x.a[0]
            if o == 'copysign':
                t = self.sign(v)
                return None if t is None else (v if (t >= 0) == (s >= 0) else neg_(v))
            return v if s >= 0 else neg_(v)
        if o in ('min', 'max') and len(x.a) == 2:
            s = self.sign(sub(x.a[0], x.a[1]))
            if s is None: return None
            return x.a[0] if (s <= 0) == (o == 'min') else x.a[1]
        if self.angle:
            C, S, phi = self.angle
            if o == 'acos' and N.equal(x.a[0], sub(mul(num(4), cube(C)), mul(num(3), C))): return mul(num(3), phi)
            if o == 'acos' and N.equal(x.a[0], neg_(sub(mul(num(4), cube(C)), mul(num(3), C)))): return None
            if o == 'cos' and N.equal(x.a[0], phi): return C
            if o == 'sin' and N.equal(x.a[0], phi): return S

    def simplify(self, t):
        memo = {}
        def go(x):
            if not isinstance(x, T): return tuple(go(y) for y in x) if isinstance(x, tuple) else x
            if x in memo: return memo[x]
            if x.op == 'ite':
                k = go(x.a[0])
                if isnum(k): r = go(x.a[1] if k.a[0] else x.a[2]); memo[x] = r; return r
            a = tuple(go(y) for y in x.a); r = rebuild(x.op, a) if a != x.a else x
            for _ in range(4):
                if not isinstance(r, T): break
                n = self.step(r)
                if n is None or n is r: break
                r = n
            memo[x] = r
            return r
        return go(t)


def vanish(c, u, name, what, terms, point, tries=6):
    """every term is zero as a polynomial; a difference is reported when values of the parameters show it"""
    open_ = None
    for t in terms:
        try:
            if Norm().equal(t, ZERO): continue
        except (TooBig, ZeroDivisionError): pass
        for s in range(tries):
            E = Eval(s, point(s))
            try: v = E(t)
            except NotANumber: return c.ob(name, False, u.where, '%s: %s (a root of a negative number is taken: not a number)' % (name, what))
            except (Undefined, ZeroDivisionError, OverflowError): continue
            if abs(v) > mp.mpf(10) ** -8: return c.ob(name, False, u.where, '%s: %s (residual %s)' % (name, what, mp.nstr(v, 5)))
        open_ = t
    if open_ is not None: return c.undecided(name, u.where, 'no normal form decides whether %s vanishes' % show(open_)[:200])
    return c.ob(name, True, u.where, '')


def sampled(terms, point, tries=6):
    """the values of the terms at values of the parameters, as far as they are defined"""
    for s in range(tries):
        E = Eval(s, point(s))
        try: yield [E(t) for t in terms]
        except (Undefined, ZeroDivisionError, OverflowError): pass


def values(**fn):
    """the values of the parameters of a case: positive numbers, unless given"""
    def point(s):
        return {sym(n): (f(s) if callable(f) else mp.mpf(f)) for n, f in fn.items()}
    return point


def limiter(c, u):
    def cases():
        P, U = sym('P'), sym('U')
        for e in (1, -1):
            for l, r in ((P, U), (P, neg_(U)), (P, neg_(add(P, U))), (add(P, U), neg_(P)), (P, neg_(P)), (ZERO, U), (P, ZERO), (ZERO, ZERO)): yield mul(num(e), l), mul(num(e), r)
    for n in ('plm', 'plm_d', 'plm_s', 'plm_sd', 'plm_x', 'plm_t'):
        try: v = u.run(n)
        except AnalysisBroken as e: c.undecided(n, '', str(e)[:300]); continue
        l, m, r, th = u.A; L, M, R = leaves(l), leaves(m), leaves(r); got = leaves(v)
        want = [minmod(th, *x) for x in zip(L, M, R)]
        if len(got) != len(want): c.ob(n, False, u.where, '%s: the slope has %d components, the state %d' % (n, len(got), len(want))); continue
        F = FastNorm()
        if all(g is w or F.equal(fold(g), fold(w)) for g, w in zip(got, want)): c.ob(n, True, u.where, ''); continue
        bad = next((k for k, (g, w) in enumerate(zip(got, want)) if separated(g, w, 80) is not None), None)
        if bad is not None: c.ob(n, False, u.where, '%s (component %d): the limited slope is %s, required minmod(theta dl, dc, theta dr)' % (n, bad, show(got[bad])[:250])); continue
        ok = True
        for k, (g, w) in enumerate(zip(got, want)):
            for dl, dr in cases():
                f = Facts([(th, 1), (sym('P'), 1), (sym('U'), 1)])
                mm = {L[k]: sub(M[k], dl), R[k]: add(M[k], dr)}
                a, b = (fold(f.simplify(subst(x, mm))) for x in (g, w))
                if not (a is b or F.equal(a, b)): ok = False; break
        if ok: c.ob(n, True, u.where, '')
        else: c.undecided(n, u.where, 'no normal form decides whether %s is the minmod limited slope' % show(got[0])[:200])


def parabola(c, u):
    x = [sym('x%d' % k) for k in (1, 2, 3)]; A, B, C = (sym(n) for n in 'ABC')
    v = u.run('vertex', args=x + [add(mul(A, y, y), mul(B, y), C) for y in x])
    g = leaves(v)
    if len(g) != 2: return c.ob('vertex', False, u.where, 'the vertex has %d coordinates' % len(g))
    vanish(c, u, 'vertex', 'the point returned is not the vertex of the parabola', [add(g[0], div(B, mul(num(2), A))), add(sub(g[1], C), div(mul(B, B), mul(num(4), A)))], values())


def coefficients(q, r, A):
    """a1, a0 of the cubic x^3 + A x^2 + a1 x + a0 with the given q, r"""
    a1 = mul(num(3), add(q, div(sq(A), num(9))))
    return a1, div(sub(mul(a1, A), mul(num(6), add(r, div(cube(A), num(27))))), num(3))


def cubic(c, u):
    T_, U, A, c3 = sym('T'), sym('U'), sym('A'), sym('c3'); Z = ZERO
    def run(name, q, r, facts, number, point):
        a1, a0 = coefficients(q, r, A)
        v = u.run('cubic', args=[c3, mul(c3, A), mul(c3, a1), mul(c3, a0)])
        x = [facts.simplify(t) for t in leaves(v)]
        if len(x) != 4: raise AnalysisBroken('roots of unknown form')
        k = x[3]
        if not isnum(k):
            for n, in sampled([k], point):
                if n != number: return c.ob(name + ':number', False, u.where, '%s: %s real roots are reported, there are %d' % (name, mp.nstr(n, 3), number))
            return c.undecided(name, u.where, 'the number of roots is not decided: ' + show(k)[:150])
        if not c.ob(name + ':number', k.a[0] == number, u.where, '%s: %s real roots are reported, there are %d' % (name, k.a[0], number)): return
        s = lambda y: add(cube(y), mul(A, sq(y)), mul(a1, y), a0)
        if number == 1: return vanish(c, u, name, 'the root reported is not a root', [s(x[0])], point)
        vanish(c, u, name, 'the roots reported are not the roots of the polynomial', [add(x[0], x[1], x[2], A), sub(add(mul(x[0], x[1]), mul(x[1], x[2]), mul(x[2], x[0])), a1), add(mul(x[0], x[1], x[2]), a0)], point)
    pos = [(T_, 1), (U, 1)]
    for name, S1, S2 in (('cubic, both parts positive', add(T_, U), T_), ('cubic, parts of opposite sign', U, neg_(T_)), ('cubic, both parts negative', neg_(T_), neg_(add(T_, U))), ('cubic, second part zero', U, Z), ('cubic, first part zero', Z, neg_(T_))):
        d = div(sub(cube(S1), cube(S2)), num(2))
        run(name, neg_(mul(S1, S2)), div(add(cube(S1), cube(S2)), num(2)), Facts(pos + [(sq(d), 1), (d, 1)], [d, S1, neg_(S1), S2, neg_(S2)]), 1, values())
    C, Qv, phi = sym('C'), sym('Q'), sym('phi'); S = sqrt(sub(ONE, sq(C))); c3a = sub(mul(num(4), cube(C)), mul(num(3), C))
    ang = lambda s: mp.cos(mp.pi / 3 * (mp.mpf(s) + mp.mpf('0.5')) / 6)
    f = Facts([(Qv, 1), (sub(ONE, sq(c3a)), 1), (mul(cube(sq(Qv)), sub(ONE, sq(c3a))), 1), (C, 1), (S, 1)], [Qv, cube(Qv)], (C, S, phi))
    run('cubic, three real roots', neg_(sq(Qv)), mul(cube(Qv), c3a), f, 3, values(C=ang, phi=lambda s: mp.acos(ang(s))))
    for name, S0 in (('cubic, double root, positive', U), ('cubic, double root, negative', neg_(U)), ('cubic, triple root', Z)):
        run(name, neg_(sq(S0)), cube(S0), Facts(pos, [S0, neg_(S0)]), 3, values())


def quartic(c, u):
    a, R0, D, E, d4 = (sym(n) for n in ('a', 'R', 'D', 'E', 'd4')); al, be = sym('alpha'), sym('beta')
    def run(name, R, D2, E2, shape, facts, point=values()):
        mid = lambda s: add(mul(num(Q(-1, 4)), a), mul(num(Q(s, 2)), R))
        m1, m2 = (sub(sq(mid(s)), div(x, num(4))) for s, x in ((1, D2), (-1, E2))); s1, s2 = (mul(num(2), mid(s)) for s in (1, -1))
        a3, a2, a1, a0 = a, add(m1, m2, mul(s1, s2)), neg_(add(mul(s1, m2), mul(s2, m1))), mul(m1, m2)
        u1 = add(m1, m2); args = []
        def model(I):
            prep(I)
            def cr(I, e, obj, A):
                args.append([I.rv(x) for x in A])
                xs = {'one': [u1, sym('j2'), sym('j3')], 'first': [u1, sub(u1, al), sub(u1, be)], 'last': [sub(u1, be), u1, u1]}[shape]
                return mk('rec', 'mara::cubic_roots_t', tuple(zip(('x1', 'x2', 'x3', 'num_roots'), xs + [num(1 if shape == 'one' else 3)])))
            I.models['mara::cubic_roots'] = cr
        keep = u.prep; u.prep = model
        try: v = u.run('quartic', args=[d4] + [mul(d4, x) for x in (a3, a2, a1, a0)])
        finally: u.prep = keep
        if len(args) != 1: return c.undecided(name, u.where, 'the quartic is not reduced to one cubic')
        b = [div(x, args[0][0]) for x in args[0][1:]]; u23 = add(mul(m2, sub(sq(s1), mul(num(2), m1))), mul(m1, sub(sq(s2), mul(num(2), m2))))
        rest = sub(a2, u1)
        if not vanish(c, u, name + ':resolvent', 'the cubic solved is not the resolvent of the quartic', [add(b[0], a2), sub(b[1], add(mul(u1, rest), u23)), add(b[2], mul(u1, u23))], values()): return
        x = [facts.simplify(t) for t in leaves(v)]
        if len(x) != 6: raise AnalysisBroken('roots of unknown form')
        p1, p2 = x[4:]; sgn = [facts.sign(D2), facts.sign(E2)]; required = [t >= 0 for t in sgn]
        if not isnum(p1) or not isnum(p2):
            for g in sampled([p1, p2], point):
                if [bool(t) for t in g] != required: return c.ob(name + ':real', False, u.where, '%s: the pairs reported real are %s, %s, required %s, %s' % (name, *map(bool, g), *required))
            return c.undecided(name, u.where, 'which pairs are real is not decided: %s, %s' % (show(p1)[:100], show(p2)[:100]))
        if not c.ob(name + ':real', [bool(p1.a[0]), bool(p2.a[0])] == required, u.where, '%s: the pairs reported real are %s, %s, required %s, %s' % (name, p1.a[0], p2.a[0], *required)): return
        out = []
        for real, y, z, s, m in ((sgn[0] >= 0, x[0], x[1], s1, m1), (sgn[1] >= 0, x[2], x[3], s2, m2)):
            if real: out += [sub(add(y, z), s), sub(mul(y, z), m)]
        vanish(c, u, name, 'the roots reported are not roots of the polynomial', out, point)
    pos = [(R0, 1), (D, 1), (E, 1), (al, 1), (be, 1), (sq(R0), 1)]
    for shape in ('one', 'first', 'last'):
        for i, D2 in ((1, sq(D)), (-1, neg_(sq(D))), (0, ZERO)):
            for j, E2 in ((1, sq(E)), (-1, neg_(sq(E))), (0, ZERO)):
                run('quartic %s %+d%+d' % (shape, i, j), R0, D2, E2, shape, Facts(pos, [R0, D, E]), values())
        V = sym('V')
        for i, D2 in ((1, sq(D)), (-1, neg_(sq(D)))):
            w = sub(D2, sq(V))
            for s in (1, -1):
                if (i, s) == (-1, 1): continue
                run('quartic %s symmetric %+d%+d' % (shape, i, s), ZERO, D2, w, shape, Facts(pos + [(V, 1), (w, s)], [D, V, sq(V), div(sq(V), num(4))]), values(D=lambda k: 1 + rnd('D%d' % k), V=lambda k, s=s: mp.mpf('0.6') * rnd('V%d' % k) if s > 0 else 3 + rnd('V%d' % k)))
            run('quartic %s symmetric %+d double' % (shape, i), ZERO, D2, D2, shape, Facts(pos, [D]))


def search(c, u):
    """the nearest local maximum behind, the nearest kink ahead; zero when the search leaves the array"""
    n = 5; fp = lambda i: mk('call', 'witness::fp', '', num(i)); lg = lambda i: sub(mk('log', fp(i + 1)), mk('log', fp(i)))
    def behind(i):
        if i == 0 or i >= n: return ZERO
        return ite(cmp_('<', fp(i), fp(i - 1)), behind(i - 1), num(i))
    def ahead(i):
        if i < 2 or i - 1 >= n - 1: return ZERO
        return ite(cmp_('<', lg(i - 1), mul(HALF, lg(i - 2))), ahead(i + 1), num(i))
    for name, spec in (('behind', behind), ('pressure', behind), ('ahead', ahead)):
        for i in range(7):
            fn = '%s_%d_%d' % (name, n, i)
            try: u.run(fn)
            except AnalysisBroken as e:
                if 'out of bounds access' in str(e): c.ob(fn, False, 'src/post_shock_locator.hpp', '%s: the search reads beyond the array (%s)' % (fn, str(e)[:200])); continue
            u.val(fn, lambda i=i, spec=spec: [spec(i)])
    u.val('shock_2', lambda: [ZERO])


def prop_maths(c):
    c.rule('the value graphs of the limiter, the root finders and the searches, applied to arbitrary arguments, equal the definition: minmod slope by components, roots with the elementary symmetric functions of the coefficients, vertex of the parabola, first index satisfying the search condition')
    c.assumptions.append('arguments are not NaN; the angle of a cubic with three roots is acos of its cosine; polynomials are of their nominal degree')
    def go(u):
        u.prep = prep
        for f in (limiter, parabola, cubic, quartic, search):
            try: f(c, u)
            except AnalysisBroken as e: c.undecided(f.__name__, '', str(e)[:300])
    units(c, 'maths.cpp', go)
    c.minimum = 50
