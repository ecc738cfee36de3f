"""The two-body model: states and orbital elements determine each other, with the conserved quantities of the Kepler problem."""
from program import AnalysisBroken
from terms import *
from physics import leaves, add, mul, sub, div, sqrt, neg
from sched import Use
from ckpt import units
from lin import entails
import store


def prep(seen=None):
    def go(I):
        store.prep(I)
        def newton(I, e, obj, args):
            E = sym('E')
            v = lambda x: I.rv(I.apply_any(I.rv(x), [E], e))
            r = (v(args[0]), v(args[1]))
            if seen is not None: seen.append(r)
            return E
        if seen is not None: I.models['mara::two_body::detail::solve_newton_rapheson'] = newton
    return go


PI2 = num(2 * Q('3.141592653589793'))


class Wrong(Exception): pass


def cases(t, n=5):
    """the values of a term for all truth values of its conditions"""
    cs = [x.a[0] for x in atoms((t,), lambda y: y.op == 'ite') if not isnum(x.a[0])]
    cs = [x for x in cs if not atoms((x,), lambda y: y.op == 'ite')]
    if not cs: return [t]
    if n == 0: raise AnalysisBroken('too many cases')
    return cases(subst(t, {cs[0]: TRUE}), n - 1) + cases(subst(t, {cs[0]: FALSE}), n - 1)


class Kepler:
    """algebra of one orbit: sin and cos of an angle become a symbol and its complementary root; conditions by case"""
    def __init__(self, P, e, e0):
        self.a, self.M, self.q, self.e = P
        self.ecc = ZERO if e0 else self.e
        self.e0 = e0
        self.om = sqrt(div(div(div(self.M, self.a), self.a), self.a))
        self.period = div(PI2, self.om)
        self.N = Norm(self.decide); self.angles = []
    def decide(self, N, c):
        p = N.reduce(N.nf(sub(*c.a) if len(c.a) == 2 else c.a[0]))
        return None
    def fix(self, t):
        """conditions decided for a > 0 and the eccentricity of the case"""
        if self.e0: t = subst(t, {self.e: ZERO})
        m = {}
        for x in atoms((t,), lambda y: y.op in ('<', '<=', '==', '>', '>=')):
            v = self.sign(x)
            if v is not None: m[x] = TRUE if v else FALSE
        return subst(t, m) if m else t
    def sign(self, x):
        """comparison of a positive symbol (a, M, q, e) with zero, or of e with one"""
        pos = (self.a, self.M, self.q) + (() if self.e0 else (self.e,))
        l, r = x.a
        if l in pos and r is ZERO: s = 1
        elif r in pos and l is ZERO: s = -1
        elif isnum(l) and isnum(r): s = (l.a[0] > r.a[0]) - (l.a[0] < r.a[0])
        else: return None
        return {'<': s < 0, '<=': s <= 0, '==': s == 0, '>': s > 0, '>=': s >= 0}[x.op]
    def trig(self, t, angle):
        """cos and sin of known angles: angle(x) names (cos, sin) for the argument x, or None"""
        m = {}
        for x in atoms((t,), lambda y: y.op in ('cos', 'sin') or y.op == 'call' and y.a[0] in ('std::cos', 'std::sin', 'cos', 'sin')):
            arg = x.a[-1]; r = angle(arg)
            if r is None: raise AnalysisBroken('an angle of unknown form: %s' % show(arg)[:200])
            m[x] = r[0] if 'cos' in (x.op, str(x.a[0])) or str(x.a[0]).endswith('cos') else r[1]
        return subst(t, m)
    def eq(self, x, y): return self.N.equal(self.fix(x), self.fix(y))
    def turns(self, x):
        """x is a whole number of periods: sums of integer constants, loop counts and rounded numbers times the period"""
        N = self.N; d = N.reduce(N.nf(div(x, self.period)))
        if list(d[1]) != [()]: return False
        for m, k in d[0].items():
            if (k / d[1][()]).denominator != 1: return False
            for a, e in m:
                if e < 1 or not (a.op in ('floor', 'ceil', 'round', 'trunc') or a.op == 'call' and str(a.a[0]).split('::')[-1] in ('floor', 'ceil', 'round', 'trunc') or a.op == 'sym' and str(a.a[0]).startswith('#turns')): return False
        return True
    def unloop(self, t):
        """a loop that adds or subtracts one period per step has added some whole number of periods"""
        for _ in range(6):
            mus = [x for x in atoms((t,), lambda y: y.op == 'mu') if not any(y is not x and y.op == 'mu' for y in atoms((x.a[2], x.a[3]), lambda y: y.op == 'mu'))]
            if not mus: return t
            m = {}
            for x in mus:
                lid, k, init, step = x.a
                lv = [y for y in atoms((step,), lambda y: y.op == 'loopvar') if y.a[:2] == (lid, k)]
                if len(lv) != 1: raise AnalysisBroken('a loop of unknown form: %s' % show(step)[:200])
                if not self.turns(sub(step, lv[0])):
                    r = self.N.reduce(self.N.nf(div(sub(step, lv[0]), self.period)))
                    if list(r[0]) == [()] and list(r[1]) == [()]: raise Wrong('a loop steps by %s periods' % (r[0][()] / r[1][()]))
                    raise AnalysisBroken('a loop that does not step by whole periods: %s' % show(step)[:200])
                m[x] = add(init, mul(sym('#turns' + lid), self.period))
            t = subst(t, m)
        return t


def body6(v): return dict(zip(('m1', 'x1', 'y1', 'u1', 'v1', 'm2', 'x2', 'y2', 'u2', 'v2'), leaves(v)))


def spec_state(k, c, s):
    """positions and velocities of both bodies in their centre of mass frame, the first body opposite to the second"""
    a, M, q, e, om = k.a, k.M, k.q, k.ecc, k.om
    w = sqrt(sub(ONE, mul(e, e))); mu1 = div(q, add(ONE, q)); mu2 = div(ONE, add(ONE, q)); r = sub(ONE, mul(e, c))
    x, y = mul(a, sub(c, e)), mul(a, s, w); u, v = neg(div(mul(a, om, s), r)), div(mul(a, om, c, w), r)
    return [mul(M, mu2)] + [mul(mu1, z) for z in (x, y, u, v)] + [mul(M, mu1)] + [neg(mul(mu2, z)) for z in (x, y, u, v)]


NAMES = ('mass of body 1', 'x of body 1', 'y of body 1', 'x velocity of body 1', 'y velocity of body 1', 'mass of body 2', 'x of body 2', 'y of body 2', 'x velocity of body 2', 'y velocity of body 2')


def orbit(u):
    c = u.c
    C, Sn = sym('C'), sqrt(sub(ONE, mul(sym('C'), sym('C')))); E = sym('E')
    def attempt(name, f):
        try: f()
        except TooBig: c.undecided(name, '', 'the terms are too large')
        except (AnalysisBroken, TooBig) as x: c.undecided(name, '', str(x)[:300] or 'too large')
    for e0 in (False, True):
        tag = 'circular' if e0 else 'eccentric'
        def one(name='state', full=False):
            seen = []; u.prep = prep(seen); v = u.run(name); A = leaves(u.A[0]); t = u.A[1]
            P = A[-4:] if full else A[:4]; k = Kepler(P, None, e0)
            if u.ret is not TRUE: raise AnalysisBroken('can throw when %s' % show(u.ret)[:150])
            ls = [k.fix(x) for x in leaves(v)]
            tau = A[1] if full else ZERO; Cp, Sp = sym('Cp'), sqrt(sub(ONE, mul(sym('Cp'), sym('Cp'))))
            late = []
            def angle(x):
                if full and k.N.equal(x, A[0]): return Cp, Sp
                if full and k.N.equal(x, neg(A[0])): return Cp, neg(Sp)
                if x is E: return C, Sn
                if k.N.equal(x, neg(E)): return C, neg(Sn)
                if e0: late.append(x); return C, Sn
                return None
            ls = [k.trig(x, angle) for x in ls]
            def phase(x, what):
                d = sub(div(x, k.om), sub(t, tau))
                try: ok = all(k.N.equal(y, ZERO) or k.turns(k.unloop(y)) for y in cases(d))
                except Wrong as w: ok = False; what += ' (%s)' % w
                c.ob('%s: phase' % (tag + (' full' if full else '')), ok, u.where, '%s is %s, which is not the time since periapse times the angular velocity' % (what, show(x)[:200]))
            if e0:
                if not late: raise AnalysisBroken('no angle depends on the time')
                for x in late[:1]: phase(x, 'the angle of a circular orbit')
                if any(not k.N.equal(x, late[0]) for x in late): raise AnalysisBroken('several angles')
            else:
                if not seen: raise AnalysisBroken('the anomaly is not the solution of an equation')
                f, g = k.fix(seen[0][0]), k.fix(seen[0][1])
                si = lambda x: k.trig(x, angle)
                rest = sub(sub(E, mul(k.ecc, Sn)), si(f))
                if atoms((k.N.canon(rest),), lambda y: y is E) or 'C' in show(k.N.canon(rest)): pass
                phase(rest, 'the mean anomaly')
                c.ob(tag + (' full' if full else '') + ': derivative', k.N.equal(si(g), sub(ONE, mul(k.ecc, C))), u.where, 'the derivative of Kepler\'s equation is %s' % show(si(g))[:200])
            want = spec_state(k, C, Sn)
            if full:
                x = A[2:6]; r = lambda i, j: (sub(mul(want[i], Cp), mul(want[j], Sp)), add(mul(want[i], Sp), mul(want[j], Cp)))
                w = []
                for b in (0, 5):
                    p, q = r(b + 1, b + 2), r(b + 3, b + 4); w += [want[b], add(p[0], x[0]), add(p[1], x[1]), add(q[0], x[2]), add(q[1], x[3])]
                want = w
            for n, g, w in zip(NAMES, ls, want): c.ob('%s: %s' % (tag + (' full' if full else ''), n), k.N.equal(g, w), u.where, 'the %s is %s, required %s' % (n, show(g)[:250], show(w)[:250]))
        with limited(150):
            attempt(tag, lambda: one())
            attempt(tag + ' full', lambda: one('full', True))


def value(t, at, memo=None):
    """the number a term denotes for numbers given to its symbols; None when it has no closed form"""
    import mpmath as mp
    memo = {} if memo is None else memo
    fn = {'sqrt': mp.sqrt, 'cos': mp.cos, 'sin': mp.sin, 'tan': mp.tan, 'abs': abs, 'fabs': abs, 'atan2': mp.atan2, 'atan': mp.atan, 'acos': mp.acos, 'asin': mp.asin, 'hypot': mp.hypot, 'min': min, 'max': max, 'pow': mp.power, 'floor': mp.floor, 'ceil': mp.ceil, 'exp': mp.exp, 'log': mp.log}
    def go(x):
        if x in at: return at[x]
        r = memo.get(x)
        if r is None: r = memo[x] = go_(x)
        return r
    def go_(x):
        if x.op == 'num': return mp.mpf(x.a[0].numerator) / x.a[0].denominator
        if x.op == 'ite': return go(x.a[1] if go(x.a[0]) else x.a[2])
        if x.op in ('&&', '||'): return mp.mpf((all if x.op == '&&' else any)(go(y) for y in x.a))
        name, a = (str(x.a[0]).split('::')[-1], [y for y in x.a[1:] if isinstance(y, T)]) if x.op == 'call' else (x.op, x.a)
        if x.op in ('sym', 'mu', 'loopvar') or not all(isinstance(y, T) for y in a): raise LookupError(show(x)[:80])
        v = [go(y) for y in a]
        if x.op == '+': return sum(v, mp.mpf(0))
        if x.op == '-': return v[0] - v[1] if len(v) == 2 else -v[0]
        if x.op == 'neg': return -v[0]
        if x.op == '*': return mp.fprod(v)
        if x.op == '/': return v[0] / v[1]
        if x.op == '!': return mp.mpf(not v[0])
        if x.op in ('<', '<=', '==', '>', '>='): d = v[0] - (v[1] if len(v) > 1 else 0); return mp.mpf({'<': d < 0, '<=': d <= 0, '==': d == 0, '>': d > 0, '>=': d >= 0}[x.op])
        if name in fn and (v and name not in ('sqrt', 'log') or v and v[0] >= 0): return fn[name](*v)
        raise LookupError(show(x)[:80])
    return go(t)


def instances(e0):
    """elements and phases at which a term is compared before its normal form is computed"""
    import mpmath as mp
    mp.mp.dps = 60
    for i, (a, M, q, e, E, p) in enumerate((('4', '7', '0.3', '0.6', '0.8', '0.5'), ('1.3', '2.9', '1.7', '0.2', '2.1', '0.3'), ('0.7', '11', '5', '0.85', '0.25', '1.9'))):
        v = {sym(n): mp.mpf(x) for n, x in (('a', a), ('M', M), ('q', q), ('e', '0' if e0 else e), ('E', E), ('p', p), ('X', '0.37'), ('Y', '-1.1'), ('U', '2.3'), ('V', '0.9'))}
        for c, s, x in (('C', 'S', E), ('Cp', 'Sp', p)): v[sym(c)] = mp.cos(mp.mpf(x))
        yield v


def signed(k, t, roots, where):
    """square roots whose argument is the square of a known positive quantity become that quantity, from the inside out"""
    for _ in range(40):
        t = k.fix(t)
        todo = [x for x in atoms((t,), lambda y: y.op in ('sqrt', 'min', 'max', 'atan2', 'pow') or y.op == 'call' and str(y.a[0]).split('::')[-1] == 'atan2') if x not in k.done]
        todo = [x for x in todo if not any(y is not x and y in todo for y in atoms(x.a, lambda y: True))]
        if not todo: return t
        m = {}
        for x in todo:
            if x.op == 'sqrt':
                for r in roots:
                    if k.N.equal(x.a[0], mul(r, r)): m[x] = r; break
                else: k.done.add(x)
            elif x.op in ('min', 'max'):
                # the square of the eccentricity lies between zero and one
                ks = list(x.a); sq = [i for i, y in enumerate(ks) if k.N.equal(y, mul(k.ecc, k.ecc))]
                if len(ks) == 2 and sq and isnum(ks[1 - sq[0]]):
                    b = ks[1 - sq[0]].a[0]
                    if x.op == 'max' and b <= 0 or x.op == 'min' and b >= 1: m[x] = mul(k.ecc, k.ecc)
                    elif x.op == 'max' and b >= 1 or x.op == 'min' and b <= 0: m[x] = num(b)
                    else: k.done.add(x)
                elif len(ks) == 2 and not sq and all(isnum(y) for y in ks): m[x] = num((min if x.op == 'min' else max)(y.a[0] for y in ks))
                else: k.done.add(x)
            elif x.op == 'pow': k.done.add(x)
            else:
                y, z = x.a[-2:]
                for ang, co, si, pos in k.known:
                    # y = p sin, z = p cos with p > 0
                    if any(k.N.equal(y, mul(p, si)) and k.N.equal(z, mul(p, co)) for p in pos): m[x] = ang; break
                else: k.done.add(x)
        for x in [x for x in m if x in atoms((m[x],), lambda y: True)]: k.done.add(x); del m[x]
        if m: t = subst(t, m)
    raise AnalysisBroken('too deeply nested')


def inverse(u):
    """compute_orbital_elements of the state that belongs to elements gives these elements"""
    import mpmath as mp
    c = u.c; u.prep = prep()
    v = u.run('elements'); S = leaves(u.A[0]); t = u.A[1]; got = leaves(v); ret = u.ret
    E, p = sym('E'), sym('p')
    for e0 in (False, True):
        tag = 'elements of a circular orbit' if e0 else 'elements of an eccentric orbit'
        a, M, q, e = sym('a'), sym('M'), sym('q'), sym('e'); k = Kepler((a, M, q, e), None, e0); k.done = set()
        C, Cp = sym('C'), sym('Cp'); Sn, Sp = sqrt(sub(ONE, mul(C, C))), sqrt(sub(ONE, mul(Cp, Cp)))
        cm = [sym(x) for x in ('X', 'Y', 'U', 'V')]
        l = spec_state(k, C, Sn); w = []
        for b in (0, 5):
            rx = lambda i, j: (sub(mul(l[i], Cp), mul(l[j], Sp)), add(mul(l[i], Sp), mul(l[j], Cp)))
            x, y = rx(b + 1, b + 2); vx, vy = rx(b + 3, b + 4); w += [l[b], add(x, cm[0]), add(y, cm[1]), add(vx, cm[2]), add(vy, cm[3])]
        at = dict(zip(S, w))
        mu1, mu2 = div(q, add(ONE, q)), div(ONE, add(ONE, q)); r = sub(ONE, mul(k.ecc, C)); w_ = sqrt(sub(ONE, mul(k.ecc, k.ecc)))
        kk = sqrt(sub(ONE, mul(k.ecc, k.ecc, C, C)))
        roots = [mul(a, mu1, r), mul(a, mu2, r), mul(a, r), div(mul(a, mu1, k.om, kk), r), div(mul(a, mu2, k.om, kk), r), mul(a, w_), k.ecc, w_, kk, k.om]
        pos = [ONE, mul(a, mu1, r, r), mul(a, mu1, r), r, mul(r, r), div(ONE, r), mul(a, mu1)]
        if e0:
            # body 1 stands at the angle E + p
            c2, s2 = sub(mul(C, Cp), mul(Sn, Sp)), add(mul(Sn, Cp), mul(C, Sp))
            k.known = [(add(E, p), c2, s2, pos), (ZERO, ONE, ZERO, pos)]
            pomega, tau = ZERO, sub(t, div(add(E, p), k.om))
        else:
            k.known = [(E, C, Sn, pos), (p, Cp, Sp, pos)]
            pomega, tau = p, sub(t, div(sub(E, mul(k.ecc, Sn)), k.om))
        # the conditions of the code, at this state; its energy is negative (or, to see whether the code looks, zero or positive)
        Eb = div(mul(M, M, mu1, mu2), mul(num(2), a))
        def settle(x, bound=-1):
            x = signed(k, subst(x, at), roots, u.where)
            for _ in range(6):
                m = {}
                for y in atoms((x,), lambda z: z.op in ('<', '<=', '==', '>', '>=')):
                    d = None
                    for cand, s in ((ZERO, 0), (k.ecc, 1 if not e0 else 0), (neg(Eb), bound), (Eb, -bound)):
                        if k.N.equal(sub(*y.a), cand): d = s; break
                    if d is not None: m[y] = TRUE if {'<': d < 0, '<=': d <= 0, '==': d == 0, '>': d > 0, '>=': d >= 0}[y.op] else FALSE
                if not m: break
                x = signed(k, subst(x, m), roots, u.where)
            return x
        want = [pomega, tau] + cm + [a, M, q, k.ecc]
        for n, g, x in zip(('argument of periapse', 'time of periapse', 'x of the centre of mass', 'y of the centre of mass', 'x velocity of the centre of mass', 'y velocity of the centre of mass', 'separation', 'total mass', 'mass ratio', 'eccentricity'), got, want):
            bad = None
            for pt in instances(e0):
                pt = dict(pt); pt[t] = mp.mpf('3.7')
                try:
                    num_ = {s: value(y, pt) for s, y in at.items()}; num_[t] = pt[t]
                    if e0 and n in ('eccentricity', 'argument of periapse', 'time of periapse'): break        # undetermined by rounding
                    gv, wv = value(g, num_), value(x, pt)
                    if n == 'time of periapse': d = (gv - wv) / value(k.period, pt); d -= mp.nint(d)
                    else: d = gv - wv
                    if abs(d) > mp.mpf(10) ** -12: bad = (gv, wv, pt); break
                except (LookupError, ZeroDivisionError): break
            if bad:
                c.ob('%s: %s' % (tag, n), False, u.where, 'from the state of the orbit with %s, the %s is computed as %s, required %s' % (', '.join('%s = %s' % (s.a[0], mp.nstr(v_, 4)) for s, v_ in bad[2].items() if s.a[0] in ('a', 'M', 'q', 'e', 'E', 'p')), n, mp.nstr(bad[0], 8), mp.nstr(bad[1], 8))); continue
            try:
                with limited(60):
                    y = settle(g); k.N.equal(y, x)
            except TooBig: c.undecided('%s: %s' % (tag, n), u.where, 'the terms are too large to compare'); continue
            open_ = [z for z in atoms((y,), lambda z: z.op in ('ite', 'atan2'))]
            if open_ and not k.N.equal(y, x): 
                if any(z.op == 'ite' for z in open_): c.undecided('%s: %s' % (tag, n), u.where, 'a condition that is not decided: %s' % show(open_[0])[:200]); continue
            ok = k.N.equal(y, x)
            if not ok and n == 'time of periapse': ok = k.turns(k.unloop(sub(y, x)))
            c.ob('%s: %s' % (tag, n), ok, u.where, 'from the state of an orbit, the %s is computed as %s, required %s' % (n, show(y)[:250], show(x)[:250]))
        for bound, n in ((-1, 'accepted'), (0, 'parabolic refused'), (1, 'hyperbolic refused')):
            try:
                with limited(60): r_ = settle(ret, bound)
            except TooBig: c.undecided('%s: %s' % (tag, n), u.where, 'the terms are too large to compare'); continue
            if not isnum(r_): c.undecided('%s: %s' % (tag, n), u.where, show(r_)[:200])
            else: c.ob('%s: %s' % (tag, n), (r_ is TRUE) == (bound < 0), u.where, 'a bound orbit is refused' if bound < 0 else 'a state whose energy is not negative is not refused')


def energy(S, k):
    m1, x1, y1, u1, v1, m2, x2, y2, u2, v2 = S
    d = sqrt(add(mul(sub(x1, x2), sub(x1, x2)), mul(sub(y1, y2), sub(y1, y2))))
    return sub(add(mul(num(Q(1, 2)), m1, add(mul(u1, u1), mul(v1, v1))), mul(num(Q(1, 2)), m2, add(mul(u2, u2), mul(v2, v2)))), div(mul(m1, m2), d))


def quantities(u):
    c = u.c; u.prep = prep()
    def q_(name, want, text):
        try: v = u.run(name); w = want(*u.A)
        except AnalysisBroken as x: return c.undecided(name, '', str(x)[:300])
        N = Norm(); g, w = leaves(v), w if isinstance(w, list) else [w]
        bad = [(x, y) for x, y in zip(g, w) if not N.equal(x, y)] if len(g) == len(w) else [(v, v)]
        c.ob(name, not bad and u.ret is TRUE, u.where, bad and '%s is %s, required %s' % (text, show(bad[0][0])[:250], show(bad[0][1])[:250]) or 'can throw')
    def P(x): return leaves(x)
    mred = lambda q: div(q, mul(add(ONE, q), add(ONE, q)))
    q_('energy', lambda x: (lambda a, M, q, e: neg(div(mul(M, M, mred(q)), mul(num(2), a))))(*P(x)), 'the energy of an orbit')
    q_('period', lambda x: (lambda a, M, q, e: div(PI2, sqrt(div(M, mul(a, a, a)))))(*P(x)), 'the orbital period')
    q_('energy_of', lambda x: energy(P(x), None), 'the energy of a state')
    q_('mass_of', lambda x: add(P(x)[0], P(x)[5]), 'the total mass')
    q_('separation_of', lambda x: (lambda s: sqrt(add(mul(sub(s[1], s[6]), sub(s[1], s[6])), mul(sub(s[2], s[7]), sub(s[2], s[7])))))(P(x)), 'the separation')
    def dlna(x2, x1):
        s, r = P(x1), P(x2); E = energy(s, None); d = [sub(r[i], s[i]) for i in range(10)]; h = num(Q(1, 2))
        T = [mul(h, s[b], add(mul(s[b + 3], s[b + 3]), mul(s[b + 4], s[b + 4]))) for b in (0, 5)]
        dT = [mul(s[b], add(mul(d[b + 3], s[b + 3]), mul(d[b + 4], s[b + 4]))) for b in (0, 5)]
        return sub(div(add(div(mul(T[1], d[0]), s[0]), div(mul(T[0], d[5]), s[5])), E), div(add(*dT), E))
    q_('change', dlna, 'the relative change of the semi-major axis')
    field = lambda f: lambda x, y: [f(i, j) for i, j in zip(P(x), P(y))]
    q_('plus', field(add), 'the sum of elements'); q_('minus', field(sub), 'the difference of elements'); q_('times', lambda x, s: [mul(i, s) for i in P(x)], 'the multiple of elements')
    q_('zeros', lambda: [ZERO] * 10, 'the zero elements'); q_('made', lambda x: [ZERO] * 6 + P(x), 'full elements of an orbit at rest')
    q_('drift', lambda x, dt: [ZERO, ZERO, mul(P(x)[4], dt), mul(P(x)[5], dt)] + [ZERO] * 6, 'the drift of the centre of mass')
    # angular momentum: of the orbit and of its state
    try:
        v = u.run('angmom'); a, M, q, e = leaves(u.A[0]); N = Norm()
        ok = N.equal(mul(v, v), mul(M, M, mred(q), M, mred(q), a, sub(ONE, mul(e, e))))
        c.ob('angmom', ok and v.op == 'sqrt', u.where, 'the angular momentum of an orbit is %s' % show(v)[:250])
    except AnalysisBroken as x: c.undecided('angmom', '', str(x)[:300])
    # differences: angles and times to the nearest equivalent
    try:
        v = u.run('difference'); A, B = leaves(u.A[0]), leaves(u.A[1]); ls = leaves(v); N = Norm()
        per = lambda X: div(PI2, sqrt(div(X[7], mul(X[6], X[6], X[6]))))
        for i in range(2, 10): c.ob('difference %d' % i, N.equal(ls[i], sub(B[i], A[i])), u.where, 'component %d of a difference of elements is %s' % (i, show(ls[i])[:200]))
        for i, n, ps in ((0, 'argument of periapse', [PI2]), (1, 'time of periapse', [per(B), per(A)])):
            d = sub(B[i], A[i]); bad = None; good = None
            for p in ps:
                bad = None; near = [d, add(d, p), sub(d, p)]; ab = [mk('abs', x) for x in near]
                for g, x in alt(ls[i]):
                    j = [y for y in range(3) if N.equal(x, near[y])]
                    if not j: bad = 'yields %s' % show(x)[:200]; break
                    # the guard says that no other is nearer
                    m = {y: liftabs(y) for y in atoms((g,), lambda z: z.op == 'abs' and z.a[0].op == 'ite')}
                    for _ in range(4):
                        g = subst(g, m); m = {y: liftabs(y) for y in atoms((g,), lambda z: z.op == 'abs' and z.a[0].op == 'ite')}
                        if not m: break
                    D = sym('#d'); T = [sym('#abs%d' % y) for y in range(3)]
                    for y in atoms((g,), lambda z: z.op == 'abs'):
                        for z in range(3):
                            if N.equal(y.a[0], near[z]) or N.equal(neg(y.a[0]), near[z]): m[y] = T[z]
                    gg = minfree(subst(g, m))
                    if not all(entails(gg, cmp_('<=', T[j[0]], T[z]), []) for z in range(3)): bad = 'yields %s although another one is nearer (when %s)' % (show(x)[:100], show(gg)[:200]); break
                if bad is None: break
            c.ob('difference: ' + n, bad is None, u.where, bad and 'the difference of the %s, to be the nearest equivalent one, %s' % (n, bad))
    except AnalysisBroken as x: c.undecided('difference', '', str(x)[:300])
    # mean anomaly: zero at periapse, advancing with the angular velocity
    try:
        v = u.run('anomaly'); A = leaves(u.A[0]); t = u.A[1]; k = Kepler(A[-4:], None, False)
        d = sub(div(k.fix(v), k.om), sub(t, A[1]))
        c.ob('anomaly', all(k.N.equal(y, ZERO) or k.turns(k.unloop(y)) for y in cases(d)), u.where, 'the mean anomaly is %s, which is not the time since periapse times the angular velocity' % show(v)[:300])
    except AnalysisBroken as x: c.undecided('anomaly', '', str(x)[:300])
    # root finder: what is returned solves the equation within the tolerance
    for name, tol in (('newton', None), ('newton_default', num(Q(1e-10)))):
        try:
            v = u.run(name); x0 = u.A[0]; tl = u.A[1] if tol is None else tol
            fe = lambda x: mk('call', 'witness::fe', '', x)
            bad = None
            if v.op == 'mu':
                facts = list(u.I.after_loop); ys = [y for f in facts for y in atoms((f,), lambda z: z.op == 'mu' and z.a[0] == v.a[0] and z is not v)]
                lv = mk('loopvar', v.a[0], v.a[1], v.a[2]); m = {}
                for y in ys:
                    # y = f(x) at first and after each step
                    if y.a[2] is fe(v.a[2]) and y.a[3] is fe(v.a[3]): m[y] = fe(v)
                fs = [subst(f, m) for f in facts]; conj = TRUE
                for f in fs: conj = band(conj, f)
            elif v.op == 'loopvar':
                conj = TRUE
                for f in atoms((u.ret, *u.I.after_loop), lambda z: z.op == 'loopexit'): conj = band(conj, f.a[1])
            else: raise AnalysisBroken('root of unknown form: %s' % show(v)[:200])
            ab = mk('abs', fe(v))
            ok = entails(conj, cmp_('<=', ab, tl), [])
            c.ob(name, ok, u.where, 'the root is returned although the equation is not solved within the tolerance (%s)' % show(conj)[:200])
        except (AnalysisBroken, TooBig) as x: c.undecided(name, '', str(x)[:300] or 'too large')
    try:
        v = u.run('clamped'); a, b, x = u.A
        import physics
        lo = cmp_('<=', a, b); bad = []
        for cond, w in ((cmp_('<', x, a), a), (cmp_('<', b, x), b), (band(cmp_('<=', a, x), cmp_('<=', x, b)), x)):
            for g, y in alt(pick(v)):
                if entails(band(band(lo, cond), g), cmp_('==', y, w), []): continue
                bad.append(show(y))
        c.ob('clamped', not bad, u.where, 'a number is clamped to %s' % bad)
    except AnalysisBroken as x: c.undecided('clamped', '', str(x)[:300])


def pick(t):
    """min and max as choices"""
    if t.op in ('min', 'max') and len(t.a) == 2:
        a, b = pick(t.a[0]), pick(t.a[1]); return ite(cmp_('<=' if t.op == 'min' else '>=', a, b), a, b)
    if t.op == 'ite': return mk('ite', t.a[0], pick(t.a[1]), pick(t.a[2]))
    return t


def liftabs(t):
    x = t.a[0]
    return mk('ite', x.a[0], liftabs(mk('abs', x.a[1])), liftabs(mk('abs', x.a[2]))) if x.op == 'ite' else t


def minfree(g):
    """comparisons with min or max as combinations of plain comparisons"""
    if g.op in ('and', 'or', '&&', '||', '!', 'not'): return rebuild(g.op, [minfree(x) for x in g.a])
    if g.op in ('<', '<=', '>', '>=') and len(g.a) == 2:
        a, b = g.a
        if a.op in ('>', '>='): pass
        if g.op in ('>', '>='): return minfree(cmp_('<' if g.op == '>' else '<=', b, a))
        for i, (x, y) in enumerate(((a, b), (b, a))):
            if x.op == 'ite':
                f = lambda z: minfree(cmp_(g.op, z, y) if i == 0 else cmp_(g.op, y, z))
                h = minfree(x.a[0]); return bor(band(h, f(x.a[1])), band(bnot(h), f(x.a[2])))
        if b.op == 'min': return band(minfree(cmp_(g.op, a, b.a[0])), minfree(cmp_(g.op, a, b.a[1])))
        if b.op == 'max': return bor(minfree(cmp_(g.op, a, b.a[0])), minfree(cmp_(g.op, a, b.a[1])))
        if a.op == 'min': return bor(minfree(cmp_(g.op, a.a[0], b)), minfree(cmp_(g.op, a.a[1], b)))
        if a.op == 'max': return band(minfree(cmp_(g.op, a.a[0], b)), minfree(cmp_(g.op, a.a[1], b)))
    return g


def alt(v, g=TRUE):
    if v.op == 'ite': yield from alt(v.a[1], band(g, v.a[0])); yield from alt(v.a[2], band(g, bnot(v.a[0])))
    else: yield g, v


def prop_two_body(c):
    c.rule('the value graph of each function of the two-body model, for arbitrary elements and states, equals its definition in rational normal form modulo sin^2 + cos^2 = 1; the elements of the state of an orbit are the elements of that orbit')
    c.allow |= {'std::atan2', 'loop'}
    units(c, 'two_body.cpp', lambda u: (orbit(u), inverse(u), quantities(u)))
    c.assumptions.append('rounding is abstracted; the eccentric anomaly is the root of Kepler\'s equation, whose solution is unique; convergence of the root finder is not decided')
    c.minimum = 80
