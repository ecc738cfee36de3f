"""The models of the medium (power-law atmosphere, cloud and envelope) and of the jet: profiles, masses and energies as documented."""
from program import AnalysisBroken
from terms import *
from physics import leaves, add, mul, sub, div, sqrt
from sched import Use
from vg import select, BOT
from ckpt import units
from lin import entails
from setup import PI
from separate import Eval, Undefined, mp, rnd
from scheme import neg_
import store

LIGHT = {'jet': num(30000000000), 'env': num(29980000000)}
cube = lambda x: mul(x, x, x)
power = lambda x, n: mk('pow', x, n)


def settle(t):
    """x <= x holds and x < x does not, for numbers that are not NaN"""
    m = {x: (TRUE if x.op == '<=' else FALSE) for x in atoms((t,), lambda y: y.op in ('<=', '<') and len(y.a) == 2) if x.a[0] is x.a[1] or Norm().equal(x.a[0], x.a[1])}
    m.update({x: num(-x.a[0].a[0]) for x in atoms((t,), lambda y: y.op == 'neg') if isnum(x.a[0])})
    return settle(subst(t, m)) if m else t


def exponent(t):
    """the symbols that occur in exponents"""
    return atoms(tuple(y for x in atoms((t,), lambda y: y.op == 'pow') for y in (x.a[1],)), lambda y: y.op == 'sym')


class Split:
    """equality case by case of the conditions; a difference is reported when values of the parameters show it"""

    def __init__(self, c, u): self.c = c; self.u = u; self.fix = settle

    def conditions(self, *ts):
        for x in sorted(atoms(ts, lambda y: y.op == 'ite'), key=lambda y: y.n):
            for y in sorted(atoms((x.a[0],), lambda y: y.op in ('<', '<=', '==')), key=lambda y: y.n):
                if not atoms(y.a, lambda z: z.op == 'ite'): return y

    def cases(self, g, w, known):
        k = self.conditions(g, w)
        if k is None: yield g, w, known; return
        N = Norm()
        for x, y in known:
            if x.op == k.op and all(N.equal(p, q) for p, q in zip(x.a, k.a)):
                yield from self.cases(self.fix(settle(subst(g, {k: y}))), self.fix(settle(subst(w, {k: y}))), known); return
        for v in (TRUE, FALSE):
            m = {k: v}
            if k.op == '==' and v is TRUE:
                s, n = (k.a if k.a[0].op == 'sym' else k.a[::-1])
                if s.op == 'sym' and isnum(n): m[s] = n
            h = [(subst(x, m), y) for x, y in known]
            yield from self.cases(self.fix(settle(subst(g, m))), self.fix(settle(subst(w, m))), h + [(k, v)])

    def differ(self, g, w, known):
        pts = sorted(atoms((g, w) + tuple(k for k, _ in known), lambda y: y.op == 'sym'), key=lambda y: y.n); ex = exponent(mk('tup', g, w)) if pts else ()
        for s in range(400):
            fixed = {x: mp.power(10, (rnd('%d|%s' % (s, x)) - mp.mpf('1.05')) * 40) if x not in ex else rnd('%d|%s' % (s, x)) * 3 for x in pts}
            for k, v in known:
                if k.op == '==' and v is TRUE and k.a[0] in fixed and isnum(k.a[1]): fixed[k.a[0]] = mp.mpf(k.a[1].a[0].numerator) / k.a[1].a[0].denominator
            p = {show(x): v for x, v in fixed.items()}
            if p.get('a.r0', 0) > p.get('a.rc', mp.inf): continue
            E = Eval(s, fixed)
            try:
                if any(bool(E(k)) != (v is TRUE) for k, v in known): continue
                a, b = E(g), E(w)
            except (Undefined, ZeroDivisionError, OverflowError): continue
            if abs(a - b) > mp.mpf(10) ** -12 * (abs(a) + abs(b)): return {show(x): mp.nstr(fixed[x], 6) for x in pts}

    def __call__(self, name, got, want):
        where = self.u.where; got, want = ([y for x in (v if isinstance(v, list) else [v]) for y in leaves(x)] for v in (got, want))
        if len(got) != len(want): return self.c.ob(name, False, where, '%s: the result has %d components, required %d' % (name, len(got), len(want)))
        open_ = False
        for g, w in zip(got, want):
            for a, b, known in self.cases(g, w, []):
                if any(isnum(k) and k is not v for k, v in known) or self.u_facts(known): continue
                try:
                    if a is b or Norm().equal(a, b): continue
                except (TooBig, RecursionError): pass
                d = self.differ(a, b, known)
                if d is None: open_ = open_ or (a, b, known); continue
                return self.c.ob(name, False, where, '%s: the code yields %s, required %s (for %s)' % (name, show(a)[:200], show(b)[:200], ', '.join('%s = %s' % x for x in d.items())[:200]))
        if open_: return self.c.undecided(name, where, 'no normal form decides whether %s is %s when %s' % (show(open_[0])[:120], show(open_[1])[:120], ', '.join('%s%s' % ('' if v is TRUE else 'not ', show(k)[:60]) for k, v in open_[2])))
        return self.c.ob(name, True, where, '')

    def u_facts(self, known): return False


class Models:
    def __init__(self, c, u):
        self.c = c; self.u = u; self.cmp = Split(c, u); u.prep = self.prep

    def prep(self, I):
        store.prep(I); I.reclimit = 3; I.budget = 4000000
        def profile(limit):
            depth = [0]
            def density_at(I, e, obj, args):
                """the density where the profile refers to itself"""
                if depth[0] == limit: return mk('call', 'density_at', '', *[I.rv(a) for a in args])
                depth[0] += 1
                try: return I.call(I.tu.funcs[e['f']], list(args), this=obj)
                finally: depth[0] -= 1
            return density_at
        I.models['mara::cloud_and_envelop_model::density_at'] = profile(1)
        I.models['mara::power_law_atmosphere_model::density_at'] = profile(2)
        self.roots = []
        def secant(I, e, obj, args):
            m = sym('mass'); r = I.rv(I.apply_any(I.rv(args[0]), [m], e)); self.roots.append(r)
            return mk('call', 'root', '', m, r)
        I.models['mara::detail::solve_secant'] = secant

    def run(self, n, pre=TRUE):
        try: v = self.u.run(n)
        except AnalysisBroken as e: self.c.undecided(n, '', str(e)[:300]); return None
        if v is BOT or self.u.ret is FALSE: self.c.ob(n, False, self.u.where, n + ': always throws'); return None
        if self.u.ret is not TRUE and not entails(pre, self.u.ret, []): self.c.ob(n + ':returns', False, self.u.where, '%s: can throw (returns when %s)' % (n, show(self.u.ret)[:150])); return None
        return v

    def eq(self, n, spec, pre=TRUE, fix=lambda t: t, what=''):
        v = self.run(n, pre)
        if v is None: return
        a = select_all(self.u.A[0]) if self.u.A and self.u.A[0].op == 'rec' else {}
        w = spec(a, *self.u.A[1:])
        self.cmp.fix = fix
        self.cmp(n, [fix(settle(x)) for x in leaves(v)], [fix(settle(x)) for x in (w if isinstance(w, list) else [w])])


def select_all(v): return {k: x for k, x in v.a[1]}


def atmosphere(M):
    c = M.c
    rho = lambda a, r: ite(cmp_('<=', r, a['rc']), mul(a['f0'], power(div(r, a['r0']), neg_(a['n1']))), mul(a['f0'], power(div(a['rc'], a['r0']), neg_(a['n1'])), power(div(r, a['rc']), neg_(a['n2']))))
    at_rc = lambda a: mul(a['f0'], power(div(a['rc'], a['r0']), neg_(a['n1'])))
    def inside(t, a): return subst(t, {cmp_('<=', a['r0'], a['rc']): TRUE, power(div(a['r0'], a['r0']), neg_(a['n1'])): ONE})
    within = lambda a: ite(cmp_('==', a['n1'], num(3)), mul(num(4), PI, at_rc(a), cube(a['rc']), mk('log', div(a['rc'], a['r0']))),
                           div(mul(num(4), PI, sub(mul(at_rc(a), cube(a['rc'])), mul(a['f0'], cube(a['r0'])))), sub(num(3), a['n1'])))
    beyond = lambda a: div(mul(num(4), PI, at_rc(a), cube(a['rc'])), sub(a['n2'], num(3)))
    A = {}
    def one(t):
        """the radii of the model are in order; the profile is one at its base"""
        m = {}
        for x in atoms((t,), lambda y: y.op in ('<', '<=') and len(y.a) == 2):
            o = [str(k.a[0]).split('.')[-1] for k in x.a if k.op == 'sym']
            if o == ['r0', 'rc']: m[x] = TRUE
            if o == ['rc', 'r0']: m[x] = FALSE
        t = subst(t, m) if m else t
        m = {x: ONE for x in atoms((t,), lambda y: y.op == 'pow') if Norm().equal(x.a[0], ONE)}
        return subst(t, m) if m else t
    steep = lambda: TRUE
    M.eq('rho', rho, fix=one)
    M.eq('within', within, fix=one)
    n2 = sym('a.n2'); ok = cmp_('<', num(3), n2)
    M.eq('beyond', beyond, pre=ok, fix=one)
    if M.run('beyond', ok) is not None: c.ob('beyond:refused', entails(M.u.ret, ok, []), M.u.where, 'an outer index for which the mass is infinite must be refused (returns when %s)' % show(M.u.ret)[:120])
    M.eq('total', lambda a: add(within(a), beyond(a)), pre=ok, fix=one)
    M.eq('scaled', lambda a, m: m, pre=ok, fix=one)
    for n in ('f0', 'r0', 'rc', 'n1', 'n2'): M.eq('set_' + n, lambda a, x, n=n: [x if k == n else v for k, v in a.items()])
    v = M.run('scaled_m', ok)
    if v is not None:
        a, b = select_all(M.u.A[0]), select_all(v)
        M.cmp('scaled_m', [b[k] for k in ('r0', 'rc', 'n1', 'n2')], [a[k] for k in ('r0', 'rc', 'n1', 'n2')])


def jet(M):
    C3 = cube(LIGHT['jet'])
    base = lambda a: div(a['Ej'], mul(num(2), PI, a['G0'], a['G0'], a['r0'], a['r0'], a['qj'], a['qj'], a['tj'], C3))
    shape = lambda a, q: power(div(q, a['qj']), a['as'])
    M.eq('base', base)
    M.eq('lum', lambda a, q, t: mul(base(a), a['G0'], a['G0'], a['r0'], a['r0'], C3, mk('exp', neg_(shape(a, q))), mk('exp', div(neg_(t), a['tj']))))
    M.eq('gb', lambda a, q, t: mul(a['G0'], mk('exp', mul(num(Q(-1, 2)), shape(a, q))), mk('exp', div(mul(num(Q(-1, 2)), t), a['tj']))))
    for n in ('Ej', 'G0', 'tj', 'qj', 'as', 'jr0'): M.eq('set_' + n, lambda a, x, n=n: [x if k == n.replace('jr0', 'r0') else v for k, v in a.items()])


def envelope(M):
    C = LIGHT['env']
    u = lambda a, m: mul(a['u1'], power(div(m, a['m1']), neg_(a['psi'])))
    v = lambda a, m: mul(C, div(u(a, m), sqrt(add(ONE, mul(u(a, m), u(a, m))))))
    du = lambda a, m: neg_(div(mul(a['psi'], u(a, m)), m))
    R = lambda a, m, t: mul(v(a, m), t)
    rho = lambda a, m, t: div(mul(add(ONE, mul(u(a, m), u(a, m))), div(v(a, m), C)), mul(num(4), PI, cube(R(a, m, t)), mk('abs', du(a, m))))
    S = lambda a: a['envelop_mass']
    def gam(t):
        """1 - beta^2 = 1 / gamma^2"""
        a = select_all(M.u.A[0]); g = add(ONE, mul(u(a, S(a)), u(a, S(a)))); N = Norm()
        m = {x: div(ONE, sqrt(g)) for x in atoms((t,), lambda y: y.op == 'sqrt') if x.a[0] is not g and N.equal(x.a[0], div(ONE, g))}
        return subst(t, m) if m else t
    def fix(t):
        """the mass whose shell is at the radius of the shell of mass m is m; the profile at the radius of a boundary is that of its shell"""
        a = select_all(M.u.A[0]); tm = M.u.A[-1]; t = gam(t)
        N = Norm(); edge = [(R(a, m, tm), m) for m in (a['m1'], a['envelop_mass'])]; edge.append((mul(C, div(a['u1'], sqrt(add(ONE, mul(a['u1'], a['u1'])))), tm), a['m1']))
        for _ in range(6):
            t = settle(t); m = {}
            for x in atoms((t,), lambda y: y.op == 'call' and y.a[0] in ('root', 'density_at', 'M')):
                if x.a[0] == 'M':
                    for r, k in edge:
                        if N.equal(x.a[2], r): m[x] = k
                    continue
                if x.a[0] == 'density_at':
                    for r, k in edge:
                        if N.equal(x.a[2], r) and x.a[3] is tm: m[x] = rho(a, k, tm)
                else: m[x] = shell(a, x.a[2], x.a[3], tm, edge, N)
            m = {k: w for k, w in m.items() if w is not None and w is not k}
            if not m: break
            t = subst(t, m)
        one = {x: ONE for x in atoms((t,), lambda y: y.op == 'pow') if N.equal(x.a[0], ONE)}
        return subst(t, one) if one else t
    def shell(a, mass, eqn, tm, edge, N):
        """the root of eqn in mass: log10(r) - log10(R(mass)) vanishes exactly where r = R(mass)"""
        r = radius_of(a, mass, eqn, tm, N)
        if r is None: return None
        for e, k in edge:
            if N.equal(r, e): return k
        return mk('call', 'M', '', r, tm)
    def radius_of(a, mass, eqn, tm, N):
        logs = [x for x in atoms((eqn,), lambda y: y.op in ('log10', 'log', 'log2'))]
        own = [x for x in logs if atoms((x,), lambda y: y is mass)]; other = [x for x in logs if x not in own]
        if len(own) != 1 or len(other) != 1 or own[0].op != other[0].op: return None
        if not N.equal(own[0].a[0], R(a, mass, tm)): return None
        if not N.equal(subst(eqn, {own[0]: other[0]}), ZERO): return None
        return other[0].a[0]
    at = lambda r, t: mk('call', 'M', '', r, t)
    M.eq('e_u', u); M.eq('e_v', v); M.eq('e_du', du); M.eq('e_r', R); M.eq('e_d', rho)
    M.eq('e_cu', lambda a: u(a, S(a)), fix=gam); M.eq('e_cv', lambda a: v(a, S(a)))
    M.eq('e_rc', lambda a, t: R(a, S(a), t)); M.eq('e_r1', lambda a, t: R(a, a['m1'], t))
    M.eq('e_f', lambda a, r, t: at(r, t), fix=fix)
    cloud = lambda a, r, t: mul(rho(a, S(a), t), power(div(r, R(a, S(a), t)), neg_(a['cloud_index'])))
    def profile(inner, outer, mid):
        return lambda a, r, t: ite(cmp_('<', r, R(a, S(a), t)), inner(a, r, t), ite(cmp_('<', R(a, a['m1'], t), r), outer(a, r, t), mid(a, at(r, t), t)))
    M.eq('e_rho', profile(cloud, lambda a, r, t: mul(rho(a, a['m1'], t), power(div(r, R(a, a['m1'], t)), num(-2))), rho), fix=fix)
    gb = profile(lambda a, r, t: u(a, S(a)), lambda a, r, t: u(a, a['m1']), lambda a, m, t: u(a, m))
    M.eq('e_gb', gb, fix=fix)
    M.eq('e_vel', lambda a, r, t: (lambda g: mul(C, div(g, sqrt(add(ONE, mul(g, g))))))(gb(a, r, t)), fix=fix)
    def mass(a, t):
        n1, rc, r0 = a['cloud_index'], R(a, S(a), t), a['inner_radius']; d = rho(a, S(a), t)
        return ite(cmp_('==', n1, num(3)), mul(num(4), PI, d, cube(rc), mk('log', div(rc, r0))), div(mul(num(4), PI, sub(mul(d, cube(rc)), mul(cloud(a, r0, t), cube(r0)))), sub(num(3), n1)))
    def inner(t):
        """the inner radius lies in the cloud, and the cloud in the envelope"""
        a = select_all(M.u.A[0]); tm = M.u.A[-1]; N = Norm(); rc, r0, r1 = R(a, S(a), tm), a['inner_radius'], R(a, a['m1'], tm)
        m = {}
        for x in atoms((t,), lambda y: y.op in ('<', '<=') and len(y.a) == 2):
            for p, q in ((r0, rc), (rc, r1), (r0, r1)):
                if N.equal(x.a[0], p) and N.equal(x.a[1], q): m[x] = TRUE
                if N.equal(x.a[0], q) and N.equal(x.a[1], p): m[x] = FALSE
        return fix(subst(t, m) if m else t)
    M.eq('e_mc', mass, fix=lambda t: inner(inner(t))); M.eq('e_mt', lambda a, t: add(mass(a, t), S(a)), fix=lambda t: inner(inner(t)))
    for n, k in (('ir', 'inner_radius'), ('ci', 'cloud_index')): M.eq('set_' + n, lambda a, x, k=k: [x if j == k else w for j, w in a.items()])


def prop_models(c):
    c.rule('the value graphs of the member functions of each model, applied to arbitrary parameters and positions, equal the documented profile in normal form; the mass of a shell is the root of the radius equation')
    c.assumptions.append('radii, masses and indices of the models are not NaN and the inner radius is not beyond the cutoff; the secant solver finds the root')
    units(c, 'models.cpp', lambda u: (lambda M: (atmosphere(M), jet(M), envelope(M)))(Models(c, u)))
    c.minimum = 30
