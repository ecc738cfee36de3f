"""Hydrodynamics: algebraic identities decided on the value graph of src/physics_*.hpp.

Each function of the physics headers is turned into a closed-form value graph over
its symbolic arguments; the property is an identity between graphs, decided by the
exact rational normal form of terms.Norm."""
from program import parse_all, witness, AnalysisBroken, rel
from vg import Interp, select, LV
from terms import *
from props_bool import implies, conj
from separate import separated

UNIT = witness('physics.cpp')


def leaves(t):
    if isinstance(t, LV): raise AnalysisBroken('value expected')
    if t.op == 'rec':
        r = []
        for _, v in t.a[1]: r += leaves(v)
        return r
    if t.op in ('tup', 'arr'):
        r = []
        for v in t.a: r += leaves(v)
        return r
    if t.op == 'ite':
        a, b = leaves(t.a[1]), leaves(t.a[2])
        if len(a) == len(b) and len(a) > 1: return [ite(t.a[0], x, y) for x, y in zip(a, b)]
    return [t]


class Phys:
    """one physics system (mara::iso2d, mara::euler, mara::srhd)"""

    def __init__(self, c, ns, unroll=64):
        self.c = c; self.ns = ns
        self.tu = parse_all([UNIT])[0]
        self.I = self.fresh()
        self.unroll = unroll

    def fresh(self):
        I = Interp(self.tu); I.unroll_breaks = False
        return I

    def fn(self, name, nparams=None, pred=None):
        full = name if name.startswith('mara::') else 'mara::%s::%s' % (self.ns, name)
        fs = self.tu.find(full)
        if nparams is not None: fs = [f for f in fs if len(f.d['params']) == nparams]
        if pred: fs = [f for f in fs if pred(f)]
        if not fs: raise AnalysisBroken('%s (%s parameters) not found' % (full, nparams))
        return fs[0]

    def prim(self, name):
        f = self.fn('primitive_t::with_' + {'iso2d': 'sigma', 'euler': 'mass_density', 'srhd': 'mass_density'}[self.ns], 1)
        return self.I.symbolic(f.get('ret'), name)

    def arg(self, f, i, name): return self.I.symbolic(f.d['params'][i]['t'], name)

    def call(self, f, args, this=None):
        I = self.fresh()
        r = I.call(f, [I.alloc(a) for a in args], I.alloc(this) if this is not None else None)
        v = I.rv(r)
        self.c.seen(I.visited)
        self.last = I
        return v

    def get(self, P, acc): return leaves(self.call(self.fn('primitive_t::' + acc, 0), [], P))[0]

    def nhat(self, name='n'):
        f = self.fn('primitive_t::velocity_along' if self.ns != 'srhd' else 'primitive_t::beta_along', 1)
        return self.arg(f, 0, name)


def planar(n):
    """replace the components of a symbolic unit vector by the rational parametrisation of the unit circle"""
    t = sym('t')
    l = leaves(n); d = arith('+', ONE, arith('*', t, t))
    return {l[0]: arith('/', arith('-', ONE, arith('*', t, t)), d), l[1]: arith('/', arith('*', num(2), t), d), l[2]: ZERO}


def add(*x):
    r = x[0]
    for y in x[1:]: r = arith('+', r, y)
    return r


def mul(*x):
    r = x[0]
    for y in x[1:]: r = arith('*', r, y)
    return r


def sub(a, b): return arith('-', a, b)
def div(a, b): return arith('/', a, b)
def sqrt(a): return mk('sqrt', a)
def neg(a): return mk('neg', a)


def same(c, name, got, want, where, what, decide=None, sub_=None):
    """one obligation: the two vectors of terms are identical as rational functions"""
    got = leaves(got) if not isinstance(got, list) else got
    want = leaves(want) if not isinstance(want, list) else want
    if len(got) != len(want):
        return c.ob(name, False, where, '%s: %d components, expected %d' % (what, len(got), len(want)))
    N = Norm(decide)
    bad = []
    for i, (a, b) in enumerate(zip(got, want)):
        if sub_: a, b = subst(a, sub_), subst(b, sub_)
        if not N.equal(a, b): bad.append((i, a, b))
    msg = ''
    if bad:
        i, a, b = bad[0]
        msg = '%s: component %d differs: code computes %s ; required %s' % (what, i, show(a)[:300], show(b)[:300])
    return c.ob(name, not bad, where, msg)


# ====================================================================== round trips
def prop_roundtrip(c):
    c.allow |= {'loop'}
    c.rule('value graph of recover_primitive composed with the value graph of to_conserved_* equals the identity on the primitive state, as rational functions (no-floor branch)')
    # iso2d
    S = Phys(c, 'iso2d'); P = S.prim('P'); pl = leaves(P)
    tc = S.fn('primitive_t::to_conserved_per_area', 0)
    U = S.call(tc, [], P)
    rec1 = S.fn('recover_primitive', 1); rec2 = S.fn('recover_primitive', 2)
    same(c, 'iso2d:recover(U(P))', S.call(rec1, [U]), P, rec1.where(), 'recover_primitive(P.to_conserved_per_area()) must be P')
    tq = S.fn('primitive_t::to_conserved_angmom_per_area', 1)
    x = S.arg(tq, 0, 'x')
    Q_ = S.call(tq, [x], P)
    same(c, 'iso2d:recover(Q(P,x),x)', S.call(rec2, [Q_, x]), P, rec2.where(), 'recover_primitive(P.to_conserved_angmom_per_area(x), x) must be P')
    qu = S.fn('to_conserved_per_area', 2)
    same(c, 'iso2d:U(Q(P,x),x)', S.call(qu, [Q_, x]), U, qu.where(), 'to_conserved_per_area(Q(P, x), x) must be P.to_conserved_per_area()')
    # the flux map and the state map are the same linear map
    ff = S.fn('to_conserved_angmom_flux', 2)
    F = S.arg(ff, 0, 'F'); fl = leaves(F); ul = leaves(U); xl = leaves(x)
    G = leaves(S.call(ff, [F, x]))
    want = [fl[0], add(mul(xl[0], fl[1]), mul(xl[1], fl[2])), sub(mul(xl[0], fl[2]), mul(xl[1], fl[1]))]
    same(c, 'iso2d:angmom-flux-map', G, want, ff.where(), 'to_conserved_angmom_flux(F, x) must be (F0, x.Fp, x cross Fp)')
    same(c, 'iso2d:Q-is-angmom-map-of-U', leaves(Q_), [subst(w, dict(zip(fl, ul))) for w in want], tq.where(), 'Q(P, x) must be the radial/angular momentum of U(P)')
    am = S.fn('angular_momentum', 2) if S.tu.find('mara::iso2d::angular_momentum') else None
    if am: same(c, 'iso2d:angular_momentum', S.call(am, [U, x]), [leaves(Q_)[2]], am.where(), 'angular_momentum(U, x) must equal the angular momentum component of Q')
    # conserved semantics
    g = lambda a: S.get(P, a)
    same(c, 'iso2d:U-definition', U, [g('sigma'), mul(g('sigma'), g('velocity_x')), mul(g('sigma'), g('velocity_y'))], tc.where(), 'U must be (sigma, sigma vx, sigma vy)')
    # euler
    S = Phys(c, 'euler'); P = S.prim('P')
    gm = sym('gm'); fl0 = sym('floor')
    tc = S.fn('primitive_t::to_conserved_density', 1)
    U = S.call(tc, [gm], P)
    rec = S.fn('recover_primitive', 3)
    g = lambda a: S.get(P, a)
    v2 = add(mul(g('velocity_1'), g('velocity_1')), mul(g('velocity_2'), g('velocity_2')), mul(g('velocity_3'), g('velocity_3')))
    d = g('mass_density'); p = g('gas_pressure')
    same(c, 'euler:U-definition', U, [d, mul(d, g('velocity_1')), mul(d, g('velocity_2')), mul(d, g('velocity_3')), add(div(p, sub(gm, ONE)), mul(num(Q(1, 2)), d, v2))], tc.where(), 'U must be (rho, rho v, p/(g-1) + rho v^2/2)')
    R = S.call(rec, [U, gm, fl0])
    NP = positive(Norm, {p: 1, d: 1})
    same(c, 'euler:recover(U(P))', R, P, rec.where(), 'recover_primitive(P.to_conserved_density(g), g, floor) must be P when the pressure is positive', decide=NP)
    # floor branch
    Us = S.arg(rec, 0, 'U')
    R2 = S.call(rec, [Us, gm, fl0])
    pr = leaves(R2)[4]
    ul = leaves(Us)
    pe = mul(sub(ul[4], div(mul(num(Q(1, 2)), add(mul(ul[1], ul[1]), mul(ul[2], ul[2]), mul(ul[3], ul[3]))), ul[0])), sub(gm, ONE))
    neg_ = floor_decide(pe, fl0)
    same(c, 'euler:floor', [pr], [mul(fl0, ul[0])], rec.where(), 'with negative pressure and an active floor the pressure must be floor * rho', decide=neg_)
    off = lambda N, cnd: (False if (cnd.op == '<' and cnd.a[0] is ZERO and cnd.a[1] is fl0) or (cnd.op == '<=' and cnd.a[0] is ZERO and cnd.a[1] is fl0) else (True if (cnd.op in ('<=', '<') and cnd.a[0] is fl0 and cnd.a[1] is ZERO) else None))
    same(c, 'euler:floor-inactive', [pr], [pe], rec.where(), 'without a temperature floor the pressure must be the thermal pressure', decide=off)
    # srhd
    srhd_roundtrip(c)
    c.minimum = 12


def positive(_, pos):
    """decide callback: the sign of the given symbols is known"""
    def dec(N, cnd):
        if cnd.op not in ('<', '<=', '=='): return None
        p, q = N.reduce(N.nf(mk('-', cnd.a[0], cnd.a[1])))
        if len(p) == 1 and len(q) == 1:
            s = 1
            for d in (p, q):
                for m, k in d.items():
                    if k < 0: s = -s
                    for a, e in m:
                        if a.op == 'sqrtatom': continue
                        if a not in pos: return None
                        if pos[a] < 0 and e % 2: s = -s
            return {'<': s < 0, '<=': s < 0, '==': False}[cnd.op]
        return None
    return dec


def floor_decide(pe, fl0):
    def dec(N, cnd):
        if cnd.op in ('<', '<='):
            a, b = cnd.a
            if a is ZERO and b is fl0: return True
            if a is fl0 and b is ZERO: return False
            if b is ZERO and N.equal(a, pe): return True
            if a is ZERO and N.equal(b, pe): return False
        return None
    return dec


def converged(t):
    """value of a loop-carried variable at the accepted exit of the root finder"""
    memo = {}
    def f(x):
        if not isinstance(x, T): return tuple(f(y) for y in x) if isinstance(x, tuple) else x
        r = memo.get(x)
        if r is not None: return r
        if x.op == 'mubrk': r = f(x.a[2])
        elif x.op == 'mu': r = f(x.a[3])
        elif not x.a or x.op in ('num', 'sym', 'str', 'loopvar'): r = x
        else:
            a = tuple(f(y) for y in x.a); r = rebuild(x.op, a) if a != x.a else x
        memo[x] = r
        return r
    return f(t)


def srhd_roundtrip(c):
    S = Phys(c, 'srhd'); P = S.prim('P'); gm = sym('gm'); fl0 = sym('floor')
    g = lambda a: S.get(P, a)
    tc = S.fn('primitive_t::to_conserved_density', 1)
    U = S.call(tc, [gm], P)
    d, p = g('mass_density'), g('gas_pressure')
    u = [g('gamma_beta_%d' % i) for i in (1, 2, 3)]
    W = sqrt(add(ONE, mul(u[0], u[0]), mul(u[1], u[1]), mul(u[2], u[2])))
    h = add(ONE, mul(div(p, d), div(gm, sub(gm, ONE))))
    D = mul(d, W)
    same(c, 'srhd:U-definition', U, [D] + [mul(D, h, x) for x in u] + [sub(sub(mul(D, h, W), p), D)], tc.where(), 'U must be (rho W, rho h W u, rho h W^2 - p - rho W)')
    rec = S.fn('recover_primitive', 3)
    R = S.call(rec, [U, gm, fl0])
    I = S.last
    lv = atoms(R, lambda t: t.op == 'loopvar')
    # the pressure iterate is the loop variable the assembled pressure depends on
    R1 = converged(R)
    out = leaves(R1)
    if len(out) != 5: raise AnalysisBroken('srhd::recover_primitive does not produce five components')
    def nofloor(N, cnd):
        if cnd.op in ('<', '<=') and cnd.a[0] is ZERO and cnd.a[1] is fl0: return False
        if cnd.op in ('<', '<=') and cnd.a[1] is ZERO and cnd.a[0] is fl0: return True
        # the causality clamp on v^2 is inactive at the root (v^2 < 1)
        if cnd.op in ('<', '<=') and cnd.a[0].op == 'abs' and isnum(cnd.a[1]) and 0 < cnd.a[1].a[0] < Q(1, 10**6): return True
        if cnd.op in ('<', '<=') and cnd.a[1].op == 'abs' and isnum(cnd.a[0]) and 0 < cnd.a[0].a[0] < Q(1, 10**6): return False
        for i, j in ((0, 1), (1, 0)):
            if isnum(cnd.a[j]) and 0 < cnd.a[j].a[0] < 1 and cnd.op in ('<', '<='): return i == 0
        return None
    lvs = atoms(R1, lambda t: t.op == 'loopvar')
    ok = None
    for cand in lvs:
        m = {cand: p}
        if all(Norm(nofloor).equal(subst(a, m), b) for a, b in zip(out, leaves(P))): ok = cand
    c.ob('srhd:recover(U(P))', ok is not None, rec.where(), 'no loop variable of the root finder, set to the exact pressure, reproduces the primitive state: the accepted exit does not satisfy recover(U(P)) = P')
    # acceptance criterion: on the accepted exit the residual is compared with a small constant
    conds = {R} | {conj(e.guards) for e in I.events}
    good = False; why = 'the root finder has no convergence-controlled exit'
    for cond in conds:
        cmps = atoms(cond, lambda t: t.op in ('<', '<='))
        for k in cmps:
            lhs, rhs = k.a
            if isnum(lhs) and rhs.op == 'abs': lhs, rhs = rhs, lhs
            if isnum(rhs) and lhs.op == 'abs':
                if rhs.a[0] > Q(1, 10**9): why = 'accepts a residual as large as %s' % rhs; continue
                f = lhs.a[0]
                if ok is None: continue
                if Norm(nofloor).equal(subst(f, {ok: p}), ZERO): good = True
                else: why = 'the quantity compared with the tolerance does not vanish at the exact pressure'
    c.ob('srhd:residual', good, rec.where(), 'srhd::recover_primitive: ' + why)
    # floor: p = max(p, floor * rho)
    on = lambda N, cnd: True if cnd.op in ('<', '<=') and cnd.a[0] is ZERO and cnd.a[1] is fl0 else (False if cnd.op in ('<', '<=') and cnd.a[1] is ZERO and cnd.a[0] is fl0 else None)
    N0 = Norm(nofloor)
    pf = leaves(R)[4]
    from setup import fold
    def strip(t, pol): return fold(subst_ite(t, lambda cnd: pol if is_floor(cnd, fl0) == 1 else ((not pol) if is_floor(cnd, fl0) == -1 else None)))
    pon, poff = strip(pf, True), strip(pf, False)
    rho = strip(leaves(R)[0], True); want = mk('max', poff, mul(fl0, rho))
    if poff.op != 'max' and Norm().equal(pon, want): c.ob('srhd:floor', True, rec.where(), '')
    elif poff.op != 'max' and separated(pon, want) is None: c.undecided('srhd:floor', rec.where(), 'the normal forms differ, but no interpretation separates the terms')
    else: c.ob('srhd:floor', False, rec.where(), 'with an active temperature floor the pressure must be max(p, floor * rho)')
    # the momentum of the assembled state uses the same total energy tau + D + p as the accepted pressure (floor included)


def is_floor(cnd, fl0):
    if cnd.op in ('<', '<=') and cnd.a[0] is ZERO and cnd.a[1] is fl0: return 1
    if cnd.op in ('<', '<=') and cnd.a[1] is ZERO and cnd.a[0] is fl0: return -1
    return 0


def subst_ite(t, f, memo=None):
    """resolve gating terms whose condition is decided by f"""
    if memo is None: memo = {}
    if not isinstance(t, T): return tuple(subst_ite(x, f, memo) for x in t) if isinstance(t, tuple) else t
    r = memo.get(t)
    if r is not None: return r
    if t.op == 'ite':
        cnd = t.a[0]
        v = bool3(cnd, f)
        if v is None: r = ite(subst_ite(partly(cnd, f), f, memo), subst_ite(t.a[1], f, memo), subst_ite(t.a[2], f, memo))
        else: r = subst_ite(t.a[1] if v else t.a[2], f, memo)
    elif not t.a or t.op in ('num', 'sym', 'str'): r = t
    else:
        a = tuple(subst_ite(x, f, memo) for x in t.a); r = rebuild(t.op, a) if a != t.a else t
    memo[t] = r
    return r


def partly(c, f):
    """the parts of a condition that f decides, put in place"""
    if isnum(c): return c
    if c.op == '!': return bnot(partly(c.a[0], f))
    if c.op == '&&': return band(partly(c.a[0], f), partly(c.a[1], f))
    if c.op == '||': return bor(partly(c.a[0], f), partly(c.a[1], f))
    v = f(c)
    return c if v is None else (TRUE if v else FALSE)


def bool3(c, f):
    if isnum(c): return bool(c.a[0])
    if c.op == '!':
        x = bool3(c.a[0], f); return None if x is None else not x
    if c.op == '&&':
        x, y = bool3(c.a[0], f), bool3(c.a[1], f)
        return False if x is False or y is False else (True if x and y else None)
    if c.op == '||':
        x, y = bool3(c.a[0], f), bool3(c.a[1], f)
        return True if x or y else (False if x is False and y is False else None)
    return f(c)


# ====================================================================== flux law, wavespeeds, sources
def prop_flux(c):
    c.rule('flux(n) = v_n U + p (0, n, v_n); wavespeeds(n) are the extreme eigenvalues; geometric source terms equal the Christoffel terms of the same flux; all as rational-function identities')
    # ---- iso2d
    S = Phys(c, 'iso2d'); P = S.prim('P'); n = S.nhat(); cs2 = sym('cs2'); nl = leaves(n)
    g = lambda a: S.get(P, a)
    d = g('sigma'); v = [g('velocity_x'), g('velocity_y')]
    vn = add(mul(v[0], nl[0]), mul(v[1], nl[1]))
    flux = S.fn('primitive_t::flux', 2)
    p = mul(d, cs2)
    F = S.call(flux, [n, cs2], P)
    U = leaves(S.call(S.fn('primitive_t::to_conserved_per_area', 0), [], P))
    same(c, 'iso2d:flux', F, [mul(vn, U[0]), add(mul(vn, U[1]), mul(p, nl[0])), add(mul(vn, U[2]), mul(p, nl[1]))], flux.where(), 'F must be v_n U + p (0, n)')
    ws = S.fn('primitive_t::wavespeeds', 2)
    same(c, 'iso2d:wavespeeds', S.call(ws, [n, cs2], P), [sub(vn, sqrt(cs2)), add(vn, sqrt(cs2))], ws.where(), 'wavespeeds must be v_n -+ cs')
    mw = S.fn('primitive_t::max_wavespeed', 1)
    a = S.call(mw, [cs2], P)
    want = mk('max', mk('max', mk('abs', sub(v[0], sqrt(cs2))), mk('abs', add(v[0], sqrt(cs2)))), mk('max', mk('abs', sub(v[1], sqrt(cs2))), mk('abs', add(v[1], sqrt(cs2)))))
    bound_max(c, 'iso2d:max_wavespeed', leaves(a)[0], [mk('abs', x) for x in (sub(v[0], sqrt(cs2)), add(v[0], sqrt(cs2)), sub(v[1], sqrt(cs2)), add(v[1], sqrt(cs2)))], v, sqrt(cs2), mw.where())
    src = S.fn('primitive_t::source_terms_conserved_angmom', 1)
    e1 = {nl[0]: ONE, nl[1]: ZERO, nl[2]: ZERO}; e2 = {nl[0]: ZERO, nl[1]: ONE, nl[2]: ZERO}
    Fx = [subst(x, e1) for x in leaves(F)]; Fy = [subst(x, e2) for x in leaves(F)]
    same(c, 'iso2d:angmom-source', S.call(src, [cs2], P), [ZERO, add(Fx[1], Fy[2]), sub(Fx[2], Fy[1])], src.where(), 'the geometric source of (sigma, Sr, Lz) must be (0, trace of the stress, antisymmetric part of the stress)')
    # ---- euler / srhd
    for ns in ('euler', 'srhd'):
        S = Phys(c, ns); P = S.prim('P'); n = S.nhat(); nl = leaves(n); gm = sym('gm')
        g = lambda a: S.get(P, a)
        d, p = g('mass_density'), g('gas_pressure')
        if ns == 'euler':
            u = [g('velocity_%d' % i) for i in (1, 2, 3)]; W = ONE
            H = d
            enth = mul(p, div(gm, sub(gm, ONE)))
            c2 = div(mul(gm, p), d)
        else:
            u = [g('gamma_beta_%d' % i) for i in (1, 2, 3)]
            W = sqrt(add(ONE, mul(u[0], u[0]), mul(u[1], u[1]), mul(u[2], u[2])))
            H = add(d, mul(p, div(gm, sub(gm, ONE))))
            enth = H
            c2 = div(mul(gm, p), H)
        vn = div(add(*[mul(a, b) for a, b in zip(u, nl)]), W)
        tc = S.fn('primitive_t::to_conserved_density', 1)
        U = leaves(S.call(tc, [gm], P))
        want = [mul(vn, U[0])] + [add(mul(vn, U[i + 1]), mul(p, nl[i])) for i in range(3)] + [add(mul(vn, U[4]), mul(p, vn))]
        f1 = S.fn('primitive_t::flux', 2, lambda f: S.tu.strip_ref(f.d['params'][1]['t'])['k'] == 'float')
        f2 = S.fn('primitive_t::flux', 2, lambda f: S.tu.strip_ref(f.d['params'][1]['t'])['k'] == 'rec')
        same(c, ns + ':flux', S.call(f1, [n, gm], P), want, f1.where(), 'F must be v_n U + p (0, n, v_n)')
        Us = S.arg(f2, 1, 'U'); ul = leaves(Us)
        same(c, ns + ':flux(U)', S.call(f2, [n, Us], P), [subst(w, {}) for w in [mul(vn, ul[0])] + [add(mul(vn, ul[i + 1]), mul(p, nl[i])) for i in range(3)] + [add(mul(vn, ul[4]), mul(p, vn))]], f2.where(), 'F(n, U) must be v_n U + p (0, n, v_n)')
        sc = S.fn('primitive_t::sound_speed_squared', 1)
        same(c, ns + ':sound_speed', S.call(sc, [gm], P), [c2], sc.where(), 'the sound speed squared must be gamma p / (enthalpy density)' if ns == 'srhd' else 'gamma p / rho')
        en = S.fn('primitive_t::enthalpy_density', 1)
        same(c, ns + ':enthalpy', S.call(en, [gm], P), [enth], en.where(), 'enthalpy density')
        se = S.fn('primitive_t::specific_enthalpy', 1)
        same(c, ns + ':specific_enthalpy', S.call(se, [gm], P), [div(enth, d)], se.where(), 'specific enthalpy must be enthalpy density / rho')
        ws = S.fn('primitive_t::wavespeeds', 2)
        got = leaves(S.call(ws, [n, gm], P))
        if ns == 'euler':
            same(c, ns + ':wavespeeds', got, [sub(vn, sqrt(c2)), add(vn, sqrt(c2))], ws.where(), 'wavespeeds must be v_n -+ cs')
        else:
            # abstract the lorentz factor: v2 = uu/(1+uu)
            vv = div(sub(mul(W, W), ONE), mul(W, W))
            k0 = sqrt(mul(c2, sub(ONE, vv), sub(sub(ONE, mul(vv, c2)), mul(vn, vn, sub(ONE, c2)))))
            den = sub(ONE, mul(vv, c2))
            want = [div(sub(mul(vn, sub(ONE, c2)), k0), den), div(add(mul(vn, sub(ONE, c2)), k0), den)]
            same(c, ns + ':wavespeeds', got, want, ws.where(), 'wavespeeds must be the relativistic sum of v_n and -+ cs')
        # spherical geometry sources: generic (3d) and radial
        r = sym('r'); th = sym('theta')
        sg = S.fn('primitive_t::spherical_geometry_source_terms', 3)
        got = leaves(S.call(sg, [r, th, gm], P))
        cots = [t for t in atoms(tuple(got), lambda t: t.op in ('tan', 'cos', 'sin', 'cot', '/') and t.op != '/')]
        cot = cot_term(got, th)
        HH = H
        want = [ZERO, div(add(mul(num(2), p), mul(HH, add(mul(u[1], u[1]), mul(u[2], u[2])))), r),
                div(add(mul(cot, p), mul(HH, sub(mul(u[2], u[2], cot), mul(u[0], u[1])))), r),
                neg(div(mul(u[2], HH, add(u[0], mul(u[1], cot))), r)), ZERO]
        same(c, ns + ':spherical-source', got, want, sg.where(), 'spherical source terms')
        sr = S.fn('primitive_t::spherical_geometry_source_terms_radial', 2)
        same(c, ns + ':spherical-source-radial', S.call(sr, [r, gm], P), [subst(w, {u[2]: ZERO, cot: ZERO}) if w is not ZERO else ZERO for w in want[:2]] + [ZERO, ZERO, ZERO], sr.where(), 'the radial source must be the spherical one with vanishing azimuthal velocity and cot(theta)')
    c.minimum = 19


def cot_term(got, th):
    """the sub-term of the source that is cot(theta): tan(pi/2 - theta), or cos/sin, or 1/tan"""
    for t in atoms(tuple(got), lambda t: t.op in ('tan', '/')):
        if t.op == 'tan':
            a = t.a[0]
            if a.op == '-' and a.a[1] is th and isnum(a.a[0]) and abs(float(a.a[0].a[0]) - 1.5707963267948966) < 1e-15: return t
        if t.op == '/' and t.a[0].op == 'cos' and t.a[1].op == 'sin' and t.a[0].a[0] is th and t.a[1].a[0] is th: return t
        if t.op == '/' and isnum(t.a[0]) and t.a[0].a[0] == 1 and t.a[1].op == 'tan' and t.a[1].a[0] is th: return t
    return sym('cot(theta)')


def bound_max(c, name, got, want, v, cs, where):
    """max over |v_i +- cs|: compared sector by sector over the signs (cs>0), where every abs/max resolves"""
    # the algebraic normal form flattens max; otherwise compare through the closed form max_i |v_i| + cs
    t = want[0]
    for w in want[1:]: t = mk('max', t, w)
    if Norm().equal(got, t): return c.ob(name, True, where)
    alt = mk('max', arith('+', mk('abs', v[0]), cs), arith('+', mk('abs', v[1]), cs))
    alt2 = arith('+', mk('max', mk('abs', v[0]), mk('abs', v[1])), cs)
    if Norm().equal(got, alt) or Norm().equal(got, alt2): return c.ob(name, True, where)
    # sector comparison: signs of v0, v1 and order of |v0|,|v1|; cs > |..| irrelevant
    ok = True
    import itertools
    for s0, s1, o in itertools.product((1, -1), (1, -1), (0, 1)):
        a, b, k = sym('?a'), sym('?b'), sym('?k')  # positive
        # |v_small| = a, |v_big| = a + b
        x, y = (a, arith('+', a, b)) if o == 0 else (arith('+', a, b), a)
        m = {v[0]: x if s0 > 0 else mk('neg', x), v[1]: y if s1 > 0 else mk('neg', y), cs: k}
        for order in (0, 1, 2):  # cs < a ; a < cs < a+b ; cs > a+b
            e = sym('?e')
            mm = dict(m)
            if order == 0: mm2 = {a: arith('+', k, e)}
            elif order == 1: mm2 = {k: arith('+', a, e), b: arith('+', e, sym('?g'))}
            else: mm2 = {k: arith('+', arith('+', a, b), e)}
            gg = subst(subst(got, mm), mm2); ww = subst(subst(t, mm), mm2)
            N = Norm(allpos)
            if not N.equal(gg, ww): ok = False
    return c.ob(name, ok, where, 'max_wavespeed must be the largest |v_i -+ cs|')


def allpos(N, cnd):
    """every symbol is a positive quantity: the sign of a polynomial with coefficients of one sign is known"""
    if cnd.op not in ('<', '<=', '=='): return None
    p, q = N.reduce(N.nf(mk('-', cnd.a[0], cnd.a[1])))
    sp = {k > 0 for k in p.values()}; sq = {k > 0 for k in q.values()}
    if len(sp) == 1 and len(sq) == 1:
        s = sp == sq
        return {'<': not s, '<=': not s, '==': False}[cnd.op]
    return None


# ====================================================================== rejection of unphysical states
def returns_when(I):
    """the condition under which the analysed call returned normally"""
    return conj(I.path)


def nfcond(t, memo=None):
    """normalise the comparisons of a boolean term: x - y ? 0 in rational normal form"""
    N = Norm()
    def f(c):
        if isnum(c): return c
        if c.op == '!': return bnot(f(c.a[0]))
        if c.op == '&&': return band(f(c.a[0]), f(c.a[1]))
        if c.op == '||': return bor(f(c.a[0]), f(c.a[1]))
        if c.op in ('<', '<='):
            d = N.canon(mk('-', c.a[0], c.a[1])); r = N.canon(mk('-', c.a[1], c.a[0]))
            # x < y  is  x-y < 0 ; y < x is y-x < 0 : share one atom, ordered
            if d.n <= r.n: return mk(c.op, d, ZERO)
            return mk(c.op, ZERO, r)
        if c.op == '==':
            d = N.canon(mk('-', c.a[0], c.a[1])); r = N.canon(mk('-', c.a[1], c.a[0]))
            return mk('==', d if d.n <= r.n else r, ZERO)
        if c.op == 'isnan': return mk('isnan', N.canon(c.a[0]))
        if c.op == 'ite': return bor(band(f(c.a[0]), f(c.a[1])), band(bnot(f(c.a[0])), f(c.a[2])))
        return c
    return f(t)


def prop_reject(c):
    c.allow |= {'loop'}
    c.rule('the condition under which the recovery returns normally implies that the recovered state is physical; decided propositionally over the normalised comparison atoms')
    # iso2d
    S = Phys(c, 'iso2d')
    for n in (1, 2):
        f = S.fn('recover_primitive', n)
        args = [S.arg(f, i, a) for i, a in zip(range(n), ('U', 'x'))]
        R = S.call(f, args)
        ret = nfcond(returns_when(S.last))
        sg = leaves(args[0])[0]
        ok = implies(ret, nfcond(bnot(cmp_('<', sg, ZERO))))
        c.ob('iso2d:negative-density/%d' % n, ok, f.where(), 'iso2d::recover_primitive returns a state for a negative surface density')
        over = any(e.kind == 'throw' and implies(TRUE, nfcond(conj(e.guards))) for e in S.last.events)
        c.ob('iso2d:accepts-physical/%d' % n, implies(nfcond(cmp_('<', ZERO, sg)), ret), f.where(), 'iso2d::recover_primitive rejects a state with positive surface density')
        same(c, 'iso2d:density/%d' % n, [leaves(R)[0]], [sg], f.where(), 'the recovered density must be the conserved one')
    # srhd
    S = Phys(c, 'srhd')
    f = S.fn('recover_primitive', 3)
    U = S.arg(f, 0, 'U'); gm = sym('gm'); fl0 = sym('floor')
    R = S.call(f, [U, gm, fl0])
    ret = nfcond(returns_when(S.last)); out = leaves(R)
    c.ob('srhd:density-positive', implies(ret, nfcond(bnot(cmp_('<=', out[0], ZERO)))), f.where(), 'srhd::recover_primitive returns a state with mass density <= 0')
    c.ob('srhd:pressure-positive', implies(ret, nfcond(bnot(cmp_('<=', out[4], ZERO)))), f.where(), 'srhd::recover_primitive returns a state with gas pressure <= 0')
    # convergence: either a flag raised only on the converged exit, or a return inside the loop
    conv = [t for t in atoms(ret, lambda t: t.op in ('mubrk', 'mu'))]
    good = False
    inloop = any(True for e in [S.last.path] if False)
    for t in bool_atoms(ret):
        if t.op == 'mubrk' and isnum(t.a[1]) and isnum(t.a[2]) and bool(t.a[1].a[0]) != bool(t.a[2].a[0]) and small_residual(t.a[3]):
            want = t if t.a[2].a[0] else bnot(t)
            if implies(ret, want): good = True
        if t.op == 'mu' and isnum(t.a[2]) and flag_value(t):
            want = t if not t.a[2].a[0] else bnot(t)
            if implies(ret, want): good = True
        if t.op == 'loopexit' and small_residual(t.a[1]) and implies(ret, t): good = True
        if t.op in ('<', '<=') and small_residual(t) and implies(ret, t): good = True
    good = good or any(counted(S.last, k) and implies(ret, nfcond(bnot(k))) for k in batoms_raw(returns_when(S.last)))
    c.ob('srhd:unconverged', good, f.where(), 'srhd::recover_primitive can return a state from a root finder that did not converge')
    nan = [t for t in bool_atoms(ret) if t.op == 'isnan']
    c.ob('srhd:nan', any(implies(ret, bnot(t)) for t in nan), f.where(), 'srhd::recover_primitive does not reject a NaN Lorentz factor')
    # HLLC: a flux is returned only from one of the four sectors
    S = Phys(c, 'iso2d')
    for name in ('interface_flux', 'interface_conserved_state'):
        f = S.fn('riemann_hllc_variables_t::' + name, 0)
        th = S.I.symbolic(this_type(S, f), 'h')
        d = dict(th.a[1])
        R = S.call(f, [], th)
        ret = returns_when(S.last)
        from props_bool import beval, batoms
        nan = {t: False for t in batoms(ret)}     # every comparison with a NaN wave speed is false
        c.ob('hllc:%s-total' % name, not beval(ret, nan), f.where(), 'a state is returned although no wave sector contains the interface (NaN wave speeds)')
    c.minimum = 10


def this_type(S, f):
    for i, t in enumerate(S.tu.types):
        if t['k'] == 'rec' and t.get('rec') == f.d['rec'] and not t.get('c'): return t
    for i, t in enumerate(S.tu.types):
        if t['k'] == 'rec' and t.get('rec') == f.d['rec']: return t
    raise AnalysisBroken('type of %s not found' % f.n)


def bool_atoms(t):
    from props_bool import batoms
    return batoms(t)


def small_residual(cond):
    """does the condition contain |f| < eps with a small eps"""
    for k in atoms(cond, lambda t: t.op in ('<', '<=')):
        txt = k.a
        for a, b in ((k.a[0], k.a[1]), (k.a[1], k.a[0])):
            if isnum(b) and a.op == 'abs' and 0 < b.a[0] <= Q(1, 10**9): return True
        if any(x.op == 'nf' for x in k.a): return True
    return False


def batoms_raw(t): return [k for k in bool_atoms(t) if k.op in ('==', '<', '<=')]


def counted(I, k):
    """a comparison that holds when the loop has run to the end: its counter, which starts at and advances to no more than the bound, is compared with
    the bound of the loop, and every other way out of the loop is taken below the bound and under a residual test"""
    for m in atoms(k, lambda t: t.op == 'mu'):
        if m.a[0] not in I.loops: continue
        cond, brk = I.loops[m.a[0]]
        own = [v for v in atoms(m.a[3], lambda t: t.op == 'loopvar') if v.a[:2] == m.a[:2]]
        if len(own) != 1 or not isnum(m.a[2]) or not Norm().equal(m.a[3], add(own[0], ONE)): continue
        if not brk or not all(small_residual(b) for b in brk): continue
        for n in {x.a[0] for x in atoms(cond, isnum)}:
            # the loop goes on at every value below n and stops at n; the comparison holds at n only
            if m.a[2].a[0] >= n or Q(m.a[2].a[0]).denominator != 1 or Q(n).denominator != 1: continue
            holds = lambda q, v, x: truth(subst(q, {v: num(x)}))
            if holds(cond, own[0], n) is not False or holds(cond, own[0], n - 1) is not True or holds(cond, own[0], m.a[2].a[0]) is not True: continue
            if holds(k, m, n) is True and holds(k, m, n - 1) is False and holds(k, m, m.a[2].a[0]) is False: return True
    return False


def truth(q):
    if isnum(q): return bool(q.a[0])
    q = subst_ite(q, lambda cnd: None)
    if q.op in ('<', '<=', '==') and all(isnum(x) for x in q.a):
        a, b = q.a[0].a[0], q.a[1].a[0]
        return {'<': a < b, '<=': a <= b, '==': a == b}[q.op]
    if q.op == '!':
        v = truth(q.a[0]); return None if v is None else not v
    return None


def flag_value(t):
    """loop flag set to a constant of opposite polarity only under a residual test"""
    init = bool(t.a[2].a[0])
    v = t.a[3]
    return v.op in ('ite', '||') and small_residual(v)


# ====================================================================== Riemann solvers
def order_decide(quants, order):
    """decide callback for a strict total order of the given quantities (list of terms); order = permutation (ascending)"""
    rank = {}
    for i, k in enumerate(order): rank[k] = i
    cache = {}
    def which(N, t):
        r = cache.get(t)
        if r is None:
            r = -1
            if t.op in ('min', 'max'):
                ks = [which(N, x) for x in N.flat(t.op, t)]
                if all(k >= 0 for k in ks): r = (min if t.op == 'min' else max)(ks, key=lambda k: rank[k])
            elif t.op == 'ite':
                b = N.truth(t.a[0])
                if b is not None: r = which(N, t.a[1] if b else t.a[2])
            if r < 0:
              for i, q in enumerate(quants):
                if t is q or Norm().equal(t, q): r = i; break
            cache[t] = r
        return r
    def dec(N, cnd):
        if cnd.op not in ('<', '<=', '=='): return None
        a, b = cnd.a
        i, j = which(N, a), which(N, b)
        if i < 0 or j < 0:
            # x - y form
            if isnum(b) and b.a[0] == 0 and a.op == '-' : i, j = which(N, a.a[0]), which(N, a.a[1])
            elif isnum(a) and a.a[0] == 0 and b.op == '-': i, j = which(N, b.a[1]), which(N, b.a[0])
        if i < 0 or j < 0: return None
        return {'<': rank[i] < rank[j], '<=': rank[i] <= rank[j], '==': i == j}[cnd.op]
    return dec


def hlle_spec(Fl, Fr, Ul, Ur, ap, am):
    return [div(sub(sub(mul(a, ap), mul(b, am)), mul(sub(u, w), ap, am)), sub(ap, am)) for a, b, u, w in zip(Fl, Fr, Ul, Ur)]


def prop_riemann(c):
    import itertools
    c.rule('the value graph of riemann_hlle equals the HLL flux (Fl if 0<=am, Fr if ap<=0, otherwise (ap Fl - am Fr + ap am (Ur-Ul))/(ap-am)) with ap/am the extreme wave speeds of both states, as rational functions, sector by sector over the orderings of the wave speeds; riemann_hllc likewise equals the Rankine-Hugoniot star-state flux')
    for ns in ('iso2d', 'euler', 'srhd'):
        S = Phys(c, ns); Pl, Pr = S.prim('L'), S.prim('R'); n = S.nhat()
        if ns == 'iso2d':
            cl, cr = sym('cl2'), sym('cr2')
            f = S.fn('riemann_hlle', 5); args = [Pl, Pr, cl, cr, n]
            st8 = lambda P, c2: (leaves(S.call(S.fn('primitive_t::to_conserved_per_area', 0), [], P)), leaves(S.call(S.fn('primitive_t::flux', 2), [n, c2], P)), leaves(S.call(S.fn('primitive_t::wavespeeds', 2), [n, c2], P)))
            (Ul, Fl, Al), (Ur, Fr, Ar) = st8(Pl, cl), st8(Pr, cr)
        else:
            gm = sym('gm')
            f = S.fn('riemann_hlle', 4); args = [Pl, Pr, n, gm]
            ff = S.fn('primitive_t::flux', 2, lambda g: S.tu.strip_ref(g.d['params'][1]['t'])['k'] == 'float')
            st8 = lambda P: (leaves(S.call(S.fn('primitive_t::to_conserved_density', 1), [gm], P)), leaves(S.call(ff, [n, gm], P)), leaves(S.call(S.fn('primitive_t::wavespeeds', 2), [n, gm], P)))
            (Ul, Fl, Al), (Ur, Fr, Ar) = st8(Pl), st8(Pr)
        got = leaves(S.call(f, args))
        # abstract the scalar wave speeds: they are checked by the flux property
        q = [ZERO, Al[0], Al[1], Ar[0], Ar[1]]
        z = [sym('lm_'), sym('lp_'), sym('rm_'), sym('rp_')]
        ab = {}
        for a, b in zip(q[1:], z): ab[a] = b
        got2 = [subst(x, ab) for x in got]
        ap, am = mk('max', ZERO, mk('max', z[1], z[3])), mk('min', ZERO, mk('min', z[0], z[2]))
        want = hlle_spec(Fl, Fr, Ul, Ur, ap, am)
        full = not atoms(tuple(got2), lambda t: t.op == 'sqrt' and ns != 'srhd')
        if Norm_equal_all(got2, want):
            c.ob(ns + ':hlle', True, f.where(), sample='identity of rational functions with min/max atoms')
        else:
            bad = None
            qs = [ZERO] + z
            if not full: got2 = got
            use = qs if full else q
            for perm in itertools.permutations(range(5)):
                rk = {k: i for i, k in enumerate(perm)}
                if rk[1] > rk[2] or rk[3] > rk[4]: continue
                ap_, am_ = use[perm[-1]] if rk[0] != 4 else ZERO, use[perm[0]] if rk[0] != 0 else ZERO
                pm = max((0, 2, 4), key=lambda k: rk[k]); mm = min((0, 1, 3), key=lambda k: rk[k])
                w = hlle_spec(Fl, Fr, Ul, Ur, use[pm], use[mm])
                dec = order_decide(use, perm)
                if not all(Norm(dec).equal(a, b) for a, b in zip(got2, w)):
                    bad = [('0', 'left-', 'left+', 'right-', 'right+')[k] for k in perm]; break
            c.ob(ns + ':hlle', bad is None, f.where(), '%s::riemann_hlle is not the HLL flux when the wave speeds are ordered %s' % (ns, ' < '.join(bad or [])))
    hllc(c)
    c.minimum = 9


def Norm_equal_all(a, b):
    N = Norm()
    return len(a) == len(b) and all(N.equal(x, y) for x, y in zip(a, b))


def hllc(c):
    S = Phys(c, 'iso2d'); Pl, Pr = S.prim('L'), S.prim('R'); n = S.nhat()
    f = S.fn('riemann_hllc', 5)
    cl, cr = sym('cl2'), sym('cr2')
    got = leaves(S.call(f, [Pl, Pr, cl, cr, n]))
    nl = leaves(n)
    # reference wave pattern (Toro 10.61 - 10.70 for gamma = 1)
    sgl, vxl, vyl = leaves(Pl); sgr, vxr, vyr = leaves(Pr)
    ul, ur = add(mul(vxl, nl[0]), mul(vyl, nl[1])), add(mul(vxr, nl[0]), mul(vyr, nl[1]))
    al, ar = sqrt(cl), sqrt(cr); pl, pr = mul(sgl, cl), mul(sgr, cr)
    half = num(Q(1, 2))
    pp = sub(mul(half, add(pl, pr)), mul(half, sub(ur, ul), half, add(sgl, sgr), half, add(al, ar)))
    ps = mk('max', ZERO, pp)
    ql, qr = mk('max', ONE, sqrt(div(ps, pl))), mk('max', ONE, sqrt(div(ps, pr)))
    SL, SR = sub(ul, mul(al, ql)), add(ur, mul(ar, qr))
    SS = div(sub(add(sub(pr, pl), mul(ul, sgl, sub(SL, ul))), mul(ur, sgr, sub(SR, ur))), sub(mul(sgl, sub(SL, ul)), mul(sgr, sub(SR, ur))))
    cv = S.fn('compute_hllc_variables', 5)
    H = S.call(cv, [Pl, Pr, cl, cr, n])
    hd = dict(H.a[1]) if H.op == 'rec' else {}
    N = Norm()
    for nm, want in (('sl', SL), ('sr', SR), ('sstar', SS)):
        if nm in hd: c.ob('iso2d:hllc-' + nm, N.equal(hd[nm], want), cv.where(), 'the %s wave speed estimate is not the one of Toro (10.61)-(10.70) with gamma = 1' % nm)
    # solve with abstract wave speeds
    fl = S.fn('primitive_t::flux', 2); tu_ = S.fn('primitive_t::to_conserved_per_area', 0)
    Fl, Fr = leaves(S.call(fl, [n, cl], Pl)), leaves(S.call(fl, [n, cr], Pr))
    Ul, Ur = leaves(S.call(tu_, [], Pl)), leaves(S.call(tu_, [], Pr))
    def star(sg, u, vx, vy, s, ss):
        r = mul(sg, div(sub(s, u), sub(s, ss)))
        return [r, mul(r, add(mul(ss, nl[0]), sub(vx, mul(u, nl[0])))), mul(r, add(mul(ss, nl[1]), sub(vy, mul(u, nl[1]))))]
    a, b, s = sym('sl_'), sym('sr_'), sym('ss_')
    Usl, Usr = star(sgl, ul, vxl, vyl, a, s), star(sgr, ur, vxr, vyr, b, s)
    ref = {0: Fl, 1: [add(x, mul(a, sub(y, z))) for x, y, z in zip(Fl, Usl, Ul)], 2: [add(x, mul(b, sub(y, z))) for x, y, z in zip(Fr, Usr, Ur)], 3: Fr}
    uref = {0: Ul, 1: Usl, 2: Usr, 3: Ur}
    # replace the code's own wave-speed sub-terms by symbols
    SLc, SRc, SSc = hd.get('sl', SL), hd.get('sr', SR), hd.get('sstar', SS)
    ab = {SSc: s}
    ab2 = {SLc: a, SRc: b}
    got2 = [subst(subst(x, ab), ab2) for x in got]
    quants = [ZERO, a, s, b]
    names = {0: '0 < sl', 1: 'sl < 0 < s*', 2: 's* < 0 < sr', 3: 'sr < 0'}
    orders = {0: (0, 1, 2, 3), 1: (1, 0, 2, 3), 2: (1, 2, 0, 3), 3: (1, 2, 3, 0)}
    for k in range(4):
        dec = order_decide(quants, orders[k])
        ok = all(Norm(dec).equal(x, y) for x, y in zip(got2, ref[k]))
        if not ok:
            # the wave speeds may be recomputed instead of read from the struct
            q2 = [ZERO, SL, SS, SR]; m = {a: SL, b: SR, s: SS}
            try: ok = all(Norm(order_decide(q2, orders[k])).equal(x, subst(y, m)) for x, y in zip(got, ref[k]))
            except TooBig: ok = False
        c.ob('iso2d:hllc-sector-%d' % k, ok, f.where(), 'riemann_hllc is not F_K + s_K (U*_K - U_K) when ' + names[k])
    iu = S.fn('riemann_hllc_variables_t::interface_conserved_state', 0)
    I = S.call(iu, [], H)
    gi = [subst(subst(x, ab), ab2) for x in leaves(I)]
    for k in range(4):
        dec = order_decide(quants, orders[k])
        c.ob('iso2d:hllc-state-%d' % k, all(Norm(dec).equal(x, y) for x, y in zip(gi, uref[k])), iu.where(), 'interface_conserved_state is not the state of the sector ' + names[k])
    # consequences of the reference, shown once per run on the reference itself: mass flux = sigma* s*, contact pressures agree
    pm = planar(n)
    N = Norm()
    c.ob('iso2d:hllc-ref-mass', N.equal(ref[1][0], mul(Usl[0], s)), f.where(), 'reference star flux')
    Fn = lambda F: add(mul(F[1], nl[0]), mul(F[2], nl[1]))
    for side, F, U, sg, u, p, w in (('l', ref[1], Usl, sgl, ul, pl, a), ('r', ref[2], Usr, sgr, ur, pr, b)):
        pst = add(p, mul(sg, sub(w, u), sub(s, u)))
        c.ob('iso2d:hllc-ref-momentum-' + side, N.equal(subst(Fn(F), pm), subst(add(mul(U[0], s, s), pst), pm)), f.where(), 'reference star momentum flux')


# ====================================================================== eigensystem
def prop_eigen(c):
    c.rule('L R = 1, A R = R Lambda and A = dF/dU as matrices of rational functions of (rho, v, p, gamma), a = sqrt(gamma p / rho)')
    S = Phys(c, 'euler'); P = S.prim('P'); gm = sym('gm')
    def mat(name):
        f = S.fn('primitive_t::' + name, 1)
        l = leaves(S.call(f, [gm], P))
        if len(l) != 25: raise AnalysisBroken('%s is not a 5x5 matrix (%d entries)' % (name, len(l)))
        return [l[5 * i:5 * i + 5] for i in range(5)], f
    (A, fa), (Lm, fl), (R, fr), (E, fe) = mat('flux_jacobian'), mat('left_eigenvectors'), mat('right_eigenvectors'), mat('eigenvalues')
    N = Norm()
    mm = lambda X, Y: [[add(*[mul(X[i][k], Y[k][j]) for k in range(5)]) for j in range(5)] for i in range(5)]
    LR = mm(Lm, R)
    for i in range(5):
        for j in range(5):
            c.ob('LR[%d][%d]' % (i, j), N.equal(LR[i][j], ONE if i == j else ZERO), fl.where(), 'left_eigenvectors * right_eigenvectors is not the identity at [%d][%d]' % (i, j))
            if i != j: c.ob('E[%d][%d]' % (i, j), N.equal(E[i][j], ZERO), fe.where(), 'eigenvalues() is not diagonal')
    AR, RE = mm(A, R), mm(R, E)
    for i in range(5):
        for j in range(5): c.ob('AR=RE[%d][%d]' % (i, j), N.equal(AR[i][j], RE[i][j]), fr.where(), 'column %d of right_eigenvectors is not an eigenvector of flux_jacobian with the stated eigenvalue (row %d)' % (j, i))
    # eigenvalues are the wave speeds on axis 1
    d, p = S.get(P, 'mass_density'), S.get(P, 'gas_pressure'); u = S.get(P, 'velocity_1')
    a = sqrt(div(mul(gm, p), d))
    for i, w in enumerate((sub(u, a), u, u, u, add(u, a))): c.ob('lambda[%d]' % i, N.equal(E[i][i], w), fe.where(), 'eigenvalue %d must be u-a, u, u, u, u+a in order' % i)
    # flux jacobian: A dU = dF with dU, dF by differentiation through the primitives
    n = S.nhat(); e1 = dict(zip(leaves(n), (ONE, ZERO, ZERO)))
    f1 = S.fn('primitive_t::flux', 2, lambda f: S.tu.strip_ref(f.d['params'][1]['t'])['k'] == 'float')
    F = [subst(x, e1) for x in leaves(S.call(f1, [n, gm], P))]
    U = leaves(S.call(S.fn('primitive_t::to_conserved_density', 1), [gm], P))
    for k, x in enumerate(leaves(P)):
        dU = [deriv(t, x) for t in U]; dF = [deriv(t, x) for t in F]
        for i in range(5):
            c.ob('A dU/dP%d = dF/dP%d [%d]' % (k, k, i), N.equal(add(*[mul(A[i][j], dU[j]) for j in range(5)]), dF[i]), fa.where(), 'flux_jacobian row %d is not dF/dU (direction of primitive %d)' % (i, k))
    es = S.tu.find('mara::euler::primitive_t::eigensystem')
    if es:
        l = leaves(S.call(es[0], [gm], P))
        flat = [x for M in (E, R, Lm) for row in M for x in row]
        c.ob('eigensystem', Norm_equal_all(l, flat), es[0].where(), 'eigensystem() must return (eigenvalues, right, left)')
    # Roe averages
    for ns in ('euler', 'iso2d'):
        S = Phys(c, ns); Pl, Pr = S.prim('L'), S.prim('R')
        f = S.fn('roe_average', 2)
        g = leaves(S.call(f, [Pr, Pl]))
        kr, kl = sqrt(leaves(Pr)[0]), sqrt(leaves(Pl)[0])
        same(c, ns + ':roe', g, [div(add(mul(a, kr), mul(b, kl)), add(kr, kl)) for a, b in zip(leaves(Pr), leaves(Pl))], f.where(), 'roe_average must be the sqrt(density)-weighted mean')
    c.minimum = 100


def deriv(t, x):
    if t is x: return ONE
    if t.op in ('num', 'sym'): return ZERO
    if t.op == '+': return add(deriv(t.a[0], x), deriv(t.a[1], x))
    if t.op == '-': return sub(deriv(t.a[0], x), deriv(t.a[1], x))
    if t.op == 'neg': return neg(deriv(t.a[0], x))
    if t.op == '*': return add(mul(deriv(t.a[0], x), t.a[1]), mul(t.a[0], deriv(t.a[1], x)))
    if t.op == '/': return sub(div(deriv(t.a[0], x), t.a[1]), div(mul(t.a[0], deriv(t.a[1], x)), mul(t.a[1], t.a[1])))
    if t.op == 'sqrt': return div(deriv(t.a[0], x), mul(num(2), t))
    if t.op == 'pow' and isnum(t.a[1]): return mul(t.a[1], mk('pow', t.a[0], num(t.a[1].a[0] - 1)), deriv(t.a[0], x))
    if not atoms(t, lambda y: y is x): return ZERO
    raise AnalysisBroken('cannot differentiate ' + t.op)
