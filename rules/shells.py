"""One step of the spherical solvers (blast wave, jet in a cloud) on small grids of arbitrary zones and contents."""
from program import AnalysisBroken
from terms import *
from physics import leaves, add, mul, sub, div
from sched import Use
from ckpt import units
from vg import LV, select
from scheme import uninterpreted, call_, separated, half, neg_, PI
import store, table


def prep(I):
    store.prep(I); table.prep(I)
    I.exact_try = True; I.deref_ite = True; I.reclimit = 8; I.budget = 40000000
    for ns in ('mara::euler', 'mara::srhd'):
        for n in ('riemann_hlle', 'recover_primitive', 'primitive_t::spherical_geometry_source_terms', 'primitive_t::spherical_geometry_source_terms_radial'): uninterpreted(I, ns + '::' + n)
    I.models['mara::rational_number_t::reduce'] = lambda I, e, obj, args: ZERO
    def spawn(I, e, t, args):
        if not args: return mk('rec', 'std::thread', (('running', ZERO),))
        v = I.rv(args[0])
        if v.op == 'rec' and v.a[0] == 'std::thread': return v
        I.apply_any(v, list(args[1:]), e)
        return mk('rec', 'std::thread', (('running', ONE),))
    I.cmodels['std::thread'] = spawn
    def assign(I, e, obj, args): I.store(I.lv(obj), I.rv(args[0])); return obj
    I.models['std::thread::operator='] = assign
    I.models['std::thread::join'] = lambda I, e, obj, args: VOID
    for n in ('mara::jet_nozzle_model::gamma_beta', 'mara::jet_nozzle_model::density_at_base', 'mara::power_law_atmosphere_model::total_mass'): uninterpreted(I, n)


K = range(5)
GAMMA = num(Q(4, 3))
def f_(n, *ix): return call_('witness::' + n, '', [num(i) if isinstance(i, int) else i for i in ix])
def vec(name, *args):
    a = [x for y in args for x in (y if isinstance(y, list) else [y])]
    return [call_(name, 'r[%d]' % k, a) for k in K]
def lin_(f, *vs): return [f(*x) for x in zip(*vs)]
def cube(x): return mul(x, x, x)


class Comparison:
    def __init__(self, u, tag): self.u = u; self.c = u.c; self.tag = tag; self.F = FastNorm(); self.F.positive = frozenset()

    def eq(self, name, got, want):
        n = self.tag + ':' + name
        got, want = (x if isinstance(x, list) else leaves(x) for x in (got, want))
        if len(got) != len(want): return self.c.ob(n, False, self.u.where, '%s: the result has %d components, required %d' % (name, len(got), len(want)))
        for k, (g, w) in enumerate(zip(got, want)):
            if g is w: continue
            try: d = self.F.nf(mk('-', g, w))[0]
            except TooBig: return self.c.undecided(n, self.u.where, 'the terms are too large to compare')
            if not d: continue
            if separated(g, w) is None: return self.c.undecided(n, self.u.where, 'the normal forms differ, but no interpretation separates the terms')
            ex = [' * '.join([str(c)] + ['%s%s' % (show(a)[:90], '^%d' % e if e > 1 else '') for a, e in m]) for m, c in list(d.items())[:3]]
            return self.c.ob(n, False, self.u.where, '%s (component %d): the code exceeds the definition by %d terms: %s' % (name, k, len(d), ' + '.join(ex)[:400]))
        return self.c.ob(n, True, self.u.where, '')


def grid(v, *fields):
    for f in fields: v = select(v, ('f', f))
    v = select(v, ('f', 'provider'))
    if v.op != 'tabarr': raise AnalysisBroken('array of unknown contents: ' + show(v)[:100])
    return v.a[1], v.a[2:]


def iteration(v): return leaves(select(v, ('f', 'iteration')))


def prop_blast(u):
    u.prep = prep; c = u.c; n = 4
    for name, ns in (('step_rel', 'mara::srhd'), ('step_newt', 'mara::euler')):
        try: v = u.run(name); sh, new = grid(v, 'conserved'); rs, rnew = grid(v, 'vertices')
        except AnalysisBroken as e: c.undecided(name, '', str(e)[:300]); continue
        E = Comparison(u, name); t, it = u.A; a, b = leaves(it)
        if not c.ob(name + ':shape', sh == (n,) and rs == (n + 1,), u.where, '%s: the grid changes shape (%s, %s)' % (name, sh, rs)): continue
        r = [f_('fr', i) for i in range(n + 1)]; U = [[f_('fu', i, k) for k in K] for i in range(n)]
        dv = [div(sub(cube(r[i + 1]), cube(r[i])), num(3)) for i in range(n)]
        P = [vec(ns + '::recover_primitive', [div(x, dv[i]) for x in U[i]], GAMMA, ZERO) for i in range(n)]
        inner = list(P[0]); inner[1] = neg_(inner[1])
        X = [inner] + P + [P[-1]]
        F = [[mul(x, r[i], r[i]) for x in vec(ns + '::riemann_hlle', X[i], X[i + 1], ONE, ZERO, ZERO, GAMMA)] for i in range(n + 1)]
        S = [[mul(x, dv[i]) for x in vec(ns + '::primitive_t::spherical_geometry_source_terms_radial', P[i], half(add(r[i], r[i + 1])), GAMMA)] for i in range(n)]
        dt = mul(num(Q(2, 5)), sub(r[1], r[0]))
        E.eq('time', select(v, ('f', 'time')), [add(t, dt)]); i2 = iteration(v)
        E.eq('iteration', [mul(i2[0], b)], [mul(i2[1], add(a, b))])
        for i in range(n + 1): E.eq('vertex %d' % i, rnew[i], [r[i]])
        for i in range(n):
            E.eq('shell %d' % i, new[i], lin_(lambda u0, fl, fr, s: add(u0, mul(dt, add(sub(fl, fr), s))), U[i], F[i], F[i + 1], S[i]))


def minmod(theta, l, m, r):
    sg = lambda x: mk('copysign', ONE, x); ab = lambda x: mk('abs', x); mn = lambda x, y: mk('min', x, y)
    a, b, c = mul(theta, sub(m, l)), mul(num(Q(1, 2)), sub(r, l)), mul(theta, sub(r, m))
    return mul(num(Q(1, 4)), ab(add(sg(a), sg(b))), add(sg(a), sg(c)), mn(mn(ab(a), ab(b)), ab(c)))


def prop_jet(u):
    u.prep = prep; c = u.c; n = 3
    for name in ('step_pcm', 'step_plm'):
        try: v = u.run(name); sh, new = grid(v, 'conserved'); rs, rn = grid(v, 'radial_vertices'); qs, qn = grid(v, 'polar_vertices')
        except AnalysisBroken as e: c.undecided(name, '', str(e)[:300]); continue
        E = Comparison(u, name); t, it, floor, dt, theta, jet = u.A; a, b = leaves(it)
        if not c.ob(name + ':shape', sh == (n, n) and rs == (n + 1,) and qs == (n + 1,), u.where, '%s: the grid changes shape' % name): continue
        j = {x: leaves(select(jet, ('f', x)))[0] for x in ('r0', 'energy', 'duration', 'exponent', 'angle', 'gamma', 't0')}
        r = [f_('fr', i) for i in range(n + 1)]; q = [f_('fq', i) for i in range(n + 1)]
        rc = [half(add(r[i], r[i + 1])) for i in range(n)]; qc = [half(add(q[i], q[i + 1])) for i in range(n)]
        cos = lambda x: mk('cos', x); sin = lambda x: mk('sin', x)
        dm = [sub(cos(q[k]), cos(q[k + 1])) for k in range(n)]
        dv = [[mul(num(2), PI, div(sub(cube(r[i + 1]), cube(r[i])), num(3)), dm[k]) for k in range(n)] for i in range(n)]
        Ar = [[mul(num(2), PI, r[i], r[i], dm[k]) for k in range(n)] for i in range(n + 1)]
        Aq = [[mul(num(2), PI, rc[i], sub(r[i + 1], r[i]), sin(q[k])) for k in range(n + 1)] for i in range(n)]
        U = [[[f_('fu', i, k, m) for m in K] for k in range(n)] for i in range(n)]
        s = 'mara::srhd::'
        P = [[vec(s + 'recover_primitive', [div(x, dv[i][k]) for x in U[i][k]], GAMMA, floor) for k in range(n)] for i in range(n)]
        # the inflow through the inner boundary
        model = [j['energy'], j['gamma'], j['duration'], j['angle'], j['exponent'], j['r0']]
        mass = [x for x in atoms(tuple(new), lambda y: y.op == 'call' and y.a[0] == 'mara::power_law_atmosphere_model::total_mass')]
        if not mass: c.undecided(name, u.where, 'the unit of mass is not the mass of the atmosphere: ' + ', '.join(show(x)[:100] for x in mass)); continue
        light = num(Q('2.998e10'))
        sec = div(mul(j['t0'], j['r0']), light)
        gb = lambda x: call_('mara::jet_nozzle_model::gamma_beta', 'r', model + [x, sec])
        d = div(call_('mara::jet_nozzle_model::density_at_base', 'r', model), div(mass[0], cube(j['r0'])))
        ghost = [[d, add(gb(qc[k]), gb(sub(PI, qc[k]))), ZERO, ZERO, ZERO] for k in range(n)]
        def faces(row, axis):
            """fluxes between neighbours of a row of primitive states"""
            m = len(row); Z = [ZERO] * 5
            G = [Z] + [[minmod(theta, *x) for x in zip(row[i - 1], row[i], row[i + 1])] for i in range(1, m - 1)] + [Z] if name == 'step_plm' else [Z] * m
            return [vec(s + 'riemann_hlle', lin_(lambda p, g: add(p, half(g)), row[i], G[i]), lin_(lambda p, g: sub(p, half(g)), row[i + 1], G[i + 1]), *([ONE, ZERO] if axis == 0 else [ZERO, ONE]), ZERO, GAMMA) for i in range(m - 1)]
        Fr = [faces([ghost[k]] + [P[i][k] for i in range(n)] + [P[n - 1][k]], 0) for k in range(n)]
        Fq = [[[ZERO] * 5] + faces(P[i], 1) + [[ZERO] * 5] for i in range(n)]
        E.eq('time', select(v, ('f', 'time')), [add(t, dt)]); i2 = iteration(v)
        E.eq('iteration', [mul(i2[0], b)], [mul(i2[1], add(a, b))])
        for i in range(n + 1): E.eq('radius %d' % i, rn[i], [r[i]]); E.eq('angle %d' % i, qn[i], [q[i]])
        for i in range(n):
            for k in range(n):
                S = vec(s + 'primitive_t::spherical_geometry_source_terms', P[i][k], rc[i], qc[k], GAMMA)
                E.eq('zone [%d][%d]' % (i, k), new[i * n + k], [add(U[i][k][m], mul(dt, add(sub(mul(Fr[k][i][m], Ar[i][k]), mul(Fr[k][i + 1][m], Ar[i + 1][k])), sub(mul(Fq[i][k][m], Aq[i][k]), mul(Fq[i][k + 1][m], Aq[i][k + 1])), mul(S[m], dv[i][k])))) for m in K])
    u.throws('step_bad', what='an unknown reconstruction method must be refused')



def prep_whole(I):
    prep(I)
    I.models['CloudProblem::advance'] = lambda I, e, obj, args: mk('call', 'advance', '', *[x for a in args for x in leaves(I.rv(a))])
    I.models['CloudProblem::solution_t::operator+'] = lambda I, e, obj, args: mk('call', 'plus', '', *leaves(I.rv(obj)), *leaves(I.rv(args[0])))
    def times(I, e, obj, args):
        r = leaves(I.rv(args[0])); return mk('call', 'times', '', *leaves(I.rv(obj)), div(r[0], r[1]))
    I.models['CloudProblem::solution_t::operator*'] = times


def whole(u):
    """the Runge-Kutta schemes: the single step and the combination of solutions are left arbitrary"""
    u.prep = prep_whole; c = u.c
    for n in ('next1', 'next2'):
        try: v = u.run(n)
        except AnalysisBroken as e: c.undecided(n, '', str(e)[:300]); continue
        if u.ret is FALSE: c.ob(n, False, u.where, n + ': the step always throws'); continue
        x = v                                     # the innermost step starts from the given state
        calls = atoms((v,), lambda y: y.op == 'call' and y.a[0] == 'advance')
        if not calls: c.ob(n, False, u.where, n + ': no step is taken'); continue
        first = min(calls, key=lambda y: y.n); E = Comparison(u, n); app, s0 = parts(first)
        if app is None: c.undecided(n, u.where, 'step from a state of unknown form'); continue
        t, it, cfl = u.A; dt = mul(cfl, sub(f_('fr', 1), f_('fr', 0)))
        E.eq('start', [x for x in s0 if x.op != 'tabarr'], [t] + leaves(it))
        c.ob(n + ':start from', all(x in app for x in s0), u.where, n + ': the step does not start from the current solution')
        step = lambda s: mk('call', 'advance', '', *app, *s, dt); h = num(Q(1, 2)); tm = lambda s: mk('call', 'times', '', *s, h)
        E.eq('scheme', [v], [step(s0) if n == 'next1' else mk('call', 'plus', '', tm(s0), tm([step([step(s0)])]))])
    u.throws('next3', what='an order without a scheme must be refused')


def parts(call):
    """(application state, solution) of a step from the first solution"""
    a = list(call.a[2:-1])
    for k in range(1, len(a)):
        if a[k:] == a[:len(a) - k]: return a[:k], a[k:]
    return None, None


def comb(u):
    u.prep = prep; c = u.c; n = 3
    for name in ('sum', 'times'):
        try: v = u.run(name); sh, new = grid(v, 'conserved'); rs, rn = grid(v, 'radial_vertices'); qs, qn = grid(v, 'polar_vertices')
        except AnalysisBroken as e: c.undecided(name, '', str(e)[:300]); continue
        E = Comparison(u, name); A = [leaves(x) for x in u.A]
        if not c.ob(name + ':shape', sh == (n, n) and rs == (n + 1,) and qs == (n + 1,), u.where, '%s: the grid changes shape' % name): continue
        it = iteration(v)
        if name == 'sum': op = add; t = add(A[0][0], A[2][0]); num_, den = add(mul(A[1][0], A[3][1]), mul(A[3][0], A[1][1])), mul(A[1][1], A[3][1])
        else: s = div(A[2][0], A[3][0]); op = lambda x, y: mul(x, s); t = mul(A[0][0], s); num_, den = mul(A[1][0], A[2][0]), mul(A[1][1], A[3][0])
        E.eq('time', select(v, ('f', 'time')), [t]); E.eq('iteration', [mul(it[0], den)], [mul(it[1], num_)])
        for i in range(n + 1): E.eq('radius %d' % i, rn[i], [f_('fr', i)]); E.eq('angle %d' % i, qn[i], [f_('fq', i)])
        for i in range(n):
            for k in range(n): E.eq('zone [%d][%d]' % (i, k), new[i * n + k], [op(f_('fu', i, k, m), f_('fv', i, k, m)) for m in K])


def prep_next(I):
    prep_whole(I)
    for n in ('SedovProblem::next_solution', 'CloudProblem::next_solution'): uninterpreted(I, n)


def loop(u, *pre):
    """marking of due tasks, their fate in a whole step, and when the loop ends"""
    from sched import tasks
    u.prep = prep_next
    def due(now, tc, td, ts, cpi, dfi, tsi, dc, dd, ds):
        r = []
        for n, k, t, p, d in (('write_checkpoint', 1, tc, cpi, dc), ('write_diagnostics', 2, td, dfi, dd), ('write_time_series', 3, ts, tsi, ds)):
            late = cmp_('>=', sub(now, t), p); r += [st(n), st(n), num(k), ite(late, add(t, p), t), ite(late, TRUE, d)]
        return r
    for p in pre:
        u.val(p + '_marked', due, post=tasks); u.val(p + '_kept', due, post=tasks)
        u.val(p + '_same', lambda t, x: [x]); u.val(p + '_goes_on', lambda t, x: [cmp_('<', t, x)])


def prop_spherical(c):
    c.rule('the value graph of one time step of the spherical blast wave solver (relativistic and Newtonian) and of the jet-in-cloud solver (both reconstructions), on grids with arbitrary vertices and contents and with the Riemann solver, primitive recovery, source terms and jet model left arbitrary, equals the finite-volume definition with its boundary conditions; combining and integrating solutions likewise')
    c.assumptions.append('grids of 4 shells and of 3 x 3 zones stand for all sizes (every kind of zone - boundary, next to boundary, interior - occurs); the models of std::thread, std::bind and the containers; evaluation of arrays is the identity on elements (C11)')
    units(c, 'scheme_sedov.cpp', lambda u: (prop_blast(u), loop(u, 'rel', 'newt')))
    units(c, 'scheme_cloud.cpp', lambda u: (prop_jet(u), comb(u), whole(u), loop(u, 'jet')))
    c.minimum = 12
