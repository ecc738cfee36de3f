"""Initial states, diagnostics and time series of the spherical problems."""
from program import AnalysisBroken
from terms import *
from physics import leaves, add, mul, sub, div, sqrt
from sched import Use, tasks
from ckpt import units
from vg import select, BOT
from scheme import uninterpreted, call_, half, neg_
from setup import Compare
from shells import f_, vec, cube, grid, GAMMA, K, minmod
import shells

PI = num(Q(repr(3.141592653589793)))


def prep(I):
    shells.prep(I); I.spaces = []; I.sought = []
    for ns in ('mara::euler', 'mara::srhd'):
        for n in ('to_conserved_density', 'specific_entropy', 'flux'): uninterpreted(I, '%s::primitive_t::%s' % (ns, n))
    def apex(I, e, obj, args):
        a = [x for y in args for x in leaves(I.rv(y))]
        return mk('rec', 'std::pair', (('first', vertex(*a)), ('second', call_('mara::parabola_vertex', 'second', a))))
    I.models['mara::parabola_vertex'] = apex; I.unroll = 80; I.maxdepth = 120
    for n in ('mara::cloud_and_envelop_model::density_at', 'mara::cloud_and_envelop_model::gamma_beta_at'): uninterpreted(I, n)
    def linspace(I, e, obj, args):
        v = [I.rv(a) for a in args]; I.spaces.append(v); m = I.models.pop('nd::linspace')
        try: return I.call(I.tu.funcs[e['f']], [args[0], args[1], I.alloc(num(4))])       # three zones stand for any number
        finally: I.models['nd::linspace'] = m
    I.models['nd::linspace'] = linspace


def located(shock, behind, ahead, lum=None):
    """the searches find these zones"""
    def p(I):
        prep(I)
        def rec(what, ret):
            def f(I, e, obj, args):
                I.sought.append((what, [I.rv(a) for a in args])); return ret(I)
            return f
        I.models['mara::find_shock_index'] = rec('shock', lambda I: I.call(I.tu.find('witness::at')[0], [I.alloc(num(shock))]))
        I.models['mara::find_index_of_maximum_pressure_behind'] = rec('behind', lambda I: num(behind))
        I.models['mara::find_index_of_pressure_plateau_ahead'] = rec('ahead', lambda I: num(ahead))
        I.models['mara::find_index_of_maximum_behind'] = rec('luminosity', lambda I: num(lum))
    return p


def run(c, u, name):
    try: v = u.run(name)
    except AnalysisBroken as e: c.undecided(name, '', str(e)[:300]); return None
    if v is BOT or u.ret is FALSE: c.ob(name, False, u.where, name + ': always throws'); return None
    if u.ret is not TRUE: c.undecided(name, u.where, 'it returns only when ' + show(u.ret)[:150]); return None
    return v


def table_of(v):
    """the entries of a map from names to numbers"""
    return {k.a[0]: leaves(dict(p.a[1])['second'])[0] for k, p in v.a[1]}


def contents(v, n, c, u, name):
    """the elements of an array of n (or n x m) zones"""
    v = select(v, ('f', 'provider'))
    if v.op != 'tabarr': raise AnalysisBroken('array of unknown contents: ' + show(v)[:100])
    if v.a[1] != n: c.ob(name + ':shape', False, u.where, '%s has shape %s, required %s' % (name, v.a[1], n)); return None
    return list(v.a[2:])


def trunc(t): return mk('trunc', t)


def sedov(u):
    c = u.c; eq = Compare(c, u); u.prep = prep
    for tag, ns in (('rel', 'mara::srhd'), ('newt', 'mara::euler')):
        for fn in ('start_', 'create_'):
            name = fn + tag; v = run(c, u, name)
            if v is None: continue
            o = lambda n: leaves(select(u.A[0], ('f', n)))[0]; R = o('outer'); dec = mk('log10', R)
            if not c.ob(name + ':grids', len(u.I.spaces) == 1, u.where, '%s: %d grids are made' % (name, len(u.I.spaces))): continue
            a, b, n = u.I.spaces[0]
            eq(name + ':inner', [a], [num(Q(-1, 2))]); eq(name + ':outer', [b], [dec]); eq(name + ':zones', [n], [add(trunc(mul(dec, o('nr'))), ONE)])
            r = [mk('pow', num(10), add(num(Q(-1, 2)), mul(num(Q(i, 3)), add(dec, num(Q(1, 2)))))) for i in range(4)]
            rs = contents(select(v, ('f', 'vertices')), (4,), c, u, name); us = contents(select(v, ('f', 'conserved')), (3,), c, u, name)
            if rs is None or us is None: continue
            eq(name + ':vertices', [x for y in rs for x in leaves(y)], r)
            eq(name + ':time', [leaves(select(v, ('f', 'time')))[0], leaves(select(v, ('f', 'iteration')))[0]], [ZERO, ZERO])
            got = [x for y in us for x in leaves(y)]; r = [leaves(x)[0] for x in rs]
            want = []
            for i in range(3):
                rc = half(add(r[i], r[i + 1])); dv = div(sub(cube(r[i + 1]), cube(r[i])), num(3)); hot = cmp_('<', rc, ONE); am = mk('pow', rc, neg_(o('index')))
                P = [ite(hot, o('density'), am), ZERO, ZERO, ZERO, ite(hot, o('pressure'), mul(am, num(Q('1e-6'))))]
                want += [mul(x, dv) for x in vec(ns + '::primitive_t::to_conserved_density', P, GAMMA)]
            states(c, u, eq, name + ':contents', got, want)
        n = 5; r = [f_('fr', i) for i in range(n + 1)]; rc = [half(add(r[i], r[i + 1])) for i in range(n)]
        P = [vec(ns + '::recover_primitive', [div(f_('fu', i, k), div(sub(cube(r[i + 1]), cube(r[i])), num(3))) for k in K], GAMMA, ZERO) for i in range(n)]
        for shock, behind, ahead in ((2, 1, 3), (3, 3, 4), (2, 0, 4), (3, 2, 0), (0, 0, 0)):
            u.prep = located(shock, behind, ahead)
            for fn in ('series_', 'fields_'):
                name = '%s%s [%d %d %d]' % (fn, tag, shock, behind, ahead)
                try: v = u.run(fn + tag)
                except AnalysisBroken as e:
                    if 'out of bounds access' in str(e): c.ob(name, False, 'src/subprog_sedov.cpp', '%s: with the shock in zone %d and the maximum behind it in zone %d, a zone beyond the grid is read (%s)' % (name, shock, behind, str(e)[:150]))
                    else: c.undecided(name, '', str(e)[:300])
                    continue
                if v is BOT: c.ob(name, False, u.where, name + ': always throws'); continue
                for what, a in u.I.sought:
                    ok = all(g is w for g, w in zip(zones(a[0]), [P[i] for i in range(n)])) if zones(a[0]) else None
                    if ok is False: eq('%s:%s' % (name, what), [x for y in zones(a[0]) for x in y], [x for y in P for x in y])
                    eq('%s:%s:from' % (name, what), [leaves(a[1])[0]], [GAMMA if what == 'shock' else num(shock)])
                if fn == 'fields_':
                    for fld, spec in (('mass_density', lambda i: P[i][0]), ('gas_pressure', lambda i: P[i][4]), ('radial_gamma_beta', lambda i: P[i][1]), ('radial_coordinates', lambda i: rc[i]), ('specific_entropy', lambda i: call_(ns + '::primitive_t::specific_entropy', 'r', P[i] + [GAMMA]))):
                        x = contents(select(v, ('f', fld)), (n,), c, u, name + ':' + fld)
                        if x is not None: eq('%s:%s' % (name, fld), [leaves(y)[0] for y in x], [spec(i) for i in range(n)])
                    d = table_of(select(v, ('f', 'time_series_data')))
                else: d = table_of(v)
                lor = lambda p: sqrt(add(ONE, mul(p[1], p[1]), mul(p[2], p[2]), mul(p[3], p[3])))
                A, B = P[ahead], P[behind]
                w = [lor(x) if tag == 'rel' else ONE for x in (A, B)]
                if behind: apex = vertex(*[rc[behind + k] for k in (-1, 0, 1)], *[P[behind + k][1] for k in (-1, 0, 1)])
                want = {'time': u.A[0], 'shock_radius': r[shock], 'shock_radius_upstream': rc[ahead], 'shock_radius_downstream': rc[behind], 'shock_radius_interpolated': apex if behind else rc[behind]}
                if not c.ob(name + ':columns', set(d) == set(want) | {'shock_velocity'}, u.where, '%s: the columns are %s' % (name, sorted(d))): continue
                for k, x in want.items(): eq('%s:%s' % (name, k), [d[k]], [x])
                if ahead != behind: eq(name + ':shock_velocity', [d['shock_velocity']], [div(sub(mul(B[0], B[1]), mul(A[0], A[1])), sub(mul(B[0], w[1]), mul(A[0], w[0])))])
        v = run(c, u, 'plan_' + tag)
        if v is not None:
            t = leaves(tasks(v)); want = [x for n_ in ('write_checkpoint', 'write_diagnostics', 'write_time_series') for x in (st(n_), st(n_), ZERO, ZERO, TRUE)]
            c.ob('plan_' + tag, t == want, u.where, 'plan_%s: a new run must begin with each of its tasks due, never performed: %s' % (tag, show(mk('tup', *t))[:200]))
    v = run(c, u, 'columns')
    if v is not None: c.ob('columns', sorted(x.a[0] for x in leaves(v)) == sorted(['time', 'shock_radius', 'shock_radius_upstream', 'shock_radius_downstream', 'shock_radius_interpolated', 'shock_velocity']), u.where, 'the columns prepared in the file are not those written: ' + show(v)[:200])


LIGHT, SUN = num(Q('2.998e10')), num(Q('1.989e33'))
ATM = 'mara::power_law_atmosphere_model::'


def cloud(u):
    c = u.c; eq = Compare(c, u); u.prep = prep
    o = lambda n: leaves(select(u.A[0], ('f', n)))[0]
    def mass_of(*terms):
        """the mass of the atmosphere that the options describe"""
        m = {x for x in atoms(tuple(terms), lambda y: y.op == 'call' and y.a[0] == ATM + 'total_mass')}
        inner = {z for y in m for z in atoms(tuple(y.a[2:]), lambda y: y.op == 'call' and y.a[0] == ATM + 'total_mass')}
        m -= inner
        if len(m) != 1 or len(inner) != 1: return None
        m = m.pop(); w = [o('inner'), o('cutoff'), o('index'), o('index2')]
        eq(u.where + ': atmosphere', list(m.a[2:]), [div(mul(o('mass'), SUN), call_(ATM + 'total_mass', 'r', [ONE] + w))] + w)
        return m
    def units_(M):
        L = o('inner'); E = mul(M, LIGHT, LIGHT); V = mul(L, L, L); t = div(L, LIGHT)
        return dict(length=L, mass=M, time=t, velocity=LIGHT, energy=E, mass_density=div(M, V), energy_density=div(E, V), power=div(E, t))
    # the models are made of the options
    v = run(c, u, 'nozzle')
    if v is not None: eq('nozzle', fields_of(v, 'Ej', 'G0', 'tj', 'qj', 'as', 'r0'), [o('energy'), o('gamma'), o('duration'), o('angle'), o('exponent'), o('inner')])
    v = run(c, u, 'envelop')
    if v is not None: eq('envelop', fields_of(v, 'inner_radius', 'cloud_index'), [o('inner'), o('index')])
    v = run(c, u, 'medium')
    if v is not None: eq('medium', fields_of(v, 'r0', 'rc', 'n1', 'n2'), [o('inner'), o('cutoff'), o('index'), o('index2')])
    v = run(c, u, 'reference')
    if v is not None:
        M = mass_of(v)
        if M is None: c.undecided('reference', u.where, 'the unit of mass is not the mass of the atmosphere')
        else:
            S = units_(M)
            for n in S: eq('unit of ' + n, fields_of(v, n), [S[n]])
    for name in ('start', 'create'):
        v = run(c, u, name)
        if v is None: continue
        if not c.ob(name + ':grids', len(u.I.spaces) == 2, u.where, '%s: %d grids are made' % (name, len(u.I.spaces))): continue
        (a, b, n), (qa, qb, m) = u.I.spaces if u.I.spaces[1][1] is PI or u.I.spaces[0][1] is not PI else u.I.spaces[::-1]
        D = o('decades')
        eq(name + ':radii', [a, b, n], [ZERO, D, add(trunc(mul(D, o('nr'))), ONE)]); eq(name + ':angles', [qa, qb, m], [ZERO, PI, add(o('nr'), ONE)])
        r = [mk('pow', num(10), mul(num(Q(i, 3)), D)) for i in range(4)]; q = [mul(num(Q(i, 3)), PI) for i in range(4)]
        rs = contents(select(v, ('f', 'radial_vertices')), (4,), c, u, name); qs = contents(select(v, ('f', 'polar_vertices')), (4,), c, u, name); us = contents(select(v, ('f', 'conserved')), (3, 3), c, u, name)
        if rs is None or us is None or qs is None: continue
        eq(name + ':radial vertices', [leaves(x)[0] for x in rs], r); eq(name + ':polar vertices', [leaves(x)[0] for x in qs], q)
        eq(name + ':time', [leaves(select(v, ('f', 'time')))[0], leaves(select(v, ('f', 'iteration')))[0]], [ZERO, ZERO])
        r = [leaves(x)[0] for x in rs]; q = [leaves(x)[0] for x in qs]
        got = [x for y in us for x in leaves(y)]; M = mass_of(*got)
        if M is None: c.undecided(name, u.where, 'the unit of mass is not the mass of the atmosphere'); continue
        S = units_(M); model = atoms(tuple(got), lambda y: y.op == 'call' and y.a[0].startswith('mara::cloud_and_envelop_model::'))
        pre = {x.a[2:-2] for x in model}
        if len(pre) != 1: c.undecided(name, u.where, 'the medium is not described by one cloud model'); continue
        pre = list(next(iter(pre))); want = []
        for i in range(3):
            for k in range(3):
                rc = half(add(r[i], r[i + 1])); cm = mul(rc, S['length'])
                at_ = lambda f: call_('mara::cloud_and_envelop_model::' + f, 'r', pre + [cm, o('delay')])
                d = div(at_('density_at'), S['mass_density']); dv = mul(num(2), PI, div(sub(cube(r[i + 1]), cube(r[i])), num(3)), sub(mk('cos', q[k]), mk('cos', q[k + 1])))
                want += [mul(x, dv) for x in vec('mara::srhd::primitive_t::to_conserved_density', [d, at_('gamma_beta_at'), ZERO, ZERO, mul(d, num(Q('1e-6')))], GAMMA)]
        states(c, u, eq, name + ':contents', got, want)
    v = run(c, u, 'plan')
    if v is not None:
        t = leaves(tasks(v)); want = [x for n_ in ('write_checkpoint', 'write_diagnostics', 'write_time_series') for x in (st(n_), st(n_), ZERO, ZERO, TRUE)]
        c.ob('plan', t == want, u.where, 'a new run must begin with each of its tasks due, never performed: %s' % show(mk('tup', *t))[:200])
    for fn, n, m, shock, behind, ahead, lum in (('fields', 4, 2, 2, 1, 3, 0), ('fields', 4, 2, 3, 3, 0, 2), ('long_fields', 68, 1, 66, 65, 67, 60), ('long_fields', 68, 1, 17, 10, 20, 8)):
        name = '%s [%d %d %d %d]' % (fn, shock, behind, ahead, lum); u.prep = located(shock, behind, ahead, lum)
        v = run(c, u, fn)
        if v is None: continue
        t = u.A[1]; M = mass_of(v)
        if M is None: c.undecided(name, u.where, 'the unit of mass is not the mass of the atmosphere'); continue
        S = units_(M); r = [f_('fr', i) for i in range(n + 1)]; q = [f_('fq', i) for i in range(m + 1)]; rc = [half(add(r[i], r[i + 1])) for i in range(n)]
        dm = [sub(mk('cos', q[k]), mk('cos', q[k + 1])) for k in range(m)]
        Ar = [[mul(num(2), PI, r[i], r[i], dm[k]) for k in range(m)] for i in range(n + 1)]; dv = [[mul(num(2), PI, div(sub(cube(r[i + 1]), cube(r[i])), num(3)), dm[k]) for k in range(m)] for i in range(n)]
        U = lambda i, k, x: f_('fu', i, k, x)
        P = [[vec('mara::srhd::recover_primitive', [div(U(i, k, x), dv[i][k]) for x in K], GAMMA, o('floor')) for k in range(m)] for i in range(n)]
        fl = lambda i, k: call_('mara::srhd::primitive_t::flux', 'r[4]', P[i][k] + [ONE, ZERO, ZERO, GAMMA])
        Lu = [[mul(fl(i, k), half(add(Ar[i][k], Ar[i + 1][k])), S['power']) for k in range(m)] for i in range(n)]
        def two(f, spec):
            x = contents(select(v, ('f', f)), (n, m), c, u, name + ':' + f)
            if x is not None: recovered(eq, '%s:%s' % (name, f), [leaves(y)[0] for y in x], [spec(i, k) for i in range(n) for k in range(m)])
        def one(f, spec, size=m):
            x = contents(select(v, ('f', f)), (size,), c, u, name + ':' + f)
            if x is not None: eq('%s:%s' % (name, f), [leaves(y)[0] for y in x], [spec(k) for k in range(size)])
        if n < 10:
            two('mass_density', lambda i, k: mul(P[i][k][0], S['mass_density'])); two('gas_pressure', lambda i, k: mul(P[i][k][4], S['energy_density']))
            two('specific_entropy', lambda i, k: call_('mara::srhd::primitive_t::specific_entropy', 'r', P[i][k] + [GAMMA])); two('radial_gamma_beta', lambda i, k: P[i][k][1])
            two('radial_energy_flow', lambda i, k: mul(fl(i, k), Ar[i][k], S['power']))
            one('radial_vertices', lambda i: mul(r[i], S['length']), n + 1); one('polar_vertices', lambda k: q[k], m + 1)
            one('total_energy_at_theta', lambda k: add(*[mul(U(i, k, 4), S['energy']) for i in range(n)]))
            eq(name + ':time', [leaves(select(v, ('f', 'time')))[0]], [mul(t, S['time'])])
        one('solid_angle_at_theta', lambda k: mul(num(2), PI, dm[k]))
        for f, i in (('shock_midpoint_radius', shock), ('shock_upstream_radius', ahead), ('shock_pressure_radius', behind), ('shock_luminosity_radius', lum)): one(f, lambda k, i=i: mul(rc[i], S['length']))
        one('postshock_flow_gamma', lambda k: sqrt(add(ONE, *[mul(P[behind][k][x], P[behind][k][x]) for x in (1, 2, 3)])))
        one('postshock_flow_power', lambda k: Lu[behind][k]); one('postshock_flow_power_max', lambda k: Lu[lum][k])
        for d in (2, 4, 8, 16, 32, 64): one('postshock_flow_power%02d' % d, lambda k, d=d: Lu[max(shock - d, 0)][k])
        ray = -1
        for what, a in u.I.sought:
            if what == 'shock': ray += 1
            eq('%s:%s:from %d' % (name, what, ray), [leaves(a[1])[0]], [GAMMA if what == 'shock' else num(shock)])
            z = zones(a[0])
            if z and what != 'luminosity' and n < 10 and ray < m: eq('%s:%s:ray %d' % (name, what, ray), [x for y in z for x in y], [x for i in range(n) for x in P[i][ray]])
        c.ob(name + ':rays', ray == m - 1, u.where, '%s: the shock is sought on %d of %d rays' % (name, ray + 1, m))


def fields_of(v, *names):
    out = []
    for n in names:
        x = leaves(select(v, ('f', n)))
        if len(x) != 1: raise AnalysisBroken('field %s of unknown form' % n)
        out += x
    return out


def zones(a):
    """the states in an array, or None"""
    a = select(a, ('f', 'provider'))
    return [leaves(x) for x in a.a[2:]] if a.op == 'tabarr' else None


def recovered(eq, name, got, want):
    """first the recovered primitives, then what is made of them"""
    R = lambda t: sorted(atoms((t,), lambda y: y.op == 'call' and y.a[0].endswith('recover_primitive')), key=lambda y: y.n)
    m = {}; g = [R(t) for t in got]; w = [R(t) for t in want]
    if [len({y.a[2:] for y in x}) for x in g] != [1] * len(g) or len(g) != len(w): return eq(name, got, want)
    if not eq(name + ':recovered', [y for x in g for y in x[0].a[2:]], [y for x in w for y in x[0].a[2:]]): return
    for k, (a, b) in enumerate(zip(g, w)):
        for x in a + b: m[x] = sym('p%d%s' % (k, x.a[1]))
    eq(name, [subst(x, m) for x in got], [subst(x, m) for x in want])


def vertex(*a): return call_('mara::parabola_vertex', 'first', list(a))


def states(c, u, eq, name, got, want):
    """conserved states: the arguments of the conversion are compared one by one, then the products"""
    conv = lambda ts: sorted({x for x in atoms(tuple(ts), lambda y: y.op == 'call' and y.a[0].endswith('to_conserved_density'))}, key=lambda y: y.n)
    g = [next(iter(conv([x])), None) for x in got]; w = [next(iter(conv([x])), None) for x in want]
    if len(got) != len(want) or None in g: return c.undecided(name, u.where, 'contents of unknown form')
    one = sym('#conv')
    eq(name + ':arguments', [y for x in g for y in x.a[2:]], [y for x in w for y in x.a[2:]])
    c.ob(name + ':components', [x.a[:2] for x in g] == [x.a[:2] for x in w], u.where, '%s: the components of the conserved state are exchanged' % name)
    eq(name + ':volumes', [subst(x, {y: one}) for x, y in zip(got, g)], [subst(x, {y: one}) for x, y in zip(want, w)])


def prop_starts(c):
    c.rule('the value graphs of the initial state, the diagnostic fields and the time series of the spherical problems, for arbitrary options and contents, equal the documented profiles and the definitions of the fields')
    c.assumptions.append('grids of 3 to 5 zones stand for all sizes; the searches may find any zones (five combinations); conversions, equation of state and cloud model are unknown functions here (C21, C22, C35)')
    units(c, 'start_sedov.cpp', sedov)
    units(c, 'start_cloud.cpp', cloud)
    c.minimum = 30
