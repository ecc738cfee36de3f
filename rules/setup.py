"""What a run makes of its options: solver parameters, initial state and step size are the documented functions of the configuration."""
from program import AnalysisBroken
from terms import *
from physics import leaves, add, mul, sub, div, sqrt
from sched import Use, tasks
from vg import select, BOT
from ckpt import units
from separate import separated
import scheme
from scheme import LEAVES, N, call_, neg_, half

PI = num(Q(repr(3.141592653589793)))


def fold(t):
    """a choice of the lesser (greater) of two values written as a minimum (maximum), and shifted or scaled choices left alone"""
    memo = {}
    def go(x):
        if not isinstance(x, T): return tuple(go(y) for y in x) if isinstance(x, tuple) else x
        if x in memo: return memo[x]
        a = tuple(go(y) for y in x.a); r = rebuild(x.op, a) if a != x.a else x
        if r.op == 'ite' and r.a[0].op in ('<', '<=') and len(r.a[0].a) == 2:
            p, q = r.a[0].a
            if (r.a[1] is p and r.a[2] is q): r = mk('min', p, q)
            elif (r.a[1] is q and r.a[2] is p): r = mk('max', p, q)
        if r.op in ('min', 'max'):
            parts = []
            for y in r.a: parts += list(y.a) if isinstance(y, T) and y.op == r.op else [y]
            parts = sorted(set(parts), key=lambda y: y.n)
            r = parts[0] if len(parts) == 1 else mk(r.op, *parts)
        memo[x] = r
        return r
    return go(t)


def cases(g, w):
    """equal in rational normal form for every outcome of the comparisons in both terms"""
    try:
        if Norm().equal(g, w): return True
        cs = sorted(atoms((g, w), lambda y: y.op in ('<', '<=', '==')), key=lambda y: y.n)
        if not 0 < len(cs) <= 3: return False
        for k in range(1 << len(cs)):
            m = {x: TRUE if k >> i & 1 else FALSE for i, x in enumerate(cs)}
            if not Norm().equal(subst(g, m), subst(w, m)): return False
        return True
    except (TooBig, RecursionError): return False


class Compare:
    """equal in normal form; a difference is reported when an interpretation of the symbols confirms it"""

    def __init__(self, c, u): self.c = c; self.u = u; self.F = FastNorm()

    def __call__(self, name, got, want, where=None):
        got, want = ([fold(y) for y in (x if isinstance(x, list) else leaves(x))] for x in (got, want))
        where = where or self.u.where
        if len(got) != len(want): return self.c.ob(name, False, where, '%s: the result has %d components, required %d' % (name, len(got), len(want)))
        open_ = None
        for k, (g, w) in enumerate(zip(got, want)):
            if g is w: continue
            if w.op in ('str', 'sstr') or g.op in ('str', 'sstr'): return self.c.ob(name, False, where, '%s: the code yields %s, required %s' % (name, show(g)[:200], show(w)[:200]))
            try: same = self.F.equal(g, w)
            except (TooBig, RecursionError): same = False
            if same: continue
            same = cases(g, w)
            if same: continue
            if separated(g, w, 60) is None: open_ = (g, w); continue
            return self.c.ob(name, False, where, '%s%s: the code yields %s, required %s' % (name, ' (component %d)' % k if len(got) > 1 else '', show(g)[:200], show(w)[:200]))
        if open_: return self.c.undecided(name, where, 'no normal form decides whether %s is %s' % (show(open_[0])[:120], show(open_[1])[:120]))
        return self.c.ob(name, True, where, '')


def prep(I):
    scheme.prep(I)
    I.grid = []
    def quad(I, e, obj, args):
        I.grid.append([I.rv(a) for a in args])
        return I.call(I.tu.find('witness::grid')[0], [])
    I.models['mara::create_vertex_quadtree'] = quad


def disk(o, x, y):
    """density and velocity of the initial disk"""
    r = sqrt(add(mul(x, x), mul(y, y))); rc = o('disk_radius'); rs = o('softening_radius'); Ma = o('mach_number')
    s0 = div(o('disk_mass'), mul(num(Q('17.0618')), rc, rc)); s1 = mul(o('ambient_density'), s0); X = div(r, rc)
    sigma = add(mul(s0, mk('exp', mul(num(Q(-1, 2)), sub(X, ONE), sub(X, ONE)))), s1)
    force = mul(div(ONE, mul(Ma, Ma, add(r, rs))), sub(mul(X, sub(ONE, X), sub(ONE, div(s1, sigma))), ONE))
    vp = mul(sqrt(add(div(ONE, add(r, rs)), force)), ite(cmp_('==', o('counter_rotate'), ZERO), ONE, num(-1)))
    vr = ite(cmp_('<', num(2), r), div(neg_(o('mdot')), mul(num(2), PI, r, sigma)), ZERO)
    return [sigma, div(sub(mul(vr, x), mul(vp, y)), r), div(add(mul(vr, y), mul(vp, x)), r)]


def binary(c):
    cells_ = [(b, i, j) for b in range(len(LEAVES)) for i in range(N) for j in range(N)]
    def go(u):
        u.prep = prep; eq = Compare(c, u); f = lambda v, *n: f(select(v, ('f', n[0])), *n[1:]) if n else v
        def run(n):
            v = u.run(n)
            if v is BOT or u.ret is FALSE: c.ob(n, False, u.where, n + ': a run with valid options cannot be set up'); return None
            if u.ret is not TRUE: c.ob(n + ':returns', False, u.where, '%s: setting up a run with valid options can throw (returns when %s)' % (n, show(u.ret)[:150]))
            return v
        # the profile of the disk, as a function of the position
        v = run('profile')
        if v is None: return
        o = lambda n: f(u.A[0], n); P = leaves(v); X, Y = u.A[1], u.A[2]
        eq('initial disk', P, disk(o, X, Y))
        def prim(p): m = {X: p[0], Y: p[1]}; return [subst(t, m) for t in P]
        rd = o('domain_radius')
        def vert(b, k, i): return mul(call_('witness::vx', '', [num(b), num(k), num(i)]), rd)
        def centre(b, i, j): return [half(add(vert(b, k, n), vert(b, k, n + 1))) for k, n in ((0, i), (1, j))]
        dx = [sub(vert(b, 0, i + 1), vert(b, 0, i)) for b in range(len(LEAVES)) for i in range(N)]; dy = [sub(vert(b, 1, i + 1), vert(b, 1, i)) for b in range(len(LEAVES)) for i in range(N)]
        def mesh_of(tag, v, shape, spec):
            import tree
            t = tree.flat(tree.read(u.I, v))
            if len(t) != len(LEAVES): return c.ob(tag, False, u.where, '%s: the tree has %d blocks, the mesh %d' % (tag, len(t), len(LEAVES)))
            got, want = [], []
            for b, p in enumerate(t):
                while p.op == 'rec': p = p.a[1][0][1]
                if p.op != 'tabarr': raise AnalysisBroken('block of unknown form: ' + show(p)[:120])
                if p.a[1] != (shape, shape): return c.ob(tag, False, u.where, '%s: a block has %s elements, required %s' % (tag, p.a[1], (shape, shape)))
                for i in range(shape):
                    for j in range(shape): got += leaves(p.a[2 + shape * i + j]); want += spec(b, i, j)
            eq(tag, got, want)
        def vertices(tag, v): mesh_of(tag, v, N + 1, lambda b, i, j: [vert(b, 0, i), vert(b, 1, j)])
        def grid(tag):
            g = u.I.grid
            for a in g:
                if len(a) != 3: raise AnalysisBroken('mesh created in an unknown way')
                eq(tag + ':block size and depth', a[1:], [o('block_size'), o('depth')])
                L, R = sym('level'), sym('radius')
                r = u.I.rv(u.I.apply_any(a[0], [L, R], {'k': 'Call', 't': {'k': 'bool'}, 'args': []}))
                eq(tag + ':refinement', [ite(r, ONE, ZERO)], [ite(cmp_('<', R, div(o('focus_factor'), mk('pow', L, o('focus_index')))), ONE, ZERO)])
                break
        v = run('verts')
        if v is not None: vertices('vertices', v); grid('mesh')
        U = lambda b, i, j: (lambda s, x, y: [s, mul(s, x), mul(s, y)])(*prim(centre(b, i, j)))
        def Qm(b, i, j):
            p = centre(b, i, j); s, x, y = prim(p)
            return [s, mul(s, add(mul(p[0], x), mul(p[1], y))), mul(s, sub(mul(p[0], y), mul(p[1], x)))]
        def empty(tag, v):
            import tree
            t = tree.flat(tree.read(u.I, v)); c.ob(tag, len(t) == 1 and ckpt_empty(t[0]), u.where, tag + ': the fields of the scheme that is not used must be empty')
        def ckpt_empty(p):
            while p.op == 'rec' and p.a[0].split('::')[-1] != 'shared_provider_t': p = p.a[1][0][1]
            return p.op == 'rec' and all(isnum(x) and x.a[0] == 0 for x in leaves(dict(p.a[1])['the_shape']))
        for n, lin in (('data_u', 1), ('data_q', 0)):
            v = run(n)
            if v is None: continue
            for x in ('mach_number', 'alpha_cutoff_radius', 'alpha', 'nu', 'sink_rate', 'sink_radius', 'softening_radius', 'plm_theta', 'cfl_number', 'rk_order', 'block_size', 'domain_radius'): eq(n + ':' + x, f(v, x), [o(x)])
            for x in ('axisymmetric_cs2', 'fixed_dt', 'no_accretion_force'): eq(n + ':' + x, [ite(cmp_('==', leaves(f(v, x))[0], ZERO), ZERO, ONE)], [ite(cmp_('==', o(x), ZERO), ZERO, ONE)])
            eq(n + ':conserve_linear_p', [ite(cmp_('==', leaves(f(v, 'conserve_linear_p'))[0], ZERO), ZERO, ONE)], [num(lin)])
            eq(n + ':begin_live_binary', f(v, 'begin_live_binary'), [mul(num(2), PI, o('begin_live_binary'))])
            eq(n + ':density_floor', f(v, 'density_floor'), [mul(o('density_floor'), o('disk_mass'))])
            small = mk('min', *dx + dy)
            eq(n + ':gst_suppr_radius', f(v, 'gst_suppr_radius'), [mul(o('source_term_softening'), small)])
            speed = mk('max', ONE, *[sqrt(add(mul(p[1], p[1]), mul(p[2], p[2]))) for p in (prim(centre(*x)) for x in cells_)])
            eq(n + ':recommended_time_step', f(v, 'recommended_time_step'), [mul(o('cfl_number'), div(small, speed))])
            m = [x for x in leaves(f(v, 'reconstruct_method'))]
            eq(n + ':reconstruct_method', m, [enum(u, 'plm' if lin else 'pcm')])
            vertices(n + ':vertices', f(v, 'vertices'))
            mesh_of(n + ':cell_centers', f(v, 'cell_centers'), N, centre)
            mesh_of(n + ':cell_areas', f(v, 'cell_areas'), N, lambda b, i, j: [mul(sub(vert(b, 0, i + 1), vert(b, 0, i)), sub(vert(b, 1, j + 1), vert(b, 1, j)))])
            def damping(b, i, j): p = centre(b, i, j); return [mul(o('buffer_damping_rate'), add(ONE, mk('tanh', mul(num(3), sub(sqrt(add(mul(p[0], p[0]), mul(p[1], p[1]))), rd)))))]
            mesh_of(n + ':buffer_rate_field', f(v, 'buffer_rate_field'), N, damping)
            on, off = ('initial_conserved_u', 'initial_conserved_q')[:: 1 if lin else -1]
            mesh_of(n + ':' + on, f(v, on), N, U if lin else Qm); empty(n + ':' + off, f(v, off))
        u.throws('data_x', what='an unknown reconstruction method must be refused')
        for n, lin in (('start_u', 1), ('start_q', 0)):
            v = run(n)
            if v is None: continue
            on, off = ('conserved_u', 'conserved_q')[:: 1 if lin else -1]
            mesh_of(n + ':' + on, f(v, on), N, U if lin else Qm); empty(n + ':' + off, f(v, off))
        v = run('start')
        if v is not None:
            it = leaves(f(v, 'iteration')); z = lambda n: [ZERO] * len(leaves(f(v, n)))
            eq('start:time', f(v, 'time'), [ZERO]); eq('start:iteration', it[:1], [ZERO])
            for x in ('ma', 'la', 'tq', 'wk', 'me', 'le', 'oa', 'og'): eq('start:' + x, f(v, x), z(x))
            e = f(v, 'oe')
            for x in ('pomega', 'tau', 'cm_position_x', 'cm_position_y', 'cm_velocity_x', 'cm_velocity_y'): eq('start:orbit.' + x, f(e, x), [ZERO])
            for x, w in (('separation', o('separation')), ('total_mass', ONE), ('mass_ratio', o('mass_ratio')), ('eccentricity', o('eccentricity'))): eq('start:orbit.' + x, f(e, 'elements', x), [w])
        A, B, C = st('record_time_series'), st('write_checkpoint'), st('write_diagnostics')
        u.val('start_s', lambda o_: [y for x in (A, B, C) for y in (x, x, ZERO, ZERO, TRUE)], post=tasks)
        u.val('start_n', lambda o_: [ZERO])
    units(c, 'setup_binary.cpp', go)


def courant(c):
    """the largest stable step: the least ratio of zone spacing to signal speed"""
    def wave(I):
        scheme.prep(I); scheme.uninterpreted(I, 'mara::iso2d::primitive_t::max_wavespeed')
    u = Use(c, 'scheme_binary.cpp', prep=wave); eq = Compare(c, u)
    for n in ('dt_u', 'dt_q'):
        v = u.run(n)
        if v is BOT or u.ret is FALSE: c.ob(n, False, u.where, n + ': the time step cannot be computed'); continue
        O = scheme.Oracle(list(u.A) + [ZERO, FALSE], n == 'dt_q'); steps = []
        for b in range(len(LEAVES)):
            fast = []
            for i in range(N):
                for j in range(N):
                    p = O.prim.at(LEAVES[b][0], N * LEAVES[b][1] + i, N * LEAVES[b][2] + j)
                    fast.append(call_('mara::iso2d::primitive_t::max_wavespeed', 'r', p + [O.cs2(O.center(b, i, j))]))
            steps.append(div(O.h(LEAVES[b][0]), mk('max', *fast)))
        eq('maximum_timestep ' + n[-1], v, [mk('min', *steps)])


def enum(u, name):
    for r in u.w.tu.find('witness::method_' + name): return leaves(u.w.call('method_' + name, prep=prep))[0]
    raise AnalysisBroken('no witness of the reconstruction methods')


def prop_setup(c):
    c.rule('the value graphs of the set-up functions of each solver, applied to arbitrary option values and mesh vertices, equal the documented functions of the options in normal form')
    binary(c)
    try: courant(c)
    except AnalysisBroken as e: c.undecided('maximum_timestep', '', str(e)[:300])
    c.minimum = 40
