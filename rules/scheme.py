"""One time step of the solvers on a small mesh: conservation across blocks, and the ledger of what sources take away."""
from program import AnalysisBroken
from terms import *
from physics import leaves, add, mul, sub, div
from sched import Use
from ckpt import units
from vg import LV, select
import store, table
from separate import separated


def uninterpreted(I, name, short=None):
    """a function of the library as an unknown function of its arguments"""
    def f(I, e, obj, args):
        fn = I.tu.funcs.get(e.get('f'))
        a = ([] if obj is None else leaves(I.rv(obj))) + [x for y in args for x in leaves(I.rv(y))]
        v = I.symbolic(fn.d['ret'] if fn is not None and 'ret' in fn.d else e['t'], 'r')
        return subst(v, {l: mk('call', name, l.a[0], *a) for l in set(leaves(v))})
    I.models[name] = f


def prep(I):
    store.prep(I); table.prep(I)
    I.exact_try = True; I.deref_ite = True; I.reclimit = 8; I.budget = 40000000
    for n in ('mara::iso2d::riemann_hlle', 'mara::plm_gradient', 'mara::iso2d::recover_primitive', 'mara::compute_two_body_state', 'mara::compute_orbital_elements', 'mara::diff', 'mara::diff_cm', 'mara::iso2d::primitive_t::source_terms_conserved_angmom'): uninterpreted(I, n)
    def enqueue(I, e, obj, args):
        r = I.apply(I.rv(args[0]), list(args[1:]), e)
        return mk('rec', 'std::future', (('value', I.rv(r)),))
    I.models['mara::thread_pool_t::enqueue'] = enqueue
    I.models['std::future::get'] = lambda I, e, obj, args: select(I.rv(obj), ('f', 'value'))
    I.models['mara::rational_number_t::reduce'] = lambda I, e, obj, args: ZERO


# ---------------------------------------------------------------------------------------------------- the mesh
LEAVES = [(2, 0, 0), (2, 1, 0), (2, 0, 1), (2, 1, 1), (1, 1, 0), (1, 0, 1), (1, 1, 1)]    # (level, i, j) of block b
N = 2


def block_of(l, i, j):
    try: return LEAVES.index((l, i, j))
    except ValueError: return None


class Mesh:
    """values on the mesh, seen from any level: as stored, from the coarser block below, or the mean of the finer blocks above"""

    def __init__(self, own): self.own = own; self.memo = {}    # own(b, i, j) -> list of terms

    def at(self, l, I, J):
        n = N << l; I %= n; J %= n
        k = (l, I, J)
        if k in self.memo: return self.memo[k]
        b = block_of(l, I // N, J // N)
        if b is not None: v = self.own(b, I % N, J % N)
        elif block_of(l - 1, I // N // 2, J // N // 2) is not None: v = self.at(l - 1, I // 2, J // 2)
        else:
            q = [self.at(l + 1, 2 * I + a, 2 * J + c) for a in (0, 1) for c in (0, 1)]
            v = [div(add(*x), num(4)) for x in zip(*q)]
        self.memo[k] = v
        return v


def half(x): return div(x, num(2))
def scale(v, s): return [mul(x, s) for x in v]
def vadd(a, b): return [add(x, y) for x, y in zip(a, b)]
def vsub(a, b): return [sub(x, y) for x, y in zip(a, b)]
def pt(rd, l, I, J): return [mul(rd, num(Q(2) * Q(c) / (N << l) - 1)) for c in (I, J)]
def call_(name, leaf, args): return mk('call', name, leaf, *args)


class Oracle:
    """the step as it is defined: reconstruct, Riemann flux plus viscous stress through each face, sources"""

    def __init__(self, A, q):
        s, p, dt, safe = A
        f = lambda v, n: select(v, ('f', n))
        one = lambda v: leaves(v)[0]
        self.q = q; self.P = {n: one(f(p, n)) for n in ('sink_rate', 'softening', 'gst', 'rd', 'sink_radius', 'floor', 'mach', 'alpha', 'cutoff', 'nu', 'theta', 'live', 'axi', 'noacc', 'pcm')}
        self.s = s; self.dt = dt; self.rd = self.P['rd']
        self.th = ite(bor(safe, self.P['pcm']), ZERO, self.P['theta'])
        self.time = one(f(s, 'time')); self.oe = leaves(f(s, 'oe'))
        b = lambda n: call_('mara::compute_two_body_state', 'r.' + n, self.oe + [self.time])
        self.body = [{n: b('body%d.%s' % (k, n)) for n in ('mass', 'position_x', 'position_y', 'velocity_x', 'velocity_y')} for k in (1, 2)]
        self.prim = Mesh(self.primitive); self.g = [Mesh(lambda b, i, j, ax=ax: self.gradient(ax, b, i, j)) for ax in (0, 1)]
        self.fm = {}

    def u0(self, b, i, j): return [call_('witness::fs', '', [num(b), num(k), num(i), num(j)]) for k in range(3)]
    def ui(self, b, i, j): return [call_('witness::fi', '', [num(b), num(k), num(i), num(j)]) for k in range(3)]
    def br(self, b, i, j): return call_('witness::fb', '', [num(b), num(i), num(j)])
    def h(self, l): return div(self.rd, num(1 << l))
    def center(self, b, i, j): l, bi, bj = LEAVES[b]; return pt(self.rd, l, N * bi + i + Q(1, 2), N * bj + j + Q(1, 2))
    def area(self, b): d = self.h(LEAVES[b][0]); return mul(d, d)

    def primitive(self, b, i, j):
        a = self.u0(b, i, j) + (self.center(b, i, j) if self.q else []) + [ZERO] * 0
        return [call_('mara::iso2d::recover_primitive', 'r[%d]' % k, a) for k in range(3)]

    def gradient(self, ax, b, i, j):
        l, bi, bj = LEAVES[b]; I, J = N * bi + i, N * bj + j
        d = (1, 0) if ax == 0 else (0, 1)
        a = [self.prim.at(l, I + k * d[0], J + k * d[1]) for k in (-1, 0, 1)]
        return [div(call_('mara::plm_gradient', 'r[%d]' % k, a[0] + a[1] + a[2] + [self.th]), self.h(l)) for k in range(3)]

    def phi(self, x):
        t = []
        for b in self.body:
            d = vsub(x, [b['position_x'], b['position_y']])
            t.append(neg_(div(b['mass'], mk('sqrt', add(mul(d[0], d[0]), mul(d[1], d[1]), mul(self.P['softening'], self.P['softening']))))))
        return add(*t)

    def radius(self, x): return mk('sqrt', add(mul(x[0], x[0]), mul(x[1], x[1])))

    def cs2(self, x):
        M2 = mul(self.P['mach'], self.P['mach'])
        return ite(self.P['axi'], div(div(ONE, self.radius(x)), M2), neg_(div(self.phi(x), M2)))

    def nu(self, x, cs2):
        rc = self.P['cutoff']; r = self.radius(x)
        prof = ite(cmp_('>', rc, ZERO), half(add(ONE, mk('tanh', mul(num(3), sub(r, rc))))), ONE)
        return ite(cmp_('>', self.P['nu'], ZERO), mul(prof, self.P['nu']), mul(mul(prof, self.P['alpha'], mk('sqrt', cs2)), div(r, self.P['mach'])))

    def own_flux(self, ax, l, I, J):
        """flux per length through the face below cell (I, J) of level l, as the blocks of that level see it"""
        k = (ax, l, I, J)
        if k in self.fm: return self.fm[k]
        d = (1, 0) if ax == 0 else (0, 1); o = 1 - ax
        lo = (I - d[0], J - d[1]); h = self.h(l)
        x = pt(self.rd, l, I + (Q(1, 2) if ax == 1 else 0), J + (Q(1, 2) if ax == 0 else 0))
        gl, gr = self.g[ax].at(l, *lo), self.g[ax].at(l, I, J); tl, tr = self.g[o].at(l, *lo), self.g[o].at(l, I, J)
        pl = vadd(self.prim.at(l, *lo), scale(gl, half(h))); pr = vsub(self.prim.at(l, I, J), scale(gr, half(h)))
        c = self.cs2(x); n = [ONE, ZERO, ZERO] if ax == 0 else [ZERO, ONE, ZERO]
        F = [call_('mara::iso2d::riemann_hlle', 'r.%d' % m, pl + pr + [c, c] + n) for m in range(3)]
        mu = mul(half(self.nu(x, c)), add(pl[0], pr[0]))
        dn = [half(add(gl[m], gr[m])) for m in (1, 2)]; dt_ = [half(add(tl[m], tr[m])) for m in (1, 2)]
        dx, dy = (dn, dt_) if ax == 0 else (dt_, dn)
        dil = mul(mu, sub(dx[0], dy[1])); sh = mul(mu, add(dx[1], dy[0]))
        F = [F[0]] + ([sub(F[1], dil), sub(F[2], sh)] if ax == 0 else [sub(F[1], sh), add(F[2], dil)])
        if self.q:
            edge = (I if ax == 0 else J) in (0, N << l)
            F = [F[0], add(mul(x[0], F[1]), mul(x[1], F[2])), ZERO if edge else sub(mul(x[0], F[2]), mul(x[1], F[1]))]
        self.fm[k] = F
        return F

    def flux(self, ax, l, I, J, side):
        """flux through a whole face of cell on the given side: the sum over the finer faces where the other side is finer"""
        d = (1, 0) if ax == 0 else (0, 1); n = N << l
        other = (I - d[0], J - d[1]) if side == 'lo' else (I, J)
        ob = ((other[0] % n) // N, (other[1] % n) // N)
        if block_of(l, *ob) is None and (l == 0 or block_of(l - 1, ob[0] // 2, ob[1] // 2) is None):
            t = [0, 0, 0]; f = []
            for m in (0, 1):
                II, JJ = (2 * I, 2 * J + m) if ax == 0 else (2 * I + m, 2 * J)
                if side == 'lo' and (I if ax == 0 else J) == 0: II, JJ = (II + 2 * n, JJ) if ax == 0 else (II, JJ + 2 * n)    # the finer block across the domain boundary sees it at its upper end
                if side == 'hi' and (I if ax == 0 else J) == n: II, JJ = (0, JJ) if ax == 0 else (II, 0)
                f.append(scale(self.own_flux(ax, l + 1, II, JJ), self.h(l + 1)))
            return vadd(*f)
        return scale(self.own_flux(ax, l, I, J), self.h(l))

    def gravity(self, k, x):
        b = self.body[k]; d = vsub(x, [b['position_x'], b['position_y']])
        r2 = add(mul(d[0], d[0]), mul(d[1], d[1]), mul(self.P['softening'], self.P['softening']))
        return [neg_(div(mul(b['mass'], z), mul(r2, mk('sqrt', r2)))) for z in d]

    def sink(self, k, x):
        b = self.body[k]; d = vsub(x, [b['position_x'], b['position_y']])
        s2 = mul(self.P['sink_radius'], self.P['sink_radius'])
        return mul(self.P['sink_rate'], mk('exp', neg_(div(add(mul(d[0], d[0]), mul(d[1], d[1])), mul(num(2), s2)))))

    def sources(self, b, i, j):
        """[gravity 1, gravity 2, sink 1, sink 2, buffer] per area, integrated over the step"""
        x = self.center(b, i, j); u = self.u0(b, i, j); out = []
        for k in (0, 1):
            f = scale(self.gravity(k, x), u[0])
            out.append(scale([ZERO] + (f if not self.q else [add(mul(x[0], f[0]), mul(x[1], f[1])), sub(mul(x[0], f[1]), mul(x[1], f[0]))]), self.dt))
        for k in (0, 1): out.append(scale(u, neg_(mul(self.sink(k, x), self.dt))))
        out.append(scale(vsub(self.ui(b, i, j), u), mul(self.br(b, i, j), self.dt)))
        return out

    def geometry(self, b, i, j):
        x = self.center(b, i, j); p = self.primitive(b, i, j); r2 = add(mul(x[0], x[0]), mul(x[1], x[1]))
        ramp = sub(ONE, mk('exp', neg_(div(r2, mul(self.P['gst'], self.P['gst'])))))
        return [mul(call_('mara::iso2d::primitive_t::source_terms_conserved_angmom', 'r.%d' % k, p + [self.cs2(x)]), ramp, self.dt) for k in range(3)]

    def floor(self, b, i, j):
        u = self.u0(b, i, j); low = cmp_('<', u[0], self.P['floor'])
        return [ite(low, mul(num(Q(1, 100)), x), ZERO) for x in u]

    def net(self, b, i, j):
        l, bi, bj = LEAVES[b]; I, J = N * bi + i, N * bj + j
        f = vadd(vsub(self.flux(0, l, I + 1, J, 'hi'), self.flux(0, l, I, J, 'lo')), vsub(self.flux(1, l, I, J + 1, 'hi'), self.flux(1, l, I, J, 'lo')))
        return scale(f, neg_(div(self.dt, self.area(b))))

    def cell(self, b, i, j):
        r = vadd(self.u0(b, i, j), self.net(b, i, j))
        for s in self.sources(b, i, j): r = vadd(r, s)
        return vadd(r, self.geometry(b, i, j) if self.q else self.floor(b, i, j))


def neg_(x): return arith('-', ZERO, x)


def cells(I, tree_value):
    """[block][i][j] -> components of a tree of evaluated blocks"""
    import tree
    t = tree.flat(tree.read(I, tree_value))
    if len(t) != len(LEAVES): raise AnalysisBroken('the tree has %d blocks, the mesh %d' % (len(t), len(LEAVES)))
    out = []
    for blk in t:
        p = blk
        while p.op == 'rec': p = p.a[1][0][1]
        if p.op != 'tabarr' or p.a[1] != (N, N): raise AnalysisBroken('block of unknown form: ' + show(blk)[:120])
        out.append([[leaves(p.a[2 + N * i + j]) for j in range(N)] for i in range(N)])
    return out


def step(u, q):
    name = 'step_q' if q else 'step_u'
    v = u.run(name)
    if v is BOT: raise AnalysisBroken('a step never returns')
    return v, cells(u.I, select(v, ('f', 'conserved_q' if q else 'conserved_u'))), Oracle(u.A, q)


class Step:
    """one step of the solver (linear momentum: q False; angular momentum: q True) and its definition"""

    def __init__(self, c, q):
        self.c = c; self.q = q; self.tag = 'angular-momentum-scheme' if q else 'linear-momentum-scheme'
        self.u = Use(c, 'scheme_binary.cpp', prep=prep)
        self.v, self.new, self.O = step(self.u, q)
        self.F = FastNorm(); self.F.positive = frozenset([self.O.rd])
        self.cells = [(b, i, j) for b in range(len(LEAVES)) for i in range(N) for j in range(N)]
        self.A = lambda b: self.O.area(b)
        c.assumptions.append('the domain radius is positive')

    def field(self, *names):
        v = self.v
        for n in names: v = select(v, ('f', n))
        return v

    def eq(self, name, got, want):
        """equal in normal form; a difference of the (sufficient) normal forms is reported when an interpretation of the symbols confirms it"""
        got, want = (x if isinstance(x, list) else leaves(x) for x in (got, want))
        if len(got) != len(want): return self.c.ob(self.tag + ':' + name, False, self.u.where, '%s: the result has %d components, required %d' % (name, len(got), len(want)))
        for k, (g, w) in enumerate(zip(got, want)):
            if g is w: continue
            try: d = self.F.nf(mk('-', g, w))[0]
            except TooBig: return self.c.undecided(self.tag + ':' + name, self.u.where, 'the terms are too large to compare')
            if not d: continue
            if separated(g, w) is None:
                self.c.undecided(self.tag + ':' + name, self.u.where, 'the normal forms differ, but no interpretation separates the terms'); continue
            ex = [' * '.join([str(c)] + ['%s%s' % (show(a)[:90], '^%d' % e if e > 1 else '') for a, e in m]) for m, c in list(d.items())[:3]]
            return self.c.ob(self.tag + ':' + name, False, self.u.where, '%s (component %d): the code exceeds the definition by %d terms: %s' % (name, k, len(d), ' + '.join(ex)[:400]))
        return self.c.ob(self.tag + ':' + name, True, self.u.where, '')

    def total(self, f):
        """sum over all cells of area times f(cell)"""
        return add(*[mul(self.A(x[0]), f(*x)) for x in self.cells])


def both(c, fn):
    """fn(step) for both schemes"""
    from lib import parallel
    def job(q):
        def go(c):
            try: s = Step(c, q)
            except AnalysisBroken as e: return c.undecided('advance_q' if q else 'advance_u', '', str(e)[:300])
            fn(s)
        return go
    parallel(c, [job(False), job(True)])


def prop_update(c):
    c.rule('the value graph of one step at every cell of a mesh with refined and unrefined blocks equals old state minus net flux through the faces plus sources, in polynomial normal form over the face states and gates')
    def fn(s):
        for b, i, j in s.cells: s.eq('block%d[%d][%d]' % (b, i, j), s.new[b][i][j], s.O.cell(b, i, j))
        s.eq('time', s.field('time'), [add(s.O.time, s.O.dt)])
        rejects(s)
    both(c, fn); c.minimum = 2


def rejects(s):
    """the step returns exactly when no cell of the updated state has negative density"""
    from lin import batoms
    r = s.u.ret; neg = {}
    den = leaves(select(s.O.s, ('f', 'iteration')))[1]
    for a in batoms(r):
        for x in s.cells:
            if x in neg or a.op != '<': continue
            if not s.F.nf(mk('-', mk('-', a.a[0], a.a[1]), s.new[x[0]][x[1]][x[2]][0]))[0]: neg[x] = a; break
    missing = [x for x in s.cells if x not in neg and not (subst(r, {cmp_('<', s.new[x[0]][x[1]][x[2]][0], ZERO): TRUE}) is FALSE)]
    s.c.ob(s.tag + ':rejects-negative-density', not missing, s.u.where, missing and 'the step can return a state with negative density in block %d, cell (%d, %d)' % missing[0])
    if missing: return
    bad = [x for x in s.cells if subst(r, {neg[x]: TRUE}) is not FALSE]
    s.c.ob(s.tag + ':rejects-every', not bad, s.u.where, bad and 'the step can return a state with negative density in block %d, cell (%d, %d)' % bad[0])
    m = {a: FALSE for a in neg.values()}; m[cmp_('==', ZERO, den)] = FALSE; m[cmp_('==', den, ZERO)] = FALSE
    ok = subst(r, m)
    s.c.ob(s.tag + ':accepts-all-others', ok is TRUE, s.u.where, 'the step can fail although no density is negative: returns when ' + show(ok)[:200])


def prop_conserve(c):
    c.rule('the sum over all cells of area times change, minus the sources, is a combination of fluxes through the domain boundary alone; no angular momentum enters there')
    def fn(s):
        O = s.O
        for k, name in enumerate(['mass', 'radial-momentum', 'angular-momentum'] if s.q else ['mass', 'x-momentum', 'y-momentum']):
            def change(b, i, j):
                x = sub(s.new[b][i][j][k], O.u0(b, i, j)[k])
                for z in O.sources(b, i, j) + [O.geometry(b, i, j) if s.q else O.floor(b, i, j)]: x = sub(x, z[k])
                return x
            out = []
            for b, i, j in s.cells:
                l, bi, bj = LEAVES[b]; I, J = N * bi + i, N * bj + j; n = N << l
                if I == 0: out.append(neg_(O.flux(0, l, I, J, 'lo')[k]))
                if J == 0: out.append(neg_(O.flux(1, l, I, J, 'lo')[k]))
                if I == n - 1: out.append(O.flux(0, l, I + 1, J, 'hi')[k])
                if J == n - 1: out.append(O.flux(1, l, I, J + 1, 'hi')[k])
            want = neg_(mul(O.dt, add(*out)))
            if s.q and k == 2: want = ZERO
            s.eq('total-' + name, [s.total(change)], [want])
    both(c, fn); c.minimum = 2


def names_of(vals, pre): return ['r' + leaf_name(x)[len(pre):] for x in vals]


def leaf_name(x): return x.a[0]


def prop_ledger(c):
    c.rule('every running total of the solution advances by the sum over the mesh of what the corresponding source term takes from the cells; orbital elements are updated by the difference of the elements before and after the transfer of mass and momentum')
    def fn(s):
        O = s.O; S = O.s; f = lambda *n: leaves(sel(S, n)); q = s.q
        def sel(v, n):
            for x in n: v = select(v, ('f', x))
            return v
        src = {x: O.sources(*x) for x in s.cells}
        def lz(x, w): p = O.center(*x); return w[2] if q else sub(mul(p[0], w[2]), mul(p[1], w[1]))
        def taken(n, comp): return s.total(lambda *x: neg_(comp(x, src[x][n])))
        def mom(x, w):
            if not q: return w[1:]
            p = O.center(*x); r2 = add(mul(p[0], p[0]), mul(p[1], p[1]))
            return [div(sub(mul(w[1], p[0]), mul(w[2], p[1])), r2), div(add(mul(w[1], p[1]), mul(w[2], p[0])), r2)]
        mass = [taken(2 + k, lambda x, w: w[0]) for k in (0, 1)]
        px = [taken(2 + k, lambda x, w: mom(x, w)[0]) for k in (0, 1)]; py = [taken(2 + k, lambda x, w: mom(x, w)[1]) for k in (0, 1)]
        force = [[s.total(lambda *x: neg_(mul(O.gravity(k, O.center(*x))[ax], O.u0(*x)[0], O.dt))) for ax in (0, 1)] for k in (0, 1)]
        plus = lambda old, new: [add(a, b) for a, b in zip(old, new)]
        s.eq('time', s.field('time'), [add(O.time, O.dt)])
        it = f('iteration'); got = leaves(s.field('iteration'))
        s.eq('iteration', [mul(got[0], it[1])], [mul(add(it[0], it[1]), got[1])])
        s.eq('mass_accreted_on', s.field('mass_accreted_on'), plus(f('ma'), mass))
        s.eq('angular_momentum_accreted_on', s.field('angular_momentum_accreted_on'), plus(f('la'), [taken(2 + k, lz) for k in (0, 1)]))
        s.eq('integrated_torque_on', s.field('integrated_torque_on'), plus(f('tq'), [taken(k, lz) for k in (0, 1)]))
        s.eq('mass_ejected', s.field('mass_ejected'), plus(f('me'), [taken(4, lambda x, w: w[0])]))
        s.eq('angular_momentum_ejected', s.field('angular_momentum_ejected'), plus(f('le'), [taken(4, lz)]))
        if not q:
            w = []
            for k in (0, 1):
                b = O.body[k]; M = b['mass']; p = [mul(M, b['velocity_x']), mul(M, b['velocity_y'])]; e = []
                sq = lambda v: add(mul(v[0], v[0]), mul(v[1], v[1]))
                for blk in range(len(LEAVES)):      # the gain of kinetic energy from what each block delivers
                    d = [add(*[mul(s.A(blk), neg_(src[x][2 + k][m])) for x in s.cells if x[0] == blk]) for m in range(3)]
                    e.append(half(sub(div(sq([add(p[0], d[1]), add(p[1], d[2])]), add(M, d[0])), div(sq(p), M))))
                w.append(add(*e))
            s.eq('work_done_on', s.field('work_done_on'), plus(f('wk'), w))
        # the orbital elements
        E0 = f('oe'); t = O.time
        oen = ['r' + x.a[0][x.a[0].index('.oe') + 3:] for x in E0]
        def call(name, a): return [call_(name, n, a) for n in oen]
        def bodies(fn): return [z for k in (0, 1) for z in fn(k, O.body[k])]
        pos = lambda b: [b['position_x'], b['position_y']]
        acc = bodies(lambda k, b: [add(b['mass'], mass[k])] + pos(b) + [ite(O.P['noacc'], b['velocity_' + ax], div(add(mul(b['mass'], b['velocity_' + ax]), d), add(b['mass'], mass[k]))) for ax, d in (('x', px[k]), ('y', py[k]))])
        grv = bodies(lambda k, b: [b['mass']] + pos(b) + [add(b['velocity_' + ax], div(force[k][n], b['mass'])) for n, ax in enumerate('xy')])
        Da = call('mara::diff', E0 + call('mara::compute_orbital_elements', acc + [t])); Dg = call('mara::diff', E0 + call('mara::compute_orbital_elements', grv + [t]))
        Dc = call('mara::diff_cm', E0 + [O.dt])
        s.eq('orbital_elements_acc', s.field('orbital_elements_acc'), plus(f('oa'), Da))
        s.eq('orbital_elements_grav', s.field('orbital_elements_grav'), plus(f('og'), Dg))
        live = cmp_('>', t, O.P['live'])
        s.eq('orbital_elements', s.field('orbital_elements'), [add(a, ite(live, add(x, y, z), ZERO)) for a, x, y, z in zip(E0, Da, Dg, Dc)])
    both(c, fn); c.minimum = 2
    diagnostics(c); samples(c)


DIAG = ('mass_u', 'mass_q', 'lz_u', 'lz_q')
PI = num(Q(repr(3.141592653589793)))


def diagnostics(c):
    """the disk totals are sums over the mesh; a time series sample is the state of the ledger"""
    u = Use(c, 'diag_binary.cpp', prep=prep)
    for n in DIAG:
        q = n.endswith('q')
        try: v = u.run(n)
        except AnalysisBroken as e: c.undecided(n, '', str(e)[:300]); continue
        A = list(u.A) + [ZERO, FALSE]; O = Oracle(A, q); cells_ = [(b, i, j) for b in range(len(LEAVES)) for i in range(N) for j in range(N)]
        def dens(x):
            w = O.u0(*x); p = O.center(*x)
            return w[0] if n[0] == 'm' else w[2] if q else sub(mul(p[0], w[2]), mul(p[1], w[1]))
        u.cmp('disk_' + n, v, [add(*[mul(O.area(x[0]), dens(x)) for x in cells_])])


def samples(c):
    def go(u):
        c.allow |= {'std::operator<<', 'std::basic_ostream::operator<<'}
        u.prep = prep
        def want(s, k, t, x):
            f = lambda n: leaves(select(s, ('f', n))); T_ = f('time')
            b = lambda n: call_('mara::compute_two_body_state', 'r.' + n, f('oe') + T_)
            return T_ + [call_('witness::mass', '', T_), call_('witness::lz', '', T_)] + f('me') + f('le') + f('ma') + f('la') + f('tq') + f('wk') + f('oa') + f('og') + f('oe') + [b('body1.position_x'), b('body1.position_y'), b('body2.position_x'), b('body2.position_y')]
        order = ('time', 'disk_mass', 'disk_angular_momentum', 'mass_ejected', 'angular_momentum_ejected', 'mass_accreted_on', 'angular_momentum_accreted_on', 'integrated_torque_on', 'work_done_on', 'orbital_elements_acc', 'orbital_elements_grav', 'orbital_elements', 'position_of_mass1', 'position_of_mass2')
        u.val('sampled', want, post=lambda v: mk('tup', *[select(v, ('f', n)) for n in order]))
        u.val('before', lambda s, k, t, x: leaves(x)); u.val('samples', lambda *a: [num(2)]); u.val('still', lambda s, k, t, x: leaves(s))
        from sched import tasks
        A, B, C = st('record_time_series'), st('write_checkpoint'), st('write_diagnostics')
        u.val('counted', lambda s, k, t, x: [A, A, add(k, ONE), t, FALSE, B, B, ONE, ZERO, FALSE, C, C, num(2), ZERO, FALSE], post=tasks)
    units(c, 'next_binary.cpp', go)


def prop_integrate(c):
    c.rule('the value graph of a whole time step, with the single step, its failure and the combination of solutions left arbitrary, equals the Runge-Kutta scheme of the configured order with one retry; adding and scaling solutions acts on every field')
    c.allow |= {'std::operator<<', 'std::basic_ostream::operator<<'}
    adv = lambda t, dt, s: call_('witness::adv', '', [t, dt, s]); fl = lambda t, dt, s: call_('witness::fails', '', [t, dt, s])
    def step_size(t, p):
        f = lambda n: leaves(select(p, ('f', n)))[0]
        return ite(cmp_('==', f('fixed'), ZERO), mul(f('cfl'), call_('witness::dtmax', '', [t])), f('rec'))
    def one(t, dt, s): return adv(t, dt, s), fl(t, dt, s)
    def two(t, dt, s):
        a = adv(t, dt, s); h = num(Q(1, 2)); tm = lambda x: call_('witness::times', '', [x, h])
        return call_('witness::mix', '', [tm(t), tm(adv(a, dt, s))]), bor(fl(t, dt, s), fl(a, dt, s))
    def whole(rk):
        def spec(t, p):
            dt = step_size(t, p); small = mul(dt, num(Q(1, 10)))
            v, bad = rk(t, dt, FALSE); w, worse = rk(t, small, TRUE)
            return ite(bad, w, v), bnot(band(bad, worse))
        return spec
    def nxt(u):
        u.prep = prep
        for n, rk in (('next1', one), ('next2', two)):
            try: v = u.run(n)
            except AnalysisBroken as e: c.undecided(n, '', str(e)[:300]); continue
            w, r = whole(rk)(*u.A)
            u.cmp(n, v, [w]); u.cmp(n + ':returns', mk('tup', ite(u.ret, ONE, ZERO)), [ite(r, ONE, ZERO)])
        for n in ('next0', 'next3'): u.throws(n, what='an order without a scheme must be refused')
        ok1 = lambda t, p: whole(one)(t, p)[1]
        tm = lambda s: leaves(select(s, ('f', 'time')))[0]
        u.val('carried', lambda s, x, p: leaves(x), pre=lambda s, x, p: ok1(tm(s), p)); u.val('carried_n', lambda s, x, p: [ONE], pre=lambda s, x, p: ok1(tm(s), p))
        u.val('stepped', lambda s, x, p: [whole(one)(tm(s), p)[0]], pre=lambda s, x, p: ok1(tm(s), p)); u.val('same_config', lambda t, x, p: [x], pre=lambda t, x, p: ok1(t, p))
        u.val('goes_on', lambda t, x: [cmp_('<', div(t, mul(num(2), PI)), x)])
        from sched import tasks
        def due(now, tc, td, ts, cpi, dfi, tsi, dc, dd, ds, *_):
            r = []
            for n, k, t, p, d in (('record_time_series', 3, ts, tsi, ds), ('write_checkpoint', 1, tc, cpi, dc), ('write_diagnostics', 2, td, dfi, dd)):
                p = mul(p, num(2), PI); late = cmp_('>=', sub(now, t), p); r += [st(n), st(n), num(k), ite(late, add(t, p), t), ite(late, TRUE, d)]
            return r
        u.val('marked', due, post=tasks); u.val('kept', due, pre=lambda *a: ok1(a[0], a[-1]), post=tasks)
    units(c, 'next_binary.cpp', nxt)
    scalar = ('mass_accreted_on', 'angular_momentum_accreted_on', 'integrated_torque_on', 'work_done_on', 'mass_ejected', 'angular_momentum_ejected', 'orbital_elements_acc', 'orbital_elements_grav', 'orbital_elements')
    short = ('ma', 'la', 'tq', 'wk', 'me', 'le', 'oa', 'og', 'oe')
    def field(tag, b, i, j): return [call_('witness::' + tag, '', [num(b), num(k), num(i), num(j)]) for k in range(3)]
    def comb(u):
        u.prep = prep
        for n in ('sum_u', 'sum_q', 'times_u', 'times_q'):
            try: v = u.run(n); got = cells(u.I, select(v, ('f', 'conserved_' + n[-1])))
            except AnalysisBroken as e: c.undecided(n, '', str(e)[:300]); continue
            A = u.A; f = lambda s, x: leaves(select(s, ('f', x))); r = lambda s: f(s, 'iteration')
            if n[0] == 's': op = lambda x: [add(p, q) for p, q in zip(f(A[0], x), f(A[1], x))]; itn, itd = add(mul(r(A[0])[0], r(A[1])[1]), mul(r(A[1])[0], r(A[0])[1])), mul(r(A[0])[1], r(A[1])[1])
            else: op = lambda x: [mul(p, div(A[1], A[2])) for p in f(A[0], x)]; itn, itd = mul(r(A[0])[0], A[1]), mul(r(A[0])[1], A[2])
            u.cmp(n + ':time', select(v, ('f', 'time')), op('time'))
            it = leaves(select(v, ('f', 'iteration'))); u.cmp(n + ':iteration', mk('tup', mul(it[0], itd)), [mul(it[1], itn)])
            for a, b in zip(scalar, short): u.cmp(n + ':' + a, select(v, ('f', a)), op(b))
            for b in range(len(LEAVES)):
                for i in range(N):
                    for j in range(N):
                        x, y = field('fs', b, i, j), field('ft', b, i, j)
                        u.cmp('%s:block%d[%d][%d]' % (n, b, i, j), mk('tup', *got[b][i][j]), [add(p, q) for p, q in zip(x, y)] if n[0] == 's' else [mul(p, div(A[1], A[2])) for p in x])
    units(c, 'scheme_binary.cpp', comb)
    c.minimum = 12
