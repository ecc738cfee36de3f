"""Linear integer reasoning over guard terms (a conjunctive polyhedral domain with Fourier-Motzkin elimination).

`sat(f)`        is the boolean combination f of linear comparisons satisfiable over the integers?  (may answer True wrongly, never False)
`entails(a, b)` does a imply b
`same(x, y, a)` are two gated terms equal in every case of their gates that is consistent with a"""
from terms import *
from props_bool import batoms
from fractions import Fraction as Q
import math, time

_N = Norm()


class Budget(Exception): pass


DEADLINE = [None]


_D = {}


def divnorm(t):
    """unsigned division and remainder by a constant n: (n*q + r) idiv n = q + r idiv n, (n*q + r) % n = r % n"""
    if t in _D: return _D[t]
    r0 = t
    for _ in range(40):
        todo = [x for x in atoms(t, lambda x: x.op in ('idiv', '%') and isnum(x.a[1]) and x.a[1].a[0] > 0 and Q(x.a[1].a[0]).denominator == 1)
                if not atoms(x.a[0], lambda y: y.op in ('idiv', '%') and isnum(y.a[1]) and y not in _STUCK)]
        todo = [x for x in todo if x not in _STUCK]
        if not todo: break
        m = {}
        for x in todo:
            n = int(x.a[1].a[0]); l = linear0(x.a[0])
            if l is None or any(v.denominator != 1 for v in l[0].values()) or l[1].denominator != 1: _STUCK.add(x); continue
            q, r = ZERO, ZERO
            for a, v in l[0].items():
                k, j = divmod(int(v), n)
                if k: q = arith('+', q, arith('*', num(k), unmono(a)))
                if j: r = arith('+', r, arith('*', num(j), unmono(a)))
            k, j = divmod(int(l[1]), n)
            q = arith('+', q, num(k)); r = arith('+', r, num(j))
            if x.op == '%': new = r if isnum(r) else mk('%', r, x.a[1])
            else: new = q if isnum(r) else arith('+', q, mk('idiv', r, x.a[1]))
            _STUCK.add(mk(x.op, r, x.a[1]))
            if new is not x: m[x] = new
            else: _STUCK.add(x)
        if m: t = subst(t, m)
    _D[r0] = t
    return t


_STUCK = set()


def unmono(a):
    if a.op != 'mono': return a
    r = ONE
    for k in range(0, len(a.a), 2):
        for _ in range(int(a.a[k + 1].a[0])): r = arith('*', r, a.a[k])
    return r


def linear(t): return linear0(divnorm(t))


def linear0(t):
    """term -> ({atom: coeff}, const) or None"""
    try: p, q = _N.reduce(_N.nf(t))
    except TooBig: return None
    if list(q.keys()) != [()]: return None
    k = q[()]
    out, const = {}, Q(0)
    for m, c in p.items():
        if m == (): const = Q(c) / k
        else: out[mono(m)] = Q(c) / k
    return out, const


_M = {}


def mono(m):
    key = tuple(sorted(m, key=lambda x: (x[0].n, x[1])))
    if len(key) == 1 and key[0][1] == 1: return key[0][0]
    if key not in _M: _M[key] = mk('mono', *[y for a, e in key for y in (a, num(e))])
    return _M[key]


def norm_row(r):
    """sum coeff*atom + const >= 0, scaled to coprime integer coefficients; the constant is rounded down (integers)"""
    co, k = r
    if not co: return r
    d = 1
    for v in list(co.values()): d = d * v.denominator // math.gcd(d, v.denominator)
    g = 0
    for v in co.values(): g = math.gcd(g, int(v * d))
    return {a: v * d / g for a, v in co.items()}, Q(math.floor(k * d / g))


def infeasible(rows):
    rows = [norm_row(r) for r in rows]
    for _ in range(60):
        best = {}
        for co, k in rows:
            if not co:
                if k < 0: return True
                continue
            key = tuple(sorted(((a.n, v) for a, v in co.items())))
            if key not in best or best[key][1] > k: best[key] = (co, k)
        rows = list(best.values())
        if not rows: return False
        # an equality with a unit coefficient: substitute (keeps the integer rounding of the other rows exact)
        eq = None
        for key, (co, k) in best.items():
            o = best.get(tuple((n, -v) for n, v in key))
            if o is not None and o[1] == -k:
                u = [a for a, v in co.items() if abs(v) == 1]
                if u: eq = (co, k, min(u, key=lambda x: -x.n)); break
        if eq:
            co, k, a = eq; v = co[a]; new = []
            for c2, k2 in rows:
                f = c2.get(a)
                if f:
                    d = dict(c2)
                    for x, y in co.items(): d[x] = d.get(x, 0) - y * f / v
                    c2, k2 = {x: y for x, y in d.items() if y}, k2 - k * f / v
                new.append(norm_row((c2, k2)))
            rows = new
            continue
        # pick the variable with the fewest products
        cnt = {}
        for co, k in rows:
            for a, v in co.items():
                p = cnt.setdefault(a, [0, 0]); p[v > 0] += 1
        a = min(cnt, key=lambda x: (cnt[x][0] * cnt[x][1], x.n))
        pos = [r for r in rows if r[0].get(a, 0) > 0]; neg = [r for r in rows if r[0].get(a, 0) < 0]; rest = [r for r in rows if a not in r[0]]
        if len(pos) * len(neg) > 600: return False
        for p in pos:
            for n in neg:
                cp, cn = p[0][a], -n[0][a]
                co = {}
                for x, v in p[0].items(): co[x] = co.get(x, 0) + v * cn
                for x, v in n[0].items(): co[x] = co.get(x, 0) + v * cp
                rest.append(norm_row(({x: v for x, v in co.items() if v}, p[1] * cn + n[1] * cp)))
        rows = rest
    return False


def rows_of(g, pol, integer=True):
    """constraint rows for a literal; None if not linear; a list of alternatives (each a list of rows)"""
    if g.op not in ('<', '<=', '=='): return None
    d = linear(arith('-', g.a[1], g.a[0]))
    if d is None: return None
    co, k = d
    ng = ({a: -v for a, v in co.items()}, -k)
    one = Q(1) if integer else Q(0)
    lt = lambda r: (r[0], r[1] - one)
    if g.op == '<': return [[lt((co, k))]] if pol else [[ng]]
    if g.op == '<=': return [[(co, k)]] if pol else [[lt(ng)]]
    if pol: return [[(co, k), ng]]
    return [[lt((co, k))], [lt(ng)]]


def divfacts(terms):
    """q = a idiv n for a positive constant n and a >= 0: n*q <= a <= n*q + n - 1; r = a % n similarly"""
    out = []
    for t in atoms(tuple(terms), lambda x: x.op in ('idiv', '%') and isnum(x.a[1]) and x.a[1].a[0] > 0):
        n = t.a[1]
        if t.op == 'idiv': r = arith('-', t.a[0], arith('*', n, t))
        else: r = t
        for lo, hi in ((ZERO, r), (r, arith('-', n, ONE))):
            x = rows_of(cmp_('<=', lo, hi), True)
            if x: out += x[0]
        if t.op == '%':
            q = mk('idiv', t.a[0], n)
            x = rows_of(cmp_('==', t.a[0], arith('+', arith('*', n, q), t)), True)
            if x: out += x[0]
    return out


def sat(f, facts=(), integer=True):
    base = []
    for x in facts:
        r = rows_of(x, True, integer)
        if r and len(r) == 1: base += r[0]
        elif not (isnum(x) and x.a[0]): f = band(f, x)
    base += divfacts([f] + list(facts))
    def go(f, rows):
        if DEADLINE[0] and time.time() > DEADLINE[0]: raise Budget()
        if isnum(f):
            return bool(f.a[0]) and not infeasible(rows)
        g = batoms(f)
        a = g[0]; inner = False
        for x in g:
            y = gates([x])                       # a gated value inside a comparison: decide its gate first
            if y is not None: a = y; inner = True; break
        for pol in (True, False):
            h = subst(f, {a: TRUE if pol else FALSE}) if inner else bsubst(f, a, pol)
            if isnum(h) and not h.a[0]: continue
            alts = rows_of(a, pol, integer) or [[]]
            for alt in alts:
                rr = rows + alt
                if alt and infeasible(rr): continue
                if go(h, rr): return True
        return False
    return go(f, base)


def bsubst(f, a, pol):
    """replace the boolean atom a (as a boolean position) by a constant"""
    if f is a: return TRUE if pol else FALSE
    if isnum(f): return f
    if f.op == '!': return bnot(bsubst(f.a[0], a, pol))
    if f.op == '&&': return band(bsubst(f.a[0], a, pol), bsubst(f.a[1], a, pol))
    if f.op == '||': return bor(bsubst(f.a[0], a, pol), bsubst(f.a[1], a, pol))
    if f.op == 'ite': return ite(bsubst(f.a[0], a, pol), bsubst(f.a[1], a, pol), bsubst(f.a[2], a, pol))
    return f


def entails(a, b, facts=(), integer=True): return not sat(band(a, bnot(b)), facts, integer)


def equiv(a, b, facts=(), integer=True): return entails(a, b, facts, integer) and entails(b, a, facts, integer)


BOOL = ('!', '&&', '||', '<', '<=', '==')


def gates(ts):
    """innermost-free boolean atoms of the ite gates in a list of terms"""
    for x in atoms(tuple(ts), lambda y: y.op == 'ite'):
        if not atoms(x.a[0], lambda z: z.op == 'ite' and z is not x.a[0]) or True:
            for g in batoms(x.a[0]):
                if not atoms(g, lambda z: z.op == 'ite'): return g
    for x in atoms(tuple(ts), lambda y: y.op in ('+', '-', '*', '/', 'idiv', '%') and any(z.op in BOOL for z in y.a if isinstance(z, T))):
        for z in x.a:                            # a truth value used as a number
            if isinstance(z, T) and z.op in BOOL:
                for g in batoms(z):
                    if not atoms(g, lambda w: w.op == 'ite'): return g
    return None


def same(xs, ys, assume=TRUE, facts=(), eq=None, depth=0):
    """first pair of leaves that can differ, or None"""
    if depth == 0 and eq is None:
        F = FastNorm()
        try:
            left = [(x, y) for x, y in zip(xs, ys) if not F.equal(x, y)]
        except (TooBig, RecursionError): left = list(zip(xs, ys))
        if not left: return None
        xs, ys = [x for x, _ in left], [y for _, y in left]
    g = gates(list(xs) + list(ys))
    if g is None or depth > 24:
        for x, y in zip(xs, ys):
            if not (eq(x, y, assume) if eq else term_equal(x, y, assume, facts)): return x, y, assume
        return None
    for pol in (True, False):
        a = band(assume, g if pol else bnot(g))
        if not sat(a, facts): continue
        m = {g: TRUE if pol else FALSE}
        r = same([subst(x, m) for x in xs], [subst(y, m) for y in ys], a, facts, eq, depth + 1)
        if r is not None: return r
    return None


def term_equal(x, y, assume=TRUE, facts=()):
    if x is y: return True
    x, y = divnorm(x), divnorm(y)
    N = Norm()
    if N.equal(x, y): return True
    if x.op == y.op == 'call' and x.a[:2] == y.a[:2] and len(x.a) == len(y.a): return all(term_equal(p, q, assume, facts) for p, q in zip(x.a[2:], y.a[2:]))
    if x.op in ('+', '-', '*', '/') and x.op == y.op: 
        if all(term_equal(p, q, assume, facts) for p, q in zip(x.a, y.a)): return True
    # elements of the same array at indexes that are equal under the assumptions
    cx = atoms((x,), lambda t: t.op == 'call'); cy = atoms((y,), lambda t: t.op == 'call')
    if cx and cy and x.op != 'call' and y.op != 'call':
        m = {}; rep = []
        for t in list(cx) + list(cy):
            for r in rep:
                if r is t or (r.a[:2] == t.a[:2] and len(r.a) == len(t.a) and all(term_equal(p, q, assume, facts) for p, q in zip(r.a[2:], t.a[2:]))):
                    if r is not t: m[t] = r
                    break
            else: rep.append(t)
        if m: return Norm().equal(subst(x, m), subst(y, m))
        return False
    # integers: equal under the assumptions
    if linear(x) is not None and linear(y) is not None:
        return entails(assume, cmp_('==', x, y), facts)
    return False
