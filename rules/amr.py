"""Block refinement and coarsening: which coarse/fine element every refined, coarsened or assembled element comes from."""
from program import AnalysisBroken
from terms import *
from physics import leaves, add, mul, sub, div
from lin import same, entails, equiv, divnorm
from ndarr import ND, LE, LT, EQ, conj, F
import lazy


def prep(I): I.peel = 4; I.reclimit = 8; I.exact_try = True; I.deref_ite = True; lazy.prep(I)


class AMR(ND):
    def call(self, name):
        import ndarr
        old = ndarr.prep; ndarr.prep = prep
        try: r, A = ND.call(self, name)
        finally: ndarr.prep = old
        self.ret = strip_caught(self.ret)
        return r, A


def strip_caught(t):
    for x in atoms(t, lambda y: y.op == 'caught'): t = subst(t, {x: FALSE})
    return t


def bits(k, n): return [(k >> b) & 1 for b in range(n)]


def prop_blocks(c):
    c.rule('the value graph of every refined, coarsened, combined or looked-up block at an arbitrary index equals the element(s) of the source block the index law names; guards by linear integer reasoning')
    c.assumptions += ['block shapes are as the operation requires (odd/even); sizes do not wrap around', 'evaluation of an array to memory is the identity (C11)']
    n = AMR(c, 'amr.cpp')
    fs = {1: F('a1'), 2: F('a2'), 3: F('a3')}
    cs = {1: F('c1'), 2: F('c2'), 3: F('c3')}
    i0 = lambda idx: [x[0] for x in idx]
    half = lambda x: intdiv(x, num(2))
    for R in (1, 2, 3):
        a = fs[R]
        for k in range(1 << R):
            o = bits(k, R)
            # cell (i..) of child k is the coarse cell below it
            n.val('rc%d_%d' % (R, k), lambda s, *i: a(*[half(add(mul(num(o[d]), s[d]), i[d][0])) for d in range(R)]), lambda s, *i: conj(*[LT(i[d][0], s[d]) for d in range(R)]))
            n.val('rc%d_%d_shape' % (R, k), lambda s: list(s))
            # vertex (i..) of child k: a coarse vertex or the midpoint of its neighbours
            def rv(s, *i):
                f = lambda *ix: a(*ix)
                p = [add(mul(num(o[d]), sub(s[d], ONE)), i[d][0]) for d in range(R)]
                tot = None
                for m in range(1 << R):
                    b = bits(m, R)
                    t = a(*[add(half(p[d]), bitop('%', p[d], num(2))) if b[d] else half(p[d]) for d in range(R)])
                    tot = t if tot is None else add(tot, t)
                return div(tot, num(1 << R))
            if R < 3 or c.tier == 'thorough' or k in (0, 2, 5): n.val('rv%d_%d' % (R, k), rv, lambda s, *i: conj(*[conj(LT(i[d][0], s[d]), LE(num(2), s[d])) for d in range(R)]))
            n.val('rv%d_%d_shape' % (R, k), lambda s: list(s), lambda s: conj(*[LE(num(2), x) for x in s]))
        def cc(s, *i):
            tot = None
            for m in range(1 << R):
                t = a(*[add(mul(num(2), i[d][0]), num(bits(m, R)[d])) for d in range(R)])
                tot = t if tot is None else add(tot, t)
            return div(tot, num(1 << R))
        n.val('cc%d' % R, cc)
        even = lambda s: [EQ(bitop('%', x, num(2)), ZERO) for x in s]
        n.val('cc%d_shape' % R, lambda s: [half(x) for x in s], lambda s: conj(*[LE(num(2), x) for x in s], *even(s)))
        n.val('cv%d' % R, lambda s, *i: a(*[mul(num(2), x[0]) for x in i]))
        n.val('cv%d_shape' % R, lambda s: [half(add(x, ONE)) for x in s], lambda s: conj(*[LE(num(1), x) for x in s]))
        # combination of 2^R equally shaped blocks
        def kc(s, *i):
            def go(d, blk, idx):
                if d < 0: return cs[R](num(blk), *idx)
                x = i[d][0]; lo = list(idx); hi = list(idx); lo[d] = x; hi[d] = sub(x, s[d])
                return ite(LT(x, s[d]), go(d - 1, blk, lo), go(d - 1, blk + (1 << d), hi))
            return go(R - 1, 0, [ZERO] * R)
        n.val('kc%d' % R, kc); n.val('kc%d_shape' % R, lambda s: [mul(num(2), x) for x in s])
        if R < 3:
            def kv(s, *i):
                def go(d, blk, idx):
                    if d < 0: return cs[R](num(blk), *idx)
                    x = i[d][0]; lo = list(idx); hi = list(idx); lo[d] = x; hi[d] = sub(x, sub(s[d], ONE))
                    return ite(LT(x, sub(s[d], ONE)), go(d - 1, blk, lo), go(d - 1, blk + (1 << d), hi))
                return go(R - 1, 0, [ZERO] * R)
            pre = lambda s, *i: conj(*[LE(ONE, x) for x in s])
            n.val('kv%d' % R, kv, pre); n.val('kv%d_shape' % R, lambda s: [sub(mul(num(2), x), ONE) for x in s], pre)
    a = fs[2]
    for ax in (0, 1):
        def re(s, i, j):
            x = [i[0], j[0]]; y = [i[0], j[0]]; x[ax] = mul(num(2), x[ax]); y[ax] = add(x[ax], ONE)
            return add(a(*x), a(*y))
        n.val('re%d' % ax, re)
        n.val('re%d_shape' % ax, lambda s: [half(x) if d == ax else x for d, x in enumerate(s)], lambda s: conj(LE(num(2), s[ax]), EQ(bitop('%', s[ax], num(2)), ZERO)))
    odd = lambda x: EQ(bitop('%', x, num(2)), ONE); ev = lambda x: EQ(bitop('%', x, num(2)), ZERO)
    ne = lambda s: list(s)
    n.val('bcl0', lambda s, i, j: a(i[0], j[0])); n.val('bcl0_shape', lambda s: [half(s[0]), s[1]], guard=lambda s: ev(s[0]), ne=ne)
    n.val('bcu1', lambda s, i, j: a(i[0], add(half(s[1]), j[0]))); n.val('bcu1_shape', lambda s: [s[0], half(s[1])], guard=lambda s: ev(s[1]), ne=ne)
    n.val('bvl0', lambda s, i, j: a(i[0], j[0])); n.val('bvl0_shape', lambda s: [add(half(s[0]), ONE), s[1]], guard=lambda s: odd(s[0]), ne=ne)
    n.val('bvu1', lambda s, i, j: a(i[0], add(half(s[1]), j[0]))); n.val('bvu1_shape', lambda s: [s[0], sub(s[1], half(s[1]))], guard=lambda s: odd(s[1]), ne=ne)
    # block look-up in a quad-tree with one refined quadrant
    c2 = cs[2]
    inb = lambda s, i, j: conj(LT(i[0], s[0]), LT(j[0], s[1]))
    inv = lambda s, i, j: conj(LT(i[0], s[0]), LT(j[0], s[1]), LE(num(3), s[0]), LE(num(3), s[1]), odd(s[0]), odd(s[1]))
    incell = lambda s, i, j: conj(LT(i[0], s[0]), LT(j[0], s[1]), ev(s[0]), ev(s[1]))
    for nm, b in (('leaf1', 0), ('leaf2', 10), ('leaf3', 13)):
        for p in ('cb_', 'vb_'):
            n.val(p + nm, lambda s, i, j: c2(num(b), i[0], j[0])); n.val(p + nm + '_shape', lambda s: list(s))
    for nm, b, o in (('up00', 0, (0, 0)), ('up10', 0, (1, 0)), ('up01', 0, (0, 1)), ('up11', 0, (1, 1)), ('up23', 3, (0, 1))):
        n.val('cb_' + nm, lambda s, i, j: c2(num(b), half(add(mul(num(o[0]), s[0]), i[0])), half(add(mul(num(o[1]), s[1]), j[0]))), inb)
        n.val('cb_' + nm + '_shape', lambda s: list(s))
        def rv(s, i, j):
            p = [add(mul(num(o[d]), sub(s[d], ONE)), x[0]) for d, x in enumerate((i, j))]
            tot = None
            for m in range(4):
                e = bits(m, 2); t = c2(num(b), *[add(half(p[d]), bitop('%', p[d], num(2))) if e[d] else half(p[d]) for d in (0, 1)])
                tot = t if tot is None else add(tot, t)
            return div(tot, num(4))
        n.val('vb_' + nm, rv, lambda s, i, j: conj(inb(s, i, j), LE(num(2), s[0]), LE(num(2), s[1])))
        n.val('vb_' + nm + '_shape', lambda s: list(s), lambda s: conj(LE(num(2), s[0]), LE(num(2), s[1])))
    def down(s, i, j):
        def go(d, blk, idx):
            if d < 0:
                tot = None
                for m in range(4):
                    e = bits(m, 2); t = c2(num(blk), add(idx[0], num(e[0])), add(idx[1], num(e[1])))
                    tot = t if tot is None else add(tot, t)
                return div(tot, num(4))
            x = mul(num(2), (i, j)[d][0]); lo = list(idx); hi = list(idx); lo[d] = x; hi[d] = sub(x, s[d])
            return ite(LT(x, s[d]), go(d - 1, blk, lo), go(d - 1, blk + (1 << d), hi))
        return go(1, 10, [ZERO, ZERO])
    n.val('cb_down', down, incell); n.val('cb_down_shape', lambda s: list(s), lambda s: conj(LE(num(2), s[0]), LE(num(2), s[1]), ev(s[0]), ev(s[1])))
    def vdown(s, i, j):
        def go(d, blk, idx):
            if d < 0: return c2(num(blk), *idx)
            x = mul(num(2), (i, j)[d][0]); lo = list(idx); hi = list(idx); lo[d] = x; hi[d] = sub(x, sub(s[d], ONE))
            return ite(LT(x, sub(s[d], ONE)), go(d - 1, blk, lo), go(d - 1, blk + (1 << d), hi))
        return go(1, 10, [ZERO, ZERO])
    n.val('vb_down', vdown, inv); n.val('vb_down_shape', lambda s: list(s), lambda s: conj(LE(num(3), s[0]), LE(num(3), s[1]), odd(s[0]), odd(s[1])))
    n.val('cb_post', lambda s, i, j: c2(ZERO, half(add(s[0], sub(s[0], ONE), i[0])), half(j[0])), lambda s, i, j: conj(EQ(i[0], ZERO), LT(j[0], s[1]), LE(num(2), s[0])))
    c.minimum = 100
