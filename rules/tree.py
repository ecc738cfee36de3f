"""Tree indexes and binary trees: index arithmetic and the structural laws."""
from program import AnalysisBroken
from terms import *
from physics import leaves, add, mul, sub, div
from algebra import W, returns
from lin import same, entails, equiv
from ndarr import LE, LT, EQ, conj
import lazy


def prep(I): I.peel = 4; I.reclimit = 8; I.exact_try = True; I.deref_ite = True; lazy.prep(I)


def read(I, v):
    """a tree value as nested lists of leaf values"""
    if v is BOT: return None
    x = v
    if x.op == 'rec' and x.a[0].endswith('arithmetic_binary_tree_t'): x = dict(x.a[1])['__impl']
    if x.op != 'rec' or x.a[0] != 'std::variant': raise AnalysisBroken('not a tree: ' + show(v)[:200])
    d = dict(x.a[1])
    if not isnum(d['index']): raise AnalysisBroken('tree with a conditional shape: ' + show(d['index'])[:200])
    if d['index'].a[0] == 0: return d['alt']
    if d['alt'].op != 'ptr': raise AnalysisBroken('tree node without children: ' + show(d['alt'])[:200])
    ch = I.load(I.deref(d['alt']))
    while ch.op == 'rec': ch = ch.a[1][0][1]
    return [read(I, c) for c in ch.a]


def shape(d): return [d[0], [d[1], d[2], [d[3], d[4], d[5], d[6]], d[7]], d[8], d[9]]


def tmap(t, f): return [tmap(x, f) for x in t] if isinstance(t, list) else f(t)


def tzip(a, b, f): return [tzip(x, y, f) for x, y in zip(a, b)] if isinstance(a, list) else f(a, b)


def flat(t): return [y for x in t for y in flat(x)] if isinstance(t, list) else [t]


def skeleton(t): return tuple(skeleton(x) for x in t) if isinstance(t, list) else 0


def indexes(t, l=0, c=(0, 0)):
    if not isinstance(t, list): return (l,) + c
    return [indexes(x, l + 1, (2 * c[0] + (k & 1), 2 * c[1] + (k >> 1))) for k, x in enumerate(t)]


def lookup(t, l, c):
    """node at (level, coordinates) or None"""
    if any(not 0 <= x < (1 << l) for x in c): return None
    for b in range(l - 1, -1, -1):
        if not isinstance(t, list): return None
        t = t[((c[0] >> b) & 1) + 2 * ((c[1] >> b) & 1)]
    return t


def call(nm, *a): return mk('call', 'witness::' + nm, '', *a)


class Tree:
    def __init__(self, c): self.c = c; self.w = W(c, 'tree.cpp')

    def run(self, name):
        v = self.w.call(name, prep=prep)
        self.I = self.w.last; self.ret = returns(self.I); self.where = (self.w.site or ['?'])[0]
        self.A = [leaves(a) for a in self.w.args]
        self.facts = [LE(ZERO, x) for a in self.A for x in a if x.op == 'sym']
        return v

    def leafeq(self, name, got, want, assume=TRUE):
        d = ('%d values' % len(got), '%d values' % len(want), TRUE) if len(got) != len(want) else same(got, want, assume, self.facts)
        self.c.ob(name, d is None, self.where, d and '%s: the code computes %s, required %s' % (name, str(d[0])[:200], str(d[1])[:200]))

    def val(self, name, spec, pre=None):
        v = self.run(name)
        if v is BOT: return self.c.ob(name, False, self.where, name + ': the operation always throws')
        if not entails(pre(*self.A) if pre else TRUE, self.ret, self.facts): return self.c.ob(name, False, self.where, name + ': the operation can throw')
        want = spec(*self.A)
        self.leafeq(name, leaves(v), want if isinstance(want, list) else [want], pre(*self.A) if pre else TRUE)

    def throws(self, name):
        v = self.run(name)
        self.c.ob(name, not entails(TRUE, self.ret, self.facts) and not _sat(self.ret, self.facts), self.where, name + ': must throw, but can return')

    def tree(self, name, spec, post=lambda x: [x]):
        v = self.run(name)
        if not entails(TRUE, self.ret, self.facts): return self.c.ob(name, False, self.where, name + ': the operation can throw')
        t = read(self.I, v); want = spec(*self.A)
        if skeleton(t) != skeleton(want): return self.c.ob(name, False, self.where, '%s: the result has another shape: %s instead of %s' % (name, skeleton(t), skeleton(want)))
        got = [y for x in flat(t) for y in leaves(x)]; w2 = [y for x in flat(want) for y in post(x)]
        self.leafeq(name, got, w2)


def _sat(f, facts):
    from lin import sat
    return sat(f, facts)


def prop_tree(c):
    c.rule('index arithmetic for arbitrary coordinates and every tree operation on a three-level tree with arbitrary leaf values equal their definition (value graphs; linear integer reasoning with division facts)')
    c.assumptions += ['levels stay below 31 (1 << level is an int)']
    t = Tree(c); V, TR = t.val, t.tree
    half = lambda x: intdiv(x, num(2)); mod2 = lambda x: bitop('%', x, num(2))
    for k in range(4):
        V('child%d' % k, lambda x: [add(x[0], ONE)] + [add(mul(num(2), x[1 + d]), num((k >> d) & 1)) for d in (0, 1)])
        V('parchild%d' % k, lambda x: list(x)); V('orthchild%d' % k, lambda x: num(k))
    V('child3d', lambda x: [add(x[0], ONE), add(mul(num(2), x[1]), ONE), mul(num(2), x[2]), add(mul(num(2), x[3]), ONE)])
    V('child1d', lambda x: [add(x[0], ONE), add(mul(num(2), x[1]), ONE)])
    for s in ('', '3'):
        V('parent' + s, lambda x: [sub(x[0], ONE)] + [half(y) for y in x[1:]])
        V('relpar' + s, lambda x: [ONE] + [mod2(y) for y in x[1:]])
    V('withlev', lambda x, l: [l[0]] + list(x[1:])); V('mki', lambda i, j, k: [ZERO, i[0], j[0], k[0]])
    eqv = lambda x, y: conj(*[EQ(p, q) for p, q in zip(x, y)])
    for nm, f in (('ieq', eqv), ('ine', lambda x, y: bnot(eqv(x, y)))):
        v = t.run(nm); c.ob(nm, equiv(v, f(*t.A), t.facts), t.where, 'index comparison is not equality of level and all coordinates')
    for L in (0, 1, 2, 7):
        n = num(1 << L); ins = lambda i, j: conj(LT(i[0], n), LT(j[0], n))
        up = lambda x: ite(EQ(add(x, ONE), n), ZERO, add(x, ONE)); dn = lambda x: ite(EQ(x, ZERO), sub(n, ONE), sub(x, ONE))
        V('next0_%d' % L, lambda i, j: [num(L), up(i[0]), j[0]], ins); V('next1_%d' % L, lambda i, j: [num(L), i[0], up(j[0])], ins)
        V('prev0_%d' % L, lambda i, j: [num(L), dn(i[0]), j[0]], ins); V('prev1_%d' % L, lambda i, j: [num(L), i[0], dn(j[0])], ins)
        v = t.run('valid_%d' % L); c.ob('valid_%d' % L, equiv(v, ins(*t.A), t.facts), t.where, 'valid() at level %d is not "all coordinates below %d"' % (L, 1 << L))
    for L in (1, 2, 5):
        n = num(1 << L); h = num(1 << (L - 1)); ins = lambda i, j: conj(LT(i[0], n), LT(j[0], n))
        for d in (0, 1):
            v = t.run('orth%d_%d' % (d, L)); x = t.A[d][0]
            c.ob('orth%d_%d' % (d, L), entails(band(ins(*t.A), v), LE(h, x), t.facts) and entails(conj(ins(*t.A), LE(h, x)), v, t.facts), t.where, 'orthant bit %d at level %d is not "upper half"' % (d, L))
        V('adv_%d' % L, lambda i, j: [num(L - 1)] + [ite(LT(x, h), x, sub(x, h)) for x in (i[0], j[0])], ins)
    for n in range(8):
        for b in range(3): V('br%d_%d' % (n, b), lambda: num((n >> b) & 1))
        V('ti%d' % n, lambda: num(n))
    for L in (1, 2, 3):
        seen = {}
        for i in range(1 << L):
            for j in range(1 << L):
                v = t.run('hb_%d_%d_%d' % (L, i, j))
                if not isnum(v): raise AnalysisBroken('hilbert index is not a constant')
                seen.setdefault(int(v.a[0]), []).append((i, j))
        n = 4 ** L
        ok = sorted(seen) == list(range(n))
        c.ob('hilbert:%d:bijective' % L, ok, t.where, 'level %d: %d distinct Hilbert indexes for %d nodes' % (L, len(seen), n))
        c.ob('hilbert:%d:adjacent' % L, ok and all(abs(seen[k][0][0] - seen[k + 1][0][0]) + abs(seen[k][0][1] - seen[k + 1][0][1]) == 1 for k in range(n - 1)), t.where, 'level %d: consecutive nodes on the Hilbert curve are not neighbours' % L)
    # structure
    S = shape
    TR('tree', S); V('size', lambda d: num(10)); V('depth', lambda d: num(3)); V('front', lambda d: d[0]); V('size0', lambda d: ONE); V('depth0', lambda d: ZERO)
    V('sum', lambda d: add(*d))
    def fold(op): return lambda d: [_fold(op, d)]
    for nm, op in (('mn', 'min'), ('mx', 'max')):
        v = t.run(nm); c.ob(nm, _minmax(v, op) == set(t.A[0]), t.where, '%s() is not the %s over all leaves' % (op, op))
    for nm, f in (('any', bor), ('all', band)):
        v = t.run(nm); w = None
        for x in t.A[0]: w = call('p', x) if w is None else f(w, call('p', x))
        c.ob(nm, _boolsame(v, w), t.where, '%s() is not the %s of all leaves' % (nm, 'disjunction' if nm == 'any' else 'conjunction'))
    g = lambda x: call('g', x); h = lambda x, y: call('h', x, y); q = lambda x, k: call('q', x, num(k))
    TR('map', lambda d: tmap(S(d), g))
    TR('indexes', lambda d: indexes(S(d)), lambda x: [num(y) for y in x])
    for nm in ('binop', 'pairapply', 'applyto'): TR(nm, lambda d, e: tzip(S(d), S(e), h))
    TR('pairidx', lambda d: tzip(S(d), indexes(S(d)), lambda x, i: q(x, i[0] * 100 + i[1] * 10 + i[2])))
    t.throws('mism1'); t.throws('mism2')
    bif = lambda x: [q(x, k) for k in range(4)]
    TR('bifall', lambda d: tmap(S(d), bif)); TR('bifyes', lambda d: tmap(S(d), bif)); TR('bifno', S)
    V('bifone', lambda d: ite(call('p', d[0]), q(d[0], 1), d[0]))
    TR('updleaf', lambda d: [d[0], [d[1], d[2], [d[3], d[4], d[5], d[6]], g(d[7])], d[8], d[9]])
    TR('updnode', lambda d: [d[0], [d[1], d[2], [g(d[3]), g(d[4]), g(d[5]), g(d[6])], d[7]], d[8], d[9]])
    TR('updroot', lambda d: tmap(S(d), g)); t.throws('updbad')
    TR('insleaf', lambda d, v: [d[0], [v[0], d[2], [d[3], d[4], d[5], d[6]], d[7]], d[8], d[9]])
    TR('insdeep', lambda d, v: [[ZERO, v[0], ZERO, ZERO], [d[1], d[2], [d[3], d[4], d[5], d[6]], d[7]], d[8], d[9]])
    t.throws('insnode'); TR('insroot', lambda d, v: v[0]); t.throws('insrange')
    TR('treeof', lambda d: list(d))
    V('contains3', lambda d: num(9)); V('at3', lambda d: d[5]); V('at3b', lambda d: d[6]); V('childat', lambda d: d[6]); V('childat3', lambda d: d[2])
    t.throws('valnode'); t.throws('chleaf')
    for nm, f in (('plus', add), ('minus', sub), ('mul', mul), ('div', div)):
        TR('t' + nm, lambda d, e: tzip(S(d), S(e), f)); TR('s' + nm, lambda d, e: tmap(S(d), lambda x: f(x, e[0])))
    for nm, f in (('eq', lambda x, y: cmp_('==', x, y)), ('ne', lambda x, y: cmp_('!=', x, y)), ('le', lambda x, y: cmp_('<=', x, y)), ('ge', lambda x, y: cmp_('>=', x, y)), ('lt', lambda x, y: cmp_('<', x, y)), ('gt', lambda x, y: cmp_('>', x, y))):
        booltree(t, 't' + nm, lambda d, e: tzip(S(d), S(e), f)); booltree(t, 's' + nm, lambda d, e: tmap(S(d), lambda x: f(x, e[0])))
    pc = lambda x: call('p', x)
    for nm, f in (('and', band), ('or', bor)):
        booltree(t, 't' + nm, lambda d, e: tzip(S(d), S(e), lambda x, y: f(pc(x), pc(y)))); booltree(t, 's' + nm, lambda d, e: tmap(S(d), lambda x: f(pc(x), e[0])))
    TR('neg', lambda d: tmap(S(d), lambda x: sub(ZERO, x))); TR('pos', S)
    for L, i, j in [(0, 0, 0), (0, 1, 0)] + [(1, i, j) for i in range(3) for j in range(2)] + [(2, i, j) for i in range(4) for j in range(4)] + [(3, i, j) for i, j in ((4, 2), (5, 2), (4, 3), (5, 3), (3, 2), (7, 7), (4, 4), (0, 0))]:
        k = '%d_%d_%d' % (L, i, j)
        look = lambda d: lookup(S(d), L, (i, j))
        v = look(list(range(10))); leaf = v is not None and not isinstance(v, list)
        V('has_' + k, lambda d: num(int(leaf))); V('node_' + k, lambda d: num(int(v is not None)))
        V('fnd_' + k, lambda d: look(d) if leaf else sub(d[0], ONE))
        if leaf: V('at_' + k, lambda d: look(d))
        else: t.throws('at_' + k)
        if v is not None: V('nds_' + k, lambda d: num(len(flat(look(d)))))
        else: t.throws('nds_' + k)
    # a leaf is over-refined when a same-level neighbour node (periodic) has depth > 1 below it
    def over(d):
        def f(x, i):
            l, a, b = i; n = 1 << l
            def dep(t): return 1 + max(dep(y) for y in t) if isinstance(t, list) else 0
            r = False
            for c2 in (((a + 1) % n, b), ((a - 1) % n, b), (a, (b + 1) % n), (a, (b - 1) % n)):
                nd = lookup(d, l, c2)
                if nd is not None and dep(nd) > 1: r = True
            return num(int(r))
        return tzip(d, indexes(d), f)
    booltree(t, 'over', lambda d: over(S(d))); booltree(t, 'overs', lambda d: over([d[0], d[1], d[8], d[9]]))
    qd = lambda x: [x] * 4
    booltree(t, 'overd', lambda d: over([[d[0], d[1], d[2], [d[3], qd(d[4]), d[5], d[6]]], qd(d[7]), qd(d[8]), qd(d[9])]))
    c.minimum = 300


def booltree(t, name, spec):
    v = t.run(name)
    got = read(t.I, v); want = spec(*t.A)
    if skeleton(got) != skeleton(want): return t.c.ob(name, False, t.where, name + ': the result has another shape')
    ok = all(_boolsame(x, y) for x, y in zip(flat(got), flat(want)))
    t.c.ob(name, ok and entails(TRUE, t.ret, t.facts), t.where, name + ': not the leaf-wise comparison')


def _boolsame(a, b):
    from props_bool import implies
    return a is b or (implies(a, b) and implies(b, a))


def _minmax(v, op):
    if v.op == op: return _minmax(v.a[0], op) | _minmax(v.a[1], op)
    if v.op == 'ite' and v.a[0].op in ('<', '<='):
        x, y = v.a[0].a; 
        if {v.a[1], v.a[2]} == {x, y} and (v.a[1] is x) == (op == 'min'): return _minmax(x, op) | _minmax(y, op)
    return {v}
