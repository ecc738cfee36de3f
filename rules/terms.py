"""Hash-consed value terms (value numbers) and an exact algebraic normal form.

Two expressions that receive the same value number compute the same value (over
the reals; floating-point rounding is abstracted away).  The normal form is that
of rational functions over atoms, with sqrt(x)^2 = x, so re-association,
distribution, factoring and temporaries do not change it."""
import time
from fractions import Fraction as Q

_table = {}
_n = 0


class T:
    __slots__ = ('op', 'a', 'n')

    def __repr__(self): return show(self)

    def __lt__(self, o): return self.n < o.n


def mk(op, *a):
    global _n
    key = (op,) + a
    t = _table.get(key)
    if t is None:
        t = T(); t.op = op; t.a = a; t.n = _n; _n += 1
        _table[key] = t
    return t


def num(x): return mk('num', Q(x))
def sym(s): return mk('sym', s)
def st(s): return mk('str', s)


TRUE = num(1); FALSE = num(0); ZERO = FALSE; ONE = TRUE
VOID = mk('void')
BOT = mk('bot')


def isnum(t): return t.op == 'num'


def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple): return '(' + ','.join(show(x, d + 1) for x in t) + ')'
        return str(t)
    if d > 12: return '...'
    if t.op == 'num': return str(t.a[0])
    if t.op == 'sym': return t.a[0]
    if t.op == 'str': return repr(t.a[0])
    if t.op == 'fld': return show(t.a[0], d + 1) + '.' + str(t.a[1])
    if t.op == 'elem': return show(t.a[0], d + 1) + '[' + show(t.a[1], d + 1) + ']'
    if t.op in ('+', '-', '*', '/', '<', '<=', '==', '&&', '||') and len(t.a) == 2:
        return '(' + show(t.a[0], d + 1) + ' ' + t.op + ' ' + show(t.a[1], d + 1) + ')'
    if t.op == 'rec': return t.a[0].split('::')[-1] + '{' + ', '.join('%s=%s' % (k, show(v, d + 1)) for k, v in t.a[1]) + '}'
    return t.op + '(' + ', '.join(show(x, d + 1) for x in t.a) + ')'


# ------------------------------------------------------------------ booleans
def bnot(c):
    if isnum(c): return num(0 if c.a[0] else 1)
    if c.op == '!': return c.a[0]
    return mk('!', c)


def band(a, b):
    if isnum(a): return b if a.a[0] else FALSE
    if isnum(b): return a if b.a[0] else FALSE
    if a is b: return a
    if bnot(a) is b: return FALSE
    return mk('&&', a, b)


def bor(a, b):
    if isnum(a): return TRUE if a.a[0] else b
    if isnum(b): return TRUE if b.a[0] else a
    if a is b: return a
    if bnot(a) is b: return TRUE
    return mk('||', a, b)


def ite(c, a, b):
    if isnum(c): return a if c.a[0] else b
    if a is b: return a
    if c.op == '!': return ite(c.a[0], b, a)
    if a is BOT: return b
    if b is BOT: return a
    if a.op == 'rec' and b.op == 'rec' and a.a[0] == b.a[0] and [k for k, _ in a.a[1]] == [k for k, _ in b.a[1]]:
        return mk('rec', a.a[0], tuple((k, ite(c, v, w)) for (k, v), (_, w) in zip(a.a[1], b.a[1])))
    if a.op == b.op and a.op in ('tup', 'arr') and len(a.a) == len(b.a):
        return mk(a.op, *[ite(c, x, y) for x, y in zip(a.a, b.a)])
    if a.op == 'ite' and a.a[0] is c: a = a.a[1]
    if b.op == 'ite' and b.a[0] is c: b = b.a[2]
    if isnum(a) and isnum(b) and a.a[0] == 1 and b.a[0] == 0 and c.op in ('<', '<=', '==', '&&', '||', '!'): return c
    if isnum(a) and isnum(b) and a.a[0] == 0 and b.a[0] == 1 and c.op in ('<', '<=', '==', '&&', '||', '!', 'call'): return bnot(c)
    return mk('ite', c, a, b)


# ------------------------------------------------------------------ arithmetic
COMM = {'+', '*', '==', 'min', 'max'}


def arith(op, a, b):
    if isnum(a) and isnum(b):
        x, y = a.a[0], b.a[0]
        if op == '+': return num(x + y)
        if op == '-': return num(x - y)
        if op == '*': return num(x * y)
        if op == '/' and y != 0: return num(x / y)
    if op == '+':
        if isnum(a) and a.a[0] == 0: return b
        if isnum(b) and b.a[0] == 0: return a
    if op == '-' and isnum(b) and b.a[0] == 0: return a
    if op == '*':
        if isnum(a) and a.a[0] == 1: return b
        if isnum(b) and b.a[0] == 1: return a
    if op == '/' and isnum(b) and b.a[0] == 1: return a
    return mk(op, a, b)


def cmp_(op, a, b):
    if op == '>': return cmp_('<', b, a)
    if op == '>=': return cmp_('<=', b, a)
    if op == '!=': return bnot(cmp_('==', a, b))
    if isnum(a) and isnum(b):
        x, y = a.a[0], b.a[0]
        return num(int({'<': x < y, '<=': x <= y, '==': x == y}[op]))
    if a.op == 'str' and b.op == 'str' and op == '==': return num(int(a.a[0] == b.a[0]))
    if op == '==':
        for x, y in ((a, b), (b, a)):
            if x.op == 'ite' and ptrleaf(x) and y.op in ('ptr', 'nullptr'): return ite(x.a[0], cmp_(op, x.a[1], y), cmp_(op, x.a[2], y))
    if isnum(a) and b.op == 'ite' and isnum(b.a[1]) and isnum(b.a[2]): return ite(b.a[0], cmp_(op, a, b.a[1]), cmp_(op, a, b.a[2])) if b.a[0].op in ('<', '<=', '==', '&&', '||', '!', 'call', 'ite') else mk(op, a, b)
    if isnum(b) and a.op == 'ite' and isnum(a.a[1]) and isnum(a.a[2]): return ite(a.a[0], cmp_(op, a.a[1], b), cmp_(op, a.a[2], b)) if a.a[0].op in ('<', '<=', '==', '&&', '||', '!', 'call', 'ite') else (mk(op, b, a) if op == '==' and a.n > b.n else mk(op, a, b))
    if op == '==':
        if a is b and a.op not in ('call', 'fresh'): return TRUE
        if a.n > b.n: a, b = b, a
    if a.op == 'ptr' and b.op == 'ptr' and a.a[0] == b.a[0] and a.a[1][:-1] == b.a[1][:-1] and a.a[1] and b.a[1] and a.a[1][-1][0] == 'i' and b.a[1][-1][0] == 'i':
        return cmp_(op, a.a[1][-1][1], b.a[1][-1][1])
    if op == '==' and {a.op, b.op} == {'spos', 'num'} and any(isnum(x) and x.a[0] >= 2 ** 63 for x in (a, b)): return FALSE     # a found position is not npos
    if op == '==' and {a.op, b.op} == {'ptr', 'nullptr'}: return FALSE
    if op == '==' and a.op == 'ptr' and b.op == 'ptr' and isinstance(a.a[0], int) and isinstance(b.a[0], int) and a.a[0] != b.a[0]: return FALSE
    for x, y in ((a, b), (b, a)):
        if x.op in ('&&', '||', '!', '<', '<=', '==') and isnum(y): return ite(x, cmp_(op, ONE, y) if x is a else cmp_(op, y, ONE), cmp_(op, ZERO, y) if x is a else cmp_(op, y, ZERO))
    if op == '<' and isnum(b) and a.op == 'max' and any(isnum(z) and z.a[0] >= b.a[0] for z in a.a): return FALSE
    for x, y, o in ((a, b, op), (b, a, {'<': '>', '<=': '>=', '==': '=='}[op])):
        if x.op == 'max' and isnum(y) and any(isnum(z) and z.a[0] > y.a[0] for z in x.a): return TRUE if o in ('>', '>=') else FALSE
        if x.op == 'min' and isnum(y) and any(isnum(z) and z.a[0] < y.a[0] for z in x.a): return TRUE if o in ('<', '<=') else FALSE
    for x, y, o in ((a, b, op), (b, a, {'<': '>', '<=': '>=', '==': '=='}[op])):        # lengths of names: assumed non-negative and below 256
        if x.op == 'strlen' and isnum(y) and x.a[0].op == 'sstr':
            m = sum(len(z.a[0]) if z.op == 'str' else 1 if z.op == 'dec' else 0 for z in x.a[0].a)
            if y.a[0] < m: return TRUE if o in ('>', '>=') else FALSE
        if x.op == 'shortlen' and isnum(y):
            if y.a[0] >= 256: return TRUE if o in ('<', '<=') else FALSE
            if y.a[0] < 0 or y.a[0] == 0 and o in ('<', '>='): return FALSE if o in ('<', '<=', '==') else TRUE
    return mk(op, a, b)


def ptrleaf(t): return ptrleaf(t.a[1]) and ptrleaf(t.a[2]) if t.op == 'ite' else t.op in ('ptr', 'nullptr')


def intdiv(a, b):
    if isnum(a) and isnum(b) and b.a[0] != 0:
        x, y = int(a.a[0]), int(b.a[0]); q = abs(x) // abs(y)
        return num(q if (x < 0) == (y < 0) else -q)
    if isnum(b) and b.a[0] == 1: return a
    return mk('idiv', a, b)


def bitop(op, a, b):
    if isnum(a) and isnum(b):
        x, y = int(a.a[0]), int(b.a[0])
        if op == '%' and y: return num(abs(x) % abs(y) * (1 if x >= 0 else -1))
        if op == '<<': return num(x << y)
        if op == '>>': return num(x >> y)
        if op == '&': return num(x & y)
        if op == '|': return num(x | y)
        if op == '^': return num(x ^ y)
    if op == '%' and isnum(b) and b.a[0] == 1: return num(0)
    # shifts and masks by constants (of non-negative integers) are divisions and remainders by powers of two
    if op == '>>' and isnum(b): return intdiv(a, num(1 << int(b.a[0])))
    if op == '<<' and isnum(b): return arith('*', a, num(1 << int(b.a[0])))
    if op == '&':
        if isnum(a): a, b = b, a
        if isnum(b) and b.a[0] >= 0:
            m = int(b.a[0])
            if m & (m + 1) == 0: return bitop('%', a, num(m + 1))
            if m & (m - 1) == 0: return arith('*', bitop('%', intdiv(a, num(m)), num(2)), num(m))
    return mk(op, a, b)


def subst(t, m, memo=None):
    """replace sub-terms by a dict term->term"""
    if memo is None: memo = {}
    if not isinstance(t, T):
        if isinstance(t, tuple): return tuple(subst(x, m, memo) for x in t)
        return t
    if t in m: return m[t]
    r = memo.get(t)
    if r is not None: return r
    if not t.a or t.op in ('num', 'sym', 'str'): r = t
    else:
        a = tuple(subst(x, m, memo) for x in t.a)
        r = rebuild(t.op, a) if a != t.a else t
    memo[t] = r
    return r


def rebuild(op, a):
    if op in ('+', '-', '*', '/') and len(a) == 2: return arith(op, *a)
    if op in ('<', '<=', '=='): return cmp_(op, *a)
    if op == '&&': return band(*a)
    if op == '||': return bor(*a)
    if op == '!': return bnot(*a)
    if op == 'ite': return ite(*a)
    if op == 'idiv': return intdiv(*a)
    if op in ('%', '<<', '>>', '&', '|', '^'): return bitop(op, *a)
    if op == 'fld':
        from vg import select
        return select(a[0], ('f', a[1]))
    if op == 'elem':
        from vg import select
        return select(a[0], ('i', a[1]))
    return mk(op, *a)


def atoms(t, pred, out=None, seen=None):
    if out is None: out = []; seen = set()
    if isinstance(t, tuple):
        for x in t: atoms(x, pred, out, seen)
        return out
    if not isinstance(t, T) or t in seen: return out
    seen.add(t)
    if pred(t): out.append(t)
    for x in t.a: atoms(x, pred, out, seen)
    return out


# ------------------------------------------------------------------ rational normal form
class Poly:
    """polynomial: dict monomial -> coefficient; monomial = tuple of (atom, exp) sorted by atom number"""
    __slots__ = ('d',)

    def __init__(self, d): self.d = d


def pconst(q): return {(): q} if q else {}


def padd(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + s * c
        if v: r[m] = v
        else: r.pop(m, None)
    return r


def mmul(m, n):
    d = dict(m)
    for a, e in n: d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda x: x[0].n))


deadline = [None]        # time at which the normalisation of the term at hand is given up


def late():
    if deadline[0] is not None and time.time() > deadline[0]: raise TooBig()


def pmul(p, q):
    r = {}
    if deadline[0] is not None: late()
    for m, c in p.items():
        if deadline[0] is not None and len(q) > 200: late()
        for n, e in q.items():
            k = mmul(m, n); v = r.get(k, 0) + c * e
            if v: r[k] = v
            else: r.pop(k, None)
    return r


class TooBig(Exception): pass


LIMIT = 60000


class Norm:
    """normaliser under a set of assumptions (truth of comparison terms, supplied by `decide`)"""

    def __init__(self, decide=None):
        self.memo = {}
        self.decide = decide
        self.atommap = {}

    def nf(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._nf(t)
            if len(r[0]) > LIMIT or len(r[1]) > LIMIT: raise TooBig()
            self.memo[t] = r
        return r

    def atom(self, t):
        return ({((t, 1),): Q(1)}, pconst(Q(1)))

    def canon(self, t):
        """canonical atom for a normalised argument"""
        n = self.nf(t)
        return mk('nf', *self.freeze(n))

    def freeze(self, n):
        p, q = self.reduce(n)
        f = lambda d: tuple(sorted(((tuple((a.n, e) for a, e in m), c) for m, c in d.items()), key=repr))
        return f(p), f(q)

    def reduce(self, n, gcd=True):
        """light canonicalisation of num/den: common monomial factors and scalar content"""
        p, q = self.sqrtred(n[0]), self.sqrtred(n[1])
        if not p: return {}, pconst(Q(1))
        common = None
        for m in list(p) + list(q):
            d = dict(m)
            if common is None: common = d
            else: common = {a: min(e, d[a]) for a, e in common.items() if a in d}
            if not common: break
        if common:
            f = lambda m: tuple((a, e - common.get(a, 0)) for a, e in m if e - common.get(a, 0))
            p = {f(m): c for m, c in p.items()}; q = {f(m): c for m, c in q.items()}
        lead = q[min(q, key=lambda m: repr([(a.n, e) for a, e in m]))]
        if lead != 1:
            p = {m: c / lead for m, c in p.items()}; q = {m: c / lead for m, c in q.items()}
        # exact division p/q when possible
        if len(q) > 1 or () not in q:
            d = pdivexact(p, q)
            if d is not None: return d, pconst(Q(1))
            if len(p) > 1:
                d = pdivexact(q, p)
                if d is not None:
                    return pconst(Q(1)), d
            if gcd and len(p) > 1 and len(q) > 1:
                g = pgcd(p, q)
                if g is not None:
                    p, q = pdivexact(p, g), pdivexact(q, g)
                    return self.reduce((p, q), False)
        return p, q

    def sqrtred(self, p):
        """replace sqrt(x)^2 by x (only when x normalises to a polynomial)"""
        again = True
        while again:
            again = False
            out = {}
            for m, c in p.items():
                hit = None
                for a, e in m:
                    if a.op == 'sqrtatom' and e >= 2: hit = (a, e); break
                if hit is None:
                    out = padd(out, {m: c}); continue
                again = True
                a, e = hit
                rest = tuple((b, k) for b, k in m if b is not a)
                inner = self.sq[a]
                rr = {rest: c}
                if e % 2: rr = pmul(rr, {((a, 1),): Q(1)})
                for _ in range(e // 2): rr = pmul(rr, inner)
                out = padd(out, rr)
            p = out
        return p

    sq = {}

    def _nf(self, t):
        op = t.op
        if op == 'num': return (pconst(t.a[0]), pconst(Q(1)))
        if op in ('+', '-') and len(t.a) == 2:
            a, b = self.nf(t.a[0]), self.nf(t.a[1])
            s = 1 if op == '+' else -1
            if a[1] == b[1]: return self.simp(padd(a[0], b[0], s), a[1])
            return self.simp(padd(pmul(a[0], b[1]), pmul(b[0], a[1]), s), pmul(a[1], b[1]))
        if op == 'neg' or (op == '-' and len(t.a) == 1):
            a = self.nf(t.a[0]); return ({m: -c for m, c in a[0].items()}, a[1])
        if op == '*':
            a, b = self.nf(t.a[0]), self.nf(t.a[1]); return self.simp(pmul(a[0], b[0]), pmul(a[1], b[1]))
        if op == '/':
            a, b = self.nf(t.a[0]), self.nf(t.a[1])
            if not b[0]: return self.atom(mk('div0', t))
            return self.simp(pmul(a[0], b[1]), pmul(a[1], b[0]))
        if op == 'pow':
            b = t.a[1]
            if isnum(b):
                e = b.a[0]
                if e.denominator == 1 and abs(e) <= 12:
                    a = self.nf(t.a[0]); r = (pconst(Q(1)), pconst(Q(1)))
                    for _ in range(abs(int(e))): r = self.simp(pmul(r[0], a[0]), pmul(r[1], a[1]))
                    if e < 0: r = (r[1], r[0])
                    return r
                if e == Q(1, 2): return self.nf(mk('sqrt', t.a[0]))
                if e.denominator == 2 and abs(e) <= 6:
                    return self.nf(mk('*', mk('pow', t.a[0], num(Q(int(e.numerator) // 2))), mk('sqrt', t.a[0])))
            return self.atom(mk('pow', self.canon(t.a[0]), self.canon(b)))
        if op == 'sqrt':
            a = self.nf(t.a[0])
            p, q = self.reduce(a)
            if not p: return (pconst(Q(0)), pconst(Q(1)))
            # sqrt(p/q) = sqrt(p*q)/q
            pq = self.sqrtred(pmul(p, q))
            if list(pq) == [()]:
                c = pq[()]
                import math
                if c > 0:
                    n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
                    if n * n == c.numerator and d * d == c.denominator: return (pconst(Q(n, d)), q)
            # extract square of a monomial sqrt
            key = mk('sqrtatom', *self.freeze((pq, pconst(Q(1)))))
            Norm.sq[key] = pq
            return ({((key, 1),): Q(1)}, q)
        if op == 'ite':
            c = self.truth(t.a[0])
            if c is not None: return self.nf(t.a[1] if c else t.a[2])
            if self.equal(t.a[1], t.a[2]): return self.nf(t.a[1])
            return self.atom(mk('ite', self.cond(t.a[0]), self.canon(t.a[1]), self.canon(t.a[2])))
        if op in ('min', 'max'):
            args = self.flat(op, t)
            if self.decide:
                best = args[0]
                for x in args[1:]:
                    c = self.truth(cmp_('<=', best, x))
                    if c is None: best = None; break
                    if (op == 'min') != c: best = x
                if best is not None: return self.nf(best)
            cs = sorted({self.canon(x) for x in args}, key=lambda x: x.n)
            if len(cs) == 1: return self.nf(args[0])
            nums = [x for x in args if isnum(x)]
            return self.atom(mk(op, *cs))
        if op == 'abs':
            c = self.truth(cmp_('<=', ZERO, t.a[0])) if self.decide else None
            if c is not None: return self.nf(t.a[0]) if c else self.nf(mk('neg', t.a[0]))
            n = self.reduce(self.nf(t.a[0])); m = ({k: -v for k, v in n[0].items()}, n[1])
            return self.atom(mk('abs', *min(self.freeze(n), self.freeze(m), key=repr)))
        if op in ('<', '<=', '==', '&&', '||', '!'):
            c = self.truth(t)
            if c is not None: return (pconst(Q(int(c))), pconst(Q(1)))
            return self.atom(self.cond(t))
        if op in ('sym', 'str', 'nf'): return self.atom(t)
        # uninterpreted function: canonicalise arguments
        def ca(x):
            if isinstance(x, T): return self.canon(x) if x.op not in ('str', 'clo', 'ptr', 'sym', 'rec', 'tup', 'arr') else (mk(x.op, *[ca(y) for y in x.a]) if x.op in ('tup', 'arr', 'rec') else x)
            if isinstance(x, tuple): return tuple(ca(y) for y in x)
            return x
        return self.atom(mk(op, *[ca(x) for x in t.a]))

    def flat(self, op, t):
        r = []
        for x in t.a: r += self.flat(op, x) if x.op == op else [x]
        return r

    def simp(self, p, q):
        p, q = self.sqrtred(p), self.sqrtred(q)
        if not p: return ({}, pconst(Q(1)))
        return self.reduce((p, q), False) if len(p) + len(q) < 400 else (p, q)

    def cond(self, c):
        if c.op == '!': return mk('!', self.cond(c.a[0]))
        if c.op in ('&&', '||'): return mk(c.op, *sorted((self.cond(x) for x in c.a), key=lambda x: x.n))
        if c.op in ('<', '<=', '=='):
            return mk(c.op, self.canon(mk('-', c.a[0], c.a[1]) if len(c.a) == 2 else c.a[0]))
        return c

    def truth(self, c):
        if isnum(c): return bool(c.a[0])
        if c.op == '!':
            x = self.truth(c.a[0]); return None if x is None else not x
        if c.op == '&&':
            x = self.truth(c.a[0]); y = self.truth(c.a[1])
            if x is False or y is False: return False
            return True if x and y else None
        if c.op == '||':
            x = self.truth(c.a[0]); y = self.truth(c.a[1])
            if x or y: return True
            return False if x is False and y is False else None
        if c.op == 'ite':
            x = self.truth(c.a[0])
            if x is not None: return self.truth(c.a[1] if x else c.a[2])
        if c.op in ('<', '<=', '=='):
            d = self.reduce(self.nf(mk('-', c.a[0], c.a[1]) if len(c.a) == 2 else c.a[0]))
            if not d[0]: return c.op != '<'
            if list(d[0]) == [()] and list(d[1]) == [()]:
                v = d[0][()] / d[1][()]
                return {'<': v < 0, '<=': v <= 0, '==': v == 0}[c.op]
        if self.decide: return self.decide(self, c)
        return None

    def equal(self, a, b):
        if a is b: return True
        if a.op in ('rec',) or b.op in ('rec',):
            if a.op != b.op: return False
            da, db = dict(a.a[1]), dict(b.a[1])
            return set(da) == set(db) and all(self.equal(da[k], db[k]) for k in da)
        if a.op in ('tup', 'arr') or b.op in ('tup', 'arr'):
            return a.op == b.op and len(a.a) == len(b.a) and all(self.equal(x, y) for x, y in zip(a.a, b.a))
        x, y = self.nf(a), self.nf(b)
        if x[1] == y[1]: return not self.sqrtred(padd(x[0], y[0], -1))
        return not self.sqrtred(padd(pmul(x[0], y[1]), pmul(y[0], x[1]), -1))


def pdivexact(p, q, limit=3000):
    """exact multivariate division p/q or None"""
    if len(q) > len(p) and len(p) > 0 and len(q) > 40: return None
    key = lambda m: tuple((-a.n, e) for a, e in m)
    # graded lex on atom numbers
    def deg(m): return sum(e for _, e in m)
    def lt(d): return max(d, key=lambda m: (deg(m), sorted(((a.n, e) for a, e in m))))
    # need an admissible order: use lex via atom number descending exps
    ats = sorted({a for m in q for a, _ in m} | {a for m in p for a, _ in m}, key=lambda a: a.n)
    idx = {a: i for i, a in enumerate(ats)}
    def vec(m):
        v = [0] * len(ats)
        for a, e in m: v[idx[a]] = e
        return (sum(v), tuple(v))
    qm = max(q, key=vec); qc = q[qm]; qd = dict(qm)
    r = dict(p); out = {}
    n = 0
    while r:
        n += 1
        if n > limit: return None
        if deadline[0] is not None and n % 16 == 0: late()
        rm = max(r, key=vec); rd = dict(rm)
        if any(rd.get(a, 0) < e for a, e in qd.items()): return None
        f = tuple(sorted(((a, e - qd.get(a, 0)) for a, e in rd.items() if e - qd.get(a, 0)), key=lambda x: x[0].n))
        c = r[rm] / qc
        out[f] = out.get(f, 0) + c
        r = padd(r, pmul(q, {f: c}), -1)
    return out


def pgcd(p, q):
    """polynomial gcd through sympy's dense/sparse rings; None when trivial or too large"""
    if len(p) * len(q) > 40000: return None
    ats = sorted({a for d in (p, q) for m in d for a, _ in m}, key=lambda a: a.n)
    try:
        from sympy.polys.rings import ring
        from sympy.polys.domains import QQ
    except ImportError:
        return None
    idx = {a: i for i, a in enumerate(ats)}
    R = ring(['x%d' % i for i in range(len(ats))], QQ)[0]
    def conv(d):
        o = {}
        for m, c in d.items():
            v = [0] * len(ats)
            for a, e in m: v[idx[a]] = e
            o[tuple(v)] = QQ(c.numerator, c.denominator)
        return R.from_dict(o)
    g = conv(p).gcd(conv(q))
    if g.is_ground: return None
    return {tuple((ats[i], e) for i, e in enumerate(m) if e): Q(int(c.numerator), int(c.denominator)) for m, c in g.terms()}


class limited:
    """normalisations inside take at most so many seconds; TooBig afterwards"""
    def __init__(self, seconds): self.s = seconds
    def __enter__(self): self.old = deadline[0]; deadline[0] = time.time() + self.s
    def __exit__(self, *a): deadline[0] = self.old


class FastNorm(Norm):
    """polynomial normal form with atomic inverses and gates: equality here implies equality of the terms, not conversely"""
    positive = frozenset()     # atoms assumed positive

    def inv(self, p):
        """1/p as a polynomial over atomic inverses"""
        if len(p) == 1:
            (m, c), = p.items()
            r = []
            for a, e in m: r.append((a.a[0] if a.op == 'inv' else mk('inv', a), e))
            return {tuple(sorted(r, key=lambda x: x[0].n)): 1 / c}
        lead = p[min(p, key=lambda m: repr([(a.n, e) for a, e in m]))]
        q = {m: c / lead for m, c in p.items()}
        key = mk('inv', mk('nf', *self.freeze((q, pconst(Q(1))))))
        return {((key, 1),): 1 / lead}

    def cancel(self, p):
        out = None
        for m, c in p.items():
            d = dict(m)
            if any(a.op == 'inv' and a.a[0] in d or a.op == 'ind' and d[a] > 1 for a in d):
                if out is None: out = dict(p)
                del out[m]
                for a in d:
                    if a.op == 'ind': d[a] = 1
                for a in list(d):
                    if a.op == 'inv' and a.a[0] in d and a in d:
                        k = min(d[a], d[a.a[0]])
                        for x in (a, a.a[0]):
                            d[x] -= k
                            if not d[x]: del d[x]
                out = padd(out, {tuple(sorted(d.items(), key=lambda x: x[0].n)): c})
        return p if out is None else out

    def simp(self, p, q): return (self.cancel(self.sqrtred(p)), q)

    def reduce(self, n, gcd=True): return (self.cancel(self.sqrtred(n[0])), n[1])

    def ind(self, c):
        """a condition as a polynomial over 0/1 indicators"""
        one = pconst(Q(1))
        if isnum(c): return pconst(Q(1)) if c.a[0] else {}
        if c.op == '!': return padd(one, self.ind(c.a[0]), -1)
        if c.op == '&&' or c.op == '||':
            r = None
            for x in c.a:
                x = self.ind(x)
                if c.op == '||': x = padd(one, x, -1)
                r = x if r is None else self.cancel(pmul(r, x))
            return r if c.op == '&&' else padd(one, r, -1)
        if c.op == 'ite':
            k, x, y = (self.ind(v) for v in c.a)
            return self.cancel(padd(y, pmul(k, padd(x, y, -1))))
        if c.op == '==' and len(c.a) == 2 and TRUE in c.a: return self.ind(c.a[0] if c.a[1] is TRUE else c.a[1])
        k = self.cond(c)
        if k.op in ('<', '<=', '==') and k.a[0].op == 'nf':
            v = self.nf(mk('-', c.a[0], c.a[1]) if len(c.a) == 2 else c.a[0])[0]
            if not v: return {} if k.op == '<' else one
            if len(v) == 1 and all(a in self.positive or a.op == 'inv' and a.a[0] in self.positive for a, _ in list(v)[0]):
                x, = v.values()
                return one if x < 0 and k.op != '==' else {}
        return {((mk('ind', k), 1),): Q(1)}

    def _nf(self, t):
        if t.op == 'ite':
            k = self.ind(t.a[0]); x, y = self.nf(t.a[1]), self.nf(t.a[2])
            return self.simp(padd(y[0], pmul(k, padd(x[0], y[0], -1))), pconst(Q(1)))
        if t.op in ('<', '<=', '==', '&&', '||', '!'): return (self.ind(t), pconst(Q(1)))
        if t.op == '/':
            a, b = self.nf(t.a[0]), self.nf(t.a[1])
            if not b[0]: return self.atom(mk('div0', t))
            return self.simp(pmul(a[0], self.inv(b[0])), pconst(Q(1)))
        if t.op == 'pow' and isnum(t.a[1]) and t.a[1].a[0] < 0 and t.a[1].a[0].denominator == 1:
            return self.nf(mk('/', ONE, mk('pow', t.a[0], num(-t.a[1].a[0]))))
        return Norm._nf(self, t)
