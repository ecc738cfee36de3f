"""An interpretation of the symbols under which two terms differ: the witness behind every reported difference of large terms."""
import hashlib
import mpmath
from terms import *

mp = mpmath.mp.clone(); mp.dps = 60


def rnd(key):
    h = hashlib.sha256(key.encode()).digest()
    return mp.mpf(int.from_bytes(h[:8], 'big')) / mp.mpf(2 ** 64) * mp.mpf('1.3') + mp.mpf('0.4')


def key(x): return mp.nstr(x, 25) if not isinstance(x, str) else x


class Undefined(Exception): pass


class NotANumber(Undefined): """a root of a number that is clearly negative"""


CLEAR = mp.mpf(10) ** -25


class Eval:
    """values of terms under the interpretation number `seed`: symbols and unknown functions take arbitrary (but consistent) values"""

    def __init__(self, seed, fixed=None): self.seed = str(seed); self.memo = {}; self.fixed = fixed or {}

    def __call__(self, t):
        todo = [t]
        while todo:
            x = todo[-1]
            if x in self.memo: todo.pop(); continue
            need = [a for a in x.a if isinstance(a, T) and a not in self.memo]
            if x.op == 'ite' and x.a[0] in self.memo: need = [a for a in (x.a[1] if self.truth(x.a[0]) else x.a[2],) if a not in self.memo]
            elif x.op == 'ite': need = [x.a[0]] if x.a[0] not in self.memo else need
            if need: todo += need; continue
            self.memo[x] = self.val(x); todo.pop()
        return self.memo[t]

    def truth(self, c):
        """a flag is a symbol: both truth values occur"""
        v = self.memo[c]
        if c.op in ('num', '<', '<=', '==', '!', '&&', '||', 'ite'): return bool(v)
        return hashlib.sha256((self.seed + key(v)).encode()).digest()[0] & 1 == 1

    def val(self, x):
        o = x.op; g = lambda k: self.memo[x.a[k]]; all_ = [self.memo[a] if isinstance(a, T) else str(a) for a in x.a] if o != 'ite' else None
        if x in self.fixed: return self.fixed[x]
        if o == 'num': return mp.mpf(x.a[0].numerator) / mp.mpf(x.a[0].denominator) if hasattr(x.a[0], 'numerator') else mp.mpf(x.a[0])
        if o == 'ite': return g(1) if self.truth(x.a[0]) else g(2)
        if o == '+': return sum(all_, mp.mpf(0))
        if o == '*':
            r = mp.mpf(1)
            for v in all_: r *= v
            return r
        if o == '-': return -all_[0] if len(all_) == 1 else all_[0] - all_[1]
        if o == 'neg': return -g(0)
        if o == '/':
            if not g(1): raise Undefined
            return g(0) / g(1)
        if o in ('<', '<=', '=='):
            a, b = (g(0), g(1)) if len(all_) == 2 else (g(0), mp.mpf(0))
            if isinstance(a, str) or isinstance(b, str): return mp.mpf(int(a == b))
            d = a - b
            if abs(d) < mp.mpf(10) ** -40 * (1 + abs(a)): return mp.mpf(int(o != '<'))
            return mp.mpf(int(d < 0 and o != '=='))
        if o == '!': return mp.mpf(int(not self.truth(x.a[0])))
        if o == '&&': return mp.mpf(int(all(self.truth(a) for a in x.a)))
        if o == '||': return mp.mpf(int(any(self.truth(a) for a in x.a)))
        if o == 'min': return min(all_)
        if o == 'max': return max(all_)
        if o == 'abs' or o == 'fabs': return abs(g(0))
        if o == 'sqrt':
            if g(0) < 0: raise NotANumber if g(0) < -CLEAR else Undefined
            return mp.sqrt(g(0))
        if o == 'pow':
            if g(0) < 0 and g(1) != int(g(1)) or not g(0): raise NotANumber if g(0) < -CLEAR else Undefined
            return mp.power(g(0), g(1))
        if o in ('exp', 'tanh', 'sin', 'cos', 'tan', 'atan', 'sinh', 'cosh', 'floor', 'ceil'): return getattr(mp, o)(g(0))
        if o == 'cbrt': return mp.cbrt(g(0)) if g(0) >= 0 else -mp.cbrt(-g(0))
        if o in ('acos', 'asin', 'log10', 'log2'):
            if o[0] == 'a' and abs(g(0)) > 1 or o[0] == 'l' and g(0) <= 0: raise Undefined
            return getattr(mp, o)(g(0)) if o != 'log2' else mp.log(g(0), 2)
        if o == 'atan2': return mp.atan2(g(0), g(1))
        if o == 'copysign': return abs(g(0)) * (1 if g(1) >= 0 else -1)
        if o == 'log':
            if g(0) <= 0: raise Undefined
            return mp.log(g(0))
        return rnd(self.seed + '|' + o + '|' + '|'.join(key(v) for v in all_))


HINTS, BARREN = [], [0]      # interpretations that separated other terms; how often none did


def separated(x, y, trials=64, assume=None):
    """an interpretation number under which x and y differ, or None"""
    if BARREN[0] > 6: trials = min(trials, 8)
    for s in HINTS + [k for k in range(trials) if k not in HINTS]:
        E = Eval(s)
        try:
            if assume is not None and not E(assume): continue
            a, b = E(x), E(y)
        except (Undefined, ZeroDivisionError, OverflowError): continue
        if (a != b) if isinstance(a, str) or isinstance(b, str) else abs(a - b) > mp.mpf(10) ** -30 * (1 + abs(a) + abs(b)):
            if s not in HINTS: HINTS.append(s)
            return s
    BARREN[0] += 1
    return None
