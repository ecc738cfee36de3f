"""propositional reasoning over guard terms (finite truth tables over the comparison atoms)"""
from terms import *
import itertools


def batoms(t, out=None):
    if out is None: out = []
    if isnum(t): return out
    if t.op in ('&&', '||', '!'):
        for x in t.a: batoms(x, out)
    elif t.op == 'ite':
        for x in t.a: batoms(x, out)
    elif t not in out: out.append(t)
    return out


def beval(t, asg):
    if isnum(t): return bool(t.a[0])
    if t.op == '!': return not beval(t.a[0], asg)
    if t.op == '&&': return beval(t.a[0], asg) and beval(t.a[1], asg)
    if t.op == '||': return beval(t.a[0], asg) or beval(t.a[1], asg)
    if t.op == 'ite' and t not in asg: return beval(t.a[1], asg) if beval(t.a[0], asg) else beval(t.a[2], asg)
    return asg[t]


def implies(a, b, extra=()):
    """is a -> b a tautology over comparison atoms (x<y, y<x, x<=y, x==y kept consistent pairwise)?"""
    at = []
    for t in (a, b) + tuple(extra): batoms(t, at)
    if len(at) > 16: return False
    for bits in itertools.product((False, True), repeat=len(at)):
        asg = dict(zip(at, bits))
        if not consistent(asg): continue
        if any(not beval(x, asg) for x in extra): continue
        if beval(a, asg) and not beval(b, asg): return False
    return True


def consistent(asg):
    # trichotomy between pairs of the same operands
    pairs = {}
    for t, v in asg.items():
        if t.op in ('<', '<=', '==') and len(t.a) == 2:
            x, y = t.a
            key = (min(x.n, y.n), max(x.n, y.n))
            pairs.setdefault(key, []).append((t, v, x.n < y.n))
    for key, lst in pairs.items():
        ok = False
        for rel_ in (-1, 0, 1):   # lo ? hi
            good = True
            for t, v, fwd in lst:
                r = rel_ if fwd else -rel_
                tv = {'<': r < 0, '<=': r <= 0, '==': r == 0}[t.op]
                if tv != v: good = False; break
            if good: ok = True; break
        if not ok: return False
    return True


def conj(guards):
    """conjunction of the boolean guards in a path (loop/closure markers are dropped)"""
    t = TRUE
    for g in guards:
        if isinstance(g[0], T):
            t = band(t, g[0] if g[1] else bnot(g[0]))
        elif g[0] == 'nothrow': t = band(t, bnot(g[1]))
    return t
