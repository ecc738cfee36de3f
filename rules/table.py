"""Evaluation of an array of concrete shape into memory: its elements are tabulated (that evaluation is the identity on elements is C11)."""
import itertools
from terms import *
from program import walk, AnalysisBroken
from lazy import methods_of
from physics import leaves

LIMIT = 400


def concrete(v):
    out = []
    for x in leaves(v):
        if not isnum(x): return None
        out.append(int(x.a[0]))
    return out


def prep(I):
    tu = I.tu
    def evaluate(I, e, obj, args):
        fn = tu.funcs.get(e['f'])
        if fn is None or 'body' not in fn.d: return None
        m = methods_of(tu, fn)
        src = I.rv(args[0])
        if src.op == 'tabarr': return src
        if 'operator()' not in m or 'shape' not in m: return None
        loc = I.alloc(src)
        sh = I.rv(I.call(tu.funcs[m['shape']], [], loc, e)); n = concrete(sh)
        if n is None: raise AnalysisBroken('array evaluated at a shape that is not concrete')
        op = tu.funcs[m['operator()']]; t = op.d['params'][0]['t']
        vol = 1
        for k in n: vol *= k
        if vol > LIMIT: raise AnalysisBroken('array of %d elements' % vol)
        vals = []
        for ix in itertools.product(*[range(k) for k in n]):
            iv = I.symbolic(t, 'i')
            ls = leaves(iv); iv = subst(iv, dict(zip(ls, map(num, ix))))
            vals.append(I.rv(I.call(op, [I.alloc(iv)], loc, e)))
        return mk('tabarr', sh, tuple(n), *vals)
    I.models['nd::evaluate_as_unique'] = evaluate
    def same(I, e, obj, args):
        v = I.rv(obj) if obj is not None else None
        if v is not None and v.op == 'rec' and v.a[0] == 'nd::unique_provider_t' and e.get('n', '').endswith('::shared'):    # filled element by element
            f = dict(v.a[1]); n = concrete(f['the_shape']) if f.get('the_shape') is not None else None
            b = f.get('buffer'); m = dict(b.a[1]).get('memory') if b is not None and b.op == 'rec' else None
            if n is None or m is None or m.op != 'ptr': return None
            vol = 1
            for k in n: vol *= k
            if vol > LIMIT: return None
            return mk('tabarr', f['the_shape'], tuple(n), *[I.load(I.deref(I.padd(m, num(k)))) for k in range(vol)])
        return v if v is not None and v.op == 'tabarr' else None
    def reshape(I, e, obj, args):
        v = I.rv(obj)
        if v.op != 'tabarr': return None
        sh = I.rv(args[0]); n = concrete(sh); vol = 1
        if n is None: raise AnalysisBroken('array reshaped to a shape that is not concrete')
        for k in n: vol *= k
        if vol != len(v.a) - 2: raise AnalysisBroken('array of %d elements reshaped to %s' % (len(v.a) - 2, n))
        return mk('tabarr', sh, tuple(n), *v.a[2:])
    def item(I, e, obj, args):
        v = I.rv(obj)
        if v.op != 'tabarr': return None
        a = [x for y in args for x in leaves(I.rv(y))]
        n = v.a[1]
        if len(a) != len(n): raise AnalysisBroken('index of another rank')
        if not all(isnum(x) for x in a): raise AnalysisBroken('table looked up at an index that is not concrete')
        k = 0
        for x, m in zip(a, n):
            x = int(x.a[0])
            if not 0 <= x < m: raise AnalysisBroken('out of bounds access of a block: index %s of shape %s' % ([int(y.a[0]) for y in a], list(n)))
            k = k * m + x
        return v.a[2 + k]
    def shape(I, e, obj, args):
        v = I.rv(obj)
        return v.a[0] if v.op == 'tabarr' else None
    def size(I, e, obj, args):
        v = I.rv(obj)
        return num(len(v.a) - 2) if v.op == 'tabarr' else None
    for p in ('nd::shared_provider_t', 'nd::unique_provider_t'):
        I.models[p + '::operator()'] = item; I.models[p + '::shape'] = shape; I.models[p + '::size'] = size; I.models[p + '::shared'] = same; I.models[p + '::unique'] = same; I.models[p + '::reshape'] = reshape
