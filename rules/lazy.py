"""Evaluation of an array into memory is the identity on its elements (decided by C11); here `to_shared`, `shared()`, `to_unique`
and `unique()` keep the source provider, so that the index law of a whole pipeline of evaluated arrays can be read off."""
from terms import *
from program import walk, AnalysisBroken


def methods_of(tu, fn):
    """functions the evaluation calls on its source: {operator(): id, shape: id}"""
    out = {}
    pid = fn.d['params'][0]['id']
    for x in walk(fn.d['body']):
        if x.get('k') == 'Call' and x.get('method') and isinstance(x.get('obj'), dict):
            o = x['obj']
            while o.get('k') in ('Cast', 'Load', 'Paren', 'Temp') and isinstance(o.get('e'), dict): o = o['e']
            if o.get('k') == 'Ref' and o.get('id') == pid: out[x['n'].split('::')[-1]] = x['f']
    return out


def dist(I, v, f):
    if v.op == 'ite': return ite(v.a[0], dist(I, v.a[1], f), dist(I, v.a[2], f))
    return f(v)


def all_lazy(v): return all_lazy(v.a[1]) and all_lazy(v.a[2]) if v.op == 'ite' else v.op == 'lazyarr'


def prep(I):
    tu = I.tu
    def evaluate(I, e, obj, args):
        fn = tu.funcs.get(e['f'])
        if fn is None or 'body' not in fn.d: return None
        m = methods_of(tu, fn)
        src = I.rv(args[0])
        if all_lazy(src): return src
        if 'operator()' not in m or 'shape' not in m:
            # delegates to the other evaluation function
            return None
        return mk('lazyarr', src, m['operator()'], m['shape'])
    I.models['nd::evaluate_as_unique'] = evaluate
    def same(I, e, obj, args):
        v = I.rv(obj) if obj is not None else None
        return v if v is not None and all_lazy(v) else None
    def call(which):
        def f(I, e, obj, args):
            v = I.rv(obj)
            if not all_lazy(v): return None
            a = [I.rv(x) for x in args]
            return dist(I, v, lambda x: I.rv(I.call(tu.funcs[x.a[which]], [I.alloc(y) for y in a], I.alloc(x.a[0]), e)))
        return f
    def size(I, e, obj, args):
        v = I.rv(obj)
        if not all_lazy(v): return None
        from physics import leaves
        r = None
        sh = dist(I, v, lambda x: I.rv(I.call(tu.funcs[x.a[2]], [], I.alloc(x.a[0]), e)))
        for x in leaves(sh): r = x if r is None else arith('*', r, x)
        return r
    for p in ('nd::shared_provider_t', 'nd::unique_provider_t'):
        I.models[p + '::operator()'] = call(1)
        I.models[p + '::shape'] = call(2)
        I.models[p + '::size'] = size
        I.models[p + '::shared'] = same
        I.models[p + '::unique'] = same
