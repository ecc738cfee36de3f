"""HDF5 type descriptions against the memory layout of the C++ types they stand for."""
import re
from program import AnalysisBroken
from terms import *
from physics import leaves
from ckpt import units, prep
from ndarr import LE
import h5

PRIM = {'double': 'double', 'int': 'int', 'unsigned long': 'ulong', 'char': 'str', 'long': 'long', 'float': 'float', 'unsigned int': 'uint'}


def memory(tu, t, off=0):
    """[(offset, primitive)] of a C++ type, or None where the layout of a library class is not known"""
    t = tu.types[t] if isinstance(t, int) else t
    n = t['s'].replace('const ', '').strip()
    if n in PRIM: return [(off, PRIM[n])]
    if t['k'] == 'array':
        k = int(re.search(r'\[(\d+)\]', n).group(1)); e = tu.types[t['p']]; size = h5.sizeof(tu, e) or (8 if e['s'] == 'double' else None)
        one = memory(tu, e)
        return None if one is None or size is None else [(off + i * size + o, p) for i in range(k) for o, p in one]
    if t['k'] == 'rec':
        r = tu.records.get(t['rec'])
        if r is None or r.get('size') is None or r['n'].startswith('std::'): return None
        out = []
        for f in r['fields']:
            m = memory(tu, f['t'], off + f['off'])
            if m is None: return None
            out += m
        if r['bases'] and not r['fields']: return None
        return out
    return None


def described(tu, rec, t, off=0):
    """[(offset, primitive)] of an HDF5 type"""
    k = t.a[0]
    if k == 'arr':
        if not isnum(t.a[2]) or not isnum(h5.tsize(t.a[1])): return None
        n, s = int(t.a[2].a[0]), int(h5.tsize(t.a[1]).a[0])
        one = described(tu, None, t.a[1])
        return None if one is None else [(off + i * s + o, p) for i in range(n) for o, p in one]
    if k == 'comp':
        out = []
        for name, o, u in t.a[2]:
            if not isnum(o): return None
            sub = described(tu, None, u, off + int(o.a[0]))
            if sub is None: return None
            out += sub
        return out
    return [(off, k)]


def desc(I, v):
    i = dict(v.a[1])['id']
    d = I.state.mem.get(('h5id', int(i.a[0]) - h5.BASE)) if isnum(i) else None
    if d is None: raise AnalysisBroken('HDF5 identifier of unknown origin: ' + show(i)[:100])
    return d


def types(u):
    c = u.c
    for n in ('char', 'int', 'ulong', 'double', 'seq3', 'seqi', 'len', 'loc', 'rat', 'cons', 'consq', 'oe', 'full', 'sample'):
        try:
            v = u.run('t_' + n)
            if v is BOT or u.ret is not TRUE: c.ob('t_' + n, False, u.where, 'no HDF5 type for ' + n); continue
            d = desc(u.I, v); tu = u.I.tu
            pt = tu.types[u.w.fn('t_' + n).d['params'][0]['t']]
        except AnalysisBroken as e: c.undecided('t_' + n, '', str(e)); continue
        size = h5.sizeof(tu, pt); got = h5.tsize(d)
        if size is None: c.undecided('t_' + n, u.where, 'size of %s unknown' % pt['s']); continue
        c.ob('t_%s:size' % n, isnum(got) and got.a[0] == size, u.where, 'the HDF5 type of %s describes %s bytes, the object has %d' % (pt['s'], show(got), size))
        want, have = memory(tu, pt), described(tu, None, d)
        if have is None: c.undecided('t_' + n, u.where, 'HDF5 type with offsets of unknown value'); continue
        if want is None:
            c.ob('t_%s:members' % n, sum(h5.SIZE.get(p, 1) for o, p in have) == size, u.where, 'the HDF5 type of %s does not describe all of its bytes' % pt['s']); continue
        lost = [x for x in want if x not in have]; extra = [x for x in have if x not in want]
        c.ob('t_%s:members' % n, not lost and not extra, u.where, 'the HDF5 type of %s: %s' % (pt['s'], '; '.join(['the %s at offset %d is not described' % (p, o) for o, p in lost[:3]] + ['describes a %s at offset %d, where there is none' % (p, o) for o, p in extra[:3]])))
    for n, t in (('e_vec', h5.DOUBLE), ('e_arr', h5.DOUBLE), ('e_arrl', h5.T('arr', h5.DOUBLE, num(2)))):
        try: d = desc(u.I, u.run(n)) if False else desc(*(lambda v: (u.I, v))(u.run(n)))
        except AnalysisBroken as e: c.undecided(n, '', str(e)); continue
        c.ob(n, d is t, u.where, '%s: the element type is %s, required %s' % (n, show(d), show(t)))
    def space(name, kind, spec, selspec=lambda *a: 'all'):
        try: v = u.run(name); d = desc(u.I, v)
        except AnalysisBroken as e: return c.undecided(name, '', str(e))
        if u.ret is not TRUE: return c.ob(name, False, u.where, name + ' can throw')
        if d.op != 'h5space' or d.a[0] != kind: return c.ob(name, False, u.where, '%s: a %s data space, required %s' % (name, d.a[0], kind))
        u.cmp(name, mk('tup', *d.a[1]), spec(*u.A))
        s = selspec(*u.A)
        if s == 'all': c.ob(name + ':all', d.a[2] == 'all', u.where, name + ': part of the data space is selected')
        else:
            if d.a[2] == 'all' or d.a[2].op != 'hyperslab': return c.ob(name + ':sel', False, u.where, name + ': no selection is made')
            u.cmp(name + ':sel', mk('tup', *[y for x in d.a[2].a for y in x.a]), s)
    space('s_vec', 'simple', lambda *a: [num(3)]); space('s_vec0', 'simple', lambda: [ZERO])
    space('s_arr', 'simple', lambda m, n: [m, n]); space('s_uarr', 'simple', lambda m, n: [m, n])
    for n in ('s_dbl', 's_seq', 's_str'): space(n, 'scalar', lambda x: [])
    space('chosen', 'simple', lambda m, n, *r: [m, n], lambda m, n, a, b, c_, d, e, f, g, h: [a, b, e, f, c_, d, g, h])
    u.val('p_arr', lambda m, n: [m, n]); u.val('p_arr1', lambda n: [n]); u.val('z_str', lambda x: [mk('max', *sorted([ONE, h5.strlen(x)], key=lambda t: not isnum(t)))])
    u.val('slab', lambda p: (lambda s, f, j: s + [ite(cmp_('<', s[k], f[k]), arith('+', mk('idiv', arith('-', arith('-', f[k], s[k]), ONE), j[k]), ONE), ZERO) for k in (0, 1)] + j + [ONE, ONE])(*[leaves(dict(p.a[1])[n]) for n in ('start', 'final', 'jumps')]),
          pre=lambda p: TRUE)
    for k in '1234': u.throws('badslab' + k)
    u.throws('badext')
    u.val('again', lambda x: [x]); u.val('again_c', lambda n: [ONE])
    for n in ('other_c', 'other_d', 'other_t', 'other_s', 'other_r'): u.throws(n, what='a data set of another kind is there already: must throw')
    u.val('point', lambda n, k, x: [x]); u.val('appended', lambda k, x: [x])
    u.val('extended', lambda k: [arith('+', k, ONE)]); u.val('extended2', lambda k, m: [k, m])
    pos = lambda *a: LE(ZERO, arith('*', a[0], a[1]))
    u.val('rank2', lambda m, n: [num(2)]); u.val('size2', lambda m, n: [arith('*', m, n)], pre=pos); u.val('ext2', lambda m, n: [m, n]); u.val('size0', lambda: [ONE])
    u.val('eq_t', lambda: [TRUE]); u.val('ne_t', lambda: [FALSE]); u.val('ne_t2', lambda: [TRUE]); u.val('eq_s', lambda m, n: [TRUE]); u.val('ne_s', lambda m, n: [TRUE])
    u.val('eq_sg', lambda m, n, p, q: [band(cmp_('==', m, p), cmp_('==', n, q))])


def prop_layout(c):
    c.rule('the HDF5 type the value graph of make_datatype_for builds has the size of the C++ object and describes exactly its members at their offsets; data spaces have the shape of the container; selections are passed on unchanged')
    c.assumptions.append('layouts as computed by the compiler front end for this platform; the model of the HDF5 type and space interface in rules/h5.py')
    units(c, 'layout.cpp', types)
    c.minimum = 1
