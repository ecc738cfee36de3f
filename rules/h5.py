"""The HDF5 library as a store of named, typed values: a model of the C functions the project's wrapper calls.  Identifiers are
known numbers, groups and datasets have the names the code gives them, the contents are arbitrary terms.  The wrapper itself
(h5::Link, Location, Dataset, Datatype, hdf5_type_info ...) is not modelled but analysed."""
from program import AnalysisBroken
from terms import *
from vg import LV, select, update
from store import buffer, string_of, text, ground, strlen, is_string
import store

BASE = 1000
ALL = ('h5id', 0)
FAIL = num(-1)


def T(k, *a): return mk('h5t', k, *a)
DOUBLE, INT, ULONG, LONG, FLOAT, UINT = (T(x) for x in ('double', 'int', 'ulong', 'long', 'float', 'uint'))
SIZE = {'double': 8, 'int': 4, 'ulong': 8, 'long': 8, 'float': 4, 'uint': 4}
NATIVE = {'H5T_NATIVE_DOUBLE_g': DOUBLE, 'H5T_NATIVE_INT_g': INT, 'H5T_NATIVE_ULONG_g': ULONG, 'H5T_NATIVE_LONG_g': LONG, 'H5T_NATIVE_FLOAT_g': FLOAT, 'H5T_NATIVE_UINT_g': UINT,
          'H5T_NATIVE_ULLONG_g': ULONG, 'H5T_NATIVE_LLONG_g': LONG, 'H5T_C_S1_g': T('str', ONE)}


def tsize(t):
    k = t.a[0]
    if k in SIZE: return num(SIZE[k])
    if k in ('str', 'sized'): return t.a[1]
    if k == 'arr': return arith('*', t.a[2], tsize(t.a[1]))
    if k == 'comp': return t.a[1]
    return mk('h5size', t)


def tequal(a, b):
    if a is b: return TRUE
    if a.op == 'ite': return ite(a.a[0], tequal(a.a[1], b), tequal(a.a[2], b))
    if b.op == 'ite': return tequal(b, a)
    if a.a[0] != b.a[0]: return FALSE
    if a.a[0] == 'str': return cmp_('==', a.a[1], b.a[1])
    if a.a[0] == 'arr': return band(cmp_('==', a.a[2], b.a[2]), tequal(a.a[1], b.a[1]))
    if a.a[0] == 'comp':
        if len(a.a[2]) != len(b.a[2]): return FALSE
        r = TRUE
        for (n, o, t), (m, p, u) in zip(a.a[2], b.a[2]):
            if n is not m or o is not p: return FALSE
            r = band(r, tequal(t, u))
        return r
    return FALSE


def npoints(s):
    k, dims = s.a[0], s.a[1]
    if k == 'null': return ZERO
    r = ONE
    for d in dims: r = arith('*', r, d)
    return r


def selpoints(s):
    if s.a[2] == 'all': return npoints(s)
    if s.a[2] == 'none': return ZERO
    if s.a[2].op != 'hyperslab': return mk('h5selsize', s)
    start, stride, count, block = s.a[2].a
    r = ONE
    for a in (count, block):
        if a.op != 'arr': return mk('h5selsize', s)
        for x in a.a: r = arith('*', r, x)
    return r


def sequal(a, b):
    if a.a[0] != b.a[0] or len(a.a[1]) != len(b.a[1]): return FALSE
    r = TRUE
    for x, y in zip(a.a[1], b.a[1]): r = band(r, cmp_('==', x, y))
    return r


# ---------------------------------------------------------------- contents
SCALAR = {'double': 8, 'int': 4, 'unsigned long': 8, 'long': 8, 'float': 4, 'unsigned int': 4, 'bool': 1, 'char': 1, 'unsigned char': 1, 'short': 2, 'long long': 8, 'unsigned long long': 8}


def sizeof(tu, t):
    """size of a type (index), or None"""
    t = tu.types[t] if isinstance(t, int) else t
    if t.get('rec') is not None and t['k'] == 'rec': return tu.records.get(t['rec'], {}).get('size')
    n = t['s'].replace('const ', '').strip()
    if n in SCALAR: return SCALAR[n]
    return None


def fields_of(tu, v):
    """{field: (offset, size or None)} and total size of the class a record term belongs to; None unless all classes of that name agree"""
    out = None
    for r in tu.records.values():
        if r['n'] != v.a[0] or r.get('size') is None or tuple(f['name'] for f in r['fields']) != tuple(f for f, _ in v.a[1]): continue
        d = ({f['name']: (f.get('off'), sizeof(tu, f['t'])) for f in r['fields']}, r['size'])
        if out is not None and out != d: return None
        out = d
    return out


def covered(v, t, tu):
    """what a write of type t stores of the object v: members without an entry in a compound type are lost"""
    if t.op == 'h5t' and t.a[0] == 'comp' and v.op == 'rec':
        lay = fields_of(tu, v)
        if lay is None: raise AnalysisBroken('layout of %s unknown' % v.a[0])
        fs = []
        for f, x in v.a[1]:
            off, size = lay[0][f]
            m = next((m for m in t.a[2] if m[1].op == 'offsetof' and m[1].a[1] == f or isnum(m[1]) and m[1].a[0] == off), None)
            if m is None: fs.append((f, mk('h5lost', f)))
            elif size is not None and isnum(tsize(m[2])) and tsize(m[2]).a[0] != size: fs.append((f, mk('h5garbled', x)))
            else: fs.append((f, covered(x, m[2], tu)))
        return mk('rec', v.a[0], tuple(fs))
    if t.op == 'h5t' and t.a[0] == 'comp' and v.op == 'arr': return mk('arr', *[covered(x, t, tu) for x in v.a])
    return v


def leaves_of(v):
    if v.op == 'rec' and v.a[0] not in ('std::map', 'std::variant'): return [y for _, x in v.a[1] for y in leaves_of(x)]
    if v.op in ('tup', 'arr'): return [y for x in v.a for y in leaves_of(x)]
    return [v]


def refill(dest, it):
    """dest with its leaves replaced in order"""
    if dest.op == 'rec' and dest.a[0] not in ('std::map', 'std::variant'): return mk('rec', dest.a[0], tuple((f, refill(x, it)) for f, x in dest.a[1]))
    if dest.op in ('tup', 'arr'): return mk(dest.op, *[refill(x, it) for x in dest.a])
    n = next(it)
    return dest if n.op == 'h5lost' else n


def read_into(dest, v):
    if is_string(dest) or dest.op == 'strn':
        n = strlen(dest); m = strlen(v)
        return store.strfit(v, n)
    if dest.op in ('newarr', 'vecn'): return v
    if v.op == 'h5garbled': return v
    a, b = leaves_of(dest), leaves_of(v)
    if len(a) != len(b): return mk('h5garbled', v)
    return refill(dest, iter(b))


# ---------------------------------------------------------------- the file
def child(g, n):
    for k, o in g.a:
        if k is n: return o
    return None


def at_path(root, path):
    o = root
    for n in path:
        if o is None or o.op != 'h5group': return None
        o = child(o, n)
    return o


def put_path(o, path, v):
    if not path: return v
    n = path[0]
    kids = list(o.a); i = next((i for i, (k, _) in enumerate(kids) if k is n), None)
    if i is None: kids.append((n, put_path(mk('h5group'), path[1:], v)))
    else: kids[i] = (n, put_path(kids[i][1], path[1:], v))
    kids.sort(key=lambda x: text(x[0]))
    return mk('h5group', *kids)


def prep(I):
    store.prep(I)
    M, V = I.models, I.rv
    mem = lambda: I.state.mem
    I.symopaque |= {'nd::shared_provider_t', 'nd::unique_provider_t'}
    def new(d):
        k = next(I.counter)
        mem()[('h5id', k)] = d
        return num(BASE + k)
    def desc(x):
        v = V(x)
        if v.op == 'ite':
            a, b = desc(v.a[1]), desc(v.a[2])
            return a if a is b else None
        n = v.a[0] if v.op in ('sym', 'global') else None
        if isinstance(n, str) and n.split('::')[-1] in NATIVE: return NATIVE[n.split('::')[-1]]
        if not isnum(v): return None
        return mem().get(('h5id', int(v.a[0]) - BASE))
    def setdesc(x, d): mem()[('h5id', int(V(x).a[0]) - BASE)] = d
    def name_parts(x):
        s = string_of(I, x)
        if ground(s):
            t = text(s)
            ps = [p for p in t.split('/') if p and p != '.']
            return t.startswith('/'), tuple(st(p) for p in ps)
        return False, (s,)
    def locate(loc, name):
        d = desc(loc)
        if d is None or d.op not in ('h5file', 'h5obj'): return None
        ab, ps = name_parts(name)
        f, base, mode = (d.a[0], (), d.a[1]) if d.op == 'h5file' else (d.a[0], d.a[1], d.a[2])
        path = ps if ab else base + ps
        return f, path, mode
    def node(f, path):
        r = mem().get(('h5fs', f))
        return None if r is None else at_path(r, path)
    def setnode(f, path, v): mem()[('h5fs', f)] = put_path(mem()[('h5fs', f)], path, v)

    def model(*names):
        def reg(fn):
            for n in names: M[n] = lambda I, e, obj, args, fn=fn: fn(e, *args)
            return fn
        return reg

    @model('H5open', 'H5check_version', 'H5Eclear2', 'H5Eclose_stack', 'H5Ewalk2', 'H5Eget_current_stack', 'H5Fflush')
    def _(e, *a): return ZERO
    @model('H5Fcreate')
    def _(e, name, flags, *r):
        f = string_of(I, name)
        mem()[('h5fs', f)] = mk('h5group')
        return new(mk('h5file', f, 'w'))
    @model('H5Fopen')
    def _(e, name, flags, *r):
        f = string_of(I, name)
        if ('h5fs', f) not in mem(): return FAIL
        return new(mk('h5file', f, 'r' if V(flags) is ZERO else 'w'))
    @model('H5Fis_hdf5')
    def _(e, name): return num(1 if ('h5fs', string_of(I, name)) in mem() else 0)
    @model('H5Fget_name')
    def _(e, i, buf, n):
        d = desc(i)
        if d is None: return FAIL
        if V(buf).op == 'ptr': I.store(buffer(I, V(buf)), d.a[0])
        return mk('shortlen', d.a[0])
    @model('H5Fget_intent')
    def _(e, i, p):
        d = desc(i)
        if d is None: return FAIL
        I.store(I.deref(V(p)), num(1 if d.a[-1] == 'w' else 0))
        return ZERO
    @model('H5Fclose', 'H5Gclose', 'H5Dclose', 'H5Tclose', 'H5Sclose', 'H5Pclose')
    def _(e, i):
        d = desc(i)
        if d is None or d.op == 'h5closed': return FAIL
        setdesc(i, mk('h5closed', d)); return ZERO
    @model('H5Gopen2', 'H5Gopen1')
    def _(e, loc, name, *r):
        l = locate(loc, name)
        if l is None: return FAIL
        n = node(*l[:2])
        if n is None or n.op != 'h5group': return FAIL
        return new(mk('h5obj', *l))
    @model('H5Gcreate2')
    def _(e, loc, name, *r):
        l = locate(loc, name)
        if l is None or l[2] != 'w' or node(*l[:2]) is not None or node(l[0], l[1][:-1]) is None or node(l[0], l[1][:-1]).op != 'h5group': return FAIL
        setnode(l[0], l[1], mk('h5group'))
        return new(mk('h5obj', *l))
    @model('H5Lexists')
    def _(e, loc, name, *r):
        l = locate(loc, name)
        if l is None: return FAIL
        return ONE if node(*l[:2]) is not None else ZERO
    @model('H5Oget_info_by_name', 'H5Oget_info_by_name1', 'H5Oget_info_by_name2', 'H5Oget_info_by_name3')
    def _(e, loc, name, info, *r):
        l = locate(loc, name); n = None if l is None else node(*l[:2])
        if n is None: return FAIL
        I.store(I.deref(V(info)).ext(('f', 'type')), num(0 if n.op == 'h5group' else 1))
        return ZERO
    @model('H5Literate', 'H5Literate1', 'H5Literate2')
    def _(e, loc, idx, order, pn, op, data):
        d = desc(loc)
        if d is None or d.op not in ('h5file', 'h5obj'): return FAIL
        n = node(d.a[0], d.a[1] if d.op == 'h5obj' else ())
        if V(pn).op == 'ptr': I.store(I.deref(V(pn)), num(len(n.a)))
        return ZERO
    @model('H5Gget_num_objs')
    def _(e, loc, pn):
        d = desc(loc)
        if d is None or d.op not in ('h5file', 'h5obj'): return FAIL
        I.store(I.deref(V(pn)), num(len(node(d.a[0], d.a[1] if d.op == 'h5obj' else ()).a)))
        return ZERO
    @model('H5Lget_name_by_idx')
    def _(e, loc, name, idx, order, n, buf, size, *r):
        d = desc(loc); k = V(n)
        if d is None or d.op not in ('h5file', 'h5obj') or not isnum(k): return FAIL
        g = node(d.a[0], d.a[1] if d.op == 'h5obj' else ())
        if not 0 <= int(k.a[0]) < len(g.a): return FAIL
        s = g.a[int(k.a[0])][0]
        if V(buf).op == 'ptr': I.store(buffer(I, V(buf)), s)
        return mk('shortlen', s)
    # ---- datasets
    @model('H5Dcreate2')
    def _(e, loc, name, t, s, lcpl, dcpl, dapl):
        l = locate(loc, name); ty, sp = desc(t), desc(s)
        if l is None or l[2] != 'w' or ty is None or sp is None or node(*l[:2]) is not None or node(l[0], l[1][:-1]) is None or node(l[0], l[1][:-1]).op != 'h5group': return FAIL
        p = V(dcpl)
        pl = desc(dcpl) if not (isnum(p) and p.a[0] == 0) else mk('h5plist')
        if pl is None or pl.op != 'h5plist': return FAIL
        if len(sp.a) > 3 and sp.a[3] != sp.a[1] and not pl.a or pl.a and len(pl.a[0]) != len(sp.a[1]): return FAIL       # only chunked data sets can be extended
        setnode(l[0], l[1], mk('h5ds', ty, mk('h5space', sp.a[0], sp.a[1], 'all', *sp.a[3:]), mk('h5unwritten'), pl))
        return new(mk('h5obj', *l))
    @model('H5Dopen2')
    def _(e, loc, name, *r):
        l = locate(loc, name); n = None if l is None else node(*l[:2])
        if n is None or n.op != 'h5ds': return FAIL
        return new(mk('h5obj', *l))
    def dset(i):
        d = desc(i)
        if d is None or d.op != 'h5obj': return None, None
        n = node(d.a[0], d.a[1])
        return d, n if n is not None and n.op == 'h5ds' else None
    @model('H5Dget_space')
    def _(e, i):
        d, n = dset(i)
        return FAIL if n is None else new(n.a[1])
    @model('H5Dget_type')
    def _(e, i):
        d, n = dset(i)
        return FAIL if n is None else new(n.a[0])
    @model('H5Dget_create_plist')
    def _(e, i):
        d, n = dset(i)
        return FAIL if n is None else new(n.a[3])
    @model('H5Dset_extent')
    def _(e, i, p):
        d, n = dset(i)
        if n is None: return FAIL
        dims = I.load(buffer(I, V(p)))
        if d.a[2] != 'w' or len(n.a[1].a) < 4 or len(n.a[1].a[3]) != len(dims.a): return FAIL
        for m, x in zip(n.a[1].a[3], dims.a):
            if not (isnum(m) and (m.a[0] >= 2 ** 63 or m.a[0] == -1) or m.op in ('global', 'sym') and 'UNLIMITED' in str(m.a[0])) and cmp_('<=', x, m) is not TRUE: return FAIL
        setnode(d.a[0], d.a[1], mk('h5ds', n.a[0], mk('h5space', 'simple', tuple(dims.a), 'all', n.a[1].a[3]), mk('h5extended', n.a[2]), n.a[3]))
        return ZERO
    def space_arg(x, default):
        v = V(x)
        if isnum(v) and v.a[0] == 0: return default
        return desc(x)
    @model('H5Dwrite')
    def _(e, i, t, ms, fs, pl, p):
        d, n = dset(i); ty = desc(t)
        if n is None or d.a[2] != 'w' or ty is None: return FAIL
        f = space_arg(fs, n.a[1]); m = space_arg(ms, f)
        if f is None or m is None or f.op != 'h5space' or m.op != 'h5space': return FAIL
        if tequal(ty, n.a[0]) is not TRUE: return FAIL if tequal(ty, n.a[0]) is FALSE else mk('h5unknown')
        if f.a[2] != 'all' or m.a[2] != 'all':
            if cmp_('==', selpoints(f), selpoints(m)) is FALSE: return FAIL
            v = mk('h5partial', n.a[2], f.a[2], I.load(buffer(I, V(p))))
        else:
            eq = cmp_('==', npoints(f), npoints(m))
            if sequal(f, m) is not TRUE and eq is not TRUE: return FAIL if eq is FALSE else mk('h5unknown')
            v = mk('h5empty') if V(p).op == 'nullptr' and npoints(m) is ZERO else covered(I.load(buffer(I, V(p))), ty, I.tu)
            if sequal(f, m) is not TRUE and f.a[0] == m.a[0]: v = mk('h5reshaped', v, m.a[1], f.a[1])
        setnode(d.a[0], d.a[1], mk('h5ds', n.a[0], n.a[1], v, n.a[3]))
        return ZERO
    @model('H5Dread')
    def _(e, i, t, ms, fs, pl, p):
        d, n = dset(i); ty = desc(t)
        if n is None or ty is None: return FAIL
        f = space_arg(fs, n.a[1]); m = space_arg(ms, f)
        if f is None or m is None or f.op != 'h5space' or m.op != 'h5space': return FAIL
        if tequal(ty, n.a[0]) is not TRUE: return FAIL if tequal(ty, n.a[0]) is FALSE else mk('h5unknown')
        v = n.a[2]
        if v.op == 'h5empty' and npoints(m) is ZERO: return ZERO
        lv = buffer(I, V(p))
        if f.a[2] != 'all' or m.a[2] != 'all':
            if cmp_('==', selpoints(f), selpoints(m)) is FALSE: return FAIL
            v = v.a[2] if v.op == 'h5partial' and v.a[1] is f.a[2] else mk('h5sel', v, f.a[2])
        else:
            eq = cmp_('==', npoints(f), npoints(m))
            if sequal(f, m) is not TRUE and eq is not TRUE: return FAIL if eq is FALSE else mk('h5unknown')
            if sequal(f, m) is not TRUE and f.a[0] == m.a[0]: v = mk('h5reshaped', v, f.a[1], m.a[1])
        I.store(lv, read_into(I.load(lv), covered(v, ty, I.tu)))
        return ZERO
    # ---- types
    @model('H5Tcopy')
    def _(e, i):
        d = desc(i)
        return FAIL if d is None or d.op == 'h5closed' else new(d)
    @model('H5Tcreate')
    def _(e, cls, size): return new(T('comp', V(size), ()))
    @model('H5Tinsert')
    def _(e, i, name, off, t):
        d, ty, n = desc(i), desc(t), string_of(I, name)
        if d is None or ty is None or d.a[0] != 'comp' or any(m[0] is n or m[1] is V(off) for m in d.a[2]): return FAIL
        setdesc(i, T('comp', d.a[1], d.a[2] + ((n, V(off), ty),)))
        return ZERO
    @model('H5Tarray_create2')
    def _(e, t, rank, dims):
        ty = desc(t); p = V(dims)
        if ty is None or not isnum(V(rank)): return FAIL
        d = I.load(buffer(I, p)); d = list(d.a) if d.op == 'arr' else [d]
        for x in d[:int(V(rank).a[0])]: ty = T('arr', ty, x)
        return new(ty)
    @model('H5Tset_size')
    def _(e, t, n):
        ty = desc(t)
        if ty is None: return FAIL
        if V(n) is ZERO: return FAIL
        if ty.a[0] == 'str': setdesc(t, T('str', V(n))); return ZERO
        if ty.a[0] in ('int', 'ulong', 'uint', 'long') and isnum(V(n)):
            setdesc(t, T('sized', V(n), ty)); return ZERO
        return FAIL
    @model('H5Tget_size')
    def _(e, t):
        ty = desc(t)
        return ZERO if ty is None else tsize(ty)
    @model('H5Tequal')
    def _(e, a, b):
        a, b = desc(a), desc(b)
        if a is None or b is None: return FAIL
        r = tequal(a, b)
        return ONE if r is TRUE else ZERO if r is FALSE else ite(r, ONE, ZERO)
    # ---- spaces
    @model('H5Screate')
    def _(e, k):
        k = V(k)
        return new(mk('h5space', 'scalar' if k is ZERO else 'null', (), 'all'))
    @model('H5Screate_simple')
    def _(e, rank, dims, mx):
        n = V(rank)
        if not isnum(n): return mk('h5unknown')
        d = I.load(buffer(I, V(dims)))
        d = list(d.a) if d.op == 'arr' else [select(d, ('i', num(k))) for k in range(int(n.a[0]))]
        if int(n.a[0]) == 0: return new(mk('h5space', 'scalar', (), 'all'))
        d = tuple(d[:int(n.a[0])]); mxv = V(mx)
        mxd = d if mxv.op == 'nullptr' or mxv is ZERO else tuple(I.load(buffer(I, mxv)).a)
        return new(mk('h5space', 'simple', d, 'all', mxd))
    @model('H5Scopy')
    def _(e, i):
        d = desc(i)
        return FAIL if d is None or d.op == 'h5closed' else new(d)
    @model('H5Sextent_equal')
    def _(e, a, b):
        a, b = desc(a), desc(b)
        if a is None or b is None or 'h5space' != a.op or 'h5space' != b.op: return FAIL
        r = sequal(a, b)
        return ONE if r is TRUE else ZERO if r is FALSE else ite(r, ONE, ZERO)
    @model('H5Sget_simple_extent_ndims')
    def _(e, i):
        d = desc(i)
        return FAIL if d is None else num(len(d.a[1]))
    @model('H5Sget_simple_extent_npoints')
    def _(e, i):
        d = desc(i)
        return FAIL if d is None else npoints(d)
    @model('H5Sget_select_npoints')
    def _(e, i):
        d = desc(i)
        return FAIL if d is None else npoints(d) if d.a[2] == 'all' else mk('h5selsize', d)
    @model('H5Sget_simple_extent_dims')
    def _(e, i, p, q):
        d = desc(i)
        if d is None: return FAIL
        if V(p).op == 'ptr': I.store(buffer(I, V(p)), mk('arr', *d.a[1]))
        return num(len(d.a[1]))
    @model('H5Sselect_all')
    def _(e, i):
        d = desc(i)
        if d is None: return FAIL
        setdesc(i, mk('h5space', d.a[0], d.a[1], 'all', *d.a[3:])); return ZERO
    @model('H5Sselect_none')
    def _(e, i):
        d = desc(i)
        if d is None: return FAIL
        setdesc(i, mk('h5space', d.a[0], d.a[1], 'none', *d.a[3:])); return ZERO
    @model('H5Sselect_hyperslab')
    def _(e, i, op, *a):
        d = desc(i)
        if d is None: return FAIL
        setdesc(i, mk('h5space', d.a[0], d.a[1], mk('hyperslab', *[I.load(buffer(I, V(x))) if V(x).op == 'ptr' else V(x) for x in a]), *d.a[3:])); return ZERO
    # ---- property lists
    @model('H5Pcreate')
    def _(e, c): return new(mk('h5plist'))
    @model('H5Pset_chunk')
    def _(e, i, n, p):
        d = desc(i)
        if d is None or d.op != 'h5plist': return FAIL
        x = I.load(buffer(I, V(p)))
        if x.op != 'arr' or not isnum(V(n)) or any(y is ZERO for y in x.a): return FAIL
        setdesc(i, mk('h5plist', tuple(x.a[:int(V(n).a[0])]))); return ZERO
    @model('H5Pcopy')
    def _(e, i):
        d = desc(i)
        return FAIL if d is None else new(d)
    @model('H5Pequal')
    def _(e, a, b):
        a, b = desc(a), desc(b)
        return FAIL if a is None or b is None else ONE if a is b else ZERO
    # ---- arrays in memory are stored and loaded as a whole
    def ary(f):
        def g(I, e, obj, args):
            if obj is None: return None
            o = obj if isinstance(obj, LV) else I.lv(obj)
            v = I.load(o)
            if v.op not in ('sym', 'newarr', 'fld', 'elem', 'call', 'apply'): return None
            return f(e, o, v, args)
        return g
    old = {}
    def wrap(name, f):
        prev = M.get(name)
        def g(I, e, obj, args):
            r = ary(f)(I, e, obj, args)
            return r if r is not None else prev(I, e, obj, args) if prev else None
        M[name] = g
    for p in ('nd::shared_provider_t', 'nd::unique_provider_t'):
        wrap(p + '::data', lambda e, o, v, a: mk('ptr', o.loc, o.path + (('whole',),)))
        wrap(p + '::shape', lambda e, o, v, a: v.a[0] if v.op == 'newarr' else I.symbolic(I.tu.type(e['t']), 'shape(%s)' % show(v)))
        wrap(p + '::shared', lambda e, o, v, a: v)
        wrap(p + '::unique', lambda e, o, v, a: v)
    def mk_new(I, e, obj, args):
        v = V(args[0]) if len(args) == 1 else None
        return mk('newarr', v) if v is not None and v.op == 'rec' and v.a[0] == 'nd::shape_t' else None
    M['nd::make_unique_provider'] = mk_new
    prev = M['nd::evaluate_as_unique']
    def ev_as(I, e, obj, args):
        v = V(args[0])
        return v if v.op in ('sym', 'newarr') else prev(I, e, obj, args)
    M['nd::evaluate_as_unique'] = ev_as
