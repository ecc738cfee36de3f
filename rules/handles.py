"""HDF5 identifiers: each is owned by exactly one object and released once."""
from program import AnalysisBroken, rel
from terms import *
from physics import leaves
from ckpt import units
import h5

KINDS = {'type': ('H5Tclose', h5.DOUBLE), 'space': ('H5Sclose', mk('h5space', 'scalar', (), 'all')), 'plist': ('H5Pclose', mk('h5plist')),
         'dset': ('H5Dclose', None), 'group': ('H5Gclose', None), 'file': ('H5Fclose', None)}
A, B = 900001, 900002


def subst(v, x):
    if v.op == 'rec': return mk('rec', v.a[0], tuple((k, subst(y, x)) for k, y in v.a[1]))
    if v.op in ('sym', 'num', 'fld', 'uninit'): return x
    raise AnalysisBroken('a handle of unknown form: ' + show(v)[:100])


class Run:
    """a witness function on objects that own known identifiers"""

    def __init__(self, u): self.u = u

    def go(self, name, ids, kind):
        u = self.u; d = KINDS[kind][1]; self.log = []
        def prep(I):
            h5.prep(I)
            for i in (A, B): I.state.mem[('h5id', i)] = d if d is not None else mk('h5obj', st('a.h5'), (st('x'),), 'w') if kind != 'file' else mk('h5file', st('a.h5'), 'w')
            for n in ('H5Tclose', 'H5Sclose', 'H5Pclose', 'H5Dclose', 'H5Gclose', 'H5Fclose'):
                def g(I, e, obj, args, f=I.models[n], n=n):
                    v = I.rv(args[0]); self.log.append((n, int(v.a[0]) if isnum(v) else None))
                    return f(I, e, obj, args)
                I.models[n] = g
        u.prep = prep
        f = u.w.fn(name)
        from vg import Interp
        I0 = Interp(u.w.tu)
        args = []
        for p, i in zip(f.d['params'], ids):
            t = u.w.tu.types[p['t']] if isinstance(p['t'], int) else p['t']
            pt = t['p'] if t['k'] in ('ref', 'lref') or 'p' in t else p['t']
            args.append(subst(I0.symbolic(pt, p['name']), num(i)))
        v = u.run(name, args)
        self.val = v
        self.after = [self.id(u.I.load(l)) for l in u.w.locs]
        return self

    def id(self, v):
        l = leaves(v)
        if len(l) != 1 or not isnum(l[0]): raise AnalysisBroken('identifier of unknown value: ' + show(v)[:100])
        return int(l[0].a[0])

    def open(self, i): d = self.u.I.state.mem.get(('h5id', i - h5.BASE)); return d is not None and d.op != 'h5closed'


def prop_handles(c):
    c.rule('the value graph of every special member function of the handle classes, applied to objects owning known identifiers: an identifier is released exactly once, by the function for its kind; moving transfers it, copying makes another, assigning releases the previous one')
    c.assumptions.append('the model of the HDF5 C interface in rules/h5.py; destructors of objects that go out of scope are run by the compiler')
    def body(u):
        R = Run(u)
        a, b = h5.BASE + A, h5.BASE + B
        def case(kind, op, ids, judge):
            n = '%s_%s' % (kind, op)
            try: u.w.fn(n)
            except AnalysisBroken: return
            try: R.go(n, ids, kind)
            except AnalysisBroken as e: return c.undecided(n, '', str(e))
            if u.ret is not TRUE: return c.ob(n, False, u.where, '%s: %s' % (n, 'can throw' if u.ret is not FALSE else 'always throws'))
            try: msg = judge()
            except AnalysisBroken as e: return c.undecided(n, u.where, str(e))
            c.ob(n + (':none' if ids[0] == -1 else ''), msg is None, u.where, '%s: %s' % (n, msg))
        for kind, (cl, _) in KINDS.items():
            once = lambda *want: None if sorted(R.log) == sorted((cl, w) for w in want) else 'releases %s, required %s' % (['%s(%s)' % x for x in R.log], ['%s(%s)' % (cl, w) for w in want])
            case(kind, 'close', [a], lambda: once(a)); case(kind, 'close', [-1], lambda: once())
            case(kind, 'close2', [a], lambda: once(a)); case(kind, 'end', [a], lambda: once(a)); case(kind, 'end', [-1], lambda: once())
            case(kind, 'close_end', [a], lambda: once(a)); 
            if kind != 'space':
                case(kind, 'move', [a], lambda: 'releases an identifier' if R.log else None if R.id(R.val) == a and R.after[0] == -1 else 'the identifier is not handed over (new owner %s, previous owner %s)' % (R.id(R.val), R.after[0]))
            case(kind, 'move_end', [a], lambda: 'the identifier is released %d times' % [x[1] for x in R.log].count(a) if [x[1] for x in R.log].count(a) != 1 or any(x[0] != cl for x in R.log) else None)
            case(kind, 'assign', [a, b], lambda: once(a) or (None if R.after == [b, -1] else 'afterwards the objects own %s' % R.after))
            case(kind, 'assign_end', [a, b], lambda: once(a, b))
            case(kind, 'assign', [-1, b], lambda: once() or (None if R.after == [b, -1] else 'afterwards the objects own %s' % R.after))
            case(kind, 'copy', [a], lambda: 'the copy does not own an identifier of its own' if R.id(R.val) == a or not R.open(R.id(R.val)) else None if not R.log and R.after == [a] else 'the original is changed')
            case(kind, 'copy_end', [a], lambda: None if len(set(R.log)) == len(R.log) == 2 and (cl, a) in R.log and all(x[0] == cl for x in R.log) else 'releases %s' % R.log)
            case(kind, 'set', [a, b], lambda: once(a) or (None if R.after[0] not in (a, b) and R.open(R.after[0]) and R.after[1] == b and R.open(b) else 'afterwards the objects own %s' % R.after))
            case(kind, 'self', [a], lambda: None if R.open(R.after[0]) and len([x for x in R.log if x[1] == R.after[0]]) == 0 and (R.after[0] == a or (cl, a) in R.log) else 'assigning an object to itself leaves it without an open identifier')
    units(c, 'handles.cpp', body)
    c.minimum = 1


def made(u):
    """objects handed out own an open identifier"""
    for n in ('group', 'group2', 'group3', 'dset', 'dset2', 'type', 'type2', 'type3', 'space', 'space2', 'plist', 'file'):
        n = 'made_' + n; log = []
        def prep(I):
            h5.prep(I)
            for f in ('H5Tclose', 'H5Sclose', 'H5Pclose', 'H5Dclose', 'H5Gclose', 'H5Fclose'):
                I.models[f] = (lambda I, e, obj, args, m=I.models[f]: (log.append(I.rv(args[0])), m(I, e, obj, args))[1])
        u.prep = prep
        try:
            v = u.run(n); i = leaves(v)[0]
            if not isnum(i): raise AnalysisBroken('identifier of unknown value: ' + show(v)[:100])
            d = u.I.state.mem.get(('h5id', int(i.a[0]) - h5.BASE))
        except AnalysisBroken as e: u.c.undecided(n, '', str(e)); continue
        u.c.ob(n, d is not None and d.op != 'h5closed' and i not in log, u.where, n + ': the object handed out does not own an open identifier')


ACQUIRE = ('H5Fcreate', 'H5Fopen', 'H5Gopen', 'H5Gcreate', 'H5Dopen', 'H5Dcreate', 'H5Dget_space', 'H5Dget_type', 'H5Dget_create_plist', 'H5Tcopy', 'H5Tcreate', 'H5Tarray_create',
           'H5Screate', 'H5Screate_simple', 'H5Scopy', 'H5Pcreate', 'H5Pcopy', 'H5Aopen', 'H5Acreate')


def base(n): return n.rstrip('12') if n.startswith('H5') else n


def acquired(c):
    """the result of a library call that hands out an identifier becomes property of an object"""
    from program import parse_all, repo_units
    seen = {}
    def visit(n, ctx, f, uses):
        if isinstance(n, list):
            for x in n: visit(x, ctx, f, uses)
            return
        if not isinstance(n, dict): return
        k = n.get('k')
        if k == 'Call' and base((n.get('n') or '')) in ACQUIRE: seen.setdefault((f.d['file'], n['l'], n['n']), []).append((ctx, f, uses))
        if k == 'Compound':
            for x in n['c']: visit(x, 'discarded', f, uses)
            return
        if k == 'Return': return visit(n.get('e'), 'kept', f, uses)
        if k == 'Assign' and n.get('op') == '=': visit(n['a'], 'other', f, uses); return visit(n['b'], 'kept' if n['a'].get('k') == 'Member' else ('var', n['a'].get('id')), f, uses)
        if k == 'Decl':
            for v in n['vars']: visit(v.get('init'), ('var', v['id']), f, uses)
            return
        if k == 'Construct': return visit(n['args'], 'kept', f, uses)
        if k == 'Call':
            if (n.get('n') or '').startswith('h5::detail::'): return visit(n['args'], ctx, f, uses)
            visit(n.get('obj'), 'other', f, uses)
            m = n.get('n') or ''; return visit(n.get('args'), 'argument' if m.startswith('H5') and not m.endswith('close') else 'kept', f, uses)
        if k in ('Load', 'Cast', 'Temp', 'Bind', 'Paren', 'Cond'): 
            for x in n.values():
                if isinstance(x, (dict, list)): visit(x, ctx, f, uses)
            return
        for x in n.values():
            if isinstance(x, (dict, list)): visit(x, 'other', f, uses)
    def refs(n, ctx, out):
        """variables whose value is returned, stored in a member, made an owner of, or closed"""
        if isinstance(n, list):
            for x in n: refs(x, ctx, out)
        elif isinstance(n, dict):
            k = n.get('k')
            if k == 'Ref' and ctx: out.add(n.get('id'))
            if k == 'Return' or k == 'Construct': ctx = True
            elif k == 'Call': ctx = (n.get('n') or '').endswith('close') or (n.get('n') or '').endswith('close_stack') or not (n.get('n') or '').startswith('H5')
            elif k == 'Assign' and n['a'].get('k') == 'Member': refs(n['b'], True, out); return
            for x in n.values():
                if isinstance(x, (dict, list)): refs(x, ctx, out)
        return out
    for tu in parse_all(repo_units()):
        for f in tu.funcs.values():
            if '/repo' not in f.d['file'] and not f.d['file'].startswith(rel_root()): continue
            if 'body' not in f.d and not f.d.get('inits'): continue
            uses = refs(f.d.get('body'), False, set())
            for i in f.d.get('inits') or (): visit(i.get('e'), 'kept', f, uses)
            visit(f.d.get('body'), 'discarded', f, uses)
    for (file, l, n), where in sorted(seen.items()):
        bad = [ctx for ctx, f, uses in where if ctx == 'discarded' or isinstance(ctx, tuple) and ctx[1] not in uses or ctx == 'argument']
        c.ob('acquired:%s:%s' % (where[0][1].d['n'], n), not bad, '%s:%s' % (rel(file), l), 'the identifier %s hands out in %s is not owned by any object: it is never released' % (n, where[0][1].d['n']))


def rel_root():
    from program import REPO
    return REPO


_handles = prop_handles


def prop_handles(c):
    _handles(c)
    units(c, 'handles.cpp', made)
    acquired(c)
    c.minimum = 10
