"""Checkpoints: what is written is read back, and a run continued from a checkpoint is the run that wrote it."""
from program import AnalysisBroken
from terms import *
from physics import leaves, add
from algebra import returns
from lin import entails, equiv, same
from vg import select
from sched import Use, tasks
import h5, tree


def prep(I):
    """output other than the checkpoint goes to other files and leaves the state as it is"""
    h5.prep(I)
    for cls in ('SedovProblem', 'CloudProblem'):
        for f in ('write_diagnostics', 'write_time_series'):
            I.models[cls + '::' + f] = lambda I, e, obj, args: ZERO


def canon(I, v, path='', out=None, depth=0):
    """{path: leaf} of a value: pointers followed, containers by key, arrays without elements by their shape"""
    out = {} if out is None else out
    if depth > 60: raise AnalysisBroken('value without an end at ' + path)
    def go(k, x): canon(I, x, path + '.' + k if path else k, out, depth + 1)
    if v.op == 'rec':
        if v.a[0].endswith('shared_provider_t'):
            sh = leaves(dict(v.a[1])['the_shape'])
            if any(isnum(x) and x.a[0] == 0 for x in sh): out[path] = mk('tup', *sh); return out
        for i, (k, x) in enumerate(v.a[1]): go(k if isinstance(k, str) else show(k), x)
        if not v.a[1]: out[path] = mk('tup')
    elif v.op == 'arr':
        for i, x in enumerate(v.a): go('[%d]' % i, x)
        if not v.a: out[path] = mk('tup')
    elif v.op == 'ptr': canon(I, I.load(I.deref(v)), path + '*', out, depth + 1)
    elif v.op == 'newarr': out[path] = mk('tup', *leaves(v.a[0])) if any(isnum(x) and x.a[0] == 0 for x in leaves(v.a[0])) else v
    else: out[path] = v
    return out


def differs(a, b, facts=()):
    """first path at which two canonical values differ"""
    for p in list(a) + [p for p in b if p not in a]:
        x, y = a.get(p), b.get(p)
        if x is y: continue
        if x is None or y is None: return p, show(x) if x is not None else 'absent', show(y) if y is not None else 'absent'
        if x.op in ('str', 'sstr', 'tup') or y.op in ('str', 'sstr', 'tup'): return p, show(x), show(y)
        z = lambda t: t if t.op not in ('true', 'false') else t
        if same([x], [y], TRUE, list(facts)) is not None and not boolsame(x, y): return p, show(x), show(y)
    return None


def boolsame(x, y):
    """flags: an integer used as a truth value"""
    try: return equiv(cmp_('!=', x, ZERO), cmp_('!=', y, ZERO), []) and {v.a[0] for v in (x, y) if isnum(v)} <= {0, 1} and all(isnum(v) and v.a[0] in (0, 1) or v.op == 'ite' for v in (x, y))
    except Exception: return False


def units(c, name, fn):
    """a witness unit that no longer builds decides nothing"""
    try: u = Use(c, name, prep=prep); fn(u)
    except AnalysisBroken as e: c.undecided(name, '', str(e)[:300])


def scalars(u):
    for n in ('rt_int', 'rt_dbl', 'rt_ul', 'rt_str', 'rt_seq', 'rt_len', 'rt_loc', 'rt_rat', 'rt_a1', 'rt_a2', 'rt_a2l'): u.val(n, lambda x: leaves(x))
    u.val('rt_empty', lambda: [st('')]); u.val('rt_lit', lambda: [st('data')])
    u.val('rt_vec', lambda a, b, c: [a, b, c]); u.val('rt_veci', lambda a, b: [a, b]); u.val('rt_vec0', lambda: [])
    for n, k in (('rt_pi', 0), ('rt_pd', 1), ('rt_ps', 2)): u.val(n, lambda x, k=k: [num(k), x])
    u.val('rt_pe', lambda: [num(2), st('')])
    u.val('over', lambda x, y: [y])
    for n in ('two', 'nested', 'keep'): u.val(n, lambda x, y: [x])
    for n in ('trunc', 'ronly', 'missing', 'nofile', 'badmode', 'wrong_id', 'wrong_di', 'wrong_ds', 'wrong_rank', 'retype', 'reshape', 'group_not_set'): u.throws(n)
    u.val('count', lambda x: [num(3)])
    for n in ('list_w', 'list_r'): u.val(n, lambda a, b, c: [a, b, c])
    u.val('list_0', lambda: [])
    B, C = st('b'), st('write_checkpoint')
    for n in ('sched', 'sched2'): u.val(n, lambda k, t, K, x: [B, B, K, x, FALSE, C, C, k, t, FALSE], post=tasks)
    u.val('sched0', lambda: [], post=tasks)
    def params(v):
        while v.a[0] != 'std::map': v = dict(v.a[1])['parameters']
        out = []
        for k, p in v.a[1]: q = dict(p.a[1]); out += [k, q['first'], select(q['second'], ('f', 'index')), select(q['second'], ('f', 'alt'))]
        return mk('tup', *out)
    D, E, I_, S_ = st('d'), st('e'), st('i'), st('s')
    def V(i, d, s, e=()): return [D, D, num(1), d] + ([E, E, num(2), st('')] if e else []) + [I_, I_, num(0), i, S_, S_, num(2), s]
    u.val('conf', lambda i, d, s: V(i, d, s), post=params); u.val('conf2', lambda i, d, s, j: V(j, d, s, 1), post=params)
    u.val('fname', lambda p, n, x: [mk('sstr', p, st('.'), mk('dec', n, '0'), st('.'), x)])
    u.val('conf_restart', lambda i, d, s, j, t: V(j, d, t), post=params)


def trees(u):
    def tr(name, spec):
        try: v = u.run(name); got = tree.read(u.I, v)
        except AnalysisBroken as e: return u.c.undecided(name, '', str(e))
        if got is None or u.ret is FALSE: return u.c.ob(name, False, u.where, name + ': a stored tree can never be read')
        if u.ret is not TRUE and not entails(TRUE, u.ret, []): return u.c.ob(name, False, u.where, '%s: reading a stored tree can throw (returns when %s)' % (name, show(u.ret)[:200]))
        want = spec(*[leaves(a) for a in u.A])
        if tree.skeleton(got) != tree.skeleton(want): return u.c.ob(name, False, u.where, name + ': the tree read back has another structure')
        u.cmp(name, mk('tup', *[y for x in tree.flat(got) for y in leaves(x)]), tree.flat(want))
    tr('root', lambda a: a[0])
    for n in ('quad', 'quad_named'): tr(n, lambda d: tree.shape(d))
    tr('oct', lambda d: d); tr('bin', lambda a, b, c_: [a[0], [b[0], c_[0]]]); tr('arrays', lambda a, b, c_, d: [a[0], b[0], c_[0], d[0]])
    for n in ('rt1', 'rt2', 'rt3'): u.val(n, lambda x: leaves(x))
    u.val('rd_4', lambda: [num(4), num(1), num(12)])


def restart(pre, base='went_on', again='restarted', others=True):
    def go(u):
        for p in pre:
            try: a = canon_of(u, base, p); b = canon_of(u, again, p)
            except AnalysisBroken as e: u.c.undecided(p + again, u.__dict__.get('where', ''), str(e)); continue
            if a is None or b is None: u.c.ob(p + again, False, u.where, '%s: a checkpoint is %s' % (u.w.unit if hasattr(u.w, 'unit') else p, 'not written' if a is None else 'never readable')); continue
            skip = [k for k in set(a) | set(b) if k.startswith("run_config.parameters.'restart'")]
            for k in skip: a.pop(k, None); b.pop(k, None)
            d = differs(a, b)
            u.c.ob(p + again, d is None, u.where, d and '%s: after a restart from the checkpoint %s is %s, in the run that wrote it %s' % (p + again, d[0], d[2][:200], d[1][:200]), sample='%d values compared' % len(a))
    def canon_of(u, fn, p):
        n = p + fn if p.endswith('_') or not p else fn + p
        v = u.run(n)
        if v is BOT or u.ret is FALSE: return None
        if u.ret is not TRUE and not entails(TRUE, u.ret, []):
            u.c.ob(n + ':returns', False, u.where, '%s: can throw (returns only when %s)' % (n, show(u.ret)[:200]))
        return canon(u.I, v)
    def extra(u):
        for p in pre:
            u.throws(p + 'no_file', what='no checkpoint was due, so there is none to restart from; restarting must throw')
            idle(u, p)
    def idle(u, p):
        """a checkpoint that is not due leaves count and times alone"""
        try: v = u.run(p + 'idle')
        except AnalysisBroken as e: return u.c.undecided(p + 'idle', '', str(e))
        try: got = canon(u.I, v)
        except AnalysisBroken as e: return u.c.undecided(p + 'idle', '', str(e))
        A = {q['name']: x for q, x in zip(u.w.fn(p + 'idle').d['params'], u.A)}
        k = A.get('k', A.get('count')); t = A.get('t', A.get('last'))
        key = "schedule.tasks.'write_checkpoint'.second."
        u.cmp(p + 'idle', mk('tup', got[key + 'num_times_performed'], got[key + 'last_performed']), [k, t])
    def all_(u):
        go(u)
        if others: extra(u)
    return all_


def overridden(u):
    """options on the command line of the restart win over those of the checkpoint, and only those"""
    restart([''])(u)
    try:
        u.run('went_on'); a = canon(u.I, u.run('went_on')); v = u.run('restarted_args'); b = canon(u.I, v)
    except AnalysisBroken as e: return u.c.undecided('restarted_args', '', str(e))
    for k in list(b):
        if "parameters.'N'" in k or "parameters.'restart'" in k: b.pop(k) if "'restart'" in k else None; a.pop(k, None)
    got = {k: x for k, x in b.items() if "parameters.'N'" in k}
    for k in got: b.pop(k)
    u.c.ob('restarted_args:N', any(isnum(x) and x.a[0] == 12 or x is mk('call', 'std::stoi', '', st('12')) for x in got.values()), u.where, 'an option given with the restart is not the one in force: ' + ', '.join(show(x) for x in got.values())[:200])
    d = differs(a, b)
    u.c.ob('restarted_args', d is None, u.where, d and 'restarting with N=12 changes %s: %s instead of %s' % (d[0], d[2][:200], d[1][:200]))


def prop_checkpoint(c):
    c.rule('the value graph of reading what was written equals what was written, for every stored type and arbitrary contents; of create_app_state on a file written by run_tasks equals the state run_tasks returned, field by field; mismatched types, missing files and names have no normal return')
    c.assumptions.append('the model of the HDF5 C interface in rules/h5.py (objects, links, types, extents, selections, error returns) and of the standard library in rules/store.py; floating-point text conversion is not involved; diagnostics and time series output other than the checkpoint is taken not to change the state')
    units(c, 'serialize.cpp', scalars)
    units(c, 'serialize_tree.cpp', trees)
    units(c, 'restart_boilerplate.cpp', overridden)
    units(c, 'restart_sedov.cpp', restart(['rel_', 'newt_']))
    units(c, 'restart_cloud.cpp', restart(['cloud_']))
    units(c, 'restart_binary.cpp', restart(['_u', '_q'], others=False))
    c.minimum = 6
