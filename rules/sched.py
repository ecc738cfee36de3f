"""Schedules and run configurations: the value graphs of their public operations against the bookkeeping law."""
from program import AnalysisBroken
from terms import *
from physics import leaves, add, mul, sub, div
from algebra import W, returns
from lin import same, entails, equiv
from vg import select
import store


def merged(*ts):
    """the terms with calls whose arguments are equal as rational functions identified"""
    N = Norm(); rep = []; m = {}
    for x in sorted(atoms(tuple(ts), lambda y: y.op == 'call'), key=lambda y: y.n):
        for r in rep:
            if r.a[0] == x.a[0] and len(r.a) == len(x.a) and all(p is q or (isinstance(p, T) and isinstance(q, T) and N.equal(subst(p, m), subst(q, m))) for p, q in zip(r.a[1:], x.a[1:])): m[x] = r; break
        else: rep.append(x)
    return tuple(subst(t, m) for t in ts)


class Use:
    """results of witness functions with arbitrary arguments"""

    def __init__(self, c, unit, prep=store.prep): self.c = c; self.w = W(c, unit); self.prep = prep; self.facts = []

    def run(self, name, args=None):
        v = self.w.call(name, args=args, prep=self.prep)
        self.I = self.w.last; self.ret = returns(self.I); self.where = min(self.w.site or ['?'], key=lambda x: (not x.startswith('src/subprog_'), not x.startswith('src/'))); self.A = self.w.args
        return v

    def throws(self, name, args=None, what='must throw, but can return'):
        try: self.run(name, args)
        except AnalysisBroken as e: return self.c.undecided(name, '', str(e))
        return self.c.ob(name, self.ret is FALSE or entails(self.ret, FALSE, self.facts), self.where, '%s: %s (returns when %s)' % (name, what, show(self.ret)[:150]))

    def cmp(self, name, got, want, assume=TRUE):
        got, want = leaves(got), want if isinstance(want, list) else leaves(want)
        if [len(got)] != [len(want)]: return self.c.ob(name, False, self.where, '%s: the result has %d components, required %d' % (name, len(got), len(want)))
        for g, w in zip(got, want):
            if g is w: continue
            if w.op in ('str', 'sstr') or g.op in ('str', 'sstr'): return self.c.ob(name, False, self.where, '%s: the code yields %s, required %s' % (name, show(g)[:200], show(w)[:200]))
        d = same(got, want, assume, self.facts)
        if d is not None and atoms(tuple(want), lambda y: y.op == 'call'):
            m = merged(*got, *want, assume); k = len(got)
            d = same(list(m[:k]), list(m[k:-1]), m[-1], self.facts)
        return self.c.ob(name, d is None, self.where, d and '%s: the code yields %s, required %s' % (name, str(d[0])[:200], str(d[1])[:200]))

    def val(self, name, spec, pre=None, args=None, post=lambda v: v):
        try: v = self.run(name, args)
        except AnalysisBroken as e: return self.c.undecided(name, '', str(e))
        p = pre(*self.A) if pre else TRUE
        if v is BOT or self.ret is FALSE: return self.c.ob(name, False, self.where, name + ': the operation always throws')
        if self.ret is not TRUE and not entails(p, self.ret, self.facts) and not entails(*merged(p, self.ret), self.facts): return self.c.ob(name, False, self.where, '%s: the operation can throw (returns only when %s)' % (name, show(self.ret)[:200]))
        try: v = post(v)
        except Exception as e: return self.c.undecided(name, self.where, 'result of unknown form: %s' % show(v)[:200])
        return self.cmp(name, v, spec(*self.A), p)


def tasks(s):
    """{name: (name, count, last, due)} of a schedule value; conditional members are distributed"""
    m = s
    while m.op == 'rec' and m.a[0] != 'std::map': m = m.a[1][0][1]
    if m.op != 'rec': raise AnalysisBroken('schedule of unknown form: ' + show(m)[:200])
    out = []
    for k, p in m.a[1]:
        t = dict(p.a[1])['second']
        out += [k] + [select(t, ('f', n)) for n in ('name', 'num_times_performed', 'last_performed', 'is_due')]
    return mk('tup', *out)


def prop_schedule(c):
    c.rule('the value graph of every schedule operation, applied to schedules with arbitrary counters, times and due flags, equals the bookkeeping law; reference to an unknown task has no normal return')
    c.assumptions.append('the models of std::map, std::vector, std::function and std::string in rules/store.py; task names are treated uniformly (two names stand for any set of names)')
    u = Use(c, 'schedule.cpp')
    fa = lambda x: mk('call', 'witness::fa', '', x); fb = lambda x: mk('call', 'witness::fb', '', x)
    A, B = st('a'), st('b')
    def S(k, t, d, K, v, D): return [A, A, k, t, d, B, B, K, v, D]
    u.val('created_n', lambda: [ZERO]); u.val('created_t', lambda: [ZERO]); u.val('created_d', lambda: [FALSE]); u.val('created_name', lambda: [A]); u.val('created_due', lambda: [TRUE])
    u.val('get_n', lambda k, t, d, K, v, D: [K]); u.val('cnt', lambda *a: [ONE]); u.val('cnt0', lambda *a: [ZERO]); u.val('siz', lambda *a: [num(2)])
    for n in ('miss_n', 'miss_m', 'marked_miss', 'completed_miss', 'ran_miss'): u.throws(n)
    u.val('due', lambda k, t, d, K, v, D, x: S(k, add(t, x), TRUE, K, v, D), post=tasks)
    u.val('done', lambda k, t, d, K, v, D: S(add(k, ONE), t, FALSE, K, v, D), post=tasks)
    late = lambda now, t, p: cmp_('>=', sub(now, t), p)
    u.val('marked', lambda k, t, d, K, v, D, now, p, q: S(k, ite(late(now, t, p), add(t, p), t), bor(late(now, t, p), d), K, ite(late(now, v, q), add(v, q), v), bor(late(now, v, q), D)), post=tasks)
    u.val('marked1', lambda k, t, d, K, v, D, now, q: S(k, t, d, K, ite(late(now, v, q), add(v, q), v), bor(late(now, v, q), D)), post=tasks)
    u.val('completed', lambda k, t, d, K, v, D, x: S(k, t, d, add(K, ONE), v, FALSE) + [x], post=lambda v: mk('tup', *(tasks(select(v, ('f', 'schedule'))).a + (select(v, ('f', 'x')),))))
    on = lambda c_, f, x: ite(c_, f(x), x)
    u.val('ran', lambda k, t, d, K, v, D, x: [on(D, fb, on(d, fa, x))])
    u.val('ran_rev', lambda k, t, d, K, v, D, x: [on(d, fa, on(D, fb, x))])
    u.val('ran_one', lambda k, t, d, K, v, D, x: [on(D, fb, x)])
    u.val('ran_chain', lambda k, t, d, K, v, D, x: S(ite(d, add(k, ONE), k), t, FALSE, K, ite(d, add(v, ONE), v), bor(d, D)) + [on(D, fb, on(d, fa, x))],
          post=lambda v: mk('tup', *(tasks(select(v, ('f', 'schedule'))).a + (select(v, ('f', 'x')),))))
    u.val('cycle', lambda k, t, d, K, v, D, now, p: S(ite(bor(late(now, t, p), d), add(k, ONE), k), ite(late(now, t, p), add(t, p), t), FALSE, K, v, D), post=tasks)
    c.minimum = 24


def prop_config(c):
    c.rule('the value graph of every config operation on configs with arbitrary contents: the value comes back, all others are untouched, the original is untouched; unknown options and other types have no normal return; text is accepted only if all of it is a number of the declared type')
    c.assumptions.append('the models of std::map, std::variant and std::string in rules/store.py; option names are treated uniformly (three options, one per type, stand for any set)')
    c.allow |= {'std::stoi', 'std::stod'}
    u = Use(c, 'config.cpp')
    stoi = lambda s: mk('call', 'std::stoi', '', s); stod = lambda s: mk('call', 'std::stod', '', s)
    D, I_, S_ = st('d'), st('i'), st('s')
    def V(i, d, s): return [D, D, num(1), d, I_, I_, num(0), i, S_, S_, num(2), s]
    def cfg(i, d, s, i0, d0, s0): return V(i, d, s) + V(i0, d0, s0)
    def flat(v):
        out = []
        for m in ('parameters', 'template_items'):
            for k, p in select(v, ('f', m)).a[1]:
                q = dict(p.a[1]); out += [k, q['first'], select(q['second'], ('f', 'index')), select(q['second'], ('f', 'alt'))]
        return mk('tup', *out)
    for n in ('def_i', 'def_it', 'def_later', 'tmpl_const'): u.val(n, lambda i, d, s, *r: [i])
    for n in ('def_d', 'def_dt'): u.val(n, lambda i, d, s: [d])
    for n in ('def_s', 'def_st'): u.val(n, lambda i, d, s: [s])
    u.val('def_lit', lambda: [st('data')]); u.val('def_over', lambda i, d, s, j: [j])
    for n in ('no_i', 'no_s', 'wt_id', 'wt_is', 'wt_di', 'wt_ds', 'wt_si', 'wt_sd', 'st_no', 'st_noc', 'st_di', 'st_si', 'st_id', 'st_sd', 'st_is', 'st_ds', 'txt_no', 'upd_no', 'upd_wt'): u.throws(n)
    for n in ('set_i', 'setc_i'): u.val(n, lambda i, d, s, j: cfg(j, d, s, i, d, s), post=flat)
    u.val('set_d', lambda i, d, s, e: cfg(i, e, s, i, d, s), post=flat); u.val('set_s', lambda i, d, s, t: cfg(i, d, t, i, d, s), post=flat)
    u.val('setc_keeps', lambda i, d, s, j: [i]); u.val('set_twice', lambda i, d, s, j, k: [k])
    whole = lambda t: cmp_('==', mk('parsed', t), store.strlen(t))
    def parsed(name, spec, post=flat):
        try: v = u.run(name)
        except AnalysisBroken as e: return c.undecided(name, '', str(e))
        if v is BOT: return c.ob(name, False, u.where, name + ': the operation always throws')
        from physics import leaves
        if not any(x.op == 'call' and x.a[0] in ('std::stoi', 'std::stod') for x in leaves(v)): return c.undecided(name, u.where, 'the text is not parsed by std::stoi or std::stod')
        t = [a for p, a in zip(u.w.fn(name).d['params'], u.A) if p['name'] == 't'][0]
        c.ob(name + ':whole-text', entails(u.ret, whole(t), []), u.where, '%s: text of which only a prefix is a number is accepted' % name)
        c.ob(name + ':accepts', entails(whole(t), u.ret, []), u.where, '%s: a well-formed number can be rejected' % name)
        u.cmp(name, post(v), spec(*u.A), whole(t))
    for n in ('txt_i', 'txtc_i'): parsed(n, lambda i, d, s, t: cfg(stoi(t), d, s, i, d, s))
    parsed('txt_d', lambda i, d, s, t: cfg(i, stod(t), s, i, d, s))
    parsed('upd_txt', lambda i, d, s, t, w: cfg(stoi(t), d, w, i, d, s))
    for n in ('txt_s', 'txtc_s', 'updc'): u.val(n, lambda i, d, s, t: cfg(i, d, t, i, d, s), post=flat)
    u.val('upd_none', lambda i, d, s: cfg(i, d, s, i, d, s), post=flat)
    u.val('upd_par', lambda i, d, s, j, e, t: cfg(j, e, t, i, d, s), post=flat)
    u.val('upd_seq', lambda i, d, s, j, t: cfg(j, d, t, i, d, s), post=flat)
    u.val('upd_win', lambda i, d, s, t, w: cfg(i, d, w, i, d, s), post=flat)
    for n in ('updc2', 'setc2'): u.val(n, lambda i, d, s, j, t: cfg(j, d, t, i, d, s), post=flat)
    u.val('updc_keeps', lambda i, d, s, t: [s])
    # command line arguments: key=value with a key free of '=' and an arbitrary value
    K, X, Y = mk('word', 'key'), sym('value'), sym('other')
    eq = st('=')
    def entry(*kv): return [x for k, v in kv for x in (k, v)]
    u.val('argv1', lambda a: entry((K, X)), args=[mk('sstr', K, eq, X)])
    u.val('argv1', lambda a: [], args=[K])
    u.val('argv1', lambda a: entry((st('k'), store.sstr([mk('word', 'v'), eq, Y]))), args=[mk('sstr', st('k'), eq, mk('word', 'v'), eq, Y)])
    u.val('argv1', lambda a: entry((K, store.sstr([mk('word', 'v'), eq, mk('word', 'w')]))), args=[mk('sstr', K, eq, mk('word', 'v'), eq, mk('word', 'w'))])
    u.val('argv1', lambda a: entry((K, st(''))), args=[mk('sstr', K, eq)])
    u.val('argv2', lambda a, b: entry((st('a'), X), (st('b'), Y)), args=[mk('sstr', st('a'), eq, X), mk('sstr', st('b'), eq, Y)])
    u.val('argv2', lambda a, b: entry((st('b'), Y)), args=[K, mk('sstr', st('b'), eq, Y)])
    u.throws('argv2', [mk('sstr', K, eq, X), mk('sstr', K, eq, Y)], 'the same option given twice must be rejected')
    u.throws('argv3', [mk('sstr', st('a'), eq, X), mk('sstr', st('b'), eq, Y), mk('sstr', st('a'), eq, X)], 'the same option given twice must be rejected')
    u.val('argv3', lambda a, b, d: entry((st('a'), X), (st('b'), X), (st('c'), Y)), args=[mk('sstr', st('c'), eq, Y), mk('sstr', st('b'), eq, X), mk('sstr', st('a'), eq, X)])
    c.minimum = 55
