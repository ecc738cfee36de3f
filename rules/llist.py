"""Immutable lists: contents and order after every operation, and what sharing leaves untouched."""
from program import AnalysisBroken
from terms import *
from sched import Use
from ckpt import units
from vg import LV
import store


def holds(v, loc):
    """number of references to a location inside a value"""
    if v.op == 'ptr': return 1 if v.a[0] == loc else 0
    n = 0
    for x in v.a:
        if isinstance(x, T): n += holds(x, loc)
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, T): n += holds(y, loc)
                elif isinstance(y, tuple): n += sum(holds(z, loc) for z in y if isinstance(z, T))
    return n


def prep(I, others=None):
    """others: the number of references every node is taken to have (at least two: other lists share it)"""
    store.prep(I)
    def count(I, obj):
        v = I.load(obj if isinstance(obj, LV) else I.lv(obj))
        if v.op == 'nullptr': return 0
        if others is not None: return others
        if v.op != 'ptr': raise AnalysisBroken('reference count of ' + show(v)[:60])
        return sum(holds(x, v.a[0]) for x in I.state.mem.values() if isinstance(x, T))
    def p_unique(I, e, obj, args): return num(1 if count(I, obj) == 1 else 0)
    def p_use(I, e, obj, args): return num(count(I, obj))
    def p_reset(I, e, obj, args):
        if args: return None
        I.store(obj if isinstance(obj, LV) else I.lv(obj), mk('nullptr')); return ZERO
    for p in ('std::__shared_ptr::', 'std::shared_ptr::'):
        I.models[p + 'unique'] = p_unique; I.models[p + 'use_count'] = p_use; I.models[p + 'reset'] = p_reset


def body(u):
    c = u.c
    A = lambda *a: list(a)
    u.val('empty0', lambda: [TRUE]); u.val('empty1', lambda a: [FALSE])
    for n, k in (('size0', 0), ('size1', 1), ('size3', 3)): u.val(n, lambda *a, k=k: [num(k)])
    u.val('head3', lambda a, b, c: [a]); u.val('second', lambda a, b, c: [b]); u.val('third', lambda a, b, c: [c]); u.val('end3', lambda *a: [TRUE])
    for n in ('head0', 'head_end', 'tail0'): u.throws(n)
    for n in ('each0', 'each3', 'app0', 'app1', 'app3', 'app2', 'cat', 'cat_l0', 'cat_r0', 'cat_00', 'rev0', 'rev1', 'init3', 'range', 'range0', 'again', 'advance', 'keep_rev'): u.val(n, A)
    u.val('tail3', lambda a, b, c: [b, c]); u.val('pre', lambda a, b, c, x: [x, a, b, c]); u.val('cat_self', lambda a, b: [a, b, a, b]); u.val('rev', lambda a, b, c: [c, b, a])
    for n in ('keep_pre', 'keep_app', 'keep_cat', 'keep_cat2', 'keep_tail', 'copied', 'owner2', 'dropped', 'dropped_tail'): u.val(n, lambda a, b, x: [a, b])
    u.val('shared', lambda a, b, x: [x, a, b]); u.val('owner', lambda a, b, x: [x, b])
    both = lambda a, b, x, y: band(cmp_('==', a, x), cmp_('==', b, y))
    u.val('eq', lambda *a: [both(*a)]); u.val('ne', lambda *a: [bnot(both(*a))])
    for n in ('eq_len', 'eq_len2', 'eq_0', 'eq_1'): u.val(n, lambda *a: [FALSE])
    u.val('eq_00', lambda: [TRUE])


def shared(u):
    """whatever else refers to its nodes, a list that other lists share is not taken apart"""
    for k in (2, 3, 9):
        u.prep = lambda I: prep(I, k)
        for n in ('each3', 'keep_pre', 'keep_app', 'keep_cat', 'keep_cat2', 'keep_tail', 'copied', 'keep_rev', 'dropped', 'dropped_tail', 'owner2'):
            ob = u.c.ob
            u.c.ob = lambda name, *a, **kw: ob('%s (%d references)' % (name, k), *a, **kw)
            try: u.val(n, lambda *a: list(a[:2]) if n not in ('each3', 'keep_rev') else list(a))
            finally: u.c.ob = ob


def prop_list(c):
    c.rule('the value graph of every list operation on lists with arbitrary elements gives exactly the elements and order of its definition; the lists it started from keep theirs; head and tail of an empty list have no normal return')
    c.assumptions.append('the models of std::shared_ptr, std::make_shared and std::vector in rules/store.py; elements are treated uniformly, lengths up to five stand for any length')
    def go(u): u.prep = prep; body(u); shared(u)
    units(c, 'list.cpp', go)
    c.minimum = 1
