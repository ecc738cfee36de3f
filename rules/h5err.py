"""Failures of the HDF5 library: whichever call of an operation fails, the operation must not return as if it had succeeded."""
from program import AnalysisBroken
from terms import *
from ckpt import units
from lin import entails
import ckpt, h5

NOT = ('H5open', 'H5check_version', 'H5Fis_hdf5', 'H5Fflush')


def injectable(n): return n.startswith('H5') and n not in NOT and not n.startswith('H5E') and not n.endswith('close')


class Plan:
    def __init__(self): self.log = []; self.target = None

    def prep(self, I):
        ckpt.prep(I)
        self.log = []
        for n in [n for n in I.models if injectable(n)]:
            def g(I, e, obj, args, f=I.models[n], n=n):
                k = len(self.log)
                site = (n, e.get('l'))
                self.log.append(site)
                if self.target == k: return ZERO if n == 'H5Tget_size' else num(-1)
                return f(I, e, obj, args)
            I.models[n] = g


def outcome(u, v):
    """what the operation returns and leaves in files"""
    ds = lambda v: [x.n for x in ckpt.canon(u.I, v).values()]
    return ds(v), [(k[1].n, x.n) for k, x in sorted(u.I.state.mem.items(), key=str) if isinstance(k, tuple) and k[0] == 'h5fs']


def inject(u, name, every=False):
    c = u.c
    p = Plan(); u.prep = p.prep
    try:
        v = u.run(name)
        if v is BOT or u.ret is FALSE: return c.undecided(name, u.where, 'the operation fails even without a failure of the library')
        log = list(p.log); seen = set()
        result = outcome(u, v)
        for k, site in enumerate(log):
            if site in seen and not every: continue
            seen.add(site)
            p.target = k
            v = u.run(name)
            harmless = u.ret is TRUE and v is not BOT and outcome(u, v) == result
            c.ob('%s:%s@%d' % (name, site[0], len([s for s in log[:k] if s[0] == site[0]])), harmless or u.ret is FALSE or entails(u.ret, FALSE, []), 'src/core_hdf5.hpp:%s' % site[1],
                 '%s: when %s fails, the operation returns as if nothing had happened (%s)' % (name, site[0], show(u.ret)[:100]))
    except AnalysisBroken as e: return c.undecided(name, '', str(e))
    finally: p.target = None


def prop_errors(c):
    c.rule('for every library call an operation makes, the value graph of the operation with that call failing has no normal return; operations on closed files and groups have none either')
    c.assumptions.append('the model of the HDF5 C interface in rules/h5.py: a failing call returns its documented error value and has no effect; closing and error reporting functions are not among the failing calls')
    every = c.tier == 'thorough'
    units(c, 'serialize.cpp', lambda u: [inject(u, n, every) for n in ('rt_int', 'rt_dbl', 'rt_str', 'rt_seq', 'rt_rat', 'rt_vec', 'rt_a2', 'rt_ps', 'rt_pd', 'keep', 'count', 'list_r', 'sched', 'over')])
    def more(u):
        for n in ('names', 'named', 'compound', 'is_rw', 'appended', 'extended', 'again_c', 'ext2', 'size2', 'eq_sg', 'eq_t', 'chosen'): inject(u, n, every)
        u.prep = ckpt.prep
        for n in ('closed_size', 'closed_iter', 'closed_write', 'closed_read', 'closed_group', 'closed_require', 'closed_name', 'zero_size', 'no_type', 'twice'): u.throws(n)
    units(c, 'layout.cpp', more)
    c.minimum = 3
