import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import importlib
import lib, program

PROPS = {
    'C16': ('scheme', 'prop_integrate'),
    'C13': ('scheme', 'prop_conserve'),
    'C14': ('scheme', 'prop_update'),
    'C15': ('scheme', 'prop_ledger'),
    'C28': ('llist', 'prop_list'),
    'C08': ('handles', 'prop_handles'),
    'C09': ('h5err', 'prop_errors'),
    'C02': ('layout', 'prop_layout'),
    'C01': ('ckpt', 'prop_checkpoint'),
    'C03': ('sched', 'prop_schedule'),
    'C17': ('sched', 'prop_config'),
    'C07': ('dims', 'prop_dimensions'),
    'C11': ('ndarr', 'prop_ndarray'),
    'C12': ('amr', 'prop_blocks'),
    'C18': ('tree', 'prop_tree'),
    'C19': ('algebra', 'prop_rational'),
    'C20': ('algebra', 'prop_algebra'),
    'C21': ('physics', 'prop_roundtrip'),
    'C22': ('physics', 'prop_flux'),
    'C25': ('physics', 'prop_reject'),
    'C31': ('shells', 'prop_spherical'),
    'C04': ('pool', 'prop_pool'),
    'C32': ('lifetime', 'prop_lifetime'),
    'C29': ('twobody', 'prop_two_body'),
    'C05': ('threads', 'prop_parallel'),
    'C23': ('physics', 'prop_riemann'),
    'C24': ('physics', 'prop_eigen'),
    'C34': ('setup', 'prop_setup'),
    'C35': ('models', 'prop_models'),
    'C30': ('maths', 'prop_maths'),
    'C26': ('files', 'prop_files'),
    'C27': ('dispatch', 'prop_dispatch'),
    'C33': ('starts', 'prop_starts'),
}


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if pid not in PROPS:
        print('unknown property ' + pid); return 2
    try: program.ensure_tool()
    except program.AnalysisBroken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, e)); return 2
    mod, fn = PROPS[pid]
    return lib.run(pid, getattr(importlib.import_module(mod), fn), tier)


if __name__ == '__main__':
    import threading
    threading.stack_size(512 * 1024 * 1024)
    rc = [2]
    def go(): rc[0] = main()
    t = threading.Thread(target=go); t.daemon = True; t.start(); t.join(float(os.environ.get('MARA_LIMIT', '780')))
    if t.is_alive():        # out of time: report what has been decided so far
        c = lib.current
        if c is None: print('UNDECIDED property=%s out of time' % sys.argv[1:2]); sys.stdout.flush(); os._exit(2)
        c.notes['incomplete'] = 'out of time'
        c.obl, c.viol = list(c.obl), list(c.viol)
        rc = lib.finish(c); sys.stdout.flush(); os._exit(rc)
    sys.stdout.flush(); sys.exit(rc[0])
