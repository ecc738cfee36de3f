"""The command line selects the sub-program of that name and returns its exit code."""
import os, re
import program
from program import AnalysisBroken, parse_all, witness
from terms import *
from physics import leaves, add, sub
from vg import Interp, select, BOT, LV
from sched import returns
from algebra import rel_
import store

FACTORY = {'boilerplate': 'boilerlate', 'partdom': 'partdom', 'sedov': 'sedov', 'cloud': 'cloud', 'binary': 'binary', 'amrsand': 'amrsand', 'test': 'test'}


def enabled():
    """names of the sub-programs compiled in"""
    for p in (os.path.join(program.REPO, 'src', 'app_compile_opts.hpp'), os.path.join(os.path.dirname(program.__file__), '..', 'witness', 'fallback', 'app_compile_opts.hpp')):
        if os.path.exists(p):
            return {n.lower() for n, v in re.findall(r'#define\s+MARA_COMPILE_SUBPROGRAM_(\w+)\s+(\w+)', open(p).read()) if v not in ('0', 'false')} or None


def prop_dispatch(c):
    c.rule('the value graph of main for every registered name, an arbitrary other name and no name: which program is made, with which arguments its main is called, and what is returned')
    c.assumptions.append('the models of std::map, std::unique_ptr and the clock; the programs compiled in are those selected in app_compile_opts.hpp')
    c.allow |= {'std::basic_ostream::operator<<', 'std::operator<<', 'std::endl', 'std::chrono::duration::count', 'std::chrono::duration_cast', 'std::chrono::system_clock::now', 'std::chrono::operator-', 'std::printf', 'printf'}      # output and timing
    tu = parse_all([witness('main.cpp')])[0]
    fs = [f for f in tu.functions if f.d['n'] == 'mara_main'] if hasattr(tu, 'functions') else tu.find('mara_main')
    if not fs: raise AnalysisBroken('main not found')
    f = fs[0]
    def run(name, argv, argc=None):
        calls, made = [], []
        I = Interp(tu); I.unroll_breaks = True; store.prep(I); I.exact_try = True; I.peel = 30
        M = I.models; V = I.rv
        for n, g in FACTORY.items():
            def make(I, e, obj, a, n=n):
                made.append(n); return I.ptr(I.alloc(mk('new', 'program', (st(n),))))
            M['make_subprog_' + g] = make
        def main(I, e, obj, a):
            p = V(obj); v = I.load(I.deref(p)) if p.op == 'ptr' else p
            calls.append((v, V(a[0]), V(a[1]))); return sym('exit_code')
        M['mara::sub_program_t::mara_main'] = M['mara::sub_program_t::main'] = main
        M['std::chrono::high_resolution_clock::now'] = M['std::chrono::_V2::system_clock::now'] = lambda I, e, obj, a: mk('now')
        arr = I.alloc(mk('arr', *argv))
        r = I.call(f, [I.alloc(num(len(argv))), I.alloc(mk('ptr', arr.loc, (('i', ZERO),)))])
        c.seen([v for v in I.visited if '/witness/' not in v[0]])
        return I, I.rv(r), calls, arr, made
    where = 'src/app_main.cpp:%s' % f.d.get('line', '?')
    I, v, calls, arr, made = run('none', [st('mara')])
    c.ob('no program named', isnum(v) and v.a[0] == 0 and not calls, where, 'without arguments main returns %s and runs %s' % (show(v)[:80], calls))
    on = enabled()
    names = [n for n in FACTORY if n in (on if on is not None else made)]
    for n in names:
        for extra in ([], [mk('sstr', st('a'), st('='), sym('value'))], [sym('x'), sym('y'), sym('z')]):
            key = '%s with %d options' % (n, len(extra))
            try: I, v, calls, arr, _ = run(n, [st('mara'), st(n)] + extra)
            except AnalysisBroken as e: c.undecided(key, where, str(e)[:300]); continue
            what = [x[0] for x in calls]
            if not c.ob(key + ':program', len(calls) == 1 and what[0].op == 'new' and what[0].a[1] == (st(n),), where, 'mara %s runs %s' % (n, [show(x)[:60] for x in what])): continue
            p, argc, argv = calls[0]
            c.ob(key + ':arguments', argc is num(1 + len(extra)) and argv.op == 'ptr' and argv.a[0] == arr.loc and argv.a[1] == (('i', ONE),), where, 'mara %s passes argc %s and argv %s: its own name must come first' % (n, show(argc)[:60], show(argv)[:80]))
            c.ob(key + ':result', v is sym('exit_code'), where, 'mara %s returns %s, not the exit code of the program' % (n, show(v)[:80]))
    for other in (st('sedo'), st('Sedov'), st(''), st('a=b'), st('sedov ')):
        key = "unknown program '%s'" % other.a[0]
        try: I, v, calls, arr, _ = run('other', [st('mara'), other, sym('x')])
        except AnalysisBroken as e: c.undecided(key, where, str(e)[:300]); continue
        c.ob(key, not calls and isnum(v) and v.a[0] != 0, where, 'mara %s returns %s and runs %s; a name that is no program is a failure' % (other.a[0], show(v)[:80], [show(x[0]) for x in calls]))
    c.minimum = 20
