"""Type-level witnesses: programs that mix dimensions must not compile, programs that do not must."""
import subprocess, os, re, glob
from concurrent.futures import ThreadPoolExecutor
from program import clang_flags, witness, AnalysisBroken, VERIF, REPO

CLANG = '/usr/lib/llvm-18/bin/clang++'


def syntax(path, extra=()):
    r = subprocess.run([CLANG, '-fsyntax-only', '-ferror-limit=0', '-ftemplate-backtrace-limit=2'] + clang_flags() + list(extra) + [path], capture_output=True, text=True)
    return r.returncode, r.stderr


def prop_dimensions(c):
    c.rule('static assertions over the public types (what may be added, compared, assigned, converted; the dimensions of results) hold, and each compile-fail witness is rejected by the type checker while its well-dimensioned twin is accepted')
    p = witness('dimensions.cpp')
    src = open(p).read()
    # expand the rule instances by preprocessing
    r = subprocess.run([CLANG, '-E', '-P'] + clang_flags() + [p], capture_output=True, text=True)
    if r.returncode: raise AnalysisBroken('dimension witness does not preprocess: ' + r.stderr[-500:])
    rules = re.findall(r'static_assert\([^;]*?,\s*"RULE "\s*((?:"[^"]*"\s*)+)\)', r.stdout)
    names = [''.join(re.findall(r'"([^"]*)"', x)) for x in rules]
    rc, err = syntax(p)
    failed = {}
    other = []
    for line in err.split('\n'):
        m = re.search(r'static assertion failed.*: RULE (.*)$', line)
        if m: failed[m.group(1).strip()] = line
        elif ' error: ' in line and '/witness/' not in line.split(' error: ')[0]: other.append(line)
    hard = [l for l in err.split('\n') if ' error: ' in l and 'static assertion failed' not in l]
    if rc and not failed and not hard: raise AnalysisBroken('unrecognised diagnostics: ' + err[:400])
    if hard and not failed: raise AnalysisBroken('the dimension witness cannot be type-checked: ' + hard[0])
    for n in names: c.ob(n, n not in failed, 'src/core_dimensional.hpp', 'a program can violate: ' + n)
    tests = sorted(glob.glob(os.path.join(VERIF, 'witness', 'fail', '*.cpp')))
    def both(t): return t, syntax(t, ['-DVIOLATE']), syntax(t)
    with ThreadPoolExecutor(8) as ex:
        for t, (rb, eb), (rg, eg) in ex.map(both, tests):
            n = os.path.basename(t)[:-4]
            if rg != 0: raise AnalysisBroken('well-dimensioned twin of %s does not compile: %s' % (n, eg[-400:]))
            c.ob('rejects ' + n, rb != 0, 'src/core_dimensional.hpp', 'the type checker accepts the ill-dimensioned program ' + n)
    c.seen(['src/core_dimensional.hpp:0 dimensional_value_t', 'src/core_sequence.hpp:0 arithmetic_sequence_t', 'src/core_tuple.hpp:0 arithmetic_tuple_t', 'src/physics_iso2d.hpp:0 iso2d', 'src/physics_euler.hpp:0 euler', 'src/physics_srhd.hpp:0 srhd'])
    c.notes['static_assertions'] = len(names); c.notes['compile_fail_witnesses'] = len(tests)
    c.minimum = 85
