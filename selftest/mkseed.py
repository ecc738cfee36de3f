#!/usr/bin/env python3
"""mkseed.py ID : (re)creates seeded/ID from selftest/seeds/ID.py and confirms it:
applies to /repo, builds, stable tests pass, demo fails with the change and passes without.
Restores /repo afterwards."""
import json, os, subprocess, sys, importlib.util, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


DEMO = '''#!/bin/bash
# exit 0 on the unchanged tree, nonzero when the property is broken
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
FLAGS="-std=c++17 -O0 -w -DCATCH_CONFIG_NO_POSIX_SIGNALS -include cstring -I $PWD/src -isystem /usr/include/hdf5/openmpi"
%s
'''
CPP = '''OMPI_CXX=g++ mpicxx.openmpi $FLAGS "$d/demo.cpp" -o "$t/demo" -L/usr/lib/x86_64-linux-gnu/hdf5/openmpi -lhdf5 -lpthread || exit 3
cd "$t" && timeout 120 ./demo
'''


def stable(out):
    base = json.load(open('/opt/vp/BASELINE.json'))
    want = set(base.get('passed') or base.get('stable') or base.get('tests'))
    got = set(json.load(open(out))['passed'])
    return want - got


def orig(f):
    first = sh('git -C /repo rev-list --max-parents=0 HEAD').stdout.split()[-1]
    base = sh('git -C /repo log --reverse --format=%H --grep=^fix: HEAD').stdout.split()
    return set(sh('git -C /repo show %s^:%s' % (base[0], f)).stdout.split('\n'))


def main(i, check=True):
    spec = importlib.util.spec_from_file_location('s', V + '/selftest/seeds/%s.py' % i); s = importlib.util.module_from_spec(spec); spec.loader.exec_module(s)
    d = V + '/seeded/' + i
    w = '/tmp/seed-' + i
    shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
    log = []
    def say(*a): log.append(' '.join(str(x) for x in a))
    try:
        sh('cp -a /repo %s/repo' % w); R = w + '/repo'
        assert not sh('git -C %s status --porcelain' % R).stdout.strip(), 'repo dirty'
        for n in ('build', 'test'):
            t = open('/opt/vp/%s.sh' % n).read().replace('/repo', R).replace('/opt/vp/build.sh', w + '/build.sh'); open('%s/%s.sh' % (w, n), 'w').write(t)
        sh('bash %s/build.sh' % w)
        os.makedirs(d, exist_ok=True)
        if getattr(s, 'cpp', None): open(d + '/demo.cpp', 'w').write(s.cpp)
        elif os.path.exists(d + '/demo.cpp'): os.remove(d + '/demo.cpp')
        open(d + '/demo.sh', 'w').write(DEMO % getattr(s, 'sh', CPP)); os.chmod(d + '/demo.sh', 0o755)
        r0 = sh('bash %s/demo.sh' % d, cwd=R); say(i, 'demo clean: rc', r0.returncode, (r0.stdout + r0.stderr)[-300:].strip())
        for f, a, b in s.edits:
            p = R + '/src/' + f; x = open(p).read()
            assert x.count(a) >= 1, 'edit not applicable: ' + a
            open(p, 'w').write(x.replace(a, b, 1))
        diff = sh('git -C %s diff' % R).stdout
        for f in {e[0] for e in s.edits}:
            o = orig('src/' + f)
            for l in sh('git -C %s diff src/%s' % (R, f)).stdout.split('\n')[4:]:
                if l.startswith('-') and l[1:] not in o: say(i, 'NOT AN ORIGINAL LINE', l)
        open(d + '/patch.diff', 'w').write(diff)
        json.dump({'property': s.prop, 'needs': s.needs, 'what_it_breaks': s.breaks}, open(d + '/meta.json', 'w'), indent=1)
        r = sh('bash %s/build.sh && bash %s/test.sh %s/tests.json' % (w, w, w))
        miss = stable(w + '/tests.json') if r.returncode == 0 else 'build failed ' + (r.stdout + r.stderr)[-800:]
        say(i, 'tests missing with patch:', miss)
        r1 = sh('bash %s/demo.sh' % d, cwd=R); say(i, 'demo with patch: rc', r1.returncode, (r1.stdout + r1.stderr)[-300:].strip())
        rc = sh('MARA_REPO=%s MARA_EVID=%s/ev bash %s/check.sh %s' % (R, w, V, s.prop)); say(i, 'check', s.prop, 'rc', rc.returncode, rc.stdout.strip().split('\n')[-3:][0][-300:])
        ok = not miss and r1.returncode not in (0, 3) and not r0.returncode
        say(i, 'CONFIRMED' if ok else 'NOT CONFIRMED', 'caught' if rc.returncode == 1 else 'MISSED')
    except BaseException as e: say(i, 'ERROR', repr(e))
    finally: shutil.rmtree(w, ignore_errors=True)
    print('\n'.join(log), flush=True)


if __name__ == '__main__':
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4) as ex: list(ex.map(main, sys.argv[1:]))
