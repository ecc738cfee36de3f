#!/usr/bin/env python3
"""Development self-test: applies each textual edit of mutants.py to a scratch copy of the
sources and runs the property's check on it (MARA_REPO).  'fire' edits must be reported,
'quiet' edits (behaviour-preserving) must not."""
import os, sys, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
import mutants
REPO = os.environ.get('MARA_REPO', '/repo')


def one(i, m):
    d = tempfile.mkdtemp(prefix='mara-mut-')
    try:
        shutil.copytree(REPO + '/src', d + '/src', ignore=shutil.ignore_patterns('*.o', '*.d'))
        for f, a, b in m['edits']:
            p = os.path.join(d, 'src', f); s = open(p).read()
            if s.count(a) < 1: return i, m, 'EDIT-NOT-APPLICABLE ' + a[:60], ''
            open(p, 'w').write(s.replace(a, b) if m.get('all') else s.replace(a, b, 1))
        env = dict(os.environ, MARA_REPO=d, MARA_EVID=d + '/ev', MARA_STRICT='1')
        r = subprocess.run(['bash', HERE + '/../check.sh', m['prop']], capture_output=True, text=True, env=env)
        out = r.stdout + r.stderr
        if m.get('build') or os.environ.get('BUILD'):
            bf = subprocess.run(['bash', '-c', 'cd %s && g++ -std=c++17 -fsyntax-only -w -I src -isystem /usr/include/hdf5/openmpi -isystem /usr/lib/x86_64-linux-gnu/openmpi/include -include cstring src/%s' % (d, m.get('tu', 'physics_test.cpp'))], capture_output=True, text=True)
            if bf.returncode: return i, m, 'DOES-NOT-COMPILE', bf.stderr[-500:]
        want = {'fire': 1, 'quiet': 0}[m['expect']]
        return i, m, 'ok' if r.returncode == want else 'WRONG rc=%d want %d' % (r.returncode, want), out
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    sel = sys.argv[1] if len(sys.argv) > 1 else ''
    ms = [(i, m) for i, m in enumerate(mutants.M) if m['prop'].startswith(sel)]
    bad = 0
    with ThreadPoolExecutor(6) as ex:
        for i, m, verdict, out in ex.map(lambda x: one(*x), ms):
            print(i, m['prop'], m['expect'], m.get('note', ''), verdict)
            if verdict != 'ok': bad += 1; print('   ' + '\n   '.join(out[-1500:].split('\n')[-8:]))
            elif os.environ.get('V') : print('   ' + out[:400])
    print('%d edits, %d wrong' % (len(ms), bad))
    sys.exit(1 if bad else 0)
