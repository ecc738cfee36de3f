"""Front end driver: parses translation units of /repo (and witness units of
/verif/witness that instantiate templates) with the project's real flags through
build/mara-ast, and loads the resolved program."""
import json, os, subprocess, sys, tempfile, shutil, glob, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MARA_REPO', '/repo')
TOOL = os.path.join(VERIF, 'build', 'mara-ast')
FLAGS = ['-std=c++17', '-O0', '-w', '-DCATCH_CONFIG_NO_POSIX_SIGNALS', '-include', 'cstring',
         '-isystem', '/usr/include/hdf5/openmpi',
         '-isystem', '/usr/lib/x86_64-linux-gnu/openmpi/include',
         '-isystem', '/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi']


class AnalysisBroken(Exception):
    """The analysis could not be carried out (vanished anchor, parse failure)."""


class NoTool(AnalysisBroken):
    """the front end itself could not be built"""


def ensure_tool():
    r = subprocess.run(['bash', os.path.join(VERIF, 'tool', 'build.sh')], capture_output=True, text=True)
    if r.returncode != 0:
        raise NoTool('cannot build the AST front end: ' + r.stderr[-2000:])


def fallback_dir():
    """src/app_compile_opts.hpp is generated by ./configure and git-ignored; supply
    the configure script's own default when the working tree has none."""
    return os.path.join(VERIF, 'witness', 'fallback')


def clang_flags():
    fl = list(FLAGS) + ['-I', os.path.join(REPO, 'src')]
    if not os.path.exists(os.path.join(REPO, 'src', 'app_compile_opts.hpp')):
        fl += ['-I', fallback_dir()]
    return fl


_names = {}


def plain(name):
    """qualified name without template argument lists (operator<, operator<< etc. kept)"""
    r = _names.get(name)
    if r is not None: return r
    out = []; depth = 0; i = 0; n = len(name)
    while i < n:
        if depth == 0 and name.startswith('operator', i) and (i == 0 or name[i - 1] == ':'):
            j = i + 8
            while j < n and name[j] in '<>=-!+*/|&^%~[](),': j += 1
            out.append(name[i:j]); i = j
            if j < n and name[j - 1] == 'r': pass
            continue
        c = name[i]
        if c == '<': depth += 1
        elif c == '>': depth -= 1
        elif depth == 0: out.append(c)
        i += 1
    r = ''.join(out)
    _names[name] = r
    return r


def normalise(data):
    for f in data['funcs']:
        f['fulln'] = f['n']; f['n'] = plain(f['n'])
        st = [f.get('body'), f.get('inits'), f.get('params')]
        while st:
            x = st.pop()
            if isinstance(x, list): st.extend(x)
            elif isinstance(x, dict):
                if 'n' in x and 'k' in x and '<' in x['n']: x['n'] = plain(x['n'])
                if 'q' in x and '<' in x['q']: x['q'] = plain(x['q'])
                st.extend(v for v in x.values() if isinstance(v, (dict, list)))


class Func:
    __slots__ = ('tu', 'd', 'id', 'n', 'file', 'l', 'key')

    def __init__(self, tu, d):
        self.tu = tu; self.d = d; self.id = d['id']; self.n = d['n']; self.file = d['file']; self.l = d['l']

    def __getattr__(self, k):
        raise AttributeError(k)

    def get(self, k, default=None): return self.d.get(k, default)

    @property
    def short(self): return self.n.split('::')[-1]

    def where(self): return '%s:%d' % (rel(self.file), self.l)

    def ptypes(self): return [self.tu.type(p['t']) for p in self.d['params']]

    def __repr__(self): return '<%s %s>' % (self.n, self.where())


def rel(f):
    return os.path.relpath(f, REPO) if f.startswith(REPO) else f


class TU:
    def __init__(self, name, data):
        self.name = name
        self.types = data['types']
        self.funcs = {}
        self.by_name = {}
        for d in data['funcs']:
            f = Func(self, d)
            old = self.funcs.get(f.id)
            if old is not None and 'body' in old.d: continue
            self.funcs[f.id] = f
        for f in self.funcs.values(): self.by_name.setdefault(f.n, []).append(f)
        self.records = {}
        self.rec_by_name = {}
        for r in data['records']:
            if r['id'] in self.records and 'fields' in self.records[r['id']]: continue
            self.records[r['id']] = r
            self.rec_by_name.setdefault(r['n'], []).append(r)
        self.globals = {g['id']: g for g in data['globals']}

    def type(self, i): return self.types[i] if i is not None and i >= 0 else {'s': '?', 'k': 'other'}

    def ts(self, i): return self.type(i)['s']

    def strip_ref(self, i):
        t = self.type(i)
        while t['k'] in ('lref', 'rref'): t = self.types[t['p']]
        return t

    def find(self, name, dep=False, body=True, pred=None):
        return [f for f in self.by_name.get(name, []) if (dep or not f.get('dep')) and (not body or 'body' in f.d) and (pred is None or pred(f))]


_cache = {}


def parse(unit, outdir=None):
    """unit: path relative to REPO/src, or absolute path of a witness file"""
    if unit in _cache: return _cache[unit]
    path = unit if unit.startswith('/') else os.path.join(REPO, 'src', unit)
    if not os.path.exists(path): raise AnalysisBroken('translation unit %s is gone' % path)
    fd, out = tempfile.mkstemp(suffix='.json', prefix='mara-ast-'); os.close(fd)
    extra, guarded = [], out + '.hpp'
    try:
        hdr = os.path.join(REPO, 'src', 'subprog_binary.hpp')       # has no include guard; guarded here so that a witness can combine the binary sub-program's translation units
        if path.startswith(VERIF) and os.path.exists(hdr):
            with open(hdr) as fh, open(guarded, 'w') as g: g.write('#ifndef MARA_ONCE\n#define MARA_ONCE\n#line 1 "%s"\n' % hdr + fh.read() + '\n#endif\n')
            extra = ['-Xclang', '-remap-file', '-Xclang', hdr + ';' + guarded]
        cmd = [TOOL, out, REPO + '/:' + VERIF + '/witness/:bits/stl_function.h:bits/stl_numeric.h', 'core_catch.hpp', path, '--'] + clang_flags() + extra + ['-resource-dir', '/usr/lib/llvm-18/lib/clang/18']
        r = subprocess.run(cmd, capture_output=True, text=True, cwd=REPO)
        if r.returncode != 0:
            raise AnalysisBroken('clang cannot parse %s:\n%s' % (path, '\n'.join(l for l in r.stderr.split('\n') if 'error' in l)[:3000]))
        with open(out) as fh: data = json.load(fh)
    finally:
        for f in (out, guarded):
            if os.path.exists(f): os.unlink(f)
    normalise(data)
    tu = TU(unit, data)
    _cache[unit] = tu
    return tu


def parse_all(units):
    ensure_tool()
    with ThreadPoolExecutor(8) as ex: return list(ex.map(parse, units))


def repo_units(tests=False):
    us = sorted(os.path.basename(p) for p in glob.glob(os.path.join(REPO, 'src', '*.cpp')))
    if not tests: us = [u for u in us if not u.endswith('_test.cpp') and u != 'subprog_test.cpp']
    return us


def witness(name): return os.path.join(VERIF, 'witness', name)


def walk(node):
    """all AST nodes below (and including) node; does not enter lambda bodies (those are functions)"""
    if node is None: return
    if isinstance(node, list):
        for x in node: yield from walk(x)
        return
    if not isinstance(node, dict): return
    if 'k' in node: yield node
    for k, v in node.items():
        if isinstance(v, (dict, list)): yield from walk(v)
