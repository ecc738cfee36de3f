"""Paths and directories: the operations on an arbitrary directory tree, with the system calls as models that record what is touched."""
from program import AnalysisBroken
from terms import *
from physics import leaves, add
from vg import select, BOT, LV
from ckpt import units
import store

REG, DIR, LNK, SOCK, BLK, CHR, FIFO = 0o100000, 0o040000, 0o120000, 0o140000, 0o060000, 0o020000, 0o010000
w = lambda n: mk('word', n)
cat = lambda *p: store.sstr([q for x in p for q in (store.parts(st(x)) if isinstance(x, str) else store.parts(x))])
TEXT = lambda s: ''.join(p.a[0] if p.op == 'str' else '<%s>' % p.a[0] if p.op == 'word' else '?' for p in store.parts(s))


class System:
    """a directory tree: {text of the path: (kind, names)}; `fail` is the number of the removal that fails"""

    def __init__(self, tree=None, fail=None): self.tree = {k.rstrip('/') or '/': v for k, v in (tree or {}).items()}; self.fail = fail; self.events = []; self.open = 0; self.removals = 0; self.short = []; self.streams = []

    def key(self, s):
        t = TEXT(s)
        if '?' in t: raise AnalysisBroken('a path of unknown form: ' + show(s)[:150])
        return ('/' if t[:1] == '/' else '') + '/'.join(p for p in t.split('/') if p not in ('', '.')) or ('.' if t else '')

    def follow(self, k):
        """the node at k, links on the way followed"""
        done = ''
        for p in k.split('/'):
            done = done + '/' + p if done else p
            n = self.tree.get(done)
            if n is None: return None, None
            if n[0] == LNK and done != k: done = n[1]
        return self.tree.get(done), done

    def prep(self, I):
        store.prep(I); M = I.models; I.exact_try = True; I.peel = 30; I.reclimit = 12
        text = lambda x: store.string_of(I, x)
        V = I.rv
        def opendir(I, e, obj, a):
            n, k = self.follow(self.key(text(a[0])))
            if n is not None and n[0] == LNK: n, k = self.follow(n[1])
            if n is None or n[0] != DIR: return mk('nullptr')
            self.open += 1; self.events.append(('opendir', k))
            self.streams.append([st('.'), st('..')] + list(n[1]))      # the entries present when the directory is opened
            return I.ptr(I.alloc(mk('rec', 'DIR', (('path', num(len(self.streams) - 1)), ('at', ZERO)))))
        def readdir(I, e, obj, a):
            lv = I.deref(V(a[0])); d = I.load(lv); k = int(select(d, ('f', 'path')).a[0]); at = int(select(d, ('f', 'at')).a[0])
            if select(d, ('f', 'at')) is num(-1): raise AnalysisBroken('a closed directory is read')
            names = self.streams[k]
            if at >= len(names): return mk('nullptr')
            I.store(lv.ext(('f', 'at')), num(at + 1))
            return I.ptr(I.alloc(mk('rec', 'dirent', (('d_name', names[at]), ('d_type', ZERO)))))
        def closedir(I, e, obj, a):
            self.open -= 1; I.store(I.deref(V(a[0])).ext(('f', 'at')), num(-1)); return ZERO
        def stat(links):
            def f(I, e, obj, a):
                k = self.key(text(a[0])); n, k = self.follow(k)
                if n is not None and n[0] == LNK and links: n, k = self.follow(n[1])
                if n is None: return num(-1)
                I.store(I.deref(V(a[1])).ext(('f', 'st_mode')), num(n[0] | 0o644)); return ZERO
            return f
        def removal(what, kinds):
            def f(I, e, obj, a):
                n, k = self.follow(self.key(text(a[0]))); self.removals += 1
                ok = n is not None and (n[0] in kinds) and not (n[0] == DIR and n[1]) and self.removals != self.fail
                self.events.append((what, self.key(text(a[0])) if k is None else k, ok))
                if not ok: return num(-1)
                del self.tree[k]
                up, _, nm = k.rpartition('/')
                if up in self.tree: self.tree[up] = (DIR, [x for x in self.tree[up][1] if TEXT(x) != nm])
                return ZERO
            return f
        def mkdir(I, e, obj, a):
            s = text(a[0]); t = TEXT(s); k = self.key(s) if t else ''; mode = V(a[1])
            up = k.rpartition('/')[0]
            ok = bool(k) and k not in self.tree and (not up or up in self.tree and self.tree[up][0] == DIR)
            if ok: self.tree[k] = (DIR, [])
            self.events.append(('mkdir', t, ok, mode))
            return ZERO if ok else num(-1)
        M['opendir'], M['readdir'], M['closedir'] = opendir, readdir, closedir
        M['stat'], M['lstat'] = stat(True), stat(False)
        file_kinds = {REG, LNK, SOCK, BLK, CHR, FIFO}
        M['unlink'], M['rmdir'] = removal('unlink', file_kinds), removal('rmdir', {DIR})
        M['remove'] = M['std::remove'] = removal('remove', file_kinds | {DIR}); M['mkdir'] = mkdir
        def strcmp(I, e, obj, a):
            x, y = text(a[0]), text(a[1])
            if x is y: return ZERO
            if x.op == 'str' and y.op == 'str': return num(1 if x.a[0] > y.a[0] else -1)
            px, py = store.parts(x), store.parts(y)
            special = lambda p: all(q.op == 'str' and not q.a[0].isalnum() for q in p)
            if special(px) or special(py): return ONE         # a word begins with a letter
            return None
        M['strcmp'] = M['std::strcmp'] = strcmp
        M['strlen'] = M['std::strlen'] = lambda I, e, obj, a: store.strlen(text(a[0]))
        inner = M['snprintf']
        def snprintf(I, e, obj, a):
            size = V(a[1]); r = inner(I, e, obj, a)
            if r is None: return None
            s = I.load(store.buffer(I, V(a[0]))); F = lambda t: rewrite(t, lambda x: add(*[num(1) if p.op == 'str' else mk('strlen', p) for p in store.parts(x.a[0])]) if x.op == 'strlen' else None)
            p, q = Norm().nf(add(F(size), mk('neg', F(mk('strlen', s))) if s.op != 'str' else num(-len(s.a[0]))))
            self.short.append(p.get((), 0) >= 1 and all(v >= 0 for v in p.values()))
            return r
        M['snprintf'] = M['std::snprintf'] = snprintf


def rewrite(t, f):
    if not isinstance(t, T): return t
    r = f(t)
    if r is not None: return r
    a = tuple(rewrite(x, f) for x in t.a)
    return t if a == t.a else rebuild(t.op, a)


def items(v):
    """the elements of a vector"""
    return leaves(v)


def paths(c, u):
    a, b, d = w('a'), w('b'), w('c')
    shapes = [[a], [a, b], [a, b, d], ['', a], ['', a, b], [a, ''], [a, b, ''], [a, '', b], ['', ''], [''], ['.', a], ['..', a, b], [a, b, d, a]]
    S = System(); u.prep = S.prep
    T_ = lambda x: st(x) if isinstance(x, str) else x
    for n, ps in enumerate(shapes):
        p = cat(*[x for k, q in enumerate(ps) for x in ((['/'] if k else []) + [q])])
        name = "'%s'" % TEXT(p)
        for fn, want in (('split', [T_(x) for x in ps]), ('around', [p])):
            try: v = u.run(fn, args=[p])
            except AnalysisBroken as e: c.undecided(fn + name, '', str(e)[:300]); continue
            got = items(v)
            if any('?' in TEXT(x) for x in got): c.undecided(fn + name, u.where, 'a text of unknown form: ' + show(v)[:200]); continue
            c.ob(fn + name, got == want, u.where, '%s of %s is %s, required %s' % (fn, name, [TEXT(x) for x in got], [TEXT(x) for x in want]))
    def one(fn, args, want):
        name = '%s(%s)' % (fn, ', '.join(TEXT(x) for x in args))
        try: v = u.run(fn, args=args)
        except AnalysisBroken as e: return c.undecided(name, '', str(e)[:300])
        got = items(v)
        if any('?' in TEXT(x) for x in got): return c.undecided(name, u.where, 'a text of unknown form: ' + show(v)[:200])
        c.ob(name, len(got) == 1 and got[0] is want, u.where, '%s is %s, required %s' % (name, [TEXT(x) for x in got], TEXT(want)))
    one('join0', [], st('')); one('join1', [a], a); one('join2', [a, b], cat(a, '/', b)); one('join3', [a, b, d], cat(a, '/', b, '/', d)); one('joined', [a, b], cat(a, '/', b))
    one('join2', [cat(a, '/', b), d], cat(a, '/', b, '/', d)); one('join2', [cat('/', a), d], cat('/', a, '/', d)); one('join2', [st('.'), d], cat('./', d))
    for x in (cat(a, '.', b), cat(a, '.', d, '.', b), cat(a, '/', d, '.', b), cat('.', a, '/', d, '.', b), cat(a, '.', d, '/', d, '.', b)): one('extension', [x], cat('.', b))
    one('extension', [a], st('')); one('extension', [cat(a, '.')], st('.'))
    for x in (a, cat(a, '/', d), cat('/', a), cat(a, '.', d), st('..')): one('parent', [cat(x, '/', b)], x)


def kinds(c, u):
    for k, nm in ((REG, 'a regular file'), (DIR, 'a directory'), (SOCK, 'a socket'), (BLK, 'a block device'), (CHR, 'a character device'), (FIFO, 'a pipe'), (None, 'nothing')):
        for fn, kind in (('isfile', REG), ('isdir', DIR)):
            S = System({} if k is None else {'<p>': (k, [])}); u.prep = S.prep
            try: v = u.run(fn, args=[w('p')])
            except AnalysisBroken as e: c.undecided('%s: %s' % (fn, nm), '', str(e)[:300]); continue
            v = leaves(v)
            v = v[0] if v else v
            if not isnum(v): c.undecided('%s: %s' % (fn, nm), u.where, 'not decided: ' + show(v)[:100]); continue
            c.ob('%s: %s' % (fn, nm), bool(v.a[0]) == (k == kind), u.where, '%s is %s for %s' % (fn, bool(v.a[0]), nm))


def require(c, u):
    a, b, d = w('a'), w('b'), w('c')
    for ps, have in (([a], []), ([a, b], []), ([a, b, d], []), ([a, b, d], ['<a>']), ([a, b, d], ['<a>', '<a>/<b>']), ([a, b], ['<a>', '<a>/<b>']), (['', a], []), (['', a, b], []), (['', a, b], ['/<a>']), ([a, b, ''], []), (['.', a, b], []), ([a, '', b], [])):
        p = cat(*[x for k, q in enumerate(ps) for x in ((['/'] if k else []) + [q])]); name = "require_dir '%s', %s present" % (TEXT(p), have)
        S = System({h: (DIR, []) for h in have}); S.tree['.'] = (DIR, []); S.tree['/'] = (DIR, []); S.tree[''] = (DIR, []); before = set(S.tree); u.prep = S.prep
        try: u.run('require', args=[p])
        except AnalysisBroken as e: c.undecided(name, '', str(e)[:300]); continue
        want = set(); k = '/' if not TEXT(p)[0] == '/' else ''
        done = ''
        for n, x in enumerate(ps):
            x = x if isinstance(x, str) else TEXT(x)
            done = (done + '/' + x) if n else x
            key = S.key(cat(done)) if done else ''
            if x and x != '.': want.add(key if not done.startswith('/') else key)
        made = set(S.tree) - before
        c.ob(name, made | (before & want) == want and made <= want, u.where, '%s: the directories made are %s, required %s' % (name, sorted(made), sorted(want - before)))
        for e in S.events:
            if e[0] == 'mkdir' and e[2] and isnum(e[3]) and (int(e[3].a[0]) & 0o700) != 0o700: c.ob(name + ':mode', False, u.where, '%s: a directory is made that its owner cannot use (mode %o)' % (name, int(e[3].a[0])))


def remove(c, u):
    x, y, z, s, l, m = (w(n) for n in 'xyzslm')
    def tree():
        return {'<p>': (DIR, [x, s, st('.h'), l, m]), '<p>/<x>': (REG, []), '<p>/.h': (REG, []), '<p>/<s>': (DIR, [y, z, s]), '<p>/<s>/<y>': (FIFO, []), '<p>/<s>/<z>': (REG, []), '<p>/<s>/<s>': (DIR, []),
                '<p>/<l>': (LNK, '<q>'), '<p>/<m>': (LNK, '<gone>'), '<q>': (DIR, [x, s]), '<q>/<x>': (REG, []), '<q>/<s>': (DIR, [])}
    outside = {'<q>', '<q>/<x>', '<q>/<s>'}
    total = len(tree()) - len(outside)
    for fail in [None] + list(range(1, total + 1)):
        S = System(tree(), fail); u.prep = S.prep; name = 'remove_recurse' + (', all removals succeed' if fail is None else ', removal %d fails' % fail)
        try: v = u.run('remove', args=[w('p')])
        except AnalysisBroken as e: c.undecided(name, '', str(e)[:300]); continue
        v = leaves(v)[0]
        if not isnum(v): c.undecided(name, u.where, 'the result is not decided: ' + show(v)[:100]); continue
        lost = outside - set(S.tree)
        c.ob(name + ':outside', not lost and not any(e[1].startswith('<q>') and e[0] != 'opendir' for e in S.events), u.where, '%s: a directory that is only linked from the tree loses its contents: %s' % (name, sorted(lost) or S.events))
        bad = [e for e in S.events if e[0] in ('unlink', 'rmdir', 'remove') and not (e[1] == '<p>' or e[1].startswith('<p>/'))]
        c.ob(name + ':scope', not bad, u.where, '%s: something other than the tree is removed: %s' % (name, bad))
        if fail is None: c.ob(name, v.a[0] == 0 and set(S.tree) == outside, u.where, '%s: the result is %s, and %s remain' % (name, v.a[0], sorted(set(S.tree) - outside)))
        else: c.ob(name, v.a[0] != 0 and '<p>' in S.tree, u.where, '%s: the failure is not reported (result %s)' % (name, v.a[0]))
        c.ob(name + ':closed', S.open == 0, u.where, '%s: %d directory handles stay open' % (name, S.open))
        if S.short: c.ob(name + ':buffer', all(S.short), u.where, '%s: the buffer of a path is too short, the path is truncated' % name)
    S = System({}); u.prep = S.prep
    try:
        v = leaves(u.run('remove', args=[w('p')]))[0]
        c.ob('remove_recurse, nothing there', isnum(v) and v.a[0] != 0 and not [e for e in S.events if e[0] != 'opendir' and e[-1]], u.where, 'remove_recurse of a missing directory returns %s' % show(v)[:50])
    except AnalysisBroken as e: c.undecided('remove_recurse, nothing there', '', str(e)[:300])
    for kind, ok in ((REG, True), (None, False)):
        S = System({} if kind is None else {'<p>': (kind, [])}); S.tree['<q>'] = (REG, []); u.prep = S.prep
        name = 'remove_file of %s' % ('a file' if kind else 'nothing')
        try: v = leaves(u.run('remove_one', args=[w('p')]))[0]
        except AnalysisBroken as e: c.undecided(name, '', str(e)[:300]); continue
        c.ob(name, isnum(v) and (v.a[0] == 0) == ok and set(S.tree) == {'<q>'}, u.where, '%s returns %s and leaves %s' % (name, show(v)[:50], sorted(S.tree)))


def listing(c, u):
    x, y = cat('x', w('x')), cat('y', w('y'))
    for names in ([], [x], [x, st('.h'), y], [st('.h')], [st('..x'), x, y]):
        S = System({'<p>': (DIR, names)}); u.prep = S.prep; name = 'listdir of %s' % [TEXT(n) for n in names]
        try: v = u.run('list', args=[w('p')])
        except AnalysisBroken as e: c.undecided(name, '', str(e)[:300]); continue
        want = [n for n in names if not TEXT(n).startswith('.')]
        if v is not BOT and any('?' in TEXT(x) for x in items(v)): c.undecided(name, u.where, 'a list of unknown form: ' + show(v)[:200]); continue
        c.ob(name, v is not BOT and items(v) == want, u.where, '%s is %s' % (name, show(v)[:200]))
        c.ob(name + ':closed', S.open == 0, u.where, '%s: %d directory handles stay open' % (name, S.open))
    for t in ({}, {'<p>': (REG, [])}):
        S = System(t); u.prep = S.prep
        u.throws('list', [w('p')], 'a directory that cannot be read must be refused')


def prop_files(c):
    c.rule('the value graphs of the operations on paths, applied to paths of arbitrary components, and of the operations on directories, applied to directory trees of arbitrary names: what is returned and which system calls are made on which paths')
    c.assumptions.append('the models of opendir, readdir, stat, lstat, unlink, rmdir, mkdir in rules/files.py (POSIX); names of components contain no separator and begin with a letter')
    def go(u):
        for f in (paths, kinds, require, remove, listing):
            try: f(c, u)
            except AnalysisBroken as e: c.undecided(f.__name__, '', str(e)[:300])
    units(c, 'fs.cpp', go)
    c.minimum = 50
