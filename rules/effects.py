"""What code run by another thread can write.

Roots are the closures and functions handed to std::thread, std::async and the thread pool; everything they reach over resolved calls is
walked. A write is an assignment, an increment, a non-const member call or an argument bound to a mutable reference parameter that is
written; its target is followed through members, indices, references and iterators to a variable. The target must belong to the task."""
from program import parse_all, repo_units, walk, rel, AnalysisBroken

SAFE = ('std::atomic', 'std::mutex', 'std::recursive_mutex', 'std::shared_mutex', 'std::condition_variable', 'std::promise', 'std::once_flag', 'std::thread', 'std::future', 'std::basic_ostream', 'std::ostream', 'std::__atomic_base', 'std::packaged_task')
HIDDEN = {'rand', 'srand', 'strtok', 'localtime', 'gmtime', 'asctime', 'ctime', 'setlocale', 'drand48', 'lrand48', 'srand48', 'std::rand', 'std::srand', 'std::strtok', 'std::localtime', 'std::gmtime', 'std::asctime', 'std::ctime', 'std::setlocale', 'tmpnam', 'std::tmpnam', 'readdir', 'getopt', 'lgamma', 'signal', 'std::signal'}
VIEW = {'begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'data', 'front', 'back', 'at', 'get', 'value', 'operator[]', 'operator()', 'operator*', 'operator->', 'first', 'second', 'find', 'lower_bound', 'upper_bound', 'c_str', 'lock', 'base'}
NOWRITE = VIEW | {'size', 'empty', 'length', 'capacity', 'count'}
PASS = {'std::forward', 'std::move', 'std::get', 'std::begin', 'std::end', 'std::ref', 'std::as_const', 'std::addressof', 'std::data', 'std::next', 'std::prev', 'std::find_if', 'std::find', 'std::max_element', 'std::min_element'}


class Effects:
    def __init__(self, tu):
        self.tu = tu
        self.by_rec = {}; self.lambda_in = {}; self.owner = {}; self.decl = {}; self.caps = {}
        self.params = {}
        for f in tu.funcs.values():
            if 'body' not in f.d or f.get('dep'): continue
            if f.short == 'operator()': self.by_rec.setdefault(f.get('recn'), []).append(f); 
            if f.get('lam'): self.by_rec.setdefault(('lam', f.get('lam')), []).append(f)
            for i, p in enumerate(f.d['params']): self.owner[p['id']] = f; self.params[p['id']] = (f, i, p)
            for x in walk([f.d['body'], f.get('inits')]):
                if x.get('k') == 'Lambda': self.lambda_in[x['lam']] = f; self.caps[x['lam']] = {c['id']: c.get('by') for c in x.get('caps', []) if 'id' in c}
                for v in (x.get('vars') or []) if x.get('k') == 'Decl' else [x['var']] if isinstance(x.get('var'), dict) else []:
                    self.owner[v['id']] = f; self.decl[v['id']] = v
        self.roots = {}
        self.find_roots()
        self.reach()

    # ---- roots
    def closure(self, e):
        while isinstance(e, dict) and e.get('k') in ('Temp', 'Load', 'Cast', 'Decay', 'Paren') and 'e' in e: e = e['e']
        if not isinstance(e, dict): return []
        if e.get('k') == 'Call' and e.get('n') in ('std::move', 'std::forward', 'std::ref') and e.get('args'): return self.closure(e['args'][0])
        if e.get('k') == 'Lambda': return self.by_rec.get(('lam', e['lam']), [])
        if e.get('k') == 'Construct' and len(e.get('args', [])) == 1 and e.get('copy'): return self.closure(e['args'][0])
        if e.get('k') == 'Ref' and e.get('dk') == 'fn': return [f for f in [self.tu.funcs.get(e['id'])] if f is not None]
        if e.get('k') == 'Un' and e.get('op') == '&': return self.closure(e['e'])
        t = e.get('t')
        if t is None: return []
        ty = self.tu.strip_ref(t); s = ty['s'].replace('const ', '')
        if ty['k'] == 'lambda':
            r = self.by_rec.get(('lam', ty.get('rec')), [])
            return r if r else self.by_rec.get(ty.get('rn'), [])
        r = self.by_rec.get(s, [])
        if not r and '::' in s:
            from program import plain
            r = self.by_rec.get(plain(s), [])
        return r

    def find_roots(self):
        for f in self.tu.funcs.values():
            if 'body' not in f.d or f.get('dep'): continue
            for x in walk([f.d['body'], f.get('inits')]):
                k, n = x.get('k'), x.get('n', '')
                handed = []
                if k == 'Construct' and n in ('std::thread::thread', 'std::jthread::jthread'): handed = x['args'][:1]
                elif k == 'Call' and n == 'std::async': handed = x['args'][:2]
                elif k == 'Call' and n.split('::')[-1] in ('emplace_back', 'push_back') and x.get('obj') and x['obj'].get('t') is not None and 'std::thread' in self.tu.ts(x['obj']['t']).split(',')[0]: handed = x['args'][:1]
                elif k == 'Construct' and n.startswith(('std::function::function', 'std::packaged_task::packaged_task')) and 'thread_pool' in (f.get('recn') or ''): handed = x['args'][:1]
                for a in handed:
                    for g in self.closure(a): self.roots[g.id] = (g, '%s:%s' % (rel(f.file), x.get('l', f.l)))

    def reach(self):
        self.seen = {}; todo = [g for g, _ in self.roots.values()]
        while todo:
            f = todo.pop()
            if f.id in self.seen: continue
            self.seen[f.id] = f
            for x in walk([f.d.get('body'), f.get('inits')]):
                g = self.tu.funcs.get(x.get('f')) if 'f' in x else None
                if g is not None and 'body' in g.d: todo.append(g)
                if x.get('k') == 'Lambda': todo += self.by_rec.get(('lam', x['lam']), [])
                if x.get('k') == 'Ref' and x.get('dk') == 'fn':
                    g = self.tu.funcs.get(x['id'])
                    if g is not None and 'body' in g.d: todo.append(g)

    # ---- targets
    def type_of(self, e):
        t = e.get('t') if isinstance(e, dict) else None
        return self.tu.strip_ref(t)['s'].replace('const ', '') if t is not None else ''

    def root(self, e, f, depth=0, via=()):
        """(variable reference or This, how it was reached)"""
        if depth > 40 or not isinstance(e, dict): return None, via
        k = e.get('k')
        if k in ('Temp', 'Load', 'Cast', 'Decay', 'Paren') and 'e' in e: return self.root(e['e'], f, depth + 1, via)
        if k == 'Member': return self.root(e.get('e'), f, depth + 1, via + (('deref',) if e.get('arrow') and e.get('e', {}).get('k') != 'This' else ()))
        if k == 'Sub': return self.root(e['a'], f, depth + 1, via + (('index', e['b']),))
        if k == 'Un' and e.get('op') == '*': return self.root(e['e'], f, depth + 1, via + ('deref',))
        if k == 'Un' and e.get('op') in ('&', '++', '--'): return self.root(e['e'], f, depth + 1, via)
        if k == 'Cond': return self.root(e.get('a'), f, depth + 1, via)
        if k == 'Call':
            n = e.get('n', '').split('::')[-1]
            if e.get('obj') is not None and (n in VIEW or e.get('op') in ('()', '[]', '*', '->')):
                if e.get('op') in ('()', '[]') or n == 'at': via = via + (('index', e.get('args')),)
                elif e.get('op') in ('*', '->') or n in ('get', 'lock'): via = via + ('deref',)
                return self.root(e['obj'], f, depth + 1, via)
            if e.get('n') in PASS and e.get('args'): return self.root(e['args'][0], f, depth + 1, via)
            g = self.tu.funcs.get(e.get('f'))
            if g is not None and 'body' in g.d and (self.tu.types[g.d['ret']]['k'] in ('lref', 'ptr') if isinstance(g.d.get('ret'), int) else False):
                for x in walk(g.d['body']):
                    if x.get('k') != 'Return' or not isinstance(x.get('e'), dict): continue
                    r, v = self.root(x['e'], g, depth + 5, via)
                    if r is None: continue
                    if r.get('k') == 'This':
                        if e.get('obj') is not None: return self.root(e['obj'], f, depth + 1, v)
                    elif r.get('id') in self.params and self.params[r['id']][0] is g:
                        i = self.params[r['id']][1]
                        if i < len(e.get('args', [])): return self.root(e['args'][i], f, depth + 1, v)
                    elif r.get('dk') in ('global', 'static'): return r, v
            return None, via
        if k == 'Ref':
            d = self.decl.get(e.get('id'))
            if d is not None and e.get('dk') in ('local', 'binding') and not d.get('static'):
                t = self.tu.types[d['t']]['k'] if isinstance(d.get('t'), int) else ''
                if d.get('init') is not None and (t in ('lref', 'rref') or ('deref' in via and self.pointerlike(d))):
                    r = self.root(d['init'], self.owner.get(e['id'], f), depth + 1, via)
                    if r[0] is not None: return r
            return e, via
        if k == 'This': return e, via
        return None, via

    def pointerlike(self, d):
        s = self.tu.ts(d['t']) if isinstance(d.get('t'), int) else ''
        return '*' in s or 'iterator' in s or 'shared_ptr' in s or 'reference_wrapper' in s

    def shared(self, f, i):
        """does the captured variable i of the closure body f belong to code outside the task?"""
        lam = f.get('lam')
        if not lam or i not in self.caps.get(lam, {}): 
            return None
        g = self.lambda_in.get(lam)
        by = self.caps[lam][i]
        if by == 'copy': return 'copy' if g is None or g.id not in self.seen or f.id in self.roots else None
        if f.id in self.roots or g is None or g.id not in self.seen: return 'ref'
        if self.owner.get(i) is g: return None
        return self.shared(g, i)

    def constant(self, e):
        if e is None: return True
        for x in walk(e):
            if x.get('k') in ('Ref', 'Call', 'Member', 'This'): return False
        return True

    # ---- writes
    def writes(self, f):
        """(target expression, node) of every direct write in f"""
        for x in walk([f.d.get('body'), f.get('inits')]):
            k = x.get('k')
            if k == 'Assign': yield x['a'], x
            elif k == 'Un' and x.get('op') in ('++', '--'): yield x['e'], x
            elif k == 'Call':
                n = x.get('n', ''); short = n.split('::')[-1]; g = self.tu.funcs.get(x.get('f'))
                if x.get('obj') is not None and x.get('method') and not x.get('cm'):
                    if short not in NOWRITE and x.get('op') not in ('()', '[]', '*', '->') and not n.startswith(SAFE) and not (g is not None and g.get('lam')): 
                        if g is None or 'body' not in g.d or self.writes_this(g): yield x['obj'], x
                for o in x.get('outs') or []:
                    if o >= 100 or o >= len(x.get('args', [])): continue
                    if n in PASS or n.startswith('std::make_') or short.startswith('operator<<'): continue
                    if g is not None and 'body' in g.d:
                        if o in self.written_params(g): yield x['args'][o], x
                    elif not n.startswith(('std::invoke', 'std::apply', 'std::tie', 'std::forward_as_tuple', 'std::async', 'std::thread', 'std::bind')): yield x['args'][o], x

    def summary(self, g):
        if not hasattr(self, '_sum'): self._sum = {}
        if g.id in self._sum: return self._sum[g.id]
        self._sum[g.id] = (set(), False)
        out, this = set(), False
        for t, x in self.writes(g):
            r, via = self.root(t, g)
            if r is None: continue
            if r.get('k') == 'This': this = True
            elif r.get('id') in self.params and self.params[r['id']][0] is g:
                p = self.params[r['id']]
                if self.tu.types[p[2]['t']]['k'] in ('lref', 'rref') or 'deref' in via: out.add(p[1])
        self._sum[g.id] = (out, this)
        return out, this

    def written_params(self, g): return self.summary(g)[0]

    def writes_this(self, g): return self.summary(g)[1]

    def run(self):
        """[(function, line, what)] and counts"""
        bad = []; n = 0
        for f in sorted(self.seen.values(), key=lambda f: f.id):
            for t, x in self.writes(f):
                n += 1
                r, via = self.root(t, f)
                if r is None or any(s in self.type_of(t) for s in SAFE): continue
                name = r.get('n', 'this').split('::')[-1]
                if r.get('k') == 'Ref' and r.get('dk') in ('global', 'static'):
                    g = self.tu.globals.get(r['id'])
                    if g is None and r.get('dk') == 'global': continue          # of the library
                    if (g or {}).get('tls') or any(s in self.tu.ts(r['t']) for s in SAFE): continue
                    bad.append((f, x, 'writes %s variable %s, which all threads share' % ('the static' if r['dk'] == 'static' or (g or {}).get('local') else 'the global', name)))
                elif r.get('k') == 'Ref' and r.get('cap'):
                    s = self.shared(f, r['id'])
                    if s == 'ref' or (s == 'copy' and 'deref' in via):
                        ix = [v[1] for v in via if isinstance(v, tuple)]
                        if ix and not all(self.constant(i) for i in ix): continue            # an element of its own: decided by value graphs
                        bad.append((f, x, 'writes %s, which belongs to the thread that hands out the tasks' % name))
                elif r.get('k') == 'This' and f.get('const') and not f.get('lam') and 'deref' not in via:
                    bad.append((f, x, 'changes a mutable member in a const function, which tasks call on shared objects'))
            for x in walk([f.d.get('body'), f.get('inits')]):
                if x.get('k') == 'Call' and x.get('n') in HIDDEN: n += 1; bad.append((f, x, 'calls %s, which keeps its state in a hidden variable' % x['n']))
        return bad, n


def check(c, units=None):
    us = units if units is not None else [u for u in repo_units() if u not in ('main.cpp',)]
    tus = parse_all(us)
    total = 0; fns = set(); roots = set()
    where = {}
    for tu in tus:
        E = Effects(tu)
        if not E.roots: continue
        bad, n = E.run(); total += n
        fns |= {'%s %s' % (f.where(), f.n) for f in E.seen.values()}; roots |= {w for _, w in E.roots.values()}
        for f, x, why in bad: where['%s:%s' % (rel(f.file), x.get('l', f.l))] = (f, why)
        fs = {}
        for f in E.seen.values(): fs.setdefault(rel(f.file), 0); fs[rel(f.file)] += 1
        for file, k in sorted(fs.items()):
            c.ob('effects:%s:%s' % (tu.name, file), not any(rel(f.file) == file for f, _, _ in bad), '; '.join('%s:%s' % (rel(f.file), x.get('l', f.l)) for f, x, _ in bad if rel(f.file) == file)[:200] or file,
                 '; '.join('%s (line %s) %s' % (f.n[-80:], x.get('l'), why) for f, x, why in bad if rel(f.file) == file)[:500], '%d functions run by other threads' % k)
    c.seen(fns)
    c.notes['effects'] = '%d functions reached from the closures handed over at %s; %d writes examined' % (len(fns), ', '.join(sorted(roots)), total)
    return total
