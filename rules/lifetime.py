"""Nothing that is handed out refers to an object that no longer exists.

A closure that is held (directly, or inside lazy arrays, maps, tuples of other closures; decided from the type of the result) by what a
function returns must not refer to a local variable or by-value parameter of that function, nor to the object itself unless the caller keeps it."""
from program import parse_all, repo_units, walk, rel, AnalysisBroken


class Lifetime:
    def __init__(self, tu):
        self.tu = tu; self.caps = {}; self.lambda_in = {}; self.own = {}; self.lam_node = {}
        for f in tu.funcs.values():
            if 'body' not in f.d or f.get('dep'): continue
            for p in f.d['params']: self.own[p['id']] = (f, p, 'parameter')
            for x in walk([f.d['body'], f.get('inits')]):
                if x.get('k') == 'Lambda': self.lambda_in[x['lam']] = f; self.caps[x['lam']] = x.get('caps', []); self.lam_node[x['lam']] = x
                for v in (x.get('vars') or []) if x.get('k') == 'Decl' else [x['var']] if isinstance(x.get('var'), dict) else []:
                    if 'id' in v: self.own[v['id']] = (f, v, 'variable')
    def kind(self, t):
        return self.tu.types[t]['k'] if isinstance(t, int) else ''
    def functions(self):
        for f in self.tu.funcs.values():
            if 'body' in f.d and not f.get('dep') and f.d.get('holds'): yield f
    def dangling(self, f):
        """[(line, what)] of references to own objects of f held by what f returns"""
        out = []
        r = self.tu.records.get(f.d.get('rec'), {})
        for l in f.d['holds']:
            if f.d.get('access') == 0 and not f.get('lam') and not r.get('lambda') and any(k.get('this') and k.get('by') != 'copy' for k in self.caps.get(l, [])) and self.lambda_in.get(l) is f and r.get('copyable', True):
                out.append((self.lam_node[l].get('l', f.l), 'what it returns holds a closure (line %s) that refers to the object it was called on' % self.lam_node[l].get('l')))
            for k in self.caps.get(l, []):
                if k.get('by') != 'ref' or self.lambda_in.get(l) is not f: continue
                mine = {q.get('id'): q for q in self.caps.get(f.d.get('lam'), [])} if f.d.get('lam') is not None else {}
                for i in ([k['id']] if k.get('id') in mine else []) + [y['id'] for y in roots(self.tu, k.get('init'))]:
                    if i in mine and mine[i].get('by') != 'ref':
                        out.append((self.lam_node[l].get('l', f.l), 'what it returns holds a closure (line %s) that refers to a value captured by the closure that makes it' % self.lam_node[l].get('l')))
                for i in [y['id'] for y in roots(self.tu, k.get('init')) if y['id'] not in mine and y['id'] in self.own]:
                    g, v, what = self.own[i]
                    if g is f and not v.get('static') and self.kind(v.get('t')) not in ('lref', 'rref'):
                        out.append((self.lam_node[l].get('l', f.l), 'what it returns holds a closure (line %s) that refers to its %s %s' % (self.lam_node[l].get('l'), what, v.get('name', v.get('n', '?')))))
                if k.get('id') not in self.own: continue
                g, v, what = self.own[k['id']]
                if g is not f or v.get('static') or self.kind(v.get('t')) in ('lref', 'rref'): continue
                out.append((self.lam_node[l].get('l', f.l), 'what it returns holds a closure (line %s) that refers to its %s %s' % (self.lam_node[l].get('l'), what, v.get('name', v.get('n', '?')))))
        return out


def check(c, only=None, units=None):
    """only: a predicate on the source file"""
    import glob, os
    from program import VERIF, witness
    specimens(c)
    us = units or [u for u in repo_units() if u != 'main.cpp'] + [w for w in sorted(glob.glob(os.path.join(VERIF, 'witness', '*.cpp'))) if not w.endswith(('lifetime.cpp', 'pool_locks.cpp'))]
    fns = {}; bad = {}; clos = moves = refs = 0
    for tu in parse_all(us):
        L = Lifetime(tu)
        for f in tu.funcs.values():
            if 'body' not in f.d or f.get('dep'): continue
            file = rel(f.file)
            if not file.startswith('src/') or 'catch' in file or (only and not only(file)): continue
            key = (file, f.d.get('pl', f.l), f.n.split('(')[0])
            fns[key] = f; clos += len(f.d.get('holds') or [])
            m, b, out = every(tu, L, f); moves += m; refs += b
            for l, why in out: bad.setdefault(key, {})[l, why] = 1
    files = {}
    for k in fns: files.setdefault(k[0], []).append(k)
    for file, ks in sorted(files.items()):
        b = [(k, x) for k in ks for x in bad.get(k, {})]
        c.ob('lifetime:' + file, not b, '%s:%s' % (file, b[0][1][0]) if b else file, '; '.join('%s (line %s): %s' % (k[2][-60:], x[0], x[1]) for k, x in b[:4])[:600], '%d functions' % len(ks))
    c.seen('%s:%s %s' % k for k in fns)
    c.notes['lifetime'] = '%d closures held by results, %d moves, %d references and pointers handed out or kept' % (clos, moves, refs)


def prop_lifetime(c):
    c.rule('(closures) no closure held by what a function returns, as its type tells, refers to a local variable, a by-value parameter or (public member functions) the object itself')
    c.rule('(references) no reference, pointer, iterator or view that is returned points into a local variable; none that is kept, and no loop, refers into a temporary object; no loop changes the length of the container it walks over')
    c.rule('(moves) on no path is a variable or member read after its content was moved away and before it is assigned again')
    c.assumptions.append('closures whose type is erased (std::function) are not traced; the contents behind shared pointers live as long as the pointers')
    check(c)
    c.minimum = 25


# ---- use after the content was moved away
class Moves:
    """may-moved variables at each point, over the statement structure; leaving by return, throw, break or continue drops them"""
    def __init__(self, tu, f, life):
        self.tu, self.f, self.life = tu, f, life; self.bad = []; self.done = set(); self.n = 0; self.jumps = []
    def run(self):
        s = set()
        for i in self.f.d.get('inits') or []: s = self.expr(i.get('e'), s)
        self.stmt(self.f.d['body'], s)
        return self.bad
    def heavy(self, t):
        ty = self.tu.strip_ref(t)
        if ty['k'] in ('rec', 'lambda'):
            r = self.tu.records.get(ty.get('rec'))
            s = ty['s']
            if 'shared_ptr' in s.split('<')[0] or 'initializer_list' in s.split('<')[0]: return True
            return not (r or {}).get('trivcopy')
        return False
    def target(self, e, any_=False):
        """(variable or member of this) that e names, if its content can move away"""
        while isinstance(e, dict) and e.get('k') in ('Temp', 'Cast', 'Paren', 'Load') and 'e' in e: e = e['e']
        if not isinstance(e, dict) or ('t' not in e and e.get('k') != 'Un'): return None
        if e.get('k') == 'Ref' and e.get('dk') in ('local', 'parm') and not e.get('cap') and self.heavy(e['t']): return ('v', e['id'])
        if e.get('k') == 'Member' and isinstance(e.get('e'), dict) and e['e'].get('k') == 'This' and (any_ or self.heavy(e['t'])): return ('t', e['n'])
        if e.get('k') == 'Un' and e.get('op') == '*' and isinstance(e.get('e'), dict) and e['e'].get('k') == 'This': return ('t',)
        if e.get('k') == 'Member' and isinstance(e.get('e'), dict) and not e.get('arrow'):
            r = self.target(e['e'])
            if r is not None and (any_ or self.heavy(e['t'])): return r + ('.', e['n'])
        return None
    def stmts(self, xs, s):
        for x in xs:
            s = self.stmt(x, s)
            if s is None: return None
        return s
    def merge(self, a, b): return b if a is None else a if b is None else a | b
    def stmt(self, x, s):
        if s is None or not isinstance(x, dict): return s
        k = x.get('k')
        if k == 'Compound': return self.stmts(x['c'], s)
        if k == 'Decl':
            for v in x['vars']:
                s = self.expr(v.get('init'), s)
                s = {m for m in s if m[:2] != ('v', v['id'])}
            return s
        if k == 'If':
            for q in ('init', 'var'): s = self.expr(x.get(q), s) if x.get(q) and x[q].get('k') != 'Decl' else self.stmt(x[q], s) if x.get(q) else s
            s = self.expr(x.get('c') if 'c' in x else x.get('cond'), s)
            parts = [x.get(q) for q in ('then', 'a') if isinstance(x.get(q), dict)][:1]; other = [x.get(q) for q in ('else', 'b') if isinstance(x.get(q), dict)][:1]
            a = self.stmt(parts[0], set(s)) if parts else s
            b = self.stmt(other[0], set(s)) if other else s
            return self.merge(a, b)
        if k in ('For', 'While', 'Do', 'RangeFor'):
            if k == 'For' and x.get('init'): s = self.stmt(x['init'], s)
            if k == 'RangeFor': s = self.expr(x.get('range'), s)
            start = s; out = s
            for _ in range(2):
                c = self.expr(x.get('cond') if 'cond' in x else x.get('c'), set(s)) if k in ('For', 'While') else set(s)
                if isinstance(x.get('var'), dict): c = {m for m in c if m[:2] != ('v', x['var'].get('id'))}
                out = self.merge(out, c)
                self.jumps.append(None)
                e = self.stmt(x.get('body'), c)
                e = self.merge(e, self.jumps.pop())
                if e is not None and x.get('inc') is not None: e = self.expr(x['inc'], e)
                if k == 'Do' and e is not None: e = self.expr(x.get('cond') if 'cond' in x else x.get('c'), e)
                out = self.merge(out, e); s = self.merge(set(start), e)
            return out
        if k == 'Return': self.expr(x.get('e'), s); return None
        if k == 'Throw': self.expr(x.get('e'), s); return None
        if k in ('Break', 'Continue'):
            if self.jumps: self.jumps[-1] = self.merge(self.jumps[-1], set(s))
            return None
        if k == 'Try':
            a = self.stmt(x.get('body'), set(s))
            for h in x.get('handlers') or x.get('h') or []: a = self.merge(a, self.stmt(h.get('body'), set(s)))
            return a
        if k == 'Switch':
            s = self.expr(x.get('c') if 'c' in x else x.get('cond'), s)
            b = x.get('body'); out = set(s); self.jumps.append(None)
            for y in (b.get('c') if isinstance(b, dict) and b.get('k') == 'Compound' else [b]):
                r = self.stmt(y, set(s)); out = self.merge(out, r)
            return self.merge(out, self.jumps.pop())
        if k in ('Case', 'Default', 'Label'): return self.stmt(x.get('s') or x.get('body'), s)
        return self.expr(x, s)
    def expr(self, e, s):
        """marks uses and returns the state afterwards; operands of a call are unsequenced, a moved operand counts after them"""
        if s is None or e is None: return s
        if isinstance(e, list):
            for y in e: s = self.expr(y, s)
            return s
        if not isinstance(e, dict): return s
        k = e.get('k')
        if k in STMTS: return self.stmt(e, s)
        if k == 'Lambda':
            for cp in e.get('caps', []):
                if 'id' in cp: self.use(('v', cp['id']), e, s)
            for cp in e.get('caps', []):
                if isinstance(cp.get('init'), dict): s = self.expr(cp['init'], s)
            return s
        if k == 'Call' and e.get('n') in ('std::move', 'std::forward') and len(e.get('args', [])) == 1:
            t = self.target(e['args'][0])
            if t is not None and self.tu.types[e['t']]['k'] != 'lref' and (e['n'] == 'std::move' or self.rvalue(e)):
                self.use(t, e, s); self.n += 1; return s | {t}
            return self.expr(e['args'][0], s)
        if k == 'Assign' and e.get('op') in ('=', None):
            s = self.expr(e.get('b'), s); t = self.target(e.get('a'))
            if t is not None: return {m for m in s if m[:len(t)] != t}
            return self.expr(e.get('a'), s)
        if k == 'Call' and e.get('op') == '=' and e.get('obj') is not None:
            s = self.expr(e.get('args'), s); t = self.target(e['obj'])
            if t is not None: return {m for m in s if m[:len(t)] != t}
            return self.expr(e['obj'], s)
        if k == 'Call' and e.get('obj') is not None and e.get('n', '').split('::')[-1] in ('clear', 'reset', 'assign', 'resize'):
            t = self.target(e['obj'])
            if t is not None: return {m for m in self.expr(e.get('args'), s) if m[:len(t)] != t}
        if k in ('Ref', 'Member') or k == 'Un' and e.get('op') == '*':
            t = self.target(e, True)
            if t is not None: self.use(t, e, s); return s
        if k == 'SizeOf': return s
        if k == 'Cond':
            s = self.expr(e.get('c'), s); return self.merge(self.expr(e.get('a'), set(s)), self.expr(e.get('b'), set(s)))
        if k == 'Bin' and e.get('op') in ('&&', '||'):
            s = self.expr(e.get('a'), s); return s | self.expr(e.get('b'), set(s))
        if k == 'Call':
            s = self.expr(e.get('obj'), s)
            out = set(s)
            for a in e.get('args', []): out |= self.expr(a, set(s))
            # a plain move among the operands of another operand's use: order unspecified
            return out
        for key, v in e.items():
            if key in ('k', 't', 'l', 'n', 'f', 'op'): continue
            if isinstance(v, (dict, list)): s = self.expr(v, s)
        return s
    def rvalue(self, e): return self.tu.types[e['t']]['k'] != 'lref' and '&' not in (e.get('ta') or '')[-2:]
    def use(self, t, e, s):
        for m in s:
            if m[:len(t)] == t or t[:len(m)] == m:
                k = (e.get('l'), t)
                if k not in self.done: self.done.add(k); self.bad.append((e.get('l', self.f.l), t))
                return


STMTS = {'Compound', 'Decl', 'If', 'For', 'While', 'Do', 'RangeFor', 'Return', 'Throw', 'Break', 'Continue', 'Try', 'Switch', 'Case', 'Default', 'Label'}


# ---- references into locals and temporaries
INSIDE = {'begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'data', 'front', 'back', 'at', 'c_str', 'find', 'lower_bound', 'upper_bound', 'value', 'operator[]', 'operator*', 'first', 'second'}
SAME = {'std::forward', 'std::move', 'std::get', 'std::max', 'std::min', 'std::as_const', 'std::begin', 'std::end', 'std::data', 'std::clamp', 'std::addressof', 'std::max_element', 'std::min_element', 'std::find', 'std::find_if', 'std::next', 'std::prev', 'std::cref', 'std::ref'}
GROW = {'push_back', 'emplace_back', 'push_front', 'insert', 'emplace', 'erase', 'clear', 'resize', 'reserve', 'pop_back', 'pop_front', 'assign', 'shrink_to_fit', 'insert_or_assign'}


def deep(e):
    while isinstance(e, dict) and 't' not in e and 'e' in e: e = e['e']
    return e.get('t') if isinstance(e, dict) else None


def owning(tu, t):
    if t is None: return False
    s = tu.strip_ref(t)['s'].replace('const ', '')
    if s.startswith(('std::vector<', 'std::basic_string<', 'std::map<', 'std::set<', 'std::array<', 'std::deque<', 'std::list<', 'std::pair<', 'std::tuple<', 'std::optional<', 'std::unordered_', 'std::multimap', 'std::unique_ptr<', 'std::variant<', 'std::stringstream', 'std::basic_stringstream', 'std::basic_ostringstream')): return True
    return tu.strip_ref(t)['k'] == 'array' or s.startswith(('nd::basic_sequence_t', 'mara::sequence', 'nd::unique_provider', 'mara::covariant_sequence', 'mara::euclidean'))


def inside(tu, e, ptr=False, depth=0):
    """the node of the local variable or temporary whose storage e (a glvalue; if ptr: a pointer or iterator) points into, else None"""
    if not isinstance(e, dict) or depth > 40: return None
    k = e.get('k')
    if k in ('Cast', 'Paren', 'Decay'): return inside(tu, e.get('e'), ptr if k != 'Decay' else False, depth + 1)
    if k == 'Load': return None
    if ptr and k == 'Construct' and len(e.get('args', [])) == 1 and (e.get('copy') or e.get('move') or e.get('implicit')): return inside(tu, e['args'][0], True, depth + 1)
    if k == 'Temp': return inside(tu, e.get('e'), True, depth + 1) if ptr else e
    if k == 'Member': return None if e.get('arrow') or ptr else inside(tu, e.get('e'), False, depth + 1)
    if k == 'Sub' and not ptr:
        a = e['a']
        if a.get('k') == 'Decay': return inside(tu, a.get('e'), False, depth + 1)
        return None
    if k == 'Un' and e.get('op') == '&': return inside(tu, e.get('e'), False, depth + 1)
    if k == 'Un' and e.get('op') == '*': return inside(tu, e.get('e'), True, depth + 1)
    if k == 'Cond': return inside(tu, e.get('a'), ptr, depth + 1) or inside(tu, e.get('b'), ptr, depth + 1)
    if k == 'Ref': return e if not ptr and e.get('dk') in ('local', 'parm') and not e.get('cap') and tu.types[e['t']]['k'] not in ('lref', 'rref') else None
    if k == 'Call':
        n = e.get('n', ''); short = n.split('::')[-1]
        if e.get('obj') is not None:
            if (short in INSIDE or e.get('op') in ('[]', '*')) and owning(tu, deep(e['obj'])) and not e.get('arrow'):
                o = e['obj']; r = inside(tu, o, False, depth + 1)
                return r
            return None
        if n in SAME and e.get('args'):
            for a in e['args'][:1 if n not in ('std::max', 'std::min') else 2]:
                r = inside(tu, a, ptr and n not in ('std::begin', 'std::end', 'std::data', 'std::addressof', 'std::cref', 'std::ref'), depth + 1)
                if r is not None: return r
    return None


def references(tu, life, f):
    """[(line, what)]: references or pointers handed out or kept, whose object is gone"""
    bad = []; n = 0
    def decl(i):
        o = life.own.get(i); return o[1] if o else {}
    rt = tu.types[f.d['ret']]; rk = rt['k']
    isit = 'iterator' in rt['s'].split('<')[0] or 'string_view' in rt['s'] or 'reference_wrapper' in rt['s'].split('<')[0]
    for x in walk([f.d['body'], f.get('inits')]):
        k = x.get('k')
        if k == 'Return' and isinstance(x.get('e'), dict) and (rk in ('lref', 'ptr', 'rref') or isit):
            n += 1
            r = inside(tu, x['e'], rk not in ('lref', 'rref'))
            if r is not None:
                if r.get('k') == 'Temp': bad.append((x.get('l'), 'returns a reference to a temporary object'))
                else:
                    d = decl(r['id'])
                    if not d.get('static') and tu.types[d['t']]['k'] not in ('lref', 'rref') if 't' in d else False: bad.append((x.get('l'), 'returns a reference to its local variable %s' % r.get('n')))
        vs = (x.get('vars') or []) if k == 'Decl' else []
        for v in vs:
            if v.get('init') is None or 't' not in v: continue
            vk = tu.types[v['t']]; e = v['init']
            isref = vk['k'] in ('lref', 'rref'); isp = vk['k'] == 'ptr' or 'iterator' in vk['s'].split('<')[0] or 'basic_string_view' in vk['s'].split('<')[0]
            if not isref and not isp: continue
            n += 1
            r = kept(tu, e, not isref)
            if r: bad.append((x.get('l'), '%s refers into a temporary object that is gone at the end of its declaration' % v.get('name', 'a variable')))
        if k == 'RangeFor':
            n += 1
            if kept(tu, x.get('range'), False): bad.append((x.get('l'), 'loops over part of a temporary object that is gone before the loop begins'))
            y = x.get('range')
            while isinstance(y, dict) and y.get('k') in ('Cast', 'Paren'): y = y.get('e')
            if isinstance(y, dict) and y.get('k') in ('Ref', 'Member') and owning(tu, deep(y)) and not tu.strip_ref(y['t'])['s'].startswith('std::array'):
                for z in walk(x.get('body')):
                    if z.get('k') == 'Call' and isinstance(z.get('obj'), dict) and z['n'].split('::')[-1] in GROW and samelv(y, z['obj']) and not leaves_after(x['body'], z): bad.append((z.get('l'), 'changes the container that the loop at line %s walks over' % x.get('l')))
    return bad, n


def kept(tu, e, ptr):
    """a reference (pointer) initialised with e refers into a temporary whose life is not extended"""
    if not isinstance(e, dict): return False
    if not ptr:
        while isinstance(e, dict) and e.get('k') in ('Cast', 'Paren'): e = e.get('e')
        y = e
        while isinstance(y, dict) and (y.get('k') in ('Cast', 'Paren') or y.get('k') == 'Member' and not y.get('arrow')): y = y.get('e')
        if isinstance(y, dict) and y.get('k') == 'Temp': return kept(tu, y.get('e'), True) if pointery(tu, y) else False      # lifetime extended
    r = inside(tu, e, ptr)
    return r is not None and r.get('k') == 'Temp'


def pointery(tu, e):
    t = deep(e); s = tu.strip_ref(t)['s'] if t is not None else ''
    return 'iterator' in s.split('<')[0] or s.endswith('*') or 'string_view' in s.split('<')[0]


def roots(tu, e):
    """the variables whose own storage the lvalue e lies in"""
    while isinstance(e, dict) and (e.get('k') in ('Cast', 'Paren') or e.get('k') == 'Member' and not e.get('arrow')): e = e.get('e')
    if isinstance(e, dict) and e.get('k') == 'Ref' and 't' in e and 'id' in e: return [e]
    return []


def samelv(a, b):
    while isinstance(a, dict) and a.get('k') in ('Cast', 'Paren', 'Load'): a = a.get('e')
    while isinstance(b, dict) and b.get('k') in ('Cast', 'Paren', 'Load'): b = b.get('e')
    if not isinstance(a, dict) or not isinstance(b, dict) or a.get('k') != b.get('k'): return False
    if a['k'] == 'Ref': return a['id'] == b['id']
    if a['k'] == 'Member': return a['n'] == b['n'] and samelv(a.get('e'), b.get('e'))
    return a['k'] == 'This'


def leaves_after(body, z):
    """the statement list around z leaves the loop right after it"""
    for b in walk(body):
        if b.get('k') == 'Compound':
            for i, s in enumerate(b['c']):
                if any(y is z for y in walk(s)) and not any(y.get('k') == 'Compound' and any(w is z for w in walk(y)) for y in walk(s)):
                    return any(y.get('k') in ('Break', 'Return', 'Throw') for y in [s] + b['c'][i + 1:] if isinstance(y, dict))
    return False


def specimens(c):
    """the rules report what they are there for and nothing else, on specimens that are analysed the same way"""
    from program import parse, witness
    tu = parse(witness('lifetime.cpp')); L = Lifetime(tu); got = {}
    for f in tu.funcs.values():
        if 'body' not in f.d or f.get('dep') or not f.n.startswith('specimen::'): continue
        got.setdefault(f.short, []).extend(every(tu, L, f)[2])
    bad = [n for n in got if n.startswith('bad_') and not got[n]]; good = [n for n in got if n.startswith('good_') and got[n]]
    if bad or good or len([n for n in got if n.startswith('bad_')]) < 14: raise AnalysisBroken('specimens misjudged: missed %s, wrongly reported %s' % (bad, [(n, got[n]) for n in good]))


def every(tu, L, f):
    """(moves, references examined, [(line, what)])"""
    out = L.dangling(f) if f.d.get('holds') else []
    m = Moves(tu, f, L); m.run()
    out += [(l, 'reads %s after its content was moved away' % (L.own[t[1]][1].get('name', '?') if t[0] == 'v' and t[1] in L.own else t[-1])) for l, t in m.bad]
    b, n = references(tu, L, f)
    return m.n, n, out + b
