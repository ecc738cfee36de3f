"""Lock-set analysis of a class that owns a mutex, a condition variable and threads.

Every method is walked from its root (public operation, worker closure, deferred closure) with the sets of mutexes that must and may be
held; methods of the same class and closures passed to algorithms are entered in the state of the call."""
from program import AnalysisBroken, rel
from collections import namedtuple

GUARDS = ('std::lock_guard', 'std::unique_lock', 'std::scoped_lock')
MUTEX = ('std::mutex', 'std::recursive_mutex', 'std::timed_mutex', 'std::shared_mutex')
Access = namedtuple('Access', 'field write const_false must may where root')
DEAD = None


class State:
    """must/may: mutexes; guards: local id -> (mutexes, held in must, held in may); pend: notifications owed; told: notified since the lock was taken"""
    def __init__(self, must=(), may=(), guards=(), pend=(), told=()): self.must, self.may, self.guards, self.pend, self.told = frozenset(must), frozenset(may), dict(guards), frozenset(pend), frozenset(told)
    def copy(self, **k):
        s = State(self.must, self.may, self.guards, self.pend, self.told)
        for a, b in k.items(): setattr(s, a, b)
        return s
    def key(self): return self.must, self.may, tuple(sorted(self.guards.items())), self.pend, self.told


def join(*ss):
    ss = [s for s in ss if s is not DEAD]
    if not ss: return DEAD
    r = ss[0]
    for s in ss[1:]: r = State(r.must & s.must, r.may | s.may, {k: v for k, v in {**s.guards, **r.guards}.items()}, r.pend | s.pend, r.told & s.told)
    return r


class Walk:
    def __init__(self, tu, record):
        self.tu = tu; self.rec = record
        rs = [r for r in tu.rec_by_name.get(record, []) if 'fields' in r]
        if not rs: raise AnalysisBroken('class %s is gone' % record)
        self.fields = {f['name']: tu.ts(f['t']).replace('const ', '') for f in rs[0]['fields']}
        self.mutexes = {n for n, t in self.fields.items() if t.startswith(MUTEX)}
        self.cond = {n for n, t in self.fields.items() if t.startswith('std::condition_variable')}
        self.atomic = {n for n, t in self.fields.items() if t.startswith(('std::atomic', 'atomic'))}
        self.threads = {n for n, t in self.fields.items() if 'std::thread' in t or 'std::jthread' in t}
        self.accesses, self.waits, self.bad, self.notes = [], [], [], []
        self.acq = []; self.runs = []; self.joins = []; self.escapes = []; self.owed = []
        self.wakeable = set(); self.deferred = {}; self.functions = set(); self.stack = []; self.loops = []
        self.methods = [f for f in tu.funcs.values() if f.get('recn') == record and 'body' in f.d and not f.get('dep')]
        if not self.methods: raise AnalysisBroken('no methods of ' + record)

    def where(self, e): return '%s:%d' % (rel(self.stack[-1].file), e.get('l', self.stack[-1].l))

    # ---- roots
    def run(self):
        for f in self.methods:
            if f.get('access') in (0, None) and f.get('kind') in ('method', 'ctor', 'dtor', 'constructor', 'destructor'): self.root(f, 'operation ' + f.short)
        done = set()
        while set(self.deferred) - done:
            for fid in sorted(set(self.deferred) - done):
                done.add(fid); f = self.tu.funcs.get(fid)
                if f is None or 'body' not in f.d: continue
                self.root(f, self.deferred[fid])
        return self

    def root(self, f, name):
        self.rootname = name; self.worker = name.startswith('worker')
        s = self.enter(f, State())
        if s is not DEAD and s.pend: self.owed += [(p, 'at the end of ' + name) for p in s.pend]

    def enter(self, f, s):
        if any(g.id == f.id for g in self.stack) or len(self.stack) > 30: self.notes.append('recursion into ' + f.n); return s
        self.functions.add('%s %s' % (f.where(), f.n)); self.stack.append(f); keep = self.loops; self.loops = []
        self.returns = getattr(self, 'returns', []); old = self.returns; self.returns = []; saved = s.guards
        for i in f.get('inits') or []:
            s = self.expr(i.get('e') or i.get('init'), s)
        s = self.stmt(f.d['body'], s)
        s = join(s, *self.returns)
        self.returns = old; self.stack.pop(); self.loops = keep
        if s is not DEAD: s = self.release(s, [g for g in s.guards if g not in saved]); s.guards = dict(saved)
        return s

    def release(self, s, ids):
        s = s.copy(guards=dict(s.guards))
        for i in ids:
            ms, held, may = s.guards.pop(i)
            if held or may:
                s.must -= ms; s.may -= ms; s.told = frozenset()
        return s

    # ---- statements
    def block(self, items, s):
        before = None if s is DEAD else set(s.guards)
        for x in items:
            if s is DEAD: break
            s = self.stmt(x, s)
        if s is not DEAD: s = self.release(s, [g for g in s.guards if g not in before])
        return s

    def stmt(self, x, s):
        if x is None or s is DEAD: return s
        k = x.get('k')
        if k == 'Compound': return self.block(x['c'], s)
        if k == 'Decl':
            for v in x['vars']: s = self.decl(v, s)
            return s
        if k == 'If':
            for n in ('init', 'var'):
                if x.get(n): s = self.decl(x[n], s) if n == 'var' else self.stmt(x[n], s)
            s = self.expr(x['cond'], s)
            return join(self.block([x['then']], s), self.block([x['else']], s) if x.get('else') else s)
        if k in ('While', 'For', 'RangeFor', 'Do', 'DoWhile'):
            for n in ('init', 'rangedecl', 'begin', 'end'):
                if isinstance(x.get(n), dict): s = self.stmt(x[n], s)
            out = s if k not in ('Do', 'DoWhile') else DEAD
            self.loops.append(x); brk = []
            for _ in range(2):
                t = s
                for n in ('var',):
                    if x.get(n): t = self.decl(x[n], t)
                c_ = x.get('cond'); forever = c_ is None or (c_.get('k') in ('Int', 'Bool') and str(c_.get('v')) in ('1', 'True', 'true'))
                if k not in ('Do', 'DoWhile') and c_ is not None: t = self.expr(c_, t)
                self.brk = getattr(self, 'brk', []); old = self.brk; self.brk = []
                b = self.block([x['body']], t)
                if b is not DEAD and x.get('inc'): b = self.expr(x['inc'], b)
                if k in ('Do', 'DoWhile') and b is not DEAD and c_ is not None: b = self.expr(c_, b); out = b
                brk = self.brk; self.brk = old
                s2 = join(s, b)
                if k not in ('Do', 'DoWhile'): out = join(t, b) if not forever else DEAD
                if s2.key() == s.key(): break
                s = s2
            self.loops.pop()
            return join(out, *brk)
        if k == 'Return':
            s = self.expr(x.get('e'), s)
            self.returns.append(s); return DEAD
        if k == 'Throw': self.expr(x.get('e'), s); return DEAD
        if k == 'Break': self.brk.append(s); return DEAD
        if k == 'Continue': return DEAD if False else s
        if k == 'Try':
            b = self.block([x.get('body') or x.get('c')], s) if not isinstance(x.get('c'), list) else self.block(x['c'], s)
            hs = [self.block([h.get('body', h)], s) for h in x.get('handlers', x.get('catch', [])) or []]
            return join(b, *hs)
        if k == 'Switch':
            s = self.expr(x.get('cond'), s); old = getattr(self, 'brk', []); self.brk = []
            b = self.block([x.get('body')], s); r = join(s, b, *self.brk); self.brk = old; return r
        if k in ('Case', 'Default', 'Label'): return self.stmt(x.get('body') or x.get('c'), s) if isinstance(x.get('body') or x.get('c'), dict) else s
        return self.expr(x, s)

    def decl(self, v, s):
        i = v.get('init')
        while i is not None and i.get('k') in ('Temp', 'Load', 'Cast', 'Paren') and 'e' in i: i = i['e']
        if i is not None and i.get('k') == 'Construct' and i['n'].split('::')[-1] in ('lock_guard', 'unique_lock', 'scoped_lock'):
            ms = frozenset(self.mutex(a) for a in i['args']) - {None}
            later = any('defer_lock' in str(a.get('n', '')) or 'defer_lock' in str(a) for a in i['args']) ; adopt = 'adopt_lock' in str(i['args'])
            if not ms: self.notes.append('a lock of unknown mutex at %s' % self.where(v)); return s
            s = s.copy(guards=dict(s.guards))
            if later: s.guards[v['id']] = (ms, False, False); return s
            if not adopt: self.acquire(ms, s, v)
            s.guards[v['id']] = (ms, True, True); s.must |= ms; s.may |= ms; s.told = frozenset(); return s
        if v.get('init') is not None: s = self.expr(v['init'], s)
        return s

    def acquire(self, ms, s, e): self.acq.append((ms, s.may & ms, self.where(e), self.rootname))

    # ---- expressions
    def mutex(self, e):
        f = self.field(e)
        return f if f in self.mutexes else None

    def field(self, e):
        while isinstance(e, dict) and e.get('k') in ('Load', 'Temp', 'Cast', 'Paren', 'Un') and 'e' in e and not (e['k'] == 'Un' and e.get('op') not in ('&', '*')): e = e['e']
        if isinstance(e, dict) and e.get('k') == 'Member' and e.get('rec') == self.rec: return e['n']
        return None

    def touch(self, n, s, e, write, const_false=False):
        if n in self.mutexes or n in self.cond: return s
        self.accesses.append(Access(n, write, const_false, s.must, s.may, self.where(e), self.rootname))
        return s

    def wake(self, n, s, e, all_, const_false):
        """a write that can let a waiting thread go on: a notification is due"""
        if const_false: return s
        if ('one' in s.told and not all_) or 'all' in s.told: return s
        return s.copy(pend=s.pend | {(n, all_, self.where(e))})

    def expr(self, e, s):
        if e is None or s is DEAD: return s
        if isinstance(e, list):
            for x in e: s = self.expr(x, s)
            return s
        if not isinstance(e, dict): return s
        k = e.get('k')
        if k in ('Compound', 'Decl', 'If', 'While', 'For', 'RangeFor', 'Return', 'Do', 'DoWhile', 'Try', 'Switch', 'Break', 'Continue'): return self.stmt(e, s)
        if k == 'Member':
            f = self.field(e)
            if f: return self.touch(f, s, e, False)
            return self.expr(e.get('e'), s)
        if k == 'Throw': self.expr(e.get('e'), s); return DEAD
        if k == 'Lambda': self.captures(e); return s       # by itself inert
        if k in ('Assign', 'Bin', 'CompoundAssign') and (k != 'Bin' or e.get('op', '').endswith('=') and e['op'] not in ('==', '!=', '<=', '>=')):
            s = self.expr(e.get('b'), s); f = self.field(e.get('a'))
            if f:
                cf = self.const_false(e.get('b'))
                self.touch(f, s, e, True, cf); return self.wake(f, s, e, True, cf)
            return self.expr(e.get('a'), s)
        if k == 'Un' and e.get('op') in ('++', '--', 'post++', 'post--', 'pre++', 'pre--'):
            f = self.field(e['e'])
            if f: self.touch(f, s, e, True); return self.wake(f, s, e, False, False)
        if k in ('And', 'Or') or (k == 'Bin' and e.get('op') in ('&&', '||')):
            s = self.expr(e['a'], s); return join(s, self.expr(e['b'], s))
        if k in ('Cond', 'Ternary') and 'a' in e: s = self.expr(e.get('cond') or e.get('c'), s); return join(self.expr(e['a'], s), self.expr(e['b'], s))
        if k == 'Call': return self.call(e, s)
        if k == 'Construct': return self.construct(e, s)
        for n, v in e.items():
            if isinstance(v, (dict, list)): s = self.expr(v, s)
            if s is DEAD: return s
        return s

    def const_false(self, e):
        while isinstance(e, dict) and e.get('k') in ('Load', 'Temp', 'Cast', 'Paren') and 'e' in e: e = e['e']
        return isinstance(e, dict) and str(e.get('v')) in ('0', 'False', 'false')

    def lam(self, e):
        while isinstance(e, dict) and e.get('k') in ('Temp', 'Load', 'Cast', 'Paren', 'Construct'):
            if e['k'] == 'Construct':
                if len(e.get('args', [])) != 1 or e['n'].split('::')[-1] in ('thread', 'jthread'): return None
                e = e['args'][0]
            elif 'e' in e: e = e['e']
            else: return None
        if isinstance(e, dict) and e.get('k') == 'Call' and e.get('n') in ('std::move', 'std::forward') and e.get('args'): return self.lam(e['args'][0])
        if isinstance(e, dict) and e.get('k') == 'Lambda': return e
        if isinstance(e, dict) and e.get('k') == 'Ref':
            for f in reversed(self.stack):
                d = self.local(f, e.get('id'))
                if d is not None: return self.lam(d.get('init')) if d.get('init') else None
        return None

    def body(self, l):
        if 'call' in l: return self.tu.funcs.get(l['call'])
        fs = [f for f in self.tu.funcs.values() if f.get('lam') == l['lam'] and 'body' in f.d and not f.get('dep')]
        return fs[0] if fs else None

    def local(self, f, i):
        from program import walk
        for x in walk(f.d['body']):
            if x.get('k') == 'Decl':
                for v in x['vars']:
                    if v.get('id') == i: return v
        return None

    def captures(self, e): pass

    def defer(self, l, kind, e):
        self.deferred.setdefault(self.body(l).id, kind)
        refs = [c for c in l.get('caps', []) if 'this' not in c and c.get('by') == 'ref']
        for c in refs: self.escapes.append((c.get('name') or self.name(c.get('id')), kind, self.where(e)))
        if not refs: self.escapes.append((None, kind, self.where(e)))

    def name(self, i):
        for f in reversed(self.stack):
            for p in f.d['params']:
                if p['id'] == i: return p['name']
            d = self.local(f, i)
            if d: return d['name']
        return 'a local variable'

    def construct(self, e, s):
        n = e['n'].rsplit('::', 1)[0]
        for a in e['args']:
            l = self.lam(a)
            if l is not None and n in ('std::thread', 'std::jthread'): self.defer(l, 'worker thread', e); continue
            if l is not None and n in ('std::function', 'std::packaged_task', 'std::move_only_function'): self.defer(l, 'deferred task', e); continue
            s = self.expr(a, s)
        if n in ('std::thread', 'std::jthread'):
            for a in e['args']:
                if isinstance(a, dict) and 'thread_pool_t' in str(a.get('q', '')) + str(a.get('n', '')): self.method_root(a)
        g = self.tu.funcs.get(e.get('f'))
        return s

    def method_root(self, a):
        for f in self.methods:
            if f.n == a.get('n'): self.deferred.setdefault(f.id, 'worker thread')

    def call(self, e, s):
        n = e.get('n', ''); obj = e.get('obj'); args = e.get('args', []); short = n.split('::')[-1]; of = self.field(obj) if obj else None
        g = self.tu.funcs.get(e.get('f'))
        # ---- locks
        if obj is not None and short in ('lock', 'unlock', 'try_lock', 'release') and (of in self.mutexes or (obj.get('k') == 'Ref' and n.startswith(GUARDS))):
            s = s.copy(guards=dict(s.guards))
            if of in self.mutexes: ms = frozenset({of})
            elif obj.get('id') in s.guards: ms = s.guards[obj['id']][0]
            else: self.notes.append('an unknown lock at %s' % self.where(e)); return s
            if short == 'lock': self.acquire(ms, s, e); s.must |= ms; s.may |= ms; s.told = frozenset()
            elif short == 'try_lock': s.may |= ms; self.notes.append('try_lock at %s' % self.where(e))
            else: s.must -= ms; s.may -= ms; s.told = frozenset()
            if obj.get('id') in s.guards: s.guards[obj['id']] = (ms, short == 'lock', short in ('lock', 'try_lock'))
            return s
        if of in self.cond:
            if short in ('notify_one', 'notify_all'):
                every = short == 'notify_all' or bool(self.loops)
                s = s.copy(pend=frozenset() if every else frozenset(p for p in s.pend if p[1]))
                if s.may: s.told = s.told | ({'all', 'one'} if every else {'one'})
                return s
            if short.startswith('wait'):
                l = next((x for x in (self.lam(a) for a in args) if x is not None), None)
                reads0 = len(self.accesses)
                if l is not None:
                    f = self.body(l)
                    if f is not None: self.enter(f, s)
                    self.waits.append(('predicate', {a.field for a in self.accesses[reads0:]}, s.must, self.where(e), self.rootname))
                elif self.loops:
                    x = self.loops[-1]; self.expr(x.get('cond'), s)
                    fs = {a.field for a in self.accesses[reads0:]}
                    if not fs: fs = {a.field for a in self.accesses if a.root == self.rootname}
                    self.waits.append(('loop', fs, s.must, self.where(e), self.rootname))
                else: self.waits.append(('once', set(), s.must, self.where(e), self.rootname))
                s = s.copy(told=frozenset()); return s
        # ---- running what was handed in, joining
        if short in ('operator()', '') and n.startswith(('std::function', 'std::packaged_task')) or (e.get('op') == '()' and n.startswith(('std::function', 'std::packaged_task'))) or n == 'std::invoke' and not self.lam(args[0] if args else None):
            if n.startswith(('std::function', 'std::packaged_task')) or n == 'std::invoke': self.runs.append((s.may, self.where(e), self.rootname))
        if n in ('std::thread::join', 'std::jthread::join'): self.joins.append((s.may, s.pend, self.where(e), self.rootname))
        # ---- closures
        if e.get('op') == '()' and obj is not None:
            l = self.lam(obj)
            for a in args: s = self.expr(a, s)
            if l is not None and self.body(l) is not None: return self.enter(self.body(l), s)
            return self.expr(obj, s)
        # ---- own methods
        if g is not None and g.get('recn') == self.rec and 'body' in g.d:
            s = self.expr(obj, s) if obj is not None and obj.get('k') != 'This' else s
            for a in args: s = self.argument(a, s, e)
            return self.enter(g, s)
        # ---- writes and reads of members
        if obj is not None and of:
            write = not e.get('cm') and short not in ('begin', 'end', 'front', 'back', 'size', 'empty', 'operator[]', 'at', 'load')
            if of in self.atomic and short in ('load',) or short.startswith('operator ') and e.get('cm'): write = False
            for a in args: s = self.argument(a, s, e)
            cf = bool(args) and of in self.atomic and self.const_false(args[0])
            self.touch(of, s, e, write, cf)
            if write and short not in ('erase', 'clear', 'pop_front', 'pop_back', 'pop', 'reserve', 'shrink_to_fit'): s = self.wake(of, s, e, of in self.atomic or short in ('swap', 'insert', 'operator=', 'assign'), cf)
            return s
        if obj is not None: s = self.expr(obj, s)
        outs = e.get('outs') or []
        for i, a in enumerate(args):
            l = self.lam(a)
            if l is not None:
                f = self.body(l)
                if self.into_threads(obj, n): self.defer(l, 'worker thread', e)
                elif n.startswith('std::') and f is not None: t = self.enter(f, s); s = join(s, t)
                elif f is not None and g is not None and 'body' in g.d: self.notes.append('a closure passed to %s' % n); self.deferred.setdefault(self.body(l).id, 'deferred task')
                continue
            s = self.argument(a, s, e)
        return s

    def into_threads(self, obj, n):
        return self.field(obj) in self.threads and n.split('::')[-1] in ('emplace_back', 'push_back', 'emplace')

    def argument(self, a, s, e):
        f = self.field(a)
        if f and isinstance(a, dict) and a.get('k') == 'Member':
            self.touch(f, s, e, False); return s
        return self.expr(a, s)


def check(c, tu, record, label):
    """the obligations of the lock discipline"""
    w = Walk(tu, record).run(); m = w.mutexes
    c.seen(w.functions)
    said = set()
    def ob(n, ok, where, msg):
        if (n, where, ok) in said: return ok
        said.add((n, where, ok))
        if not ok and w.notes: return c.undecided(n, where, '%s (%s)' % (msg, '; '.join(w.notes[:3])))
        return c.ob(n, ok, where, msg)
    file = w.methods[0].where()
    work = {a.field for a in w.accesses if a.root == 'worker thread'}
    if not any(a.root == 'worker thread' for a in w.accesses): return c.undecided(label, file, 'no worker thread found')
    preds = set().union(*[x[1] for x in w.waits]) if w.waits else set()
    for f in sorted(work):
        if f in w.atomic or f in w.threads: continue
        mine = [a for a in w.accesses if a.field == f]
        if not any(a.write for a in mine): c.ob('shared:' + f, True, file); continue
        common = frozenset(m).intersection(*[a.must for a in mine]) if mine else m
        if common: c.ob('shared:' + f, True, file, '', '%d accesses, all with %s held' % (len(mine), ', '.join(sorted(common)))); continue
        best = max(m, key=lambda x: (sum(x in a.must for a in mine), x)) if m else None
        out = [a for a in mine if best not in a.must]
        if all(a.write and a.const_false for a in out): c.undecided('shared:' + f, out[0].where, 'reset without the lock'); continue
        ob('shared:' + f, False, out[0].where, '%s is used by worker threads and %s without holding %s (in %s)' % (f, 'changed' if out[0].write else 'read', best or 'a mutex', out[0].root))
    for kind, fs, must, where, root in w.waits:
        ob('wait:held', bool(must), where, 'a wait without the lock')
        ob('wait:checked', kind != 'once', where, 'a wait that does not check again what it waits for: a spurious wake-up ends it')
        for f in sorted(fs):
            for a in w.accesses:
                if a.field != f or not a.write or a.const_false: continue
                ob('wakes:%s' % f, bool(a.must & must), a.where, '%s is changed without holding the mutex of the waiting thread: the change can fall between its check and its wait, and the notification is lost (in %s)' % (f, a.root))
    for (f, every, where), when in sorted(set(w.owed)):
        if f in preds: ob('notified:' + f, False, where, '%s is changed, but %s %s' % (f, 'not all waiting threads are' if every else 'no waiting thread is', 'notified (%s)' % when))
    for f in sorted(preds): 
        if not any(p[0][0] == f for p in w.owed): c.ob('notified:' + f, True, file)
    for may, where, root in w.runs: ob('run:unlocked', not may, where, 'a task is run with %s held: others cannot enqueue or take tasks, a task that enqueues another never returns' % ', '.join(sorted(may)))
    for may, pend, where, root in w.joins:
        ob('join:unlocked', not may, where, 'a thread is joined with %s held, which it needs to end' % ', '.join(sorted(may)))
        late = [p for p in pend if p[0] in preds]
        ob('join:notified', not late, where, 'a thread is joined before all waiting threads are notified of the change of %s' % (late[0][0] if late else ''))
    for ms, already, where, root in w.acq: ob('acquire', not already, where, '%s is locked again by the thread that holds it (in %s)' % (', '.join(sorted(ms)), root))
    for n, kind, where in w.escapes: ob('closure', n is None, where, 'the closure of a %s refers to %s, which ends with the call' % (kind, n))
    return w
