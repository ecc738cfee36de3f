import json
"""Gated value graph builder (global value numbering with interprocedural summary
inlining) over the resolved AST.

Every expression is mapped to a hash-consed term; control-flow joins become gating
(`ite`) terms, so no path is enumerated and nothing is executed.  Calls to
functions of /repo are expanded (bounded), calls to anything else are uninterpreted
terms and are recorded, in program order and with their guards, as effect events.
Unknown-trip loops are summarised once: variables they modify become `mu` terms."""
from terms import *
from program import rel, AnalysisBroken
import itertools


class LV:
    """an lvalue: memory location + access path"""
    __slots__ = ('loc', 'path')

    def __init__(self, loc, path=()): self.loc = loc; self.path = path

    def __repr__(self): return 'LV(%s,%s)' % (self.loc, self.path)

    def ext(self, *p): return LV(self.loc, self.path + p)


def select(t, p):
    k = p[0]
    if t is BOT: return BOT
    if t.op == 'ite': return ite(t.a[0], select(t.a[1], p), select(t.a[2], p))
    if k == 'f':
        if t.op == 'rec':
            for n, v in t.a[1]:
                if n == p[1]: return v
            if any(n == '*' for n, _ in t.a[1]): return mk('fld', dict(t.a[1])['*'], p[1])
            return mk('fld', t, p[1])
        if t.op == 'tup' and isinstance(p[1], int):
            if p[1] < len(t.a): return t.a[p[1]]
        if t.op == 'updf':
            if t.a[1] == p[1]: return t.a[2]
            return select(t.a[0], p)
        if t.op == 'zero': return mk('zero')
        if t.op == 'fill': return t
        return mk('fld', t, p[1])
    if k == 'whole': return t       # the object itself, seen through a raw pointer
    # index
    i = p[1]
    if t.op == 'arr' and isnum(i) and 0 <= int(i.a[0]) < len(t.a): return t.a[int(i.a[0])]
    if t.op == 'arr' and i.op == 'ite': return ite(i.a[0], select(t, (k, i.a[1])), select(t, (k, i.a[2])))
    if t.op == 'upd':
        if t.a[1] is i: return t.a[2]
        if (isnum(t.a[1]) and isnum(i)) or (t.a[1].op == 'str' and i.op == 'str'): return select(t.a[0], p)
        return mk('elem', t, i)
    if t.op == 'zero': return mk('zero')
    if t.op == 'fill': return t
    if t.op in ('str', 'sstr') and isnum(i) and 0 <= i.a[0]:       # a character of a text
        n = int(i.a[0]); ps = t.a[0] if t.op == 'str' else [p.a[0] if p.op == 'str' else None for p in t.a]
        if n < len(ps) and all(p is not None for p in ps[:n + 1]): return num(ord(ps[n]))
        if n == len(ps) and t.op == 'str': return num(0)
    return mk('elem', t, i)


def update(t, path, v):
    if not path: return v
    k = path[0]
    if k[0] == 'whole': return update(t, path[1:], v)
    if t.op == 'ite' and t.a[1].op in ('rec', 'arr', 'tup'):
        return ite(t.a[0], update(t.a[1], path, v), update(t.a[2], path, v))
    if k[0] == 'f':
        nv = update(select(t, k), path[1:], v)
        if t.op == 'rec':
            if any(n == k[1] for n, _ in t.a[1]): return mk('rec', t.a[0], tuple((n, nv if n == k[1] else w) for n, w in t.a[1]))
            return mk('rec', t.a[0], t.a[1] + ((k[1], nv),))
        if t.op == 'tup' and isinstance(k[1], int): return mk('tup', *[nv if j == k[1] else w for j, w in enumerate(t.a)])
        if t.op == 'updf' and t.a[1] == k[1]: return mk('updf', t.a[0], k[1], nv)
        if select(t, k) is nv: return t
        return mk('updf', t, k[1], nv)
    i = k[1]
    nv = update(select(t, k), path[1:], v)
    if t.op == 'arr' and isnum(i) and 0 <= int(i.a[0]) < len(t.a): return mk('arr', *[nv if j == int(i.a[0]) else w for j, w in enumerate(t.a)])
    if select(t, k) is nv: return t
    if t.op == 'upd' and t.a[1] is i: return mk('upd', t.a[0], i, nv)
    return mk('upd', t, i, nv)


class State:
    __slots__ = ('mem',)

    def __init__(self, mem=None): self.mem = mem if mem is not None else {}

    def copy(self): return State(dict(self.mem))


class Event:
    __slots__ = ('kind', 'name', 'args', 'guards', 'where', 'res', 'node', 'tu', 'obj', 'argv', 'stack', 'seq')

    def __repr__(self): return '%s %s(%s) @%s if %s' % (self.kind, self.name, ', '.join(show(a) for a in self.args), self.where, self.guards)


class Frame:
    def __init__(self, fn, env, this): self.fn = fn; self.env = env; self.this = this


NONMUT = {'begin', 'end', 'data', 'at', 'operator[]', 'front', 'back', 'get', 'find', 'operator*', 'operator->', 'size', 'c_str', 'load', 'cbegin', 'cend', 'rbegin', 'rend', 'empty', 'count', 'operator bool', 'joinable', 'native_handle', 'str', 'get_future'}
REFRET = {'at', 'operator[]', 'front', 'back'}


MATHFN = {'sin', 'cos', 'tan', 'exp', 'log', 'atan2', 'acos', 'asin', 'cbrt', 'tanh', 'sinh', 'cosh', 'atan', 'log10', 'log2', 'copysign', 'floor', 'ceil', 'round', 'hypot', 'fmod', 'exp2'}


def is_variant(v):
    while v.op == 'ite': v = v.a[1]
    return v.op == 'rec' and v.a[0] == 'std::variant'


def is_optional(v):
    while v.op == 'ite': v = v.a[1]
    return v.op == 'rec' and v.a[0] == 'std::optional'


class Interp:
    def __init__(self, tu, opaque=None, force_inline=None, maxdepth=60, unroll=64, link=None, budget=400000):
        self.tu = tu
        self.opaque = opaque or (lambda fn: False)
        self.maxdepth = maxdepth; self.unroll = unroll
        self.counter = itertools.count(1)
        self.events = []
        self.path = []
        self.frames = []
        self.visited = set()
        self.link = link or {}
        self.state = State()
        self.steps = 0; self.budget = budget
        self.models = {}
        self.cmodels = {}
        self.cfirst = set()          # project classes whose constructor is modelled
        self.symopaque = set()       # project classes an arbitrary value of which is one symbol
        self.heap = {}
        self.lamcount = {}
        self.loops = {}              # loops summarised: their condition and the guards of their breaks
        self.unmodelled = set()      # external functions met without a model, and loops abstracted to a fixed point
        import lib
        if lib.current is not None: lib.current.interp = self

    # ---------------------------------------------------------------- memory
    def alloc(self, t):
        l = next(self.counter); self.state.mem[l] = t; return LV(l)

    def load(self, lv):
        t = self.state.mem.get(lv.loc)
        if t is None: t = mk('undef', lv.loc); self.state.mem[lv.loc] = t
        for p in lv.path: t = select(t, p)
        return t

    def store(self, lv, v):
        t = self.state.mem.get(lv.loc)
        if t is None: t = mk('undef', lv.loc)
        self.state.mem[lv.loc] = update(t, lv.path, v)
        self.note('store', lv, v)

    def note(self, kind, lv, v): pass

    def rv(self, x): return self.load(x) if isinstance(x, LV) else x

    def lv(self, x): return x if isinstance(x, LV) else self.alloc(x)

    def ptr(self, lv): return mk('ptr', lv.loc, lv.path)

    deref_ite = False

    def deref(self, t):
        if t.op == 'ptr': return LV(t.a[0], t.a[1])
        if t.op == 'ite' and self.deref_ite:
            # immutable pointees only: the value behind either pointer
            def go(x):
                if x.op == 'ite': return ite(x.a[0], go(x.a[1]), go(x.a[2]))
                return self.load(LV(x.a[0], x.a[1])) if x.op == 'ptr' else BOT
            v = go(t)
            if v is not BOT: return self.alloc(v)
        key = ('heap', t)
        if key not in self.state.mem: self.state.mem[key] = mk('deref', t)
        return LV(key)

    def event(self, kind, name, args, node, res=None, obj=None, argv=None):
        e = Event(); e.kind = kind; e.name = name; e.args = args; e.guards = tuple(self.path); e.node = node; e.res = res; e.obj = obj; e.argv = argv
        fr = self.frames[-1] if self.frames else None
        e.tu = self.tu
        e.where = '%s:%d' % (rel(fr.fn.file) if fr else '?', node.get('l', 0) if node else 0)
        e.stack = tuple(f.fn.n for f in self.frames)
        e.seq = len(self.events)
        self.events.append(e)
        return e

    def symbolic(self, t, name, depth=0):
        """an arbitrary value of the given type, exposed down to its leaves"""
        if isinstance(t, int): t = self.tu.type(t)
        while t['k'] in ('lref', 'rref'): t = self.tu.types[t['p']]
        if t['k'] == 'array':
            import re
            m = re.search(r'\[(\d+)\]', t['s'])
            if m and int(m.group(1)) <= 16: return mk('arr', *[self.symbolic(self.tu.types[t['p']], '%s[%d]' % (name, i), depth + 1) for i in range(int(m.group(1)))])
        if t['k'] == 'rec' and depth < 8:
            r = self.tu.records.get(t['rec'])
            if r and r['n'] == 'std::tuple':
                return mk('tup', *[self.symbolic(self.type_by_name(x), '%s.%d' % (name, i), depth + 1) for i, x in enumerate(split_targs(r.get('targs', '')))])
            if r and r['n'] in self.symopaque: return sym(name)
            if r and 'fields' in r and self.in_repo(r) and not r.get('union'):
                fs = []
                for bt in r.get('bases', []):
                    b = self.symbolic(self.tu.type(bt), name, depth)
                    if b.op == 'rec': fs += list(b.a[1])
                single = len(r['fields']) == 1 and not fs and r['fields'][0]['name'] in ('__impl', '__data', 'value', 'memory')
                for f in r['fields']: fs.append((f['name'], self.symbolic(self.tu.type(f['t']), name if single else name + '.' + f['name'], depth + 1)))
                return mk('rec', r['n'], tuple(fs))
        return sym(name)

    def type_by_name(self, s):
        for t in self.tu.types:
            if t['s'] == s: return t
        return {'k': 'other', 's': s}

    def args_for(self, fn, prefix=''): return [self.alloc(self.symbolic(p['t'], prefix + (p['name'] or 'p%d' % i))) for i, p in enumerate(fn.d['params'])]

    # ---------------------------------------------------------------- functions
    def call(self, fn, args, this=None, node=None, closure=None):
        """args: list of LV or T. returns LV or T"""
        self.steps += 1
        if self.steps > self.budget: raise AnalysisBroken('value-graph budget exceeded in ' + fn.n)
        if isinstance(this, LV) and self.state.mem.get(this.loc) is not None and self.load(this) is BOT and fn.d['kind'] != 'ctor': return BOT    # the receiver was never produced
        self.visited.add((fn.file, fn.get('pl', fn.l), fn.n))
        d = fn.d
        env = {}
        if closure is not None:
            lam, caps = closure.a[0], closure.a[1]
            for c in caps:
                if c[0] == 'this': this = LV(c[1], c[2])
                elif c[1] == 'v': env[c[0]] = self.alloc(c[2])
                else: env[c[0]] = LV(c[2], c[3])
        for i, p in enumerate(d['params']):
            t = self.tu.type(p['t'])
            if i < len(args): a = args[i]
            elif 'def' in p:
                a = self.ev_in(fn, env, this, p['def'])
            else: a = mk('sym', 'arg?' + p['name'])
            if t['k'] in ('lref', 'rref'): env[p['id']] = self.lv(a)
            else: env[p['id']] = self.alloc(self.rv(a))
        fr = Frame(fn, env, this)
        self.frames.append(fr)
        base = len(self.path); evbase = len(self.events)
        try:
            if d['kind'] == 'ctor':
                self.ctor_inits(fn, fr)
            comps = self.exec(d['body'], TRUE) if 'body' in d else [('fall', TRUE, self.state, None)]
        finally:
            self.frames.pop()
            seg = self.path[base:]
            del self.path[base:]
        self.keep_nothrow(seg)
        rets = [c for c in comps if c[0] in ('ret', 'fall')]
        throws = [c for c in comps if c[0] == 'throw']
        for c in throws: self.path.append(('nothrow', c[1]))
        if not rets:
            if not throws: return VOID
            return BOT
        st, val = rets[-1][2], rets[-1][3]
        for c in reversed(rets[:-1]):
            st = self.merge(c[1], c[2], st)
            val = self.mergeval(c[1], c[3], val, c[2], st)
        self.state = st
        if val is None: return VOID
        return val

    def keep_nothrow(self, seg, acc=TRUE):
        """leave a region of the path: what was thrown inside it stays known, under the conditions of the region"""
        for x in seg:
            if isinstance(x[0], T): acc = band(acc, x[0] if x[1] else bnot(x[0]))
            elif x[0] == 'nothrow':
                g = band(acc, x[1])
                if g is not FALSE: self.path.append(('nothrow', g))

    def mergeval(self, g, a, b, sa, sb):
        if isinstance(a, LV) and isinstance(b, LV):
            if a.loc == b.loc and a.path == b.path: return a
            # reference to one of two objects: becomes the selected value
            ta = sa.mem.get(a.loc); tb = sb.mem.get(b.loc)
            for p in a.path: ta = select(ta, p)
            for p in b.path: tb = select(tb, p)
            l = next(self.counter); sb.mem[l] = ite(g, ta, tb)
            return LV(l)
        def val(x, s):
            if isinstance(x, LV):
                t = s.mem.get(x.loc)
                if t is None: t = mk('undef', x.loc)
                for p in x.path: t = select(t, p)
                return t
            return x
        if a is None or b is None: return a if b is None else b
        a, b = val(a, sa), val(b, sb)
        return ite(g, a, b)

    def merge(self, c, s1, s2):
        if s1 is s2: return s1
        m = {}
        a, b = s1.mem, s2.mem
        for k, v in a.items():
            w = b.get(k)
            m[k] = v if w is None or w is v else ite(c, v, w)
        for k, w in b.items():
            if k not in m: m[k] = w
        return State(m)

    def default_value(self, t, tu=None):
        """value of a value-/default-initialised object of type dict t"""
        k = t['k']
        if k in ('int', 'uint', 'float', 'bool', 'char', 'enum'): return ZERO
        if k == 'ptr': return mk('nullptr')
        if k == 'array':
            import re
            m = re.search(r'\[(\d+)\]', t['s'])
            if m and int(m.group(1)) <= 64: return mk('arr', *[self.default_value(self.tu.types[t['p']]) for _ in range(int(m.group(1)))])
            return mk('zero')
        if k in ('rec', 'lambda'):
            r = self.tu.records.get(t['rec'])
            if r and 'fields' in r and r.get('n', '').startswith('std::tuple'): pass
            if r and r['n'] == 'std::tuple':
                return mk('tup', *[self.default_by_name(s) for s in split_targs(r.get('targs', ''))])
            if r and r['n'] == 'std::pair':
                fs = [f for f in r['fields'] if f['name'] in ('first', 'second')]
                return mk('rec', 'std::pair', tuple((f['name'], self.default_value(self.tu.type(f['t']))) for f in fs))
            if r and self.in_repo(r):
                return self.construct_default(r)
            if r and r['n'] == 'std::array':
                return mk('rec', 'std::array', tuple((f['name'], self.default_value(self.tu.type(f['t']))) for f in r['fields']))
            if r and r['n'] in ('std::shared_ptr', 'std::unique_ptr', 'std::weak_ptr'): return mk('nullptr')
            if r and r['n'] in self.cmodels:
                v = self.cmodels[r['n']](self, {'args': [], 'l': 0, 't': -1}, t, [])
                if v is not None: return v
            if r and r['n'] == 'std::optional': return mk('rec', 'std::optional', (('has', FALSE), ('val', mk('undef', 'optional'))))
            return mk('new', t.get('rn', t['s']), ())
        return mk('zero')

    def default_by_name(self, s):
        for t in self.tu.types:
            if t['s'] == s: return self.default_value(t)
        return mk('zero')

    def in_repo(self, r): return not r['file'].startswith('/usr')

    def construct_default(self, r):
        fs = []
        for bt in r.get('bases', []):
            b = self.default_value(self.tu.type(bt))
            if b.op == 'rec': fs += list(b.a[1])
        # a user-provided default ctor is interpreted
        for f in r['fields']:
            if 'init' in f:
                fr = Frame(FakeFn(r), {}, None)
                self.frames.append(fr)
                try: v = self.rv(self.ev(f['init']))
                finally: self.frames.pop()
                v = self.coerce(v, self.tu.type(f['t']))
            else: v = self.default_value(self.tu.type(f['t']))
            fs.append((f['name'], v))
        return mk('rec', r['n'], tuple(fs))

    def coerce(self, v, t):
        if v.op == 'initlist':
            pass
        return v

    def ctor_inits(self, fn, fr):
        d = fn.d
        r = self.tu.records.get(d['rec'])
        obj = fr.this
        fields = []
        # start with all fields undefined
        base = {}
        cur = mk('rec', d['recn'], tuple((f['name'], self.undef_of(self.tu.type(f['t']), d['recn'], f['name'])) for f in (r['fields'] if r else [])))
        self.state.mem[obj.loc] = update(self.state.mem.get(obj.loc, cur), obj.path, cur) if obj.path else cur
        for i in d.get('inits', []):
            if i.get('deleg'):
                v = self.rv(self.ev(i['e'])); self.store(obj, v)
            elif 'base' in i:
                v = self.rv(self.ev(i['e']))
                if v.op == 'rec':
                    c = self.load(obj)
                    names = {n for n, _ in v.a[1]}
                    self.store(obj, mk('rec', c.a[0], v.a[1] + tuple(x for x in c.a[1] if x[0] not in names)))
            else:
                x = self.ev(i['e'])
                ft = None
                if r:
                    for f in r['fields']:
                        if f['name'] == i['m']: ft = self.tu.type(f['t'])
                if ft and ft['k'] in ('lref', 'rref'):
                    lv = self.lv(x); v = mk('refto', lv.loc, lv.path)
                else: v = self.rv(x)
                self.store(obj.ext(('f', i['m'])), v)

    def undef_of(self, t, *tag):
        if t['k'] == 'array':
            import re
            m = re.search(r'\[(\d+)\]', t['s'])
            if m and int(m.group(1)) <= 16: return mk('arr', *[self.undef_of(self.tu.types[t['p']], *(tag + (i,))) for i in range(int(m.group(1)))])
        return mk('undef', *tag)

    def ev_in(self, fn, env, this, node):
        self.frames.append(Frame(fn, env, this))
        try: return self.ev(node)
        finally: self.frames.pop()

    # ---------------------------------------------------------------- statements
    # completions: (kind, guard, state, value)
    def exec(self, s, g):
        if s is None: return [('fall', g, self.state, None)]
        k = s['k']
        m = getattr(self, 'x_' + k, None)
        if m: return m(s, g)
        # expression statement
        x = self.ev(s)
        if x is BOT: return [('throw', g, self.state, None)]
        return [('fall', g, self.state, None)]

    def seq(self, stmts, g):
        out = []
        pend = list(stmts)
        for s in pend:
            comps = self.exec(s, g)
            falls = [c for c in comps if c[0] == 'fall']
            out += [c for c in comps if c[0] != 'fall']
            if not falls: return out
            g = self.join(falls)
        out.append(('fall', g, self.state, None))
        return out

    def join(self, falls):
        st, g = falls[-1][2], falls[-1][1]
        for c in reversed(falls[:-1]):
            st = self.merge(c[1], c[2], st); g = bor(c[1], g)
        self.state = st
        return g

    def x_Compound(self, s, g): return self.seq(s['c'], g)

    def x_Null(self, s, g): return [('fall', g, self.state, None)]

    def x_Decl(self, s, g):
        for v in s['vars']: self.declare(v)
        return [('fall', g, self.state, None)]

    def declare(self, v):
        t = self.tu.type(v['t']); env = self.frames[-1].env
        if v.get('static'):
            env[v['id']] = LV(('static', v['id']))
            if ('static', v['id']) not in self.state.mem: self.state.mem[('static', v['id'])] = mk('static', v['name'])
            return
        if 'init' in v:
            x = self.ev(v['init'])
            if t['k'] in ('lref', 'rref'): env[v['id']] = self.lv(x)
            else: env[v['id']] = self.alloc(self.rv(x))
        else:
            env[v['id']] = self.alloc(self.default_value(t) if t['k'] in ('rec',) else mk('undef', v['name'], v['id']))
        for b in v.get('bind', []):
            if b.get('init'):
                x = self.ev(b['init'])
                env[b['id']] = self.lv(x)
                if 'hid' in b: env[b['hid']] = env[b['id']]

    def cond(self, e): return self.tobool(self.rv(self.ev(e)))

    def tobool(self, t):
        if t is BOT: return t
        if t.op == 'num': return num(1 if t.a[0] else 0)
        return t

    def x_If(self, s, g):
        if 'init' in s: self.exec(s['init'], g)
        if 'var' in s: self.declare(s['var'])
        c = self.cond(s['cond'])
        if isnum(c):
            if c.a[0]: return self.exec(s['then'], g)
            return self.exec(s.get('else'), g)
        s0 = self.state
        base = len(self.path)
        self.state = s0.copy(); self.path.append((c, True))
        g1 = band(g, c)
        th = self.exec(s['then'], c)
        extra1 = self.path[base + 1:]
        del self.path[base:]
        self.state = s0.copy(); self.path.append((c, False))
        el = self.exec(s.get('else'), bnot(c)) if s.get('else') else [('fall', bnot(c), self.state, None)]
        extra2 = self.path[base + 1:]
        del self.path[base:]
        f1 = any(x[0] == 'fall' for x in th); f2 = any(x[0] == 'fall' for x in el)
        if f1 and not f2: self.path.append((c, True)); self.path += extra1
        else: self.keep_nothrow(extra1, c)
        if f2 and not f1: self.path.append((c, False)); self.path += extra2
        else: self.keep_nothrow(extra2, bnot(c))
        return [(x[0], band(g, x[1]), x[2], x[3]) for x in th + el]

    def x_Return(self, s, g):
        v = None
        if s.get('e') is not None:
            v = self.ev(s['e'])
            fn = self.frames[-1].fn
            rt = self.tu.type(fn.get('ret', -1)) if not isinstance(fn, FakeFn) else {'k': 'rec'}
            if v is BOT: return [('throw', g, self.state, None)]
            if rt['k'] not in ('lref', 'rref'): v = self.rv(v)
            else: v = self.lv(v)
        return [('ret', g, self.state, v)]

    def x_Break(self, s, g): return [('break', g, self.state, None)]

    def x_Continue(self, s, g): return [('continue', g, self.state, None)]

    def iterator_for(self, s):
        """for (auto it = X.begin(); it != X.end(); ++it): (id of it, expression X, body with *it replaced by a synthetic variable)"""
        init, cond, inc = s.get('init'), s.get('cond'), s.get('inc')
        def strip(e):
            while isinstance(e, dict) and e.get('k') in ('Temp', 'Load', 'Cast', 'Paren', 'Construct') and (e.get('e') is not None or len(e.get('args', [])) == 1): e = e['e'] if e.get('e') is not None else e['args'][0]
            return e
        if not init or init.get('k') != 'Decl' or not cond or not inc: return None
        vs = init['vars']; b = strip(vs[0].get('init'))
        def ends(e, names):
            e = strip(e)
            if isinstance(e, dict) and e.get('k') == 'Call' and e.get('n', '').split('::')[-1] in names:
                if e.get('method') and e.get('obj') is not None: return e['obj']
                if e['n'] in ('std::begin', 'std::end', 'std::cbegin', 'std::cend') and len(e['args']) == 1: return e['args'][0]
            return None
        ob = ends(b, ('begin', 'cbegin'))
        if ob is None or not 1 <= len(vs) <= 2: return None
        it = vs[0]['id']
        isit = lambda e: strip(e).get('k') == 'Ref' and strip(e).get('id') == it
        if cond.get('k') != 'Call' or cond.get('op') != '!=' or inc.get('k') != 'Call' or inc.get('op') != '++': return None
        ca = ([cond['obj']] if cond.get('method') else []) + cond['args']
        if len(ca) != 2 or not isit(ca[0]) or not isit(inc.get('obj') or inc['args'][0]): return None
        oe = ends(ca[1], ('end', 'cend'))
        if oe is None and len(vs) == 2 and strip(ca[1]).get('k') == 'Ref' and strip(ca[1]).get('id') == vs[1]['id']: oe = ends(vs[1].get('init'), ('end', 'cend'))
        if oe is None or json.dumps(strip(oe), sort_keys=True) != json.dumps(strip(ob), sort_keys=True): return None
        syn = 'each%d' % it; ok = [True]; dt = [None]
        def rw(n):
            if isinstance(n, list): return [rw(x) for x in n]
            if not isinstance(n, dict): return n
            if n.get('k') == 'Call' and n.get('op') in ('*', '->') and n.get('method') and isit(n['obj']):
                dt[0] = n['t']
                r = {'k': 'Ref', 'l': n.get('l', 0), 'id': syn, 'n': syn, 'dk': 'local', 't': n['t']}
                return r if n['op'] == '*' else {'k': 'Un', 'op': '&', 'l': n.get('l', 0), 't': n['t'], 'e': r}
            if n.get('k') == 'Ref' and n.get('id') == it: ok[0] = False
            return {k: rw(v) if isinstance(v, (dict, list)) else v for k, v in n.items()}
        body = rw(s['body'])
        return (syn, ob, body, dt[0]) if ok[0] else None

    def x_For(self, s, g):
        itf = self.iterator_for(s)
        if itf is not None:
            syn, ob, body, dt = itf
            rlv = self.lv(self.ev(ob)); rng = self.rv(rlv)
            if rng.op != 'arr':
                el = mk('each', rng)
                t = self.tu.type(dt) if dt is not None else {'k': 'other'}
                def bind():
                    mut = t['k'] == 'lref' and not self.tu.types[t['p']].get('c')
                    self.frames[-1].env[syn] = LV(rlv.loc, rlv.path + (('i', mk('eachidx', s['l'])),)) if mut else self.alloc(el)
                return self.generic_loop({'body': body, 'l': s['l'], 'k': 'For'}, g, None, None, bind, ('each', rng))
        if 'init' in s: self.exec(s['init'], g)
        return self.loop(s, g, s.get('cond'), s.get('inc'), None)

    def x_While(self, s, g): return self.loop(s, g, s.get('cond'), None, s.get('var'))

    def x_Do(self, s, g):
        out = []
        comps = self.exec(s['body'], g)
        falls = [c for c in comps if c[0] in ('fall', 'continue')]
        brk = [c for c in comps if c[0] == 'break']
        out = [c for c in comps if c[0] in ('ret', 'throw')]
        if falls:
            self.join(falls)
            r = self.loop(s, g, s['cond'], None, None)
            out += [c for c in r if c[0] != 'fall']
            f = [c for c in r if c[0] == 'fall'] + brk
        else: f = brk
        if f:
            gg = self.join([('fall', c[1], c[2], None) for c in f]); out.append(('fall', gg, self.state, None))
        return out

    def x_RangeFor(self, s, g):
        # try the desugared form first (constant bounds are unrolled)
        self.exec(s['rangedecl'], g)
        rng = None
        rd = s['rangedecl']['vars'][0]
        rlv = self.frames[-1].env[rd['id']]
        rng = self.rv(rlv)
        if self.unrollable_range(s, rlv, rng):
            self.exec(s['begin'], g); self.exec(s['end'], g)
            c = self.cond(s['cond'])
            if isnum(c):
                body = {'k': 'Compound', 'c': [{'k': 'Decl', 'l': s['l'], 'vars': [s['var']]}, s['body']]}
                return self.loop({'body': body, 'l': s['l'], 'k': 'For'}, g, s['cond'], s['inc'], None)
        # opaque iteration
        el = mk('each', rng)
        t = self.tu.type(s['var']['t'])
        def bind():
            v = dict(s['var'])
            env = self.frames[-1].env
            if t['k'] in ('lref', 'rref'):
                env[v['id']] = LV(rlv.loc, rlv.path + (('i', mk('eachidx', s['l'])),)) if t['k'] == 'lref' and not self.tu.types[t['p']].get('c') else self.alloc(el)
                if t['k'] == 'lref' and not self.tu.types[t['p']].get('c'): pass
            else: env[v['id']] = self.alloc(el)
            for b in v.get('bind', []):
                if b.get('init'):
                    x = self.ev(b['init']); env[b['id']] = self.lv(x)
                    if 'hid' in b: env[b['hid']] = env[b['id']]
        return self.generic_loop(s, g, None, None, bind, ('each', rng))

    def unrollable_range(self, s, rlv, rng):
        if rng.op == 'arr': return len(rng.a) <= self.unroll
        try:
            n = s['begin']['vars'][0].get('init', {})
        except Exception: return False
        # ranges whose begin() is a function of the analysed source, or a plain array
        t = self.tu.type(s['begin']['vars'][0]['t'])
        if self.fold_iterators: return True
        return t['k'] == 'ptr' and not self.calls_external(n)

    def calls_external(self, n):
        from program import walk
        return any(x['k'] == 'Call' and x.get('f') not in self.tu.funcs for x in walk(n))

    unroll_breaks = True
    fold_iterators = False     # iterate over containers of known extent (see store.py)

    def has_exit(self, n, top=True):
        if isinstance(n, list): return any(self.has_exit(x, False) for x in n)
        if not isinstance(n, dict): return False
        k = n.get('k')
        if k in ('Break', 'Return'): return True
        if not top and k in ('For', 'While', 'Do', 'RangeFor', 'Switch', 'Lambda'):
            from program import walk
            return any(x['k'] == 'Return' for x in walk(n)) if k != 'Lambda' else False
        return any(self.has_exit(v, False) for v in n.values() if isinstance(v, (dict, list)))

    def loop(self, s, g, cond, inc, var):
        out = []
        if not self.unroll_breaks and self.has_exit(s['body'], False):
            return self.generic_loop(s, g, cond, inc, (lambda: self.declare(var)) if var is not None else None, None)
        start = (self.state.copy(), len(self.events), dict(self.frames[-1].env), list(self.path), g)
        for it in range(self.unroll):
            if var is not None: self.declare(var)
            c = self.cond(cond) if cond is not None else TRUE
            if c is BOT: return out          # evaluating the condition throws
            if not isnum(c) and it > 0:
                # the trip count is not constant after all: summarise the whole loop from its entry
                self.state = start[0]; del self.events[start[1]:]; self.frames[-1].env = start[2]; self.path[:] = start[3]; g = start[4]
                return self.generic_loop(s, g, cond, inc, (lambda: self.declare(var)) if var is not None else None, None)
            if not isnum(c) and self.peel:
                r = self.peeled(s, g, c, cond, inc, var, start)
                if r is not None: return out + r
            if not isnum(c) or (cond is None and it == 0):
                return out + self.generic_loop(s, g, cond, inc, (lambda: self.declare(var)) if var is not None else None, None)
            if not c.a[0]:
                return out + [('fall', g, self.state, None)]
            comps = self.exec(s['body'], TRUE)
            out2 = [x for x in comps if x[0] in ('ret', 'throw')]
            brk = [x for x in comps if x[0] == 'break']
            cont = [x for x in comps if x[0] in ('fall', 'continue')]
            out += [(x[0], band(g, x[1]), x[2], x[3]) for x in out2]
            if brk:
                # conditional break in an unrolled loop: continue unrolling on the rest
                if not cont: 
                    gg = self.join([('fall', band(g, b[1]), b[2], None) for b in brk]); return out + [('fall', gg, self.state, None)]
                saved = [('fall', band(g, b[1]), b[2], None) for b in brk]
                gg = self.join([('fall', band(g, x[1]), x[2], None) for x in cont])
                if inc is not None: self.ev(inc)
                rest = self.loop(s, gg, cond, inc, var)
                falls = saved + [x for x in rest if x[0] == 'fall']
                out += [x for x in rest if x[0] != 'fall']
                gg = self.join(falls)
                return out + [('fall', gg, self.state, None)]
            if not cont: return out
            g = self.join([('fall', band(g, x[1]), x[2], None) for x in cont])
            if inc is not None: self.ev(inc)
        raise AnalysisBroken('loop does not unroll within %d iterations at line %s' % (self.unroll, s.get('l')))

    peel = 0

    def peeled(self, s, g, c, cond, inc, var, start):
        """a loop whose exits are decided by constants after a few symbolic tests: nested gating instead of a summary"""
        if self.peel <= 0: return None
        self.peel -= 1
        try:
            s0 = self.state; base = len(self.path); ev0 = len(self.events)
            self.state = s0.copy(); self.path.append((c, True))
            comps = self.exec(s['body'], TRUE)
            out = [(x[0], band(g, band(c, x[1])), x[2], x[3]) for x in comps if x[0] in ('ret', 'throw')]
            falls = [('fall', band(c, x[1]), x[2], None) for x in comps if x[0] == 'break']
            cont = [x for x in comps if x[0] in ('fall', 'continue')]
            ok = True
            if cont:
                gg = self.join([('fall', x[1], x[2], None) for x in cont])
                if inc is not None: self.ev(inc)
                if var is not None: self.declare(var)
                c2 = self.cond(cond)
                if c2 is BOT: pass
                elif isnum(c2) and not c2.a[0]: falls.append(('fall', band(c, gg), self.state, None))
                else:
                    r = self.peeled(s, gg, c2, cond, inc, var, start) if not isnum(c2) else self.loop(s, gg, cond, inc, var)
                    if r is None: ok = False
                    else:
                        out += [(x[0], band(g, band(c, x[1])), x[2], x[3]) for x in r if x[0] != 'fall']
                        falls += [('fall', band(c, x[1]), x[2], None) for x in r if x[0] == 'fall']
            seg = self.path[base:]; del self.path[base:]
            if not ok:
                self.state = s0; del self.events[ev0:]; return None
            self.keep_nothrow(seg)
            falls.append(('fall', bnot(c), s0, None))
            st = falls[-1][2]
            for x in reversed(falls[:-1]): st = self.merge(x[1], x[2], st)
            self.state = st
            gf = bnot(c)
            for x in falls[:-1]: gf = bor(gf, x[1])
            return out + [('fall', band(g, gf), st, None)]
        finally: self.peel += 1

    after_loop = ()        # what holds after loops that were summarised: their condition is false

    def generic_loop(self, s, g, cond, inc, bind, tag):
        if self.after_loop == (): self.after_loop = []
        self.unmodelled.add('loop')
        lid = '%s:%d' % (rel(self.frames[-1].fn.file), s.get('l', 0)) if self.frames else str(s.get('l'))
        def once(collect):
            base = len(self.path)
            self.path.append(('loop', tag if tag else lid))
            if bind: bind()
            c = TRUE
            if cond is not None:
                c = self.cond(cond)
                self.path.append((c, True))
            comps = self.exec(s['body'], TRUE)
            cont = [x for x in comps if x[0] in ('fall', 'continue')]
            if cont:
                self.join([('fall', x[1], x[2], None) for x in cont])
                if inc is not None: self.ev(inc)
            del self.path[base:]
            return comps, c
        s0 = self.state; ev0 = len(self.events); env0 = dict(self.frames[-1].env)
        self.state = s0.copy()
        comps, _ = once(False)
        changed = [k for k, v in self.state.mem.items() if k in s0.mem and s0.mem[k] is not v]
        for x in comps:
            if x[0] == 'break': changed += [k for k, v in x[2].mem.items() if k in s0.mem and s0.mem[k] is not v and k not in changed]
        del self.events[ev0:]
        self.frames[-1].env = dict(env0)
        # second pass, from havocked state; repeat until stable set
        for _ in range(4):
            st = s0.copy(); marks = {}
            for k in changed:
                marks[k] = mk('loopvar', lid, str(k), s0.mem[k]); st.mem[k] = marks[k]
            self.state = st
            comps, c = once(True)
            ch2 = [k for k, v in self.state.mem.items() if k in s0.mem and (v is not (marks[k] if k in marks else s0.mem[k])) and k not in marks]
            for x in comps:
                if x[0] == 'break': ch2 += [k for k, v in x[2].mem.items() if k in s0.mem and k not in marks and k not in ch2 and v is not s0.mem[k]]
            if not ch2: break
            changed += ch2
            del self.events[ev0:]; self.frames[-1].env = dict(env0)
        final = s0.copy()
        for k in changed:
            v = self.state.mem[k]
            final.mem[k] = mk('mu', lid, str(k), s0.mem[k], v) if v is not marks[k] else s0.mem[k]
        brk = [x for x in comps if x[0] == 'break']
        self.loops[lid] = (c, [b[1] for b in brk])
        if not brk and c is not TRUE: self.after_loop.append(bnot(subst(c, {marks[k]: final.mem[k] for k in changed})))
        for b in brk:
            for k in changed:
                v = b[2].mem.get(k)
                if v is not None and v is not marks[k] and v is not self.state.mem[k]:
                    final.mem[k] = mk('mubrk', lid, final.mem[k], v, b[1])
        out = []
        for x in comps:
            if x[0] in ('ret', 'throw'):
                out.append((x[0], band(g, mk('loopexit', lid, x[1])), x[2], x[3]))
        for k, v in self.state.mem.items():
            if k not in final.mem: final.mem[k] = v
        self.state = final
        return out + [('fall', g, final, None)]

    def x_Throw(self, s, g):
        self.ev(s)
        return [('throw', g, self.state, None)]

    exact_try = False      # only the throw statements that are analysed can throw inside a try block

    def catches(self, h, name):
        if 'var' not in h: return True
        t = self.tu.type(h['var']['t'])['s'].replace('const', '').replace('&', '').strip()
        if t in ('std::exception', 'exception'): return True
        fam = {'std::logic_error': ('std::out_of_range', 'std::invalid_argument', 'std::domain_error', 'std::length_error'), 'std::runtime_error': ('std::range_error', 'std::overflow_error', 'std::system_error')}
        return t == name or name in fam.get(t, ())

    def x_Try(self, s, g):
        s0 = self.state.copy()
        base = len(self.path)
        ev0 = len(self.events)
        comps = self.exec(s['body'], TRUE)
        del self.path[base:]
        thrown = None
        if self.exact_try:
            thrown = []
            for e in self.events[ev0:]:
                if e.kind != 'throw': continue
                if any(isinstance(x[0], str) and x[0] != 'nothrow' for x in e.guards[base:]): thrown = None; break
                gd = TRUE
                for c, pol in e.guards[base:]: gd = band(gd, bnot(pol) if c == 'nothrow' else c if pol else bnot(c))
                thrown.append((gd, e.name))
            if thrown is not None:
                for gd, nm in thrown:
                    if not any(self.catches(h, nm) for h in s['handlers']): self.path.append(('nothrow', gd)); base += 1
                self.events[ev0:] = [e for e in self.events[ev0:] if e.kind != 'throw' or not any(self.catches(h, e.name) for h in s['handlers'])]
        earlier = FALSE
        out = [x for x in comps if x[0] != 'throw']
        hs = []
        for h in s['handlers']:
            cid = mk('caught', '%s' % (self.tu.type(h['var']['t'])['s'] if 'var' in h else '...'), s.get('l', 0))
            if thrown is not None:
                cid = FALSE
                for gd, nm in thrown:
                    if self.catches(h, nm): cid = bor(cid, gd)
                cid = band(cid, bnot(earlier)); earlier = bor(earlier, cid)
                if isnum(cid) and not cid.a[0]: continue
            self.state = s0.copy()
            # anything the try block may have modified is unknown in the handler
            for c in comps:
                for k, v in c[2].mem.items():
                    if k in s0.mem and s0.mem[k] is not v: self.state.mem[k] = mk('partial', s0.mem[k], v)
            self.path.append((cid, True))
            if 'var' in h: self.frames[-1].env[h['var']['id']] = self.alloc(mk('exc', self.tu.type(h['var']['t'])['s']))
            hc = self.exec(h['body'], cid)
            seg = self.path[base:]; del self.path[base:]
            if thrown is not None:
                n = len(self.path); self.keep_nothrow(seg); base += len(self.path) - n
            hs += hc
        # completions: handlers first (guarded), the normal body last
        res = [(x[0], band(g, x[1]), x[2], x[3]) for x in hs] + [(x[0], band(g, x[1]), x[2], x[3]) for x in out]
        return res

    def x_Switch(self, s, g):
        if 'init' in s: self.exec(s['init'], g)
        v = self.rv(self.ev(s['cond']))
        items = []  # (labels, stmts)
        flat = []
        def flatten(st):
            if st is None: return
            if st['k'] == 'Case': flat.append(('case', st['v'])); flatten(st['s'])
            elif st['k'] == 'Default': flat.append(('default', None)); flatten(st['s'])
            else: flat.append(('stmt', st))
        for st in s['body']['c']: flatten(st)
        starts = []
        for i, (k, x) in enumerate(flat):
            if k == 'case': starts.append((cmp_('==', v, self.rv(self.ev(x))), i))
        di = next((i for i, (k, _) in enumerate(flat) if k == 'default'), None)
        neg = TRUE
        for c, _ in starts: neg = band(neg, bnot(c))
        if di is not None: starts.append((neg, di))
        else: starts.append((neg, len(flat)))
        s0 = self.state; out = []; keep = []
        base = len(self.path)
        for c, i in starts:
            if isnum(c) and not c.a[0]: continue
            self.state = s0.copy()
            if not isnum(c): self.path.append((c, True))
            comps = self.seq([x for k, x in flat[i:] if k == 'stmt'], c)
            seg = self.path[base:]; del self.path[base:]
            keep.append(seg)
            out += [(('fall' if x[0] == 'break' else x[0]), band(g, x[1]), x[2], x[3]) for x in comps]
            if isnum(c): break
        for seg in keep: self.keep_nothrow(seg)
        falls = [x for x in out if x[0] == 'fall']; rest = [x for x in out if x[0] != 'fall']
        if falls:
            gg = self.join(falls); rest.append(('fall', gg, self.state, None))
        return rest

    def x_OtherStmt(self, s, g):
        for c in s.get('c', []): 
            if c: self.exec(c, g)
        return [('fall', g, self.state, None)]

    # ---------------------------------------------------------------- expressions
    def ev(self, e):
        if e is None: return VOID
        self.steps += 1
        if self.steps > self.budget: raise AnalysisBroken('value-graph budget exceeded')
        m = getattr(self, 'e_' + e['k'], None)
        if m is None: return mk('unk', e['k'], e.get('l', 0))
        return m(e)

    def e_Int(self, e): return num(int(e['v']))
    def e_Float(self, e):
        v = e['v']
        try: return num(Q(repr(float(v))))       # the shortest decimal that denotes this double
        except (ValueError, OverflowError): return mk('fconst', v)
    def e_Str(self, e): return st(e['v'])
    def e_Nullptr(self, e): return mk('nullptr')
    def e_Load(self, e): return self.rv(self.ev(e['e']))
    def e_Temp(self, e): return self.lv(self.ev(e['e']))
    def e_DefArg(self, e): return self.ev(e['e'])
    def e_DefInit(self, e): return self.ev(e['e'])
    def e_SizeOf(self, e): return mk('sizeof', self.tu.ts(e['at']))
    def e_OffsetOf(self, e): return mk('offsetof', e['rec'], e['f'])
    def e_ZeroInit(self, e): return self.default_value(self.tu.type(e['t']))
    def e_StdInitList(self, e): return self.rv(self.ev(e['e']))
    def e_ArrayInit(self, e): return self.rv(self.ev(e['e']))
    def e_PseudoDtor(self, e): return VOID

    def e_Decay(self, e):
        x = self.ev(e['e'])
        if isinstance(x, LV): return mk('ptr', x.loc, x.path + (('i', ZERO),))
        if x.op == 'str': return x
        l = self.alloc(x); return mk('ptr', l.loc, l.path + (('i', ZERO),))

    def e_This(self, e):
        th = self.frames[-1].this
        if th is None: return mk('sym', 'this')
        return self.ptr(th)

    def e_Ref(self, e):
        env = self.frames[-1].env
        if e['id'] in env: return env[e['id']]
        if e['dk'] == 'fn': return mk('fnref', e['id'], e['n'])
        if e['dk'] in ('global', 'static'):
            key = ('global', e['id'])
            if key not in self.state.mem:
                g = self.tu.globals.get(e['id'])
                v = None
                if g and 'init' in g and (g.get('constexpr') or self.tu.type(g['t']).get('c')):
                    v = self.rv(self.ev(g['init']))
                elif g and 'init' in g and self.tu.type(g['t'])['k'] == 'lambda':
                    v = self.rv(self.ev(g['init']))
                    if v.op != 'clo' or v.a[1]: v = None
                self.state.mem[key] = v if v is not None else mk('sym', '::' + e['n'])
            return LV(key)
        # captured/outer variable not bound: symbolic
        key = ('free', e['id'])
        if key not in self.state.mem: self.state.mem[key] = mk('sym', e['n'])
        return LV(key)

    def e_Member(self, e):
        b = self.ev(e['e'])
        if e.get('fn'): return mk('bound', e['n'])
        if e.get('arrow'): b = self.deref(self.rv(b))
        if isinstance(b, LV):
            lv = b.ext(('f', e['n']))
            v = self.load(lv)
            if v.op == 'refto': return LV(v.a[0], v.a[1])
            return lv
        v = select(b, ('f', e['n']))
        if v.op == 'refto': return LV(v.a[0], v.a[1])
        return v

    def e_Sub(self, e):
        a = self.rv(self.ev(e['a'])); i = self.rv(self.ev(e['b']))
        return self.deref(self.padd(a, i))

    def padd(self, p, i):
        if p.op == 'ptr':
            path = p.a[1]
            if path and path[-1][0] == 'i': return mk('ptr', p.a[0], path[:-1] + (('i', arith('+', path[-1][1], i)),))
            return mk('ptr', p.a[0], path + (('i', i),))
        if isnum(i) and i.a[0] == 0 and p.op != 'num': return p
        return mk('padd', p, i)

    def e_Cast(self, e):
        x = self.ev(e['e']); ck = e['ck']
        if ck in ('UncheckedDerivedToBase', 'DerivedToBase', 'BaseToDerived', 'NoOp', 'BitCast', 'LValueBitCast'):
            return x
        if ck in ('IntegralCast', 'IntegralToFloating', 'FloatingCast', 'BooleanToSignedIntegral'): return self.rv(x)
        if ck in ('FloatingToIntegral',):
            v = self.rv(x)
            if isnum(v): return num(int(v.a[0]))
            return mk('trunc', v)
        if ck in ('IntegralToBoolean', 'FloatingToBoolean'):
            v = self.rv(x)
            if isnum(v): return num(1 if v.a[0] else 0)
            return v if v.op in ('<', '<=', '==', '!', '&&', '||') else bnot(cmp_('==', v, ZERO))
        if ck == 'PointerToBoolean':
            v = self.rv(x)
            return bnot(cmp_('==', v, mk('nullptr')))
        if ck == 'NullToPointer': return mk('nullptr')
        if ck == 'ToVoid': return VOID
        return self.rv(x)

    def e_Bin(self, e):
        op = e['op']
        if op == ',': self.ev(e['a']); return self.ev(e['b'])
        if op == '&&':
            a = self.tobool(self.rv(self.ev(e['a'])))
            if isnum(a) and not a.a[0]: return FALSE
            b = self.guarded(a, True, lambda: self.tobool(self.rv(self.ev(e['b']))))
            return band(a, b)
        if op == '||':
            a = self.tobool(self.rv(self.ev(e['a'])))
            if isnum(a) and a.a[0]: return TRUE
            b = self.guarded(a, False, lambda: self.tobool(self.rv(self.ev(e['b']))))
            return bor(a, b)
        a = self.rv(self.ev(e['a'])); b = self.rv(self.ev(e['b']))
        return self.binop(op, a, b, self.tu.type(e['t']))

    def guarded(self, c, pol, f):
        if isnum(c): return f()
        s0 = self.state; self.state = s0.copy(); base = len(self.path)
        self.path.append((c, pol))
        v = f()
        seg = self.path[base:]; del self.path[base:]
        self.keep_nothrow(seg)
        self.state = self.merge(c if pol else bnot(c), self.state, s0)
        return v

    wrap = False           # unsigned differences below zero are taken modulo 2^64

    def binop(self, op, a, b, t):
        if op in ('+', '-') and (a.op == 'ptr' or t['k'] == 'ptr'):
            return self.padd(a, b if op == '+' else arith('-', ZERO, b))
        if op == '-' and b.op == 'ptr': return mk('pdiff', a, b)
        if a.op == 'ptr' and b.op == 'ptr' and op == '-': return arith('-', a.a[1][-1][1], b.a[1][-1][1])
        if self.wrap and (a is BOT or b is BOT): return BOT
        if self.wrap and op == '-' and t['k'] == 'uint' and isnum(a) and isnum(b) and a.a[0] < b.a[0]: return num(a.a[0] - b.a[0] + 2 ** 64)
        if op in ('+', '-', '*'): return arith(op, a, b)
        if op == '/': return intdiv(a, b) if t['k'] in ('int', 'uint', 'char', 'bool') else arith('/', a, b)
        if op in ('<', '<=', '>', '>=', '==', '!='): return cmp_(op, a, b)
        return bitop(op, a, b)

    def e_Assign(self, e):
        op = e['op']
        if op == '=':
            b = self.rv(self.ev(e['b'])); a = self.ev(e['a'])
            a = self.lv(a)
            self.store(a, b); return a
        b = self.rv(self.ev(e['b']))
        a = self.lv(self.ev(e['a']))
        self.store(a, self.binop(op[:-1], self.load(a), b, self.tu.type(e['t'])))
        return a

    def e_Un(self, e):
        op = e['op']; x = self.ev(e['e'])
        if op == '*': return self.deref(self.rv(x))
        if op == '&' and isinstance(x, T) and x.op == 'fnref': return x
        if op == '&': return self.ptr(self.lv(x))
        if op in ('++', '--'):
            a = self.lv(x); old = self.load(a); t = self.tu.type(e['t'])
            d = ONE
            nv = self.padd(old, d if op == '++' else num(-1)) if (old.op == 'ptr' or t['k'] == 'ptr') else arith('+' if op == '++' else '-', old, ONE)
            self.store(a, nv)
            return old if e.get('post') else a
        v = self.rv(x)
        if op == '-': return num(-v.a[0]) if isnum(v) else mk('neg', v)
        if op == '+': return v
        if op == '!': return bnot(self.tobool(v))
        return mk(op, v)

    def e_Cond(self, e):
        c = self.cond(e['c'])
        if isnum(c): return self.ev(e['a'] if c.a[0] else e['b'])
        s0 = self.state; base = len(self.path)
        self.state = s0.copy(); self.path.append((c, True)); a = self.ev(e['a']); s1 = self.state
        av = a if isinstance(a, LV) else a
        ta = self.rv(a); seg1 = self.path[base:]; del self.path[base:]
        self.state = s0.copy(); self.path.append((c, False)); b = self.ev(e['b']); s2 = self.state
        tb = self.rv(b); seg2 = self.path[base:]; del self.path[base:]
        self.keep_nothrow(seg1); self.keep_nothrow(seg2)
        if ta is BOT and tb is not BOT: self.state = s2; return b        # the other alternative throws
        if tb is BOT and ta is not BOT: self.state = s1; return a
        self.state = self.merge(c, s1, s2)
        if isinstance(a, LV) and isinstance(b, LV) and a.loc == b.loc and a.path == b.path: return a
        r = ite(c, ta, tb)
        if isinstance(a, LV) and isinstance(b, LV): return self.alloc(r)
        return r

    def e_Throw(self, e):
        v = self.rv(self.ev(e['e'])) if e.get('e') else mk('rethrow')
        self.event('throw', v.a[0] if v.op == 'new' else v.op, (v,), e)
        return BOT

    def e_New(self, e):
        v = self.rv(self.ev(e['init'])) if e.get('init') else self.default_value(self.tu.types[self.tu.type(e['t'])['p']])
        l = self.alloc(v)
        if e.get('array'): return mk('ptr', l.loc, (('i', ZERO),))
        return self.ptr(l)

    def e_Delete(self, e):
        v = self.rv(self.ev(e['e'])); self.event('delete', 'delete', (v,), e); return VOID

    def e_InitList(self, e):
        t = self.tu.type(e['t'])
        if t['k'] == 'array' :
            import re
            vals = [self.rv(self.ev(c)) if c else ZERO for c in e['c']]
            m = re.search(r'\[(\d+)\]', t['s'])
            if m and len(vals) < int(m.group(1)) <= 64:
                vals += [self.default_value(self.tu.types[t['p']])] * (int(m.group(1)) - len(vals))
            return mk('arr', *vals)
        if t['k'] == 'rec':
            r = self.tu.records.get(t['rec']); fs = []
            names = e.get('fields', [])
            for n, c in zip(names, e['c']):
                if n == '<base>':
                    b = self.rv(self.ev(c))
                    if b.op == 'rec': fs += list(b.a[1])
                    else: fs.append(('*', b))
                    continue
                f = next((f for f in r['fields'] if f['name'] == n), None) if r else None
                x = self.ev(c)
                if f and self.tu.type(f['t'])['k'] in ('lref', 'rref'):
                    lv = self.lv(x); fs.append((n, mk('refto', lv.loc, lv.path)))
                else: fs.append((n, self.rv(x)))
            return mk('rec', t['rn'], tuple(fs))
        if len(e['c']) == 1: return self.ev(e['c'][0])
        if not e['c']: return self.default_value(t)
        return mk('initlist', *[self.rv(self.ev(c)) for c in e['c']])

    def e_Lambda(self, e):
        caps = []
        env = self.frames[-1].env
        for c in e['caps']:
            if 'this' in c:
                th = self.frames[-1].this
                if th is None: continue
                if c['this'] == 'copy': th = self.alloc(self.load(th))
                caps.append(('this', th.loc, th.path))
            elif c.get('initcap') and c['id'] not in env:    # (a capture of an enclosing init-capture is an ordinary one)
                x = self.ev(c['init'])
                if c['by'] == 'ref': lv = self.lv(x); caps.append((c['id'], 'r', lv.loc, lv.path))
                else: caps.append((c['id'], 'v', self.rv(x)))
            elif 'id' in c:
                lv = env.get(c['id'])
                if lv is None: lv = self.e_Ref({'id': c['id'], 'dk': 'local', 'n': c['name']})
                if c['by'] == 'ref': caps.append((c['id'], 'r', lv.loc, lv.path))
                else: caps.append((c['id'], 'v', self.load(lv)))
        call = e.get('call')
        insts = tuple(e.get('insts', ()))
        self.lamnodes = getattr(self, 'lamnodes', {})
        self.lamnodes[e['lam']] = (e, self.frames[-1].fn)
        return mk('clo', e['lam'], tuple(caps), call, insts)

    # ---------------------------------------------------------------- calls
    def e_Construct(self, e):
        t = self.tu.type(e['t'])
        args = e['args']
        if (e.get('copy') or e.get('move')) and len(args) == 1 and (e.get('implicit') or e.get('f') not in self.tu.funcs or 'body' not in self.tu.funcs[e['f']].d):
            x = self.rv(self.ev(args[0]))
            if e.get('move') : self.event('move', t.get('rn', t['s']), (x,), e) if False else None
            return x
        fn = self.tu.funcs.get(e.get('f'))
        if t.get('rn') in self.cfirst:
            m = self.cmodels[t['rn']](self, e, t, [self.ev(x) for x in args])
            if m is not None: return m
        if fn is not None and 'body' in fn.d and not self.is_opaque(fn):
            a = [self.frames[-1].env[q['id']] for q in self.frames[-1].fn.d['params']] if e.get('inherit') else [self.ev(x) for x in args]
            if self.depth_ok(fn):
                obj = self.alloc(mk('undef', 'obj', e.get('l', 0)))
                r = self.call(fn, a, obj, e)
                if r is BOT: return BOT
                return self.load(obj)
        rn = t.get('rn', t['s'])
        if rn in self.cmodels:
            a = [self.ev(x) for x in args]
            m = self.cmodels[rn](self, e, t, a)
            if m is not None: return m
            args = []; return self.construct_std(e, t, rn, a)
        if not args and not e.get('list'):
            r = self.tu.records.get(t.get('rec'))
            return self.default_value(t)
        if not args: return self.default_value(t)
        return self.construct_std(e, t, rn, [self.ev(x) for x in args])

    def construct_std(self, e, t, rn, a):
        if not a: return self.default_value(t)
        m = self.std_construct(rn, t, e, a)
        if m is not None: return m
        v = [self.rv(x) for x in a]
        self.havoc_closures(v, e)
        res = mk('new', rn, tuple(v))
        self.event('construct', rn, tuple(v), e, res, argv=a)
        for i in e.get('outs', []):
            if i < 100 and i < len(a) and isinstance(a[i], LV): self.store(a[i], mk('out', res, i))
        return res

    def node_type(self, n):
        while isinstance(n, dict) and 't' not in n and isinstance(n.get('e'), dict): n = n['e']
        return self.tu.strip_ref(n.get('t', -1))

    def variant_alt(self, t, e):
        """index of the alternative a std::variant is constructed with"""
        r = self.tu.records.get(t.get('rec')); alts = split_targs(r.get('targs', '')) if r else []
        at = self.node_type(e['args'][0]) if e.get('args') else {'s': ''}
        n = e['args'][0] if e.get('args') else {}
        while isinstance(n, dict) and n.get('k') in ('Temp', 'Load', 'Paren', 'Cast', 'Decay') and isinstance(n.get('e'), dict): n = n['e']
        if at['s'] in ('', '?') and n.get('k') in ('Float', 'Int'): at = {'s': {'Float': 'double', 'Int': 'int'}[n['k']]}
        if n.get('k') == 'Str' or at['s'].replace('const', '').replace(' ', '') == 'char*' or at['s'].startswith('const char['):
            hits = [i for i, x in enumerate(alts) if 'basic_string<char' in x]
            if len(hits) == 1: return hits[0]
        clean = lambda x: x.replace('const ', '').replace(' ', '').rstrip('&')
        hits = [i for i, x in enumerate(alts) if clean(x) == clean(at['s'])]
        if len(hits) == 1: return hits[0]
        hits = [i for i, x in enumerate(alts) if ('shared_ptr<' in x) == ('shared_ptr<' in at['s'])]
        if at['s'] not in ('', '?') and len(hits) == 1: return hits[0]
        return None

    def std_construct(self, rn, t, e, a):
        if rn == 'std::variant' and len(a) == 1 and not e.get('copy') and not e.get('move'):
            v = self.rv(a[0])
            if not is_variant(v):
                k = self.variant_alt(t, e)
                if k is not None: return mk('rec', 'std::variant', (('index', num(k)), ('alt', v)))
        if rn == 'std::optional' and not e.get('copy') and not e.get('move'):
            if not a: return mk('rec', 'std::optional', (('has', FALSE), ('val', mk('undef', 'optional'))))
            v = self.rv(a[0])
            if v.op == 'rec' and v.a[0] == 'std::optional': return v
            if 'nullopt' in self.node_type(e['args'][0])['s']: return mk('rec', 'std::optional', (('has', FALSE), ('val', mk('undef', 'optional'))))
            return mk('rec', 'std::optional', (('has', TRUE), ('val', v)))
        if rn in ('std::function', 'std::__cxx11::basic_string', 'std::basic_string', 'std::shared_ptr', 'std::optional', 'std::unique_ptr', 'std::variant', 'std::reference_wrapper', 'std::atomic', 'std::basic_string_view'):
            n = [x for x in a]
            # ignore allocator default args
            v = [self.rv(x) for x in n]
            v = [x for x in v if not (x.op == 'new' and 'allocator' in str(x.a[0]))]
            if len(v) == 1: return v[0]
        if rn == 'std::pair' and len(a) == 2: return mk('rec', 'std::pair', (('first', self.rv(a[0])), ('second', self.rv(a[1]))))
        if rn == 'std::tuple' and not e.get('copy') and not e.get('move'):
            r = self.tu.records.get(t.get('rec')); n = len(split_targs(r.get('targs', ''))) if r else len(a)
            v = [self.rv(x) for x in a]
            if len(v) == n and not (n == 1 and v[0].op == 'tup'): return mk('tup', *[self.convert_tuple_elem(x, r, i) for i, x in enumerate(v)])
            if len(v) == 1 and v[0].op == 'tup':  # converting constructor
                return mk('tup', *[self.convert_tuple_elem(x, r, i) for i, x in enumerate(v[0].a)])
            if len(v) == 1: return v[0]
        if rn in ('std::vector', 'std::initializer_list') and len(a) >= 1:
            v = [self.rv(x) for x in a]
            v = [x for x in v if not (x.op == 'new' and 'allocator' in str(x.a[0]))]
            if len(v) == 1 and v[0].op == 'arr': return v[0]
        return None

    def convert_tuple_elem(self, v, r, i):
        # conversion double -> dimensional value inside a tuple
        ta = split_targs(r.get('targs', '')) if r else []
        if i < len(ta) and 'dimensional_value_t' in ta[i] and v.op not in ('rec',) and ta[i].startswith('mara::dimensional_value_t'):
            if v.op == 'fld' or v.op == 'sym' or v.op == 'ite' and 'rec' in show(v): return v
            return mk('rec', 'mara::dimensional_value_t', (('value', v),))
        return v

    def is_opaque(self, fn): return self.opaque(fn)

    def depth_ok(self, fn):
        if len(self.frames) >= self.maxdepth: return False
        return sum(1 for f in self.frames if f.fn is fn) < self.reclimit

    reclimit = 3

    def resolve(self, fid):
        fn = self.tu.funcs.get(fid)
        return fn

    def e_Call(self, e):
        name = e.get('n')
        if name is None: return self.indirect_call(e)
        short = name.split('::')[-1]
        fn = self.tu.funcs.get(e['f'])
        mdl = self.models.get(name)
        # closures
        if e.get('lam') is not None and e.get('obj') is not None:
            o = self.rv(self.ev(e['obj']))
            args = [self.ev(a) for a in e['args']]
            if o.op == 'clo' and fn is not None and 'body' in fn.d and self.depth_ok(fn):
                return self.call(fn, args, None, e, closure=o)
            return self.apply(o, args, e)
        obj = None; args = None
        if 'obj' in e:
            obj = self.ev(e['obj'])
            if e.get('arrow'): obj = self.deref(self.rv(obj))
        args = [self.ev(a) for a in e['args']]
        if mdl is not None:
            r = mdl(self, e, obj, args)
            if r is not None: return r
        if fn is not None and 'body' in fn.d and not self.is_opaque(fn) and self.depth_ok(fn):
            this = None
            if fn.get('kind') in ('method', 'conv', 'dtor', 'ctor') and not fn.get('smethod'): this = self.lv(obj) if obj is not None else None
            return self.call(fn, args, this, e)
        if e.get('op') == '=' and obj is not None and len(args) == 1 and (fn is None or 'body' not in fn.d) and not name.startswith('std::'):
            o = self.lv(obj); self.store(o, self.rv(args[0])); return o
        r = self.std_call(e, name, short, obj, args)
        if r is not None: return r
        return self.opaque_call(e, name, short, obj, args)

    def indirect_call(self, e):
        c = e.get('callee')
        args = [self.ev(a) for a in e['args']]
        if c is None: return mk('unk', 'call')
        f = self.ev(c)
        f = self.rv(f)
        return self.apply(f, args, e)

    def apply(self, f, args, e):
        """apply a function value"""
        if f.op == 'ite':
            # apply both alternatives
            base = len(self.path)
            s0 = self.state; self.state = s0.copy(); self.path.append((f.a[0], True)); a = self.rv(self.apply(f.a[1], args, e)); s1 = self.state; seg1 = self.path[base:]; del self.path[base:]
            self.state = s0.copy(); self.path.append((f.a[0], False)); b = self.rv(self.apply(f.a[2], args, e)); seg2 = self.path[base:]; del self.path[base:]
            self.keep_nothrow(seg1); self.keep_nothrow(seg2)
            self.state = self.merge(f.a[0], s1, self.state)
            return ite(f.a[0], a, b)
        if f.op == 'rec' and f.a[0] == 'std::_Bind':
            out = []
            for _, v in f.a[1][1:]:
                n = v.a[0] if v.op == 'sym' and isinstance(v.a[0], str) else ''
                out.append(args[int(n.rsplit('_', 1)[1]) - 1] if 'placeholders::_' in n else self.alloc(v))
            return self.apply_any(f.a[1][0][1], out, e)
        if f.op == 'clo':
            fn = self.clo_fn(f, args)
            if fn is not None and 'body' in fn.d and self.depth_ok(fn): return self.call(fn, args, None, e, closure=f)
        if f.op == 'fnref':
            fn = self.tu.funcs.get(f.a[0])
            if fn is not None:
                method = fn.get('kind') == 'method' and not fn.get('smethod')
                obj, rest = (args[0], args[1:]) if method and args else (None, args)
                m = self.models.get(f.a[1])
                if m is not None:
                    r = m(self, dict(e, f=f.a[0], n=f.a[1]), obj, rest)
                    if r is not None: return r
                if 'body' in fn.d and not self.is_opaque(fn) and self.depth_ok(fn): return self.call(fn, rest, self.lv(obj) if obj is not None else None, e)
            return self.opaque_call(e, f.a[1], f.a[1].split('::')[-1], None, args)
        v = tuple(self.rv(a) for a in args)
        self.havoc_closures(v, e)
        res = mk('apply', f, *v)
        self.event('apply', 'apply', (f,) + v, e, res, argv=args)
        return res

    def clo_fn(self, f, args):
        if f.a[2] is not None: return self.tu.funcs.get(f.a[2])
        ins = [self.tu.funcs[i] for i in f.a[3] if i in self.tu.funcs and 'body' in self.tu.funcs[i].d]
        ins = [x for x in ins if len(x.d['params']) == len(args)]
        if len(ins) > 1:
            vals = [self.rv(a) for a in args]
            fit = [x for x in ins if all(self.fits(v, self.tu.type(p['t'])) for v, p in zip(vals, x.d['params']))]
            if fit: ins = fit
        return ins[0] if ins else None

    def fits(self, v, t, depth=0):
        """can the value be one of this type (as far as function objects inside it tell)"""
        while t['k'] in ('lref', 'rref'): t = self.tu.types[t['p']]
        if v.op == 'clo': return t['k'] != 'lambda' or t['rec'] == v.a[0]
        if v.op == 'tabarr': return t['k'] != 'rec' or 'provider' not in (t.get('rn') or '') or 'shared_provider' in t['rn'] or 'unique_provider' in t['rn']
        if v.op == 'rec' and t['k'] == 'rec' and depth < 10:
            if t.get('rn') and v.a[0] != t['rn']: return False
            r = self.tu.records.get(t['rec'])
            if r is None: return True
            fs = {f['name']: f['t'] for f in r['fields']}
            return all(self.fits(x, self.tu.type(fs[n]), depth + 1) for n, x in v.a[1] if n in fs and isinstance(x, T))
        return True

    def havoc_closures(self, vals, e):
        """a closure handed to unknown code may run any number of times"""
        for v in vals:
            for c in ([v] if v.op == 'clo' else []):
                self.run_closure_abstractly(c, e)

    def run_closure_abstractly(self, c, e, args=None):
        key = ('clo', c.a[0])
        if self.lamcount.get(key, 0) > 0: return
        fns = [self.tu.funcs.get(c.a[2])] if c.a[2] is not None else [self.tu.funcs.get(i) for i in c.a[3]]
        fns = [f for f in fns if f is not None and 'body' in f.d]
        if not fns: return
        fn = fns[0]
        if not self.depth_ok(fn): return
        self.lamcount[key] = self.lamcount.get(key, 0) + 1
        base = len(self.path)
        self.path.append(('closure', c.a[0]))
        s0 = self.state; self.state = s0.copy()
        a = [mk('carg', c.a[0], i, p['name']) for i, p in enumerate(fn.d['params'])]
        a = [self.alloc(x) for x in a]
        try: self.call(fn, a, None, e, closure=c)
        finally:
            del self.path[base:]
            self.lamcount[key] -= 1
        fin = s0.copy()
        for k, v in self.state.mem.items():
            if k in s0.mem and s0.mem[k] is not v: fin.mem[k] = mk('mu', 'closure', str(k), s0.mem[k], v)
            elif k not in s0.mem: fin.mem[k] = v
        self.state = fin

    def std_call(self, e, name, short, obj, args):
        V = self.rv
        ns_std = name.startswith('std::') or '::' not in name
        op = e.get('op')
        if name in ('std::move', 'std::forward', 'std::as_const', 'std::ref', 'std::cref', 'std::addressof') and len(args) == 1:
            return args[0]
        if name in ('std::sqrt', 'sqrt') and len(args) == 1:
            v = V(args[0])
            return mk('sqrt', v)
        if name in ('std::pow', 'pow') and len(args) == 2: return mk('pow', V(args[0]), V(args[1]))
        if name in ('std::min', 'std::max', 'std::fmin', 'std::fmax', 'fmin', 'fmax') and len(args) == 2:
            a, b = V(args[0]), V(args[1])
            if self.tu.strip_ref(e['t']).get('rn') == 'mara::dimensional_value_t':
                a, b = select(a, ('f', 'value')), select(b, ('f', 'value'))
                return mk('rec', 'mara::dimensional_value_t', (('value', self.minmax('min' if 'min' in short else 'max', a, b)),))
            return self.minmax('min' if 'min' in short else 'max', a, b)
        if name in ('std::min', 'std::max') and len(args) == 1:
            v = V(args[0])
            if v.op == 'arr':
                r = v.a[0]
                for x in v.a[1:]: r = self.minmax(short, r, x)
                return r
        if name in ('std::abs', 'std::fabs', 'abs', 'fabs') and len(args) == 1:
            v = V(args[0])
            return num(abs(v.a[0])) if isnum(v) else mk('abs', v)
        if short in MATHFN and name in (short, 'std::' + short):
            return mk(short, *[V(a) for a in args])
        if name in ('std::isnan', 'std::isinf', 'std::isfinite'): return mk(short, V(args[0]))
        if name == 'std::variant::index' and obj is not None and is_variant(V(obj)): return select(V(obj), ('f', 'index'))
        if name.startswith('std::optional::') and obj is not None and is_optional(V(obj)):
            if short in ('has_value', 'operator bool'): return select(V(obj), ('f', 'has'))
            if short == 'value_or': return ite(select(V(obj), ('f', 'has')), select(V(obj), ('f', 'val')), V(args[0]))
            if short in ('value', 'operator*'): return obj.ext(('f', 'val')) if isinstance(obj, LV) else select(V(obj), ('f', 'val'))
        if name == 'std::get' and len(args) == 1:
            ta = e.get('ta', '')
            idx = ta.split(',')[0].strip().rstrip('UL')
            x = args[0]
            if idx.isdigit() and is_variant(V(x)):
                k = select(V(x), ('f', 'index'))
                if isnum(k) and k.a[0] != int(idx): return BOT
                return x.ext(('f', 'alt')) if isinstance(x, LV) else select(V(x), ('f', 'alt'))
            if idx.isdigit():
                t = self.type_of_get(e)
                i = int(idx)
                v = V(x)
                fldname = i
                if v.op == 'rec' and v.a[0] == 'std::pair' or 'pair' in e.get('gt', ''): fldname = ('first', 'second')[i]
                if v.op == 'arr': return x.ext(('i', num(i))) if isinstance(x, LV) else select(v, ('i', num(i)))
                y = select(v, ('f', fldname))
                if y.op == 'refto': return LV(y.a[0], y.a[1])
                if isinstance(x, LV): return x.ext(('f', fldname))
                return y
            return mk('getT', V(x), ta)
        if name in ('std::make_tuple', 'std::tuple_cat', 'std::forward_as_tuple', 'std::tie') and short == 'make_tuple': return mk('tup', *[V(a) for a in args])
        if name == 'std::make_pair': return mk('rec', 'std::pair', (('first', V(args[0])), ('second', V(args[1]))))
        if name in ('std::make_shared', 'std::make_unique'):
            t = self.tu.type(e['t'])
            v = tuple(V(a) for a in args)
            if len(v) == 1: l = self.alloc(v[0])
            else: l = self.alloc(mk('new', 'shared', v) if v else mk('new', t['s'], (num(next(self.counter)),)))
            return self.ptr(l)
        if name.startswith('std::') and op in ('+', '-', '*', '/', '<', '<=', '>', '>=', '==', '!=') and obj is None and len(args) == 2:
            a, b = V(args[0]), V(args[1])
            if op in ('<', '<=', '>', '>=', '==', '!='): return cmp_(op, a, b)
            if op == '+' and 'basic_string' in self.tu.ts(e['t']): 
                if a.op == 'str' and b.op == 'str': return st(a.a[0] + b.a[0])
                return mk('cat', a, b)
        # functors
        if short == 'operator()' and obj is not None:
            rec = name[:-len('::operator()')]
            fo = {'std::plus': '+', 'std::minus': '-', 'std::multiplies': '*', 'std::divides': '/', 'std::less': '<', 'std::greater': '>', 'std::less_equal': '<=', 'std::greater_equal': '>=', 'std::equal_to': '==', 'std::not_equal_to': '!=', 'std::logical_and': '&&', 'std::logical_or': '||'}.get(rec)
            if fo and len(args) == 2:
                return self.generic_op(fo, args[0], args[1], e)
            if rec == 'std::negate': return mk('neg', V(args[0]))
            if rec == 'std::function': return self.apply(V(obj), args, e)
        if name.startswith('std::') and obj is not None:
            if short in ('operator*', 'operator->', 'get') and ('ptr' in name or 'optional' in name):
                p = V(obj)
                if short == 'operator*':
                    return self.deref(p) if 'optional' not in name else obj
                return p if 'optional' not in name else (self.ptr(obj) if isinstance(obj, LV) else self.ptr(self.lv(obj)))
            if short == 'value' and 'optional' in name: return obj
            if short in ('has_value', 'operator bool') and 'optional' in name: return mk('has', V(obj))
            if short == 'operator bool' and 'ptr' in name: return bnot(cmp_('==', V(obj), mk('nullptr')))
            if short == 'operator bool' and 'function' in name:
                v = V(obj)
                return TRUE if v.op == 'clo' else mk('has', v)
            if short in ('operator[]', 'at') and ('array' in name) and args:
                i = V(args[0]); p = (('f', '_M_elems'), ('i', i))
                if isinstance(obj, LV): return obj.ext(*p)
                return select(select(obj, p[0]), p[1])
            if short in ('begin', 'data', 'end') and 'std::array' in name and isinstance(obj, LV):
                n = self.load(obj.ext(('f', '_M_elems')))
                k = ZERO if short != 'end' else (num(len(n.a)) if n.op == 'arr' else mk('size', n))
                return mk('ptr', obj.loc, obj.path + (('f', '_M_elems'), ('i', k)))
            if short == 'operator[]' or short == 'at':
                i = V(args[0])
                if short == 'at': self.event('call', name, (V(obj), i), e, None, obj)
                if isinstance(obj, LV): return obj.ext(('i', i))
                return self.alloc(select(obj, ('i', i)))
            if short == 'operator=' and len(args) == 1:
                v = V(args[0])
                o = self.lv(obj)
                if 'basic_string' in name or 'function' in name or 'vector' in name or 'map' in name or 'tuple' in name or 'pair' in name or 'ptr' in name or 'optional' in name or 'variant' in name or 'array' in name or 'atomic' in name:
                    if 'tuple' in name and v.op == 'tup' and self.load(o).op == 'tup' and len(self.load(o).a) == len(v.a): pass
                    self.event('assign', name, (v,), e, None, o)
                    self.store(o, v); return o
            if short in ('size',) and V(obj).op == 'arr': return num(len(V(obj).a))
            if short in ('begin', 'end') and 'initializer_list' in name and V(obj).op == 'arr':
                o = self.lv(obj); return mk('ptr', o.loc, o.path + (('i', ZERO if short == 'begin' else num(len(V(obj).a))),))
            if short in ('front', 'back') and isinstance(obj, LV): return obj.ext(('i', mk(short)))
            if short in ('front', 'back'): return self.alloc(select(obj, ('i', mk(short))))
            if short in ('emplace_back', 'push_back') and isinstance(obj, LV):
                v = [V(a) for a in args]
                self.event('call', name, (V(obj),) + tuple(v), e, None, obj, argv=args)
                old = self.load(obj)
                if old.op == 'arr' and len(v) == 1 and len(old.a) < 64: self.store(obj, mk('arr', *(old.a + (v[0],))))
                elif old.op == 'new' and old.a[0] == 'std::vector' and not old.a[1] and len(v) == 1: self.store(obj, mk('arr', v[0]))
                else: self.store(obj, mk('append', old, *v))
                return VOID
        if name in ('std::begin', 'std::end', 'std::cbegin', 'std::cend') and len(args) == 1 and isinstance(args[0], LV):
            x = self.load(args[0])
            if x.op == 'arr': return mk('ptr', args[0].loc, args[0].path + (('i', ZERO if short.endswith('begin') else num(len(x.a))),))
            f = self.method_of(e['args'][0], short.lstrip('c') if short.startswith('c') else short)
            if f is not None: return self.call(f, [], args[0], e)
        if name in ('std::find', 'std::adjacent_find') and len(args) >= 2:
            b, en = V(args[0]), V(args[1]); n = self.ptr_range(b, en)
            if n is not None:
                r = en
                if name == 'std::find':
                    for i in reversed(range(n)): r = ite(cmp_('==', self.load(self.deref(self.padd(b, num(i)))), V(args[2])), self.padd(b, num(i)), r)
                else:
                    for i in reversed(range(n - 1)):
                        x, y = self.deref(self.padd(b, num(i))), self.deref(self.padd(b, num(i + 1)))
                        t = self.rv(self.apply_any(V(args[2]), [x, y], e)) if len(args) > 2 else self.generic_op('==', x, y, e)
                        r = ite(t, self.padd(b, num(i)), r)
                return r
        if name in ('std::forward_as_tuple', 'std::tie'):
            l = [self.lv(a) for a in args]
            return mk('tup', *[mk('refto', x.loc, x.path) for x in l])
        if name == 'std::size' and len(args) == 1 and V(args[0]).op == 'arr': return num(len(V(args[0]).a))
        if name in ('std::accumulate',) and len(args) >= 3:
            b, en = V(args[0]), V(args[1])
            n = self.ptr_range(b, en)
            if n is not None:
                acc = V(args[2])
                for i in range(n):
                    x = self.deref(self.padd(b, num(i)))
                    acc = self.rv(self.apply_any(V(args[3]), [self.alloc(acc), x], e)) if len(args) > 3 else arith('+', acc, self.load(x))
                if self.tu.ts(e['t']) in ('int', 'unsigned int') and 'long' in self.tu.ts(e['args'][0].get('t', e['t'])): return mk('int32', acc)   # the running value is truncated
                return acc
        if name == 'std::swap' and len(args) == 2 and isinstance(args[0], LV) and isinstance(args[1], LV):
            a, b = self.load(args[0]), self.load(args[1]); self.store(args[0], b); self.store(args[1], a); return VOID
        if name == 'std::exchange' and len(args) == 2 and isinstance(args[0], LV):
            a = self.load(args[0]); self.store(args[0], V(args[1])); return a
        if name in ('std::visit',): return None
        if name == 'std::bind' and args: return mk('rec', 'std::_Bind', tuple((i, V(a)) for i, a in enumerate(args)))
        if name == 'std::mem_fn' and args and V(args[0]).op == 'fnref': return V(args[0])
        if name in ('std::_Bind::operator()', 'std::_Mem_fn_base::operator()', 'std::_Mem_fn::operator()') and obj is not None:
            f = self.rv(obj)
            if f.op == 'fnref' or (f.op == 'rec' and f.a[0] == 'std::_Bind'): return self.apply_any(f, args, e)
        if name in ('std::apply', 'std::invoke') and args:
            f = V(args[0])
            if name == 'std::apply':
                t = V(args[1])
                if t.op == 'tup': return self.apply_any(f, [self.alloc(x) for x in t.a], e)
                if t.op == 'rec' and t.a[0] == 'std::pair': return self.apply_any(f, [self.alloc(x) for _, x in t.a[1]], e)
                if t.op in ('sym', 'fld', 'elem', 'call', 'each', 'carg'):
                    fn = self.clo_fn_any(f)
                    if fn is not None: return self.apply_any(f, [self.alloc(select(t, ('f', i))) for i in range(len(fn.d['params']))], e)
            else: return self.apply_any(f, args[1:], e)
        return None

    def method_of(self, node, short):
        """the member function `short` of the class type of an argument expression (used to see through std::begin etc.)"""
        t = self.tu.strip_ref(node['t']) if 't' in node else None
        if not t or t['k'] != 'rec': return None
        recs, todo = [], [t['rec']]
        while todo:
            r = self.tu.records.get(todo.pop())
            if not r: continue
            recs.append(r['id'] if 'id' in r else None)
            todo += [self.tu.type(b).get('rec') for b in r.get('bases', [])]
            for l in self.tu.by_name.get(r['n'] + '::' + short, []):
                if l.d.get('rec') in self.rec_ids(r) and 'body' in l.d and not l.d['params'] and bool(t.get('c')) == bool(l.d.get('const')): return l
            for l in self.tu.by_name.get(r['n'] + '::' + short, []):
                if l.d.get('rec') in self.rec_ids(r) and 'body' in l.d and not l.d['params']: return l
        return None

    def rec_ids(self, r): return [k for k, v in self.tu.records.items() if v is r]

    def clo_fn_any(self, f):
        if f.op != 'clo': return None
        if f.a[2] is not None: return self.tu.funcs.get(f.a[2])
        ins = [self.tu.funcs[i] for i in f.a[3] if i in self.tu.funcs and 'body' in self.tu.funcs[i].d]
        return ins[0] if ins else None

    def apply_any(self, f, args, e):
        if f.op == 'new' and isinstance(f.a[0], str):
            fo = {'std::plus': '+', 'std::minus': '-', 'std::multiplies': '*', 'std::divides': '/', 'std::logical_and': '&&', 'std::logical_or': '||', 'std::equal_to': '==', 'std::not_equal_to': '!=', 'std::less': '<', 'std::greater': '>', 'std::less_equal': '<=', 'std::greater_equal': '>='}.get(f.a[0])
            if fo: return self.generic_op(fo, args[0], args[1], e)
        return self.apply(f, args, e)

    def ptr_range(self, b, en):
        if b.op == 'ptr' and en.op == 'ptr' and b.a[0] == en.a[0] and b.a[1] and en.a[1] and b.a[1][:-1] == en.a[1][:-1]:
            x, y = b.a[1][-1][1], en.a[1][-1][1]
            if isnum(x) and isnum(y) and 0 <= int(y.a[0]) - int(x.a[0]) <= 64: return int(y.a[0]) - int(x.a[0])
        return None

    def type_of_get(self, e): return self.tu.type(e['t'])

    def minmax(self, op, a, b):
        # dimensional values compare through .value
        if a.op == 'rec' and b.op == 'rec' and a.a[0] == b.a[0] == 'mara::dimensional_value_t':
            return mk('rec', a.a[0], (('value', self.minmax(op, a.a[1][0][1], b.a[1][0][1])),))
        if isnum(a) and isnum(b): return num(min(a.a[0], b.a[0]) if op == 'min' else max(a.a[0], b.a[0]))
        if a is b: return a
        for x, y in ((a, b), (b, a)):
            if y.op == op and x in y.a: return y
        return mk(op, *sorted((a, b), key=lambda t: t.n))

    def generic_op(self, op, x, y, e):
        """std functor applied to operands; user-defined operators are looked up structurally"""
        a, b = self.rv(x), self.rv(y)
        D = 'mara::dimensional_value_t'
        av = a.a[1][0][1] if a.op == 'rec' and a.a[0] == D else None
        bv = b.a[1][0][1] if b.op == 'rec' and b.a[0] == D else None
        rt = self.tu.strip_ref(e['t'])
        if av is not None or bv is not None or rt.get('rn') == D:
            p = av if av is not None else (select(a, ('f', 'value')) if self.dimensional_like(a) else a)
            q = bv if bv is not None else (select(b, ('f', 'value')) if self.dimensional_like(b) else b)
            if op in ('+', '-', '*', '/'):
                r = arith(op, p, q)
                return mk('rec', D, (('value', r),)) if rt.get('rn') == D else r
            if op in ('<', '<=', '>', '>=', '==', '!='): return cmp_(op, p, q)
        if op in ('==', '!=') and a.op == b.op == 'rec' and a.a[0] == b.a[0]:
            from physics import leaves
            u, v = leaves(a), leaves(b)
            if len(u) == len(v):
                t = TRUE
                for p, q in zip(u, v): t = band(t, cmp_('==', p, q))
                return t if op == '==' else bnot(t)
        r = self.user_op(op, x, y, a, b, e)
        if r is not None: return r
        if op in ('+', '-', '*', '/'):
            if op == '/' and rt['k'] in ('int', 'uint'): return intdiv(a, b)
            return arith(op, a, b)
        if op == '&&': return band(a, b)
        if op == '||': return bor(a, b)
        return cmp_(op, a, b)

    def dimensional_like(self, t): return t.op in ('sym', 'fld', 'elem', 'call', 'apply', 'carg', 'each', 'deref') and False

    def user_op(self, op, x, y, a, b, e): return None

    def opaque_call(self, e, name, short, obj, args):
        v = [self.rv(a) for a in args]
        op = e.get('op')
        ov = self.rv(obj) if obj is not None else None
        allv = ([ov] if ov is not None else []) + v
        if op in ('+', '-', '*', '/') and len(allv) == 2 and 'basic_string' not in self.tu.ts(e['t']):
            self.havoc_closures(v, e)
            return arith(op, *allv)
        if op == '-' and len(allv) == 1: return mk('neg', allv[0])
        if op in ('<', '<=', '>', '>=', '==', '!=') and len(allv) == 2: return cmp_(op, *allv)
        self.havoc_closures(v, e)
        if not name.startswith('witness::'): self.unmodelled.add(name)
        ta = e.get('ta', '')
        res = mk('call', name, ta if len(ta) < 60 and 'lambda' not in ta else '', *allv)
        self.event('call', name, tuple(allv), e, res, obj, argv=args)
        for i in e.get('outs', []):
            if i < 100 and i < len(args) and isinstance(args[i], LV): self.store(args[i], mk('out', res, i))
            elif 100 <= i < 200 and i - 100 < len(args) and v[i - 100].op == 'ptr':
                p = v[i - 100]; 
                path = p.a[1][:-1] if p.a[1] and p.a[1][-1][0] == 'i' else p.a[1]
                self.store(LV(p.a[0], path), mk('out', res, i - 100))
        if obj is not None and isinstance(obj, LV) and not e.get('cm') and not e.get('smethod') and short not in NONMUT:
            self.store(obj, mk('post', name, ov, *v))
        t = self.tu.type(e['t'])
        return res


class FakeFn:
    def __init__(self, r): self.n = r['n']; self.file = r['file']; self.l = r['l']; self.d = {}

    def get(self, k, d=None): return d


def split_targs(s):
    out = []; depth = 0; cur = ''
    for ch in s:
        if ch in '<([{': depth += 1
        if ch in '>)]}': depth -= 1
        if ch == ',' and depth == 0: out.append(cur.strip()); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out
