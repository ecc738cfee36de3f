"""Models of what the project builds on: standard containers with known keys, strings as sequences of known and unknown parts, and
the HDF5 library as a store of named, typed values.  With them the value graph of "write, then read back" can be built: container
keys and dataset names are those the code uses, the values are arbitrary."""
from program import AnalysisBroken
from terms import *
from vg import LV, select, update, split_targs, is_variant
from lin import same, entails
import lazy, math

NPOS = num(2 ** 64 - 1)


# -------------------------------------------------------------------- exceptions
def throw(I, name, e, when=TRUE):
    """the analysed call throws when the condition holds"""
    if when is FALSE: return None
    base = len(I.path)
    if when is not TRUE: I.path.append((when, True))
    I.event('throw', name, (mk('new', name, ()),), e)
    del I.path[base:]
    I.path.append(('nothrow', when))
    return BOT


# -------------------------------------------------------------------- strings
def parts(s):
    if s.op == 'str': return tuple(st(c) for c in s.a[0])
    if s.op == 'sstr': return s.a
    return (s,)


def sstr(ps):
    out = []
    for p in ps:
        if p.op == 'str' and p.a[0] == '': continue
        out.append(p)
    if all(p.op == 'str' for p in out): return st(''.join(p.a[0] for p in out))
    if len(out) == 1 and out[0].op != 'dec': return out[0]
    return mk('sstr', *out)


def scat(a, b): return sstr(parts(a) + parts(b))


def ground(s): return s.op == 'str' or s.op == 'sstr' and all(p.op == 'str' or p.op == 'dec' and isnum(p.a[0]) for p in s.a)


def text(s): return ''.join(p.a[0] if p.op == 'str' else p.a[1] * 8 + str(int(p.a[0].a[0])) for p in parts(s)) if ground(s) else show(s)


def closed(t):
    """the value of a term without unknowns"""
    import math
    if isnum(t): return t.a[0]
    if t.op not in ('+', 'trunc', 'log10'): return None
    a = [closed(x) for x in t.a]
    if any(x is None for x in a): return None
    return a[0] + a[1] if t.op == '+' else math.trunc(a[0]) if t.op == 'trunc' else math.log10(a[0]) if a[0] > 0 else None


def is_string(t): return t.op in ('str', 'sstr', 'strn', 'strfit')


def string_of(I, x):
    """the characters behind a const char* / std::string argument"""
    v = I.rv(x)
    if v.op == 'ptr': v = I.load(buffer(I, v))
    if x is not v and v.op == 'strfit' and I.rv(x).op == 'ptr' and (v.a[1].op == 'max' and strlen(v.a[0]) in v.a[1].a or isnum(v.a[1]) and isnum(strlen(v.a[0])) and v.a[1].a[0] >= strlen(v.a[0]).a[0]): return v.a[0]      # up to the terminating NUL (text contains none)
    return v


def strfit(s, n):
    """s in a buffer of n characters, padded with NUL"""
    if strlen(s) is n: return s
    return mk('strfit', s, n)


def strlen(s):
    if s.op == 'str': return num(len(s.a[0]))
    if s.op == 'strn': return s.a[0]
    if s.op == 'strfit': return s.a[1]
    if s.op == 'ite': return ite(s.a[0], strlen(s.a[1]), strlen(s.a[2]))
    return mk('strlen', s)


def sfind(s, ch, start=ZERO):
    ps = parts(s)
    for k, p in enumerate(ps):
        if p.op == 'str':
            if p.a[0] == ch: return num(k) if all(q.op == 'str' for q in ps[:k]) else mk('spos', s, k)
        elif p.op == 'dec':
            if ch.isdigit() or ch == p.a[1]: return None
        elif p.op == 'word': pass         # unknown text free of separators
        else: return None
    return NPOS


def srfind(s, ch):
    ps = parts(s)
    for k, p in reversed(list(enumerate(ps))):
        if p.op == 'str':
            if p.a[0] == ch: return num(k) if all(q.op == 'str' for q in ps[:k]) else mk('spos', s, k)
        elif p.op == 'dec':
            if ch.isdigit() or ch == p.a[1]: return None
        elif p.op != 'word': return None
    return NPOS


def position(s, x):
    """index into the parts of s, or None"""
    if isnum(x):
        n = int(x.a[0]); ps = parts(s)
        if n >= 2 ** 63: return len(ps)
        return n if n <= len(ps) and all(p.op == 'str' for p in ps[:n]) else None
    if x.op == 'spos' and x.a[0] is s: return x.a[1]
    if x.op in ('+', '-') and len(x.a) == 2:
        for a, b in ((x.a[0], x.a[1]), (x.a[1], x.a[0]))[:1 if x.op == '-' else 2]:
            if a.op == 'spos' and a.a[0] is s and isnum(b):
                n = int(b.a[0]) * (1 if x.op == '+' else -1); ps = parts(s); k = a.a[1]
                lo, hi = min(k, k + n), max(k, k + n)
                if 0 <= lo and hi <= len(ps) and all(p.op == 'str' for p in ps[lo:hi]): return k + n
    return None


def length_of(s, start, x):
    """part index after `x` characters starting at part `start`"""
    ps = parts(s)
    if isnum(x):
        n = int(x.a[0])
        if n >= 2 ** 62: return len(ps)
        if all(p.op == 'str' for p in ps[start:start + n]): return min(len(ps), start + n)
        return None
    if start == 0: return position(s, x)
    return None


def char(x): return chr(int(x.a[0])) if isnum(x) and 0 <= int(x.a[0]) < 256 else None


# -------------------------------------------------------------------- maps
def has(m, k):
    if m.op == 'ite':
        a, b = has(m.a[1], k), has(m.a[2], k)
        return None if a is None or b is None else ite(m.a[0], a, b)
    if m.op == 'rec' and m.a[0] == 'std::map' and any(n is k for n, _ in m.a[1]): return TRUE
    if m is EMPTY: return FALSE
    if m.op != 'rec' or m.a[0] != 'std::map' or not ground(k) or not all(ground(n) for n, _ in m.a[1]): return None
    return TRUE if any(n is k for n, _ in m.a[1]) else FALSE


def put(m, k, v, only_absent=True):
    if m.op == 'ite': return ite(m.a[0], put(m.a[1], k, v, only_absent), put(m.a[2], k, v, only_absent))
    d = dict(m.a[1])
    if k in d and only_absent: return m
    d[k] = mk('rec', 'std::pair', (('first', k), ('second', v)))
    return mk('rec', 'std::map', tuple(sorted(d.items(), key=lambda x: text(x[0]))))


EMPTY = mk('rec', 'std::map', ())


def is_map(m): return m.op == 'rec' and m.a[0] == 'std::map' or m.op == 'ite' and is_map(m.a[1]) and is_map(m.a[2])


def buffer(I, p):
    """the object a raw data pointer refers to"""
    if p.op != 'ptr': raise AnalysisBroken('data pointer of unknown origin: ' + show(p)[:200])
    path = p.a[1]
    if path and path[-1] == ('whole',): return LV(p.a[0], path[:-1])
    if path and path[-1][0] == 'i' and path[-1][1] is ZERO: return LV(p.a[0], path[:-1])
    return LV(p.a[0], path)


def prep_std(I):
    M, V = I.models, I.rv
    I.fold_iterators = True
    def lvof(o): return o if isinstance(o, LV) else I.lv(o)

    # ---- map
    def with_map(f):
        def g(I, e, obj, args):
            if obj is None: return None
            o = lvof(obj)
            m = I.load(o)
            if not is_map(m): return None
            return f(e, o, m, args)
        return g
    def key(x): return string_of(I, x)
    def m_at(e, o, m, a):
        k = key(a[0]); h = has(m, k)
        if h is None: return None
        if throw(I, 'std::out_of_range', e, bnot(h)) and h is FALSE: return BOT
        return o.ext(('f', k), ('f', 'second'))
    def m_sub(e, o, m, a):
        k = key(a[0]); h = has(m, k)
        if h is None: return None
        if h is not TRUE: I.store(o, put(m, k, I.default_value(I.tu.strip_ref(e['t']))))
        return o.ext(('f', k), ('f', 'second'))
    def m_count(e, o, m, a):
        return has(m, key(a[0]))
    def m_size(e, o, m, a): return num(len(m.a[1])) if m.op == 'rec' else None
    def m_empty(e, o, m, a): return num(int(not m.a[1])) if m.op == 'rec' else None
    def m_it(e, o, m, a, end=False):
        if m.op != 'rec': return None
        return mk('mapit', o.loc, o.path, len(m.a[1]) if end else 0)
    def m_find(e, o, m, a):
        if m.op != 'rec' or has(m, key(a[0])) is None: return None
        return mk('mapit', o.loc, o.path, next((i for i, (n, _) in enumerate(m.a[1]) if n is key(a[0])), len(m.a[1])))
    def m_ins(e, o, m, a, over=False):
        v = [V(x) for x in a]
        if len(v) == 1 and v[0].op == 'rec' and v[0].a[0] == 'std::pair': k, x = [y for _, y in v[0].a[1]]
        elif len(v) == 2: k, x = v
        else: return None
        k = string_of(I, k)
        h = has(m, k)
        if h is None: return None
        I.store(o, put(m, k, x, not over))
        n = I.load(o)
        i = next(i for i, (q, _) in enumerate(n.a[1]) if q is k) if n.op == 'rec' else 0
        return mk('rec', 'std::pair', (('first', mk('mapit', o.loc, o.path, i)), ('second', bnot(h))))
    def m_erase(e, o, m, a):
        k = key(a[0]); h = has(m, k)
        if h is None or m.op != 'rec': return None
        I.store(o, mk('rec', 'std::map', tuple(x for x in m.a[1] if x[0] is not k)))
        return h
    for n, f in (('at', m_at), ('operator[]', m_sub), ('count', m_count), ('contains', m_count), ('size', m_size), ('empty', m_empty), ('begin', m_it), ('cbegin', m_it),
                 ('find', m_find), ('insert', m_ins), ('emplace', m_ins), ('try_emplace', m_ins), ('erase', m_erase)): M['std::map::' + n] = with_map(f)
    M['std::map::end'] = M['std::map::cend'] = with_map(lambda e, o, m, a: m_it(e, o, m, a, True))
    M['std::map::insert_or_assign'] = with_map(lambda e, o, m, a: m_ins(e, o, m, a, True))
    def m_ctor(I, e, t, a):
        a = [V(x) for x in a]
        a = [x for x in a if not (x.op == 'new' and ('allocator' in str(x.a[0]) or 'less' in str(x.a[0])))]
        if not a: return EMPTY
        if len(a) == 1 and is_map(a[0]): return a[0]
        if len(a) == 1 and a[0].op == 'arr':
            m = EMPTY
            for p in a[0].a:
                if p.op != 'rec': return None
                k, v = [x for _, x in p.a[1]]
                k = string_of(I, k)
                if not ground(k): return None
                m = put(m, k, v)
            return m
        return None
    I.cmodels['std::map'] = m_ctor

    # ---- iterators over maps and arrays
    def it_of(obj, args): return ([obj] if obj is not None else []) + list(args)
    def isit(v): return v.op in ('mapit', 'ptr')
    def it_cmp(neg):
        def f(I, e, obj, args):
            a = [V(x) for x in it_of(obj, args)]
            if len(a) != 2 or not all(isit(x) for x in a) or a[0].op != a[1].op: return None
            if a[0].op == 'mapit': r = TRUE if a[0] is a[1] else FALSE
            else: r = cmp_('==', a[0], a[1])
            return bnot(r) if neg else r
        return f
    def it_inc(d):
        def f(I, e, obj, args):
            o = obj if obj is not None else args[0]
            v = V(o)
            if not isit(v) or not isinstance(o, LV): return None
            nv = mk('mapit', v.a[0], v.a[1], v.a[2] + d) if v.op == 'mapit' else I.padd(v, num(d))
            I.store(o, nv)
            return v if (obj is not None and len(args) == 1) else o
        return f
    def it_deref(I, e, obj, args):
        v = V(obj if obj is not None else args[0])
        if v.op == 'ptr': l = I.deref(v)
        elif v.op == 'mapit':
            m = I.load(LV(v.a[0], v.a[1]))
            if m.op != 'rec' or v.a[2] >= len(m.a[1]): return None
            l = LV(v.a[0], v.a[1]).ext(('f', m.a[1][v.a[2]][0]))
        else: return None
        return I.ptr(l) if e.get('op') == '->' else l
    def it_add(I, e, obj, args):
        a = [V(x) for x in it_of(obj, args)]
        if len(a) == 2 and a[0].op == 'ptr' and a[1].op != 'ptr': return I.padd(a[0], a[1] if e.get('op') == '+' else arith('-', ZERO, a[1]))
        return None
    for c in ('std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator', '__gnu_cxx::__normal_iterator'):
        M[c + '::operator*'] = M[c + '::operator->'] = it_deref
        M[c + '::operator++'] = it_inc(1); M[c + '::operator--'] = it_inc(-1)
        M[c + '::operator=='] = it_cmp(False); M[c + '::operator!='] = it_cmp(True)
        M[c + '::operator+'] = M[c + '::operator-'] = it_add
    for c in ('__gnu_cxx', ):
        M[c + '::operator=='] = it_cmp(False); M[c + '::operator!='] = it_cmp(True)
    def std_eq(neg):
        g = it_cmp(neg)
        def f(I, e, obj, args):
            r = g(I, e, obj, args)
            if r is not None: return r
            a = [V(x) for x in it_of(obj, args)]
            if len(a) == 2 and 'basic_string' in I.tu.ts(e['args'][0].get('t', -1)) + (I.tu.ts(e['args'][1].get('t', -1)) if len(e['args']) > 1 else ''):
                a = [string_of(I, x) for x in a]
                r = cmp_('==', *a)
                return bnot(r) if neg else r
            return None
        return f
    M['std::operator=='] = std_eq(False); M['std::operator!='] = std_eq(True)
    def it_ctor(I, e, t, a): return V(a[0]) if len(a) == 1 and isit(V(a[0])) else None
    for c in ('std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator', '__gnu_cxx::__normal_iterator'): I.cmodels[c] = it_ctor

    # ---- strings
    S = 'std::basic_string'
    def s_ctor(I, e, t, a):
        v = [V(x) for x in a]
        v = [x for x in v if not (x.op == 'new' and 'allocator' in str(x.a[0]))]
        if not v: return st('')
        if len(v) == 1: return string_of(I, v[0])
        if len(v) == 2 and v[0].op == 'ptr' and v[1].op == 'ptr':
            s = I.load(buffer(I, v[0]))
            return s if v[0].a[0] == v[1].a[0] and v[1].a[1] and v[1].a[1][-1] != v[0].a[1][-1] else None
        if len(v) == 2 and not is_string(v[0]) and v[0].op not in ('ptr', 'sym'):
            if isnum(v[0]) and char(v[1]) is not None: return st(char(v[1]) * int(v[0].a[0]))
            return mk('strn', v[0], v[1])
        return None
    I.cmodels[S] = s_ctor
    def smeth(f):
        def g(I, e, obj, args):
            if obj is None: return None
            o = lvof(obj)
            return f(e, o, I.load(o), args)
        return g
    M[S + '::size'] = M[S + '::length'] = smeth(lambda e, o, s, a: strlen(s))
    M[S + '::empty'] = smeth(lambda e, o, s, a: cmp_('==', strlen(s), ZERO))
    M[S + '::data'] = M[S + '::c_str'] = smeth(lambda e, o, s, a: mk('ptr', o.loc, o.path + (('whole',),)))
    M[S + '::begin'] = M[S + '::cbegin'] = smeth(lambda e, o, s, a: mk('ptr', o.loc, o.path + (('i', ZERO),)))
    M[S + '::end'] = M[S + '::cend'] = smeth(lambda e, o, s, a: mk('ptr', o.loc, o.path + (('i', strlen(s)),)))
    def s_find(e, o, s, a):
        if len(a) > 2: return None
        q = V(a[0])
        if len(a) == 2 and V(a[1]) is not ZERO: return None
        c = char(q) if isnum(q) else (q.a[0] if q.op == 'str' and len(q.a[0]) == 1 else None)
        if s.op == 'str' and (q.op == 'str' or c is not None):
            i = s.a[0].find(q.a[0] if q.op == 'str' else c)
            return NPOS if i < 0 else num(i)
        return sfind(s, c) if c is not None else None
    M[S + '::find'] = smeth(s_find)
    def s_rfind(e, o, s, a):
        if len(a) > 1 and V(a[1]) is not NPOS: return None
        q = V(a[0]); c = char(q) if isnum(q) else (q.a[0] if q.op == 'str' and len(q.a[0]) == 1 else None)
        if c is None: return None
        if s.op == 'str': i = s.a[0].rfind(c); return NPOS if i < 0 else num(i)
        return srfind(s, c)
    M[S + '::rfind'] = smeth(s_rfind)
    def single(f):
        def g(e, o, s, a):
            q = V(a[0]) if a else None
            return f(e, o, s, a) if q is not None and (isnum(q) or q.op == 'str' and len(q.a[0]) == 1) else None
        return g
    M[S + '::find_last_of'] = smeth(single(s_rfind)); M[S + '::find_first_of'] = smeth(single(s_find))
    def s_substr(e, o, s, a):
        b = position(s, V(a[0])) if a else 0
        if b is None: return None
        n = length_of(s, b, V(a[1])) if len(a) > 1 else len(parts(s))
        if n is None: return None
        return sstr(parts(s)[b:n])
    M[S + '::substr'] = smeth(s_substr)
    def s_erase(e, o, s, a):
        a = [V(x) for x in a]
        b = position(s, a[0]) if a else 0
        if b is None: return None
        n = length_of(s, b, a[1]) if len(a) > 1 else len(parts(s))
        if n is None: return None
        I.store(o, sstr(parts(s)[:b] + parts(s)[n:]))
        return o
    M[S + '::erase'] = smeth(s_erase)
    def s_app(e, o, s, a):
        if len(a) != 1: return None
        v = V(a[0])
        v = st(char(v)) if isnum(v) and char(v) else string_of(I, v)
        I.store(o, scat(s, v)); return o
    M[S + '::operator+='] = M[S + '::append'] = M[S + '::push_back'] = smeth(s_app)
    def s_asg(e, o, s, a):
        v = string_of(I, a[0]); I.store(o, v); return o
    M[S + '::operator='] = smeth(s_asg)
    def s_plus(I, e, obj, args):
        if 'basic_string' not in I.tu.ts(e['t']) or len(args) != 2: return None
        v = [V(x) for x in args]
        v = [st(char(x)) if isnum(x) and char(x) else string_of(I, x) for x in v]
        return scat(*v)
    M['std::operator+'] = s_plus
    def s_tostr(I, e, obj, args):
        return mk('sstr', mk('dec', V(args[0]), ''))
    M['std::to_string'] = s_tostr
    def s_count(I, e, obj, args):
        a = [V(x) for x in args]
        if len(a) != 3 or a[0].op != 'ptr' or char(a[2]) is None: return None
        s = I.load(buffer(I, a[0])); ps = parts(s); c = char(a[2])
        if not is_string(s) or any(p.op != 'str' and (p.op != 'dec' or c.isdigit() or c == p.a[1]) for p in ps): return None
        return num(sum(1 for p in ps if p.op == 'str' and p.a[0] == c))
    M['std::count'] = s_count
    def pos(args, v):
        if len(args) > 1 and I.rv(args[1]).op == 'ptr': I.store(I.deref(I.rv(args[1])), v)
    def s_stoi(I, e, obj, args):
        s = string_of(I, args[0])
        if s.op == 'str':
            import re
            m = re.match(r'\s*([+-]?\d+)', s.a[0])
            if m: pos(args, num(m.end()))
            return num(int(m.group(1))) if m else throw(I, 'std::invalid_argument', e)
        if s.op == 'sstr' and s.a[0].op == 'dec' and s.a[0].a[1] in ('', '0', ' ') and (len(s.a) == 1 or s.a[1].op == 'str' and not s.a[1].a[0].isdigit()):
            pos(args, strlen(s) if len(s.a) == 1 else mk('spos', s, 1))
            return s.a[0].a[0]
        pos(args, mk('parsed', s))
        return mk('call', 'std::' + e['n'].split('::')[-1], '', s)
    for n in ('stoi', 'stol', 'stoul', 'stoull', 'stoll'): M['std::' + n] = s_stoi
    def s_stod(I, e, obj, args):
        s = string_of(I, args[0])
        pos(args, mk('parsed', s))
        return mk('call', 'std::stod', '', s)
    M['std::stod'] = s_stod

    # ---- string streams
    for n in ('std::basic_stringstream', 'std::basic_ostringstream'):
        I.cmodels[n] = lambda I, e, t, a: mk('rec', 'stream', (('text', st('')), ('width', ZERO), ('fill', st(' '))))
        M[n + '::str'] = smeth(lambda e, o, s, a: select(s, ('f', 'text')) if s.op == 'rec' and s.a[0] == 'stream' else None)
    M['std::setw'] = lambda I, e, obj, args: mk('setw', V(args[0]))
    M['std::setfill'] = lambda I, e, obj, args: mk('setfill', V(args[0]))
    def s_out(I, e, obj, args):
        a = it_of(obj, args)
        if len(a) != 2 or not isinstance(a[0], LV): return None
        s = I.load(a[0])
        if s.op != 'rec' or s.a[0] != 'stream': return None
        d = dict(s.a[1]); v = V(a[1])
        if v.op == 'setw': I.store(a[0].ext(('f', 'width')), v.a[0]); return a[0]
        if v.op == 'setfill':
            c = char(v.a[0])
            if c is None: return None
            I.store(a[0].ext(('f', 'fill')), st(c)); return a[0]
        pad = '' if d['width'] is ZERO else d['fill'].a[0]
        at = I.node_type(e['args'][-1])
        if at['k'] == 'char' and char(v): p = st(char(v))
        elif at['k'] in ('int', 'uint'):
            w = closed(d['width'])
            if isnum(v) and w is not None: p = st(str(int(v.a[0])).rjust(int(w), pad or ' '))
            else: p = mk('sstr', mk('dec', v, pad))
            pad = ''
        elif is_string(v) or v.op == 'ptr': p = string_of(I, v)
        else:
            import re
            return None
        if pad: return None      # padding of text is not modelled
        I.store(a[0].ext(('f', 'text')), scat(d['text'], p)); I.store(a[0].ext(('f', 'width')), ZERO)
        return a[0]
    M['std::operator<<'] = M['std::basic_ostream::operator<<'] = s_out
    def s_snprintf(I, e, obj, args):
        v = [V(x) for x in args]
        if v[0].op != 'ptr' or v[2].op != 'str': return None
        import re
        out = []; rest = list(args[3:]); fmt = v[2].a[0]; i = 0
        for m in re.finditer(r'%(0?)(\d*)([sd])', fmt):
            out += list(parts(st(fmt[i:m.start()]))); i = m.end()
            if not rest: return None
            x = rest.pop(0)
            if m.group(3) == 's':
                if m.group(2): return None
                out += list(parts(string_of(I, x)))
            else: out.append(mk('dec', V(x), ('0' if m.group(1) else ' ') if m.group(2) else ''))
        if '%' in fmt[i:]: return None
        out += list(parts(st(fmt[i:])))
        s = sstr(out)
        I.store(buffer(I, v[0]), s)
        return strlen(s)
    M['snprintf'] = M['std::snprintf'] = s_snprintf

    # ---- variants
    def v_asg(I, e, obj, args):
        o = lvof(obj); v = V(args[0])
        if is_variant(v): I.store(o, v); return o
        t = I.node_type(e['obj'])
        k = I.variant_alt(t, e)
        if k is None: return None
        if v.op == 'ptr' or 'char' in I.node_type(e['args'][0])['s'] and 'basic_string' not in I.node_type(e['args'][0])['s']: v = string_of(I, v)
        I.store(o, mk('rec', 'std::variant', (('index', num(k)), ('alt', v))))
        return o
    M['std::variant::operator='] = v_asg
    def v_ctor(I, e, t, a):
        if len(a) == 0:
            r = I.tu.records.get(t.get('rec'))
            return mk('rec', 'std::variant', (('index', ZERO), ('alt', I.default_by_name(split_targs(r['targs'])[0]))))
        return None
    I.cmodels['std::variant'] = v_ctor
    def v_alt(I, e, t):
        ta = split_targs(e.get('ta', ''))[0]
        i = ta.rstrip('UL')
        if i.isdigit(): i = int(i)
        else:
            r = I.tu.records.get(t.get('rec'))
            alts = [y.replace(' ', '') for y in split_targs(r.get('targs', ''))] if r else []
            if ta.replace(' ', '') not in alts:
                al = [k for k, y in enumerate(alts) if 'basic_string' in y]
                if 'string' not in ta or len(al) != 1: return None
                i = al[0]
            else: i = alts.index(ta.replace(' ', ''))
        return i
    def v_holds(I, e, obj, args):
        v = V(args[0])
        i = v_alt(I, e, I.node_type(e['args'][0])) if is_variant(v) else None
        return None if i is None else cmp_('==', select(v, ('f', 'index')), num(i))
    M['std::holds_alternative'] = v_holds
    def v_getif(I, e, obj, args):
        p = V(args[0])
        if p.op != 'ptr': return None
        o = I.deref(p); v = V(o)
        if not is_variant(v): return None
        t = I.node_type(e['args'][0])
        i = v_alt(I, e, I.tu.type(t['p']) if 'p' in t else t)
        if i is None: return None
        return ite(cmp_('==', select(v, ('f', 'index')), num(i)), I.ptr(o.ext(('f', 'alt'))), mk('nullptr'))
    M['std::get_if'] = v_getif
    def v_get(I, e, obj, args):
        if len(args) != 1: return None
        x = args[0]; v = V(x)
        if not is_variant(v): return None
        i = v_alt(I, e, I.node_type(e['args'][0]))
        if i is None: return None
        k = select(v, ('f', 'index')); ok = cmp_('==', k, num(i))
        if ok is FALSE: return throw(I, 'std::bad_variant_access', e)
        throw(I, 'std::bad_variant_access', e, bnot(ok))
        if isinstance(x, LV): return x.ext(('f', 'alt'))
        return select(v, ('f', 'alt'))
    M['std::get'] = v_get
    def v_visit(I, e, obj, args):
        if len(args) != 2 or not is_variant(V(args[1])): return None
        return I.apply_any(V(args[0]), [args[1].ext(('f', 'alt')) if isinstance(args[1], LV) else I.alloc(select(args[1], ('f', 'alt')))], e)
    M['std::visit'] = v_visit

    # ---- vectors
    def vec_ctor(I, e, t, a):
        v = [V(x) for x in a]
        v = [x for x in v if not (x.op == 'new' and 'allocator' in str(x.a[0]))]
        if not v: return mk('arr')
        if len(v) == 1 and v[0].op in ('arr', 'vecn'): return v[0]
        r = I.tu.records.get(t.get('rec')); et = split_targs(r.get('targs', ''))[0] if r else None
        if len(v) == 2:
            n = I.ptr_range(v[0], v[1])
            if n is not None: return mk('arr', *[I.load(I.deref(I.padd(v[0], num(i)))) for i in range(n)])
            if v[0].op == 'rec':
                xs = iterate(I, a[0], a[1], e)
                if xs is not None: return mk('arr', *xs)
            if v[0].op == 'ptr': return None
        if len(v) in (1, 2) and v[0].op not in ('ptr', 'rec') and not is_variant(v[0]):
            d = v[1] if len(v) == 2 else I.default_by_name(et)
            if isnum(v[0]) and int(v[0].a[0]) <= 64: return mk('arr', *([d] * int(v[0].a[0])))
            return mk('vecn', v[0])
        return None
    I.cmodels['std::vector'] = vec_ctor
    def vsize(e, o, s, a): return num(len(s.a)) if s.op == 'arr' else s.a[0] if s.op == 'vecn' else mk('vlen', s) if s.op == 'sym' else None
    for c in ('std::vector', 'std::initializer_list'):
        M[c + '::size'] = smeth(vsize)
        M[c + '::empty'] = smeth(lambda e, o, s, a: cmp_('==', vsize(e, o, s, a), ZERO) if vsize(e, o, s, a) is not None else None)
        M[c + '::begin'] = M[c + '::cbegin'] = smeth(lambda e, o, s, a: mk('ptr', o.loc, o.path + (('i', ZERO),)) if s.op == 'arr' else None)
        M[c + '::end'] = M[c + '::cend'] = smeth(lambda e, o, s, a: mk('ptr', o.loc, o.path + (('i', num(len(s.a))),)) if s.op == 'arr' else None)
    M['std::vector::data'] = smeth(lambda e, o, s, a: mk('ptr', o.loc, o.path + (('whole',),)))
    M['std::array::data'] = None
    del M['std::array::data']

    # ---- shared pointers
    def p_bool(I, e, obj, args): return bnot(cmp_('==', V(obj), mk('nullptr')))
    M['std::__shared_ptr::operator bool'] = p_bool
    # ---- output to the terminal has no effect on the state
    for n in ('printf', 'std::printf', 'fflush', 'std::fflush'): M[n] = lambda I, e, obj, args: ZERO


def iterate(I, b, e, node, limit=64):
    """elements of an iterator range whose iterator is a class of the project"""
    n = I.rv(b).a[0]
    ts = I.tu.strip_ref(node['args'][0].get('t', -1)) if node.get('args') else {}
    import re
    plain = n
    while True:
        q = re.sub(r'<[^<>]*>', '', plain)
        if q == plain: break
        plain = q
    def pick(s):
        c = [f for m in (n, plain) for f in I.tu.by_name.get(m + '::' + s, []) if 'body' in f.d and not f.get('dep')]
        if len(c) > 1: c = [f for f in c if f.d.get('rec') == ts.get('rec')] or [f for f in c if f.d.get('recn') == n] or c
        return c[0] if c else None
    inc, ne, de = pick('operator++'), pick('operator!='), pick('operator*')
    if inc is None or ne is None or de is None: return None
    it = I.alloc(I.rv(b)); en = I.alloc(I.rv(e)); out = []
    for _ in range(limit):
        c = I.rv(I.call(ne, [en], it, node))
        if not isnum(c): return None
        if not c.a[0]: return out
        out.append(I.rv(I.call(de, [], it, node)))
        I.call(inc, [], it, node)
    return None


def prep(I):
    I.peel = 4; I.reclimit = 12; I.exact_try = True; I.deref_ite = True
    lazy.prep(I)
    prep_std(I)
