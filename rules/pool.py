"""The thread pool: what each of its operations does to the queue and to the futures (value graphs), and its lock discipline (lock sets)."""
from program import AnalysisBroken, walk
from terms import *
from physics import leaves
from sched import Use
from ckpt import units
from vg import LV, select
import store
from lin import entails


class Blocked(AnalysisBroken): pass


def prep_run(I): prep(I, True)
def prep_idle(I): prep(I, False)


def prep(I, run):
    store.prep(I)
    I.exact_try = True; I.deref_ite = True; I.reclimit = 8
    M = I.models; V = I.rv
    for n in ('std::lock_guard', 'std::unique_lock', 'std::scoped_lock', 'std::mutex', 'std::condition_variable', 'std::recursive_mutex', 'std::condition_variable_any'):
        I.cmodels[n] = lambda I, e, t, a, n=n: mk('rec', n, ())
    for n in ('std::mutex::lock', 'std::mutex::unlock', 'std::unique_lock::lock', 'std::unique_lock::unlock', 'std::condition_variable::notify_one', 'std::condition_variable::notify_all', 'std::atomic_thread_fence'): M[n] = lambda I, e, obj, args: VOID
    def wait(I, e, obj, args):
        ok = V(I.apply_any(V(args[1]), [], e)) if len(args) > 1 else FALSE
        if ok is FALSE: raise Blocked('a worker waits although %s' % ('its condition can never change' if len(args) > 1 else 'there is something to do'))
        return VOID
    M['std::condition_variable::wait'] = wait
    # ---- queues
    def seq(I, e, t, a):
        return mk('arr') if not a else None
    for c in ('std::deque', 'std::list'):
        I.cmodels[c] = seq
    def get(obj):
        v = V(obj)
        if v.op == 'new' and not v.a[1]: v = mk('arr')
        if v.op != 'arr': raise AnalysisBroken('queue of unknown contents: ' + show(v)[:100])
        return v
    def put(obj, xs): I.store(I.lv(obj), mk('arr', *xs)); return VOID
    def index(obj, it):
        p = V(it)
        while p.op == 'rec' and len(p.a[1]) == 1: p = p.a[1][0][1]
        if p.op != 'ptr' or not isnum(p.a[1][-1][1]): raise AnalysisBroken('position of unknown value: ' + show(p)[:100])
        return int(p.a[1][-1][1].a[0])
    def erase(I, e, obj, args):
        v = get(obj); p = V(args[0])
        if len(args) > 1: a, b = index(obj, args[0]), index(obj, args[1])
        elif p.op == 'ite': raise AnalysisBroken('position depends on ' + show(p.a[0])[:80])
        else: a = index(obj, args[0]); b = a + 1
        if b > len(v.a): raise Blocked('an element past the end is erased')
        put(obj, v.a[:a] + v.a[b:]); return I.ptr(I.lv(obj).ext(('i', num(a))))
    def clear(obj):
        if any(x.op == 'rec' and x.a[0] == 'std::thread' and dict(x.a[1])['running'] is TRUE for x in get(obj).a): raise Blocked('a running thread is destroyed, which ends the program')
        return put(obj, ())
    def ends(k):
        def f(I, e, obj, args):
            v = get(obj)
            if not v.a: raise Blocked('the first or last element of an empty queue is used')
            return I.lv(obj).ext(('i', num(0 if k == 0 else len(v.a) - 1)))
        return f
    for c in ('std::vector', 'std::deque', 'std::list'):
        M[c + '::front'] = ends(0); M[c + '::back'] = ends(1); M[c + '::erase'] = erase
        M[c + '::clear'] = lambda I, e, obj, args: clear(obj)
        M[c + '::pop_front'] = lambda I, e, obj, args: put(obj, get(obj).a[1:])
        M[c + '::pop_back'] = lambda I, e, obj, args: put(obj, get(obj).a[:-1])
        for n in ('push_back', 'emplace_back'): M[c + '::' + n] = lambda I, e, obj, args: put(obj, get(obj).a + (V(args[0]),)) if len(args) == 1 else None
        M[c + '::push_front'] = lambda I, e, obj, args: put(obj, (V(args[0]),) + get(obj).a)
        M[c + '::size'] = lambda I, e, obj, args: num(len(get(obj).a))
        M[c + '::empty'] = lambda I, e, obj, args: FALSE if get(obj).a else TRUE
        if c != 'std::vector':
            M[c + '::begin'] = lambda I, e, obj, args: I.ptr(I.lv(obj).ext(('i', ZERO)))
            M[c + '::end'] = lambda I, e, obj, args: I.ptr(I.lv(obj).ext(('i', num(len(get(obj).a)))))
    def find_if(I, e, obj, args):
        n = I.ptr_range(V(args[0]), V(args[1]))
        if n is None: return None
        for i in range(n):
            p = I.padd(V(args[0]), num(i)); ok = V(I.apply_any(V(args[2]), [I.deref(p)], e))
            if ok is TRUE: return p
            if ok is not FALSE: raise AnalysisBroken('search whose outcome is not known: ' + show(ok)[:100])
        return V(args[1])
    M['std::find_if'] = find_if
    # ---- function objects
    for n in ('std::function::operator bool',): M[n] = lambda I, e, obj, args: FALSE if V(obj).op == 'nullptr' or (V(obj).op == 'new' and not V(obj).a[1]) else TRUE
    def isnull(v): return v.op == 'nullptr' or v.op == 'nullfn' or (v.op == 'new' and not v.a[1]) or v.op == 'zero'
    def fcmp(neg):
        def f(I, e, obj, args):
            vs = [V(x) for x in args]
            if len(vs) == 2 and isnull(vs[1]): r = isnull(vs[0])
            elif len(vs) == 2 and isnull(vs[0]): r = isnull(vs[1])
            else: return None
            return TRUE if r != neg else FALSE
        return f
    M['std::operator!='] = fcmp(True); M['std::operator=='] = fcmp(False)
    def function(I, e, t, a):
        if not a: return mk('nullfn')
        return V(a[0])
    I.cmodels['std::function'] = function
    # ---- promises and futures
    count = [0]
    def make_shared(I, e, obj, args):
        s = I.tu.ts(e['t'])
        if 'promise<' in s and not args:
            return I.ptr(I.alloc(mk('rec', 'promise', (('state', ZERO), ('value', mk('unset'))))))
        if not args:
            count[0] += 1; return I.ptr(I.alloc(mk('new', 'object', (num(count[0]),))))
        return None
    M['std::make_shared'] = make_shared
    I.cmodels['std::promise'] = lambda I, e, t, a: mk('rec', 'promise', (('state', ZERO), ('value', mk('unset')))) if not a else None
    def settle(k):
        def f(I, e, obj, args):
            I.store(I.lv(obj), mk('rec', 'promise', (('state', num(k)), ('value', V(args[0]) if k == 1 and args else mk('unset'))))); return VOID
        return f
    M['std::promise::set_value'] = settle(1); M['std::promise::set_exception'] = settle(2)
    M['std::current_exception'] = lambda I, e, obj, args: mk('current_exception')
    M['std::promise::get_future'] = lambda I, e, obj, args: mk('rec', 'std::future', (('of', I.ptr(I.lv(obj))),))
    def future_get(I, e, obj, args):
        p = V(I.deref(select(V(obj), ('f', 'of')))); s = select(p, ('f', 'state'))
        store.throw(I, 'std::exception', e, cmp_('==', s, num(2)))
        return select(p, ('f', 'value'))
    for n in ('std::future::get', 'std::__basic_future::get'): M[n] = future_get
    def task(I, e, t, a):                        # a packaged task: function and promise in one
        if not a: return None
        return mk('rec', 'std::packaged_task', (('f', V(a[0])), ('p', I.ptr(I.alloc(mk('rec', 'promise', (('state', ZERO), ('value', mk('unset')))))))))
    # ---- threads
    def spawn(I, e, t, args):
        if not args: return mk('rec', 'std::thread', (('running', FALSE),))
        v = V(args[0])
        if v.op == 'rec' and v.a[0] == 'std::thread': return v
        if run: I.apply_any(v, list(args[1:]), e)
        return mk('rec', 'std::thread', (('running', TRUE),))
    I.cmodels['std::thread'] = spawn
    def join(I, e, obj, args):
        v = select(V(obj), ('f', 'running'))
        if v is not TRUE: raise Blocked('a thread is joined that is not running')
        I.store(I.lv(obj), mk('rec', 'std::thread', (('running', FALSE),))); return VOID
    M['std::thread::join'] = join
    M['std::thread::joinable'] = lambda I, e, obj, args: select(V(obj), ('f', 'running'))
    def assign(I, e, obj, args): I.store(I.lv(obj), V(args[0])); return obj
    for n in ('std::thread::operator=', 'std::atomic::operator=', 'std::atomic::store'): M[n] = assign
    for n in ('std::atomic::operator bool', 'std::atomic::load', 'std::__atomic_base::operator bool', 'std::atomic::operator __integral_type'): M[n] = lambda I, e, obj, args: I.tobool(V(obj))
    I.cmodels['std::atomic'] = lambda I, e, t, a: V(a[0]) if a else FALSE


class Pool(Use):
    """results of pool operations; an operation that can never go on is a violation"""

    def val(self, name, spec, ret=TRUE, **k):
        try: v = self.run(name)
        except Blocked as e: return self.c.ob(name, False, self.where_of(name), '%s: %s' % (name, e))
        except AnalysisBroken as e: return self.c.undecided(name, '', str(e))
        want = spec(*self.A); cond = ret(*self.A) if callable(ret) else ret
        if v is BOT or self.ret is FALSE: return self.c.ob(name, False, self.where, name + ': never comes to an end normally')
        ok = entails(cond, self.ret, []) and entails(self.ret, cond, [])
        if not self.c.ob(name + ':returns', ok, self.where, '%s: comes to an end normally when %s, required %s' % (name, show(self.ret)[:200], show(cond)[:200])): return
        return self.cmp(name, v, want, cond)

    def where_of(self, name):
        s = [x for x in (getattr(self.w, 'site', None) or []) if x.startswith('src/')]
        return min(s) if s else 'src/core_thread_pool.hpp'


def prop_pool(c):
    import locks, program
    c.rule('(1) the value graphs of the pool operations, over tasks with arbitrary functions, arguments and exceptions: each future carries the result of its own task, tasks are taken in the order they came, and shutting down runs every accepted task and ends every worker. (2) lock sets: data shared with workers is used with the mutex held, what a waiting thread waits for changes only under its mutex and is notified, tasks run and threads are joined without it, and no closure handed to another thread refers to a local variable')
    c.assumptions.append('the models of std::thread, std::promise, std::future, std::condition_variable, std::function and the containers; tasks are run by one worker at a time in the value graphs, their interleaving is covered by the lock sets')
    fa = lambda x: mk('call', 'witness::fa', '', x); fb = lambda x, y: mk('call', 'witness::fb', '', x, y)
    def ok(x):
        return bnot(mk('call', 'witness::fails', '', x))
    def idle(u):
        u.__class__ = Pool; u.prep = prep_idle; v = u.val
        v('value', lambda x: [fa(x)]); v('value0', lambda x: [fa(x)]); v('value2', lambda x, y: [fb(x, y)]); v('pointer', lambda x: [fa(x)], ret=ok); v('failing', lambda x: [fa(x)], ret=ok)
        v('first', lambda x, y, z: [fa(x)]); v('both', lambda x, y, z: [fa(x), fb(y, z)]); v('other', lambda x, y: [fa(y)]); v('not_run', lambda x: [mk('unset')])
        v('queued', lambda *a: [num(2), ZERO]); v('taken', lambda *a: [ONE, ONE]); v('done', lambda *a: [ONE, ZERO]); v('right_one', lambda *a: [TRUE]); v('left_one', lambda *a: [TRUE])
        v('ended', lambda: [FALSE]); v('drains', lambda x: [TRUE])
        v('created', lambda: [num(3), FALSE]); v('again', lambda: [num(2), FALSE]); v('stopped', lambda: [num(2), TRUE]); v('joined', lambda: [ZERO]); v('twice', lambda: [ZERO]); v('destroyed', lambda: [ZERO])
        u.prep = prep_run
        v('worker', lambda x, y, z: [fa(x), fb(y, z)]); v('worker_left', lambda *a: [ZERO, ZERO]); v('worker_goes_on', lambda x, y: [fa(y)])
    units(c, 'pool.cpp', idle)
    def discipline(u): c.interp = None; locks.check(c, program.parse(program.witness('pool_locks.cpp')), 'mara::thread_pool_t', 'locks')
    units(c, 'pool_locks.cpp', discipline)
    c.minimum = 30
