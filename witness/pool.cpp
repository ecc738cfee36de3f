// The thread pool: tasks enqueued, taken, run and completed, on pools without workers (the steps of workers are called directly).
#include <cstddef>
#include <algorithm>
#include <atomic>
#include <condition_variable>
#include <deque>
#include <list>
#include <queue>
#include <functional>
#include <future>
#include <memory>
#include <mutex>
#include <stdexcept>
#include <thread>
#include <vector>
#define private public
#include "core_thread_pool.hpp"
#undef private
namespace witness {
using pool = mara::thread_pool_t;
int fa(int x);
double fb(double x, int y);
bool fails(int x);
inline int may_fail(int x) { if (fails(x)) throw std::runtime_error("task"); return fa(x); }
struct pair { int a; double b; };

// results reach the futures, tasks are taken in the order they came
int value(int x) { pool p(0); auto f = p.enqueue([] (int y) { return fa(y); }, x); auto t = p.next(0); t.run(); return f.get(); }
double value2(double x, int y) { pool p(0); auto f = p.enqueue([] (double a, int b) { return fb(a, b); }, x, y); auto t = p.next(0); t.run(); return f.get(); }
int value0(int x) { pool p(0); auto f = p.enqueue([x] { return fa(x); }); auto t = p.next(0); t.run(); return f.get(); }
int pointer(int x) { pool p(0); auto f = p.enqueue(may_fail, x); auto t = p.next(0); t.run(); return f.get(); }
int first(int x, double y, int z) { pool p(0); auto f = p.enqueue([] (int a) { return fa(a); }, x); auto g = p.enqueue([] (double a, int b) { return fb(a, b); }, y, z); auto t = p.next(0); t.run(); return f.get(); }
pair both(int x, double y, int z) { pool p(0); auto f = p.enqueue([] (int a) { return fa(a); }, x); auto g = p.enqueue([] (double a, int b) { return fb(a, b); }, y, z); auto t = p.next(0); auto s = p.next(1); s.run(); t.run(); return {f.get(), g.get()}; }
int not_run(int x) { pool p(0); auto f = p.enqueue([] (int y) { return fa(y); }, x); auto t = p.next(0); return f.get(); }

// an exception belongs to its own future
int failing(int x) { pool p(0); auto f = p.enqueue([] (int y) { return may_fail(y); }, x); auto t = p.next(0); t.run(); return f.get(); }
int other(int x, int y) { pool p(0); auto f = p.enqueue([] (int a) { return may_fail(a); }, x); auto g = p.enqueue([] (int a) { return fa(a); }, y); auto t = p.next(0); t.run(); auto s = p.next(0); s.run(); return g.get(); }

// bookkeeping
struct sizes { std::size_t pending, running; };
inline sizes size(pool& p) { return {p.pending_tasks.size(), p.running_tasks.size()}; }
sizes queued(int x, int y) { pool p(0); p.enqueue([] (int a) { return fa(a); }, x); p.enqueue([] (int a) { return fa(a); }, y); return size(p); }
sizes taken(int x, int y) { pool p(0); p.enqueue([] (int a) { return fa(a); }, x); p.enqueue([] (int a) { return fa(a); }, y); auto t = p.next(0); return size(p); }
sizes done(int x, int y) { pool p(0); p.enqueue([] (int a) { return fa(a); }, x); p.enqueue([] (int a) { return fa(a); }, y); auto t = p.next(0); t.run(); p.complete(t.tag.get()); return size(p); }
bool right_one(int x, int y) { pool p(0); p.enqueue([] (int a) { return fa(a); }, x); p.enqueue([] (int a) { return fa(a); }, y); auto t = p.next(0); auto s = p.next(1); p.complete(s.tag.get()); return p.running_tasks.front().tag.get() == t.tag.get() && p.running_tasks.size() == 1; }
bool left_one(int x, int y) { pool p(0); p.enqueue([] (int a) { return fa(a); }, x); p.enqueue([] (int a) { return fa(a); }, y); auto t = p.next(0); auto s = p.next(1); p.complete(t.tag.get()); return p.running_tasks.front().tag.get() == s.tag.get() && p.running_tasks.size() == 1; }

// shutting down: no task is given out any more once the queue is empty, and those accepted are still run
bool ended() { pool p(0); p.stop = true; auto t = p.next(0); return t; }
bool drains(int x) { pool p(0); p.enqueue([] (int a) { return fa(a); }, x); p.stop = true; auto t = p.next(0); return t; }
pair worker(int x, double y, int z) { pool p(0); auto f = p.enqueue([] (int a) { return fa(a); }, x); auto g = p.enqueue([] (double a, int b) { return fb(a, b); }, y, z); p.stop = true; p.make_worker(0); return {f.get(), g.get()}; }
sizes worker_left(int x, double y, int z) { pool p(0); auto f = p.enqueue([] (int a) { return fa(a); }, x); auto g = p.enqueue([] (double a, int b) { return fb(a, b); }, y, z); p.stop = true; p.make_worker(0); return size(p); }
int worker_goes_on(int x, int y) { pool p(0); auto f = p.enqueue([] (int a) { return may_fail(a); }, x); auto g = p.enqueue([] (int a) { return fa(a); }, y); p.stop = true; p.make_worker(0); return g.get(); }

// workers: as many as asked for, all joined
struct two { std::size_t n; bool stopped; };
two created() { pool p(3); return {p.threads.size(), p.stop}; }
two again() { pool p(3); p.restart(2); return {p.threads.size(), p.stop}; }
two stopped() { pool p(2); p.stop_all(); return {2, p.stop}; }
std::size_t joined() { pool p(3); p.stop_all(); std::size_t n = 0; for (auto& t : p.threads) if (t.joinable()) ++n; return n; }
std::size_t twice() { pool p(3); p.stop_all(); p.stop_all(); std::size_t n = 0; for (auto& t : p.threads) if (t.joinable()) ++n; return n; }
std::size_t destroyed() { pool p(3); p.~pool(); std::size_t n = 0; for (auto& t : p.threads) if (t.joinable()) ++n; return n; }
}
