// The thread pool as its users see it: every public operation, instantiated.
#include <cstddef>
#include <algorithm>
#include <functional>
#include <memory>
#include "core_thread_pool.hpp"
namespace witness {
int fa(int x);
void use(int x) { mara::thread_pool_t p(3); auto f = p.enqueue([] (int y) { return fa(y); }, x); auto g = p.enqueue(fa, x); f.get(); g.get(); p.restart(2); p.stop_all(); }
}
