prop = 'C04'
needs = 'two tasks enqueued in quick succession, the first of which waits for the second, on a pool with two idle workers'
breaks = 'the second task is accepted without waking the second worker: it is only run after the first one ends, which never happens'
edits = [('core_thread_pool.hpp', '        condition.notify_one();', '        if (pending_tasks.size() == 1) condition.notify_one();')]
cpp = r'''
#include <algorithm>
#include <atomic>
#include <memory>
#include <functional>
#include <iostream>
#include <vector>
#include <thread>
#include <chrono>
#include "core_thread_pool.hpp"
int main()
{
    for (int k = 0; k < 300; ++k)
    {
        mara::thread_pool_t pool(2);
        std::this_thread::sleep_for(std::chrono::milliseconds(1));
        std::atomic<bool> done = {false};
        auto a = pool.enqueue([&] { for (int n = 0; n < 2000 && ! done; ++n) std::this_thread::sleep_for(std::chrono::milliseconds(1)); return bool(done); });
        auto b = pool.enqueue([&] { done = true; return 1; });
        if (! a.get()) { std::cout << "lost wakeup in trial " << k << std::endl; std::_Exit(1); }
        b.get();
    }
    return 0;
}
'''
