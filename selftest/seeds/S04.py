prop = 'C03'
needs = 'a task that makes a later task of the same list due while it runs'
breaks = 'a task not due in the given state is run, because the due flag is looked up in the state the previous tasks produced'
edits = [('app_schedule.hpp', 'if (state.schedule.is_due(task.first))', 'if (next.schedule.is_due(task.first))')]
cpp = r'''
#include <iostream>
#include <functional>
#include "app_schedule.hpp"
struct state_t { mara::schedule_t schedule; int ran = 0; };
int main()
{
    state_t s;
    s.schedule.create_and_mark_as_due("a");
    s.schedule.create("b");
    auto r = mara::run_scheduled_tasks<state_t>(s, {
        {"a", [] (const state_t& x) { auto y = mara::complete_task_in(x, "a"); y.schedule.mark_as_due("b"); return y; }},
        {"b", [] (const state_t& x) { auto y = mara::complete_task_in(x, "b"); y.ran = 1; return y; }},
    });
    std::cout << r.ran << std::endl;
    return r.ran == 0 && r.schedule.is_due("b") ? 0 : 1;
}
'''
