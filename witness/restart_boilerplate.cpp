// A run of the boilerplate sub-program that is checkpointed and continued from the file.
#include <cstddef>
#include <algorithm>
#include <functional>
#include <map>
#include <string>
#include <variant>
#include <vector>
#include "subprog_boilerplate.cpp"
namespace witness {
using str = std::string; using arr = nd::shared_array<double, 1>; using par = mara::config_parameter_t; using task = mara::schedule_t::task_t;
inline app_state_t at(double time, int iteration, arr vertices, arr solution, int count, double last, bool due, double cpi, double tfinal, int N, str from)
{
    auto s = app_state_t(); auto t = task(); t.name = "write_checkpoint"; t.num_times_performed = count; t.last_performed = last; t.is_due = due;
    s.solution_state.time = time; s.solution_state.iteration = iteration; s.solution_state.vertices = vertices; s.solution_state.solution = solution;
    s.schedule.insert(t);
    s.run_config = config_template().create().set("cpi", par(cpi)).set("tfinal", par(tfinal)).set("N", par(N)).set("restart", par(from));
    return s;
}
inline app_state_t continued(str name) { str a = "restart=" + name; const char* argv[] = {"mara", a.data()}; return create_app_state(create_run_config(2, argv)); }
app_state_t went_on(double time, int iteration, arr vertices, arr solution, int count, double last, double cpi, double tfinal, int N, str from)
{
    return run_tasks(at(time, iteration, vertices, solution, count, last, true, cpi, tfinal, N, from));
}
app_state_t restarted(double time, int iteration, arr vertices, arr solution, int count, double last, double cpi, double tfinal, int N, str from)
{
    run_tasks(at(time, iteration, vertices, solution, count, last, true, cpi, tfinal, N, from));
    return continued(mara::create_numbered_filename("chkpt", count, "h5"));
}
app_state_t restarted_args(double time, int iteration, arr vertices, arr solution, int count, double last, double cpi, double tfinal, int N, str from, double t2)
{
    run_tasks(at(time, iteration, vertices, solution, count, last, true, cpi, tfinal, N, from));
    str a = "restart=" + mara::create_numbered_filename("chkpt", count, "h5"); const char* argv[] = {"mara", a.data(), "N=12"}; return create_app_state(create_run_config(3, argv));
}
app_state_t idle(double time, int iteration, arr vertices, arr solution, int count, double last, double cpi, double tfinal, int N, str from)
{
    return run_tasks(at(time, iteration, vertices, solution, count, last, false, cpi, tfinal, N, from));
}
app_state_t no_file(double time, int iteration, arr vertices, arr solution, int count, double last, double cpi, double tfinal, int N, str from)
{
    run_tasks(at(time, iteration, vertices, solution, count, last, false, cpi, tfinal, N, from));
    return continued(mara::create_numbered_filename("chkpt", count, "h5"));
}
}
