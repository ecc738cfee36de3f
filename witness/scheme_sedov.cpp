// One time step of the spherical blast wave solver on four shells: arbitrary fields and vertices.
#include <cstddef>
#include <algorithm>
#include <functional>
#include <map>
#include <string>
#include <variant>
#include <vector>
#include "subprog_sedov.cpp"
namespace witness {
double fr(std::size_t i);
double fu(std::size_t i, int k);
template<class P, class H> typename P::solution_state_t state(double t, mara::rational_number_t n)
{
    auto s = typename P::solution_state_t(); s.time = t; s.iteration = n;
    s.vertices = nd::make_array([] (auto i) { return fr(i[0]); }, nd::make_shape(5)).shared();
    s.conserved = nd::make_array([] (auto i) { auto u = typename H::conserved_t(); for (int k = 0; k < 5; ++k) u[k] = fu(i[0], k); return u; }, nd::make_shape(4)).shared();
    return s;
}
using rel = SedovProblem<mara::srhd>; using newt = SedovProblem<mara::euler>;
rel::solution_state_t step_rel(double t, mara::rational_number_t n) { return rel::next_solution(state<rel, mara::srhd>(t, n)); }
newt::solution_state_t step_newt(double t, mara::rational_number_t n) { return newt::next_solution(state<newt, mara::euler>(t, n)); }
inline mara::schedule_t::task_t task(const char* n, int k, double t, bool d) { auto r = mara::schedule_t::task_t(); r.name = n; r.num_times_performed = k; r.last_performed = t; r.is_due = d; return r; }
inline mara::schedule_t plan(double tc, double td, double ts, bool dc, bool dd, bool ds) { auto s = mara::schedule_t(); s.insert(task("write_checkpoint", 1, tc, dc)); s.insert(task("write_diagnostics", 2, td, dd)); s.insert(task("write_time_series", 3, ts, ds)); return s; }
inline mara::config_t times_of(double cpi, double dfi, double tsi, double tfinal) { return config_template().create().set("cpi", mara::config_parameter_t(cpi)).set("dfi", mara::config_parameter_t(dfi)).set("tsi", mara::config_parameter_t(tsi)).set("tfinal", mara::config_parameter_t(tfinal)); }
inline rel::app_state_t rel_app(double now, mara::schedule_t s, mara::config_t c) { auto a = rel::app_state_t(); a.solution_state.time = now; a.schedule = s; a.run_config = c; return a; }
mara::schedule_t rel_marked(double now, double tc, double td, double ts, double cpi, double dfi, double tsi, bool dc, bool dd, bool ds) { return rel::next_schedule(plan(tc, td, ts, dc, dd, ds), times_of(cpi, dfi, tsi, 1), now); }
mara::schedule_t rel_kept(double now, double tc, double td, double ts, double cpi, double dfi, double tsi, bool dc, bool dd, bool ds) { return rel::next(rel_app(now, plan(tc, td, ts, dc, dd, ds), times_of(cpi, dfi, tsi, 1))).schedule; }
double rel_same(double now, double x) { return rel::next(rel_app(now, plan(0, 0, 0, false, false, false), times_of(1, 1, 1, x))).run_config.get_double("tfinal"); }
bool rel_goes_on(double now, double x) { return rel::simulation_should_continue(rel_app(now, mara::schedule_t(), times_of(1, 1, 1, x))); }
inline newt::app_state_t newt_app(double now, mara::schedule_t s, mara::config_t c) { auto a = newt::app_state_t(); a.solution_state.time = now; a.schedule = s; a.run_config = c; return a; }
mara::schedule_t newt_marked(double now, double tc, double td, double ts, double cpi, double dfi, double tsi, bool dc, bool dd, bool ds) { return newt::next_schedule(plan(tc, td, ts, dc, dd, ds), times_of(cpi, dfi, tsi, 1), now); }
mara::schedule_t newt_kept(double now, double tc, double td, double ts, double cpi, double dfi, double tsi, bool dc, bool dd, bool ds) { return newt::next(newt_app(now, plan(tc, td, ts, dc, dd, ds), times_of(cpi, dfi, tsi, 1))).schedule; }
double newt_same(double now, double x) { return newt::next(newt_app(now, plan(0, 0, 0, false, false, false), times_of(1, 1, 1, x))).run_config.get_double("tfinal"); }
bool newt_goes_on(double now, double x) { return newt::simulation_should_continue(newt_app(now, mara::schedule_t(), times_of(1, 1, 1, x))); }
}
