// Time integration of the binary solver, with the single step and the combination of solutions left arbitrary.
#include <cmath>
#include <cstddef>
#include <algorithm>
#include <functional>
#include <map>
#include <string>
#include <variant>
#include <vector>
#include "subprog_binary.cpp"
namespace witness {
double adv(double t, double dt, bool safe);
bool fails(double t, double dt, bool safe);
double dtmax(double t);
double mix(double a, double b);
double times(double a, double x);
double mass(double t); double lz(double t);
}
using namespace binary;
binary::solution_t binary::advance(const solution_t& s, const solver_data_t& d, mara::unit_time<double> dt, bool safe)
{
    if (witness::fails(s.time.value, dt.value, safe)) throw std::runtime_error("negative density");
    auto r = solution_t(); r.time = mara::make_time(witness::adv(s.time.value, dt.value, safe)); return r;
}
double binary::maximum_timestep(const solution_t& s, const solver_data_t& d) { return witness::dtmax(s.time.value); }
mara::unit_mass<double> binary::disk_mass(const solution_t& s, const solver_data_t& d) { return mara::make_mass(witness::mass(s.time.value)); }
mara::unit_angmom<double> binary::disk_angular_momentum(const solution_t& s, const solver_data_t& d) { return mara::unit_angmom<double>(witness::lz(s.time.value)); }
binary::solution_t binary::solution_t::operator+(const solution_t& o) const { auto r = solution_t(); r.time = mara::make_time(witness::mix(time.value, o.time.value)); return r; }
binary::solution_t binary::solution_t::operator*(mara::rational_number_t x) const { auto r = solution_t(); r.time = mara::make_time(witness::times(time.value, x.as_double())); return r; }
namespace witness {
struct conf { int order; int fixed; double rec, cfl; };
inline solver_data_t data(conf c) { auto d = solver_data_t(); d.rk_order = c.order; d.fixed_dt = c.fixed; d.recommended_time_step = mara::make_time(c.rec); d.cfl_number = c.cfl; return d; }
inline solution_t at(double t) { auto s = solution_t(); s.time = mara::make_time(t); return s; }
double next1(double t, conf c) { c.order = 1; return next_solution(at(t), data(c)).time.value; }
double next2(double t, conf c) { c.order = 2; return next_solution(at(t), data(c)).time.value; }
double next0(double t, conf c) { c.order = 0; return next_solution(at(t), data(c)).time.value; }
double next3(double t, conf c) { c.order = 3; return next_solution(at(t), data(c)).time.value; }
struct sums { mara::unit_time<double> time; mara::rational_number_t iteration;
    mara::arithmetic_sequence_t<mara::unit_mass<double>, 2> ma; mara::arithmetic_sequence_t<mara::unit_angmom<double>, 2> la, tq; mara::arithmetic_sequence_t<mara::unit_energy<double>, 2> wk;
    mara::unit_mass<double> me; mara::unit_angmom<double> le; mara::full_orbital_elements_t oa, og, oe; };
inline solution_t fill(sums s)
{
    auto r = solution_t(); r.time = s.time; r.iteration = s.iteration; r.mass_accreted_on = s.ma; r.angular_momentum_accreted_on = s.la; r.integrated_torque_on = s.tq; r.work_done_on = s.wk;
    r.mass_ejected = s.me; r.angular_momentum_ejected = s.le; r.orbital_elements_acc = s.oa; r.orbital_elements_grav = s.og; r.orbital_elements = s.oe; return r;
}
inline sums back(solution_t r) { return {r.time, r.iteration, r.mass_accreted_on, r.angular_momentum_accreted_on, r.integrated_torque_on, r.work_done_on, r.mass_ejected, r.angular_momentum_ejected, r.orbital_elements_acc, r.orbital_elements_grav, r.orbital_elements}; }
inline mara::schedule_t::task_t task(const char* n, int k, double t, bool d) { auto r = mara::schedule_t::task_t(); r.name = n; r.num_times_performed = k; r.last_performed = t; r.is_due = d; return r; }
inline state_t state(sums s, int k, double t, time_series_sample_t x)
{
    auto r = state_t(); r.solution = fill(s); r.time_series = r.time_series.prepend(x);
    r.schedule.insert(task("write_checkpoint", 1, 0, false)); r.schedule.insert(task("write_diagnostics", 2, 0, false)); r.schedule.insert(task("record_time_series", k, t, true));
    r.run_config = create_config_template().create(); return r;
}
time_series_sample_t sampled(sums s, int k, double t, time_series_sample_t x) { return run_tasks(state(s, k, t, x), solver_data_t()).time_series.head(); }
time_series_sample_t before(sums s, int k, double t, time_series_sample_t x) { return run_tasks(state(s, k, t, x), solver_data_t()).time_series.tail().head(); }
std::size_t samples(sums s, int k, double t, time_series_sample_t x) { return run_tasks(state(s, k, t, x), solver_data_t()).time_series.size(); }
sums still(sums s, int k, double t, time_series_sample_t x) { return back(run_tasks(state(s, k, t, x), solver_data_t()).solution); }
mara::schedule_t counted(sums s, int k, double t, time_series_sample_t x) { return run_tasks(state(s, k, t, x), solver_data_t()).schedule; }
inline state_t sched(double now, double tc, double td, double ts, double cpi, double dfi, double tsi, bool dc, bool dd, bool ds)
{
    auto r = state_t(); r.solution.time = mara::make_time(now);
    r.schedule.insert(task("write_checkpoint", 1, tc, dc)); r.schedule.insert(task("write_diagnostics", 2, td, dd)); r.schedule.insert(task("record_time_series", 3, ts, ds));
    r.run_config = create_config_template().create().set("cpi", mara::config_parameter_t(cpi)).set("dfi", mara::config_parameter_t(dfi)).set("tsi", mara::config_parameter_t(tsi)); return r;
}
mara::schedule_t marked(double now, double tc, double td, double ts, double cpi, double dfi, double tsi, bool dc, bool dd, bool ds) { return next_schedule(sched(now, tc, td, ts, cpi, dfi, tsi, dc, dd, ds)); }
mara::schedule_t kept(double now, double tc, double td, double ts, double cpi, double dfi, double tsi, bool dc, bool dd, bool ds, conf c) { c.order = 1; return next_state(sched(now, tc, td, ts, cpi, dfi, tsi, dc, dd, ds), data(c)).schedule; }
time_series_sample_t carried(sums s, time_series_sample_t x, conf c) { c.order = 1; return next_state(state(s, 0, 0, x), data(c)).time_series.head(); }
std::size_t carried_n(sums s, time_series_sample_t x, conf c) { c.order = 1; return next_state(state(s, 0, 0, x), data(c)).time_series.size(); }
double stepped(sums s, time_series_sample_t x, conf c) { c.order = 1; return next_state(state(s, 0, 0, x), data(c)).solution.time.value; }
double same_config(double t, double tfinal, conf c) { c.order = 1; auto r = state_t(); r = sched(t, 0, 0, 0, 1, 1, 1, false, false, false); r.run_config = r.run_config.set("tfinal", mara::config_parameter_t(tfinal)); return next_state(r, data(c)).run_config.get_double("tfinal"); }
bool goes_on(double t, double tfinal) { auto r = state_t(); r.solution.time = mara::make_time(t); r.run_config = create_config_template().create().set("tfinal", mara::config_parameter_t(tfinal)); return simulation_should_continue(r); }
}
