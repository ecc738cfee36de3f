// One time step of the axisymmetric jet-cloud solver on a 3 x 3 grid: arbitrary fields and vertices.
#include <cstddef>
#include <algorithm>
#include <functional>
#include <map>
#include <string>
#include <variant>
#include <vector>
#include "subprog_cloud.cpp"
namespace witness {
double fr(std::size_t i);
double fq(std::size_t j);
double fu(std::size_t i, std::size_t j, int k);
double fv(std::size_t i, std::size_t j, int k);
using par = mara::config_parameter_t; using sol = CloudProblem::solution_t;
inline sol state(double t, mara::rational_number_t n)
{
    auto s = sol(); s.time = t; s.iteration = n;
    s.radial_vertices = nd::make_array([] (auto i) { return mara::make_length(fr(i[0])); }, nd::make_shape(4)).shared();
    s.polar_vertices = nd::make_array([] (auto i) { return fq(i[0]); }, nd::make_shape(4)).shared();
    s.conserved = nd::make_array([] (auto i) { auto u = mara::srhd::conserved_t(); for (int k = 0; k < 5; ++k) u[k] = fu(i[0], i[1], k); return u; }, nd::make_shape(3, 3)).shared();
    return s;
}
inline sol other(double t, mara::rational_number_t n)
{
    auto s = state(t, n);
    s.conserved = nd::make_array([] (auto i) { auto u = mara::srhd::conserved_t(); for (int k = 0; k < 5; ++k) u[k] = fv(i[0], i[1], k); return u; }, nd::make_shape(3, 3)).shared();
    return s;
}
struct jet { double r0, energy, duration, exponent, angle, gamma, t0; };
inline CloudProblem::app_state_t app(sol s, int method, double theta, double floor, jet p)
{
    auto a = CloudProblem::app_state_t(); a.solution = s;
    a.run_config = config_template().create().set("reconstruct_method", par(method)).set("plm_theta", par(theta)).set("temperature_floor", par(floor))
    .set("inner_radius", par(p.r0)).set("jet_total_energy", par(p.energy)).set("jet_duration", par(p.duration)).set("jet_structure_exp", par(p.exponent)).set("jet_opening_angle", par(p.angle)).set("jet_gamma_beta", par(p.gamma));
    return a;
}
inline CloudProblem::app_state_t whole(sol s, int rk, double cfl)
{
    auto a = CloudProblem::app_state_t(); a.solution = s; a.run_config = config_template().create().set("rk_order", par(rk)).set("cfl_number", par(cfl)); return a;
}
sol step_pcm(double t, mara::rational_number_t n, double floor, double dt, double theta, jet p) { auto s = state(t, n), z = s; z.time = p.t0; return CloudProblem::advance(app(z, 1, theta, floor, p), s, mara::make_time(dt)); }
sol step_plm(double t, mara::rational_number_t n, double floor, double dt, double theta, jet p) { auto s = state(t, n), z = s; z.time = p.t0; return CloudProblem::advance(app(z, 2, theta, floor, p), s, mara::make_time(dt)); }
sol step_bad(double t, mara::rational_number_t n, double floor, double dt, double theta, jet p) { auto s = state(t, n); return CloudProblem::advance(app(s, 3, theta, floor, p), s, mara::make_time(dt)); }
sol sum(double t, mara::rational_number_t n, double v, mara::rational_number_t m) { return state(t, n) + other(v, m); }
sol times(double t, mara::rational_number_t n, int a, int b) { return state(t, n) * mara::make_rational(a, b); }
sol next1(double t, mara::rational_number_t n, double cfl) { return CloudProblem::next_solution(whole(state(t, n), 1, cfl)); }
sol next2(double t, mara::rational_number_t n, double cfl) { return CloudProblem::next_solution(whole(state(t, n), 2, cfl)); }
sol next3(double t, mara::rational_number_t n, double cfl) { return CloudProblem::next_solution(whole(state(t, n), 3, cfl)); }
inline mara::schedule_t::task_t task(const char* n, int k, double t, bool d) { auto r = mara::schedule_t::task_t(); r.name = n; r.num_times_performed = k; r.last_performed = t; r.is_due = d; return r; }
inline mara::schedule_t plan(double tc, double td, double ts, bool dc, bool dd, bool ds) { auto s = mara::schedule_t(); s.insert(task("write_checkpoint", 1, tc, dc)); s.insert(task("write_diagnostics", 2, td, dd)); s.insert(task("write_time_series", 3, ts, ds)); return s; }
inline mara::config_t times_of(double cpi, double dfi, double tsi, double tfinal) { return config_template().create().set("cpi", mara::config_parameter_t(cpi)).set("dfi", mara::config_parameter_t(dfi)).set("tsi", mara::config_parameter_t(tsi)).set("tfinal", mara::config_parameter_t(tfinal)); }
inline CloudProblem::app_state_t jet_app(double now, mara::schedule_t s, mara::config_t c) { auto a = CloudProblem::app_state_t(); a.solution = state(now, mara::make_rational(0, 1)); a.schedule = s; a.run_config = c; return a; }
mara::schedule_t jet_marked(double now, double tc, double td, double ts, double cpi, double dfi, double tsi, bool dc, bool dd, bool ds) { return CloudProblem::next_schedule(plan(tc, td, ts, dc, dd, ds), times_of(cpi, dfi, tsi, 1), now); }
mara::schedule_t jet_kept(double now, double tc, double td, double ts, double cpi, double dfi, double tsi, bool dc, bool dd, bool ds) { return CloudProblem::next(jet_app(now, plan(tc, td, ts, dc, dd, ds), times_of(cpi, dfi, tsi, 1))).schedule; }
double jet_same(double now, double x) { return CloudProblem::next(jet_app(now, plan(0, 0, 0, false, false, false), times_of(1, 1, 1, x))).run_config.get_double("tfinal"); }
bool jet_goes_on(double now, double x) { return CloudProblem::simulation_should_continue(jet_app(now, mara::schedule_t(), times_of(1, 1, 1, x))); }
}
