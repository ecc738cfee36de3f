// Initial state and diagnostics of the spherical blast wave: arbitrary options, arbitrary shells.
#include <cstddef>
#include <algorithm>
#include <functional>
#include <map>
#include <string>
#include <variant>
#include <vector>
#include "subprog_sedov.cpp"
namespace witness {
double fr(std::size_t i);
double fu(std::size_t i, int k);
using par = mara::config_parameter_t;
struct options { int nr; double outer, pressure, density, index; };
inline mara::config_t cfg(options o) { return config_template().create().set("nr", par(o.nr)).set("outer_radius", par(o.outer)).set("explosion_pressure", par(o.pressure)).set("explosion_density", par(o.density)).set("density_index", par(o.index)); }
template<class P, class H> typename P::solution_state_t state(double t, mara::rational_number_t n)
{
    auto s = typename P::solution_state_t(); s.time = t; s.iteration = n;
    s.vertices = nd::make_array([] (auto i) { return fr(i[0]); }, nd::make_shape(6)).shared();
    s.conserved = nd::make_array([] (auto i) { auto u = typename H::conserved_t(); for (int k = 0; k < 5; ++k) u[k] = fu(i[0], k); return u; }, nd::make_shape(5)).shared();
    return s;
}
nd::index_t<1> at(std::size_t i) { return nd::make_index(i); }
using rel = SedovProblem<mara::srhd>; using newt = SedovProblem<mara::euler>;
rel::solution_state_t start_rel(options o) { return rel::new_solution(cfg(o)); }
newt::solution_state_t start_newt(options o) { return newt::new_solution(cfg(o)); }
rel::solution_state_t create_rel(options o) { return rel::create_solution(cfg(o)); }
newt::solution_state_t create_newt(options o) { return newt::create_solution(cfg(o)); }
rel::diagnostic_fields_t fields_rel(double t, mara::rational_number_t n) { return rel::make_diagnostic_fields(state<rel, mara::srhd>(t, n)); }
newt::diagnostic_fields_t fields_newt(double t, mara::rational_number_t n) { return newt::make_diagnostic_fields(state<newt, mara::euler>(t, n)); }
std::map<std::string, double> series_rel(double t, mara::rational_number_t n) { return rel::compute_time_series_data(state<rel, mara::srhd>(t, n)); }
std::map<std::string, double> series_newt(double t, mara::rational_number_t n) { return newt::compute_time_series_data(state<newt, mara::euler>(t, n)); }
std::vector<std::string> columns() { return rel::get_time_series_column_names(); }
mara::schedule_t plan_rel() { return rel::create_schedule(config_template().create()); }
mara::schedule_t plan_newt() { return newt::create_schedule(config_template().create()); }
double speed_rel(mara::srhd::primitive_t a, mara::srhd::primitive_t b) { return solve_for_shock_velocity(a, b); }
double speed_newt(mara::euler::primitive_t a, mara::euler::primitive_t b) { return solve_for_shock_velocity(a, b); }
}
