// Initial state and diagnostics of the jet in a cloud: arbitrary options, arbitrary zones.
#include <cstddef>
#include <algorithm>
#include <functional>
#include <map>
#include <string>
#include <variant>
#include <vector>
#include "subprog_cloud.cpp"
namespace witness {
double fr(std::size_t i);
double fq(std::size_t j);
double fu(std::size_t i, std::size_t j, int k);
using par = mara::config_parameter_t; using sol = CloudProblem::solution_t;
struct options { int nr; double decades, inner, cutoff, mass, index, index2, delay, energy, duration, gamma, angle, exponent, floor; };
inline mara::config_t cfg(options o)
{
    return config_template().create().set("nr", par(o.nr)).set("num_decades", par(o.decades)).set("inner_radius", par(o.inner)).set("cloud_cutoff", par(o.cutoff)).set("cloud_mass", par(o.mass))
    .set("density_index", par(o.index)).set("density_index2", par(o.index2)).set("jet_delay_time", par(o.delay)).set("jet_total_energy", par(o.energy)).set("jet_duration", par(o.duration))
    .set("jet_gamma_beta", par(o.gamma)).set("jet_opening_angle", par(o.angle)).set("jet_structure_exp", par(o.exponent)).set("temperature_floor", par(o.floor));
}
inline sol state(double t, int n, int m)
{
    auto s = sol(); s.time = t;
    s.radial_vertices = nd::make_array([] (auto i) { return mara::make_length(fr(i[0])); }, nd::make_shape(n + 1)).shared();
    s.polar_vertices = nd::make_array([] (auto i) { return fq(i[0]); }, nd::make_shape(m + 1)).shared();
    s.conserved = nd::make_array([] (auto i) { auto u = mara::srhd::conserved_t(); for (int k = 0; k < 5; ++k) u[k] = fu(i[0], i[1], k); return u; }, nd::make_shape(n, m)).shared();
    return s;
}
nd::index_t<1> at(std::size_t i) { return nd::make_index(i); }
sol start(options o) { return CloudProblem::new_solution(cfg(o)); }
sol create(options o) { return CloudProblem::create_solution(cfg(o)); }
mara::schedule_t plan() { return CloudProblem::create_schedule(config_template().create()); }
mara::power_law_atmosphere_model medium(options o) { return CloudProblem::make_atmosphere_model(cfg(o)); }
mara::cloud_and_envelop_model envelop(options o) { return CloudProblem::make_cloud_envelop_model(cfg(o)); }
mara::jet_nozzle_model nozzle(options o) { return CloudProblem::make_jet_nozzle_model(cfg(o)); }
struct scales { double length, mass, time, velocity, energy, mass_density, energy_density, power; };
scales reference(options o) { auto u = CloudProblem::make_reference_units(cfg(o)); return {u.length(), u.mass(), u.time(), u.velocity(), u.energy(), u.mass_density(), u.energy_density(), u.power()}; }
CloudProblem::diagnostic_fields_t fields(options o, double t) { return CloudProblem::make_diagnostic_fields(state(t, 4, 2), cfg(o)); }
CloudProblem::diagnostic_fields_t long_fields(options o, double t) { return CloudProblem::make_diagnostic_fields(state(t, 68, 1), cfg(o)); }
}
