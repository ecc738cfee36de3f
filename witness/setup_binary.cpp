// What the binary disk solver makes of its run options, on a small mesh with arbitrary vertices.
#include <cmath>
#include <cstddef>
#include <algorithm>
#include <functional>
#include <map>
#include <string>
#include <variant>
#include <vector>
#include "subprog_binary.cpp"
#include "subprog_binary_solver_data.cpp"
#include "subprog_binary_diagnostics.cpp"
#include "binary_mesh.hpp"
namespace witness {
double vx(int b, int k, std::size_t i);
using par_ = mara::config_parameter_t; using str = std::string;
struct opt { double begin_live_binary, focus_factor, focus_index, source_term_softening, softening_radius, sink_radius, sink_rate, buffer_damping_rate, domain_radius, disk_radius, disk_mass, ambient_density, density_floor, separation, mass_ratio, eccentricity, mach_number, alpha_cutoff_radius, alpha, nu, mdot, cfl_number, plm_theta, cpi, dfi, tsi, tfinal; int fixed_dt, depth, block_size, rk_order, counter_rotate, axisymmetric_cs2, no_accretion_force; };
inline mara::config_t config(opt o, int linear, str method)
{
    auto c = create_config_template().create();
#define SET(x) c = c.set(#x, par_(o.x));
    SET(begin_live_binary) SET(focus_factor) SET(focus_index) SET(source_term_softening) SET(softening_radius) SET(sink_radius) SET(sink_rate) SET(buffer_damping_rate) SET(domain_radius) SET(disk_radius) SET(disk_mass) SET(ambient_density) SET(density_floor) SET(separation) SET(mass_ratio) SET(eccentricity) SET(mach_number) SET(alpha_cutoff_radius) SET(alpha) SET(nu) SET(mdot) SET(cfl_number) SET(plm_theta) SET(cpi) SET(dfi) SET(tsi) SET(tfinal) SET(fixed_dt) SET(depth) SET(block_size) SET(rk_order) SET(counter_rotate) SET(axisymmetric_cs2) SET(no_accretion_force)
    return c.set("conserve_linear_p", par_(linear)).set("reconstruct_method", par_(method));
}
quad_tree_t<location_2d_t> grid() { return mesh<location_2d_t>([] (int b, int, int, int, auto i, auto j) { return location_2d_t{mara::make_length(vx(b, 0, i)), mara::make_length(vx(b, 1, j))}; }, 3); }
solver_data_t data_u(opt o) { return create_solver_data(config(o, 1, "plm")); }
solver_data_t data_q(opt o) { return create_solver_data(config(o, 0, "pcm")); }
solver_data_t data_x(opt o) { return create_solver_data(config(o, 1, "ppm")); }
quad_tree_t<location_2d_t> verts(opt o) { return create_vertices(config(o, 1, "plm")); }
struct sol { double time; mara::rational_number_t iteration; sums s; };
inline sums back(solution_t r) { return {r.time, r.iteration, r.mass_accreted_on, r.angular_momentum_accreted_on, r.integrated_torque_on, r.work_done_on, r.mass_ejected, r.angular_momentum_ejected, r.orbital_elements_acc, r.orbital_elements_grav, r.orbital_elements}; }
sums start(opt o) { return back(create_state(config(o, 1, "plm")).solution); }
solution_t start_u(opt o) { return create_state(config(o, 1, "plm")).solution; }
solution_t start_q(opt o) { return create_state(config(o, 0, "plm")).solution; }
mara::schedule_t start_s(opt o) { return create_state(config(o, 1, "plm")).schedule; }
std::size_t start_n(opt o) { return create_state(config(o, 1, "plm")).time_series.size(); }
struct three { double sigma, vx, vy; };
three profile(opt o, double x, double y) { auto p = create_disk_profile(config(o, 1, "plm"))({mara::make_length(x), mara::make_length(y)}); return {p.sigma(), p.velocity_x(), p.velocity_y()}; }
}
namespace witness { int method_plm() { return int(reconstruct_method_t::plm); } int method_pcm() { return int(reconstruct_method_t::pcm); } }
