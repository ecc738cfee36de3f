// The models of the medium and of the jet, with arbitrary parameters and positions.
#include <cmath>
#include "model_atmosphere.hpp"
#include "model_jet_nozzle.hpp"
namespace witness {
using namespace mara;
using atm = power_law_atmosphere_model; using env = cloud_and_envelop_model; using jet = jet_nozzle_model;
double rho(atm a, double r) { return a.density_at(r); }
double within(atm a) { return a.mass_within_cutoff(); }
double beyond(atm a) { return a.mass_beyond_cutoff(); }
double total(atm a) { return a.total_mass(); }
double scaled(atm a, double M) { return a.with_total_mass(M).total_mass(); }
atm scaled_m(atm a, double M) { return a.with_total_mass(M); }
atm set_f0(atm a, double x) { return a.with_coefficient(x); }
atm set_r0(atm a, double x) { return a.with_inner_radius(x); }
atm set_rc(atm a, double x) { return a.with_cutoff_radius(x); }
atm set_n1(atm a, double x) { return a.with_inner_index(x); }
atm set_n2(atm a, double x) { return a.with_outer_index(x); }
jet set_Ej(jet a, double x) { return a.with_total_energy(x); }
jet set_G0(jet a, double x) { return a.with_lorentz_factor(x); }
jet set_tj(jet a, double x) { return a.with_jet_duration(x); }
jet set_qj(jet a, double x) { return a.with_opening_angle(x); }
jet set_as(jet a, double x) { return a.with_structure_exponent(x); }
jet set_jr0(jet a, double x) { return a.with_inner_radius(x); }
double lum(jet a, double q, double t) { return a.luminosity_per_steradian(q, t); }
double gb(jet a, double q, double t) { return a.gamma_beta(q, t); }
double base(jet a) { return a.density_at_base(); }
env set_ir(env a, double x) { return a.with_inner_radius(x); }
env set_ci(env a, double x) { return a.with_cloud_index(x); }
double e_u(env a, double m) { return a.gamma_beta(m); }
double e_v(env a, double m) { return a.velocity(m); }
double e_du(env a, double m) { return a.dudm(m); }
double e_r(env a, double m, double t) { return a.radius(m, t); }
double e_d(env a, double m, double t) { return a.density(m, t); }
double e_cu(env a) { return a.cloud_gamma_beta(); }
double e_cv(env a) { return a.cloud_velocity(); }
double e_rc(env a, double t) { return a.cloud_outer_boundary(t); }
double e_r1(env a, double t) { return a.envelop_outer_boundary(t); }
double e_f(env a, double r, double t) { return a.mass_coordinate(r, t); }
double e_rho(env a, double r, double t) { return a.density_at(r, t); }
double e_gb(env a, double r, double t) { return a.gamma_beta_at(r, t); }
double e_vel(env a, double r, double t) { return a.velocity_at(r, t); }
double e_mc(env a, double t) { return a.cloud_mass(t); }
double e_mt(env a, double t) { return a.total_mass(t); }
}
