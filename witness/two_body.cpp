// The two-body model, as uses of its public interface.
#include "model_two_body.hpp"
namespace witness {
using namespace mara;
two_body_state_t state(orbital_elements_t P, double t) { return compute_two_body_state(P, t); }
two_body_state_t full(full_orbital_elements_t P, double t) { return compute_two_body_state(P, t); }
full_orbital_elements_t elements(two_body_state_t s, double t) { return compute_orbital_elements(s, t); }
double fe(double);
double ge(double);
double newton(double x, double tol) { return two_body::detail::solve_newton_rapheson([] (double x) { return fe(x); }, [] (double x) { return ge(x); }, x, tol); }
double newton_default(double x) { return two_body::detail::solve_newton_rapheson([] (double x) { return fe(x); }, [] (double x) { return ge(x); }, x); }
double clamped(double a, double b, double x) { return two_body::detail::clamp(a, b, x); }
double energy(orbital_elements_t P) { return orbital_energy(P); }
double period(orbital_elements_t P) { return orbital_period(P); }
double angmom(orbital_elements_t P) { return orbital_angular_momentum(P); }
double energy_of(two_body_state_t s) { return total_energy(s); }
double mass_of(two_body_state_t s) { return total_mass(s); }
double separation_of(two_body_state_t s) { return separation(s); }
double change(two_body_state_t s2, two_body_state_t s1) { return delta_a_over_a(s2, s1); }
double anomaly(full_orbital_elements_t P, double t) { return mean_anomaly(P, t); }
full_orbital_elements_t difference(full_orbital_elements_t a, full_orbital_elements_t b) { return diff(a, b); }
full_orbital_elements_t drift(full_orbital_elements_t a, double dt) { return diff_cm(a, dt); }
full_orbital_elements_t zeros() { return make_full_orbital_elements_with_zeros(); }
full_orbital_elements_t made(orbital_elements_t e) { return make_full_orbital_elements(e); }
full_orbital_elements_t plus(full_orbital_elements_t a, full_orbital_elements_t b) { return a + b; }
full_orbital_elements_t minus(full_orbital_elements_t a, full_orbital_elements_t b) { return a - b; }
full_orbital_elements_t times(full_orbital_elements_t a, double s) { return a * s; }
}
