// One time step of the binary disk solver on a small mesh with a coarse-fine boundary: arbitrary fields, arbitrary solver parameters.
#include <cmath>
#include <cstddef>
#include <algorithm>
#include <functional>
#include <map>
#include <string>
#include <variant>
#include <vector>
#include "subprog_binary_scheme.cpp"
#include "binary_mesh.hpp"
namespace witness {
solution_t sum_u(sums a, sums b) { return state_u(a) + other_u(b); }
solution_t sum_q(sums a, sums b) { return state_q(a) + other_q(b); }
solution_t times_u(sums a, int n, int d) { return state_u(a) * mara::make_rational(n, d); }
solution_t times_q(sums a, int n, int d) { return state_q(a) * mara::make_rational(n, d); }
solution_t step_u(sums s, par p, double dt, bool safe) { auto d = data(p); d.conserve_linear_p = true; return advance(state_u(s), d, mara::make_time(dt), safe); }
solution_t step_q(sums s, par p, double dt, bool safe) { auto d = data(p); d.conserve_linear_p = false; return advance(state_q(s), d, mara::make_time(dt), safe); }
double dt_u(sums s, par p) { auto d = data(p); d.conserve_linear_p = true; return maximum_timestep(state_u(s), d); }
double dt_q(sums s, par p) { auto d = data(p); d.conserve_linear_p = false; return maximum_timestep(state_q(s), d); }
}
