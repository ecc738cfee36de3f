// Diagnostics of the binary disk solver.
#include <cmath>
#include <cstddef>
#include <algorithm>
#include <functional>
#include <map>
#include <string>
#include <variant>
#include <vector>
#include "subprog_binary_diagnostics.cpp"
#include "binary_mesh.hpp"
namespace witness {
double mass_u(sums s, par p) { auto d = data(p); d.conserve_linear_p = true; return disk_mass(state_u(s), d).value; }
double mass_q(sums s, par p) { auto d = data(p); d.conserve_linear_p = false; return disk_mass(state_q(s), d).value; }
double lz_u(sums s, par p) { auto d = data(p); d.conserve_linear_p = true; return disk_angular_momentum(state_u(s), d).value; }
double lz_q(sums s, par p) { auto d = data(p); d.conserve_linear_p = false; return disk_angular_momentum(state_q(s), d).value; }
}
