// Slope limiter, roots of polynomials, and the search for shocks, with arbitrary arguments.
#include <cmath>
#include <stdexcept>
#include <string>
#include <vector>
#include <utility>
#include <cstddef>
#include "math_interpolation.hpp"
#include "math_polynomial.hpp"
#include "post_shock_locator.hpp"
namespace witness {
using namespace mara;
double plm(double l, double m, double r, double theta) { return plm_gradient(l, m, r, theta); }
using len = dimensional_value_t<1, 0, 0, double>; using mass = dimensional_value_t<0, 1, 0, double>;
len plm_d(len l, len m, len r, double theta) { return plm_gradient(l, m, r, theta); }
using seq = arithmetic_sequence_t<double, 3>; using dseq = arithmetic_sequence_t<len, 2>;
seq plm_s(seq l, seq m, seq r, double theta) { return plm_gradient(l, m, r, theta); }
dseq plm_sd(dseq l, dseq m, dseq r, double theta) { return plm_gradient(l, m, r, theta); }
struct state : public derivable_sequence_t<double, 2, state> {};
state plm_x(state l, state m, state r, double theta) { return plm_gradient(l, m, r, theta); }
using tup = arithmetic_tuple_t<len, double, mass>;
tup plm_t(tup l, tup m, tup r, double theta) { return plm_gradient(l, m, r, theta); }
cubic_roots_t cubic(double c3, double c2, double c1, double c0) { return cubic_roots(c3, c2, c1, c0); }
quartic_roots_t quartic(double d4, double d3, double d2, double d1, double d0) { return quartic_roots(d4, d3, d2, d1, d0); }
struct point { double x, y; };
point vertex(double x1, double x2, double x3, double y1, double y2, double y3) { auto p = parabola_vertex(x1, x2, x3, y1, y2, y3); return {p.first, p.second}; }
double fp(std::size_t i);
struct prim { double p; double gas_pressure() const { return p; } double specific_entropy(double gamma) const { return p * gamma; } };
inline auto field(std::size_t n) { return nd::make_array([] (auto i) { return fp(i[0]); }, nd::make_shape(n)).shared(); }
inline auto prims(std::size_t n) { return nd::make_array([] (auto i) { return prim{fp(i[0])}; }, nd::make_shape(n)).shared(); }
#define BACK(n, i) std::size_t behind_##n##_##i() { return find_index_of_maximum_behind(field(n), i); } std::size_t pressure_##n##_##i() { return find_index_of_maximum_pressure_behind(prims(n), i); } std::size_t ahead_##n##_##i() { return find_index_of_pressure_plateau_ahead(prims(n), i); }
BACK(5, 0) BACK(5, 1) BACK(5, 2) BACK(5, 3) BACK(5, 4) BACK(5, 5) BACK(5, 6)
std::size_t shock_2() { return find_shock_index(prims(2), 2.0)[0]; }
std::size_t shock_4() { return find_shock_index(prims(4), 2.0)[0]; }
}
