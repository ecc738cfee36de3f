prop = 'C23'
needs = 'a colliding flow with unequal surface densities, so that the star pressure exceeds one side\'s pressure but the two sides differ'
breaks = 'the left wave speed estimate of the HLLC solver is taken from the right pressure; fluxes of strong asymmetric compressions are wrong'
edits = [('physics_iso2d.hpp', 'auto ql = std::max(1.0, std::sqrt(pstar / press_l));', 'auto ql = std::max(1.0, std::sqrt(pstar / press_r));')]
cpp = r'''
#include <iostream>
#include <cmath>
#include "core_ndarray.hpp"
#include "core_geometric.hpp"
#include "physics_iso2d.hpp"
int main()
{
    // a moving observer sees the mirrored problem: F(L,R,n) must equal the mirror of F(R',L',n)
    auto P = [] (double s, double u, double v) { return mara::iso2d::primitive_t().with_sigma(s).with_velocity_x(u).with_velocity_y(v); };
    auto n = mara::unit_vector_t::on_axis_1();
    auto F = mara::iso2d::riemann_hllc(P(1.0, +2.0, 0.1), P(0.2, -2.0, 0.3), 0.5, 0.5, n);
    auto G = mara::iso2d::riemann_hllc(P(0.2, +2.0, 0.3), P(1.0, -2.0, 0.1), 0.5, 0.5, n);
    auto f0 = mara::get<0>(F).value, g0 = mara::get<0>(G).value;
    auto f1 = mara::get<1>(F).value, g1 = mara::get<1>(G).value;
    std::cout << f0 << " " << g0 << " " << f1 << " " << g1 << std::endl;
    return std::abs(f0 + g0) < 1e-12 && std::abs(f1 - g1) < 1e-12 ? 0 : 1;
}
'''
