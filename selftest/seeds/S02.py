prop = 'C22'
needs = 'a relativistic flow that rotates (nonzero azimuthal four-velocity) away from the equator'
breaks = 'the polar component of the spherical source term loses the centrifugal cot(theta) term\'s factor; pressure balance holds but rotating flows are accelerated wrongly'
edits = [('physics_srhd.hpp', 'S[2] = (cotq * pg + H * (up * up * cotq - ur * uq)) / r;', 'S[2] = (cotq * pg + H * (up * uq * cotq - ur * uq)) / r;')]
cpp = r'''
#include <iostream>
#include <string>
#include <cmath>
#include "core_ndarray.hpp"
#include "core_geometric.hpp"
#include "core_rational.hpp"
#include "physics_srhd.hpp"
int main()
{
    auto p = mara::srhd::primitive_t().with_mass_density(1.0).with_gas_pressure(0.5).with_gamma_beta_1(0.2).with_gamma_beta_2(0.4).with_gamma_beta_3(0.7);
    double gm = 4. / 3, r = 2.0, q = 0.6;
    auto S = p.spherical_geometry_source_terms(r, q, gm);
    double H = 1.0 + 0.5 * gm / (gm - 1), cot = std::cos(q) / std::sin(q);
    double want = (cot * 0.5 + H * (0.7 * 0.7 * cot - 0.2 * 0.4)) / r;
    std::cout << S[2].value << " " << want << std::endl;
    return std::abs(S[2].value - want) < 1e-10 ? 0 : 1;
}
'''
