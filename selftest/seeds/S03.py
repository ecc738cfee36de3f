prop = 'C21'
needs = 'converting an angular-momentum state with nonzero angular momentum to linear momenta, at a position off the y axis'
breaks = 'the y momentum obtained from radial/angular momentum has the wrong sign of the angular part'
edits = [('physics_iso2d.hpp', 'auto py = (Sr * x[1] + Lz * x[0]) / r2;', 'auto py = (Sr * x[1] - Lz * x[0]) / r2;')]
cpp = r'''
#include <iostream>
#include <cmath>
#include "core_ndarray.hpp"
#include "core_geometric.hpp"
#include "physics_iso2d.hpp"
int main()
{
    auto P = mara::iso2d::primitive_t().with_sigma(1.5).with_velocity_x(0.3).with_velocity_y(-0.7);
    auto x = mara::iso2d::location_2d_t {{mara::make_length(2.0), mara::make_length(0.5)}};
    auto U = P.to_conserved_per_area();
    auto V = mara::iso2d::to_conserved_per_area(P.to_conserved_angmom_per_area(x), x);
    double e = std::abs(mara::get<1>(U).value - mara::get<1>(V).value) + std::abs(mara::get<2>(U).value - mara::get<2>(V).value);
    std::cout << e << std::endl;
    return e < 1e-12 ? 0 : 1;
}
'''
