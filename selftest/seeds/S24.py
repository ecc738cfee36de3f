prop = 'C25'
needs = 'a pair of states one of which has a NaN velocity, so that no wave speed can be compared with zero'
breaks = 'the HLLC solver returns the right state when no wave sector contains the interface'
edits = [('physics_iso2d.hpp',
  '        else if (sr    <= 0.0                ) return Ur();\n'
  '        throw std::invalid_argument("riemann_hllc_variables_t::interface_conserved_state");',
  '        else                                   return Ur();')]
cpp = r'''
#include <iostream>
#include "physics_iso2d.hpp"
int main()
{
    auto P = [] (double v) { return mara::iso2d::primitive_t().with_sigma(1.0).with_velocity_x(v); };
    auto v = mara::iso2d::compute_hllc_variables(P(std::nan("")), P(0.1), 1.0, 1.0, mara::unit_vector_t::on_axis(0));
    try { v.interface_conserved_state(); } catch (const std::exception&) { return 0; }
    return 1;
}
'''
