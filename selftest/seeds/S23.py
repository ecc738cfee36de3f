prop = 'C24'
needs = 'using the combined eigensystem function instead of the three single ones'
breaks = 'the combined function hands out the left eigenvectors in the place of the right ones and vice versa'
edits = [('physics_euler.hpp',
  'return std::make_tuple(sys.eigenvalues(), sys.right_eigenvectors(), sys.left_eigenvectors());',
  'return std::make_tuple(sys.eigenvalues(), sys.left_eigenvectors(), sys.right_eigenvectors());')]
cpp = r'''
#include <iostream>
#include "physics_euler.hpp"
int main()
{
    auto P = mara::euler::primitive_t().with_gas_pressure(1.0).with_mass_density(1.5).with_velocity_1(0.2).with_velocity_2(0.3).with_velocity_3(0.4);
    auto s = P.eigensystem(1.4);
    double d = std::abs(std::get<1>(s)(1, 4).value - P.right_eigenvectors(1.4)(1, 4).value);
    std::cout << d << std::endl;
    return d < 1e-12 ? 0 : 1;
}
'''
