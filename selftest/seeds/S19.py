prop = 'C29'
needs = 'orbital elements with a nonzero argument of periapse'
breaks = 'the velocity of the secondary is rotated with a component of the velocity of the primary'
edits = [('model_two_body.hpp', 'auto vy2_rot = -vx2 * s + vy2 * c;', 'auto vy2_rot = -vx1 * s + vy2 * c;')]
cpp = r'''
#include <iostream>
#include <cmath>
#include <stdexcept>
#include "model_two_body.hpp"
int main()
{
    mara::orbital_elements_t e; e.separation = 1.0; e.total_mass = 1.0; e.mass_ratio = 0.5; e.eccentricity = 0.3;
    auto E = mara::make_full_orbital_elements(e); E.pomega = 0.7;
    auto s = mara::compute_two_body_state(E, 0.4);
    double p = s.body1.mass * s.body1.velocity_y + s.body2.mass * s.body2.velocity_y;
    std::cout << p << std::endl;
    return std::abs(p) < 1e-12 ? 0 : 1;
}
'''
