prop = 'C35'
needs = 'an atmosphere with inner index exactly 3'
breaks = 'the mass within the cutoff in the logarithmic case uses the density at the inner radius with the cutoff volume'
edits = [('model_atmosphere.hpp',
  '? 4 * M_PI * (density_at(rc) * std::pow(rc, 3) * std::log(rc / r0))\n'
  '        : 4 * M_PI * (density_at(rc) * std::pow(rc, 3) - density_at(r0) * std::pow(r0, 3)) / (3 - n1);\n'
  '    }\n'
  '\n'
  '    double mass_beyond',
  '? 4 * M_PI * (density_at(r0) * std::pow(rc, 3) * std::log(rc / r0))\n'
  '        : 4 * M_PI * (density_at(rc) * std::pow(rc, 3) - density_at(r0) * std::pow(r0, 3)) / (3 - n1);\n'
  '    }\n'
  '\n'
  '    double mass_beyond')]
cpp = r'''
#include <cmath>
#include <iostream>
#include "model_atmosphere.hpp"
int main()
{
    auto m = mara::power_law_atmosphere_model().with_inner_index(3.0), n = m.with_inner_index(3.0 + 1e-6);
    std::cout << m.mass_within_cutoff() << " " << n.mass_within_cutoff() << std::endl;
    return std::fabs(m.mass_within_cutoff() / n.mass_within_cutoff() - 1.0) < 1e-4 ? 0 : 1;
}
'''
