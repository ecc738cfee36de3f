prop = 'C14'
needs = 'a viscous disk whose azimuthal shear differs on both sides of a face normal to y'
breaks = 'the viscous stress at faces normal to y uses the gradient of the cell on one side only for one component'
edits = [('subprog_binary_scheme.cpp',
  '            auto dy_ux = 0.5 * (gl.velocity_x() + gr.velocity_x());\n'
  '            auto dy_uy = 0.5 * (gl.velocity_y() + gr.velocity_y());\n'
  '\n'
  '            auto tauyx =',
  '            auto dy_ux = 0.5 * (gl.velocity_x() + gr.velocity_x());\n'
  '            auto dy_uy = 0.5 * (gl.velocity_y() + gl.velocity_y());\n'
  '\n'
  '            auto tauyx =')]
cpp = r'''
#include <iostream>
#include "app_compile_opts.hpp"
#include "subprog_binary_scheme.cpp"
int main()
{
    auto P = [] (double vx, double vy) { return mara::iso2d::primitive_t().with_sigma(1.0).with_velocity_x(vx).with_velocity_y(vy); };
    auto f = viscous_flux(1, prim_pair_t{P(0.1, 0.4), P(0.3, 0.9)}, prim_pair_t{P(0.2, 0.5), P(0.7, 0.8)}, 1.0);
    double d = std::abs(mara::get<2>(f).value - (0.45 - 0.65));
    std::cout << mara::get<2>(f).value << " " << d << std::endl;
    return d < 1e-12 ? 0 : 1;
}
'''
sh = r'''objs=$(ls src/*.o | grep -v -e app_main.o -e subprog_binary_scheme.o)
OMPI_CXX=g++ mpicxx.openmpi $FLAGS "$d/demo.cpp" $objs -o "$t/demo" -L/usr/lib/x86_64-linux-gnu/hdf5/openmpi -lhdf5 -lpthread || exit 3
cd "$t" && timeout 120 ./demo
'''
