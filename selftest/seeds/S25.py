prop = 'C31'
needs = 'a velocity or pressure gradient in the innermost zones of the blast wave'
breaks = 'the reflecting inner boundary mirrors the second zone instead of the first'
edits = [('subprog_sedov.cpp',
  '        | nd::select_first(1, 0)\n        | nd::map([] (auto p) { return negate_radial_velocity(p); });',
  '        | nd::select_first(2, 0)\n        | nd::select_final(1, 0)\n        | nd::map([] (auto p) { return negate_radial_velocity(p); });')]
cpp = r'''
#include <iostream>
#include "app_compile_opts.hpp"
#include "subprog_sedov.cpp"
int main()
{
    auto A = nd::make_array([] (auto i) { return mara::srhd::primitive_t().with_mass_density(1.0 + i[0]).with_gamma_beta_1(0.5 + i[0]); }, nd::make_shape(5)) | nd::to_shared();
    auto B = SedovProblem<mara::srhd>::extend_reflecting_inner()(A);
    std::cout << B(0).mass_density() << std::endl;
    return B(0).mass_density() == 1.0 && B(0).gamma_beta_1() == -0.5 && B(1).mass_density() == 1.0 ? 0 : 1;
}
'''
sh = r'''objs=$(ls src/*.o | grep -v -e app_main.o -e subprog_sedov.o)
OMPI_CXX=g++ mpicxx.openmpi $FLAGS "$d/demo.cpp" $objs -o "$t/demo" -L/usr/lib/x86_64-linux-gnu/hdf5/openmpi -lhdf5 -lpthread || exit 3
cd "$t" && timeout 120 ./demo
'''
