prop = 'C34'
needs = 'a run with a non-zero accretion rate (mdot), beyond two separations'
breaks = 'the inward drift of the initial disk is computed with the peak density instead of the local one, so that the mass flow depends on radius'
edits = [('subprog_binary.cpp',
  'auto vr             = -mdot / (sigma(r) * 2 * M_PI * r) * (r > 2.0);',
  'auto vr             = -mdot / ((s0 + s1) * 2 * M_PI * r) * (r > 2.0);')]
cpp = r'''
#include <cmath>
#include <iostream>
#include "app_compile_opts.hpp"
#include "subprog_binary.hpp"
int main()
{
    const char* argv[] = {"binary", "mdot=1e-3"};
    auto profile = binary::create_disk_profile(binary::create_run_config(2, argv));
    for (double r : {2.5, 4.0, 6.0})
    {
        auto p = profile({mara::make_length(r), mara::make_length(0.0)});
        auto flow = -p.sigma() * p.velocity_x() * 2 * M_PI * r;
        std::cout << r << " " << flow << std::endl;
        if (std::fabs(flow - 1e-3) > 1e-12) return 1;
    }
}
'''
sh = r'''objs=$(ls src/*.o | grep -v -e app_main.o)
OMPI_CXX=g++ mpicxx.openmpi $FLAGS "$d/demo.cpp" $objs -o "$t/demo" -L/usr/lib/x86_64-linux-gnu/hdf5/openmpi -lhdf5 -lpthread || exit 3
cd "$t" && timeout 120 ./demo
'''
