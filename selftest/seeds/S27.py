prop = 'C16'
needs = 'a second-order (rk_order=2) run in which mass is ejected through the buffer zone'
breaks = 'combining Runge-Kutta stages counts the ejected mass twice: one field of the solution is not scaled like the others'
edits = [('subprog_binary_scheme.cpp', '        mass_ejected                   * scale.as_double(),', '        mass_ejected,')]
cpp = r'''
#include <iostream>
#include "app_compile_opts.hpp"
#include "subprog_binary.hpp"
int main()
{
    binary::solution_t s; 
    s.mass_ejected = 2.0; s.angular_momentum_ejected = 4.0;
    auto t = s * mara::make_rational(1, 2);
    std::cout << t.mass_ejected.value << " " << t.angular_momentum_ejected.value << std::endl;
    return t.mass_ejected.value == 1.0 && t.angular_momentum_ejected.value == 2.0 ? 0 : 1;
}
'''
sh = r'''objs=$(ls src/*.o | grep -v -e app_main.o)
OMPI_CXX=g++ mpicxx.openmpi $FLAGS "$d/demo.cpp" $objs -o "$t/demo" -L/usr/lib/x86_64-linux-gnu/hdf5/openmpi -lhdf5 -lpthread || exit 3
cd "$t" && timeout 120 ./demo
'''
