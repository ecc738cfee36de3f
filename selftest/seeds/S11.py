prop = 'C15'
needs = 'a run with more than one block in which accretion delivers different x and y forces'
breaks = 'adding the totals of two blocks puts the y force of one block in the place of the x force of the other; a single block is unaffected when its forces are symmetric'
edits = [('subprog_binary_scheme.cpp', 'integrated_force_y_on + other.integrated_force_y_on', 'integrated_force_y_on + other.integrated_force_x_on')]
cpp = r'''
#include <iostream>
#include "app_compile_opts.hpp"
#include "subprog_binary_scheme.cpp"
int main()
{
    binary::source_term_total_t a, b;
    a.integrated_force_x_on[0] = 1.0; a.integrated_force_y_on[0] = 2.0;
    b.integrated_force_x_on[0] = 3.0; b.integrated_force_y_on[0] = 5.0;
    auto c = a + b;
    std::cout << c.integrated_force_y_on[0].value << std::endl;
    return c.integrated_force_y_on[0].value == 7.0 ? 0 : 1;
}
'''
sh = r'''objs=$(ls src/*.o | grep -v -e app_main.o -e subprog_binary_scheme.o)
OMPI_CXX=g++ mpicxx.openmpi $FLAGS "$d/demo.cpp" $objs -o "$t/demo" -L/usr/lib/x86_64-linux-gnu/hdf5/openmpi -lhdf5 -lpthread || exit 3
cd "$t" && timeout 120 ./demo
'''
