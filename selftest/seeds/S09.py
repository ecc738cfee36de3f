prop = 'C13'
needs = 'a mesh where a coarse block lies above two finer blocks (in y)'
breaks = 'the lower face fluxes of a coarse block are replaced by fluxes of the wrong pair of fine blocks below it, so mass is not conserved there'
edits = [('subprog_binary_scheme.cpp',
  '        auto fluxl = nodel.at({1, {0, 1}})\n        | nd::concat(nodel.at({1, {1, 1}})).on_axis(0)',
  '        auto fluxl = nodel.at({1, {0, 0}})\n        | nd::concat(nodel.at({1, {1, 0}})).on_axis(0)')]
cpp = r'''
#include <iostream>
#include "app_compile_opts.hpp"
#include "subprog_binary_scheme.cpp"
int main()
{
    auto mk = [] (int b) { return nd::make_array([b] (auto i) { return 100.0 * b + 10.0 * i[0] + i[1]; }, nd::make_shape(2, 3)) | nd::to_shared(); };
    auto tree = mara::tree_of<2>(std::size_t(0)).bifurcate_if([] (auto) { return true; }, [] (auto v) { return mara::iota<4>(); })
        .bifurcate_if([] (auto v) { return v == 0; }, [] (auto v) { return mara::iota<4>(); });
    auto fy = tree.indexes().map([mk] (auto i) { return mk(i.level * 20 + i.coordinates[0] * 4 + i.coordinates[1]); });
    mara::tree_index_t<2> up; up.level = 1; up.coordinates[0] = 0; up.coordinates[1] = 1;
    auto f = correct_fluxes_y(fy)(up);
    double d = 0.0;
    for (std::size_t i = 0; i < 2; ++i)
    {
        mara::tree_index_t<2> below; below.level = 2; below.coordinates[0] = i; below.coordinates[1] = 1;
        auto g = fy.at(below);
        d += std::abs(f(i, std::size_t(0)) - g(0, 2) - g(1, 2));
    }
    std::cout << d << std::endl;
    return d < 1e-12 ? 0 : 1;
}
'''
sh = r'''objs=$(ls src/*.o | grep -v -e app_main.o -e subprog_binary_scheme.o)
OMPI_CXX=g++ mpicxx.openmpi $FLAGS "$d/demo.cpp" $objs -o "$t/demo" -L/usr/lib/x86_64-linux-gnu/hdf5/openmpi -lhdf5 -lpthread || exit 3
cd "$t" && timeout 120 ./demo
'''
