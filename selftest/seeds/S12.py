prop = 'C12'
needs = 'combining the cells of eight children (3D) whose last two differ'
breaks = "recombining eight blocks of cells puts the blocks 4 and 5 in each other's place"
edits = [('mesh_prolong_restrict.hpp',
  'auto combined_45 = cell_arrays[4] | nd::concat(cell_arrays[5]).on_axis(0);',
  'auto combined_45 = cell_arrays[5] | nd::concat(cell_arrays[4]).on_axis(0);')]
cpp = r'''
#include <iostream>
#include "core_ndarray.hpp"
#include "core_ndarray_ops.hpp"
#include "mesh_prolong_restrict.hpp"
int main()
{
    auto mk = [] (int b) { return nd::make_array([b] (auto) { return b; }, nd::make_shape(2, 2, 2)) | nd::to_shared(); };
    auto s = mara::arithmetic_sequence_t<decltype(mk(0)), 8>{mk(0), mk(1), mk(2), mk(3), mk(4), mk(5), mk(6), mk(7)};
    auto c = mara::combine_cells(s);
    int bad = 0;
    for (auto i : c.indexes()) if (c(i) != int(i[0] / 2 + 2 * (i[1] / 2) + 4 * (i[2] / 2))) ++bad;
    std::cout << bad << std::endl;
    return bad != 0;
}
'''
