prop = 'C05'
needs = 'a domain whose extent is not a multiple of the number of blocks'
breaks = 'the blocks of an unevenly divided domain all get the extent of the first block: the decomposition no longer tiles the domain'
edits = [('app_parallel.hpp',
  'block.final[axis] = block.start[axis] + block_sizes[axis][index[axis]];',
  'block.final[axis] = block.start[axis] + block_sizes[axis].front();')]
cpp = r'''
#include <iostream>
#include <vector>
#include "core_ndarray.hpp"
#include "core_ndarray_ops.hpp"
#include "app_parallel.hpp"
int main()
{
    auto A = mara::create_access_pattern_array(nd::make_shape(11, 7), nd::make_shape(4, 3));
    std::vector<int> hits(11 * 7, 0); bool bad = false;
    for (auto block : A) for (auto i : block) { if (i[0] < 11 && i[1] < 7) ++hits[i[0] * 7 + i[1]]; else bad = true; }
    for (auto h : hits) if (h != 1) bad = true;
    std::cout << bad << std::endl;
    return bad;
}
'''
