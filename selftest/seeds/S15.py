prop = 'C02'
needs = 'writing to a data set through a selection with jumps larger than one'
breaks = 'a strided selection is written to a contiguous block of the data set'
edits = [('app_serialize.hpp',
  'result.skips = std::vector<hsize_t>(sel.jumps.begin(), sel.jumps.end());',
  'result.skips = std::vector<hsize_t>(sel.rank(), 1);')]
cpp = r'''
#include <iostream>
#include "app_serialize.hpp"
int main()
{
    h5::File f("a.h5", "w");
    auto d = f.require_dataset("d", h5::Datatype::native_int(), h5::Dataspace::simple(std::vector<std::size_t>{6}));
    d.write(std::vector<int>{0, 0, 0, 0, 0, 0});
    auto s = d.get_space();
    s.select(mara::make_hdf5_hyperslab(nd::access_pattern_t<1>().with_start(1).with_final(6).with_jumps(2)));
    d.write(std::vector<int>{7, 8, 9}, s);
    auto r = d.read<std::vector<int>>();
    for (auto x : r) std::cout << x << " ";
    return r == std::vector<int>{0, 7, 0, 8, 0, 9} ? 0 : 1;
}
'''
