prop = 'C09'
needs = 'changing the extent of a data set whose layout does not allow it (not chunked, or beyond its maximum)'
breaks = 'set_extent silently does nothing when the library refuses it'
edits = [('core_hdf5.hpp', '        detail::check(H5Dset_extent(link.id, &hdims[0]));', '        H5Dset_extent(link.id, &hdims[0]);')]
cpp = r'''
#include <iostream>
#include "core_hdf5.hpp"
int main()
{
    h5::File f("a.h5", "w");
    auto d = f.require_dataset("d", h5::Datatype::native_int(), h5::Dataspace::simple(std::vector<std::size_t>{6}));
    try { d.set_extent(8); } catch (const std::exception& e) { return 0; }
    std::cout << "no error" << std::endl;
    return 1;
}
'''
