prop = 'C08'
needs = 'many writes of scalars (or other uses of scalar data spaces) in one program'
breaks = 'data spaces of rank zero are never released: every write of a scalar leaks an identifier'
edits = [('core_hdf5.hpp',
  '        if (id != -1)\n        {\n            detail::check(H5Sclose(id));',
  '        if (id != -1)\n        {\n            if (rank() > 0) detail::check(H5Sclose(id));')]
cpp = r'''
#include <iostream>
#include "core_hdf5.hpp"
int main()
{
    { h5::Dataspace warm; }
    hid_t a = H5Screate(H5S_SCALAR);
    for (int i = 0; i < 10; ++i) { auto s = h5::Dataspace::scalar(); auto t = s; auto v = h5::Dataspace::simple(std::vector<std::size_t>{3}); }
    hid_t b = H5Screate(H5S_SCALAR);
    int open = 0;
    for (hid_t i = a + 1; i < b; ++i) if (H5Iis_valid(i) > 0) ++open;
    std::cout << b - a << " " << open << std::endl;
    return b - a > 10 && open == 0 ? 0 : 1;
}
'''
