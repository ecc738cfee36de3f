prop = 'C32'
needs = 'a lazy array made with read_indexes that is evaluated after the statement that made it'
breaks = 'the array keeps a reference to the array of indexes inside the temporary operator that made it'
edits = [('core_ndarray.hpp',
  'auto mapping = [array_of_indexes, array_to_index] (auto&& index)',
  'auto mapping = [&array_of_indexes=array_of_indexes, array_to_index] (auto&& index)')]
cpp = r'''
#include <iostream>
#include "core_ndarray.hpp"
int main()
{
    auto src = nd::arange(6) | nd::to_shared();
    auto idx = nd::make_array([] (auto i) { return nd::make_index(5 - i[0]); }, nd::make_shape(3)) | nd::to_shared();
    auto B = src | nd::read_indexes(idx);
    int s = 0; for (std::size_t i = 0; i < 3; ++i) s = 10 * s + B(i);
    std::cout << s << std::endl;
    return s == 543 ? 0 : 1;
}
'''
sh = r'''g++ $FLAGS -fsanitize=address "$d/demo.cpp" -o "$t/demo" -lpthread || exit 3
cd "$t" && ASAN_OPTIONS=detect_stack_use_after_return=1:detect_leaks=0 timeout 120 ./demo
'''
