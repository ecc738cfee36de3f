prop = 'C11'
needs = 'two access patterns with the same start, one of which differs from the other in its end only, or its jumps only'
breaks = 'operator!= says that two different access patterns are not different'
edits = [('core_ndarray.hpp',
  '        final != other.final ||\n        jumps != other.jumps;',
  '        (final != other.final &&\n        jumps != other.jumps);')]
cpp = r'''
#include <iostream>
#include "core_ndarray.hpp"
int main()
{
    auto p = nd::access_pattern_t<2>().with_final(4, 6);
    auto q = nd::access_pattern_t<2>().with_final(4, 6).with_jumps(2, 2);
    bool bad = ! (p != q) || (p == q);
    std::cout << bad << std::endl;
    return bad;
}
'''
