prop = 'C19'
needs = 'comparing two rationals of different denominators, with operator>'
breaks = 'the comparison is made without multiplying by both denominators: 1/3 is found greater than 1/2'
edits = [('core_rational.hpp', 'return (*this - other).num > 0;', 'return num * other.den > other.num;')]
cpp = r'''
#include <iostream>
#include "core_rational.hpp"
int main()
{
    auto a = mara::make_rational(1, 3), b = mara::make_rational(1, 2);
    std::cout << (a > b) << std::endl;
    return a > b || ! (b > a) ? 1 : 0;
}
'''
