prop = 'C20'
needs = 'a sequence of three or more values whose smallest value is neither the first nor the last'
breaks = 'the minimum of a sequence ignores values between the first and the last that are smaller'
edits = [('core_sequence.hpp', 'result = std::min(result, this->operator[](i));', 'result = std::min(mara::get<0>(*this), this->operator[](i));')]
cpp = r'''
#include <iostream>
#include "core_sequence.hpp"
int main()
{
    auto s = mara::make_sequence(3, 1, 2);
    std::cout << s.min() << std::endl;
    return s.min() == 1 ? 0 : 1;
}
'''
