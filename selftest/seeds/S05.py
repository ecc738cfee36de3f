prop = 'C28'
needs = 'comparing two lists of different length, the longer of which begins with all elements of the shorter'
breaks = 'a list compares equal to every list it is a prefix of'
edits = [('core_linked_list.hpp',
  'return head() == other.head() && tail() == other.tail();',
  'return head() == other.head() && (tail().empty() || tail() == other.tail());')]
cpp = r'''
#include <iostream>
#include "core_linked_list.hpp"
int main()
{
    using L = mara::linked_list_t<int>;
    L a(1, L(2, L())), b(1, L(2, L(3, L())));
    bool bad = a == b || ! (a != b) || ! (a == L(a));
    std::cout << bad << std::endl;
    return bad;
}
'''
