prop = 'C07'
needs = 'a program that compares a length with a time using operator<'
breaks = 'quantities of different dimensions can be compared'
edits = [('core_dimensional.hpp',
  '    auto operator<(dimensional_value_t<C, G, S, T> other) const { return value < other.value; }',
  '    template<int C1, int G1, int S1>\n'
  '    auto operator<(dimensional_value_t<C1, G1, S1, T> other) const { return value < other.value; }\n'
  '    auto operator<(T other) const { return value < other; }')]
cpp = r'''
#include <iostream>
#include "core_dimensional.hpp"
template<typename A, typename B, typename = void> struct less_ok : std::false_type {};
template<typename A, typename B> struct less_ok<A, B, std::void_t<decltype(std::declval<A>() < std::declval<B>())>> : std::true_type {};
int main()
{
    using L = decltype(mara::make_length(1.0)); using T = decltype(mara::make_time(1.0));
    return less_ok<L, T>::value || ! less_ok<L, L>::value;
}
'''
