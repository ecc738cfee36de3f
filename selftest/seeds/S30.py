prop = 'C30'
needs = 'a cubic with a double root above its centre (discriminant exactly zero, r negative)'
breaks = 'the three roots of the cubic have the wrong sign relative to the centre'
edits = [('math_polynomial.hpp', 'auto s = (r >= 0.0) ? std::pow(r, 1. / 3) : -std::pow(-r, 1. / 3);', 'auto s = std::pow(std::fabs(r), 1. / 3);')]
cpp = r'''
#include <cmath>
#include <iostream>
#include "math_polynomial.hpp"
int main()
{
    auto bad = 0;
    for (double c3 : {1.0, -2.0})
        for (double sign : {1.0, -1.0})
        {
            auto r = mara::cubic_roots(c3, 0.0, -3.0 * c3, 2.0 * sign * c3);
            for (double x : {r.x1, r.x2, r.x3})
                if (! (std::fabs(x * x * x - 3.0 * x + 2.0 * sign) < 1e-8)) ++bad;
        }
    std::cout << bad << std::endl;
    return bad ? 1 : 0;
}
'''
