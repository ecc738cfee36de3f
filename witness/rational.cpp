#include <iostream>
#include <stdexcept>
#include <string>
#include "core_ndarray.hpp"
#include "core_rational.hpp"
namespace witness {
using R = mara::rational_number_t;
R make(int n, int d) { return mara::make_rational(n, d); }
R make1(int n) { return mara::make_rational(n); }
R zero() { return R(); }
R add(R a, R b) { return a + b; }
R sub(R a, R b) { return a - b; }
R mul(R a, R b) { return a * b; }
R div(R a, R b) { return a / b; }
R addi(R a, int b) { return a + b; }
R subi(R a, int b) { return a - b; }
R muli(R a, int b) { return a * b; }
R divi(R a, int b) { return a / b; }
R iadd(int b, R a) { return b + a; }
R isub(int b, R a) { return b - a; }
R addeq(R a, int b) { a += b; return a; }
R subeq(R a, int b) { a -= b; return a; }
R neg(R a) { return -a; }
R pos(R a) { return +a; }
bool lt(R a, R b) { return a < b; }
bool gt(R a, R b) { return a > b; }
bool le(R a, R b) { return a <= b; }
bool ge(R a, R b) { return a >= b; }
bool eq(R a, R b) { return a == b; }
bool ne(R a, R b) { return a != b; }
bool lti(R a, int b) { return a < b; }
bool gti(R a, int b) { return a > b; }
bool lei(R a, int b) { return a <= b; }
bool gei(R a, int b) { return a >= b; }
bool eqi(R a, int b) { return a == b; }
bool nei(R a, int b) { return a != b; }
double dbl(R a) { return a.as_double(); }
double dadd(R a, double b) { return a + b; }
double dsub(R a, double b) { return a - b; }
double dmul(R a, double b) { return a * b; }
double ddiv(R a, double b) { return a / b; }
bool integral(R a) { return a.is_integral(); }
int as_int(R a) { return a.as_integral(); }
int num(R a) { return a.get_numerator(); }
int den(R a) { return a.get_denominator(); }
}
