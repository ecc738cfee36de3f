#include <iostream>
#include <stdexcept>
#include <string>
#include "core_ndarray.hpp"
#include "core_geometric.hpp"
#include "core_tuple.hpp"
#include "core_dimensional.hpp"
#ifdef VIOLATE
auto f(mara::arithmetic_tuple_t<double, double> a, mara::arithmetic_tuple_t<double, double, double> b) { return a + b; }
#else
auto f(mara::arithmetic_tuple_t<double, double> a, mara::arithmetic_tuple_t<double, double> b) { return a + b; }
#endif
