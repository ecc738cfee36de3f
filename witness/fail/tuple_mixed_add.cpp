#include <iostream>
#include <stdexcept>
#include <string>
#include "core_ndarray.hpp"
#include "core_geometric.hpp"
#include "core_tuple.hpp"
#include "core_dimensional.hpp"
#ifdef VIOLATE
auto f(mara::arithmetic_tuple_t<double, mara::unit_length<double>> a, mara::arithmetic_tuple_t<double, mara::unit_mass<double>> b) { return a + b; }
#else
auto f(mara::arithmetic_tuple_t<double, mara::unit_length<double>> a, mara::arithmetic_tuple_t<double, mara::unit_length<double>> b) { return a + b; }
#endif
