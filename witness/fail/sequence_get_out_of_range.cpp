#include <iostream>
#include <stdexcept>
#include <string>
#include "core_ndarray.hpp"
#include "core_geometric.hpp"
#include "core_tuple.hpp"
#include "core_dimensional.hpp"
#ifdef VIOLATE
double f(mara::arithmetic_sequence_t<double, 3> a) { return mara::get<3>(a); }
#else
double f(mara::arithmetic_sequence_t<double, 3> a) { return mara::get<2>(a); }
#endif
