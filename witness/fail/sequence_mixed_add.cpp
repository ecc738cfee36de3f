#include <iostream>
#include <stdexcept>
#include <string>
#include "core_ndarray.hpp"
#include "core_geometric.hpp"
#include "core_tuple.hpp"
#include "core_dimensional.hpp"
#ifdef VIOLATE
auto f(mara::arithmetic_sequence_t<mara::unit_length<double>, 3> a, mara::arithmetic_sequence_t<mara::unit_mass<double>, 3> b) { return a + b; }
#else
auto f(mara::arithmetic_sequence_t<mara::unit_length<double>, 3> a, mara::arithmetic_sequence_t<mara::unit_length<double>, 3> b) { return a + b; }
#endif
