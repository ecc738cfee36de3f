#include <iostream>
#include <stdexcept>
#include <string>
#include "core_ndarray.hpp"
#include "core_geometric.hpp"
#include "core_tuple.hpp"
#include "core_dimensional.hpp"
#ifdef VIOLATE
auto f(mara::unit_length<double> x) { return x.pow<1, 2>(); }
#else
auto f(mara::unit_area<double> x) { return x.pow<1, 2>(); }
#endif
