#include <iostream>
#include <stdexcept>
#include <string>
#include "core_ndarray.hpp"
#include "core_geometric.hpp"
#include "core_tuple.hpp"
#include "core_dimensional.hpp"
#ifdef VIOLATE
double f(mara::unit_length<double> x) { return x.scalar(); }
#else
double f(mara::unit_scalar<double> x) { return x.scalar(); }
#endif
