#include <iostream>
#include <stdexcept>
#include <string>
#include "core_ndarray.hpp"
#include "core_geometric.hpp"
#include "core_tuple.hpp"
#include "core_dimensional.hpp"
#ifdef VIOLATE
auto f(mara::unit_mass<double> x) { return x.pow<1, 2>(); }
#else
auto f(mara::dimensional_value_t<0,2,0,double> x) { return x.pow<1, 2>(); }
#endif
