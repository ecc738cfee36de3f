// Instantiates the equation systems with the headers in the order the subprograms use.
#include <iostream>
#include <stdexcept>
#include <string>
#include "core_ndarray.hpp"
#include "core_geometric.hpp"
#include "core_rational.hpp"
#include "physics_srhd.hpp"
#include "physics_iso2d.hpp"
#include "physics_euler.hpp"
