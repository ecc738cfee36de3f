prop = 'C33'
needs = 'a jet run in which the shock is more than 64 zones from the inner boundary'
breaks = 'the power reported 64 zones behind the shock is read 46 zones behind it'
edits = [('subprog_cloud.cpp', 'midpoint_index > 64 ? midpoint_index - 64 : 0;', 'midpoint_index > 64 ? midpoint_index - 46 : 0;')]
cpp = r'''
#include <iostream>
#include <cmath>
#include "app_compile_opts.hpp"
#include "subprog_cloud.cpp"
int main()
{
    auto cfg = config_template().create();
    const int n = 128; const double G = gamma_law_index;
    auto s = CloudProblem::solution_t();
    auto state = [] (std::size_t i) { return mara::srhd::primitive_t().with_mass_density(i < 100 ? 1.0 : 0.1).with_gas_pressure(i < 100 ? 1.0 : 1e-4).with_gamma_beta_1(i < 100 ? 0.5 + 0.001 * i : 0.0); };
    s.radial_vertices = nd::make_array([] (auto i) { return mara::make_length(1.0 + 0.01 * i[0]); }, nd::make_shape(n + 1)).shared();
    s.polar_vertices = nd::make_array([] (auto i) { return 0.1 * i[0]; }, nd::make_shape(2)).shared();
    auto dv = CloudProblem::cell_volumes(s.radial_vertices, s.polar_vertices);
    s.conserved = (nd::make_array([state] (auto i) { return state(i[0]).to_conserved_density(gamma_law_index); }, nd::make_shape(n, 1)) | nd::multiply(dv)).shared();
    auto f = CloudProblem::make_diagnostic_fields(s, cfg);
    auto unit = CloudProblem::make_reference_units(cfg);
    auto dA = CloudProblem::radial_face_areas(s.radial_vertices, s.polar_vertices);
    auto k = std::lround((f.shock_midpoint_radius(0) / unit.length() - 1.005) / 0.01);
    auto L = [&] (long i) { return (state(i).flux(mara::unit_vector_t::on_axis_1(), G)[4] * 0.5 * (dA(i, 0) + dA(i + 1, 0))).value * unit.power(); };
    auto rel = [] (double a, double b) { return std::fabs(a / b - 1.0); };
    std::cout << "shock in zone " << k << ": " << rel(f.postshock_flow_power64(0), L(k - 64)) << " " << rel(f.postshock_flow_power32(0), L(k - 32)) << std::endl;
    return k > 90 && k < 110 && rel(f.postshock_flow_power64(0), L(k - 64)) < 1e-6 && rel(f.postshock_flow_power32(0), L(k - 32)) < 1e-6 ? 0 : 1;
}
'''
sh = r'''objs=$(ls src/*.o | grep -v -e app_main.o -e subprog_cloud.o)
OMPI_CXX=g++ mpicxx.openmpi $FLAGS "$d/demo.cpp" $objs -o "$t/demo" -L/usr/lib/x86_64-linux-gnu/hdf5/openmpi -lhdf5 -lpthread || exit 3
cd "$t" && timeout 120 ./demo
'''
