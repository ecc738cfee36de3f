// A small binary disk mesh (seven blocks of 2 x 2 cells, one quadrant refined) with arbitrary fields and solver parameters.
namespace witness {
double fs(int b, int k, std::size_t i, std::size_t j);
double ft(int b, int k, std::size_t i, std::size_t j);
double fi(int b, int k, std::size_t i, std::size_t j);
double fb(int b, std::size_t i, std::size_t j);
using namespace binary;
using cu = mara::iso2d::conserved_per_area_t; using cq = mara::iso2d::conserved_angmom_per_area_t;
inline cu mku(double a, double b, double c) { return mara::make_arithmetic_tuple(mara::make_dimensional<-2, 1, 0>(a), mara::make_dimensional<-1, 1, -1>(b), mara::make_dimensional<-1, 1, -1>(c)); }
inline cq mkq(double a, double b, double c) { return mara::make_arithmetic_tuple(mara::make_dimensional<-2, 1, 0>(a), mara::make_dimensional<0, 1, -1>(b), mara::make_dimensional<0, 1, -1>(c)); }
template<class V, class F> nd::shared_array<V, 2> block(F f, std::size_t n) { return nd::make_array([f] (auto i) -> V { return f(i[0], i[1]); }, nd::make_shape(n, n)).shared(); }
// seven blocks: one quadrant is refined. f(block, level, bi, bj, i, j)
template<class V, class F> quad_tree_t<V> mesh(F f, std::size_t n)
{
    using T = quad_tree_t<V>; using mara::tree_of;
    auto leaf = [=] (int b, int level, int bi, int bj) { return tree_of<2>(block<V>([=] (auto i, auto j) { return f(b, level, bi, bj, i, j); }, n)); };
    auto fine = T{std::make_shared<mara::arithmetic_sequence_t<T, 4>>(mara::make_sequence(leaf(0, 2, 0, 0), leaf(1, 2, 1, 0), leaf(2, 2, 0, 1), leaf(3, 2, 1, 1)))};
    return T{std::make_shared<mara::arithmetic_sequence_t<T, 4>>(mara::make_sequence(fine, leaf(4, 1, 1, 0), leaf(5, 1, 0, 1), leaf(6, 1, 1, 1)))};
}
inline location_2d_t at(double rd, int level, int bi, int bj, double i, double j)
{
    auto n = 2 * (1 << level);
    return {mara::make_length(rd * ((2 * bi + i) * 2 / n - 1)), mara::make_length(rd * ((2 * bj + j) * 2 / n - 1))};
}
struct par { double sink_rate, softening, gst, rd, sink_radius, floor, mach, alpha, cutoff, nu, theta, live; bool axi, noacc, pcm; };
inline solver_data_t data(par p)
{
    auto s = solver_data_t(); auto rd = p.rd;
    s.sink_rate = p.sink_rate; s.softening_radius = p.softening; s.gst_suppr_radius = p.gst; s.domain_radius = p.rd; s.sink_radius = p.sink_radius; s.density_floor = p.floor;
    s.mach_number = p.mach; s.alpha = p.alpha; s.alpha_cutoff_radius = p.cutoff; s.nu = p.nu; s.plm_theta = p.theta; s.begin_live_binary = p.live; s.axisymmetric_cs2 = p.axi; s.no_accretion_force = p.noacc; s.block_size = 2; s.reconstruct_method = p.pcm ? reconstruct_method_t::pcm : reconstruct_method_t::plm;
    s.vertices = mesh<location_2d_t>([rd] (int b, int l, int bi, int bj, auto i, auto j) { return at(rd, l, bi, bj, i, j); }, 3);
    s.cell_centers = mesh<location_2d_t>([rd] (int b, int l, int bi, int bj, auto i, auto j) { return at(rd, l, bi, bj, i + 0.5, j + 0.5); }, 2);
    s.cell_areas = mesh<mara::unit_area<double>>([rd] (int b, int l, int bi, int bj, auto i, auto j) { auto d = mara::make_length(rd / (1 << l)); return d * d; }, 2);
    s.buffer_rate_field = mesh<mara::unit_rate<double>>([] (int b, int l, int bi, int bj, auto i, auto j) { return mara::unit_rate<double>(fb(b, i, j)); }, 2);
    s.initial_conserved_u = mesh<cu>([] (int b, int l, int bi, int bj, auto i, auto j) { return mku(fi(b, 0, i, j), fi(b, 1, i, j), fi(b, 2, i, j)); }, 2);
    s.initial_conserved_q = mesh<cq>([] (int b, int l, int bi, int bj, auto i, auto j) { return mkq(fi(b, 0, i, j), fi(b, 1, i, j), fi(b, 2, i, j)); }, 2);
    return s;
}
struct sums { mara::unit_time<double> time; mara::rational_number_t iteration;
    mara::arithmetic_sequence_t<mara::unit_mass<double>, 2> ma; mara::arithmetic_sequence_t<mara::unit_angmom<double>, 2> la, tq; mara::arithmetic_sequence_t<mara::unit_energy<double>, 2> wk;
    mara::unit_mass<double> me; mara::unit_angmom<double> le; mara::full_orbital_elements_t oa, og, oe; };
inline solution_t fill(sums s)
{
    auto r = solution_t(); r.time = s.time; r.iteration = s.iteration; r.mass_accreted_on = s.ma; r.angular_momentum_accreted_on = s.la; r.integrated_torque_on = s.tq; r.work_done_on = s.wk;
    r.mass_ejected = s.me; r.angular_momentum_ejected = s.le; r.orbital_elements_acc = s.oa; r.orbital_elements_grav = s.og; r.orbital_elements = s.oe; return r;
}
inline solution_t state_u(sums s) { auto r = fill(s); r.conserved_u = mesh<cu>([] (int b, int l, int bi, int bj, auto i, auto j) { return mku(fs(b, 0, i, j), fs(b, 1, i, j), fs(b, 2, i, j)); }, 2); return r; }
inline solution_t state_q(sums s) { auto r = fill(s); r.conserved_q = mesh<cq>([] (int b, int l, int bi, int bj, auto i, auto j) { return mkq(fs(b, 0, i, j), fs(b, 1, i, j), fs(b, 2, i, j)); }, 2); return r; }
inline solution_t other_u(sums s) { auto r = fill(s); r.conserved_u = mesh<cu>([] (int b, int l, int bi, int bj, auto i, auto j) { return mku(ft(b, 0, i, j), ft(b, 1, i, j), ft(b, 2, i, j)); }, 2); return r; }
inline solution_t other_q(sums s) { auto r = fill(s); r.conserved_q = mesh<cq>([] (int b, int l, int bi, int bj, auto i, auto j) { return mkq(ft(b, 0, i, j), ft(b, 1, i, j), ft(b, 2, i, j)); }, 2); return r; }
}
