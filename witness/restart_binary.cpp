// A run of the binary sub-program that is checkpointed and continued from the file.
#include <cmath>
#include <cstddef>
#include <algorithm>
#include <functional>
#include <map>
#include <string>
#include <variant>
#include <vector>
#include "subprog_binary_io.cpp"
#include "subprog_binary.cpp"
namespace witness {
using str = std::string; using par = mara::config_parameter_t; using task = mara::schedule_t::task_t;
template<class V> using blk = nd::shared_array<V, 2>;
using cu = mara::iso2d::conserved_per_area_t; using cq = mara::iso2d::conserved_angmom_per_area_t;
struct sums { mara::unit_time<double> time; mara::rational_number_t iteration;
    mara::arithmetic_sequence_t<mara::unit_mass<double>, 2> ma; mara::arithmetic_sequence_t<mara::unit_angmom<double>, 2> la, tq; mara::arithmetic_sequence_t<mara::unit_energy<double>, 2> wk;
    mara::unit_mass<double> me; mara::unit_angmom<double> le; mara::full_orbital_elements_t oa, og, oe; };
template<class V> binary::quad_tree_t<V> quad(blk<V> a, blk<V> b, blk<V> c, blk<V> d)
{
    using T = binary::quad_tree_t<V>; using mara::tree_of;
    return T{std::make_shared<mara::arithmetic_sequence_t<T, 4>>(mara::make_sequence(tree_of<2>(a), tree_of<2>(b), tree_of<2>(c), tree_of<2>(d)))};
}
template<class V> struct four { blk<V> a, b, c, d; };
inline binary::solution_t fill(sums s)
{
    auto r = binary::solution_t(); r.time = s.time; r.iteration = s.iteration; r.mass_accreted_on = s.ma; r.angular_momentum_accreted_on = s.la; r.integrated_torque_on = s.tq; r.work_done_on = s.wk;
    r.mass_ejected = s.me; r.angular_momentum_ejected = s.le; r.orbital_elements_acc = s.oa; r.orbital_elements_grav = s.og; r.orbital_elements = s.oe; return r;
}
inline auto with_u(sums s, four<cu> u) { auto r = fill(s); r.conserved_u = quad(u.a, u.b, u.c, u.d); return r; }
inline auto with_q(sums s, four<cq> q) { auto r = fill(s); r.conserved_q = quad(q.a, q.b, q.c, q.d); return r; }
inline task mk(const char* n, int k, double t, bool d) { auto r = task(); r.name = n; r.num_times_performed = k; r.last_performed = t; r.is_due = d; return r; }
struct counts { int k; double t; int kd; double td; int ks; double ts; };
struct confs { double cpi, tfinal; int depth; };
using sample = binary::time_series_sample_t;
inline binary::state_t at(binary::solution_t sol, counts k, bool d, sample x, sample y, confs c, str outdir, str from)
{
    auto s = binary::state_t(); s.solution = sol; s.time_series = s.time_series.prepend(x).prepend(y);
    s.schedule.insert(mk("write_checkpoint", k.k, k.t, d)); s.schedule.insert(mk("write_diagnostics", k.kd, k.td, false)); s.schedule.insert(mk("record_time_series", k.ks, k.ts, false));
    s.run_config = binary::create_config_template().create().set("cpi", par(c.cpi)).set("tfinal", par(c.tfinal)).set("depth", par(c.depth)).set("outdir", par(outdir)).set("restart", par(from));
    return s;
}
inline binary::state_t continued(str name) { str a = "restart=" + name; const char* argv[] = {"mara", a.data()}; return binary::create_state(binary::create_run_config(2, argv)); }
inline str file(str outdir, int k) { return outdir + "/" + mara::create_numbered_filename("chkpt", k, "h5"); }
binary::state_t went_on_u(sums s, four<cu> u, counts k, sample x, sample y, confs c, str outdir, str from) { return binary::run_tasks(at(with_u(s, u), k, true, x, y, c, outdir, from), binary::solver_data_t()); }
binary::state_t restarted_u(sums s, four<cu> u, counts k, sample x, sample y, confs c, str outdir, str from) { binary::run_tasks(at(with_u(s, u), k, true, x, y, c, outdir, from), binary::solver_data_t()); return continued(file(outdir, k.k)); }
binary::state_t went_on_q(sums s, four<cq> q, counts k, sample x, sample y, confs c, str outdir, str from) { return binary::run_tasks(at(with_q(s, q), k, true, x, y, c, outdir, from), binary::solver_data_t()); }
binary::state_t restarted_q(sums s, four<cq> q, counts k, sample x, sample y, confs c, str outdir, str from) { binary::run_tasks(at(with_q(s, q), k, true, x, y, c, outdir, from), binary::solver_data_t()); return continued(file(outdir, k.k)); }
}
