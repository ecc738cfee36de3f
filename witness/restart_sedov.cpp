// A run of the sedov sub-program that is checkpointed and continued from the file.
#include <cstddef>
#include <algorithm>
#include <functional>
#include <map>
#include <string>
#include <variant>
#include <vector>
#include "subprog_sedov.cpp"
namespace witness {
using str = std::string; using par = mara::config_parameter_t; using task = mara::schedule_t::task_t;
inline task mk(const char* n, int k, double t, bool d) { auto r = task(); r.name = n; r.num_times_performed = k; r.last_performed = t; r.is_due = d; return r; }
template<class P> auto at(typename P::solution_state_t sol, int k, double t, bool d, int kd, double td, bool dd, int ks, double ts, bool ds, double cpi, double tfinal, int nr, str outdir, str from)
{
    auto s = typename P::app_state_t();
    s.solution_state = sol;
    s.schedule.insert(mk("write_checkpoint", k, t, d)); s.schedule.insert(mk("write_diagnostics", kd, td, dd)); s.schedule.insert(mk("write_time_series", ks, ts, ds));
    s.run_config = config_template().create().set("cpi", par(cpi)).set("tfinal", par(tfinal)).set("nr", par(nr)).set("outdir", par(outdir)).set("restart", par(from));
    return s;
}
template<class P> auto continued(str name) { str a = "restart=" + name; const char* argv[] = {"mara", a.data()}; return P::create_app_state(create_run_config(2, argv)); }
#define CASES(S, P) \
P::app_state_t S##_went_on(P::solution_state_t sol, int k, double t, int kd, double td, bool dd, int ks, double ts, bool ds, double cpi, double tfinal, int nr, str outdir, str from) \
{ return P::run_tasks(at<P>(sol, k, t, true, kd, td, dd, ks, ts, ds, cpi, tfinal, nr, outdir, from)); } \
P::app_state_t S##_restarted(P::solution_state_t sol, int k, double t, int kd, double td, bool dd, int ks, double ts, bool ds, double cpi, double tfinal, int nr, str outdir, str from) \
{ P::run_tasks(at<P>(sol, k, t, true, kd, td, dd, ks, ts, ds, cpi, tfinal, nr, outdir, from)); return continued<P>(outdir + "/" + mara::create_numbered_filename("chkpt", k, "h5")); } \
P::app_state_t S##_idle(P::solution_state_t sol, int k, double t, int kd, double td, bool dd, int ks, double ts, bool ds, double cpi, double tfinal, int nr, str outdir, str from) \
{ return P::run_tasks(at<P>(sol, k, t, false, kd, td, dd, ks, ts, ds, cpi, tfinal, nr, outdir, from)); } \
P::app_state_t S##_no_file(P::solution_state_t sol, int k, double t, int kd, double td, bool dd, int ks, double ts, bool ds, double cpi, double tfinal, int nr, str outdir, str from) \
{ P::run_tasks(at<P>(sol, k, t, false, kd, td, dd, ks, ts, ds, cpi, tfinal, nr, outdir, from)); return continued<P>(outdir + "/" + mara::create_numbered_filename("chkpt", k, "h5")); }
using rel = SedovProblem<mara::srhd>; using newt = SedovProblem<mara::euler>;
CASES(rel, rel)
CASES(newt, newt)
}
