// Schedules and run configurations, as uses of the public interface.
#include <functional>
#include <iostream>
#include <map>
#include <string>
#include <variant>
#include <vector>
#include "app_config.hpp"
#include "app_schedule.hpp"
namespace witness {
using S = mara::schedule_t; using T = mara::schedule_t::task_t;
inline T task(const char* n, int k, double t, bool d) { auto r = T(); r.name = n; r.num_times_performed = k; r.last_performed = t; r.is_due = d; return r; }
inline S two(int k, double t, bool d, int K, double u, bool D) { auto s = S(); s.insert(task("a", k, t, d)); s.insert(task("b", K, u, D)); return s; }
#define ARGS int k, double t, bool d, int K, double u, bool D
#define TWO two(k, t, d, K, u, D)
int created_n() { S s; s.create("a"); return s.num_times_performed("a"); }
double created_t() { S s; s.create("a"); return s.last_performed("a"); }
bool created_d() { S s; s.create("a"); return s.is_due("a"); }
std::string created_name() { S s; s.create("a"); return s.at("a").name; }
bool created_due() { S s; s.create_and_mark_as_due("a"); return s.is_due("a"); }
int get_n(ARGS) { return TWO.num_times_performed("b"); }
std::size_t cnt(ARGS) { return TWO.count("b"); } std::size_t cnt0(ARGS) { return TWO.count("c"); } std::size_t siz(ARGS) { return TWO.size(); }
int miss_n(ARGS) { return TWO.num_times_performed("c"); }
S miss_m(ARGS) { auto s = TWO; s.mark_as_completed("c"); return s; }
S due(ARGS, double x) { auto s = TWO; s.mark_as_due("a", x); return s; }
S done(ARGS) { auto s = TWO; s.mark_as_completed("a"); return s; }

struct St { S schedule; double x; };
S marked(ARGS, double now, double p, double q) { return mara::mark_tasks_in(St{TWO, 0.0}, now, {{"a", p}, {"b", q}}); }
S marked1(ARGS, double now, double p) { return mara::mark_tasks_in(St{TWO, 0.0}, now, {{"b", p}}); }
S marked_miss(ARGS, double now, double p) { return mara::mark_tasks_in(St{TWO, 0.0}, now, {{"c", p}}); }
St completed(ARGS, double x) { return mara::complete_task_in(St{TWO, x}, "b"); }
St completed_miss(ARGS, double x) { return mara::complete_task_in(St{TWO, x}, "c"); }
double fa(double); double fb(double);
inline St ra(const St& s) { return St{s.schedule, fa(s.x)}; }
inline St rb(const St& s) { return St{s.schedule, fb(s.x)}; }
inline St rc(const St& s) { auto n = s; n.schedule.mark_as_completed("a"); n.schedule.mark_as_due("b", 1.0); n.x = fa(s.x); return n; }
double ran(ARGS, double x) { return mara::run_scheduled_tasks<St>(St{TWO, x}, {{"a", ra}, {"b", rb}}).x; }
double ran_rev(ARGS, double x) { return mara::run_scheduled_tasks<St>(St{TWO, x}, {{"b", rb}, {"a", ra}}).x; }
double ran_one(ARGS, double x) { return mara::run_scheduled_tasks<St>(St{TWO, x}, {{"b", rb}}).x; }
St ran_chain(ARGS, double x) { return mara::run_scheduled_tasks<St>(St{TWO, x}, {{"a", rc}, {"b", rb}}); }
St ran_miss(ARGS, double x) { return mara::run_scheduled_tasks<St>(St{TWO, x}, {{"c", rb}}); }
// a task that falls due is performed and completed: the whole cycle
inline St ca(const St& s) { return mara::complete_task_in(St{s.schedule, fa(s.x)}, "a"); }
S cycle(ARGS, double now, double p) { auto s = St{TWO, 0.0}; s.schedule = mara::mark_tasks_in(s, now, {{"a", p}}); return mara::run_scheduled_tasks<St>(s, {{"a", ca}}).schedule; }
}
