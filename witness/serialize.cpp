// Storing values in HDF5 files and reading them back, as uses of the public interface.
#include <cstddef>
#include <algorithm>
#include <functional>
#include <iostream>
#include <map>
#include <string>
#include <variant>
#include <vector>
#include "core_sequence.hpp"
#include "core_dimensional.hpp"
#include "app_serialize.hpp"
#include "app_serialize_tree.hpp"
namespace witness {
using str = std::string;
template<typename T> T again(const T& x) { auto f = h5::File("a.h5", "w"); f.write("x", x); f.close(); return h5::File("a.h5", "r").read<T>("x"); }
int rt_int(int x) { return again(x); }
double rt_dbl(double x) { return again(x); }
unsigned long rt_ul(unsigned long x) { return again(x); }
str rt_str(str x) { return again(x); }
str rt_empty() { return again(str()); }
str rt_lit() { return again(str("data")); }
}
namespace witness {
using seq3 = mara::arithmetic_sequence_t<double, 3>; using len = mara::unit_length<double>; using loc2 = mara::arithmetic_sequence_t<len, 2>;
using arr1 = nd::shared_array<double, 1>; using arr2 = nd::shared_array<double, 2>; using arr2l = nd::shared_array<loc2, 2>; using uarr2 = nd::unique_array<double, 2>;
using par = mara::config_parameter_t;
seq3 rt_seq(seq3 x) { return again(x); }
len rt_len(len x) { return again(x); }
loc2 rt_loc(loc2 x) { return again(x); }
mara::rational_number_t rt_rat(mara::rational_number_t x) { return again(x); }
std::vector<double> rt_vec(double a, double b, double c) { return again(std::vector<double>{a, b, c}); }
std::vector<int> rt_veci(int a, int b) { return again(std::vector<int>{a, b}); }
std::vector<double> rt_vec0() { return again(std::vector<double>{}); }
arr1 rt_a1(arr1 x) { return again(x); }
arr2 rt_a2(arr2 x) { return again(x); }
arr2l rt_a2l(arr2l x) { return again(x); }
par rt_pi(int x) { return again(par(x)); } par rt_pd(double x) { return again(par(x)); } par rt_ps(str x) { return again(par(x)); } par rt_pe() { return again(par(str())); }
// the value is replaced when it is written again, and only then
int over(int x, int y) { auto f = h5::File("a.h5", "w"); f.write("x", x); f.write("x", y); return f.read<int>("x"); }
int two(int x, int y) { auto f = h5::File("a.h5", "w"); f.write("x", x); f.write("y", y); return f.read<int>("x"); }
int nested(int x, int y) { auto f = h5::File("a.h5", "w"); auto g = f.require_group("g"); g.write("x", x); f.require_group("h").write("x", y); return f.open_group("g").read<int>("x"); }
int keep(int x, int y) { { auto f = h5::File("a.h5", "w"); f.require_group("g").write("x", x); f.close(); } auto f = h5::File("a.h5", "r+"); f.require_group("g").write("y", y); return f.open_group("g").read<int>("x"); }
int trunc(int x, int y) { { auto f = h5::File("a.h5", "w"); f.write("x", x); f.close(); } auto f = h5::File("a.h5", "w"); f.write("y", y); return f.read<int>("x"); }
int ronly(int x, int y) { { auto f = h5::File("a.h5", "w"); f.write("x", x); f.close(); } auto f = h5::File("a.h5", "r"); f.write("y", y); return f.read<int>("x"); }
int missing(int x) { auto f = h5::File("a.h5", "w"); f.write("x", x); return f.read<int>("y"); }
int nofile() { return h5::File("b.h5", "r").read<int>("y"); }
int badmode(int x) { auto f = h5::File("a.h5", "a"); f.write("x", x); return f.read<int>("x"); }
int wrong_id(double x) { auto f = h5::File("a.h5", "w"); f.write("x", x); return f.read<int>("x"); }
double wrong_di(int x) { auto f = h5::File("a.h5", "w"); f.write("x", x); return f.read<double>("x"); }
double wrong_ds(str x) { auto f = h5::File("a.h5", "w"); f.write("x", x); return f.read<double>("x"); }
seq3 wrong_rank(loc2 x) { auto f = h5::File("a.h5", "w"); f.write("x", x); return f.read<seq3>("x"); }
int retype(int x, double y) { auto f = h5::File("a.h5", "w"); f.write("x", x); f.write("x", y); return f.read<int>("x"); }
int reshape(int a, int b, int c) { auto f = h5::File("a.h5", "w"); f.write("x", std::vector<int>{a, b}); f.write("x", std::vector<int>{a, b, c}); return 0; }
int group_not_set(int x) { auto f = h5::File("a.h5", "w"); f.require_group("g"); return f.read<int>("g"); }
std::size_t count(int x) { auto f = h5::File("a.h5", "w"); f.write("x", x); f.write("y", x); f.require_group("g"); return f.size(); }
// lists
using list = mara::linked_list_t<double>;
inline list three(double a, double b, double c) { return list().prepend(c).prepend(b).prepend(a); }
std::vector<double> list_w(double a, double b, double c) { auto f = h5::File("a.h5", "w"); f.write("x", three(a, b, c)); return f.read<std::vector<double>>("x"); }
std::vector<double> list_r(double a, double b, double c) { auto f = h5::File("a.h5", "w"); f.write("x", three(a, b, c)); auto l = f.read<list>("x"); return std::vector<double>(l.begin(), l.end()); }
std::vector<double> list_0() { auto f = h5::File("a.h5", "w"); f.write("x", list()); auto l = f.read<list>("x"); return std::vector<double>(l.begin(), l.end()); }
// schedules and configurations
using S = mara::schedule_t; using T = mara::schedule_t::task_t;
inline T task(const char* n, int k, double t, bool d) { auto r = T(); r.name = n; r.num_times_performed = k; r.last_performed = t; r.is_due = d; return r; }
S sched(int k, double t, int K, double u) { auto s = S(); s.insert(task("write_checkpoint", k, t, false)); s.insert(task("b", K, u, false));
    auto f = h5::File("a.h5", "w"); mara::write_schedule(f.require_group("schedule"), s); return mara::read_schedule(f.open_group("schedule")); }
S sched2(int k, double t, int K, double u) { auto s = S(); s.insert(task("write_checkpoint", k, t, false)); s.insert(task("b", K, u, false));
    auto f = h5::File("a.h5", "w"); auto g = f.open_group("/"); mara::write(g, "s", s); return mara::read<S>(f.open_group("/"), "s"); }
S sched0() { auto f = h5::File("a.h5", "w"); mara::write_schedule(f.require_group("schedule"), S()); return mara::read_schedule(f.open_group("schedule")); }
mara::config_parameter_map_t conf(int i, double d, str s) { auto c = mara::make_config_template().item("i", i).item("d", d).item("s", s).create();
    auto f = h5::File("a.h5", "w"); mara::write_config(f.require_group("c"), c); return mara::read_config(f.open_group("c")); }
mara::config_parameter_map_t conf2(int i, double d, str s, int j) { auto c = mara::make_config_template().item("i", i).item("d", d).item("s", s).item("e", str()).create().set("i", par(j));
    auto f = h5::File("a.h5", "w"); auto g = f.open_group("/"); mara::write(g, "c", c); return mara::read_config(f.open_group("c")); }
mara::config_t conf_restart(int i, double d, str s, int j, str t) { auto m = mara::make_config_template().item("i", i).item("d", d).item("s", s); auto c = m.create().set("i", par(j)).set("s", par(t));
    auto f = h5::File("a.h5", "w"); mara::write_config(f.require_group("c"), c); return m.create().update(mara::read_config(f.open_group("c"))); }
// names
str fname(str p, int n, str x) { return mara::create_numbered_filename(p, n, x); }
}
