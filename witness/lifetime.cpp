// Specimens for the lifetime rules: what is called bad_* must be reported, what is called good_* must not.
#include <algorithm>
#include <map>
#include <memory>
#include <numeric>
#include <string>
#include <thread>
#include <vector>
#include "core_ndarray.hpp"
#include "core_ndarray_ops.hpp"

namespace specimen {
using vec = std::vector<double>;
struct holder { vec v; const vec& get() const { return v; } vec take() && { return std::move(v); } auto bad_this() const { return [this] { return v.size(); }; } };
inline vec make() { return vec(3); }

inline auto bad_local_closure(int n) { double scale = n * 2.0; return [&] (double x) { return x * scale; }; }
inline auto bad_parameter_closure(vec v) { return nd::make_array([&v] (auto i) { return v[i[0]]; }, nd::make_shape(v.size())); }
inline auto bad_lazy(nd::shared_array<double, 1> a) { auto f = 2.0; return a | nd::map([&] (auto x) { return x * f; }); }
inline auto bad_nested(vec v) { auto inner = [&] { return v.size(); }; return [inner] { return inner() + 1; }; }
inline const vec& bad_reference() { vec v(3); return v; }
inline double& bad_element() { vec v(3); return v[1]; }
inline const char* bad_text(int n) { auto s = std::to_string(n); return s.c_str(); }
inline double bad_loop() { double s = 0; for (auto x : std::map<int, vec>{{1, make()}}.at(1)) s += x; return s; }
inline double bad_max(double a) { const double& m = std::max(a + 1, a * 2); return m; }
inline double bad_front() { const auto& x = make().front(); return x; }
inline std::size_t bad_moved(vec v) { auto w = std::move(v); return v.size() + w.size(); }
inline std::size_t bad_moved_maybe(vec v, bool b) { vec w; if (b) w = std::move(v); return v.size() + w.size(); }
inline std::size_t bad_moved_loop(vec v) { std::size_t n = 0; for (int i = 0; i < 3; ++i) { vec w = std::move(v); n += w.size(); } return n; }
inline void bad_grow(vec v) { for (auto& x : v) if (x > 0) v.push_back(x); }

inline auto good_closure(int n) { double scale = n * 2.0; return [=] (double x) { return x * scale; }; }
inline auto good_eager(nd::shared_array<double, 1> a) { auto f = 2.0; return a | nd::map([&] (auto x) { return x * f; }) | nd::to_shared(); }
inline auto good_used(vec v) { auto f = [&] (double x) { return x + v[0]; }; return f(1.0); }
inline auto good_outer(const vec& v) { return [&v] (int i) { return v[i]; }; }
inline const vec& good_static() { static vec v(3); return v; }
inline const vec& good_member(const holder& h) { return h.get(); }
inline double good_loop() { double s = 0; for (auto x : make()) s += x; return s; }
inline double good_sum() { vec v = make(); return std::accumulate(v.begin(), v.end(), 0.0) + *std::max_element(v.begin(), v.end()); }
inline double good_copy() { auto x = make().front(); return x; }
inline std::size_t good_again(vec v) { auto w = std::move(v); v = make(); return v.size() + w.size(); }
inline std::size_t good_either(vec v, bool b) { if (b) { vec w = std::move(v); return w.size(); } return v.size(); }
inline vec good_return(vec v) { return std::move(v); }
inline void good_last(vec v) { for (auto& x : v) if (x > 0) { v.push_back(x); break; } }
inline double good_extended() { const auto& v = make(); return v[0]; }
inline auto good_pair(holder a) { auto n = a.v.size(); return std::make_pair(std::move(a).take(), n); }

void use()
{
    bad_local_closure(1)(1.0); bad_parameter_closure({}); bad_lazy(nd::make_array_from(vec(2))); bad_nested({}); good_closure(1)(1.0); good_eager(nd::make_array_from(vec(2))); good_used({1.0});
    vec v(2); good_outer(v)(1); holder h; h.bad_this()();
}
}
