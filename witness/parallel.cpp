// Work shared between threads: array evaluation on several threads, block decompositions, trees mapped asynchronously and on a pool.
#include <cstddef>
#include <algorithm>
#include <functional>
#include <future>
#include <memory>
#include <numeric>
#include <stdexcept>
#include <thread>
#include <vector>
#include "core_ndarray.hpp"
#include "app_parallel.hpp"
#include "core_tree.hpp"
#include "core_thread_pool.hpp"
namespace witness {
using u = std::size_t;
double fe(u i); double fe2(u i, u j); double ft(double x); double fu(double x, double y);
inline auto line(u n) { return nd::make_array([] (auto i) { return fe(i[0]); }, nd::make_shape(n)); }
inline auto plane(u n, u m) { return nd::make_array([] (auto i) { return fe2(i[0], i[1]); }, nd::make_shape(n, m)); }

// every element, on P threads
template<u P> double at(u n, u k) { auto B = line(n) | mara::evaluate_on<P>(); return B(k); }
double at1(u n, u k) { return at<1>(n, k); }
double at2(u n, u k) { return at<2>(n, k); }
double at3(u n, u k) { return at<3>(n, k); }
double at4(u n, u k) { return at<4>(n, k); }
double at7(u n, u k) { return at<7>(n, k); }
double at2d2(u n, u m, u i, u j) { auto B = plane(n, m) | mara::evaluate_on<2>(); return B(i, j); }
double at2d3(u n, u m, u i, u j) { auto B = plane(n, m) | mara::evaluate_on<3>(); return B(i, j); }
nd::shape_t<1> shape3(u n) { return (line(n) | mara::evaluate_on<3>()).shape(); }
nd::shape_t<2> shape2d(u n, u m) { return (plane(n, m) | mara::evaluate_on<3>()).shape(); }

// block decompositions of arbitrary shapes
using P1 = nd::access_pattern_t<1>; using P2 = nd::access_pattern_t<2>;
P1 block1(nd::shape_t<1> s, u b, u i) { return mara::create_access_pattern_array<1>(s, nd::make_shape(b))(i); }
P2 block2(nd::shape_t<2> s, u b, u c, u i, u j) { return mara::create_access_pattern_array<2>(s, nd::make_shape(b, c))(i, j); }
nd::shape_t<2> blocks(nd::shape_t<2> s, u b, u c) { return mara::create_access_pattern_array<2>(s, nd::make_shape(b, c)).shape(); }

// factors: their product is the number
struct two { int a, b; };
two factors(int n) { auto f = mara::parallel::detail::factor_once(n); return {f.first, f.second}; }
std::vector<int> all_factors(int n) { std::vector<int> r; mara::parallel::detail::prime_factors_impl(r, n); return r; }
nd::shape_t<3> proposed3(u n) { return mara::propose_block_decomposition<3>(n); }
nd::shape_t<2> proposed2(u n) { return mara::propose_block_decomposition<2>(n); }
nd::shape_t<1> proposed1(u n) { return mara::propose_block_decomposition<1>(n); }

// trees
struct four { double a, b, c, d, e, f, g; };
using T = mara::arithmetic_binary_tree_t<double, 2>;
inline T tree(double a, double b, double c, double d, double e, double f, double g)
{
    auto leaf = [] (double x) { return mara::tree_of<2>(x); };
    auto deep = T{mara::detail::to_shared_ptr(mara::arithmetic_sequence_t<T, 4>{{leaf(c), leaf(d), leaf(e), leaf(f)}})};
    return T{mara::detail::to_shared_ptr(mara::arithmetic_sequence_t<T, 4>{{leaf(a), leaf(b), deep, leaf(g)}})};
}
inline four values(const T& t) { auto deep = t.children()[2].children(); return {t.children()[0].value(), t.children()[1].value(), deep[0].value(), deep[1].value(), deep[2].value(), deep[3].value(), t.children()[3].value()}; }
four serial(double a, double b, double c, double d, double e, double f, double g) { return values(tree(a, b, c, d, e, f, g).map([] (double x) { return ft(x); })); }
four async(double a, double b, double c, double d, double e, double f, double g) { return values(tree(a, b, c, d, e, f, g).map([] (double x) { return ft(x); }, std::launch::async)); }
four deferred(double a, double b, double c, double d, double e, double f, double g) { return values(tree(a, b, c, d, e, f, g).map([] (double x) { return ft(x); }, std::launch::deferred)); }
four pooled(double a, double b, double c, double d, double e, double f, double g) { mara::thread_pool_t p(0); return values(tree(a, b, c, d, e, f, g).map([] (double x) { return ft(x); }, p)); }
four applied(double a, double b, double c, double d, double e, double f, double g) { auto t = tree(a, b, c, d, e, f, g); return values(t.pair(t.map([] (double x) { return ft(x); })).apply([] (double x, double y) { return fu(x, y); })); }
four async_applied(double a, double b, double c, double d, double e, double f, double g) { auto t = tree(a, b, c, d, e, f, g); return values(t.pair(t.map([] (double x) { return ft(x); })).apply([] (double x, double y) { return fu(x, y); }, std::launch::async)); }
four pool_applied(double a, double b, double c, double d, double e, double f, double g) { mara::thread_pool_t p(0); auto t = tree(a, b, c, d, e, f, g); return values(t.pair(t.map([] (double x) { return ft(x); })).apply([] (double x, double y) { return fu(x, y); }, p)); }
}
