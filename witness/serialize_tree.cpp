// Storing trees in HDF5 files and reading them back.
#include <cmath>
#include <cstddef>
#include <algorithm>
#include <functional>
#include <iostream>
#include <map>
#include <string>
#include <variant>
#include <vector>
#include "core_sequence.hpp"
#include "core_dimensional.hpp"
#include "app_serialize.hpp"
#include "app_serialize_tree.hpp"
namespace witness {
using u = std::size_t; using str = std::string;
template<class V, u R> using tree = mara::arithmetic_binary_tree_t<V, R>;
using D1 = tree<double, 1>; using D2 = tree<double, 2>; using D3 = tree<double, 3>; using arr2 = nd::shared_array<double, 2>; using A2 = tree<arr2, 2>;
template<class T> T again(const T& x) { auto f = h5::File("a.h5", "w"); mara::write_tree(f.require_group("t"), x); f.close(); auto r = T(); mara::read_tree(h5::File("a.h5", "r").open_group("t"), r); return r; }
template<class T> T named(const T& x) { auto f = h5::File("a.h5", "w"); auto g = f.open_group("/"); mara::write(g, "t", x); auto r = T(); mara::read(g, "t", r); return r; }
inline auto leaf(double x) { return mara::tree_of<2>(x); } inline auto leaf(arr2 x) { return mara::tree_of<2>(x); }
template<class T, class... U> T node(T a, U... t) { return T{std::make_shared<mara::arithmetic_sequence_t<T, 1 + sizeof...(U)>>(mara::make_sequence(a, t...))}; }
using D = mara::arithmetic_sequence_t<double, 10>; using D8 = mara::arithmetic_sequence_t<double, 8>;
inline D2 tr(D d) { return node(leaf(d[0]), node(leaf(d[1]), leaf(d[2]), node(leaf(d[3]), leaf(d[4]), leaf(d[5]), leaf(d[6])), leaf(d[7])), leaf(d[8]), leaf(d[9])); }
D2 root(double a) { return again(leaf(a)); }
D2 quad(D d) { return again(tr(d)); }
D2 quad_named(D d) { return named(tr(d)); }
D3 oct(D8 d) { return again(mara::tree_of<3>(d)); }
D1 bin(double a, double b, double c) { return again(node(mara::tree_of<1>(a), node(mara::tree_of<1>(b), mara::tree_of<1>(c)))); }
A2 arrays(arr2 a, arr2 b, arr2 c, arr2 d) { return again(A2(node(leaf(a), leaf(b), leaf(c), leaf(d)))); }
template<u R> using X = mara::tree_index_t<R>;
str fmt2(u i, u j) { return mara::format_tree_index(mara::make_tree_index(i, j).with_level(1)); }
str fmt_10() { return mara::format_tree_index(mara::make_tree_index(1, 0).with_level(1)); }
X<2> rd_10() { return mara::read_tree_index<2>("1:1-0"); }
X<2> rd_4() { return mara::read_tree_index<2>("4:01-12"); }
X<2> rt2(X<2> x) { return mara::read_tree_index<2>(mara::format_tree_index(x)); }
X<3> rt3(X<3> x) { return mara::read_tree_index<3>(mara::format_tree_index(x)); }
X<1> rt1(X<1> x) { return mara::read_tree_index<1>(mara::format_tree_index(x)); }
}
