// The HDF5 types of the stored C++ types, and selections in data sets, as uses of the public interface.
#include <cmath>
#include <cstddef>
#include <algorithm>
#include <functional>
#include <map>
#include <string>
#include <variant>
#include <vector>
#include "subprog_binary_io.cpp"
namespace witness {
using h5::Datatype; using h5::Dataspace; using str = std::string; using u = std::size_t;
template<class T> Datatype of(const T& x) { return h5::make_datatype_for(x); }
using seq3 = mara::arithmetic_sequence_t<double, 3>; using seqi = mara::arithmetic_sequence_t<int, 2>; using len = mara::unit_length<double>; using loc2 = mara::arithmetic_sequence_t<len, 2>;
using arr1 = nd::shared_array<double, 1>; using arr2 = nd::shared_array<double, 2>; using par = mara::config_parameter_t;
Datatype t_char(char x) { return of(x); }
Datatype t_int(int x) { return of(x); }
Datatype t_ulong(unsigned long x) { return of(x); }
Datatype t_double(double x) { return of(x); }
Datatype t_seq3(seq3 x) { return of(x); }
Datatype t_seqi(seqi x) { return of(x); }
Datatype t_len(len x) { return of(x); }
Datatype t_loc(loc2 x) { return of(x); }
Datatype t_rat(mara::rational_number_t x) { return of(x); }
Datatype t_cons(mara::iso2d::conserved_per_area_t x) { return of(x); }
Datatype t_consq(mara::iso2d::conserved_angmom_per_area_t x) { return of(x); }
Datatype t_oe(mara::orbital_elements_t x) { return of(x); }
Datatype t_full(mara::full_orbital_elements_t x) { return of(x); }
Datatype t_sample(binary::time_series_sample_t x) { return of(x); }
// containers: the element's type, and as many elements as there are
Datatype e_vec(double a, double b) { return of(std::vector<double>{a, b}); }
Datatype e_arr(arr2 x) { return of(x); }
Datatype e_arrl(nd::shared_array<loc2, 2> x) { return of(x); }
Dataspace s_vec(double a, double b, double c) { return h5::make_dataspace_for(std::vector<double>{a, b, c}); }
Dataspace s_vec0() { return h5::make_dataspace_for(std::vector<double>{}); }
Dataspace s_arr(u m, u n) { return h5::make_dataspace_for(nd::make_unique_array<double>(nd::make_shape(m, n)).shared()); }
Dataspace s_uarr(u m, u n) { return h5::make_dataspace_for(nd::make_unique_array<double>(nd::make_shape(m, n))); }
Dataspace s_dbl(double x) { return h5::make_dataspace_for(x); }
Dataspace s_seq(seq3 x) { return h5::make_dataspace_for(x); }
Dataspace s_str(str x) { return h5::make_dataspace_for(x); }
nd::shape_t<2> p_arr(u m, u n) { return h5::prepare<arr2>(Datatype::native_double(), Dataspace{m, n}).shape(); }
nd::shape_t<1> p_arr1(u n) { return h5::prepare<arr1>(Datatype::native_double(), Dataspace{n}).shape(); }
u p_str(u n) { return h5::prepare<str>(Datatype::c_s1().with_size(n), Dataspace::scalar()).size(); }
u z_str(str x) { return of(x).size(); }
// selections
using pat = nd::access_pattern_t<2>;
h5::hyperslab_t slab(pat p) { return mara::make_hdf5_hyperslab(p); }
Dataspace chosen(u m, u n, u a, u b, u c, u d, u e, u f, u g, u h) { auto s = Dataspace::simple(std::vector<u>{m, n}); s.select(h5::hyperslab_t{{a, b}, {c, d}, {e, f}, {g, h}}); return s; }
int badslab1(u n, u a) { auto s = Dataspace::simple(std::vector<u>{n, n}); s.select(h5::hyperslab_t{{a}, {a}, {a}, {a}}); return 0; }
int badslab2(u n, u a) { auto s = Dataspace::simple(std::vector<u>{n, n}); s.select(h5::hyperslab_t{{a, a}, {a, a}, {a}, {a, a}}); return 0; }
int badslab3(u n, u a) { auto s = Dataspace::simple(std::vector<u>{n, n}); s.select(h5::hyperslab_t{{a, a}, {a}, {a, a}, {a, a}}); return 0; }
int badslab4(u n, u a) { auto s = Dataspace::simple(std::vector<u>{n, n}); s.select(h5::hyperslab_t{{a, a}, {a, a}, {a, a}, {a}}); return 0; }
double point(u n, u k, double x) { auto f = h5::File("a.h5", "w"); auto d = f.require_dataset<double>("x", Dataspace::simple(std::vector<u>{n})); auto s = h5::hyperslab_t{{k}, {1}, {1}, {1}}; d.write(x, d.get_space().select(s)); return d.read<double>(d.get_space().select(s)); }
double appended(u k, double x) { auto f = h5::File("a.h5", "w"); auto d = f.require_dataset("x", Datatype::native_double(), Dataspace::unlimited(0), h5::PropertyList::dataset_create().set_chunk(100)); d.set_extent(k + 1); auto s = h5::hyperslab_t{{k}, {1}, {1}, {1}}; d.write(x, d.get_space().select(s)); return d.read<double>(d.get_space().select(s)); }
std::vector<u> extended(u k) { auto f = h5::File("a.h5", "w"); auto d = f.require_dataset("x", Datatype::native_double(), Dataspace::unlimited(0), h5::PropertyList::dataset_create().set_chunk(100)); d.set_extent(k + 1); return d.get_space().extent(); }
std::vector<u> extended2(u k, u m) { auto f = h5::File("a.h5", "w"); auto d = f.require_dataset("x", Datatype::native_double(), Dataspace::unlimited(0, 0), h5::PropertyList::dataset_create().set_chunk(10, 10)); d.set_extent(k, m); return d.get_space().extent(); }
std::vector<u> badext(u k) { auto f = h5::File("a.h5", "w"); auto d = f.require_dataset("x", Datatype::native_double(), Dataspace::unlimited(0), h5::PropertyList::dataset_create().set_chunk(100)); d.set_extent(k, k); return d.get_space().extent(); }
// asking for a data set that is there already
inline auto chunked(u n) { return h5::PropertyList::dataset_create().set_chunk(n); }
double again(double x) { auto f = h5::File("a.h5", "w"); f.require_dataset("x", Datatype::native_double(), Dataspace::scalar()).write(x); return f.require_dataset("x", Datatype::native_double(), Dataspace::scalar()).read<double>(); }
u again_c(u n) { auto f = h5::File("a.h5", "w"); f.require_dataset("x", Datatype::native_double(), Dataspace::unlimited(0), chunked(100)); return f.require_dataset("x", Datatype::native_double(), Dataspace::unlimited(0), chunked(100)).get_space().rank(); }
u other_c(u n) { auto f = h5::File("a.h5", "w"); f.require_dataset("x", Datatype::native_double(), Dataspace{n}); return f.require_dataset("x", Datatype::native_double(), Dataspace{n}, chunked(100)).get_space().rank(); }
u other_d(u n) { auto f = h5::File("a.h5", "w"); f.require_dataset("x", Datatype::native_double(), Dataspace{n}, chunked(100)); return f.require_dataset("x", Datatype::native_double(), Dataspace{n}).get_space().rank(); }
u other_t(u n) { auto f = h5::File("a.h5", "w"); f.require_dataset("x", Datatype::native_double(), Dataspace{n}); return f.require_dataset("x", Datatype::native_int(), Dataspace{n}).get_space().rank(); }
u other_s(u n) { auto f = h5::File("a.h5", "w"); f.require_dataset("x", Datatype::native_double(), Dataspace{n}); return f.require_dataset("x", Datatype::native_double(), Dataspace{n + 1}).get_space().rank(); }
u other_r(u n) { auto f = h5::File("a.h5", "w"); f.require_dataset("x", Datatype::native_double(), Dataspace{n}); return f.require_dataset("x", Datatype::native_double(), Dataspace{n, n}).get_space().rank(); }
u rank2(u m, u n) { return Dataspace{m, n}.rank(); }
u size2(u m, u n) { return Dataspace{m, n}.size(); }
std::vector<u> ext2(u m, u n) { return Dataspace{m, n}.extent(); }
u size0() { return Dataspace::scalar().size(); }
bool eq_t() { return Datatype::native_int() == Datatype::native_int(); }
bool ne_t() { return Datatype::native_int() == Datatype::native_double(); }
bool ne_t2() { return Datatype::native_int() != Datatype::native_ulong(); }
bool eq_s(u m, u n) { return Dataspace{m, n} == Dataspace{m, n}; }
bool eq_sg(u m, u n, u p, u q) { return Dataspace{m, n} == Dataspace{p, q}; }
bool ne_s(u m, u n) { return Dataspace{m} != Dataspace{m, n}; }
}
namespace witness {
std::vector<str> names(int x) { auto f = h5::File("a.h5", "w"); f.write("x", x); f.write("y", x); auto r = std::vector<str>(); for (auto n : f) r.push_back(n); return r; }
str named() { return h5::File("a.h5", "w").filename(); }
bool open_now() { auto f = h5::File("a.h5", "w"); return f.is_open(); }
bool open_then() { auto f = h5::File("a.h5", "w"); f.close(); return f.is_open(); }
int compound(mara::full_orbital_elements_t x) { auto f = h5::File("a.h5", "w"); f.write("x", x); return 0; }
int is_rw() { return h5::File("a.h5", "w").intent() == h5::Intent::rdwr; }
}
namespace witness {
inline auto closed() { auto f = h5::File("a.h5", "w"); f.write("x", 1); f.close(); return f; }
u closed_size() { return closed().size(); }
u closed_iter() { auto f = closed(); u n = 0; for (auto x : f) ++n; return n; }
u closed_write(int x) { auto f = closed(); f.write("x", x); return 0; }
int closed_read() { auto f = closed(); return f.read<int>("x"); }
u closed_group() { auto f = closed(); return f.open_group("x").is_open(); }
u closed_require() { auto f = closed(); return f.require_group("x").is_open(); }
str closed_name() { return closed().filename(); }
u zero_size() { return Datatype::c_s1().with_size(0).size(); }
u no_type() { return Datatype().size(); }
Datatype twice(mara::orbital_elements_t x) { using T = mara::orbital_elements_t; return Datatype::compound<T>({h5_compound_type_member(T, separation), h5_compound_type_member(T, separation)}); }
}
