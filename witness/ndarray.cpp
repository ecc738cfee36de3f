// Uses of the public nd-array operations on an arbitrary array a (rank 2, shape s, element a(i, j) = a2(i, j));
// each function is one rule instance.
#include <iostream>
#include <stdexcept>
#include <string>
#include "core_ndarray.hpp"
#include "core_ndarray_ops.hpp"
namespace witness {
using u = std::size_t;
using S1 = nd::shape_t<1>; using S2 = nd::shape_t<2>; using S3 = nd::shape_t<3>;
using I1 = nd::index_t<1>; using I2 = nd::index_t<2>; using I3 = nd::index_t<3>;
using P1 = nd::access_pattern_t<1>; using P2 = nd::access_pattern_t<2>; using P3 = nd::access_pattern_t<3>;
double a1(u i); double b1(u i); double a2(u i, u j); double b2(u i, u j); double a3(u i, u j, u k);
bool t2(u i, u j); I2 ix(u i);
inline auto A1(S1 s) { return nd::make_array([] (I1 i) { return a1(i[0]); }, s); }
inline auto B1(S1 s) { return nd::make_array([] (I1 i) { return b1(i[0]); }, s); }
inline auto A2(S2 s) { return nd::make_array([] (I2 i) { return a2(i[0], i[1]); }, s); }
inline auto B2(S2 s) { return nd::make_array([] (I2 i) { return b2(i[0], i[1]); }, s); }
inline auto A3(S3 s) { return nd::make_array([] (I3 i) { return a3(i[0], i[1], i[2]); }, s); }
inline auto T2(S2 s) { return nd::make_array([] (I2 i) { return t2(i[0], i[1]); }, s); }

#define OP2(name, expr) \
    double name(S2 s, u i, u j) { auto A = A2(s); return (expr)(i, j); } \
    S2 name##_shape(S2 s) { auto A = A2(s); return (expr).shape(); }
#define OP2N(name, expr) \
    double name(S2 s, u i, u j, u n) { auto A = A2(s); return (expr)(i, j); } \
    S2 name##_shape(S2 s, u n) { auto A = A2(s); return (expr).shape(); }

OP2(ident, A)
OP2(diff0, A | nd::difference_on_axis(0))
OP2(diff1, A | nd::difference_on_axis(1))
OP2(mid0, A | nd::midpoint_on_axis(0))
OP2(mid1, A | nd::midpoint_on_axis(1))
OP2(dropf0, A | nd::drop_first_on_axis(0))
OP2(dropf1, A | nd::drop_first_on_axis(1))
OP2(dropl0, A | nd::drop_final_on_axis(0))
OP2(dropl1, A | nd::drop_final_on_axis(1))
OP2(takef0, A | nd::take_first_on_axis(0))
OP2(takel1, A | nd::take_final_on_axis(1))
OP2N(first0, A | nd::select_first(n, 0))
OP2N(first1, A | nd::select_first(n, 1))
OP2N(final0, A | nd::select_final(n, 0))
OP2N(final1, A | nd::select_final(n, 1))
OP2(per0, A | nd::extend_periodic_on_axis(0))
OP2(per1, A | nd::extend_periodic_on_axis(1))
OP2N(pern0, A | nd::extend_periodic_on_axis(0, n))
OP2N(pern1, A | nd::extend_periodic_on_axis(1, n))
OP2(zgrad0, A | nd::extend_zero_gradient(0))
OP2(zgrad1, A | nd::extend_zero_gradient(1))
OP2(zeros0, A | nd::extend_zeros(0))
OP2(zeros1, A | nd::extend_zeros(1))
OP2(mulc, A | nd::multiply(3.0))
OP2(divc, A | nd::divide(3.0))
OP2(mapped, A | nd::map([] (double x) { return x * x + 1.0; }))
OP2(bounds, A | nd::bounds_check())
OP2(uplus, +A)
OP2(uminus, -A)
OP2(pluss, A + 2.0)
OP2(minuss, A - 2.0)
OP2(timess, A * 2.0)
OP2(overs, A / 2.0)
double adj2_0(S2 s, u i, u j) { return std::get<0>((A2(s) | nd::zip_adjacent2_on_axis(0))(i, j)); }
double adj2_1(S2 s, u i, u j) { return std::get<1>((A2(s) | nd::zip_adjacent2_on_axis(0))(i, j)); }
S2 adj2_shape(S2 s) { return (A2(s) | nd::zip_adjacent2_on_axis(0)).shape(); }
double adj3_0(S2 s, u i, u j) { return std::get<0>((A2(s) | nd::zip_adjacent3_on_axis(1))(i, j)); }
double adj3_1(S2 s, u i, u j) { return std::get<1>((A2(s) | nd::zip_adjacent3_on_axis(1))(i, j)); }
double adj3_2(S2 s, u i, u j) { return std::get<2>((A2(s) | nd::zip_adjacent3_on_axis(1))(i, j)); }
S2 adj3_shape(S2 s) { return (A2(s) | nd::zip_adjacent3_on_axis(1)).shape(); }

double concat0(S2 s, S2 t, u i, u j) { return (A2(s) | nd::concat(B2(t)).on_axis(0))(i, j); }
S2 concat0_shape(S2 s, S2 t) { return (A2(s) | nd::concat(B2(t)).on_axis(0)).shape(); }
double concat1(S2 s, S2 t, u i, u j) { return (A2(s) | nd::concat(B2(t)).on_axis(1))(i, j); }
S2 concat1_shape(S2 s, S2 t) { return (A2(s) | nd::concat(B2(t)).on_axis(1)).shape(); }
#define BIN(name, op) double name(S2 s, S2 t, u i, u j) { return (A2(s) op B2(t))(i, j); } S2 name##_shape(S2 s, S2 t) { return (A2(s) op B2(t)).shape(); }
#define BINB(name, op) bool name(S2 s, S2 t, u i, u j) { return (A2(s) op B2(t))(i, j); } S2 name##_shape(S2 s, S2 t) { return (A2(s) op B2(t)).shape(); }
BIN(plus, +) BIN(minus, -) BIN(times, *) BIN(over, /)
BINB(eq, ==) BINB(ne, !=) BINB(lt, <) BINB(gt, >) BINB(le, <=) BINB(ge, >=)
bool land(S2 s, u i, u j) { return (T2(s) && T2(s))(i, j); }
bool lor(S2 s, u i, u j) { return (T2(s) || !T2(s))(i, j); }
bool lnot(S2 s, u i, u j) { return (!T2(s))(i, j); }
double zip0(S2 s, S2 t, u i, u j) { return std::get<0>(nd::zip(A2(s), B2(t))(i, j)); }
double zip1(S2 s, S2 t, u i, u j) { return std::get<1>(nd::zip(A2(s), B2(t))(i, j)); }
S2 zip_shape(S2 s, S2 t) { return nd::zip(A2(s), B2(t)).shape(); }
double get1(S2 s, u i, u j) { return nd::get<1>(nd::zip(A2(s), B2(s)))(i, j); }
double unzip0(S2 s, u i, u j) { auto [x, y] = nd::unzip(nd::zip(A2(s), B2(s))); return x(i, j); }
double applied(S2 s, u i, u j) { return (nd::zip(A2(s), B2(s)) | nd::apply([] (double x, double y) { return x - 2.0 * y; }))(i, j); }
double cart0(S1 s, S1 t, u i, u j) { return std::get<0>(nd::cartesian_product(A1(s), B1(t))(i, j)); }
double cart1(S1 s, S1 t, u i, u j) { return std::get<1>(nd::cartesian_product(A1(s), B1(t))(i, j)); }
S2 cart_shape(S1 s, S1 t) { return nd::cartesian_product(A1(s), B1(t)).shape(); }
double mesh1(S1 s, S1 t, u i, u j) { auto [x, y] = nd::meshgrid(A1(s), B1(t)); return y(i, j); }

// selections and replacements
double sel(S2 s, P2 p, u i, u j) { return (A2(s) | nd::select(p))(i, j); }
S2 sel_shape(S2 s, P2 p) { return (A2(s) | nd::select(p)).shape(); }
double selfrom(S2 s, I2 f, I2 t, u i, u j) { return (A2(s) | nd::select_from(f).to(t))(i, j); }
double selax(S2 s, u i, u j, u from, u to, u jump) { return (A2(s) | nd::select_axis(1).from(from).to(to).jumping(jump))(i, j); }
S2 selax_shape(S2 s, u from, u to) { return (A2(s) | nd::select_axis(1).from(from).to(to)).shape(); }
double selaxe(S2 s, u i, u j, u from, u to, u jump) { return (A2(s) | nd::select_axis(0).from(from).to(to).from_the_end().jumping(jump))(i, j); }
S2 selaxe_shape(S2 s, u from, u to) { return (A2(s) | nd::select_axis(0).from(from).to(to).from_the_end()).shape(); }
double repl(S2 s, S2 t, P2 p, u i, u j) { return (A2(s) | nd::replace(p, B2(t)))(i, j); }
S2 repl_shape(S2 s, S2 t, P2 p) { return (A2(s) | nd::replace(p, B2(t))).shape(); }
double replf(S2 s, S2 t, I2 f, I2 l, u i, u j) { return (A2(s) | nd::replace_from(f).to(l).with(B2(t)))(i, j); }
double freeze0(S2 s, u n, u j) { return (A2(s) | nd::freeze_axis(0).at_index(n))(j); }
S1 freeze0_shape(S2 s, u n) { return (A2(s) | nd::freeze_axis(0).at_index(n)).shape(); }
double freeze1(S2 s, u n, u j) { return (A2(s) | nd::freeze_axis(1).at_index(n))(j); }
S1 freeze1_shape(S2 s, u n) { return (A2(s) | nd::freeze_axis(1).at_index(n)).shape(); }
double freeze3(S3 s, u n, u i, u j) { return (A3(s) | nd::freeze_axis(1).at_index(n))(i, j); }
double shiftm(S2 s, u i, u j) { return (A2(s) | nd::shift_by(-2).along_axis(1))(i, j); }
S2 shiftm_shape(S2 s) { return (A2(s) | nd::shift_by(-2).along_axis(1)).shape(); }
double shiftp(S2 s, u i, u j) { return (A2(s) | nd::shift_by(2).along_axis(1))(i, j); }
double readi(S2 s, u i, u j) { return A2(s) | nd::read_index(i, j); }
double readis(S2 s, S1 t, u i) { return (A2(s) | nd::read_indexes(nd::make_array([] (I1 i) { return ix(i[0]); }, t)))(i); }
S1 readis_shape(S2 s, S1 t) { return (A2(s) | nd::read_indexes(nd::make_array([] (I1 i) { return ix(i[0]); }, t))).shape(); }
struct first_of { template<typename A> auto operator()(A a) const { return a(7); } };
double coll0(S2 s, u i) { return (A2(s) | nd::collect(first_of()))(i); }
double coll1(S2 s, u i) { return (A2(s) | nd::collect(first_of()).along_axis(1))(i); }
S1 coll0_shape(S2 s) { return (A2(s) | nd::collect(first_of())).shape(); }
S1 coll1_shape(S2 s) { return (A2(s) | nd::collect(first_of()).along_axis(1)).shape(); }

// factories
double lin(double x0, double x1, u n, u i) { return nd::linspace(x0, x1, n)(i); }
S1 lin_shape(double x0, double x1, u n) { return nd::linspace(x0, x1, n).shape(); }
u ara(int n, u i) { return nd::arange(n)(i); }
S1 ara_shape(int n) { return nd::arange(n).shape(); }
double divv(S1 s, u n, u g, u i) { return (A1(s) | nd::divvy(n))(g)(i); }
S1 divv_shape(S1 s, u n, u g) { return (A1(s) | nd::divvy(n))(g).shape(); }
S1 divv_count(S1 s, u n) { return (A1(s) | nd::divvy(n)).shape(); }
double zero2(u n, u m, u i, u j) { return nd::zeros<double>(n, m)(i, j); }
double one2(u n, u m, u i, u j) { return nd::ones<double>(n, m)(i, j); }
S2 zero2_shape(u n, u m) { return nd::zeros<double>(n, m).shape(); }
I2 idx2(S2 s, u i, u j) { return nd::index_array(s)(i, j); }
S2 idx2_shape(S2 s) { return nd::index_array(s).shape(); }

// shapes, indexes and access patterns
u volume2(S2 s) { return s.volume(); }
u volume3(S3 s) { return s.volume(); }
bool contains2(S2 s, I2 i) { return s.contains(i); }
I2 lastidx(S2 s) { return s.last_index(); }
S3 insert3(S2 s, u v) { return s.insert_elements(nd::make_index(1), nd::make_shape(v)); }
S2 remove3(S3 s) { return s.remove_elements(nd::make_index(1)); }
I2 next0(I2 i) { return i.next_on(0); }
I2 prev1(I2 i) { return i.prev_on(1); }
I2 nextax(I2 i, u axis) { return i.next_on(axis); }
bool ilt(I2 a, I2 b) { return a < b; }
bool ile(I2 a, I2 b) { return a <= b; }
bool igt(I2 a, I2 b) { return a > b; }
bool ige(I2 a, I2 b) { return a >= b; }
bool ieq(I2 a, I2 b) { return a == b; }
bool ine(I2 a, I2 b) { return a != b; }
bool peq(P2 a, P2 b) { return a == b; }
bool pne(P2 a, P2 b) { return a != b; }
S2 pshape(P2 p) { return p.shape(); }
u psize(P2 p) { return p.size(); }
I2 pmap(P2 p, I2 i) { return p.map_index(i); }
I2 pinv(P2 p, I2 i) { return p.inverse_map_index(i); }
bool pgen(P2 p, I2 i) { return p.generates(i); }
bool pcon(P2 p, I2 i) { return p.contains(i); }
bool pwithin(P2 p, S2 s) { return p.within(s); }
struct adv2 { bool more; I2 index; };
struct adv1 { bool more; I1 index; };
struct adv3 { bool more; I3 index; };
adv1 padv1(P1 p, I1 i) { bool m = p.advance(i); return {m, i}; }
adv2 padv2(P2 p, I2 i) { bool m = p.advance(i); return {m, i}; }
adv3 padv3(P3 p, I3 i) { bool m = p.advance(i); return {m, i}; }
I2 pbegin(P2 p) { return *p.begin(); }
I2 pend(P2 p) { return *p.end(); }
I2 pinc(P2 p) { auto it = p.begin(); ++it; return *it; }
P2 pws(P2 p, I2 i) { return p.with_start(i); }
P2 pwf(P2 p, I2 i) { return p.with_final(i); }
P2 pwj(P2 p, nd::jumps_t<2> i) { return p.with_jumps(i); }
P2 pmake(S2 s) { return nd::make_access_pattern(s); }
P2 indexes(S2 s) { return A2(s).indexes(); }
u asize(S2 s) { return A2(s).size(); }
nd::memory_strides_t<1> strides1(S1 s) { return nd::make_strides_row_major(s); }
nd::memory_strides_t<2> strides2(S2 s) { return nd::make_strides_row_major(s); }
nd::memory_strides_t<3> strides3(S3 s) { return nd::make_strides_row_major(s); }
u offset3(nd::memory_strides_t<3> m, I3 i) { return m.compute_offset(i); }
P2 part0(S2 s) { return nd::partition_shape<4>(s)[0]; }
P2 part1(S2 s) { return nd::partition_shape<4>(s)[1]; }
P2 part2(S2 s) { return nd::partition_shape<4>(s)[2]; }
P2 part3(S2 s) { return nd::partition_shape<4>(s)[3]; }

// reductions
double rsum(S2 s) { return A2(s) | nd::sum(); }
double rmin(S2 s) { return A2(s) | nd::min(); }
double rmax(S2 s) { return A2(s) | nd::max(); }
bool rall(S2 s) { return T2(s) | nd::all(); }
bool rany(S2 s) { return T2(s) | nd::any(); }
unsigned long rcount(S2 s) { return T2(s) | nd::sum(); }

// memory-backed arrays
using D = nd::buffer_t<double>;
double ush(nd::unique_array<double, 2> a, u i, u j) { return a(i, j); }
double shd(nd::shared_array<double, 2> a, u i, u j) { return a(i, j); }
void ust(nd::unique_array<double, 2>& a, u i, u j, double v) { a(i, j) = v; }
S2 ush_shape(S2 s) { return nd::make_unique_array<double>(s).shape(); }
double bufat(const D& b, u i) { return b.at(i); }
double bufix(const D& b, u i) { return b[i]; }
D bufmove(D b) { D c(std::move(b)); return c; }
D bufmake(u n) { return D(n, 2.0); }
void bufassign(D& a, D& b) { a = std::move(b); }
struct two { D a, b; };
two bufmove2(D b) { D c(std::move(b)); return {std::move(b), std::move(c)}; }
two bufassign2(D a, D b) { a = std::move(b); return {std::move(b), std::move(a)}; }
auto mkshared(S2 s, std::shared_ptr<D> b) { return nd::shared_provider_t<double, 2>(s, b); }
auto mkunique(S2 s, D b) { return nd::unique_provider_t<double, 2>(s, std::move(b)); }
auto evalu(S2 s) { return A2(s).unique(); }
auto evals(S2 s) { return A2(s).shared(); }
auto evalts(S2 s) { return A2(s) | nd::to_shared(); }
auto evaltu(S2 s) { return A2(s) | nd::to_unique(); }
auto resh(nd::shared_array<double, 2> a, S3 t) { return a | nd::reshape(t); }
auto wher(S2 s) { return nd::where(T2(s)); }
auto shun(const nd::unique_array<double, 2>& a) { return a.shared(); }
}
