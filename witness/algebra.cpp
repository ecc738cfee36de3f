// Uses of the public vector / matrix / tuple / dimensional algebra; each function is one rule instance.
#include <iostream>
#include <stdexcept>
#include <string>
#include "core_ndarray.hpp"
#include "core_geometric.hpp"
#include "core_matrix.hpp"
#include "core_sequence.hpp"
#include "core_tuple.hpp"
#include "core_dimensional.hpp"
#include "core_rational.hpp"
namespace witness {
using namespace mara;
using seq3 = arithmetic_sequence_t<double, 3>;
using seq2 = arithmetic_sequence_t<double, 2>;
using iseq3 = arithmetic_sequence_t<int, 3>;
using bseq3 = arithmetic_sequence_t<bool, 3>;
using ss = arithmetic_sequence_t<arithmetic_sequence_t<double, 3>, 2>;
using L = unit_length<double>; using M_ = unit_mass<double>; using V = unit_velocity<double>;
using tup = arithmetic_tuple_t<double, L, V>;
using m23 = matrix_t<double, 2, 3>; using m32 = matrix_t<double, 3, 2>; using m22 = matrix_t<double, 2, 2>;
struct dseq : derivable_sequence_t<double, 3, dseq> {};
struct dtup : derivable_tuple_t<dtup, double, L> {};

seq3 seq_add(seq3 a, seq3 b) { return a + b; }
seq3 seq_sub(seq3 a, seq3 b) { return a - b; }
seq3 seq_mul(seq3 a, seq3 b) { return a * b; }
seq3 seq_div(seq3 a, seq3 b) { return a / b; }
seq3 seq_adds(seq3 a, double s) { return a + s; }
seq3 seq_subs(seq3 a, double s) { return a - s; }
seq3 seq_muls(seq3 a, double s) { return a * s; }
seq3 seq_divs(seq3 a, double s) { return a / s; }
seq3 seq_neg(seq3 a) { return -a; }
seq3 seq_pos(seq3 a) { return +a; }
bseq3 seq_lt(seq3 a, seq3 b) { return a < b; }
bseq3 seq_gt(seq3 a, seq3 b) { return a > b; }
bseq3 seq_le(seq3 a, seq3 b) { return a <= b; }
bseq3 seq_ge(seq3 a, seq3 b) { return a >= b; }
bseq3 seq_eq(seq3 a, seq3 b) { return a == b; }
bseq3 seq_ne(seq3 a, seq3 b) { return a != b; }
bseq3 seq_lts(seq3 a, double b) { return a < b; }
bseq3 seq_gts(seq3 a, double b) { return a > b; }
bseq3 seq_les(seq3 a, double b) { return a <= b; }
bseq3 seq_ges(seq3 a, double b) { return a >= b; }
bseq3 seq_eqs(seq3 a, double b) { return a == b; }
bseq3 seq_nes(seq3 a, double b) { return a != b; }
bseq3 seq_and(bseq3 a, bseq3 b) { return a && b; }
bseq3 seq_or (bseq3 a, bseq3 b) { return a || b; }
double seq_sum(seq3 a) { return a.sum(); }
double seq_min(seq3 a) { return a.min(); }
double seq_max(seq3 a) { return a.max(); }
bool seq_all(bseq3 a) { return a.all(); }
bool seq_any(bseq3 a) { return a.any(); }
seq3 seq_reverse(seq3 a) { return a.reverse(); }
seq2 seq_init(seq3 a) { return a.init(); }
seq2 seq_tail(seq3 a) { return a.tail(); }
double seq_head(seq3 a) { return a.head(); }
double seq_last(seq3 a) { return a.last(); }
auto seq_concat(seq3 a, seq2 b) { return a.concat(b); }
auto seq_append(seq3 a, double b) { return a.append(b); }
auto seq_prepend(seq3 a, double b) { return a.prepend(b); }
auto seq_transpose(ss a) { return a.transpose(); }
auto seq_set0(seq3 a, double b) { return a.set(0, b); }
auto seq_set1(seq3 a, double b) { return a.set(1, b); }
auto seq_set2(seq3 a, double b) { return a.set(2, b); }
auto seq_set3(seq3 a, double b) { return a.set(3, b); }
auto seq_update1(seq3 a) { return a.update(1, [] (double x) { return x * x + 1.0; }); }
auto seq_map(seq3 a) { return a.map([] (double x) { return x * x + 1.0; }); }
auto seq_make(double a, double b) { return make_sequence(a, b); }
auto seq_iota() { return iota<4>(); }
auto seq_lift(seq3 a, seq3 b) { return lift([] (double x, double y) { return x * x - y; })(a, b); }
double seq_get2(seq3 a) { return mara::get<2>(a); }
double seq_at1(seq3 a) { return a.at(1); }

dseq dseq_add(dseq a, dseq b) { return a + b; }
dseq dseq_sub(dseq a, dseq b) { return a - b; }
dseq dseq_mul(dseq a, double b) { return a * b; }
dseq dseq_div(dseq a, double b) { return a / b; }
dseq dseq_neg(dseq a) { return -a; }
dseq dseq_pos(dseq a) { return +a; }
bool dseq_eq(dseq a, dseq b) { return a == b; }
bool dseq_ne(dseq a, dseq b) { return a != b; }

auto tup_add(tup a, tup b) { return a + b; }
auto tup_sub(tup a, tup b) { return a - b; }
auto tup_mul(tup a, tup b) { return a * b; }
auto tup_div(arithmetic_tuple_t<double, L, M_> a, arithmetic_tuple_t<double, double, double> b) { return a / b; }
auto tup_muls(tup a, double s) { return a * s; }
auto tup_divs(tup a, double s) { return a / s; }
auto tup_neg(tup a) { return -a; }
auto tup_set1(tup a, L s) { return a.template set<1>(s); }
auto tup_get2(tup a) { return mara::get<2>(a); }
auto tup_make(double a, L b) { return make_arithmetic_tuple(a, b); }
auto tup_seq(arithmetic_tuple_t<double, double> a) { return a.to_sequence(); }
bseq3 tup_lt(tup a, tup b) { return (a < b).to_sequence(); }
bseq3 tup_gt(tup a, tup b) { return (a > b).to_sequence(); }
bseq3 tup_le(tup a, tup b) { return (a <= b).to_sequence(); }
bseq3 tup_ge(tup a, tup b) { return (a >= b).to_sequence(); }
bseq3 tup_eq(tup a, tup b) { return (a == b).to_sequence(); }
bseq3 tup_ne(tup a, tup b) { return (a != b).to_sequence(); }
dtup dtup_add(dtup a, dtup b) { return a + b; }
dtup dtup_sub(dtup a, dtup b) { return a - b; }
dtup dtup_mul(dtup a, double b) { return a * b; }
dtup dtup_div(dtup a, double b) { return a / b; }
dtup dtup_neg(dtup a) { return -a; }
bool dtup_eq(dtup a, dtup b) { return a == b; }
bool dtup_ne(dtup a, dtup b) { return a != b; }

auto dim_add(L a, L b) { return a + b; }
auto dim_sub(L a, L b) { return a - b; }
auto dim_mul(L a, V b) { return a * b; }
auto dim_div(L a, V b) { return a / b; }
auto dim_ratio(L a, L b) { return a / b; }
auto dim_muls(L a, double b) { return a * b; }
auto dim_divs(L a, double b) { return a / b; }
auto dim_neg(L a) { return -a; }
auto dim_pow2(L a) { return a.pow<2>(); }
auto dim_powm3(L a) { return a.pow<-3>(); }
auto dim_sqrt(unit_area<double> a) { return a.pow<1, 2>(); }
auto dim_addeq(L a, L b) { a += b; return a; }
auto dim_subeq(L a, L b) { a -= b; return a; }
bool dim_lt(L a, L b) { return a < b; }
bool dim_gt(L a, L b) { return a > b; }
bool dim_le(L a, L b) { return a <= b; }
bool dim_ge(L a, L b) { return a >= b; }
bool dim_eq(L a, L b) { return a == b; }
bool dim_ne(L a, L b) { return a != b; }

m23 mat_add(m23 a, m23 b) { return a + b; }
m23 mat_sub(m23 a, m23 b) { return a - b; }
m23 mat_muls(m23 a, double s) { return a * s; }
m23 mat_divs(m23 a, double s) { return a / s; }
m22 mat_prod(m23 a, m32 b) { return a * b; }
m22 mat_prod2(m23 a, m32 b) { return matrix_product(a, b); }
auto mat_zero() { return zero_matrix<double, 2, 3>(); }
auto mat_id() { return identity_matrix<double, 3>(); }
auto mat_diag(double a, double b, double c) { return diagonal_matrix<double>(a, b, c); }
bool mat_eq(m22 a, m22 b) { return a == b; }
bool mat_ne(m22 a, m22 b) { return a != b; }
double mat_get(m23 a) { return a(1, 2); }

unit_vector_t uv_make(double a, double b, double c) { return unit_vector_t(a, b, c); }
unit_vector_t uv_1() { return unit_vector_t::on_axis_1(); }
unit_vector_t uv_2() { return unit_vector_t::on_axis_2(); }
unit_vector_t uv_3() { return unit_vector_t::on_axis_3(); }
unit_vector_t uv_on0() { return unit_vector_t::on_axis(0); }
unit_vector_t uv_on1() { return unit_vector_t::on_axis(1); }
unit_vector_t uv_on2() { return unit_vector_t::on_axis(2); }
double uv_project(unit_vector_t n, double a, double b, double c) { return n.project(a, b, c); }
auto uv_scale(unit_vector_t n, double s) { return n * s; }
double uv_i0(unit_vector_t n) { return n[0]; }
double uv_i1(unit_vector_t n) { return n[1]; }
double uv_i2(unit_vector_t n) { return n[2]; }
double uv_g0(unit_vector_t n) { return n.get_n1(); }
double uv_g1(unit_vector_t n) { return n.get_n2(); }
double uv_g2(unit_vector_t n) { return n.get_n3(); }
auto sc_make(double a, double b, double c) { return make_spatial_coordinate(a, b, c); }
auto ae_make(double a, double b, double c) { return make_area_element(a, b, c); }
}
