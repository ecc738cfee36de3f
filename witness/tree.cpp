// Laws of tree indexes and of binary trees, as uses of the public interface.
#include <cmath>
#include <functional>
#include <future>
#include <iostream>
#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
#include <variant>
#include "core_ndarray.hpp"
#include "core_sequence.hpp"
#include "core_tree.hpp"
#include "mesh_tree_operators.hpp"
namespace witness {
using u = std::size_t;
template<u R> using X = mara::tree_index_t<R>;
// ---- indexes: level and coordinates arbitrary
X<2> child0(X<2> x) { return x.child_indexes()[0]; } X<2> child1(X<2> x) { return x.child_indexes()[1]; }
X<2> child2(X<2> x) { return x.child_indexes()[2]; } X<2> child3(X<2> x) { return x.child_indexes()[3]; }
X<3> child3d(X<3> x) { return x.child_indexes()[5]; } X<1> child1d(X<1> x) { return x.child_indexes()[1]; }
X<2> parent(X<2> x) { return x.parent_index(); } X<3> parent3(X<3> x) { return x.parent_index(); }
X<2> relpar(X<2> x) { return x.relative_to_parent(); } X<3> relpar3(X<3> x) { return x.relative_to_parent(); }
X<2> parchild0(X<2> x) { return x.child_indexes()[0].parent_index(); } X<2> parchild1(X<2> x) { return x.child_indexes()[1].parent_index(); }
X<2> parchild2(X<2> x) { return x.child_indexes()[2].parent_index(); } X<2> parchild3(X<2> x) { return x.child_indexes()[3].parent_index(); }
u orthchild0(X<2> x) { return mara::to_integral(x.child_indexes()[0].relative_to_parent().orthant()); }
u orthchild1(X<2> x) { return mara::to_integral(x.child_indexes()[1].relative_to_parent().orthant()); }
u orthchild2(X<2> x) { return mara::to_integral(x.child_indexes()[2].relative_to_parent().orthant()); }
u orthchild3(X<2> x) { return mara::to_integral(x.child_indexes()[3].relative_to_parent().orthant()); }
X<2> withlev(X<2> x, u l) { return x.with_level(l); }
bool ieq(X<2> x, X<2> y) { return x == y; } bool ine(X<2> x, X<2> y) { return x != y; }
X<3> mki(u i, u j, u k) { return mara::make_tree_index(i, j, k); }
// ---- at given levels
inline X<2> at(u l, u i, u j) { return mara::make_tree_index(i, j).with_level(l); }
#define LEV(L) \
    X<2> next0_##L(u i, u j) { return at(L, i, j).next_on(0); } X<2> next1_##L(u i, u j) { return at(L, i, j).next_on(1); } \
    X<2> prev0_##L(u i, u j) { return at(L, i, j).prev_on(0); } X<2> prev1_##L(u i, u j) { return at(L, i, j).prev_on(1); } \
    bool valid_##L(u i, u j) { return at(L, i, j).valid(); }
LEV(0) LEV(1) LEV(2) LEV(7)
#define LEW(L) \
    bool orth0_##L(u i, u j) { return at(L, i, j).orthant()[0]; } bool orth1_##L(u i, u j) { return at(L, i, j).orthant()[1]; } \
    X<2> adv_##L(u i, u j) { return at(L, i, j).advance_level(); }
LEW(1) LEW(2) LEW(5)
bool br0_0() { return mara::binary_repr<3>(0)[0]; } bool br0_1() { return mara::binary_repr<3>(0)[1]; } bool br0_2() { return mara::binary_repr<3>(0)[2]; } u ti0() { return mara::to_integral(mara::binary_repr<3>(0)); }
bool br1_0() { return mara::binary_repr<3>(1)[0]; } bool br1_1() { return mara::binary_repr<3>(1)[1]; } bool br1_2() { return mara::binary_repr<3>(1)[2]; } u ti1() { return mara::to_integral(mara::binary_repr<3>(1)); }
bool br2_0() { return mara::binary_repr<3>(2)[0]; } bool br2_1() { return mara::binary_repr<3>(2)[1]; } bool br2_2() { return mara::binary_repr<3>(2)[2]; } u ti2() { return mara::to_integral(mara::binary_repr<3>(2)); }
bool br3_0() { return mara::binary_repr<3>(3)[0]; } bool br3_1() { return mara::binary_repr<3>(3)[1]; } bool br3_2() { return mara::binary_repr<3>(3)[2]; } u ti3() { return mara::to_integral(mara::binary_repr<3>(3)); }
bool br4_0() { return mara::binary_repr<3>(4)[0]; } bool br4_1() { return mara::binary_repr<3>(4)[1]; } bool br4_2() { return mara::binary_repr<3>(4)[2]; } u ti4() { return mara::to_integral(mara::binary_repr<3>(4)); }
bool br5_0() { return mara::binary_repr<3>(5)[0]; } bool br5_1() { return mara::binary_repr<3>(5)[1]; } bool br5_2() { return mara::binary_repr<3>(5)[2]; } u ti5() { return mara::to_integral(mara::binary_repr<3>(5)); }
bool br6_0() { return mara::binary_repr<3>(6)[0]; } bool br6_1() { return mara::binary_repr<3>(6)[1]; } bool br6_2() { return mara::binary_repr<3>(6)[2]; } u ti6() { return mara::to_integral(mara::binary_repr<3>(6)); }
bool br7_0() { return mara::binary_repr<3>(7)[0]; } bool br7_1() { return mara::binary_repr<3>(7)[1]; } bool br7_2() { return mara::binary_repr<3>(7)[2]; } u ti7() { return mara::to_integral(mara::binary_repr<3>(7)); }
u hb_1_0_0() { return mara::hilbert_index(at(1, 0, 0)); } u hb_1_0_1() { return mara::hilbert_index(at(1, 0, 1)); }
u hb_1_1_0() { return mara::hilbert_index(at(1, 1, 0)); } u hb_1_1_1() { return mara::hilbert_index(at(1, 1, 1)); }
u hb_2_0_0() { return mara::hilbert_index(at(2, 0, 0)); } u hb_2_0_1() { return mara::hilbert_index(at(2, 0, 1)); } u hb_2_0_2() { return mara::hilbert_index(at(2, 0, 2)); } u hb_2_0_3() { return mara::hilbert_index(at(2, 0, 3)); }
u hb_2_1_0() { return mara::hilbert_index(at(2, 1, 0)); } u hb_2_1_1() { return mara::hilbert_index(at(2, 1, 1)); } u hb_2_1_2() { return mara::hilbert_index(at(2, 1, 2)); } u hb_2_1_3() { return mara::hilbert_index(at(2, 1, 3)); }
u hb_2_2_0() { return mara::hilbert_index(at(2, 2, 0)); } u hb_2_2_1() { return mara::hilbert_index(at(2, 2, 1)); } u hb_2_2_2() { return mara::hilbert_index(at(2, 2, 2)); } u hb_2_2_3() { return mara::hilbert_index(at(2, 2, 3)); }
u hb_2_3_0() { return mara::hilbert_index(at(2, 3, 0)); } u hb_2_3_1() { return mara::hilbert_index(at(2, 3, 1)); } u hb_2_3_2() { return mara::hilbert_index(at(2, 3, 2)); } u hb_2_3_3() { return mara::hilbert_index(at(2, 3, 3)); }
u hb_3_0_0() { return mara::hilbert_index(at(3, 0, 0)); } u hb_3_0_1() { return mara::hilbert_index(at(3, 0, 1)); } u hb_3_0_2() { return mara::hilbert_index(at(3, 0, 2)); } u hb_3_0_3() { return mara::hilbert_index(at(3, 0, 3)); } u hb_3_0_4() { return mara::hilbert_index(at(3, 0, 4)); } u hb_3_0_5() { return mara::hilbert_index(at(3, 0, 5)); } u hb_3_0_6() { return mara::hilbert_index(at(3, 0, 6)); } u hb_3_0_7() { return mara::hilbert_index(at(3, 0, 7)); }
u hb_3_1_0() { return mara::hilbert_index(at(3, 1, 0)); } u hb_3_1_1() { return mara::hilbert_index(at(3, 1, 1)); } u hb_3_1_2() { return mara::hilbert_index(at(3, 1, 2)); } u hb_3_1_3() { return mara::hilbert_index(at(3, 1, 3)); } u hb_3_1_4() { return mara::hilbert_index(at(3, 1, 4)); } u hb_3_1_5() { return mara::hilbert_index(at(3, 1, 5)); } u hb_3_1_6() { return mara::hilbert_index(at(3, 1, 6)); } u hb_3_1_7() { return mara::hilbert_index(at(3, 1, 7)); }
u hb_3_2_0() { return mara::hilbert_index(at(3, 2, 0)); } u hb_3_2_1() { return mara::hilbert_index(at(3, 2, 1)); } u hb_3_2_2() { return mara::hilbert_index(at(3, 2, 2)); } u hb_3_2_3() { return mara::hilbert_index(at(3, 2, 3)); } u hb_3_2_4() { return mara::hilbert_index(at(3, 2, 4)); } u hb_3_2_5() { return mara::hilbert_index(at(3, 2, 5)); } u hb_3_2_6() { return mara::hilbert_index(at(3, 2, 6)); } u hb_3_2_7() { return mara::hilbert_index(at(3, 2, 7)); }
u hb_3_3_0() { return mara::hilbert_index(at(3, 3, 0)); } u hb_3_3_1() { return mara::hilbert_index(at(3, 3, 1)); } u hb_3_3_2() { return mara::hilbert_index(at(3, 3, 2)); } u hb_3_3_3() { return mara::hilbert_index(at(3, 3, 3)); } u hb_3_3_4() { return mara::hilbert_index(at(3, 3, 4)); } u hb_3_3_5() { return mara::hilbert_index(at(3, 3, 5)); } u hb_3_3_6() { return mara::hilbert_index(at(3, 3, 6)); } u hb_3_3_7() { return mara::hilbert_index(at(3, 3, 7)); }
u hb_3_4_0() { return mara::hilbert_index(at(3, 4, 0)); } u hb_3_4_1() { return mara::hilbert_index(at(3, 4, 1)); } u hb_3_4_2() { return mara::hilbert_index(at(3, 4, 2)); } u hb_3_4_3() { return mara::hilbert_index(at(3, 4, 3)); } u hb_3_4_4() { return mara::hilbert_index(at(3, 4, 4)); } u hb_3_4_5() { return mara::hilbert_index(at(3, 4, 5)); } u hb_3_4_6() { return mara::hilbert_index(at(3, 4, 6)); } u hb_3_4_7() { return mara::hilbert_index(at(3, 4, 7)); }
u hb_3_5_0() { return mara::hilbert_index(at(3, 5, 0)); } u hb_3_5_1() { return mara::hilbert_index(at(3, 5, 1)); } u hb_3_5_2() { return mara::hilbert_index(at(3, 5, 2)); } u hb_3_5_3() { return mara::hilbert_index(at(3, 5, 3)); } u hb_3_5_4() { return mara::hilbert_index(at(3, 5, 4)); } u hb_3_5_5() { return mara::hilbert_index(at(3, 5, 5)); } u hb_3_5_6() { return mara::hilbert_index(at(3, 5, 6)); } u hb_3_5_7() { return mara::hilbert_index(at(3, 5, 7)); }
u hb_3_6_0() { return mara::hilbert_index(at(3, 6, 0)); } u hb_3_6_1() { return mara::hilbert_index(at(3, 6, 1)); } u hb_3_6_2() { return mara::hilbert_index(at(3, 6, 2)); } u hb_3_6_3() { return mara::hilbert_index(at(3, 6, 3)); } u hb_3_6_4() { return mara::hilbert_index(at(3, 6, 4)); } u hb_3_6_5() { return mara::hilbert_index(at(3, 6, 5)); } u hb_3_6_6() { return mara::hilbert_index(at(3, 6, 6)); } u hb_3_6_7() { return mara::hilbert_index(at(3, 6, 7)); }
u hb_3_7_0() { return mara::hilbert_index(at(3, 7, 0)); } u hb_3_7_1() { return mara::hilbert_index(at(3, 7, 1)); } u hb_3_7_2() { return mara::hilbert_index(at(3, 7, 2)); } u hb_3_7_3() { return mara::hilbert_index(at(3, 7, 3)); } u hb_3_7_4() { return mara::hilbert_index(at(3, 7, 4)); } u hb_3_7_5() { return mara::hilbert_index(at(3, 7, 5)); } u hb_3_7_6() { return mara::hilbert_index(at(3, 7, 6)); } u hb_3_7_7() { return mara::hilbert_index(at(3, 7, 7)); }

// ---- a quad-tree: child 1 of the root is refined, and child 2 of that one too; ten leaves
using T = mara::arithmetic_binary_tree_t<double, 2>;
using D = mara::arithmetic_sequence_t<double, 10>;
inline auto node(T a, T b, T c, T d) { return T{std::make_shared<mara::arithmetic_sequence_t<T, 4>>(mara::make_sequence(a, b, c, d))}; }
inline auto leaf(double x) { return mara::tree_of<2>(x); }
inline T tr(D d) { return node(leaf(d[0]), node(leaf(d[1]), leaf(d[2]), node(leaf(d[3]), leaf(d[4]), leaf(d[5]), leaf(d[6])), leaf(d[7])), leaf(d[8]), leaf(d[9])); }
inline T shallow(D d) { return node(leaf(d[0]), leaf(d[1]), leaf(d[8]), leaf(d[9])); }
using T1 = mara::arithmetic_binary_tree_t<double, 1>; using T3 = mara::arithmetic_binary_tree_t<double, 3>;
using D8 = mara::arithmetic_sequence_t<double, 8>;
inline T3 tr3(D8 d) { return mara::tree_of<3>(d); }
double g(double x); double h(double x, double y); bool p(double x); double q(double x, u n);
T tree(D d) { return tr(d); }
u size(D d) { return tr(d).size(); } u depth(D d) { return tr(d).depth(); } double front(D d) { return tr(d).front(); }
u size0(double x) { return leaf(x).size(); } u depth0(double x) { return leaf(x).depth(); }
double sum(D d) { return tr(d).sum(); } double mn(D d) { return tr(d).min(); } double mx(D d) { return tr(d).max(); }
inline auto btree(D d) { return tr(d).map([] (double x) { return p(x); }); }
bool any(D d) { return btree(d).any(); } bool all(D d) { return btree(d).all(); }
T map(D d) { return tr(d).map([] (double x) { return g(x); }); }
mara::arithmetic_binary_tree_t<X<2>, 2> indexes(D d) { return tr(d).indexes(); }
T binop(D d, D e) { return tr(d).binary_op(tr(e), [] (double x, double y) { return h(x, y); }); }
T pairapply(D d, D e) { return tr(d).pair(tr(e)).apply([] (double x, double y) { return h(x, y); }); }
T pairidx(D d) { return tr(d).pair_indexes().apply([] (X<2> i, double x) { return q(x, i.level * 100 + i.coordinates[0] * 10 + i.coordinates[1]); }); }
T applyto(D d, D e) { return tr(d).map([] (double x) { return [x] (double y) { return h(x, y); }; }).apply_to(tr(e)); }
T mism1(D d, D e) { return tr(d).binary_op(shallow(e), [] (double x, double y) { return h(x, y); }); }
T mism2(D d, D e) { return shallow(d).binary_op(tr(e), [] (double x, double y) { return h(x, y); }); }
T bifall(D d) { return tr(d).bifurcate_all([] (double x) { return mara::make_sequence(q(x, 0), q(x, 1), q(x, 2), q(x, 3)); }); }
T bifyes(D d) { return tr(d).bifurcate_if([] (double) { return true; }, [] (double x) { return mara::make_sequence(q(x, 0), q(x, 1), q(x, 2), q(x, 3)); }); }
T bifno(D d) { return tr(d).bifurcate_if([] (double) { return false; }, [] (double x) { return mara::make_sequence(q(x, 0), q(x, 1), q(x, 2), q(x, 3)); }); }
double bifone(D d) { auto t = leaf(d[0]).bifurcate_if([] (double x) { return p(x); }, [] (double x) { return mara::make_sequence(q(x, 0), q(x, 1), q(x, 2), q(x, 3)); }); return t.has_value() ? t.value() : t.at(at(1, 1, 0)); }
T updleaf(D d) { return tr(d).update(at(2, 3, 1), [] (double x) { return g(x); }); }
T updnode(D d) { return tr(d).update(at(2, 2, 1), [] (double x) { return g(x); }); }
T updroot(D d) { return tr(d).update(at(0, 0, 0), [] (double x) { return g(x); }); }
T updbad(D d) { return tr(d).update(at(2, 0, 0), [] (double x) { return g(x); }); }
T insleaf(D d, double v) { return tr(d).insert(at(2, 2, 0), v); }
T insdeep(D d, double v) { return tr(d).insert(at(2, 1, 0), v); }
T insnode(D d, double v) { return tr(d).insert(at(1, 1, 0), v); }
T insroot(D d, double v) { return leaf(d[0]).insert(at(0, 0, 0), v); }
T insrange(D d, double v) { return tr(d).insert(at(1, 2, 0), v); }
T treeof(mara::arithmetic_sequence_t<double, 4> d) { return mara::tree_of<2>(d); }
u contains3(D8 d) { return tr3(d).contains(mara::make_tree_index(1, 0, 1).with_level(1)) * 8 + tr3(d).contains(mara::make_tree_index(0, 0, 0)) * 4 + tr3(d).contains(mara::make_tree_index(1, 2, 0).with_level(2)) * 2 + tr3(d).contains_node(mara::make_tree_index(0, 0, 0)); }
double at3(D8 d) { return tr3(d).at(mara::make_tree_index(1, 0, 1).with_level(1)); }
double at3b(D8 d) { return tr3(d).at(mara::make_tree_index(0, 1, 1).with_level(1)); }
double childat(D d) { return tr(d).child_at(1, 0).child_at(0, 1).child_at(1, 1).value(); }
double childat3(D8 d) { return tr3(d).child_at(0, 1, 0).value(); }
double valnode(D d) { return tr(d).value(); } T chleaf(D d) { return leaf(d[0]).children()[0]; }
T tplus(D d, D e) { return tr(d) + tr(e); } T splus(D d, double e) { return tr(d) + e; }
T tminus(D d, D e) { return tr(d) - tr(e); } T sminus(D d, double e) { return tr(d) - e; }
T tmul(D d, D e) { return tr(d) * tr(e); } T smul(D d, double e) { return tr(d) * e; }
T tdiv(D d, D e) { return tr(d) / tr(e); } T sdiv(D d, double e) { return tr(d) / e; }
using B = mara::arithmetic_binary_tree_t<bool, 2>;
B teq(D d, D e) { return tr(d) == tr(e); } B seq(D d, double e) { return tr(d) == e; }
B tne(D d, D e) { return tr(d) != tr(e); } B sne(D d, double e) { return tr(d) != e; }
B tle(D d, D e) { return tr(d) <= tr(e); } B sle(D d, double e) { return tr(d) <= e; }
B tge(D d, D e) { return tr(d) >= tr(e); } B sge(D d, double e) { return tr(d) >= e; }
B tlt(D d, D e) { return tr(d) < tr(e); } B slt(D d, double e) { return tr(d) < e; }
B tgt(D d, D e) { return tr(d) > tr(e); } B sgt(D d, double e) { return tr(d) > e; }
B tand(D d, D e) { return btree(d) && btree(e); } B sand(D d, bool e) { return btree(d) && e; }
B tor(D d, D e) { return btree(d) || btree(e); } B sor(D d, bool e) { return btree(d) || e; }
T neg(D d) { return -tr(d); } T pos(D d) { return +tr(d); }
double at_0_0_0(D d) { return tr(d).at(at(0, 0, 0)); } bool has_0_0_0(D d) { return tr(d).contains(at(0, 0, 0)); } bool node_0_0_0(D d) { return tr(d).contains_node(at(0, 0, 0)); } double fnd_0_0_0(D d) { return tr(d).find(at(0, 0, 0)).value_or(d[0] - 1); } u nds_0_0_0(D d) { return tr(d).node_at(at(0, 0, 0)).size(); }
double at_0_1_0(D d) { return tr(d).at(at(0, 1, 0)); } bool has_0_1_0(D d) { return tr(d).contains(at(0, 1, 0)); } bool node_0_1_0(D d) { return tr(d).contains_node(at(0, 1, 0)); } double fnd_0_1_0(D d) { return tr(d).find(at(0, 1, 0)).value_or(d[0] - 1); } u nds_0_1_0(D d) { return tr(d).node_at(at(0, 1, 0)).size(); }
double at_1_0_0(D d) { return tr(d).at(at(1, 0, 0)); } bool has_1_0_0(D d) { return tr(d).contains(at(1, 0, 0)); } bool node_1_0_0(D d) { return tr(d).contains_node(at(1, 0, 0)); } double fnd_1_0_0(D d) { return tr(d).find(at(1, 0, 0)).value_or(d[0] - 1); } u nds_1_0_0(D d) { return tr(d).node_at(at(1, 0, 0)).size(); }
double at_1_0_1(D d) { return tr(d).at(at(1, 0, 1)); } bool has_1_0_1(D d) { return tr(d).contains(at(1, 0, 1)); } bool node_1_0_1(D d) { return tr(d).contains_node(at(1, 0, 1)); } double fnd_1_0_1(D d) { return tr(d).find(at(1, 0, 1)).value_or(d[0] - 1); } u nds_1_0_1(D d) { return tr(d).node_at(at(1, 0, 1)).size(); }
double at_1_1_0(D d) { return tr(d).at(at(1, 1, 0)); } bool has_1_1_0(D d) { return tr(d).contains(at(1, 1, 0)); } bool node_1_1_0(D d) { return tr(d).contains_node(at(1, 1, 0)); } double fnd_1_1_0(D d) { return tr(d).find(at(1, 1, 0)).value_or(d[0] - 1); } u nds_1_1_0(D d) { return tr(d).node_at(at(1, 1, 0)).size(); }
double at_1_1_1(D d) { return tr(d).at(at(1, 1, 1)); } bool has_1_1_1(D d) { return tr(d).contains(at(1, 1, 1)); } bool node_1_1_1(D d) { return tr(d).contains_node(at(1, 1, 1)); } double fnd_1_1_1(D d) { return tr(d).find(at(1, 1, 1)).value_or(d[0] - 1); } u nds_1_1_1(D d) { return tr(d).node_at(at(1, 1, 1)).size(); }
double at_1_2_0(D d) { return tr(d).at(at(1, 2, 0)); } bool has_1_2_0(D d) { return tr(d).contains(at(1, 2, 0)); } bool node_1_2_0(D d) { return tr(d).contains_node(at(1, 2, 0)); } double fnd_1_2_0(D d) { return tr(d).find(at(1, 2, 0)).value_or(d[0] - 1); } u nds_1_2_0(D d) { return tr(d).node_at(at(1, 2, 0)).size(); }
double at_1_2_1(D d) { return tr(d).at(at(1, 2, 1)); } bool has_1_2_1(D d) { return tr(d).contains(at(1, 2, 1)); } bool node_1_2_1(D d) { return tr(d).contains_node(at(1, 2, 1)); } double fnd_1_2_1(D d) { return tr(d).find(at(1, 2, 1)).value_or(d[0] - 1); } u nds_1_2_1(D d) { return tr(d).node_at(at(1, 2, 1)).size(); }
double at_2_0_0(D d) { return tr(d).at(at(2, 0, 0)); } bool has_2_0_0(D d) { return tr(d).contains(at(2, 0, 0)); } bool node_2_0_0(D d) { return tr(d).contains_node(at(2, 0, 0)); } double fnd_2_0_0(D d) { return tr(d).find(at(2, 0, 0)).value_or(d[0] - 1); } u nds_2_0_0(D d) { return tr(d).node_at(at(2, 0, 0)).size(); }
double at_2_0_1(D d) { return tr(d).at(at(2, 0, 1)); } bool has_2_0_1(D d) { return tr(d).contains(at(2, 0, 1)); } bool node_2_0_1(D d) { return tr(d).contains_node(at(2, 0, 1)); } double fnd_2_0_1(D d) { return tr(d).find(at(2, 0, 1)).value_or(d[0] - 1); } u nds_2_0_1(D d) { return tr(d).node_at(at(2, 0, 1)).size(); }
double at_2_0_2(D d) { return tr(d).at(at(2, 0, 2)); } bool has_2_0_2(D d) { return tr(d).contains(at(2, 0, 2)); } bool node_2_0_2(D d) { return tr(d).contains_node(at(2, 0, 2)); } double fnd_2_0_2(D d) { return tr(d).find(at(2, 0, 2)).value_or(d[0] - 1); } u nds_2_0_2(D d) { return tr(d).node_at(at(2, 0, 2)).size(); }
double at_2_0_3(D d) { return tr(d).at(at(2, 0, 3)); } bool has_2_0_3(D d) { return tr(d).contains(at(2, 0, 3)); } bool node_2_0_3(D d) { return tr(d).contains_node(at(2, 0, 3)); } double fnd_2_0_3(D d) { return tr(d).find(at(2, 0, 3)).value_or(d[0] - 1); } u nds_2_0_3(D d) { return tr(d).node_at(at(2, 0, 3)).size(); }
double at_2_1_0(D d) { return tr(d).at(at(2, 1, 0)); } bool has_2_1_0(D d) { return tr(d).contains(at(2, 1, 0)); } bool node_2_1_0(D d) { return tr(d).contains_node(at(2, 1, 0)); } double fnd_2_1_0(D d) { return tr(d).find(at(2, 1, 0)).value_or(d[0] - 1); } u nds_2_1_0(D d) { return tr(d).node_at(at(2, 1, 0)).size(); }
double at_2_1_1(D d) { return tr(d).at(at(2, 1, 1)); } bool has_2_1_1(D d) { return tr(d).contains(at(2, 1, 1)); } bool node_2_1_1(D d) { return tr(d).contains_node(at(2, 1, 1)); } double fnd_2_1_1(D d) { return tr(d).find(at(2, 1, 1)).value_or(d[0] - 1); } u nds_2_1_1(D d) { return tr(d).node_at(at(2, 1, 1)).size(); }
double at_2_1_2(D d) { return tr(d).at(at(2, 1, 2)); } bool has_2_1_2(D d) { return tr(d).contains(at(2, 1, 2)); } bool node_2_1_2(D d) { return tr(d).contains_node(at(2, 1, 2)); } double fnd_2_1_2(D d) { return tr(d).find(at(2, 1, 2)).value_or(d[0] - 1); } u nds_2_1_2(D d) { return tr(d).node_at(at(2, 1, 2)).size(); }
double at_2_1_3(D d) { return tr(d).at(at(2, 1, 3)); } bool has_2_1_3(D d) { return tr(d).contains(at(2, 1, 3)); } bool node_2_1_3(D d) { return tr(d).contains_node(at(2, 1, 3)); } double fnd_2_1_3(D d) { return tr(d).find(at(2, 1, 3)).value_or(d[0] - 1); } u nds_2_1_3(D d) { return tr(d).node_at(at(2, 1, 3)).size(); }
double at_2_2_0(D d) { return tr(d).at(at(2, 2, 0)); } bool has_2_2_0(D d) { return tr(d).contains(at(2, 2, 0)); } bool node_2_2_0(D d) { return tr(d).contains_node(at(2, 2, 0)); } double fnd_2_2_0(D d) { return tr(d).find(at(2, 2, 0)).value_or(d[0] - 1); } u nds_2_2_0(D d) { return tr(d).node_at(at(2, 2, 0)).size(); }
double at_2_2_1(D d) { return tr(d).at(at(2, 2, 1)); } bool has_2_2_1(D d) { return tr(d).contains(at(2, 2, 1)); } bool node_2_2_1(D d) { return tr(d).contains_node(at(2, 2, 1)); } double fnd_2_2_1(D d) { return tr(d).find(at(2, 2, 1)).value_or(d[0] - 1); } u nds_2_2_1(D d) { return tr(d).node_at(at(2, 2, 1)).size(); }
double at_2_2_2(D d) { return tr(d).at(at(2, 2, 2)); } bool has_2_2_2(D d) { return tr(d).contains(at(2, 2, 2)); } bool node_2_2_2(D d) { return tr(d).contains_node(at(2, 2, 2)); } double fnd_2_2_2(D d) { return tr(d).find(at(2, 2, 2)).value_or(d[0] - 1); } u nds_2_2_2(D d) { return tr(d).node_at(at(2, 2, 2)).size(); }
double at_2_2_3(D d) { return tr(d).at(at(2, 2, 3)); } bool has_2_2_3(D d) { return tr(d).contains(at(2, 2, 3)); } bool node_2_2_3(D d) { return tr(d).contains_node(at(2, 2, 3)); } double fnd_2_2_3(D d) { return tr(d).find(at(2, 2, 3)).value_or(d[0] - 1); } u nds_2_2_3(D d) { return tr(d).node_at(at(2, 2, 3)).size(); }
double at_2_3_0(D d) { return tr(d).at(at(2, 3, 0)); } bool has_2_3_0(D d) { return tr(d).contains(at(2, 3, 0)); } bool node_2_3_0(D d) { return tr(d).contains_node(at(2, 3, 0)); } double fnd_2_3_0(D d) { return tr(d).find(at(2, 3, 0)).value_or(d[0] - 1); } u nds_2_3_0(D d) { return tr(d).node_at(at(2, 3, 0)).size(); }
double at_2_3_1(D d) { return tr(d).at(at(2, 3, 1)); } bool has_2_3_1(D d) { return tr(d).contains(at(2, 3, 1)); } bool node_2_3_1(D d) { return tr(d).contains_node(at(2, 3, 1)); } double fnd_2_3_1(D d) { return tr(d).find(at(2, 3, 1)).value_or(d[0] - 1); } u nds_2_3_1(D d) { return tr(d).node_at(at(2, 3, 1)).size(); }
double at_2_3_2(D d) { return tr(d).at(at(2, 3, 2)); } bool has_2_3_2(D d) { return tr(d).contains(at(2, 3, 2)); } bool node_2_3_2(D d) { return tr(d).contains_node(at(2, 3, 2)); } double fnd_2_3_2(D d) { return tr(d).find(at(2, 3, 2)).value_or(d[0] - 1); } u nds_2_3_2(D d) { return tr(d).node_at(at(2, 3, 2)).size(); }
double at_2_3_3(D d) { return tr(d).at(at(2, 3, 3)); } bool has_2_3_3(D d) { return tr(d).contains(at(2, 3, 3)); } bool node_2_3_3(D d) { return tr(d).contains_node(at(2, 3, 3)); } double fnd_2_3_3(D d) { return tr(d).find(at(2, 3, 3)).value_or(d[0] - 1); } u nds_2_3_3(D d) { return tr(d).node_at(at(2, 3, 3)).size(); }
double at_3_4_2(D d) { return tr(d).at(at(3, 4, 2)); } bool has_3_4_2(D d) { return tr(d).contains(at(3, 4, 2)); } bool node_3_4_2(D d) { return tr(d).contains_node(at(3, 4, 2)); } double fnd_3_4_2(D d) { return tr(d).find(at(3, 4, 2)).value_or(d[0] - 1); } u nds_3_4_2(D d) { return tr(d).node_at(at(3, 4, 2)).size(); }
double at_3_5_2(D d) { return tr(d).at(at(3, 5, 2)); } bool has_3_5_2(D d) { return tr(d).contains(at(3, 5, 2)); } bool node_3_5_2(D d) { return tr(d).contains_node(at(3, 5, 2)); } double fnd_3_5_2(D d) { return tr(d).find(at(3, 5, 2)).value_or(d[0] - 1); } u nds_3_5_2(D d) { return tr(d).node_at(at(3, 5, 2)).size(); }
double at_3_4_3(D d) { return tr(d).at(at(3, 4, 3)); } bool has_3_4_3(D d) { return tr(d).contains(at(3, 4, 3)); } bool node_3_4_3(D d) { return tr(d).contains_node(at(3, 4, 3)); } double fnd_3_4_3(D d) { return tr(d).find(at(3, 4, 3)).value_or(d[0] - 1); } u nds_3_4_3(D d) { return tr(d).node_at(at(3, 4, 3)).size(); }
double at_3_5_3(D d) { return tr(d).at(at(3, 5, 3)); } bool has_3_5_3(D d) { return tr(d).contains(at(3, 5, 3)); } bool node_3_5_3(D d) { return tr(d).contains_node(at(3, 5, 3)); } double fnd_3_5_3(D d) { return tr(d).find(at(3, 5, 3)).value_or(d[0] - 1); } u nds_3_5_3(D d) { return tr(d).node_at(at(3, 5, 3)).size(); }
double at_3_3_2(D d) { return tr(d).at(at(3, 3, 2)); } bool has_3_3_2(D d) { return tr(d).contains(at(3, 3, 2)); } bool node_3_3_2(D d) { return tr(d).contains_node(at(3, 3, 2)); } double fnd_3_3_2(D d) { return tr(d).find(at(3, 3, 2)).value_or(d[0] - 1); } u nds_3_3_2(D d) { return tr(d).node_at(at(3, 3, 2)).size(); }
double at_3_7_7(D d) { return tr(d).at(at(3, 7, 7)); } bool has_3_7_7(D d) { return tr(d).contains(at(3, 7, 7)); } bool node_3_7_7(D d) { return tr(d).contains_node(at(3, 7, 7)); } double fnd_3_7_7(D d) { return tr(d).find(at(3, 7, 7)).value_or(d[0] - 1); } u nds_3_7_7(D d) { return tr(d).node_at(at(3, 7, 7)).size(); }
double at_3_4_4(D d) { return tr(d).at(at(3, 4, 4)); } bool has_3_4_4(D d) { return tr(d).contains(at(3, 4, 4)); } bool node_3_4_4(D d) { return tr(d).contains_node(at(3, 4, 4)); } double fnd_3_4_4(D d) { return tr(d).find(at(3, 4, 4)).value_or(d[0] - 1); } u nds_3_4_4(D d) { return tr(d).node_at(at(3, 4, 4)).size(); }
double at_3_0_0(D d) { return tr(d).at(at(3, 0, 0)); } bool has_3_0_0(D d) { return tr(d).contains(at(3, 0, 0)); } bool node_3_0_0(D d) { return tr(d).contains_node(at(3, 0, 0)); } double fnd_3_0_0(D d) { return tr(d).find(at(3, 0, 0)).value_or(d[0] - 1); } u nds_3_0_0(D d) { return tr(d).node_at(at(3, 0, 0)).size(); }

// ---- over-refinement
B over(D d) { return mara::over_refined_neighbors(tr(d)); }
B overs(D d) { return mara::over_refined_neighbors(shallow(d)); }
inline T quad(double x) { return node(leaf(x), leaf(x), leaf(x), leaf(x)); }
inline T deep(D d) { return node(node(leaf(d[0]), leaf(d[1]), leaf(d[2]), node(leaf(d[3]), quad(d[4]), leaf(d[5]), leaf(d[6]))), quad(d[7]), quad(d[8]), quad(d[9])); }
B overd(D d) { return mara::over_refined_neighbors(deep(d)); }
}
