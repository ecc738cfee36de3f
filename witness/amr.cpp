// Uses of block refinement and coarsening on uninterpreted arrays of arbitrary shape, and of block look-up
// in quad-trees holding such arrays.
#include <cmath>
#include <functional>
#include <future>
#include <iostream>
#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
#include <variant>
#include "core_ndarray.hpp"
#include "core_ndarray_ops.hpp"
#include "core_tree.hpp"
#include "mesh_prolong_restrict.hpp"
#include "mesh_tree_operators.hpp"
namespace witness {
using u = std::size_t;
using S1 = nd::shape_t<1>; using S2 = nd::shape_t<2>; using S3 = nd::shape_t<3>;
using I1 = nd::index_t<1>; using I2 = nd::index_t<2>; using I3 = nd::index_t<3>;
double a1(u i); double a2(u i, u j); double a3(u i, u j, u k);
double c2(u block, u i, u j); double c3(u block, u i, u j, u k); double c1(u block, u i);
inline auto A1(S1 s) { return nd::make_array([] (I1 i) { return a1(i[0]); }, s); }
inline auto A2(S2 s) { return nd::make_array([] (I2 i) { return a2(i[0], i[1]); }, s); }
inline auto A3(S3 s) { return nd::make_array([] (I3 i) { return a3(i[0], i[1], i[2]); }, s); }
inline auto C1(u n, S1 s) { return nd::make_array([n] (I1 i) { return c1(n, i[0]); }, s); }
inline auto C2(u n, S2 s) { return nd::make_array([n] (I2 i) { return c2(n, i[0], i[1]); }, s); }
inline auto C3(u n, S3 s) { return nd::make_array([n] (I3 i) { return c3(n, i[0], i[1], i[2]); }, s); }
#define B(name, S, A, expr) \
    double name(S s, NDARG) { auto X = A(s); return (expr)(NDIDX); } \
    S name##_shape(S s) { auto X = A(s); return (expr).shape(); }
#define NDARG u i
#define NDIDX i
B(rc1_0, S1, A1, (X | mara::refine_cells<1>())[0]) B(rc1_1, S1, A1, (X | mara::refine_cells<1>())[1])
B(rv1_0, S1, A1, (X | mara::refine_verts<1>())[0]) B(rv1_1, S1, A1, (X | mara::refine_verts<1>())[1])
B(cc1, S1, A1, X | mara::coarsen_cells<1>()) B(cv1, S1, A1, X | mara::coarsen_verts<1>())
B(kc1, S1, A1, mara::combine_cells(mara::iota<2>().map([s] (u n) { return C1(n, s); })))
B(kv1, S1, A1, mara::combine_verts(mara::iota<2>().map([s] (u n) { return C1(n, s); })))
#undef NDARG
#undef NDIDX
#define NDARG u i, u j
#define NDIDX i, j
B(rc2_0, S2, A2, (X | mara::refine_cells<2>())[0]) B(rc2_1, S2, A2, (X | mara::refine_cells<2>())[1])
B(rc2_2, S2, A2, (X | mara::refine_cells<2>())[2]) B(rc2_3, S2, A2, (X | mara::refine_cells<2>())[3])
B(rv2_0, S2, A2, (X | mara::refine_verts<2>())[0]) B(rv2_1, S2, A2, (X | mara::refine_verts<2>())[1])
B(rv2_2, S2, A2, (X | mara::refine_verts<2>())[2]) B(rv2_3, S2, A2, (X | mara::refine_verts<2>())[3])
B(cc2, S2, A2, X | mara::coarsen_cells<2>()) B(cv2, S2, A2, X | mara::coarsen_verts<2>())
B(kc2, S2, A2, mara::combine_cells(mara::iota<4>().map([s] (u n) { return C2(n, s); })))
B(kv2, S2, A2, mara::combine_verts(mara::iota<4>().map([s] (u n) { return C2(n, s); })))
B(re0, S2, A2, X | mara::restrict_extrinsic(0)) B(re1, S2, A2, X | mara::restrict_extrinsic(1))
B(bcl0, S2, A2, X | mara::bisect_cells_lower(0)) B(bcu1, S2, A2, X | mara::bisect_cells_upper(1))
B(bvl0, S2, A2, X | mara::bisect_verts_lower(0)) B(bvu1, S2, A2, X | mara::bisect_verts_upper(1))
#undef NDARG
#undef NDIDX
#define NDARG u i, u j, u k
#define NDIDX i, j, k
B(rc3_0, S3, A3, (X | mara::refine_cells<3>())[0]) B(rc3_1, S3, A3, (X | mara::refine_cells<3>())[1])
B(rc3_2, S3, A3, (X | mara::refine_cells<3>())[2]) B(rc3_3, S3, A3, (X | mara::refine_cells<3>())[3])
B(rc3_4, S3, A3, (X | mara::refine_cells<3>())[4]) B(rc3_5, S3, A3, (X | mara::refine_cells<3>())[5])
B(rc3_6, S3, A3, (X | mara::refine_cells<3>())[6]) B(rc3_7, S3, A3, (X | mara::refine_cells<3>())[7])
B(rv3_0, S3, A3, (X | mara::refine_verts<3>())[0]) B(rv3_1, S3, A3, (X | mara::refine_verts<3>())[1])
B(rv3_2, S3, A3, (X | mara::refine_verts<3>())[2]) B(rv3_3, S3, A3, (X | mara::refine_verts<3>())[3])
B(rv3_4, S3, A3, (X | mara::refine_verts<3>())[4]) B(rv3_5, S3, A3, (X | mara::refine_verts<3>())[5])
B(rv3_6, S3, A3, (X | mara::refine_verts<3>())[6]) B(rv3_7, S3, A3, (X | mara::refine_verts<3>())[7])
B(cc3, S3, A3, X | mara::coarsen_cells<3>()) B(cv3, S3, A3, X | mara::coarsen_verts<3>())
B(kc3, S3, A3, mara::combine_cells(mara::iota<8>().map([s] (u n) { return C3(n, s); })))
#undef NDARG
#undef NDIDX

// quad-trees of blocks: all four level-1 nodes are leaves except node 1 (x upper, y lower), which has four leaves
using T2 = mara::arithmetic_binary_tree_t<nd::shared_array<double, 2>, 2>;
inline auto leafblock(u n, S2 s) { return C2(n, s) | nd::to_shared(); }
inline auto sub(u n, S2 s) { return mara::tree_of<2>(leafblock(n, s)); }
inline T2 tree1(S2 s)
{
    auto fine = T2{std::make_shared<mara::arithmetic_sequence_t<T2, 4>>(mara::make_sequence(sub(10, s), sub(11, s), sub(12, s), sub(13, s)))};
    return T2{std::make_shared<mara::arithmetic_sequence_t<T2, 4>>(mara::make_sequence(sub(0, s), fine, sub(2, s), sub(3, s)))};
}
inline auto ti(u l, u i, u j) { return mara::make_tree_index(i, j).with_level(l); }
#define BLK(name, l, I, J) \
    double cb_##name(S2 s, u i, u j) { return mara::get_cell_block(tree1(s), ti(l, I, J))(i, j); } \
    double vb_##name(S2 s, u i, u j) { return mara::get_vertex_block(tree1(s), ti(l, I, J))(i, j); } \
    S2 cb_##name##_shape(S2 s) { return mara::get_cell_block(tree1(s), ti(l, I, J)).shape(); } \
    S2 vb_##name##_shape(S2 s) { return mara::get_vertex_block(tree1(s), ti(l, I, J)).shape(); }
BLK(leaf1, 1, 0, 0) BLK(leaf2, 2, 2, 0) BLK(leaf3, 2, 3, 1)
BLK(up00, 2, 0, 0) BLK(up10, 2, 1, 0) BLK(up01, 2, 0, 1) BLK(up11, 2, 1, 1) BLK(up23, 2, 2, 3)
BLK(down, 1, 1, 0)
double cb_post(S2 s, u i, u j) { return mara::get_cell_block(tree1(s), ti(2, 1, 0), [] (auto x) { return x | nd::select_final(1, 0) | nd::to_shared(); })(i, j); }
}
