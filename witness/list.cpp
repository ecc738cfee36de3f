// Immutable lists, as uses of the public interface.
#include <cstddef>
#include <vector>
#include <stdexcept>
#include "core_linked_list.hpp"
namespace witness {
using L = mara::linked_list_t<double>; using V = std::vector<double>; using u = std::size_t;
inline V vec(const L& l) { V r; for (auto x : l) r.push_back(x); return r; }
inline L l3(double a, double b, double c) { return L().prepend(c).prepend(b).prepend(a); }
inline L l2(double a, double b) { return L().prepend(b).prepend(a); }
inline L l1(double a) { return L().prepend(a); }
bool empty0() { return L().empty(); }
bool empty1(double a) { return l1(a).empty(); }
u size0() { return L().size(); }
u size1(double a) { return l1(a).size(); }
u size3(double a, double b, double c) { return l3(a, b, c).size(); }
double head3(double a, double b, double c) { return l3(a, b, c).head(); }
double second(double a, double b, double c) { return l3(a, b, c).tail().head(); }
double third(double a, double b, double c) { return l3(a, b, c).tail().tail().head(); }
bool end3(double a, double b, double c) { return l3(a, b, c).tail().tail().tail().empty(); }
double head0() { return L().head(); }
double head_end(double a) { return l1(a).tail().head(); }
bool tail0() { return L().tail().empty(); }
V each0() { return vec(L()); }
V each3(double a, double b, double c) { return vec(l3(a, b, c)); }
V tail3(double a, double b, double c) { return vec(l3(a, b, c).tail()); }
V pre(double a, double b, double c, double x) { return vec(l3(a, b, c).prepend(x)); }
V app0(double x) { return vec(L().append(x)); }
V app1(double a, double x) { return vec(l1(a).append(x)); }
V app3(double a, double b, double c, double x) { return vec(l3(a, b, c).append(x)); }
V app2(double a, double x, double y) { return vec(l1(a).append(x).append(y)); }
V cat(double a, double b, double c, double x, double y) { return vec(l3(a, b, c).concat(l2(x, y))); }
V cat_l0(double x, double y) { return vec(L().concat(l2(x, y))); }
V cat_r0(double x, double y) { return vec(l2(x, y).concat(L())); }
V cat_00() { return vec(L().concat(L())); }
V cat_self(double a, double b) { auto l = l2(a, b); return vec(l.concat(l)); }
V rev(double a, double b, double c) { return vec(l3(a, b, c).reverse()); }
V rev0() { return vec(L().reverse()); }
V rev1(double a) { return vec(l1(a).reverse()); }
V init3(double a, double b, double c) { return vec(L{a, b, c}); }
V range(double a, double b, double c) { auto v = V{a, b, c}; return vec(L(v.begin(), v.end())); }
V range0() { auto v = V{}; return vec(L(v.begin(), v.end())); }
V again(double a, double b, double c) { auto l = l3(a, b, c); return vec(L(l.begin(), l.end())); }
bool eq(double a, double b, double x, double y) { return l2(a, b) == l2(x, y); }
bool ne(double a, double b, double x, double y) { return l2(a, b) != l2(x, y); }
bool eq_len(double a, double b, double c) { return l3(a, b, c) == l2(a, b); }
bool eq_len2(double a, double b, double c) { return l2(a, b) == l3(a, b, c); }
bool eq_00() { return L() == L(); }
bool eq_0(double a) { return L() == l1(a); }
bool eq_1(double a) { return l1(a) == L(); }
// operations leave the lists they start from as they are
V keep_pre(double a, double b, double x) { auto l = l2(a, b); auto m = l.prepend(x); return vec(l); }
V keep_app(double a, double b, double x) { auto l = l2(a, b); auto m = l.append(x); return vec(l); }
V keep_cat(double a, double b, double x) { auto l = l2(a, b); auto m = l.concat(l1(x)); return vec(l); }
V keep_cat2(double a, double b, double x) { auto l = l2(a, b); auto m = l1(x).concat(l); return vec(l); }
V keep_rev(double a, double b) { auto l = l2(a, b); auto m = l.reverse(); return vec(l); }
V keep_tail(double a, double b, double x) { auto l = l2(a, b); auto m = l.tail().prepend(x); return vec(l); }
V shared(double a, double b, double x) { auto l = l2(a, b); auto m = l.prepend(x); l = l.reverse(); return vec(m); }
V advance(double a, double b, double c) { auto l = l3(a, b, c); auto it = l.begin(); ++it; ++it; return vec(l); }
V copied(double a, double b, double x) { auto l = l2(a, b); auto m = l; m = m.append(x); return vec(l); }
// a list that loses its owner does not take shared elements with it
V owner(double a, double b, double x) { auto m = L(); { auto l = l2(a, b); m = l.tail().prepend(x); l.~L(); } return vec(m); }
V owner2(double a, double b, double x) { auto l = l2(a, b); { auto m = l.prepend(x); m.~L(); } return vec(l); }
V dropped(double a, double b, double x) { auto l = l2(a, b); { auto m = l; m.~L(); } return vec(l); }
V dropped_tail(double a, double b, double x) { auto l = l2(a, b); { auto m = l.tail().prepend(x); auto n = m.tail(); n.~L(); m.~L(); } return vec(l); }
}
