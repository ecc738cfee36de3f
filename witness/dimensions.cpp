// Type-level witnesses: each RULE is a static assertion about what well-typed programs can do.
#include <iostream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include "core_ndarray.hpp"
#include "core_geometric.hpp"
#include "core_tuple.hpp"
#include "core_dimensional.hpp"
#include "core_rational.hpp"
#include "physics_srhd.hpp"
#include "physics_iso2d.hpp"
#include "physics_euler.hpp"
#define RULE(name, ...) static_assert(__VA_ARGS__, "RULE " name);
namespace w {
template<int C, int G, int S> using D = mara::dimensional_value_t<C, G, S, double>;
template<class A, class B, class = void> struct adds : std::false_type {};
template<class A, class B> struct adds<A, B, std::void_t<decltype(std::declval<A>() + std::declval<B>())>> : std::true_type {};
template<class A, class B, class = void> struct subs : std::false_type {};
template<class A, class B> struct subs<A, B, std::void_t<decltype(std::declval<A>() - std::declval<B>())>> : std::true_type {};
template<class A, class B, class = void> struct adde : std::false_type {};
template<class A, class B> struct adde<A, B, std::void_t<decltype(std::declval<A&>() += std::declval<B>())>> : std::true_type {};
template<class A, class B, class = void> struct sube : std::false_type {};
template<class A, class B> struct sube<A, B, std::void_t<decltype(std::declval<A&>() -= std::declval<B>())>> : std::true_type {};
template<class A, class B, class = void> struct less : std::false_type {};
template<class A, class B> struct less<A, B, std::void_t<decltype(std::declval<A>() < std::declval<B>())>> : std::true_type {};
template<class A, class B, class = void> struct grtr : std::false_type {};
template<class A, class B> struct grtr<A, B, std::void_t<decltype(std::declval<A>() > std::declval<B>())>> : std::true_type {};
template<class A, class B, class = void> struct lseq : std::false_type {};
template<class A, class B> struct lseq<A, B, std::void_t<decltype(std::declval<A>() <= std::declval<B>())>> : std::true_type {};
template<class A, class B, class = void> struct greq : std::false_type {};
template<class A, class B> struct greq<A, B, std::void_t<decltype(std::declval<A>() >= std::declval<B>())>> : std::true_type {};
template<class A, class B, class = void> struct eqls : std::false_type {};
template<class A, class B> struct eqls<A, B, std::void_t<decltype(std::declval<A>() == std::declval<B>())>> : std::true_type {};
template<class A, class B, class = void> struct neql : std::false_type {};
template<class A, class B> struct neql<A, B, std::void_t<decltype(std::declval<A>() != std::declval<B>())>> : std::true_type {};
template<class A, class B> constexpr bool same = std::is_same<std::decay_t<A>, B>::value;
#define T_(e) decltype(e)
template<class A> A v();

// one instance per differing dimension (length, mass, time), each against a reference quantity
#define SEPARATE(tag, A, B) \
    RULE(tag " cannot be added", !adds<A, B>::value && !adds<B, A>::value) \
    RULE(tag " cannot be subtracted", !subs<A, B>::value && !subs<B, A>::value) \
    RULE(tag " cannot be accumulated", !adde<A, B>::value && !sube<A, B>::value && !adde<B, A>::value && !sube<B, A>::value) \
    RULE(tag " cannot be ordered", !less<A, B>::value && !grtr<A, B>::value && !lseq<A, B>::value && !greq<A, B>::value) \
    RULE(tag " cannot be compared", !eqls<A, B>::value && !neql<A, B>::value) \
    RULE(tag " cannot be assigned", !std::is_assignable<A&, B>::value && !std::is_assignable<B&, A>::value) \
    RULE(tag " cannot be converted", !std::is_convertible<A, B>::value && !std::is_convertible<B, A>::value && !std::is_constructible<A, B>::value)
using L0 = D<1, 1, 1>; using L1 = D<2, 1, 1>; using L2 = D<1, 2, 1>; using L3 = D<1, 1, 2>; using L4 = D<-1, 1, 1>;
SEPARATE("quantities differing in length", L0, L1)
SEPARATE("quantities differing in mass", L0, L2)
SEPARATE("quantities differing in time", L0, L3)
SEPARATE("quantities differing in the sign of the length power", L0, L4)
using Ln = mara::unit_length<double>; using Ms = mara::unit_mass<double>; using Tm = mara::unit_time<double>;
SEPARATE("length and mass", Ln, Ms)
SEPARATE("length and time", Ln, Tm)
SEPARATE("mass and time", Ms, Tm)
SEPARATE("force and energy", mara::unit_force<double>, mara::unit_energy<double>)
SEPARATE("momentum and angular momentum", mara::unit_momentum<double>, mara::unit_angmom<double>)

RULE("a dimensional quantity does not convert to a number", !std::is_convertible<L0, double>::value && !std::is_constructible<double, L0>::value && !std::is_convertible<Ln, int>::value && !std::is_convertible<Ln, bool>::value)
RULE("same dimensions add to the same dimensions", same<T_(v<L0>() + v<L0>()), L0> && same<T_(v<L0>() - v<L0>()), L0> && same<T_(-v<L0>()), L0>)
RULE("products add dimensions", same<T_((v<D<1,2,3>>() * v<D<4,-5,7>>())), D<5,-3,10>>)
RULE("quotients subtract dimensions", same<T_((v<D<1,2,3>>() / v<D<4,-5,7>>())), D<-3,7,-4>>)
RULE("scaling keeps dimensions", same<T_((v<D<1,2,3>>() * 2.0)), D<1,2,3>> && same<T_((v<D<1,2,3>>() / 2.0)), D<1,2,3>>)
RULE("the ratio of like quantities is a number", same<T_((v<L0>() / v<L0>())), double>)
RULE("powers multiply dimensions", same<T_((v<D<1,2,-3>>().pow<2>())), D<2,4,-6>> && same<T_((v<D<2,4,-6>>().template pow<1, 2>())), D<1,2,-3>> && same<T_((v<D<2,4,-6>>().template pow<-3, 2>())), D<-3,-6,9>>)
RULE("a number is recovered only from a dimensionless quantity", same<T_((v<D<0,0,0>>().scalar())), double>)
RULE("comparisons give truth values", same<T_((v<L0>() < v<L0>())), bool> && same<T_((v<L0>() == v<L0>())), bool>)

template<int C, int G, int S, class Q> constexpr bool dims = same<Q, D<C, G, S>>;
RULE("named units have their dimensions",
    dims<0,0,0, mara::unit_scalar<double>> && dims<1,0,0, mara::unit_length<double>> && dims<0,1,0, mara::unit_mass<double>> && dims<0,0,1, mara::unit_time<double>> &&
    dims<0,0,-1, mara::unit_rate<double>> && dims<2,0,0, mara::unit_area<double>> && dims<1,0,-1, mara::unit_velocity<double>> && dims<3,0,0, mara::unit_volume<double>> &&
    dims<-2,1,-1, mara::unit_flux<double>> && dims<0,1,-1, mara::unit_flow<double>> && dims<-3,1,0, mara::unit_mass_density<double>> && dims<-3,1,-1, mara::unit_flow_density<double>> &&
    dims<2,1,-2, mara::unit_energy<double>> && dims<1,1,-2, mara::unit_force<double>> && dims<1,1,-1, mara::unit_momentum<double>> && dims<2,1,-2, mara::unit_torque<double>> && dims<2,1,-1, mara::unit_angmom<double>>)
RULE("unit constructors give the named units",
    same<T_(mara::make_scalar(1.)), mara::unit_scalar<double>> && same<T_(mara::make_length(1.)), mara::unit_length<double>> && same<T_(mara::make_mass(1.)), mara::unit_mass<double>> &&
    same<T_(mara::make_time(1.)), mara::unit_time<double>> && same<T_(mara::make_rate(1.)), mara::unit_rate<double>> && same<T_(mara::make_area(1.)), mara::unit_area<double>> &&
    same<T_(mara::make_volume(1.)), mara::unit_volume<double>> && same<T_(mara::make_velocity(1.)), mara::unit_velocity<double>> && same<T_(mara::make_flux(1.)), mara::unit_flux<double>> &&
    same<T_(mara::make_flow(1.)), mara::unit_flow<double>> && same<T_(mara::make_mass_density(1.)), mara::unit_mass_density<double>> && same<T_(mara::make_flow_density(1.)), mara::unit_flow_density<double>> &&
    same<T_(mara::make_energy(1.)), mara::unit_energy<double>> && same<T_(mara::make_force(1.)), mara::unit_force<double>> && same<T_(mara::make_momentum(1.)), mara::unit_momentum<double>> &&
    same<T_(mara::make_torque(1.)), mara::unit_torque<double>> && same<T_(mara::make_angmom(1.)), mara::unit_angmom<double>>)

// the equation systems: what a flux can be added to
using iso = mara::iso2d; using eu = mara::euler; using sr = mara::srhd;
RULE("isothermal flux is conserved density times velocity", same<T_((v<iso::conserved_per_area_t>() * v<mara::unit_velocity<double>>())), iso::flux_t>)
RULE("isothermal flux times length times time is a conserved quantity", same<T_((v<iso::flux_t>() * v<Ln>() * v<Tm>())), iso::conserved_t>)
RULE("isothermal density times area is a conserved quantity", same<T_((v<iso::conserved_per_area_t>() * v<mara::unit_area<double>>())), iso::conserved_t>)
RULE("angular-momentum density times area is a conserved quantity", same<T_((v<iso::conserved_angmom_per_area_t>() * v<mara::unit_area<double>>())), iso::conserved_angmom_t>)
RULE("angular-momentum flux times length times time is a conserved quantity", same<T_((v<iso::flux_angmom_t>() * v<Ln>() * v<Tm>())), iso::conserved_angmom_t>)
RULE("isothermal source times area times time is a conserved quantity", same<T_((v<iso::primitive_t>().source_terms_conserved_angmom(1.0) * v<mara::unit_area<double>>() * v<Tm>())), iso::conserved_angmom_t>)
RULE("Euler flux is conserved density times velocity", same<T_((v<eu::conserved_density_t>() * v<mara::unit_velocity<double>>())), eu::flux_vector_t>)
RULE("Euler flux times area times time is a conserved quantity", same<T_((v<eu::flux_vector_t>() * v<mara::unit_area<double>>() * v<Tm>())), eu::conserved_t>)
RULE("Euler density times volume is a conserved quantity", same<T_((v<eu::conserved_density_t>() * v<mara::unit_volume<double>>())), eu::conserved_t>)
RULE("Euler source times volume times time is a conserved quantity", same<T_((v<eu::primitive_t>().spherical_geometry_source_terms(1., 1., 1.) * v<mara::unit_volume<double>>() * v<Tm>())), eu::conserved_t> && same<T_((v<eu::primitive_t>().spherical_geometry_source_terms_radial(1., 1.) * v<mara::unit_volume<double>>() * v<Tm>())), eu::conserved_t>)
RULE("relativistic flux is conserved density times velocity", same<T_((v<sr::conserved_density_t>() * v<mara::unit_velocity<double>>())), sr::flux_vector_t>)
RULE("relativistic flux times area times time is a conserved quantity", same<T_((v<sr::flux_vector_t>() * v<mara::unit_area<double>>() * v<Tm>())), sr::conserved_t>)
RULE("relativistic density times volume is a conserved quantity", same<T_((v<sr::conserved_density_t>() * v<mara::unit_volume<double>>())), sr::conserved_t>)
RULE("relativistic source times volume times time is a conserved quantity", same<T_((v<sr::primitive_t>().spherical_geometry_source_terms(1., 1., 1.) * v<mara::unit_volume<double>>() * v<Tm>())), sr::conserved_t> && same<T_((v<sr::primitive_t>().spherical_geometry_source_terms_radial(1., 1.) * v<mara::unit_volume<double>>() * v<Tm>())), sr::conserved_t>)
RULE("distinct physical states do not convert into each other", !std::is_convertible<eu::primitive_t, sr::primitive_t>::value && !std::is_convertible<sr::primitive_t, eu::primitive_t>::value && !std::is_convertible<iso::conserved_per_area_t, iso::conserved_angmom_per_area_t>::value && !std::is_convertible<iso::conserved_angmom_per_area_t, iso::conserved_per_area_t>::value && !std::is_convertible<iso::flux_t, iso::flux_angmom_t>::value)
RULE("element-wise arithmetic propagates dimensions", same<T_((v<mara::arithmetic_sequence_t<Ln, 3>>() * v<mara::arithmetic_sequence_t<Ms, 3>>())), mara::arithmetic_sequence_t<D<1,1,0>, 3>> && same<T_((v<mara::arithmetic_sequence_t<Ln, 3>>() / v<Tm>())), mara::arithmetic_sequence_t<D<1,0,-1>, 3>>)
}
