// Unit handling of the element kernels, with the operators of lib/units/unit.cpp in place.
#include "scipp/common/numeric.h"
#include "scipp/core/element/arithmetic.h"
#include "scipp/core/element/bin.h"
#include "scipp/core/element/bin_detail.h"
#include "scipp/core/element/comparison.h"
#include "scipp/core/element/creation.h"
#include "scipp/core/element/cumulative.h"
#include "scipp/core/element/event_operations.h"
#include "scipp/core/element/geometric_operations.h"
#include "scipp/core/element/histogram.h"
#include "scipp/core/element/hyperbolic.h"
#include "scipp/core/element/logical.h"
#include "scipp/core/element/map_to_bins.h"
#include "scipp/core/element/math.h"
#include "scipp/core/element/rebin.h"
#include "scipp/core/element/special_values.h"
#include "scipp/core/element/to_unit.h"
#include "scipp/core/element/trigonometry.h"
#include "scipp/core/element/util.h"
#include "units/unit.cpp"

namespace wit {
using scipp::units::Unit;
namespace element = scipp::core::element;
namespace units = scipp::units;
namespace P = llnl::units::precise;
using id_t = int64_t;
inline Unit mk(const id_t *i, const bool *h) { return *h ? Unit{llnl::units::precise_unit(*i, 'x')} : Unit{}; }
inline void get(const Unit &u, id_t *i, bool *h) { *h = u.has_value(); *i = u.has_value() ? u.underlying().id : 0; }

// ---- the required behaviour, written without scipp's Unit
struct U { id_t id; bool has; };
[[noreturn, gnu::noinline]] void reject() { throw 1; }
inline U num(id_t i) { return {i, true}; }
inline const U none_{0, false};
inline U none() { return {0, false}; }
inline U one() { return num(P::one.id); }
inline bool same(U a, U b) { return a.has == b.has && (!a.has || a.id == b.id); }
inline U need_same(U a, U b) { if (!same(a, b)) reject(); return a; }
inline void need(bool c) { if (!c) reject(); }
inline void need_none(U a) { need(!a.has); }
inline U is_one(U a) { need(same(a, one())); return one(); }
inline U mul(U a, U b) { if (!a.has && !b.has) return none(); need(a.has && b.has); need(!pure_unit_mul_overflows(a.id, b.id)); return num(a.id * b.id); }
inline U div(U a, U b) { if (!a.has && !b.has) return none(); need(a.has && b.has); need(!pure_unit_div_overflows(a.id, b.id)); return num(pure_unit_div(a.id, b.id)); }
inline U root(U a) { if (!a.has) return a; need(!pure_unit_is_error(pure_unit_sqrt(a.id))); return num(pure_unit_sqrt(a.id)); }
inline U angle(U a) { need(same(a, num(P::rad.id)) || same(a, num(P::deg.id))); return one(); }
inline U to_angle(U a) { need(same(a, one())); return num(P::rad.id); }
inline U both_have(U a, U b, U r) { need(a.has && b.has); need(same(a, b)); return r; }

template <class Tag> struct P_u1 {
  [[gnu::used]] static void impl(id_t *i, bool *h, const id_t *ai, const bool *ah) { get(Tag::f(mk(ai, ah)), i, h); }
  [[gnu::used]] static void ref(id_t *i, bool *h, const id_t *ai, const bool *ah) { const U r = Tag::r(U{*ai, *ah}); *h = r.has; *i = r.has ? r.id : 0; }
};
template <class Tag> struct P_u2 {
  [[gnu::used]] static void impl(id_t *i, bool *h, const id_t *ai, const bool *ah, const id_t *bi, const bool *bh) { get(Tag::f(mk(ai, ah), mk(bi, bh)), i, h); }
  [[gnu::used]] static void ref(id_t *i, bool *h, const id_t *ai, const bool *ah, const id_t *bi, const bool *bh) { const U r = Tag::r(U{*ai, *ah}, U{*bi, *bh}); *h = r.has; *i = r.has ? r.id : 0; }
};
template <class Tag> struct P_u3 {
  [[gnu::used]] static void impl(id_t *i, bool *h, const id_t *ai, const bool *ah, const id_t *bi, const bool *bh, const id_t *ci, const bool *ch) { get(Tag::f(mk(ai, ah), mk(bi, bh), mk(ci, ch)), i, h); }
  [[gnu::used]] static void ref(id_t *i, bool *h, const id_t *ai, const bool *ah, const id_t *bi, const bool *bh, const id_t *ci, const bool *ch) { const U r = Tag::r(U{*ai, *ah}, U{*bi, *bh}, U{*ci, *ch}); *h = r.has; *i = r.has ? r.id : 0; }
};
template <class Tag> struct P_u4 {
  [[gnu::used]] static void impl(id_t *i, bool *h, const id_t *ai, const bool *ah, const id_t *bi, const bool *bh, const id_t *ci, const bool *ch, const id_t *di, const bool *dh) { get(Tag::f(mk(ai, ah), mk(bi, bh), mk(ci, ch), mk(di, dh)), i, h); }
  [[gnu::used]] static void ref(id_t *i, bool *h, const id_t *ai, const bool *ah, const id_t *bi, const bool *bh, const id_t *ci, const bool *ch, const id_t *di, const bool *dh) { const U r = Tag::r(U{*ai, *ah}, U{*bi, *bh}, U{*ci, *ch}, U{*di, *dh}); *h = r.has; *i = r.has ? r.id : 0; }
};
// in place: the first operand is the target
template <class K> Unit inplace(const K &k, Unit a) { k(a); return a; }
template <class K, class... B> Unit inplace(const K &k, Unit a, const B &...b) { k(a, b...); return a; }
// predicates
template <class Tag> struct P_b1 {
  [[gnu::used]] static bool impl(const id_t *ai, const bool *ah) { return Tag::f(mk(ai, ah)); }
  [[gnu::used]] static bool ref(const id_t *ai, const bool *ah) { return Tag::r(U{*ai, *ah}); }
};
template <class Tag> struct P_b2 {
  [[gnu::used]] static bool impl(const id_t *ai, const bool *ah, const id_t *bi, const bool *bh) { return Tag::f(mk(ai, ah), mk(bi, bh)); }
  [[gnu::used]] static bool ref(const id_t *ai, const bool *ah, const id_t *bi, const bool *bh) { return Tag::r(U{*ai, *ah}, U{*bi, *bh}); }
};
struct P_pow {
  [[gnu::used]] static void impl(id_t *i, bool *h, const id_t *ai, const bool *ah, const id_t *n) { get(units::pow(mk(ai, ah), *n), i, h); }
  [[gnu::used]] static void ref(id_t *i, bool *h, const id_t *ai, const bool *ah, const id_t *n) {
    if (!*ah) { *h = false; *i = 0; return; }
    need(*n >= INT32_MIN && *n <= INT32_MAX); need(!pure_unit_pow_overflows(*ai, int(*n)));
    *h = true; *i = pure_unit_pow(*ai, int(*n)); }
};
#define T1(NAME, EXPR, REF) struct NAME { static auto f(Unit a) { return EXPR; } static U r(U a) { return REF; } }; template struct P_u1<NAME>;
#define T2(NAME, EXPR, REF) struct NAME { static auto f(Unit a, Unit b) { return EXPR; } static U r(U a, U b) { return REF; } }; template struct P_u2<NAME>;
#define T3(NAME, EXPR, REF) struct NAME { static auto f(Unit a, Unit b, Unit c) { return EXPR; } static U r(U a, U b, U c) { return REF; } }; template struct P_u3<NAME>;
#define T4(NAME, EXPR, REF) struct NAME { static auto f(Unit a, Unit b, Unit c, Unit d) { return EXPR; } static U r(U a, U b, U c, U d) { return REF; } }; template struct P_u4<NAME>;
#define B1(NAME, EXPR, REF) struct NAME { static bool f(Unit a) { return EXPR; } static bool r(U a) { return REF; } }; template struct P_b1<NAME>;
#define B2(NAME, EXPR, REF) struct NAME { static bool f(Unit a, Unit b) { return EXPR; } static bool r(U a, U b) { return REF; } }; template struct P_b2<NAME>;
#define IN2(NAME, K, REF) T2(NAME, (inplace(K, a, b)), REF)
#define IN3(NAME, K, REF) T3(NAME, (inplace(K, a, b, c)), REF)
// Unit operators
T2(unit_add, a + b, need_same(a, b)) T2(unit_subtract, a - b, need_same(a, b)) T2(unit_multiply, a *b, mul(a, b)) T2(unit_divide, a / b, div(a, b)) T2(unit_modulo, a % b, need_same(a, b))
T2(unit_iadd, (a += b), need_same(a, b)) T2(unit_isubtract, (a -= b), need_same(a, b)) T2(unit_imultiply, (a *= b), mul(a, b)) T2(unit_idivide, (a /= b), div(a, b)) T2(unit_imodulo, (a %= b), need_same(a, b))
T1(unit_negative, -a, a)
B2(unit_equal, a == b, same(a, b)) B2(unit_not_equal, a != b, !same(a, b)) B1(unit_has_value, a.has_value(), a.has) B1(unit_is_counts, a.isCounts(), same(a, num(P::count.id)))
B2(unit_identical, units::identical(a, b), a.has && b.has && pure_unit_exactly(a.id, b.id))
// arithmetic kernels
T2(add, element::add(a, b), need_same(a, b)) T2(subtract, element::subtract(a, b), need_same(a, b)) T2(multiply, element::multiply(a, b), mul(a, b)) T2(divide, element::divide(a, b), div(a, b))
T2(floor_divide, element::floor_divide(a, b), div(a, b)) T2(mod, element::mod(a, b), need_same(a, b)) T1(negative, element::negative(a), a)
T2(apply_spatial_transformation, element::apply_spatial_transformation(a, b), need_same(a, b))
IN2(add_equals, element::add_equals, need_same(a, b)) IN2(subtract_equals, element::subtract_equals, need_same(a, b)) IN2(multiply_equals, element::multiply_equals, mul(a, b)) IN2(divide_equals, element::divide_equals, div(a, b)) IN2(mod_equals, element::mod_equals, need_same(a, b))
IN2(subbin_sizes_add_intersection, element::subbin_sizes_add_intersection, need_same(a, b))
// math
T1(abs, element::abs(a), a) T1(norm, element::norm(a), a) T1(sqrt, element::sqrt(a), root(a)) T2(dot, element::dot(a, b), mul(a, b)) T2(cross, element::cross(a, b), mul(a, b)) T1(reciprocal, element::reciprocal(a), div(one(), a))
T2(pow, element::pow(a, b), (is_one(a), is_one(b))) T1(exp, element::exp(a), is_one(a)) T1(log, element::log(a), is_one(a)) T1(log10, element::log10(a), is_one(a)) T1(erf, element::erf(a), is_one(a)) T1(erfc, element::erfc(a), is_one(a))
T3(pow_in_place, (inplace(element::pow_in_place, a, b, c)), (is_one(b), is_one(c)))
T1(floor, element::floor(a), a) T1(ceil, element::ceil(a), a) T1(rint, element::rint(a), a) T2(midpoint, element::midpoint(a, b), need_same(a, b))
T1(sin, element::sin(a), angle(a)) T1(cos, element::cos(a), angle(a)) T1(tan, element::tan(a), angle(a)) T1(asin, element::asin(a), to_angle(a)) T1(acos, element::acos(a), to_angle(a)) T1(atan, element::atan(a), to_angle(a))
T2(atan2, element::atan2(a, b), both_have(a, b, num(P::rad.id)))
T1(sinh, element::sinh(a), is_one(a)) T1(cosh, element::cosh(a), is_one(a)) T1(tanh, element::tanh(a), is_one(a)) T1(asinh, element::asinh(a), is_one(a)) T1(acosh, element::acosh(a), is_one(a)) T1(atanh, element::atanh(a), is_one(a))
// comparisons, logic, selection
#define CMP(NAME) T2(NAME, element::NAME(a, b), (need_same(a, b), none()))
CMP(less) CMP(greater) CMP(less_equal) CMP(greater_equal) CMP(equal) CMP(not_equal)
T3(isclose, element::isclose(a, b, c), (need_same(a, b), need_same(a, c), none())) T3(isclose_equal_nan, element::isclose_equal_nan(a, b, c), (need_same(a, b), need_same(a, c), none()))
T2(logical_and, element::logical_and(a, b), (need_none(a), need_none(b), none())) T2(logical_or, element::logical_or(a, b), (need_none(a), need_none(b), none())) T2(logical_xor, element::logical_xor(a, b), (need_none(a), need_none(b), none())) T1(logical_not, element::logical_not(a), (need_none(a), none()))
IN2(logical_and_equals, element::logical_and_equals, (need_none(a), need_none(b), none())) IN2(logical_or_equals, element::logical_or_equals, (need_none(a), need_none(b), none())) IN2(logical_xor_equals, element::logical_xor_equals, (need_none(a), need_none(b), none()))
T3(where, element::where(a, b, c), (need_none(a), need_same(b, c)))
// special values
T1(isnan, element::isnan(a), none()) T1(isinf, element::isinf(a), none()) T1(isfinite, element::isfinite(a), none()) T1(isposinf, element::isposinf(a), none()) T1(isneginf, element::isneginf(a), none())
T2(nan_to_num, element::nan_to_num(a, b), need_same(a, b)) T2(positive_inf_to_num, element::positive_inf_to_num(a, b), need_same(a, b)) T2(negative_inf_to_num, element::negative_inf_to_num(a, b), need_same(a, b))
IN3(nan_to_num_out_arg, element::nan_to_num_out_arg, need_same(b, c)) IN3(positive_inf_to_num_out_arg, element::positive_inf_to_num_out_arg, need_same(b, c)) IN3(negative_inf_to_num_out_arg, element::negative_inf_to_num_out_arg, need_same(b, c))
// values, variances, structure
T1(values, element::values(a), a) T1(variances, element::variances(a), mul(a, a)) T1(stddevs, element::stddevs(a), a)
IN3(issorted_nondescending, element::issorted_nondescending, (need_same(b, c), none())) IN3(issorted_nonascending, element::issorted_nonascending, (need_same(b, c), none()))
T1(islinspace, element::islinspace(a), none()) T1(isarange, element::isarange(a), none()) T2(zip, element::zip(a, b), need_same(a, b))
T1(get0, element::get<0>(a), a) T1(get1, element::get<1>(a), a) T1(fill_zeros, (inplace(element::fill_zeros, a)), a) T2(fill, (inplace(element::fill, a, b)), b)
T2(to_unit, element::to_unit(a, b), b) T3(position, element::geometry::position(a, b, c), (need_same(a, b), need_same(a, c))) T1(x, element::geometry::x(a), a) T1(y, element::geometry::y(a), a) T1(z, element::geometry::z(a), a)
T1(zeros_not_bool_like, element::zeros_not_bool_like(a), a) T1(numeric_limits_max_like, element::numeric_limits_max_like(a), a) T1(numeric_limits_lowest_like, element::numeric_limits_lowest_like(a), a)
// binning and histogramming
T3(histogram, element::histogram(a, b, c), (need_same(a, c), b)) T3(rebin, element::rebin<std::less<>>(a, b, c), (need_same(a, c), b))
IN3(update_indices_by_binning, element::update_indices_by_binning, (need_same(b, c), need_none(a), none())) IN3(update_indices_by_binning_linspace, element::update_indices_by_binning_linspace, (need_same(b, c), need_none(a), none())) IN3(update_indices_by_binning_sorted_edges, element::update_indices_by_binning_sorted_edges, (need_same(b, c), need_none(a), none()))
IN3(update_indices_by_grouping, element::update_indices_by_grouping, (need_same(b, c), need_none(a), none()))
T4(update_indices_by_grouping_contiguous, (inplace(element::update_indices_by_grouping_contiguous, a, b, c, d)), (need_same(b, d), need_none(c), need_none(a), none()))
IN3(update_indices_from_existing, element::update_indices_from_existing, a) T3(count_indices, element::count_indices(a, b, c), (need_none(a), need_none(b), need_none(c), none())) T1(groups_to_map, element::groups_to_map<int64_t>(a), a)
T4(map_linspace, element::event::map_linspace(a, b, c, d), (need_same(a, b), need_same(c, d))) T4(map_sorted_edges, element::event::map_sorted_edges(a, b, c, d), (need_same(a, b), need_same(c, d))) T4(lookup_previous, element::event::lookup_previous(a, b, c, d), (need_same(a, b), need_same(c, d)))
T4(map_and_mul_linspace, (inplace(element::event::map_and_mul_linspace, a, b, c, d)), (need_same(b, c), mul(a, d))) T4(map_and_mul_sorted_edges, (inplace(element::event::map_and_mul_sorted_edges, a, b, c, d)), (need_same(b, c), mul(a, d)))
T4(map_to_bins, (inplace(element::bin, a, b, c, d)), c)
} // namespace wit
