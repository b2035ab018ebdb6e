// Which operands an operation refuses because it would drop their uncertainties, and which element types it accepts.
#include <tuple>
#include <type_traits>
#include "scipp/core/element/arithmetic.h"
#include "scipp/core/element/bin.h"
#include "scipp/core/element/bin_detail.h"
#include "scipp/core/element/comparison.h"
#include "scipp/core/element/creation.h"
#include "scipp/core/element/cumulative.h"
#include "scipp/core/element/event_operations.h"
#include "scipp/core/element/geometric_operations.h"
#include "scipp/core/element/histogram.h"
#include "scipp/core/element/hyperbolic.h"
#include "scipp/core/element/logical.h"
#include "scipp/core/element/map_to_bins.h"
#include "scipp/core/element/math.h"
#include "scipp/core/element/sort.h"
#include "scipp/core/element/special_values.h"
#include "scipp/core/element/to_unit.h"
#include "scipp/core/element/trigonometry.h"
#include "scipp/core/element/util.h"
namespace wit {
namespace el = scipp::core::element; namespace c = scipp::core; namespace tf = scipp::core::transform_flags;
using V3 = Eigen::Vector3d; using M3 = Eigen::Matrix3d; using A3 = Eigen::Affine3d;
template <class T> using sp = scipp::span<T>; template <class A, class B> using pr = std::pair<A, B>;
#define W [[gnu::used]] static void
template <class T, long N> struct Arr { T v[N]; };
template <class L, class T> struct has : std::false_type {}; template <class... Ts, class T> struct has<std::tuple<Ts...>, T> : std::bool_constant<(std::is_same_v<Ts, T> || ...)> {};
// the N-th operand can carry variances for some accepted element type
template <class T> struct carries : std::bool_constant<std::is_same_v<T, double> || std::is_same_v<T, float>> {}; template <class T> struct carries<scipp::span<T>> : carries<std::remove_const_t<T>> {};
template <int N, class T, class = void> struct nth : std::bool_constant<carries<T>::value> {}; template <int N, class... Ts> struct nth<N, std::tuple<Ts...>, std::enable_if_t<(N < sizeof...(Ts))>> : carries<std::tuple_element_t<N, std::tuple<Ts...>>> {}; template <int N, class... Ts> struct nth<N, std::tuple<Ts...>, std::enable_if_t<(N >= sizeof...(Ts))>> : std::false_type {};
template <int N, class L, class = void> struct any; template <int N, class... Ts, class X> struct any<N, std::tuple<Ts...>, X> : std::bool_constant<(nth<N, Ts>::value || ...)> {};
template <class Op, class = void> struct types_of { using type = std::tuple<double>; }; template <class Op> struct types_of<Op, std::void_t<typename Op::types>> { using type = typename Op::types; };
template <class Op> void flags(long *o) {
  using L = typename types_of<Op>::type;
#define ARG(N) o[N] = std::is_base_of_v<tf::expect_no_variance_arg_t<N>, Op> && any<N, L>::value; o[5 + N] = std::is_base_of_v<tf::expect_variance_arg_t<N>, Op>;
  ARG(0) ARG(1) ARG(2) ARG(3) ARG(4)
#undef ARG
  o[10] = std::is_base_of_v<tf::no_out_variance_t, Op>; o[11] = std::is_base_of_v<tf::expect_no_in_variance_if_out_cannot_have_variance_t, Op>;
  o[12] = std::is_base_of_v<tf::expect_in_variance_if_out_variance_t, Op>; o[13] = std::is_base_of_v<tf::expect_all_or_none_have_variance_t, Op>; o[14] = std::is_base_of_v<tf::force_variance_broadcast_t, Op>;
}
template <class Op> void required(long *o, std::initializer_list<int> refuse, std::initializer_list<int> need, std::initializer_list<int> other) { for (int i = 0; i < 15; ++i) o[i] = 0; for (int i : refuse) o[i] = 1; for (int i : need) o[5 + i] = 1; for (int i : other) o[10 + i] = 1; }
#define LIST(...) {__VA_ARGS__}
#define OP(NAME, OBJECT, REFUSE, NEED, OTHER) template <class Op> struct P_operands_##NAME { W impl(Arr<long, 15> *o) { flags<Op>(o->v); } W ref(Arr<long, 15> *o) { required<Op>(o->v, REFUSE, NEED, OTHER); } }; template struct P_operands_##NAME<std::decay_t<decltype(OBJECT)>>;
template <class Op, class... T> struct accepts { W impl(Arr<long, sizeof...(T)> *o) { int i = 0; ((o->v[i++] = has<typename Op::types, T>::value), ...); } W ref(Arr<long, sizeof...(T)> *o) { for (auto &x : o->v) x = 1; } };
#define TYPES(NAME, OBJECT, ...) template <class Op> struct P_types_##NAME { using A = accepts<Op, __VA_ARGS__>; static constexpr int N = std::tuple_size_v<std::tuple<__VA_ARGS__>>; W impl(Arr<long, N> *o) { A::impl(o); } W ref(Arr<long, N> *o) { A::ref(o); } }; template struct P_types_##NAME<std::decay_t<decltype(OBJECT)>>;
// operands (by number) that are refused when they have variances, operands that must have them,
// and: 0 the result has none, 1 none may have them if the result cannot, 2 input needs them if the output has, 3 all or none, 4 broadcasting is harmless
OP(add_equals, el::add_equals, LIST(), LIST(), LIST())
TYPES(add_equals, el::add_equals, double, float, long, int, V3, std::tuple<c::time_point, long>, std::tuple<c::time_point, int>, std::tuple<double, float>, std::tuple<float, double>, std::tuple<long, int>, std::tuple<int, long>, std::tuple<double, long>, std::tuple<double, int>, std::tuple<float, long>, std::tuple<float, int>, std::tuple<double, bool>, std::tuple<long, bool>, c::SubbinSizes)
OP(nan_add_equals, el::nan_add_equals, LIST(), LIST(), LIST())
TYPES(nan_add_equals, el::nan_add_equals, double, float, long, int, V3, std::tuple<c::time_point, long>, std::tuple<c::time_point, int>, std::tuple<double, float>, std::tuple<float, double>, std::tuple<long, int>, std::tuple<int, long>, std::tuple<double, long>, std::tuple<double, int>, std::tuple<float, long>, std::tuple<float, int>, std::tuple<double, bool>, std::tuple<long, bool>)
OP(subtract_equals, el::subtract_equals, LIST(), LIST(), LIST())
TYPES(subtract_equals, el::subtract_equals, double, float, long, int, V3, std::tuple<c::time_point, long>, std::tuple<c::time_point, int>, std::tuple<double, float>, std::tuple<float, double>, std::tuple<long, int>, std::tuple<int, long>, std::tuple<double, long>, std::tuple<double, int>, std::tuple<float, long>, std::tuple<float, int>, std::tuple<double, bool>, std::tuple<long, bool>)
OP(multiply_equals, el::multiply_equals, LIST(), LIST(), LIST())
TYPES(multiply_equals, el::multiply_equals, double, float, long, int, M3, std::tuple<double, float>, std::tuple<float, double>, std::tuple<long, int>, std::tuple<long, bool>, std::tuple<int, long>, std::tuple<double, long>, std::tuple<double, int>, std::tuple<float, long>, std::tuple<float, int>, std::tuple<V3, double>, std::tuple<V3, float>, std::tuple<V3, long>, std::tuple<V3, int>)
OP(divide_equals, el::divide_equals, LIST(), LIST(), LIST())
TYPES(divide_equals, el::divide_equals, double, float, std::tuple<double, float>, std::tuple<float, double>, std::tuple<double, long>, std::tuple<double, int>, std::tuple<float, long>, std::tuple<float, int>, std::tuple<V3, double>, std::tuple<V3, float>, std::tuple<V3, long>, std::tuple<V3, int>)
OP(floor_divide_equals, el::floor_divide_equals, LIST(0, 1), LIST(), LIST())
TYPES(floor_divide_equals, el::floor_divide_equals, double, float, long, int, std::tuple<double, float>, std::tuple<float, double>, std::tuple<double, long>, std::tuple<double, int>, std::tuple<float, long>, std::tuple<float, int>)
OP(add, el::add, LIST(), LIST(), LIST())
TYPES(add, el::add, std::tuple<float, float>, std::tuple<float, double>, std::tuple<float, int>, std::tuple<float, long>, std::tuple<double, float>, std::tuple<double, double>, std::tuple<double, int>, std::tuple<double, long>, std::tuple<int, float>, std::tuple<int, double>, std::tuple<int, int>, std::tuple<int, long>, std::tuple<long, float>, std::tuple<long, double>, std::tuple<long, int>, std::tuple<long, long>, std::tuple<V3, V3 >, std::tuple<c::time_point, long>, std::tuple<c::time_point, int>, std::tuple<long, c::time_point>, std::tuple<int, c::time_point>)
OP(subtract, el::subtract, LIST(), LIST(), LIST())
TYPES(subtract, el::subtract, std::tuple<float, float>, std::tuple<float, double>, std::tuple<float, int>, std::tuple<float, long>, std::tuple<double, float>, std::tuple<double, double>, std::tuple<double, int>, std::tuple<double, long>, std::tuple<int, float>, std::tuple<int, double>, std::tuple<int, int>, std::tuple<int, long>, std::tuple<long, float>, std::tuple<long, double>, std::tuple<long, int>, std::tuple<long, long>, std::tuple<V3, V3 >, std::tuple<c::time_point, long>, std::tuple<c::time_point, int>, std::tuple<c::time_point, c::time_point>)
OP(multiply, el::multiply, LIST(), LIST(), LIST(1))
TYPES(multiply, el::multiply, std::tuple<float, float>, std::tuple<float, double>, std::tuple<float, int>, std::tuple<float, long>, std::tuple<float, bool>, std::tuple<double, float>, std::tuple<double, double>, std::tuple<double, int>, std::tuple<double, long>, std::tuple<double, bool>, std::tuple<int, float>, std::tuple<int, double>, std::tuple<int, int>, std::tuple<int, long>, std::tuple<int, bool>, std::tuple<long, float>, std::tuple<long, double>, std::tuple<long, int>, std::tuple<long, long>, std::tuple<long, bool>, std::tuple<bool, float>, std::tuple<bool, double>, std::tuple<bool, int>, std::tuple<bool, long>, std::tuple<bool, bool>, std::tuple<double, V3 >, std::tuple<float, V3 >, std::tuple<long, V3 >, std::tuple<int, V3 >, std::tuple<V3, double>, std::tuple<V3, float>, std::tuple<V3, long>, std::tuple<V3, int>, std::tuple<M3, M3 >, std::tuple<M3, A3 >, std::tuple<M3, c::Quaternion>, std::tuple<M3, c::Translation>, std::tuple<A3, M3 >, std::tuple<A3, A3 >, std::tuple<A3, c::Quaternion>, std::tuple<A3, c::Translation>, std::tuple<c::Quaternion, M3 >, std::tuple<c::Quaternion, A3 >, std::tuple<c::Quaternion, c::Quaternion>, std::tuple<c::Quaternion, c::Translation>, std::tuple<c::Translation, M3 >, std::tuple<c::Translation, A3 >, std::tuple<c::Translation, c::Quaternion>, std::tuple<c::Translation, c::Translation>, std::tuple<c::Quaternion, V3 >, std::tuple<M3, V3 >)
OP(apply_spatial_transformation, el::apply_spatial_transformation, LIST(), LIST(), LIST(1))
TYPES(apply_spatial_transformation, el::apply_spatial_transformation, std::tuple<A3, V3 >, std::tuple<c::Translation, V3 >, std::tuple<c::Translation, c::Translation>, std::tuple<c::Translation, A3 >, std::tuple<A3, A3 >, std::tuple<A3, c::Translation>)
OP(divide, el::divide, LIST(), LIST(), LIST(1))
TYPES(divide, el::divide, std::tuple<float, float>, std::tuple<float, double>, std::tuple<float, int>, std::tuple<float, long>, std::tuple<double, float>, std::tuple<double, double>, std::tuple<double, int>, std::tuple<double, long>, std::tuple<int, float>, std::tuple<int, double>, std::tuple<int, int>, std::tuple<int, long>, std::tuple<long, float>, std::tuple<long, double>, std::tuple<long, int>, std::tuple<long, long>, std::tuple<V3, double>, std::tuple<V3, float>, std::tuple<V3, long>, std::tuple<V3, int>)
OP(floor_divide, el::floor_divide, LIST(0, 1), LIST(), LIST())
TYPES(floor_divide, el::floor_divide, std::tuple<float, float>, std::tuple<float, double>, std::tuple<float, int>, std::tuple<float, long>, std::tuple<double, float>, std::tuple<double, double>, std::tuple<double, int>, std::tuple<double, long>, std::tuple<int, float>, std::tuple<int, double>, std::tuple<int, int>, std::tuple<int, long>, std::tuple<long, float>, std::tuple<long, double>, std::tuple<long, int>, std::tuple<long, long>)
OP(mod, el::mod, LIST(0, 1), LIST(), LIST())
TYPES(mod, el::mod, std::tuple<float, float>, std::tuple<float, double>, std::tuple<float, int>, std::tuple<float, long>, std::tuple<double, float>, std::tuple<double, double>, std::tuple<double, int>, std::tuple<double, long>, std::tuple<int, float>, std::tuple<int, double>, std::tuple<int, int>, std::tuple<int, long>, std::tuple<long, float>, std::tuple<long, double>, std::tuple<long, int>, std::tuple<long, long>)
OP(mod_equals, el::mod_equals, LIST(0, 1), LIST(), LIST())
TYPES(mod_equals, el::mod_equals, double, float, long, int, std::tuple<double, float>, std::tuple<float, double>, std::tuple<double, long>, std::tuple<double, int>, std::tuple<float, long>, std::tuple<float, int>, std::tuple<int, long>, std::tuple<long, int>)
OP(negative, el::negative, LIST(), LIST(), LIST())
TYPES(negative, el::negative, double, float, long, int, V3)
OP(update_indices_by_binning, el::update_indices_by_binning, LIST(1, 2), LIST(), LIST())
TYPES(update_indices_by_binning, el::update_indices_by_binning, std::tuple<long, double, sp<double const> >, std::tuple<int, double, sp<double const> >, std::tuple<long, float, sp<float const> >, std::tuple<int, float, sp<float const> >, std::tuple<long, long, sp<long const> >, std::tuple<int, long, sp<long const> >, std::tuple<long, int, sp<int const> >, std::tuple<int, int, sp<int const> >, std::tuple<long, c::time_point, sp<c::time_point const> >, std::tuple<int, c::time_point, sp<c::time_point const> >, std::tuple<long, long, sp<double const> >, std::tuple<int, long, sp<double const> >, std::tuple<long, int, sp<double const> >, std::tuple<int, int, sp<double const> >, std::tuple<long, float, sp<double const> >, std::tuple<int, float, sp<double const> >, std::tuple<long, double, sp<float const> >, std::tuple<int, double, sp<float const> >, std::tuple<long, int, sp<long const> >, std::tuple<int, int, sp<long const> >)
OP(update_indices_by_binning_linspace, el::update_indices_by_binning_linspace, LIST(1, 2), LIST(), LIST())
TYPES(update_indices_by_binning_linspace, el::update_indices_by_binning_linspace, std::tuple<long, double, sp<double const> >, std::tuple<int, double, sp<double const> >, std::tuple<long, float, sp<float const> >, std::tuple<int, float, sp<float const> >, std::tuple<long, long, sp<long const> >, std::tuple<int, long, sp<long const> >, std::tuple<long, int, sp<int const> >, std::tuple<int, int, sp<int const> >, std::tuple<long, c::time_point, sp<c::time_point const> >, std::tuple<int, c::time_point, sp<c::time_point const> >, std::tuple<long, long, sp<double const> >, std::tuple<int, long, sp<double const> >, std::tuple<long, int, sp<double const> >, std::tuple<int, int, sp<double const> >, std::tuple<long, float, sp<double const> >, std::tuple<int, float, sp<double const> >, std::tuple<long, double, sp<float const> >, std::tuple<int, double, sp<float const> >, std::tuple<long, int, sp<long const> >, std::tuple<int, int, sp<long const> >)
OP(update_indices_by_binning_sorted_edges, el::update_indices_by_binning_sorted_edges, LIST(1, 2), LIST(), LIST())
TYPES(update_indices_by_binning_sorted_edges, el::update_indices_by_binning_sorted_edges, std::tuple<long, double, sp<double const> >, std::tuple<int, double, sp<double const> >, std::tuple<long, float, sp<float const> >, std::tuple<int, float, sp<float const> >, std::tuple<long, long, sp<long const> >, std::tuple<int, long, sp<long const> >, std::tuple<long, int, sp<int const> >, std::tuple<int, int, sp<int const> >, std::tuple<long, c::time_point, sp<c::time_point const> >, std::tuple<int, c::time_point, sp<c::time_point const> >, std::tuple<long, long, sp<double const> >, std::tuple<int, long, sp<double const> >, std::tuple<long, int, sp<double const> >, std::tuple<int, int, sp<double const> >, std::tuple<long, float, sp<double const> >, std::tuple<int, float, sp<double const> >, std::tuple<long, double, sp<float const> >, std::tuple<int, double, sp<float const> >, std::tuple<long, int, sp<long const> >, std::tuple<int, int, sp<long const> >)
OP(update_indices_by_grouping, el::update_indices_by_grouping, LIST(), LIST(), LIST())
TYPES(update_indices_by_grouping, el::update_indices_by_grouping, std::tuple<long, double, std::unordered_map<double, long, std::hash<double>, std::equal_to<double>, std::allocator<pr<double const, long> > > >, std::tuple<int, double, std::unordered_map<double, int, std::hash<double>, std::equal_to<double>, std::allocator<pr<double const, int> > > >, std::tuple<long, float, std::unordered_map<float, long, std::hash<float>, std::equal_to<float>, std::allocator<pr<float const, long> > > >, std::tuple<int, float, std::unordered_map<float, int, std::hash<float>, std::equal_to<float>, std::allocator<pr<float const, int> > > >, std::tuple<long, long, std::unordered_map<long, long, std::hash<long>, std::equal_to<long>, std::allocator<pr<long const, long> > > >, std::tuple<int, long, std::unordered_map<long, int, std::hash<long>, std::equal_to<long>, std::allocator<pr<long const, int> > > >, std::tuple<long, long, std::unordered_map<int, long, std::hash<int>, std::equal_to<int>, std::allocator<pr<int const, long> > > >, std::tuple<int, long, std::unordered_map<int, int, std::hash<int>, std::equal_to<int>, std::allocator<pr<int const, int> > > >, std::tuple<long, int, std::unordered_map<int, long, std::hash<int>, std::equal_to<int>, std::allocator<pr<int const, long> > > >, std::tuple<int, int, std::unordered_map<int, int, std::hash<int>, std::equal_to<int>, std::allocator<pr<int const, int> > > >, std::tuple<int, int, std::unordered_map<long, int, std::hash<long>, std::equal_to<long>, std::allocator<pr<long const, int> > > >, std::tuple<long, bool, std::unordered_map<bool, long, std::hash<bool>, std::equal_to<bool>, std::allocator<pr<bool const, long> > > >, std::tuple<int, bool, std::unordered_map<bool, int, std::hash<bool>, std::equal_to<bool>, std::allocator<pr<bool const, int> > > >, std::tuple<long, std::string, std::unordered_map<std::string, long, std::hash<std::string >, std::equal_to<std::string >, std::allocator<pr<std::string const, long> > > >, std::tuple<int, std::string, std::unordered_map<std::string, int, std::hash<std::string >, std::equal_to<std::string >, std::allocator<pr<std::string const, int> > > >, std::tuple<int, c::time_point, std::unordered_map<c::time_point, int, std::hash<c::time_point>, std::equal_to<c::time_point>, std::allocator<pr<c::time_point const, int> > > >, std::tuple<long, c::time_point, std::unordered_map<c::time_point, long, std::hash<c::time_point>, std::equal_to<c::time_point>, std::allocator<pr<c::time_point const, long> > > >)
OP(update_indices_by_grouping_contiguous, el::update_indices_by_grouping_contiguous, LIST(), LIST(), LIST())
TYPES(update_indices_by_grouping_contiguous, el::update_indices_by_grouping_contiguous, std::tuple<long, long, long, long>, std::tuple<int, long, long, long>, std::tuple<long, long, long, int>, std::tuple<int, long, long, int>, std::tuple<long, int, long, int>, std::tuple<int, int, long, int>, std::tuple<int, int, long, long>)
OP(update_indices_from_existing, el::update_indices_from_existing, LIST(), LIST(), LIST())
TYPES(update_indices_from_existing, el::update_indices_from_existing, std::tuple<long, long, long>, std::tuple<int, long, long>)
OP(count_indices, el::count_indices, LIST(), LIST(), LIST())
TYPES(count_indices, el::count_indices, std::tuple<sp<long const>, long, long>, std::tuple<sp<int const>, long, long>)
OP(begin_edge, el::begin_edge, LIST(2), LIST(), LIST())
TYPES(begin_edge, el::begin_edge, std::tuple<long, long, double, sp<double const> >, std::tuple<long, long, double, sp<float const> >, std::tuple<long, long, double, sp<int const> >, std::tuple<long, long, double, sp<long const> >, std::tuple<long, long, float, sp<double const> >, std::tuple<long, long, float, sp<float const> >, std::tuple<long, long, float, sp<int const> >, std::tuple<long, long, float, sp<long const> >, std::tuple<long, long, int, sp<double const> >, std::tuple<long, long, int, sp<float const> >, std::tuple<long, long, int, sp<int const> >, std::tuple<long, long, int, sp<long const> >, std::tuple<long, long, long, sp<double const> >, std::tuple<long, long, long, sp<float const> >, std::tuple<long, long, long, sp<int const> >, std::tuple<long, long, long, sp<long const> >, std::tuple<long, long, c::time_point, sp<c::time_point const> >)
OP(end_edge, el::end_edge, LIST(2), LIST(), LIST())
TYPES(end_edge, el::end_edge, std::tuple<long, long, double, sp<double const> >, std::tuple<long, long, double, sp<float const> >, std::tuple<long, long, double, sp<int const> >, std::tuple<long, long, double, sp<long const> >, std::tuple<long, long, float, sp<double const> >, std::tuple<long, long, float, sp<float const> >, std::tuple<long, long, float, sp<int const> >, std::tuple<long, long, float, sp<long const> >, std::tuple<long, long, int, sp<double const> >, std::tuple<long, long, int, sp<float const> >, std::tuple<long, long, int, sp<int const> >, std::tuple<long, long, int, sp<long const> >, std::tuple<long, long, long, sp<double const> >, std::tuple<long, long, long, sp<float const> >, std::tuple<long, long, long, sp<int const> >, std::tuple<long, long, long, sp<long const> >, std::tuple<long, long, c::time_point, sp<c::time_point const> >)
OP(subbin_sizes_exclusive_scan, el::subbin_sizes_exclusive_scan, LIST(), LIST(), LIST())
TYPES(subbin_sizes_exclusive_scan, el::subbin_sizes_exclusive_scan, c::SubbinSizes)
OP(subbin_sizes_add_intersection, el::subbin_sizes_add_intersection, LIST(), LIST(), LIST())
TYPES(subbin_sizes_add_intersection, el::subbin_sizes_add_intersection, c::SubbinSizes)
OP(isclose, el::isclose, LIST(2), LIST(), LIST())
TYPES(isclose, el::isclose, double, float, long, int, std::tuple<float, float, double>, std::tuple<long, long, double>, std::tuple<int, int, double>, std::tuple<int, long, double>, std::tuple<long, int, double>, std::tuple<long, int, long>, std::tuple<int, int, long>, std::tuple<int, long, long>)
OP(isclose_equal_nan, el::isclose_equal_nan, LIST(2), LIST(), LIST())
TYPES(isclose_equal_nan, el::isclose_equal_nan, double, float, long, int, std::tuple<float, float, double>, std::tuple<long, long, double>, std::tuple<int, int, double>, std::tuple<int, long, double>, std::tuple<long, int, double>, std::tuple<long, int, long>, std::tuple<int, int, long>, std::tuple<int, long, long>)
OP(less, el::less, LIST(), LIST(), LIST(0, 4))
TYPES(less, el::less, std::tuple<float, float>, std::tuple<float, double>, std::tuple<float, int>, std::tuple<float, long>, std::tuple<double, float>, std::tuple<double, double>, std::tuple<double, int>, std::tuple<double, long>, std::tuple<int, float>, std::tuple<int, double>, std::tuple<int, int>, std::tuple<int, long>, std::tuple<long, float>, std::tuple<long, double>, std::tuple<long, int>, std::tuple<long, long>, bool, c::time_point)
OP(greater, el::greater, LIST(), LIST(), LIST(0, 4))
TYPES(greater, el::greater, std::tuple<float, float>, std::tuple<float, double>, std::tuple<float, int>, std::tuple<float, long>, std::tuple<double, float>, std::tuple<double, double>, std::tuple<double, int>, std::tuple<double, long>, std::tuple<int, float>, std::tuple<int, double>, std::tuple<int, int>, std::tuple<int, long>, std::tuple<long, float>, std::tuple<long, double>, std::tuple<long, int>, std::tuple<long, long>, bool, c::time_point)
OP(less_equal, el::less_equal, LIST(), LIST(), LIST(0, 4))
TYPES(less_equal, el::less_equal, std::tuple<float, float>, std::tuple<float, double>, std::tuple<float, int>, std::tuple<float, long>, std::tuple<double, float>, std::tuple<double, double>, std::tuple<double, int>, std::tuple<double, long>, std::tuple<int, float>, std::tuple<int, double>, std::tuple<int, int>, std::tuple<int, long>, std::tuple<long, float>, std::tuple<long, double>, std::tuple<long, int>, std::tuple<long, long>, bool, c::time_point)
OP(greater_equal, el::greater_equal, LIST(), LIST(), LIST(0, 4))
TYPES(greater_equal, el::greater_equal, std::tuple<float, float>, std::tuple<float, double>, std::tuple<float, int>, std::tuple<float, long>, std::tuple<double, float>, std::tuple<double, double>, std::tuple<double, int>, std::tuple<double, long>, std::tuple<int, float>, std::tuple<int, double>, std::tuple<int, int>, std::tuple<int, long>, std::tuple<long, float>, std::tuple<long, double>, std::tuple<long, int>, std::tuple<long, long>, bool, c::time_point)
OP(equal, el::equal, LIST(), LIST(), LIST(0, 4))
TYPES(equal, el::equal, std::tuple<float, float>, std::tuple<float, double>, std::tuple<float, int>, std::tuple<float, long>, std::tuple<double, float>, std::tuple<double, double>, std::tuple<double, int>, std::tuple<double, long>, std::tuple<int, float>, std::tuple<int, double>, std::tuple<int, int>, std::tuple<int, long>, std::tuple<long, float>, std::tuple<long, double>, std::tuple<long, int>, std::tuple<long, long>, bool, c::time_point, std::string, V3, M3, A3, c::Quaternion, c::Translation)
OP(not_equal, el::not_equal, LIST(), LIST(), LIST(0, 4))
TYPES(not_equal, el::not_equal, std::tuple<float, float>, std::tuple<float, double>, std::tuple<float, int>, std::tuple<float, long>, std::tuple<double, float>, std::tuple<double, double>, std::tuple<double, int>, std::tuple<double, long>, std::tuple<int, float>, std::tuple<int, double>, std::tuple<int, int>, std::tuple<int, long>, std::tuple<long, float>, std::tuple<long, double>, std::tuple<long, int>, std::tuple<long, long>, bool, c::time_point, std::string, V3, M3, A3, c::Quaternion, c::Translation)
OP(max_equals, el::max_equals, LIST(), LIST(), LIST(2))
TYPES(max_equals, el::max_equals, double, float, long, int, bool, c::time_point)
OP(nanmax_equals, el::nanmax_equals, LIST(), LIST(), LIST(2))
TYPES(nanmax_equals, el::nanmax_equals, double, float, long, int, bool, c::time_point)
OP(min_equals, el::min_equals, LIST(), LIST(), LIST(2))
TYPES(min_equals, el::min_equals, double, float, long, int, bool, c::time_point)
OP(nanmin_equals, el::nanmin_equals, LIST(), LIST(), LIST(2))
TYPES(nanmin_equals, el::nanmin_equals, double, float, long, int, bool, c::time_point)
OP(zeros_not_bool_like, el::zeros_not_bool_like, LIST(), LIST(), LIST(4))
TYPES(zeros_not_bool_like, el::zeros_not_bool_like, double, float, long, int, bool, c::SubbinSizes, c::time_point, V3)
OP(numeric_limits_max_like, el::numeric_limits_max_like, LIST(), LIST(), LIST(4))
TYPES(numeric_limits_max_like, el::numeric_limits_max_like, double, float, long, int, bool, c::SubbinSizes, c::time_point, V3)
OP(numeric_limits_lowest_like, el::numeric_limits_lowest_like, LIST(), LIST(), LIST(4))
TYPES(numeric_limits_lowest_like, el::numeric_limits_lowest_like, double, float, long, int, bool, c::SubbinSizes, c::time_point, V3)
OP(exclusive_scan, el::exclusive_scan, LIST(0, 1), LIST(), LIST())
TYPES(exclusive_scan, el::exclusive_scan, double, std::tuple<double, float>, long, int)
OP(inclusive_scan, el::inclusive_scan, LIST(0, 1), LIST(), LIST())
TYPES(inclusive_scan, el::inclusive_scan, double, std::tuple<double, float>, long, int)
OP(event_map, el::event::map, LIST(0, 1), LIST(), LIST())
TYPES(event_map, el::event::map, std::tuple<long, sp<long const>, sp<double const>, double>, std::tuple<long, sp<long const>, sp<float const>, float>, std::tuple<long, sp<long const>, sp<long const>, long>, std::tuple<long, sp<long const>, sp<int const>, int>, std::tuple<long, sp<long const>, sp<bool const>, bool>, std::tuple<int, sp<int const>, sp<double const>, double>, std::tuple<int, sp<int const>, sp<float const>, float>, std::tuple<int, sp<int const>, sp<long const>, long>, std::tuple<int, sp<int const>, sp<int const>, int>, std::tuple<int, sp<int const>, sp<bool const>, bool>, std::tuple<long, sp<double const>, sp<double const>, double>, std::tuple<long, sp<double const>, sp<float const>, float>, std::tuple<long, sp<double const>, sp<long const>, long>, std::tuple<long, sp<double const>, sp<int const>, int>, std::tuple<long, sp<double const>, sp<bool const>, bool>, std::tuple<int, sp<double const>, sp<double const>, double>, std::tuple<int, sp<double const>, sp<float const>, float>, std::tuple<int, sp<double const>, sp<long const>, long>, std::tuple<int, sp<double const>, sp<int const>, int>, std::tuple<int, sp<double const>, sp<bool const>, bool>, std::tuple<c::time_point, sp<c::time_point const>, sp<double const>, double>, std::tuple<c::time_point, sp<c::time_point const>, sp<float const>, float>, std::tuple<c::time_point, sp<c::time_point const>, sp<long const>, long>, std::tuple<c::time_point, sp<c::time_point const>, sp<int const>, int>, std::tuple<c::time_point, sp<c::time_point const>, sp<bool const>, bool>, std::tuple<double, sp<double const>, sp<double const>, double>, std::tuple<double, sp<double const>, sp<float const>, float>, std::tuple<double, sp<double const>, sp<long const>, long>, std::tuple<double, sp<double const>, sp<int const>, int>, std::tuple<double, sp<double const>, sp<bool const>, bool>, std::tuple<float, sp<double const>, sp<double const>, double>, std::tuple<float, sp<double const>, sp<float const>, float>, std::tuple<float, sp<double const>, sp<long const>, long>, std::tuple<float, sp<double const>, sp<int const>, int>, std::tuple<float, sp<double const>, sp<bool const>, bool>, std::tuple<float, sp<float const>, sp<float const>, float>, std::tuple<float, sp<float const>, sp<long const>, long>, std::tuple<float, sp<float const>, sp<int const>, int>, std::tuple<float, sp<float const>, sp<bool const>, bool>, std::tuple<double, sp<float const>, sp<double const>, double>, std::tuple<double, sp<float const>, sp<float const>, float>, std::tuple<double, sp<float const>, sp<long const>, long>, std::tuple<double, sp<float const>, sp<int const>, int>, std::tuple<double, sp<float const>, sp<bool const>, bool>)
OP(event_map_linspace, el::event::map_linspace, LIST(0, 1), LIST(), LIST())
TYPES(event_map_linspace, el::event::map_linspace, std::tuple<long, sp<long const>, sp<double const>, double>, std::tuple<long, sp<long const>, sp<float const>, float>, std::tuple<long, sp<long const>, sp<long const>, long>, std::tuple<long, sp<long const>, sp<int const>, int>, std::tuple<long, sp<long const>, sp<bool const>, bool>, std::tuple<int, sp<int const>, sp<double const>, double>, std::tuple<int, sp<int const>, sp<float const>, float>, std::tuple<int, sp<int const>, sp<long const>, long>, std::tuple<int, sp<int const>, sp<int const>, int>, std::tuple<int, sp<int const>, sp<bool const>, bool>, std::tuple<long, sp<double const>, sp<double const>, double>, std::tuple<long, sp<double const>, sp<float const>, float>, std::tuple<long, sp<double const>, sp<long const>, long>, std::tuple<long, sp<double const>, sp<int const>, int>, std::tuple<long, sp<double const>, sp<bool const>, bool>, std::tuple<int, sp<double const>, sp<double const>, double>, std::tuple<int, sp<double const>, sp<float const>, float>, std::tuple<int, sp<double const>, sp<long const>, long>, std::tuple<int, sp<double const>, sp<int const>, int>, std::tuple<int, sp<double const>, sp<bool const>, bool>, std::tuple<c::time_point, sp<c::time_point const>, sp<double const>, double>, std::tuple<c::time_point, sp<c::time_point const>, sp<float const>, float>, std::tuple<c::time_point, sp<c::time_point const>, sp<long const>, long>, std::tuple<c::time_point, sp<c::time_point const>, sp<int const>, int>, std::tuple<c::time_point, sp<c::time_point const>, sp<bool const>, bool>, std::tuple<double, sp<double const>, sp<double const>, double>, std::tuple<double, sp<double const>, sp<float const>, float>, std::tuple<double, sp<double const>, sp<long const>, long>, std::tuple<double, sp<double const>, sp<int const>, int>, std::tuple<double, sp<double const>, sp<bool const>, bool>, std::tuple<float, sp<double const>, sp<double const>, double>, std::tuple<float, sp<double const>, sp<float const>, float>, std::tuple<float, sp<double const>, sp<long const>, long>, std::tuple<float, sp<double const>, sp<int const>, int>, std::tuple<float, sp<double const>, sp<bool const>, bool>, std::tuple<float, sp<float const>, sp<float const>, float>, std::tuple<float, sp<float const>, sp<long const>, long>, std::tuple<float, sp<float const>, sp<int const>, int>, std::tuple<float, sp<float const>, sp<bool const>, bool>, std::tuple<double, sp<float const>, sp<double const>, double>, std::tuple<double, sp<float const>, sp<float const>, float>, std::tuple<double, sp<float const>, sp<long const>, long>, std::tuple<double, sp<float const>, sp<int const>, int>, std::tuple<double, sp<float const>, sp<bool const>, bool>)
OP(event_map_sorted_edges, el::event::map_sorted_edges, LIST(0, 1), LIST(), LIST())
TYPES(event_map_sorted_edges, el::event::map_sorted_edges, std::tuple<long, sp<long const>, sp<double const>, double>, std::tuple<long, sp<long const>, sp<float const>, float>, std::tuple<long, sp<long const>, sp<long const>, long>, std::tuple<long, sp<long const>, sp<int const>, int>, std::tuple<long, sp<long const>, sp<bool const>, bool>, std::tuple<int, sp<int const>, sp<double const>, double>, std::tuple<int, sp<int const>, sp<float const>, float>, std::tuple<int, sp<int const>, sp<long const>, long>, std::tuple<int, sp<int const>, sp<int const>, int>, std::tuple<int, sp<int const>, sp<bool const>, bool>, std::tuple<long, sp<double const>, sp<double const>, double>, std::tuple<long, sp<double const>, sp<float const>, float>, std::tuple<long, sp<double const>, sp<long const>, long>, std::tuple<long, sp<double const>, sp<int const>, int>, std::tuple<long, sp<double const>, sp<bool const>, bool>, std::tuple<int, sp<double const>, sp<double const>, double>, std::tuple<int, sp<double const>, sp<float const>, float>, std::tuple<int, sp<double const>, sp<long const>, long>, std::tuple<int, sp<double const>, sp<int const>, int>, std::tuple<int, sp<double const>, sp<bool const>, bool>, std::tuple<c::time_point, sp<c::time_point const>, sp<double const>, double>, std::tuple<c::time_point, sp<c::time_point const>, sp<float const>, float>, std::tuple<c::time_point, sp<c::time_point const>, sp<long const>, long>, std::tuple<c::time_point, sp<c::time_point const>, sp<int const>, int>, std::tuple<c::time_point, sp<c::time_point const>, sp<bool const>, bool>, std::tuple<double, sp<double const>, sp<double const>, double>, std::tuple<double, sp<double const>, sp<float const>, float>, std::tuple<double, sp<double const>, sp<long const>, long>, std::tuple<double, sp<double const>, sp<int const>, int>, std::tuple<double, sp<double const>, sp<bool const>, bool>, std::tuple<float, sp<double const>, sp<double const>, double>, std::tuple<float, sp<double const>, sp<float const>, float>, std::tuple<float, sp<double const>, sp<long const>, long>, std::tuple<float, sp<double const>, sp<int const>, int>, std::tuple<float, sp<double const>, sp<bool const>, bool>, std::tuple<float, sp<float const>, sp<float const>, float>, std::tuple<float, sp<float const>, sp<long const>, long>, std::tuple<float, sp<float const>, sp<int const>, int>, std::tuple<float, sp<float const>, sp<bool const>, bool>, std::tuple<double, sp<float const>, sp<double const>, double>, std::tuple<double, sp<float const>, sp<float const>, float>, std::tuple<double, sp<float const>, sp<long const>, long>, std::tuple<double, sp<float const>, sp<int const>, int>, std::tuple<double, sp<float const>, sp<bool const>, bool>)
OP(event_lookup_previous, el::event::lookup_previous, LIST(0, 1), LIST(), LIST())
TYPES(event_lookup_previous, el::event::lookup_previous, std::tuple<long, sp<long const>, sp<double const>, double>, std::tuple<long, sp<long const>, sp<float const>, float>, std::tuple<long, sp<long const>, sp<long const>, long>, std::tuple<long, sp<long const>, sp<int const>, int>, std::tuple<long, sp<long const>, sp<bool const>, bool>, std::tuple<int, sp<int const>, sp<double const>, double>, std::tuple<int, sp<int const>, sp<float const>, float>, std::tuple<int, sp<int const>, sp<long const>, long>, std::tuple<int, sp<int const>, sp<int const>, int>, std::tuple<int, sp<int const>, sp<bool const>, bool>, std::tuple<long, sp<double const>, sp<double const>, double>, std::tuple<long, sp<double const>, sp<float const>, float>, std::tuple<long, sp<double const>, sp<long const>, long>, std::tuple<long, sp<double const>, sp<int const>, int>, std::tuple<long, sp<double const>, sp<bool const>, bool>, std::tuple<int, sp<double const>, sp<double const>, double>, std::tuple<int, sp<double const>, sp<float const>, float>, std::tuple<int, sp<double const>, sp<long const>, long>, std::tuple<int, sp<double const>, sp<int const>, int>, std::tuple<int, sp<double const>, sp<bool const>, bool>, std::tuple<c::time_point, sp<c::time_point const>, sp<double const>, double>, std::tuple<c::time_point, sp<c::time_point const>, sp<float const>, float>, std::tuple<c::time_point, sp<c::time_point const>, sp<long const>, long>, std::tuple<c::time_point, sp<c::time_point const>, sp<int const>, int>, std::tuple<c::time_point, sp<c::time_point const>, sp<bool const>, bool>, std::tuple<double, sp<double const>, sp<double const>, double>, std::tuple<double, sp<double const>, sp<float const>, float>, std::tuple<double, sp<double const>, sp<long const>, long>, std::tuple<double, sp<double const>, sp<int const>, int>, std::tuple<double, sp<double const>, sp<bool const>, bool>, std::tuple<float, sp<double const>, sp<double const>, double>, std::tuple<float, sp<double const>, sp<float const>, float>, std::tuple<float, sp<double const>, sp<long const>, long>, std::tuple<float, sp<double const>, sp<int const>, int>, std::tuple<float, sp<double const>, sp<bool const>, bool>, std::tuple<float, sp<float const>, sp<float const>, float>, std::tuple<float, sp<float const>, sp<long const>, long>, std::tuple<float, sp<float const>, sp<int const>, int>, std::tuple<float, sp<float const>, sp<bool const>, bool>, std::tuple<double, sp<float const>, sp<double const>, double>, std::tuple<double, sp<float const>, sp<float const>, float>, std::tuple<double, sp<float const>, sp<long const>, long>, std::tuple<double, sp<float const>, sp<int const>, int>, std::tuple<double, sp<float const>, sp<bool const>, bool>)
OP(event_map_and_mul, el::event::map_and_mul, LIST(1, 2, 3), LIST(), LIST())
TYPES(event_map_and_mul, el::event::map_and_mul, std::tuple<double, double, sp<double const>, sp<double const> >, std::tuple<double, double, sp<double const>, sp<float const> >, std::tuple<float, double, sp<double const>, sp<double const> >, std::tuple<float, double, sp<double const>, sp<float const> >, std::tuple<double, float, sp<float const>, sp<double const> >, std::tuple<double, c::time_point, sp<c::time_point const>, sp<double const> >, std::tuple<double, c::time_point, sp<c::time_point const>, sp<float const> >, std::tuple<float, c::time_point, sp<c::time_point const>, sp<double const> >, std::tuple<float, c::time_point, sp<c::time_point const>, sp<float const> >)
OP(event_map_and_mul_linspace, el::event::map_and_mul_linspace, LIST(1, 2, 3), LIST(), LIST())
TYPES(event_map_and_mul_linspace, el::event::map_and_mul_linspace, std::tuple<double, double, sp<double const>, sp<double const> >, std::tuple<double, double, sp<double const>, sp<float const> >, std::tuple<float, double, sp<double const>, sp<double const> >, std::tuple<float, double, sp<double const>, sp<float const> >, std::tuple<double, float, sp<float const>, sp<double const> >, std::tuple<double, c::time_point, sp<c::time_point const>, sp<double const> >, std::tuple<double, c::time_point, sp<c::time_point const>, sp<float const> >, std::tuple<float, c::time_point, sp<c::time_point const>, sp<double const> >, std::tuple<float, c::time_point, sp<c::time_point const>, sp<float const> >)
OP(event_map_and_mul_sorted_edges, el::event::map_and_mul_sorted_edges, LIST(1, 2, 3), LIST(), LIST())
TYPES(event_map_and_mul_sorted_edges, el::event::map_and_mul_sorted_edges, std::tuple<double, double, sp<double const>, sp<double const> >, std::tuple<double, double, sp<double const>, sp<float const> >, std::tuple<float, double, sp<double const>, sp<double const> >, std::tuple<float, double, sp<double const>, sp<float const> >, std::tuple<double, float, sp<float const>, sp<double const> >, std::tuple<double, c::time_point, sp<c::time_point const>, sp<double const> >, std::tuple<double, c::time_point, sp<c::time_point const>, sp<float const> >, std::tuple<float, c::time_point, sp<c::time_point const>, sp<double const> >, std::tuple<float, c::time_point, sp<c::time_point const>, sp<float const> >)
OP(position, el::geometry::position, LIST(0, 1, 2), LIST(), LIST())
TYPES(position, el::geometry::position, double)
OP(x, el::geometry::x, LIST(), LIST(), LIST())
TYPES(x, el::geometry::x, V3)
OP(y, el::geometry::y, LIST(), LIST(), LIST())
TYPES(y, el::geometry::y, V3)
OP(z, el::geometry::z, LIST(), LIST(), LIST())
TYPES(z, el::geometry::z, V3)
OP(histogram, el::histogram, LIST(1, 3), LIST(), LIST(2))
TYPES(histogram, el::histogram, std::tuple<sp<double>, sp<double const>, sp<double const>, sp<double const> >, std::tuple<sp<float>, sp<double const>, sp<float const>, sp<double const> >, std::tuple<sp<long>, sp<double const>, sp<long const>, sp<double const> >, std::tuple<sp<int>, sp<double const>, sp<int const>, sp<double const> >, std::tuple<sp<double>, sp<float const>, sp<double const>, sp<float const> >, std::tuple<sp<float>, sp<float const>, sp<float const>, sp<float const> >, std::tuple<sp<long>, sp<float const>, sp<long const>, sp<float const> >, std::tuple<sp<int>, sp<float const>, sp<int const>, sp<float const> >, std::tuple<sp<double>, sp<int const>, sp<double const>, sp<int const> >, std::tuple<sp<float>, sp<int const>, sp<float const>, sp<int const> >, std::tuple<sp<long>, sp<int const>, sp<long const>, sp<int const> >, std::tuple<sp<int>, sp<int const>, sp<int const>, sp<int const> >, std::tuple<sp<double>, sp<long const>, sp<double const>, sp<long const> >, std::tuple<sp<float>, sp<long const>, sp<float const>, sp<long const> >, std::tuple<sp<long>, sp<long const>, sp<long const>, sp<long const> >, std::tuple<sp<int>, sp<long const>, sp<int const>, sp<long const> >, std::tuple<sp<double>, sp<c::time_point const>, sp<double const>, sp<c::time_point const> >, std::tuple<sp<float>, sp<c::time_point const>, sp<float const>, sp<c::time_point const> >, std::tuple<sp<long>, sp<c::time_point const>, sp<long const>, sp<c::time_point const> >, std::tuple<sp<int>, sp<c::time_point const>, sp<int const>, sp<c::time_point const> >)
OP(sinh, el::sinh, LIST(0, 1), LIST(), LIST())
TYPES(sinh, el::sinh, double, float)
OP(cosh, el::cosh, LIST(0, 1), LIST(), LIST())
TYPES(cosh, el::cosh, double, float)
OP(tanh, el::tanh, LIST(0, 1), LIST(), LIST())
TYPES(tanh, el::tanh, double, float)
OP(asinh, el::asinh, LIST(0, 1), LIST(), LIST())
TYPES(asinh, el::asinh, double, float)
OP(acosh, el::acosh, LIST(0, 1), LIST(), LIST())
TYPES(acosh, el::acosh, double, float)
OP(atanh, el::atanh, LIST(0, 1), LIST(), LIST())
TYPES(atanh, el::atanh, double, float)
OP(logical_and, el::logical_and, LIST(), LIST(), LIST())
TYPES(logical_and, el::logical_and, bool)
OP(logical_or, el::logical_or, LIST(), LIST(), LIST())
TYPES(logical_or, el::logical_or, bool)
OP(logical_xor, el::logical_xor, LIST(), LIST(), LIST())
TYPES(logical_xor, el::logical_xor, bool)
OP(logical_not, el::logical_not, LIST(), LIST(), LIST())
TYPES(logical_not, el::logical_not, bool)
OP(logical_and_equals, el::logical_and_equals, LIST(), LIST(), LIST())
TYPES(logical_and_equals, el::logical_and_equals, bool)
OP(logical_or_equals, el::logical_or_equals, LIST(), LIST(), LIST())
TYPES(logical_or_equals, el::logical_or_equals, bool)
OP(logical_xor_equals, el::logical_xor_equals, LIST(), LIST(), LIST())
TYPES(logical_xor_equals, el::logical_xor_equals, bool)
OP(bin, el::bin, LIST(), LIST(), LIST(2))
TYPES(bin, el::bin, std::tuple<sp<double>, c::SubbinSizes, sp<double const>, sp<long const> >, std::tuple<sp<double>, c::SubbinSizes, sp<double const>, sp<int const> >, std::tuple<sp<float>, c::SubbinSizes, sp<float const>, sp<long const> >, std::tuple<sp<float>, c::SubbinSizes, sp<float const>, sp<int const> >, std::tuple<sp<long>, c::SubbinSizes, sp<long const>, sp<long const> >, std::tuple<sp<long>, c::SubbinSizes, sp<long const>, sp<int const> >, std::tuple<sp<int>, c::SubbinSizes, sp<int const>, sp<long const> >, std::tuple<sp<int>, c::SubbinSizes, sp<int const>, sp<int const> >, std::tuple<sp<bool>, c::SubbinSizes, sp<bool const>, sp<long const> >, std::tuple<sp<bool>, c::SubbinSizes, sp<bool const>, sp<int const> >, std::tuple<sp<V3>, c::SubbinSizes, sp<V3 const>, sp<long const> >, std::tuple<sp<V3>, c::SubbinSizes, sp<V3 const>, sp<int const> >, std::tuple<sp<std::string>, c::SubbinSizes, sp<std::string const>, sp<long const> >, std::tuple<sp<std::string>, c::SubbinSizes, sp<std::string const>, sp<int const> >, std::tuple<sp<c::time_point>, c::SubbinSizes, sp<c::time_point const>, sp<long const> >, std::tuple<sp<c::time_point>, c::SubbinSizes, sp<c::time_point const>, sp<int const> >)
OP(abs, el::abs, LIST(), LIST(), LIST())
TYPES(abs, el::abs, double, float, long, int)
OP(norm, el::norm, LIST(), LIST(), LIST())
TYPES(norm, el::norm, V3)
OP(pow, el::pow, LIST(1), LIST(), LIST())
TYPES(pow, el::pow, std::tuple<double, double>, std::tuple<double, float>, std::tuple<double, int>, std::tuple<double, long>, std::tuple<float, double>, std::tuple<float, float>, std::tuple<float, int>, std::tuple<float, long>, std::tuple<long, long>, std::tuple<long, int>)
OP(pow_in_place, el::pow_in_place, LIST(2), LIST(), LIST(2))
TYPES(pow_in_place, el::pow_in_place, std::tuple<double, double, double>, std::tuple<double, double, float>, std::tuple<double, double, int>, std::tuple<double, double, long>, std::tuple<float, float, double>, std::tuple<float, float, float>, std::tuple<float, float, int>, std::tuple<float, float, long>, std::tuple<long, long, long>, std::tuple<long, long, int>)
OP(sqrt, el::sqrt, LIST(), LIST(), LIST())
TYPES(sqrt, el::sqrt, double, float)
OP(dot, el::dot, LIST(), LIST(), LIST())
TYPES(dot, el::dot, V3)
OP(cross, el::cross, LIST(), LIST(), LIST())
TYPES(cross, el::cross, V3)
OP(reciprocal, el::reciprocal, LIST(), LIST(), LIST())
TYPES(reciprocal, el::reciprocal, double, float)
OP(exp, el::exp, LIST(), LIST(), LIST())
TYPES(exp, el::exp, double, float)
OP(log, el::log, LIST(), LIST(), LIST())
TYPES(log, el::log, double, float)
OP(log10, el::log10, LIST(), LIST(), LIST())
TYPES(log10, el::log10, double, float)
OP(floor, el::floor, LIST(0, 1), LIST(), LIST())
TYPES(floor, el::floor, double, float)
OP(ceil, el::ceil, LIST(0, 1), LIST(), LIST())
TYPES(ceil, el::ceil, double, float)
OP(rint, el::rint, LIST(0, 1), LIST(), LIST())
TYPES(rint, el::rint, double, float)
OP(erf, el::erf, LIST(0), LIST(), LIST())
TYPES(erf, el::erf, double, float, long, int)
OP(erfc, el::erfc, LIST(0), LIST(), LIST())
TYPES(erfc, el::erfc, double, float, long, int)
OP(midpoint, el::midpoint, LIST(0, 1), LIST(), LIST())
TYPES(midpoint, el::midpoint, double, float, long, int, c::time_point)
OP(isnan, el::isnan, LIST(), LIST(), LIST())
TYPES(isnan, el::isnan, int, long, double, float, V3)
OP(isinf, el::isinf, LIST(), LIST(), LIST())
TYPES(isinf, el::isinf, int, long, double, float, V3)
OP(isfinite, el::isfinite, LIST(), LIST(), LIST())
TYPES(isfinite, el::isfinite, int, long, double, float, V3)
OP(isposinf, el::isposinf, LIST(), LIST(), LIST())
TYPES(isposinf, el::isposinf, int, long, double, float)
OP(isneginf, el::isneginf, LIST(), LIST(), LIST())
TYPES(isneginf, el::isneginf, int, long, double, float)
OP(nan_to_num, el::nan_to_num, LIST(), LIST(), LIST(3, 4))
TYPES(nan_to_num, el::nan_to_num, double, float)
OP(nan_to_num_out_arg, el::nan_to_num_out_arg, LIST(), LIST(), LIST(3, 4))
TYPES(nan_to_num_out_arg, el::nan_to_num_out_arg, double, float)
OP(positive_inf_to_num, el::positive_inf_to_num, LIST(), LIST(), LIST(3, 4))
TYPES(positive_inf_to_num, el::positive_inf_to_num, double, float)
OP(positive_inf_to_num_out_arg, el::positive_inf_to_num_out_arg, LIST(), LIST(), LIST(3, 4))
TYPES(positive_inf_to_num_out_arg, el::positive_inf_to_num_out_arg, double, float)
OP(negative_inf_to_num, el::negative_inf_to_num, LIST(), LIST(), LIST(3, 4))
TYPES(negative_inf_to_num, el::negative_inf_to_num, double, float)
OP(negative_inf_to_num_out_arg, el::negative_inf_to_num_out_arg, LIST(), LIST(), LIST(3, 4))
TYPES(negative_inf_to_num_out_arg, el::negative_inf_to_num_out_arg, double, float)
OP(to_unit, el::to_unit, LIST(1), LIST(), LIST())
TYPES(to_unit, el::to_unit, double, std::tuple<float, double>, std::tuple<long, double>, std::tuple<long, long>, std::tuple<int, double>, std::tuple<c::time_point, double>, std::tuple<c::time_point, long>, std::tuple<V3, double>, std::tuple<A3, double>, std::tuple<c::Translation, double>)
OP(sin, el::sin, LIST(0, 1, 2), LIST(), LIST())
TYPES(sin, el::sin, double, float)
OP(cos, el::cos, LIST(0, 1, 2), LIST(), LIST())
TYPES(cos, el::cos, double, float)
OP(tan, el::tan, LIST(0, 1, 2), LIST(), LIST())
TYPES(tan, el::tan, double, float)
OP(asin, el::asin, LIST(0, 1, 2), LIST(), LIST())
TYPES(asin, el::asin, double, float)
OP(acos, el::acos, LIST(0, 1, 2), LIST(), LIST())
TYPES(acos, el::acos, double, float)
OP(atan, el::atan, LIST(0, 1, 2), LIST(), LIST())
TYPES(atan, el::atan, double, float)
OP(atan2, el::atan2, LIST(0, 1, 2), LIST(), LIST())
TYPES(atan2, el::atan2, double, float)
OP(values, el::values, LIST(), LIST(), LIST(0, 4))
TYPES(values, el::values, double, float)
OP(variances, el::variances, LIST(), LIST(0), LIST(0, 4))
TYPES(variances, el::variances, double, float)
OP(stddevs, el::stddevs, LIST(), LIST(0), LIST(0, 4))
TYPES(stddevs, el::stddevs, double, float)
OP(issorted_nondescending, el::issorted_nondescending, LIST(1), LIST(), LIST())
TYPES(issorted_nondescending, el::issorted_nondescending, std::tuple<bool, double, double>, std::tuple<bool, float, float>, std::tuple<bool, long, long>, std::tuple<bool, int, int>, std::tuple<bool, std::string, std::string >, std::tuple<bool, c::time_point, c::time_point>)
OP(issorted_nonascending, el::issorted_nonascending, LIST(1), LIST(), LIST())
TYPES(issorted_nonascending, el::issorted_nonascending, std::tuple<bool, double, double>, std::tuple<bool, float, float>, std::tuple<bool, long, long>, std::tuple<bool, int, int>, std::tuple<bool, std::string, std::string >, std::tuple<bool, c::time_point, c::time_point>)
OP(islinspace, el::islinspace, LIST(0), LIST(), LIST())
TYPES(islinspace, el::islinspace, sp<double const>, sp<float const>, sp<long const>, sp<int const>, sp<c::time_point const>)
OP(isarange, el::isarange, LIST(), LIST(), LIST())
TYPES(isarange, el::isarange, sp<long const>, sp<int const>)
OP(zip, el::zip, LIST(), LIST(), LIST())
TYPES(zip, el::zip, long)
OP(fill, el::fill, LIST(), LIST(), LIST())
TYPES(fill, el::fill, double, float, std::tuple<float, double>)
OP(fill_zeros, el::fill_zeros, LIST(), LIST(), LIST())
TYPES(fill_zeros, el::fill_zeros, double, float, long, int, c::SubbinSizes)
OP(where, el::where, LIST(), LIST(), LIST(4))
TYPES(where, el::where, std::tuple<bool, double, double>, std::tuple<bool, float, float>, std::tuple<bool, long, long>, std::tuple<bool, int, int>, std::tuple<bool, bool, bool>, std::tuple<bool, c::time_point, c::time_point>, std::tuple<bool, pr<long, long>, pr<long, long> >, std::tuple<bool, std::string, std::string >, std::tuple<bool, V3, V3 >, std::tuple<bool, M3, M3 >, std::tuple<bool, A3, A3 >, std::tuple<bool, c::Quaternion, c::Quaternion>, std::tuple<bool, c::Translation, c::Translation>)
// The element type of the result for every accepted combination; a single type stands for one operand or two of the type.
template <class T, class = void> struct pl { using type = T; }; template <class T> struct pl<T, std::void_t<typename T::PlainObject>> { using type = typename T::PlainObject; };
template <class T> using plain = typename pl<std::decay_t<T>>::type;
template <class Op, class T> struct result_of { static auto f() { if constexpr (std::is_invocable_v<const Op &, const T &>) return pl<plain<decltype(std::declval<const Op &>()(std::declval<const T &>()))>>{}; else return pl<plain<decltype(std::declval<const Op &>()(std::declval<const T &>(), std::declval<const T &>()))>>{}; } using type = typename decltype(f())::type; };
template <class Op, class... T> struct result_of<Op, std::tuple<T...>> { using type = plain<decltype(std::declval<const Op &>()(std::declval<const T &>()...))>; };
template <class T, class R> struct gives {};
template <class Op, class G> struct yields; template <class Op, class T, class R> struct yields<Op, gives<T, R>> { static constexpr bool value = std::is_same_v<typename result_of<Op, T>::type, R>; };
#define RESULT(NAME, OBJECT, ...) template <class Op, class... G> struct R_##NAME { static void f(long *o) { int i = 0; ((o[i++] = yields<Op, G>::value), ...); } }; \
  template <class Op> struct P_result_##NAME { static constexpr int N = std::tuple_size_v<std::tuple<__VA_ARGS__>>; W impl(Arr<long, N> *o) { R_##NAME<Op, __VA_ARGS__>::f(o->v); } W ref(Arr<long, N> *o) { for (auto &x : o->v) x = 1; } }; template struct P_result_##NAME<std::decay_t<decltype(OBJECT)>>;
RESULT(add, el::add, gives<std::tuple<float, float>, float>, gives<std::tuple<float, double>, double>, gives<std::tuple<float, int>, float>, gives<std::tuple<float, long>, float>, gives<std::tuple<double, float>, double>, gives<std::tuple<double, double>, double>, gives<std::tuple<double, int>, double>, gives<std::tuple<double, long>, double>, gives<std::tuple<int, float>, float>, gives<std::tuple<int, double>, double>, gives<std::tuple<int, int>, int>, gives<std::tuple<int, long>, long>, gives<std::tuple<long, float>, float>, gives<std::tuple<long, double>, double>, gives<std::tuple<long, int>, long>, gives<std::tuple<long, long>, long>, gives<std::tuple<V3, V3 >, V3>, gives<std::tuple<c::time_point, long>, c::time_point>, gives<std::tuple<c::time_point, int>, c::time_point>, gives<std::tuple<long, c::time_point>, c::time_point>, gives<std::tuple<int, c::time_point>, c::time_point>)
RESULT(subtract, el::subtract, gives<std::tuple<float, float>, float>, gives<std::tuple<float, double>, double>, gives<std::tuple<float, int>, float>, gives<std::tuple<float, long>, float>, gives<std::tuple<double, float>, double>, gives<std::tuple<double, double>, double>, gives<std::tuple<double, int>, double>, gives<std::tuple<double, long>, double>, gives<std::tuple<int, float>, float>, gives<std::tuple<int, double>, double>, gives<std::tuple<int, int>, int>, gives<std::tuple<int, long>, long>, gives<std::tuple<long, float>, float>, gives<std::tuple<long, double>, double>, gives<std::tuple<long, int>, long>, gives<std::tuple<long, long>, long>, gives<std::tuple<V3, V3 >, V3>, gives<std::tuple<c::time_point, long>, c::time_point>, gives<std::tuple<c::time_point, int>, c::time_point>, gives<std::tuple<c::time_point, c::time_point>, long>)
RESULT(multiply, el::multiply, gives<std::tuple<float, float>, float>, gives<std::tuple<float, double>, double>, gives<std::tuple<float, int>, float>, gives<std::tuple<float, long>, float>, gives<std::tuple<float, bool>, float>, gives<std::tuple<double, float>, double>, gives<std::tuple<double, double>, double>, gives<std::tuple<double, int>, double>, gives<std::tuple<double, long>, double>, gives<std::tuple<double, bool>, double>, gives<std::tuple<int, float>, float>, gives<std::tuple<int, double>, double>, gives<std::tuple<int, int>, int>, gives<std::tuple<int, long>, long>, gives<std::tuple<int, bool>, int>, gives<std::tuple<long, float>, float>, gives<std::tuple<long, double>, double>, gives<std::tuple<long, int>, long>, gives<std::tuple<long, long>, long>, gives<std::tuple<long, bool>, long>, gives<std::tuple<bool, float>, float>, gives<std::tuple<bool, double>, double>, gives<std::tuple<bool, int>, int>, gives<std::tuple<bool, long>, long>, gives<std::tuple<bool, bool>, int>, gives<std::tuple<double, V3 >, V3>, gives<std::tuple<float, V3 >, V3>, gives<std::tuple<long, V3 >, V3>, gives<std::tuple<int, V3 >, V3>, gives<std::tuple<V3, double>, V3>, gives<std::tuple<V3, float>, V3>, gives<std::tuple<V3, long>, V3>, gives<std::tuple<V3, int>, V3>, gives<std::tuple<M3, M3 >, M3>, gives<std::tuple<M3, A3 >, A3>, gives<std::tuple<M3, c::Quaternion>, M3>, gives<std::tuple<M3, c::Translation>, A3>, gives<std::tuple<A3, M3 >, A3>, gives<std::tuple<A3, A3 >, A3>, gives<std::tuple<A3, c::Quaternion>, A3>, gives<std::tuple<A3, c::Translation>, A3>, gives<std::tuple<c::Quaternion, M3 >, M3>, gives<std::tuple<c::Quaternion, A3 >, A3>, gives<std::tuple<c::Quaternion, c::Quaternion>, c::Quaternion>, gives<std::tuple<c::Quaternion, c::Translation>, A3>, gives<std::tuple<c::Translation, M3 >, A3>, gives<std::tuple<c::Translation, A3 >, A3>, gives<std::tuple<c::Translation, c::Quaternion>, A3>, gives<std::tuple<c::Translation, c::Translation>, c::Translation>, gives<std::tuple<c::Quaternion, V3 >, V3>, gives<std::tuple<M3, V3 >, V3>)
RESULT(divide, el::divide, gives<std::tuple<float, float>, float>, gives<std::tuple<float, double>, double>, gives<std::tuple<float, int>, float>, gives<std::tuple<float, long>, float>, gives<std::tuple<double, float>, double>, gives<std::tuple<double, double>, double>, gives<std::tuple<double, int>, double>, gives<std::tuple<double, long>, double>, gives<std::tuple<int, float>, float>, gives<std::tuple<int, double>, double>, gives<std::tuple<int, int>, double>, gives<std::tuple<int, long>, double>, gives<std::tuple<long, float>, float>, gives<std::tuple<long, double>, double>, gives<std::tuple<long, int>, double>, gives<std::tuple<long, long>, double>, gives<std::tuple<V3, double>, V3>, gives<std::tuple<V3, float>, V3>, gives<std::tuple<V3, long>, V3>, gives<std::tuple<V3, int>, V3>)
RESULT(floor_divide, el::floor_divide, gives<std::tuple<float, float>, float>, gives<std::tuple<float, double>, double>, gives<std::tuple<float, int>, float>, gives<std::tuple<float, long>, float>, gives<std::tuple<double, float>, double>, gives<std::tuple<double, double>, double>, gives<std::tuple<double, int>, double>, gives<std::tuple<double, long>, double>, gives<std::tuple<int, float>, float>, gives<std::tuple<int, double>, double>, gives<std::tuple<int, int>, int>, gives<std::tuple<int, long>, long>, gives<std::tuple<long, float>, float>, gives<std::tuple<long, double>, double>, gives<std::tuple<long, int>, long>, gives<std::tuple<long, long>, long>)
RESULT(mod, el::mod, gives<std::tuple<float, float>, float>, gives<std::tuple<float, double>, double>, gives<std::tuple<float, int>, float>, gives<std::tuple<float, long>, float>, gives<std::tuple<double, float>, double>, gives<std::tuple<double, double>, double>, gives<std::tuple<double, int>, double>, gives<std::tuple<double, long>, double>, gives<std::tuple<int, float>, float>, gives<std::tuple<int, double>, double>, gives<std::tuple<int, int>, int>, gives<std::tuple<int, long>, long>, gives<std::tuple<long, float>, float>, gives<std::tuple<long, double>, double>, gives<std::tuple<long, int>, long>, gives<std::tuple<long, long>, long>)
RESULT(negative, el::negative, gives<double, double>, gives<float, float>, gives<long, long>, gives<int, int>, gives<V3, V3>)
RESULT(abs, el::abs, gives<double, double>, gives<float, float>, gives<long, long>, gives<int, int>)
RESULT(norm, el::norm, gives<V3, double>)
RESULT(pow, el::pow, gives<std::tuple<double, double>, double>, gives<std::tuple<double, float>, double>, gives<std::tuple<double, int>, double>, gives<std::tuple<double, long>, double>, gives<std::tuple<float, double>, double>, gives<std::tuple<float, float>, float>, gives<std::tuple<float, int>, float>, gives<std::tuple<float, long>, float>, gives<std::tuple<long, long>, long>, gives<std::tuple<long, int>, long>)
RESULT(sqrt, el::sqrt, gives<double, double>, gives<float, float>)
RESULT(dot, el::dot, gives<V3, double>)
RESULT(cross, el::cross, gives<V3, V3>)
RESULT(reciprocal, el::reciprocal, gives<double, double>, gives<float, float>)
RESULT(exp, el::exp, gives<double, double>, gives<float, float>)
RESULT(log, el::log, gives<double, double>, gives<float, float>)
RESULT(log10, el::log10, gives<double, double>, gives<float, float>)
RESULT(floor, el::floor, gives<double, double>, gives<float, float>)
RESULT(ceil, el::ceil, gives<double, double>, gives<float, float>)
RESULT(rint, el::rint, gives<double, double>, gives<float, float>)
RESULT(erf, el::erf, gives<double, double>, gives<float, float>, gives<long, double>, gives<int, double>)
RESULT(erfc, el::erfc, gives<double, double>, gives<float, float>, gives<long, double>, gives<int, double>)
RESULT(midpoint, el::midpoint, gives<double, double>, gives<float, float>, gives<long, long>, gives<int, int>, gives<c::time_point, c::time_point>)
RESULT(less, el::less, gives<std::tuple<float, float>, bool>, gives<std::tuple<float, double>, bool>, gives<std::tuple<float, int>, bool>, gives<std::tuple<float, long>, bool>, gives<std::tuple<double, float>, bool>, gives<std::tuple<double, double>, bool>, gives<std::tuple<double, int>, bool>, gives<std::tuple<double, long>, bool>, gives<std::tuple<int, float>, bool>, gives<std::tuple<int, double>, bool>, gives<std::tuple<int, int>, bool>, gives<std::tuple<int, long>, bool>, gives<std::tuple<long, float>, bool>, gives<std::tuple<long, double>, bool>, gives<std::tuple<long, int>, bool>, gives<std::tuple<long, long>, bool>, gives<bool, bool>, gives<c::time_point, bool>)
RESULT(greater, el::greater, gives<std::tuple<float, float>, bool>, gives<std::tuple<float, double>, bool>, gives<std::tuple<float, int>, bool>, gives<std::tuple<float, long>, bool>, gives<std::tuple<double, float>, bool>, gives<std::tuple<double, double>, bool>, gives<std::tuple<double, int>, bool>, gives<std::tuple<double, long>, bool>, gives<std::tuple<int, float>, bool>, gives<std::tuple<int, double>, bool>, gives<std::tuple<int, int>, bool>, gives<std::tuple<int, long>, bool>, gives<std::tuple<long, float>, bool>, gives<std::tuple<long, double>, bool>, gives<std::tuple<long, int>, bool>, gives<std::tuple<long, long>, bool>, gives<bool, bool>, gives<c::time_point, bool>)
RESULT(less_equal, el::less_equal, gives<std::tuple<float, float>, bool>, gives<std::tuple<float, double>, bool>, gives<std::tuple<float, int>, bool>, gives<std::tuple<float, long>, bool>, gives<std::tuple<double, float>, bool>, gives<std::tuple<double, double>, bool>, gives<std::tuple<double, int>, bool>, gives<std::tuple<double, long>, bool>, gives<std::tuple<int, float>, bool>, gives<std::tuple<int, double>, bool>, gives<std::tuple<int, int>, bool>, gives<std::tuple<int, long>, bool>, gives<std::tuple<long, float>, bool>, gives<std::tuple<long, double>, bool>, gives<std::tuple<long, int>, bool>, gives<std::tuple<long, long>, bool>, gives<bool, bool>, gives<c::time_point, bool>)
RESULT(greater_equal, el::greater_equal, gives<std::tuple<float, float>, bool>, gives<std::tuple<float, double>, bool>, gives<std::tuple<float, int>, bool>, gives<std::tuple<float, long>, bool>, gives<std::tuple<double, float>, bool>, gives<std::tuple<double, double>, bool>, gives<std::tuple<double, int>, bool>, gives<std::tuple<double, long>, bool>, gives<std::tuple<int, float>, bool>, gives<std::tuple<int, double>, bool>, gives<std::tuple<int, int>, bool>, gives<std::tuple<int, long>, bool>, gives<std::tuple<long, float>, bool>, gives<std::tuple<long, double>, bool>, gives<std::tuple<long, int>, bool>, gives<std::tuple<long, long>, bool>, gives<bool, bool>, gives<c::time_point, bool>)
RESULT(equal, el::equal, gives<std::tuple<float, float>, bool>, gives<std::tuple<float, double>, bool>, gives<std::tuple<float, int>, bool>, gives<std::tuple<float, long>, bool>, gives<std::tuple<double, float>, bool>, gives<std::tuple<double, double>, bool>, gives<std::tuple<double, int>, bool>, gives<std::tuple<double, long>, bool>, gives<std::tuple<int, float>, bool>, gives<std::tuple<int, double>, bool>, gives<std::tuple<int, int>, bool>, gives<std::tuple<int, long>, bool>, gives<std::tuple<long, float>, bool>, gives<std::tuple<long, double>, bool>, gives<std::tuple<long, int>, bool>, gives<std::tuple<long, long>, bool>, gives<bool, bool>, gives<c::time_point, bool>, gives<std::string, bool>, gives<V3, bool>, gives<M3, bool>, gives<A3, bool>, gives<c::Quaternion, bool>, gives<c::Translation, bool>)
RESULT(not_equal, el::not_equal, gives<std::tuple<float, float>, bool>, gives<std::tuple<float, double>, bool>, gives<std::tuple<float, int>, bool>, gives<std::tuple<float, long>, bool>, gives<std::tuple<double, float>, bool>, gives<std::tuple<double, double>, bool>, gives<std::tuple<double, int>, bool>, gives<std::tuple<double, long>, bool>, gives<std::tuple<int, float>, bool>, gives<std::tuple<int, double>, bool>, gives<std::tuple<int, int>, bool>, gives<std::tuple<int, long>, bool>, gives<std::tuple<long, float>, bool>, gives<std::tuple<long, double>, bool>, gives<std::tuple<long, int>, bool>, gives<std::tuple<long, long>, bool>, gives<bool, bool>, gives<c::time_point, bool>, gives<std::string, bool>, gives<V3, bool>, gives<M3, bool>, gives<A3, bool>, gives<c::Quaternion, bool>, gives<c::Translation, bool>)
RESULT(logical_and, el::logical_and, gives<bool, bool>)
RESULT(logical_or, el::logical_or, gives<bool, bool>)
RESULT(logical_xor, el::logical_xor, gives<bool, bool>)
RESULT(logical_not, el::logical_not, gives<bool, bool>)
RESULT(isnan, el::isnan, gives<int, bool>, gives<long, bool>, gives<double, bool>, gives<float, bool>, gives<V3, bool>)
RESULT(isinf, el::isinf, gives<int, bool>, gives<long, bool>, gives<double, bool>, gives<float, bool>, gives<V3, bool>)
RESULT(isfinite, el::isfinite, gives<int, bool>, gives<long, bool>, gives<double, bool>, gives<float, bool>, gives<V3, bool>)
RESULT(isposinf, el::isposinf, gives<int, bool>, gives<long, bool>, gives<double, bool>, gives<float, bool>)
RESULT(isneginf, el::isneginf, gives<int, bool>, gives<long, bool>, gives<double, bool>, gives<float, bool>)
RESULT(sin, el::sin, gives<double, double>, gives<float, float>)
RESULT(cos, el::cos, gives<double, double>, gives<float, float>)
RESULT(tan, el::tan, gives<double, double>, gives<float, float>)
RESULT(asin, el::asin, gives<double, double>, gives<float, float>)
RESULT(acos, el::acos, gives<double, double>, gives<float, float>)
RESULT(atan, el::atan, gives<double, double>, gives<float, float>)
RESULT(sinh, el::sinh, gives<double, double>, gives<float, float>)
RESULT(cosh, el::cosh, gives<double, double>, gives<float, float>)
RESULT(tanh, el::tanh, gives<double, double>, gives<float, float>)
RESULT(asinh, el::asinh, gives<double, double>, gives<float, float>)
RESULT(acosh, el::acosh, gives<double, double>, gives<float, float>)
RESULT(atanh, el::atanh, gives<double, double>, gives<float, float>)
RESULT(to_unit, el::to_unit, gives<double, double>, gives<std::tuple<float, double>, float>, gives<std::tuple<long, double>, long>, gives<std::tuple<long, long>, long>, gives<std::tuple<int, double>, int>, gives<std::tuple<c::time_point, double>, c::time_point>, gives<std::tuple<c::time_point, long>, c::time_point>, gives<std::tuple<V3, double>, V3>, gives<std::tuple<A3, double>, A3>, gives<std::tuple<c::Translation, double>, c::Translation>)
RESULT(nan_to_num, el::nan_to_num, gives<double, double>, gives<float, float>)
RESULT(positive_inf_to_num, el::positive_inf_to_num, gives<double, double>, gives<float, float>)
RESULT(negative_inf_to_num, el::negative_inf_to_num, gives<double, double>, gives<float, float>)
RESULT(islinspace, el::islinspace, gives<sp<double const>, bool>, gives<sp<float const>, bool>, gives<sp<long const>, bool>, gives<sp<int const>, bool>, gives<sp<c::time_point const>, bool>)
RESULT(values, el::values, gives<double, double>, gives<float, float>)
RESULT(apply_spatial_transformation, el::apply_spatial_transformation, gives<std::tuple<A3, V3 >, V3>, gives<std::tuple<c::Translation, V3 >, V3>, gives<std::tuple<c::Translation, c::Translation>, c::Translation>, gives<std::tuple<c::Translation, A3 >, A3>, gives<std::tuple<A3, A3 >, A3>, gives<std::tuple<A3, c::Translation>, A3>)
RESULT(zeros_not_bool_like, el::zeros_not_bool_like, gives<double, double>, gives<float, float>, gives<long, long>, gives<int, int>, gives<bool, long>, gives<c::SubbinSizes, c::SubbinSizes>, gives<c::time_point, c::time_point>, gives<V3, V3>)
RESULT(numeric_limits_max_like, el::numeric_limits_max_like, gives<double, double>, gives<float, float>, gives<long, long>, gives<int, int>, gives<bool, bool>, gives<c::SubbinSizes, c::SubbinSizes>, gives<c::time_point, c::time_point>, gives<V3, V3>)
RESULT(numeric_limits_lowest_like, el::numeric_limits_lowest_like, gives<double, double>, gives<float, float>, gives<long, long>, gives<int, int>, gives<bool, bool>, gives<c::SubbinSizes, c::SubbinSizes>, gives<c::time_point, c::time_point>, gives<V3, V3>)
RESULT(atan2, el::atan2, gives<double, double>, gives<float, float>)
RESULT(isarange, el::isarange, gives<sp<long const>, bool>, gives<sp<int const>, bool>)
RESULT(x, el::geometry::x, gives<V3, double>)
}
