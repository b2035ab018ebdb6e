// Instantiates every element kernel of interest over its own type list and over all variance
// combinations the transform machinery would instantiate, next to a reference kernel.  Nothing of
// this is ever executed: the unit is compiled to LLVM IR and the IR is analysed.
#pragma once
#include <new>
#include <tuple>
#include "scipp/core/element/arithmetic.h"
#include "scipp/core/element/comparison.h"
#include "scipp/core/element/cumulative.h"
#include "scipp/core/element/geometric_operations.h"
#include "scipp/core/element/hyperbolic.h"
#include "scipp/core/element/logical.h"
#include "scipp/core/element/math.h"
#include "scipp/core/element/special_values.h"
#include "scipp/core/element/trigonometry.h"
#include "scipp/core/element/util.h"
#include "scipp/core/element/creation.h"
#include "scipp/core/has_eval.h"
#include "scipp/core/transform_common.h"
#include "scipp/core/value_and_variance.h"

namespace wit {
using namespace scipp;
using namespace scipp::core;
namespace tf = scipp::core::transform_flags;

template <class T> struct is_vv : std::false_type {};
template <class T> struct is_vv<ValueAndVariance<T>> : std::true_type {};
template <class T> struct vtype { using type = T; };
template <class T> struct vtype<ValueAndVariance<T>> { using type = T; };
template <class T> using vtype_t = typename vtype<T>::type;

template <class T> static constexpr auto ev(T &&x) {
  if constexpr (core::has_eval_v<std::decay_t<T>>) return x.eval();
  else return std::forward<T>(x);
}
template <class T> auto val(const T &x) { return x; }
template <class T> auto val(const ValueAndVariance<T> &x) { return x.value; }
inline int64_t val(const time_point &x) { return x.time_since_epoch(); }
template <class T> auto var(const T &) { return 0.0; }
template <class T> auto var(const ValueAndVariance<T> &x) { return x.variance; }

// ---- which variance masks does transform / transform_in_place instantiate?
template <class Op, int N> constexpr bool no_var = std::is_base_of_v<tf::expect_no_variance_arg_t<N>, Op>;
template <class Op, int N> constexpr bool need_var = std::is_base_of_v<tf::expect_variance_arg_t<N>, Op>;
template <class Op> constexpr bool all_or_none = std::is_base_of_v<tf::expect_all_or_none_have_variance_t, Op>;

template <class Op, unsigned Mask, class... T, std::size_t... I>
constexpr bool mask_ok(std::index_sequence<I...>) {
  if constexpr (!((((Mask >> I) & 1u) == 0 || (canHaveVariances<T>() && !no_var<Op, I>)) && ...)) return false;
  if constexpr (!((((Mask >> I) & 1u) == 1 || !need_var<Op, I>) && ...)) return false;
  if constexpr (all_or_none<Op>)
    if (Mask != 0 && Mask != (1u << sizeof...(T)) - 1) return false;
  return true;
}
template <unsigned Mask, std::size_t I, class T>
using margT = std::conditional_t<((Mask >> I) & 1u) != 0, ValueAndVariance<std::conditional_t<canHaveVariances<T>(), T, double>>, T>;

// ---- type list normalisation
template <class T, std::size_t N> struct rept;
template <class T> struct rept<T, 1> { using type = std::tuple<T>; };
template <class T> struct rept<T, 2> { using type = std::tuple<T, T>; };
template <class T> struct rept<T, 3> { using type = std::tuple<T, T, T>; };
template <class T, std::size_t N> struct norm_args { using type = typename rept<T, N>::type; };
template <class... T, std::size_t N> struct norm_args<std::tuple<T...>, N> {
  using type = std::conditional_t<sizeof...(T) == N, std::tuple<T...>, typename rept<std::tuple_element_t<0, std::tuple<T...>>, N>::type>;
};

template <class Tag, class Form, class Out, class... A> struct Impl;  // symbols carry these names
struct form_out; struct form_in;

template <class Tag, class Out, class... A> struct Fn {
  [[gnu::flatten, gnu::used]] static void impl(Out *o, const A *...a) { new (o) Out(ev(Tag::op(*a...))); }
  [[gnu::flatten, gnu::used]] static void refvalue(vtype_t<Out> *o, const A *...a) {
    *o = static_cast<vtype_t<Out>>(Tag::value(val(*a)...));
  }
  [[gnu::flatten, gnu::used]] static void refvar(vtype_t<Out> *o, const A *...a) {
    if constexpr (is_vv<Out>::value) *o = static_cast<vtype_t<Out>>(Tag::variance(val(*a)..., var(*a)...));
  }
};
template <class Tag, class Out, class... A> struct FnIn {
  [[gnu::flatten, gnu::used]] static void impl(Out *o, const A *...a) { Tag::op(*o, *a...); }
  [[gnu::flatten, gnu::used]] static void refvalue(vtype_t<Out> *o, const Out *o0, const A *...a) {
    *o = static_cast<vtype_t<Out>>(Tag::value(val(*o0), val(*a)...));
  }
  [[gnu::flatten, gnu::used]] static void refvar(vtype_t<Out> *o, const Out *o0, const A *...a) {
    if constexpr (is_vv<Out>::value) *o = static_cast<vtype_t<Out>>(Tag::variance(val(*o0), val(*a)..., var(*o0), var(*a)...));
  }
};
template <class Tag, class A> struct FnAlias {
  [[gnu::flatten, gnu::used]] static void impl(A *o) { Tag::op(*o, *o); }
};

struct anyptr { const void *p[8]; };
template <class Op, class Tag, class... A> void inst_out(const void **&t) {
  // type supported by the reference?
  using Out = std::decay_t<decltype(ev(Tag::op(std::declval<const A &>()...)))>;
  using F = Fn<Tag, Out, A...>;
  *t++ = (const void *)&F::impl; *t++ = (const void *)&F::refvalue; *t++ = (const void *)&F::refvar;
}
template <class Op, class Tag, class O, class... A> void inst_in(const void **&t) {
  using F = FnIn<Tag, O, A...>;
  *t++ = (const void *)&F::impl; *t++ = (const void *)&F::refvalue; *t++ = (const void *)&F::refvar;
  if constexpr (sizeof...(A) == 1 && (std::is_same_v<O, A> && ...)) *t++ = (const void *)&FnAlias<Tag, O>::impl;
}
template <class T> constexpr bool scalar = std::is_arithmetic_v<T> || std::is_same_v<T, time_point>;

template <class Op, class Tag, bool InPlace, unsigned Mask, class... T, std::size_t... I>
void inst_mask(const void **&t, std::index_sequence<I...> s) {
  if constexpr (mask_ok<Op, Mask, T...>(s)) {
    if constexpr (!InPlace) {
      constexpr bool strict_out = std::is_base_of_v<tf::expect_no_in_variance_if_out_cannot_have_variance_t, Op>;
      if constexpr (Mask == 0 || !strict_out) inst_out<Op, Tag, margT<Mask, I, T>...>(t);
      else {
        using Out = std::decay_t<decltype(ev(Tag::op(std::declval<const T &>()...)))>;
        if constexpr (canHaveVariances<Out>()) inst_out<Op, Tag, margT<Mask, I, T>...>(t);
      }
    } else {
      constexpr bool flag = std::is_base_of_v<tf::expect_in_variance_if_out_variance_t, Op>;
      constexpr bool ov = Mask & 1, iv = (Mask >> 1) != 0;
      if constexpr ((flag ? ov == iv : (ov || !iv)) || no_var<Op, 0>) inst_in<Op, Tag, margT<Mask, I, T>...>(t);
    }
  }
}
template <class Op, class Tag, bool InPlace, class... T>
void inst_types(const void **&t, std::tuple<T...> *) {
  if constexpr (Tag::template supports<T...>()) {
    constexpr auto s = std::index_sequence_for<T...>{};
    inst_mask<Op, Tag, InPlace, 0, T...>(t, s);
    inst_mask<Op, Tag, InPlace, 1, T...>(t, s);
    if constexpr (sizeof...(T) > 1) {
      inst_mask<Op, Tag, InPlace, 2, T...>(t, s);
      inst_mask<Op, Tag, InPlace, 3, T...>(t, s);
    }
    if constexpr (sizeof...(T) > 2) {
      inst_mask<Op, Tag, InPlace, 4, T...>(t, s);
      inst_mask<Op, Tag, InPlace, 5, T...>(t, s);
      inst_mask<Op, Tag, InPlace, 6, T...>(t, s);
      inst_mask<Op, Tag, InPlace, 7, T...>(t, s);
    }
  }
}
template <class Op, class Tag, std::size_t N, bool InPlace, class... L>
void inst_list(const void **&t, std::tuple<L...> *) {
  (inst_types<Op, Tag, InPlace>(t, static_cast<typename norm_args<L, N>::type *>(nullptr)), ...);
}
template <class Tag, std::size_t N, bool InPlace> [[gnu::noinline]] void inst(const void **t) {
  using Op = std::decay_t<decltype(Tag::kernel())>;
  inst_list<Op, Tag, N, InPlace>(t, static_cast<typename Op::types *>(nullptr));
}

// ---- reference helpers
template <class T> constexpr bool flt = std::is_floating_point_v<T>;
template <class T> T sq(T x) { return x * x; }
template <class T> bool r_isnan(T x) { if constexpr (flt<T>) return x != x; else return false; }
template <class T> bool r_isinf(T x) { if constexpr (flt<T>) return x == T(INFINITY) || x == T(-INFINITY); else return false; }
} // namespace wit

// NAME: tag, KERNEL: expression of the element kernel, SUP: supported-types predicate on T...
#define WIT_BEGIN(NAME, KERNEL)                                                                    \
  namespace wit { struct NAME { static constexpr const auto &kernel() { return KERNEL; }           \
    template <class... X> static decltype(auto) op(X &&...x) { return KERNEL(std::forward<X>(x)...); }
#define WIT_SUP(...) template <class... T> static constexpr bool supports() { return __VA_ARGS__; }
#define WIT_END };  }
#define WIT_INST(NAME, N, INPLACE) \
  template void wit::inst<wit::NAME, N, INPLACE>(const void **);
