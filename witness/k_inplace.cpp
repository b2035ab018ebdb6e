// In-place kernels next to the out-of-place kernel of the same operation.
#include "kernel_witness.h"
namespace wit {
template <class To, class From> To conv(const From &x) {
  if constexpr (is_vv<To>::value && is_vv<From>::value) return To(static_cast<vtype_t<To>>(x.value), static_cast<vtype_t<To>>(x.variance));
  else if constexpr (is_vv<To>::value) return To(static_cast<vtype_t<To>>(x), vtype_t<To>(0));
  else return static_cast<To>(x);
}
template <class Tag, class Out, class... A> struct FnPair {
  [[gnu::flatten, gnu::used]] static void impl(Out *o, const A *...a) { Tag::in(*o, *a...); }
  [[gnu::flatten, gnu::used]] static void ref(Out *o, const A *...a) {
    if constexpr (Tag::out_arg) { Out r = conv<Out>(ev(Tag::out(*a...))); *o = r; }
    else { Out r = conv<Out>(ev(Tag::out(*o, *a...))); *o = r; }
  }
};
template <class Tag, class A> struct FnSelf {
  [[gnu::flatten, gnu::used]] static void impl(A *o) { Tag::in(*o, *o); }
  [[gnu::flatten, gnu::used]] static void ref(A *o) { A c = *o; Tag::in(*o, c); }
};
template <class Tag, class O, class... A> void pinst(const void **&t) {
  using F = FnPair<Tag, O, A...>;
  *t++ = (const void *)&F::impl; *t++ = (const void *)&F::ref;
  if constexpr (!Tag::out_arg && sizeof...(A) == 1 && (std::is_same_v<O, A> && ...)) { using S = FnSelf<Tag, O>; *t++ = (const void *)&S::impl; *t++ = (const void *)&S::ref; }
}
template <class Op, class Tag, unsigned Mask, class... T, std::size_t... I>
void pmask(const void **&t, std::index_sequence<I...> s) {
  if constexpr (mask_ok<Op, Mask, T...>(s)) {
    constexpr bool flag = std::is_base_of_v<tf::expect_in_variance_if_out_variance_t, Op>;
    constexpr bool ov = Mask & 1, iv = (Mask >> 1) != 0;
    if constexpr ((flag ? ov == iv : (ov || !iv)) || no_var<Op, 0>) pinst<Tag, margT<Mask, I, T>...>(t);
  }
}
template <class Op, class Tag, class... T> void ptypes(const void **&t, std::tuple<T...> *) {
  if constexpr ((scalar<T> && ...)) {
    constexpr auto s = std::index_sequence_for<T...>{};
    pmask<Op, Tag, 0, T...>(t, s); pmask<Op, Tag, 1, T...>(t, s); pmask<Op, Tag, 2, T...>(t, s); pmask<Op, Tag, 3, T...>(t, s);
    if constexpr (sizeof...(T) > 2) { pmask<Op, Tag, 4, T...>(t, s); pmask<Op, Tag, 5, T...>(t, s); pmask<Op, Tag, 6, T...>(t, s); pmask<Op, Tag, 7, T...>(t, s); }
  }
}
template <class Op, class Tag, std::size_t N, class... L> void plist(const void **&t, std::tuple<L...> *) {
  (ptypes<Op, Tag>(t, static_cast<typename norm_args<L, N>::type *>(nullptr)), ...);
}
template <class Tag, std::size_t N> [[gnu::noinline]] void pairs(const void **t) {
  using Op = std::decay_t<decltype(Tag::kernel())>;
  plist<Op, Tag, N>(t, static_cast<typename Op::types *>(nullptr));
}
#define P(NAME, IN, OUT, N, OA)                                                                    \
  struct NAME { static constexpr bool out_arg = OA; static constexpr const auto &kernel() { return IN; }                                \
    template <class... X> static void in(X &&...x) { IN(std::forward<X>(x)...); }                   \
    template <class... X> static decltype(auto) out(X &&...x) { return OUT(std::forward<X>(x)...); } }; \
  template void pairs<NAME, N>(const void **);
P(add, element::add_equals, element::add, 2, false)
P(subtract, element::subtract_equals, element::subtract, 2, false)
P(multiply, element::multiply_equals, element::multiply, 2, false)
P(divide, element::divide_equals, element::divide, 2, false)
P(floor_divide, element::floor_divide_equals, element::floor_divide, 2, false)
P(mod, element::mod_equals, element::mod, 2, false)
P(logical_and, element::logical_and_equals, element::logical_and, 2, false)
P(logical_or, element::logical_or_equals, element::logical_or, 2, false)
P(logical_xor, element::logical_xor_equals, element::logical_xor, 2, false)
P(nan_to_num, element::nan_to_num_out_arg, element::nan_to_num, 3, true)
P(positive_inf_to_num, element::positive_inf_to_num_out_arg, element::positive_inf_to_num, 3, true)
P(negative_inf_to_num, element::negative_inf_to_num_out_arg, element::negative_inf_to_num, 3, true)
P(pow, element::pow_in_place, element::pow, 3, true)
} // namespace wit
