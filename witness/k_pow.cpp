// Powers: symbolic exponents (integer powers kept uninterpreted) and constant exponents.
#include "kernel_witness.h"
#define V2 template <class A, class B> static auto value(A a, B b)
#define R2 template <class A, class B, class VA, class VB> static auto variance(A a, B b, VA va, VB vb)
#define NUM WIT_SUP((scalar<T> && ...))
namespace wit {
template <class A, class B> auto upow(A a, B b) { if constexpr (flt<B>) return std::pow(a, b); else return numeric::pow(a, b); }
}
WIT_BEGIN(pow, element::pow) NUM V2 { return upow(a, b); }
  R2 { using R = decltype(upow(a, b)); if (b == 0) return R(0); const R f = static_cast<R>(b) * upow(a, b - 1); return R(va * f * f); } WIT_END
WIT_INST(pow, 2, false)

namespace wit {
template <auto... F> struct Keep { [[gnu::used]] static void k(const void **t) { ((*t++ = (const void *)F), ...); } };
template <class B, class E, int N> struct P_pow {
  [[gnu::flatten, gnu::used]] static void impl(B *o, const B *x) { *o = element::pow(*x, E(N)); }
  [[gnu::flatten, gnu::used]] static void ref(B *o, const B *x) {
    B r = 1;
    for (int i = 0; i < (N < 0 ? -N : N); ++i) r = r * *x;
    *o = N < 0 ? B(1) / r : r;
  }
};
template <class B, class E, int N> struct P_powvar {
  using VV = ValueAndVariance<B>;
  [[gnu::flatten, gnu::used]] static void impl(B *o, const VV *x) { *o = element::pow(*x, E(N)).variance; }
  [[gnu::flatten, gnu::used]] static void ref(B *o, const VV *x) {
    constexpr int M = N - 1;
    B r = 1;
    for (int i = 0; i < (M < 0 ? -M : M); ++i) r = r * x->value;
    const B d = N == 0 ? B(0) : M < 0 ? B(N) / r : B(N) * r;
    *o = d * d * x->variance;
  }
};
template <class P> void keep(const void **&t) { *t++ = (const void *)&P::impl; *t++ = (const void *)&P::ref; }
template <class B, class E, int... N> void pows(const void **&t, std::integer_sequence<int, N...>) {
  (keep<P_pow<B, E, N>>(t), ...);
  if constexpr (flt<B>) { (keep<P_pow<B, E, -N - 1>>(t), ...); (keep<P_powvar<B, E, N>>(t), ...); (keep<P_powvar<B, E, -N - 1>>(t), ...); }
}
[[gnu::used]] void all(const void **t) {
  using S = std::make_integer_sequence<int, 21>;
  pows<double, int32_t>(t, S{}); pows<double, int64_t>(t, S{}); pows<float, int32_t>(t, S{}); pows<float, int64_t>(t, S{});
  pows<int64_t, int64_t>(t, S{}); pows<int64_t, int32_t>(t, S{});
}
} // namespace wit
