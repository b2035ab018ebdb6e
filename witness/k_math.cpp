#include "kernel_witness.h"
#include "scipp/core/element/to_unit.h"
#define V2 template <class A, class B> static auto value(A a, B b)
#define R2 template <class A, class B, class VA, class VB> static auto variance(A a, B b, VA va, VB vb)
#define V1 template <class A> static auto value(A a)
#define R1 template <class A, class VA> static auto variance(A a, VA va)
#define NUM WIT_SUP((scalar<T> && ...))
#define NOVAR template <class... X> static auto variance(X...) { return 0.0; }
namespace wit {
// the floating-point type in which a function of an integer is evaluated
template <class A> using fp = std::conditional_t<flt<A>, A, double>;
}
WIT_BEGIN(abs, element::abs) NUM V1 { return a < 0 ? A(-a) : a; } R1 { return va; } WIT_END
WIT_BEGIN(sqrt, element::sqrt) NUM V1 { return std::sqrt(a); } R1 { return va / (VA(4) * a); } WIT_END
WIT_BEGIN(reciprocal, element::reciprocal) NUM V1 { return A(1) / a; } R1 { return va / (a * a * a * a); } WIT_END
WIT_BEGIN(exp, element::exp) NUM V1 { return std::exp(a); } R1 { return va * std::exp(a) * std::exp(a); } WIT_END
WIT_BEGIN(log, element::log) NUM V1 { return std::log(a); } R1 { return va / (a * a); } WIT_END
WIT_BEGIN(log10, element::log10) NUM V1 { return std::log10(a); } R1 { const VA k = VA(2.302585092994045684L) * a; return va / (k * k); } WIT_END
WIT_BEGIN(floor, element::floor) NUM V1 { return std::floor(a); } NOVAR WIT_END
WIT_BEGIN(ceil, element::ceil) NUM V1 { return std::ceil(a); } NOVAR WIT_END
WIT_BEGIN(rint, element::rint) NUM V1 { return std::rint(a); } NOVAR WIT_END
WIT_BEGIN(erf, element::erf) NUM V1 { return std::erf(fp<A>(a)); } NOVAR WIT_END
WIT_BEGIN(erfc, element::erfc) NUM V1 { return std::erfc(fp<A>(a)); } NOVAR WIT_END
#define FN1(NAME) WIT_BEGIN(NAME, element::NAME) NUM V1 { return std::NAME(a); } NOVAR WIT_END
FN1(sin) FN1(cos) FN1(tan) FN1(asin) FN1(acos) FN1(atan) FN1(sinh) FN1(cosh) FN1(tanh) FN1(asinh) FN1(acosh) FN1(atanh)
WIT_BEGIN(atan2, element::atan2) NUM V2 { return std::atan2(a, b); } NOVAR WIT_END
WIT_BEGIN(exclusive_scan, element::exclusive_scan) NUM V2 { return a + b; } NOVAR WIT_END
WIT_BEGIN(inclusive_scan, element::inclusive_scan) NUM V2 { return a + b; } NOVAR WIT_END
WIT_BEGIN(values2, element::values) NUM V1 { return a; } NOVAR WIT_END

WIT_INST(abs, 1, false) WIT_INST(sqrt, 1, false) WIT_INST(reciprocal, 1, false) WIT_INST(exp, 1, false) WIT_INST(log, 1, false)
WIT_INST(log10, 1, false) WIT_INST(floor, 1, false) WIT_INST(ceil, 1, false) WIT_INST(rint, 1, false) WIT_INST(erf, 1, false) WIT_INST(erfc, 1, false)
WIT_INST(sin, 1, false) WIT_INST(cos, 1, false) WIT_INST(tan, 1, false) WIT_INST(asin, 1, false) WIT_INST(acos, 1, false) WIT_INST(atan, 1, false)
WIT_INST(sinh, 1, false) WIT_INST(cosh, 1, false) WIT_INST(tanh, 1, false) WIT_INST(asinh, 1, false) WIT_INST(acosh, 1, false) WIT_INST(atanh, 1, false)
WIT_INST(atan2, 2, false)

// ---- kernels that need more than the generic form
namespace wit {
template <class Tag, class Out, class... A> struct Raw {
  // out-parameter comparison of several outputs
};
using V3 = Eigen::Vector3d;
struct Extra {};
// scans: two outputs (sum, element)
template <class S, class X> struct P_exclusive_scan {
  [[gnu::flatten, gnu::used]] static void impl(S *s, X *x) { element::exclusive_scan(*s, *x); }
  [[gnu::flatten, gnu::used]] static void ref(S *s, X *x) { S o = *s; *s = static_cast<S>(o + *x); *x = static_cast<X>(o); }
};
template <class S, class X> struct P_inclusive_scan {
  [[gnu::flatten, gnu::used]] static void impl(S *s, X *x) { element::inclusive_scan(*s, *x); }
  [[gnu::flatten, gnu::used]] static void ref(S *s, X *x) { S o = *s; *s = static_cast<S>(o + *x); *x = static_cast<X>(static_cast<S>(o + *x)); }
};
inline int64_t mid(int64_t a, int64_t b) { using U = uint64_t; return a <= b ? a + int64_t((U(b) - U(a)) / 2) : a - int64_t((U(a) - U(b)) / 2); }
inline int32_t mid(int32_t a, int32_t b) { using U = uint32_t; return a <= b ? a + int32_t((U(b) - U(a)) / 2) : a - int32_t((U(a) - U(b)) / 2); }
inline double mid(double a, double b) { return (a + b) / 2; }
inline float mid(float a, float b) { return (a + b) / 2; }
inline time_point mid(time_point a, time_point b) { return time_point(mid(a.time_since_epoch(), b.time_since_epoch())); }
template <class T> struct P_midpoint {
  [[gnu::flatten, gnu::used]] static void impl(T *o, const T *a, const T *b) { *o = element::midpoint(*a, *b); }
  [[gnu::flatten, gnu::used]] static void ref(T *o, const T *a, const T *b) { *o = mid(*a, *b); }
};
// to_unit: integer input and integer scale
template <class T, class S> struct P_to_unit {
  [[gnu::flatten, gnu::used]] static void impl(T *o, const T *x, const S *s) { *o = element::to_unit(*x, *s); }
  [[gnu::flatten, gnu::used]] static void ref(T *o, const T *x, const S *s) {
    if constexpr (std::is_same_v<T, time_point>) *o = time_point(x->time_since_epoch() * *s);
    else *o = static_cast<T>(*x * *s);
  }
};
template <class T, class S> constexpr bool exact_conv = scalar<T> && scalar<S> && (flt<T> || !flt<S>);
template <class P> void take(const void **&t) { *t++ = (const void *)&P::impl; *t++ = (const void *)&P::ref; }
template <class T> struct scan1 { static void go(const void **&t) { take<P_exclusive_scan<T, T>>(t); take<P_inclusive_scan<T, T>>(t); } };
template <class A, class B> struct scan1<std::tuple<A, B>> { static void go(const void **&t) { take<P_exclusive_scan<A, B>>(t); take<P_inclusive_scan<A, B>>(t); } };
template <class L> struct each;
template <class... T> struct each<std::tuple<T...>> {
  static void scan(const void **&t) { (scan1<T>::go(t), ...); }
  template <class A, class B> static void tu1(const void **&t, std::tuple<A, B> *) { if constexpr (exact_conv<A, B>) take<P_to_unit<A, B>>(t); }
  template <class A> static void tu1(const void **&t, A *) { if constexpr (exact_conv<A, A>) take<P_to_unit<A, A>>(t); }
  static void tounit(const void **&t) { (tu1(t, static_cast<T *>(nullptr)), ...); }
  static void midp(const void **&t) { (take<P_midpoint<T>>(t), ...); }
};
[[gnu::noinline, gnu::used]] void inst_scan(const void **t) {
  each<std::decay_t<decltype(element::exclusive_scan)>::types>::scan(t);
  each<std::decay_t<decltype(element::midpoint)>::types>::midp(t);
  each<std::decay_t<decltype(element::to_unit)>::types>::tounit(t);
}

template <auto... F> struct Keep { [[gnu::used]] static void k(const void **t) { ((*t++ = (const void *)F), ...); } };
// generic one-function pairs: impl/ref write to *o
#define PAIR(NAME, OUT, ARGS, IMPL, REF)                                                           \
  struct NAME { [[gnu::flatten, gnu::used]] static void impl ARGS { *o = IMPL; }                    \
                [[gnu::flatten, gnu::used]] static void ref ARGS { *o = REF; } };                   \
  template struct Keep<&NAME::impl, &NAME::ref>;
PAIR(P_dot, double, (double *o, const V3 *a, const V3 *b), element::dot(*a, *b), ((*a)[0] * (*b)[0] + (*a)[1] * (*b)[1]) + (*a)[2] * (*b)[2])
PAIR(P_norm, double, (double *o, const V3 *a), element::norm(*a), std::sqrt(((*a)[0] * (*a)[0] + (*a)[1] * (*a)[1]) + (*a)[2] * (*a)[2]))
struct P_cross { [[gnu::flatten, gnu::used]] static void impl(V3 *o, const V3 *a, const V3 *b) { *o = element::cross(*a, *b); }
  [[gnu::flatten, gnu::used]] static void ref(V3 *o, const V3 *pa, const V3 *pb) {
    const V3 &a = *pa, &b = *pb; double x = a[1] * b[2] - a[2] * b[1], y = a[2] * b[0] - a[0] * b[2], z = a[0] * b[1] - a[1] * b[0];
    (*o)[0] = x; (*o)[1] = y; (*o)[2] = z; } };
template struct Keep<&P_cross::impl, &P_cross::ref>;
struct P_position { [[gnu::flatten, gnu::used]] static void impl(V3 *o, const double *x, const double *y, const double *z) { *o = element::geometry::position(*x, *y, *z); }
  [[gnu::flatten, gnu::used]] static void ref(V3 *o, const double *x, const double *y, const double *z) { (*o)[0] = *x; (*o)[1] = *y; (*o)[2] = *z; } };
template struct Keep<&P_position::impl, &P_position::ref>;
PAIR(P_x, double, (double *o, const V3 *a), element::geometry::x(*a), (*a)[0])
PAIR(P_y, double, (double *o, const V3 *a), element::geometry::y(*a), (*a)[1])
PAIR(P_z, double, (double *o, const V3 *a), element::geometry::z(*a), (*a)[2])
using VVd = ValueAndVariance<double>; using VVf = ValueAndVariance<float>;
PAIR(P_variances_double, double, (double *o, const VVd *a), element::variances(*a), a->variance)
PAIR(P_variances_float, float, (float *o, const VVf *a), element::variances(*a), a->variance)
PAIR(P_stddevs_double, double, (double *o, const VVd *a), element::stddevs(*a), std::sqrt(a->variance))
PAIR(P_stddevs_float, float, (float *o, const VVf *a), element::stddevs(*a), std::sqrt(a->variance))
} // namespace wit
