// Spatial transformations: the action of a product is the successive action of its factors.
#include "kernel_witness.h"
#include "scipp/core/element/to_unit.h"
namespace wit {
using V3 = Eigen::Vector3d;
using M3 = Eigen::Matrix3d;
using A3 = Eigen::Affine3d;
using Q = scipp::core::Quaternion;
using T3 = scipp::core::Translation;
struct Vec { double x, y, z; };
inline Vec cr(Vec a, Vec b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
// actions, written from the meaning of the stored numbers
inline Vec act(const M3 &m, Vec v) {
  const double *p = m.data(); // column major
  return {p[0] * v.x + p[3] * v.y + p[6] * v.z, p[1] * v.x + p[4] * v.y + p[7] * v.z, p[2] * v.x + p[5] * v.y + p[8] * v.z};
}
inline Vec act(const A3 &m, Vec v) {
  const double *p = m.data(); // column major 4x4
  return {p[0] * v.x + p[4] * v.y + p[8] * v.z + p[12], p[1] * v.x + p[5] * v.y + p[9] * v.z + p[13], p[2] * v.x + p[6] * v.y + p[10] * v.z + p[14]};
}
inline Vec act(const T3 &t, Vec v) { const V3 &w = t.vector(); return {v.x + w[0], v.y + w[1], v.z + w[2]}; }
inline Vec act(const Q &q, Vec v) { // q v q*, unit quaternion
  Vec u{q.quat().x(), q.quat().y(), q.quat().z()}; double s = q.quat().w();
  Vec a = cr(u, v); double d = u.x * v.x + u.y * v.y + u.z * v.z;
  double k = s * s - (u.x * u.x + u.y * u.y + u.z * u.z);
  return {k * v.x + 2 * d * u.x + 2 * s * a.x, k * v.y + 2 * d * u.y + 2 * s * a.y, k * v.z + 2 * d * u.z + 2 * s * a.z};
}
inline Vec get(const V3 *v) { return {(*v)[0], (*v)[1], (*v)[2]}; }
inline void put(V3 *o, Vec v) { (*o)[0] = v.x; (*o)[1] = v.y; (*o)[2] = v.z; }
template <class P> void take(const void **&t) { *t++ = (const void *)&P::impl; *t++ = (const void *)&P::ref; }

#define COMPOSE(NAME, KERNEL)                                                                       \
  template <class A, class B> struct NAME {                                                         \
    [[gnu::flatten, gnu::used]] static void impl(V3 *o, const A *a, const B *b, const V3 *v) {      \
      const auto c = ev(KERNEL(*a, *b)); put(o, act(c, get(v))); }                                  \
    [[gnu::flatten, gnu::used]] static void ref(V3 *o, const A *a, const B *b, const V3 *v) { put(o, act(*a, act(*b, get(v)))); } \
  };                                                                                                \
  template <class A> struct NAME<A, V3> {                                                           \
    [[gnu::flatten, gnu::used]] static void impl(V3 *o, const A *a, const V3 *v) { *o = ev(KERNEL(*a, *v)); } \
    [[gnu::flatten, gnu::used]] static void ref(V3 *o, const A *a, const V3 *v) { put(o, act(*a, get(v))); } \
  };
COMPOSE(P_multiply, element::multiply)
COMPOSE(P_apply_transform, element::apply_spatial_transformation)
template <class T> constexpr bool transf = std::is_same_v<T, M3> || std::is_same_v<T, A3> || std::is_same_v<T, Q> || std::is_same_v<T, T3>;
template <class T> struct is_pair : std::false_type {};
template <class A, class B> struct is_pair<std::tuple<A, B>> : std::bool_constant<transf<A> && (transf<B> || std::is_same_v<B, V3>)> {};
template <template <class, class> class P, class L> struct pick { static void go(const void **&) {} };
template <template <class, class> class P, class A, class B> struct pick<P, std::tuple<A, B>> {
  static void go(const void **&t) { if constexpr (is_pair<std::tuple<A, B>>::value) take<P<A, B>>(t); }
};
template <class L> struct all;
template <class... T> struct all<std::tuple<T...>> {
  static void mul(const void **&t) { (pick<P_multiply, T>::go(t), ...); }
  static void app(const void **&t) { (pick<P_apply_transform, T>::go(t), ...); }
};
// in place: linear maps
template <class A, class B> struct P_multiply_equals {
  [[gnu::flatten, gnu::used]] static void impl(V3 *o, const A *a, const B *b, const V3 *v) { A c = *a; element::multiply_equals(c, *b); put(o, act(c, get(v))); }
  [[gnu::flatten, gnu::used]] static void ref(V3 *o, const A *a, const B *b, const V3 *v) { put(o, act(*a, act(*b, get(v)))); }
};
// x^-1 (x v) = v
template <class A> struct P_inverse {
  [[gnu::flatten, gnu::used]] static void impl(V3 *o, const A *a, const V3 *v) { const A i(a->inverse()); put(o, act(i, act(*a, get(v)))); }
  [[gnu::flatten, gnu::used]] static void ref(V3 *o, const A *, const V3 *v) { put(o, get(v)); }
};
template <class T, std::size_t N> struct Arr { T v[N]; };
// without assuming normalisation: q^-1 q is the identity rotation
struct P_inverse_any_norm {
  [[gnu::flatten, gnu::used]] static void impl(Arr<double, 4> *o, const Q *a) { const Q r = a->inverse() * *a; o->v[0] = r.quat().x(); o->v[1] = r.quat().y(); o->v[2] = r.quat().z(); o->v[3] = r.quat().w(); }
  [[gnu::flatten, gnu::used]] static void ref(Arr<double, 4> *o, const Q *) { o->v[0] = 0; o->v[1] = 0; o->v[2] = 0; o->v[3] = 1; }
};
// unit conversion scales the translation only: s*A(v/s) read in the new unit
template <class A> struct P_to_unit_spatial {
  [[gnu::flatten, gnu::used]] static void impl(V3 *o, const A *a, const double *s, const V3 *v) {
    const auto c = ev(element::to_unit(*a, *s)); Vec w = get(v); put(o, act(A(c), Vec{w.x * *s, w.y * *s, w.z * *s})); }
  [[gnu::flatten, gnu::used]] static void ref(V3 *o, const A *a, const double *s, const V3 *v) { Vec w = act(*a, get(v)); put(o, Vec{w.x * *s, w.y * *s, w.z * *s}); }
};
// vector arithmetic
template <class S> struct P_scale_left {
  [[gnu::flatten, gnu::used]] static void impl(V3 *o, const S *s, const V3 *v) { *o = ev(element::multiply(*s, *v)); }
  [[gnu::flatten, gnu::used]] static void ref(V3 *o, const S *s, const V3 *v) { Vec w = get(v); const double k = static_cast<double>(*s); put(o, {k * w.x, k * w.y, k * w.z}); }
};
template <class S> struct P_scale_right {
  [[gnu::flatten, gnu::used]] static void impl(V3 *o, const S *s, const V3 *v) { *o = ev(element::multiply(*v, *s)); }
  [[gnu::flatten, gnu::used]] static void ref(V3 *o, const S *s, const V3 *v) { Vec w = get(v); const double k = static_cast<double>(*s); put(o, {k * w.x, k * w.y, k * w.z}); }
};
template <class S> struct P_divide_vector {
  [[gnu::flatten, gnu::used]] static void impl(V3 *o, const S *s, const V3 *v) { *o = ev(element::divide(*v, *s)); }
  [[gnu::flatten, gnu::used]] static void ref(V3 *o, const S *s, const V3 *v) { Vec w = get(v); const double k = static_cast<double>(*s); put(o, {w.x / k, w.y / k, w.z / k}); }
};
template <class S> struct P_scale_inplace {
  [[gnu::flatten, gnu::used]] static void impl(V3 *o, const S *s, const V3 *v) { V3 r = *v; element::multiply_equals(r, *s); *o = r; }
  [[gnu::flatten, gnu::used]] static void ref(V3 *o, const S *s, const V3 *v) { Vec w = get(v); const double k = static_cast<double>(*s); put(o, {k * w.x, k * w.y, k * w.z}); }
};
template <class S> struct P_divide_inplace {
  [[gnu::flatten, gnu::used]] static void impl(V3 *o, const S *s, const V3 *v) { V3 r = *v; element::divide_equals(r, *s); *o = r; }
  [[gnu::flatten, gnu::used]] static void ref(V3 *o, const S *s, const V3 *v) { Vec w = get(v); const double k = static_cast<double>(*s); put(o, {w.x / k, w.y / k, w.z / k}); }
};
struct P_vector_add { [[gnu::flatten, gnu::used]] static void impl(V3 *o, const V3 *a, const V3 *b) { *o = ev(element::add(*a, *b)); }
  [[gnu::flatten, gnu::used]] static void ref(V3 *o, const V3 *a, const V3 *b) { put(o, {(*a)[0] + (*b)[0], (*a)[1] + (*b)[1], (*a)[2] + (*b)[2]}); } };
struct P_vector_subtract { [[gnu::flatten, gnu::used]] static void impl(V3 *o, const V3 *a, const V3 *b) { *o = ev(element::subtract(*a, *b)); }
  [[gnu::flatten, gnu::used]] static void ref(V3 *o, const V3 *a, const V3 *b) { put(o, {(*a)[0] - (*b)[0], (*a)[1] - (*b)[1], (*a)[2] - (*b)[2]}); } };
struct P_vector_add_inplace { [[gnu::flatten, gnu::used]] static void impl(V3 *o, const V3 *b) { element::add_equals(*o, *b); }
  [[gnu::flatten, gnu::used]] static void ref(V3 *o, const V3 *b) { V3 c = *o; put(o, {c[0] + (*b)[0], c[1] + (*b)[1], c[2] + (*b)[2]}); } };
struct P_vector_subtract_inplace { [[gnu::flatten, gnu::used]] static void impl(V3 *o, const V3 *b) { element::subtract_equals(*o, *b); }
  [[gnu::flatten, gnu::used]] static void ref(V3 *o, const V3 *b) { V3 c = *o; put(o, {c[0] - (*b)[0], c[1] - (*b)[1], c[2] - (*b)[2]}); } };
struct P_vector_negative { [[gnu::flatten, gnu::used]] static void impl(V3 *o, const V3 *a) { *o = ev(element::negative(*a)); }
  [[gnu::flatten, gnu::used]] static void ref(V3 *o, const V3 *a) { put(o, {-(*a)[0], -(*a)[1], -(*a)[2]}); } };
template <class S> void scal(const void **&t) { take<P_scale_left<S>>(t); take<P_scale_right<S>>(t); take<P_divide_vector<S>>(t); take<P_scale_inplace<S>>(t); take<P_divide_inplace<S>>(t); }
[[gnu::used]] void inst(const void **t) {
  all<element::multiplies_types_t::types>::mul(t);
  all<element::apply_spatial_transformation_t::types>::app(t);
  take<P_multiply_equals<M3, M3>>(t);
  take<P_inverse<M3>>(t); take<P_inverse<A3>>(t); take<P_inverse<Q>>(t); take<P_inverse<T3>>(t); take<P_inverse_any_norm>(t);
  take<P_to_unit_spatial<A3>>(t); take<P_to_unit_spatial<T3>>(t);
  scal<double>(t); scal<float>(t); scal<int64_t>(t); scal<int32_t>(t);
  take<P_vector_add>(t); take<P_vector_subtract>(t); take<P_vector_add_inplace>(t); take<P_vector_subtract_inplace>(t); take<P_vector_negative>(t);
}
} // namespace wit
