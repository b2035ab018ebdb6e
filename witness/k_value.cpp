// Comparison, components and special values of vectors, spatial transformations and time points.
#include "kernel_witness.h"
#include "scipp/core/eigen.h"
#include "scipp/core/time_point.h"
namespace wit {
using V3 = Eigen::Vector3d; using A3 = Eigen::Affine3d; using Q = scipp::core::Quaternion; using T3 = scipp::core::Translation; using scipp::core::time_point;
#define V [[gnu::flatten, gnu::used]] static void
template <class T, std::size_t N> struct Arr { T v[N]; };
using A2 = Arr<long, 2>; using D4 = Arr<double, 4>; using D3 = Arr<double, 3>; using D16 = Arr<double, 16>;
template <std::size_t N> bool same(const Arr<double, N> *a, const Arr<double, N> *b) { bool r = true; for (std::size_t i = 0; i < N; ++i) r &= a->v[i] == b->v[i]; return r; }
inline Q q(const D4 *a) { return Q(Eigen::Quaterniond(a->v[3], a->v[0], a->v[1], a->v[2])); }
inline V3 v3(const D3 *a) { return V3(a->v[0], a->v[1], a->v[2]); }
inline A3 a3(const D16 *a) { A3 r; for (int i = 0; i < 16; ++i) r.matrix().data()[i] = a->v[i]; return r; }
struct P_equal_rotation { V impl(A2 *o, const D4 *a, const D4 *b) { const Q x = q(a), y = q(b); o->v[0] = x == y; o->v[1] = x != y; } V ref(A2 *o, const D4 *a, const D4 *b) { o->v[0] = same(a, b); o->v[1] = !same(a, b); } };
struct P_equal_translation { V impl(A2 *o, const D3 *a, const D3 *b) { const T3 x(v3(a)), y(v3(b)); o->v[0] = x == y; o->v[1] = x != y; } V ref(A2 *o, const D3 *a, const D3 *b) { o->v[0] = same(a, b); o->v[1] = !same(a, b); } };
struct P_equal_affine { V impl(A2 *o, const D16 *a, const D16 *b) { const A3 x = a3(a), y = a3(b); o->v[0] = scipp::numeric::operator==(x, y); o->v[1] = scipp::numeric::operator!=(x, y); } V ref(A2 *o, const D16 *a, const D16 *b) { o->v[0] = same(a, b); o->v[1] = !same(a, b); } };
struct P_compare_time { V impl(Arr<long, 6> *o, const long *a, const long *b) { const time_point x(*a), y(*b); const long r[6] = {x == y, x != y, x < y, x <= y, x > y, x >= y}; for (int i = 0; i < 6; ++i) o->v[i] = r[i]; }
  V ref(Arr<long, 6> *o, const long *a, const long *b) { const long r[6] = {*a == *b, *a != *b, *a < *b, *a <= *b, *a > *b, *a >= *b}; for (int i = 0; i < 6; ++i) o->v[i] = r[i]; } };
// components
struct P_component_rotation_read { V impl(D4 *o, const D4 *a) { Q x = q(a); for (int i = 0; i < 4; ++i) o->v[i] = x(i); } V ref(D4 *o, const D4 *a) { for (int i = 0; i < 4; ++i) o->v[i] = a->v[i]; } };
struct P_component_rotation_write { V impl(D4 *o, const D4 *a) { Q x; for (int i = 0; i < 4; ++i) x(i) = a->v[i]; o->v[0] = x.quat().x(); o->v[1] = x.quat().y(); o->v[2] = x.quat().z(); o->v[3] = x.quat().w(); } V ref(D4 *o, const D4 *a) { for (int i = 0; i < 4; ++i) o->v[i] = a->v[i]; } };
struct P_component_rotation_any { V impl(double *o, const D4 *a, const int *i) { Q x = q(a); *o = x(*i); } V ref(double *o, const D4 *a, const int *i) { if (*i == 0) *o = a->v[0]; else if (*i == 1) *o = a->v[1]; else if (*i == 2) *o = a->v[2]; else if (*i == 3) *o = a->v[3]; else throw 1; } };
struct P_component_translation { V impl(Arr<double, 6> *o, const D3 *a) { T3 x(v3(a)); for (int i = 0; i < 3; ++i) o->v[i] = x(i); x(1) = 7; for (int i = 0; i < 3; ++i) o->v[3 + i] = x.vector()[i]; } V ref(Arr<double, 6> *o, const D3 *a) { for (int i = 0; i < 3; ++i) { o->v[i] = a->v[i]; o->v[3 + i] = i == 1 ? 7 : a->v[i]; } } };
struct P_component_default { V impl(Arr<double, 7> *o) { const Q x; const T3 t; const double r[7] = {x.quat().x(), x.quat().y(), x.quat().z(), x.quat().w(), t.vector()[0], t.vector()[1], t.vector()[2]}; for (int i = 0; i < 7; ++i) o->v[i] = r[i]; } V ref(Arr<double, 7> *o) { const double r[7] = {0, 0, 0, 1, 0, 0, 0}; for (int i = 0; i < 7; ++i) o->v[i] = r[i]; } };
// special values of a vector: finite if all components are, not a number if any is, infinite if neither
inline bool nan1(double x) { return x != x; } inline bool fin1(double x) { return __builtin_isfinite(x); }
struct P_special_vector { V impl(Arr<long, 3> *o, const D3 *a) { const V3 x = v3(a); o->v[0] = scipp::numeric::isnan(x); o->v[1] = scipp::numeric::isfinite(x); o->v[2] = scipp::numeric::isinf(x); }
  V ref(Arr<long, 3> *o, const D3 *a) { const bool n = nan1(a->v[0]) || nan1(a->v[1]) || nan1(a->v[2]), f = fin1(a->v[0]) && fin1(a->v[1]) && fin1(a->v[2]); o->v[0] = n; o->v[1] = f; o->v[2] = !n && !f; } };
}
