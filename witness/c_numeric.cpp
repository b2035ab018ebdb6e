// Detection of evenly spaced and consecutive values, at fixed lengths.
#include "scipp/common/numeric.h"
#include "scipp/core/element/util.h"
#include "scipp/common/span.h"
#include <array>
namespace wit {
#define W [[gnu::used]] static void
template <class T, long N> struct Arr { T v[N]; };
template <class T, long N> struct Rng { // minimal container with exact bounds
  using value_type = T;
  const T *p;
  long size() const { return N; }
  const T *begin() const { return p; }
  const T *end() const { return p + N; }
  const T &front() const { return p[0]; }
  const T &back() const { return p[N - 1]; }
  const T &operator[](long i) const { return p[i]; }
};
using scipp::core::time_point;
template <class T, long N> void arange_ref(long *o, const T *x) {
  *o = 1;
  for (long i = 1; i < N; ++i) *o &= x[i] - x[i - 1] == 1;
}
template <class T, long N> void linspace_ref(long *o, const T *x) {
  *o = 0;
  if (N < 2) return;
  if constexpr (std::is_floating_point_v<T>) {
    const T delta = (x[N - 1] - x[0]) / (N - 1);
    const T eps = std::numeric_limits<T>::epsilon() * (std::abs(x[0]) + std::abs(x[N - 1])) * 4;
    bool ok = x[N - 1] > x[0] && std::isfinite(delta) && std::isfinite(eps);
    for (long i = 1; i < N; ++i) ok &= std::abs(std::abs(x[i] - x[i - 1]) - delta) <= eps;
    *o = ok;
  } else {
    bool ok = x[N - 1] > x[0];
    for (long i = 1; i < N; ++i) ok &= x[i] - x[i - 1] == x[1] - x[0];
    *o = ok;
  }
}
#define ARANGE(T, N) \
  struct P_arange_##T##_##N { W impl(long *o, const Arr<T, N + !N> *x) { *o = scipp::numeric::isarange(Rng<T, N>{x->v}); } \
                              W ref(long *o, const Arr<T, N + !N> *x) { arange_ref<T, N>(o, x->v); } };
#define LIN(T, N) \
  struct P_linspace_##T##_##N { W impl(long *o, const Arr<T, N + !N> *x) { *o = scipp::numeric::islinspace(Rng<T, N>{x->v}); } \
                                W ref(long *o, const Arr<T, N + !N> *x) { linspace_ref<T, N>(o, x->v); } };
using lng = long;
#define EACH(M, T) M(T, 0) M(T, 1) M(T, 2) M(T, 3) M(T, 4) M(T, 5)
EACH(ARANGE, lng) EACH(ARANGE, int)
EACH(LIN, double) EACH(LIN, float) EACH(LIN, lng) EACH(LIN, int)

// the kernels behind Variable's islinspace and isarange
#define ELEM(T, N) \
  struct P_elem_linspace_##T##_##N { W impl(long *o, const Arr<T, N> *x) { *o = scipp::core::element::islinspace(scipp::span<const T>(x->v, N)); } \
                                     W ref(long *o, const Arr<T, N> *x) { linspace_ref<T, N>(o, x->v); } };
#define ELEMA(T, N) \
  struct P_elem_arange_##T##_##N { W impl(long *o, const Arr<T, N> *x) { *o = scipp::core::element::isarange(scipp::span<const T>(x->v, N)); } \
                                   W ref(long *o, const Arr<T, N> *x) { arange_ref<T, N>(o, x->v); } };
ELEM(double, 3) ELEM(float, 4) ELEM(lng, 3) ELEM(int, 3) ELEM(time_point, 3) ELEMA(lng, 3) ELEMA(int, 4)
}
