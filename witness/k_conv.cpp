// Conversion of units of integers and time points by a real factor: nearest value, saturating.
#include "kernel_witness.h"
#include "scipp/core/element/to_unit.h"
namespace wit {
#define V [[gnu::flatten, gnu::used]] static void
template <class T> inline T nearest(double y) {
  constexpr double top = static_cast<double>(1UL << (8 * sizeof(T) - 1));
  const double r = y < 0 ? y - 0.5 : y + 0.5;
  if (r != r) return std::numeric_limits<T>::min();
  if (r < top && r > -top) return static_cast<T>(r);
  return r < 0 ? std::numeric_limits<T>::min() : std::numeric_limits<T>::max();
}
template <class T> struct P_to_unit_rounded { V impl(T *o, const T *x, const double *s) { *o = element::to_unit(*x, *s); } V ref(T *o, const T *x, const double *s) { *o = nearest<T>(static_cast<double>(*x) * *s); } };
template struct P_to_unit_rounded<long>; template struct P_to_unit_rounded<int>;
struct P_to_unit_time { V impl(long *o, const long *x, const double *s) { *o = element::to_unit(scipp::core::time_point(*x), *s).time_since_epoch(); } V ref(long *o, const long *x, const double *s) { *o = nearest<long>(static_cast<double>(*x) * *s); } };
struct P_to_unit_float { V impl(float *o, const float *x, const double *s) { *o = element::to_unit(*x, *s); } V ref(float *o, const float *x, const double *s) { *o = static_cast<float>(static_cast<double>(*x) * *s); } };
struct P_to_unit_double { V impl(double *o, const double *x, const double *s) { *o = element::to_unit(*x, *s); } V ref(double *o, const double *x, const double *s) { *o = *x * *s; } };
}
