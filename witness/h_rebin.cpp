// Redistribution of counts, running sums, order tests and sorting, at fixed lengths.
#include <algorithm>
#include "scipp/common/span.h"
#include "scipp/core/element/cumulative.h"
#include "scipp/core/element/map_to_bins.h"
#include "scipp/core/element/rebin.h"
#include "scipp/core/element/sort.h"
#include "scipp/core/element/util.h"
#include "core/subbin_sizes.cpp"
namespace wit {
#define W [[gnu::used]] static void
template <class T, long N> struct Arr { T v[N]; };
using scipp::span; using scipp::core::time_point; using scipp::core::ValueAndVariance; using scipp::core::SubbinSizes;
namespace el = scipp::core::element;
using lng = long;
template <class T, long N> span<const T> sp(const Arr<T, N> *a) { return span<const T>(a->v, N); }
struct Less { template <class A, class B> constexpr bool operator()(const A a, const B b) const noexcept { return a < b; } };
struct Greater { template <class A, class B> constexpr bool operator()(const A a, const B b) const noexcept { return a > b; } };
template <class L, class T, long N> bool strict(const Arr<T, N> *e) { for (int i = 1; i < N; ++i) if (!L{}(e->v[i - 1], e->v[i])) return false; return true; }
template <class T> double num(T x) { return double(x); }
inline double num(const time_point x) { return double(x.time_since_epoch()); }
// counts of old bins are shared out in proportion to the overlap
template <class L, int N, int M, class T, class E, class D, class F> void share(T *out, const E *xn, const D *d, const F *xo) {
  for (int j = 0; j + 1 < N; ++j) {
    double acc = 0;
    for (int i = 0; i + 1 < M; ++i) {
      const auto lo = L{}(xo[i], xn[j]) ? xn[j] : xo[i];
      const auto hi = L{}(xo[i + 1], xn[j + 1]) ? xo[i + 1] : xn[j + 1];
      if (L{}(lo, hi)) acc += d[i] * ((num(hi - lo) + 0.) / num(xo[i + 1] - xo[i]));
    }
    out[j] = acc;
  }
}
#define REBIN(L, T, E, D, N, M) \
  struct P_rebin_##L##_##T##_##E##_##D##_##N##_##M { \
    W impl(Arr<T, N - 1> *o, const Arr<E, N> *xn, const Arr<D, M - 1> *d, const Arr<E, M> *xo) { \
      Arr<T, N - 1> r{}; if (strict<L>(xn) && strict<L>(xo)) for (auto &x : r.v) x = 7; if (strict<L>(xn) && strict<L>(xo)) el::rebin<L>(span<T>(r.v, N - 1), sp(xn), sp(d), sp(xo)); *o = r; } \
    W ref(Arr<T, N - 1> *o, const Arr<E, N> *xn, const Arr<D, M - 1> *d, const Arr<E, M> *xo) { \
      Arr<T, N - 1> r{}; if (strict<L>(xn) && strict<L>(xo)) share<L, N, M>(r.v, xn->v, d->v, xo->v); *o = r; } };
REBIN(Less, double, double, double, 2, 2) REBIN(Less, double, double, double, 3, 2) REBIN(Less, double, double, double, 2, 3) REBIN(Less, double, double, double, 3, 3)
REBIN(Greater, double, double, double, 2, 2) REBIN(Greater, double, double, double, 3, 2) REBIN(Greater, double, double, double, 2, 3) REBIN(Greater, double, double, double, 3, 3)
REBIN(Less, double, double, lng, 2, 3) REBIN(Less, double, double, int, 2, 2) REBIN(Less, double, time_point, double, 2, 3) REBIN(Less, double, time_point, double, 2, 2) REBIN(Less, double, time_point, lng, 3, 2)
#define REBINV(L, N, M) \
  struct P_rebin_variances_##L##_##N##_##M { \
    W impl(Arr<double, 2 * (N - 1)> *o, const Arr<double, N> *xn, const Arr<double, M - 1> *d, const Arr<double, M - 1> *u, const Arr<double, M> *xo) { \
      Arr<double, 2 * (N - 1)> r{}; \
      if (strict<L>(xn) && strict<L>(xo)) for (auto &x : r.v) x = 7; \
      if (strict<L>(xn) && strict<L>(xo)) el::rebin<L>(ValueAndVariance<span<double>>{span<double>(r.v, N - 1), span<double>(r.v + N - 1, N - 1)}, sp(xn), ValueAndVariance<span<const double>>{sp(d), sp(u)}, sp(xo)); \
      *o = r; } \
    W ref(Arr<double, 2 * (N - 1)> *o, const Arr<double, N> *xn, const Arr<double, M - 1> *d, const Arr<double, M - 1> *u, const Arr<double, M> *xo) { \
      Arr<double, 2 * (N - 1)> r{}; \
      if (strict<L>(xn) && strict<L>(xo)) { share<L, N, M>(r.v, xn->v, d->v, xo->v); share<L, N, M>(r.v + N - 1, xn->v, u->v, xo->v); } \
      *o = r; } };
REBINV(Less, 2, 3) REBINV(Less, 3, 2) REBINV(Greater, 2, 2)
// --- running sums
#define SCAN(T, X) \
  struct P_exclusive_scan_##T##_##X { \
    W impl(T *s, X *o, const T *a, const X *x) { *s = *a; *o = *x; el::exclusive_scan(*s, *o); } \
    W ref(T *s, X *o, const T *a, const X *x) { *s = *a + *x; *o = *a; } }; \
  struct P_inclusive_scan_##T##_##X { \
    W impl(T *s, X *o, const T *a, const X *x) { *s = *a; *o = *x; el::inclusive_scan(*s, *o); } \
    W ref(T *s, X *o, const T *a, const X *x) { *s = *a + *x; *o = *s; } };
SCAN(double, double) SCAN(double, float) SCAN(lng, lng) SCAN(int, int)
// --- order of neighbours
#define ORDER(T) \
  struct P_issorted_up_##T { W impl(bool *o, const bool *p, const T *a, const T *b) { bool r = *p; el::issorted_nondescending(r, *a, *b); *o = r; } W ref(bool *o, const bool *p, const T *a, const T *b) { *o = *p & (*a <= *b); } }; \
  struct P_issorted_down_##T { W impl(bool *o, const bool *p, const T *a, const T *b) { bool r = *p; el::issorted_nonascending(r, *a, *b); *o = r; } W ref(bool *o, const bool *p, const T *a, const T *b) { *o = *p & (*a >= *b); } };
ORDER(double) ORDER(float) ORDER(lng) ORDER(int) ORDER(time_point)
// --- sorting keeps all elements and each variance with its value
#define SORT2(T) \
  struct P_sort_up_##T { W impl(Arr<T, 2> *o, const Arr<T, 2> *x) { Arr<T, 2> r{}; if (x->v[0] == x->v[0] && x->v[1] == x->v[1]) { r = *x; span<T> s(r.v, 2); el::sort_nondescending(s); } *o = r; } \
                         W ref(Arr<T, 2> *o, const Arr<T, 2> *x) { Arr<T, 2> r{}; if (x->v[0] == x->v[0] && x->v[1] == x->v[1]) { const bool w = x->v[1] < x->v[0]; r.v[0] = w ? x->v[1] : x->v[0]; r.v[1] = w ? x->v[0] : x->v[1]; } *o = r; } }; \
  struct P_sort_down_##T { W impl(Arr<T, 2> *o, const Arr<T, 2> *x) { Arr<T, 2> r{}; if (x->v[0] == x->v[0] && x->v[1] == x->v[1]) { r = *x; span<T> s(r.v, 2); el::sort_nonascending(s); } *o = r; } \
                           W ref(Arr<T, 2> *o, const Arr<T, 2> *x) { Arr<T, 2> r{}; if (x->v[0] == x->v[0] && x->v[1] == x->v[1]) { const bool w = x->v[1] > x->v[0]; r.v[0] = w ? x->v[1] : x->v[0]; r.v[1] = w ? x->v[0] : x->v[1]; } *o = r; } };
SORT2(double) SORT2(lng) SORT2(int) SORT2(float)
struct P_sort_variances {
  W impl(Arr<double, 4> *o, const Arr<double, 2> *x, const Arr<double, 2> *u) {
    double r[4]{}; if (x->v[0] < x->v[1] || x->v[1] < x->v[0]) { for (int i = 0; i < 2; ++i) { r[i] = x->v[i]; r[2 + i] = u->v[i]; }
      ValueAndVariance<span<double>> s{span<double>(r, 2), span<double>(r + 2, 2)}; el::sort_nondescending(s); }
    for (int i = 0; i < 4; ++i) o->v[i] = r[i]; }
  W ref(Arr<double, 4> *o, const Arr<double, 2> *x, const Arr<double, 2> *u) {
    for (int i = 0; i < 4; ++i) o->v[i] = 0;
    if (x->v[0] < x->v[1]) { o->v[0] = x->v[0]; o->v[1] = x->v[1]; o->v[2] = u->v[0]; o->v[3] = u->v[1]; }
    if (x->v[1] < x->v[0]) { o->v[0] = x->v[1]; o->v[1] = x->v[0]; o->v[2] = u->v[1]; o->v[3] = u->v[0]; } }
};
// --- rows of the sparse table of sizes: entry b of a row with offset o counts output bin o + b
inline void put(Arr<long, 8> *o, const SubbinSizes &s) { o->v[0] = s.offset(); o->v[1] = s.sizes().size(); for (int i = 0; i < 6; ++i) o->v[2 + i] = i < (long)s.sizes().size() ? s.sizes()[i] : 0; }
template <int N> SubbinSizes mk(long off, const Arr<long, 2> *a) { SubbinSizes::container_type c(N); for (int i = 0; i < N; ++i) c[i] = a->v[i]; return SubbinSizes(off, std::move(c)); }
template <int N> long at(const Arr<long, 2> *a, long i) { return i >= 0 && i < N ? a->v[i < 0 ? 0 : i > 1 ? 1 : i] : 0; }
#define SUB(NAME, D, N, M, IMPL, REF) \
  struct P_subbin_##NAME##_##D##_##N##_##M { \
    W impl(Arr<long, 8> *o, const long *off, const Arr<long, 2> *a, const Arr<long, 2> *b) { \
      constexpr long da = D == 9, db = D == 9 ? 0 : D, nN = N, nM = M; auto x = mk<N>(*off + da, a); auto y = mk<M>(*off + db, b); IMPL; } \
    W ref(Arr<long, 8> *o, const long *off, const Arr<long, 2> *a, const Arr<long, 2> *b) { \
      constexpr long da = D == 9, db = D == 9 ? 0 : D, nN = N, nM = M; if (*off + da < 0 || *off + db < 0) throw 1; \
      long lo, n; REF } };
#define UNION lo = da < db ? da : db; n = (da + nN > db + nM ? da + nN : db + nM) - lo;
#define OUT(EXPR) o->v[0] = *off + lo; o->v[1] = n; for (long i = 0; i < 6; ++i) { const long g = lo + i; (void)g; o->v[2 + i] = i < n ? (EXPR) : 0; }
#define SUBS(D, N, M) \
  SUB(add, D, N, M, put(o, x + y), UNION OUT(at<nN>(a, g - da) + at<nM>(b, g - db))) \
  SUB(sub, D, N, M, put(o, x - y), UNION OUT(at<nN>(a, g - da) - at<nM>(b, g - db))) \
  SUB(iadd, D, N, M, x += y; put(o, x), UNION OUT(at<nN>(a, g - da) + at<nM>(b, g - db))) \
  SUB(isub, D, N, M, x -= y; put(o, x), UNION OUT(at<nN>(a, g - da) - at<nM>(b, g - db))) \
  SUB(addint, D, N, M, x.add_intersection(y); put(o, x), lo = da; n = N; OUT(at<nN>(a, g - da) + at<nM>(b, g - db)))
SUBS(0, 0, 0) SUBS(0, 0, 1) SUBS(0, 0, 2) SUBS(0, 1, 0) SUBS(0, 1, 1) SUBS(0, 1, 2) SUBS(0, 2, 0) SUBS(0, 2, 1) SUBS(0, 2, 2) SUBS(1, 0, 0) SUBS(1, 0, 1) SUBS(1, 0, 2) SUBS(1, 1, 0) SUBS(1, 1, 1) SUBS(1, 1, 2) SUBS(1, 2, 0) SUBS(1, 2, 1) SUBS(1, 2, 2) SUBS(2, 0, 0) SUBS(2, 0, 1) SUBS(2, 0, 2) SUBS(2, 1, 0) SUBS(2, 1, 1) SUBS(2, 1, 2) SUBS(2, 2, 0) SUBS(2, 2, 1) SUBS(2, 2, 2) SUBS(3, 0, 0) SUBS(3, 0, 1) SUBS(3, 0, 2) SUBS(3, 1, 0) SUBS(3, 1, 1) SUBS(3, 1, 2) SUBS(3, 2, 0) SUBS(3, 2, 1) SUBS(3, 2, 2) SUBS(9, 0, 0) SUBS(9, 0, 1) SUBS(9, 0, 2) SUBS(9, 1, 0) SUBS(9, 1, 1) SUBS(9, 1, 2) SUBS(9, 2, 0) SUBS(9, 2, 1) SUBS(9, 2, 2)
#define SCANS(D, N, M) \
  SUB(scan_x, D, N, M, x.exclusive_scan(y); put(o, x), lo = db; n = M; OUT(at<nN>(a, g - da) + at<nM>(b, g - db))) \
  SUB(scan_y, D, N, M, x.exclusive_scan(y); put(o, y), lo = db; n = M; OUT(at<nN>(a, g - da)))
SCANS(0, 0, 0) SCANS(0, 0, 1) SCANS(0, 0, 2) SCANS(0, 1, 0) SCANS(0, 1, 1) SCANS(0, 1, 2) SCANS(0, 2, 0) SCANS(0, 2, 1) SCANS(0, 2, 2) SCANS(1, 0, 0) SCANS(1, 0, 1) SCANS(1, 0, 2) SCANS(1, 1, 0) SCANS(1, 1, 1) SCANS(1, 1, 2) SCANS(1, 2, 0) SCANS(1, 2, 1) SCANS(1, 2, 2) SCANS(2, 0, 0) SCANS(2, 0, 1) SCANS(2, 0, 2) SCANS(2, 1, 0) SCANS(2, 1, 1) SCANS(2, 1, 2) SCANS(2, 2, 0) SCANS(2, 2, 1) SCANS(2, 2, 2) SCANS(3, 0, 0) SCANS(3, 0, 1) SCANS(3, 0, 2) SCANS(3, 1, 0) SCANS(3, 1, 1) SCANS(3, 1, 2) SCANS(3, 2, 0) SCANS(3, 2, 1) SCANS(3, 2, 2)
struct P_subbin_cumsum { W impl(Arr<long, 8> *o, const long *off, const Arr<long, 2> *a) { put(o, mk<2>(*off, a).cumsum_exclusive()); }
  W ref(Arr<long, 8> *o, const long *off, const Arr<long, 2> *a) { if (*off < 0) throw 1; for (auto &x : o->v) x = 0; o->v[0] = *off; o->v[1] = 2; o->v[3] = a->v[0]; } };
struct P_subbin_sum { W impl(long *o, const long *off, const Arr<long, 2> *a) { *o = mk<2>(*off, a).sum(); } W ref(long *o, const long *off, const Arr<long, 2> *a) { if (*off < 0) throw 1; *o = a->v[0] + a->v[1]; } };
struct P_subbin_eq { W impl(bool *o, const long *p, const long *q, const Arr<long, 2> *a, const Arr<long, 2> *b) { *o = mk<2>(*p, a) == mk<2>(*q, b); }
  W ref(bool *o, const long *p, const long *q, const Arr<long, 2> *a, const Arr<long, 2> *b) { if (*p < 0 || *q < 0) throw 1; *o = *p == *q && a->v[0] == b->v[0] && a->v[1] == b->v[1]; } };
struct P_subbin_eq_size { W impl(bool *o, const long *p, const Arr<long, 2> *a, const Arr<long, 2> *b) { *o = mk<2>(*p, a) == mk<1>(*p, b); }
  W ref(bool *o, const long *p, const Arr<long, 2> *a, const Arr<long, 2> *b) { if (*p < 0) throw 1; *o = false; } };
struct P_subbin_assign { W impl(Arr<long, 8> *o, const long *off, const Arr<long, 2> *a, const long *k) { auto x = mk<2>(*off, a); x = *k; put(o, x); }
  W ref(Arr<long, 8> *o, const long *off, const Arr<long, 2> *a, const long *k) { if (*off < 0) throw 1; for (auto &x : o->v) x = 0; o->v[0] = *off; o->v[1] = 2; o->v[2] = o->v[3] = *k; } };
}
