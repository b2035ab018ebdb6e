// Assignment of points to bins, at fixed numbers of edges: implementation versus the definition
// "bin b holds the points with edge[b] <= x < edge[b+1]".
#include <array>
#include "scipp/common/span.h"
#include "scipp/core/element/bin.h"
#include "scipp/core/element/bin_detail.h"
#include "scipp/core/element/event_operations.h"
#include "scipp/core/element/histogram.h"
#include "scipp/core/element/map_to_bins.h"
#include "core/subbin_sizes.cpp"
namespace wit {
#define W [[gnu::used]] static void
template <class T, long N> struct Arr { T v[N]; };
using scipp::span; using scipp::core::time_point; using scipp::core::ValueAndVariance;
namespace el = scipp::core::element; namespace ev = scipp::core::element::event;
template <class T, long N> span<const T> sp(const Arr<T, N> *a) { return span<const T>(a->v, N); }
template <class T, long N> bool ascending(const Arr<T, N> *e) { for (int i = 1; i < N; ++i) if (!(e->v[i - 1] < e->v[i])) return false; return true; }
template <class T, long N> bool sorted(const Arr<T, N> *e) { for (int i = 1; i < N; ++i) if (!(e->v[i - 1] <= e->v[i])) return false; return true; }
template <class X, class T> long bin_of(const X &x, const T *e, int n) { // n edges
  long r = -1;
  for (int i = 0; i + 1 < n; ++i) if (x >= e[i] && x < e[i + 1]) r = i;
  return r;
}
using lng = long;
// --- index of a single point
#define GETBIN(X, E, I, N) \
  struct P_get_bin_##X##_##E##_##I##_##N { \
    W impl(long *o, const X *x, const Arr<E, N> *e) { *o = -9; if (ascending(e)) *o = scipp::core::get_bin<I>(*x, sp(e), scipp::core::linear_edge_params(sp(e))); } \
    W ref(long *o, const X *x, const Arr<E, N> *e) { *o = -9; if (ascending(e)) *o = bin_of(*x, e->v, N); } };
GETBIN(double, double, lng, 2) GETBIN(double, double, lng, 3) GETBIN(float, float, lng, 3) GETBIN(lng, double, lng, 3) GETBIN(float, double, int, 3)
GETBIN(lng, lng, lng, 3) GETBIN(int, int, int, 3) GETBIN(int, double, lng, 3) GETBIN(time_point, time_point, lng, 3) GETBIN(double, float, lng, 3)
// on a lattice the estimate of the index has to be right for more bins, too
#define LATTICE(A, D, N) \
  struct P_get_bin_lattice_##A##_##D##_##N { \
    W impl(long *o, const double *x) { double e[N]; for (int i = 0; i < N; ++i) e[i] = A + D * i; const span<const double> s(e, N); *o = scipp::core::get_bin<long>(*x, s, scipp::core::linear_edge_params(s)); } \
    W ref(long *o, const double *x) { double e[N]; for (int i = 0; i < N; ++i) e[i] = A + D * i; *o = bin_of(*x, e, N); } };
LATTICE(0, 1, 6) LATTICE(10, 2, 6) LATTICE(1, 8, 5) LATTICE(0, 1, 9)
// --- update of the running index
#define UPDATE(KER, PRE, NAME, X, E, I, N) \
  struct P_##NAME##_##X##_##E##_##I##_##N { \
    W impl(I *o, const I *i, const X *x, const Arr<E, N> *e) { *o = *i; if (PRE(e)) el::KER(*o, *x, sp(e)); } \
    W ref(I *o, const I *i, const X *x, const Arr<E, N> *e) { *o = *i; if (PRE(e)) { const I b = bin_of(*x, e->v, N); if (*i != -1) *o = b == -1 ? -1 : *i * (N - 1) + b; } } };
#define LINUPD(X, E, I, N) UPDATE(update_indices_by_binning_linspace, ascending, update_linspace, X, E, I, N)
#define SRTUPD(X, E, I, N) UPDATE(update_indices_by_binning_sorted_edges, sorted, update_sorted, X, E, I, N)
LINUPD(double, double, lng, 2) LINUPD(double, double, lng, 3) LINUPD(float, double, int, 3) LINUPD(time_point, time_point, lng, 3) LINUPD(lng, double, int, 3) LINUPD(int, lng, lng, 3) LINUPD(int, int, int, 2)
SRTUPD(double, double, lng, 2) SRTUPD(double, double, lng, 3) SRTUPD(double, double, lng, 4) SRTUPD(float, double, int, 3) SRTUPD(time_point, time_point, lng, 4) SRTUPD(lng, double, int, 3) SRTUPD(int, lng, lng, 4) SRTUPD(lng, lng, int, 5)
// --- grouping
struct Groups { // finds a label among two distinct ones, as std::unordered_map does
  struct item { long first, second; };
  item it[2];
  const item *begin() const { return it; }
  const item *end() const { return it + 2; }
  long size() const { return 2; }
  template <class T> const item *find(const T &x) const { return x == it[0].first ? it : x == it[1].first ? it + 1 : it + 2; }
};
#define GROUP(X, I) \
  struct P_update_group_##X##_##I { \
    W impl(I *o, const I *i, const X *x, const long *a, const long *b) { *o = *i; if (*a == *b) return; const Groups g{{{*a, 0}, {*b, 1}}}; el::update_indices_by_grouping(*o, *x, g); } \
    W ref(I *o, const I *i, const X *x, const long *a, const long *b) { *o = *i; if (*a == *b || *i == -1) return; *o = *x == *a ? *i * 2 : *x == *b ? *i * 2 + 1 : -1; } };
GROUP(lng, lng) GROUP(int, int) GROUP(lng, int)
#define CONTIG(X, I, O) \
  struct P_update_contiguous_##X##_##I##_##O { \
    W impl(I *o, const I *i, const X *x, const long *n, const O *off) { *o = *i; el::update_indices_by_grouping_contiguous(*o, *x, *n, *off); } \
    W ref(I *o, const I *i, const X *x, const long *n, const O *off) { *o = *i; if (*i == -1) return; const auto g = *x - *off; *o = (g >= 0 && g < *n) ? (I)(*i * *n + g) : -1; } };
CONTIG(lng, lng, lng) CONTIG(int, lng, int) CONTIG(lng, int, lng) CONTIG(int, int, int) CONTIG(lng, lng, int)
#define EXIST(I) \
  struct P_update_existing_##I { \
    W impl(I *o, const I *i, const long *b, const long *n) { *o = *i; el::update_indices_from_existing(*o, *b, *n); } \
    W ref(I *o, const I *i, const long *b, const long *n) { *o = *i == -1 ? -1 : (I)(*i * *n + *b); } };
EXIST(lng) EXIST(int)
// --- range of output bins that an input bin can contribute to
#define EDGE(C, E, N, B) \
  struct P_begin_edge_##C##_##E##_##N##_##B { \
    W impl(Arr<long, 2> *o, const C *x, const Arr<E, N> *e) { long b = B, i = -9; if (sorted(e)) el::begin_edge(b, i, *x, sp(e)); o->v[0] = b; o->v[1] = i; } \
    W ref(Arr<long, 2> *o, const C *x, const Arr<E, N> *e) { long b = B, i = -9; if (sorted(e)) { long n = 0; for (int k = 1; k + 1 < N; ++k) n += e->v[k] <= *x; if (n > b) b = n; i = b; } o->v[0] = b; o->v[1] = i; } }; \
  struct P_end_edge_##C##_##E##_##N##_##B { \
    W impl(Arr<long, 2> *o, const C *x, const Arr<E, N> *e) { long b = B, i = -9; if (sorted(e)) el::end_edge(b, i, *x, sp(e)); o->v[0] = b; o->v[1] = i; } \
    W ref(Arr<long, 2> *o, const C *x, const Arr<E, N> *e) { long b = B, i = -9; if (sorted(e)) { long n = 0; for (int k = 1; k + 1 < N; ++k) n += e->v[k] < *x; if (n > b) b = n; i = b + 2; } o->v[0] = b; o->v[1] = i; } };
EDGE(double, double, 2, 0) EDGE(double, double, 3, 0) EDGE(double, double, 4, 0) EDGE(double, double, 4, 1) EDGE(lng, lng, 4, 0) EDGE(int, double, 3, 0) EDGE(time_point, time_point, 3, 0) EDGE(float, lng, 3, 0)
// --- lookup of weights
#define LOOKUP(X, E, T, N) \
  struct P_map_linspace_##X##_##E##_##T##_##N { \
    W impl(T *o, const X *x, const Arr<E, N> *e, const Arr<T, N - 1> *w, const T *fill) { *o = 0; if (ascending(e)) *o = ev::map_linspace(*x, sp(e), sp(w), *fill); } \
    W ref(T *o, const X *x, const Arr<E, N> *e, const Arr<T, N - 1> *w, const T *fill) { *o = 0; if (ascending(e)) { *o = *fill; for (int i = 0; i + 1 < N; ++i) if (*x >= e->v[i] && *x < e->v[i + 1]) *o = w->v[i]; } } }; \
  struct P_map_sorted_##X##_##E##_##T##_##N { \
    W impl(T *o, const X *x, const Arr<E, N> *e, const Arr<T, N - 1> *w, const T *fill) { *o = 0; if (sorted(e)) *o = ev::map_sorted_edges(*x, sp(e), sp(w), *fill); } \
    W ref(T *o, const X *x, const Arr<E, N> *e, const Arr<T, N - 1> *w, const T *fill) { *o = 0; if (sorted(e)) { *o = *fill; for (int i = 0; i + 1 < N; ++i) if (*x >= e->v[i] && *x < e->v[i + 1]) *o = w->v[i]; } } }; \
  struct P_lookup_previous_##X##_##E##_##T##_##N { \
    W impl(T *o, const X *x, const Arr<E, N> *e, const Arr<T, N> *w, const T *fill) { *o = 0; if (sorted(e) && *x == *x) *o = ev::lookup_previous(*x, sp(e), sp(w), *fill); } \
    W ref(T *o, const X *x, const Arr<E, N> *e, const Arr<T, N> *w, const T *fill) { *o = 0; if (sorted(e) && *x == *x) { *o = *fill; for (int i = 0; i < N; ++i) if (*x >= e->v[i]) *o = w->v[i]; } } };
LOOKUP(double, double, double, 3) LOOKUP(float, double, float, 3) LOOKUP(lng, lng, int, 3) LOOKUP(int, double, lng, 2) LOOKUP(time_point, time_point, double, 3) LOOKUP(double, float, bool, 3) LOOKUP(double, double, double, 2)
template <class E, int N> struct VVW { // weights with variances
  using VV = ValueAndVariance<double>;
  static ValueAndVariance<span<const double>> get(const Arr<double, N> *w, const Arr<double, N> *v) { return {sp(w), sp(v)}; }
};
struct P_map_sorted_variances {
  W impl(ValueAndVariance<double> *o, const double *x, const Arr<double, 3> *e, const Arr<double, 2> *w, const Arr<double, 2> *v, const ValueAndVariance<double> *fill) {
    *o = {0, 0}; if (sorted(e)) *o = ev::map_sorted_edges(*x, sp(e), ValueAndVariance<span<const double>>{sp(w), sp(v)}, *fill); }
  W ref(ValueAndVariance<double> *o, const double *x, const Arr<double, 3> *e, const Arr<double, 2> *w, const Arr<double, 2> *v, const ValueAndVariance<double> *fill) {
    *o = {0, 0}; if (sorted(e)) { *o = *fill; for (int i = 0; i < 2; ++i) if (*x >= e->v[i] && *x < e->v[i + 1]) *o = {w->v[i], v->v[i]}; } }
};
struct P_map_linspace_variances {
  W impl(ValueAndVariance<double> *o, const double *x, const Arr<double, 3> *e, const Arr<double, 2> *w, const Arr<double, 2> *v, const ValueAndVariance<double> *fill) {
    *o = {0, 0}; if (ascending(e)) *o = ev::map_linspace(*x, sp(e), ValueAndVariance<span<const double>>{sp(w), sp(v)}, *fill); }
  W ref(ValueAndVariance<double> *o, const double *x, const Arr<double, 3> *e, const Arr<double, 2> *w, const Arr<double, 2> *v, const ValueAndVariance<double> *fill) {
    *o = {0, 0}; if (ascending(e)) { *o = *fill; for (int i = 0; i < 2; ++i) if (*x >= e->v[i] && *x < e->v[i + 1]) *o = {w->v[i], v->v[i]}; } }
};
#define SCALE(D, X, E, T, N) \
  struct P_map_mul_linspace_##D##_##X##_##E##_##T { \
    W impl(D *o, const D *d, const X *x, const Arr<E, N> *e, const Arr<T, N - 1> *w) { *o = *d; if (ascending(e)) ev::map_and_mul_linspace(*o, *x, sp(e), sp(w)); } \
    W ref(D *o, const D *d, const X *x, const Arr<E, N> *e, const Arr<T, N - 1> *w) { *o = *d; if (ascending(e)) { const long b = bin_of(*x, e->v, N); if (b < 0) *o *= 0.0; for (int i = 0; i + 1 < N; ++i) if (b == i) *o *= w->v[i]; } } }; \
  struct P_map_mul_sorted_##D##_##X##_##E##_##T { \
    W impl(D *o, const D *d, const X *x, const Arr<E, N> *e, const Arr<T, N - 1> *w) { *o = *d; if (sorted(e)) ev::map_and_mul_sorted_edges(*o, *x, sp(e), sp(w)); } \
    W ref(D *o, const D *d, const X *x, const Arr<E, N> *e, const Arr<T, N - 1> *w) { *o = *d; if (sorted(e)) { const long b = bin_of(*x, e->v, N); if (b < 0) *o *= 0.0; for (int i = 0; i + 1 < N; ++i) if (b == i) *o *= w->v[i]; } } };
SCALE(double, double, double, double, 3) SCALE(float, double, double, float, 3) SCALE(double, time_point, time_point, double, 3) SCALE(double, float, float, double, 2)
// --- histogram: M events into N-1 bins
template <class T, int N, int M, class X, class E> void hist(T *out, const X *x, const T *w, const E *e) {
  for (int i = 1; i < N; ++i) if (e[i] < e[i - 1]) throw 1;
  for (int b = 0; b + 1 < N; ++b) { out[b] = 0; }
  for (int j = 0; j < M; ++j) for (int b = 0; b + 1 < N; ++b) if (x[j] >= e[b] && x[j] < e[b + 1]) out[b] += w[j];
}
// with floating-point edges "unsorted" and "evenly spaced" overlap at the scale of rounding
template <class T, long N> bool ordered(const Arr<T, N> *e) { return std::is_integral_v<T> || sorted(e); }
#define HIST(X, T, N, M) \
  struct P_histogram_##X##_##T##_##N##_##M { \
    W impl(Arr<T, N - 1> *o, const Arr<X, M> *x, const Arr<T, M> *w, const Arr<X, N> *e) { Arr<T, N - 1> r{}; if (ordered(e)) el::histogram(span<T>(r.v, N - 1), sp(x), sp(w), sp(e)); *o = r; } \
    W ref(Arr<T, N - 1> *o, const Arr<X, M> *x, const Arr<T, M> *w, const Arr<X, N> *e) { Arr<T, N - 1> r{}; if (ordered(e)) hist<T, N, M>(r.v, x->v, w->v, e->v); *o = r; } };
HIST(double, double, 2, 1) HIST(lng, float, 3, 1) HIST(time_point, lng, 3, 1) HIST(int, int, 3, 1) HIST(int, double, 3, 1) HIST(float, float, 2, 1)
// both code paths (evenly spaced or not) with given edges and several events
#define HISTC(NAME, X, T, M, ...) \
  struct P_histogram_##NAME##_##X##_##T##_##M { \
    static constexpr X e[] = {__VA_ARGS__}; static constexpr int N = sizeof(e) / sizeof(X); \
    W impl(Arr<T, 4> *o, const Arr<X, M> *x, const Arr<T, M> *w) { T r[4]{}; for (int i = 0; i < N - 1; ++i) r[i] = 7; el::histogram(span<T>(r, N - 1), sp(x), sp(w), span<const X>(e, N)); for (int i = 0; i < 4; ++i) o->v[i] = r[i]; } \
    W ref(Arr<T, 4> *o, const Arr<X, M> *x, const Arr<T, M> *w) { T r[4]{}; hist<T, N, M>(r, x->v, w->v, e); for (int i = 0; i < 4; ++i) o->v[i] = r[i]; } };
HISTC(even, double, double, 2, 0, 1, 2) HISTC(even, double, float, 1, 4, 6, 8, 10, 12) HISTC(uneven, double, double, 2, 0, 1, 3) HISTC(uneven, double, long, 2, 0, 1, 3) HISTC(even, float, double, 2, -1, 0, 1) HISTC(uneven, float, double, 1, -1, 0, 0, 2)
HISTC(even, long, double, 2, 0, 1, 2) HISTC(uneven, int, double, 2, 0, 2, 3)
#define HISTV(NAME, ...) \
  struct P_histogram_variances_##NAME { \
    W impl(Arr<double, 4> *o, const Arr<double, 2> *x, const Arr<double, 2> *w, const Arr<double, 2> *u) { \
      const double e[] = {__VA_ARGS__}; double r[4] = {7, 7, 7, 7}; \
      el::histogram(ValueAndVariance<span<double>>{span<double>(r, 2), span<double>(r + 2, 2)}, sp(x), ValueAndVariance<span<const double>>{sp(w), sp(u)}, span<const double>(e, 3)); \
      for (int i = 0; i < 4; ++i) o->v[i] = r[i]; } \
    W ref(Arr<double, 4> *o, const Arr<double, 2> *x, const Arr<double, 2> *w, const Arr<double, 2> *u) { \
      const double e[] = {__VA_ARGS__}; double r[4]{}; hist<double, 3, 2>(r, x->v, w->v, e); hist<double, 3, 2>(r + 2, x->v, u->v, e); \
      for (int i = 0; i < 4; ++i) o->v[i] = r[i]; } };
HISTV(even, 0, 1, 2) HISTV(uneven, 0, 1, 3)
// --- number of events per output bin
#define COUNT(I, N, M) \
  struct P_count_indices_##I##_##N##_##M { \
    W impl(Arr<long, N + 2> *o, const Arr<I, M> *i, const long *off) { \
      for (int j = 0; j < M; ++j) if (i->v[j] < -1 || i->v[j] >= N) { for (auto &x : o->v) x = 0; return; } \
      const auto r = el::count_indices(sp(i), *off, long(N)); o->v[0] = r.offset(); o->v[1] = r.sizes().size(); for (int b = 0; b < N; ++b) o->v[b + 2] = r.sizes()[b]; } \
    W ref(Arr<long, N + 2> *o, const Arr<I, M> *i, const long *off) { \
      for (int j = 0; j < M; ++j) if (i->v[j] < -1 || i->v[j] >= N) { for (auto &x : o->v) x = 0; return; } \
      if (*off < 0) throw 1; o->v[0] = *off; o->v[1] = N; for (int b = 0; b < N; ++b) { o->v[b + 2] = 0; for (int j = 0; j < M; ++j) o->v[b + 2] += i->v[j] == b; } } };
COUNT(lng, 2, 2) COUNT(int, 3, 2) COUNT(lng, 3, 3)
// --- copying events to their bins: order kept, nothing lost or duplicated
#define SCATTER(T, I) \
  struct P_map_to_bins_##T##_##I { \
    W impl(Arr<T, 4> *o, Arr<long, 2> *c, const Arr<T, 4> *init, const Arr<T, 2> *d, const Arr<I, 2> *i) { \
      T r[4]; for (int j = 0; j < 4; ++j) r[j] = init->v[j]; \
      Arr<long, 2> b{{0, 2}}; \
      bool ok = true; for (int j = 0; j < 2; ++j) ok &= i->v[j] >= -1 && i->v[j] < 2; \
      if (ok) { auto out = span<T>(r, 4); auto bins = span<long>(b.v, 2); el::map_to_bins_direct(out, bins, sp(d), sp(i)); } \
      for (int j = 0; j < 4; ++j) o->v[j] = r[j]; *c = b; } \
    W ref(Arr<T, 4> *o, Arr<long, 2> *c, const Arr<T, 4> *init, const Arr<T, 2> *d, const Arr<I, 2> *i) { \
      for (int j = 0; j < 4; ++j) o->v[j] = init->v[j]; \
      long n0 = 0, n1 = 2; bool ok = true; for (int j = 0; j < 2; ++j) ok &= i->v[j] >= -1 && i->v[j] < 2; \
      if (ok) { \
        const bool a0 = i->v[0] == 0, a1 = i->v[0] == 1, b0 = i->v[1] == 0, b1 = i->v[1] == 1; \
        if (a0) o->v[0] = d->v[0]; if (a1) o->v[2] = d->v[0]; \
        if (b0) { if (a0) o->v[1] = d->v[1]; else o->v[0] = d->v[1]; } \
        if (b1) { if (a1) o->v[3] = d->v[1]; else o->v[2] = d->v[1]; } \
        n0 += a0 + b0; n1 += a1 + b1; } \
      c->v[0] = n0; c->v[1] = n1; } };
SCATTER(double, lng) SCATTER(lng, int) SCATTER(float, lng) SCATTER(int, int)
struct P_map_to_bins_variances {
  W impl(Arr<double, 8> *o, Arr<long, 2> *c, const Arr<double, 2> *d, const Arr<double, 2> *u, const Arr<long, 2> *i) {
    double r[8]{}; Arr<long, 2> b{{0, 2}};
    bool ok = true; for (int j = 0; j < 2; ++j) ok &= i->v[j] >= -1 && i->v[j] < 2;
    if (ok) { ValueAndVariance<span<double>> out{span<double>(r, 4), span<double>(r + 4, 4)}; auto bins = span<long>(b.v, 2); el::map_to_bins_direct(out, bins, ValueAndVariance<span<const double>>{sp(d), sp(u)}, sp(i)); }
    for (int j = 0; j < 8; ++j) o->v[j] = r[j]; *c = b; }
  W ref(Arr<double, 8> *o, Arr<long, 2> *c, const Arr<double, 2> *d, const Arr<double, 2> *u, const Arr<long, 2> *i) {
    for (int j = 0; j < 8; ++j) o->v[j] = 0;
    long n0 = 0, n1 = 2; bool ok = true; for (int j = 0; j < 2; ++j) ok &= i->v[j] >= -1 && i->v[j] < 2;
    if (ok) {
      const bool a0 = i->v[0] == 0, a1 = i->v[0] == 1, b0 = i->v[1] == 0, b1 = i->v[1] == 1;
      for (int k = 0; k < 2; ++k) { const double *s = k ? u->v : d->v; double *t = o->v + 4 * k;
        if (a0) t[0] = s[0]; if (a1) t[2] = s[0];
        if (b0) { if (a0) t[1] = s[1]; else t[0] = s[1]; }
        if (b1) { if (a1) t[3] = s[1]; else t[2] = s[1]; } }
      n0 += a0 + b0; n1 += a1 + b1; }
    c->v[0] = n0; c->v[1] = n1; }
};
// the whole kernel, with the position of each bin given by a row of offsets
#define BIN(T, I) \
  struct P_bin_##T##_##I { \
    W impl(Arr<T, 4> *o, const Arr<T, 2> *d, const Arr<I, 2> *i) { \
      T r[4]{}; bool ok = true; for (int j = 0; j < 2; ++j) ok &= i->v[j] >= -1 && i->v[j] < 2; \
      scipp::core::SubbinSizes::container_type c(2); c[0] = 0; c[1] = 2; \
      const scipp::core::SubbinSizes offsets(0, std::move(c)); \
      if (ok) el::bin(span<T>(r, 4), offsets, sp(d), sp(i)); \
      for (int j = 0; j < 4; ++j) o->v[j] = r[j]; } \
    W ref(Arr<T, 4> *o, const Arr<T, 2> *d, const Arr<I, 2> *i) { \
      for (int j = 0; j < 4; ++j) o->v[j] = 0; \
      bool ok = true; for (int j = 0; j < 2; ++j) ok &= i->v[j] >= -1 && i->v[j] < 2; \
      if (ok) { \
        const bool a0 = i->v[0] == 0, a1 = i->v[0] == 1, b0 = i->v[1] == 0, b1 = i->v[1] == 1; \
        if (a0) o->v[0] = d->v[0]; if (a1) o->v[2] = d->v[0]; \
        if (b0) { if (a0) o->v[1] = d->v[1]; else o->v[0] = d->v[1]; } \
        if (b1) { if (a1) o->v[3] = d->v[1]; else o->v[2] = d->v[1]; } } } };
BIN(double, lng) BIN(float, int) BIN(lng, int)
}
