// Iteration over binned operands: every event of every bin once, in order, paired with the matching element of the other operand.
// Extents and bin sizes are constant per instance; begins of bins, strides of dense operands and the tables of bins are symbolic.
#include "d_common.h"
#include "core/sizes.cpp"
#include "core/dimensions.cpp"
#include "core/strides.cpp"
#include "core/slice.cpp"
#include "core/except.cpp"
#include "core/view_index.cpp"
#include "core/multi_index.cpp"
#include "scipp/core/element_array_view.h"
#include "core/element_array_view.cpp"
namespace wit {
using namespace scipp::core;
using Rng = std::pair<idx, idx>; using I6 = Arr<idx, 6>; using O32 = Arr<idx, 32>;
template <int... S> struct Bins { // sizes of the bins, in the order of the table
  static constexpr int n = sizeof...(S); static constexpr idx size[n] = {S...};
  static constexpr idx total = (S + ... + 0);
  Rng table[n];
  explicit Bins(const I6 *b) { for (int k = 0; k < n && k < 6; ++k) table[k] = {b->v[k], b->v[k] + size[k]}; }
};
inline Strides strides2(idx a, idx b) { Strides s; s.resize(2); s[0] = a; s[1] = b; return s; }
inline Strides strides1(idx a) { Strides s; s.resize(1); s[0] = a; return s; }
inline BucketParams events(const Rng *r) { return BucketParams{Dim(dim(7)), Dimensions(dim(7), 1000), strides1(1), r}; }
template <class It, class End> void walk(O32 *o, It it, const End &end) { int n = 0; for (; n < 14 && it != end; it.increment()) { o->v[2 * n] = it.get()[0]; o->v[2 * n + 1] = it.get()[1]; ++n; } o->v[30] = n; }
// ---- one dimension of bins: binned x binned, binned x dense, dense x binned, binned x broadcast
template <class B> struct P_walk_binned {
  W impl(O32 *o, const I6 *b, const I6 *c) { B p(b), q(c); Dimensions d(dim(3), B::n); MultiIndex<2> m(ElementArrayViewParams(0, d, strides1(1), events(p.table)), ElementArrayViewParams(0, d, strides1(1), events(q.table))); walk(o, m.begin(), m.end()); }
  W ref(O32 *o, const I6 *b, const I6 *c) { int n = 0; for (int k = 0; k < B::n; ++k) for (int e = 0; e < B::size[k]; ++e) { o->v[2 * n] = b->v[k] + e; o->v[2 * n + 1] = c->v[k] + e; ++n; } o->v[30] = n; }
};
template <class B> struct P_walk_dense { // the dense operand has one element per bin
  W impl(O32 *o, const I6 *b, const idx *t) { B p(b); Dimensions d(dim(3), B::n); MultiIndex<2> m(ElementArrayViewParams(0, d, strides1(1), events(p.table)), ElementArrayViewParams(0, d, strides1(*t), BucketParams{})); walk(o, m.begin(), m.end()); o->v[31] = m == m.begin() && (B::total == 0 || m.get() == m.begin().get()); }
  W ref(O32 *o, const I6 *b, const idx *t) { int n = 0; for (int k = 0; k < B::n; ++k) for (int e = 0; e < B::size[k]; ++e) { o->v[2 * n] = b->v[k] + e; o->v[2 * n + 1] = k * *t; ++n; } o->v[30] = n; o->v[31] = 1; }
};
template <class B> struct P_walk_dense_first {
  W impl(O32 *o, const I6 *b, const idx *t) { B p(b); Dimensions d(dim(3), B::n); MultiIndex<2> m(ElementArrayViewParams(0, d, strides1(*t), BucketParams{}), ElementArrayViewParams(0, d, strides1(1), events(p.table))); walk(o, m.begin(), m.end()); }
  W ref(O32 *o, const I6 *b, const idx *t) { int n = 0; for (int k = 0; k < B::n; ++k) for (int e = 0; e < B::size[k]; ++e) { o->v[2 * n] = k * *t; o->v[2 * n + 1] = b->v[k] + e; ++n; } o->v[30] = n; }
};
// ---- three operands: events, weights per bin, events
template <class B> struct P_walk_three {
  W impl(O32 *o, const I6 *b, const idx *t, const I6 *c) { B p(b), q(c); Dimensions d(dim(3), B::n); MultiIndex<3> m(ElementArrayViewParams(0, d, strides1(1), events(p.table)), ElementArrayViewParams(0, d, strides1(*t), BucketParams{}), ElementArrayViewParams(0, d, strides1(1), events(q.table)));
    int n = 0; const auto end = m.end(); for (auto it = m.begin(); n < 10 && it != end; it.increment()) { for (int k = 0; k < 3; ++k) o->v[3 * n + k] = it.get()[k]; ++n; } o->v[30] = n; }
  W ref(O32 *o, const I6 *b, const idx *t, const I6 *c) { int n = 0; for (int k = 0; k < B::n; ++k) for (int e = 0; e < B::size[k]; ++e) { o->v[3 * n] = b->v[k] + e; o->v[3 * n + 1] = k * *t; o->v[3 * n + 2] = c->v[k] + e; ++n; } o->v[30] = n; }
};
// ---- a single bin without outer dimensions
template <int S> struct P_walk_scalar {
  W impl(O32 *o, const I6 *b) { Bins<S> p(b); MultiIndex<2> m(ElementArrayViewParams(0, Dimensions{}, Strides{}, events(p.table)), ElementArrayViewParams(0, Dimensions{}, Strides{}, BucketParams{})); walk(o, m.begin(), m.end()); }
  W ref(O32 *o, const I6 *b) { for (int e = 0; e < S; ++e) { o->v[2 * e] = b->v[0] + e; o->v[2 * e + 1] = 0; } o->v[30] = S; }
};
// ---- two dimensions of bins, in storage order (T=0) or transposed (T=1)
template <class B, int R, int T> struct P_walk_plane {
  static constexpr int C = B::n / R;
  W impl(O32 *o, const I6 *b, const idx *t, const idx *u) { B p(b); Dimensions d; d.addInner(dim(3), R); d.addInner(dim(5), C); MultiIndex<2> m(ElementArrayViewParams(0, d, T ? strides2(1, R) : strides2(C, 1), events(p.table)), ElementArrayViewParams(0, d, strides2(*t, *u), BucketParams{})); walk(o, m.begin(), m.end()); }
  W ref(O32 *o, const I6 *b, const idx *t, const idx *u) { int n = 0; for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) { const int k = T ? j * R + i : i * C + j; for (int e = 0; e < B::size[k]; ++e) { o->v[2 * n] = b->v[k] + e; o->v[2 * n + 1] = i * *t + j * *u; ++n; } } o->v[30] = n; }
};
// ---- two binned operands whose tables of bins are laid out differently: B in storage order, Q holds the same sizes transposed
template <class B, class Q, int R, int F> struct P_walk_layouts {
  static constexpr int C = B::n / R;
  W impl(O32 *o, const I6 *b, const I6 *c) { B p(b); Q q(c); Dimensions d; d.addInner(dim(3), R); d.addInner(dim(5), C); MultiIndex<2> m(ElementArrayViewParams(0, d, strides2(C, 1), events(p.table)), ElementArrayViewParams(0, d, strides2(1, R), events(q.table))); auto it = m; it.set_index(F); walk(o, it, m.end()); }
  W ref(O32 *o, const I6 *b, const I6 *c) { int n = 0; for (int k = F; k < B::n; ++k) for (int e = 0; e < B::size[k]; ++e) { o->v[2 * n] = b->v[k] + e; o->v[2 * n + 1] = c->v[k / C + k % C * R] + e; ++n; } o->v[30] = n; }
};
template <class B, int S, int N, int F> struct P_walk_strided { // every S-th bin of the table; the other operand repeats a single bin
  W impl(O32 *o, const I6 *b, const idx *c) { B p(b); Rng q[1] = {{*c, *c + B::size[0]}}; Dimensions d(dim(3), N); MultiIndex<2> m(ElementArrayViewParams(0, d, strides1(S), events(p.table)), ElementArrayViewParams(0, d, strides1(0), events(q))); auto it = m; it.set_index(F); walk(o, it, m.end()); }
  W ref(O32 *o, const I6 *b, const idx *c) { int n = 0; for (int k = F; k < N; ++k) for (int e = 0; e < B::size[k * S]; ++e) { o->v[2 * n] = b->v[k * S] + e; o->v[2 * n + 1] = *c + e; ++n; } o->v[30] = n; }
};
template <class B, int A, int C, int S0, int S1, int S2, int F> struct P_walk_block { // three dimensions of bins (the last of extent 2) in any order of the table
  W impl(O32 *o, const Arr<idx, 8> *b, const I3 *t) { Rng p[8]; for (int k = 0; k < 8; ++k) p[k] = {b->v[k], b->v[k] + B::size[k]}; Dimensions d; d.addInner(dim(3), A); d.addInner(dim(5), C); d.addInner(dim(9), 2); Strides s, r; s.resize(3); s[0] = S0; s[1] = S1; s[2] = S2; r.resize(3); for (int k = 0; k < 3; ++k) r[k] = t->v[k]; MultiIndex<2> m(ElementArrayViewParams(0, d, s, events(p)), ElementArrayViewParams(0, d, r, BucketParams{})); auto it = m; it.set_index(F); walk(o, it, m.end()); }
  W ref(O32 *o, const Arr<idx, 8> *b, const I3 *t) { int n = 0, f = 0; for (int i = 0; i < A; ++i) for (int j = 0; j < C; ++j) for (int h = 0; h < 2; ++h) { if (f++ < F) continue; const int k = i * S0 + j * S1 + h * S2; for (int e = 0; e < B::size[k]; ++e) { o->v[2 * n] = b->v[k] + e; o->v[2 * n + 1] = i * t->v[0] + j * t->v[1] + h * t->v[2]; ++n; } } o->v[30] = n; }
};
// ---- buffers of two dimensions: the bins cut the outer (D=0) or the inner (D=1) one
template <class B, int D, int M> struct P_walk_table {
  W impl(O32 *o, const I6 *b, const idx *t, const idx *u) { B p(b); Dimensions d(dim(3), B::n), e; if (D) e.addInner(dim(9), M); e.addInner(dim(7), 1000); if (!D) e.addInner(dim(9), M);
    MultiIndex<2> m(ElementArrayViewParams(0, d, strides1(1), BucketParams{Dim(dim(7)), e, strides2(*t, *u), p.table}), ElementArrayViewParams(0, d, strides1(1), BucketParams{})); walk(o, m.begin(), m.end()); }
  W ref(O32 *o, const I6 *b, const idx *t, const idx *u) { int n = 0; for (int k = 0; k < B::n; ++k) for (int i = 0; i < (D ? M : B::size[k]); ++i) for (int j = 0; j < (D ? B::size[k] : M); ++j) { o->v[2 * n] = D ? i * *t + (b->v[k] + j) * *u : (b->v[k] + i) * *t + j * *u; o->v[2 * n + 1] = k; ++n; } o->v[30] = n; }
};
// ---- starting at a given bin, as the blocks of a parallel loop do
template <class B, int F, int G> struct P_walk_from {
  W impl(O32 *o, const I6 *b, const idx *t) { B p(b); Dimensions d(dim(3), B::n); MultiIndex<2> m(ElementArrayViewParams(0, d, strides1(1), events(p.table)), ElementArrayViewParams(0, d, strides1(*t), BucketParams{})); auto it = m, end = m; it.set_index(F); end.set_index(G); walk(o, it, end); }
  W ref(O32 *o, const I6 *b, const idx *t) { int n = 0; for (int k = F; k < G; ++k) for (int e = 0; e < B::size[k]; ++e) { o->v[2 * n] = b->v[k] + e; o->v[2 * n + 1] = k * *t; ++n; } o->v[30] = n; }
};
template <class B, int R, int F, int G> struct P_walk_plane_from {
  static constexpr int C = B::n / R;
  W impl(O32 *o, const I6 *b, const idx *t, const idx *u) { B p(b); Dimensions d; d.addInner(dim(3), R); d.addInner(dim(5), C); MultiIndex<2> m(ElementArrayViewParams(0, d, strides2(C, 1), events(p.table)), ElementArrayViewParams(0, d, strides2(*t, *u), BucketParams{})); auto it = m, end = m; it.set_index(F); end.set_index(G); walk(o, it, end); }
  W ref(O32 *o, const I6 *b, const idx *t, const idx *u) { int n = 0; for (int k = F; k < G; ++k) for (int e = 0; e < B::size[k]; ++e) { o->v[2 * n] = b->v[k] + e; o->v[2 * n + 1] = (k / C) * *t + (k % C) * *u; ++n; } o->v[30] = n; }
};
template <int A, int B, int C, int F, int G> struct P_walk_cube_from {
  W impl(O32 *o, const I3 *t, const I3 *u) { Dimensions d; d.addInner(dim(3), A); d.addInner(dim(5), B); d.addInner(dim(7), C); Strides s, r; s.resize(3); r.resize(3); for (int k = 0; k < 3; ++k) { s[k] = t->v[k]; r[k] = u->v[k]; } MultiIndex<2> m(d, s, r); auto it = m, end = m; it.set_index(F); end.set_index(G); walk(o, it, end); }
  W ref(O32 *o, const I3 *t, const I3 *u) { for (int f = F; f < G; ++f) { const int n = f - F, k = f % C, j = f / C % B, i = f / C / B; o->v[2 * n] = i * t->v[0] + j * t->v[1] + k * t->v[2]; o->v[2 * n + 1] = i * u->v[0] + j * u->v[1] + k * u->v[2]; } o->v[30] = G - F; }
};
// the whole in two parts equals the whole: dispatching in runs along the innermost dimension, as the transform loop does
template <class B> struct P_walk_runs {
  W impl(O32 *o, const I6 *b, const idx *t) { B p(b); Dimensions d(dim(3), B::n); MultiIndex<2> m(ElementArrayViewParams(0, d, strides1(1), events(p.table)), ElementArrayViewParams(0, d, strides1(*t), BucketParams{})); auto it = m, end = m; it.set_index(0); end.set_index(B::n); int n = 0;
    for (int guard = 0; guard < 8 && it != end; ++guard) { const auto size = it.in_same_chunk(end, 1) ? it.inner_distance_to(end) : it.inner_distance_to_end(); for (idx e = 0; e < size; ++e) { o->v[2 * n] = it.get()[0] + e * it.inner_strides()[0]; o->v[2 * n + 1] = it.get()[1] + e * it.inner_strides()[1]; ++n; } it.increment_by(size != 0 ? size : 1); } o->v[30] = n; }
  W ref(O32 *o, const I6 *b, const idx *t) { int n = 0; for (int k = 0; k < B::n; ++k) for (int e = 0; e < B::size[k]; ++e) { o->v[2 * n] = b->v[k] + e; o->v[2 * n + 1] = k * *t; ++n; } o->v[30] = n; }
};
// ---- operands whose bins differ in size are refused; equal sizes are accepted wherever the events lie
template <class B> struct P_bins_match {
  W impl(idx *o, const I6 *b, const I6 *c, const I6 *e) { B p(b); Rng q[B::n]; for (int k = 0; k < B::n; ++k) q[k] = {c->v[k], e->v[k]}; Dimensions d(dim(3), B::n); MultiIndex<2> m(ElementArrayViewParams(0, d, strides1(1), events(p.table)), ElementArrayViewParams(0, d, strides1(1), events(q))); *o = m.begin() != m.end(); }
  W ref(idx *o, const I6 *, const I6 *c, const I6 *e) { for (int k = 0; k < B::n; ++k) if (e->v[k] - c->v[k] != B::size[k]) throw 1; *o = B::total != 0; }
};
template <class B> struct P_bins_match_third { // also if a dense operand stands between them
  W impl(idx *o, const I6 *b, const I6 *c, const I6 *e) { B p(b); Rng q[B::n]; for (int k = 0; k < B::n; ++k) q[k] = {c->v[k], e->v[k]}; Dimensions d(dim(3), B::n); const ElementArrayViewParams dense(0, d, strides1(1), BucketParams{}); MultiIndex<4> m(dense, ElementArrayViewParams(0, d, strides1(1), events(p.table)), dense, ElementArrayViewParams(0, d, strides1(1), events(q))); *o = m.begin() != m.end(); }
  W ref(idx *o, const I6 *, const I6 *c, const I6 *e) { for (int k = 0; k < B::n; ++k) if (e->v[k] - c->v[k] != B::size[k]) throw 1; *o = B::total != 0; }
};
// ---- dense operands of constant extent and symbolic strides: each position once, the last dimension fastest
template <int A, int B, int C> struct P_walk_cube {
  W impl(O32 *o, const I3 *t, const I3 *u) { Dimensions d; d.addInner(dim(3), A); d.addInner(dim(5), B); d.addInner(dim(7), C); Strides s, r; s.resize(3); r.resize(3); for (int k = 0; k < 3; ++k) { s[k] = t->v[k]; r[k] = u->v[k]; } MultiIndex<2> m(d, s, r); walk(o, m.begin(), m.end()); }
  W ref(O32 *o, const I3 *t, const I3 *u) { int n = 0; for (int i = 0; i < A; ++i) for (int j = 0; j < B; ++j) for (int k = 0; k < C; ++k) { o->v[2 * n] = i * t->v[0] + j * t->v[1] + k * t->v[2]; o->v[2 * n + 1] = i * u->v[0] + j * u->v[1] + k * u->v[2]; ++n; } o->v[30] = n; }
};
// ---- more dimensions than the index has room for: refused, unless neighbours can be merged
template <int N, bool CONTIGUOUS> struct P_multi_many {
  W impl(O32 *o, const idx *t) { Dimensions d; Strides s; s.resize(N); for (int k = 0; k < N; ++k) { d.addInner(dim(10 + k), k == N - 1 ? 3 : 1); s[k] = CONTIGUOUS ? (k == N - 1 ? 1 : 3) : (k == N - 1 ? 1 : 10 * (N - k)); } MultiIndex<1> m(d, s); m.set_index(*t > 1 ? 2 : *t == 1 ? 1 : 0); o->v[0] = m.get()[0]; }
  W ref(O32 *o, const idx *t) { if (!CONTIGUOUS && N > scipp::core::NDIM_OP_MAX) throw 1; o->v[0] = *t > 1 ? 2 : *t == 1 ? 1 : 0; }
};
#define I template struct
I P_multi_many<5, false>; I P_multi_many<6, false>; I P_multi_many<7, false>; I P_multi_many<8, false>; I P_multi_many<7, true>; I P_multi_many<8, true>;
#define BINS(P) I P<Bins<2, 1>>; I P<Bins<0, 2>>; I P<Bins<2, 0>>; I P<Bins<1, 0, 2>>; I P<Bins<0, 0, 3>>; I P<Bins<2, 0, 0, 1>>; I P<Bins<0, 0>>; I P<Bins<3>>;
BINS(P_walk_binned) BINS(P_walk_dense) BINS(P_walk_dense_first) BINS(P_walk_three)
I P_walk_scalar<0>; I P_walk_scalar<1>; I P_walk_scalar<3>;
#define PL(...) I P_walk_plane<Bins<__VA_ARGS__>, 2, 0>; I P_walk_plane<Bins<__VA_ARGS__>, 2, 1>;
PL(1, 2, 1, 1) PL(0, 1, 0, 2) PL(0, 0, 2, 0) PL(1, 0, 0, 0, 0, 2) PL(0, 0, 0, 0)
I P_walk_layouts<Bins<1, 2, 0, 1>, Bins<1, 0, 2, 1>, 2, 0>; I P_walk_layouts<Bins<1, 2, 0, 1>, Bins<1, 0, 2, 1>, 2, 1>; I P_walk_layouts<Bins<0, 1, 2, 1>, Bins<0, 2, 1, 1>, 2, 0>; I P_walk_layouts<Bins<2, 1, 0, 1, 1, 1>, Bins<2, 1, 1, 1, 0, 1>, 2, 0>; I P_walk_layouts<Bins<2, 1, 0, 1, 1, 1>, Bins<2, 1, 1, 1, 0, 1>, 2, 4>; I P_walk_layouts<Bins<1, 2, 1, 1, 0, 2>, Bins<1, 1, 0, 2, 1, 2>, 3, 0>;
I P_walk_strided<Bins<2, 0, 2>, 2, 2, 0>; I P_walk_strided<Bins<1, 3, 1, 2, 1>, 2, 3, 0>; I P_walk_strided<Bins<1, 3, 1, 2, 1>, 2, 3, 1>; I P_walk_strided<Bins<2, 2, 2>, 1, 3, 0>;
using E1 = Bins<1, 1, 1, 1, 1, 1, 1, 1>; using E2 = Bins<0, 2, 0, 1, 0, 0, 3, 0>; using E3 = Bins<1, 0, 0, 2, 0, 1, 0, 2>;
#define BL(E) I P_walk_block<E, 2, 2, 4, 2, 1, 0>; I P_walk_block<E, 2, 2, 1, 4, 2, 0>; I P_walk_block<E, 2, 2, 2, 1, 4, 3>; I P_walk_block<E, 2, 2, 1, 2, 4, 0>; I P_walk_block<E, 1, 2, 0, 1, 4, 0>; I P_walk_block<E, 2, 1, 2, 7, 3, 1>; I P_walk_block<E, 2, 2, 4, 1, 2, 5>;
BL(E1) BL(E2) BL(E3)
#define TB(...) I P_walk_table<Bins<__VA_ARGS__>, 0, 2>; I P_walk_table<Bins<__VA_ARGS__>, 1, 2>;
TB(1, 2) TB(0, 2) TB(2, 0, 1) TB(0, 0)
#define FROM(F, G, ...) I P_walk_from<Bins<__VA_ARGS__>, F, G>;
FROM(0, 1, 2, 1) FROM(1, 2, 2, 1) FROM(0, 2, 1, 0, 2) FROM(1, 3, 1, 0, 2) FROM(1, 2, 1, 0, 2) FROM(0, 1, 0, 0, 2) FROM(2, 3, 0, 0, 2) FROM(0, 2, 2, 0, 0) FROM(1, 3, 2, 0, 0) FROM(3, 4, 1, 1, 1, 1)
#define PFROM(F, G, ...) I P_walk_plane_from<Bins<__VA_ARGS__>, 2, F, G>;
PFROM(0, 2, 1, 2, 1, 1) PFROM(1, 3, 1, 2, 1, 1) PFROM(2, 4, 0, 1, 0, 2) PFROM(1, 4, 1, 0, 0, 2) PFROM(1, 2, 1, 1, 1, 1) PFROM(2, 6, 1, 0, 0, 0, 0, 2)
I P_walk_cube_from<2, 2, 2, 0, 3>; I P_walk_cube_from<2, 2, 2, 3, 8>; I P_walk_cube_from<1, 2, 3, 1, 5>; I P_walk_cube_from<2, 3, 1, 2, 5>; I P_walk_cube_from<2, 2, 2, 4, 4>; I P_walk_cube_from<3, 1, 2, 1, 6>;
BINS(P_walk_runs)
I P_bins_match<Bins<2>>; I P_bins_match<Bins<1, 2>>; I P_bins_match<Bins<0, 2>>; I P_bins_match_third<Bins<1, 2>>; I P_bins_match_third<Bins<2>>;
I P_walk_cube<2, 2, 2>; I P_walk_cube<3, 1, 2>; I P_walk_cube<1, 2, 3>; I P_walk_cube<2, 3, 1>; I P_walk_cube<1, 1, 1>;
} // namespace wit
