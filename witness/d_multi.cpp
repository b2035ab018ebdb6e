// Steps of the multi-dimensional indices from an arbitrary position, for symbolic shape, strides and position.
#define WITNESS_STATE
#include "d_common.h"
#include "core/sizes.cpp"
#include "core/dimensions.cpp"
#include "core/strides.cpp"
#include "core/view_index.cpp"
#include "core/multi_index.cpp"
#include "core/slice.cpp"
#include "core/except.cpp"
namespace wit {
using namespace scipp::core; using scipp::core::MultiIndex;
template <int N> idx dot(const idx *a, const idx *b) { idx r = 0; for (int i = 0; i < N; ++i) r += a[i] * b[i]; return r; }
template <int N> bool positive(const idx *s) { for (int i = 0; i < N; ++i) if (s[i] <= 0) return false; return true; }
template <int N> Dimensions plain(const idx *s) { if (!positive<N>(s)) throw 1; Dimensions d; for (int k = 0; k < N; ++k) d.addInner(dim(100 + k), s[k]); return d; }
inline Strides str(const idx *t, int n) { return Strides(scipp::span<const idx>(t, n)); }
// successor in a shape whose first dimension is fastest; the last dimension takes the overflow
inline void next(idx *c, const idx *shape, idx n) { bool carry = true; for (idx k = 0; k < n; ++k) { if (!carry) continue; c[k] += 1; carry = c[k] == shape[k] && k + 1 < n; if (carry) c[k] = 0; } }
template <int N> struct P_view_index_step {
  static ViewIndex at(const I3 *s, const I3 *t, const I3 *c) {
    ViewIndex v(plain<N>(s->v), str(t->v, N)); v.m_memory_index = 0;
    for (idx k = 0; k < v.m_ndim; ++k) { if (c->v[k] < 0 || c->v[k] >= v.m_shape[k]) throw 1; v.m_coord[k] = c->v[k]; v.m_memory_index += c->v[k] * v.m_strides[k]; }
    if (c->v[v.m_ndim - 1] == v.m_shape[v.m_ndim - 1] - 1) throw 1; // a last slab: no carry out of the outermost dimension
    return v; }
  W impl(Arr<idx, 5> *o, const I3 *s, const I3 *t, const I3 *c) { auto v = at(s, t, c); v.increment(); o->v[0] = v.get(); o->v[1] = v.index(); for (idx k = 0; k < 3; ++k) o->v[2 + k] = v.m_coord[k]; }
  W ref(Arr<idx, 5> *o, const I3 *s, const I3 *t, const I3 *c) { auto v = at(s, t, c); idx d[3] = {0, 0, 0}; for (idx k = 0; k < v.m_ndim; ++k) d[k] = c->v[k]; next(d, v.m_shape.data(), v.m_ndim); idx m = 0; for (idx k = 0; k < v.m_ndim; ++k) m += d[k] * v.m_strides[k]; o->v[0] = m; o->v[1] = 1; for (idx k = 0; k < 3; ++k) o->v[2 + k] = d[k]; }
};
using M2 = MultiIndex<2>;
template <int N> M2 state(const I3 *s, const I3 *t, const I3 *u, const I3 *c) { // an index standing at coordinate c of a dense iteration of N dimensions
  M2 m{Dimensions{}, Strides{}, Strides{}}; m.m_ndim = m.m_inner_ndim = N;
  m.m_data_index = {0, 0};
  for (int k = 0; k < N; ++k) {
    if (s->v[k] <= 0 || c->v[k] < 0 || c->v[k] >= s->v[k]) throw 1;
    m.m_shape[k] = s->v[k]; m.m_coord[k] = c->v[k]; m.m_stride[k] = {t->v[k], u->v[k]};
    m.m_data_index[0] += c->v[k] * t->v[k]; m.m_data_index[1] += c->v[k] * u->v[k]; }
  return m; }
inline void show(Arr<idx, 6> *o, const M2 &m) { o->v[0] = m.get()[0]; o->v[1] = m.get()[1]; for (int k = 0; k < 4; ++k) o->v[2 + k] = m.m_coord[k]; }
template <int N> void expected(Arr<idx, 6> *o, const idx *d, const I3 *t, const I3 *u) { o->v[0] = dot<N>(d, t->v); o->v[1] = dot<N>(d, u->v); for (int k = 0; k < 4; ++k) o->v[2 + k] = k < N ? d[k] : 0; }
template <int N> struct P_multi_index_step {
  W impl(Arr<idx, 6> *o, const I3 *s, const I3 *t, const I3 *u, const I3 *c) { auto m = state<N>(s, t, u, c); m.increment(); show(o, m); }
  W ref(Arr<idx, 6> *o, const I3 *s, const I3 *t, const I3 *u, const I3 *c) { state<N>(s, t, u, c); idx d[4]; for (int k = 0; k < N; ++k) d[k] = c->v[k]; next(d, s->v, N); expected<N>(o, d, t, u); }
};
template <int N> struct P_multi_index_step_by { // k steps within the innermost dimension
  W impl(Arr<idx, 6> *o, const I3 *s, const I3 *t, const I3 *u, const I3 *c, const idx *n) { auto m = state<N>(s, t, u, c); if (*n < 1 || *n > m.inner_distance_to_end()) throw 1; m.increment_by(*n); show(o, m); }
  W ref(Arr<idx, 6> *o, const I3 *s, const I3 *t, const I3 *u, const I3 *c, const idx *n) { state<N>(s, t, u, c); if (*n < 1 || *n > s->v[0] - c->v[0]) throw 1; idx d[4]; for (int k = 0; k < N; ++k) d[k] = c->v[k]; d[0] += *n - 1; next(d, s->v, N); expected<N>(o, d, t, u); }
};
template <int N> struct P_multi_index_end { // one past the last element
  W impl(Arr<idx, 6> *o, const I3 *s, const I3 *t, const I3 *u, const I3 *c) { auto m = state<N>(s, t, u, c); m.set_to_end(); show(o, m); }
  W ref(Arr<idx, 6> *o, const I3 *s, const I3 *t, const I3 *u, const I3 *c) { state<N>(s, t, u, c); idx d[4] = {0, 0, 0, 0}; if (N) d[N - 1] = s->v[N - 1]; expected<N>(o, d, t, u); if (!N) o->v[2] = 1; }
};
template <int N> struct P_multi_index_equal {
  W impl(Arr<idx, 2> *o, const I3 *s, const I3 *t, const I3 *u, const I3 *c, const I3 *d) { auto m = state<N>(s, t, u, c), q = state<N>(s, t, u, d); o->v[0] = m == q; o->v[1] = m != q; }
  W ref(Arr<idx, 2> *o, const I3 *s, const I3 *t, const I3 *u, const I3 *c, const I3 *d) { state<N>(s, t, u, c); state<N>(s, t, u, d); bool e = true; for (int k = 0; k < N; ++k) e = e && c->v[k] == d->v[k]; o->v[0] = e; o->v[1] = !e; }
};
template <int N> struct P_multi_index_chunk { // same position in all but the innermost dimension
  W impl(idx *o, const I3 *s, const I3 *t, const I3 *u, const I3 *c, const I3 *d) { auto m = state<N>(s, t, u, c), q = state<N>(s, t, u, d); *o = m.in_same_chunk(q, 1); }
  W ref(idx *o, const I3 *s, const I3 *t, const I3 *u, const I3 *c, const I3 *d) { state<N>(s, t, u, c); state<N>(s, t, u, d); bool e = true; for (int k = 1; k < N; ++k) e = e && c->v[k] == d->v[k]; *o = e; }
};
template <int N> struct P_multi_index_queries {
  W impl(Arr<idx, 3> *o, const I3 *s, const I3 *t, const I3 *u, const I3 *c, const I3 *d) {
    auto m = state<N>(s, t, u, c), q = state<N>(s, t, u, d);
    o->v[0] = m.inner_distance_to(q); o->v[1] = m.has_stride_zero(); o->v[2] = m.has_bins(); }
  W ref(Arr<idx, 3> *o, const I3 *s, const I3 *t, const I3 *u, const I3 *c, const I3 *d) {
    state<N>(s, t, u, c); state<N>(s, t, u, d);
    bool z = false; for (int k = 0; k < N; ++k) z = z || t->v[k] == 0;
    o->v[0] = d->v[0] - c->v[0]; o->v[1] = z; o->v[2] = 0; }
};
// ---- bins: N inner and B outer dimensions; D: position of the binned dimension among the inner ones
using Rng = std::pair<idx, idx>;
template <int N, int B, int D> struct P_load_bin {
  static M2 at(const I3 *s, const I3 *t, const I3 *u, const I3 *c, const Arr<idx, 8> *r) {
    M2 m{Dimensions{}, Strides{}, Strides{}}; m.m_inner_ndim = N; m.m_ndim = N + B; m.m_nested_dim_index = D; m.m_data_index = {-7, -7};
    for (int k = 0; k < N + B; ++k) { if (s->v[k] <= 0) throw 1; m.m_shape[k] = s->v[k]; m.m_stride[k] = {t->v[k], u->v[k]}; m.m_coord[k] = k < N ? 0 : c->v[k]; if (k >= N && (c->v[k] < 0 || c->v[k] >= s->v[k])) throw 1; }
    new (&m.m_bin[0]) typename M2::BinIterator(BucketParams{}, 1); new (&m.m_bin[1]) typename M2::BinIterator(BucketParams{}, 1);
    const_cast<bool &>(m.m_bin[0].m_is_binned) = true; m.m_bin[0].m_indices = reinterpret_cast<const Rng *>(r->v);
    return m; }
  W impl(Arr<idx, 6> *o, const I3 *s, const I3 *t, const I3 *u, const I3 *c, const Arr<idx, 8> *r, const idx *b) {
    if (*b < 0 || *b > 3) throw 1; auto m = at(s, t, u, c, r); m.m_bin[0].m_bin_index = *b; m.load_bin_params(0); m.load_bin_params(1); show(o, m); o->v[5] = m.m_shape[D]; }
  W ref(Arr<idx, 6> *o, const I3 *s, const I3 *t, const I3 *u, const I3 *c, const Arr<idx, 8> *r, const idx *b) { // binned operand: first event of the bin; dense operand: its element of the outer coordinate
    if (*b < 0 || *b > 3) throw 1; auto m = at(s, t, u, c, r); show(o, m); const Rng *q = reinterpret_cast<const Rng *>(r->v) + *b; o->v[0] = q->first * t->v[D]; o->v[1] = 0; for (int k = N; k < N + B; ++k) o->v[1] += c->v[k] * u->v[k]; o->v[5] = q->second - q->first; }
};
#define R(P) template struct P<1>; template struct P<2>; template struct P<3>;
#define R0(P) template struct P<0>; R(P)
R(P_view_index_step) R(P_multi_index_step) R(P_multi_index_step_by) R0(P_multi_index_end) R(P_multi_index_queries) R(P_multi_index_equal) R(P_multi_index_chunk)
template struct P_load_bin<1, 0, 0>; template struct P_load_bin<1, 1, 0>; template struct P_load_bin<1, 2, 0>; template struct P_load_bin<2, 1, 0>; template struct P_load_bin<2, 1, 1>;
} // namespace wit
