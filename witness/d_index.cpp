// Mapping of flat and multi-dimensional indices to memory, for symbolic sizes and strides at constant rank.
#include "d_common.h"
#include "core/sizes.cpp"
#include "core/dimensions.cpp"
#include "core/strides.cpp"
#include "core/view_index.cpp"
#include "core/multi_index.cpp"
#include "core/slice.cpp"
#include "core/except.cpp"
namespace wit {
using namespace scipp::core; using scipp::core::MultiIndex;
template <int N> idx dot(const idx *a, const idx *b) { idx r = 0; for (int i = 0; i < N; ++i) r += a[i] * b[i]; return r; }
template <int N> bool positive(const idx *s) { for (int i = 0; i < N; ++i) if (s[i] <= 0) return false; return true; }
// ---- helpers of index_composition.h
template <int N> struct P_flat_index {
  W impl(idx *o, const I3 *st, const I3 *c) { *o = scipp::flat_index_from_strides(st->v, st->v + N, c->v); }
  W ref(idx *o, const I3 *st, const I3 *c) { *o = dot<N>(st->v, c->v); }
};
template <int N> struct P_memory_bounds {
  W impl(Arr<idx, 2> *o, const I3 *s, const I3 *st) { const auto [b, e] = scipp::memory_bounds(s->v, s->v + N, st->v); o->v[0] = b; o->v[1] = e; }
  W ref(Arr<idx, 2> *o, const I3 *s, const I3 *st) {
    idx lo = 0, hi = 0; bool none = false;
    for (int i = 0; i < N; ++i) { none = none || s->v[i] == 0; const idx reach = (s->v[i] - 1) * st->v[i]; if (reach < 0) lo += reach; else hi += reach; }
    o->v[0] = none ? 0 : lo; o->v[1] = none ? 0 : hi + 1; }
};
template <int N> struct P_extract_indices { // column major: first index is fastest, the last one takes the rest
  W impl(I3 *o, const idx *i, const I3 *s) { idx c[4] = {0, 0, 0, 0}; scipp::extract_indices(*i, s->v, s->v + N, c); for (int k = 0; k < 4; ++k) o->v[k] = c[k]; }
  W ref(I3 *o, const idx *i, const I3 *s) { idx q = *i; for (int k = 0; k < 4; ++k) o->v[k] = 0; for (int k = 0; k + 1 < N; ++k) if (s->v[k] != 0) { o->v[k] = q % s->v[k]; q = q / s->v[k]; } o->v[N ? N - 1 : 0] = q; }
};
// composing the extracted indices gives back the flat index
template <int N> struct P_extract_roundtrip {
  W impl(idx *o, const idx *i, const I3 *s) { if (!positive<N>(s->v)) throw 1; idx c[4] = {0, 0, 0, 0}; scipp::extract_indices(*i, s->v, s->v + N, c); idx st[4], p = 1; for (int k = 0; k < N; ++k) { st[k] = p; p *= s->v[k]; } *o = scipp::flat_index_from_strides(st, st + N, c); }
  W ref(idx *o, const idx *i, const I3 *s) { if (!positive<N>(s->v)) throw 1; *o = *i; }
};
// ---- strides
template <int N> struct P_strides_of_dims { // row major: a step in dimension k skips all elements of the inner dimensions
  W impl(Arr<idx, 5> *o, const L3 *l, const I3 *s) { const Strides st(mk<N>(l, s)); o->v[4] = st.size(); for (int i = 0; i < N; ++i) o->v[i] = st[i]; for (int i = N; i < 4; ++i) o->v[i] = 0; }
  W ref(Arr<idx, 5> *o, const L3 *l, const I3 *s) { if (bad<N>(l->v, s->v)) throw 1; o->v[4] = N; for (int i = 0; i < 4; ++i) { idx p = 1; for (int k = i + 1; k < N; ++k) p *= s->v[k]; o->v[i] = i < N ? p : 0; } }
};
template <int N, int M> struct P_strides_transpose { // strides follow their label
  W impl(Arr<idx, 5> *o, const I3 *t, const L3 *l, const I3 *s, const L3 *m) {
    const auto d = mk<N>(l, s); for (int i = 0; i < N; ++i) if (t->v[i] < 0) throw 1; Dim order[4]; for (int i = 0; i < M; ++i) order[i] = dim(m->v[i]);
    const auto st = transpose(Strides(scipp::span<const idx>(t->v, N)), d, scipp::span<const Dim>(order, M)); o->v[4] = st.size(); for (int i = 0; i < N; ++i) o->v[i] = st[i]; for (int i = N; i < 4; ++i) o->v[i] = 0; }
  W ref(Arr<idx, 5> *o, const I3 *t, const L3 *l, const I3 *s, const L3 *m) {
    if (bad<N>(l->v, s->v)) throw 1; for (int i = 0; i < N; ++i) if (t->v[i] < 0) throw 1;
    if (M != 0 && N != M) throw 1;
    o->v[4] = N; for (int i = 0; i < 4; ++i) o->v[i] = 0;
    for (int i = 0; i < N; ++i) { if (M == 0) { o->v[i] = t->v[N - 1 - i]; continue; } const int k = pos<N>(l->v, m->v[i]); if (k < 0) throw 1; for (int j = 0; j < i; ++j) if (m->v[i] == m->v[j]) throw 1; o->v[i] = t->v[k]; } }
};
template <int N, int K> struct P_strides_edit { // a container: appended, removed and set at the given position
  W impl(Arr<idx, 10> *o, const I3 *t, const idx *x, const idx *y) { Strides s; s.resize(N); for (int i = 0; i < N; ++i) s[i] = t->v[i]; s.push_back(*x); s[K] = *y; int n = 0; for (const auto q : s) o->v[n++] = q; s.erase(K); for (const auto q : s) o->v[n++] = q; s.clear(); o->v[9] = 10 * n + s.size(); }
  W ref(Arr<idx, 10> *o, const I3 *t, const idx *x, const idx *y) { int n = 0; for (int i = 0; i <= N; ++i) o->v[n++] = i == K ? *y : i == N ? *x : t->v[i]; for (int i = 0; i <= N; ++i) if (i != K) o->v[n++] = i == N ? *x : t->v[i]; o->v[9] = 10 * n; }
};
struct P_strides_list {
  W impl(Arr<idx, 4> *o, const idx *x, const idx *y) { const Strides s{*x, *y}; o->v[0] = s[0]; o->v[1] = s[1]; o->v[2] = s.size(); Strides r; o->v[3] = r.size(); }
  W ref(Arr<idx, 4> *o, const idx *x, const idx *y) { o->v[0] = *x; o->v[1] = *y; o->v[2] = 2; o->v[3] = 0; }
};
template <int N, int M> struct P_strides_equal {
  W impl(Arr<idx, 2> *o, const I3 *a, const I3 *b) { const Strides x(scipp::span<const idx>(a->v, N)), y(scipp::span<const idx>(b->v, M)); o->v[0] = x == y; o->v[1] = x != y; }
  W ref(Arr<idx, 2> *o, const I3 *a, const I3 *b) { bool r = N == M; for (int i = 0; i < N && i < M; ++i) r = r && a->v[i] == b->v[i]; o->v[0] = r; o->v[1] = !r; }
};
// ---- element i of a strided view, row-major: last dimension is fastest
template <int N> idx element(idx i, const idx *shape, const idx *strides) { idx r = 0; for (int k = N - 1; k > 0; --k) { r += i % shape[k] * strides[k]; i = i / shape[k]; } return N ? r + i * strides[0] : 0; }
template <int N> Dimensions plain(const idx *s) { if (!positive<N>(s)) throw 1; Dimensions d; for (int k = 0; k < N; ++k) d.addInner(dim(100 + k), s[k]); return d; }
inline Strides str(const idx *t, int n) { return Strides(scipp::span<const idx>(t, n)); }
template <int N> struct P_view_index_set {
  W impl(Arr<idx, 2> *o, const I3 *s, const I3 *t, const idx *i) { if (N == 0 && *i != 0) throw 1; ViewIndex v(plain<N>(s->v), str(t->v, N)); v.set_index(*i); o->v[0] = v.get(); o->v[1] = v.index(); }
  W ref(Arr<idx, 2> *o, const I3 *s, const I3 *t, const idx *i) { if (N == 0 && *i != 0) throw 1; if (!positive<N>(s->v)) throw 1; o->v[0] = element<N>(*i, s->v, t->v); o->v[1] = *i; }
};
// ---- MultiIndex: the same for several operands with their own strides
template <int N> struct P_multi_index1_set {
  W impl(idx *o, const I3 *s, const I3 *t, const idx *i) { if (N == 0 && *i != 0) throw 1; MultiIndex<1> m(plain<N>(s->v), str(t->v, N)); m.set_index(*i); *o = m.get()[0]; }
  W ref(idx *o, const I3 *s, const I3 *t, const idx *i) { if (N == 0 && *i != 0) throw 1; if (!positive<N>(s->v)) throw 1; *o = element<N>(*i, s->v, t->v); }
};
template <int N> struct P_multi_index2_set {
  W impl(Arr<idx, 2> *o, const I3 *s, const I3 *t, const I3 *u, const idx *i) { if (N == 0 && *i != 0) throw 1; MultiIndex<2> m(plain<N>(s->v), str(t->v, N), str(u->v, N)); m.set_index(*i); o->v[0] = m.get()[0]; o->v[1] = m.get()[1]; }
  W ref(Arr<idx, 2> *o, const I3 *s, const I3 *t, const I3 *u, const idx *i) { if (N == 0 && *i != 0) throw 1; if (!positive<N>(s->v)) throw 1; o->v[0] = element<N>(*i, s->v, t->v); o->v[1] = element<N>(*i, s->v, u->v); }
};
#define R(P) template struct P<1>; template struct P<2>; template struct P<3>;
#define R0(P) template struct P<0>; R(P)
R0(P_flat_index) R0(P_memory_bounds) R0(P_extract_indices) R(P_extract_roundtrip) R0(P_strides_of_dims)
template struct P_flat_index<4>; template struct P_memory_bounds<4>; template struct P_extract_indices<4>; template struct P_extract_roundtrip<4>; template struct P_strides_of_dims<4>;
template struct P_strides_transpose<1, 1>; template struct P_strides_transpose<2, 2>; template struct P_strides_transpose<3, 3>; template struct P_strides_transpose<2, 0>; template struct P_strides_transpose<2, 1>;
template struct P_strides_equal<0, 0>; template struct P_strides_equal<1, 2>; template struct P_strides_equal<2, 2>; template struct P_strides_equal<3, 3>;
template struct P_strides_edit<0, 0>; template struct P_strides_edit<2, 0>; template struct P_strides_edit<2, 1>; template struct P_strides_edit<2, 2>; template struct P_strides_edit<3, 1>;
R0(P_view_index_set) R0(P_multi_index1_set) R0(P_multi_index2_set)
} // namespace wit
