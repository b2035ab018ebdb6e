// Views of strided data: which element of the buffer is visited, at constant extents and symbolic labels, strides and offsets.
#include "d_common.h"
#include "core/sizes.cpp"
#include "core/dimensions.cpp"
#include "core/strides.cpp"
#include "core/slice.cpp"
#include "core/except.cpp"
#include "core/view_index.cpp"
#include "scipp/core/element_array_view.h"
#include "core/element_array_view.cpp"
namespace wit {
using namespace scipp::core;
using View = ElementArrayView<const idx>;
using O8 = Arr<idx, 8>;
inline Strides str(const I3 *t, int n) { Strides r; r.resize(n); for (int i = 0; i < n; ++i) r[i] = t->v[i]; return r; }
template <int A, int B> Dimensions box() { Dimensions d; d.addInner(dim(3), A); d.addInner(dim(5), B); return d; }
// ---- visiting
template <int A, int B> struct P_view_forward {
  W impl(O8 *o, const idx *b, const idx *off, const I3 *t) { View v(b, *off, box<A, B>(), str(t, 2)); int i = 0; for (auto it = v.begin(); it != v.end(); ++it) o->v[i++] = &*it - b; o->v[7] = v.size(); }
  W ref(O8 *o, const idx *, const idx *off, const I3 *t) { int k = 0; for (int i = 0; i < A; ++i) for (int j = 0; j < B; ++j) o->v[k++] = *off + i * t->v[0] + j * t->v[1]; o->v[7] = A * B; }
};
template <int A, int B> struct P_view_at {
  W impl(O8 *o, const idx *b, const idx *off, const I3 *t) { View v(b, *off, box<A, B>(), str(t, 2)); for (int i = 0; i < A * B; ++i) o->v[i] = &v[i] - b; o->v[6] = &v.front() - b; o->v[7] = &v.back() - b; }
  W ref(O8 *o, const idx *, const idx *off, const I3 *t) { int k = 0; for (int i = 0; i < A; ++i) for (int j = 0; j < B; ++j) o->v[k++] = *off + i * t->v[0] + j * t->v[1]; o->v[6] = *off; o->v[7] = *off + (A - 1) * t->v[0] + (B - 1) * t->v[1]; }
};
template <int A, int B> struct P_view_backward {
  W impl(O8 *o, const idx *b, const idx *off, const I3 *t) { View v(b, *off, box<A, B>(), str(t, 2)); auto it = v.end(); for (int i = A * B - 1; i >= 0; --i) { --it; o->v[i] = &*it - b; } o->v[7] = it == v.begin(); }
  W ref(O8 *o, const idx *, const idx *off, const I3 *t) { int k = 0; for (int i = 0; i < A; ++i) for (int j = 0; j < B; ++j) o->v[k++] = *off + i * t->v[0] + j * t->v[1]; o->v[7] = 1; }
};
template <int A, int B> struct P_view_jump {
  W impl(O8 *o, const idx *b, const idx *off, const I3 *t) { View v(b, *off, box<A, B>(), str(t, 2)); auto it = v.begin(); o->v[7] = v.end() - it; it += A * B - 1; o->v[0] = &*it - b; o->v[6] = it - v.begin(); it -= A * B - 2; o->v[1] = &*it - b; o->v[2] = v.begin() + A * B == v.end(); it -= 1; o->v[3] = it == v.begin(); }
  W ref(O8 *o, const idx *, const idx *off, const I3 *t) { o->v[7] = A * B; o->v[0] = *off + (A - 1) * t->v[0] + (B - 1) * t->v[1]; o->v[6] = A * B - 1; o->v[1] = *off + (1 / B) * t->v[0] + (1 % B) * t->v[1]; o->v[2] = 1; o->v[3] = 1; }
};
template <int A, int B> struct P_view_data {
  W impl(O8 *o, const idx *b, const idx *off, const I3 *t) { View v(b, *off, box<A, B>(), str(t, 2)); o->v[0] = v.data() - b; o->v[1] = v.offset(); o->v[2] = v.strides()[0]; o->v[3] = v.strides()[1]; o->v[4] = v.buffer() - b; o->v[5] = v.dims() == box<A, B>(); }
  W ref(O8 *o, const idx *, const idx *off, const I3 *t) { o->v[0] = o->v[1] = *off; o->v[2] = t->v[0]; o->v[3] = t->v[1]; o->v[4] = 0; o->v[5] = 1; }
};
template <int A, int B> struct P_view_span { // only of contiguous data
  W impl(O8 *o, const idx *b, const idx *off, const I3 *t) { View v(b, *off, box<A, B>(), str(t, 2)); const auto s = v.as_span(); o->v[0] = s.data() - b; o->v[1] = (idx)s.size(); }
  W ref(O8 *o, const idx *, const idx *off, const I3 *t) { if (t->v[0] != B || t->v[1] != 1) throw 1; o->v[0] = *off; o->v[1] = A * B; }
};
template <int A, int B> struct P_view_span_const {
  W impl(O8 *o, const idx *b, const idx *off, const I3 *t) { const View v(b, *off, box<A, B>(), str(t, 2)); const auto s = v.as_span(); o->v[0] = s.data() - b; o->v[1] = (idx)s.size(); o->v[2] = v.data() - b; }
  W ref(O8 *o, const idx *, const idx *off, const I3 *t) { if (t->v[0] != B || t->v[1] != 1) throw 1; o->v[0] = o->v[2] = *off; o->v[1] = A * B; }
};
template <int A> struct P_view_span_binned { // never of bins
  W impl(O8 *o, const idx *b, const std::pair<idx, idx> *ind) { const View v(b, 0, Dimensions(dim(3), A), Strides{1}, BucketParams{dim(7), Dimensions(dim(7), 10), Strides{1}, ind}); o->v[0] = v.as_span().size(); }
  W ref(O8 *, const idx *, const std::pair<idx, idx> *) { throw 1; }
};
template <int A, int B> struct P_view_equal {
  W impl(idx *o, const Arr<idx, 4> *x, const Arr<idx, 4> *y) { View v(x->v, 0, box<A, B>(), Strides{B, 1}), w(y->v, 0, box<A, B>(), Strides{1, A}); *o = v == w; }
  W ref(idx *o, const Arr<idx, 4> *x, const Arr<idx, 4> *y) { idx r = 1; for (int i = 0; i < A; ++i) for (int j = 0; j < B; ++j) if (x->v[i * B + j] != y->v[i + j * A]) r = 0; *o = r; }
};
template <int N, int M> struct P_view_equal_dims { // other dimensions are never equal
  W impl(idx *o, const Arr<idx, 4> *b, const lab *l, const lab *m) { if (*l == 0 || *m == 0 || (*l == *m && N == M)) throw 1; View v(b->v, 0, Dimensions(dim(*l), N), Strides{1}), w(b->v, 0, Dimensions(dim(*m), M), Strides{1}); *o = v == w; }
  W ref(idx *o, const Arr<idx, 4> *, const lab *l, const lab *m) { if (*l == 0 || *m == 0 || (*l == *m && N == M)) throw 1; *o = 0; }
};
// ---- other dimensions for the same data
template <int N, int M> struct P_view_redim {
  W impl(O8 *o, const idx *b, const idx *off, const L3 *l, const I3 *s, const I3 *t, const L3 *m, const I3 *u) {
    View v(b, *off, mk<N>(l, s), str(t, N)); View w(v, mk<M>(m, u)); o->v[0] = w.offset(); for (int i = 0; i < M; ++i) o->v[1 + i] = w.strides()[i]; o->v[6] = w.strides().size(); o->v[7] = w.dims() == mk<M>(m, u); }
  W ref(O8 *o, const idx *, const idx *off, const L3 *l, const I3 *s, const I3 *t, const L3 *m, const I3 *u) {
    if (bad<N>(l->v, s->v) || bad<M>(m->v, u->v)) throw 1;
    for (int i = 0; i < M; ++i) { const int p = pos<N>(l->v, m->v[i]); if (p >= 0 && s->v[p] < u->v[i]) throw 1; }
    o->v[0] = *off; for (int i = 0; i < M; ++i) { const int p = pos<N>(l->v, m->v[i]); o->v[1 + i] = p < 0 ? 0 : t->v[p]; } o->v[6] = M; o->v[7] = 1; }
};
// ---- more dimensions than the indices have room for: refused, unless neighbours can be merged
template <int N, bool CONTIGUOUS> struct P_view_many {
  W impl(O8 *o, const idx *b, const idx *off) { Dimensions d; Strides s; s.resize(N); for (int k = 0; k < N; ++k) { d.addInner(dim(10 + k), k == N - 1 ? 3 : 1); s[k] = CONTIGUOUS ? (k == N - 1 ? 1 : 3) : (k == N - 1 ? 1 : 10 * (N - k)); } View v(b, *off, d, s); int n = 0; for (const auto &x : v) { if (n < 4) o->v[n] = x; ++n; } o->v[7] = n; }
  W ref(O8 *o, const idx *b, const idx *off) { if (!CONTIGUOUS && N > scipp::core::NDIM_OP_MAX) throw 1; for (int k = 0; k < 3; ++k) o->v[k] = b[*off + k]; o->v[7] = 3; }
};
// ---- sharing of memory: views of the same buffer that share an element are recognised, unless they are the same view; other buffers never
template <int A, int B> struct P_view_overlap {
  W impl(idx *o, const idx *b, const idx *off, const idx *off2, const idx *t, const idx *t2) {
    Dimensions d(dim(3), A), e(dim(3), B); Strides s, s2; s.resize(1); s[0] = *t; s2.resize(1); s2[0] = *t2;
    bool share = false; for (int i = 0; i < A; ++i) for (int j = 0; j < B; ++j) if (*off + i * *t == *off2 + j * *t2) share = true;
    const bool same = *off == *off2 && A == B && *t == *t2;
    if (!share || same) throw 1; View v(b, *off, d, s), w(b, *off2, e, s2); *o = v.overlaps(w); }
  W ref(idx *o, const idx *, const idx *off, const idx *off2, const idx *t, const idx *t2) {
    bool share = false; for (int i = 0; i < A; ++i) for (int j = 0; j < B; ++j) if (*off + i * *t == *off2 + j * *t2) share = true;
    const bool same = *off == *off2 && A == B && *t == *t2;
    if (!share || same) throw 1; *o = 1; }
};
template <int A, int B> struct P_view_overlap_plane { // two arrangements of the same elements
  W impl(idx *o, const idx *b, const idx *off, const idx *t, const idx *u, const idx *t2, const idx *u2) { Strides s, s2; s.resize(2); s[0] = *t; s[1] = *u; s2.resize(2); s2[0] = *t2; s2[1] = *u2; View v(b, *off, box<A, B>(), s), w(b, *off, box<A, B>(), s2); *o = v.overlaps(w) + 2 * v.overlaps(v); }
  W ref(idx *o, const idx *, const idx *, const idx *t, const idx *u, const idx *t2, const idx *u2) { *o = *t != *t2 || *u != *u2; } // they share their first element
};
template <int A, int B> struct P_view_overlap_dims { // the same memory under other dimensions
  W impl(idx *o, const idx *b, const idx *off, const idx *t, const idx *u) { Strides s; s.resize(2); s[0] = *t; s[1] = *u; Dimensions d; d.addInner(dim(5), A); d.addInner(dim(3), B); View v(b, *off, box<A, B>(), s), w(b, *off, d, s); *o = v.overlaps(w); }
  W ref(idx *o, const idx *, const idx *, const idx *, const idx *) { *o = 1; }
};
template <int A> struct P_view_overlap_other {
  W impl(idx *o, const Arr<idx, 8> *b, const idx *t, const idx *t2) { Dimensions d(dim(3), A); Strides s, s2; s.resize(1); s[0] = *t; s2.resize(1); s2[0] = *t2; View v(b->v, 0, d, s), w(b->v + 4, 0, d, s2), z(nullptr, 0, d, s2); *o = v.overlaps(w) + 2 * z.overlaps(v) + 4 * v.overlaps(v); }
  W ref(idx *o, const Arr<idx, 8> *, const idx *, const idx *) { *o = 0; }
};
#define I template struct
I P_view_many<5, false>; I P_view_many<6, false>; I P_view_many<7, false>; I P_view_many<8, false>; I P_view_many<7, true>; I P_view_many<8, true>;
#define AB(X) I X<2, 2>; I X<2, 3>; I X<3, 2>; I X<1, 3>; I X<3, 1>;
AB(P_view_forward) AB(P_view_at) AB(P_view_backward) AB(P_view_jump) AB(P_view_data) AB(P_view_span) AB(P_view_span_const) I P_view_span_binned<1>; I P_view_span_binned<2>; I P_view_equal<1, 2>; I P_view_equal<2, 2>;
I P_view_forward<0, 2>; I P_view_forward<2, 0>;
#define NM(X) I X<0, 0>; I X<0, 1>; I X<1, 0>; I X<1, 1>; I X<1, 2>; I X<2, 1>; I X<2, 2>; I X<2, 3>; I X<3, 2>;
NM(P_view_redim) I P_view_equal_dims<1, 1>; I P_view_equal_dims<1, 2>; I P_view_equal_dims<2, 1>; I P_view_equal_dims<2, 2>;
I P_view_overlap<1, 1>; I P_view_overlap<1, 2>; I P_view_overlap<2, 1>; I P_view_overlap<2, 2>; I P_view_overlap<3, 2>; I P_view_overlap_plane<2, 3>; I P_view_overlap_plane<1, 2>; I P_view_overlap_plane<3, 2>; I P_view_overlap_dims<2, 3>; I P_view_overlap_dims<3, 3>; I P_view_overlap_other<1>; I P_view_overlap_other<2>;
}
