// Dimension and slice algebra for symbolic labels and sizes at constant rank.
#include "d_common.h"
#include "core/sizes.cpp"
#include "core/dimensions.cpp"
#include "core/strides.cpp"
#include "core/slice.cpp"
#include "core/except.cpp"
namespace wit {
using namespace scipp::core;
// ---- construction
template <int N> struct P_dims_construct {
  W impl(Out *o, const L3 *l, const I3 *s) { Dim d[4]; for (int i = 0; i < N; ++i) d[i] = dim(l->v[i]); dump(o, Dimensions(scipp::span<const Dim>(d, N), scipp::span<const idx>(s->v, N))); }
  W ref(Out *o, const L3 *l, const I3 *s) { if (bad<N>(l->v, s->v)) throw 1; Put p{o}; for (int i = 0; i < N; ++i) p(l->v[i], s->v[i]); p.end(); }
};
template <int N, int M> struct P_dims_construct_mismatch {
  W impl(Out *o, const L3 *l, const I3 *s) { Dim d[4]; for (int i = 0; i < N; ++i) d[i] = dim(l->v[i]); dump(o, Dimensions(scipp::span<const Dim>(d, N), scipp::span<const idx>(s->v, M))); }
  W ref(Out *, const L3 *, const I3 *) { throw 1; }
};
template <int N> struct P_dims_add_outer {
  W impl(Out *o, const L3 *l, const I3 *s, const lab *x, const idx *n) { auto d = mk<N>(l, s); d.add(dim(*x), *n); dump(o, d); }
  W ref(Out *o, const L3 *l, const I3 *s, const lab *x, const idx *n) { if (bad<N>(l->v, s->v) || *x == 0 || *n < 0 || pos<N>(l->v, *x) >= 0) throw 1; Put p{o}; p(*x, *n); for (int i = 0; i < N; ++i) p(l->v[i], s->v[i]); p.end(); }
};
template <int N> struct P_sizes_set {
  W impl(Out *o, const L3 *l, const I3 *s, const lab *x, const idx *n) { auto d = mks<N>(l, s); d.set(dim(*x), *n); dump(o, d); }
  W ref(Out *o, const L3 *l, const I3 *s, const lab *x, const idx *n) {
    if (bad<N>(l->v, s->v) || *x == 0 || *n < 0) throw 1; const int k = pos<N>(l->v, *x); if (k >= 0 && s->v[k] != *n) throw 1;
    Put p{o}; for (int i = 0; i < N; ++i) p(l->v[i], s->v[i]); if (k < 0) p(*x, *n); p.end(); }
};
template <int N> struct P_sizes_resize {
  W impl(Out *o, const L3 *l, const I3 *s, const lab *x, const idx *n) { auto d = mk<N>(l, s); d.resize(dim(*x), *n); dump(o, d); }
  W ref(Out *o, const L3 *l, const I3 *s, const lab *x, const idx *n) { const int k = pos<N>(l->v, *x); if (bad<N>(l->v, s->v) || *n < 0 || k < 0) throw 1; Put p{o}; for (int i = 0; i < N; ++i) p(l->v[i], i == k ? *n : s->v[i]); p.end(); }
};
template <int N> struct P_sizes_erase {
  W impl(Out *o, const L3 *l, const I3 *s, const lab *x) { auto d = mk<N>(l, s); d.erase(dim(*x)); dump(o, d); }
  W ref(Out *o, const L3 *l, const I3 *s, const lab *x) { const int k = pos<N>(l->v, *x); if (bad<N>(l->v, s->v) || k < 0) throw 1; Put p{o}; for (int i = 0; i < N; ++i) if (i != k) p(l->v[i], s->v[i]); p.end(); }
};
template <int N> struct P_sizes_lookup {
  W impl(I3 *o, const L3 *l, const I3 *s, const lab *x) { const auto d = mk<N>(l, s); o->v[0] = d.contains(dim(*x)); o->v[1] = o->v[0] ? d[dim(*x)] : -1; o->v[2] = o->v[0] ? d.index(dim(*x)) : -1; o->v[3] = o->v[0] ? d.at(dim(*x)) : -1; }
  W ref(I3 *o, const L3 *l, const I3 *s, const lab *x) { if (bad<N>(l->v, s->v)) throw 1; const int k = pos<N>(l->v, *x); o->v[0] = k >= 0; o->v[1] = k < 0 ? -1 : s->v[k]; o->v[2] = k; o->v[3] = o->v[1]; }
};
template <int N> struct P_sizes_at_missing {
  W impl(I3 *o, const L3 *l, const I3 *s, const lab *x) { const auto d = mk<N>(l, s); o->v[0] = d[dim(*x)]; }
  W ref(I3 *o, const L3 *l, const I3 *s, const lab *x) { const int k = pos<N>(l->v, *x); if (bad<N>(l->v, s->v) || k < 0) throw 1; o->v[0] = s->v[k]; }
};
template <int N> struct P_replace_key {
  W impl(Out *o, const L3 *l, const I3 *s, const lab *x, const lab *y) { auto d = mk<N>(l, s); d.replace_key(dim(*x), dim(*y)); dump(o, d); }
  W ref(Out *o, const L3 *l, const I3 *s, const lab *x, const lab *y) { const int k = pos<N>(l->v, *x); if (bad<N>(l->v, s->v) || k < 0 || (*x != *y && pos<N>(l->v, *y) >= 0)) throw 1; Put p{o}; for (int i = 0; i < N; ++i) p(i == k ? *y : l->v[i], s->v[i]); p.end(); }
};
template <int N> struct P_rename_one {
  W impl(Out *o, const L3 *l, const I3 *s, const lab *x, const lab *y, const bool *fail) { std::vector<std::pair<Dim, Dim>> v; v.emplace_back(dim(*x), dim(*y)); dump(o, mk<N>(l, s).rename_dims(v, *fail)); }
  W ref(Out *o, const L3 *l, const I3 *s, const lab *x, const lab *y, const bool *fail) {
    if (bad<N>(l->v, s->v)) throw 1; const int k = pos<N>(l->v, *x); if (k < 0 && *fail) throw 1; if (k >= 0 && *x != *y && pos<N>(l->v, *y) >= 0) throw 1;
    Put p{o}; for (int i = 0; i < N; ++i) p(i == k ? *y : l->v[i], s->v[i]); p.end(); }
};
template <int N> struct P_rename_two { // one after the other: names that are free by then can be taken
  W impl(Out *o, const L3 *l, const I3 *s, const lab *x, const lab *y, const lab *z, const lab *w, const bool *fail) { std::vector<std::pair<Dim, Dim>> v; v.emplace_back(dim(*x), dim(*y)); v.emplace_back(dim(*z), dim(*w)); dump(o, mk<N>(l, s).rename_dims(v, *fail)); }
  W ref(Out *o, const L3 *l, const I3 *s, const lab *x, const lab *y, const lab *z, const lab *w, const bool *fail) {
    if (bad<N>(l->v, s->v)) throw 1; lab q[4]; for (int i = 0; i < N; ++i) q[i] = l->v[i];
    const lab from[2] = {*x, *z}, to[2] = {*y, *w}; for (int r = 0; r < 2; ++r) { const int k = pos<N>(q, from[r]); if (k < 0) { if (*fail) throw 1; continue; } if (from[r] != to[r] && pos<N>(q, to[r]) >= 0) throw 1; for (int i = 0; i < N; ++i) if (i == k) q[i] = to[r]; }
    Put p{o}; for (int i = 0; i < N; ++i) p(q[i], s->v[i]); p.end(); }
};
struct P_dims_pairs {
  W impl(Out *o, const L3 *l, const I3 *s) { dump(o, Dimensions({{dim(l->v[0]), s->v[0]}, {dim(l->v[1]), s->v[1]}})); }
  W ref(Out *o, const L3 *l, const I3 *s) { if (bad<2>(l->v, s->v)) throw 1; Put p{o}; for (int i = 0; i < 2; ++i) p(l->v[i], s->v[i]); p.end(); }
};
struct P_dims_lists {
  W impl(Out *o, const L3 *l, const I3 *s) { dump(o, Dimensions({dim(l->v[0]), dim(l->v[1])}, {s->v[0], s->v[1]})); }
  W ref(Out *o, const L3 *l, const I3 *s) { if (bad<2>(l->v, s->v)) throw 1; Put p{o}; for (int i = 0; i < 2; ++i) p(l->v[i], s->v[i]); p.end(); }
};
struct P_dims_single {
  W impl(Out *o, const lab *x, const idx *n) { dump(o, Dimensions(dim(*x), *n)); }
  W ref(Out *o, const lab *x, const idx *n) { if (*x == 0 || *n < 0) throw 1; Put p{o}; p(*x, *n); p.end(); }
};
template <int N> struct P_sizes_clear {
  W impl(Out *o, const L3 *l, const I3 *s, const lab *x, const idx *n) { auto d = mks<N>(l, s); d.clear(); d.set(dim(*x), *n); dump(o, d); }
  W ref(Out *o, const L3 *l, const I3 *s, const lab *x, const idx *n) { if (bad<N>(l->v, s->v) || *x == 0 || *n < 0) throw 1; Put p{o}; p(*x, *n); p.end(); }
};
template <int N> struct P_dims_order { // iteration, spans and the innermost label agree with the order of the dimensions
  W impl(Out *o, const L3 *l, const I3 *s) { const auto d = mk<N>(l, s); int n = 0; for (const auto x : d) o->v[n++] = (idx)x.id(); for (auto it = d.rbegin(); it != d.rend(); ++it) o->v[n++] = (idx)it->id(); for (const auto x : d.shape()) o->v[n++] = x; o->v[10] = n; o->v[11] = (idx)d.inner().id(); o->v[12] = d.empty() * 2 + (d.ndim() == N); }
  W ref(Out *o, const L3 *l, const I3 *s) { if (bad<N>(l->v, s->v)) throw 1; int n = 0; for (int i = 0; i < N; ++i) o->v[n++] = l->v[i]; for (int i = N - 1; i >= 0; --i) o->v[n++] = l->v[i]; for (int i = 0; i < N; ++i) o->v[n++] = s->v[i]; o->v[10] = n; o->v[11] = N ? (idx)l->v[N ? N - 1 : 0] : (idx)Dim(Dim::Invalid).id(); o->v[12] = N ? 1 : 3; }
};
// ---- queries
template <int N> struct P_volume {
  W impl(I3 *o, const L3 *l, const I3 *s) { const auto d = mk<N>(l, s); o->v[0] = d.volume(); o->v[1] = d.ndim(); o->v[2] = (idx)d.inner().id(); o->v[3] = d.empty(); }
  W ref(I3 *o, const L3 *l, const I3 *s) { if (bad<N>(l->v, s->v)) throw 1; idx r = 1; for (int i = 0; i < N; ++i) r *= s->v[i]; o->v[0] = r; o->v[1] = N; o->v[2] = N ? l->v[N ? N - 1 : 0] : 0; o->v[3] = N == 0; }
};
template <int N> struct P_offset {
  W impl(I3 *o, const L3 *l, const I3 *s, const lab *x) { o->v[0] = mk<N>(l, s).offset(dim(*x)); }
  W ref(I3 *o, const L3 *l, const I3 *s, const lab *x) { const int k = pos<N>(l->v, *x); if (bad<N>(l->v, s->v) || k < 0) throw 1; idx r = 1; for (int i = 0; i < N; ++i) if (i > k) r *= s->v[i]; o->v[0] = r; }
};
template <int N, int M> struct P_dims_equal {
  W impl(I3 *o, const L3 *la, const I3 *sa, const L3 *lb, const I3 *sb) { const auto a = mk<N>(la, sa), b = mk<M>(lb, sb); o->v[0] = a == b; o->v[1] = a != b; }
  W ref(I3 *o, const L3 *la, const I3 *sa, const L3 *lb, const I3 *sb) { if (bad<N>(la->v, sa->v) || bad<M>(lb->v, sb->v)) throw 1; bool r = N == M; for (int i = 0; i < N && i < M; ++i) r = r && la->v[i] == lb->v[i] && sa->v[i] == sb->v[i]; o->v[0] = r; o->v[1] = !r; }
};
template <int N, int M> bool sub(const L3 *la, const I3 *sa, const L3 *lb, const I3 *sb) { // every entry of b is in a, with the same size
  for (int j = 0; j < M; ++j) { bool hit = false; for (int i = 0; i < N; ++i) hit = hit || (la->v[i] == lb->v[j] && sa->v[i] == sb->v[j]); if (!hit) return false; }
  return true;
}
template <int N, int M> struct P_sizes_equal {
  W impl(I3 *o, const L3 *la, const I3 *sa, const L3 *lb, const I3 *sb) { const auto a = mks<N>(la, sa), b = mks<M>(lb, sb); o->v[0] = a == b; o->v[1] = a != b; }
  W ref(I3 *o, const L3 *la, const I3 *sa, const L3 *lb, const I3 *sb) { if (bad<N>(la->v, sa->v) || bad<M>(lb->v, sb->v)) throw 1; const bool r = N == M && sub<N, M>(la, sa, lb, sb); o->v[0] = r; o->v[1] = !r; }
};
template <int N, int M> struct P_includes {
  W impl(I3 *o, const L3 *la, const I3 *sa, const L3 *lb, const I3 *sb) { o->v[0] = mks<N>(la, sa).includes(mks<M>(lb, sb)); }
  W ref(I3 *o, const L3 *la, const I3 *sa, const L3 *lb, const I3 *sb) { if (bad<N>(la->v, sa->v) || bad<M>(lb->v, sb->v)) throw 1; o->v[0] = sub<N, M>(la, sa, lb, sb); }
};
template <int N, int M> struct P_expect_includes {
  W impl(I3 *o, const L3 *la, const I3 *sa, const L3 *lb, const I3 *sb) { scipp::expect::includes(mk<N>(la, sa), mk<M>(lb, sb)); o->v[0] = 1; }
  W ref(I3 *o, const L3 *la, const I3 *sa, const L3 *lb, const I3 *sb) { if (bad<N>(la->v, sa->v) || bad<M>(lb->v, sb->v)) throw 1; if (!sub<N, M>(la, sa, lb, sb)) throw 1; o->v[0] = 1; }
};
// ---- merging
template <int N, int M> struct P_merge {
  W impl(Out *o, const L3 *la, const I3 *sa, const L3 *lb, const I3 *sb) { dump(o, merge(mk<N>(la, sa), mk<M>(lb, sb))); }
  W ref(Out *o, const L3 *la, const I3 *sa, const L3 *lb, const I3 *sb) {
    if (bad<N>(la->v, sa->v) || bad<M>(lb->v, sb->v)) throw 1;
    for (int i = 0; i < N; ++i) for (int j = 0; j < M; ++j) if (la->v[i] == lb->v[j] && sa->v[i] != sb->v[j]) throw 1;
    Put p{o}; int next = 0;
    for (int i = 0; i < N; ++i) {
      const int at = pos<M>(lb->v, la->v[i]);
      if (at >= 0) { const int stop = at < next ? M : at; for (; next < stop; ++next) if (pos<N>(la->v, lb->v[next]) < 0) p(lb->v[next], sb->v[next]); }
      p(la->v[i], sa->v[i]);
    }
    for (; next < M; ++next) if (pos<N>(la->v, lb->v[next]) < 0) p(lb->v[next], sb->v[next]);
    p.end();
  }
};
template <int N, int M> struct P_sizes_merge {
  W impl(Out *o, const L3 *la, const I3 *sa, const L3 *lb, const I3 *sb) { dump(o, merge(mks<N>(la, sa), mks<M>(lb, sb))); }
  W ref(Out *o, const L3 *la, const I3 *sa, const L3 *lb, const I3 *sb) {
    if (bad<N>(la->v, sa->v) || bad<M>(lb->v, sb->v)) throw 1;
    Put p{o}; for (int i = 0; i < N; ++i) p(la->v[i], sa->v[i]);
    for (int j = 0; j < M; ++j) { const int k = pos<N>(la->v, lb->v[j]); if (k >= 0 && sa->v[k] != sb->v[j]) throw 1; if (k < 0) p(lb->v[j], sb->v[j]); }
    p.end();
  }
};
template <int N, int M> struct P_intersection {
  W impl(Out *o, const L3 *la, const I3 *sa, const L3 *lb, const I3 *sb) { dump(o, intersection(mk<N>(la, sa), mk<M>(lb, sb))); }
  W ref(Out *o, const L3 *la, const I3 *sa, const L3 *lb, const I3 *sb) {
    if (bad<N>(la->v, sa->v) || bad<M>(lb->v, sb->v)) throw 1;
    Put p{o}; for (int i = 0; i < N; ++i) { const int k = pos<M>(lb->v, la->v[i]); if (k < 0) continue; if (sa->v[i] != sb->v[k]) throw 1; p(la->v[i], sa->v[i]); }
    p.end();
  }
};
template <int N, int M> struct P_concat {
  W impl(Out *o, const L3 *la, const I3 *sa, const L3 *lb, const I3 *sb, const lab *x) { const Sizes s[2]{mks<N>(la, sa), mks<M>(lb, sb)}; if (*x == 0) throw 1; dump(o, concat(scipp::span<const Sizes>(s, 2), dim(*x))); }
  W ref(Out *o, const L3 *la, const I3 *sa, const L3 *lb, const I3 *sb, const lab *x) {
    if (bad<N>(la->v, sa->v) || bad<M>(lb->v, sb->v) || *x == 0) throw 1;
    const int i0 = pos<N>(la->v, *x), j0 = pos<M>(lb->v, *x);
    Put p{o}; for (int i = 0; i < N; ++i) if (i != i0) p(la->v[i], sa->v[i]);
    idx n = i0 < 0 ? 1 : sa->v[i0]; n += j0 < 0 ? 1 : sb->v[j0]; if (n < 0) throw 1; p(*x, n); p.end();
  }
};
// ---- reshaping
template <int N, int M> struct P_transpose {
  W impl(Out *o, const L3 *l, const I3 *s, const L3 *t) { Dim d[4]; for (int i = 0; i < M; ++i) d[i] = dim(t->v[i]); dump(o, transpose(mk<N>(l, s), scipp::span<const Dim>(d, M))); }
  W ref(Out *o, const L3 *l, const I3 *s, const L3 *t) {
    if (bad<N>(l->v, s->v)) throw 1; Put p{o};
    if (M == 0) { for (int i = N - 1; i >= 0; --i) p(l->v[i], s->v[i]); p.end(); return; }
    if (N != M) throw 1;
    for (int i = 0; i < N; ++i) { const int k = pos<N>(l->v, t->v[i]); if (k < 0) throw 1; for (int j = 0; j < i; ++j) if (t->v[i] == t->v[j]) throw 1; p(t->v[i], s->v[k]); }
    p.end();
  }
};
template <int N, int M> struct P_fold {
  W impl(Out *o, const L3 *l, const I3 *s, const lab *x, const L3 *t, const I3 *u) { dump(o, fold(mk<N>(l, s), dim(*x), mk<M>(t, u))); }
  W ref(Out *o, const L3 *l, const I3 *s, const lab *x, const L3 *t, const I3 *u) {
    if (bad<N>(l->v, s->v) || bad<M>(t->v, u->v)) throw 1; const int k = pos<N>(l->v, *x); if (k < 0) throw 1;
    idx a = 1, b = 1;
    for (int i = 0; i < N; ++i) { a *= s->v[i]; if (i != k) { b *= s->v[i]; if (pos<M>(t->v, l->v[i]) >= 0) throw 1; } }
    for (int j = 0; j < M; ++j) b *= u->v[j];
    if (a != b) throw 1;
    Put p{o}; for (int i = 0; i < N; ++i) if (i != k) p(l->v[i], s->v[i]); else for (int j = 0; j < M; ++j) p(t->v[j], u->v[j]);
    p.end();
  }
};
// ---- slicing
struct P_slice_range {
  W impl(I3 *o, const lab *x, const idx *b, const idx *e, const idx *st) { const Slice s(dim(*x), *b, *e, *st); o->v[0] = (idx)s.dim().id(); o->v[1] = s.begin(); o->v[2] = s.end(); o->v[3] = s.stride(); }
  W ref(I3 *o, const lab *x, const idx *b, const idx *e, const idx *st) { if (*b < 0 || *st <= 0 || (*e != -1 && *e < *b)) throw 1; o->v[0] = *x; o->v[1] = *b; o->v[2] = *e; o->v[3] = *st; }
};
struct P_slice_point {
  W impl(I3 *o, const lab *x, const idx *b) { const Slice s(dim(*x), *b); o->v[0] = (idx)s.dim().id(); o->v[1] = s.begin(); o->v[2] = s.end(); o->v[3] = s.isRange() * 2 + (s.stride() == 1); }
  W ref(I3 *o, const lab *x, const idx *b) { if (*b < 0) throw 1; o->v[0] = *x; o->v[1] = *b; o->v[2] = -1; o->v[3] = 1; }
};
struct P_slice_defaults {
  W impl(I3 *o, const lab *x, const idx *b, const idx *e) { const Slice n; o->v[0] = (idx)n.dim().id(); o->v[1] = n.isRange(); const Slice r(dim(*x), *b, *e); o->v[2] = r == Slice(dim(*x), *b, *e, 1); o->v[3] = n == Slice{}; }
  W ref(I3 *o, const lab *, const idx *b, const idx *e) { if (*b < 0 || (*e != -1 && *e < *b)) throw 1; o->v[0] = (idx)Dim(Dim::None).id(); o->v[1] = 0; o->v[2] = 1; o->v[3] = 1; }
};
struct P_slice_equal {
  W impl(I3 *o, const lab *x, const I3 *a, const lab *y, const I3 *b) { const Slice s(dim(*x), a->v[0], a->v[1], a->v[2]), t(dim(*y), b->v[0], b->v[1], b->v[2]); o->v[0] = s == t; o->v[1] = s != t; }
  W ref(I3 *o, const lab *x, const I3 *a, const lab *y, const I3 *b) { for (auto *q : {a, b}) if (q->v[0] < 0 || q->v[2] <= 0 || (q->v[1] != -1 && q->v[1] < q->v[0])) throw 1; const bool r = *x == *y && a->v[0] == b->v[0] && a->v[1] == b->v[1] && a->v[2] == b->v[2]; o->v[0] = r; o->v[1] = !r; }
};
template <int N> struct P_slice_range_of {
  W impl(Out *o, const L3 *l, const I3 *s, const lab *x, const idx *b, const idx *e, const idx *st) { if (*e < 0) throw 1; dump(o, mks<N>(l, s).slice(Slice(dim(*x), *b, *e, *st))); }
  W ref(Out *o, const L3 *l, const I3 *s, const lab *x, const idx *b, const idx *e, const idx *st) {
    if (*e < 0) throw 1; if (bad<N>(l->v, s->v) || *b < 0 || *st <= 0 || *e < *b) throw 1; const int k = pos<N>(l->v, *x); if (k < 0 || *e > s->v[k]) throw 1;
    const idx len = *e - *b; idx n = len / *st; if (len % *st != 0) ++n;
    if (n < 0) n = 0;
    Put p{o}; for (int i = 0; i < N; ++i) p(l->v[i], i == k ? n : s->v[i]); p.end(); }
};
template <int N> struct P_slice_point_of {
  W impl(Out *o, const L3 *l, const I3 *s, const lab *x, const idx *b) { if (*b > (1l << 60)) throw 1; dump(o, mks<N>(l, s).slice(Slice(dim(*x), *b))); }
  W ref(Out *o, const L3 *l, const I3 *s, const lab *x, const idx *b) { if (*b > (1l << 60)) throw 1; if (bad<N>(l->v, s->v) || *b < 0) throw 1; const int k = pos<N>(l->v, *x); if (k < 0 || *b >= s->v[k]) throw 1; Put p{o}; for (int i = 0; i < N; ++i) if (i != k) p(l->v[i], s->v[i]); p.end(); }
};
template <int N> struct P_slice_none_of {
  W impl(Out *o, const L3 *l, const I3 *s) { dump(o, mks<N>(l, s).slice(Slice{})); }
  W ref(Out *o, const L3 *l, const I3 *s) { if (bad<N>(l->v, s->v)) throw 1; Put p{o}; for (int i = 0; i < N; ++i) p(l->v[i], s->v[i]); p.end(); }
};
// ---- bin edges
template <int N, int M> struct P_is_edges {
  W impl(I3 *o, const L3 *la, const I3 *sa, const L3 *lb, const I3 *sb, const lab *x) { o->v[0] = is_edges(mks<N>(la, sa), mks<M>(lb, sb), dim(*x)); }
  W ref(I3 *o, const L3 *la, const I3 *sa, const L3 *lb, const I3 *sb, const lab *x) { // a: data, b: coordinate
    if (bad<N>(la->v, sa->v) || bad<M>(lb->v, sb->v)) throw 1;
    const int j = pos<M>(lb->v, *x), i = pos<N>(la->v, *x);
    bool r = *x != 0 && j >= 0 && sb->v[j] == (i < 0 ? 2 : sa->v[i] + 1);
    if (N > 0) for (int k = 0; k < M; ++k) if (lb->v[k] != *x) { const int q = pos<N>(la->v, lb->v[k]); r = r && q >= 0 && sa->v[q] == sb->v[k]; }
    o->v[0] = r;
  }
};
#define I1(P) template struct P<0>; template struct P<1>; template struct P<2>; template struct P<3>;
#define I2(P) template struct P<0, 0>; template struct P<0, 1>; template struct P<1, 0>; template struct P<1, 1>; template struct P<1, 2>; template struct P<2, 1>; template struct P<2, 2>; template struct P<1, 3>; template struct P<3, 1>; 
#define I2X(P) I2(P) template struct P<2, 3>; template struct P<3, 2>;
I1(P_dims_construct) template struct P_dims_construct_mismatch<1, 2>; template struct P_dims_construct_mismatch<2, 1>;
I1(P_dims_add_outer) I1(P_sizes_set) I1(P_sizes_resize) I1(P_sizes_erase) I1(P_sizes_lookup) I1(P_sizes_at_missing) I1(P_replace_key) I1(P_rename_one) I1(P_rename_two) I1(P_sizes_clear) I1(P_dims_order) I1(P_volume) I1(P_offset)
I2X(P_dims_equal) I2X(P_sizes_equal) I2X(P_includes) I2X(P_expect_includes) I2X(P_merge) I2X(P_sizes_merge) I2(P_intersection) template struct P_concat<0, 0>; template struct P_concat<0, 1>; template struct P_concat<1, 0>; template struct P_concat<1, 1>; template struct P_concat<1, 2>; template struct P_concat<2, 1>;
template struct P_transpose<0, 0>; template struct P_transpose<2, 0>; template struct P_transpose<3, 0>; template struct P_transpose<1, 1>; template struct P_transpose<2, 2>; template struct P_transpose<3, 3>; template struct P_transpose<2, 1>; template struct P_transpose<1, 2>;
template struct P_fold<1, 1>; template struct P_fold<1, 2>; template struct P_fold<2, 1>; template struct P_fold<2, 2>;
I1(P_slice_range_of) I1(P_slice_point_of) I1(P_slice_none_of) I2X(P_is_edges)
} // namespace wit
