// Variables and dictionaries of variables (stubs/mockvar) at symbolic labels, sizes and contents.
#include "d_common.h"
#include "shared_model.h"
#include "core/sizes.cpp"
#include "core/dimensions.cpp"
#include "core/strides.cpp"
#include "core/slice.cpp"
#include "core/except.cpp"
#include "scipp/dataset/data_array.h"
#include "dataset/except.cpp"
#define expect_writable expect_writable_dict // file-local in both sources
#include "dataset/sized_dict.cpp"
#undef expect_writable
namespace wit {
using scipp::variable::Variable; using scipp::dataset::Coords; using scipp::core::Slice;
using O16 = Arr<idx, 16>;
struct Kv { lab key; lab l[2]; idx s[2]; idx id; idx al, ro, bi; }; // a named variable of rank <= 2: aligned, read-only, binned
template <int R> bool badv(const Kv *v) { return bad<R>(v->l, v->s) || v->id < 0; }
template <int R> Variable var(const Kv *v) {
  if (badv<R>(v)) throw 1; Dimensions d; for (int i = 0; i < R; ++i) d.addInner(dim(v->l[i]), v->s[i]);
  Variable r(d, v->id); r.aligned = v->al != 0; r.readonly = v->ro != 0; r.binned = v->bi != 0; return r; }
inline void dumpv(O16 *o, const Variable &v) {
  o->v[0] = v.ndim(); for (int i = 0; i < v.ndim(); ++i) { o->v[1 + 2 * i] = (idx)v.dims().label(i).id(); o->v[2 + 2 * i] = v.dims().size(i); }
  o->v[5] = v.content; o->v[6] = v.aligned; o->v[7] = v.readonly; o->v[8] = v.along; o->v[9] = v.begin; o->v[10] = v.end; o->v[11] = v.step; }
template <int R> void refv(O16 *o, const Kv *v) {
  o->v[0] = R; for (int i = 0; i < R; ++i) { o->v[1 + 2 * i] = v->l[i]; o->v[2 + 2 * i] = v->s[i]; }
  o->v[5] = v->id; o->v[6] = v->al != 0; o->v[7] = v->ro != 0; o->v[8] = o->v[9] = o->v[10] = o->v[11] = 0; }
// fits: every dim of the coord is one of the data with the same size, except for at most one, which has one more (edges) or, if it is not one of the data, two (edges of a sliced-out dim)
template <int N, int R> bool fits(const L3 *l, const I3 *s, const Kv *v) {
  int odd = 0; for (int i = 0; i < R; ++i) { const int p = pos<N>(l->v, v->l[i]); if (p >= 0 && s->v[p] == v->s[i]) continue; ++odd; if (p < 0 ? v->s[i] != 2 : v->s[i] != s->v[p] + 1) return false; }
  return odd <= 1; }
template <int N, int R> bool refused(const L3 *l, const I3 *s, const Kv *v) { return bad<N>(l->v, s->v) || badv<R>(v) || !fits<N, R>(l, s, v) || v->bi != 0; }
template <int N, int R> Coords mkc(const L3 *l, const I3 *s, const Kv *v) { Coords c(mks<N>(l, s), {}); c.set(dim(v->key), var<R>(v)); return c; }
// ---- which dimension a coord belongs to; edges
template <int N, int R> bool edges(const L3 *l, const I3 *s, const Kv *v, int k) { // v has edges along its dim k
  const int p = pos<N>(l->v, v->l[k]); for (int i = 0; i < R; ++i) if (N && i != k) { const int q = pos<N>(l->v, v->l[i]); if (q < 0 || s->v[q] != v->s[i]) return false; }
  return v->s[k] == (p < 0 ? 2 : s->v[p] + 1); }
template <int N, int R> lab owner(const L3 *l, const I3 *s, const Kv *v) {
  if (R == 0) return 0; if (R == 1) return v->l[0]; for (int k = 0; k < R; ++k) if (edges<N, R>(l, s, v, k)) return v->l[k];
  for (int k = 0; k < R; ++k) if (v->l[k] == v->key) return v->key; return 0; }
// ---- slicing: a coord along the dim is sliced with the data, edges keep the edge on either side; others are marked read-only; the result cannot be given further coords
struct Sl { lab d; idx b, e, st; };
template <bool RANGE> Slice mkslice(const Sl *s) { if (RANGE) { if (s->e < 0) throw 1; return Slice(dim(s->d), s->b, s->e, s->st); } return Slice(dim(s->d), s->b); }
template <bool RANGE> bool badslice(const Sl *s) { return s->b < 0 || (RANGE && (s->e < s->b || s->st <= 0)); }
template <int N, int R, bool RANGE> void refslice(O16 *o, const L3 *l, const I3 *s, const Kv *v, const Sl *q, bool coords) {
  const int p = pos<N>(l->v, q->d); if (refused<N, R>(l, s, v) || badslice<RANGE>(q) || p < 0 || (RANGE ? q->e > s->v[p] : q->b >= s->v[p])) throw 1;
  const int k = R ? pos<R>(v->l, q->d) : -1; refv<R>(o, v); o->v[12] = 1; o->v[13] = 1;
  if (k < 0) { o->v[7] = 1; return; }
  const bool edge = v->s[k] != s->v[p]; if (edge && RANGE && q->st != 1) throw 1;
  const idx e = !RANGE ? (edge ? q->b + 2 : -1) : edge && q->b != q->e ? q->e + 1 : q->e;
  o->v[8] = q->d; o->v[9] = q->b; o->v[10] = e; o->v[11] = edge || !RANGE ? 1 : q->st;
  if (!RANGE && !edge) { o->v[0] = R - 1; if (k == 0 && R == 2) { o->v[1] = v->l[1]; o->v[2] = v->s[1]; } }
  else { const idx n = !RANGE ? 2 : edge ? (q->b == q->e ? 0 : e - q->b) : (q->e - q->b) / q->st + ((q->e - q->b) % q->st != 0); o->v[2 + 2 * k] = n; }
  if (coords && !RANGE && owner<N, R>(l, s, v) == q->d) o->v[6] = 0; }
inline void dumps(O16 *o, const Coords &c, lab key) { dumpv(o, c.at(dim(key))); o->v[12] = c.size(); o->v[13] = c.is_readonly(); }
inline void clean(O16 *o) { for (int i = (int)0; i < 2; ++i) if (o->v[0] <= i) { o->v[1 + 2 * i] = 0; o->v[2 + 2 * i] = 0; } }
}
