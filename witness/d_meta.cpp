// Coords and masks of data arrays: what the containers do with variables (stubs/mockvar), at symbolic labels, sizes and contents.
#include "d_meta_common.h"
namespace wit {
template <int N, int R> struct P_meta_set {
  W impl(O16 *o, const L3 *l, const I3 *s, const Kv *v) { auto c = mkc<N, R>(l, s, v); dumpv(o, std::as_const(c)[dim(v->key)]); o->v[12] = c.size(); o->v[13] = c.sizes() == mks<N>(l, s); }
  W ref(O16 *o, const L3 *l, const I3 *s, const Kv *v) { if (refused<N, R>(l, s, v)) throw 1; refv<R>(o, v); o->v[12] = 1; o->v[13] = 1; }
};
template <int N, int R> struct P_meta_make { // from items, with the read-only flag as asked
  W impl(O16 *o, const L3 *l, const I3 *s, const Kv *v, const idx *ro) { Coords::holder_type items; items.insert_or_assign(dim(v->key), var<R>(v)); const Coords c(mks<N>(l, s), std::move(items), *ro != 0); dumpv(o, c.at(dim(v->key))); o->v[12] = c.size(); o->v[13] = c.is_readonly(); }
  W ref(O16 *o, const L3 *l, const I3 *s, const Kv *v, const idx *ro) { if (refused<N, R>(l, s, v)) throw 1; refv<R>(o, v); o->v[12] = 1; o->v[13] = *ro != 0; }
};
// a second coord: replaces the one of the same name or comes after it
template <int R> struct P_meta_set_second {
  W impl(O16 *o, O16 *o2, const L3 *l, const I3 *s, const Kv *v, const Kv *w) { auto c = mkc<1, R>(l, s, v); c.set(dim(w->key), var<1>(w)); const auto &k = c; dumpv(o, k.at(dim(v->key))); dumpv(o2, k.at(dim(w->key))); o->v[12] = c.size(); o->v[13] = (*k.keys_begin()).id() == (Dim::Id)v->key; o->v[14] = c.count(dim(w->key)); }
  W ref(O16 *o, O16 *o2, const L3 *l, const I3 *s, const Kv *v, const Kv *w) {
    if (refused<1, R>(l, s, v) || badv<1>(w)) throw 1; const bool same = v->key == w->key;
    bool is_same = same && R == 1 && v->id == w->id && v->l[0] == w->l[0] && v->s[0] == w->s[0]; // the very same variable: nothing happens
    if (!is_same && refused<1, 1>(l, s, w)) throw 1;
    if (same && !is_same) refv<1>(o, w); else refv<R>(o, v); if (is_same) refv<R>(o2, v); else refv<1>(o2, w); o->v[12] = same ? 1 : 2; o->v[13] = 1; o->v[14] = 1; }
};
// a read-only dict is not changed by any of these
template <int OP> struct P_meta_readonly {
  W impl(O16 *o, const L3 *l, const I3 *s, const Kv *v, const Kv *w) {
    auto c = mkc<1, 1>(l, s, v); c.set_readonly(); if (v->id == w->id) throw 1;
    if (OP == 0) c.set(dim(w->key), var<1>(w)); else if (OP == 1) c.erase(dim(v->key)); else if (OP == 2) c.extract(dim(v->key)); else if (OP == 3) c.set_aligned(dim(v->key), false); else c.extract(dim(v->key), Variable{}); }
  W ref(O16 *, const L3 *, const I3 *, const Kv *, const Kv *) { throw 1; }
};
template <int N> struct P_meta_copy_writable { // a copy of a read-only dict can be changed, without effect on the original
  W impl(O16 *o, const L3 *l, const I3 *s, const Kv *v) { auto c = mkc<N, 1>(l, s, v); c.set_readonly(); Coords d(c); o->v[0] = d.is_readonly(); d.erase(dim(v->key)); o->v[1] = d.size(); o->v[2] = c.size(); o->v[3] = c.is_readonly(); o->v[4] = d.empty(); o->v[5] = c.empty(); }
  W ref(O16 *o, const L3 *l, const I3 *s, const Kv *v) { if (refused<N, 1>(l, s, v)) throw 1; o->v[0] = 0; o->v[1] = 0; o->v[2] = 1; o->v[3] = 1; o->v[4] = 1; o->v[5] = 0; }
};
template <int N> struct P_meta_extract {
  W impl(O16 *o, const L3 *l, const I3 *s, const Kv *v, const lab *x, const idx *def) {
    auto c = mkc<N, 1>(l, s, v); const auto r = c.extract(dim(*x), Variable(Dimensions{}, *def)); o->v[0] = r.content; o->v[1] = c.size(); o->v[2] = c.contains(dim(v->key)); }
  W ref(O16 *o, const L3 *l, const I3 *s, const Kv *v, const lab *x, const idx *def) { if (refused<N, 1>(l, s, v)) throw 1; const bool hit = v->key == *x; o->v[0] = hit ? v->id : *def; o->v[1] = !hit; o->v[2] = !hit; }
};
template <int OP> struct P_meta_missing {
  W impl(O16 *o, const L3 *l, const I3 *s, const Kv *v, const lab *x) {
    auto c = mkc<1, 1>(l, s, v); const auto &k = c; const auto d = dim(*x); o->v[0] = OP == 0 ? k[d].content : OP == 1 ? c[d].content : OP == 2 ? k.at(d).content : OP == 3 ? c.at(d).content : c.extract(d).content; }
  W ref(O16 *o, const L3 *l, const I3 *s, const Kv *v, const lab *x) { if (refused<1, 1>(l, s, v) || v->key != *x) throw 1; o->v[0] = v->id; }
};
template <int N, int M> struct P_meta_set_sizes { // a change of sizes keeps what was there
  W impl(Out *o, const L3 *l, const I3 *s, const L3 *m, const I3 *t) { Coords c(mks<N>(l, s), {}); c.setSizes(mks<M>(m, t)); dump(o, c.sizes()); }
  W ref(Out *o, const L3 *l, const I3 *s, const L3 *m, const I3 *t) {
    if (bad<N>(l->v, s->v) || bad<M>(m->v, t->v)) throw 1; for (int i = 0; i < N; ++i) { const int p = pos<M>(m->v, l->v[i]); if (p < 0 || t->v[p] != s->v[i]) throw 1; }
    Put p{o}; for (int i = 0; i < M; ++i) p(m->v[i], t->v[i]); p.end(); }
};
// sizes taken from the items: edges of one item do not outgrow the sizes of another
template <int A, int B> struct P_meta_auto { // items with labels A, B and with label 3
  static constexpr int R = (A != 0) + (B != 0);
  W impl(Out *o, const Kv *p, const Kv *q) { Kv v = *p, w = *q; v.key = 8; w.key = 9; v.l[0] = A; v.l[1] = B; w.l[0] = 3; Coords::holder_type items; items.insert_or_assign(dim(8), var<R>(&v)); items.insert_or_assign(dim(9), var<1>(&w)); const Coords c(scipp::dataset::AutoSizeTag{}, std::move(items)); dump(o, c.sizes()); o->v[12] = c.size(); }
  W ref(Out *o, const Kv *p, const Kv *q) {
    Kv v = *p, w = *q; v.key = 8; w.key = 9; v.l[0] = A; v.l[1] = B; w.l[0] = 3;
    if (badv<R>(&v) || badv<1>(&w) || v.bi || w.bi) throw 1;
    const int k = A == 3 ? 0 : B == 3 ? 1 : -1; idx size = w.s[0]; if (k >= 0) { if (w.s[0] + 1 == v.s[k]) size = w.s[0]; else if (w.s[0] == v.s[k] + 1) size = v.s[k]; else if (w.s[0] != v.s[k]) throw 1; }
    Put out{o}; for (int i = 0; i < R; ++i) out(v.l[i], i == k ? size : v.s[i]); if (k < 0) out(3, w.s[0]); out.end(); o->v[12] = 2; }
};
template <int N, int R> struct P_meta_dim_of {
  W impl(idx *o, const L3 *l, const I3 *s, const Kv *v) { *o = (idx)mkc<N, R>(l, s, v).dim_of(dim(v->key)).id(); }
  W ref(idx *o, const L3 *l, const I3 *s, const Kv *v) { if (refused<N, R>(l, s, v)) throw 1; *o = owner<N, R>(l, s, v); }
};
template <int N, int R> struct P_meta_is_edges {
  W impl(idx *o, const L3 *l, const I3 *s, const Kv *v, const lab *x) { const auto c = mkc<N, R>(l, s, v); *o = c.is_edges(dim(v->key), dim(*x)); }
  W ref(idx *o, const L3 *l, const I3 *s, const Kv *v, const lab *x) { if (refused<N, R>(l, s, v)) throw 1; const int k = *x == 0 ? -1 : R ? pos<R>(v->l, *x) : -1; *o = k >= 0 && edges<N, R>(l, s, v, k); }
};
template <int N> struct P_meta_is_edges_default {
  W impl(idx *o, const L3 *l, const I3 *s, const Kv *v) { const auto c = mkc<N, 1>(l, s, v); *o = c.is_edges(dim(v->key)); }
  W ref(idx *o, const L3 *l, const I3 *s, const Kv *v) { if (refused<N, 1>(l, s, v)) throw 1; *o = edges<N, 1>(l, s, v, 0); }
};
template <int R, int M> struct P_meta_applies {
  W impl(idx *o, const L3 *l, const I3 *s, const Kv *v, const L3 *m, const I3 *t) { *o = mkc<2, R>(l, s, v).item_applies_to(dim(v->key), mk<M>(m, t)); }
  W ref(idx *o, const L3 *l, const I3 *s, const Kv *v, const L3 *m, const I3 *t) { if (refused<2, R>(l, s, v) || bad<M>(m->v, t->v)) throw 1; *o = 1; for (int i = 0; i < R; ++i) if (pos<M>(m->v, v->l[i]) < 0) *o = 0; }
};
// labels: data has 3 (and 5), the coord A (and B), 0 for none; the slice is along 3
template <int N, int A, int B> bool fix(L3 *l, Kv *k, Sl *c, const Kv *v, const Sl *q, idx st) { l->v[0] = 3; l->v[1] = 5; *k = *v; k->key = 9; k->l[0] = A; k->l[1] = B; *c = *q; c->d = 3; c->st = st; return true; }
template <int N, int A, int B, int ST> struct P_meta_slice {
  static constexpr int R = (A != 0) + (B != 0); static constexpr bool RANGE = ST > 0;
  W impl(O16 *o, const I3 *s, const Kv *v, const Sl *q) { L3 l; Kv k; Sl c; fix<N, A, B>(&l, &k, &c, v, q, ST); O16 t{}; dumps(&t, mkc<N, R>(&l, s, &k).slice(mkslice<RANGE>(&c)), 9); clean(&t); *o = t; }
  W ref(O16 *o, const I3 *s, const Kv *v, const Sl *q) { L3 l; Kv k; Sl c; fix<N, A, B>(&l, &k, &c, v, q, ST); O16 t{}; refslice<N, R, RANGE>(&t, &l, s, &k, &c, false); clean(&t); *o = t; }
};
template <int N, int A, int B, int ST> struct P_meta_slice_coords { // moreover a coord of the dim at a point becomes unaligned; the key is that of the dim, or not
  static constexpr int R = (A != 0) + (B != 0); static constexpr bool RANGE = ST > 0;
  W impl(O16 *o, const I3 *s, const Kv *v, const Sl *q) { L3 l; Kv k; Sl c; fix<N, A, B>(&l, &k, &c, v, q, ST); k.key = v->key; O16 t{}; dumps(&t, mkc<N, R>(&l, s, &k).slice_coords(mkslice<RANGE>(&c)), k.key); clean(&t); *o = t; }
  W ref(O16 *o, const I3 *s, const Kv *v, const Sl *q) { L3 l; Kv k; Sl c; fix<N, A, B>(&l, &k, &c, v, q, ST); k.key = v->key; O16 t{}; refslice<N, R, RANGE>(&t, &l, s, &k, &c, true); clean(&t); *o = t; }
};
// ---- two dicts of the same sizes {3: s0, 5: s1}, one named variable each, of label A (0: none); equal content: same labels, sizes and id, of which no value is NaN
template <int A> Kv kv(const Kv *v) { Kv k = *v; k.l[0] = A; k.bi = 0; return k; }
template <int A> Coords mk1(const I3 *s, const Kv *v, bool nan = false) { const Dimensions d(dim(3), s->v[0]); if (s->v[0] < 0) throw 1; Kv k = kv<A>(v); Sizes z; z.set(dim(3), s->v[0]); Coords c(z, {}); auto x = var<(A != 0)>(&k); x.nan = nan; c.set(dim(k.key), x); return c; }
template <int A> bool refused1(const I3 *s, const Kv *v) { Kv k = kv<A>(v); L3 l; l.v[0] = 3; return refused<1, (A != 0)>(&l, s, &k); }
template <int A, int B> bool equal(const Kv *v, const Kv *w) { return A == B && v->id == w->id && (A == 0 || v->s[0] == w->s[0]); }
template <int A, int B> struct P_meta_equal { // equality: same keys, content and alignment
  W impl(O16 *o, const I3 *s, const Kv *v, const Kv *w, const idx *nan) { const auto a = mk1<A>(s, v, *nan != 0), b = mk1<B>(s, w, *nan != 0); o->v[0] = a == b; o->v[1] = a != b; o->v[2] = equals_nan(a, b); o->v[3] = a == Coords(a.sizes(), {}); o->v[4] = Coords(a.sizes(), {}) == a; o->v[5] = equals_nan(a, Coords(a.sizes(), {})); o->v[6] = equals_nan(Coords(a.sizes(), {}), a); }
  W ref(O16 *o, const I3 *s, const Kv *v, const Kv *w, const idx *nan) { if (refused1<A>(s, v) || refused1<B>(s, w)) throw 1; const bool e = v->key == w->key && equal<A, B>(v, w) && (v->al != 0) == (w->al != 0); o->v[0] = e && *nan == 0; o->v[1] = !(e && *nan == 0); o->v[2] = e; o->v[3] = o->v[4] = o->v[5] = o->v[6] = 0; }
};
template <int A, int B> struct P_meta_merge { // all items of both, none shadowed
  W impl(O16 *o, const I3 *s, const Kv *v, const Kv *w, const idx *ro) { auto a = mk1<A>(s, v); const auto b = mk1<B>(s, w); if (*ro) a.set_readonly(); const auto c = a.merge_from(b); o->v[0] = c.size(); o->v[1] = c.at(dim(v->key)).content; o->v[2] = c.at(dim(w->key)).content; o->v[3] = c.is_readonly(); o->v[4] = (*c.keys_begin()).id() == (Dim::Id)v->key; o->v[5] = c.at(dim(w->key)).aligned; o->v[6] = c.sizes() == a.sizes(); }
  W ref(O16 *o, const I3 *s, const Kv *v, const Kv *w, const idx *ro) { if (refused1<A>(s, v) || refused1<B>(s, w) || v->key == w->key) throw 1; o->v[0] = 2; o->v[1] = v->id; o->v[2] = w->id; o->v[3] = *ro != 0; o->v[4] = 1; o->v[5] = w->al != 0; o->v[6] = 1; }
};
template <int A> struct P_meta_as_const { // every item is read-only, and the dict is
  W impl(O16 *o, const I3 *s, const Kv *v) { const auto c = mk1<A>(s, v); const auto r = c.as_const(); dumpv(o, r.at(dim(v->key))); o->v[12] = r.size(); o->v[13] = r.is_readonly(); o->v[14] = c.at(dim(v->key)).readonly; o->v[15] = c.is_readonly(); }
  W ref(O16 *o, const I3 *s, const Kv *v) { if (refused1<A>(s, v)) throw 1; Kv k = kv<A>(v); k.ro = 1; refv<(A != 0)>(o, &k); o->v[12] = 1; o->v[13] = 1; o->v[14] = v->ro != 0; o->v[15] = 0; }
};
template <int A, int B> struct P_meta_union { // of the coords of two operands: aligned ones must match; an aligned one wins over an unaligned one; unaligned ones are kept if both have the same
  W impl(O16 *o, const I3 *s, const Kv *v, const Kv *w, const idx *nan) { const auto a = mk1<A>(s, v, *nan != 0), b = mk1<B>(s, w, *nan != 0); const auto c = union_(a, b, "op"); o->v[0] = c.size(); const auto x = c.find(dim(v->key)), y = c.find(dim(w->key)); o->v[1] = x == c.end() ? -1 : x->second.content; o->v[2] = y == c.end() ? -1 : y->second.content; o->v[3] = x == c.end() ? 0 : x->second.aligned; o->v[4] = y == c.end() ? 0 : y->second.aligned; o->v[5] = c.size() == 2 ? (*c.keys_begin()).id() == (Dim::Id)v->key : 0; }
  W ref(O16 *o, const I3 *s, const Kv *v, const Kv *w, const idx *) {
    if (refused1<A>(s, v) || refused1<B>(s, w)) throw 1; const bool va = v->al != 0, wa = w->al != 0;
    if (v->key != w->key) { o->v[0] = va + wa; o->v[1] = va ? v->id : -1; o->v[2] = wa ? w->id : -1; o->v[3] = va; o->v[4] = wa; o->v[5] = va && wa; return; }
    const bool e = equal<A, B>(v, w); if (va && wa && !e) throw 1; const bool has = va || wa || e; const bool fromw = has && !va; o->v[0] = has; o->v[1] = o->v[2] = !has ? -1 : fromw ? w->id : v->id; o->v[3] = o->v[4] = va || wa; o->v[5] = 0; }
};
template <int A, int B> struct P_meta_intersection { // items of the first that the second also has
  W impl(O16 *o, const I3 *s, const Kv *v, const Kv *w, const idx *nan) { const auto a = mk1<A>(s, v, *nan != 0), b = mk1<B>(s, w, *nan != 0); const auto c = intersection(a, b); o->v[0] = c.size(); const auto x = c.find(dim(v->key)); o->v[1] = x == c.end() ? -1 : x->second.content; o->v[2] = x == c.end() ? 0 : x->second.aligned; }
  W ref(O16 *o, const I3 *s, const Kv *v, const Kv *w, const idx *) { if (refused1<A>(s, v) || refused1<B>(s, w)) throw 1; const bool e = v->key == w->key && equal<A, B>(v, w); o->v[0] = e; o->v[1] = e ? v->id : -1; o->v[2] = e && v->al != 0; }
};
template <int A, int B> struct P_meta_superset { // the coords of an operand of an in-place operation: its aligned ones exist and match
  W impl(idx *o, const I3 *s, const Kv *v, const Kv *w, const idx *nan) { const auto a = mk1<A>(s, v, *nan != 0), b = mk1<B>(s, w, *nan != 0); scipp::dataset::expect::coords_are_superset(a, b, "op"); *o = 1; }
  W ref(idx *o, const I3 *s, const Kv *v, const Kv *w, const idx *nan) {
    if (refused1<A>(s, v) || refused1<B>(s, w)) throw 1;
    if (v->key != w->key) { if (w->al != 0) throw 1; } else if (v->al != 0 && w->al != 0 && !(equal<A, B>(v, w) && *nan == 0)) throw 1; *o = 1; }
};
template <int A, int B> struct P_meta_rename { // labels of sizes and items; not to a label that is in use
  W impl(O16 *o, const I3 *s, const Kv *p, const lab *from, const lab *to, const idx *fail) { L3 l; l.v[0] = 3; l.v[1] = 5; Kv v = *p; v.key = 9; v.l[0] = A; v.l[1] = B; const auto c = mkc<2, (A != 0) + (B != 0)>(&l, s, &v); std::vector<std::pair<Dim, Dim>> names; names.emplace_back(dim(*from), dim(*to)); const auto r = c.rename_dims(names, *fail != 0); O16 t{}; dumpv(&t, r.at(dim(9))); t.v[12] = (idx)r.sizes().labels()[0].id(); t.v[13] = (idx)r.sizes().labels()[1].id(); t.v[14] = r.sizes().sizes()[0]; t.v[15] = r.sizes().sizes()[1]; *o = t; }
  W ref(O16 *o, const I3 *s, const Kv *p, const lab *from, const lab *to, const idx *fail) {
    constexpr int R = (A != 0) + (B != 0); L3 l; l.v[0] = 3; l.v[1] = 5; Kv v = *p; v.key = 9; v.l[0] = A; v.l[1] = B; if (refused<2, R>(&l, s, &v)) throw 1;
    const bool mine = *from == 3 || *from == 5; if (!mine && *fail != 0) throw 1; if (mine && *to != *from && (*to == 3 || *to == 5)) throw 1;
    const bool tosize = *to == 3 || *to == 5; if (!tosize && R > 0 && (*to == A || (R == 2 && *to == B))) throw 1; if (*from != *to && R == 2 && ((*from == A && *to == B) || (*from == B && *to == A))) throw 1;
    O16 t{}; refv<R>(&t, &v); if (R > 0 && *from == A) t.v[1] = *to; if (R == 2 && *from == B) t.v[3] = *to; t.v[12] = *from == 3 ? *to : 3; t.v[13] = *from == 5 ? *to : 5; t.v[14] = s->v[0]; t.v[15] = s->v[1]; *o = t; }
};
// assigning to a slice: items of the slice exist, have the slice's shape and are writable; those that do not depend on the dim (or are read-only) must be equal; nothing is written otherwise
template <int A, int B, bool RANGE> struct P_meta_set_slice {
  W impl(O16 *o, const I3 *s, const Kv *v0, const Kv *w0, const Sl *q) { Kv vv = *v0, ww = *w0; const Kv *v = &vv, *w = &ww; if (A == 3) vv.key = ww.key = 9; auto c = mk1<A>(s, v); Sl k = *q; k.d = 3; k.st = 1; const auto sl = mkslice<RANGE>(&k); Sizes z; if (RANGE) z.set(dim(3), q->e - q->b); Kv x = kv<B>(w); Coords n(z, {}); n.set(dim(w->key), var<(B != 0)>(&x)); c.setSlice(sl, n); const auto &r = std::as_const(c).at(dim(v->key)); o->v[0] = r.content; o->v[1] = r.written; o->v[2] = r.wbegin; o->v[3] = c.size(); }
  W ref(O16 *o, const I3 *s, const Kv *v0, const Kv *w0, const Sl *q) {
    Kv vv = *v0, ww = *w0; const Kv *v = &vv, *w = &ww; if (A == 3) vv.key = ww.key = 9; if (refused1<A>(s, v) || badslice<RANGE>(&(const Sl &)Sl{3, q->b, q->e, 1})) throw 1; Kv x = kv<B>(w); if (badv<(B != 0)>(&x)) throw 1;
    const idx n = RANGE ? q->e - q->b : 0; if (RANGE && B == 3 ? x.s[0] != n && x.s[0] != n + 1 : B != 0 && x.s[0] != 2) throw 1;
    if (v->key != w->key) throw 1; const idx have = A == 3 ? v->s[0] : 0;
    if (A != 3) { if (!equal<A, B>(v, w)) throw 1; o->v[0] = v->id; o->v[1] = o->v[2] = 0; o->v[3] = 1; return; }
    if (RANGE ? q->e > have : q->b >= have) throw 1;
    if (v->ro != 0) throw 1; // cannot be equal: the model of a part is never that of a whole
    if (RANGE ? B != 3 || x.s[0] != n : B != 0) throw 1;
    o->v[0] = v->id; o->v[1] = w->id; o->v[2] = q->b; o->v[3] = 1; }
};
#define I template struct
#define NR(X) I X<0, 0>; I X<0, 1>; I X<1, 0>; I X<1, 1>; I X<1, 2>; I X<2, 1>; I X<2, 2>;
NR(P_meta_set) NR(P_meta_make) I P_meta_set_second<0>; I P_meta_set_second<1>; I P_meta_set_second<2>; I P_meta_readonly<0>; I P_meta_readonly<1>; I P_meta_readonly<2>; I P_meta_readonly<3>; I P_meta_readonly<4>;
I P_meta_copy_writable<1>; I P_meta_copy_writable<2>; I P_meta_extract<1>; I P_meta_missing<0>; I P_meta_missing<1>; I P_meta_missing<2>; I P_meta_missing<3>; I P_meta_missing<4>;
I P_meta_set_sizes<0, 1>; I P_meta_set_sizes<1, 0>; I P_meta_set_sizes<1, 1>; I P_meta_set_sizes<1, 2>; I P_meta_set_sizes<2, 2>; I P_meta_auto<0, 0>; I P_meta_auto<3, 0>; I P_meta_auto<5, 0>; I P_meta_auto<3, 5>; I P_meta_auto<5, 3>;
NR(P_meta_dim_of) NR(P_meta_is_edges) I P_meta_is_edges_default<0>; I P_meta_is_edges_default<1>; I P_meta_is_edges_default<2>; I P_meta_applies<0, 1>; I P_meta_applies<1, 1>; I P_meta_applies<2, 1>; I P_meta_applies<2, 2>;
#define SP(X, ST) I X<1, 0, 0, ST>; I X<1, 3, 0, ST>; I X<1, 7, 0, ST>; I X<1, 3, 7, ST>; I X<1, 7, 3, ST>; I X<2, 3, 0, ST>; I X<2, 5, 0, ST>; I X<2, 3, 5, ST>; I X<2, 5, 3, ST>;
SP(P_meta_slice, 0) SP(P_meta_slice, 1) SP(P_meta_slice, 2) SP(P_meta_slice, 3) SP(P_meta_slice_coords, 0) SP(P_meta_slice_coords, 1)
#define AB(X) I X<0, 0>; I X<3, 3>; I X<3, 0>; I X<7, 3>; I X<7, 7>;

#define NZ(X) I X<3, 3>; I X<7, 3>; I X<7, 7>;
AB(P_meta_equal) AB(P_meta_merge) NZ(P_meta_union) AB(P_meta_intersection) NZ(P_meta_superset) I P_meta_as_const<0>; I P_meta_as_const<3>; I P_meta_as_const<7>;
I P_meta_rename<0, 0>; I P_meta_rename<3, 0>; I P_meta_rename<7, 0>; I P_meta_rename<3, 5>; I P_meta_rename<5, 7>;
#define SS(A, B) I P_meta_set_slice<A, B, false>; I P_meta_set_slice<A, B, true>;
SS(3, 3) SS(3, 0) SS(0, 0) SS(7, 7)
}
