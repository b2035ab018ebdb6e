// Data arrays: data, coords and attrs as one object (stubs/mockvar; shared_model.h for shared ownership).
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE -1 // string assignment with its body
#include "d_meta_common.h"
#include "dataset/data_array.cpp"
namespace wit {
using scipp::dataset::DataArray; using scipp::dataset::Masks; using scipp::dataset::Attrs;
struct Dv { idx s[2]; idx id; idx ro, wv; }; // data of labels 3 (and 5)
template <int N> Variable data(const Dv *d) { if (d->id < 0 || d->s[0] < 0 || (N > 1 && d->s[1] < 0)) throw 1; Dimensions x; x.addInner(dim(3), d->s[0]); if (N > 1) x.addInner(dim(5), d->s[1]); Variable r(x, d->id); r.readonly = d->ro != 0; r.with_variances = d->wv != 0; return r; }
template <int N> bool badd(const Dv *d) { return d->id < 0 || d->s[0] < 0 || (N > 1 && d->s[1] < 0); }
template <int A> Kv lv(const Kv *v) { Kv k = *v; k.l[0] = A; return k; }
template <int N, int A> bool refused(const Dv *d, const Kv *v) { if (badd<N>(d)) return true; Kv k = lv<A>(v); L3 l; l.v[0] = 3; l.v[1] = 5; I3 s; s.v[0] = d->s[0]; s.v[1] = d->s[1]; return refused<N, (A != 0)>(&l, &s, &k); }
template <int A> Coords::holder_type items(const Kv *v) { Kv k = lv<A>(v); Coords::holder_type c; c.insert_or_assign(dim(k.key), var<(A != 0)>(&k)); return c; }
template <int N, int A> DataArray mka(const Dv *d, const Kv *v) { return DataArray(data<N>(d), items<A>(v)); }
template <int N> void putd(O16 *o, const Dv *d) { o->v[0] = N; o->v[1] = 3; o->v[2] = d->s[0]; if (N > 1) { o->v[3] = 5; o->v[4] = d->s[1]; } o->v[5] = d->id; o->v[6] = 1; o->v[7] = d->ro != 0; o->v[8] = o->v[9] = o->v[10] = o->v[11] = 0; }
template <int N, int A> struct P_array_make { // coords fit the data, whose sizes they have
  W impl(O16 *o, O16 *p, const Dv *d, const Kv *v) { const auto a = mka<N, A>(d, v); dumpv(o, a.data()); dumpv(p, a.coords().at(dim(v->key))); o->v[12] = a.coords().size(); o->v[13] = a.coords().sizes() == a.dims(); o->v[14] = a.masks().sizes() == a.dims() && a.attrs().sizes() == a.dims(); o->v[15] = a.is_readonly(); p->v[12] = a.masks().empty() && a.attrs().empty(); }
  W ref(O16 *o, O16 *p, const Dv *d, const Kv *v) { if (refused<N, A>(d, v)) throw 1; Kv k = lv<A>(v); putd<N>(o, d); refv<(A != 0)>(p, &k); o->v[12] = 1; o->v[13] = 1; o->v[14] = 1; o->v[15] = 0; p->v[12] = 1; }
};
template <int A> struct P_array_make_attrs { // likewise for attrs
  W impl(O16 *o, O16 *p, const Dv *d, const Kv *v) { const DataArray a(data<1>(d), {}, {}, items<A>(v)); dumpv(o, a.data()); dumpv(p, a.attrs().at(dim(v->key))); o->v[12] = a.attrs().size(); o->v[13] = a.coords().empty(); }
  W ref(O16 *o, O16 *p, const Dv *d, const Kv *v) { if (refused<1, A>(d, v)) throw 1; Kv k = lv<A>(v); putd<1>(o, d); refv<(A != 0)>(p, &k); o->v[12] = 1; o->v[13] = 1; }
};
template <int N> struct P_array_make_dicts { // of dictionaries made for other sizes: those must be among the data's
  W impl(O16 *o, const Dv *d, const Kv *v, const idx *n) { if (*n < 0) throw 1; Kv k = lv<3>(v); Sizes z; z.set(dim(3), *n); Coords c(z, {}); c.set(dim(k.key), var<1>(&k)); const DataArray a(data<N>(d), std::move(c), Masks{}, Attrs{}); o->v[0] = a.coords().size(); o->v[1] = a.coords().sizes() == a.dims(); o->v[2] = a.coords().at(dim(v->key)).content; }
  W ref(O16 *o, const Dv *d, const Kv *v, const idx *n) { if (*n < 0 || v->id < 0 || v->s[0] < 0 || v->bi != 0 || (v->s[0] != *n && v->s[0] != *n + 1) || badd<N>(d) || *n != d->s[0]) throw 1; o->v[0] = 1; o->v[1] = 1; o->v[2] = v->id; }
};
template <int OP, int A> struct P_array_copy { // what is done to a copy does not show in the original
  W impl(O16 *o, const Dv *d, const Kv *v0, const Dv *e) { const Kv *v = v0;
    auto a = mka<1, A>(d, v); a.coords().set_readonly(); DataArray b = OP == 4 ? DataArray(Variable(Dimensions{}, 7)) : DataArray(a); if (OP == 4) b = a; if (OP == 5) { DataArray c(a); b = std::move(c); }
    o->v[0] = b.coords().size(); o->v[1] = std::as_const(b).data().content; o->v[2] = b.coords().is_readonly();
    if (OP == 0 || OP >= 4) b.coords().erase(dim(v->key)); if (OP == 1) b.setData(data<1>(e)); if (OP == 2) b.coords().set_aligned(dim(v->key), v->al == 0);
    o->v[3] = std::as_const(a).data().content; o->v[4] = a.coords().size(); o->v[5] = std::as_const(a).coords().at(dim(v->key)).aligned; o->v[6] = a.attrs().size(); o->v[7] = b.coords().size(); o->v[8] = std::as_const(b).data().content; o->v[9] = a.coords().is_readonly(); }
  W ref(O16 *o, const Dv *d, const Kv *v0, const Dv *e) { const Kv *v = v0;
    if (refused<1, A>(d, v)) throw 1; const bool same = d->id == e->id && d->s[0] == e->s[0]; if (OP == 1 && (badd<1>(e) || (!same && e->s[0] != d->s[0]))) throw 1;
    o->v[0] = 1; o->v[1] = d->id; o->v[2] = 0; o->v[3] = d->id; o->v[4] = 1; o->v[5] = v->al != 0; o->v[6] = 0; o->v[7] = OP == 0 || OP >= 4 ? 0 : 1; o->v[8] = OP == 1 ? e->id : d->id; o->v[9] = 1; }
};
template <int OP> struct P_array_view { // a view shares data, coords and attrs
  W impl(O16 *o, const Dv *d, const Kv *v0, const Dv *e) { Kv vv = *v0; vv.key = 9; const Kv *v = &vv;
    auto a = mka<1, 3>(d, v); auto b = a.view(); if (OP == 0) b.coords().erase(dim(v->key)); if (OP == 1) b.setData(data<1>(e)); if (OP == 2) b.attrs().set(dim(v->key), Variable(Dimensions{}, 5));
    o->v[0] = a.coords().size(); o->v[1] = std::as_const(a).data().content; o->v[2] = a.attrs().size(); o->v[3] = b.is_readonly(); }
  W ref(O16 *o, const Dv *d, const Kv *v, const Dv *e) { if (refused<1, 3>(d, v)) throw 1; if (OP == 1 && (badd<1>(e) || e->s[0] != d->s[0])) throw 1; o->v[0] = OP != 0; o->v[1] = OP == 1 ? e->id : d->id; o->v[2] = OP == 2; o->v[3] = 0; }
};
template <int A, int B> struct P_array_with_coords { // an item of a dataset: the coords that depend on no other dimension, read-only
  W impl(O16 *o, O16 *p, const Dv *d, const Kv *v, const Kv *w, const idx *n, const idx *ro) { Kv k = lv<A>(v), x = lv<B>(w); k.key = 9; x.key = 10; if (*n < 0) throw 1; Sizes z; z.set(dim(3), d->s[0]); z.set(dim(7), *n); Coords c(z, {}); c.set(dim(9), var<(A != 0)>(&k)); c.set(dim(10), var<(B != 0)>(&x));
    const DataArray a(data<1>(d)); const auto b = a.view_with_coords(c, "b", *ro != 0); o->v[0] = b.coords().size(); o->v[1] = b.coords().contains(dim(9)); o->v[2] = b.coords().contains(dim(10)); o->v[3] = b.is_readonly(); o->v[4] = b.coords().is_readonly(); o->v[5] = b.coords().sizes() == b.dims(); o->v[6] = b.data().content; o->v[7] = &b.data() == &a.data();
    O16 t{}; if (A != 7) dumpv(&t, b.coords().at(dim(9))); *p = t; }
  W ref(O16 *o, O16 *p, const Dv *d, const Kv *v, const Kv *w, const idx *n, const idx *ro) { Kv k = lv<A>(v), x = lv<B>(w); const auto wrong = [&](const Kv &q, int l) { return q.id < 0 || q.bi != 0 || (l == 3 ? q.s[0] < 0 || (q.s[0] != d->s[0] && q.s[0] != d->s[0] + 1) : l == 7 ? q.s[0] < 0 || (q.s[0] != *n && q.s[0] != *n + 1) : false); };
    if (badd<1>(d) || *n < 0 || wrong(k, A) || wrong(x, B)) throw 1; o->v[0] = (A != 7) + (B != 7); o->v[1] = A != 7; o->v[2] = B != 7; o->v[3] = *ro != 0; o->v[4] = 1; o->v[5] = 1; o->v[6] = d->id; o->v[7] = 1; O16 t{}; if (A != 7) { k.ro = 1; refv<(A != 0)>(&t, &k); } *p = t; }
};
template <int A, bool RANGE> struct P_array_slice { // data and coords of the part; it cannot be given other data or further coords
  W impl(O16 *o, O16 *p, const Dv *d, const Kv *v, const Sl *q) { Sl k = *q; k.d = 3; k.st = 1; const auto a = mka<2, A>(d, v).slice(mkslice<RANGE>(&k)); O16 t{}, u{}; dumpv(&t, a.data()); clean(&t); dumpv(&u, a.coords().at(dim(v->key))); clean(&u); t.v[12] = a.coords().size(); t.v[13] = a.coords().is_readonly(); t.v[14] = a.is_readonly(); t.v[15] = a.masks().is_readonly() && a.attrs().is_readonly(); *o = t; *p = u; }
  W ref(O16 *o, O16 *p, const Dv *d, const Kv *v, const Sl *q) { if (refused<2, A>(d, v)) throw 1; Sl k = *q; k.d = 3; k.st = 1; L3 l; l.v[0] = 3; l.v[1] = 5; I3 s; s.v[0] = d->s[0]; s.v[1] = d->s[1]; Kv x = lv<A>(v); O16 t{}, u{}; refslice<2, (A != 0), RANGE>(&u, &l, &s, &x, &k, true); clean(&u); u.v[12] = u.v[13] = 0;
    putd<2>(&t, d); t.v[8] = 3; t.v[9] = q->b; t.v[10] = RANGE ? q->e : -1; t.v[11] = 1; if (RANGE) t.v[2] = q->e - q->b; else { t.v[0] = 1; t.v[1] = 5; t.v[2] = d->s[1]; } clean(&t); t.v[12] = 1; t.v[13] = t.v[14] = t.v[15] = 1; *o = t; *p = u; }
};
template <int OP> struct P_array_readonly { // a slice refuses other data and changes of its coords
  W impl(O16 *o, const Dv *d, const Kv *v, const Sl *q, const Dv *e) { Sl k = *q; k.d = 3; k.st = 1; auto a = OP == 3 ? mka<1, 3>(d, v).as_const() : mka<1, 3>(d, v).slice(mkslice<true>(&k)); if (d->id == e->id) throw 1; if (OP == 0 || OP == 3) a.setData(data<1>(e)); if (OP == 1) a.coords().erase(dim(v->key)); if (OP == 2) a.attrs().set(dim(v->key), Variable(Dimensions{}, 5)); }
  W ref(O16 *, const Dv *, const Kv *, const Sl *, const Dv *) { throw 1; }
};
template <int N, int M> struct P_array_set_data { // same labels and sizes, whichever their order; coords stay
  W impl(O16 *o, const Dv *d, const Kv *v, const L3 *m, const I3 *t, const idx *id) { auto a = mka<N, 3>(d, v); if (*id < 0 || *id == d->id) throw 1; a.setData(Variable(mk<M>(m, t), *id)); const auto &c = a; o->v[0] = c.data().content; o->v[1] = c.dims() == mk<M>(m, t); o->v[2] = c.coords().at(dim(v->key)).content; }
  W ref(O16 *o, const Dv *d, const Kv *v, const L3 *m, const I3 *t, const idx *id) { if (refused<N, 3>(d, v) || *id < 0 || *id == d->id || bad<M>(m->v, t->v) || N != M) throw 1; const int p = pos<M>(m->v, 3), r = N > 1 ? pos<M>(m->v, 5) : 0; if (p < 0 || r < 0 || t->v[p] != d->s[0] || (N > 1 && t->v[r] != d->s[1])) throw 1; o->v[0] = *id; o->v[1] = 1; o->v[2] = v->id; }
};
template <int A> struct P_array_as_const {
  W impl(O16 *o, O16 *p, const Dv *d, const Kv *v) { const auto a = mka<1, A>(d, v).as_const(); dumpv(o, a.data()); dumpv(p, a.coords().at(dim(v->key))); o->v[12] = a.is_readonly() && a.coords().is_readonly() && a.masks().is_readonly() && a.attrs().is_readonly(); }
  W ref(O16 *o, O16 *p, const Dv *d, const Kv *v) { if (refused<1, A>(d, v)) throw 1; putd<1>(o, d); o->v[7] = 1; Kv k = lv<A>(v); k.ro = 1; refv<(A != 0)>(p, &k); o->v[12] = 1; }
};
template <int A, int B> struct P_array_equal { // data, coords and whether there are variances
  W impl(O16 *o, const Dv *d, const Kv *v, const Dv *e, const Kv *w, const idx *nan) { auto x = data<1>(d), y = data<1>(e); x.nan = y.nan = *nan != 0; const DataArray a(x, items<A>(v)), b(y, items<B>(w)); o->v[0] = a == b; o->v[1] = a != b; o->v[2] = equals_nan(a, b); }
  W ref(O16 *o, const Dv *d, const Kv *v, const Dv *e, const Kv *w, const idx *nan) { if (refused<1, A>(d, v) || refused<1, B>(e, w)) throw 1; const bool c = v->key == w->key && A == B && v->id == w->id && (A == 0 || v->s[0] == w->s[0]) && (v->al != 0) == (w->al != 0), x = d->id == e->id && d->s[0] == e->s[0];
    const bool eq = c && x && *nan == 0 && (d->wv != 0) == (e->wv != 0); o->v[0] = eq; o->v[1] = !eq; o->v[2] = c && x; }
};
template <int A, bool WHICH> struct P_array_equal_attrs { // and attrs
  W impl(O16 *o, const Dv *d, const Kv *v, const Kv *w) { const DataArray a(data<1>(d), {}, {}, items<A>(v)), b(data<1>(d), {}, {}, WHICH ? items<A>(w) : Attrs::holder_type{}); o->v[0] = a == b; o->v[1] = equals_nan(a, b); o->v[2] = b == a; }
  W ref(O16 *o, const Dv *d, const Kv *v, const Kv *w) { if (refused<1, A>(d, v) || (WHICH && refused<1, A>(d, w))) throw 1; o->v[0] = o->v[1] = o->v[2] = WHICH && v->key == w->key && v->id == w->id && (A == 0 || v->s[0] == w->s[0]) && (v->al != 0) == (w->al != 0); }
};
template <int A> struct P_array_drop { // the named coords, which must exist
  W impl(O16 *o, const Dv *d, const Kv *v0, const Kv *w0, const lab *x) { Kv vv = *v0, ww = *w0; vv.key = 9; ww.key = 10; const Kv *v = &vv, *w = &ww; if (v->key == w->key) throw 1; auto a = mka<1, A>(d, v); Kv k = lv<0>(w); a.coords().set(dim(k.key), var<0>(&k)); const Dim names[1] = {dim(*x)}; const auto b = a.drop_coords(scipp::span<const Dim>(names, 1)); o->v[0] = b.coords().size(); o->v[1] = b.coords().contains(dim(v->key)); o->v[2] = b.coords().contains(dim(w->key)); o->v[3] = a.coords().size(); o->v[4] = b.data().content; }
  W ref(O16 *o, const Dv *d, const Kv *v0, const Kv *w0, const lab *x) { Kv vv = *v0, ww = *w0; vv.key = 9; ww.key = 10; const Kv *v = &vv, *w = &ww; if (v->key == w->key || refused<1, A>(d, v) || w->id < 0 || w->bi != 0 || (*x != v->key && *x != w->key)) throw 1; o->v[0] = 1; o->v[1] = *x != v->key; o->v[2] = *x != w->key; o->v[3] = 2; o->v[4] = d->id; }
};
struct P_array_meta { // coords and attrs together, not to be changed; none of the same name
  W impl(O16 *o, const Dv *d, const Kv *v, const Kv *w) { const DataArray a(data<1>(d), items<3>(v), {}, items<0>(w)); const auto m = a.meta(); o->v[0] = m.size(); o->v[1] = m.at(dim(v->key)).content; o->v[2] = m.at(dim(w->key)).content; o->v[3] = m.is_readonly(); o->v[4] = m.sizes() == a.dims(); }
  W ref(O16 *o, const Dv *d, const Kv *v, const Kv *w) { if (refused<1, 3>(d, v) || w->id < 0 || w->bi != 0 || v->key == w->key) throw 1; o->v[0] = 2; o->v[1] = v->id; o->v[2] = w->id; o->v[3] = 1; o->v[4] = 1; }
};
template <int A> struct P_array_rename { // labels of the data and of all coords
  W impl(O16 *o, O16 *p, const Dv *d, const Kv *v, const lab *from, const lab *to, const idx *fail) { const auto a = mka<2, A>(d, v); std::vector<std::pair<Dim, Dim>> names; names.emplace_back(dim(*from), dim(*to)); const auto r = a.rename_dims(names, *fail != 0); dumpv(o, r.data()); dumpv(p, r.coords().at(dim(v->key))); o->v[12] = r.coords().sizes() == r.dims(); }
  W ref(O16 *o, O16 *p, const Dv *d, const Kv *v, const lab *from, const lab *to, const idx *fail) { if (refused<2, A>(d, v)) throw 1; const bool mine = *from == 3 || *from == 5; if (!mine && *fail != 0) throw 1; if (mine && *to != *from && (*to == 3 || *to == 5)) throw 1; if (*to != 3 && *to != 5 && A != 0 && *to == A) throw 1;
    putd<2>(o, d); if (*from == 3) o->v[1] = *to; if (*from == 5) o->v[3] = *to; Kv k = lv<A>(v); refv<(A != 0)>(p, &k); if (A != 0 && *from == A) p->v[1] = *to; o->v[12] = 1; }
};
template <int A, int B, bool RANGE, bool SAME> struct P_array_set_slice { // the coords of what is assigned are among those of the part, and equal where both are aligned; the shapes agree
  W impl(O16 *o, const Dv *d, const Kv *v0, const Dv *e, const Kv *w0, const Sl *q) { Kv vv = *v0, ww = *w0; vv.key = 9; ww.key = SAME ? 9 : 10; const Kv *v = &vv, *w = &ww; Sl k = *q; k.d = 3; k.st = 1; auto a = mka<1, A>(d, v); auto x = data<1>(e); if (!RANGE) { x = Variable(Dimensions{}, e->id); } const DataArray b(x, items<B>(w)); a.setSlice(mkslice<RANGE>(&k), b); o->v[0] = scipp::variable::last_write[0]; o->v[1] = scipp::variable::last_write[1]; o->v[2] = scipp::variable::last_write[2]; }
  W ref(O16 *o, const Dv *d, const Kv *v0, const Dv *e, const Kv *w0, const Sl *q) { Kv vv = *v0, ww = *w0; vv.key = 9; ww.key = SAME ? 9 : 10; const Kv *v = &vv, *w = &ww;
    if (refused<1, A>(d, v) || badd<1>(e)) throw 1; if (RANGE ? refused<1, B>(e, w) : (w->id < 0 || w->bi != 0 || (B != 0 && w->s[0] != 2))) throw 1;
    if (q->b < 0 || (RANGE ? q->e < q->b || q->e > d->s[0] || q->e < 0 : q->b >= d->s[0])) throw 1; const idx n = RANGE ? q->e - q->b : 1;
    if (v->key != w->key) { if (w->al != 0) throw 1; }
    else { const bool al = v->al != 0 && !(!RANGE && A == 3); if (al && w->al != 0) { if (A != 0 || B != 0) throw 1; if (v->id != w->id) throw 1; } } // a part equals no whole in this model
    if (d->ro != 0 || (RANGE && e->s[0] != n)) throw 1; o->v[0] = d->id; o->v[1] = e->id; o->v[2] = q->b; }
};
// ---- masks
inline Masks::holder_type mask(Variable v) { Masks::holder_type m; m.insert_or_assign(std::string("m"), std::move(v)); return m; }
template <int A> Variable mvar(const Kv *v) { Kv k = lv<A>(v); return var<(A != 0)>(&k); }
template <int A> struct P_fresh_array_masks { // masks fit the data
  W impl(O16 *o, O16 *p, const Dv *d, const Kv *v) { const DataArray a(data<2>(d), {}, mask(mvar<A>(v))); dumpv(o, a.data()); dumpv(p, a.masks().at("m")); o->v[12] = a.masks().size(); o->v[13] = a.masks().sizes() == a.dims(); o->v[14] = a.masks().is_readonly(); o->v[15] = a.coords().empty(); }
  W ref(O16 *o, O16 *p, const Dv *d, const Kv *v) { if (refused<2, A>(d, v)) throw 1; putd<2>(o, d); Kv k = lv<A>(v); refv<(A != 0)>(p, &k); o->v[12] = 1; o->v[13] = 1; o->v[14] = 0; o->v[15] = 1; }
};
template <int A, bool RANGE> struct P_fresh_array_slice_masks { // the part of the mask; a mask without the dimension cannot be written through a part
  W impl(O16 *p, const Dv *d, const Kv *v, const Sl *q) { Sl k = *q; k.d = 3; k.st = 1; const DataArray a(data<2>(d), {}, mask(mvar<A>(v))); const auto b = a.slice(mkslice<RANGE>(&k)); O16 u{}; dumpv(&u, b.masks().at("m")); clean(&u); u.v[12] = b.masks().size(); u.v[13] = b.masks().is_readonly(); u.v[14] = b.masks().sizes() == b.dims(); u.v[6] = 0; *p = u; }
  W ref(O16 *p, const Dv *d, const Kv *v, const Sl *q) { if (refused<2, A>(d, v)) throw 1; Sl k = *q; k.d = 3; k.st = 1; L3 l; l.v[0] = 3; l.v[1] = 5; I3 s; s.v[0] = d->s[0]; s.v[1] = d->s[1]; Kv x = lv<A>(v); x.key = 9; O16 u{}; refslice<2, (A != 0), RANGE>(&u, &l, &s, &x, &k, true); clean(&u); u.v[12] = 1; u.v[13] = 1; u.v[14] = 1; u.v[6] = 0; if (A != 3) u.v[7] = 1; *p = u; }
};
template <int A, int B, bool RANGE> struct P_fresh_array_set_slice { // masks are assigned along with the data, and if either cannot be, neither is
  W impl(O16 *o, const Dv *d, const Kv *v, const Dv *e, const Kv *w, const Sl *q) { Sl k = *q; k.d = 3; k.st = 1; if (e->id < 0 || (A == 3 && v->s[0] == d->s[0] + 1)) throw 1; if (A == 3 && v->ro == 0 && (RANGE ? B != 3 || w->s[0] != q->e - q->b : B != 0)) throw 1; /* masks of other shapes are refused, possibly late */ DataArray a(data<1>(d), {}, mask(mvar<A>(v))); auto x = RANGE ? data<1>(e) : Variable(Dimensions{}, e->id); const DataArray b(x, {}, mask(mvar<B>(w))); a.setSlice(mkslice<RANGE>(&k), b); const auto &c = a; o->v[0] = c.data().content; o->v[1] = scipp::variable::log_content; o->v[2] = scipp::variable::log_place; o->v[3] = scipp::variable::log_count; o->v[4] = c.masks().at("m").content; o->v[5] = c.masks().at("m").written; }
  W ref(O16 *o, const Dv *d, const Kv *v, const Dv *e, const Kv *w, const Sl *q) {
    if (refused<1, A>(d, v) || e->id < 0 || (RANGE && badd<1>(e)) || (A == 3 && v->s[0] == d->s[0] + 1)) throw 1; if (RANGE ? refused<1, B>(e, w) : (w->id < 0 || w->bi != 0 || (B != 0 && w->s[0] != 2))) throw 1;
    if (q->b < 0 || (RANGE ? q->e < q->b || q->e > d->s[0] || q->e < 0 : q->b >= d->s[0])) throw 1; const idx n = RANGE ? q->e - q->b : 1;
    if (d->ro != 0 || (RANGE && e->s[0] != n)) throw 1;
    const bool own = A == 3 && v->ro == 0; // the mask has a part of its own
    if (own) { if (RANGE ? (B != 3 || w->s[0] != n) : B != 0) throw 1; }
    else { if (A == 3 || A != B || v->id != w->id || (A != 0 && v->s[0] != w->s[0])) throw 1; }
    o->v[0] = d->id; o->v[1] = d->id * e->id + (own ? v->id * w->id : 0); o->v[2] = (d->id + (own ? v->id : 0)) * q->b; o->v[3] = own ? 2 : 1; o->v[4] = v->id; o->v[5] = own ? w->id : 0; }
};
template <int A, bool WHICH> struct P_fresh_array_equal_masks { // equal arrays have equal masks, and the same ones
  W impl(O16 *o, const Dv *d, const Kv *v, const Kv *w) { const DataArray a(data<1>(d), {}, mask(mvar<A>(v))), b(data<1>(d), {}, WHICH ? mask(mvar<A>(w)) : Masks::holder_type{}); o->v[0] = a == b; o->v[1] = equals_nan(a, b); o->v[2] = b == a; o->v[3] = a != b; }
  W ref(O16 *o, const Dv *d, const Kv *v, const Kv *w) { if (refused<1, A>(d, v) || (WHICH && refused<1, A>(d, w))) throw 1; const bool r = WHICH && v->id == w->id && (A == 0 || v->s[0] == w->s[0]) && (v->al != 0) == (w->al != 0); o->v[0] = o->v[1] = o->v[2] = r; o->v[3] = !r; }
};
template <int A, int OP> struct P_fresh_array_without_mask { // the named masks, which must exist; the original keeps them
  W impl(O16 *o, const Dv *d, const Kv *v) { const DataArray a(data<1>(d), {}, mask(mvar<A>(v))); const std::string names[1] = {OP == 0 ? "m" : "n"}; const auto b = a.drop_masks(scipp::span<const std::string>(names, 1)); o->v[0] = b.masks().size(); o->v[1] = a.masks().size(); o->v[2] = b.data().content; }
  W ref(O16 *o, const Dv *d, const Kv *v) { if (refused<1, A>(d, v) || OP != 0) throw 1; o->v[0] = 0; o->v[1] = 1; o->v[2] = d->id; }
};
template <int A> struct P_fresh_array_rename_masks { // labels of the masks too
  W impl(O16 *p, const Dv *d, const Kv *v, const lab *to) { const DataArray a(data<2>(d), {}, mask(mvar<A>(v))); std::vector<std::pair<Dim, Dim>> names; names.emplace_back(dim(3), dim(*to)); const auto r = a.rename_dims(names, true); dumpv(p, r.masks().at("m")); p->v[12] = r.masks().sizes() == r.dims(); p->v[13] = (idx)r.dims().label(0).id(); }
  W ref(O16 *p, const Dv *d, const Kv *v, const lab *to) { if (refused<2, A>(d, v) || *to == 5 || (A == 7 && *to == 7)) throw 1; Kv k = lv<A>(v); refv<(A != 0)>(p, &k); if (A == 3) p->v[1] = *to; p->v[12] = 1; p->v[13] = *to; }
};
template <int A, int OP> struct P_fresh_array_own_masks { // a copy has masks of its own, a view those of the original; of a slice or of what must not be changed, none can be added or removed
  W impl(O16 *o, const Dv *d, const Kv *v) { DataArray a(data<1>(d), {}, mask(mvar<A>(v))); DataArray b = OP == 0 ? DataArray(a) : OP == 1 ? a.view() : OP == 2 ? a.as_const() : a.slice(Slice{}); b.masks().erase("m"); o->v[0] = a.masks().size(); o->v[1] = b.masks().size(); }
  W ref(O16 *o, const Dv *d, const Kv *v) { if (refused<1, A>(d, v) || OP == 2 || OP == 3) throw 1; o->v[0] = OP == 0; o->v[1] = 0; }
};
template <int A, int B> struct P_fresh_irreducible { // the union of the masks that have the dimension, none if there is none, and never one of them itself
  W impl(O16 *o, const Dv *d, const Kv *v, const Kv *w) { auto x = mask(mvar<A>(v)); x.insert_or_assign(std::string("n"), mvar<B>(w)); const DataArray a(data<2>(d), {}, x); const auto r = irreducible_mask(a.masks(), dim(3)); o->v[0] = r.is_valid(); if (r.is_valid()) { o->v[1] = r.content; o->v[2] = r.is_readonly(); o->v[3] = r.object < 0; o->v[4] = r.dims().contains(dim(3)); } }
  W ref(O16 *o, const Dv *d, const Kv *v, const Kv *w) { if (refused<2, A>(d, v) || refused<2, B>(d, w)) throw 1; o->v[0] = A == 3 || B == 3; if (A == 3 || B == 3) { o->v[1] = (A == 3 ? v->id : 0) + (B == 3 ? w->id : 0); o->v[2] = 0; o->v[3] = 1; o->v[4] = 1; } }
};
template <int OP> struct P_fresh_array_name { // is kept by whatever yields the array in other form
  W impl(O16 *o, const Dv *d, const idx *n) { DataArray a(data<1>(d), Coords::holder_type{}, Masks::holder_type{}, Attrs::holder_type{}, "given"); DataArray b = OP == 0 ? DataArray(a) : OP == 1 ? a.view() : OP == 2 ? a.as_const() : OP == 3 ? a.slice(Slice(dim(3), *n)) : OP == 4 ? a.view_with_coords(a.coords(), "other", false) : OP == 5 ? a.rename_dims(std::vector<std::pair<Dim, Dim>>{{dim(3), dim(5)}}, true) : OP == 6 ? a.drop_coords(scipp::span<const Dim>{}) : OP == 7 ? a.drop_masks(scipp::span<const std::string>{}) : a.drop_attrs(scipp::span<const Dim>{});
    o->v[0] = b.name() == "given"; o->v[1] = b.name() == "other"; }
  W ref(O16 *o, const Dv *d, const idx *n) { if (badd<1>(d)) throw 1; if (OP == 3 && (*n < 0 || *n >= d->s[0])) throw 1; o->v[0] = OP != 4; o->v[1] = OP == 4; }
};
template <int A, int OP> struct P_array_attrs { // leaving out attrs
  W impl(O16 *o, const Dv *d, const Kv *v0) { Kv vv = *v0; vv.key = 9; const Kv *v = &vv; const DataArray a(data<1>(d), {}, {}, items<A>(v)); const Dim names[1] = {dim(OP == 2 ? 10 : 9)}; const DataArray b = OP == 0 ? DataArray(a, scipp::dataset::AttrPolicy::Drop) : OP == 3 ? DataArray(a, scipp::dataset::AttrPolicy::Keep) : a.drop_attrs(scipp::span<const Dim>(names, 1)); o->v[0] = a.attrs().size(); o->v[1] = b.attrs().size(); o->v[2] = b.data().content; }
  W ref(O16 *o, const Dv *d, const Kv *v) { if (refused<1, A>(d, v) || OP == 2) throw 1; o->v[0] = 1; o->v[1] = OP == 3; o->v[2] = d->id; }
};
#define I template struct
I P_array_make<1, 0>; I P_array_make<1, 3>; I P_array_make<1, 7>; I P_array_make<2, 3>; I P_array_make<2, 5>; I P_array_make_attrs<0>; I P_array_make_attrs<3>; I P_array_make_attrs<7>; I P_array_make_dicts<1>; I P_array_make_dicts<2>;
I P_array_copy<0, 3>; I P_array_copy<1, 3>; I P_array_copy<2, 3>; I P_array_copy<4, 3>; I P_array_copy<5, 3>; I P_array_copy<0, 7>; I P_array_view<0>; I P_array_view<1>; I P_array_view<2>;
I P_array_slice<0, false>; I P_array_slice<3, false>; I P_array_slice<5, false>; I P_array_slice<7, false>; I P_array_slice<0, true>; I P_array_slice<3, true>; I P_array_slice<5, true>; I P_array_slice<7, true>;
I P_array_with_coords<3, 7>; I P_array_with_coords<7, 3>; I P_array_with_coords<0, 7>; I P_array_with_coords<3, 0>; I P_array_with_coords<7, 7>;
I P_array_readonly<0>; I P_array_readonly<1>; I P_array_readonly<2>; I P_array_readonly<3>; I P_array_set_data<1, 1>; I P_array_set_data<1, 2>; I P_array_set_data<2, 1>; I P_array_set_data<2, 2>; I P_array_as_const<0>; I P_array_as_const<3>; I P_array_as_const<7>;
I P_array_equal<0, 0>; I P_array_equal<3, 3>; I P_array_equal<3, 7>; I P_array_equal<7, 7>; I P_array_equal_attrs<0, true>; I P_array_equal_attrs<3, true>; I P_array_equal_attrs<0, false>; I P_array_equal_attrs<3, false>; I P_array_drop<0>; I P_array_rename<0>; I P_array_rename<3>; I P_array_rename<7>;
I P_array_set_slice<3, 3, true, true>; I P_array_set_slice<3, 3, true, false>; I P_array_set_slice<3, 3, false, true>; I P_array_set_slice<3, 3, false, false>; I P_array_set_slice<0, 0, true, true>; I P_array_set_slice<0, 0, true, false>; I P_array_set_slice<0, 0, false, true>; I P_array_set_slice<0, 0, false, false>; I P_array_set_slice<3, 0, true, true>; I P_array_set_slice<3, 0, true, false>; I P_array_set_slice<3, 0, false, true>; I P_array_set_slice<3, 0, false, false>; 
I P_fresh_array_masks<0>; I P_fresh_array_masks<3>; I P_fresh_array_masks<5>; I P_fresh_array_masks<7>; I P_fresh_array_slice_masks<0, false>; I P_fresh_array_slice_masks<3, false>; I P_fresh_array_slice_masks<5, false>; I P_fresh_array_slice_masks<0, true>; I P_fresh_array_slice_masks<3, true>; I P_fresh_array_slice_masks<5, true>;
I P_fresh_array_set_slice<3, 3, true>; I P_fresh_array_set_slice<0, 0, true>; I P_fresh_array_set_slice<3, 0, true>; I P_fresh_array_set_slice<0, 3, true>; I P_fresh_array_set_slice<3, 0, false>; I P_fresh_array_set_slice<3, 3, false>; I P_fresh_array_set_slice<0, 0, false>;
I P_fresh_array_equal_masks<0, true>; I P_fresh_array_equal_masks<3, true>; I P_fresh_array_equal_masks<3, false>; I P_fresh_array_without_mask<0, 0>; I P_fresh_array_without_mask<3, 0>; I P_fresh_array_without_mask<3, 1>; I P_fresh_array_rename_masks<0>; I P_fresh_array_rename_masks<3>; I P_fresh_array_rename_masks<5>; I P_fresh_array_rename_masks<7>;
I P_fresh_array_own_masks<0, 0>; I P_fresh_array_own_masks<3, 0>; I P_fresh_array_own_masks<3, 1>; I P_fresh_array_own_masks<3, 2>; I P_fresh_array_own_masks<3, 3>;
I P_fresh_irreducible<0, 5>; I P_fresh_irreducible<3, 5>; I P_fresh_irreducible<5, 3>; I P_fresh_irreducible<3, 3>; I P_fresh_irreducible<0, 3>; I P_fresh_array_name<0>; I P_fresh_array_name<1>; I P_fresh_array_name<2>; I P_fresh_array_name<3>; I P_fresh_array_name<4>; I P_fresh_array_name<5>; I P_fresh_array_name<6>; I P_fresh_array_name<7>; I P_fresh_array_name<8>;
I P_array_attrs<0, 0>; I P_array_attrs<3, 0>; I P_array_attrs<3, 1>; I P_array_attrs<3, 2>; I P_array_attrs<3, 3>;
}
