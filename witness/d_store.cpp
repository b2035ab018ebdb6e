// Dictionaries, buffers and views: symbolic keys, values and positions at constant size.
#include "d_common.h"
#include "scipp/core/dict.h"
#include "scipp/core/element_array.h"
namespace wit {
using D = scipp::core::Dict<Dim, idx>;
using K4 = Arr<lab, 4>; using V4 = Arr<idx, 4>; using O12 = Arr<idx, 12>;
template <int N> bool twice(const lab *k) { for (int i = 0; i < N; ++i) for (int j = 0; j < i; ++j) if (k[i] == k[j]) return true; return false; }
template <int N> D mkd(const K4 *k, const V4 *v) { if (twice<N>(k->v)) throw 1; D d; for (int i = 0; i < N; ++i) d.insert_or_assign(dim(k->v[i]), v->v[i]); return d; }
inline void dumpd(O12 *o, const D &d) { o->v[0] = d.size(); int i = 1; for (auto it = d.begin(); it != d.end(); ++it) { const auto &[k, v] = *it; o->v[i++] = (idx)k.id(); o->v[i++] = v; } }
template <int N> struct P_dict_insert {
  W impl(O12 *o, const K4 *k, const V4 *v, const lab *x, const idx *y) { auto d = mkd<N>(k, v); d.insert_or_assign(dim(*x), *y); dumpd(o, d); }
  W ref(O12 *o, const K4 *k, const V4 *v, const lab *x, const idx *y) {
    if (twice<N>(k->v)) throw 1; const int p = pos<N>(k->v, *x); o->v[0] = N + (p < 0);
    for (int i = 0; i < N; ++i) { o->v[1 + 2 * i] = k->v[i]; o->v[2 + 2 * i] = i == p ? *y : v->v[i]; }
    if (p < 0) { o->v[1 + 2 * N] = *x; o->v[2 + 2 * N] = *y; } }
};
template <int N> struct P_dict_erase {
  W impl(O12 *o, const K4 *k, const V4 *v, const lab *x) { auto d = mkd<N>(k, v); d.erase(dim(*x)); dumpd(o, d); }
  W ref(O12 *o, const K4 *k, const V4 *v, const lab *x) {
    const int p = pos<N>(k->v, *x); if (twice<N>(k->v) || p < 0) throw 1; o->v[0] = N - 1;
    int j = 1; for (int i = 0; i < N; ++i) if (i != p) { o->v[j++] = k->v[i]; o->v[j++] = v->v[i]; } }
};
template <int N> struct P_dict_extract {
  W impl(O12 *o, const K4 *k, const V4 *v, const lab *x) { auto d = mkd<N>(k, v); const idx r = d.extract(dim(*x)); dumpd(o, d); o->v[9] = r; }
  W ref(O12 *o, const K4 *k, const V4 *v, const lab *x) {
    const int p = pos<N>(k->v, *x); if (twice<N>(k->v) || p < 0) throw 1; o->v[0] = N - 1; o->v[9] = v->v[p];
    int j = 1; for (int i = 0; i < N; ++i) if (i != p) { o->v[j++] = k->v[i]; o->v[j++] = v->v[i]; } }
};
// the values of an erased key do not come back, nor does its place
template <int N> struct P_dict_reinsert {
  W impl(O12 *o, const K4 *k, const V4 *v, const lab *x, const idx *y) { auto d = mkd<N>(k, v); d.erase(dim(*x)); d.insert_or_assign(dim(*x), *y); dumpd(o, d); }
  W ref(O12 *o, const K4 *k, const V4 *v, const lab *x, const idx *y) {
    const int p = pos<N>(k->v, *x); if (twice<N>(k->v) || p < 0) throw 1; o->v[0] = N;
    int j = 1; for (int i = 0; i < N; ++i) if (i != p) { o->v[j++] = k->v[i]; o->v[j++] = v->v[i]; } o->v[j++] = *x; o->v[j++] = *y; }
};
template <int N> struct P_dict_lookup {
  W impl(V4 *o, const K4 *k, const V4 *v, const lab *x) { auto d = mkd<N>(k, v); const auto &c = d; o->v[0] = c[dim(*x)]; o->v[1] = d[dim(*x)]; o->v[2] = c.at(dim(*x)); o->v[3] = d.at(dim(*x)); }
  W ref(V4 *o, const K4 *k, const V4 *v, const lab *x) { const int p = pos<N>(k->v, *x); if (twice<N>(k->v) || p < 0) throw 1; for (auto &r : o->v) r = v->v[p]; }
};
template <int N, int OP> struct P_dict_missing {
  W impl(V4 *o, const K4 *k, const V4 *v, const lab *x) {
    auto d = mkd<N>(k, v); const auto &c = d; o->v[0] = OP == 0 ? c[dim(*x)] : OP == 1 ? d[dim(*x)] : OP == 2 ? c.at(dim(*x)) : OP == 3 ? d.at(dim(*x)) : d.extract(dim(*x)); }
  W ref(V4 *o, const K4 *k, const V4 *v, const lab *x) { const int p = pos<N>(k->v, *x); if (twice<N>(k->v) || p < 0) throw 1; o->v[0] = v->v[p]; }
};
template <int N> struct P_dict_assign_through {
  W impl(O12 *o, const K4 *k, const V4 *v, const lab *x, const idx *y) { auto d = mkd<N>(k, v); d[dim(*x)] = *y; dumpd(o, d); }
  W ref(O12 *o, const K4 *k, const V4 *v, const lab *x, const idx *y) {
    const int p = pos<N>(k->v, *x); if (twice<N>(k->v) || p < 0) throw 1; o->v[0] = N;
    for (int i = 0; i < N; ++i) { o->v[1 + 2 * i] = k->v[i]; o->v[2 + 2 * i] = i == p ? *y : v->v[i]; } }
};
template <int N> struct P_dict_contains {
  W impl(V4 *o, const K4 *k, const V4 *v, const lab *x) { auto d = mkd<N>(k, v); const auto &c = d; o->v[0] = c.contains(dim(*x)); o->v[1] = c.empty(); o->v[2] = c.find(dim(*x)) == c.end(); o->v[3] = d.find(dim(*x)) == d.end(); }
  W ref(V4 *o, const K4 *k, const V4 *, const lab *x) { if (twice<N>(k->v)) throw 1; const int p = pos<N>(k->v, *x); o->v[0] = p >= 0; o->v[1] = N == 0; o->v[2] = o->v[3] = p < 0; }
};
// from the found key onwards
template <int N, bool C> struct P_dict_find {
  W impl(O12 *o, const K4 *k, const V4 *v, const lab *x) {
    auto d = mkd<N>(k, v); using T = std::conditional_t<C, const D, D>; T &r = d; int i = 0; for (auto it = r.find(dim(*x)); it != r.end(); ++it) { o->v[i++] = (idx)it->first.id(); o->v[i++] = it->second; } }
  W ref(O12 *o, const K4 *k, const V4 *v, const lab *x) { if (twice<N>(k->v)) throw 1; const int p = pos<N>(k->v, *x); int j = 0; if (p >= 0) for (int i = p; i < N; ++i) { o->v[j++] = k->v[i]; o->v[j++] = v->v[i]; } }
};
template <int N> struct P_dict_find_assign {
  W impl(O12 *o, const K4 *k, const V4 *v, const lab *x, const idx *y) { auto d = mkd<N>(k, v); auto it = d.find(dim(*x)); if (it != d.end()) (*it).second = *y; dumpd(o, d); }
  W ref(O12 *o, const K4 *k, const V4 *v, const lab *x, const idx *y) {
    const int p = pos<N>(k->v, *x); if (twice<N>(k->v)) throw 1; o->v[0] = N;
    for (int i = 0; i < N; ++i) { o->v[1 + 2 * i] = k->v[i]; o->v[2 + 2 * i] = i == p ? *y : v->v[i]; } }
};
template <int N> struct P_dict_iterate {
  W impl(O12 *o, const K4 *k, const V4 *v) {
    auto d = mkd<N>(k, v); const auto &c = d; int i = 0;
    for (auto it = c.keys_begin(); it != c.keys_end(); ++it) o->v[i++] = (idx)(*it).id();
    for (auto it = c.values_begin(); it != c.values_end(); ++it) o->v[i++] = *it;
    for (auto it = d.values_begin(); it != d.values_end(); ++it) o->v[i++] = *it; }
  W ref(O12 *o, const K4 *k, const V4 *v) { if (twice<N>(k->v)) throw 1; for (int i = 0; i < N; ++i) { o->v[i] = k->v[i]; o->v[N + i] = o->v[2 * N + i] = v->v[i]; } }
};
template <int N> struct P_dict_values_assign {
  W impl(O12 *o, const K4 *k, const V4 *v, const V4 *w) { auto d = mkd<N>(k, v); int i = 0; for (auto it = d.values_begin(); it != d.values_end(); ++it) *it = w->v[i++]; dumpd(o, d); }
  W ref(O12 *o, const K4 *k, const V4 *, const V4 *w) { if (twice<N>(k->v)) throw 1; o->v[0] = N; for (int i = 0; i < N; ++i) { o->v[1 + 2 * i] = k->v[i]; o->v[2 + 2 * i] = w->v[i]; } }
};
template <int N> struct P_dict_transform {
  W impl(O12 *o, const K4 *k, const V4 *v, const idx *y) {
    auto d = mkd<N>(k, v); int i = 0; const auto f = [a = *y](const auto &x) { return x + a; }; const auto g = [](const auto &x) { return 3 * x; };
    auto e = d.values_end().transform(f);
    for (auto it = d.values_begin().transform(f); it != e; ++it) o->v[i++] = *it;
    auto e2 = d.values_end().transform(f).transform(g);
    for (auto it = d.values_begin().transform(f).transform(g); it != e2; ++it) o->v[i++] = *it; }
  W ref(O12 *o, const K4 *k, const V4 *v, const idx *y) { if (twice<N>(k->v)) throw 1; for (int i = 0; i < N; ++i) { o->v[i] = v->v[i] + *y; o->v[N + i] = 3 * (v->v[i] + *y); } }
};
// the same on iterators that are kept, over items, and through ->
template <int N> struct P_dict_transform_kept {
  W impl(O12 *o, const K4 *k, const V4 *v, const idx *y) {
    auto d = mkd<N>(k, v); int i = 0; const auto f = [a = *y](const auto &x) { return x + a; }; const auto g = [](const auto &x) { return 3 * x; };
    const auto b = d.values_begin(), e = d.values_end(); const auto fb = b.transform(f), fe = e.transform(f); const auto ge = fe.transform(g);
    for (auto it = fb.transform(g); it != ge; ++it) o->v[i++] = *it;
    for (auto it = fb; it != fe; ++it) o->v[i++] = *it;
    const auto h = [](const auto &item) { return std::pair<idx, idx>(item.second, (idx)item.first.id()); };
    const auto ie = d.end().transform(h);
    for (auto it = d.begin().transform(h); it != ie; ++it) { o->v[i++] = it->first; o->v[i++] = it->second; } }
  W ref(O12 *o, const K4 *k, const V4 *v, const idx *y) { if (twice<N>(k->v)) throw 1; for (int i = 0; i < N; ++i) { o->v[i] = 3 * (v->v[i] + *y); o->v[N + i] = v->v[i] + *y; o->v[2 * N + 2 * i] = v->v[i]; o->v[2 * N + 2 * i + 1] = k->v[i]; } }
};
template <int N, int M> struct P_dict_swap_iterators {
  W impl(V4 *o, const K4 *k, const V4 *v, const K4 *l, const V4 *w) { auto d = mkd<N>(k, v), e = mkd<M>(l, w); auto a = d.begin(), b = e.begin(); swap(a, b); o->v[0] = (*a).second; o->v[1] = (*b).second; ++a; ++b; o->v[2] = a == e.end(); o->v[3] = b == d.end(); }
  W ref(V4 *o, const K4 *k, const V4 *v, const K4 *l, const V4 *w) { if (twice<N>(k->v) || twice<M>(l->v)) throw 1; o->v[0] = w->v[0]; o->v[1] = v->v[0]; o->v[2] = M == 1; o->v[3] = N == 1; }
};
template <int N> struct P_dict_literal {
  static D lit(const K4 *k, const V4 *v) {
    if constexpr (N == 0) return D(std::initializer_list<std::pair<const Dim, idx>>{}); else if constexpr (N == 1) return D{{dim(k->v[0]), v->v[0]}}; else if constexpr (N == 2) return D{{dim(k->v[0]), v->v[0]}, {dim(k->v[1]), v->v[1]}};
    else return D{{dim(k->v[0]), v->v[0]}, {dim(k->v[1]), v->v[1]}, {dim(k->v[2]), v->v[2]}}; }
  W impl(O12 *o, const K4 *k, const V4 *v) { dumpd(o, lit(k, v)); }
  W ref(O12 *o, const K4 *k, const V4 *v) { if (twice<N>(k->v)) throw 1; o->v[0] = N; for (int i = 0; i < N; ++i) { o->v[1 + 2 * i] = k->v[i]; o->v[2 + 2 * i] = v->v[i]; } }
};
template <int N> struct P_dict_clear {
  W impl(O12 *o, const K4 *k, const V4 *v, const lab *x, const idx *y) { auto d = mkd<N>(k, v); d.clear(); o->v[11] = d.empty(); d.insert_or_assign(dim(*x), *y); dumpd(o, d); }
  W ref(O12 *o, const K4 *k, const V4 *, const lab *x, const idx *y) { if (twice<N>(k->v)) throw 1; o->v[0] = 1; o->v[1] = *x; o->v[2] = *y; o->v[11] = 1; }
};
template <int N> struct P_dict_copy { // a copy is independent of the original
  W impl(O12 *o, O12 *o2, const K4 *k, const V4 *v, const lab *x, const idx *y) { auto d = mkd<N>(k, v); auto e = d; e.insert_or_assign(dim(*x), *y); dumpd(o, d); dumpd(o2, e); }
  W ref(O12 *o, O12 *o2, const K4 *k, const V4 *v, const lab *x, const idx *y) {
    if (twice<N>(k->v)) throw 1; const int p = pos<N>(k->v, *x); o->v[0] = N; o2->v[0] = N + (p < 0);
    for (int i = 0; i < N; ++i) { o->v[1 + 2 * i] = o2->v[1 + 2 * i] = k->v[i]; o->v[2 + 2 * i] = v->v[i]; o2->v[2 + 2 * i] = i == p ? *y : v->v[i]; }
    if (p < 0) { o2->v[1 + 2 * N] = *x; o2->v[2 + 2 * N] = *y; } }
};
// an iterator is refused once the dictionary has changed size
template <int OP, class F> static void use(V4 *o, D &d, const lab *x, const idx *y, F f) {
    if (OP < 4) { auto it = d.begin(); f(d); if (OP == 0) o->v[0] = (*it).second; else if (OP == 1) ++it; else if (OP == 2) o->v[0] = it == it; else o->v[0] = it != it; }
    else if (OP < 6) { auto it = d.values_begin(); f(d); if (OP == 4) o->v[0] = *it; else ++it; }
    else { const D &c = d; auto it = c.keys_begin(); f(d); if (OP == 6) o->v[0] = (idx)(*it).id(); else ++it; } }
template <int N, int OP> struct P_dict_stale {
  W impl(V4 *o, const K4 *k, const V4 *v, const lab *x, const idx *y) { if (pos<N>(k->v, *x) >= 0) throw 1; auto d = mkd<N>(k, v); use<OP>(o, d, x, y, [&](D &e) { e.insert_or_assign(dim(*x), *y); }); }
  W ref(V4 *, const K4 *, const V4 *, const lab *, const idx *) { throw 1; }
};
template <int N, int OP> struct P_dict_stale_erase {
  W impl(V4 *o, const K4 *k, const V4 *v, const lab *x) { auto d = mkd<N>(k, v); use<OP>(o, d, x, nullptr, [&](D &e) { e.erase(dim(*x)); }); }
  W ref(V4 *, const K4 *, const V4 *, const lab *) { throw 1; }
};
// assigning to an existing key leaves iterators valid
template <int N> struct P_dict_kept {
  W impl(V4 *o, const K4 *k, const V4 *v, const idx *y) { auto d = mkd<N>(k, v); auto it = d.begin(); d.insert_or_assign(dim(k->v[0]), *y); o->v[0] = (*it).second; ++it; o->v[1] = N > 1 ? (*it).second : it == d.end(); }
  W ref(V4 *o, const K4 *k, const V4 *v, const idx *y) { if (twice<N>(k->v)) throw 1; o->v[0] = *y; o->v[1] = N > 1 ? v->v[1] : 1; }
};
// ---- buffers
template <class T> using E4 = Arr<T, 6>;
template <class T> using EA = scipp::core::element_array<T>;
using scipp::core::init_for_overwrite;
template <class T> void dumpe(E4<T> *o, I3 *n, const EA<T> &a, int k = 0) { n->v[k] = a.size(); n->v[k + 1] = (a ? 2 : 0) + a.empty(); int i = 0; for (const auto &x : a) o->v[i++] = x; }
template <class T, int N> EA<T> mke(const E4<T> *v) { return EA<T>(v->v, v->v + N); }
template <class T, int N> void refe(E4<T> *o, I3 *n, const E4<T> *v, int k = 0) { n->v[k] = N; n->v[k + 1] = 2 + (N == 0); for (int i = 0; i < N; ++i) o->v[i] = v->v[i]; }
template <class T, int N> struct P_buffer_range { W impl(E4<T> *o, I3 *n, const E4<T> *v) { dumpe(o, n, mke<T, N>(v)); } W ref(E4<T> *o, I3 *n, const E4<T> *v) { refe<T, N>(o, n, v); } };
template <class T, int N> struct P_buffer_fill { W impl(E4<T> *o, I3 *n, const T *x) { dumpe(o, n, EA<T>(N, *x)); } W ref(E4<T> *o, I3 *n, const T *x) { n->v[0] = N; n->v[1] = 2 + (N == 0); for (int i = 0; i < N; ++i) o->v[i] = *x; } };
template <class T, int N> struct P_buffer_zero { W impl(E4<T> *o, I3 *n) { dumpe(o, n, EA<T>(N)); } W ref(E4<T> *o, I3 *n) { n->v[0] = N; n->v[1] = 2 + (N == 0); for (int i = 0; i < N; ++i) o->v[i] = T{}; } };
template <class T, int N> struct P_buffer_negative { W impl(E4<T> *o, I3 *n, const idx *s) { if (*s >= 0) throw 1; EA<T> a(*s, init_for_overwrite); n->v[0] = a.size(); } W ref(E4<T> *, I3 *n, const idx *s) { if (*s != -1) throw 1; n->v[0] = -1; } };
template <class T, int N> struct P_buffer_null { W impl(E4<T> *o, I3 *n) { dumpe(o, n, EA<T>()); } W ref(E4<T> *, I3 *n) { n->v[0] = -1; n->v[1] = 0; } };
template <class T, int N> struct P_buffer_copy { // and independence
  W impl(E4<T> *o, I3 *n, E4<T> *p, const E4<T> *v, const T *x) { auto a = mke<T, N>(v); auto b = a; if (N) b.data()[0] = *x; dumpe(o, n, a); dumpe(p, n, b, 2); }
  W ref(E4<T> *o, I3 *n, E4<T> *p, const E4<T> *v, const T *x) { refe<T, N>(o, n, v); refe<T, N>(p, n, v, 2); if (N) p->v[0] = *x; }
};
template <class T, int N, int M> struct P_buffer_assign {
  W impl(E4<T> *o, I3 *n, E4<T> *p, const E4<T> *v, const E4<T> *w, const T *x) { auto a = mke<T, N>(v); auto b = mke<T, M>(w); b = a; if (N) b.data()[0] = *x; dumpe(o, n, a); dumpe(p, n, b, 2); }
  W ref(E4<T> *o, I3 *n, E4<T> *p, const E4<T> *v, const E4<T> *, const T *x) { refe<T, N>(o, n, v); refe<T, N>(p, n, v, 2); if (N) p->v[0] = *x; }
};
template <class T, int N> struct P_buffer_self_assign {
  W impl(E4<T> *o, I3 *n, const E4<T> *v) { auto a = mke<T, N>(v); const auto &b = a; a = b; dumpe(o, n, a); }
  W ref(E4<T> *o, I3 *n, const E4<T> *v) { refe<T, N>(o, n, v); }
};
template <class T, int N> struct P_buffer_copy_null { W impl(E4<T> *o, I3 *n) { EA<T> a; EA<T> b(a); dumpe(o, n, b); } W ref(E4<T> *, I3 *n) { n->v[0] = -1; n->v[1] = 0; } };
template <class T, int N> struct P_buffer_assign_null { W impl(E4<T> *o, I3 *n, const E4<T> *v) { EA<T> a; auto b = mke<T, N>(v); b = a; dumpe(o, n, b); } W ref(E4<T> *, I3 *n, const E4<T> *) { n->v[0] = -1; n->v[1] = 0; } };
template <class T, int N> struct P_buffer_move {
  W impl(E4<T> *o, I3 *n, const E4<T> *v) { auto a = mke<T, N>(v); auto b = std::move(a); n->v[2] = a.size(); n->v[3] = !a; dumpe(o, n, b); }
  W ref(E4<T> *o, I3 *n, const E4<T> *v) { refe<T, N>(o, n, v); n->v[2] = -1; n->v[3] = 1; }
};
template <class T, int N, int M> struct P_buffer_move_assign {
  W impl(E4<T> *o, I3 *n, const E4<T> *v, const E4<T> *w) { auto a = mke<T, N>(v); auto b = mke<T, M>(w); b = std::move(a); n->v[2] = a.size(); n->v[3] = !a; dumpe(o, n, b); }
  W ref(E4<T> *o, I3 *n, const E4<T> *v, const E4<T> *) { refe<T, N>(o, n, v); n->v[2] = -1; n->v[3] = 1; }
};
template <class T, int N> struct P_buffer_reset { W impl(E4<T> *o, I3 *n, const E4<T> *v) { auto a = mke<T, N>(v); a.reset(); dumpe(o, n, a); n->v[2] = a.data() == nullptr; } W ref(E4<T> *, I3 *n, const E4<T> *) { n->v[0] = -1; n->v[1] = 0; n->v[2] = 1; } };
template <class T, int N, int M> struct P_buffer_resize { W impl(E4<T> *o, I3 *n, const E4<T> *v) { auto a = mke<T, N>(v); a.resize(M); dumpe(o, n, a); } W ref(E4<T> *o, I3 *n, const E4<T> *) { n->v[0] = M; n->v[1] = 2 + (M == 0); for (int i = 0; i < M; ++i) o->v[i] = T{}; } };
template <class T, int N, int M> struct P_buffer_resize_raw {
  W impl(E4<T> *o, I3 *n, const E4<T> *v, const E4<T> *w) { auto a = mke<T, N>(v); a.resize(M, init_for_overwrite); for (int i = 0; i < M; ++i) a.data()[i] = w->v[i]; dumpe(o, n, a); }
  W ref(E4<T> *o, I3 *n, const E4<T> *, const E4<T> *w) { refe<T, M>(o, n, w); }
};
template <class T, int N> struct P_buffer_literal {
  W impl(E4<T> *o, I3 *n, const E4<T> *v) { dumpe(o, n, EA<T>{v->v[0], v->v[1], v->v[2]}); }
  W ref(E4<T> *o, I3 *n, const E4<T> *v) { refe<T, 3>(o, n, v); }
};
template <class T, int N> struct P_buffer_container {
  struct C { using value_type = T; const T *b; const T *begin() const { return b; } const T *end() const { return b + N; } };
  W impl(E4<T> *o, I3 *n, const E4<T> *v) { dumpe(o, n, EA<T>(C{v->v})); }
  W ref(E4<T> *o, I3 *n, const E4<T> *v) { refe<T, N>(o, n, v); }
};
#define I template struct
#define N3(X) I X<0>; I X<1>; I X<2>; I X<3>;
N3(P_dict_insert) N3(P_dict_erase) N3(P_dict_extract) N3(P_dict_reinsert) N3(P_dict_lookup) N3(P_dict_assign_through) N3(P_dict_contains) N3(P_dict_find_assign) N3(P_dict_iterate) N3(P_dict_values_assign) N3(P_dict_transform)
N3(P_dict_literal) N3(P_dict_clear) N3(P_dict_copy)
I P_dict_find<0, false>; I P_dict_find<1, false>; I P_dict_find<2, false>; I P_dict_find<3, false>; I P_dict_find<0, true>; I P_dict_find<1, true>; I P_dict_find<2, true>; I P_dict_find<3, true>;
#define M5(N) I P_dict_missing<N, 0>; I P_dict_missing<N, 1>; I P_dict_missing<N, 2>; I P_dict_missing<N, 3>; I P_dict_missing<N, 4>;
M5(0) M5(1) M5(2)
#define S8(X, N) I X<N, 0>; I X<N, 1>; I X<N, 2>; I X<N, 3>; I X<N, 4>; I X<N, 5>; I X<N, 6>; I X<N, 7>;
S8(P_dict_stale, 1) S8(P_dict_stale, 2) S8(P_dict_stale_erase, 1) S8(P_dict_stale_erase, 2) S8(P_dict_stale_erase, 3)
I P_dict_transform_kept<0>; I P_dict_transform_kept<1>; I P_dict_transform_kept<2>; I P_dict_transform_kept<3>; I P_dict_swap_iterators<1, 1>; I P_dict_swap_iterators<1, 2>; I P_dict_swap_iterators<2, 1>; I P_dict_swap_iterators<2, 3>;
I P_dict_kept<1>; I P_dict_kept<2>; I P_dict_kept<3>;
#define B1(X, T) I X<T, 0>; I X<T, 1>; I X<T, 3>;
#define B2(X, T) I X<T, 0, 0>; I X<T, 0, 2>; I X<T, 2, 0>; I X<T, 2, 2>; I X<T, 1, 3>; I X<T, 3, 1>;
#define BT(T) B1(P_buffer_range, T) B1(P_buffer_fill, T) B1(P_buffer_zero, T) I P_buffer_negative<T, 0>; I P_buffer_null<T, 0>; B1(P_buffer_copy, T) B2(P_buffer_assign, T) B1(P_buffer_self_assign, T) I P_buffer_copy_null<T, 0>; \
  B1(P_buffer_assign_null, T) B1(P_buffer_move, T) B2(P_buffer_move_assign, T) B1(P_buffer_reset, T) B2(P_buffer_resize, T) B2(P_buffer_resize_raw, T) I P_buffer_literal<T, 3>; B1(P_buffer_container, T)
BT(double) BT(int)
}
