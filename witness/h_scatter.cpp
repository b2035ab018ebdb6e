// Copying events to their bins when there are many: in chunks, and however many bins there are.
#include "scipp/common/span.h"
#include "scipp/common/index.h"
namespace wit { template <long S> struct Events { long ix[5]; long size() const { return S; } long operator[](long i) const { return ix[i]; } }; }
namespace scipp { template <long S> long size(const wit::Events<S> &) { return 5; } }
#include "scipp/core/element/map_to_bins.h"
#include "core/subbin_sizes.cpp"
namespace wit {
#define W [[gnu::used]] static void
template <class T, long N> struct Arr { T v[N]; };
using scipp::span; using scipp::core::ValueAndVariance;
namespace el = scipp::core::element;
template <class T, long N> span<const T> sp(const Arr<T, N> *a) { return span<const T>(a->v, N); }
// --- the same in chunks, for many bins: positions of the bins given, constant bin indices, any content
template <int C, int NB, int... I> struct P_map_to_bins_chunks {
  static constexpr int N = sizeof...(I);
  W impl(Arr<double, NB * N> *o, Arr<long, NB> *c, const Arr<double, N> *d) {
    const long ix[] = {I...}; Arr<long, NB> b{}; for (int k = 0; k < NB; ++k) b.v[k] = k * N; double r[NB * N]{};
    auto out = span<double>(r, NB * N); auto bins = span<long>(b.v, NB); el::map_to_bins_chunkwise<C>(out, bins, sp(d), span<const long>(ix, N));
    for (int k = 0; k < NB * N; ++k) o->v[k] = r[k]; *c = b; }
  W ref(Arr<double, NB * N> *o, Arr<long, NB> *c, const Arr<double, N> *d) {
    const long ix[] = {I...}; for (int k = 0; k < NB * N; ++k) o->v[k] = 0; for (int k = 0; k < NB; ++k) c->v[k] = k * N;
    for (int j = 0; j < N; ++j) if (ix[j] >= 0) o->v[c->v[ix[j]]++] = d->v[j]; }
};
template <int C, int NB, int... I> struct P_map_to_bins_chunks_variances {
  static constexpr int N = sizeof...(I);
  W impl(Arr<double, 2 * NB * N> *o, Arr<long, NB> *c, const Arr<double, N> *d, const Arr<double, N> *u) {
    const long ix[] = {I...}; Arr<long, NB> b{}; for (int k = 0; k < NB; ++k) b.v[k] = k * N; double r[2 * NB * N]{};
    ValueAndVariance<span<double>> out{span<double>(r, NB * N), span<double>(r + NB * N, NB * N)}; auto bins = span<long>(b.v, NB); el::map_to_bins_chunkwise<C>(out, bins, ValueAndVariance<span<const double>>{sp(d), sp(u)}, span<const long>(ix, N));
    for (int k = 0; k < 2 * NB * N; ++k) o->v[k] = r[k]; *c = b; }
  W ref(Arr<double, 2 * NB * N> *o, Arr<long, NB> *c, const Arr<double, N> *d, const Arr<double, N> *u) {
    const long ix[] = {I...}; for (int k = 0; k < 2 * NB * N; ++k) o->v[k] = 0; for (int k = 0; k < NB; ++k) c->v[k] = k * N;
    for (int j = 0; j < N; ++j) if (ix[j] >= 0) { o->v[NB * N + c->v[ix[j]]] = u->v[j]; o->v[c->v[ix[j]]++] = d->v[j]; } }
};
template struct P_map_to_bins_chunks<2, 3, 0, 1, 2>; template struct P_map_to_bins_chunks<2, 3, 2, 0, 2>; template struct P_map_to_bins_chunks<2, 3, 1, -1, 1>; template struct P_map_to_bins_chunks<2, 4, 3, 2, 1, 0>; template struct P_map_to_bins_chunks<2, 4, 3, -1, 3, 1>; template struct P_map_to_bins_chunks<1, 2, 1, 0, 1>; template struct P_map_to_bins_chunks<4, 4, 3, 0, 3>; template struct P_map_to_bins_chunks<2, 3, -1, -1>;
template struct P_map_to_bins_chunks<1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>; template struct P_map_to_bins_chunks<2, 1, 0, -1, 0, 0, 0, 0, 0, 0, 0, -1>; // more than one block
template struct P_map_to_bins_chunks_variances<2, 3, 0, 2, 0>; template struct P_map_to_bins_chunks_variances<2, 4, 3, 1, 3>; template struct P_map_to_bins_chunks_variances<1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0>;
// --- however many bins there are: two of them hold events, A and B, the others none; the number of events is that of a larger table
template <long N, long A, long B> struct Bins { long pos[2]; long extra; auto size() const { return N; } long &operator[](long i) { return i == A ? pos[0] : i == B ? pos[1] : extra; } auto begin() const { return pos; } auto end() const { return pos + 2; } };
template <long N, long A, long B> struct Offsets { auto sizes() const { return Bins<N, A, B>{{0, 4}, 8}; } };
template <long N, long A, long B, long PER> struct P_map_to_many_bins {
  W impl(Arr<double, 12> *o, const Arr<double, 5> *d) { double r[12]{}; const auto out = span<double>(r, 12); el::bin(out, Offsets<N, A, B>{}, sp(d), Events<N * PER>{{A, B, -1, B, A}}); for (int k = 0; k < 12; ++k) o->v[k] = r[k]; }
  W ref(Arr<double, 12> *o, const Arr<double, 5> *d) { for (int k = 0; k < 12; ++k) o->v[k] = 0; o->v[0] = d->v[0]; o->v[1] = d->v[4]; o->v[4] = d->v[1]; o->v[5] = d->v[3]; }
};
template struct P_map_to_many_bins<100, 3, 99, 9>; template struct P_map_to_many_bins<600, 3, 599, 1>; template struct P_map_to_many_bins<600, 3, 599, 9>; template struct P_map_to_many_bins<600, 128, 127, 9>; template struct P_map_to_many_bins<16384, 16383, 0, 9>; template struct P_map_to_many_bins<16385, 16384, 255, 9>;
template struct P_map_to_many_bins<65536, 65535, 256, 9>; template struct P_map_to_many_bins<65537, 65536, 511, 9>; template struct P_map_to_many_bins<262145, 262144, 512, 9>;
}
