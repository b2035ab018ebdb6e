// Shared parts of the index and dimension witnesses.
#ifdef WITNESS_STATE // state that has no public constructor
#define private public
#define protected public
#endif
#include <boost/container/small_vector.hpp>
#include "scipp/core/dimensions.h"
#include "scipp/core/strides.h"
#include "scipp/core/view_index.h"
#include "scipp/core/multi_index.h"
#undef private
#undef protected
namespace wit {
using scipp::Dim; using scipp::core::Dimensions; using scipp::core::Sizes; using scipp::core::Strides; using scipp::core::Slice;
using idx = long; using lab = unsigned short;
template <class T, std::size_t N> struct Arr { T v[N]; };
using L3 = Arr<lab, 4>; using I3 = Arr<idx, 4>; using Out = Arr<idx, 13>;
#define W [[gnu::used]] static void
inline Dim dim(lab l) { return Dim(static_cast<Dim::Id>(l)); }
template <int N> bool bad(const lab *l, const idx *s) {
  for (int i = 0; i < N; ++i) { if (l[i] == 0 || s[i] < 0) return true; for (int j = 0; j < i; ++j) if (l[i] == l[j]) return true; }
  return false;
}
template <int N> int pos(const lab *l, lab x) { for (int i = N - 1; i >= 0; --i) if (l[i] == x) return i; return -1; }
template <int N> Dimensions mk(const L3 *l, const I3 *s) { if (bad<N>(l->v, s->v)) throw 1; Dimensions d; for (int i = 0; i < N; ++i) d.addInner(dim(l->v[i]), s->v[i]); return d; }
template <int N> Sizes mks(const L3 *l, const I3 *s) { if (bad<N>(l->v, s->v)) throw 1; Sizes d; for (int i = 0; i < N; ++i) d.set(dim(l->v[i]), s->v[i]); return d; }
inline void dump(Out *o, const Sizes &d) {
  o->v[0] = d.size(); for (int i = 0; i < d.size(); ++i) { o->v[1 + 2 * i] = (idx)d.labels()[i].id(); o->v[2 + 2 * i] = d.sizes()[i]; }
}
struct Put { Out *o; idx n = 0; void operator()(lab l, idx s) { o->v[1 + 2 * n] = l; o->v[2 + 2 * n] = s; ++n; } ~Put() { } void end() { o->v[0] = n; } };
}
