// Comparison of dimension labels.
#include "scipp/units/dim.h"
#include <functional>
namespace wit {
using scipp::Dim; using lab = unsigned short;
#define W [[gnu::used]] static void
struct P_dim_compare {
  W impl(long *o, const lab *a, const lab *b) { const Dim x(static_cast<Dim::Id>(*a)), y(static_cast<Dim::Id>(*b)); *o = (x == y) | ((x != y) << 1) | ((x < y) << 2); }
  W ref(long *o, const lab *a, const lab *b) { *o = (*a == *b) | ((*a != *b) << 1) | ((*a < *b) << 2); }
};
struct P_dim_id {
  W impl(long *o, const lab *a) { *o = static_cast<lab>(Dim(static_cast<Dim::Id>(*a)).id()); }
  W ref(long *o, const lab *a) { *o = *a; }
};
struct P_dim_hash { // equal labels have equal hashes: the hash is a function of the id alone
  W impl(long *o, const lab *a) { *o = std::hash<Dim>{}(Dim(static_cast<Dim::Id>(*a))); }
  W ref(long *o, const lab *a) { *o = std::hash<lab>{}(*a); }
};
}
