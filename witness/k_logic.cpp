#include "kernel_witness.h"
#define V2 template <class A, class B> static auto value(A a, B b)
#define R2 template <class A, class B, class VA, class VB> static auto variance(A a, B b, VA va, VB vb)
#define V1 template <class A> static auto value(A a)
#define R1 template <class A, class VA> static auto variance(A a, VA va)
#define NUM WIT_SUP((scalar<T> && ...))
#define NOVAR template <class... X> static auto variance(X...) { return 0.0; }
namespace wit {
template <class A, class B> auto diff_abs(A x, B y) { auto d = x - y; return d < 0 ? decltype(d)(-d) : d; }
}
WIT_BEGIN(less, element::less) NUM V2 { return a < b; } NOVAR WIT_END
WIT_BEGIN(greater, element::greater) NUM V2 { return a > b; } NOVAR WIT_END
WIT_BEGIN(less_equal, element::less_equal) NUM V2 { return a <= b; } NOVAR WIT_END
WIT_BEGIN(greater_equal, element::greater_equal) NUM V2 { return a >= b; } NOVAR WIT_END
WIT_BEGIN(equal, element::equal) NUM V2 { return a == b; } NOVAR WIT_END
WIT_BEGIN(not_equal, element::not_equal) NUM V2 { return !(a == b); } NOVAR WIT_END
WIT_BEGIN(isclose, element::isclose) NUM template <class A, class B, class C> static auto value(A x, B y, C t) { return diff_abs(x, y) <= t; } NOVAR WIT_END
WIT_BEGIN(isclose_equal_nan, element::isclose_equal_nan) NUM
 template <class A, class B, class C> static auto value(A x, B y, C t) {
   if (r_isnan(x) && r_isnan(y)) return true;
   if constexpr (flt<A> && flt<B>) if (r_isinf(x) && x == y) return true;
   return diff_abs(x, y) <= t; } NOVAR WIT_END
WIT_BEGIN(max_equals, element::max_equals) NUM V2 { return r_isnan(a) ? a : r_isnan(b) ? b : a < b ? b : a; }
  R2 { return r_isnan(a) ? (r_isnan(b) ? vb : va) : r_isnan(b) ? vb : a < b ? vb : va; } WIT_END
WIT_BEGIN(nanmax_equals, element::nanmax_equals) NUM V2 { return r_isnan(a) ? b : r_isnan(b) ? a : a < b ? b : a; }
  R2 { return r_isnan(a) ? vb : r_isnan(b) ? va : a < b ? vb : va; } WIT_END
WIT_BEGIN(min_equals, element::min_equals) NUM V2 { return r_isnan(a) ? a : r_isnan(b) ? b : b < a ? b : a; }
  R2 { return r_isnan(a) ? (r_isnan(b) ? vb : va) : r_isnan(b) ? vb : b < a ? vb : va; } WIT_END
WIT_BEGIN(nanmin_equals, element::nanmin_equals) NUM V2 { return r_isnan(a) ? b : r_isnan(b) ? a : b < a ? b : a; }
  R2 { return r_isnan(a) ? vb : r_isnan(b) ? va : b < a ? vb : va; } WIT_END
WIT_BEGIN(logical_and, element::logical_and) NUM V2 { return a && b; } NOVAR WIT_END
WIT_BEGIN(logical_or, element::logical_or) NUM V2 { return a || b; } NOVAR WIT_END
WIT_BEGIN(logical_xor, element::logical_xor) NUM V2 { return (a && !b) || (!a && b); } NOVAR WIT_END
WIT_BEGIN(logical_not, element::logical_not) NUM V1 { return !a; } NOVAR WIT_END
WIT_BEGIN(logical_and_equals, element::logical_and_equals) NUM V2 { return a && b; } NOVAR WIT_END
WIT_BEGIN(logical_or_equals, element::logical_or_equals) NUM V2 { return a || b; } NOVAR WIT_END
WIT_BEGIN(logical_xor_equals, element::logical_xor_equals) NUM V2 { return (a && !b) || (!a && b); } NOVAR WIT_END
WIT_BEGIN(where, element::where) NUM template <class C, class A, class B> static auto value(C c, A a, B b) { return c ? a : b; }
  template <class C, class A, class B, class VC, class VA, class VB> static auto variance(C c, A, B, VC, VA va, VB vb) { return c ? va : vb; } WIT_END

WIT_BEGIN(isnan, element::isnan) NUM V1 { return r_isnan(a); } NOVAR WIT_END
WIT_BEGIN(isinf, element::isinf) NUM V1 { return r_isinf(a); } NOVAR WIT_END
WIT_BEGIN(isfinite, element::isfinite) NUM V1 { return !r_isnan(a) && !r_isinf(a); } NOVAR WIT_END
WIT_BEGIN(isposinf, element::isposinf) NUM V1 { return r_isinf(a) && a > 0; } NOVAR WIT_END
WIT_BEGIN(isneginf, element::isneginf) NUM V1 { return r_isinf(a) && a < 0; } NOVAR WIT_END
#define REPL(NAME, COND) \
WIT_BEGIN(NAME, element::NAME) NUM V2 { return (COND) ? b : a; } R2 { return (COND) ? vb : va; } WIT_END \
WIT_BEGIN(NAME##_out_arg, element::NAME##_out_arg) NUM template <class O, class A, class B> static auto value(O, A a, B b) { return (COND) ? b : a; } \
  template <class O, class A, class B, class VO, class VA, class VB> static auto variance(O, A a, B, VO, VA va, VB vb) { return (COND) ? vb : va; } WIT_END
REPL(nan_to_num, r_isnan(a))
REPL(positive_inf_to_num, a == A(INFINITY))
REPL(negative_inf_to_num, a == A(-INFINITY))

WIT_BEGIN(values, element::values) NUM V1 { return a; } NOVAR WIT_END
WIT_BEGIN(fill, element::fill) NUM V2 { return b; } R2 { return vb; } WIT_END
WIT_BEGIN(fill_zeros, element::fill_zeros) NUM V1 { return A(0); } R1 { return VA(0); } WIT_END
WIT_BEGIN(issorted_nondescending, element::issorted_nondescending) NUM template <class O, class A, class B> static auto value(O o, A a, B b) { return o && a <= b; } NOVAR WIT_END
WIT_BEGIN(issorted_nonascending, element::issorted_nonascending) NUM template <class O, class A, class B> static auto value(O o, A a, B b) { return o && a >= b; } NOVAR WIT_END

WIT_INST(less, 2, false) WIT_INST(greater, 2, false) WIT_INST(less_equal, 2, false) WIT_INST(greater_equal, 2, false) WIT_INST(equal, 2, false) WIT_INST(not_equal, 2, false)
WIT_INST(isclose, 3, false) WIT_INST(isclose_equal_nan, 3, false)
WIT_INST(max_equals, 2, true) WIT_INST(min_equals, 2, true) WIT_INST(nanmax_equals, 2, true) WIT_INST(nanmin_equals, 2, true)
WIT_INST(logical_and, 2, false) WIT_INST(logical_or, 2, false) WIT_INST(logical_xor, 2, false) WIT_INST(logical_not, 1, false)
WIT_INST(logical_and_equals, 2, true) WIT_INST(logical_or_equals, 2, true) WIT_INST(logical_xor_equals, 2, true)
WIT_INST(where, 3, false)
WIT_INST(isnan, 1, false) WIT_INST(isinf, 1, false) WIT_INST(isfinite, 1, false) WIT_INST(isposinf, 1, false) WIT_INST(isneginf, 1, false)
WIT_INST(nan_to_num, 2, false) WIT_INST(positive_inf_to_num, 2, false) WIT_INST(negative_inf_to_num, 2, false)
WIT_INST(nan_to_num_out_arg, 3, true) WIT_INST(positive_inf_to_num_out_arg, 3, true) WIT_INST(negative_inf_to_num_out_arg, 3, true)
WIT_INST(values, 1, false) WIT_INST(fill, 2, true) WIT_INST(fill_zeros, 1, true)
WIT_INST(issorted_nondescending, 3, true) WIT_INST(issorted_nonascending, 3, true)
