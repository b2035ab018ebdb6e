#include "kernel_witness.h"
#define V2 template <class A, class B> static auto value(A a, B b)
#define R2 template <class A, class B, class VA, class VB> static auto variance(A a, B b, VA va, VB vb)
#define V1 template <class A> static auto value(A a)
#define R1 template <class A, class VA> static auto variance(A a, VA va)
#define NUM WIT_SUP((scalar<T> && ...))
namespace wit {
// the arithmetic type in which mixed operands are evaluated
template <class A, class B> using cm = decltype(A() + B());
template <class A, class B> auto fdiv_ref(A a, B b) {
  using C = std::common_type_t<A, B>;
  if constexpr (flt<C>) return std::floor(static_cast<C>(a) / static_cast<C>(b));
  else {
    C x = a, y = b;
    if (y == 0) return C(0);
    C q = x / y;
    if (x % y != 0 && ((x < 0) != (y < 0))) q = q - 1;
    return q;
  }
}
template <class A, class B> auto mod_ref(A a, B b) {
  using C = std::common_type_t<A, B>;
  if constexpr (flt<C>) { return b == 0 ? C(NAN) : static_cast<C>(static_cast<C>(a) - std::floor(static_cast<C>(a) / static_cast<C>(b)) * static_cast<C>(b)); }
  else {
    C x = a, y = b;
    if (y == 0) return C(0);
    return C(x - fdiv_ref(x, y) * y);
  }
}
} // namespace wit

WIT_BEGIN(add, element::add) NUM V2 { return a + b; } R2 { return va + vb; } WIT_END
WIT_BEGIN(subtract, element::subtract) NUM V2 { return a - b; } R2 { return va + vb; } WIT_END
WIT_BEGIN(multiply, element::multiply) NUM V2 { return a * b; } R2 { using D = cm<VA, VB>; return va * D(b) * D(b) + vb * D(a) * D(a); } WIT_END
WIT_BEGIN(divide, element::divide) NUM
  V2 { if constexpr (flt<A> || flt<B>) return a / b; else return double(a) / double(b); }
  R2 { using D = cm<VA, VB>; return va / (D(b) * D(b)) + vb * D(a) * D(a) / (D(b) * D(b) * D(b) * D(b)); } WIT_END
WIT_BEGIN(floor_divide, element::floor_divide) NUM V2 { return fdiv_ref(a, b); } R2 { return 0.0; } WIT_END
WIT_BEGIN(mod, element::mod) NUM V2 { return mod_ref(a, b); } R2 { return 0.0; } WIT_END
WIT_BEGIN(negative, element::negative) NUM V1 { return -a; } R1 { return va; } WIT_END

WIT_BEGIN(add_equals, element::add_equals) NUM V2 { return a + b; } R2 { return va + vb; } WIT_END
WIT_BEGIN(subtract_equals, element::subtract_equals) NUM V2 { return a - b; } R2 { return va + vb; } WIT_END
WIT_BEGIN(multiply_equals, element::multiply_equals) NUM V2 { return a * b; } R2 { using D = cm<VA, VB>; return va * D(b) * D(b) + vb * D(a) * D(a); } WIT_END
WIT_BEGIN(divide_equals, element::divide_equals) NUM V2 { return a / b; }
  R2 { using D = cm<VA, VB>; return va / (D(b) * D(b)) + vb * D(a) * D(a) / (D(b) * D(b) * D(b) * D(b)); } WIT_END
WIT_BEGIN(floor_divide_equals, element::floor_divide_equals) NUM V2 { return fdiv_ref(a, b); } R2 { return 0.0; } WIT_END
WIT_BEGIN(mod_equals, element::mod_equals) NUM V2 { return mod_ref(a, b); } R2 { return 0.0; } WIT_END
WIT_BEGIN(nan_add_equals, element::nan_add_equals) NUM
  V2 { if (r_isnan(b)) return r_isnan(a) ? A(0) : a; else return r_isnan(a) ? A(b) : A(a + b); }
  template <class A, class B, class VA, class VB> static auto variance(A a, B b, VA va, VB vb) {
    using D = cm<VA, VB>; return (r_isnan(a) ? D(0) : D(va)) + (r_isnan(b) ? D(0) : D(vb)); } WIT_END

WIT_INST(add, 2, false) WIT_INST(subtract, 2, false) WIT_INST(multiply, 2, false) WIT_INST(divide, 2, false)
WIT_INST(floor_divide, 2, false) WIT_INST(mod, 2, false) WIT_INST(negative, 1, false)
WIT_INST(add_equals, 2, true) WIT_INST(subtract_equals, 2, true) WIT_INST(multiply_equals, 2, true) WIT_INST(divide_equals, 2, true)
WIT_INST(floor_divide_equals, 2, true) WIT_INST(mod_equals, 2, true) WIT_INST(nan_add_equals, 2, true)
