#pragma once
#include "units.hpp"
namespace llnl::units {
bool times_overflows(const precise_unit &, const precise_unit &);
bool divides_overflows(const precise_unit &, const precise_unit &);
bool pow_overflows(const precise_unit &, int);
} // namespace llnl::units
