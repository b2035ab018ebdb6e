#pragma once
#include "unit_definitions.hpp"
namespace llnl::units {
inline constexpr std::uint64_t strict_si = 1;
precise_unit unit_from_string(std::string, std::uint64_t = 0);
std::string to_string(const precise_unit &, std::uint64_t = 0);
void addUserDefinedUnit(const std::string &, const precise_unit &);
void clearUserDefinedUnits();
double quick_convert(const precise_unit &, const precise_unit &);
} // namespace llnl::units
