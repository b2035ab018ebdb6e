#pragma once
#include "unit_definitions.hpp"
namespace llnl::units {
inline constexpr std::uint64_t strict_si = 1;
precise_unit unit_from_string(std::string s, std::uint64_t flags = 0);
std::string to_string(const precise_unit &u, std::uint64_t flags = 0);
void addUserDefinedUnit(const std::string &, const precise_unit &);
void clearUserDefinedUnits();
double quick_convert(const precise_unit &a, const precise_unit &b);
precise_unit sqrt(const precise_unit &u);
bool is_valid(const precise_unit &u);
bool is_error(const precise_unit &u);
} // namespace llnl::units
