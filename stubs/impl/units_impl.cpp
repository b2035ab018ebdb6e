// Executable stand-in for the few LLNL-Units functions scipp calls.  Only used by
// demonstrations and by hand-run experiments, never by a check.
#include <units/units.hpp>
#include <units/units_util.hpp>
#include <map>
#include <sstream>
namespace llnl::units {
namespace {
const std::map<std::string, precise_unit> &table() {
  using namespace precise;
  static const std::map<std::string, precise_unit> t{
      {"", one}, {"one", one}, {"m", m}, {"kg", kg}, {"s", s}, {"K", K}, {"counts", count}, {"count", count},
      {"rad", rad}, {"deg", deg}, {"us", precise_unit{1e-6, s}}, {"\xc2\xb5s", precise_unit{1e-6, s}}, {"ns", ns}, {"ms", ms}, {"mm", mm},
      {"min", min}, {"h", hr}, {"hr", hr}, {"day", day}, {"D", day}, {"angstrom", distance::angstrom}, {"eV", energy::eV},
      {"meV", precise_unit{1e-3, energy::eV}}, {"cm", precise_unit{1e-2, m}}, {"km", precise_unit{1e3, m}}, {"g", precise_unit{1e-3, kg}}, {"percent", precise_unit{0.01, one}}, {"%", precise_unit{0.01, one}},
      {"Hz", precise_unit{detail::unit_data(0,0,-1,0,0,0,0,0,0,0)}}, {"N", precise_unit{detail::unit_data(1,1,-2,0,0,0,0,0,0,0)}}, {"J", precise_unit{detail::unit_data(2,1,-2,0,0,0,0,0,0,0)}},
      {"um", precise_unit{1e-6, m}}, {"nm", precise_unit{1e-9, m}}, {"a_g", precise_unit{31556952.0, s}}, {"month", precise_unit{2629746.0, s}}, {"mog", precise_unit{2629746.0, s}}, {"yog", precise_unit{31556952.0, s}}, {"mon", precise_unit{2629746.0, s}}, {"Y", precise_unit{31556952.0, s}}, {"year", precise_unit{31556952.0, s}}, {"mol", precise_unit{detail::unit_data(0,0,0,0,0,1,0,0,0,0)}}, {"A", precise_unit{detail::unit_data(0,0,0,1,0,0,0,0,0,0)}}};
  return t;
}
} // namespace
precise_unit sqrt(const precise_unit &u) {
  if (u.base_units().has_odd()) return precise_unit(detail::unit_data(0,0,0,0,0,0,0,0,0,0,0,0,1,1), 1.0);
  return {u.base_units().scale(1, 2), std::sqrt(u.multiplier())};
}
bool is_error(const precise_unit &u) { return u.base_units().is_equation() && u.base_units().has_e_flag(); }
bool is_valid(const precise_unit &u) { return !is_error(u); }
precise_unit unit_from_string(std::string str, std::uint64_t) {
  if (auto it = table().find(str); it != table().end()) return it->second;
  precise_unit r = precise::one; bool div = false; std::string tok;
  auto flush = [&]() {
    if (tok.empty()) return true;
    int p = 1; auto h = tok.find('^'); std::string b = tok.substr(0, h);
    if (h != std::string::npos) p = atoi(tok.c_str() + h + 1);
    precise_unit u = precise::one;
    if (auto it = table().find(b); it != table().end()) u = it->second;
    else { char *e; double v = strtod(b.c_str(), &e); if (*e) return false; u = precise_unit(v); }
    u = u.pow(p); r = div ? r / u : r * u; tok.clear(); return true;
  };
  for (char c : str) {
    if (c == '*' || c == '/' ) { if (!flush()) goto bad; div = c == '/'; }
    else tok += c;
  }
  if (flush()) return r;
bad:
  return precise_unit(detail::unit_data(0,0,0,0,0,0,0,0,0,0,0,0,1,1), 1.0);
}
std::string to_string(const precise_unit &u, std::uint64_t) {
  for (auto &[k, v] : table()) if (!k.empty() && k != "one" && v == u) return k;
  std::ostringstream o; const auto b = u.base_units(); if (u.multiplier() != 1.0) o << u.multiplier();
  auto f = [&](const char *n, int e) { if (e) { if (o.tellp() > 0) o << "*"; o << n; if (e != 1) o << "^" << e; } };
  f("m", b.meter()); f("kg", b.kg()); f("s", b.second()); f("A", b.ampere()); f("K", b.kelvin()); f("mol", b.mole()); f("counts", b.count()); f("rad", b.radian());
  return o.str();
}
void addUserDefinedUnit(const std::string &, const precise_unit &) {}
void clearUserDefinedUnits() {}
double quick_convert(const precise_unit &a, const precise_unit &b) { return a.has_same_base(b) ? a.multiplier() / b.multiplier() : std::nan(""); }
bool times_overflows(const precise_unit &, const precise_unit &) { return false; }
bool divides_overflows(const precise_unit &, const precise_unit &) { return false; }
bool pow_overflows(const precise_unit &u, int p) { const auto b = u.base_units(); auto o = [p](int e) { return e != 0 && std::abs((long)e * p) > 7; }; return o(b.meter()) || o(b.kg()) || o(b.second()) || o(b.ampere()) || o(b.kelvin()) || o(b.count()) || o(b.radian()); }
} // namespace llnl::units
