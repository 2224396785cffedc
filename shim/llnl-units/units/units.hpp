// See unit_definitions.hpp.
#pragma once
#include <cctype>
#include <cstdlib>
#include <map>
#include <sstream>
#include <string>
#include <utility>
#include <vector>

#include "unit_definitions.hpp"

namespace llnl::units {

constexpr std::uint64_t strict_si = 1;

namespace detail {
inline std::map<std::string, precise_unit> &user_defined() {
  static std::map<std::string, precise_unit> table;
  return table;
}

inline const std::vector<std::pair<std::string, precise_unit>> &unit_table() {
  using namespace precise;
  static const std::vector<std::pair<std::string, precise_unit>> table{
      {"", one},
      {"one", one},
      {"m", meter},
      {"kg", kg},
      {"s", second},
      {"A", ampere},
      {"K", K},
      {"mol", mol},
      {"cd", cd},
      {"$", currency},
      {"item", count},
      {"count", count},
      {"counts", count},
      {"rad", rad},
      {"deg", deg},
      {"km", precise_unit(meter, 1e3)},
      {"cm", precise_unit(meter, 1e-2)},
      {"mm", mm},
      {"um", precise_unit(meter, 1e-6)},
      {"nm", precise_unit(meter, 1e-9)},
      {"pm", precise_unit(meter, 1e-12)},
      {"fm", precise_unit(meter, 1e-15)},
      {"am", precise_unit(meter, 1e-18)},
      {"angstrom", distance::angstrom},
      {"ms", ms},
      {"us", us},
      {"ns", ns},
      {"min", min},
      {"h", hr},
      {"hr", hr},
      {"day", day},
      {"D", day},
      {"mog", time::mog},
      {"a_g", time::ag},
      {"N", N},
      {"J", J},
      {"eV", energy::eV},
      {"meV", precise_unit(energy::eV, 1e-3)},
      {"percent", precise_unit(0.01)},
      {"%", precise_unit(0.01)},
      {"arbitraryunit", precise_unit(unit_data(0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1))},
  };
  return table;
}

inline precise_unit error_unit() {
  return precise_unit(std::numeric_limits<double>::quiet_NaN());
}

inline precise_unit atom(const std::string &s) {
  if (const auto it = user_defined().find(s); it != user_defined().end())
    return it->second;
  for (const auto &[name, unit] : unit_table())
    if (name == s)
      return unit;
  if (!s.empty()) {
    char *end = nullptr;
    const double v = std::strtod(s.c_str(), &end);
    if (end == s.c_str() + s.size())
      return precise_unit(v);
  }
  return error_unit();
}

inline precise_unit factor(const std::string &s) {
  const auto caret = s.find('^');
  const auto star = s.find("**");
  if (caret == std::string::npos && star == std::string::npos)
    return atom(s);
  const auto pos = caret == std::string::npos ? star : caret;
  const auto len = caret == std::string::npos ? 2u : 1u;
  const auto base = atom(s.substr(0, pos));
  char *end = nullptr;
  const auto exps = s.substr(pos + len);
  const long p = std::strtol(exps.c_str(), &end, 10);
  if (exps.empty() || *end != 0)
    return error_unit();
  return base.pow(static_cast<int>(p));
}
} // namespace detail

inline precise_unit unit_from_string(std::string s, std::uint64_t = 0) {
  std::string t;
  for (const char c : s)
    if (c != ' ')
      t += c;
  precise_unit result{};
  char op = '*';
  std::size_t begin = 0;
  for (std::size_t i = 0; i <= t.size(); ++i) {
    const bool power =
        i + 1 < t.size() && t[i] == '*' && t[i + 1] == '*';
    if (power) {
      ++i;
      continue;
    }
    if (i == t.size() || t[i] == '*' || t[i] == '/') {
      const auto f = detail::factor(t.substr(begin, i - begin));
      if (is_error(f))
        return f;
      result = op == '*' ? result * f : result / f;
      if (i < t.size())
        op = t[i];
      begin = i + 1;
    }
  }
  return result;
}

inline std::string to_string(const precise_unit &u) {
  for (const auto &[name, unit] : detail::unit_table())
    if (unit == u)
      return name;
  const auto b = u.base_units();
  std::string num, den;
  const auto add = [&](const char *name, int p) {
    if (p == 0)
      return;
    auto &side = p > 0 ? num : den;
    const int q = p > 0 ? p : -p;
    if (p > 0 ? !num.empty() : false)
      side += "*";
    if (p < 0)
      side += "/";
    side += name;
    if (q != 1)
      side += "^" + std::to_string(q);
  };
  add("m", b.meter());
  add("kg", b.kg());
  add("s", b.second());
  add("A", b.ampere());
  add("K", b.kelvin());
  add("mol", b.mole());
  add("cd", b.candela());
  add("$", b.currency());
  add("item", b.count());
  add("rad", b.radian());
  if (u.multiplier() != 1.0) {
    std::ostringstream os;
    os.precision(17);
    os << u.multiplier();
    num = num.empty() ? os.str() : os.str() + "*" + num;
  }
  if (num.empty())
    num = "1";
  return num + den;
}

inline void addUserDefinedUnit(const std::string &name, const precise_unit &u) {
  detail::user_defined()[name] = u;
}
inline void clearUserDefinedUnits() { detail::user_defined().clear(); }

} // namespace llnl::units
