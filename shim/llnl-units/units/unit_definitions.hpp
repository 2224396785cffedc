// Minimal stand-in for the part of LLNL-Units 0.9.1 that scipp uses.
//
// The real library is not available offline.  The stand-in implements a unit
// as (multiplier, exponents of ten base units, four flags), which is the
// abstraction scipp's Unit wraps.  It exists so that scipp's own sources can be
// compiled unmodified; no verified property depends on its string parser
// beyond the small table in units.hpp.
#pragma once
#include <cmath>
#include <cstdint>
#include <functional>
#include <limits>

namespace llnl::units {
namespace detail {

class unit_data {
public:
  constexpr unit_data() = default;
  constexpr unit_data(int m, int kg_, int s, int A, int K, int mol, int cd,
                      int cur, int cnt, int rad_, unsigned per = 0,
                      unsigned iflag = 0, unsigned eflag = 0, unsigned eq = 0)
      : m_m(m), m_s(s), m_kg(kg_), m_A(A), m_cd(cd), m_K(K), m_mol(mol),
        m_rad(rad_), m_cur(cur), m_cnt(cnt), m_per(per != 0),
        m_i(iflag != 0), m_e(eflag != 0), m_eq(eq != 0) {}
  constexpr int meter() const { return m_m; }
  constexpr int kg() const { return m_kg; }
  constexpr int second() const { return m_s; }
  constexpr int ampere() const { return m_A; }
  constexpr int kelvin() const { return m_K; }
  constexpr int mole() const { return m_mol; }
  constexpr int candela() const { return m_cd; }
  constexpr int currency() const { return m_cur; }
  constexpr int count() const { return m_cnt; }
  constexpr int radian() const { return m_rad; }
  constexpr bool is_per_unit() const { return m_per; }
  constexpr bool has_i_flag() const { return m_i; }
  constexpr bool has_e_flag() const { return m_e; }
  constexpr bool is_equation() const { return m_eq; }
  constexpr bool operator==(const unit_data &o) const {
    return has_same_base(o) && m_per == o.m_per && m_i == o.m_i && m_e == o.m_e;
  }
  constexpr bool operator!=(const unit_data &o) const { return !(*this == o); }
  constexpr bool has_same_base(const unit_data &o) const {
    return m_m == o.m_m && m_s == o.m_s && m_kg == o.m_kg && m_A == o.m_A &&
           m_cd == o.m_cd && m_K == o.m_K && m_mol == o.m_mol &&
           m_rad == o.m_rad && m_cur == o.m_cur && m_cnt == o.m_cnt &&
           m_eq == o.m_eq;
  }
  constexpr bool empty() const { return *this == unit_data{}; }
  constexpr unit_data operator*(const unit_data &o) const {
    return {m_m + o.m_m,     m_kg + o.m_kg,   m_s + o.m_s,
            m_A + o.m_A,     m_K + o.m_K,     m_mol + o.m_mol,
            m_cd + o.m_cd,   m_cur + o.m_cur, m_cnt + o.m_cnt,
            m_rad + o.m_rad, m_per || o.m_per, m_i != o.m_i,
            m_e != o.m_e,    m_eq || o.m_eq};
  }
  constexpr unit_data inv() const {
    return {-m_m,   -m_kg,  -m_s,   -m_A,  -m_K, -m_mol, -m_cd,
            -m_cur, -m_cnt, -m_rad, m_per, m_i,  m_e,    m_eq};
  }
  constexpr unit_data operator/(const unit_data &o) const {
    return *this * o.inv();
  }
  constexpr unit_data pow(int p) const {
    return {m_m * p,   m_kg * p,  m_s * p,   m_A * p, m_K * p,
            m_mol * p, m_cd * p,  m_cur * p, m_cnt * p, m_rad * p,
            m_per,     m_i && (p % 2 != 0), m_e && (p % 2 != 0), m_eq};
  }
  constexpr bool root_ok(int p) const {
    return m_m % p == 0 && m_kg % p == 0 && m_s % p == 0 && m_A % p == 0 &&
           m_K % p == 0 && m_mol % p == 0 && m_cd % p == 0 && m_cur % p == 0 &&
           m_cnt % p == 0 && m_rad % p == 0 && !m_eq;
  }
  constexpr unit_data root(int p) const {
    return {m_m / p,   m_kg / p, m_s / p,   m_A / p,   m_K / p,
            m_mol / p, m_cd / p, m_cur / p, m_cnt / p, m_rad / p,
            m_per,     m_i,      m_e,       m_eq};
  }
  // Bit widths of the 64-bit layout of LLNL-Units.
  constexpr bool in_range() const {
    return in(m_m, 8) && in(m_s, 8) && in(m_kg, 6) && in(m_A, 6) &&
           in(m_cd, 4) && in(m_K, 6) && in(m_mol, 4) && in(m_rad, 6) &&
           in(m_cur, 4) && in(m_cnt, 4);
  }

private:
  static constexpr bool in(int v, int bits) {
    return v >= -(1 << (bits - 1)) && v < (1 << (bits - 1));
  }
  int m_m{0}, m_s{0}, m_kg{0}, m_A{0}, m_cd{0}, m_K{0}, m_mol{0}, m_rad{0},
      m_cur{0}, m_cnt{0};
  bool m_per{false}, m_i{false}, m_e{false}, m_eq{false};
};

} // namespace detail

class precise_unit {
public:
  constexpr precise_unit() = default;
  constexpr precise_unit(const detail::unit_data &base, double mult = 1.0)
      : m_base(base), m_mult(mult) {}
  constexpr precise_unit(double mult) : m_mult(mult) {}
  constexpr precise_unit(double mult, const precise_unit &o)
      : m_base(o.m_base), m_mult(mult * o.m_mult) {}
  constexpr precise_unit(const precise_unit &o, double mult)
      : m_base(o.m_base), m_mult(mult * o.m_mult) {}
  constexpr double multiplier() const { return m_mult; }
  constexpr detail::unit_data base_units() const { return m_base; }
  constexpr std::uint32_t commodity() const { return 0; }
  constexpr bool has_same_base(const precise_unit &o) const {
    return m_base.has_same_base(o.m_base);
  }
  constexpr bool is_exactly_the_same(const precise_unit &o) const {
    return m_base == o.m_base && m_mult == o.m_mult;
  }
  bool operator==(const precise_unit &o) const {
    if (m_base != o.m_base)
      return false;
    if (m_mult == o.m_mult)
      return true;
    return std::abs(m_mult - o.m_mult) <=
           1e-12 * std::fmax(std::abs(m_mult), std::abs(o.m_mult));
  }
  bool operator!=(const precise_unit &o) const { return !(*this == o); }
  constexpr precise_unit operator*(const precise_unit &o) const {
    return {m_base * o.m_base, m_mult * o.m_mult};
  }
  constexpr precise_unit operator/(const precise_unit &o) const {
    return {m_base / o.m_base, m_mult / o.m_mult};
  }
  precise_unit pow(int p) const { return {m_base.pow(p), std::pow(m_mult, p)}; }

private:
  detail::unit_data m_base{};
  double m_mult{1.0};
};

inline bool is_error(const precise_unit &u) {
  return std::isnan(u.multiplier());
}
inline bool is_valid(const precise_unit &u) { return !is_error(u); }
inline precise_unit sqrt(const precise_unit &u) {
  if (!u.base_units().root_ok(2) || u.multiplier() < 0)
    return precise_unit(std::numeric_limits<double>::quiet_NaN());
  return {u.base_units().root(2), std::sqrt(u.multiplier())};
}
inline bool times_overflows(const precise_unit &a, const precise_unit &b) {
  return !(a.base_units() * b.base_units()).in_range();
}
inline bool divides_overflows(const precise_unit &a, const precise_unit &b) {
  return !(a.base_units() / b.base_units()).in_range();
}
inline bool pow_overflows(const precise_unit &a, int p) {
  return !a.base_units().pow(p).in_range();
}
inline double quick_convert(const precise_unit &a, const precise_unit &b) {
  return a.base_units() == b.base_units()
             ? a.multiplier() / b.multiplier()
             : std::numeric_limits<double>::quiet_NaN();
}

class precise_measurement {
public:
  constexpr precise_measurement(double v, const precise_unit &u)
      : m_value(v), m_unit(u) {}
  constexpr double value() const { return m_value; }
  constexpr precise_unit units() const { return m_unit; }

private:
  double m_value;
  precise_unit m_unit;
};
constexpr precise_measurement operator*(double v, const precise_unit &u) {
  return {v, u};
}

namespace precise {
constexpr precise_unit one{};
constexpr precise_unit meter{detail::unit_data(1, 0, 0, 0, 0, 0, 0, 0, 0, 0)};
constexpr precise_unit m = meter;
constexpr precise_unit kg{detail::unit_data(0, 1, 0, 0, 0, 0, 0, 0, 0, 0)};
constexpr precise_unit second{detail::unit_data(0, 0, 1, 0, 0, 0, 0, 0, 0, 0)};
constexpr precise_unit s = second;
constexpr precise_unit ampere{detail::unit_data(0, 0, 0, 1, 0, 0, 0, 0, 0, 0)};
constexpr precise_unit A = ampere;
constexpr precise_unit K{detail::unit_data(0, 0, 0, 0, 1, 0, 0, 0, 0, 0)};
constexpr precise_unit mol{detail::unit_data(0, 0, 0, 0, 0, 1, 0, 0, 0, 0)};
constexpr precise_unit cd{detail::unit_data(0, 0, 0, 0, 0, 0, 1, 0, 0, 0)};
constexpr precise_unit currency{detail::unit_data(0, 0, 0, 0, 0, 0, 0, 1, 0, 0)};
constexpr precise_unit count{detail::unit_data(0, 0, 0, 0, 0, 0, 0, 0, 1, 0)};
constexpr precise_unit rad{detail::unit_data(0, 0, 0, 0, 0, 0, 0, 0, 0, 1)};
constexpr precise_unit deg{rad, 3.14159265358979323846 / 180.0};
constexpr precise_unit kilo{1e3};
constexpr precise_unit milli{1e-3};
constexpr precise_unit micro{1e-6};
constexpr precise_unit nano{1e-9};
constexpr precise_unit ms{second, 1e-3};
constexpr precise_unit us{second, 1e-6};
constexpr precise_unit ns{second, 1e-9};
constexpr precise_unit mm{meter, 1e-3};
constexpr precise_unit min{second, 60.0};
constexpr precise_unit hr{second, 3600.0};
constexpr precise_unit day{second, 86400.0};
namespace time {
constexpr precise_unit year{second, 31536000.0};
constexpr precise_unit ag{second, 31556952.0};
constexpr precise_unit mog{second, 31556952.0 / 12.0};
} // namespace time
constexpr precise_unit N{detail::unit_data(1, 1, -2, 0, 0, 0, 0, 0, 0, 0)};
constexpr precise_unit J{detail::unit_data(2, 1, -2, 0, 0, 0, 0, 0, 0, 0)};
namespace distance {
constexpr precise_unit angstrom{meter, 1e-10};
}
namespace energy {
constexpr precise_unit eV{J, 1.602176634e-19};
}
namespace custom {
constexpr bool is_custom_unit(const detail::unit_data &) { return false; }
constexpr bool is_custom_count_unit(const detail::unit_data &) { return false; }
constexpr int custom_count_unit_number(const detail::unit_data &) { return 0; }
} // namespace custom
} // namespace precise
} // namespace llnl::units

namespace std {
template <> struct hash<llnl::units::precise_unit> {
  size_t operator()(const llnl::units::precise_unit &u) const {
    const auto b = u.base_units();
    size_t h = 17;
    for (int v : {b.meter(), b.kg(), b.second(), b.ampere(), b.kelvin(),
                  b.mole(), b.candela(), b.currency(), b.count(), b.radian()})
      h = h * 31 + static_cast<size_t>(v + 200);
    return h * 31 + hash<float>()(static_cast<float>(u.multiplier()));
  }
};
} // namespace std
