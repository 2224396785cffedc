// JSON <-> variables (and, with VOBJ_DATASET, data arrays and datasets):
//   {"d": shape, "v": values, "w": variances, "hv": has variances, "u": unit, "t": element type}
#pragma once
#include "scipp/core/eigen.h"
#include "scipp/variable/arithmetic.h"
#include "scipp/variable/shape.h"
#include "scipp/variable/structures.h"
#include "scipp/variable/variable.h"
#include "vshape.h"
namespace vt {
using namespace scipp;
using namespace scipp::variable;
using std::string;
inline units::Unit unit_of(const json &j) {
  if (j[0] == 0)
    return units::none;
  units::Unit u = units::one;
  for (int i = 0; i < std::abs(j[1].get<int>()); ++i)
    u = j[1] > 0 ? u * units::m : u / units::m;
  for (int i = 0; i < std::abs(j[2].get<int>()); ++i)
    u = j[2] > 0 ? u * units::s : u / units::s;
  return u;
}
inline json unit_json_slow(const units::Unit &u) {
  if (u == units::none)
    return {0, 0, 0};
  for (int i = -7; i < 8; ++i)
    for (int k = -7; k < 8; ++k)
      if (u == unit_of({1, i, k}))
        return {1, i, k};
  return {9, 9, 9};
}
inline json unit_json(const units::Unit &u) {
  static std::vector<std::pair<units::Unit, json>> known;
  for (const auto &[k, j] : known)
    if (k == u)
      return j;
  known.emplace_back(u, unit_json_slow(u));
  return known.back().second;
}
template <class T> inline T from_int(int i) {
  if constexpr (std::is_same_v<T, string>)
    return std::to_string(i);
  else if constexpr (std::is_same_v<T, bool>)
    return i != 0;
  else if constexpr (std::is_floating_point_v<T>)
    return i == NaN ? std::numeric_limits<T>::quiet_NaN()
           : i == PosInf ? std::numeric_limits<T>::infinity()
           : i == NegInf ? -std::numeric_limits<T>::infinity() : T(i);
  else if constexpr (std::is_same_v<T, core::time_point>)
    return core::time_point(i);
  else
    return static_cast<T>(i);
}
template <class T> inline int to_int(const T &v, double scale = 1.0) {
  if constexpr (std::is_same_v<T, string>)
    return std::stoi(v);
  else if constexpr (std::is_same_v<T, bool>)
    return v ? 1 : 0;
  else if constexpr (std::is_same_v<T, core::time_point>)
    return v.time_since_epoch() == std::numeric_limits<int64_t>::max() ? Hi
           : v.time_since_epoch() == std::numeric_limits<int64_t>::min() ? Lo : num(v.time_since_epoch());
  else {
    if (v == std::numeric_limits<T>::max())
      return Hi;
    if (v == std::numeric_limits<T>::lowest())
      return Lo;
    if constexpr (std::is_floating_point_v<T>)
      return num(static_cast<double>(v), scale, sizeof(T) == 4 ? 2e-6 : 1e-9);
    else
      return num(static_cast<int64_t>(v));
  }
}
// calls f with a value of the element type
template <class F> inline auto with_type(const string &t, F &&f) {
  if (t == "f8")
    return f(double{});
  if (t == "f4")
    return f(float{});
  if (t == "i8")
    return f(int64_t{});
  if (t == "i4")
    return f(int32_t{});
  if (t == "bool")
    return f(bool{});
  if (t == "vec")
    return f(Eigen::Vector3d{});
  if (t == "dt")
    return f(core::time_point{});
  return f(string{});
}
inline string type_name(const Variable &v) {
  const auto t = v.dtype();
  return t == dtype<double> ? "f8" : t == dtype<float> ? "f4" : t == dtype<int64_t> ? "i8" : t == dtype<int32_t> ? "i4"
       : t == dtype<bool> ? "bool" : t == dtype<Eigen::Vector3d> ? "vec" : t == dtype<string> ? "str" : t == dtype<core::time_point> ? "dt" : "?";
}
inline double make_scale = 1.0; // of coords of type f8 (vobj_ds.h)
inline Variable make(const json &e) {
  return with_type(e["t"], [&](auto proto) {
    using T = decltype(proto);
    const auto d = dims(e["s"]);
    const auto u = unit_of(e["u"]);
    const auto &v = e["v"];
    element_array<T> vals(d.volume(), core::init_for_overwrite);
    if constexpr (std::is_same_v<T, Eigen::Vector3d>) {
      for (scipp::index i = 0; i < d.volume(); ++i)
        vals.data()[i] = Eigen::Vector3d(from_int<double>(v[3 * i].get<int>()), from_int<double>(v[3 * i + 1].get<int>()), from_int<double>(v[3 * i + 2].get<int>()));
    } else {
      for (scipp::index i = 0; i < d.volume(); ++i)
        vals.data()[i] = from_int<T>(v[i].get<int>());
      if constexpr (std::is_same_v<T, double>)
        if (make_scale != 1.0)
          for (scipp::index i = 0; i < d.volume(); ++i)
            vals.data()[i] *= make_scale;
      if constexpr (std::is_floating_point_v<T>)
        if (e["hv"].get<bool>()) {
          element_array<T> vars(d.volume(), core::init_for_overwrite);
          for (scipp::index i = 0; i < d.volume(); ++i)
            vars.data()[i] = from_int<T>(e["w"][i].get<int>());
          return makeVariable<T>(d, u, Values(std::move(vals)), Variances(std::move(vars)));
        }
    }
    return makeVariable<T>(d, u, Values(std::move(vals)));
  });
}
inline json observe(const Variable &v, double scale = 1.0, double wscale = 1.0) {
  json o{{"d", shape(v.dims())}, {"hv", v.has_variances()}, {"u", unit_json(v.unit())}, {"t", type_name(v)}, {"ro", v.is_readonly()}};
  o["v"] = json::array();
  o["w"] = json::array();
  with_type(type_name(v), [&](auto proto) {
    using T = decltype(proto);
    if constexpr (std::is_same_v<T, Eigen::Vector3d>) {
      for (const auto &x : v.values<T>())
        for (int i = 0; i < 3; ++i)
          o["v"].push_back(num(x[i], scale));
    } else {
      for (const auto &x : v.values<T>())
        o["v"].push_back(to_int<T>(x, scale));
      if constexpr (std::is_floating_point_v<T>)
        if (v.has_variances())
          for (const auto &x : v.variances<T>())
            o["w"].push_back(to_int<T>(x, wscale));
    }
    return 0;
  });
  return o;
}

} // namespace vt
