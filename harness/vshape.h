// JSON <-> scipp::Dimensions, as [[label, extent], ...]
#pragma once
#include "scipp/core/dimensions.h"
#include "scipp/core/slice.h"
#include "scipp/core/strides.h"
#include "vtrace.h"
namespace vt {
using scipp::Dim;
using scipp::Dimensions;
using scipp::Sizes;
inline Dim dim(const std::string &s) { return s == "<invalid>" ? Dim(Dim::Invalid) : Dim(s); }
inline std::string name(const Dim d) { return d == Dim(Dim::Invalid) ? "<invalid>" : d.name(); }
template <class D> json shape(const D &d) {
  json out = json::array();
  for (const auto &x : d)
    out.push_back({name(x), d[x]});
  return out;
}
inline Dimensions dims(const json &j) {
  Dimensions d;
  for (const auto &p : j)
    d.addInner(dim(p[0]), p[1].get<scipp::index>());
  return d;
}
template <class F> json result(F &&f) {
  try {
    json v = f();
    return {{"ok", true}, {"v", v}};
  } catch (const std::exception &) {
    return {{"ok", false}};
  }
}
template <class C> json list(const C &c) {
  json o = json::array();
  for (const auto &x : c)
    o.push_back(x);
  return o;
}
} // namespace vt
