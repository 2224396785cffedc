// Tables of events, keys for binning (P16, P18, P19)
#pragma once
#include "scipp/dataset/bin.h"
#include "scipp/variable/astype.h"
#include "scipp/variable/comparison.h"
#include "vobj_ds.h"
namespace vt {
struct Key {
  bool g;
  string x;
  Variable v;
};
static std::map<string, string> types; // of the columns of the table at hand
static json key_json(const Key &k) { return {{"g", k.g}, {"x", k.x}, {"v", observe(k.v, coord_scale)}}; }
static json observe_table(const DataArray &a) {
  auto o = observe(a);
  o["cn"] = json::array();
  o["mn"] = json::array();
  if (!is_bins(a) && a.dims().ndim() == 1) {
    for (const auto &[n, c] : o["coords"].items())
      if (a.coords()[dim(n)].dims().contains(a.dim()))
        o["cn"].push_back(n);
    for (const auto &[n, c] : o["masks"].items())
      if (a.masks()[n].dims().contains(a.dim()))
        o["mn"].push_back(n);
  }
  return o;
}
static string column_type() { return std::vector<string>{"f8", "f8", "f8", "f4", "i8", "i8", "i4", "dt"}[R(8)]; }
static json column_unit(const string &x) { return x == "x" ? json::array({1, 1, 0}) : x == "y" ? json::array({1, 0, 1}) : json::array({1, 0, 0}); }
// bin edges or groups for values of type t in 0..9
static Key some_key(const string &x, const string &t, bool group) {
  Spec p;
  p.t = t;
  if (coord_scale == 1 && R.chance(12) && t != "str" && t != "dt")
    p.t = std::vector<string>{"f8", "i8", "i4", "f4"}[R(4)];
  p.u = R.chance(98) ? column_unit(x) : json::array({1, 3, 0});
  int n = group ? R(5) : 2 + R(4);
  if (!group && R.chance(2))
    n = 1;
  p.s = json::array({json::array({x, n})});
  auto j = random_json(p);
  const bool regular = R.chance(50);
  int at = group ? R(6) : R(5) - 2, step = regular ? 1 + R(3) : 0;
  for (int i = 0; i < n; ++i) {
    j["v"][i] = at;
    at += regular ? (group ? 1 : step) : (group ? 1 : 0) + R(4);
  }
  if (group && !regular) {
    std::vector<int> q = j["v"];
    R.shuffle(q);
    j["v"] = q;
  }
  if (R.chance(2) && n > 1)
    j["v"][n - 1] = j["v"][0];
  auto v = make_scaled(j);
  return {group, x, R.chance(30) ? relayout(v) : v};
}
// two-dimensional edges, different for every bin along y
static Key ragged_key(const string &x, const string &t, const json &outer) {
  Spec p;
  p.t = t;
  p.u = column_unit(x);
  const int n = 2 + R(3), m = outer[1].get<int>();
  p.s = json::array({outer, json::array({x, n})});
  auto j = random_json(p);
  for (int k = 0; k < m; ++k) {
    int at = R(5) - 1;
    const int step = R(3);
    for (int i = 0; i < n; ++i) {
      j["v"][k * n + i] = at;
      at += R.chance(60) ? step : R(4);
    }
  }
  return {false, x, make_scaled(j)};
}
static void choose_types() {
  coord_scale = R.chance(40) ? 10.0 : 1.0;
  for (const string x : {"x", "y", "g", "z", "q"}) {
    types[x] = column_type();
    if (coord_scale != 1 && types[x] == "f4")
      types[x] = "f8";
  }
  if (R.chance(20))
    types["g"] = "str";
}
static std::vector<Key> some_keys(const std::vector<string> &names, int most = 3) {
  auto l = names;
  R.shuffle(l);
  std::vector<Key> keys;
  const int n = R.chance(1) ? 0 : 1 + R(most);
  for (int i = 0; i < n && i < static_cast<int>(l.size()); ++i)
    keys.push_back(some_key(l[i], types[l[i]], types[l[i]] == "str" || R.chance(l[i] == "g" ? 80 : 25)));
  return keys;
}
static DataArray table(int most, const std::vector<string> &cols = {"x", "y", "g"}) {
  const int n = R.chance(6) ? 0 : R(most + 1);
  json a{{"coords", json::object()}, {"masks", json::object()}, {"name", ""}};
  const json s = json::array({json::array({"row", n})});
  Spec p;
  p.s = s;
  p.t = std::vector<string>{"f8", "f8", "f4", "i8"}[R(4)];
  p.hv = p.t[0] == 'f' && R.chance(40);
  p.lo = 0; p.hi = 50;
  a["data"] = random_json(p);
  for (const auto &x : cols)
    if (R.chance(90)) {
      Spec c;
      c.s = s;
      c.t = types[x];
      c.u = column_unit(x);
      c.lo = x == "g" ? 0 : -1;
      c.hi = x == "g" ? 5 : 9;
      if (c.t == "str")
        c.lo = 0;
      c.nan = R.chance(10) ? 20 : 0;
      a["coords"][x] = random_json(c);
    }
  if (R.chance(15)) {
    Spec c;
    a["coords"]["s"] = random_json(c);
  }
  if (R.chance(25)) {
    Spec m;
    m.s = s; m.t = "bool"; m.u = json::array({0, 0, 0}); m.dup = 30;
    a["masks"]["em"] = random_json(m);
  }
  auto t = make_array(a);
  return R.chance(40) ? relayout(t) : t;
}
// masks of bins, over any of their dimensions
static void mask_bins(DataArray &a, int pct) {
  for (const string n : {"m", "n"})
    if (R.chance(pct)) {
      Spec m;
      m.s = sub_dims(shape(a.dims()), 60);
      m.t = "bool"; m.u = json::array({0, 0, 0}); m.dup = 30;
      a.masks().set(n, make(random_json(m)));
    }
}
static std::vector<string> labels_of(const DataArray &a) {
  std::vector<string> l;
  for (const auto &x : a.dims().labels())
    l.push_back(name(x));
  return l;
}
// array of bins; `shape` of bins (types must have been chosen)
static DataArray binned_array(const json &bins_shape) {
  BinSpec b;
  b.s = bins_shape;
  b.maxper = 4;
  b.hv = R.chance(40);
  b.coords = {};
  for (const string x : {"x", "y", "g"})
    if (R.chance(60))
      b.coords.push_back(x);
  if (R.chance(25))
    b.masks = {"em"};
  json data = random_bins(b);
  for (const auto &x : b.coords) {
    Spec c;
    c.s = data["buf"]["data"]["s"];
    c.t = types[x]; c.u = column_unit(x);
    c.lo = c.t == "str" ? 0 : -1; c.hi = 9;
    data["buf"]["coords"][x] = random_json(c);
  }
  json a{{"coords", json::object()}, {"masks", json::object()}, {"name", ""}, {"data", data}};
  for (const string x : {"x", "y", "g", "z"})
    if (R.chance(40)) {
      Spec c;
      const bool event = std::find(b.coords.begin(), b.coords.end(), x) != b.coords.end();
      c.s = random_meta_shape(b.s, std::vector<int>{0, 1, 1, 1, 2, 3, 5}[R(7)]);
      // edges of bins must agree with their events (chain)
      const bool edges = !dims(b.s).includes(dims(c.s));
      if (event && edges)
        continue;
      c.t = types[x]; c.u = column_unit(x);
      c.lo = 0; c.hi = 9;
      auto j = random_json(c);
      if (c.s.size() == 1 && R.chance(70))
        std::sort(j["v"].begin(), j["v"].end(), [](const json &p, const json &q) { return p.get<int>() < q.get<int>(); });
      j["al"] = R.chance(80);
      a["coords"][x] = j;
    }
  auto arr = make_array(a);
  mask_bins(arr, 30);
  return arr;
}
} // namespace vt
