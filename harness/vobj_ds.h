// JSON for binned variables, data arrays and datasets
//   binned: {"d", "t": "bin", "bt": element type, "u", "hv", "bd": bin dim,
//            "cn": coord names, "mn": mask names, "cu": coord units,
//            "ev": per bin the list of events [value, variance, coords..., masks...]}
//   data array: {"data", "coords": {name: variable + "al"}, "masks": {name: variable}, "name"}
#pragma once
#include "scipp/dataset/bins.h"
#include "scipp/dataset/dataset.h"
#include "scipp/variable/bins.h"
#include "scipp/variable/variable_factory.h"
#include "vobj.h"
namespace vt {
using namespace scipp::dataset;
inline json num_of(const json &o, size_t i, const char *k) { return o[k][i]; }
inline json observe_any(const Variable &v, double scale = 1.0, double wscale = 1.0);
// coords of type f8 are recorded in multiples of 1/coord_scale
inline double coord_scale = 1.0;
struct Scaled {
  Scaled() { make_scale = 1.0 / coord_scale; }
  ~Scaled() { make_scale = 1.0; }
};
inline Variable make_scaled(const json &e) {
  Scaled s;
  return make(e);
}
inline json observe_bins(const Variable &v) {
  json o{{"d", shape(v.dims())}, {"t", "bin"}, {"ro", v.is_readonly()}};
  Variable data;
  std::vector<std::pair<string, Variable>> coords, masks;
  Variable ind;
  Dim bd;
  if (v.dtype() == dtype<bucket<Variable>>) {
    const auto &[i, d, b] = v.constituents<Variable>();
    ind = i; bd = d; data = b;
  } else {
    const auto &[i, d, b] = v.constituents<DataArray>();
    ind = i; bd = d; data = b.data();
    for (const auto &[n, c] : b.coords())
      coords.emplace_back(name(n), c);
    for (const auto &[n, c] : b.masks())
      masks.emplace_back(n, c);
    std::sort(coords.begin(), coords.end(), [](auto &p, auto &q) { return p.first < q.first; });
    std::sort(masks.begin(), masks.end(), [](auto &p, auto &q) { return p.first < q.first; });
  }
  o["bd"] = name(bd);
  const auto dj = observe(data);
  o["bt"] = dj["t"];
  o["u"] = dj["u"];
  o["hv"] = dj["hv"];
  o["cn"] = json::array();
  o["mn"] = json::array();
  o["cu"] = json::array();
  std::vector<json> cols;
  for (const auto &[n, c] : coords) {
    o["cn"].push_back(n);
    o["cu"].push_back(unit_json(c.unit()));
    cols.push_back(observe(c.dims().ndim() == 0 ? copy(c.broadcast(data.dims())) : c, coord_scale));
  }
  for (const auto &[n, c] : masks) {
    o["mn"].push_back(n);
    cols.push_back(observe(c.dims().ndim() == 0 ? copy(c.broadcast(data.dims())) : c));
  }
  o["ev"] = json::array();
  for (const auto &p : std::as_const(ind).values<scipp::index_pair>()) {
    json b = json::array();
    for (auto i = p.first; i < p.second; ++i) {
      json e{dj["v"][i], dj["hv"].get<bool>() ? dj["w"][i] : json(0)};
      for (const auto &c : cols)
        e.push_back(c["v"][i]);
      b.push_back(e);
    }
    o["ev"].push_back(b);
  }
  return o;
}
inline json observe_any(const Variable &v, double scale, double wscale) {
  return is_bins(v) ? observe_bins(v) : observe(v, scale, wscale);
}
template <class M> json observe_map(const M &m) {
  json o = json::object();
  for (const auto &[n, v] : m) {
    constexpr bool coord = std::is_same_v<std::decay_t<decltype(n)>, Dim>;
    json x = observe_any(v, coord ? coord_scale : 1.0);
    if constexpr (coord) {
      x["al"] = v.is_aligned();
      o[name(n)] = x;
    } else
      o[n] = x;
  }
  return o;
}
inline json observe(const DataArray &a, double scale = 1.0, double wscale = 1.0) {
  return {{"data", observe_any(a.data(), scale, wscale)}, {"coords", observe_map(a.coords())}, {"masks", observe_map(a.masks())}, {"name", a.name()}};
}
inline json observe(const Dataset &d) {
  json items = json::object();
  for (const auto &i : d)
    items[i.name()] = {{"data", observe_any(i.data())}, {"masks", observe_map(i.masks())}};
  return {{"d", d.is_valid() ? shape(d.sizes()) : json::array()}, {"valid", d.is_valid()}, {"coords", observe_map(d.coords())}, {"items", items}};
}

// ---- construction ----
// binned: {"s", "t": "bin", "bi": [[begin, end], ...], "bd", "buf": {"data", "coords", "masks"} or {"data"} only}
inline Variable make_any(const json &e);
inline DataArray make_array(const json &e);
inline Variable make_indices(const json &e) {
  element_array<scipp::index_pair> ind(dims(e["s"]).volume(), core::init_for_overwrite);
  for (size_t i = 0; i < e["bi"].size(); ++i)
    ind.data()[i] = {e["bi"][i][0].get<scipp::index>(), e["bi"][i][1].get<scipp::index>()};
  return makeVariable<scipp::index_pair>(dims(e["s"]), Values(std::move(ind)));
}
inline Variable make_any(const json &e) {
  if (e["t"] != "bin")
    return make(e);
  if (e.value("var", false))
    return scipp::variable::make_bins(make_indices(e), dim(e["bd"]), make(e["buf"]["data"]));
  return scipp::dataset::make_bins(make_indices(e), dim(e["bd"]), make_array(e["buf"]));
}
inline DataArray make_array(const json &e) {
  DataArray a(make_any(e["data"]));
  for (const auto &[n, v] : e["coords"].items()) {
    Scaled guard;
    auto c = make_any(v);
    a.coords().set(dim(n), c);
    if (!v.value("al", true))
      a.coords().set_aligned(dim(n), false);
  }
  for (const auto &[n, v] : e["masks"].items())
    a.masks().set(n, make_any(v));
  a.setName(e.value("name", string()));
  return a;
}
// ---- random ----
struct Random {
  std::mt19937 g;
  int operator()(int n) { return static_cast<int>(g() % static_cast<unsigned>(n)); }
  bool chance(int pct) { return (*this)(100) < pct; }
  template <class C> auto &of(C &c) { return c[static_cast<size_t>((*this)(static_cast<int>(c.size())))]; }
  template <class C> void shuffle(C &c) { std::shuffle(c.begin(), c.end(), g); }
  void start(const string &mode, int k) { g.seed(vt::seed() * 7919u + static_cast<unsigned>(k) * 104729u + static_cast<unsigned>(mode[0]) * 31u + static_cast<unsigned>(mode.back())); }
};
inline Random R;
struct Spec { // of a random variable
  json s = json::array();
  string t = "f8";
  json u = json::array({1, 0, 0});
  bool hv = false;
  int lo = -9, hi = 9, nan = 0, inf = 0; // percentages of special values
  int dup = 0;
};
inline json random_json(const Spec &p) {
  json e{{"s", p.s}, {"t", p.t}, {"u", p.u}, {"hv", p.hv}};
  const auto n = dims(p.s).volume();
  const bool fl = p.t == "f8" || p.t == "f4";
  e["v"] = json::array();
  e["w"] = json::array();
  for (scipp::index i = 0; i < n * (p.t == "vec" ? 3 : 1); ++i)
    e["v"].push_back(fl && R.chance(p.nan) ? NaN : fl && R.chance(p.inf) ? (R.chance(50) ? PosInf : NegInf)
                     : p.t == "bool" ? (R.chance(p.dup ? p.dup : 50) ? 1 : 0) : p.lo + R(p.hi - p.lo + 1));
  if (p.hv)
    for (scipp::index i = 0; i < n; ++i)
      e["w"].push_back(R(6));
  return e;
}
// the same contents in another memory layout: as a slice of something larger,
// transposed, with a stride
inline Variable relayout(const Variable &v) {
  auto out = v;
  if (v.dims().ndim() == 0)
    return out;
  const auto k = R(6);
  if (k == 0 && v.dims().ndim() > 1) {
    std::vector<Dim> l(v.dims().labels().begin(), v.dims().labels().end());
    auto p = l;
    R.shuffle(p);
    out = transpose(copy(transpose(v, p)), l);
  } else if (k == 1) {
    const auto d = v.dims().labels()[R(static_cast<int>(v.dims().ndim()))];
    const auto n = v.dims()[d];
    const auto f = v.slice({d, 0, std::min<scipp::index>(1, n)});
    out = concat(std::vector{f, v, f}, d).slice({d, std::min<scipp::index>(1, n), n + std::min<scipp::index>(1, n)});
  } else if (k == 2) {
    const auto d = v.dims().labels()[R(static_cast<int>(v.dims().ndim()))];
    const auto n = v.dims()[d];
    std::vector<Variable> parts;
    for (scipp::index i = 0; i < n; ++i) {
      parts.push_back(v.slice({d, i, i + 1}));
      parts.push_back(v.slice({d, 0, 1}));
    }
    if (n > 0)
      out = concat(parts, d).slice({d, 0, 2 * n, 2});
  }
  return out;
}
inline json random_dims(int nd, int lo, int hi, std::vector<string> l = {"x", "y", "z"}) {
  R.shuffle(l);
  json s = json::array();
  for (int i = 0; i < nd && i < static_cast<int>(l.size()); ++i)
    s.push_back(json::array({l[i], R.chance(4) ? 0 : lo + R(hi - lo + 1)}));
  return s;
}
// a random non-empty (or empty, if allowed) sub-list of the dims
inline json sub_dims(const json &s, int keep = 50) {
  json o = json::array();
  for (const auto &e : s)
    if (R.chance(keep))
      o.push_back(e);
  if (R.chance(30))
    std::reverse(o.begin(), o.end());
  return o;
}
// random bins over `s`; events have coords c and masks m (all 1-D, sometimes scalar)
struct BinSpec {
  json s = json::array();
  string t = "f8";
  json u = json::array({1, 0, 0});
  bool hv = false, var = false;
  std::vector<string> coords{"x"}, masks{};
  int maxper = 3, lo = 0, hi = 9, nan = 0;
  string ct = "f8";
  json cu = json::array({1, 1, 0});
};
inline json random_bins(const BinSpec &p) {
  const auto n = dims(p.s).volume();
  std::vector<std::pair<int, int>> ind;
  int at = 0;
  for (scipp::index i = 0; i < n; ++i) {
    if (R.chance(25))
      at += R(3); // a gap
    const int k = R.chance(20) ? 0 : R(p.maxper + 1);
    ind.emplace_back(at, at + k);
    at += k;
  }
  if (R.chance(30))
    at += R(3);
  if (R.chance(40))
    R.shuffle(ind);
  json e{{"s", p.s}, {"t", "bin"}, {"bd", "event"}, {"var", p.var}};
  e["bi"] = json::array();
  for (auto &[a, b] : ind)
    e["bi"].push_back(json::array({a, b}));
  const json es = json::array({json::array({"event", at})});
  json buf{{"coords", json::object()}, {"masks", json::object()}};
  Spec q;
  q.s = es; q.t = p.t; q.u = p.u; q.hv = p.hv; q.nan = p.nan;
  buf["data"] = random_json(q);
  for (const auto &c : p.coords) {
    Spec r;
    r.s = es; r.t = p.ct; r.u = p.cu; r.lo = p.lo; r.hi = p.hi;
    buf["coords"][c] = random_json(r);
  }
  for (const auto &m : p.masks) {
    Spec r;
    r.s = es; r.t = "bool"; r.u = json::array({0, 0, 0}); r.dup = 30;
    buf["masks"][m] = random_json(r);
  }
  e["buf"] = buf;
  return e;
}
// random coord/mask of an array of shape s; kinds: 0 scalar, 1 along one
// dimension, 2 bin edges, 3 several dimensions, 4 several with edges, 5 edges left over by slicing
inline json random_meta_shape(const json &s, int kind) {
  json o = json::array();
  const int nd = static_cast<int>(s.size());
  if (kind == 5) {
    o = kind == 5 && R.chance(40) ? sub_dims(s) : json::array();
    o.insert(o.begin() + R(static_cast<int>(o.size()) + 1), json::array({"w", 2}));
    return o;
  }
  if (kind == 0 || nd == 0)
    return o;
  if (kind == 1 || kind == 2)
    o.push_back(s[static_cast<size_t>(R(nd))]);
  else {
    o = sub_dims(s, 75);
    if (R.chance(20))
      R.shuffle(o);
  }
  if ((kind == 2 || kind == 4) && !o.empty()) {
    auto &e = o[static_cast<size_t>(R(static_cast<int>(o.size())))];
    e[1] = e[1].get<int>() + 1;
  }
  return o;
}
struct ArraySpec {
  json s = json::array();
  int binned = 15, vary = 9;
  std::vector<string> types{"f8", "f8", "f8", "f4", "i8", "bool", "str", "vec", "dt"};
  std::vector<string> names{"x", "y", "z", "c", "d"}, masks{"m", "n"};
  int coords = 60, masked = 45, al = 80, wide = 100; // percentages; wide: special shapes
  int range = 9;
};
inline string meta_type() { return std::vector<string>{"f8", "f8", "f8", "i8", "str"}[R(5)]; }
inline json random_units() { return R.chance(60) ? json::array({1, 0, 0}) : R.chance(50) ? json::array({1, 1, 0}) : json::array({0, 0, 0}); }
inline json random_coord(const json &s, const ArraySpec &p) {
  Spec c;
  const int kind = R.chance(p.wide) ? std::vector<int>{0, 1, 1, 1, 2, 2, 2, 3, 4, 5}[R(10)] : 1;
  c.s = random_meta_shape(s, kind);
  c.t = meta_type();
  c.u = random_units();
  c.hi = p.range; c.lo = 0;
  c.nan = R.chance(8) ? 30 : 0;
  auto j = random_json(c);
  if ((kind == 2 || kind == 1) && R.chance(70)) { // monotonic
    std::sort(j["v"].begin(), j["v"].end(), [](const json &a, const json &b) { return a.get<int>() < b.get<int>(); });
    if (R.chance(30))
      std::reverse(j["v"].begin(), j["v"].end());
  }
  j["al"] = R.chance(p.al);
  return j;
}
inline json random_mask(const json &s, const ArraySpec &p) {
  Spec c;
  c.s = random_meta_shape(s, R.chance(p.wide) ? std::vector<int>{0, 1, 1, 1, 3, 3, 3, 3, 2, 4}[R(10)] : 1 + 2 * R(2));
  c.t = "bool";
  c.u = json::array({0, 0, 0});
  c.dup = 30;
  return random_json(c);
}
inline json random_array(const ArraySpec &p) {
  json a{{"coords", json::object()}, {"masks", json::object()}, {"name", R.chance(50) ? "" : "A"}};
  if (R.chance(p.binned)) {
    BinSpec b;
    b.s = p.s;
    b.t = R.chance(70) ? "f8" : "f4";
    b.hv = R.chance(40);
    b.maxper = 2;
    b.var = R.chance(20);
    b.coords = R.chance(60) ? std::vector<string>{"x"} : std::vector<string>{"x", "y"};
    if (R.chance(40))
      b.masks = {"em"};
    a["data"] = random_bins(b);
  } else {
    Spec d;
    d.s = p.s;
    auto ts = p.types;
    d.t = R.of(ts);
    d.u = d.t == "bool" || d.t == "str" ? json::array({0, 0, 0}) : random_units();
    d.hv = (d.t == "f8" || d.t == "f4") && R.chance(35);
    d.lo = d.t == "str" ? 0 : -p.vary; d.hi = p.vary;
    d.nan = R.chance(10) ? 20 : 0;
    a["data"] = random_json(d);
  }
  for (const auto &n : p.names)
    if (R.chance(p.coords))
      a["coords"][n] = random_coord(p.s, p);
  for (const auto &n : p.masks)
    if (R.chance(p.masked))
      a["masks"][n] = random_mask(p.s, p);
  return a;
}
// other memory layouts of everything in an array
inline DataArray relayout(const DataArray &a) {
  DataArray out(is_bins(a.data()) ? a.data() : relayout(a.data()));
  for (const auto &[n, c] : a.coords()) {
    auto v = c.dims().ndim() > 0 ? relayout(c) : c;
    out.coords().set(n, v);
    out.coords().set_aligned(n, c.is_aligned());
  }
  for (const auto &[n, m] : a.masks())
    out.masks().set(n, relayout(m));
  out.setName(a.name());
  return out;
}
} // namespace vt
