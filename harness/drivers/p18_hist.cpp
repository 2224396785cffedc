// P18: histogramming, rebinning, lookup.  Modes: hist hbin rebin lookup scale long
#include "scipp/dataset/histogram.h"
#include "scipp/dataset/rebin.h"
#include "scipp/variable/logical.h"
#include "scipp/variable/util.h"
#include "vevents.h"
using namespace vt;
static void unchanged(const json &before, const json &now) {
  if (R.chance(20))
    emit({{"op", "same"}, {"a", before}, {"r", now}});
}
static json obs(const DataArray &a) { return observe(a); }
template <class F> static void finish(json &e, F f) {
  try {
    e["r"] = f();
    e["ok"] = true;
  } catch (const std::exception &x) {
    e["ok"] = false;
    if (std::getenv("VERBOSE"))
      e["why"] = x.what();
  }
  emit(e);
}
static DataArray masked_randomly(DataArray a, int pct = 30) {
  for (const string n : {"m", "n"})
    if (R.chance(pct)) {
      Spec m;
      m.s = sub_dims(shape(a.dims()), 60);
      m.t = "bool"; m.u = json::array({0, 0, 0}); m.dup = 30;
      a.masks().set(n, make(random_json(m)));
    }
  return a;
}
static Variable some_edges(const string &x, const json &outer = json::array()) {
  auto k = outer.empty() ? some_key(x, types[x], false) : ragged_key(x, types[x], outer);
  return R.chance(30) ? relayout(k.v) : k.v;
}
// outer dimension for edges: mostly none, one of the array, or a new one
static json some_outer(const json &s, const string &x, const string &not_this) {
  if (R.chance(80))
    return json::array();
  if (R.chance(20))
    return json::array({"w", 1 + R(2)});
  std::vector<json> c;
  for (const auto &d : s)
    if (d[0] != not_this && d[0] != x)
      c.push_back(d);
  return c.empty() ? json::array() : c[static_cast<size_t>(R(static_cast<int>(c.size())))];
}
static void do_hist(const DataArray &a, const Variable &edges, const string &x) {
  json e{{"op", "hist"}, {"a", obs(a)}, {"key", {{"g", false}, {"x", x}, {"v", observe(edges, coord_scale)}}}};
  e["mixed"] = types[x] == "str" || type_name(edges) != types[x] || (is_bins(a) ? false : a.data().dtype() == dtype<bool>);
  const auto before = e["a"];
  finish(e, [&] { return obs(histogram(a, edges)); });
  unchanged(before, obs(a));
}
// dense data with coords of any shape
static DataArray dense_array(const json &s) {
  json a{{"coords", json::object()}, {"masks", json::object()}, {"name", R.chance(50) ? "" : "A"}};
  Spec p;
  p.s = s;
  p.t = std::vector<string>{"f8", "f8", "f4", "i8", "i4"}[R(5)];
  p.hv = p.t[0] == 'f' && R.chance(40);
  p.lo = -20; p.hi = 50;
  p.u = R.chance(50) ? json::array({1, 0, 0}) : json::array({1, 0, 1});
  a["data"] = random_json(p);
  for (const string x : {"x", "y", "g"})
    if (R.chance(75)) {
      Spec c;
      c.s = random_meta_shape(s, R.chance(6) ? 2 : R.chance(60) ? 1 : 3);
      c.t = types[x]; c.u = column_unit(x);
      c.lo = x == "g" ? 0 : -1; c.hi = 9;
      c.nan = R.chance(10) ? 20 : 0;
      a["coords"][x] = random_json(c);
      a["coords"][x]["al"] = R.chance(80);
    }
  return masked_randomly(make_array(a));
}
static void hist() {
  choose_types();
  if (types["g"] == "str")
    types["g"] = "i8";
  auto s = random_dims(1 + R(3), R.chance(5) ? 0 : 1, 4);
  if (R.chance(40))
    s.back()[0] = "row";
  auto a = dense_array(s);
  if (R.chance(40))
    a = relayout(a);
  const string x = std::vector<string>{"x", "y", "g"}[R(3)];
  string gone;
  if (a.coords().contains(dim(x)))
    if (const auto d = a.coords().dim_of(dim(x)); d != Dim::Invalid)
      gone = name(d);
  do_hist(a, some_edges(x, some_outer(s, x, gone)), x);
}
static void hbin() {
  choose_types();
  if (types["g"] == "str")
    types["g"] = "i8";
  const auto s = random_dims(R.chance(10) ? 0 : 1 + R(3), R.chance(5) ? 0 : 1, 3);
  const auto a = binned_array(s);
  const string x = std::vector<string>{"x", "y", "g"}[R(3)];
  do_hist(a, some_edges(x, some_outer(s, x, x)), x);
}
// edges with widths 0, 1, 2 or 4
static json edge_json(const string &x, const json &outer, int n, bool down) {
  Spec p;
  p.t = types[x];
  p.u = R.chance(97) ? column_unit(x) : json::array({1, 3, 0});
  json s = outer;
  s.insert(s.begin() + R(static_cast<int>(s.size()) + 1), json::array({x, n}));
  p.s = s;
  auto j = random_json(p);
  int inner = 1, total = static_cast<int>(j["v"].size());
  for (auto it = s.end(); (--it)->at(0) != x;)
    inner *= it->at(1).get<int>();
  for (int i = 0; i < total; ++i) {
    const int at = (i / inner) % n;
    if (at == 0)
      j["v"][i] = R(5) - 2;
    else {
      const int w = std::vector<int>{0, 1, 1, 2, 2, 2, 4, 4}[R.chance(60) ? 1 + R(7) : R(8)];
      j["v"][i] = j["v"][i - inner].get<int>() + (down ? -w : w);
    }
  }
  return j;
}
static void rebins() {
  choose_types();
  coord_scale = 1;
  const string x = std::vector<string>{"x", "x", "x", "y", "g"}[R(5)];
  types[x] = std::vector<string>{"f8", "f8", "f8", "f4", "dt", "i8"}[R(6)];
  json s = random_dims(1 + R(3), R.chance(3) ? 0 : 1, 4);
  bool there = false;
  for (const auto &d : s)
    there = there || d[0] == x;
  if (!there && R.chance(95))
    s[static_cast<size_t>(R(static_cast<int>(s.size())))][0] = x;
  json others = json::array();
  int n = 1;
  for (const auto &d : s)
    if (d[0] != x)
      others.push_back(d);
    else
      n = d[1].get<int>();
  const bool down = R.chance(30);
  json a{{"coords", json::object()}, {"masks", json::object()}, {"name", R.chance(50) ? "" : "A"}};
  auto c = edge_json(x, R.chance(70) ? json::array() : sub_dims(others, 60), R.chance(97) ? n + 1 : n + 1 - R(2), down);
  if (c["v"].size() > 1 && R.chance(3))
    std::swap(c["v"][0], c["v"][1]);
  Spec p;
  p.s = s;
  p.t = std::vector<string>{"f8", "f8", "f8", "f4", "i8", "i4", "bool"}[R(7)];
  p.hv = p.t[0] == 'f' && R.chance(40);
  p.lo = 0; p.hi = 20;
  p.u = p.t == "bool" ? json::array({0, 0, 0}) : R.chance(50) ? json::array({1, 0, 0}) : json::array({1, 0, 1});
  auto data = random_json(p);
  const bool bit = p.t == "bool"; // only whole bins
  if (!bit)
    for (const string f : {"v", "w"})
      if (data.contains(f))
        for (auto &v : data[f])
          v = 4 * v.get<int>();
  a["data"] = data;
  c["al"] = R.chance(80);
  a["coords"][x] = c;
  for (const string o : {"z", "c"})
    if (R.chance(50)) {
      Spec q;
      q.s = random_meta_shape(s, R(3));
      a["coords"][o] = random_json(q);
      a["coords"][o]["al"] = R.chance(80);
    }
  DataArray arr = [&] {
    for (;;)
      try {
        return make_array(a);
      } catch (const std::exception &) {
        a["coords"].erase(x); // does not fit
      }
  }();
  // bins of no width are empty
  if (arr.coords().contains(dim(x)) && arr.dims().contains(dim(x)) && arr.coords()[dim(x)].dims()[dim(x)] == n + 1) {
    const auto cc = copy(arr.coords()[dim(x)]);
    const auto l = cc.slice({dim(x), 0, n}), r = cc.slice({dim(x), 1, n + 1});
    const auto w = copy(equal(l, r).broadcast(arr.dims()));
    auto zeroed = arr.data();
    if (!bit)
      copy(where(w, zero_like(arr.data()), arr.data()), zeroed);
    else
      copy(arr.data() & ~w, zeroed);
  }
  arr = masked_randomly(arr);
  if (R.chance(50))
    arr = relayout(arr);
  json ne = edge_json(x, R.chance(75) ? json::array() : sub_dims(others, 60), 2 + R(5), R.chance(95) ? down : !down);
  if (bit && arr.coords().contains(dim(x))) { // every second edge: whole bins
    const auto c0 = arr.coords()[dim(x)];
    ne = observe(copy(c0.slice({dim(x), 0, c0.dims()[dim(x)], 2})));
    ne["s"] = ne["d"];
  }
  auto edges = make(ne);
  if (R.chance(40))
    edges = relayout(edges);
  json e{{"op", "rebin"}, {"x", x}, {"a", obs(arr)}, {"e", observe(edges)}};
  e["mixed"] = !(p.t == "f8" && types[x] == "f8") && !((p.t == "i8" || p.t == "i4" || p.t == "bool") && types[x] == "f8") && !(p.t == "f4" && types[x] == "f8");
  const auto before = e["a"];
  finish(e, [&] { return obs(rebin(arr, dim(x), edges)); });
  unchanged(before, obs(arr));
}
// a function over x: histogram or points
static std::pair<DataArray, json> function(const string &x, const json &others, bool points, const std::vector<string> &wt) {
  const int n = 1 + R(5);
  json s = others;
  s.insert(s.begin() + R(static_cast<int>(s.size()) + 1), json::array({x, n}));
  Spec p;
  p.s = s;
  p.t = wt[static_cast<size_t>(R(static_cast<int>(wt.size())))];
  p.hv = p.t[0] == 'f' && R.chance(30);
  p.lo = -9; p.hi = 30;
  p.u = p.t == "bool" ? json::array({0, 0, 0}) : R.chance(50) ? json::array({1, 0, 0}) : json::array({1, 0, 1});
  Spec c;
  c.s = R.chance(70) ? json::array() : sub_dims(others, 60);
  c.s.insert(c.s.begin() + R(static_cast<int>(c.s.size()) + 1), json::array({x, points ? n : R.chance(96) ? n + 1 : n}));
  c.t = types[x]; c.u = R.chance(97) ? column_unit(x) : json::array({1, 3, 0});
  auto j = random_json(c);
  int inner = 1;
  for (auto it = c.s.end(); (--it)->at(0) != x;)
    inner *= it->at(1).get<int>();
  const int m = points ? n : n + 1, step = R.chance(40) ? R(3) : -1;
  for (int i = 0; i < static_cast<int>(j["v"].size()); ++i)
    j["v"][i] = (i / inner) % m == 0 ? json(R(4) - 1) : json(j["v"][i - inner].get<int>() + (step >= 0 ? step : R(4)));
  if (R.chance(4) && j["v"].size() > 1)
    std::swap(j["v"][0], j["v"][j["v"].size() - 1]);
  json a{{"coords", {{x, j}}}, {"masks", json::object()}, {"name", ""}, {"data", random_json(p)}};
  auto f = masked_randomly(make_array(a), 20);
  return {R.chance(40) ? relayout(f) : f, p.u};
}
static void lookup() {
  choose_types();
  const string x = std::vector<string>{"x", "y"}[R(2)];
  const bool prev = R.chance(40);
  const auto [f, u] = function(x, R.chance(60) ? json::array() : random_dims(1 + R(2), 1, 3, {"a", "b"}), prev, {"f8", "f8", "f4", "i8", "i4", "bool"});
  Spec p;
  p.s = random_dims(R(3), R.chance(5) ? 0 : 1, 4, {"a", "b", "c", x.c_str()});
  p.t = R.chance(90) ? types[x] : column_type(); p.u = R.chance(97) ? column_unit(x) : json::array({1, 0, 3});
  if (coord_scale != 1 && p.t != types[x])
    p.t = types[x];
  p.lo = -2; p.hi = 10;
  p.nan = R.chance(10) && !prev ? 20 : 0;
  auto v = make_scaled(random_json(p));
  if (R.chance(30))
    v = relayout(v);
  std::optional<Variable> fill;
  if (R.chance(50)) {
    Spec q;
    q.t = R.chance(95) ? type_name(f.data()) : "f8";
    q.u = R.chance(95) ? u : json::array({1, 5, 0});
    q.hv = f.data().has_variances();
    q.lo = -9; q.hi = 30;
    fill = make(random_json(q));
  }
  json e{{"op", prev ? "prev" : "map"}, {"x", x}, {"a", obs(f)}, {"v", observe(v, coord_scale)}, {"hasfill", fill.has_value()}, {"fill", fill ? observe(*fill) : json::object()}};
  e["mixed"] = p.t != types[x] || types[x] == "f4" || f.data().has_variances();
  const auto before = e["a"];
  finish(e, [&] { return observe(prev ? lookup_previous(f, v, dim(x), fill) : buckets::map(f, v, dim(x), fill)); });
  unchanged(before, obs(f));
}
static void scales() {
  choose_types();
  types["x"] = types["y"] = "f8";
  const auto s = random_dims(R.chance(10) ? 0 : 1 + R(2), 1, 3, {"a", "b"});
  auto arr = binned_array(s);
  const string x = std::vector<string>{"x", "y"}[R(2)];
  auto [f, u] = function(x, sub_dims(s, 40), false, {"f8", "f8", "f8", "f4"});
  json e{{"op", "scale"}, {"x", x}, {"a", obs(arr)}, {"f", obs(f)}};
  // events without variances cannot take those of the function; the same element for several events
  e["mixed"] = f.data().has_variances() || type_name(arr.data().bin_buffer<DataArray>().data())[0] != 'f' || f.data().dtype() != arr.data().bin_buffer<DataArray>().data().dtype();
  string why;
  try {
    buckets::scale(arr, f, dim(x));
    e["ok"] = true;
  } catch (const std::exception &ex) {
    e["ok"] = false;
    why = ex.what();
  }
  if (std::getenv("VERBOSE"))
    e["why"] = why;
  e["r"] = obs(arr);
  emit(e);
}
static void longs() {
  if (R.chance(50)) {
    const int len = std::vector<int>{99999, 100001, 250000, 1000001}[R(4)] + R(3);
    const int period = 3 + R(40), n = 2 + R(30), lo = R(4), half = len / 2;
    std::vector<double> x(static_cast<size_t>(len)), w(static_cast<size_t>(len));
    for (int i = 0; i < len; ++i) {
      x[static_cast<size_t>(i)] = i % period;
      w[static_cast<size_t>(i)] = i < half ? 1 : 2;
    }
    const Dimensions rows(Dim("row"), len);
    auto wv = makeVariable<double>(rows, Values(w));
    if (R.chance(30))
      wv = astype(wv, dtype<int64_t>);
    DataArray a(wv, {{Dim("x"), makeVariable<double>(rows, Values(x))}});
    std::vector<double> key;
    for (int i = 0; i < n + 1; ++i)
      key.push_back(lo + i);
    if (R.chance(50)) // not equidistant
      key.back() -= 0.25;
    const auto r = astype(histogram(a, makeVariable<double>(Dimensions(Dim("x"), n + 1), Values(key))).data(), dtype<int64_t>);
    json e{{"op", "long"}, {"len", len}, {"half", half}, {"period", period}, {"n", n}, {"lo", lo}, {"ok", true}, {"r", observe(r)["v"]}};
    emit(e);
    return;
  }
  // many bins along a dimension, many of the output
  const int n = 10001 + R(5), bins = R.chance(50) ? 10010 : 300 + R(200), m = 1 + R(60), lo = R(100);
  std::vector<double> x, w;
  std::vector<scipp::index_pair> ind;
  json ev = json::array();
  for (int i = 0; i < bins; ++i) {
    const auto b = static_cast<scipp::index>(x.size());
    while (R(bins) < m) {
      const int v = R.chance(10) ? lo + n - R(2) : R.chance(10) ? lo - R(2) : lo + R(n);
      x.push_back(v);
      w.push_back(1 + R(9));
      ev.push_back(json::array({v, static_cast<int>(w.back())}));
    }
    ind.emplace_back(b, static_cast<scipp::index>(x.size()));
  }
  const Dimensions rows(Dim("row"), static_cast<scipp::index>(x.size()));
  DataArray buf(makeVariable<double>(rows, Values(w)), {{Dim("x"), makeVariable<double>(rows, Values(x))}});
  DataArray a(make_bins(makeVariable<scipp::index_pair>(Dimensions(Dim("x"), bins), Values(ind)), Dim("row"), buf));
  std::vector<double> key;
  for (int i = 0; i < n + 1; ++i)
    key.push_back(lo + i);
  const auto r = histogram(a, makeVariable<double>(Dimensions(Dim("x"), n + 1), Values(key)));
  json e{{"op", "many"}, {"lo", lo}, {"n", n}, {"ev", ev}, {"ok", r.dims() == Dimensions(Dim("x"), n)}, {"r", json::array()}};
  int i = 0;
  for (const auto v : r.data().values<double>()) {
    if (v != 0)
      e["r"].push_back(json::array({i, static_cast<int>(v)}));
    ++i;
  }
  emit(e);
}
int main(int, char **argv) {
  const string mode = argv[1];
  R.start(mode, atoi(argv[3]));
  const int n = atoi(argv[2]);
  for (int i = 0; i < n; ++i)
    mode == "hist" ? hist() : mode == "hbin" ? hbin() : mode == "rebin" ? rebins() : mode == "lookup" ? lookup() : mode == "scale" ? scales() : longs();
}
