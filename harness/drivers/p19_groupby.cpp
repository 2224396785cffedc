// P19: groupby.  Modes: dense binned dataset long
#include "scipp/dataset/dataset.h"
#include "scipp/dataset/groupby.h"
#include "vevents.h"
using namespace vt;
#define OPS(X) X(sum) X(nansum) X(min) X(max) X(nanmin) X(nanmax) X(all) X(any) X(mean) X(concat)
template <class T> static T combine(const string &f, const GroupBy<T> &g, const string &x) {
#define CASE(name) \
  if (f == #name)  \
    return g.name(dim(x));
  OPS(CASE)
#undef CASE
  throw std::logic_error("no such reduction");
}
static const std::vector<string> F{"sum", "nansum", "min", "max", "nanmin", "nanmax", "all", "any", "mean"};
struct Job {
  string f, x, by, gd;
  Variable key; // as a coord, or apart
  bool coord, bins;
  Variable edges;
  bool mixed;
};
template <class T> static T run(const Job &j, const T &a) {
  return combine(j.f, !j.bins ? groupby(a, dim(j.by)) : j.coord ? groupby(a, dim(j.by), j.edges) : groupby(a, j.key, j.edges), j.x);
}
// NaN with either sign
static Variable signed_nans(Variable v) {
  if (v.dtype() == dtype<double> && !v.has_variances())
    for (auto &x : v.values<double>())
      if (std::isnan(x) && R.chance(50))
        x = -x;
  return v;
}
static json key_spec(const json &s, const string &t) {
  Spec k;
  k.s = s;
  k.t = t;
  k.u = t == "bool" || t == "str" ? json::array({0, 0, 0}) : column_unit("x");
  k.lo = t == "bool" || t == "str" ? 0 : -1;
  k.hi = t == "bool" ? 1 : 2 + R(7);
  if (!s.empty() && s[0][1] > 8 && t != "bool" && t != "str")
    k.hi = 50, k.nan = R.chance(60) ? 15 : 0;
  k.nan = R.chance(30) ? 30 : 0;
  auto j = random_json(k);
  auto &v = j["v"]; // runs
  for (size_t i = 1; i < v.size(); ++i)
    if (R.chance(40))
      v[i] = v[i - 1];
  if (R.chance(15) && t != "bool" && k.nan == 0)
    std::sort(v.begin(), v.end(), [](const json &p, const json &q) { return p.get<int>() < q.get<int>(); });
  return j;
}
static Job some_job(const json &s) {
  Job j;
  const auto g = s[static_cast<size_t>(R(static_cast<int>(s.size())))];
  j.x = R.chance(96) ? g[0].get<string>() : std::vector<string>{"x", "y", "z", "q"}[R(4)];
  j.by = R.chance(30) ? g[0].get<string>() : std::vector<string>{"k", "k", "k", "x", "y"}[R(5)];
  const string t = std::vector<string>{"f8", "f8", "f4", "i8", "i4", "bool", "str", "dt"}[R(g[1] > 8 ? 4 : 8)];
  coord_scale = (t == "f8" || t == "dt") && R.chance(40) ? 10 : 1;
  j.bins = R.chance(45);
  json ks = json::array({g});
  if (R.chance(4))
    ks = R.chance(50) ? json::array() : s;
  else if (R.chance(3))
    ks[0][1] = ks[0][1].get<int>() + 1;
  auto kj = key_spec(ks, t);
  if (R.chance(2) && t == "f8") {
    kj["hv"] = true;
    kj["w"] = kj["v"];
  }
  j.key = signed_nans(make_scaled(kj));
  if (R.chance(30))
    j.key = relayout(j.key);
  j.coord = !j.bins || R.chance(60);
  j.gd = j.by;
  j.mixed = false;
  if (j.bins) {
    const string label = R.chance(60) ? j.by : std::vector<string>{"b", g[0], "z"}[R(3)];
    types["x"] = t;
    auto e = some_key("x", t == "str" ? "f8" : t, false).v.rename_dims({{dim("x"), dim(label)}});
    if (R.chance(2))
      e = e.rename_dims({{dim(label), dim("u")}}), j.gd = "u";
    else
      j.gd = label;
    j.edges = e;
    // documented key types of bins: numbers
    j.mixed = e.dtype() != j.key.dtype() || t == "bool" || t == "str" || t == "dt" || e.dims().volume() < 2;
  }
  return j;
}
static json coord_json(const json &s) {
  Spec q;
  q.s = random_meta_shape(s, R(4));
  auto j = random_json(q);
  j["al"] = R.chance(80);
  return j;
}
static void add_key(DataArray &a, Job &j) {
  if (!j.coord)
    return;
  try {
    a.coords().set(dim(j.by), j.key);
    if (R.chance(15))
      a.coords().set_aligned(dim(j.by), false);
  } catch (const std::exception &) {
  }
}
static json describe(const Job &j, const DataArray &a) {
  json e{{"op", "group"}, {"f", j.f}, {"x", j.x}, {"a", observe(a)}, {"bins", j.bins}, {"gd", j.gd}, {"mixed", j.mixed}};
  e["has"] = !j.coord || a.coords().contains(dim(j.by));
  e["key"] = !e["has"] ? json(0) : observe(j.coord ? a.coords()[dim(j.by)] : j.key, coord_scale);
  e["e"] = j.bins ? observe(j.edges, coord_scale) : json(0);
  // the output has the key as seen by the others
  return e;
}
static json outcome(const Job &j, const DataArray &r) {
  const bool m = j.f == "mean";
  auto o = observe(r, m ? 840 : 1, m ? 705600 : 1);
  if (r.coords().contains(dim(j.gd))) {
    const bool al = o["coords"][j.gd]["al"];
    o["coords"][j.gd] = observe(r.coords()[dim(j.gd)], coord_scale);
    o["coords"][j.gd]["al"] = al;
  }
  return o;
}
static void one(const Job &j, const DataArray &a) {
  auto e = describe(j, a);
  try {
    e["r"] = outcome(j, run(j, a));
    e["ok"] = true;
  } catch (const std::exception &x) {
    e["ok"] = false;
    if (std::getenv("VERBOSE"))
      e["why"] = x.what();
  }
  emit(e);
  if (R.chance(20))
    emit({{"op", "same"}, {"a", e["a"]}, {"r", observe(a)}});
}
static string element_type(const string &f) {
  return f == "all" || f == "any" ? (R.chance(95) ? "bool" : "i8")
                                  : std::vector<string>{"f8", "f8", "f8", "f4", "i8", "i4", "bool", "vec", "dt"}[R(100) < 90 ? R(7) : R(9)];
}
static DataArray dense_array(const string &f, const json &s) {
  json a{{"coords", json::object()}, {"masks", json::object()}, {"name", R.chance(50) ? "" : "A"}};
  Spec p;
  p.s = s;
  p.t = element_type(f);
  p.hv = p.t[0] == 'f' && R.chance(40);
  p.u = p.t == "bool" ? json::array({0, 0, 0}) : p.t == "dt" ? json::array({1, 0, 1}) : R.chance(50) ? json::array({1, 0, 0}) : json::array({1, 0, 1});
  p.nan = R.chance(40) ? 20 : 0;
  p.dup = f == "all" ? 80 : f == "any" ? 20 : 50;
  a["data"] = random_json(p);
  for (const string x : {"x", "y", "c"})
    if (R.chance(40))
      a["coords"][x] = coord_json(s);
  auto arr = make_array(a);
  mask_bins(arr, 35);
  return R.chance(40) ? relayout(arr) : arr;
}
static void dense() {
  const auto &f = R.of(F);
  auto s = random_dims(1 + R(3), 1, R.chance(30) ? 8 : 4);
  if (f != "mean" && R.chance(10)) // many groups
    s = json::array({json::array({"x", 20 + R(30)})});
  auto j = some_job(s);
  j.f = f;
  auto a = dense_array(f, s);
  add_key(a, j);
  one(j, a);
}
static void binned() {
  choose_types();
  coord_scale = 1;
  const auto s = random_dims(1 + R(3), 1, 4);
  auto j = some_job(s);
  const auto scale = coord_scale;
  coord_scale = 1;
  j.f = R.chance(70) ? "concat" : R.of(F);
  BinSpec b;
  b.s = s;
  b.t = j.f == "all" || j.f == "any" ? "bool" : std::vector<string>{"f8", "f8", "f4", "i8"}[R(4)];
  b.u = b.t == "bool" ? json::array({0, 0, 0}) : json::array({1, 0, 0});
  b.hv = b.t[0] == 'f' && R.chance(40);
  b.maxper = 3;
  b.coords = R.chance(60) ? std::vector<string>{"x"} : R.chance(50) ? std::vector<string>{"x", "k"} : std::vector<string>{};
  if (R.chance(15))
    b.masks = {"em"};
  json a{{"coords", json::object()}, {"masks", json::object()}, {"name", R.chance(50) ? "" : "A"}, {"data", random_bins(b)}};
  for (const string x : {"x", "y", "c"})
    if (R.chance(40))
      a["coords"][x] = coord_json(s);
  auto arr = make_array(a);
  mask_bins(arr, 35);
  coord_scale = scale;
  add_key(arr, j);
  one(j, arr);
}
static void datasets() {
  const auto &f = R.of(F);
  const auto s = random_dims(1 + R(3), 1, R.chance(30) ? 8 : 4);
  auto j = some_job(s);
  j.f = f;
  scipp::dataset::Dataset ds;
  for (const string n : {"a", "b", "c"})
    if (n == "a" || R.chance(50)) {
      auto a = dense_array(f, s);
      try {
        ds.setDataInit(n, a);
      } catch (const std::exception &) {
      }
    }
  if (j.coord)
    try {
      ds.coords().set(dim(j.by), j.key);
    } catch (const std::exception &) {
    }
  if (ds.size() == 0)
    return;
  std::vector<json> es;
  bool all_fine = true;
  for (const auto &item : ds) {
    const DataArray a(item);
    es.push_back(describe(j, a));
    es.back()["n"] = a.name();
    try {
      run(j, a);
    } catch (const std::exception &) {
      all_fine = false;
    }
  }
  try {
    const auto r = run(j, ds);
    for (auto &e : es) {
      e["ok"] = true;
      e["r"] = outcome(j, DataArray(r[e["n"].get<string>()]));
      emit(e);
    }
  } catch (const std::exception &x) {
    json e{{"op", "dsfail"}, {"fine", all_fine}};
    if (std::getenv("VERBOSE")) {
      e["why"] = x.what();
      e["items"] = es;
    }
    emit(e);
  }
}
static void longs() {
  const int period = 1 + R(3000), len = 20000 + R(50000), lo = -R(5), n = R.chance(50) ? period : R(period + 10) + 1, half = R(len);
  const bool bins = R.chance(50);
  std::vector<double> k, w;
  for (int i = 0; i < len; ++i) {
    k.push_back(i % period);
    w.push_back(i < half ? 1 : 2);
  }
  const Dimensions row(Dim("row"), len);
  DataArray a(makeVariable<double>(row, Values(w)));
  a.coords().set(Dim("x"), makeVariable<double>(row, Values(k)));
  json e{{"op", "long"}, {"period", period}, {"len", len}, {"half", half}, {"ok", true}, {"r", json::array()}};
  std::vector<double> ed;
  for (int i = 0; i <= n; ++i)
    ed.push_back(lo + i);
  const auto edges = makeVariable<double>(Dimensions(Dim("x"), n + 1), Values(ed));
  const auto g = bins ? groupby(a, Dim("x"), edges) : groupby(a, Dim("x"));
  const auto r = g.sum(Dim("row"));
  e["lo"] = bins ? lo : 0;
  e["n"] = bins ? n : period;
  for (const auto v : r.data().values<double>())
    e["r"].push_back(static_cast<int>(v));
  emit(e);
}
int main(int, char **argv) {
  const string mode = argv[1];
  R.start(mode, atoi(argv[3]));
  const int n = atoi(argv[2]);
  for (int i = 0; i < n; ++i)
    mode == "dense" ? dense() : mode == "binned" ? binned() : mode == "dataset" ? datasets() : longs();
}
