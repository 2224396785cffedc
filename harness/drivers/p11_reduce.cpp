// Reductions and scans: random inputs in random memory layouts, with results.
#include "scipp/dataset/bins.h"
#include "scipp/dataset/mean.h"
#include "scipp/dataset/nanmean.h"
#include "scipp/dataset/generated_reduction.h"
#include "scipp/variable/cumulative.h"
#include "scipp/variable/reduction.h"
#include "vobj_ds.h"
using namespace vt;

#define REDUCTIONS(X) X(sum) X(nansum) X(min) X(max) X(nanmin) X(nanmax) X(all) X(any) X(mean) X(nanmean)
template <class T> static T reduce(const string &f, const T &a, const string &x) {
#define CASE(name) \
  if (f == #name)  \
    return x.empty() ? name(a) : name(a, dim(x));
  REDUCTIONS(CASE)
#undef CASE
  throw std::logic_error("no such reduction");
}
static Variable reduce_bins(const string &f, const Variable &a) {
#define CASE(name) \
  if (f == #name)  \
    return bins_##name(a);
  REDUCTIONS(CASE)
#undef CASE
  throw std::logic_error("no such reduction");
}
static const std::vector<string> F{"sum", "nansum", "min", "max", "nanmin", "nanmax", "all", "any", "mean", "nanmean"};
static bool is_mean(const string &f) { return f == "mean" || f == "nanmean"; }
template <class T, class Op> static void event(json e, const T &a, const Op &op) {
  e["a"] = observe(a);
  const bool m = is_mean(e["f"]);
  try {
    const auto r = op();
    e["r"] = observe(r, m ? 840 : 1, m ? 705600 : 1);
    e["ok"] = true;
  } catch (const std::exception &x) {
    e["ok"] = false;
    e["r"] = x.what();
  }
  emit(e);
}
template <class Op> static void bin_event(json e, const json &a, const Op &op) {
  e["a"] = a;
  const bool m = is_mean(e["f"]);
  try {
    e["r"] = op(m ? 840 : 1, m ? 705600 : 1);
    e["ok"] = true;
  } catch (const std::exception &x) {
    e["ok"] = false;
    e["r"] = x.what();
  }
  emit(e);
}
static Spec random_spec(const string &f, bool arith = true) {
  static const std::vector<string> T{"f8", "f8", "f4", "i8", "i4", "bool", "vec", "dt", "str"};
  Spec p;
  p.t = f == "all" || f == "any" ? (R.chance(95) ? "bool" : "f8") : R.chance(96) ? T[R(7)] : T[R(9)];
  if (f.find("min") != string::npos || f.find("max") != string::npos)
    if (p.t == "vec")
      p.t = "dt";
  p.u = p.t == "bool" || p.t == "str" ? json{0, 0, 0} : p.t == "dt" ? json{1, 0, 1} : R.chance(20) ? json{0, 0, 0} : json{1, R(2), 0};
  p.hv = (p.t == "f8" || p.t == "f4") && p.u[0] == 1 && R.chance(40);
  p.nan = R.chance(50) ? 20 : 0;
  p.dup = f == "all" ? 80 : f == "any" ? 20 : 50;
  return p;
}
static json shape_for(const string &f) {
  if (is_mean(f)) { // at most 8 elements are averaged
    auto s = random_dims(R(3), 1, R.chance(50) ? 8 : 4);
    scipp::index n = 1;
    for (auto &e : s)
      n *= e[1].get<int>();
    if (n > 8)
      s = json::array({s[0], json::array({s[1][0], R(1 + 8 / s[0][1].get<int>())})});
    return s;
  }
  return random_dims(R(4), 1, 4);
}
static string label(const Dimensions &d) {
  if (R.chance(d.ndim() == 0 ? 90 : 20))
    return "";
  if (d.ndim() == 0 || R.chance(2))
    return std::vector<string>{"x", "y", "z"}[R(3)];
  return name(d.labels()[R(static_cast<int>(d.ndim()))]);
}
static void one_var() {
  const auto &f = R.of(F);
  auto p = random_spec(f);
  p.s = shape_for(f);
  p.inf = f == "sum" ? (R.chance(20) ? 15 : 0) : 0;
  const auto v = relayout(make(random_json(p)));
  const auto x = label(v.dims());
  event({{"op", "red"}, {"f", f}, {"x", x}}, v, [&] { return reduce(f, v, x); });
}
static void one_array() {
  const auto &f = R.of(F);
  auto p = random_spec(f);
  p.s = shape_for(f);
  DataArray a(relayout(make(random_json(p))));
  for (const auto &n : {"x", "y", "c"})
    if (R.chance(60)) {
      Spec c;
      c.s = sub_dims(p.s);
      c.t = R.chance(50) ? "f8" : "i8";
      if (!c.s.empty() && R.chance(30))
        c.s[0][1] = c.s[0][1].get<int>() + 1;
      try {
        a.coords().set(dim(n), make(random_json(c)));
        if (R.chance(30))
          a.coords().set_aligned(dim(n), false);
      } catch (const std::exception &) {
      }
    }
  for (const auto &n : {"m1", "m2"})
    if (R.chance(60)) {
      Spec m;
      m.s = sub_dims(p.s);
      m.t = "bool";
      m.u = {0, 0, 0};
      m.dup = 30;
      a.masks().set(n, relayout(make(random_json(m))));
    }
  a.setName(R.chance(50) ? "name" : "");
  const auto x = label(a.dims());
  event({{"op", "dred"}, {"f", f}, {"x", x}}, a, [&] { return reduce(f, a, x); });
}
static void one_binned() {
  const auto &f = R.of(F);
  const auto q = random_spec(f);
  BinSpec p;
  p.t = q.t;
  if (p.t == "dt" || p.t == "str" || p.t == "vec")
    p.t = "f8";
  p.u = p.t == "bool" ? json{0, 0, 0} : q.u;
  p.hv = q.hv && (p.t == "f8" || p.t == "f4");
  p.nan = q.nan;
  p.s = random_dims(R(3), 1, is_mean(f) ? 2 : 3);
  p.maxper = is_mean(f) ? 2 : 3;
  p.coords = R.chance(50) ? std::vector<string>{"x"} : std::vector<string>{};
  p.masks = R.chance(50) ? std::vector<string>{"m"} : R.chance(30) ? std::vector<string>{"m", "n"} : std::vector<string>{};
  p.var = R.chance(25);
  const auto v = relayout(make_any(random_bins(p)));
  const auto a = observe_any(v);
  const int k = R(3);
  if (k == 0)
    bin_event({{"op", "bred"}, {"f", f}, {"x", "."}}, a, [&](double s, double w) { return observe_any(reduce_bins(f, v), s, w); });
  else if (k == 1) {
    const auto x = label(v.dims());
    bin_event({{"op", "bred"}, {"f", f}, {"x", x}}, a, [&](double s, double w) { return observe_any(reduce(f, v, x), s, w); });
  } else {
    DataArray d(v);
    for (const auto &n : {"x", "c"})
      if (R.chance(50)) {
        Spec c;
        c.s = sub_dims(p.s);
        d.coords().set(dim(n), make(random_json(c)));
      }
    if (R.chance(60)) {
      Spec m;
      m.s = sub_dims(p.s);
      m.t = "bool";
      m.u = {0, 0, 0};
      d.masks().set("bm", make(random_json(m)));
    }
    const auto x = label(v.dims());
    const auto o = observe(d);
    bin_event({{"op", "bdred"}, {"f", f}, {"x", x}}, o, [&](double s, double w) { return observe(reduce(f, d, x), s, w); });
  }
}
static void one_scan() {
  auto p = random_spec("sum");
  p.hv = p.hv && R.chance(10);
  const bool incl = R.chance(50);
  const auto mode = incl ? CumSumMode::Inclusive : CumSumMode::Exclusive;
  p.inf = R.chance(20) ? 10 : 0;
  const json e{{"op", "cum"}, {"f", incl ? "incl" : "excl"}};
  if (R.chance(25)) {
    BinSpec b;
    b.t = p.t == "dt" || p.t == "str" || p.t == "vec" ? "f8" : p.t;
    b.u = b.t == "bool" ? json{0, 0, 0} : p.u;
    b.hv = p.hv && (b.t == "f8" || b.t == "f4");
    b.nan = p.nan;
    b.s = random_dims(R(3), 1, 3);
    b.var = R.chance(30);
    const auto v = relayout(make_any(random_bins(b)));
    auto g = e;
    g["op"] = "cumbin";
    bin_event(g, observe_any(v), [&](double, double) { return observe_any(cumsum_bins(v, mode)); });
    return;
  }
  p.s = random_dims(1 + R(3), 1, 4);
  const auto v = relayout(make(random_json(p)));
  const auto x = label(v.dims());
  auto g = e;
  g["x"] = x;
  event(g, v, [&] { return x.empty() ? cumsum(v, mode) : cumsum(v, dim(x), mode); });
}
// minimum over nothing but infinities
static void infinities() {
  for (const string f : {"min", "nanmin", "max", "nanmax"})
    for (const string t : {"f8", "f4"})
      for (int n = 1; n < 3; ++n) {
        Spec p;
        p.t = t;
        p.s = json::array({json::array({"x", n})});
        auto j = random_json(p);
        for (auto &v : j["v"])
          v = f == "min" || f == "nanmin" ? PosInf : NegInf;
        const auto v = make(j);
        event({{"op", "red"}, {"f", f}, {"x", "x"}, {"only_infinite", true}}, v, [&] { return reduce(f, v, "x"); });
      }
}
// inputs large enough to be split among threads; few distinct values per output
// element, in random order
static void big(int n, int nout, int extra, const string &f, const string &t, bool hv, int layout) {
  const int ncol = nout * extra;
  json rows = json::array();
  std::vector<std::vector<int>> cols(ncol);
  for (int c = 0; c < ncol; ++c) {
    const bool nan = (t == "f8" || t == "f4") && R.chance(15);
    const int base = t == "bool" ? (f == "all" ? 1 : 0) : R(7) - 3;
    std::vector<int> col(n, base);
    for (int k = R(4); k > 0; --k) // rare other values, often at the ends or where chunks meet
      col[R.chance(30) ? (R.chance(50) ? 0 : n - 1) : R.chance(40) ? std::min(n - 1, ((n + 23) / 24) * R(24)) : R(n)] = t == "bool" ? R(2) : R(41) - 20;
    if (nan)
      col[R(n)] = NaN;
    std::map<int, int> count;
    for (const auto x : col)
      ++count[x];
    json row = json::array();
    for (const auto &[x, k] : count)
      row.push_back(json::array({x, k}));
    rows.push_back(row);
    cols[c] = std::move(col);
  }
  const int wmul = 1 + R(3);
  auto r = with_type(t, [&](auto proto) {
    using T = decltype(proto);
    if constexpr (std::is_same_v<T, string> || std::is_same_v<T, Eigen::Vector3d> || std::is_same_v<T, core::time_point>)
      return Variable{};
    else {
      // layout: position of the reduced dimension r among (r, a, b)
      std::vector<std::pair<Dim, int>> d{{Dim("a"), nout}, {Dim("b"), extra}};
      d.insert(d.begin() + layout % 3, {Dim("r"), n});
      Dimensions ds;
      for (auto &[l, k] : d)
        if (k != 1 || l == Dim("r"))
          ds.addInner(l, k);
      element_array<T> v(ds.volume(), core::init_for_overwrite);
      const auto at = [&](int a, int b, int i) {
        scipp::index k = 0;
        for (auto &[l, e] : d)
          k = k * e + (l == Dim("r") ? i : l == Dim("a") ? a : b);
        return k;
      };
      for (int a = 0; a < nout; ++a)
        for (int b = 0; b < extra; ++b)
          for (int i = 0; i < n; ++i)
            v.data()[at(a, b, i)] = from_int<T>(cols[a * extra + b][i]);
      if constexpr (std::is_floating_point_v<T>)
        if (hv)
          return makeVariable<T>(ds, units::m, Values(std::move(v)), Variances(element_array<T>(static_cast<size_t>(ds.volume()), static_cast<T>(wmul))));
      return makeVariable<T>(ds, units::none, Values(std::move(v)));
    }
  });
  if (layout >= 3 && r.dims().ndim() > 1) // another order in memory
    r = copy(transpose(r)), r = transpose(r);
  json e{{"op", "big"}, {"f", f}, {"rows", rows}, {"n", n}, {"layout", layout}, {"t", t}, {"wmul", wmul}};
  const auto out = reduce(f, r, r.dims().ndim() == 1 && R.chance(30) ? "" : "r");
  // as (a, b)
  std::vector<Dim> l;
  for (const auto x : {Dim("a"), Dim("b")})
    if (out.dims().contains(x))
      l.push_back(x);
  const auto o = observe(copy(l.size() == 2 ? transpose(out, l) : out));
  e["r"] = o["v"];
  emit(e);
  if (hv && f == "sum") {
    e["f"] = "wsum";
    e["r"] = o["w"];
    emit(e);
  }
}
static void bigs(int n) {
  static const std::vector<string> G{"sum", "nansum", "min", "max", "nanmin", "nanmax", "all", "any", "sum"};
  for (int i = 0; i < n; ++i) {
    const auto &f = R.of(G);
    const string t = f == "all" || f == "any" ? "bool" : std::vector<string>{"f8", "f8", "f4", "i8", "i4"}[R(5)];
    const bool hv = f == "sum" && (t == "f8" || t == "f4") && R.chance(50);
    switch (R(4)) {
    case 0: big(16384 + R(200), 1, 1, f, t, hv, R(6)); break;
    case 1: big(17, 1000 + R(50), 1, f, t, hv, R(6)); break;
    case 2: big(20 + R(30), 20 + R(10), 41, f, t, hv, R(6)); break;
    default: big(3000 + R(3000), 2 + R(5), 1 + R(3), f, t, hv, R(6));
    }
  }
}
int main(int, char **argv) {
  const string mode = argv[1];
  R.start(mode, atoi(argv[3]));
  const int n = atoi(argv[2]);
  if (mode == "big") {
    if (atoi(argv[3]) == 0)
      infinities();
    bigs(n);
  } else
    for (int i = 0; i < n; ++i)
      mode == "var" ? one_var() : mode == "array" ? one_array() : mode == "bin" ? one_binned() : one_scan();
}
