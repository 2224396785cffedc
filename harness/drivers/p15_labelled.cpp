// P15: operations between labelled arrays.  Modes: array inplace dataset dsinplace
#include "scipp/dataset/generated_arithmetic.h"
#include "scipp/dataset/generated_comparison.h"
#include "scipp/dataset/dataset.h"
#include "scipp/dataset/generated_logical.h"
#include "scipp/variable/comparison.h"
#include "scipp/variable/logical.h"
#include "vobj_ds.h"
using namespace vt;
template <class A, class B> static auto combine(const string &f, const A &a, const B &b) {
  if (f == "add")
    return a + b;
  if (f == "sub")
    return a - b;
  return a * b;
}
template <class A, class B> static auto combine_any(const string &f, const A &a, const B &b) {
  if (f == "less")
    return less(a, b);
  if (f == "equal")
    return equal(a, b);
  if (f == "greater_equal")
    return greater_equal(a, b);
  if (f == "not_equal")
    return not_equal(a, b);
  if (f == "or")
    return a | b;
  if (f == "and")
    return a & b;
  if (f == "xor")
    return a ^ b;
  return combine(f, a, b);
}
template <class A, class B> static void combine_in(const string &f, A &&a, const B &b) {
  if (f == "add")
    a += b;
  else if (f == "sub")
    a -= b;
  else if (f == "mul")
    a *= b;
  else if constexpr (std::is_same_v<std::decay_t<A>, DataArray>) {
    if (f == "or")
      a |= b;
    else if (f == "and")
      a &= b;
    else
      a ^= b;
  }
}
static const std::vector<string> Arith{"add", "add", "sub", "mul"}, Cmp{"less", "equal", "greater_equal", "not_equal"}, Logic{"or", "and", "xor"};
static bool logic(const string &f) { return f == "or" || f == "and" || f == "xor"; }
static json data_json(const json &s, const string &f, const json &unit) {
  Spec d;
  d.s = s;
  d.t = logic(f) ? (R.chance(96) ? "bool" : "i8") : std::vector<string>{"f8", "f8", "f8", "i8", "f4", "i4", "bool"}[R(R.chance(95) ? 6 : 7)];
  d.u = d.t == "bool" || logic(f) ? json::array({0, 0, 0}) : unit;
  d.hv = d.t[0] == 'f' && R.chance(35);
  d.lo = d.t == "bool" ? 0 : -9;
  return random_json(d);
}
static json unit_like(const json &u) { return R.chance(92) ? u : random_units(); }
static json some_mask(const json &s) {
  ArraySpec p;
  p.wide = 60;
  auto m = random_mask(s, p);
  if (R.chance(4)) {
    m["t"] = "i8";
  } else if (R.chance(3))
    m["u"] = json::array({1, 0, 0});
  return m;
}
static ArraySpec array_spec(const json &s) {
  ArraySpec p;
  p.s = s;
  p.binned = 0;
  p.masked = 0;
  p.coords = 45;
  p.wide = 60;
  p.masks = {};
  return p;
}
static json bins_or_data(const json &s, const string &f, const json &u, int binned) {
  if (!R.chance(binned) || logic(f))
    return data_json(s, f, u);
  BinSpec b;
  b.s = s;
  b.u = u;
  b.hv = R.chance(40);
  b.t = R.chance(80) ? "f8" : "f4";
  b.maxper = 2;
  b.var = R.chance(20);
  return random_bins(b);
}
static void add_masks(json &a, const json &s, int pct) {
  for (const string n : {"m", "n", "o"})
    if (R.chance(pct))
      a["masks"][n] = some_mask(s);
}
static json left_json(const json &s, const string &f, const json &u) {
  auto a = random_array(array_spec(s));
  a["data"] = bins_or_data(s, f, u, 12);
  add_masks(a, s, 45);
  return a;
}
static Dimensions dims_of(const json &e) { return dims(e["s"]); }
// coords like those of the other operand
static json like(const json &coords, const json &s, bool only) {
  json o = json::object();
  for (const auto &[n, c] : coords.items()) {
    if (R.chance(25))
      continue;
    // those that fit
    bool fits = true;
    for (const auto &e : c["s"]) {
      const auto d = dims(s);
      const auto n = e[1].get<scipp::index>();
      const auto x = dim(e[0]);
      fits = fits && (d.contains(x) ? d[x] == n || d[x] + 1 == n : n == 2);
    }
    if (!fits)
      continue;
    auto c2 = c;
    if (R.chance(12))
      c2["al"] = !c["al"].get<bool>();
    if (R.chance(7) && !c2["v"].empty()) {
      auto &v = R.of(c2["v"]);
      v = v.get<int>() == NaN ? 1 : R.chance(10) && c2["t"] == "f8" ? NaN : v.get<int>() + 1;
      if (R.chance(50))
        c2["al"] = false;
    } else if (R.chance(3))
      c2["u"] = random_units();
    o[n] = c2;
  }
  if (!only || R.chance(15)) {
    auto p = array_spec(s);
    for (const auto &n : p.names)
      if (!o.contains(n) && R.chance(15))
        o[n] = random_coord(s, p);
  }
  return o;
}
static json right_json(const json &a, const json &s, const string &f, const json &u, bool in) {
  json b{{"coords", json::object()}, {"masks", json::object()}, {"name", "B"}};
  b["data"] = bins_or_data(s, f, unit_like(u), 3);
  b["coords"] = like(a["coords"], s, in);
  add_masks(b, s, in ? 20 : 40);
  for (const auto &[n, m] : a["masks"].items()) // the same shape
    if (R.chance(30) && dims(s).includes(dims(m["s"]))) {
      Spec q;
      q.s = sub_dims(m["s"], 80);
      q.t = "bool";
      q.u = json::array({0, 0, 0});
      b["masks"][n] = random_json(q);
    }
  return b;
}
struct Skip {}; // contents that do not fit
// owner: data is all of its buffer
static DataArray build(const json &j, bool owner = false) {
  try {
    auto a = make_array(j);
    if (R.chance(60))
      return a;
    auto b = relayout(a);
    if (owner)
      b.setData(a.data());
    return b;
  } catch (const std::exception &) {
    throw Skip{};
  }
}
static json wrap(const Variable &v) { return {{"data", observe_any(v)}, {"coords", json::object()}, {"masks", json::object()}, {"name", ""}}; }
static json see(const Variable &v) { return wrap(v); }
static json see(const DataArray &a) { return observe(a); }
static json see(const Dataset &d) { return observe(d); }
template <class T> static constexpr bool is_var = std::is_same_v<T, Variable>;
// changes everything reachable from r that it must own
static void scribble(DataArray &r) {
  for (auto &&[n, m] : r.masks()) {
    auto v = m;
    if (m.dtype() == dtype<bool> && m.unit() == units::none)
      v |= makeVariable<bool>(Values{true});
  }
  if (!is_bins(r.data()) && r.dtype() == dtype<double> && r.data().unit() != units::none) {
    auto v = r.data();
    v *= makeVariable<double>(units::one, Values{3.0});
  }
}
static void scribble(Dataset &r) {
  for (auto i : r)
    scribble(i);
}
template <class A, class B> static void one(const string &op, const string &f, const A &a, const B &b) {
  json e{{"op", op}, {"f", f}, {"a", see(a)}, {"b", see(b)}, {"va", is_var<A>}, {"vb", is_var<B>}};
  try {
    if constexpr (std::is_same_v<A, Dataset> || std::is_same_v<B, Dataset>) {
      auto r = combine(f, a, b);
      e["r"] = see(r);
      scribble(r);
    } else {
      auto r = combine_any(f, a, b);
      e["r"] = see(r);
      scribble(r);
    }
    e["ok"] = true;
  } catch (const std::exception &ex) {
    e["ok"] = false;
    if (getenv("VERBOSE"))
      e["why"] = ex.what();
  }
  e["a2"] = see(a);
  e["b2"] = see(b);
  emit(e);
}
static string some_op(bool ds) {
  auto a = Arith, c = Cmp, l = Logic;
  return ds || R.chance(60) ? R.of(a) : R.chance(50) ? R.of(c) : R.of(l);
}
static json right_dims(const json &s, bool in) {
  json o = R.chance(50) ? s : sub_dims(s, 60);
  if (R.chance(15))
    R.shuffle(o);
  if (R.chance(in ? 5 : 15) && !dims(o).contains(dim("v")))
    o.push_back(json::array({"v", 1 + R(2)}));
  if (R.chance(3) && !o.empty())
    o[0][1] = o[0][1].get<int>() + 1;
  return o;
}
static void arrays() {
  const auto s = random_dims(R(3), 1, 3);
  const auto f = some_op(false);
  const auto u = random_units();
  const auto aj = left_json(s, f, u);
  const auto bj = right_json(aj, right_dims(s, false), f, u, false);
  const auto a = build(aj), b = build(bj);
  const int k = R(10);
  if (k == 0)
    one("bin", f, a, b.data());
  else if (k == 1)
    one("bin", f, b.data(), a);
  else if (k < 4)
    one("bin", f, b, a);
  else
    one("bin", f, a, b);
}
template <class D> static json slice_of(const D &d) {
  if (d.labels().size() == 0 || R.chance(50))
    return json::array();
  const auto x = d.labels()[R(static_cast<int>(d.labels().size()))];
  const auto n = static_cast<int>(d[x]);
  if (n == 0)
    return json::array();
  if (R.chance(40))
    return json::array({name(x), R(n), -1, 1});
  const int b = R(n + 1), e = b + R(n - b + 1);
  return json::array({name(x), b, e, 1});
}
static Slice to_slice(const json &sl) {
  return sl[2] == -1 ? Slice{dim(sl[0]), sl[1].get<scipp::index>()} : Slice{dim(sl[0]), sl[1].get<scipp::index>(), sl[2].get<scipp::index>()};
}
template <class A, class P, class B> static void one_in(const string &op, const string &f, A &a, const json &sl, P &&p, const B &b, const json &alias) {
  json e{{"op", op}, {"f", f}, {"a", see(a)}, {"b", see(b)}, {"vb", is_var<B>}, {"sl", sl}, {"alias", alias}};
  try {
    combine_in(f, p, b);
    e["ok"] = true;
  } catch (const std::exception &ex) {
    e["ok"] = false;
    if (getenv("VERBOSE"))
      e["why"] = ex.what();
  }
  e["a2"] = see(a);
  e["b2"] = see(b);
  emit(e);
}
static void lock(DataArray &a) {
  if (R.chance(3))
    a.setData(a.data().as_const());
}
static bool binned(const json &j) { return j["t"] == "bin"; }
static DataArray writable_masks(DataArray a) {
  for (const auto &n : std::vector<string>{"m", "n", "o"})
    if (a.masks().contains(n) && R.chance(8))
      a.masks().set(n, a.masks()[n].as_const());
  return a;
}
static void inplace() {
  const auto s = random_dims(R(3), 1, 3);
  auto l = Logic;
  const auto f = R.chance(80) ? some_op(true) : R.of(l);
  const auto u = random_units();
  const auto aj = left_json(s, f, u);
  auto a = writable_masks(build(aj, f == "mul"));
  lock(a);
  const bool bins = binned(aj["data"]);
  auto sl = bins ? json::array() : slice_of(a.dims());
  DataArray p;
  try {
    p = sl.empty() ? a : a.slice(to_slice(sl));
  } catch (const std::exception &) {
    sl = json::array();
    p = a;
  }
  const auto go = [&](const auto &b, const json &alias) {
    if (sl.empty())
      one_in("in", f, a, sl, a, b, alias);
    else
      one_in("in", f, a, sl, p, b, alias);
  };
  if (!bins && R.chance(20)) { // with a part of itself
    const auto sl2 = slice_of(a.dims());
    try {
      const auto b = sl2.empty() ? a : a.slice(to_slice(sl2));
      if (!(b.data().has_variances())) {
        if (R.chance(60))
          go(b, json::array({sl2}));
        else
          go(b.data(), json::array({sl2}));
        return;
      }
    } catch (const std::exception &) {
    }
  }
  const auto pj = observe(p);
  json like_p = aj;
  like_p["coords"] = json::object();
  for (const auto &[n, c] : pj["coords"].items()) {
    auto x = c;
    x["s"] = x["d"];
    like_p["coords"][n] = x;
  }
  const auto b = build(right_json(like_p, right_dims(shape(p.dims()), true), f, u, true));
  if (R.chance(20))
    go(b.data(), json::array());
  else
    go(b, json::array());
}
static Dataset some_dataset(const json &aj, const string &f, const json &u, bool same, std::vector<string> names = {"i", "j", "k"}) {
  Dataset d;
  const auto s = shape(dims(aj["data"]["s"]));
  auto first = build(aj, f == "mul");
  d.setDataInit(names[0], first);
  for (size_t n = 1; n < names.size(); ++n)
    if (R.chance(60)) {
      auto j = aj;
      j["coords"] = json::object();
      j["masks"] = json::object();
      j["data"] = bins_or_data(s, f, same ? u : unit_like(u), 5);
      add_masks(j, s, 40);
      auto a = build(j, f == "mul");
      lock(a);
      d.setData(names[n], writable_masks(a));
    }
  return d;
}
static void datasets() {
  const auto s = random_dims(R(3), 1, 3);
  const auto f = some_op(true);
  const auto u = random_units();
  const auto aj = left_json(s, f, u);
  const auto a = some_dataset(aj, f, u, true);
  auto bj = right_json(aj, right_dims(s, false), f, u, false);
  const auto b = build(bj);
  const int k = R(10);
  if (k == 0)
    one("dbin", f, a, b.data());
  else if (k == 1)
    one("dbin", f, b.data(), a);
  else if (k < 4)
    one("dbin", f, a, b);
  else if (k < 6)
    one("dbin", f, b, a);
  else {
    bj = right_json(aj, s, f, u, false);
    one("dbin", f, a, some_dataset(bj, f, u, true, R.chance(70) ? std::vector<string>{"i", "j", "k"} : std::vector<string>{"k", "q"}));
  }
}
static void dsinplace() {
  const auto s = random_dims(R(3), 1, 3);
  const auto f = some_op(true);
  const auto u = random_units();
  const auto aj = left_json(s, f, u);
  auto a = some_dataset(aj, f, u, false);
  bool bins = false;
  for (const auto &i : a)
    bins = bins || is_bins(i.data());
  auto sl = bins ? json::array() : slice_of(a.dims());
  Dataset p;
  try {
    p = sl.empty() ? a : a.slice(to_slice(sl));
  } catch (const std::exception &) {
    sl = json::array();
    p = a;
  }
  const auto go = [&](auto &&b, const json &alias) {
    if (sl.empty())
      one_in("din", f, a, sl, a, b, alias);
    else
      one_in("din", f, a, sl, p, b, alias);
  };
  const int k = R(10);
  if (k < 2 && !bins) {
    const string n = R.chance(50) && a.contains("j") ? "j" : "i";
    const auto sl2 = R.chance(50) ? sl : slice_of(a.dims());
    try {
      const auto item = a[n];
      const auto b = sl2.empty() ? item : item.slice(to_slice(sl2));
      if (!b.data().has_variances()) {
        if (R.chance(60))
          go(b, json::array({n, sl2}));
        else
          go(b.data(), json::array({n, sl2}));
        return;
      }
    } catch (const std::exception &) {
    }
  }
  json like_p = aj;
  like_p["coords"] = json::object();
  const auto pj = observe(p);
  for (const auto &[n, c] : pj["coords"].items()) {
    auto x = c;
    x["s"] = x["d"];
    like_p["coords"][n] = x;
  }
  if (k < 6) {
    const auto b = build(right_json(like_p, right_dims(shape(p.dims()), true), f, u, true));
    if (k < 3)
      go(b.data(), json::array());
    else
      go(b, json::array());
  } else {
    const auto bj = right_json(like_p, R.chance(50) ? shape(p.dims()) : right_dims(shape(p.dims()), true), f, u, true);
    go(some_dataset(bj, f, u, false, R.chance(70) ? std::vector<string>{"i", "j"} : std::vector<string>{"k", "i"}), json::array());
  }
}
int main(int, char **argv) {
  const string mode = argv[1];
  R.start(mode, atoi(argv[3]));
  const int n = atoi(argv[2]);
  for (int i = 0; i < n; ++i)
    try {
      mode == "array" ? arrays() : mode == "inplace" ? inplace() : mode == "dataset" ? datasets() : dsinplace();
    } catch (const Skip &) {
    }
}
