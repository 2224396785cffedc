// Executes operations on variables (programs from TLC, or random) and records
// after each one what every live handle shows.
#include "scipp/core/element/comparison.h"
#include "scipp/core/eigen.h"
#include "scipp/variable/arithmetic.h"
#include "scipp/variable/comparison.h"
#include "scipp/variable/logical.h"
#include "scipp/variable/math.h"
#include "scipp/variable/pow.h"
#include "scipp/variable/shape.h"
#include "scipp/variable/structures.h"
#include "scipp/variable/util.h"
#include "scipp/variable/variable.h"
#include "scipp/variable/misc_operations.h"
#include "vobj.h"
#include <map>
using namespace vt;
using namespace scipp;
using namespace scipp::variable;
using std::string;

static std::map<string, Variable> H;
static std::map<string, json> seen;
static void reset() {
  H.clear();
  seen.clear();
  emit({{"op", "reset"}});
}
static std::vector<Dim> labels(const json &j) {
  std::vector<Dim> l;
  for (const auto &x : j)
    l.push_back(dim(x));
  return l;
}
static Slice slice_of(const json &e) {
  if (e["e"] == -1)
    return Slice(dim(e["x"]), e["b"].get<scipp::index>());
  return Slice(dim(e["x"]), e["b"].get<scipp::index>(), e["e"].get<scipp::index>(), e["st"].get<scipp::index>());
}
static double maxabs(const json &o, const char *k) {
  double m = 0;
  for (const auto &x : o[k])
    if (x != NaN)
      m = std::max(m, std::abs(x.get<double>()));
  return m;
}
// would the result be too large to be exact in the recorded representation?
static bool too_large(const json &e) {
  const string op = e["op"];
  if (op != "bin" && op != "inplace" && op != "ipow")
    return false;
  const auto &a = seen.at(e["g"]);
  double va = maxabs(a, "v"), wa = maxabs(a, "w"), vb = 0, wb = 0;
  const bool ints = [&] { for (auto &x : a["v"]) if (x == Inexact) return false; return true; }();
  if (!ints)
    return true;
  bool f4 = a["t"] == "f4";
  auto big_unit = [](const json &u) { return std::abs(u[1].get<int>()) > 3 || std::abs(u[2].get<int>()) > 3; };
  if (op == "ipow") {
    const int k = e["k"];
    if (e["bad"].get<bool>() && a["u"] == json{1, 0, 0})
      return true; // irrational result
    if (big_unit(a["u"]) || k > 2 || (k == 2 && std::abs(a["u"][1].get<int>()) > 2))
      return true;
    const double r = std::pow(va, k), w = k * k * std::pow(va, std::max(0, k - 1)) * std::pow(va, std::max(0, k - 1)) * wa;
    return std::max(r, w) > (f4 ? 1e6 : 1e8);
  }
  const auto &b = seen.at(e["by"]);
  f4 = f4 || b["t"] == "f4";
  vb = maxabs(b, "v");
  wb = maxabs(b, "w");
  for (auto &x : b["v"])
    if (x == Inexact)
      return true;
  if (e["f"] == "mul" && (big_unit(a["u"]) || big_unit(b["u"])))
    return true;
  const double r = e["f"] == "mul" ? va * vb : va + vb;
  const double w = e["f"] == "mul" ? std::max(wa * vb * vb + wb * va * va, 4 * va * va * wa) : 4 * (wa + wb);
  return std::max(r, w) > (f4 ? 1e6 : 1e8);
}
static Variable binary(const string &f, const Variable &a, const Variable &b) {
  if (f == "add") return a + b;
  if (f == "sub") return a - b;
  if (f == "mul") return a * b;
  if (f == "less") return less(a, b);
  if (f == "equal") return equal(a, b);
  if (f == "greater_equal") return greater_equal(a, b);
  if (f == "not_equal") return not_equal(a, b);
  if (f == "or") return a | b;
  if (f == "and") return a & b;
  return a ^ b;
}
static void in_place(const string &f, Variable &a, const Variable &b) {
  if (f == "add") a += b;
  else if (f == "sub") a -= b;
  else if (f == "mul") a *= b;
  else if (f == "or") a |= b;
  else if (f == "and") a &= b;
  else if (f == "xor") a ^= b;
  else throw std::runtime_error("no such operation");
}
static void perform(json &e) {
  const string op = e["op"];
  auto h = [&](const char *k) -> Variable & { return H.at(e[k].get<string>()); };
  auto put = [&](Variable v) {
    const string n = e["h"];
    H.insert_or_assign(n, std::move(v));
  };
  if (op == "new") put(make(e));
  else if (op == "assign") { const string n = e["h"]; H[n] = h("g"); }
  else if (op == "slice") put(h("g").slice(slice_of(e)));
  else if (op == "transpose") put(transpose(h("g"), labels(e["labs"])));
  else if (op == "fold") put(fold(h("g"), dim(e["x"]), dims(e["to"])));
  else if (op == "flatten") {
    e["shared"] = false;
    const auto handle = h("g").data_handle();
    auto r = flatten(h("g"), labels(e["labs"]), dim(e["x"]));
    e["shared"] = r.data_handle() == handle;
    put(r);
  } else if (op == "rename") {
    std::vector<std::pair<Dim, Dim>> p;
    for (const auto &x : e["p"])
      p.emplace_back(dim(x[0]), dim(x[1]));
    put(h("g").rename_dims(p, e["strict"]));
  } else if (op == "broadcast") put(e.value("free", true) ? broadcast(h("g"), dims(e["s"])) : h("g").broadcast(dims(e["s"])));
  else if (op == "squeeze") {
    const auto l = labels(e["labs"]);
    put(l.empty() ? squeeze(h("g"), std::nullopt) : squeeze(h("g"), l));
  } else if (op == "const") put(h("g").as_const());
  else if (op == "field") put(h("g").elements<Eigen::Vector3d>(string(1, "xyz"[e["k"].get<int>()])));
  else if (op == "copy") put(copy(h("g")));
  else if (op == "concat") {
    std::vector<Variable> v;
    for (const auto &x : e["gs"])
      v.push_back(H.at(x));
    put(concat(v, dim(e["x"])));
  } else if (op == "write") {
    auto &g = h("g");
    with_type(type_name(g), [&](auto proto) {
      using T = decltype(proto);
      auto vals = g.values<T>();
      const auto i = e["i"].get<scipp::index>();
      if constexpr (std::is_same_v<T, Eigen::Vector3d>)
        vals[i] = Eigen::Vector3d(e["v"][0].get<int>(), e["v"][1].get<int>(), e["v"][2].get<int>());
      else {
        if constexpr (std::is_floating_point_v<T>)
          if (!e["w"].empty()) {
            auto vars = g.variances<T>();
            vars[i] = from_int<T>(e["w"][0].get<int>());
          }
        vals[i] = from_int<T>(e["v"][0].get<int>());
      }
      return 0;
    });
  } else if (op == "setunit") h("g").setUnit(unit_of(e["u"]));
  else if (op == "setvar") h("g").setVariances(e["by"] == "" ? Variable{} : h("by"));
  else if (op == "copyto") copy(h("g"), h("to"));
  else if (op == "setslice") h("to").setSlice(slice_of(e), h("g"));
  else if (op == "bin") {
    e["d"] = json::array();
    const auto r = binary(e["f"], h("g"), h("by"));
    e["d"] = shape(r.dims());
    put(r);
  } else if (op == "inplace") in_place(e["f"], h("g"), h("by"));
  else if (op == "un") put(e["f"] == "neg" ? -h("g") : e["f"] == "abs" ? abs(h("g")) : ~h("g"));
  else if (op == "where") {
    e["d"] = json::array();
    const auto r = where(h("cond"), h("g"), h("by"));
    e["d"] = shape(r.dims());
    put(r);
  } else if (op == "ipow") {
    const int k = e["k"];
    auto exp = e["bad"].get<bool>() ? makeVariable<double>(Values{k + 0.5})
               : e["ev"].get<bool>() ? makeVariable<double>(Values{double(k)}, Variances{1.0})
               : makeVariable<int64_t>(Values{int64_t(k)});
    auto &b = h("g");
    pow(b, exp, b);
  } else {
    fprintf(stderr, "unknown op %s\n", op.c_str());
    exit(77);
  }
}
static bool exists(const json &e, const char *k) {
  if (!e.contains(k) || e[k] == "")
    return true;
  return H.count(e[k].get<string>()) > 0;
}
static void record(json e) {
  json obs = json::object();
  for (const auto &[n, v] : H) {
    auto o = observe(v);
    if (!seen.count(n) || seen[n] != o) {
      obs[n] = o;
      seen[n] = o;
    }
  }
  e["obs"] = obs;
  emit(e);
}
static bool run(json e) {
  for (const char *k : {"g", "by", "to", "cond"})
    if (k != string("to") || e["op"] == "copyto" || e["op"] == "setslice")
      if (!exists(e, k))
        return false;
  if (e["op"] == "concat")
    for (const auto &x : e["gs"])
      if (!H.count(x))
        return false;
  if (e["op"] == "write" && (e["i"] >= H.at(e["g"]).dims().volume() || e["i"] < 0))
    return false;
  if (e["op"] == "write") { // values and variance to write, as the handle needs
    const auto &g = H.at(e["g"]);
    const int base = e["v"][0];
    if (type_name(g) == "vec")
      e["v"] = {base, base + 1, base + 2};
    else if (type_name(g) == "bool")
      e["v"] = {std::abs(base) % 2};
    e["w"] = json::array();
    if (g.has_variances())
      e["w"].push_back(base + 1);
  }
  if (too_large(e))
    return false;
  try {
    perform(e);
    e["ok"] = true;
  } catch (const std::exception &) {
    e["ok"] = false;
  }
  record(std::move(e));
  return true;
}
static void compare_all() {
  json e{{"op", "eq"}, {"hs", json::array()}, {"eq", json::array()}, {"ne", json::array()}, {"eqnan", json::array()}};
  for (const auto &[a, va] : H) {
    e["hs"].push_back(a);
    json r = json::array(), r2 = json::array(), r3 = json::array();
    for (const auto &[b, vb] : H) {
      r.push_back(va == vb);
      r2.push_back(va != vb);
      r3.push_back(equals_nan(va, vb));
    }
    e["eq"].push_back(r);
    e["ne"].push_back(r2);
    e["eqnan"].push_back(r3);
  }
  emit(e);
}

// ---------------------------------------------------------------- random ----
static std::mt19937 rng;
static int rnd(int n) { return static_cast<int>(rng() % static_cast<unsigned>(n)); }
static bool chance(int pct) { return rnd(100) < pct; }
static const std::vector<string> L{"x", "y", "z", "w"};
static string any_handle() {
  auto it = H.begin();
  std::advance(it, rnd(static_cast<int>(H.size())));
  return it->first;
}
static string pick_label(const Variable &v) {
  if (v.dims().ndim() == 0 || chance(8))
    return L[rnd(4)];
  return name(v.dims().labels()[rnd(static_cast<int>(v.dims().ndim()))]);
}
static json random_shape(int maxdims, int maxext) {
  std::vector<string> l = L;
  std::shuffle(l.begin(), l.end(), rng);
  json s = json::array();
  const int n = rnd(maxdims + 1);
  for (int i = 0; i < n; ++i)
    s.push_back({l[i], chance(5) ? 0 : 1 + rnd(maxext)});
  return s;
}
static json random_unit() {
  static const std::vector<json> u{{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {1, 1, 0}, {1, 0, 1}, {1, 0, -1}};
  return u[rnd(6)];
}
static json random_new(const string &h, const json &s, const string &t, const json &u, bool hv, int range, bool nan) {
  json e{{"op", "new"}, {"h", h}, {"s", s}, {"t", t}, {"u", u}, {"hv", hv}};
  const auto n = dims(s).volume();
  e["v"] = json::array();
  e["w"] = json::array();
  for (scipp::index i = 0; i < n * (t == "vec" ? 3 : 1); ++i)
    e["v"].push_back(nan && (t == "f8" || t == "f4") && chance(15) ? NaN : t == "bool" ? rnd(2) : rnd(2 * range) - range);
  if (hv)
    for (scipp::index i = 0; i < n; ++i)
      e["w"].push_back(nan && chance(10) ? NaN : rnd(range));
  return e;
}
static const std::vector<string> T{"f8", "f8", "f8", "f4", "i8", "i4", "bool", "str", "vec"};
static json random_slice(json e, const Variable &g) {
  const auto x = pick_label(g);
  const int n = g.dims().contains(dim(x)) ? static_cast<int>(g.dims()[dim(x)]) : 2;
  e["x"] = x;
  if (chance(35)) {
    e["b"] = chance(95) && n > 0 ? rnd(n) : n;
    e["e"] = -1;
    e["st"] = 1;
  } else {
    const int b = rnd(n + 1);
    e["b"] = b;
    e["e"] = b + rnd(n - b + 1 + (chance(5) ? 1 : 0));
    e["st"] = chance(70) ? 1 : 1 + rnd(3);
  }
  return e;
}
static json shape_of(const Variable &v) { return shape(v.dims()); }
// a shape that includes the dims of v
static json super_shape(const Variable &v) {
  json s = shape_of(v);
  std::shuffle(s.begin(), s.end(), rng);
  for (const auto &x : L)
    if (!v.dims().contains(dim(x)) && s.size() < 4 && chance(35))
      s.insert(s.begin() + rnd(static_cast<int>(s.size()) + 1), json::array({x, 1 + rnd(3)}));
  if (chance(4) && !s.empty())
    s[0][1] = s[0][1].get<int>() + 1;
  return s;
}
static void random_view(const string &dst) {
  const auto g = any_handle();
  const auto &v = H.at(g);
  json e{{"h", dst}, {"g", g}};
  switch (rnd(11)) {
  case 0: case 1: case 2:
    e["op"] = "slice";
    e = random_slice(e, v);
    break;
  case 3: case 4: {
    e["op"] = "transpose";
    json l = json::array();
    for (const auto &d : v.dims())
      l.push_back(name(d));
    std::shuffle(l.begin(), l.end(), rng);
    if (chance(20))
      l = json::array();
    if (chance(5))
      l.push_back(L[rnd(4)]);
    e["labs"] = l;
    break;
  }
  case 5: {
    e["op"] = "fold";
    const auto x = pick_label(v);
    e["x"] = x;
    const int n = v.dims().contains(dim(x)) ? static_cast<int>(v.dims()[dim(x)]) : 2;
    std::vector<string> free;
    for (const auto &y : L)
      if (!v.dims().contains(dim(y)) || y == x)
        free.push_back(y);
    std::shuffle(free.begin(), free.end(), rng);
    int a = 1;
    for (int k = 2; k <= n; ++k)
      if (n % k == 0 && chance(50))
        a = k;
    json to = json::array({json::array({free[0], a})});
    if (free.size() > 1)
      to.push_back({free[1], n / a + (chance(5) ? 1 : 0)});
    e["to"] = to;
    break;
  }
  case 6: {
    e["op"] = "flatten";
    json l = json::array();
    const int n = static_cast<int>(v.dims().ndim());
    const int b = rnd(n + 1), c = b + rnd(n - b + 1);
    for (int i = b; i < c; ++i)
      l.push_back(name(v.dims().labels()[i]));
    if (l.size() > 1 && chance(10))
      std::swap(l[0], l[1]);
    e["labs"] = l;
    e["x"] = L[rnd(4)];
    e["shared"] = false;
    break;
  }
  case 7: {
    e["op"] = "rename";
    json p = json::array();
    const auto a = pick_label(v);
    p.push_back({a, L[rnd(4)]});
    if (chance(40)) {
      const auto b = pick_label(v);
      if (b != a)
        p.push_back({b, p[0][1] == a || chance(20) ? L[rnd(4)] : a});
    }
    // avoid chains of replacements whose order would matter
    for (size_t i = 0; i < p.size(); ++i)
      for (size_t k = 0; k < i; ++k)
        if (p[k][1] == p[i][0] || p[i][1] == p[k][1])
          p = json::array({p[0]});
    e["p"] = p;
    e["strict"] = chance(80);
    break;
  }
  case 8:
    e["op"] = "broadcast";
    e["s"] = super_shape(v);
    e["free"] = chance(50);
    break;
  case 9: {
    const int k = rnd(4);
    if (k == 0) {
      e["op"] = "const";
    } else if (k == 1)
      e["op"] = "assign";
    else {
      e["op"] = "squeeze";
      json l = json::array();
      if (chance(60)) {
        for (const auto &d : v.dims())
          if (v.dims()[d] == 1 && chance(70))
            l.push_back(name(d));
        if (chance(10))
          l.push_back(pick_label(v));
        if (l.size() > 1 && chance(30))
          std::reverse(l.begin(), l.end());
      }
      e["labs"] = l;
    }
    break;
  }
  default:
    if (type_name(v) == "vec") {
      e["op"] = "field";
      e["k"] = rnd(3);
    } else
      e["op"] = "assign";
  }
  run(e);
}
static void random_write() {
  const auto g = any_handle();
  const auto &v = H.at(g);
  const auto vol = static_cast<int>(v.dims().volume());
  switch (rnd(8)) {
  case 0: case 1: case 2:
    if (vol > 0)
      run({{"op", "write"}, {"g", g}, {"i", rnd(vol)}, {"v", json::array({rnd(40) - 20})}, {"w", json::array()}});
    break;
  case 3:
    run({{"op", "setunit"}, {"g", g}, {"u", v.has_variances() ? json{1, rnd(2), 0} : random_unit()}});
    break;
  case 4: {
    json e{{"op", "setvar"}, {"g", g}, {"by", ""}};
    if (chance(75)) { // something of the same shape, sometimes laid out differently
      const json s = shape_of(v);
      run(random_new("t", s, chance(90) ? type_name(v) : "f4", chance(90) ? unit_json(v.unit()) : random_unit(), false, 20, false));
      if (H.at("t").dims().ndim() > 1 && chance(60)) {
        run({{"op", "transpose"}, {"h", "u"}, {"g", "t"}, {"labs", json::array()}});
        run({{"op", "copy"}, {"h", "u"}, {"g", "u"}});
        json l = json::array();
        for (const auto &d : v.dims())
          l.push_back(name(d));
        run({{"op", "transpose"}, {"h", "t"}, {"g", "u"}, {"labs", l}});
      }
      e["by"] = chance(15) ? any_handle() : "t";
    }
    run(e);
    break;
  }
  case 5:
    run({{"op", "copyto"}, {"g", any_handle()}, {"to", g}});
    break;
  default: {
    auto src = any_handle();
    json e{{"op", "setslice"}, {"to", g}};
    e = random_slice(e, v);
    if (chance(75)) { // something that fits
      json s = json::array();
      try {
        s = shape_of(v.slice(slice_of(e)));
      } catch (const std::exception &) {
      }
      if (chance(30) && !s.empty())
        s.erase(s.begin() + rnd(static_cast<int>(s.size())));
      else if (chance(30))
        std::shuffle(s.begin(), s.end(), rng);
      run(random_new("t", s, type_name(v), chance(90) ? unit_json(v.unit()) : random_unit(), v.has_variances(), 20, false));
      src = "t";
    }
    e["g"] = src;
    run(e);
  }
  }
}
static const std::vector<string> BF{"add", "sub", "mul", "add", "sub", "mul", "less", "equal", "greater_equal", "not_equal", "or", "and", "xor"};
static string mate(const string &g) { // an operand likely to be compatible with g
  if (chance(35))
    return any_handle();
  const auto &v = H.at(g);
  json s = shape_of(v);
  if (chance(50) && !s.empty())
    s.erase(s.begin() + rnd(static_cast<int>(s.size())));
  if (chance(40))
    std::shuffle(s.begin(), s.end(), rng);
  if (chance(30))
    for (const auto &x : L)
      if (!v.dims().contains(dim(x)) && chance(30))
        s.insert(s.begin() + rnd(static_cast<int>(s.size()) + 1), json::array({x, 1 + rnd(3)}));
  const auto t = type_name(v);
  const auto nt = chance(65) || t == "bool" || t == "str" ? t : T[rnd(6)];
  const auto u = chance(85) ? unit_json(v.unit()) : random_unit();
  run(random_new("m", s, nt, u, (nt == "f8" || nt == "f4") && u[0] == 1 && chance(v.has_variances() ? 50 : 10), 6, false));
  return "m";
}
static void random_arith() {
  const auto g = any_handle();
  const auto t = type_name(H.at(g));
  const auto f = t == "bool" ? BF[6 + rnd(7)] : chance(95) ? BF[rnd(10)] : BF[rnd(13)];
  switch (rnd(10)) {
  case 0: case 1: case 2: case 3:
    run({{"op", "bin"}, {"h", string(1, "pqr"[rnd(3)])}, {"f", f}, {"g", g}, {"by", mate(g)}, {"d", json::array()}});
    break;
  case 4: case 5: case 6: case 7: {
    const auto fi = t == "bool" ? BF[10 + rnd(3)] : BF[rnd(3)];
    run({{"op", "inplace"}, {"f", fi}, {"g", g}, {"by", mate(g)}});
    break;
  }
  case 8:
    run({{"op", "un"}, {"h", "n"}, {"f", t == "bool" ? "not" : chance(60) ? "neg" : "abs"}, {"g", g}});
    if (chance(50))
      run({{"op", "ipow"}, {"g", g}, {"k", 1 + rnd(2)}, {"bad", chance(25)}, {"ev", chance(10)}});
    break;
  default: {
    json s = shape_of(H.at(g));
    if (chance(50) && !s.empty())
      s.erase(s.begin() + rnd(static_cast<int>(s.size())));
    run(random_new("c", s, "bool", json::array({0, 0, 0}), false, 2, false));
    run({{"op", "where"}, {"h", "n"}, {"cond", "c"}, {"g", g}, {"by", mate(g)}, {"d", json::array()}});
  }
  }
}
// two operands that overlap in memory without being the same view
static void random_overlap() {
  const auto g = any_handle();
  const auto &v = H.at(g);
  const auto nd = static_cast<int>(v.dims().ndim());
  if (nd == 0)
    return;
  const auto d = v.dims().labels()[rnd(nd)];
  const auto n = static_cast<int>(v.dims()[d]);
  const auto x = name(d);
  const string f = type_name(v) == "bool" ? "xor" : BF[rnd(3)];
  auto sl = [&](const string &h, int b, int e) {
    run({{"op", "slice"}, {"h", h}, {"g", g}, {"x", x}, {"b", b}, {"e", e}, {"st", 1}});
  };
  string a = "s", b = "t";
  const int kind = rnd(4);
  if (type_name(v) == "vec" && chance(60)) {
    run({{"op", "field"}, {"h", "t"}, {"g", g}, {"k", rnd(3)}});
    if (kind == 0 && n > 0)
      run({{"op", "slice"}, {"h", "t"}, {"g", "t"}, {"x", x}, {"b", n - 1}, {"e", -1}, {"st", 1}});
    run({{"op", "inplace"}, {"f", "mul"}, {"g", g}, {"by", "t"}});
    return;
  }
  if (kind == 0 && n >= 2) {
    sl(a, 0, n - 1);
    sl(b, 1, n);
  } else if (kind == 1 && n >= 1) { // one slice into everything
    run({{"op", "assign"}, {"h", a}, {"g", g}});
    sl(b, n - 1, -1);
  } else if (kind == 2 && nd >= 2) { // transposed
    json l = json::array(), p = json::array();
    const auto m = static_cast<int>(std::min(v.dims().size(0), v.dims().size(1)));
    const auto x0 = name(v.dims().labels()[0]), x1 = name(v.dims().labels()[1]);
    run({{"op", "slice"}, {"h", a}, {"g", g}, {"x", x0}, {"b", 0}, {"e", m}, {"st", 1}});
    run({{"op", "slice"}, {"h", a}, {"g", a}, {"x", x1}, {"b", 0}, {"e", m}, {"st", 1}});
    run({{"op", "rename"}, {"h", b}, {"g", a}, {"p", json::array({json::array({x0, "i"}), json::array({x1, "j"})})}, {"strict", true}});
    run({{"op", "rename"}, {"h", b}, {"g", b}, {"p", json::array({json::array({"i", x1}), json::array({"j", x0})})}, {"strict", true}});
  } else if (n >= 3) {
    const int k = 1 + rnd(n / 2);
    const int o = rnd(n - k + 1), q = rnd(n - k + 1);
    sl(a, o, o + k);
    sl(b, q, q + k);
  } else
    return;
  if (H.count(a) && H.count(b))
    chance(80) ? run({{"op", "inplace"}, {"f", f}, {"g", a}, {"by", b}})
               : run({{"op", "copyto"}, {"g", b}, {"to", a}});
}
static void random_concat() {
  const auto g = any_handle();
  const auto &v = H.at(g);
  const auto x = chance(70) ? pick_label(v) : L[rnd(4)];
  json gs = json::array({g});
  const int n = rnd(3);
  for (int i = 0; i < n; ++i) {
    if (chance(40)) {
      gs.push_back(any_handle());
      continue;
    }
    json s = shape_of(v);
    for (size_t k = 0; k < s.size(); ++k)
      if (s[k][0] == x) {
        if (chance(30))
          s.erase(s.begin() + static_cast<long>(k));
        else
          s[k][1] = chance(10) ? 0 : 1 + rnd(3);
        break;
      }
    if (chance(25))
      std::shuffle(s.begin(), s.end(), rng);
    if (chance(15) && !s.empty())
      s.erase(s.begin() + rnd(static_cast<int>(s.size())));
    const string nm = i == 0 ? "k" : "l";
    run(random_new(nm, s, type_name(v), chance(92) ? unit_json(v.unit()) : random_unit(), v.has_variances(), 20, false));
    gs.push_back(nm);
  }
  if (chance(30))
    std::shuffle(gs.begin(), gs.end(), rng);
  run({{"op", "concat"}, {"h", "n"}, {"gs", gs}, {"x", x}});
}
static json base(const string &h, int maxdims, int maxext, bool arith, bool nan) {
  auto t = T[rnd(9)];
  if (arith && t == "str")
    t = "f8";
  const auto u = t == "bool" || t == "str" ? json{0, 0, 0} : random_unit();
  return random_new(h, random_shape(maxdims, maxext), t, u, (t == "f8" || t == "f4") && u[0] == 1 && chance(50), arith ? 6 : 30, nan);
}
static void random_program(const string &mode) {
  reset();
  const bool arith = mode == "arith";
  const int ext = chance(15) ? 7 : 4;
  run(base("a", 3, ext, arith, mode == "eq"));
  if (chance(50))
    run(base("b", 3, 3, arith, mode == "eq"));
  if (arith && chance(20)) { // long enough to be split among threads
    run(random_new("a", json::array({json::array({"x", 20 + rnd(60)})}), "f8", json::array({1, 1, 0}), chance(50), 6, false));
  }
  static const std::vector<string> N{"d", "e", "f", "g"};
  for (int i = 0; i < 3 + rnd(3); ++i)
    random_view(N[rnd(4)]);
  for (int i = 0; i < 8 + rnd(6); ++i) {
    if (mode == "views")
      chance(40) ? random_view(N[rnd(4)]) : random_write();
    else if (mode == "arith")
      chance(25) ? random_view(N[rnd(4)]) : chance(10) ? random_write() : chance(25) ? random_overlap() : random_arith();
    else if (mode == "shape")
      chance(45) ? random_concat() : chance(80) ? random_view(N[rnd(4)]) : random_write();
    else if (mode == "eq") {
      const int k = rnd(10);
      if (k < 3)
        random_view(N[rnd(4)]);
      else if (k < 6)
        run({{"op", "copy"}, {"h", N[rnd(4)]}, {"g", any_handle()}});
      else
        random_write();
      compare_all();
    }
  }
}
int main(int argc, char **argv) {
  const string mode = argv[1];
  if (mode == "gen") {
    const auto programs = read_programs(argv[2]);
    const Shard sh(argv[3]);
    long k = 0;
    for (const auto &p : programs) {
      if (!sh.mine(k++))
        continue;
      reset();
      for (const auto &e : p)
        run(e);
    }
  } else {
    const int n = atoi(argv[2]);
    rng.seed(seed() * 7919u + static_cast<unsigned>(atoi(argv[3])) * 104729u + static_cast<unsigned>(mode[0]));
    for (int i = 0; i < n; ++i)
      random_program(mode);
  }
  (void)argc;
  return 0;
}
