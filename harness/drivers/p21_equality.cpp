// P21: equality and copies.  Modes: var array set copy
#include "vobj_ds.h"
#include "scipp/variable/astype.h"
using namespace vt;
// ---- everything that can be changed in an object ----
static void scribble(Variable v) {
  if (v.is_readonly())
    return;
  if (is_bins(v)) {
    if (v.dtype() == dtype<bucket<Variable>>)
      scribble(v.bin_buffer<Variable>());
    else {
      auto &b = v.bin_buffer<DataArray>();
      scribble(b.data());
      for (const auto &[n, c] : b.coords())
        scribble(c);
      for (const auto &[n, m] : b.masks())
        scribble(m);
    }
    return;
  }
  with_type(type_name(v), [&](auto proto) {
    using T = decltype(proto);
    for (auto &x : v.values<T>())
      if constexpr (std::is_same_v<T, Eigen::Vector3d>)
        x = Eigen::Vector3d(77, 78, 79);
      else if constexpr (std::is_same_v<T, bool>)
        x = !x;
      else
        x = from_int<T>(77);
    if constexpr (std::is_floating_point_v<T>)
      if (v.has_variances())
        for (auto &x : v.variances<T>())
          x = 55;
    return 0;
  });
  if (!v.is_slice())
    try {
      v.setUnit(units::m * units::m * units::m);
    } catch (const std::exception &) {
    }
}
static void scribble(DataArray a) {
  scribble(a.data());
  for (const auto &[n, c] : a.coords())
    scribble(c);
  for (const auto &[n, m] : a.masks())
    scribble(m);
}
static void scribble(Dataset &d) {
  for (const auto &[n, c] : d.coords())
    scribble(c);
  for (const auto &i : d)
    scribble(DataArray(i));
}
// also the sets of coords and masks
static void scribble_sets(Variable &v) { scribble(v); }
static void scribble_sets(DataArray &a) {
  scribble(a);
  if (!a.coords().is_readonly())
    a.coords().set(Dim("new"), makeVariable<double>(Values{1.0}));
  if (!a.masks().is_readonly()) {
    a.masks().set("new", makeVariable<bool>(Values{true}));
    for (const string n : {"m", "n"})
      if (a.masks().contains(n))
        a.masks().erase(n);
  }
  if (!a.coords().is_readonly())
    for (const auto &[n, c] : Coords(a.coords()))
      if (n != Dim("new"))
        a.coords().set_aligned(n, !c.is_aligned());
}
static void scribble_sets(Dataset &d) {
  scribble(d);
  for (const string n : {"i", "j"})
    if (d.contains(n)) {
      auto item = d[n];
      if (!item.masks().is_readonly())
        item.masks().set("new", makeVariable<bool>(Values{true}));
    }
  if (!d.is_readonly()) {
    d.setCoord(Dim("new"), makeVariable<double>(Values{1.0}));
    if (d.contains("j"))
      d.erase("j");
  }
}
// element types, units and alignment of all columns
static void annotate(json &o, const Variable &v) {
  if (!is_bins(v))
    return;
  o["ct"] = json::array();
  if (v.dtype() == dtype<bucket<Variable>>)
    o["ct"].push_back("var");
  else {
    const auto &[i, d, b] = v.constituents<DataArray>();
    std::vector<std::pair<string, json>> all;
    for (const auto &[n, c] : b.coords())
      all.emplace_back("c" + name(n), json::array({type_name(c), unit_json(c.unit()), c.is_aligned(), c.has_variances(), c.dims().contains(d) ? json(0) : observe(c)["v"], c.dims().contains(d) ? json(0) : shape(c.dims())}));
    for (const auto &[n, m] : b.masks())
      all.emplace_back("m" + n, json::array({type_name(m), unit_json(m.unit()), m.dims().contains(d) ? json(0) : shape(m.dims())}));
    std::sort(all.begin(), all.end(), [](auto &p, auto &q) { return p.first < q.first; });
    for (const auto &[n, x] : all)
      o["ct"].push_back(n + x.dump());
  }
}
static json obs(const Variable &v) {
  auto o = observe_any(v);
  annotate(o, v);
  return o;
}
static json obs(const DataArray &a) {
  auto o = observe(a);
  annotate(o["data"], a.data());
  return o;
}
static json obs(const Dataset &d) {
  auto o = observe(d);
  for (const auto &i : d)
    annotate(o["items"][i.name()]["data"], i.data());
  return o;
}
// ---- single changes of recipes ----
static bool change_var(json &v, bool meta = false) {
  if (v["t"] == "bin") {
    auto &b = v["buf"];
    switch (R(9)) {
    case 0: return change_var(b["data"]);
    case 1: { // another bin
      if (v["bi"].empty())
        return false;
      auto &p = v["bi"][static_cast<size_t>(R(static_cast<int>(v["bi"].size())))];
      if (p[0] == p[1])
        return false;
      p[R(2)] = R.chance(50) ? p[0] : p[1];
      return true;
    }
    case 2:
      if (v["bi"].size() < 2)
        return false;
      std::swap(v["bi"][0], v["bi"][1]);
      return true;
    case 3: case 4:
      if (b["coords"].empty())
        return false;
      return change_var(b["coords"].begin().value());
    case 5:
      if (b["masks"].empty())
        return false;
      return change_var(b["masks"].begin().value());
    case 6:
      if (v.value("var", false))
        return false;
      if (b["coords"].empty())
        return false;
      b["coords"].erase(b["coords"].begin());
      return true;
    case 7:
      if (b["masks"].empty())
        return false;
      b["masks"].erase(b["masks"].begin());
      return true;
    default:
      if (v["s"].size() > 0 && !meta) {
        v["s"][0][0] = "q";
        return true;
      }
      return false;
    }
  }
  auto &q = v["v"];
  const bool fl = v["t"] == "f8" || v["t"] == "f4";
  switch (R(9)) {
  case 0: case 1: case 2:
    if (q.empty())
      return false;
    else {
      auto &x = q[R.chance(30) ? q.size() - 1 : static_cast<size_t>(R(static_cast<int>(q.size())))];
      if (v["t"] == "bool")
        x = 1 - x.get<int>();
      else if (fl && R.chance(20))
        x = x == NaN ? json(0) : R.chance(50) ? json(NaN) : json(PosInf);
      else
        x = x == NaN || x == PosInf || x == NegInf ? 1 : x.get<int>() + (v["t"] == "str" ? 1 : R.chance(50) ? 1 : -1);
      return true;
    }
  case 3:
    if (!v["hv"].get<bool>() || q.empty())
      return false;
    else {
      auto &x = v["w"][static_cast<size_t>(R(static_cast<int>(v["w"].size())))];
      x = R.chance(15) ? json(NaN) : json(x == NaN ? 1 : x.get<int>() + 1);
      return true;
    }
  case 4:
    if (!fl)
      return false;
    if (v["hv"].get<bool>()) {
      v["hv"] = false;
      v["w"] = json::array();
    } else {
      v["hv"] = true;
      v["w"] = json::array();
      for (size_t i = 0; i < q.size(); ++i)
        v["w"].push_back(R.chance(50) ? 0 : 1);
    }
    return true;
  case 5:
    v["u"] = v["u"] == json::array({1, 1, 0}) ? json::array({R(2), 0, 0}) : json::array({1, 1, 0});
    return true;
  case 6: {
    const std::map<string, string> other{{"f8", "f4"}, {"f4", "i4"}, {"i8", "i4"}, {"i4", "i8"}, {"dt", "i8"}, {"str", "i8"}, {"bool", "i8"}};
    const string t = v["t"];
    if (other.count(t) == 0 || v["hv"].get<bool>())
      return false;
    for (const auto &x : q)
      if (x == NaN || x == PosInf || x == NegInf)
        return false;
    v["t"] = other.at(t);
    return true;
  }
  case 7: { // the same numbers, dims in another order
    if (v["s"].size() < 2 || meta)
      return false;
    std::swap(v["s"][0], v["s"][1]);
    return true;
  }
  default:
    if (v["s"].empty() || meta)
      return false;
    v["s"][static_cast<size_t>(R(static_cast<int>(v["s"].size())))][0] = "q";
    return true;
  }
}
static bool change_maps(json &a) {
  auto &c = a["coords"], &m = a["masks"];
  auto pick = [](json &o) {
    auto it = o.begin();
    std::advance(it, R(static_cast<int>(o.size())));
    return it;
  };
  switch (R(8)) {
  case 0: case 1: return !c.empty() && change_var(pick(c).value(), true);
  case 2: return !m.empty() && change_var(pick(m).value(), true);
  case 3:
    if (c.empty())
      return false;
    c.erase(pick(c));
    return true;
  case 4:
    if (m.empty())
      return false;
    m.erase(pick(m));
    return true;
  case 5: {
    if (c.empty())
      return false;
    auto &x = pick(c).value();
    x["al"] = !x.value("al", true);
    return true;
  }
  case 6: { // another name
    auto &o = R.chance(50) ? c : m;
    if (o.empty())
      return false;
    const auto it = pick(o);
    const auto v = it.value();
    o.erase(it);
    o["r"] = v;
    return true;
  }
  default: // one moved to the other
    if (c.empty())
      return false;
    const auto it = pick(c);
    if (it.value()["t"] != "bool")
      return false;
    m[it.key()] = it.value();
    c.erase(it);
    return true;
  }
}
// the same in another order of insertion
static DataArray shuffled(const DataArray &a) {
  DataArray out(a.data());
  std::vector<Dim> cs;
  for (const auto &[n, c] : a.coords())
    cs.push_back(n);
  R.shuffle(cs);
  for (const auto &n : cs) {
    out.coords().set(n, a.coords()[n]);
    out.coords().set_aligned(n, a.coords()[n].is_aligned());
  }
  std::vector<string> ms;
  for (const auto &[n, m] : a.masks())
    ms.push_back(n);
  R.shuffle(ms);
  for (const auto &n : ms)
    out.masks().set(n, a.masks()[n]);
  out.setName(R.chance(50) ? a.name() : "other");
  return out;
}
static Variable other_layout(const Variable &v) {
  if (is_bins(v))
    return R.chance(50) ? copy(v) : v;
  return relayout(v);
}
static DataArray other_layout(const DataArray &a) { return shuffled(R.chance(70) ? relayout(a) : a); }
struct Items { // recipe of a dataset
  json coords = json::object();
  std::map<string, json> items;
};
static Dataset build(const Items &r, bool other) {
  std::vector<string> names;
  for (const auto &[n, i] : r.items)
    names.push_back(n);
  if (other)
    R.shuffle(names);
  Dataset d;
  bool first = true;
  for (const auto &n : names) {
    auto j = r.items.at(n);
    j["coords"] = first ? r.coords : json::object();
    auto a = make_array(j);
    if (other)
      a = other_layout(a);
    if (first)
      d.setDataInit(n, a);
    else
      d.setData(n, a);
    first = false;
  }
  return d;
}
template <class A, class B> static void compare(const A &a, const B &b) {
  json e{{"op", "eq"}, {"a", obs(a)}, {"b", obs(b)}};
  e["eq"] = a == b;
  e["qe"] = b == a;
  e["ne"] = a != b;
  e["en"] = b != a;
  e["nan"] = equals_nan(a, b);
  e["nan2"] = equals_nan(b, a);
  e["aa"] = a == a;
  e["aan"] = equals_nan(a, a);
  e["a2"] = obs(a);
  e["b2"] = obs(b);
  emit(e);
}
static ArraySpec spec(const json &s) {
  ArraySpec p;
  p.s = s;
  p.binned = 25;
  p.wide = 70;
  p.types = {"f8", "f8", "f4", "i8", "i4", "bool", "str", "vec", "dt"};
  return p;
}
static void more_nans(json &v, int pct) {
  if (v["t"] == "bin")
    return more_nans(v["buf"]["data"], pct);
  if (v["t"] != "f8" && v["t"] != "f4" && v["t"] != "vec")
    return;
  for (auto &x : v["v"])
    if (R.chance(pct))
      x = NaN;
  if (v["hv"].get<bool>())
    for (auto &x : v["w"])
      if (R.chance(pct))
        x = NaN;
}
static json recipe(const json &s) {
  auto a = random_array(spec(s));
  if (R.chance(30)) {
    more_nans(a["data"], 20);
    for (auto &[n, c] : a["coords"].items())
      if (R.chance(30))
        more_nans(c, 20);
  }
  return a;
}
static json some_dims() { return random_dims(R(4), R.chance(20) ? 0 : 1, 4); }
static void changes(json &a, bool var) {
  int n = R.chance(25) ? 0 : 1;
  for (int tries = 0; n > 0 && tries < 20; ++tries) {
    auto b = a;
    if (var || R.chance(45) ? change_var(b["data"]) : change_maps(b))
      try {
        make_array(b);
        a = b;
        --n;
      } catch (const std::exception &) {
      }
  }
}
static void vars() {
  auto a = recipe(some_dims());
  a["coords"] = json::object();
  a["masks"] = json::object();
  auto b = a;
  changes(b, true);
  const auto x = make_any(a["data"]);
  auto y = make_any(b["data"]);
  if (R.chance(60))
    y = other_layout(y);
  if (R.chance(20))
    y = y.as_const();
  compare(R.chance(30) ? other_layout(x) : x, R.chance(5) ? x : y);
}
static void arrays() {
  const auto a = recipe(some_dims());
  auto b = a;
  changes(b, false);
  const auto x = make_array(a);
  auto y = make_array(b);
  if (R.chance(60))
    y = other_layout(y);
  if (R.chance(10))
    y = y.as_const();
  compare(R.chance(30) ? other_layout(x) : x, R.chance(5) ? x : y);
}
static Items items(const json &s) {
  Items r;
  for (const string n : {"i", "j", "k"})
    if (n == "i" || R.chance(50)) {
      r.items[n] = recipe(s);
      if (n == "i")
        r.coords = r.items[n]["coords"];
    }
  return r;
}
static void sets() {
  const auto r = items(some_dims());
  auto q = r;
  const auto x = build(r, false);
  for (int tries = 0; tries < 10; ++tries) {
    if (R.chance(25))
      break;
    auto p = q;
    const int k = R(8);
    auto it = p.items.begin();
    std::advance(it, R(static_cast<int>(p.items.size())));
    if (k < 4) {
      it->second["coords"] = p.coords;
      changes(it->second, false);
      p.coords = it->second["coords"];
    } else if (k == 4 && p.items.size() > 1)
      p.items.erase(it);
    else if (k == 5) {
      const auto j = it->second;
      p.items.erase(it);
      p.items["l"] = j;
    } else if (k == 6 && p.items.size() > 1)
      std::swap(p.items.begin()->second, p.items.rbegin()->second);
    else
      continue;
    try {
      build(p, false);
      q = p;
      break;
    } catch (const std::exception &) {
    }
  }
  compare(x, build(q, R.chance(70)));
}
template <class T> static void copied(T a) {
  json e{{"op", "copy"}, {"a", obs(a)}};
  try {
    auto r = copy(a);
    e["r"] = obs(r);
    e["same"] = a == r;
    e["nan"] = equals_nan(a, r);
    auto r2 = copy(a);
    scribble_sets(r);
    e["a2"] = obs(a);
    auto b = a; // shares with a
    scribble_sets(b);
    e["r2"] = obs(r2);
    e["ok"] = true;
  } catch (const std::exception &x) {
    e["ok"] = false;
    e["why"] = x.what();
  }
  emit(e);
}
static json some_slice(const json &s) {
  const auto &d = s[static_cast<size_t>(R(static_cast<int>(s.size())))];
  const int n = d[1].get<int>(), b = R(n + 1);
  return json::array({d[0], b, b == n || R.chance(60) ? b + R(n - b + 1) : -1});
}
static Slice slice_of(const json &j) { return j[2] == -1 ? Slice(dim(j[0]), j[1].get<int>()) : Slice(dim(j[0]), j[1].get<int>(), j[2].get<int>()); }
static void copies() {
  const auto s = some_dims();
  const int k = R(3);
  const bool slice = !s.empty() && R.chance(40), ro = R.chance(20);
  if (k == 0) {
    auto v = make_any(recipe(s)["data"]);
    if (R.chance(40))
      v = other_layout(v);
    if (slice)
      v = v.slice(slice_of(some_slice(s)));
    else if (!s.empty() && R.chance(15))
      v = v.broadcast(v.dims());
    copied(ro ? v.as_const() : v);
  } else if (k == 1) {
    auto a = make_array(recipe(s));
    if (R.chance(40))
      a = other_layout(a);
    if (slice)
      a = a.slice(slice_of(some_slice(s)));
    copied(ro ? a.as_const() : a);
  } else {
    auto d = build(items(s), R.chance(50));
    if (R.chance(10))
      while (d.size() > 0)
        d.erase(d.begin()->name());
    copied(slice ? d.slice(slice_of(some_slice(s))) : d);
  }
}
int main(int, char **argv) {
  const string mode = argv[1];
  R.start(mode, atoi(argv[3]));
  const int n = atoi(argv[2]);
  for (int i = 0; i < n; ++i)
    mode == "var" ? vars() : mode == "array" ? arrays() : mode == "set" ? sets() : copies();
}
