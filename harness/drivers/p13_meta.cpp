// Histories of metadata and item operations on data arrays and datasets (P13).
#include "vobj_ds.h"
#include "scipp/dataset/shape.h"
#include <memory>
#include <variant>
using namespace vt;
static Trace T;
static std::mt19937 rng;
static int rnd(int n) { return static_cast<int>(rng() % static_cast<unsigned>(n)); }
static bool chance(int p) { return rnd(100) < p; }
using A = std::unique_ptr<DataArray>;
using S = std::unique_ptr<Dataset>;
struct Obj {
  A a;
  S s;
};
static std::map<string, Obj> H;
static std::map<string, json> seen;

// ---- observation ----
static json obs_var(const Variable &v, bool al = false) {
  json o{{"d", shape(v.dims())}, {"v", observe(v)["v"]}, {"ro", v.is_readonly()}};
  if (al)
    o["al"] = v.is_aligned();
  return o;
}
template <class M> static json obs_map(const M &m, bool al) {
  json o = json::object();
  for (const auto &[n, v] : m) {
    if constexpr (std::is_same_v<std::decay_t<decltype(n)>, Dim>)
      o[name(n)] = obs_var(v, al);
    else
      o[n] = obs_var(v, al);
  }
  return o;
}
static bool same_sizes(const Sizes &a, const Sizes &b) { return a == b; }
static json obs(const Obj &o) {
  if (o.a) {
    const DataArray &a = *o.a;
    const auto &c = a.coords();
    const auto &m = a.masks();
    return {{"k", "da"}, {"nm", a.name()}, {"ro", a.is_readonly()}, {"data", obs_var(a.data())},
            {"coords", obs_map(c, true)}, {"cro", c.is_readonly()}, {"masks", obs_map(m, false)}, {"mro", m.is_readonly()},
            {"fit", same_sizes(c.sizes(), a.dims()) && same_sizes(m.sizes(), a.dims())}};
  }
  const Dataset &d = *o.s;
  bool fit = true;
  json items = json::object();
  for (const auto &i : d) {
    items[i.name()] = {{"data", obs_var(i.data())}, {"masks", obs_map(i.masks(), false)}, {"mro", i.masks().is_readonly()}};
    fit = fit && same_sizes(i.masks().sizes(), d.sizes()) && same_sizes(i.coords().sizes(), d.sizes()) && i.coords().is_readonly() && i.is_readonly() == d.is_readonly();
    for (const auto &[n, v] : i.coords()) // the dataset's coords
      fit = fit && d.coords().contains(n) && v.is_readonly() && v.is_same(d.coords()[n]);
  }
  return {{"k", "ds"}, {"ro", d.is_readonly()}, {"s", shape(d.sizes())}, {"coords", obs_map(d.coords(), true)}, {"cro", d.coords().is_readonly()},
          {"items", items}, {"fit", fit}};
}

// ---- operations ----
static Variable var_from(const json &s, const json &v, bool mask) {
  return make({{"s", s}, {"v", v}, {"w", json::array()}, {"hv", false}, {"u", mask ? json{0, 0, 0} : json{1, 0, 0}}, {"t", mask ? "bool" : "f8"}});
}
static Variable take(const json &e, bool mask) {
  const string k = e["k"];
  Variable v;
  if (k == "new")
    v = var_from(e["s"], e["v"], mask);
  else if (k == "bcast")
    return var_from(json::array(), e["v"], mask).as_const().broadcast(dims(e["s"])).as_const();
  else {
    const auto &o = H.at(e["g"]);
    if (k == "data")
      v = std::as_const(*o.a).data();
    else if (k == "coord")
      v = o.a ? std::as_const(*o.a).coords()[dim(e["n"])] : std::as_const(*o.s).coords()[dim(e["n"])];
    else
      v = std::as_const(*o.a).masks()[e["n"].get<string>()];
  }
  return e["const"].get<bool>() ? v.as_const() : v;
}
static std::vector<std::pair<Dim, Dim>> pairs(const json &p) {
  std::vector<std::pair<Dim, Dim>> r;
  for (const auto &x : p)
    r.emplace_back(dim(x[0]), dim(x[1]));
  return r;
}
static std::vector<Dim> dimlist(const json &l) {
  std::vector<Dim> r;
  for (const auto &x : l)
    r.push_back(dim(x));
  return r;
}
static scipp::Slice cut(const json &e) {
  return e["e"] == -1 ? scipp::Slice(dim(e["x"]), e["b"].get<scipp::index>())
                      : scipp::Slice(dim(e["x"]), e["b"].get<scipp::index>(), e["e"].get<scipp::index>());
}
static void perform(const json &e) {
  const string op = e["op"];
  const string h = e["h"];
  // results are constructed in place: copying changes read-only flags
#define PUT_A(...) { A n(new DataArray(__VA_ARGS__)); H[h] = Obj{std::move(n), nullptr}; }
#define PUT_S(...) { S n(new Dataset(__VA_ARGS__)); H[h] = Obj{nullptr, std::move(n)}; }
  if (op == "da") {
    core::Dict<Dim, Variable> c;
    core::Dict<string, Variable> m;
    for (const auto &[n, v] : e["coords"].items())
      c.insert_or_assign(dim(n), take(v, false));
    for (const auto &[n, v] : e["masks"].items())
      m.insert_or_assign(n, take(v, true));
    PUT_A(take(e["data"], false), c, m, typename Attrs::holder_type{}, e["nm"].get<string>())
    return;
  }
  if (op == "ds") {
    core::Dict<Dim, Variable> c;
    for (const auto &[n, v] : e["coords"].items())
      c.insert_or_assign(dim(n), take(v, false));
    PUT_S(core::Dict<string, DataArray>{}, Coords(dims(e["s"]), c))
    return;
  }
  auto &o = H.at(e.contains("from") ? e["from"].get<string>() : h);
  if (op == "copy") {
    if (o.a) PUT_A(std::as_const(*o.a)) else PUT_S(std::as_const(*o.s))
  } else if (op == "deep") {
    if (o.a) PUT_A(copy(*o.a)) else PUT_S(copy(*o.s))
  } else if (op == "view") PUT_A(o.a->view())
  else if (op == "item") PUT_A((*o.s)[e["n"].get<string>()])
  else if (op == "slice") {
    if (o.a) PUT_A(o.a->slice(cut(e))) else PUT_S(o.s->slice(cut(e)))
  } else if (op == "squeeze") {
    const auto l = dimlist(e["xs"]);
    std::optional<scipp::span<const Dim>> arg;
    if (!e["all"].get<bool>())
      arg = l;
    if (o.a) PUT_A(squeeze(*o.a, arg)) else PUT_S(squeeze(*o.s, arg))
  } else if (op == "rename") {
    if (o.a) PUT_A(o.a->rename_dims(pairs(e["p"]))) else PUT_S(o.s->rename_dims(pairs(e["p"])))
  } else if (op == "transpose") PUT_A(transpose(*o.a, dimlist(e["labs"])))
  else if (op == "const") PUT_A(o.a->as_const())
  else if (op == "drop") {
    if (e["kind"] == "coord") {
      const auto l = dimlist(e["ns"]);
      if (o.a) PUT_A(o.a->drop_coords(l)) else PUT_S(o.s->drop_coords(l))
    } else {
      const std::vector<string> l = e["ns"];
      PUT_A(o.a->drop_masks(l))
    }
  } else if (op == "setcoord") {
    if (e["via"] == "ds") o.s->setCoord(dim(e["n"]), take(e["var"], false));
    else if (o.a) o.a->coords().set(dim(e["n"]), take(e["var"], false));
    else o.s->coords().set(dim(e["n"]), take(e["var"], false));
  } else if (op == "setmask") o.a->masks().set(e["n"], take(e["var"], true));
  else if (op == "delcoord") {
    const auto n = dim(e["n"]);
    auto &c = o.a ? o.a->coords() : o.s->coords();
    if (e["how"] == "extract") static_cast<void>(c.extract(n));
    else c.erase(n);
  } else if (op == "delmask") {
    if (e["how"] == "extract") static_cast<void>(o.a->masks().extract(e["n"].get<string>()));
    else o.a->masks().erase(e["n"].get<string>());
  } else if (op == "align") {
    auto &c = o.a ? o.a->coords() : o.s->coords();
    c.set_aligned(dim(e["n"]), e["al"]);
  } else if (op == "setdata") o.a->setData(take(e["var"], false));
  else if (op == "dsset") o.s->setData(e["n"], take(e["var"], false));
  else if (op == "dssetda") o.s->setData(e["n"], *H.at(e["g"]).a);
  else if (op == "erase") o.s->erase(e["n"]);
  else if (op == "extract") {
    A n(new DataArray(o.s->extract(e["n"])));
    H[e["to"]] = Obj{std::move(n), nullptr};
  } else if (op == "clear") o.s->clear();
  else if (op == "write") {
    Variable v = e["kind"] == "data" ? o.a->data() : e["kind"] == "coord" ? (o.a ? o.a->coords()[dim(e["n"])] : o.s->coords()[dim(e["n"])]) : o.a->masks()[e["n"].get<string>()];
    const auto i = e["i"].get<scipp::index>() - 1;
    if (e["kind"] == "mask") {
      auto w = v.values<bool>();
      if (i >= w.size()) throw std::out_of_range("");
      w[i] = e["val"] != 0;
    } else {
      auto w = v.values<double>();
      if (i >= w.size()) throw std::out_of_range("");
      w[i] = e["val"].get<int>();
    }
  } else if (op == "setslice") {
    if (e["var"]["k"] != "none") {
      const auto v = take(e["var"], false);
      if (o.a) o.a->setSlice(cut(e), v); else o.s->setSlice(cut(e), v);
    } else {
      const auto &g = H.at(e["g"]);
      if (o.a) o.a->setSlice(cut(e), copy(*g.a));
      else if (g.a) o.s->setSlice(cut(e), copy(*g.a));
      else o.s->setSlice(cut(e), copy(*g.s));
    }
  } else
    throw std::logic_error("unknown operation " + op);
}
static bool run(json e) {
  bool ok = true;
  try {
    perform(e);
  } catch (const std::logic_error &x) {
    if (string(x.what()).rfind("unknown operation", 0) == 0)
      exit(78);
    ok = false;
  } catch (const nlohmann::json::exception &x) {
    fprintf(stderr, "%s\n%s\n", x.what(), e.dump().c_str());
    exit(79);
  } catch (const std::exception &) {
    ok = false;
  }
  e["ok"] = ok;
  e["obs"] = json::object();
  for (const auto &[n, o] : H) {
    const auto j = obs(o);
    if (const auto it = seen.find(n); it == seen.end() || it->second != j)
      e["obs"][n] = seen[n] = j;
  }
  T.emit(e);
  return ok;
}
static void reset() {
  H.clear();
  seen.clear();
  T.emit({{"op", "reset"}});
}

// ---- generation ----
static std::map<string, int> ext;
static int fresh = 0;
static const std::vector<string> N{"p", "q", "r", "s"}, X{"x", "y", "z"}, CN{"x", "y", "c"}, MN{"m", "k"}, IN{"a", "b"};
static const string &pick(const std::vector<string> &v) { return v[rnd(v.size())]; }
static json fill(const json &s, bool mask) {
  json v = json::array();
  long n = 1;
  for (const auto &p : s)
    n *= p[1].get<int>();
  for (long i = 0; i < n; ++i)
    v.push_back(mask ? rnd(2) : ++fresh);
  return v;
}
static json fresh_var(const json &s, bool mask) {
  if (!mask && chance(8)) {
    return {{"k", "bcast"}, {"s", s}, {"v", json::array({++fresh})}, {"const", true}};
  }
  json v = fill(s, mask);
  if (!mask && chance(25)) // collide with other content
    for (auto &x : v)
      x = rnd(2);
  return {{"k", "new"}, {"s", s}, {"v", v}, {"const", chance(6)}};
}
static json data_shape() {
  std::vector<string> q{"x", "y"};
  if (chance(15))
    q.push_back("z");
  std::shuffle(q.begin(), q.end(), rng);
  const int n = chance(8) ? 0 : chance(45) ? 1 : static_cast<int>(q.size());
  json s = json::array();
  for (int i = 0; i < n; ++i)
    s.push_back({q[i], ext[q[i]]});
  return s;
}
// a coord for something of shape s
static json meta_shape(const json &s, bool edges = true) {
  json r = json::array();
  for (const auto &p : s)
    if (chance(65))
      r.push_back(p);
  std::shuffle(r.begin(), r.end(), rng);
  if (!r.empty() && edges && chance(30))
    r[rnd(r.size())][1] = r[rnd(r.size())][1].get<int>() + 1;
  if (edges && chance(8) && !r.empty())
    r[0][1] = r[0][1].get<int>() + 1;
  if (edges && chance(14)) { // another dimension
    const auto x = pick(X);
    bool has = false;
    for (const auto &p : r)
      has = has || p[0] == x;
    if (!has)
      r.push_back({x, chance(60) ? 2 : chance(50) ? ext[x] : 3});
  }
  return r;
}
static json shape_of(const Obj &o) { return o.a ? shape(o.a->dims()) : shape(o.s->sizes()); }
static std::vector<string> names(int kind) { // 0: all, 1: arrays, 2: datasets
  std::vector<string> r;
  for (const auto &[n, o] : H)
    if (kind == 0 || (kind == 1) == bool(o.a))
      r.push_back(n);
  return r;
}
static string cname(const Obj &o) {
  std::vector<string> r;
  for (const auto &[n, v] : o.a ? std::as_const(*o.a).coords() : std::as_const(*o.s).coords())
    r.push_back(name(n));
  return r.empty() || chance(8) ? pick(CN) : pick(r);
}
static string mname(const Obj &o) {
  std::vector<string> r;
  for (const auto &[n, v] : std::as_const(*o.a).masks())
    r.push_back(n);
  return r.empty() || chance(8) ? pick(MN) : pick(r);
}
static bool has_coord(const Obj &o, const string &n) { return o.a ? o.a->coords().contains(dim(n)) : o.s->coords().contains(dim(n)); }
static json coord_arg(const Obj &o, string &n) {
  if (chance(30)) { // shared with another object
    const auto g = pick(names(0));
    const auto c = cname(H.at(g));
    if (has_coord(H.at(g), c)) {
      if (chance(70))
        n = c;
      return {{"k", "coord"}, {"g", g}, {"n", c}, {"const", chance(5)}};
    }
  }
  return fresh_var(meta_shape(shape_of(o)), false);
}
static json mask_arg(const Obj &o, string &n) {
  if (chance(30)) {
    const auto g = pick(names(1));
    const auto c = mname(H.at(g));
    if (H.at(g).a->masks().contains(c)) {
      n = c;
      return {{"k", "mask"}, {"g", g}, {"n", c}, {"const", chance(5)}};
    }
  }
  return fresh_var(meta_shape(shape_of(o), chance(20)), true);
}
static json data_arg(const json &s, const string &nm) {
  if (chance(25)) {
    std::vector<string> r;
    for (const auto &g : names(1))
      if (H.at(g).a->name() == nm)
        r.push_back(g);
    if (!r.empty())
      return {{"k", "data"}, {"g", pick(r)}, {"const", chance(5)}};
  }
  json q = s;
  if (chance(12) && !q.empty())
    q[rnd(q.size())][1] = 1 + rnd(3);
  if (chance(10))
    q = data_shape();
  if (chance(20))
    std::shuffle(q.begin(), q.end(), rng);
  return fresh_var(q, false);
}
static void new_array(const string &h) {
  json e{{"op", "da"}, {"h", h}, {"nm", pick(IN)}, {"coords", json::object()}, {"masks", json::object()}};
  const auto s = data_shape();
  e["data"] = fresh_var(s, false);
  for (const auto &c : CN)
    if (chance(45))
      e["coords"][c] = fresh_var(meta_shape(s, chance(40)), false);
  for (const auto &c : MN)
    if (chance(40))
      e["masks"][c] = fresh_var(meta_shape(s, chance(10)), true);
  run(e);
}
static void new_dataset(const string &h) {
  json e{{"op", "ds"}, {"h", h}, {"s", data_shape()}, {"coords", json::object()}};
  for (const auto &c : CN)
    if (chance(45))
      e["coords"][c] = fresh_var(meta_shape(e["s"], chance(40)), false);
  run(e);
  if (!H.count(h) || !H[h].s)
    return;
  for (const auto &n : IN)
    if (chance(75))
      run({{"op", "dsset"}, {"h", h}, {"n", n}, {"var", fresh_var(e["s"], false)}});
}
static json cut_of(const Obj &o, bool bad = true) {
  const auto s = shape_of(o);
  string x = s.empty() || (bad && chance(5)) ? pick(X) : s[rnd(s.size())][0].get<string>();
  int n = 2;
  for (const auto &p : s)
    if (p[0] == x)
      n = p[1];
  if (chance(45))
    return {{"x", x}, {"b", rnd(n + (bad && chance(10)) + (n == 0))}, {"e", -1}};
  const int b = rnd(n + 1), e = b + rnd(n - b + 1 + (bad && chance(8)));
  return {{"x", x}, {"b", b}, {"e", e}};
}
static void derive(const string &h) {
  const auto g = pick(names(0));
  const auto &o = H.at(g);
  json e{{"h", h}, {"from", g}};
  const int k = rnd(100);
  if (o.s && k < 45) {
    e["op"] = "item";
    e["n"] = pick(IN);
  } else if (k < 12 + 45 * bool(o.s)) e["op"] = "copy";
  else if (k < 18 + 40 * bool(o.s)) e["op"] = "deep";
  else if (k < 26 && o.a) e["op"] = "view";
  else if (k < 66) {
    e["op"] = "slice";
    e.update(cut_of(o));
  } else if (k < 72) {
    e["op"] = "squeeze";
    e["all"] = chance(50);
    e["xs"] = json::array();
    if (!e["all"].get<bool>())
      e["xs"].push_back(pick(X));
  } else if (k < 84) {
    e["op"] = "rename";
    e["p"] = json::array();
    const auto s = shape_of(o);
    const string x = s.empty() || chance(8) ? pick(X) : s[rnd(s.size())][0].get<string>();
    const string y = chance(50) ? pick(X) : "w";
    e["p"].push_back({x, y});
    if (const auto z = pick(X); chance(30) && z != x && z != y)
      e["p"].push_back({z, "v"});
  } else if (k < 89 && o.a) {
    e["op"] = "transpose";
    std::vector<string> q;
    for (const auto &p : shape_of(o))
      q.push_back(p[0]);
    std::shuffle(q.begin(), q.end(), rng);
    e["labs"] = chance(20) ? json::array() : json(q);
  } else if (k < 92 && o.a) e["op"] = "const";
  else {
    e["op"] = "drop";
    const bool m = o.a && chance(40);
    e["kind"] = m ? "mask" : "coord";
    e["ns"] = json::array();
    e["ns"].push_back(m ? mname(o) : cname(o));
  }
  run(e);
}
static void modify() {
  const auto h = pick(names(0));
  auto &o = H.at(h);
  json e{{"h", h}};
  const int k = rnd(100);
  string n;
  if (k < 22) {
    n = pick(CN);
    e["op"] = "setcoord";
    e["var"] = coord_arg(o, n);
    e["n"] = n;
    e["via"] = o.s && chance(50) ? "ds" : "dict";
  } else if (k < 34 && o.a) {
    n = pick(MN);
    e["op"] = "setmask";
    e["var"] = mask_arg(o, n);
    e["n"] = n;
  } else if (k < 42) {
    e["op"] = "delcoord";
    e["n"] = cname(o);
    e["how"] = chance(50) ? "erase" : "extract";
  } else if (k < 48 && o.a) {
    e["op"] = "delmask";
    e["n"] = mname(o);
    e["how"] = chance(50) ? "erase" : "extract";
  } else if (k < 55) {
    e["op"] = "align";
    e["n"] = cname(o);
    e["al"] = chance(40);
  } else if (k < 70) {
    // write an element
    e["op"] = "write";
    const int w = rnd(3);
    e["kind"] = o.s || w == 0 ? "coord" : w == 1 ? "mask" : "data";
    n = e["kind"] == "coord" ? cname(o) : e["kind"] == "mask" ? mname(o) : "";
    if (e["kind"] == "coord" ? !has_coord(o, n) : e["kind"] == "mask" && !o.a->masks().contains(n))
      return;
    e["n"] = n;
    e["i"] = 1 + rnd(4);
    e["val"] = e["kind"] == "mask" ? rnd(2) : ++fresh;
  } else if (k < 80) {
    e["op"] = "setslice";
    e["var"] = {{"k", "none"}};
    auto c = cut_of(o);
    e.update(c);
    if (chance(35)) {
      json s = json::array();
      for (const auto &p : shape_of(o))
        if (chance(80)) {
          if (p[0] != c["x"])
            s.push_back(p);
          else if (c["e"] != -1)
            s.push_back({p[0], c["e"].get<int>() - c["b"].get<int>()});
        }
      e["var"] = fresh_var(s, false);
    } else {
      // usually something derived from a slice of it
      auto g = names(0);
      if (o.a)
        g = names(1);
      const auto f = pick(g);
      e["g"] = f;
      if (chance(70)) {
        json d = c;
        const auto q = pick(N);
        if (q == h)
          return;
        d["op"] = "slice";
        d["from"] = h;
        d["h"] = q;
        if (!run(d))
          return;
        run({{"op", "deep"}, {"from", q}, {"h", q}});
        if (chance(40)) {
          const auto &t = H.at(q);
          if (const auto cn = cname(t); has_coord(t, cn) && chance(30))
            run({{"op", "write"}, {"h", q}, {"kind", "coord"}, {"n", cn}, {"i", 1}, {"val", ++fresh}});
          if (t.a && chance(60))
            if (const auto mn = mname(t); t.a->masks().contains(mn))
              run({{"op", "write"}, {"h", q}, {"kind", "mask"}, {"n", mn}, {"i", 1}, {"val", rnd(2)}});
        }
        if (H.at(q).a)
          run({{"op", "write"}, {"h", q}, {"kind", "data"}, {"n", ""}, {"i", 1 + rnd(2)}, {"val", ++fresh}});
        e["g"] = q;
      }
      if (o.a && H.at(e["g"]).s)
        return;
    }
  } else if (o.a) {
    e["op"] = "setdata";
    e["var"] = data_arg(shape_of(o), o.a->name());
  } else if (k < 86) {
    e["op"] = "dsset";
    n = pick(IN);
    e["n"] = n;
    e["var"] = data_arg(shape_of(o), n);
  } else if (k < 94) {
    const auto g = names(1);
    if (g.empty())
      return;
    e["op"] = "dssetda";
    e["g"] = pick(g);
    e["n"] = H.at(e["g"]).a->name();
    if (e["n"] == "")
      return;
  } else if (k < 97) {
    e["op"] = "erase";
    e["n"] = pick(IN);
  } else if (k < 99) {
    e["op"] = "extract";
    e["n"] = pick(IN);
    e["to"] = pick(N);
  } else
    e["op"] = "clear";
  run(e);
}
static void program(const string &mode) {
  reset();
  fresh = 1;
  for (const auto &x : X)
    ext[x] = chance(20) ? 1 : 2 + rnd(2);
  if (mode != "array")
    new_dataset("p");
  if (mode != "dataset" || chance(50))
    new_array("q");
  if (H.empty())
    new_array("q");
  if (H.empty())
    return;
  const int n = mode == "long" ? 60 : 14;
  for (int i = 0; i < n; ++i)
    if (chance(38))
      derive(pick(N));
    else if (chance(5))
      mode == "array" || chance(50) ? new_array(pick(N)) : new_dataset(pick(N));
    else
      modify();
}
int main(int, char **argv) {
  const string mode = argv[1];
  const int n = atoi(argv[2]);
  rng.seed(seed() * 7919u + static_cast<unsigned>(atoi(argv[3])) * 104729u + static_cast<unsigned>(mode[0]));
  for (int i = 0; i < n; ++i)
    program(mode);
  return 0;
}
