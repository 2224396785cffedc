// Histories of operations on binned variables (P17).  Modes: mixed var array two
#include "vobj_ds.h"
#include "scipp/dataset/bins.h"
#include "scipp/dataset/bins_view.h"
#include "scipp/variable/bins.h"
#include "scipp/variable/variable_factory.h"
#include <memory>
using namespace vt;
static std::mt19937 rng;
static int rnd(int n) { return static_cast<int>(rng() % static_cast<unsigned>(n)); }
static bool chance(int p) { return rnd(100) < p; }
template <class C> static auto pick(const C &c) { return *std::next(std::begin(c), rnd(static_cast<int>(std::size(c)))); }
using Ptr = std::shared_ptr<Variable>;
static std::map<string, Ptr> H;
static std::map<string, json> seen;
static int fresh_value = 1;
static const std::vector<string> handles{"a", "b", "c", "d", "e"};
static const std::vector<string> labels{"x", "y", "z"};
static const std::map<string, std::vector<string>> columns{{"V", {"d"}}, {"A", {"d", "p", "m"}}, {"S", {"i", "j", "p"}}};

// ---- columns of a table: cells are numbers, with 100 * second value (two-dimensional columns) and 10000 * variance ----
// type: f8 f4 i8 str bool, followed by v (variances), 2 (inner extra dim) or t (outer extra dim)
static string base(const string &t) { return t == "f8v" ? "f8" : t.back() == '2' || t.back() == 't' ? t.substr(0, 2) : t; }
static Variable make_column(const json &c, const string &ed, bool relaid) {
  const string t = c["t"];
  const int n = static_cast<int>(c["c"].size());
  const bool var = t == "f8v", two = t.back() == '2', outer = t.back() == 't' && t.size() == 3;
  const int before = relaid ? rnd(3) : 0, after = relaid ? rnd(3) : 0, m = n + before + after;
  json s = json::array({json::array({ed, m})});
  if (two)
    s.push_back(json::array({"w", 2}));
  if (outer)
    s.insert(s.begin(), json::array({"w", 2}));
  json j{{"s", s}, {"u", c["u"]}, {"t", base(t)}, {"hv", var}, {"v", json::array()}, {"w", json::array()}};
  const auto cell = [&](int r) { return r < before || r >= before + n ? 1 : c["c"][r - before].get<int>(); };
  if (outer)
    for (int k = 0; k < 2; ++k)
      for (int r = 0; r < m; ++r)
        j["v"].push_back(k == 0 ? cell(r) % 100 : cell(r) / 100 % 100);
  else
    for (int r = 0; r < m; ++r) {
      j["v"].push_back(cell(r) % 100);
      if (two)
        j["v"].push_back(cell(r) / 100 % 100);
      if (var)
        j["w"].push_back(cell(r) / 10000);
    }
  return make(j).slice({dim(ed), before, before + n});
}
static string column_type(const Variable &v, const Dim ed) {
  string t = type_name(v);
  if (v.has_variances())
    return t + "v";
  if (v.dims().ndim() == 2)
    return t + (v.dims().inner() == ed ? "t" : "2");
  return t;
}
static json cells(const Variable &v, const Dim ed) {
  json out = json::array();
  const string t = column_type(v, ed);
  for (scipp::index r = 0; r < v.dims()[ed]; ++r) {
    const auto o = observe(v.slice({ed, r}));
    out.push_back(o["v"][0].get<int>() + (o["v"].size() > 1 ? 100 * o["v"][1].get<int>() : 0) + (t == "f8v" ? 10000 * o["w"][0].get<int>() : 0));
  }
  return out;
}
static string kind(const Variable &v) {
  return v.dtype() == dtype<bucket<Variable>> ? "V" : v.dtype() == dtype<bucket<DataArray>> ? "A" : "S";
}
// the columns of a table, and its values independent of the event dimension
static void split(const Variable &v, const Dim, std::map<string, Variable> &cols, json &) { cols["d"] = v; }
static void split(const DataArray &a, const Dim ed, std::map<string, Variable> &cols, json &fix) {
  cols["d"] = a.data();
  for (const auto &[n, c] : a.coords())
    if (c.dims().contains(ed))
      cols[name(n)] = c;
    else
      fix[name(n)] = observe(c)["v"][0];
  for (const auto &[n, c] : a.masks())
    cols[n] = c;
}
static void split(const Dataset &s, const Dim ed, std::map<string, Variable> &cols, json &fix) {
  for (const auto &[n, c] : s.coords())
    if (c.dims().contains(ed))
      cols[name(n)] = c;
    else
      fix[name(n)] = observe(c)["v"][0];
  for (const auto &i : s)
    cols[i.name()] = i.data();
}
template <class T> static json obs_as(const Variable &v) {
  const auto &[indices, ed, buffer] = v.constituents<T>();
  std::map<string, Variable> cols;
  json fix = json::object(), meta = json::object(), ev = json::array();
  split(buffer, ed, cols, fix);
  for (const auto &[n, c] : cols)
    meta[n] = {{"u", unit_json(c.unit())}, {"t", column_type(c, ed)}};
  for (const auto &bin : v.values<bucket<T>>()) {
    std::map<string, Variable> part;
    json ignore, e = json::object();
    split(bin, ed, part, ignore);
    for (const auto &[n, c] : part)
      e[n] = cells(c, ed);
    ev.push_back(e);
  }
  return {{"k", kind(v)}, {"ed", name(ed)}, {"d", shape(v.dims())}, {"fix", fix}, {"meta", meta}, {"ev", ev}};
}
static json obs(const Variable &v) {
  const auto k = kind(v);
  return k == "V" ? obs_as<Variable>(v) : k == "A" ? obs_as<DataArray>(v) : obs_as<Dataset>(v);
}

// ---- operations ----
static Variable indices(const json &e) {
  const auto d = dims(e["d"]);
  element_array<scipp::index_pair> v(d.volume(), core::init_for_overwrite);
  for (scipp::index i = 0; i < d.volume(); ++i)
    v.data()[i] = {e["idx"][i][0].get<int>(), e["idx"][i][1].get<int>()};
  auto out = makeVariable<scipp::index_pair>(d, units::none, Values(std::move(v)));
  if (!e["unitless"].get<bool>())
    out.setUnit(units::one);
  return out;
}
// the same indices in another memory order
static Variable shuffled(const Variable &v, bool yes) {
  if (!yes || v.dims().ndim() < 2)
    return v;
  const std::vector<Dim> l(v.dims().begin(), v.dims().end()), back(l.rbegin(), l.rend());
  return copy(v.transpose(back)).transpose(l);
}
static scipp::Slice cut(const json &e) {
  return e["e"] == -1 ? scipp::Slice(dim(e["x"]), e["b"].get<scipp::index>())
                      : scipp::Slice(dim(e["x"]), e["b"].get<scipp::index>(), e["e"].get<scipp::index>());
}
static void write_cell(Variable to, int x) {
  const string t = column_type(to, Dim("w"));
  with_type(type_name(to), [&](auto proto) {
    using T = decltype(proto);
    if constexpr (std::is_same_v<T, Eigen::Vector3d>)
      return 0;
    else {
      if (to.dims().ndim() == 1) {
        to.slice({Dim("w"), 0}).template value<T>() = from_int<T>(x % 100);
        to.slice({Dim("w"), 1}).template value<T>() = from_int<T>(x / 100 % 100);
      } else
        to.template value<T>() = from_int<T>(x % 100);
      if constexpr (std::is_floating_point_v<T>)
        if (to.has_variances())
          to.template variance<T>() = T(x / 10000);
      return 0;
    }
  });
}
template <class T> static void fill(Variable &v) {
  for (auto bin : v.values<bucket<T>>()) {
    std::map<string, Variable> cols;
    json ignore;
    const Dim ed = std::get<1>(v.constituents<T>());
    split(bin, ed, cols, ignore);
    for (auto &[n, c] : cols)
      for (scipp::index r = 0; r < c.dims()[ed]; ++r)
        write_cell(c.slice({ed, r}), column_type(c, ed) == "f8v" ? 10001 : 101);
  }
}
template <class T> static Variable column_of(Variable &v, const string &c, const json &e) {
  auto bin = v.values<bucket<T>>()[e["i"].get<int>() - 1];
  std::map<string, Variable> cols;
  json ignore;
  const Dim ed = std::get<1>(v.constituents<T>());
  split(bin, ed, cols, ignore);
  return cols.at(c).slice({ed, e["j"].get<int>() - 1});
}
static void put(const json &e, Variable v) { H[e["h"]] = std::make_shared<Variable>(std::move(v)); }
static void perform(const json &e) {
  const string op = e["op"];
  if (op == "make") {
    const auto &b = e["buf"];
    const string k = b["k"], ed = b["ed"];
    const bool relaid = e["relaid"];
    const auto col = [&](const string &n) { return make_column(b["cols"][n], ed, relaid); };
    const auto idx = shuffled(indices(e), relaid);
    const auto edim = dim(e["dim"]);
    const auto fix = [&](const json &v) { return makeVariable<double>(Values{v.get<double>()}, units::m); };
    if (k == "V")
      put(e, make_bins(idx, edim, col("d")));
    else if (k == "A") {
      DataArray a(col("d"));
      for (const auto &[n, c] : b["cols"].items())
        if (n == "m")
          a.masks().set(n, col(n));
        else if (n != "d")
          a.coords().set(dim(n), col(n));
      for (const auto &[n, v] : b["fix"].items())
        a.coords().set(dim(n), fix(v));
      put(e, make_bins(idx, edim, a));
    } else {
      Dataset s({}, Coords(col("i").dims(), {}));
      for (const auto &[n, c] : b["cols"].items())
        if (n != "p")
          s.setData(n, col(n));
      if (b["cols"].contains("p"))
        s.setCoord(dim("p"), col("p"));
      for (const auto &[n, v] : b["fix"].items())
        s.setCoord(dim(n), fix(v));
      put(e, make_bins(idx, edim, s));
    }
    return;
  }
  if (op == "eq")
    return;
  if (op == "concat") {
    std::vector<Variable> of;
    for (const auto &h : e["of"])
      of.push_back(*H.at(h));
    return put(e, concat(of, dim(e["x"])));
  }
  auto &o = *H.at(e.contains("from") ? e["from"] : e["h"]);
  const auto k = kind(o);
  if (op == "remake") {
    const auto edim = dim(e["dim"]);
    if (k == "V")
      put(e, make_bins(indices(e), edim, std::get<2>(std::as_const(o).constituents<Variable>())));
    else if (k == "A")
      put(e, make_bins(indices(e), edim, std::get<2>(std::as_const(o).constituents<DataArray>())));
    else
      put(e, make_bins(indices(e), edim, std::get<2>(std::as_const(o).constituents<Dataset>())));
  } else if (op == "slice")
    put(e, o.slice(cut(e)));
  else if (op == "share")
    put(e, o);
  else if (op == "transpose") {
    std::vector<Dim> l;
    for (const auto &x : e["order"])
      l.push_back(dim(x));
    put(e, o.transpose(l));
  } else if (op == "rename")
    put(e, o.rename_dims({{dim(e["x"]), dim(e["y"])}}));
  else if (op == "broadcast")
    put(e, broadcast(o, dims(e["d"])));
  else if (op == "column") {
    const string c = e["c"];
    auto view = dataset::bins_view<DataArray>(o);
    put(e, c == "d" ? view.data() : c == "m" ? view.masks()["m"] : view.coords()[dim(c)]);
  } else if (op == "copy")
    put(e, copy(o));
  else if (op == "write") {
    const string c = e["c"];
    write_cell(k == "V" ? column_of<Variable>(o, c, e) : k == "A" ? column_of<DataArray>(o, c, e) : column_of<Dataset>(o, c, e), e["val"]);
  } else if (op == "add") {
    const auto with = make({{"s", e["d"]}, {"v", e["v"]}, {"w", json::array()}, {"hv", false}, {"u", e["u"]}, {"t", e["t"]}});
    if (k == "V")
      o += with;
    else {
      auto d = dataset::bins_view<DataArray>(o).data();
      d += with;
    }
  } else if (op == "assign") {
    auto &to = *H.at(e["h"]);
    if (e["x"] == "")
      copy(o, to);
    else
      to.setSlice(cut(e), o);
  } else if (op == "unit") {
    const auto u = unit_of(e["u"]);
    variableFactory().expect_can_set_elem_unit(o, u);
    variableFactory().set_elem_unit(o, u);
  } else if (op == "concatenate")
    put(e, dataset::buckets::concatenate(o, *H.at(e["with"])));
  else if (op == "append")
    dataset::buckets::append(o, *H.at(e["with"]));
  else if (op == "joindim")
    put(e, dataset::buckets::concatenate(o, dim(e["x"])));
  else if (op == "resize") {
    const auto sizes = make({{"s", e["d"]}, {"v", e["sizes"]}, {"w", json::array()}, {"hv", false}, {"u", {0, 0, 0}}, {"t", "i8"}});
    auto v = empty_like(o, {}, sizes);
    k == "V" ? fill<Variable>(v) : k == "A" ? fill<DataArray>(v) : fill<Dataset>(v);
    put(e, v);
  }
}
static bool run(json e) {
  if (getenv("VERBOSE"))
    std::cerr << e << std::endl;
  try {
    perform(e);
    e["ok"] = true;
  } catch (const std::exception &ex) {
    e["ok"] = false;
    if (getenv("VERBOSE"))
      e["why"] = ex.what();
  }
  if (e["op"] == "sizes") {
    const auto s = bin_sizes(*H.at(e["h"]));
    e["r"] = observe(s)["v"];
    e["rd"] = shape(s.dims());
  }
  if (e["op"] == "eq")
    e["r"] = *H.at(e["a"]) == *H.at(e["b"]);
  e["obs"] = json::object();
  for (const auto &[h, o] : H) {
    auto q = obs(*o);
    if (!seen.count(h) || seen[h] != q)
      e["obs"][h] = seen[h] = q;
  }
  emit(e);
  return e["ok"];
}

// ---- generation ----
static std::map<string, int> ext;
static int fresh_cell(const string &t) {
  const int v = t == "bool" ? rnd(2) : 1 + fresh_value++ % 90;
  return t == "f8v" ? v + 10000 * (1 + rnd(9)) : t == "f82" || t == "f8t" ? v + 100 * (1 + rnd(90)) : v;
}
static json some_dims(int most) {
  auto l = labels;
  std::shuffle(l.begin(), l.end(), rng);
  json d = json::array();
  for (int i = rnd(most + 1); i > 0; --i)
    d.push_back({l[i], ext[l[i]]});
  return d;
}
static int volume(const json &d) {
  int v = 1;
  for (const auto &l : d)
    v *= l[1].get<int>();
  return v;
}
// ranges for n bins over a table with `rows` rows: in any order, with gaps
static json ranges(int n, int rows, bool tight) {
  std::vector<std::pair<int, int>> r;
  int at = 0;
  for (int i = 0; i < n; ++i) {
    if (!tight && chance(25))
      at += rnd(2);
    const int len = std::min(rows - std::min(at, rows), rnd(4));
    r.emplace_back(std::min(at, rows), std::min(at, rows) + len);
    at += len;
  }
  if (chance(60))
    std::shuffle(r.begin(), r.end(), rng);
  if (n && chance(8)) { // wrong, or nearly so
    auto &[b, e] = r[rnd(n)];
    const int k = rnd(5);
    if (k == 0)
      b -= 1;
    else if (k == 1)
      e += 1;
    else if (k == 2)
      std::swap(b, e);
    else if (k == 3)
      e = rows + rnd(3);
    else
      b = e = rnd(rows + 1);
  }
  json out = json::array();
  for (const auto &[b, e] : r)
    out.push_back({b, e});
  return out;
}
static json col_unit() { return chance(85) ? json{1, 1, 0} : json{1, 0, 1}; }
static json some_table(const string &k, int rows, const string &ed, const string &t) {
  json b{{"k", k}, {"ed", ed}, {"cols", json::object()}, {"fix", json::object()}};
  for (const auto &c : columns.at(k)) {
    if ((c == "m" && chance(40)) || (c == "p" && chance(10)))
      continue;
    const string ct = c == "m" ? "bool" : c == "p" ? pick(std::vector<string>{"f8", "f8", "f8", "f8", "f8", "i8"}) : t;
    json cs = json::array();
    for (int i = 0; i < rows; ++i)
      cs.push_back(fresh_cell(ct));
    b["cols"][c] = {{"t", ct}, {"u", c == "m" ? json{0, 0, 0} : col_unit()}, {"c", cs}};
  }
  if (k != "V" && chance(25))
    b["fix"]["f"] = rnd(2);
  return b;
}
static string mode;
static string some_kind() {
  return mode == "var" ? "V" : mode == "array" ? "A" : pick(std::vector<string>{"V", "V", "A", "A", "A", "S"});
}
static string some_type() {
  return mode == "two" ? pick(std::vector<string>{"f82", "f82", "f8t"}) : pick(std::vector<string>{"f8", "f8", "f8", "f8", "f8v", "i8", "f4", "str"});
}
static string def_kind, def_type; // most objects are alike
static void make_new(const string &h) {
  const auto d = some_dims(2);
  const int n = volume(d);
  const int rows = rnd(9);
  const auto k = chance(85) ? def_kind : some_kind();
  const string ed = chance(97) ? "event" : "row";
  json e{{"op", "make"}, {"h", h}, {"d", d}, {"idx", ranges(n, rows, chance(60))}, {"dim", chance(98) ? ed : "other"}, {"unitless", !chance(2)},
         {"buf", some_table(k, rows, ed, chance(85) ? def_type : some_type())}, {"relaid", chance(40)}};
  run(e);
}
static std::vector<string> all_handles() {
  std::vector<string> l;
  for (const auto &[h, o] : H)
    l.push_back(h);
  return l;
}
static json shape_of(const string &h) { return seen.at(h)["d"]; }
static bool has(const json &d, const string &x) {
  return std::any_of(d.begin(), d.end(), [&](const json &l) { return l[0] == x; });
}
static void choose_cut(json &e, const json &d) {
  const auto l = d[rnd(static_cast<int>(d.size()))];
  const int n = l[1];
  e["x"] = l[0];
  if (n > 0 && chance(45)) {
    e["b"] = rnd(n);
    e["e"] = -1;
  } else {
    const int b = rnd(n + 1);
    e["b"] = b;
    e["e"] = b + rnd(n - b + 1);
  }
}
static bool writable(const string &h) { return !H.at(h)->is_readonly(); }
static int rows_of(const Variable &v) {
  const auto k = kind(v);
  const auto n = [](auto &&c) { return static_cast<int>(std::get<2>(c).dims()[std::get<1>(c)]); };
  return k == "V" ? n(v.constituents<Variable>()) : k == "A" ? n(v.constituents<DataArray>())
       : static_cast<int>(std::get<2>(v.constituents<Dataset>()).sizes()[std::get<1>(v.constituents<Dataset>())]);
}
static void step() {
  const auto hs = all_handles();
  const auto h = pick(handles), g = pick(hs), f = pick(hs);
  const auto d = shape_of(g);
  const int k = rnd(100);
  if (k < 6)
    make_new(h);
  else if (k < 9) {
    const auto nd = some_dims(2);
    run({{"op", "remake"}, {"h", h}, {"from", g}, {"d", nd}, {"idx", ranges(volume(nd), rows_of(*H.at(g)), chance(50))}, {"dim", seen.at(g)["ed"]}, {"unitless", true}});
  } else if (k < 22) {
    if (d.empty())
      return;
    json e{{"op", "slice"}, {"h", h}, {"from", g}};
    choose_cut(e, d);
    run(e);
  } else if (k < 25)
    run({{"op", "share"}, {"h", h}, {"from", g}});
  else if (k < 32) {
    std::vector<string> o;
    for (const auto &l : d)
      o.push_back(l[0]);
    std::shuffle(o.begin(), o.end(), rng);
    if (o.size() > 1)
      run({{"op", "transpose"}, {"h", h}, {"from", g}, {"order", o}});
  } else if (k < 34) {
    if (d.empty())
      return;
    const string x = d[rnd(static_cast<int>(d.size()))][0], y = pick(labels);
    if (!has(d, y))
      run({{"op", "rename"}, {"h", h}, {"from", g}, {"x", x}, {"y", y}});
  } else if (k < 37) {
    auto nd = d;
    for (const auto &x : labels)
      if (!has(nd, x) && nd.size() < 2 && chance(60))
        nd.insert(nd.begin() + rnd(static_cast<int>(nd.size()) + 1), json::array({x, ext[x]}));
    if (nd != d)
      run({{"op", "broadcast"}, {"h", h}, {"from", g}, {"d", nd}});
  } else if (k < 40) {
    if (kind(*H.at(g)) != "A")
      return;
    std::vector<string> cs;
    for (const auto &[n, c] : seen.at(g)["meta"].items())
      cs.push_back(n);
    run({{"op", "column"}, {"h", h}, {"from", g}, {"c", pick(cs)}});
  } else if (k < 48)
    run({{"op", "copy"}, {"h", h}, {"from", g}});
  else if (k < 57) {
    if (!writable(g))
      return;
    const auto q = seen.at(g);
    std::vector<int> full;
    std::vector<string> cs;
    for (const auto &[n, c] : q["meta"].items())
      cs.push_back(n);
    const auto c = pick(cs);
    for (int i = 0; i < static_cast<int>(q["ev"].size()); ++i)
      if (!q["ev"][i][c].empty())
        full.push_back(i);
    if (full.empty())
      return;
    const int i = pick(full);
    run({{"op", "write"}, {"h", g}, {"c", c}, {"i", i + 1}, {"j", 1 + rnd(static_cast<int>(q["ev"][i][c].size()))}, {"val", fresh_cell(q["meta"][c]["t"])}});
  } else if (k < 60) {
    const auto q = seen.at(g);
    if (q["k"] == "S")
      return;
    const string t = q["meta"]["d"]["t"];
    if (t != "f8" && t != "i8" && t != "f4")
      return;
    auto od = json::array();
    for (const auto &l : d)
      if (chance(70))
        od.push_back(l);
    if (od.size() == 2 && chance(30))
      std::swap(od[0], od[1]);
    if (chance(5))
      od = some_dims(1);
    json v = json::array();
    for (int i = 0; i < volume(od); ++i)
      v.push_back(rnd(4));
    run({{"op", "add"}, {"h", g}, {"d", od}, {"v", v}, {"u", q["meta"]["d"]["u"]}, {"t", t}});
  } else if (k < 74) {
    json e{{"op", "assign"}, {"h", g}, {"from", f}, {"x", ""}, {"b", 0}, {"e", 0}};
    if (!d.empty() && chance(75)) {
      choose_cut(e, d);
      if (chance(80)) { // a source that fits, with other values
        json s{{"op", "slice"}, {"h", h}, {"from", f == g || chance(60) ? g : f}, {"x", e["x"]}, {"b", e["b"]}, {"e", e["e"]}};
        if (h == g || shape_of(s["from"]) != d)
          return;
        run(s);
        if (chance(75))
          run({{"op", "copy"}, {"h", h}, {"from", h}});
        const auto q = seen.at(h);
        if (writable(h))
          for (const auto &[c, m] : q["meta"].items())
            for (int i = 0; i < static_cast<int>(q["ev"].size()); ++i)
              if (!q["ev"][i][c].empty() && chance(50)) {
                run({{"op", "write"}, {"h", h}, {"c", c}, {"i", i + 1}, {"j", 1 + rnd(static_cast<int>(q["ev"][i][c].size()))}, {"val", fresh_cell(m["t"])}});
                break;
              }
        if (chance(25) && q["k"] != "S")
          run({{"op", "unit"}, {"h", h}, {"u", col_unit()}});
        e["from"] = h;
      }
    }
    run(e);
  } else if (k < 77) {
    if (seen.at(g)["k"] != "S")
      run({{"op", "unit"}, {"h", g}, {"u", col_unit()}});
  } else if (k < 83) {
    run({{"op", "concatenate"}, {"h", h}, {"from", g}, {"with", f}});
  } else if (k < 88)
    run({{"op", "append"}, {"h", g}, {"with", f}});
  else if (k < 92) {
    std::vector<string> xs;
    for (const auto &l : d)
      xs.push_back(l[0]);
    if (xs.empty() || chance(5))
      xs.push_back(pick(labels));
    run({{"op", "joindim"}, {"h", h}, {"from", g}, {"x", pick(xs)}});
  } else if (k < 96) {
    json of = json::array({g});
    for (int i = rnd(3); i >= 0; --i)
      of.push_back(pick(hs));
    const auto x = pick(labels);
    run({{"op", "concat"}, {"h", h}, {"of", of}, {"x", x}});
  } else if (k < 97) {
    const auto nd = some_dims(2);
    json s = json::array();
    for (int i = 0; i < volume(nd); ++i)
      s.push_back(rnd(4));
    run({{"op", "resize"}, {"h", h}, {"from", g}, {"d", nd}, {"sizes", s}});
  } else if (k < 98)
    run({{"op", "sizes"}, {"h", g}});
  else if (shape_of(f) == d)
    run({{"op", "eq"}, {"a", g}, {"b", f}});
}
static void program() {
  emit({{"op", "reset"}});
  H.clear();
  seen.clear();
  for (const auto &x : labels)
    ext[x] = chance(10) ? 0 : 1 + rnd(3);
  def_kind = some_kind();
  def_type = some_type();
  for (int i = 0; i < 3; ++i)
    make_new(handles[i]);
  if (H.empty())
    return;
  for (int i = 0; i < 18; ++i)
    step();
}
int main(int, char **argv) {
  mode = argv[1];
  const int n = atoi(argv[2]);
  rng.seed(seed() * 7919u + static_cast<unsigned>(atoi(argv[3])) * 104729u + static_cast<unsigned>(mode[0]));
  for (int i = 0; i < n; ++i)
    program();
  return 0;
}
