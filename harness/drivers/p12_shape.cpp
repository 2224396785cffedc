// P12, P14: shape operations and slicing of data arrays and datasets.
//   slice label concat fold flatten misc
#include "scipp/dataset/shape.h"
#include "scipp/dataset/slice.h"
#include "vobj_ds.h"
using namespace vt;
static DataArray some_array(int mindim = 0, int lo = 1, int hi = 3, int binned = 15) {
  ArraySpec p;
  p.s = random_dims(mindim + R(4 - mindim), lo, hi);
  p.binned = binned;
  auto a = make_array(random_array(p));
  return R.chance(30) ? relayout(a) : a;
}
template <class T, class F> static void event(json e, const T &in, F &&f) {
  e["a"] = observe(in);
  try {
    const auto r = f();
    e["r"] = observe(r);
    e["ok"] = true;
  } catch (const std::exception &ex) {
    if (getenv("VERBOSE"))
      e["why"] = ex.what();
    e["ok"] = false;
  }
  emit(e);
  // the inputs are not modified
  e["op"] = "same";
  e["r"] = observe(in);
  if (R.chance(30))
    emit(e);
}
static string some_label(const Dimensions &d, int unknown = 6) {
  if (d.ndim() == 0 || R.chance(unknown))
    return "q";
  return name(d.labels()[R(static_cast<int>(d.ndim()))]);
}
static Dataset some_dataset(const DataArray &a) {
  Dataset d;
  d.setDataInit("i", a);
  ArraySpec p;
  p.s = shape(a.dims());
  p.names = {};
  p.binned = 10;
  for (const string n : {"j", "k"})
    if (R.chance(50))
      d.setData(n, make_array(random_array(p)));
  return d;
}
template <class T> static void one_slice(const T &a, const Dimensions &dims, const string &op) {
  const auto x = some_label(dims);
  const int n = dims.contains(dim(x)) ? static_cast<int>(dims[dim(x)]) : 2;
  int b = R(n + 1), e = R.chance(35) ? -1 : R(n + 1), st = R.chance(75) ? 1 : 1 + R(3);
  if (e >= 0 && b > e && R.chance(90))
    std::swap(b, e);
  if (R.chance(3))
    b = -1;
  if (R.chance(3))
    e = n + 1;
  if (e == -1)
    st = 1;
  event({{"op", op}, {"x", x}, {"b", b}, {"e", e}, {"st", st}}, a,
        [&] { return e == -1 ? a.slice(Slice{dim(x), b}) : a.slice(Slice{dim(x), b, e, st}); });
}
static void slices() {
  const auto a = some_array(R.chance(90) ? 1 : 0);
  if (R.chance(75))
    one_slice(a, a.dims(), "slice");
  else {
    const auto d = some_dataset(a);
    one_slice(d, a.dims(), "dslice");
  }
}
// by label, with respect to coord "x"
static void labels() {
  ArraySpec p;
  p.s = random_dims(1 + R(2), 1, 4);
  auto j = random_array(p);
  Spec c;
  const auto d = p.s[static_cast<size_t>(R(static_cast<int>(p.s.size())))];
  const bool edges = R.chance(50);
  c.s = json::array({json::array({d[0], d[1].get<int>() + (edges ? 1 : 0)})});
  if (R.chance(5))
    c.s = sub_dims(p.s, 80);
  c.t = std::vector<string>{"f8", "f8", "i8", "f4", "str", "dt"}[R(6)];
  c.u = random_units();
  c.lo = 0;
  c.hi = R.chance(70) ? 5 : 9;
  auto cj = random_json(c);
  const int order = R(8);
  auto less = [](const json &a, const json &b) { return a.get<int>() < b.get<int>(); };
  if (order > 0)
    std::sort(cj["v"].begin(), cj["v"].end(), less);
  if (order > 4)
    std::reverse(cj["v"].begin(), cj["v"].end());
  if (R.chance(50) && order > 0 && order < 5 && cj["v"].size() > 1) // distinct
    for (size_t i = 1; i < cj["v"].size(); ++i)
      if (cj["v"][i] <= cj["v"][i - 1])
        cj["v"][i] = cj["v"][i - 1].get<int>() + 1;
  const string key = R.chance(60) ? d[0].get<string>() : "c";
  cj["al"] = R.chance(80);
  j["coords"][key] = cj;
  const auto a = make_array(j);
  auto val = [&](int v) {
    Spec q;
    q.t = c.t;
    q.u = R.chance(95) ? c.u : json::array({1, 2, 0});
    auto o = random_json(q);
    o["v"][0] = v;
    return o;
  };
  // values twice as large, to hit points between the labels as well
  const bool point = R.chance(45);
  auto v0 = val(-1 + R(8)), v1 = val(-1 + R(8));
  if (!point && R.chance(80)) {
    const bool desc = order > 4;
    if (desc == (v0["v"][0].get<int>() < v1["v"][0].get<int>()))
      std::swap(v0["v"], v1["v"]);
  }
  const bool nob = !point && R.chance(12), noe = !point && R.chance(12);
  json e{{"op", point ? "lpoint" : "lrange"}, {"key", key}, {"b", observe(make(v0))}, {"nb", nob}, {"ne", noe}, {"end", observe(make(v1))}, {"edges", edges}};
  const auto vb = nob ? Variable{} : make(v0), ve = noe ? Variable{} : make(v1);
  auto go = [&](const auto &o) { return point ? slice(o, dim(key), vb) : slice(o, dim(key), vb, ve); };
  if (R.chance(80))
    event(e, a, [&] { return go(a); });
  else {
    Dataset ds = some_dataset(a);
    e["op"] = point ? "dlpoint" : "dlrange";
    event(e, ds, [&] { return go(ds); });
  }
}
// pieces of an array along x
static std::vector<DataArray> pieces(const DataArray &a, const Dim x, bool points) {
  std::vector<DataArray> out;
  const auto n = a.dims()[x];
  if (points)
    for (scipp::index i = 0; i < n; ++i)
      out.emplace_back(a.slice({x, i}));
  else
    for (scipp::index i = 0; i < n;) {
      const auto k = std::min<scipp::index>(n, i + 1 + R(2));
      out.emplace_back(a.slice({x, i, k}));
      i = k;
    }
  return out;
}
template <class F> static void list_event(json e, const std::vector<DataArray> &in, F &&f) {
  auto obs = [&] {
    json o = json::array();
    for (const auto &a : in)
      o.push_back(observe(a));
    return o;
  };
  e["as"] = obs();
  try {
    e["r"] = observe(f());
    e["ok"] = true;
  } catch (const std::exception &ex) {
    if (getenv("VERBOSE"))
      e["why"] = ex.what();
    e["ok"] = false;
  }
  emit(e);
  if (R.chance(20))
    emit({{"op", "same"}, {"a", e["as"]}, {"r", obs()}});
}
static void concats() {
  std::vector<DataArray> as;
  string x;
  bool rt = false;
  DataArray whole = some_array(1, 1, 3, 20);
  const int how = R(10);
  if (how < 7) {
    x = some_label(whole.dims(), 0);
    const bool points = R.chance(40);
    if (whole.dims()[dim(x)] == 0)
      return;
    as = pieces(whole, dim(x), points);
    rt = true;
    if (how > 3) { // disturb one
      rt = false;
      const auto i = static_cast<size_t>(R(static_cast<int>(as.size())));
      auto j = copy(as[i]);
      const auto k = R(6);
      ArraySpec p;
      p.s = shape(j.dims());
      if (k == 0 && j.coords().size() > 0)
        j.coords().erase(*j.coords().keys_begin());
      else if (k == 1 && j.masks().size() > 0)
        j.masks().erase(*j.masks().keys_begin());
      else if (k == 2)
        j.coords().set(Dim("c"), make(random_coord(p.s, p)));
      else if (k == 3)
        j.masks().set("m", make(random_mask(p.s, p)));
      else if (k == 4)
        R.shuffle(as);
      else {
        p.masks = {};
        p.names = {};
        auto o = make_array(random_array(p));
        if (is_bins(o.data()) && is_bins(j.data()) && o.data().dtype() != j.data().dtype())
          j = as[i];
        else
          j.setData(o.data());
      }
      if (k != 4)
        as[i] = j;
      if (R.chance(30))
        R.shuffle(as);
    }
    if (R.chance(10))
      x = R.chance(50) ? "q" : some_label(whole.dims()), rt = false;
    if (R.chance(15))
      rt = false, as.push_back(whole);
  } else {
    const int n = 1 + R(3);
    ArraySpec p;
    p.s = shape(whole.dims());
    p.names = {"x", "y", "c"};
    p.types = {type_name(whole.data())};
    p.binned = is_bins(whole.data()) ? 100 : 0;
    p.range = 2;
    as.push_back(whole);
    for (int i = 1; i < n; ++i) {
      auto a = make_array(random_array(p));
      if (R.chance(70)) {
        auto b = copy(whole);
        if (R.chance(50) && a.data().dtype() == whole.data().dtype())
          b.setData(a.data());
        for (const auto &[k, c] : a.coords())
          if (R.chance(30))
            b.coords().set(k, c);
        a = b;
      }
      if (!is_bins(a.data()) || !is_bins(whole.data()) || a.data().dtype() == whole.data().dtype())
        as.push_back(a);
    }
    x = R.chance(40) ? "q" : some_label(whole.dims());
  }
  if (as.empty())
    return;
  if (rt && x == "q")
    rt = false;
  if (R.chance(80)) {
    list_event({{"op", "concat"}, {"x", x}}, as, [&] { return concat(as, dim(x)); });
    if (rt && whole.dims().contains(dim(x)) && as.size() > 0)
      list_event({{"op", "unslice"}, {"x", x}, {"a", observe(whole)}}, as, [&] { return concat(as, dim(x)); });
    return;
  }
  // datasets
  std::vector<Dataset> ds;
  json e{{"op", "dconcat"}, {"x", x}};
  e["as"] = json::array();
  for (auto &a : as) {
    Dataset d;
    d.setDataInit("i", a);
    if (R.chance(85))
      d.setData("j", DataArray(a.data(), {}, {{"n", makeVariable<bool>(Values{R.chance(50)})}}));
    ds.push_back(d);
    e["as"].push_back(observe(d));
  }
  try {
    e["r"] = observe(concat(ds, dim(x)));
    e["ok"] = true;
  } catch (const std::exception &ex) {
    if (getenv("VERBOSE"))
      e["why"] = ex.what();
    e["ok"] = false;
  }
  emit(e);
}
static std::vector<json> factors(int n) {
  std::vector<json> o;
  static const std::vector<string> l{"a", "b", "c"};
  for (int i = 1; i <= std::max(n, 1); ++i)
    if (n % i == 0) {
      o.push_back(json::array({json::array({"a", i}), json::array({"b", n / i})}));
      o.push_back(json::array({json::array({"b", n / i}), json::array({"x", i})}));
      if (n / i > 1)
        o.push_back(json::array({json::array({"a", i}), json::array({"b", 1}), json::array({"c", n / i})}));
    }
  o.push_back(json::array({json::array({"a", n})}));
  o.push_back(json::array({json::array({"x", n})}));
  o.push_back(json::array({json::array({"a", 2}), json::array({"b", 2})}));
  if (n == 1)
    o.push_back(json::array());
  return o;
}
static void folds() {
  const auto a = some_array(1, 1, R.chance(50) ? 6 : 4, 15);
  const auto x = some_label(a.dims());
  auto f = factors(a.dims().contains(dim(x)) ? static_cast<int>(a.dims()[dim(x)]) : 2);
  const auto to = R.of(f);
  event({{"op", "fold"}, {"x", x}, {"to", to}}, a, [&] { return fold(a, dim(x), dims(to)); });
  if (to.empty())
    return;
  try { // and back
    const auto b = fold(a, dim(x), dims(to));
    std::vector<Dim> l;
    for (auto &e : to)
      l.push_back(dim(e[0]));
    json e{{"op", "unfold"}, {"x", x}, {"to", to}, {"a", observe(a)}};
    e["r"] = attempt([&] { return observe(flatten(b, std::optional<scipp::span<const Dim>>(l), dim(x))); });
    emit(e);
  } catch (const std::exception &) {
  }
}
static void flattens() {
  auto a = some_array(0, 1, 3, 15);
  auto d = a.dims();
  std::vector<Dim> l;
  const bool all = R.chance(12);
  json labs = json::array();
  if (!all && d.ndim() > 0) {
    const int n = R.chance(5) ? 0 : 1 + R(static_cast<int>(d.ndim())), at = R(static_cast<int>(d.ndim()) - n + 1);
    for (int i = 0; i < n; ++i)
      l.push_back(d.labels()[at + i]);
    if (R.chance(8))
      R.shuffle(l);
    if (R.chance(4))
      l.push_back(Dim("q"));
  }
  for (auto &x : l)
    labs.push_back(name(x));
  if (R.chance(60) && l.size() > 1) // edges that can be joined
    for (const string n : {"x", "c"}) {
      // dense edge coords, cumulative along the flattened labels
      const auto inner = R.chance(80) ? l.back() : l[static_cast<size_t>(R(static_cast<int>(l.size())))];
      Dimensions cd;
      for (const auto x : d.labels())
        if (std::find(l.begin(), l.end(), x) != l.end() ? (x == inner || R.chance(85)) : R.chance(15))
          cd.addInner(x, d[x] + (x == inner ? 1 : 0));
      element_array<double> v(cd.volume(), core::init_for_overwrite);
      // element at position p: number of the cell along the inner edge dimension, counted over all outer positions
      for (scipp::index i = 0; i < cd.volume(); ++i) {
        scipp::index r = i, val = 0, mul = 1;
        for (auto k = cd.ndim() - 1; k >= 0; --k) {
          const auto x = cd.label(k);
          const auto p = r % cd.size(k);
          r /= cd.size(k);
          if (std::find(l.begin(), l.end(), x) != l.end()) {
            val += p * mul;
            mul *= d[x];
          }
        }
        v.data()[i] = static_cast<double>(val + (R.chance(2) ? 1 : 0));
      }
      a.coords().set(Dim(n), makeVariable<double>(cd, Values(std::move(v))));
    }
  const string to = R.chance(70) ? "f" : R.chance(50) && !l.empty() ? name(l[0]) : "x";
  event({{"op", "flatten"}, {"labs", labs}, {"all", all}, {"to", to}}, a, [&] {
    return all ? flatten(a, std::nullopt, dim(to)) : flatten(a, std::optional<scipp::span<const Dim>>(l), dim(to));
  });
}
static void misc() {
  const int k = R(3);
  if (k == 0) {
    const auto a = some_array();
    std::vector<Dim> l(a.dims().labels().begin(), a.dims().labels().end());
    R.shuffle(l);
    if (R.chance(10))
      l.push_back(Dim("q"));
    if (R.chance(10) && !l.empty())
      l.pop_back();
    if (R.chance(15))
      l.clear();
    json labs = json::array();
    for (auto &x : l)
      labs.push_back(name(x));
    event({{"op", "transpose"}, {"labs", labs}}, a, [&] { return transpose(a, l); });
  } else if (k == 1) {
    const auto a = some_array(0, 1, 2);
    std::vector<Dim> l;
    for (auto &x : a.dims().labels())
      if (R.chance(50) && (a.dims()[x] == 1 || R.chance(10)))
        l.push_back(x);
    const bool all = R.chance(40);
    json labs = json::array();
    for (auto &x : l)
      labs.push_back(name(x));
    auto go = [&](const auto &o) { return all ? squeeze(o, std::nullopt) : squeeze(o, std::optional<scipp::span<const Dim>>(l)); };
    if (R.chance(75))
      event({{"op", "squeeze"}, {"labs", labs}, {"all", all}}, a, [&] { return go(a); });
    else {
      const auto d = some_dataset(a);
      event({{"op", "dsqueeze"}, {"labs", labs}, {"all", all}}, d, [&] { return go(d); });
    }
  } else {
    const auto a = some_array();
    json p = json::array();
    std::vector<std::pair<Dim, Dim>> names;
    static const std::vector<string> T{"a", "b", "x", "y", "z", "w"};
    for (auto &x : a.dims().labels())
      if (R.chance(50)) {
        auto t = T[static_cast<size_t>(R(6))];
        bool chained = false;
        for (const auto &[f, g] : names)
          chained = chained || f == dim(t) || g == x || g == dim(t);
        if (chained)
          continue;
        p.push_back(json::array({name(x), t}));
        names.emplace_back(x, dim(t));
      }
    if (R.chance(8)) {
      p.push_back(json::array({"q", "a"}));
      names.emplace_back(Dim("q"), Dim("a"));
    }
    event({{"op", "rename"}, {"p", p}}, a, [&] { return a.rename_dims(names); });
  }
}
int main(int, char **argv) {
  const string mode = argv[1];
  R.start(mode, atoi(argv[3]));
  const int n = atoi(argv[2]);
  for (int i = 0; i < n; ++i)
    mode == "slice" ? slices() : mode == "label" ? labels() : mode == "concat" ? concats() : mode == "fold" ? folds()
    : mode == "flatten" ? flattens() : misc();
}
