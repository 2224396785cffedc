// P20: sorting and filtering.  Modes: sort extract test long
#include "vobj_ds.h"
#include "scipp/dataset/extract.h"
#include "scipp/dataset/sort.h"
#include "scipp/variable/astype.h"
#include "scipp/variable/sort.h"
#include "scipp/variable/util.h"
using namespace vt;
static json obs(const DataArray &a) { return observe(a); }
static json obs(const Dataset &d) { return observe(d); }
static json obs(const Variable &v) {
  return {{"data", observe_any(v)}, {"coords", json::object()}, {"masks", json::object()}, {"name", ""}};
}
template <class F> static void finish(json &e, F f) {
  try {
    e["r"] = f();
    e["ok"] = true;
  } catch (const std::exception &x) {
    e["ok"] = false;
    if (std::getenv("VERBOSE"))
      e["why"] = x.what();
  }
  emit(e);
}
static ArraySpec spec(const json &s) {
  ArraySpec p;
  p.s = s;
  p.wide = 70;
  p.types = {"f8", "f8", "f4", "i8", "i4", "bool", "str", "vec", "dt"};
  return p;
}
static Dataset some_set(const json &s) {
  auto p = spec(s);
  const auto first = make_array(random_array(p));
  Dataset d;
  d.setDataInit("i", first);
  for (const string n : {"j", "k"})
    if (R.chance(50)) {
      auto j = random_array(p);
      j["coords"] = json::object();
      d.setData(n, make_array(j));
    }
  return d;
}
static Variable key_for(const json &s, const json &e, bool cond) {
  Spec k;
  json n = e;
  if (R.chance(4))
    n[1] = n[1].get<int>() + (R.chance(50) ? 1 : -1);
  if (n[1].get<int>() < 0)
    n[1] = 0;
  k.s = json::array({n});
  if (R.chance(2))
    k.s = R.chance(50) ? json::array() : s;
  if (R.chance(2))
    k.s = json::array({json::array({"q", n[1]})});
  k.t = cond ? (R.chance(96) ? "bool" : "i8") : std::vector<string>{"f8", "f8", "f8", "f4", "i8", "i4", "bool", "str", "dt", "vec"}[R(R.chance(90) ? 9 : 10)];
  k.u = k.t == "bool" || k.t == "str" ? json::array({0, 0, 0}) : random_units();
  k.hv = k.t[0] == 'f' && R.chance(20);
  k.lo = k.t == "str" ? 0 : -R(3); k.hi = 1 + R(8);
  k.nan = R.chance(35) ? 30 : 0;
  k.inf = R.chance(20) ? 20 : 0;
  auto v = make(random_json(k));
  return R.chance(40) ? relayout(v) : v;
}
template <class T> static void sorted(const T &a, const json &s) {
  const bool desc = R.chance(40);
  const auto order = desc ? SortOrder::Descending : SortOrder::Ascending;
  json e{{"op", "sort"}, {"a", obs(a)}, {"desc", desc}};
  if constexpr (!std::is_same_v<T, Variable>)
    if (R.chance(40)) {
      const auto k = std::vector<string>{"x", "y", "z", "c", "d", "e"}[R(6)];
      const auto &coords = a.coords();
      if (!coords.contains(dim(k)))
        e["op"] = "nokey";
      else
        e["key"] = observe(coords[dim(k)]);
      finish(e, [&] { return obs(dataset::sort(a, dim(k), order)); });
      emit({{"op", "same"}, {"a", e["a"]}, {"r", obs(a)}});
      return;
    }
  const auto key = key_for(s, s[static_cast<size_t>(R(static_cast<int>(s.size())))], false);
  e["key"] = observe(key);
  finish(e, [&] { return obs(dataset::sort(a, key, order)); });
  emit({{"op", "same"}, {"a", e["a"]}, {"r", obs(a)}});
}
template <class T> static void extracted(const T &a, const json &s) {
  const auto &d = s[static_cast<size_t>(R(static_cast<int>(s.size())))];
  if (R.chance(25)) {
    json e{{"op", "ranges"}, {"a", obs(a)}, {"x", d[0]}, {"q", json::array()}};
    const int n = d[1].get<int>();
    std::vector<scipp::index_pair> q;
    int at = 0;
    for (int i = R(4); i > 0; --i) {
      const int b = at + R(n - at + 1), l = R(n - b + 1);
      q.emplace_back(b, b + l);
      at = R.chance(80) ? b + l : 0;
    }
    R.shuffle(q);
    for (auto &[b, t] : q)
      e["q"].push_back(json::array({b, t}));
    const auto ind = makeVariable<scipp::index_pair>(Dimensions(dim(d[0]), static_cast<scipp::index>(q.size())), Values(q));
    finish(e, [&] { return obs(scipp::extract_ranges(ind, a, dim(d[0]))); });
    return;
  }
  const auto c = key_for(s, d, true);
  json e{{"op", "extract"}, {"a", obs(a)}, {"key", observe(c)}};
  finish(e, [&] { return obs(scipp::extract(a, c)); });
  emit({{"op", "same"}, {"a", e["a"]}, {"r", obs(a)}});
}
template <class F> static void any_object(F f) {
  auto s = random_dims(1 + R(3), 1, R.chance(30) ? 6 : 4);
  if (R.chance(40))
    s.back()[0] = "row";
  const int k = R(10);
  if (k < 5) {
    const auto a = make_array(random_array(spec(s)));
    f(R.chance(40) ? relayout(a) : a, s);
  } else if (k < 7) {
    const auto a = make_array(random_array(spec(s))).data();
    f(R.chance(40) && !is_bins(a) ? relayout(a) : a, s);
  } else
    f(some_set(s), s);
}
static void tests() {
  Spec p;
  const int n = R(3);
  p.s = random_dims(1 + n, R.chance(10) ? 0 : 1, n == 0 ? 30 : 5);
  p.t = std::vector<string>{"f8", "f8", "f8", "f4", "i8", "i4", "str", "dt", "bool", "vec"}[R(R.chance(90) ? 8 : 10)];
  p.u = p.t == "bool" || p.t == "str" ? json::array({0, 0, 0}) : random_units();
  p.hv = p.t[0] == 'f' && R.chance(20);
  p.lo = p.t == "str" ? 0 : -9;
  p.nan = R.chance(20) ? 20 : 0;
  p.inf = R.chance(20) ? 20 : 0;
  auto j = random_json(p);
  const bool desc = R.chance(50);
  const string x = R.chance(97) ? p.s[static_cast<size_t>(R(static_cast<int>(p.s.size())))][0].get<string>() : "q";
  const auto order = desc ? SortOrder::Descending : SortOrder::Ascending;
  auto v = make(j);
  if (R.chance(50))
    v = relayout(v);
  if (R.chance(50)) {
    json e{{"op", "vsort"}, {"a", observe(v)}, {"x", x}, {"desc", desc}};
    finish(e, [&] { return observe(variable::sort(v, dim(x), order)); });
    emit({{"op", "same"}, {"a", e["a"]}, {"r", observe(v)}});
    return;
  }
  // mostly ordered
  if (R.chance(75) && !p.s.empty() && p.t != "vec") {
    int inner = 1, n2 = 1;
    bool past = false;
    for (const auto &d : p.s) {
      if (past)
        inner *= d[1].get<int>();
      if (d[0] == x) {
        past = true;
        n2 = d[1].get<int>();
      }
    }
    if (past && n2 > 0 && !j["v"].empty())
      for (size_t i = 0; i < j["v"].size(); ++i) {
        const int at = (static_cast<int>(i) / inner) % n2;
        if (p.nan && j["v"][i] == NaN)
          continue;
        if (at > 0 && j["v"][i - static_cast<size_t>(inner)] != NaN && R.chance(95)) {
          const int b = j["v"][i - static_cast<size_t>(inner)].get<int>();
          const int step = R(3);
          if (b > -1000000 && b < 1000000)
            j["v"][i] = p.t == "str" ? std::clamp(b + (desc ? -step : step), 0, 9) : b + (desc ? -step : step);
        }
      }
    v = make(j);
    if (R.chance(50))
      v = relayout(v);
  }
  if (R.chance(60)) {
    json e{{"op", "issorted"}, {"a", observe(v)}, {"x", x}, {"desc", desc}};
    finish(e, [&] { return observe(issorted(v, dim(x), order)); });
  } else {
    json e{{"op", "allsorted"}, {"a", observe(v)}, {"x", x}, {"desc", desc}};
    finish(e, [&] { return json(allsorted(v, dim(x), order)); });
  }
}
static void longs() {
  const int n = 500 + R(3000), period = 1 + R(2 * n), mul = 1 + R(997), add = R(period);
  const bool desc = R.chance(50);
  std::vector<double> k;
  std::vector<int64_t> id;
  for (int i = 0; i < n; ++i) {
    k.push_back((i * mul + add) % period);
    id.push_back(i);
  }
  const Dimensions rows(Dim("row"), n);
  auto key = makeVariable<double>(rows, Values(k));
  if (R.chance(50))
    key = astype(key, dtype<int64_t>);
  const DataArray a(makeVariable<int64_t>(rows, Values(id)), {{Dim("k"), key}});
  json e{{"op", "long"}, {"n", n}, {"period", period}, {"mul", mul}, {"add", add}, {"desc", desc}};
  finish(e, [&] {
    const auto r = dataset::sort(a, Dim("k"), desc ? SortOrder::Descending : SortOrder::Ascending);
    if (!allsorted(r.coords()[Dim("k")], Dim("row"), desc ? SortOrder::Descending : SortOrder::Ascending))
      throw std::runtime_error("coord not sorted");
    json q = json::array();
    for (const auto i : r.data().values<int64_t>())
      q.push_back(i);
    return q;
  });
}
int main(int, char **argv) {
  const string mode = argv[1];
  R.start(mode, atoi(argv[3]));
  const int n = atoi(argv[2]);
  for (int i = 0; i < n; ++i)
    mode == "sort"      ? any_object([](const auto &a, const json &s) { sorted(a, s); })
    : mode == "extract" ? any_object([](const auto &a, const json &s) { extracted(a, s); })
    : mode == "test"    ? tests()
                        : longs();
}
