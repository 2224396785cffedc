// P16: binning and grouping of events.  Modes: dense binned chain many long
#include "scipp/dataset/shape.h"
#include "vevents.h"
using namespace vt;
static std::optional<DataArray> do_bin(const DataArray &a, const std::vector<Key> &keys, const std::vector<string> &erase) {
  json e{{"op", "bin"}, {"keys", json::array()}, {"erase", json::array()}, {"a", observe_table(a)}};
  std::vector<Variable> edges, groups;
  // not all combinations of element types are supported
  e["mixed"] = std::any_of(keys.begin(), keys.end(), [&](auto &k) {
    return type_name(k.v) != types[k.x] ||
           (a.coords().contains(dim(k.x)) && a.coords()[dim(k.x)].dtype() != k.v.dtype());
  });
  // recorded in the order they are given in; which one comes first does not matter
  for (const auto &k : keys) {
    (k.g ? groups : edges).push_back(k.v);
    e["keys"].push_back(key_json(k));
  }
  std::vector<Dim> gone;
  for (const auto &x : erase) {
    gone.push_back(dim(x));
    e["erase"].push_back(x);
  }
  std::optional<DataArray> out;
  try {
    out = bin(a, edges, groups, gone);
    e["r"] = observe(*out);
    e["ok"] = true;
  } catch (const std::exception &ex) {
    if (getenv("VERBOSE"))
      e["why"] = ex.what();
    e["ok"] = false;
  }
  emit(e);
  if (R.chance(20)) {
    e["op"] = "same";
    e["r"] = observe_table(a);
    emit(e);
  }
  return out;
}
static void dense() {
  choose_types();
  const auto a = table(9);
  auto keys = some_keys({"x", "y", "g"});
  if (R.chance(3))
    keys.push_back(some_key("q", "f8", false));
  do_bin(a, keys, {});
}
static std::vector<string> some_erase(const DataArray &a, const std::vector<Key> &keys) {
  std::vector<string> out;
  for (const auto &x : labels_of(a))
    if (R.chance(25) && std::none_of(keys.begin(), keys.end(), [&](auto &k) { return k.x == x; }))
      out.push_back(x);
  return out;
}
static void binned() {
  choose_types();
  const auto bins_shape = random_dims(R.chance(5) ? 0 : 1 + R(3), 1, 3);
  auto arr = binned_array(bins_shape);
  std::vector<string> names{"x", "y", "g"};
  if (R.chance(20))
    names.push_back("z");
  auto keys = some_keys(names);
  if (bins_shape.size() > 0 && R.chance(15)) {
    const auto &o = bins_shape[static_cast<size_t>(R(static_cast<int>(bins_shape.size())))];
    for (auto &k : keys)
      if (!k.g && k.x != o[0] && types[k.x] != "str") {
        k = ragged_key(k.x, types[k.x], o);
        break;
      }
  }
  do_bin(arr, keys, some_erase(arr, keys));
}
// bin, change something, bin again
static void chain() {
  choose_types();
  std::optional<DataArray> a = do_bin(table(14), some_keys({"x", "y", "g"}), {});
  for (int k = 0; a && k < 3; ++k) {
    auto arr = *a;
    for (int i = 0; i < 2; ++i) {
      const auto l = labels_of(arr);
      const int what = R(6);
      if (what == 0) {
        arr = copy(arr); // slices are read-only
        mask_bins(arr, 50);
      }
      else if (what == 1 && !l.empty()) {
        const auto x = dim(l[static_cast<size_t>(R(static_cast<int>(l.size())))]);
        const auto n = static_cast<int>(arr.dims()[x]);
        if (n > 0)
          arr = R.chance(50) ? arr.slice({x, R(n)}) : arr.slice({x, R(n), n});
      } else if (what == 2)
        arr = transpose(arr);
      else if (what == 3)
        arr = copy(arr);
    }
    auto keys = some_keys({"x", "y", "g"}, 2);
    if (R.chance(20) && arr.dims().ndim() > 0) {
      const auto l = labels_of(arr);
      const auto o = l[static_cast<size_t>(R(static_cast<int>(l.size())))];
      for (auto &key : keys)
        if (!key.g && key.x != o && types[key.x] != "str") {
          key = ragged_key(key.x, types[key.x], json::array({o, static_cast<int>(arr.dims()[dim(o)])}));
          break;
        }
    }
    a = do_bin(arr, keys, some_erase(arr, keys));
  }
}
static std::vector<std::pair<int, json>> filled(const DataArray &r, const Dim x) {
  std::vector<std::pair<int, json>> out;
  const auto &[ind, d, buf] = r.data().constituents<DataArray>();
  const auto ids = buf.data().values<double>();
  scipp::index i = 0;
  (void)x;
  for (const auto &p : ind.values<scipp::index_pair>()) {
    json b = json::array();
    for (auto j = p.first; j < p.second; ++j)
      b.push_back(static_cast<int>(ids[j]));
    if (!b.empty())
      out.emplace_back(static_cast<int>(i), b);
    ++i;
  }
  return out;
}
// more bins than the threshold for mapping in two stages
static void many() {
  const int n = 16000 + R(2000), lo = R(2000), m = 1 + R(80);
  std::vector<double> x, id;
  json e{{"op", "many"}, {"lo", lo}, {"n", n}, {"ev", json::array()}, {"r", json::array()}};
  for (int i = 0; i < m; ++i) {
    const int v = R.chance(30) && i ? static_cast<int>(x[R(i)]) : R.chance(10) ? lo + n - R(2) : R.chance(10) ? lo - R(2) : lo + R(n);
    x.push_back(v);
    id.push_back(i);
    e["ev"].push_back(json::array({v, i}));
  }
  const Dimensions rows(Dim("row"), m);
  DataArray a(makeVariable<double>(rows, Values(id)), {{Dim("x"), makeVariable<double>(rows, Values(x))}});
  // further columns, of other types
  if (R.chance(50))
    a.coords().set(Dim("b"), astype(a.data(), dtype<int64_t>));
  if (R.chance(50))
    a.masks().set("m", equal(a.data(), makeVariable<double>(Values{3.0})));
  const bool group = R.chance(40);
  std::vector<double> key;
  for (int i = 0; i < n + (group ? 0 : 1); ++i)
    key.push_back(lo + i);
  auto kv = makeVariable<double>(Dimensions(Dim("x"), static_cast<scipp::index>(key.size())), Values(key));
  if (group) {
    kv = astype(kv, dtype<int64_t>);
    a.coords().set(Dim("x"), astype(a.coords()[Dim("x")], dtype<int64_t>));
  }
  try {
    DataArray r = group ? bin(a, {}, {kv}) : bin(a, {kv});
    for (auto &[i, b] : filled(r, Dim("x")))
      e["r"].push_back(json::array({i, b}));
    e["ok"] = true;
    // the other columns belong to the same events
    const auto &[ind, d, buf] = r.data().constituents<DataArray>();
    if (buf.coords().contains(Dim("b")) && astype(buf.coords()[Dim("b")], dtype<double>) != buf.data())
      e["ok"] = false;
    if (buf.masks().contains("m") && buf.masks()["m"] != equal(buf.data(), makeVariable<double>(Values{3.0})))
      e["ok"] = false;
  } catch (const std::exception &) {
    e["ok"] = false;
  }
  emit(e);
}
// long inputs, which are split among threads
static void longs() {
  const int len = std::vector<int>{99999, 100001, 250000, 1000001}[R(4)] + R(3);
  const int period = 3 + R(40), n = 2 + R(30), lo = R(4);
  std::vector<double> x(static_cast<size_t>(len)), id(static_cast<size_t>(len));
  for (int i = 0; i < len; ++i) {
    x[static_cast<size_t>(i)] = i % period;
    id[static_cast<size_t>(i)] = i;
  }
  const Dimensions rows(Dim("row"), len);
  DataArray a(makeVariable<double>(rows, Values(id)), {{Dim("x"), makeVariable<double>(rows, Values(x))}});
  std::vector<double> key;
  for (int i = 0; i < n + 1; ++i)
    key.push_back(lo + i);
  if (R.chance(50)) // not equidistant
    key.back() -= 0.25;
  const auto r = bin(a, {makeVariable<double>(Dimensions(Dim("x"), n + 1), Values(key))});
  json e{{"op", "long"}, {"len", len}, {"period", period}, {"n", n}, {"lo", lo}, {"ok", true}, {"r", json::array()}};
  const auto &[ind, d, buf] = r.data().constituents<DataArray>();
  const auto ids = buf.data().values<double>();
  for (const auto &p : ind.values<scipp::index_pair>()) {
    double least = p.second - p.first > 1 ? 2e9 : 0, most = 0;
    for (auto j = p.first + 1; j < p.second; ++j) {
      least = std::min(least, ids[j] - ids[j - 1]);
      most = std::max(most, ids[j] - ids[j - 1]);
    }
    e["r"].push_back(json::array({static_cast<int>(p.second - p.first), p.second > p.first ? static_cast<int>(ids[p.first]) : -1, static_cast<int>(least), static_cast<int>(most)}));
  }
  emit(e);
}
int main(int, char **argv) {
  const string mode = argv[1];
  R.start(mode, atoi(argv[3]));
  const int n = atoi(argv[2]);
  for (int i = 0; i < n; ++i)
    mode == "dense" ? dense() : mode == "binned" ? binned() : mode == "chain" ? chain() : mode == "many" ? many() : longs();
}
