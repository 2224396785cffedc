// Dimension algebra: histories of mutations and enumerated function calls.
#include "scipp/common/index_composition.h"
#include "scipp/core/except.h"
#include "vshape.h"
#include <algorithm>
#include <functional>
using namespace scipp;
using vt::json;

static std::vector<std::string> universe{"x", "y", "z"};

static json obs(const Dimensions &d) {
  json o;
  o["labels"] = json::array();
  for (const auto x : d.labels()) o["labels"].push_back(vt::name(x));
  o["shape"] = vt::list(d.shape());
  o["volume"] = d.volume();
  o["ndim"] = d.ndim();
  o["empty"] = d.empty();
  o["inner"] = vt::name(d.inner());
  o["offsets"] = json::array();
  for (const auto x : d.labels()) o["offsets"].push_back(d.offset(x));
  const core::Strides str(d);
  o["strides"] = vt::list(str);
  o["lookup"] = json::array();
  for (const auto &u : universe) {
    const auto x = vt::dim(u);
    json q{{"x", u}, {"has", d.contains(x)}, {"at", -1}, {"index", -1}};
    try { q["at"] = d[x]; if (d.at(x) != d[x] || d.size(d.index(x)) != d[x] || d.label(d.index(x)) != x) q["at"] = -7; } catch (const except::DimensionError &) {}
    try { q["index"] = d.index(x); } catch (const except::DimensionError &) {}
    o["lookup"].push_back(q);
  }
  return o;
}

static void mutate(Dimensions &d, const json &o, bool quiet) {
  const std::string op = o["op"];
  json e = o;
  e["ok"] = true;
  try {
    const Dim x = o.contains("x") ? vt::dim(o["x"]) : Dim(Dim::Invalid);
    const scipp::index n = o.value("n", 0);
    if (op == "add") d.add(x, n);
    else if (op == "addInner") d.addInner(x, n);
    else if (op == "resize") d.resize(x, n);
    else if (op == "set") d.set(x, n);
    else if (op == "erase") d.erase(x);
    else if (op == "replace") d.replace_key(x, vt::dim(o["y"]));
    else if (op == "clear") d.clear();
  } catch (const std::exception &) { e["ok"] = false; }
  if (!quiet) e["obs"] = obs(d);
  vt::emit(e);
}

static std::vector<Dimensions> all_shapes(const std::vector<std::string> &labels, const std::vector<int> &ext, size_t maxdim) {
  std::vector<Dimensions> out{Dimensions{}};
  for (size_t i = 0; i < out.size(); ++i) {
    if (size_t(out[i].ndim()) == maxdim) continue;
    for (auto &l : labels)
      if (!out[i].contains(Dim(l)))
        for (int n : ext) { auto d = out[i]; d.addInner(Dim(l), n); out.push_back(d); }
  }
  return out;
}

static void binary(const Dimensions &a, const Dimensions &b) {
  const auto A = vt::shape(a), B = vt::shape(b);
  vt::emit({{"op", "merge"}, {"a", A}, {"b", B}, {"r", vt::result([&] { return vt::shape(core::merge(a, b)); })}});
  vt::emit({{"op", "intersection"}, {"a", A}, {"b", B}, {"r", vt::result([&] { return vt::shape(core::intersection(a, b)); })}});
  vt::emit({{"op", "mergeSizes"}, {"a", A}, {"b", B}, {"r", vt::result([&] { return vt::shape(core::merge(static_cast<const Sizes &>(a), static_cast<const Sizes &>(b))); })}});
  const Sizes &sa = a, &sb = b;
  vt::emit({{"op", "cmp"}, {"a", A}, {"b", B}, {"includes", a.includes(b)}, {"seq", sa == sb}, {"sne", sa != sb}, {"deq", a == b}, {"dne", a != b}});
  for (auto &u : {"x", "y", "<invalid>"})
    vt::emit({{"op", "edges"}, {"a", A}, {"b", B}, {"x", u}, {"val", core::is_edges(a, b, vt::dim(u))}});
  // concat of shapes that agree except along x
  for (auto &u : {"x", "w"}) {
    const Dim x(u);
    auto ra = a, rb = b;
    if (ra.contains(x)) ra.erase(x);
    if (rb.contains(x)) rb.erase(x);
    if (static_cast<Sizes &>(ra) == static_cast<Sizes &>(rb)) {
      const std::vector<Sizes> v{a, b};
      vt::emit({{"op", "concat"}, {"a", A}, {"b", B}, {"x", u}, {"r", vt::result([&] { return vt::shape(core::concat(v, x)); })}});
    }
  }
}

static void unary(const Dimensions &a, const std::vector<std::string> &labels, std::mt19937 &rng, bool full) {
  const auto A = vt::shape(a);
  auto tr = [&](const std::vector<std::string> &labs) {
    std::vector<Dim> q;
    for (auto &s : labs) q.push_back(Dim(s));
    json e{{"op", "transpose"}, {"a", A}, {"labs", labs}, {"str", json::array()}};
    e["r"] = vt::result([&] {
      const auto r = vt::shape(core::transpose(a, q));
      const core::Strides st(a);
      e["str"] = vt::list(core::transpose(st, a, q));
      return r;
    });
    vt::emit(e);
  };
  tr({});
  // all label sequences up to length ndim+1 of the labels (also with repeats)
  std::function<void(std::vector<std::string>)> rec = [&](std::vector<std::string> q) {
    if (!q.empty()) tr(q);
    if (q.size() < size_t(a.ndim()) + 1 && q.size() < 3)
      for (auto &l : labels) { auto p = q; p.push_back(l); rec(p); }
  };
  if (full) rec({});
  std::vector<std::string> own;
  for (auto &x : a.labels()) own.push_back(x.name());
  std::shuffle(own.begin(), own.end(), rng);
  if (!own.empty()) tr(own);
  for (auto &l : labels)
    for (int b = -1; b <= 4; ++b)
      for (int e = -2; e <= 4; ++e)
        for (int st : {1, 2, 3, 0, -1}) {
          if (!full && rng() % 8) continue;
          json ev{{"op", "slice"}, {"a", A}, {"x", l}, {"sb", b}, {"se", e}, {"st", st}, {"ctor", true}, {"r", {{"ok", false}}}};
          Slice s;
          try {
            s = (e == -1 && st == 1 && rng() % 2) ? Slice(Dim(l), b) : Slice(Dim(l), b, e, st);
            ev["r"] = vt::result([&] { return vt::shape(a.slice(s)); });
          } catch (const std::exception &) { ev["ctor"] = false; }
          vt::emit(ev);
        }
  vt::emit({{"op", "noslice"}, {"a", A}, {"r", vt::result([&] { return vt::shape(a.slice(Slice{})); })}});
  // renames
  std::vector<std::vector<std::pair<std::string, std::string>>> ps;
  for (auto &f : labels)
    for (auto &t : {"x", "y", "w"}) {
      ps.push_back({{f, t}});
      for (auto &f2 : labels)
        for (auto &t2 : {"x", "v"}) if (full || rng() % 4 == 0) ps.push_back({{f, t}, {f2, t2}});
    }
  for (auto &p : ps)
    for (bool strict : {true, false}) {
      std::vector<std::pair<Dim, Dim>> q;
      json P = json::array();
      for (auto &[f, t] : p) { q.emplace_back(Dim(f), Dim(t)); P.push_back({f, t}); }
      vt::emit({{"op", "rename"}, {"a", A}, {"p", P}, {"strict", strict}, {"r", vt::result([&] { return vt::shape(a.rename_dims(q, strict)); })}});
    }
}
static void folds(const Dimensions &a, const Dimensions &to, const std::vector<std::string> &labels) {
  for (auto &l : labels)
    vt::emit({{"op", "fold"}, {"a", vt::shape(a)}, {"b", vt::shape(to)}, {"x", l}, {"r", vt::result([&] { return vt::shape(core::fold(a, Dim(l), to)); })}});
}
static void numeric(std::mt19937 &rng, int N) {
  for (int k = 0; k < N; ++k) {
    const int nd = rng() % 5;
    std::vector<scipp::index> shp, str, idx, iout(std::max(nd, 1), 99);
    scipp::index vol = 1;
    for (int d = 0; d < nd; ++d) { shp.push_back(rng() % 5); str.push_back(int(rng() % 9) - 3); idx.push_back(rng() % 7); vol *= shp.back(); }
    vt::emit({{"op", "flat"}, {"str", vt::list(str)}, {"idx", vt::list(idx)}, {"val", flat_index_from_strides(str.begin(), str.end(), idx.begin())}});
    const auto [lo, hi] = memory_bounds(shp.begin(), shp.end(), str.begin());
    vt::emit({{"op", "bounds"}, {"shape", vt::list(shp)}, {"str", vt::list(str)}, {"lo", lo}, {"hi", hi}});
    const scipp::index i = vol == 0 ? 0 : scipp::index(rng() % (vol + 1));
    extract_indices(i, shp.begin(), shp.end(), iout.begin());
    vt::emit({{"op", "extract"}, {"i", i}, {"shape", vt::list(shp)}, {"idx", vt::list(iout)}});
  }
}

int main(int argc, char **argv) {
  const std::string mode = argv[1];
  std::mt19937 rng(vt::seed() * 104729 + (argc > 3 ? atoi(argv[3]) : 0));
  if (mode == "gen") {
    const vt::Shard shard(argv[3]);
    long k = 0;
    for (const auto &p : vt::read_programs(argv[2]))
      if (shard.mine(k++)) {
        vt::emit({{"op", "reset"}, {"ok", true}});
        Dimensions d;
        for (size_t i = 0; i < p.size(); ++i) mutate(d, p[i], i + 1 < p.size());
      }
  } else if (mode == "pairs") {
    const vt::Shard shard(argv[2]);
    long k = 0;
    const auto s = all_shapes({"x", "y", "z"}, {2, 3}, 3);
    for (auto &a : s)
      for (auto &b : s) if (shard.mine(k++)) binary(a, b);
    for (auto &a : all_shapes({"x", "y"}, {0, 1, 4}, 2)) if (shard.mine(k++)) unary(a, {"x", "y", "z"}, rng, true);
    for (auto &a : all_shapes({"x", "y"}, {0, 1, 4, 6}, 2))
      for (auto &b : all_shapes({"x", "p", "q"}, {0, 1, 2, 3}, 2)) if (shard.mine(k++)) folds(a, b, {"x", "y"});
    for (auto &x : {"x", "y", "<invalid>"})
      for (int i : {-1, 0, 2})
        for (auto &y : {"x", "z", "<invalid>"})
          for (int j : {-3, 0, 2})
            vt::emit({{"op", "ctor"}, {"a", json::array({json::array({x, i}), json::array({y, j})})}, {"r", vt::result([&] { return vt::shape(Dimensions({vt::dim(x), vt::dim(y)}, {i, j})); })}});
  } else { // random: up to 7 labels (heap storage beyond 4)
    const int N = atoi(argv[2]);
    universe = {"x", "y", "z", "w", "v", "u", "time"};
    for (int k = 0; k < N; ++k) {
      vt::emit({{"op", "reset"}, {"ok", true}});
      Dimensions d;
      for (int i = 0; i < 30; ++i) {
        const char *ops[] = {"add", "addInner", "addInner", "resize", "set", "erase", "replace", "add", "addInner", "clear"};
        std::string op = ops[rng() % 40 == 0 ? 9 : rng() % 9];
        json o{{"op", op}, {"x", rng() % 30 ? universe[rng() % universe.size()] : "<invalid>"}, {"n", int(rng() % 6) - (rng() % 8 == 0)}, {"y", universe[rng() % universe.size()]}};
        mutate(d, o, false);
      }
      auto rnd = [&] {
        Dimensions q;
        auto u = universe;
        std::shuffle(u.begin(), u.end(), rng);
        const int n = rng() % 6;
        for (int i = 0; i < n; ++i) q.addInner(Dim(u[i]), u[i] == "x" ? 1 + rng() % 3 : u[i].size() + 1 + (rng() % 8 == 0));
        return q;
      };
      for (int i = 0; i < 6; ++i) {
        const auto a = rnd(), b = rnd();
        binary(a, b);
        auto c = a; // same labels, other order
        if (a.ndim()) { std::vector<Dim> q(a.labels().begin(), a.labels().end()); std::shuffle(q.begin(), q.end(), rng); c = core::transpose(a, q); }
        binary(a, c);
        unary(a, universe, rng, false);
        folds(a, rnd(), universe);
      }
    }
    numeric(rng, 60 * N);
  }
}
