// Replays histories on several element_arrays of different element types.
#include <map>
#include <memory>
#include <vector>

#include "scipp/core/element_array.h"
#include "vtrace.h"
using namespace scipp;
using scipp::core::element_array;
using scipp::core::init_for_overwrite;
using vt::json;

template <class T> T mk(int i) { return static_cast<T>(i); }
template <> std::string mk(int i) { return i == 0 ? std::string() : "a rather long string to defeat SSO " + std::to_string(i); }
template <> std::vector<int> mk(int i) { return std::vector<int>(i, i); }
template <class T> int back(const T &t) { return static_cast<int>(t); }
int back(const std::string &s) { return s.empty() ? 0 : atoi(s.c_str() + s.rfind(' ')); }
int back(const std::vector<int> &s) { return static_cast<int>(s.size()); }

template <class T> struct Machine {
  using A = element_array<T>;
  std::map<std::string, std::unique_ptr<A>> a;
  std::vector<std::string> names;
  explicit Machine(std::vector<std::string> n) : names(n) {
    for (auto &x : n) a[x] = std::make_unique<A>();
  }
  json obs() {
    json o;
    for (auto &x : names) {
      A &r = *a[x];
      const A &c = r;
      json j{{"set", bool(r)}, {"size", r.size()}, {"empty", r.empty()}, {"null", r.data() == nullptr}, {"shared", false}};
      j["e"] = j["ce"] = json::array();
      for (auto i = r.begin(); i != r.end(); ++i) j["e"].push_back(back(*i));
      for (auto i = c.begin(); i != c.end(); ++i) j["ce"].push_back(back(*i));
      if (c.data() != r.data() && r.size() > 0) j["ce"].push_back(-1);
      for (auto &y : names)
        if (y != x && r.data() && a[y]->data() == r.data()) j["shared"] = true;
      o[x] = j;
    }
    return o;
  }
  void run(const json &o, bool quiet) {
    const std::string op = o["op"];
    json e = o;
    if (op == "bad") {
      try { a[o["x"]]->resize(o["n"].get<int>(), init_for_overwrite); e["res"] = "ok"; }
      catch (const std::exception &) { e["res"] = "refused"; }
      e["obs"] = obs();
      vt::emit(e);
      return;
    }
    auto &x = a[o["x"]];
    if (op == "construct") {
      std::vector<T> v;
      for (auto &i : o["s"]) v.push_back(mk<T>(i.get<int>()));
      const std::string how = o["how"];
      if (how == "range") x = std::make_unique<A>(v.begin(), v.end());
      else if (how == "vector") *x = A(v);
      else if (v.size() == 0) x = std::make_unique<A>(std::initializer_list<T>{});
      else if (v.size() == 1) *x = A{v[0]};
      else *x = A({v[0], v[1]});
      if (how == "list" && v.size() > 2) *x = A(v);
    } else if (op == "fill") {
      if (o["v"].get<int>() % 2) x = std::make_unique<A>(o["n"].get<int>(), mk<T>(o["v"]));
      else *x = A(o["n"].get<int>(), mk<T>(o["v"]));
    } else if (op == "overwrite") {
      if (o["n"].get<int>() % 2) x->resize(o["n"].get<int>(), init_for_overwrite);
      else *x = A(o["n"].get<int>(), init_for_overwrite);
      for (scipp::index i = 0; i < x->size(); ++i) x->data()[i] = mk<T>(o["v"]);
    } else if (op == "reset") x->reset();
    else if (op == "default") x = std::make_unique<A>();
    else if (op == "copy") { auto n = std::make_unique<A>(static_cast<const A &>(*a[o["y"]])); x = std::move(n); }
    else if (op == "assign") *x = static_cast<const A &>(*a[o["y"]]);
    else if (op == "move") { auto n = std::make_unique<A>(std::move(*a[o["y"]])); x = std::move(n); }
    else if (op == "moveassign") *x = std::move(*a[o["y"]]);
    else if (op == "resize") x->resize(o["n"].get<int>());
    else if (op == "write") x->begin()[o["i"].get<int>() - 1] = mk<T>(o["v"]);
    if (!quiet) e["obs"] = obs();
    vt::emit(e);
  }
};

template <class T> void program(const json &p, std::vector<std::string> names, bool last_only) {
  vt::emit({{"op", "start"}});
  Machine<T> m(names);
  for (size_t i = 0; i < p.size(); ++i) m.run(p[i], last_only && i + 1 < p.size());
}
void dispatch(long k, const json &p, std::vector<std::string> names, bool last_only) {
  switch (k % 6) {
  case 0: return program<double>(p, names, last_only);
  case 1: return program<std::string>(p, names, last_only);
  case 2: return program<int32_t>(p, names, last_only);
  case 3: return program<std::vector<int>>(p, names, last_only);
  case 4: return program<float>(p, names, last_only);
  default: return program<int64_t>(p, names, last_only);
  }
}

template <class A> json runs(const A &a) {
  json r = json::array();
  scipp::index i = 0, n = a.size();
  while (i < n && r.size() < 20) {
    const int start = back(a.data()[i]);
    if (i + 1 == n) { r.push_back({{"start", start}, {"step", 0}, {"n", 1}}); break; }
    const int step = back(a.data()[i + 1]) - start;
    scipp::index j = i + 1;
    while (j < n && back(a.data()[j]) == start + step * (j - i)) ++j;
    r.push_back({{"start", start}, {"step", step}, {"n", j - i}});
    i = j;
  }
  return r;
}
template <class T> void bigtest(std::mt19937 &rng) {
  vt::emit({{"op", "start"}});
  element_array<T> p(0), q(0);
  auto out = [&](json e) { e["bobs"] = {{"p", runs(p)}, {"q", runs(q)}}; vt::emit(e); };
  // previous contents unknown to the trace: start from empty
  out({{"op", "bigfill"}, {"x", "p"}, {"n", 0}, {"v", 0}});
  out({{"op", "bigfill"}, {"x", "q"}, {"n", 0}, {"v", 0}});
  for (int rep = 0; rep < 12; ++rep) {
    const int ns[] = {1, 2, 23, 24, 25, 47, 48, 49, 71, 100, 577, 1000, 16384, 70001, 100003};
    const int n = ns[rng() % 15];
    p = element_array<T>(n, mk<T>(rep + 1));
    out({{"op", "bigfill"}, {"x", "p"}, {"n", n}, {"v", rep + 1}});
    std::vector<T> v;
    const int m = ns[rng() % 15];
    for (int i = 0; i < m; ++i) v.push_back(mk<T>(5 + 2 * i));
    q = element_array<T>(v.begin(), v.end());
    out({{"op", "bigrange"}, {"x", "q"}, {"n", m}, {"v", 5}, {"step", 2}});
    if (rng() % 2) p = q; else { element_array<T> c(q); p = std::move(c); }
    out({{"op", "bigcopy"}, {"x", "p"}, {"y", "q"}});
    const int k = ns[rng() % 15];
    q.resize(k);
    out({{"op", "bigresize"}, {"x", "q"}, {"n", k}});
  }
}

int main(int argc, char **argv) {
  const std::string mode = argv[1];
  if (mode == "gen") {
    long k = 0;
    const vt::Shard shard(argv[3]);
    for (const auto &p : vt::read_programs(argv[2]))
      if (const long id = k++; shard.mine(id)) dispatch(id / shard.n, p, {"p", "q"}, true);
  } else {
    std::mt19937 rng(vt::seed() * 7919 + atoi(argv[2]));
    const int N = atoi(argv[3]), L = atoi(argv[4]);
    const std::vector<std::string> names{"p", "q", "r"};
    for (int i = 0; i < N; ++i) {
      json prog = json::array();
      // what the spec requires for moves (distinct arrays) and writes (in
      // range) needs the lengths: track them
      std::map<std::string, int> len{{"p", -1}, {"q", -1}, {"r", -1}};
      for (int s = 0; s < L; ++s) {
        const auto x = names[rng() % 3], y = names[rng() % 3];
        const int n = rng() % 4 ? rng() % 6 : rng() % 60, v = 1 + rng() % 60;
        switch (rng() % 11) {
        case 0: { json sq = json::array(); for (int j = 0; j < n; ++j) sq.push_back(1 + int(rng() % 60));
          prog.push_back({{"op", "construct"}, {"x", x}, {"s", sq}, {"how", rng() % 2 ? "range" : "vector"}}); len[x] = n; break; }
        case 1: prog.push_back({{"op", "fill"}, {"x", x}, {"n", n}, {"v", v}}); len[x] = n; break;
        case 2: prog.push_back({{"op", rng() % 2 ? "reset" : "default"}, {"x", x}}); len[x] = -1; break;
        case 3: prog.push_back({{"op", "copy"}, {"x", x}, {"y", y}}); len[x] = len[y]; break;
        case 4: case 5: prog.push_back({{"op", "assign"}, {"x", x}, {"y", y}}); len[x] = len[y]; break;
        case 6: if (x != y) { prog.push_back({{"op", rng() % 2 ? "move" : "moveassign"}, {"x", x}, {"y", y}}); len[x] = len[y]; len[y] = -1; } break;
        case 7: prog.push_back({{"op", "resize"}, {"x", x}, {"n", n}}); len[x] = n; break;
        case 8: prog.push_back({{"op", "overwrite"}, {"x", x}, {"n", n}, {"v", v}}); len[x] = n; break;
        case 9: if (rng() % 8 == 0) { prog.push_back({{"op", "bad"}, {"x", x}, {"n", -5}}); break; } [[fallthrough]];
        default: if (len[x] > 0) prog.push_back({{"op", "write"}, {"x", x}, {"i", 1 + int(rng() % len[x])}, {"v", v}});
        }
      }
      dispatch(i, prog, names, false);
    }
    for (int i = 0; i < 3; ++i) { bigtest<double>(rng); bigtest<int64_t>(rng); bigtest<int32_t>(rng); }
  }
}
