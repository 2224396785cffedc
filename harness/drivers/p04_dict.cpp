// Replays TLC-generated and random histories on scipp::core::Dict.
#include <functional>
#include <map>
#include <optional>

#include "scipp/core/dict.h"
#include "scipp/units/dim.h"
#include "vtrace.h"
using namespace scipp;
using vt::json;

template <class K> K key(const std::string &s);
template <> std::string key(const std::string &s) { return s; }
template <> Dim key(const std::string &s) { return Dim(s); }
std::string str(const std::string &s) { return s; }
std::string str(const Dim d) { return d.name(); }

static const std::vector<std::string> kinds{"key", "value", "cvalue", "item", "citem"};
static std::vector<std::string> universe{"a", "b", "c", "d"};

// value type with an owning heap allocation, so ASan sees stale accesses
struct Val {
  std::shared_ptr<int> v;
  Val(int i = 0) : v(std::make_shared<int>(i)) {}
  Val(const Val &o) : v(std::make_shared<int>(*o.v)) {}
  Val(Val &&) noexcept = default;
  Val &operator=(const Val &o) { v = std::make_shared<int>(*o.v); return *this; }
  Val &operator=(Val &&) noexcept = default;
  int get() const { return v ? *v : -77; }
};

template <class K> struct Machine {
  using D = core::Dict<K, Val>;
  D d;
  std::map<std::string, D> slots{{"p", D{}}, {"q", D{}}};
  std::optional<typename D::const_key_iterator> ik;
  std::optional<typename D::value_iterator> iv;
  std::optional<typename D::const_value_iterator> icv;
  std::optional<typename D::iterator> ii;
  std::optional<typename D::const_iterator> ici;
  std::map<std::string, int> pos;

  static json obs(D &d) {
    json o;
    const D &c = d;
    o["size"] = c.size();
    o["empty"] = c.empty();
    o["keys"] = o["values"] = o["cvalues"] = o["items"] = o["citems"] = o["twice"] = json::array();
    for (auto i = c.keys_begin(); i != c.keys_end(); ++i)
      o["keys"].push_back(str(*i));
    for (auto i = d.values_begin(); i != d.values_end(); ++i)
      o["values"].push_back((*i).get());
    for (auto i = c.values_begin(); i != c.values_end(); ++i)
      o["cvalues"].push_back(i->get());
    for (const auto &[k, v] : d)
      o["items"].push_back({str(k), v.get()});
    for (auto i = c.begin(); i != c.end(); ++i)
      o["citems"].push_back({str(i->first), i->second.get()});
    {
      auto i = c.values_begin().transform([](const auto &x) { return x.get() * 2; }).transform([](const auto &x) { return x + 1; });
      auto e = c.values_end().transform([](const auto &x) { return x.get() * 2; }).transform([](const auto &x) { return x + 1; });
      for (; i != e; ++i)
        o["twice"].push_back(*i);
    }
    o["lookup"] = json::array();
    for (const auto &u : universe) {
      json q{{"k", u}, {"has", c.contains(key<K>(u))}, {"found", c.find(key<K>(u)) != c.end()}, {"at", -1}, {"refused", false}};
      try {
        q["at"] = c.at(key<K>(u)).get();
      } catch (const except::NotFoundError &) {
        q["refused"] = true;
      }
      if (q["found"].get<bool>() && (str(c.find(key<K>(u))->first) != u || c.find(key<K>(u))->second.get() != q["at"].get<int>() ||
                                     d.find(key<K>(u))->second.get() != q["at"].get<int>()))
        q["found"] = false;
      o["lookup"].push_back(q);
    }
    return o;
  }

  template <class F> json each(F &&f, bool need_valid) {
    json r = json::object();
    for (const auto &kd : kinds) {
      if (need_valid && pos[kd] >= d.size())
        continue; // using an end iterator is outside the interface
      json x;
      try {
        x = f(kd);
        x["res"] = "ok";
      } catch (const std::exception &) {
        x = json{{"res", "refused"}};
      }
      r[kd] = x;
    }
    return r;
  }
  bool have() const { return ik.has_value(); }
  void drop() { ik.reset(); iv.reset(); icv.reset(); ii.reset(); ici.reset(); }

  void deref(bool) {
    if (!have()) return;
    auto r = each([&](const std::string &kd) -> json {
      if (kd == "key") return {{"key", str(**ik)}};
      if (kd == "value") return {{"val", (**iv).get()}};
      if (kd == "cvalue") return {{"val", (*icv)->get()}};
      if (kd == "item") { auto &&p = **ii; return {{"key", str(p.first)}, {"val", p.second.get()}}; }
      auto &&p = **ici;
      return {{"key", str(p.first)}, {"val", p.second.get()}};
    }, true);
    if (!r.empty()) vt::emit({{"op", "deref"}, {"r", r}});
  }
  void atend() {
    if (!have()) return;
    auto r = each([&](const std::string &kd) -> json {
      const D &c = d;
      if (kd == "key") return {{"end", *ik == c.keys_end()}};
      if (kd == "value") return {{"end", *iv == d.values_end()}};
      if (kd == "cvalue") return {{"end", *icv == c.values_end()}};
      if (kd == "item") return {{"end", *ii == d.end()}};
      return {{"end", !(*ici != c.end())}};
    }, false);
    vt::emit({{"op", "atend"}, {"r", r}});
  }
  void inc() {
    if (!have()) return;
    auto r = each([&](const std::string &kd) -> json {
      if (kd == "key") ++*ik;
      else if (kd == "value") ++*iv;
      else if (kd == "cvalue") ++*icv;
      else if (kd == "item") ++*ii;
      else ++*ici;
      ++pos[kd];
      return json::object();
    }, true);
    if (!r.empty()) vt::emit({{"op", "inc"}, {"r", r}});
  }

  // quiet: a prefix whose transitions are observed by another program
  void run(const json &o, const bool quiet = false) {
    const std::string op = o["op"];
    json e = o;
    const D &c = d;
    if (op == "insert") {
      if (o["v"].get<int>() % 2) d.insert_or_assign(key<K>(o["k"]), Val(o["v"].get<int>()));
      else { const Val v(o["v"].get<int>()); d.insert_or_assign(key<K>(o["k"]), v); }
    } else if (op == "erase" || op == "extract") {
      e["res"] = "ok";
      try {
        if (op == "erase") d.erase(key<K>(o["k"]));
        else e["val"] = d.extract(key<K>(o["k"])).get();
      } catch (const except::NotFoundError &) {
        e["res"] = "notfound";
      }
    } else if (op == "clear") {
      d.clear();
    } else if (op == "reserve") {
      d.reserve(o["n"].get<int>());
    } else if (op == "set") {
      e["res"] = "ok";
      try {
        d[key<K>(o["k"])] = Val(o["v"].get<int>());
      } catch (const except::NotFoundError &) {
        e["res"] = "notfound";
      }
    } else if (op == "begin" || op == "find") {
      ik.emplace(c.keys_begin()); iv.emplace(d.values_begin()); icv.emplace(c.values_begin());
      ii.emplace(d.begin()); ici.emplace(c.begin());
      for (auto &k : kinds) pos[k] = 0;
      if (op == "find") {
        const auto k = key<K>(o["k"]);
        ii.emplace(d.find(k)); ici.emplace(c.find(k));
        int p = 0;
        while (*ik != c.keys_end() && !(**ik == k)) { ++*ik; ++*iv; ++*icv; ++p; }
        for (auto &kd : kinds) pos[kd] = p;
      }
    } else if (op == "deref") { deref(true); return; }
    else if (op == "atend") { atend(); return; }
    else if (op == "inc") { inc(); if (!quiet) { deref(true); atend(); } return; }
    else if (op == "write") {
      if (!have() || pos["value"] >= d.size()) return;
      try { **iv = Val(o["v"].get<int>()); e["res"] = "ok"; } catch (const std::exception &) { e["res"] = "refused"; }
    } else if (op == "initlist") {
      // lengths 0..3
      const auto &it = o["items"];
      auto P = [&](int i) { return std::pair<const K, Val>(key<K>(it[i][0]), Val(it[i][1].template get<int>())); };
      try {
        D n = it.size() == 0 ? D{} : it.size() == 1 ? D({P(0)}) : it.size() == 2 ? D({P(0), P(1)}) : D({P(0), P(1), P(2)});
        e["res"] = "ok";
        drop();
        d = std::move(n);
      } catch (const std::exception &) { e["res"] = "refused"; }
    } else if (op == "save") {
      slots[o["slot"]] = d;
    } else if (op == "restore") {
      drop();
      if (o.value("how", 0) == 0) d = slots[o["slot"]];
      else { D n(slots[o["slot"]]); d = std::move(n); }
    }
    if (quiet) { vt::emit(e); return; }
    e["obs"] = obs(d);
    if (op == "save" || op == "restore" || op == "write") { e["p"] = obs(slots["p"]); e["q"] = obs(slots["q"]); }
    vt::emit(e);
    if (have()) { deref(true); atend(); }
  }
};

template <class K> void run_program(const json &p, const bool last_only = false) {
  vt::emit({{"op", "reset"}});
  Machine<K> m;
  for (size_t i = 0; i < p.size(); ++i)
    m.run(p[i], last_only && i + 1 < p.size());
}

int main(int argc, char **argv) {
  const std::string mode = argv[1];
  if (mode == "gen") {
    universe = {"a", "b", "c"};
    long k = 0;
    const vt::Shard shard(argv[3]);
    for (const auto &p : vt::read_programs(argv[2]))
      if (const long id = k++; shard.mine(id)) {
        if (id % 2) run_program<std::string>(p, true);
        else run_program<Dim>(p, true);
      }
  } else {
    std::mt19937 rng(vt::seed() * 7919 + atoi(argv[2]));
    const int N = atoi(argv[3]), L = atoi(argv[4]);
    for (int i = 0; i < N; ++i) {
      const int nk = 1 + rng() % 12;
      universe.clear();
      for (int j = 0; j < nk; ++j) universe.push_back("k" + std::to_string(j));
      auto rk = [&] { return universe[rng() % nk]; };
      json prog = json::array();
      for (int s = 0; s < L; ++s) {
        const int c = rng() % 24;
        const int v = rng() % 50;
        if (c < 8) prog.push_back({{"op", "insert"}, {"k", rk()}, {"v", v}});
        else if (c < 10) prog.push_back({{"op", "erase"}, {"k", rk()}});
        else if (c < 12) prog.push_back({{"op", "extract"}, {"k", rk()}});
        else if (c == 12) prog.push_back({{"op", rng() % 4 ? "begin" : "clear"}});
        else if (c == 13) prog.push_back({{"op", "reserve"}, {"n", int(rng() % 20)}});
        else if (c < 16) prog.push_back({{"op", "find"}, {"k", rk()}});
        else if (c < 18) prog.push_back({{"op", "inc"}});
        else if (c == 18) prog.push_back({{"op", "set"}, {"k", rk()}, {"v", v}});
        else if (c == 19) prog.push_back({{"op", "write"}, {"v", v}});
        else if (c == 20) {
          json items = json::array();
          for (int n = rng() % 4; n > 0; --n) items.push_back({rk(), int(rng() % 9)});
          prog.push_back({{"op", "initlist"}, {"items", items}});
        } else if (c == 21) prog.push_back({{"op", "save"}, {"slot", rng() % 2 ? "p" : "q"}});
        else if (c == 22) prog.push_back({{"op", "restore"}, {"slot", rng() % 2 ? "p" : "q"}, {"how", int(rng() % 2)}});
        else prog.push_back({{"op", "begin"}});
      }
      if (i % 2) run_program<std::string>(prog);
      else run_program<Dim>(prog);
    }
  }
}
