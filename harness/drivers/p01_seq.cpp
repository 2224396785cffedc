// Sequential histories over predefined, custom, adversarial names, the
// registry limit, and free-running threads (built with ThreadSanitizer).
#include <atomic>
#include <random>
#include <set>
#include <thread>

#include "scipp/units/dim.h"
#include "vtrace.h"
using namespace scipp;
using vt::json;

static void rec(const std::string &label) {
  const Dim d(label);
  vt::emit({{"op", "intern"}, {"label", label}, {"id", int(d.id())}, {"name", d.name()}});
}
static void cmp(const std::string &a, const std::string &b) {
  const Dim x(a), y(b);
  rec(a);
  rec(b);
  vt::emit({{"op", "cmp"}, {"a", a}, {"b", b}, {"eq", x == y}, {"ne", x != y}, {"lt", x < y}, {"gt", y < x}});
}

int main(int argc, char **argv) {
  const std::string mode = argv[1];
  vt::emit({{"op", "reset"}});
  const std::vector<std::pair<Dim, std::string>> consts{
      {Dim::Energy, "energy"}, {Dim::Event, "event"}, {Dim::Group, "group"},
      {Dim::Position, "position"}, {Dim::Row, "row"}, {Dim::Temperature, "temperature"},
      {Dim::Time, "time"}, {Dim::Wavelength, "wavelength"}, {Dim::X, "x"}, {Dim::Y, "y"}, {Dim::Z, "z"}};
  auto record_consts = [&] {
    for (const auto &[d, n] : consts)
      vt::emit({{"op", "const"}, {"label", n}, {"id", int(d.id())}, {"name", d.name()}});
  };
  std::mt19937 rng(vt::seed());
  if (mode == "seq") {
    if (vt::seed() % 2)
      record_consts();
    std::vector<std::string> names{"", " ", "x", "X", "xx", "x ", " x", "y", "z", "row", "Row", "unreachable",
                                   "<invalid>", "<none>", "<internal_sort>", "<internal_bin_fine>", "dim_0", "dim_1",
                                   "\xc2\xb5s", "time", "Time", "a\tb", "long" + std::string(300, 'q'), "1000", "0"};
    for (int i = 0; i < 40; ++i) {
      std::string s;
      for (int n = rng() % 3 + 1; n > 0; --n)
        s += char('a' + rng() % 3);
      names.push_back(s);
    }
    for (int i = 0; i < 3000; ++i)
      if (rng() % 3)
        rec(names[rng() % names.size()]);
      else
        cmp(names[rng() % names.size()], names[rng() % names.size()]);
    record_consts();
  } else if (mode == "limit") {
    // fill the registry
    for (int i = 0; i < 50; ++i)
      rec("pre" + std::to_string(i));
    record_consts();
    std::set<int> pre;
    for (int i = 0; i < 50; ++i)
      pre.insert(int(Dim("pre" + std::to_string(i)).id()));
    for (auto &[d, n] : consts)
      pre.insert(int(d.id()));
    std::set<int> ids;
    int n = 0, clash = 0, badname = 0, maxid = 0;
    bool refused = false;
    std::string r;
    for (int i = 0; i < 70000 && !refused; ++i) {
      const auto label = "fill" + std::to_string(i);
      try {
        const Dim d(label);
        ++n;
        ids.insert(int(d.id()));
        maxid = std::max(maxid, int(d.id()));
        clash += pre.count(int(d.id()));
        if (i % 499 == 0)
          badname += d.name() != label;
      } catch (const std::exception &) {
        refused = true;
        r = label;
      }
    }
    vt::emit({{"op", "fill"}, {"n", n}, {"distinct", int(ids.size())}, {"clash", clash}, {"badname", badname}});
    for (int rep = 0; rep < 3; ++rep)
      for (const auto &label : {r, std::string("other"), std::string("other2")}) {
        try {
          const Dim d(label);
          vt::emit({{"op", "intern"}, {"label", label}, {"id", int(d.id())}, {"name", d.name()}});
          if (ids.count(int(d.id())))
            vt::emit({{"op", "fill"}, {"n", 1}, {"distinct", 1}, {"clash", 1}, {"badname", 0}});
        } catch (const std::exception &) {
          vt::emit({{"op", "refused"}, {"label", label}, {"full", n > 1000}});
        }
      }
    for (int i = 0; i < 50; ++i)
      rec("pre" + std::to_string(i));
    record_consts();
  } else { // threads
    const int T = 6, rounds = atoi(argv[2]);
    for (int r = 0; r < rounds; ++r) {
      std::vector<std::vector<json>> out(T);
      std::vector<std::thread> ts;
      std::atomic<int> ready{0};
      for (int t = 0; t < T; ++t)
        ts.emplace_back([&, t] {
          ++ready;
          while (ready < T)
            ;
          for (int i = 0; i < 8; ++i) {
            const auto label = "r" + std::to_string(r) + "_" + std::to_string((i + t % 2) % 5);
            try {
              const Dim d(label);
              const auto id = int(d.id());
              out[t].push_back({{"op", "intern"}, {"label", label}, {"id", id}, {"name", d.name()}});
            } catch (const std::exception &) {
              out[t].push_back({{"op", "refused"}, {"label", label}, {"full", false}});
            }
          }
          out[t].push_back({{"op", "const"}, {"label", "x"}, {"id", int(Dim("x").id())}, {"name", Dim(Dim::X).name()}});
        });
      for (auto &t : ts)
        t.join();
      vt::emit({{"op", "reset"}});
      for (auto &o : out)
        for (auto &j : o)
          vt::emit(j);
    }
  }
}
