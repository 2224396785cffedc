// P02: records what MultiIndex, ViewIndex (through ElementArrayView) visit.
#include "scipp/core/element_array_view.h"
#include "scipp/core/multi_index.h"
#include "vshape.h"
#include <algorithm>
using namespace scipp;
using namespace scipp::core;
using vt::emit;
using vt::json;
using Seq = std::vector<scipp::index>;
static std::mt19937 rng;
static int rnd(int lo, int hi) { return lo + int(rng() % unsigned(hi - lo + 1)); }

static const char *LABELS[] = {"a", "b", "c", "d", "e", "f", "g", "h", "i"};
static Dimensions mkdims(const Seq &shape) {
  Dimensions d;
  for (size_t i = 0; i < shape.size(); ++i)
    d.addInner(Dim(LABELS[i]), shape[i]);
  return d;
}
static Strides mkstr(const Seq &s) { return Strides(scipp::span<const scipp::index>(s.data(), s.size())); }
static json J(const Seq &s) { return vt::list(s); }
static scipp::index vol(const Seq &s) {
  scipp::index v = 1;
  for (auto x : s)
    v *= x;
  return v;
}
template <class A> static json tuple(const A &a) {
  json o = json::array();
  for (auto x : a)
    o.push_back(x);
  return o;
}
// The chunked loop of variable::transform
template <class MI> static json chunked(const MI &proto, scipp::index lo, scipp::index hi, bool toend = false) {
  json out = json::array();
  auto it = proto;
  it.set_index(lo);
  auto end = proto;
  if (toend)
    end.set_to_end();
  else
    end.set_index(hi);
  const auto st = it.inner_strides();
  long guard = 0;
  while (it != end && ++guard < 20000) {
    const auto n = it.in_same_chunk(end, 1) ? it.inner_distance_to(end) : it.inner_distance_to_end();
    auto idx = it.get();
    for (scipp::index i = 0; i < n; ++i) {
      out.push_back(tuple(idx));
      for (size_t k = 0; k < idx.size(); ++k)
        idx[k] += st[k];
    }
    it.increment_by(n != 0 ? n : 1);
  }
  if (guard >= 20000)
    out.push_back("runaway");
  return out;
}
template <class MI> static json stepped(const MI &proto) {
  json out = json::array();
  auto it = proto.begin();
  const auto end = proto.end();
  long guard = 0;
  while (it != end && ++guard < 20000) {
    out.push_back(tuple(it.get()));
    it.increment();
  }
  if (guard >= 20000)
    out.push_back("runaway");
  return out;
}

template <class F> static auto withN(const std::vector<Strides> &s, const Dimensions &d, F &&f) {
  switch (s.size()) {
  case 1:
    return f(MultiIndex(d, s[0]));
  case 2:
    return f(MultiIndex(d, s[0], s[1]));
  case 3:
    return f(MultiIndex(d, s[0], s[1], s[2]));
  case 4:
    return f(MultiIndex(d, s[0], s[1], s[2], s[3]));
  default:
    return f(MultiIndex(d, s[0], s[1], s[2], s[3], s[4]));
  }
}

static void dense(const Seq &shape, const std::vector<Seq> &strs, int nrange, int nwalk) {
  json js = json::array();
  std::vector<Strides> s;
  for (auto &x : strs) {
    js.push_back(J(x));
    s.push_back(mkstr(x));
  }
  const auto d = mkdims(shape);
  json head = {{"op", "dense"}, {"shape", J(shape)}, {"strides", js}, {"ok", true}};
  bool announced = false;
  try {
    withN(s, d, [&](auto mi) {
      emit(head);
      announced = true;
      const auto n = vol(shape);
      if (n == 0)
        return;
      emit({{"op", "all"}, {"m", stepped(mi)}});
      emit({{"op", "range"}, {"lo", 0}, {"hi", n}, {"m", chunked(mi, 0, n)}});
      emit({{"op", "range"}, {"lo", 0}, {"hi", n}, {"m", chunked(mi, 0, n, true)}});
      for (int i = 0; i < nrange; ++i) {
        const auto lo = rnd(0, int(n)), hi = rnd(lo, int(n));
        emit({{"op", "range"}, {"lo", lo}, {"hi", hi}, {"m", chunked(mi, lo, hi)}});
      }
      auto it = mi.begin();
      const auto end = mi.end();
      emit({{"op", "jump"}, {"i", 0}});
      for (int i = 0; i < nwalk; ++i) {
        const bool at = !(it != end);
        const int k = rnd(0, 9);
        if (k < 6 && !at) {
          it.increment();
          emit({{"op", "inc"}});
        } else if (k < 9) {
          const auto to = rnd(0, int(n));
          it.set_index(to);
          emit({{"op", "jump"}, {"i", to}});
        } else {
          it.set_to_end();
          emit({{"op", "end"}});
        }
        const bool now = !(it != end);
        emit({{"op", "atend"}, {"val", now}});
        if (!now)
          emit({{"op", "get"}, {"m", tuple(it.get())}, {"atend", now}});
      }
    });
  } catch (const std::exception &) {
    head["ok"] = announced ? json("threw later") : json(false);
    emit(head);
  }
}

// ---- views ---------------------------------------------------------------
static std::vector<int> g_buf;
constexpr int BUF = 4096;
static void view(const Seq &shape, const Seq &str, scipp::index off) {
  const auto d = mkdims(shape);
  json e = {{"op", "view"}, {"shape", J(shape)}, {"str", J(str)}, {"offset", off}, {"ok", true}};
  try {
    ElementArrayView<const int> v(g_buf.data() + BUF / 2, off, d, mkstr(str));
    json values = json::array(), byi = json::array(), rev = json::array(), adv = json::array();
    for (const auto &x : v)
      values.push_back(x);
    for (scipp::index i = 0; i < v.size(); ++i)
      byi.push_back(v[i]);
    for (auto it = v.end(); it != v.begin();) {
      --it;
      rev.push_back(*it);
    }
    e["values"] = values;
    e["byindex"] = byi;
    e["reversed"] = rev;
    e["distance"] = v.end() - v.begin();
    try {
      (void)v.as_span();
      e["contiguous"] = true;
    } catch (const std::exception &) {
      e["contiguous"] = false;
    }
    if (v.size()) {
      e["front"] = v.front();
      e["back"] = v.back();
    }
    emit(e);
    // stepping
    if (v.size()) {
      Seq s0(str);
      emit({{"op", "dense"}, {"shape", J(shape)}, {"strides", json::array({J(str)})}, {"ok", true}});
      auto it = v.begin();
      scipp::index pos = 0;
      for (int i = 0; i < 6; ++i) {
        const int k = rnd(0, 3);
        if (k == 0 && pos < v.size()) {
          ++it;
          ++pos;
          emit({{"op", "inc"}});
        } else if (k == 1 && pos > 0) {
          --it;
          --pos;
          emit({{"op", "dec"}});
        } else {
          const auto to = rnd(0, int(v.size()));
          it += to - pos;
          pos = to;
          emit({{"op", "jump"}, {"i", to}});
        }
        emit({{"op", "atend"}, {"val", it == v.end()}});
        if (pos < v.size())
          emit({{"op", "get"}, {"m", json::array({*it - off})}, {"atend", it == v.end()}});
      }
    }
  } catch (const std::exception &) {
    e["ok"] = false;
    emit(e);
  }
}
static void review(const json &from, const json &to, const Seq &str, scipp::index off) {
  json e = {{"op", "review"}, {"from", from}, {"to", to}, {"str", J(str)}, {"offset", off}, {"values", json::array()}};
  try {
    ElementArrayView<const int> v(g_buf.data() + BUF / 2, off, vt::dims(from), mkstr(str));
    ElementArrayView<const int> w(v, vt::dims(to));
    json values = json::array();
    for (const auto &x : w)
      values.push_back(x);
    e["values"] = values;
    e["ok"] = true;
  } catch (const std::exception &) {
    e["ok"] = false;
  }
  emit(e);
}
static void overlap(const Seq &sa, const Seq &ta, int oa, const Seq &sb, const Seq &tb, int ob) {
  ElementArrayView<int> a(g_buf.data() + BUF / 2, oa, mkdims(sa), mkstr(ta)), b(g_buf.data() + BUF / 2, ob, mkdims(sb), mkstr(tb));
  json ja = {{"shape", J(sa)}, {"str", J(ta)}, {"offset", oa}}, jb = {{"shape", J(sb)}, {"str", J(tb)}, {"offset", ob}};
  emit({{"op", "overlap"}, {"a", ja}, {"b", jb}, {"val", a.overlaps(b)}});
}

// ---- binned ----------------------------------------------------------------
struct Opnd {
  bool binned = true;
  Seq str, inner;
  std::vector<std::pair<scipp::index, scipp::index>> idx;
};
static void binned(const Seq &shape, const std::vector<Opnd> &ops, const Seq &inner, int sd, int nrange) {
  Dimensions in;
  const char *IL[] = {"p", "q", "r"};
  for (size_t i = 0; i < inner.size(); ++i)
    in.addInner(Dim(IL[i]), inner[i]);
  const auto d = mkdims(shape);
  json jo = json::array();
  std::vector<ElementArrayViewParams> params;
  for (auto &o : ops) {
    json idx = json::array();
    for (auto &p : o.idx)
      idx.push_back(json::array({p.first, p.second}));
    jo.push_back({{"binned", o.binned}, {"str", J(o.str)}, {"inner", J(o.inner)}, {"idx", idx}});
    BucketParams bp;
    if (o.binned)
      bp = BucketParams{Dim(IL[sd - 1]), in, mkstr(o.inner), o.idx.data()};
    params.emplace_back(0, d, mkstr(o.str), bp);
  }
  json head = {{"op", "binned"}, {"shape", J(shape)}, {"opnds", jo}, {"inner", J(inner)}, {"sd", sd}, {"ok", true}};
  const auto with = [&](auto f) {
    switch (params.size()) {
    case 1:
      return f(MultiIndex(params[0]));
    case 2:
      return f(MultiIndex(params[0], params[1]));
    case 3:
      return f(MultiIndex(params[0], params[1], params[2]));
    default:
      return f(MultiIndex(params[0], params[1], params[2], params[3]));
    }
  };
  bool announced = false;
  try {
    with([&](auto mi) {
      emit(head);
      announced = true;
      const auto n = vol(shape);
      emit({{"op", "all"}, {"m", stepped(mi)}});
      const auto range = [&](scipp::index lo, scipp::index hi) {
        json e = head;
        e["op"] = "binrange";
        e["lo"] = lo;
        e["hi"] = hi;
        e["m"] = chunked(mi, lo, hi, false);
        emit(e);
      };
      if (n > 0) {
        range(0, n);
        for (int i = 0; i < nrange; ++i) {
          const auto lo = rnd(0, int(n)), hi = rnd(lo, int(n));
          range(lo, hi);
        }
      }
      emit({{"op", "all"}, {"m", chunked(mi, 0, n, true)}});
      if (n > 0) {
        auto it = mi;
        const auto end = mi.end();
        for (int i = 0; i < 5; ++i) {
          const auto b = rnd(0, int(n));
          it.set_index(b);
          json e = head;
          e["op"] = "jumpbin";
          e["b"] = b;
          emit(e);
          emit({{"op", "atend"}, {"val", !(it != end)}});
          if (it != end && vol(inner) > 0) {
            emit({{"op", "get"}, {"m", tuple(it.get())}, {"atend", false}});
            it.increment();
            emit({{"op", "inc"}});
            emit({{"op", "atend"}, {"val", !(it != end)}});
            if (it != end)
              emit({{"op", "get"}, {"m", tuple(it.get())}, {"atend", false}});
          }
        }
      }
    });
  } catch (const std::exception &) {
    head["ok"] = announced ? json("threw later") : json(false);
    emit(head);
  }
}
// strides of a contiguous buffer whose dims are a permutation of the shape's
static Seq permuted(const Seq &shape) {
  std::vector<int> p(shape.size());
  for (size_t i = 0; i < p.size(); ++i)
    p[i] = int(i);
  std::shuffle(p.begin(), p.end(), rng);
  Seq s(shape.size());
  scipp::index m = 1;
  for (auto i : p) {
    s[i] = m;
    m *= std::max<scipp::index>(shape[i], 1);
  }
  return s;
}
// strides as they arise from slicing/transposing/broadcasting
static Seq real_strides(const Seq &shape) {
  Seq buf(shape);
  if (rnd(0, 2) == 0)
    for (auto &x : buf)
      x += rnd(0, 2) == 0;
  Seq s(shape.size());
  scipp::index m = 1;
  for (size_t i = shape.size(); i-- > 0;) {
    s[i] = m;
    m *= buf[i];
  }
  if (rnd(0, 3) == 0)
    s = permuted(buf);
  for (size_t i = 0; i < s.size(); ++i) {
    if (rnd(0, 4) == 0)
      s[i] = 0;
    if (rnd(0, 9) == 0)
      s[i] *= 2;
  }
  return s;
}
static Seq rshape(int nd, int cap, int lo = 1) {
  Seq s;
  scipp::index v = 1;
  for (int i = 0; i < nd; ++i) {
    auto e = rnd(lo, 3);
    if (rnd(0, 9) == 0)
      e = 5;
    if (v * e > cap)
      e = 1;
    v *= std::max(e, 1);
    s.push_back(e);
  }
  return s;
}
static void random_binned() {
  const int nd = rnd(0, 3);
  Seq shape;
  for (int i = 0; i < nd; ++i)
    shape.push_back(rnd(0, 11) == 0 ? 0 : rnd(1, 3));
  const auto n = vol(shape);
  const int ind = rnd(0, 3) == 0 ? rnd(2, 3) : 1;
  const int sd = rnd(1, ind);
  Seq rest;
  for (int i = 0; i < ind; ++i)
    rest.push_back(rnd(0, 14) == 0 ? 0 : rnd(1, 2));
  std::vector<Opnd> ops;
  const int nop = rnd(1, 3);
  std::vector<scipp::index> size(n);
  Seq inner(rest);
  inner[sd - 1] = rnd(4, 8);
  const auto pos = [&](const Seq &str, scipp::index b) {
    scipp::index m = 0;
    for (size_t i = shape.size(); i-- > 0;) {
      m += (b % shape[i]) * str[i];
      b /= shape[i];
    }
    return m;
  };
  int firstbinned = -1;
  for (int j = 0; j < nop; ++j) {
    Opnd o;
    o.binned = firstbinned < 0 ? (j == nop - 1 || rnd(0, 2) > 0) : rnd(0, 2) > 0;
    if (!o.binned) {
      o.str = real_strides(shape);
      o.inner = Seq{};
      ops.push_back(o);
      continue;
    }
    Seq buf(inner);
    buf[sd - 1] = rnd(4, 8);
    o.inner = Seq(ind);
    scipp::index m = 1;
    for (int i = ind; i-- > 0;) {
      o.inner[i] = m;
      m *= buf[i];
    }
    const bool first = firstbinned < 0;
    o.str = first && rnd(0, 2) == 0 ? real_strides(shape) : permuted(shape);
    scipp::index mx = 0;
    for (scipp::index b = 0; b < n; ++b)
      mx = std::max(mx, pos(o.str, b));
    o.idx.resize(mx + 1);
    for (auto &p : o.idx) {
      const auto k = rnd(0, 2) == 0 ? 0 : rnd(0, 3);
      p.first = rnd(0, int(buf[sd - 1]) - k);
      p.second = p.first + k;
    }
    if (first) {
      for (scipp::index b = 0; b < n; ++b) {
        auto &p = o.idx[pos(o.str, b)];
        size[b] = p.second - p.first;
      }
    } else {
      for (scipp::index b = 0; b < n; ++b) {
        auto &p = o.idx[pos(o.str, b)];
        p.first = rnd(0, int(buf[sd - 1] - size[b]));
        p.second = p.first + size[b];
      }
      if (n > 0 && rnd(0, 9) == 0) { // provoke a mismatch
        auto &p = o.idx[pos(o.str, rnd(0, int(n) - 1))];
        if (p.second > p.first)
          --p.second;
        else
          p = {0, 1};
      }
    }
    firstbinned = firstbinned < 0 ? j : firstbinned;
    ops.push_back(o);
  }
  if (firstbinned < 0)
    return;
  binned(shape, ops, inner, sd, 3);
}

int main(int argc, char **argv) {
  if (argc < 3)
    return 77;
  const std::string mode = argv[1];
  g_buf.resize(BUF);
  for (int i = 0; i < BUF; ++i)
    g_buf[i] = i - BUF / 2;
  if (mode == "gen") {
    const auto progs = vt::read_programs(argv[2]);
    const vt::Shard sh(argv[3]);
    rng.seed(vt::seed() * 77 + sh.i);
    long k = 0;
    for (const auto &p : progs) {
      if (!sh.mine(k++))
        continue;
      std::vector<Seq> strs;
      for (auto &s : p["strides"])
        strs.push_back(s.get<Seq>());
      const auto shape = p["shape"].get<Seq>();
      dense(shape, strs, 1, 2);
      view(shape, strs[0], 1);
    }
  } else {
    const int count = atoi(argv[2]);
    rng.seed(vt::seed() * 1000003u + atoi(argv[3]) * 7919u + 17);
    for (int i = 0; i < count; ++i) {
      if (mode == "binned") {
        random_binned();
      } else if (mode == "dense") {
        const int nd = rnd(0, 19) == 0 ? rnd(7, 8) : rnd(0, 6);
        const auto shape = rshape(nd, 60, rnd(0, 30) ? 1 : 0);
        std::vector<Seq> strs;
        const int n = rnd(1, 5);
        for (int j = 0; j < n; ++j)
          strs.push_back(real_strides(shape));
        dense(shape, strs, 2, 5);
      } else if (mode == "view") {
        const int nd = rnd(0, 19) == 0 ? rnd(7, 8) : rnd(0, 5);
        const auto shape = rshape(nd, 60, rnd(0, 10) ? 1 : 0);
        auto str = real_strides(shape);
        if (rnd(0, 3) == 0)
          for (auto &x : str)
            if (rnd(0, 2) == 0)
              x = -x;
        view(shape, str, rnd(0, 20));
        // other iteration dims
        json from = json::array(), to = json::array();
        Seq fs;
        const auto f = rshape(rnd(0, 4), 60);
        for (size_t k = 0; k < f.size(); ++k)
          from.push_back(json::array({LABELS[k], f[k]}));
        std::vector<int> p{0, 1, 2, 3, 4};
        std::shuffle(p.begin(), p.end(), rng);
        p.resize(rnd(0, 4));
        for (int k : p) {
          scipp::index e = k < int(f.size()) ? std::max<scipp::index>(1, f[k] - (rnd(0, 2) == 0) + (rnd(0, 19) == 0)) : rnd(1, 3);
          to.push_back(json::array({LABELS[k], e}));
        }
        review(from, to, real_strides(f), rnd(0, 20));
        const auto sa = rshape(rnd(0, 3), 30), sb = rnd(0, 2) ? rshape(rnd(0, 3), 30) : sa;
        auto ta = real_strides(sa), tb = rnd(0, 3) ? real_strides(sb) : real_strides(sb);
        if (sa == sb && rnd(0, 1))
          tb = ta;
        for (auto &x : ta)
          if (rnd(0, 5) == 0)
            x = -x;
        overlap(sa, ta, rnd(0, 12), sb, tb, rnd(0, 12));
      }
    }
  }
  return 0;
}
