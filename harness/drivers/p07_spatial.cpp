// P07: records compositions, inverses, comparisons, units and element access of
// spatial transforms, at the level of the core operators and of variables.
#include "scipp/core/eigen.h"
#include "scipp/core/spatial_transforms.h"
#include "scipp/variable/arithmetic.h"
#include "scipp/variable/comparison.h"
#include "scipp/variable/inv.h"
#include "scipp/variable/misc_operations.h"
#include "scipp/variable/shape.h"
#include "scipp/variable/structures.h"
#include "scipp/variable/to_unit.h"
#include "scipp/variable/variable.h"
#include "vtrace.h"
#include <variant>
using namespace scipp;
using namespace scipp::variable;
using namespace scipp::core;
using core::Quaternion;
using core::Translation;
using Eigen::Affine3d;
using Eigen::Matrix3d;
using Eigen::Vector3d;
using vt::attempt;
using vt::emit;
using vt::json;
using Any = std::variant<Quaternion, Matrix3d, Translation, Affine3d>;
static std::mt19937_64 rng;
static int rnd(int lo, int hi) { return lo + int(rng() % (unsigned)(hi - lo + 1)); }
static int G(double v) {
  const double r = std::round(v * 4096);
  return std::isnan(v) ? vt::NaN : std::abs(r) > 1.5e9 ? vt::Inexact : int(r);
}
static json V(const Vector3d &v) { return json::array({G(v[0]), G(v[1]), G(v[2])}); }
static int iabs(double v) { return int(std::lround(v)); }
static const Vector3d PTS[] = {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}};

static Any prim(const json &p) {
  const auto k = p["k"].get<std::string>();
  Matrix3d A = Matrix3d::Identity();
  Vector3d t(0, 0, 0);
  if (p.contains("A"))
    for (int i = 0; i < 3; ++i)
      for (int j = 0; j < 3; ++j)
        A(i, j) = p["A"][i][j].get<int>();
  if (p.contains("t"))
    for (int i = 0; i < 3; ++i)
      t[i] = p["t"][i].get<int>();
  if (k == "rot") {
    Eigen::Quaterniond q(p["q"][3].get<int>(), p["q"][0].get<int>(), p["q"][1].get<int>(), p["q"][2].get<int>());
    q.normalize();
    return Quaternion(q);
  }
  if (k == "lin")
    return A;
  if (k == "tr")
    return Translation(t);
  Affine3d a;
  a.matrix() = Eigen::Matrix4d::Identity();
  a.matrix().block<3, 3>(0, 0) = A;
  a.matrix().block<3, 1>(0, 3) = t;
  return a;
}
static Vector3d act1(const Any &T, const Vector3d &v) {
  return std::visit(
      [&](const auto &t) -> Vector3d {
        using X = std::decay_t<decltype(t)>;
        if constexpr (std::is_same_v<X, Matrix3d>)
          return Vector3d(t * v);
        else
          return t * v;
      },
      T);
}
static std::string kind(const Any &T) { return std::vector<std::string>{"rot", "lin", "tr", "aff"}[T.index()]; }
template <class T> static Any wrap(const T &x) { return Any(x); }
static Any mul(const Any &a, const Any &b) {
  return std::visit(
      [](const auto &x, const auto &y) -> Any {
        using R = std::decay_t<decltype(x * y)>;
        if constexpr (std::is_same_v<R, Quaternion> || std::is_same_v<R, Translation>)
          return x * y;
        else if constexpr (std::is_same_v<std::decay_t<decltype(x)>, Matrix3d> && std::is_same_v<std::decay_t<decltype(y)>, Matrix3d>)
          return Matrix3d(x * y);
        else
          return R(x * y);
      },
      a, b);
}
static Variable var(const Any &T) {
  return std::visit([](const auto &t) { return makeVariable<std::decay_t<decltype(t)>>(Values{t}, units::one); }, T);
}
static Any unvar(const Variable &v) {
  if (v.dtype() == dtype<Quaternion>)
    return v.value<Quaternion>();
  if (v.dtype() == dtype<Matrix3d>)
    return v.value<Matrix3d>();
  if (v.dtype() == dtype<Translation>)
    return v.value<Translation>();
  return v.value<Affine3d>();
}
static Variable vvec(const Vector3d &v) { return makeVariable<Vector3d>(Values{v}, units::one); }
static json act(const Any &T) {
  json o = json::array();
  for (const auto &p : PTS)
    o.push_back(V(act1(T, p)));
  return o;
}
static json vact(const Variable &T) {
  json o = json::array();
  for (const auto &p : PTS)
    o.push_back(V((T * vvec(p)).value<Vector3d>()));
  return o;
}
template <class X, class F> static X fold(const std::vector<X> &x, bool left, F mulf) {
  if (left) {
    auto r = x.front();
    for (size_t i = 1; i < x.size(); ++i)
      r = mulf(r, x[i]);
    return r;
  }
  auto r = x.back();
  for (size_t i = x.size() - 1; i-- > 0;)
    r = mulf(x[i], r);
  return r;
}
static Any inverse(const Any &T) {
  return std::visit([](const auto &t) -> Any {
    using X = std::decay_t<decltype(t)>;
    if constexpr (std::is_same_v<X, Matrix3d>)
      return Matrix3d(t.inverse());
    else
      return X(t.inverse());
  }, T);
}
static void chain(const json &parts, bool allow_inv = true) {
  std::vector<Any> a;
  std::vector<Variable> v;
  for (const auto &p : parts) {
    a.push_back(prim(p));
    v.push_back(var(a.back()));
  }
  for (const bool left : {true, false}) {
    const auto T = fold(a, left, mul);
    json seq = json::array();
    for (const auto &p : PTS) {
      Vector3d x = p;
      for (size_t i = a.size(); i-- > 0;)
        x = act1(a[i], x);
      seq.push_back(V(x));
    }
    emit({{"op", "compose"}, {"level", "core"}, {"parts", parts}, {"left", left}, {"kind", kind(T)}, {"act", act(T)}, {"seq", seq}});
    const auto U = fold(v, left, [](const Variable &x, const Variable &y) { return x * y; });
    json vseq = json::array();
    for (const auto &p : PTS) {
      auto x = vvec(p);
      for (size_t i = v.size(); i-- > 0;)
        x = v[i] * x;
      vseq.push_back(V(x.value<Vector3d>()));
    }
    emit({{"op", "compose"}, {"level", "var"}, {"parts", parts}, {"left", left}, {"kind", kind(unvar(U))}, {"act", vact(U)}, {"seq", vseq}});
    if (left && allow_inv) {
      const auto iT = inverse(T);
      auto comp = [&](const Any &x, const Any &y) {
        json o = json::array();
        for (const auto &p : PTS)
          o.push_back(V(act1(x, act1(y, p))));
        return o;
      };
      emit({{"op", "inv"}, {"level", "core"}, {"parts", parts}, {"kind", kind(iT)}, {"act", act(iT)}, {"round", comp(iT, T)}, {"round2", comp(T, iT)}});
      const auto iU = inv(U);
      emit({{"op", "inv"}, {"level", "var"}, {"parts", parts}, {"kind", kind(unvar(iU))}, {"act", vact(iU)}, {"round", vact(iU * U)}, {"round2", vact(U * iU)}});
    }
  }
}
static double detI(const json &A) {
  Matrix3d m;
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j)
      m(i, j) = A[i][j].get<int>();
  return m.determinant();
}
static json rprim(const std::string &k, int m = 2) {
  json p{{"k", k}};
  if (k == "rot") {
    json q;
    int n;
    do {
      q = json::array({rnd(-m, m), rnd(-m, m), rnd(-m, m), rnd(-m, m)});
      n = 0;
      for (const auto &c : q)
        n += c.get<int>() * c.get<int>();
    } while (n == 0 || n > 8);
    p["q"] = q;
  }
  if (k == "lin" || k == "aff") {
    json A;
    do {
      A = json::array();
      for (int i = 0; i < 3; ++i)
        A.push_back(json::array({rnd(-m, m), rnd(-m, m), rnd(-m, m)}));
    } while (std::abs(detI(A)) < 0.5 || std::abs(detI(A)) > 6.5);
    p["A"] = A;
  }
  if (k == "tr" || k == "aff")
    p["t"] = json::array({rnd(-3, 3), rnd(-3, 3), rnd(-3, 3)});
  return p;
}
static const std::vector<std::string> KINDS{"rot", "lin", "tr", "aff"};

// arrays: transforms[a] * transforms[b] * vectors[c], every element recorded
template <class A> static Variable arr(const Dim d, const std::vector<Any> &x) {
  element_array<A> e(scipp::size(x));
  for (size_t i = 0; i < x.size(); ++i)
    e.data()[i] = std::get<A>(x[i]);
  return makeVariable<A>(Dims{d}, Shape{scipp::size(x)}, Values(e.begin(), e.end()), units::one);
}
static Variable arr(const Dim d, const std::vector<Any> &x) {
  switch (x.front().index()) {
  case 0: return arr<Quaternion>(d, x);
  case 1: return arr<Matrix3d>(d, x);
  case 2: return arr<Translation>(d, x);
  default: return arr<Affine3d>(d, x);
  }
}
static void arrays(const std::string &ka, const std::string &kb) {
  json pa = json::array(), pb = json::array();
  std::vector<Any> a, b;
  for (int i = 0; i < 2; ++i) {
    pa.push_back(rprim(ka));
    a.push_back(prim(pa.back()));
  }
  for (int i = 0; i < 3; ++i) {
    pb.push_back(rprim(kb));
    b.push_back(prim(pb.back()));
  }
  const Dim A("a"), B("b"), P("p");
  const auto va = arr(A, a), vb = arr(B, b);
  auto pts = makeVariable<Vector3d>(Dims{P}, Shape{4}, Values{PTS[0], PTS[1], PTS[2], PTS[3]}, units::one);
  auto ab = va * vb;
  if (rnd(0, 1))
    ab = copy(transpose(ab));
  const auto r = ab * pts;
  const auto s = va * (vb * pts);
  const auto iab = inv(ab);
  for (int i = 0; i < 2; ++i)
    for (int j = 0; j < 3; ++j) {
      auto pick = [&](const Variable &v) {
        json o = json::array();
        for (int p = 0; p < 4; ++p)
          o.push_back(V(v.slice({A, i}).slice({B, j}).slice({P, p}).value<Vector3d>()));
        return o;
      };
      const json parts = json::array({pa[i], pb[j]});
      const auto el = ab.slice({A, i}).slice({B, j});
      emit({{"op", "compose"}, {"level", "array"}, {"parts", parts}, {"left", true}, {"kind", kind(unvar(el))}, {"act", pick(r)}, {"seq", pick(s)}});
      const auto ie = iab.slice({A, i}).slice({B, j});
      emit({{"op", "inv"}, {"level", "array"}, {"parts", parts}, {"kind", kind(unvar(ie))}, {"act", pick(iab * pts)}, {"round", pick(iab * r)}, {"round2", pick(ab * (iab * pts))}});
    }
}

// coefficients in storage order
static std::vector<double> coefs(const Any &T) {
  std::vector<double> c;
  if (T.index() == 0) {
    auto q = std::get<Quaternion>(T);
    for (int i = 0; i < 4; ++i)
      c.push_back(q(i));
  } else if (T.index() == 1)
    c.assign(std::get<Matrix3d>(T).data(), std::get<Matrix3d>(T).data() + 9);
  else if (T.index() == 2) {
    auto t = std::get<Translation>(T);
    for (int i = 0; i < 3; ++i)
      c.push_back(t(i));
  } else
    c.assign(std::get<Affine3d>(T).matrix().data(), std::get<Affine3d>(T).matrix().data() + 16);
  return c;
}
static Any from(const std::string &k, const std::vector<double> &c) {
  if (k == "rot") {
    Quaternion q;
    for (int i = 0; i < 4; ++i)
      q(i) = c[i];
    return q;
  }
  if (k == "lin")
    return Matrix3d(Eigen::Map<const Matrix3d>(c.data()));
  if (k == "tr") {
    Translation t;
    for (int i = 0; i < 3; ++i)
      t(i) = c[i];
    return t;
  }
  Affine3d a;
  a.matrix() = Eigen::Map<const Eigen::Matrix4d>(c.data());
  return a;
}
static int ncoef(const std::string &k) { return k == "rot" ? 4 : k == "lin" ? 9 : k == "tr" ? 3 : 16; }
static std::vector<double> rcoefs(const std::string &k) {
  std::vector<double> c(ncoef(k));
  for (auto &x : c)
    x = rnd(-3, 3);
  if (k == "aff")
    c[3] = c[7] = c[11] = 0, c[15] = 1;
  return c;
}
static json ints(const std::vector<double> &c) {
  json o = json::array();
  for (auto x : c)
    o.push_back(std::isnan(x) ? vt::NaN : iabs(x));
  return o;
}
static const units::Unit UN[] = {units::one, units::m, units::s};
static const json UE[] = {json::array({0, 0}), json::array({1, 0}), json::array({0, 1})};
static json uexp(const units::Unit &u) {
  for (int i = -2; i <= 2; ++i)
    for (int j = -2; j <= 2; ++j) {
      auto x = units::one;
      for (int n = 0; n < std::abs(i); ++n)
        x = i > 0 ? x * units::m : x / units::m;
      for (int n = 0; n < std::abs(j); ++n)
        x = j > 0 ? x * units::s : x / units::s;
      if (u == x)
        return json::array({i, j});
    }
  return json::array({99, 99});
}
static void equality(const std::string &ka, const std::string &kb, const std::vector<double> &a, const std::vector<double> &b, int ua, int ub) {
  const auto x = from(ka, a), y = from(kb, b);
  auto vx = var(x), vy = var(y);
  vx.setUnit(UN[ua]);
  vy.setUnit(UN[ub]);
  bool eq = false, ne = true, nan = false;
  for (auto c : a)
    nan |= std::isnan(c);
  if (ka == kb) {
    std::visit(
        [&](const auto &p) {
          using namespace numeric;
          using X = std::decay_t<decltype(p)>;
          const auto &q = std::get<X>(y);
          eq = p == q;
          ne = p != q;
        },
        x);
    if (ua == ub) {
      const bool e2 = equal(vx, vy).value<bool>(), n2 = not_equal(vx, vy).value<bool>();
      emit({{"op", "eq"}, {"ka", ka}, {"kb", kb}, {"a", ints(a)}, {"b", ints(b)}, {"ua", ua}, {"ub", ub}, {"nan", nan}, {"eq", e2}, {"ne", n2}, {"veq", vx == vy}, {"vne", vx != vy}});
    }
  }
  emit({{"op", "eq"}, {"ka", ka}, {"kb", kb}, {"a", ints(a)}, {"b", ints(b)}, {"ua", ua}, {"ub", ub}, {"nan", nan}, {"eq", eq}, {"ne", ne}, {"veq", vx == vy}, {"vne", vx != vy}});
}
template <class T> static json putelem(const std::string &k, const Variable &v0, const std::string &key, const json &a) {
  auto v = copy(v0);
  const auto n = v.dims().volume();
  json put = json::array();
  const auto el = attempt([&] {
    const auto e = v.elements<T>(key);
    json o = json::array();
    for (const auto &x : e.template values<double>())
      o.push_back(iabs(x));
    return o;
  });
  json rec{{"op", "elem"}, {"k", k}, {"key", key}, {"a", a}, {"got", el}};
  if (el != "refused") {
    auto e = v.elements<T>(key);
    rec["unit"] = uexp(e.unit());
    auto w = e.template values<double>();
    int i = 100;
    for (auto &x : w) {
      put.push_back(i);
      x = i++;
    }
    json after = json::array();
    for (const auto &m : v.values<T>()) {
      json c = json::array();
      for (int j = 0; j < (k == "vec" ? 3 : 9); ++j)
        c.push_back(iabs(m.data()[j]));
      after.push_back(c);
    }
    rec["after"] = after;
  }
  rec["put"] = put;
  rec["u"] = uexp(v0.unit());
  (void)n;
  return rec;
}

int main(int argc, char **argv) {
  const std::string mode = argv[1];
  const vt::Shard sh(argv[2]);
  const int m = argc > 3 ? atoi(argv[3]) : 1;
  rng.seed(vt::seed() * 7919 + sh.i);
  if (mode == "programs") {
    long k = 0;
    for (const auto &p : vt::read_programs(argv[4]))
      if (sh.mine(k++) && (m > 1 || k <= 260 || k % 4 == int(vt::seed() % 4)))
        chain(p["parts"]);
    return 0;
  }
  if (mode == "random") {
    for (int i = 0; i < 60 * m; ++i) {
      json parts = json::array();
      const int n = rnd(1, 3);
      for (int j = 0; j < n; ++j)
        parts.push_back(rprim(KINDS[rnd(0, 3)]));
      chain(parts);
    }
    for (int i = 0; i < m; ++i)
      for (const auto &a : KINDS)
        for (const auto &b : KINDS)
          arrays(a, b);
    return 0;
  }
  // "parts": everything that is not a chain
  for (int i = 0; i < 300 * m; ++i) {
    std::vector<double> a(4), b(4);
    for (auto *x : {&a, &b})
      do
        for (auto &c : *x)
          c = rnd(-9, 9);
      while (std::all_of(x->begin(), x->end(), [](double c) { return c == 0; }));
    const auto p = std::get<Quaternion>(from("rot", a)), q = std::get<Quaternion>(from("rot", b));
    auto G4 = [](const Any &x) {
      json o = json::array();
      for (auto c : coefs(x))
        o.push_back(G(c));
      return o;
    };
    emit({{"op", "qmul"}, {"a", ints(a)}, {"b", ints(b)}, {"out", G4(p * q)}});
    emit({{"op", "qinv"}, {"a", ints(a)}, {"out", G4(p.inverse())}});
    emit({{"op", "qmul"}, {"a", ints(a)}, {"b", ints(b)}, {"out", G4(unvar(var(p) * var(q)))}});
    emit({{"op", "qinv"}, {"a", ints(a)}, {"out", G4(unvar(inv(var(p))))}});
  }
  for (int i = 0; i < m; ++i)
    for (const auto &k : KINDS) {
      const auto a = rcoefs(k);
      equality(k, k, a, a, 0, 0);
      equality(k, k, a, a, 1, 1);
      equality(k, k, a, a, 0, 1);
      for (int j = 0; j < ncoef(k); ++j) {
        auto b = a;
        b[j] += rnd(0, 1) ? 1 : -1;
        equality(k, k, a, b, 1, 1);
        equality(k, k, b, a, 0, 0);
        b = a;
        b[j] = std::nan("");
        equality(k, k, b, b, 0, 0);
        if (a[j] != 0) {
          b = a;
          b[j] = -a[j];
          equality(k, k, b, a, 0, 0);
        }
      }
      for (const auto &k2 : KINDS)
        if (k2 != k)
          equality(k, k2, a, rcoefs(k2), 0, 0);
      if (k == "rot") {
        auto b = a;
        for (auto &c : b)
          c = -c;
        equality(k, k, a, b, 0, 0);
      }
      // closeness: one coefficient off by 0, 1 or 2 with absolute tolerance 1
      for (int j = 0; j < ncoef(k); ++j)
        for (int d = -2; d <= 2; ++d) {
          auto b = a;
          b[j] += d;
          const auto r = isclose(var(from(k, a)), var(from(k, b)), makeVariable<double>(Values{0.0}, units::one), makeVariable<double>(Values{1.0}, units::one));
          emit({{"op", "close"}, {"k", k}, {"a", ints(a)}, {"b", ints(b)}, {"tol", 1}, {"out", r.value<bool>()}});
        }
      // making variables from flat coefficients
      const auto e = coefs(from(k, a));
      auto arr = element_array<double>(e.begin(), e.end());
      const Dimensions sc;
      Variable mk = k == "rot" ? make_rotations(sc, units::one, std::move(arr)) : k == "lin" ? make_matrices(sc, units::one, std::move(arr)) : k == "tr" ? make_translations(sc, units::one, std::move(arr)) : make_affine_transforms(sc, units::one, std::move(arr));
      json out = json::array();
      if (k == "rot") {
        const auto q = mk.value<Quaternion>().quat();
        out = json::array({iabs(q.x()), iabs(q.y()), iabs(q.z()), iabs(q.w())});
      } else if (k == "tr") {
        const auto t = mk.value<Translation>().vector();
        out = json::array({iabs(t.x()), iabs(t.y()), iabs(t.z())});
      } else if (k == "lin")
        for (int r = 0; r < 3; ++r) {
          json row = json::array();
          for (int c = 0; c < 3; ++c)
            row.push_back(iabs(mk.value<Matrix3d>()(r, c)));
          out.push_back(row);
        }
      else
        for (int r = 0; r < 4; ++r) {
          json row = json::array();
          for (int c = 0; c < 4; ++c)
            row.push_back(iabs(mk.value<Affine3d>().matrix()(r, c)));
          out.push_back(row);
        }
      emit({{"op", "make"}, {"k", k}, {"a", ints(a)}, {"out", out}});
      // conversion of the unit
      auto v = var(from(k, a));
      v.setUnit(units::m);
      emit({{"op", "tounit"}, {"k", k}, {"a", ints(a)}, {"scale", 1000}, {"out", attempt([&] { return ints(coefs(unvar(to_unit(v, units::Unit("mm"))))); })}});
      if (k == "rot")
        for (int j = -1; j <= 5; ++j)
          emit({{"op", "index"}, {"k", k}, {"a", ints(a)}, {"i", j}, {"out", attempt([&] { auto q = std::get<Quaternion>(from(k, a)); return json(iabs(q(j))); })}});
    }
  for (int i = 0; i < m; ++i) {
    // element access, also through slices
    for (int un = 0; un < 3; ++un) {
      std::vector<double> flat;
      json a = json::array(), b = json::array();
      for (int j = 0; j < 4; ++j) {
        json c = json::array();
        for (int x = 0; x < 9; ++x)
          c.push_back(rnd(-9, 9)), flat.push_back(c.back().get<int>());
        a.push_back(c);
      }
      const Dim X("x");
      auto mats = make_matrices(Dimensions(X, 4), UN[un], element_array<double>(flat.begin(), flat.end()));
      for (const auto key : {"xx", "xy", "xz", "yx", "yy", "yz", "zx", "zy", "zz", "x", "w", ""}) {
        emit(putelem<Matrix3d>("lin", mats, key, a));
        emit(putelem<Matrix3d>("lin", mats.slice({X, 1, 3}), key, json::array({a[1], a[2]})));
        emit(putelem<Matrix3d>("lin", mats.slice({X, 3}), key, json::array({a[3]})));
      }
      auto vecs = make_vectors(Dimensions(X, 12), UN[un], element_array<double>(flat.begin(), flat.end()));
      json av = json::array();
      for (int j = 0; j < 12; ++j)
        av.push_back(json::array({flat[3 * j], flat[3 * j + 1], flat[3 * j + 2]}));
      for (auto &r : av)
        for (auto &c : r)
          c = iabs(c.get<double>());
      for (const auto key : {"x", "y", "z", "xx", "w"}) {
        emit(putelem<Vector3d>("vec", vecs, key, av));
        emit(putelem<Vector3d>("vec", vecs.slice({X, 2, 9, 3}), key, json::array({av[2], av[5], av[8]})));
      }
      for (int j = 0; j < 12; ++j)
        emit({{"op", "make"}, {"k", "vec"}, {"a", av[j]}, {"out", json::array({iabs(vecs.slice({X, j}).value<Vector3d>()[0]), iabs(vecs.slice({X, j}).value<Vector3d>()[1]), iabs(vecs.slice({X, j}).value<Vector3d>()[2])})}});
      const auto pos = geometry::position(vecs.elements<Vector3d>("x"), vecs.elements<Vector3d>("y"), vecs.elements<Vector3d>("z"));
      for (int j = 0; j < 12; ++j)
        emit({{"op", "make"}, {"k", "vec"}, {"a", av[j]}, {"out", json::array({iabs(pos.slice({X, j}).value<Vector3d>()[0]), iabs(pos.slice({X, j}).value<Vector3d>()[1]), iabs(pos.slice({X, j}).value<Vector3d>()[2])})}});
    }
    // units of products
    for (const auto &ka : KINDS)
      for (int ua = 0; ua < 3; ++ua) {
        auto a = var(prim(rprim(ka)));
        a.setUnit(UN[ua]);
        emit({{"op", "invunit"}, {"k", ka}, {"u", UE[ua]}, {"out", uexp(inv(a).unit())}});
        for (int kb = 0; kb < 5; ++kb)
          for (int ub = 0; ub < 3; ++ub) {
            auto b = kb == 4 ? vvec(PTS[1]) : var(prim(rprim(KINDS[kb])));
            b.setUnit(UN[ub]);
            emit({{"op", "unit"}, {"ka", ka}, {"kb", kb == 4 ? "vec" : KINDS[kb]}, {"ua", UE[ua]}, {"ub", UE[ub]}, {"out", attempt([&] { return uexp((a * b).unit()); })}});
          }
      }
  }
  return 0;
}
