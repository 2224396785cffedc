// P06: records results of ValueAndVariance arithmetic, integer maths and
// sequence tests.  Inputs are quarter integers, outputs round(4096 x).
#include "scipp/common/numeric.h"
#include "scipp/core/value_and_variance.h"
#include "vtrace.h"
#include <cstdint>
#include <vector>
using namespace scipp;
using vt::emit;
using vt::json;
static std::mt19937_64 rng;
static long rnd(long lo, long hi) { return lo + long(rng() % (unsigned long)(hi - lo + 1)); }
static int out(double v) {
  if (std::isnan(v))
    return vt::NaN;
  if (std::isinf(v))
    return v > 0 ? vt::PosInf : vt::NegInf;
  const double r = std::round(v * 4096);
  return std::abs(r) > 1.5e9 ? vt::Inexact : int(r);
}
template <class T> static json O(const T &x) {
  if constexpr (is_ValueAndVariance_v<T>)
    return json::array({out(double(x.value)), out(double(x.variance))});
  else
    return json::array({out(double(x)), 0});
}
static const std::vector<int> VALS{-12, -8, -6, -4, -2, -1, 0, 1, 2, 4, 6, 8, 12};
static const std::vector<int> VARS{0, 1, 4, 8};

template <class A, class B> static json apply(const char *f, const A &a, const B &b) {
  switch (f[0]) {
  case 'a':
    return O(a + b);
  case 's':
    return O(a - b);
  case 'm':
    return O(a * b);
  default:
    return O(a / b);
  }
}
template <class A, class B> static json inplace(const char *f, A a, const B &b) {
  switch (f[0]) {
  case 'a':
    a += b;
    break;
  case 's':
    a -= b;
    break;
  case 'm':
    a *= b;
    break;
  default:
    a /= b;
  }
  return O(a);
}
static const char *F[] = {"add", "sub", "mul", "div"};
template <class A, class B>
static void bin(const A &a, const B &b, json ja, json jb) {
  for (auto f : F) {
    const auto o = apply(f, a, b);
    auto ip = o;
    if constexpr (is_ValueAndVariance_v<A>)
      ip = inplace(f, a, b);
    emit({{"op", "bin"}, {"f", f}, {"a", ja}, {"b", jb}, {"bsign", 1}, {"out", o}, {"inplace", ip}});
  }
}
template <class A, class B> static void cmp(const A &a, const B &b, json ja, json jb) {
  emit({{"op", "cmp"}, {"a", ja}, {"b", jb}, {"lt", bool(a < b)}, {"gt", bool(a > b)}, {"eq", bool(a == b)}, {"ne", bool(a != b)}, {"le", bool(a <= b)}, {"ge", bool(a >= b)}});
}
template <class T1, class T2> static void binVV(int a, int va, int b, int vb) {
  const ValueAndVariance<T1> x(T1(a / 4.), T1(va / 4.));
  const ValueAndVariance<T2> y(T2(b / 4.), T2(vb / 4.));
  const json ja = json::array({a, va}), jb = json::array({b, vb});
  bin(x, y, ja, jb);
  if (rnd(0, 3) == 0)
    cmp(x, y, ja, jb);
  if constexpr (std::is_same_v<T1, T2>) {
    if (rnd(0, 2) == 0)
      emit({{"op", "minmax"}, {"a", ja}, {"b", jb}, {"min", O(min(x, y))}, {"max", O(max(x, y))}});
  }
}
template <class T, class S> static void binVS(int a, int va, int b) {
  if (std::is_integral_v<S> && b % 4)
    return;
  const ValueAndVariance<T> x(T(a / 4.), T(va / 4.));
  const S y = S(b / 4.);
  const json ja = json::array({a, va}), jb = json::array({b, 0});
  bin(x, y, ja, jb);
  if (!(std::is_integral_v<S> && b == 0))
    bin(y, x, jb, ja);
  else
    bin(S(0), x, jb, ja);
  if (rnd(0, 3) == 0) {
    cmp(x, y, ja, jb);
    cmp(y, x, jb, ja);
  }
}
template <class T> static void unary(int a, int va) {
  using std::abs;
  const ValueAndVariance<T> x(T(a / 4.), T(va / 4.));
  const json ja = json::array({a, va});
  const auto un = [&](const char *f, json o) { emit({{"op", "un"}, {"f", f}, {"a", ja}, {"out", o}}); };
  un("neg", O(-x));
  un("abs", O(abs(x)));
  for (int n = -3; n <= 4; ++n) {
    if (a == 0 && (n <= 0))
      continue; // pole or indeterminate derivative
    emit({{"op", "un"}, {"f", "pow"}, {"a", ja}, {"n", n}, {"out", O(pow(x, n))}});
    emit({{"op", "un"}, {"f", "pow"}, {"a", ja}, {"n", n}, {"out", O(pow(x, int64_t(n)))}});
    emit({{"op", "un"}, {"f", "pow"}, {"a", ja}, {"n", n}, {"out", O(pow(x, double(n)))}});
  }
  if (a != 0) { // sqrt of the square of a/4
    const ValueAndVariance<T> sq(T(a / 4. * a / 4.), T(va / 4.));
    emit({{"op", "un"}, {"f", "sqrt"}, {"root", std::abs(a)}, {"a", ja}, {"out", O(sqrt(sq))}});
  }
  if (a == 0)
    un("exp0", O(exp(x)));
  if (a == 4)
    un("log1", O(log(x)));
  ValueAndVariance<float> y(1.f, 2.f);
  y = x;
  un("assign", O(y));
  un("assign", O(static_cast<ValueAndVariance<double>>(x)));
  y = T(a / 4.);
  un("exact", O(y));
  un("exact", O(ValueAndVariance<T>(a / 4.)));
}

// ---- integers ---------------------------------------------------------------
static json big(__int128 v) {
  const int s = v == 0 ? 0 : v < 0 ? -1 : 1;
  unsigned __int128 u = v < 0 ? -(unsigned __int128)v : v;
  json m = json::array();
  for (; u; u /= 1000)
    m.push_back(int(u % 1000));
  return json::array({s, m});
}
template <class T, class S> static void fdiv(T a, S b) {
  using C = std::common_type_t<T, S>;
  if (b == S(-1) && C(a) == std::numeric_limits<C>::min())
    return; // result not representable
  emit({{"op", "fdiv"}, {"a", big(a)}, {"b", big(b)}, {"q", big(numeric::floor_divide(a, b))}, {"r", big(numeric::remainder(a, b))}});
}
template <class T> static T anyint() {
  const int k = int(rnd(0, 5));
  const auto lim = std::numeric_limits<T>::max();
  if (k == 0)
    return T(rnd(-7, 7));
  if (k == 1)
    return T(rnd(0, 1) ? lim - rnd(0, 9) : -lim + rnd(0, 9));
  if (k == 2)
    return std::numeric_limits<T>::min() + T(rnd(0, 2));
  const int bits = int(rnd(1, sizeof(T) * 8 - 1));
  const T v = T(rng() & ((bits == 63 ? ~0ull >> 1 : (1ull << bits) - 1)));
  return rnd(0, 1) ? v : T(-v);
}
template <class B> static void ipow(B b, int n) {
  __int128 r = 1;
  for (int i = 0; i < n; ++i) {
    r *= b;
    if (r > std::numeric_limits<B>::max() || r < -__int128(std::numeric_limits<B>::max()))
      return;
  }
  emit({{"op", "ipow"}, {"b", big(b)}, {"n", n}, {"r", big(numeric::pow(b, n))}});
  emit({{"op", "ipow"}, {"b", big(b)}, {"n", n}, {"r", big(numeric::pow(b, int64_t(n)))}});
}
// value and variance chosen such that every result is exactly representable
template <class R> static json bigU(const R &r) {
  const auto one = [](double v) {
    return std::isfinite(v) && v == std::floor(v) && std::abs(v) < 1e37 ? big(__int128(v)) : json("bad");
  };
  return json::array({one(double(r.value)), one(double(r.variance))});
}
template <class T, class S> static void bigbin() {
  constexpr int sbits = std::is_same_v<T, float> ? 20 : std::is_same_v<S, int32_t> ? 30 : 50;
  const int j = int(rnd(0, sbits - 4));
  const long odd = rnd(1, 7), m = rnd(-5, 5), n = rnd(0, 5);
  const __int128 b = (__int128(odd) << j) * (rnd(0, 1) ? 1 : -1);
  const S y = S(b);
  const auto ev = [&](const char *f, __int128 av, __int128 ae, auto &&call) {
    const ValueAndVariance<T> x{T(av), T(ae)};
    emit({{"op", "bigbin"}, {"f", f}, {"a", json::array({big(av), big(ae)})}, {"b", big(b)}, {"out", bigU(call(x))}});
  };
  ev("mul", m, n, [&](auto x) { return x * y; });
  ev("mul", m, n, [&](auto x) { return y * x; });
  ev("mul", m, n, [&](auto x) { x *= y; return x; });
  ev("add", m, n, [&](auto x) { return x + y; });
  ev("add", m, n, [&](auto x) { return y + x; });
  ev("sub", m, n, [&](auto x) { return x - y; });
  ev("div", b * m, b * b * n, [&](auto x) { return x / y; });
  ev("div", b * m, b * b * n, [&](auto x) { x /= y; return x; });
  if (odd == 1 && 2 * j < 60 && m != 0 && sbits > 20) { // y / x: x = m', variance n
    const ValueAndVariance<T> x{T(__int128(1) << (j / 2)), T(n)};
    emit({{"op", "bigbin"}, {"f", "rdiv"}, {"a", json::array({big(__int128(1) << (j / 2)), big(n)})}, {"b", big(b)}, {"out", bigU(y / x)}});
  }
}
// ---- sequences ---------------------------------------------------------------
static json J(const std::vector<int> &x) {
  json o = json::array();
  for (int v : x)
    o.push_back(v);
  return o;
}
static void seq(const std::vector<int> &x) {
  const auto J_ = J(x);
  const std::vector<int32_t> i(x.begin(), x.end());
  const std::vector<int64_t> l(x.begin(), x.end());
  std::vector<double> d;
  std::vector<float> f;
  for (auto v : x) {
    d.push_back(v / 4.);
    f.push_back(v / 4.f);
  }
  emit({{"op", "lin"}, {"x", J_}, {"out", numeric::islinspace(i)}});
  emit({{"op", "lin"}, {"x", J_}, {"out", numeric::islinspace(l)}});
  emit({{"op", "lin"}, {"x", J_}, {"out", numeric::islinspace(d)}});
  emit({{"op", "lin"}, {"x", J_}, {"out", numeric::islinspace(f)}});
  emit({{"op", "arange"}, {"x", J_}, {"out", numeric::isarange(i)}});
  emit({{"op", "arange"}, {"x", J_}, {"out", numeric::isarange(l)}});
}
template <class T> static void classify(T x) {
  const ValueAndVariance<T> v(x, T(1));
  emit({{"op", "class"}, {"x", out(x)}, {"negzero", x == 0 && std::signbit(x)}, {"isnan", numeric::isnan(x)}, {"isinf", numeric::isinf(x)}, {"isfinite", numeric::isfinite(x)}, {"signbit", numeric::signbit(x)}, {"isposinf", isposinf(v)}, {"isneginf", isneginf(v)}});
  emit({{"op", "class"}, {"x", out(x)}, {"negzero", x == 0 && std::signbit(x)}, {"isnan", isnan(v)}, {"isinf", isinf(v)}, {"isfinite", isfinite(v)}, {"signbit", signbit(v)}, {"isposinf", isposinf(v)}, {"isneginf", isneginf(v)}});
}

int main(int argc, char **argv) {
  if (argc < 3)
    return 77;
  const std::string mode = argv[1];
  const vt::Shard sh(argv[2]);
  const int mult = argc > 3 ? atoi(argv[3]) : 1;
  rng.seed(vt::seed() * 1009 + sh.i * 31 + mode.size());
  long k = 0;
  if (mode == "vv") {
    for (int a : VALS)
      for (int va : VARS)
        for (int b : VALS)
          for (int vb : VARS) {
            if (!sh.mine(k++))
              continue;
            for (int m = 0; m < mult; ++m)
              switch (mult > 1 ? m % 4 : rnd(0, 3)) {
              case 0:
                binVV<double, double>(a, va, b, vb);
                break;
              case 1:
                binVV<float, float>(a, va, b, vb);
                break;
              case 2:
                binVV<double, float>(a, va, b, vb);
                break;
              default:
                binVV<float, double>(a, va, b, vb);
              }
          }
  } else if (mode == "vs") {
    for (int a : VALS)
      for (int va : VARS) {
        if (sh.mine(k++)) {
          unary<double>(a, va);
          unary<float>(a, va);
        }
        for (int b : VALS) {
          if (!sh.mine(k++))
            continue;
          binVS<double, double>(a, va, b);
          binVS<double, float>(a, va, b);
          binVS<float, float>(a, va, b);
          binVS<float, double>(a, va, b);
          binVS<double, int64_t>(a, va, b);
          binVS<double, int32_t>(a, va, b);
          binVS<float, int64_t>(a, va, b);
          binVS<float, int32_t>(a, va, b);
        }
      }
  } else if (mode == "int") {
    for (int a = -20; a <= 20; ++a)
      for (int b = -7; b <= 7; ++b) {
        if (!sh.mine(k++))
          continue;
        fdiv(int64_t(a), int64_t(b));
        fdiv(int32_t(a), int32_t(b));
        fdiv(int64_t(a), int32_t(b));
        fdiv(int32_t(a), int64_t(b));
        emit({{"op", "ffdiv"}, {"a", a}, {"b", b}, {"q", out(numeric::floor_divide(a / 4., b / 4.))}, {"r", out(numeric::remainder(a / 4., b / 4.))}});
        emit({{"op", "ffdiv"}, {"a", a}, {"b", b}, {"q", out(numeric::floor_divide(a / 4.f, b / 4.f))}, {"r", out(numeric::remainder(a / 4.f, b / 4.f))}});
      }
    for (int i = 0; i < 150 * mult; ++i) {
      fdiv(anyint<int64_t>(), anyint<int64_t>());
      fdiv(anyint<int32_t>(), anyint<int32_t>());
      fdiv(anyint<int64_t>(), anyint<int32_t>());
      fdiv(anyint<int32_t>(), anyint<int64_t>());
    }
    for (int i = 0; i < 60 * mult; ++i) {
      bigbin<double, double>();
      bigbin<double, int64_t>();
      bigbin<double, int32_t>();
      bigbin<double, float>();
      bigbin<float, int64_t>();
      bigbin<float, int32_t>();
      bigbin<float, float>();
    }
    for (int b = -12; b <= 12; ++b)
      for (int n = 0; n <= 62; ++n)
        if (sh.mine(k++)) {
          ipow(int64_t(b), n);
          ipow(int32_t(b), n);
        }
    for (int i = 0; i < 20; ++i)
      ipow(int64_t(rnd(-3000000, 3000000)), int(rnd(0, 3)));
  } else if (mode == "seq") {
    for (int n = 0; n <= 5; ++n) {
      const int b = n == 5 ? 4 : 5;
      long tot = 1;
      for (int i = 0; i < n; ++i)
        tot *= b;
      for (long c = 0; c < tot; ++c) {
        if (!sh.mine(k++))
          continue;
        std::vector<int> x;
        long r = c;
        for (int i = 0; i < n; ++i) {
          x.push_back(int(r % b) - 1);
          r /= b;
        }
        seq(x);
      }
    }
    for (int i = 0; i < 60 * mult; ++i) {
      std::vector<int> x;
      const int n = int(rnd(2, 12)), d = int(rnd(-2, 9));
      int v = int(rnd(-40, 40));
      for (int j = 0; j < n; ++j, v += d)
        x.push_back(v);
      if (rnd(0, 1))
        x[rnd(0, n - 1)] += int(rnd(-2, 2));
      seq(x);
      // computed like numpy.linspace, optionally with one clearly misplaced point
      const double lo = double(rnd(-1000000, 1000000)) / 997., step = double(rnd(1, 100000)) / 331.;
      const int m = int(rnd(2, 200));
      std::vector<double> y;
      for (int j = 0; j < m; ++j)
        y.push_back(lo + j * step);
      std::string made = "linspace";
      const int kind = int(rnd(0, 4));
      if (m > 2 && kind == 1) {
        y[rnd(0, m - 1)] += (rnd(0, 1) ? 0.3 : -0.3) * step;
        made = "displaced";
      } else if (m > 2 && kind == 2) {
        y[rnd(0, m - 1)] = NAN;
        made = "nan";
      } else if (m > 2 && kind == 3) {
        const auto p = rnd(0, m - 2);
        std::swap(y[p], y[p + 1]);
        made = "swapped";
      } else if (kind == 4) {
        std::reverse(y.begin(), y.end());
        made = "descending";
      }
      emit({{"op", "linmade"}, {"made", made}, {"out", numeric::islinspace(y)}});
    }
    for (double x : {0., -0., 1., -1., 2.5, double(INFINITY), -double(INFINITY), double(NAN)}) {
      classify<double>(x);
      classify<float>(float(x));
    }
  }
  return 0;
}
