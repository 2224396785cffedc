// Shared by all drivers: trace output (ndjson), program input (JSON lines as
// written by TLC), number encoding.
#pragma once
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <nlohmann/json.hpp>
#include <random>
#include <string>
#include <vector>

namespace vt {
using json = nlohmann::json;

// Sentinels understood by the TLA+ modules (module Num)
constexpr int NaN = 2000000001, PosInf = 2000000002, NegInf = -2000000002,
              Inexact = 2000000009, Hi = 2000000003, Lo = -2000000003;

// value * scale as an exact integer (up to rounding error of the computation)
inline int num(double v, double scale = 1.0, double tol = 1e-9) {
  if (std::isnan(v))
    return NaN;
  if (std::isinf(v))
    return v > 0 ? PosInf : NegInf;
  const double s = v * scale;
  const double r = std::round(s);
  if (std::abs(r) > 1.5e9 || std::abs(s - r) > tol * std::max(1.0, std::abs(r)))
    return Inexact;
  return static_cast<int>(r);
}
inline int num(int64_t v) {
  if (v > 1500000000 || v < -1500000000)
    return Inexact;
  return static_cast<int>(v);
}

class Trace {
public:
  Trace() {
    const char *out = getenv("TRACE_OUT");
    m_f = out ? fopen(out, "w") : stdout;
    if (!m_f)
      exit(77);
    static char buf[1 << 16];
    setvbuf(m_f, buf, _IOFBF, sizeof(buf));
  }
  ~Trace() {
    if (m_f && m_f != stdout)
      fclose(m_f);
    else
      fflush(m_f);
  }
  void emit(const json &j) {
    const auto s = j.dump();
    fputs(s.c_str(), m_f);
    fputc('\n', m_f);
    fflush(m_f);
    ++n;
  }
  // announces what is about to be executed, so that a crash can be attributed
  void flush() { fflush(m_f); }
  long n = 0;

private:
  FILE *m_f;
};

inline Trace &trace() {
  static Trace t;
  return t;
}
inline void emit(const json &j) { trace().emit(j); }

inline std::vector<json> read_programs(const std::string &path) {
  std::vector<json> out;
  std::ifstream f(path);
  std::string line;
  while (std::getline(f, line)) {
    if (line.empty())
      continue;
    auto j = json::parse(line);
    if (j.is_string())
      j = json::parse(j.get<std::string>());
    out.push_back(std::move(j));
  }
  return out;
}

// shard selection: argv "i/n"
struct Shard {
  int i = 0, n = 1;
  explicit Shard(const std::string &s) { sscanf(s.c_str(), "%d/%d", &i, &n); }
  bool mine(long k) const { return k % n == i; }
};
inline unsigned seed() {
  const char *s = getenv("VERIF_SEED");
  return s ? static_cast<unsigned>(atoi(s)) : 1u;
}
// result of f(), or the refusal; any std::exception counts as refusal
template <class F> json attempt(F &&f) {
  try {
    return f();
  } catch (const std::exception &e) {
    return json("refused");
  }
}
} // namespace vt
