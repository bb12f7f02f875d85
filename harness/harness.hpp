// Small support for replaying properties on the compiled real code.
#pragma once
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <map>
#include <sstream>
#include <string>
#include <vector>
namespace hz {
inline long cases = 0;
inline int fails = 0;
struct Done {
  ~Done() {}
};
inline bool thorough() { const char* t = getenv("VERIF_TIER"); return t && std::string(t) == "thorough"; }
inline uint64_t seed() { const char* s = getenv("VERIF_SEED"); return s ? strtoull(s, nullptr, 10) : 1; }
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t k = 0) : s(seed() * 0x9E3779B97F4A7C15ull + k * 0xD1B54A32D192ED03ull + 1) {}
  uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; }
  int irange(int a, int b) { return a + static_cast<int>((next() >> 16) % static_cast<uint64_t>(b - a + 1)); }
  double unit() { return (next() >> 11) * 0x1.0p-53; }
  double real(double a, double b) { return a + (b - a) * unit(); }
  template <typename T> const T& pick(const std::vector<T>& v) { return v[next() % v.size()]; }
};
inline std::map<std::string, std::string> cex() {
  std::map<std::string, std::string> m;
  const char* c = getenv("SLPV_CEX");
  if (!c) return m;
  std::stringstream ss(c);
  std::string kv;
  while (std::getline(ss, kv, ';')) { auto p = kv.find('='); if (p != std::string::npos) m[kv.substr(0, p)] = kv.substr(p + 1); }
  return m;
}
inline int finish() {
  printf("CASES %ld\n", cases);
  fflush(stdout);
  return fails ? 1 : 0;
}
inline bool close(double a, double b, double rel = 1e-9, double abs = 1e-12) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  if (std::isinf(a) || std::isinf(b)) return a == b;
  return std::fabs(a - b) <= abs + rel * std::fmax(std::fabs(a), std::fabs(b));
}
}  // namespace hz
#define CASE() (++hz::cases)
#define CHECK(cond, ...)                                            \
  do {                                                              \
    if (!(cond)) {                                                  \
      printf("FAIL [%s:%d] %s : ", __FILE__, __LINE__, #cond);      \
      printf(__VA_ARGS__);                                          \
      printf("\n");                                                 \
      if (++hz::fails >= 5) { exit(hz::finish()); }                 \
    }                                                               \
  } while (0)
