#include <sleipnir/autodiff/slice.hpp>
#include <climits>
#include "harness.hpp"
using slp::Slice; using slp::slicing::_;
// Python's slice.indices in 64-bit arithmetic; INT64_MAX = omitted
constexpr int64_t NONE = INT64_MAX;
struct R { std::vector<int64_t> head; int64_t count; };
static void ref(int64_t a, int64_t b, int64_t s, int64_t n, int64_t& A, int64_t& C, int64_t& S) {
  if (s == NONE) s = 1;
  int64_t lo = s < 0 ? -1 : 0, up = s < 0 ? n - 1 : n;
  auto clip = [&](int64_t x, int64_t d) { if (x == NONE) return d; if (x < 0) { x += n; return x < lo ? lo : x; } return x > up ? up : x; };
  A = clip(a, s < 0 ? up : lo);
  int64_t B = clip(b, s < 0 ? lo : up);
  C = s > 0 ? (A < B ? (B - A - 1) / s + 1 : 0) : (A > B ? (A - B - 1) / -s + 1 : 0);
  S = s;
}
static void cmp(const char* form, Slice sl, int64_t a, int64_t b, int64_t s, int n) {
  CASE();
  int64_t A, C, S;
  ref(a, b, s, n, A, C, S);
  int c = sl.adjust(n);
  CHECK(c == C, "%s(%lld,%lld,%lld) length %d: count %d, Python %lld", form, (long long)a, (long long)b, (long long)s, n, c, (long long)C);
  if (C > 0 && c == C) {
    CHECK(sl.start == A, "%s(%lld,%lld,%lld) length %d: first %d, Python %lld", form, (long long)a, (long long)b, (long long)s, n, sl.start, (long long)A);
    if (C > 1) CHECK(sl.step == S, "%s(%lld,%lld,%lld) length %d: step %d", form, (long long)a, (long long)b, (long long)s, n, sl.step);
  }
}
static void all(int a, int b, int s, int n) {
  cmp("Slice(_)", Slice(_), NONE, NONE, NONE, n);
  cmp("Slice(int)", Slice(a), a, a == -1 ? NONE : (int64_t)a + 1, NONE, n);
  cmp("Slice(int,int)", Slice(a, b), a, b, NONE, n);
  cmp("Slice(_,int)", Slice(_, b), NONE, b, NONE, n);
  cmp("Slice(int,_)", Slice(a, _), a, NONE, NONE, n);
  cmp("Slice(_,_)", Slice(_, _), NONE, NONE, NONE, n);
  cmp("Slice(int,int,_)", Slice(a, b, _), a, b, NONE, n);
  cmp("Slice(_,int,_)", Slice(_, b, _), NONE, b, NONE, n);
  cmp("Slice(int,_,_)", Slice(a, _, _), a, NONE, NONE, n);
  cmp("Slice(_,_,_)", Slice(_, _, _), NONE, NONE, NONE, n);
  if (s == 0) return;
  cmp("Slice(int,int,int)", Slice(a, b, s), a, b, s, n);
  cmp("Slice(_,int,int)", Slice(_, b, s), NONE, b, s, n);
  cmp("Slice(int,_,int)", Slice(a, _, s), a, NONE, s, n);
  cmp("Slice(_,_,int)", Slice(_, _, s), NONE, NONE, s, n);
}
int main() {
  auto c = hz::cex();
  auto get = [&](const char* k) { return c.count(k) ? (int)atoll(c[k].c_str()) : 1; };
  if (!c.empty()) all(get("start"), get("stop"), get("step"), get("length"));
  for (int n = 0; n <= 7; ++n)
    for (int a = -9; a <= 9; ++a)
      for (int b = -9; b <= 9; ++b)
        for (int s = -9; s <= 9; ++s) all(a, b, s, n);
  std::vector<int> ext{INT_MIN, INT_MIN + 1, INT_MIN + 2, INT_MIN / 2, -100, -2, -1, 0, 1, 2, 3, 100, INT_MAX / 2, INT_MAX - 2, INT_MAX - 1, INT_MAX};
  for (int n : {0, 1, 2, 3, 100, INT_MAX / 2, INT_MAX - 1, INT_MAX})
    for (int a : ext) for (int b : ext) for (int s : ext) all(a, b, s, n);
  hz::Rng r;
  for (int i = 0; i < 100000; ++i) all((int)r.next(), (int)r.next(), (int)(r.next() >> (r.next() % 32)), (int)(r.next() & INT_MAX));
  return hz::finish();
}
