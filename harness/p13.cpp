#include <sleipnir/optimization/solver/util/filter.hpp>
#include <limits>
#include "harness.hpp"
using E = slp::FilterEntry<double>;
using F = slp::Filter<double>;
static const double INF = std::numeric_limits<double>::infinity(), NaN = std::numeric_limits<double>::quiet_NaN();
struct Ref {
  double mn, mx;
  std::vector<std::pair<double, double>> e;
  explicit Ref(double v) : mn(1e-4 * std::max(1.0, v)), mx(1e4 * std::max(1.0, v)) {}
  // returns 1/0, or -1 when too close to a threshold to call
  int add(double cc, double cv, double tc, double tv, double D, double a) {
    auto near = [](double x, double y) { return std::fabs(x - y) <= 1e-12 * (std::fabs(x) + std::fabs(y)); };
    if (!std::isfinite(tc) || !std::isfinite(tv) || tv > mx) return 0;
    double l = a * std::pow(-D, 2.3), r = std::pow(cv, 1.1);
    bool sw = D < 0 && l > r;
    if (D < 0 && near(l, r) && l != r) return -1;
    double at = cc + 1e-8 * a * D;
    bool ar = tc <= at;
    double phi = std::pow(a, 1.5), mc = cc - phi * 1e-8 * cv, mv = (1 - phi * 1e-5) * cv;
    if ((near(tc, at) && cc != 0 && D != 0) || (near(tc, mc) && cv != 0) || (near(tv, mv) && cv != 0)) return -1;
    bool su = tc <= mc || tv <= mv;
    if (cv <= mn && sw) { if (!ar) return 0; } else if (!su) return 0;
    for (auto& [x, y] : e) if (x <= tc && y <= tv) return 0;
    if (!sw || !ar) {
      std::erase_if(e, [&](auto& p) { return mc <= p.first && mv <= p.second; });
      e.emplace_back(mc, mv);
    }
    return 1;
  }
};
static void run(uint64_t k, bool special) {
  hz::Rng r(k);
  double v0 = r.irange(0, 2) == 0 ? 0 : r.real(0, 50);
  F f{v0};
  Ref g(v0);
  CHECK(f.min_constraint_violation == g.mn && f.max_constraint_violation == g.mx, "initial bounds for %g: %g %g", v0, f.min_constraint_violation, f.max_constraint_violation);
  std::string hist;
  std::vector<double> C{-1, 0, 0.5, 1, 2, 3}, V{0, 1e-6, 1e-5, 0.01, 0.5, 1, 2, 5e5, 1e7};
  std::vector<double> SC{NaN, INF, -INF, 0, 1}, SV{NaN, INF, 0, 0.5};
  double cc = r.pick(C), cv = r.pick(V);
  for (int i = 0; i < 14; ++i) {
    if (r.irange(0, 11) == 0) { f.reset(); g.e.clear(); hist += "reset; "; }
    if (r.irange(0, 11) == 0) { f.max_constraint_violation *= 0.1; g.mx *= 0.1; hist += "max*=0.1; "; }
    double tc = r.irange(0, 1) ? r.pick(C) + 0.25 * r.irange(-2, 2) : r.real(-2, 3), tv = r.irange(0, 1) ? r.pick(V) : r.real(0, 3);
    if (special && r.irange(0, 2) == 0) { tc = r.pick(SC); tv = r.pick(SV); }
    double D = r.irange(0, 3) == 0 ? r.real(0, 2) : -std::pow(10, r.real(-6, 3)), a = r.irange(0, 1) ? 1 : r.real(1e-4, 1);
    char b[200];
    snprintf(b, sizeof b, "try_add({%g,%g},{%g,%g},%g,%g)", cc, cv, tc, tv, D, a);
    hist += b;
    Ref g0 = g;
    int w = g.add(cc, cv, tc, tv, D, a);
    CASE();
    if (w < 0) return;
    bool got = f.try_add(E{cc, cv}, E{tc, tv}, D, a);
    CHECK(got == (w == 1), "filter history (initial violation %g): %s -> %d, rule says %d", v0, hist.c_str(), got, w);
    if (got != (w == 1)) return;
    hist += got ? "=1; " : "=0; ";
    if (got) { cc = tc; cv = tv; }
    if (r.irange(0, 4) == 0) { cc = r.pick(C); cv = r.pick(V); }
  }
}
int main() {
  for (int i = 0; i < 60000; ++i) run(i, i % 3 == 0);
  hz::Rng r(7);
  for (int i = 0; i < 2000; ++i) {
    int n = r.irange(0, 4), m = r.irange(0, 4);
    Eigen::VectorXd s(m), ce(n), ci(m);
    double mu = r.real(0.01, 2), c = 0, v = 0, lg = 0;
    for (int k = 0; k < n; ++k) { ce[k] = r.real(-3, 3); v += std::fabs(ce[k]); }
    double v1 = v;
    for (int k = 0; k < m; ++k) { s[k] = r.real(0.01, 3); ci[k] = r.real(-3, 3); v += std::fabs(ci[k] - s[k]); lg += std::log(s[k]); }
    c = r.real(-5, 5);
    E a{c, ce}, b{c, s, ce, ci, mu};
    CASE();
    CHECK(hz::close(a.cost, c) && hz::close(a.constraint_violation, v1), "FilterEntry(f, c_e)");
    CHECK(hz::close(b.cost, c - mu * lg) && hz::close(b.constraint_violation, v), "FilterEntry(f, s, c_e, c_i, mu): %g vs %g, %g vs %g", b.cost, c - mu * lg, b.constraint_violation, v);
  }
  return hz::finish();
}
