// P20: projection onto bounds, replayed on the compiled function.
#include "hzm.hpp"
#include <limits>
#include <utility>
#include <sleipnir/optimization/solver/util/bounds.hpp>
using hz::V;
int main() {
  hz::Rng r(20);
  const double inf = std::numeric_limits<double>::infinity();
  int rounds = hz::thorough() ? 400000 : 60000;
  for (int t = 0; t < rounds; ++t) {
    int n = r.irange(0, 5);
    V x = hz::vec(r, n);
    std::vector<std::pair<double, double>> b;
    for (int i = 0; i < n; ++i) {
      double scale = r.pick(std::vector<double>{1e-6, 1e-3, 1.0, 10.0, 1e4});
      double l = r.irange(0, 3) ? r.real(-scale, scale) : r.irange(-2, 2);
      double w = r.pick(std::vector<double>{0.0, 1e-8, 1e-3, 0.5, 1.0, 3.0, 1e3, 1e5});
      double u = l + w;
      if (r.irange(0, 3) == 0) l = -inf;
      if (r.irange(0, 3) == 0) u = inf;
      b.emplace_back(l, u);
      if (r.irange(0, 2) == 0 && std::isfinite(l)) x(i) = l + r.real(-1, 1) * (r.irange(0, 1) ? 1e-2 : 1e-6);
      if (r.irange(0, 2) == 0 && std::isfinite(u)) x(i) = u + r.real(-1, 1) * (r.irange(0, 1) ? 1e-2 : 1e-6);
      if (r.irange(0, 9) == 0) x(i) = r.irange(0, 1) ? 1e12 : -1e12;
    }
    V x0 = x;
    double k1 = 1e-2, k2 = 1e-2;
    if (r.irange(0, 2) == 0) { k1 = r.real(1e-4, 2); k2 = r.real(1e-4, 0.49); }
    std::vector<std::pair<double, double>> bc = b;
    if (k1 == 1e-2 && k2 == 1e-2) slp::project_onto_bounds(x, std::span<const std::pair<double, double>>(bc));
    else slp::project_onto_bounds(x, std::span<const std::pair<double, double>>(bc), k1, k2);
    CHECK(x.size() == n, "length");
    CHECK(bc == b, "bounds changed");
    for (int i = 0; i < n; ++i) {
      CASE();
      auto [l, u] = b[i];
      double dl = k1 * std::fmax(1, std::fabs(l)), du = k1 * std::fmax(1, std::fabs(u));
      bool lf = std::isfinite(l), uf = std::isfinite(u);
      if (lf && uf) { dl = std::fmin(dl, k2 * (u - l)); du = std::fmin(du, k2 * (u - l)); }
      double ctx = 1e-13 * (1 + std::fabs(lf ? l : 0) + std::fabs(uf ? u : 0));
      if (lf && uf && l == u) { CHECK(x(i) == l, "x=%g l=%g", x(i), l); continue; }
      if (lf) CHECK(x(i) > l || u - l < 1e-12 * std::fabs(l), "x=%.17g not above l=%.17g (u=%g x0=%g)", x(i), l, u, x0(i));
      if (uf) CHECK(x(i) < u || u - l < 1e-12 * std::fabs(u), "x=%.17g not below u=%.17g (l=%g x0=%g)", x(i), u, l, x0(i));
      bool inside = (!lf || x0(i) >= l + dl + ctx) && (!uf || x0(i) <= u - du - ctx);
      if (inside) CHECK(x(i) == x0(i), "x0=%.17g moved to %.17g l=%g u=%g", x0(i), x(i), l, u);
      else if (lf && x0(i) < l + dl - ctx) CHECK(std::fabs(x(i) - (l + dl)) <= ctx, "x0=%g x=%.17g want %.17g", x0(i), x(i), l + dl);
      else if (uf && x0(i) > u - du + ctx) CHECK(std::fabs(x(i) - (u - du)) <= ctx, "x0=%g x=%.17g want %.17g", x0(i), x(i), u - du);
    }
  }
  return hz::finish();
}
