#include <sleipnir/optimization/solver/util/fraction_to_the_boundary_rule.hpp>
#include "harness.hpp"
static void one(const std::vector<double>& x, const std::vector<double>& p, double tau) {
  CASE();
  int n = x.size();
  Eigen::VectorXd X(n), P(n);
  for (int i = 0; i < n; ++i) { X[i] = x[i]; P[i] = p[i]; }
  double a = slp::fraction_to_the_boundary_rule<double>(X, P, tau);
  std::string d = "tau=" + std::to_string(tau) + " x,p=";
  for (int i = 0; i < n; ++i) d += "(" + std::to_string(x[i]) + "," + std::to_string(p[i]) + ")";
  CHECK(a > 0 && a <= 1, "alpha=%g %s", a, d.c_str());
  double best = 1;
  for (int i = 0; i < n; ++i) {
    CHECK(x[i] + a * p[i] >= (1 - tau) * x[i] - 1e-9 * (x[i] + std::fabs(a * p[i])), "alpha=%.17g violates component %d: %s", a, i, d.c_str());
    if (p[i] < 0) best = std::min(best, tau * x[i] / -p[i]);
  }
  CHECK(a >= best * (1 - 1e-9), "alpha=%.17g not maximal (%.17g): %s", a, best, d.c_str());
}
int main() {
  std::vector<double> xs{1e-8, 0.25, 1, 3, 100}, ps{-1e8, -1000, -7, -1, -0.5, -0.01, 0, 0.01, 1, 50}, taus{1e-3, 0.5, 0.9, 0.995, 1};
  one({}, {}, 0.5);
  for (double t : taus) for (double x : xs) for (double p : ps) {
    one({x}, {p}, t);
    for (double y : xs) for (double q : ps) {
      one({x, y}, {p, q}, t);
      one({1, x, y}, {-1.25, p, q}, t);
    }
  }
  hz::Rng r;
  for (int i = 0; i < 50000; ++i) {
    int n = r.irange(1, 8);
    std::vector<double> x(n), p(n);
    for (auto& v : x) v = std::pow(10, r.real(-6, 4));
    for (auto& v : p) v = r.real(-1, 1) * std::pow(10, r.real(-4, 5));
    one(x, p, r.real(0.01, 1));
  }
  return hz::finish();
}
