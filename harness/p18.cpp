#include "hzm.hpp"
#include <sleipnir/optimization/solver/util/problem_scaling.hpp>
#include <sleipnir/optimization/solver/util/sparse_inf_norms.hpp>
using namespace hz;
static void claim(double f, double big, const char* w) {
  CHECK(f > 0 && f <= 1, "%s factor %g not in (0,1] (largest component %g)", w, f, big);
  CHECK(f * big <= 100 * (1 + 1e-12), "%s factor %g times %g exceeds 100", w, f, big);
  if (big <= 100) CHECK(f == 1, "%s factor %g although largest component is %g", w, f, big);
  else CHECK(close(f * big, 100), "%s factor %g smaller than needed for %g", w, f, big);
}
static double rowmax(const M& A, int r) { double m = 0; for (int j = 0; j < A.cols(); ++j) m = std::fmax(m, std::fabs(A.coeff(r, j))); return m; }
int main() {
  Rng r;
  int N = thorough() ? 50000 : 5000;
  for (int i = 0; i < N; ++i) {
    CASE();
    int n = r.irange(1, 6), m = r.irange(0, 4), k = r.irange(0, 4);
    V g = vec(r, n) * std::pow(10.0, r.irange(-3, 4));
    if (r.irange(0, 9) == 0) g.setZero();
    M Ae = sp(r, m, n, r.irange(0, 2) * 0.4) * std::pow(10.0, r.irange(-3, 4)), Ai = sp(r, k, n, r.irange(0, 2) * 0.4) * std::pow(10.0, r.irange(-3, 4));
    double gi = 0; for (int j = 0; j < n; ++j) gi = std::fmax(gi, std::fabs(g(j)));
    slp::ProblemScaling<double> a{g}, b{g, Ae}, c{g, Ae, Ai};
    claim(a.f, gi, "cost"); claim(b.f, gi, "cost"); claim(c.f, gi, "cost");
    CHECK(b.c_e.size() == m && c.c_e.size() == m && c.c_i.size() == k && b.c_i.size() == 0 && a.c_e.size() == 0, "factor counts m=%d k=%d", m, k);
    for (int q = 0; q < m; ++q) { claim(b.c_e(q), rowmax(Ae, q), "equality"); claim(c.c_e(q), rowmax(Ae, q), "equality"); }
    for (int q = 0; q < k; ++q) claim(c.c_i(q), rowmax(Ai, q), "inequality");
    V nn = slp::sparse_inf_norms(Ae);
    CHECK(nn.size() == m, "norm count");
    for (int q = 0; q < m; ++q) CHECK(nn(q) == rowmax(Ae, q), "row %d norm %g expected %g", q, nn(q), rowmax(Ae, q));
  }
  return finish();
}
