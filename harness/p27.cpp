#include <Eigen/Dense>
#include "hzm.hpp"
#include <sleipnir/optimization/solver/util/lagrange_multiplier_estimate.hpp>
using namespace hz;
int main() {
  Rng r;
  int N = thorough() ? 40000 : 4000;
  for (int t = 0; t < N; ++t) {
    CASE();
    int n = r.irange(1, 6), me = r.irange(0, std::min(3, n - 1)), mi = r.irange(0, 4);
    M Ae = sp(r, me, n, 0.7), Ai = sp(r, mi, n, 0.7);
    V gd = vec(r, n);
    Eigen::SparseVector<double> g = gd.sparseView();
    V s = pos(r, mi);
    double mu = std::pow(10.0, r.irange(-8, 1));
    Eigen::MatrixXd Aed = dense(Ae);
    Eigen::FullPivLU<Eigen::MatrixXd> lu(Aed);
    if (me == 0 || lu.rank() == me) {
      V y = slp::lagrange_multiplier_estimate(g, Ae);
      CHECK(y.size() == me, "eq-only: %d multipliers for %d constraints", (int)y.size(), me);
      if (me && Eigen::JacobiSVD<Eigen::MatrixXd>(Aed).singularValues()(me - 1) > 1e-2) {
        V res = Aed * (Aed.transpose() * y - gd);
        CHECK(res.norm() <= 1e-6 * (1 + Aed.norm() * Aed.norm() * y.norm() + Aed.norm() * gd.norm()), "eq-only: not the least-squares multipliers, residual %g", res.norm());
      }
    }
    auto [y, z] = slp::lagrange_multiplier_estimate(g, Ae, Ai, s, mu);
    CHECK(y.size() == me && z.size() == mi, "sizes %d %d for %d %d constraints", (int)y.size(), (int)z.size(), me, mi);
    bool indep = me == 0 || lu.rank() == me;
    if (!indep) continue;
    for (int i = 0; i < mi; ++i) {
      CHECK(z(i) > 0, "z[%d]=%g not positive (s=%g mu=%g)", i, z(i), s(i), mu);
      CHECK(z(i) * s(i) >= mu / 1e10 * (1 - 1e-9) && z(i) * s(i) <= mu * 1e10 * (1 + 1e-9), "z[%d]*s=%g outside [mu/1e10, mu*1e10], mu=%g", i, z(i) * s(i), mu);
    }
    Eigen::MatrixXd A = Eigen::MatrixXd::Zero(me + mi, n + mi);
    A.topLeftCorner(me, n) = Aed; A.bottomLeftCorner(mi, n) = dense(Ai);
    for (int i = 0; i < mi; ++i) A(me + i, n + i) = -s(i);
    V b(n + mi); b << gd, V::Constant(mi, -mu);
    if (me + mi == 0) continue;
    auto sv = Eigen::JacobiSVD<Eigen::MatrixXd>(A).singularValues();
    if (sv(me + mi - 1) < 1e-2 || sv(0) > 1e3) continue;
    V x = (A * A.transpose()).fullPivLu().solve(A * b);
    double tol = 1e-5 * (1 + x.norm());
    for (int i = 0; i < me; ++i) CHECK(std::fabs(x(i) - y(i)) <= tol, "y[%d]=%g expected %g", i, y(i), x(i));
    for (int i = 0; i < mi; ++i) {
      double w = std::clamp(x(me + i), mu / 1e10 / s(i), mu * 1e10 / s(i));
      CHECK(std::fabs(w - z(i)) <= tol, "z[%d]=%g expected %g", i, z(i), w);
    }
  }
  return finish();
}
