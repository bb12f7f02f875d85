#include <Eigen/Eigenvalues>
#include "hzm.hpp"
#include <sleipnir/optimization/solver/util/regularized_ldlt.hpp>
using namespace hz;
using slp::Inertia;
template <class S> static void run(S& solver, const M& lhs, int n, int m, const char* w, bool finite, Rng& r) {
  if constexpr (std::is_same_v<S, slp::DenseRegularizedLDLT<double>>) { Eigen::MatrixXd d = Eigen::MatrixXd(lhs); solver.compute(d); }
  else solver.compute(lhs);
  double de = solver.hessian_regularization(), ga = solver.constraint_jacobian_regularization();
  if (!finite) { CHECK(solver.info() != Eigen::Success, "%s: non-finite matrix reported as factored", w); return; }
  if (solver.info() != Eigen::Success) return;
  CHECK(de >= 0 && ga >= 0, "%s: negative regularization %g %g", w, de, ga);
  Eigen::MatrixXd A = dense(lhs);
  A = Eigen::MatrixXd(A.selfadjointView<Eigen::Lower>());
  for (int i = 0; i < n + m; ++i) A(i, i) += i < n ? de : -ga;
  Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> es(A, Eigen::EigenvaluesOnly);
  double scale = es.eigenvalues().cwiseAbs().maxCoeff();
  int pos = 0, neg = 0, amb = 0;
  for (int i = 0; i < n + m; ++i) { double e = es.eigenvalues()(i); if (std::fabs(e) < 1e-9 * scale) ++amb; else if (e > 0) ++pos; else ++neg; }
  CHECK(pos <= n && neg <= m && pos + neg + amb == n + m, "%s: inertia of lhs+reg is (%d,%d,%d), want (%d,%d,0); delta=%g gamma=%g", w, pos, neg, amb, n, m, de, ga);
  V b = vec(r, n + m);
  V x = solver.solve(b);
  if (!amb) CHECK((A * x - b).norm() <= 1e-6 * (1 + A.norm() * x.norm()), "%s: solution does not solve lhs+reg (delta=%g gamma=%g)", w, de, ga);
}
int main() {
  Rng r;
  int N = thorough() ? 30000 : 2500;
  const double eps = std::numeric_limits<double>::epsilon(), inf = std::numeric_limits<double>::infinity();
  for (int t = 0; t < N; ++t) {
    CASE();
    int k = r.irange(0, 8), p = 0, q = 0, z = 0;
    V d(k);
    for (int i = 0; i < k; ++i) {
      double c[] = {0.0, eps, -eps, std::nextafter(eps, 1), -std::nextafter(eps, 1), r.real(-3, 3), inf, -inf, NAN, eps / 2, -eps / 3};
      d(i) = c[r.irange(0, 10)];
      if (d(i) > eps) ++p; else if (d(i) < -eps) ++q; else ++z;
    }
    Inertia a{d};
    CHECK(a.positive == p && a.negative == q && a.zero == z, "inertia (%d,%d,%d) expected (%d,%d,%d)", a.positive, a.negative, a.zero, p, q, z);
    CHECK(a == Inertia(p, q, z) && !(a == Inertia(p + 1, q, z)) && !(a == Inertia(p, q + 1, z)) && !(a == Inertia(p, q, z + 1)), "inertia comparison");
    int n = r.irange(1, 5), m = r.irange(0, std::min(3, n));
    slp::SparseRegularizedLDLT<double> ss{n, m};
    slp::DenseRegularizedLDLT<double> ds{n, m};
    bool us = r.irange(0, 1), withg = r.irange(0, 2) == 0;
    double gmin = r.irange(0, 1) ? 0.0 : r.real(0, 1e-3);
    slp::SparseRegularizedLDLT<double> sg{n, m, gmin};
    slp::DenseRegularizedLDLT<double> dg{n, m, gmin};
    slp::RegularizedLDLT<double> rl{us, n, m};
    slp::RegularizedLDLT<double> rg{us, n, m, gmin};
    (void)withg;
    for (int rep = 0; rep < 3; ++rep) {
      double hs = std::pow(10.0, r.irange(-4, 3));
      int mode = r.irange(0, 5);
      std::vector<Eigen::Triplet<double>> tr;
      for (int i = 0; i < n + m; ++i) for (int j = 0; j <= i; ++j) {
        double v = val(r);
        if (i < n) { v *= hs; if (mode == 0 && i == j) v = std::fabs(v) + 2 * n * hs; if (mode == 1) v = 0; if (mode == 2 && i == j) v = -std::fabs(v); }
        else if (j < n) { if (mode == 3 && i > n) v = 0; }
        else v = 0;
        tr.emplace_back(i, j, v);
      }
      M lhs(n + m, n + m); lhs.setFromTriplets(tr.begin(), tr.end());
      run(ss, lhs, n, m, "sparse", true, r); run(ds, lhs, n, m, "dense", true, r);
      run(sg, lhs, n, m, "sparse gmin", true, r); run(dg, lhs, n, m, "dense gmin", true, r);
      run(rl, lhs, n, m, "dispatch", true, r); run(rg, lhs, n, m, "dispatch gmin", true, r);
    }
    if (t % 10 == 0) {
      M bad(n + m, n + m);
      std::vector<Eigen::Triplet<double>> tr;
      for (int i = 0; i < n + m; ++i) tr.emplace_back(i, i, i == 0 ? NAN : 1.0);
      bad.setFromTriplets(tr.begin(), tr.end());
      slp::SparseRegularizedLDLT<double> s2{n, m}; slp::DenseRegularizedLDLT<double> d2{n, m};
      run(s2, bad, n, m, "sparse", false, r); run(d2, bad, n, m, "dense", false, r);
    }
  }
  return finish();
}
