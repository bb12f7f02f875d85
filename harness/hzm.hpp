// Random vectors and sparse matrices for harnesses.
#pragma once
#include <Eigen/Core>
#include <Eigen/SparseCore>
#include "harness.hpp"
namespace hz {
using V = Eigen::VectorXd;
using M = Eigen::SparseMatrix<double>;
inline double val(Rng& r) {
  switch (r.irange(0, 9)) {
    case 0: return 0.0;
    case 1: return r.real(-1e-3, 1e-3);
    case 2: return r.real(-1e4, 1e4);
    case 3: return r.irange(-3, 3);
    default: return r.real(-3, 3);
  }
}
inline V vec(Rng& r, int n) { V v(n); for (int i = 0; i < n; ++i) v(i) = val(r); return v; }
inline V pos(Rng& r, int n) { V v(n); for (int i = 0; i < n; ++i) v(i) = r.irange(0, 3) ? r.real(0.05, 3) : r.real(1e-6, 1e3); return v; }
inline M sp(Rng& r, int m, int n, double density = 0.5) {
  std::vector<Eigen::Triplet<double>> t;
  for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) if (r.unit() < density) t.emplace_back(i, j, val(r));
  M a(m, n); a.setFromTriplets(t.begin(), t.end()); return a;
}
inline Eigen::MatrixXd dense(const M& a) {  // by direct storage walk, independent of Eigen products
  Eigen::MatrixXd d(a.rows(), a.cols());
  for (int i = 0; i < a.rows(); ++i) for (int j = 0; j < a.cols(); ++j) d(i, j) = a.coeff(i, j);
  return d;
}
inline double l1(const std::vector<double>& v) { double s = 0; for (double x : v) s += std::fabs(x); return s; }
inline double linf(const std::vector<double>& v) { double s = 0; for (double x : v) s = std::fmax(s, std::fabs(x)); return s; }
}  // namespace hz
