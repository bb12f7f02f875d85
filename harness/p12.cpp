// P12: A solve(A, B) == B for systems of order one to four.
#include <sleipnir/autodiff/variable_matrix.hpp>
#include <Eigen/LU>
#include "harness.hpp"
using V = slp::Variable<double>;
using M = slp::VariableMatrix<double>;
using D = Eigen::MatrixXd;
static hz::Rng r(12);
static bool ints;
static double val() { return ints ? r.irange(-3, 3) : r.irange(0, 5) ? r.real(-3, 3) : r.irange(-1, 1); }

// Variables, constants and expressions with the given values.
static M mk(const D& d, int kind) {
  M a{static_cast<int>(d.rows()), static_cast<int>(d.cols())};
  for (int i = 0; i < d.rows(); ++i)
    for (int j = 0; j < d.cols(); ++j) {
      int k = kind == 3 ? r.irange(0, 2) : kind;
      if (k == 0) a[i, j].set_value(d(i, j));
      else if (k == 1) a[i, j] = d(i, j);
      else { V x; x.set_value(d(i, j) - 1.0); a[i, j] = x + 1.0; }
    }
  return a;
}
static void run(const D& a, const D& b, int ka, int kb) {
  M A = mk(a, ka), B = mk(b, kb);
  M x = slp::solve(A, B);
  CASE();
  CHECK(x.rows() == a.cols() && x.cols() == b.cols(), "order %d: shape %dx%d instead of %dx%d", (int)a.rows(), x.rows(), x.cols(), (int)a.cols(), (int)b.cols());
  if (x.rows() != a.cols() || x.cols() != b.cols()) return;
  for (int t = 0; t < 2; ++t) {
    D aa = a, bb = b;
    if (t) {  // the same symbolic solution at other values of the variables
      if (ka != 0 || kb != 0) break;
      do { for (int i = 0; i < a.rows(); ++i) for (int j = 0; j < a.cols(); ++j) aa(i, j) = val(); } while (std::fabs(aa.determinant()) < 0.3);
      for (int i = 0; i < b.rows(); ++i) for (int j = 0; j < b.cols(); ++j) bb(i, j) = val();
      for (int i = 0; i < a.rows(); ++i) for (int j = 0; j < a.cols(); ++j) A[i, j].set_value(aa(i, j));
      for (int i = 0; i < b.rows(); ++i) for (int j = 0; j < b.cols(); ++j) B[i, j].set_value(bb(i, j));
    }
    D xv(x.rows(), x.cols());
    for (int i = 0; i < x.rows(); ++i) for (int j = 0; j < x.cols(); ++j) { V e = x[i, j]; xv(i, j) = e.value(); }
    for (int i = 0; i < bb.rows(); ++i)
      for (int j = 0; j < bb.cols(); ++j) {
        double s = 0, m = 1;
        for (int k = 0; k < aa.cols(); ++k) { s += aa(i, k) * xv(k, j); m += std::fabs(aa(i, k) * xv(k, j)); }
        CHECK(std::fabs(s - bb(i, j)) <= 1e-10 * m, "order %d, %d columns: (A X)(%d, %d) is %.12g instead of %.12g", (int)a.rows(), (int)b.cols(), i, j, s, bb(i, j));
      }
  }
}
int main() {
  const int N = hz::thorough() ? 20000 : 3000;
  for (int it = 0; it < N; ++it)
    for (int n = 1; n <= 4; ++n) {
      ints = r.irange(0, 1);
      D a(n, n), b(n, r.irange(1, 5));
      do { for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) a(i, j) = val(); } while (std::fabs(a.determinant()) < 0.3);
      for (int i = 0; i < n; ++i) for (int j = 0; j < b.cols(); ++j) b(i, j) = val();
      run(a, b, r.irange(0, 3), r.irange(0, 3));
      if (it % 10 == 0) run(D::Identity(n, n), b, 1, 0);
    }
  return hz::finish();
}
