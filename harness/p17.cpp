#include "hzm.hpp"
#include <sleipnir/optimization/solver/util/is_locally_infeasible.hpp>
using namespace hz;
static bool near(double v, double t) { return std::fabs(v - t) < 1e-9 * t; }
static void one(const M& A, const V& c) {
  CASE();
  auto D = dense(A);
  for (int ineq = 0; ineq < 2; ++ineq) {
    double nc = 0, ng = 0; bool sat = true;
    std::vector<double> w(c.size());
    for (int i = 0; i < c.size(); ++i) { w[i] = ineq ? std::fmin(c(i), 0) : c(i); nc += w[i] * w[i]; sat &= w[i] == 0; }
    for (int j = 0; j < A.cols(); ++j) { double s = 0; for (int i = 0; i < c.size(); ++i) s += D(i, j) * w[i]; ng += s * s; }
    nc = std::sqrt(nc), ng = std::sqrt(ng);
    double tc = ineq ? 1e-6 : 1e-2;
    bool got = ineq ? slp::is_inequality_locally_infeasible<double>(A, c) : slp::is_equality_locally_infeasible<double>(A, c);
    if (sat) CHECK(!got, "satisfied constraints reported infeasible (ineq=%d)", ineq);
    if (near(nc, tc) || near(ng, 1e-6)) continue;
    bool want = A.rows() > 0 && ng < 1e-6 && nc > tc;
    CHECK(got == want, "ineq=%d rows=%d |A'c|=%g |c|=%g: reported %d", ineq, (int)A.rows(), ng, nc, got);
  }
}
int main() {
  Rng r;
  int N = thorough() ? 100000 : 10000;
  for (int i = 0; i < N; ++i) {
    int m = r.irange(0, 4), n = r.irange(1, 4);
    M A = sp(r, m, n, r.irange(0, 2) * 0.4);
    V c = vec(r, m);
    c *= std::pow(10.0, r.irange(-9, 1));
    A *= std::pow(10.0, r.irange(-9, 1));
    if (r.irange(0, 5) == 0) c = c.cwiseAbs();
    one(A, c);
    // opposite rows cancel in A'c
    if (m == 2) { M B(2, n); std::vector<Eigen::Triplet<double>> t; for (int j = 0; j < n; ++j) { double v = val(r); t.emplace_back(0, j, v); t.emplace_back(1, j, -v); } B.setFromTriplets(t.begin(), t.end()); double s = std::pow(10.0, r.irange(-8, 1)) * r.real(0.5, 1.5) * (r.irange(0, 1) ? 1 : -1); V cc(2); cc << s, s; one(B, cc); }
  }
  return finish();
}
