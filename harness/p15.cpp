#include "hzm.hpp"
#include <sleipnir/optimization/solver/util/kkt_error.hpp>
using namespace hz;
using slp::KKTErrorType;
using D = std::vector<double>;
static double spec(bool one, const D& g, const Eigen::MatrixXd& Ae, const D& ce, const Eigen::MatrixXd& Ai, const D& ci, const D& s, const D& y, const D& z, double mu) {
  D st(g);
  for (size_t i = 0; i < g.size(); ++i) {
    for (size_t j = 0; j < y.size(); ++j) st[i] -= Ae(j, i) * y[j];
    for (size_t j = 0; j < z.size(); ++j) st[i] -= Ai(j, i) * z[j];
  }
  D co, pi;
  for (size_t i = 0; i < s.size(); ++i) { co.push_back(s[i] * z[i] - mu); pi.push_back(ci[i] - s[i]); }
  if (one) return l1(st) + l1(co) + l1(ce) + l1(pi);
  double nd = y.size() + z.size();
  double sd = nd > 0 ? std::fmax(100, (l1(y) + l1(z)) / nd) / 100 : 1;
  double sc = z.size() ? std::fmax(100, l1(z) / z.size()) / 100 : 1;
  return std::fmax(std::fmax(linf(st) / sd, linf(co) / sc), std::fmax(linf(ce), linf(pi)));
}
static D d(const V& v) { return D(v.data(), v.data() + v.size()); }
static D mul(D a, const D& b, double c) { for (size_t i = 0; i < a.size(); ++i) a[i] *= b[i] * c; return a; }
static D inv(D a) { for (auto& x : a) x = 1 / x; return a; }
template <KKTErrorType T> static void run(Rng& r, int n, int m, int k) {
  bool one = T == KKTErrorType::ONE_NORM;
  V g = vec(r, n), ce = vec(r, m), ci = vec(r, k), s = pos(r, k), y = vec(r, m), z = pos(r, k);
  double amp = r.irange(0, 3) ? 1 : 1e5;
  y *= amp; if (r.irange(0, 2) == 0) z *= 1e5;
  M Ae = sp(r, m, n), Ai = sp(r, k, n);
  if (r.irange(0, 3) == 0) { ci = s; }
  if (r.irange(0, 3) == 0) { g.setZero(); y.setZero(); ce.setZero(); }
  double mu = r.irange(0, 2) ? r.real(1e-6, 1) : 0;
  auto dAe = dense(Ae), dAi = dense(Ai);
  Eigen::MatrixXd none(0, n);
  CASE();
  double a = slp::kkt_error<double, T>(g), b = spec(one, d(g), none, {}, none, {}, {}, {}, {}, 0);
  CHECK(close(a, b, 1e-8), "newton n=%d one=%d: %.17g documented %.17g", n, one, a, b);
  a = slp::kkt_error<double, T>(g, Ae, ce, y), b = spec(one, d(g), dAe, d(ce), none, {}, {}, d(y), {}, 0);
  CHECK(close(a, b, 1e-8), "sqp n=%d m=%d one=%d: %.17g documented %.17g", n, m, one, a, b);
  a = slp::kkt_error<double, T>(g, Ae, ce, Ai, ci, s, y, z, mu), b = spec(one, d(g), dAe, d(ce), dAi, d(ci), d(s), d(y), d(z), mu);
  CHECK(close(a, b, 1e-8), "ipm n=%d m=%d k=%d one=%d: %.17g documented %.17g", n, m, k, one, a, b);
  for (int id = 0; id < 2; ++id) {
    slp::ProblemScaling<double> p1, p4, p9;
    double f = 1; D se(m, 1.0), si(k, 1.0);
    if (!id) {
      f = r.irange(0, 2) ? r.real(0.01, 1) : 1; for (auto& x : se) x = r.irange(0, 2) ? r.real(0.01, 1) : 1; for (auto& x : si) x = r.irange(0, 2) ? r.real(0.01, 1) : 1;
      V ve = Eigen::Map<V>(se.data(), m), vi = Eigen::Map<V>(si.data(), k);
      p1 = {f, V(), V()}; p4 = {f, ve, V()}; p9 = {f, ve, vi};
    }
    auto uAe = dAe, uAi = dAi;
    for (int i = 0; i < m; ++i) uAe.row(i) /= se[i];
    for (int i = 0; i < k; ++i) uAi.row(i) /= si[i];
    D g1 = d(g); for (auto& x : g1) x /= f;
    D ce1 = mul(d(ce), inv(se), 1), ci1 = mul(d(ci), inv(si), 1), s1 = mul(d(s), inv(si), 1), y1 = mul(d(y), se, 1 / f), z1 = mul(d(z), si, 1 / f);
    a = slp::unscaled_kkt_error<double, T>(p1, g), b = spec(one, g1, none, {}, none, {}, {}, {}, {}, 0);
    CHECK(close(a, b, 1e-7), "unscaled newton f=%g: %.17g documented %.17g", f, a, b);
    a = slp::unscaled_kkt_error<double, T>(p4, g, Ae, ce, y), b = spec(one, g1, uAe, ce1, none, {}, {}, y1, {}, 0);
    CHECK(close(a, b, 1e-7), "unscaled sqp n=%d m=%d f=%g: %.17g documented %.17g", n, m, f, a, b);
    a = slp::unscaled_kkt_error<double, T>(p9, g, Ae, ce, Ai, ci, s, y, z, mu), b = spec(one, g1, uAe, ce1, uAi, ci1, s1, y1, z1, mu / f);
    CHECK(close(a, b, 1e-7), "unscaled ipm n=%d m=%d k=%d f=%g: %.17g documented %.17g", n, m, k, f, a, b);
  }
}
int main() {
  Rng r;
  int N = thorough() ? 20000 : 1500;
  for (int i = 0; i < N; ++i) {
    int n = r.irange(1, 6), m = r.irange(0, 4), k = r.irange(0, 4);
    run<KKTErrorType::INF_NORM_SCALED>(r, n, m, k);
    run<KKTErrorType::ONE_NORM>(r, n, m, k);
  }
  return finish();
}
