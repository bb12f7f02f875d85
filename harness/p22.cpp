#include <functional>
#include <limits>
#include "hzm.hpp"
#include <sleipnir/optimization/solver/newton.hpp>
#include <sleipnir/optimization/solver/sqp.hpp>
#include <sleipnir/optimization/solver/interior_point.hpp>
using namespace hz;
using SV = Eigen::SparseVector<double>;
using slp::ExitStatus;
static const double NaN = std::numeric_limits<double>::quiet_NaN();
static const double Inf = std::numeric_limits<double>::infinity();
using Info = slp::IterationInfo<double>;
// min 1/2 x'Qx + b'x + q sum x^4   s.t.  Ae x + re x0^2 = be,  Ai x + ri x0^2 >= bi, with places where a function is not finite.
struct Prob {
  int n, m, k, poison; double q, re, ri, where; Eigen::MatrixXd Q, Ae, Ai; V b, be, bi, x0;
  bool bad(const V& x, int what) const {
    if (poison / 10 != what) return false;
    switch (poison % 10) {
      case 0: return x(0) > where;
      case 1: return (x - x0).cwiseAbs().maxCoeff() > where;
      case 2: return std::fabs(x(n - 1)) < where;
      default: return true;
    }
  }
  double f(const V& x) const {
    if (bad(x, 1)) return where > 0.5 ? NaN : Inf;
    double s = 0;
    for (int i = 0; i < n; ++i) { s += b(i) * x(i) + q * x(i) * x(i) * x(i) * x(i); for (int j = 0; j < n; ++j) s += 0.5 * x(i) * Q(i, j) * x(j); }
    return s;
  }
  V g(const V& x) const {
    V r(n);
    for (int i = 0; i < n; ++i) { r(i) = b(i) + 4 * q * x(i) * x(i) * x(i); for (int j = 0; j < n; ++j) r(i) += 0.5 * (Q(i, j) + Q(j, i)) * x(j); }
    if (bad(x, 2)) r(n - 1) = NaN;
    return r;
  }
  V c(const Eigen::MatrixXd& A, const V& d, double r, const V& x, int what) const {
    V o(A.rows());
    for (int i = 0; i < A.rows(); ++i) { o(i) = r * x(0) * x(0) - d(i); for (int j = 0; j < n; ++j) o(i) += A(i, j) * x(j); }
    if (A.rows() && bad(x, what)) o(0) = where > 0.5 ? NaN : Inf;
    return o;
  }
  Eigen::MatrixXd J(const Eigen::MatrixXd& A, double r, const V& x, int what) const {
    Eigen::MatrixXd o = A;
    for (int i = 0; i < A.rows(); ++i) o(i, 0) += 2 * r * x(0);
    if (A.rows() && bad(x, what)) o(0, 0) = NaN;
    return o;
  }
  V ce(const V& x) const { return c(Ae, be, re, x, 3); }
  V ci(const V& x) const { return c(Ai, bi, ri, x, 4); }
  Eigen::MatrixXd je(const V& x) const { return J(Ae, re, x, 5); }
  Eigen::MatrixXd ji(const V& x) const { return J(Ai, ri, x, 6); }
  Eigen::MatrixXd hc(const V& y, const V& z) const {
    Eigen::MatrixXd h = Eigen::MatrixXd::Zero(n, n);
    for (int i = 0; i < m; ++i) h(0, 0) -= 2 * re * y(i);
    for (int i = 0; i < k; ++i) h(0, 0) -= 2 * ri * z(i);
    return h;
  }
  Eigen::MatrixXd h(const V& x, const V& y, const V& z) const {
    Eigen::MatrixXd r = hc(y, z) + 0.5 * Q + 0.5 * Q.transpose();
    for (int i = 0; i < n; ++i) r(i, i) += 12 * q * x(i) * x(i);
    if (bad(x, 7)) r(0, 0) = NaN;
    return r;
  }
  // the sparsity patterns do not depend on the point
  M low(const Eigen::MatrixXd& a) const { M s(n, n); std::vector<Eigen::Triplet<double>> t; for (int j = 0; j < n; ++j) for (int i = j; i < n; ++i) if (i == j || Q(i, j) + Q(j, i) != 0) t.emplace_back(i, j, a(i, j)); s.setFromTriplets(t.begin(), t.end()); return s; }
  M low0(const Eigen::MatrixXd& a) const { M s(n, n); std::vector<Eigen::Triplet<double>> t{{0, 0, a(0, 0)}}; s.setFromTriplets(t.begin(), t.end()); return s; }
  M sp(const Eigen::MatrixXd& a, const Eigen::MatrixXd& pat) const { M s(a.rows(), a.cols()); std::vector<Eigen::Triplet<double>> t; for (int j = 0; j < a.cols(); ++j) for (int i = 0; i < a.rows(); ++i) if (j == 0 || pat(i, j) != 0) t.emplace_back(i, j, a(i, j)); s.setFromTriplets(t.begin(), t.end()); return s; }
  static SV sv(const V& a) { SV s(a.size()); for (int i = 0; i < a.size(); ++i) s.insert(i) = a(i); return s; }
  bool finite_values(const V& x, int kind) const { return std::isfinite(f(x)) && (kind < 1 || ce(x).allFinite()) && (kind < 2 || ci(x).allFinite()); }
  bool finite_start(const V& x, int kind) const {
    V y = V::Zero(m), z = V::Ones(k);
    return finite_values(x, kind) && g(x).allFinite() && h(x, y, z).allFinite() && (kind < 1 || je(x).allFinite()) && (kind < 2 || ji(x).allFinite());
  }
};
static double error(const Prob& p, int kind, const V& x, const V& s, const V& y, const V& z) {
  V gx = p.g(x), st = gx;
  double e = 0;
  auto take = [&](double v) { if (!(std::fabs(v) <= e)) e = std::isnan(v) ? Inf : std::fabs(v); };
  double sd = 1, sc = 1, ny = 0, nz = 0;
  for (int i = 0; kind >= 1 && i < p.m; ++i) ny += std::fabs(y(i));
  for (int i = 0; kind >= 2 && i < p.k; ++i) nz += std::fabs(z(i));
  int cnt = (kind >= 1 ? p.m : 0) + (kind >= 2 ? p.k : 0);
  if (cnt) sd = std::fmax(100, (ny + nz) / cnt) / 100;
  if (kind >= 2 && p.k) sc = std::fmax(100, nz / p.k) / 100;
  if (kind >= 1) { auto A = p.je(x); for (int i = 0; i < p.n; ++i) for (int j = 0; j < p.m; ++j) st(i) -= A(j, i) * y(j); V c = p.ce(x); for (int i = 0; i < p.m; ++i) take(c(i)); }
  if (kind >= 2) {
    auto A = p.ji(x); for (int i = 0; i < p.n; ++i) for (int j = 0; j < p.k; ++j) st(i) -= A(j, i) * z(j);
    V c = p.ci(x); for (int i = 0; i < p.k; ++i) { take(c(i) - s(i)); take(s(i) * z(i) / sc); }
  }
  for (int i = 0; i < p.n; ++i) take(st(i) / sd);
  return e;
}
struct Run { ExitStatus st; int calls = 0, after = 0, last = -1, restoring = 0; bool stopped = false, badpoint = false, badit = false; V x, s, y, z; int iterations = 0; };
// kind 0 newton, 1 sqp, 2 ipm; stop(info) decides when the user's callback requests a stop
static Run run(const Prob& p, int kind, const slp::Options& o, std::function<bool(const Info&, int)> stop, int ncb) {
  Run r;
  std::vector<std::function<bool(const Info&)>> cbs;
  int chosen = ncb > 1 ? ncb - 1 : 0;
  for (int i = 0; i < ncb; ++i)
    cbs.push_back([&, i](const Info& info) {
      if (r.stopped) { ++r.after; return false; }
      if (i != chosen) return false;
      ++r.calls;
      if (info.x.size() > p.n) ++r.restoring;
      if (info.x.size() == p.n) {
        V want = p.g(info.x); V got = V(info.g);
        for (int j = 0; j < p.n; ++j) if (!(close(got(j), want(j), 1e-6, 1e-6))) r.badpoint = true;
      }
      if (info.iteration < r.last || (info.iteration >= o.max_iterations && info.iteration != 0)) r.badit = true;
      r.last = info.iteration;
      if (stop(info, r.calls)) { r.stopped = true; return true; }
      return false;
    });
  std::span<std::function<bool(const Info&)>> sp(cbs.data(), cbs.size());
  r.x = p.x0; r.y = V::Zero(p.m); r.s = V::Ones(p.k); r.z = V::Ones(p.k);
  V se = V::Ones(p.m), si = V::Ones(p.k);
  if (kind == 0) {
    slp::NewtonMatrixCallbacks<double> c{p.n, [&](const V& x) { return p.f(x); }, [&](const V& x) { return Prob::sv(p.g(x)); }, [&](const V& x) { return p.low(p.h(x, V::Zero(p.m), V::Zero(p.k))); }, {1.0, V(), V()}};
    r.st = slp::newton<double>(c, sp, o, r.x);
  } else if (kind == 1) {
    slp::SQPMatrixCallbacks<double> c{p.n, p.m, [&](const V& x) { return p.f(x); }, [&](const V& x) { return Prob::sv(p.g(x)); }, [&](const V& x, const V& y) { return p.low(p.h(x, y, V::Zero(p.k))); },
      [&](const V&, const V& y) { return p.low0(p.hc(y, V::Zero(p.k))); }, [&](const V& x) { return p.ce(x); }, [&](const V& x) { return p.sp(p.je(x), p.Ae); }, {1.0, se, V()}};
    r.st = slp::sqp<double>(c, sp, o, r.x, r.y);
  } else {
    slp::InteriorPointMatrixCallbacks<double> c{p.n, p.m, p.k, [&](const V& x) { return p.f(x); }, [&](const V& x) { return Prob::sv(p.g(x)); }, [&](const V& x, const V& y, const V& z) { return p.low(p.h(x, y, z)); },
      [&](const V&, const V& y, const V& z) { return p.low0(p.hc(y, z)); }, [&](const V& x) { return p.ce(x); }, [&](const V& x) { return p.sp(p.je(x), p.Ae); }, [&](const V& x) { return p.ci(x); }, [&](const V& x) { return p.sp(p.ji(x), p.Ai); }, {1.0, se, si}};
    double mu = 0.1;
#ifdef SLEIPNIR_ENABLE_BOUND_PROJECTION
    Eigen::ArrayX<bool> mask = Eigen::ArrayX<bool>::Constant(p.k, false);
    r.st = slp::interior_point<double>(c, sp, o, false, mask, r.x, r.s, r.y, r.z, mu, r.iterations);
#else
    r.st = slp::interior_point<double>(c, sp, o, false, r.x, r.s, r.y, r.z, mu, r.iterations);
#endif
  }
  return r;
}
static const char* NAMES[] = {"newton", "sqp", "interior_point"};
int main() {
  int N = thorough() ? 40000 : 6000;
  long seen[16] = {};
  for (int t = 0; t < N; ++t) {
    Rng r(t);
    int kind = t % 3;
    Prob p;
    p.n = r.irange(1, 4); p.m = kind ? r.irange(kind == 1, r.irange(0, 9) == 0 ? p.n + 2 : p.n) : 0; p.k = kind == 2 ? r.irange(1, 4) : 0;
    p.q = r.irange(0, 2) ? 0 : r.real(0, 1); p.re = r.irange(0, 2) ? 0 : r.real(-1, 1); p.ri = r.irange(0, 2) ? 0 : r.real(-1, 1);
    auto mat = [&](int a, int b) { Eigen::MatrixXd m_(a, b); for (int i = 0; i < a; ++i) for (int j = 0; j < b; ++j) m_(i, j) = r.irange(0, 3) ? r.real(-2, 2) : 0; return m_; };
    Eigen::MatrixXd L = mat(p.n, p.n); p.Q = L.transpose() * L; if (r.irange(0, 3) == 0) p.Q = mat(p.n, p.n); else if (r.irange(0, 5) == 0) p.Q.setZero();
    p.Ae = mat(p.m, p.n); p.Ai = mat(p.k, p.n);
    p.b = V(p.n); p.x0 = V(p.n); p.be = V(p.m); p.bi = V(p.k);
    for (int i = 0; i < p.n; ++i) { p.b(i) = r.real(-2, 2); p.x0(i) = r.irange(0, 2) ? r.real(-2, 2) : 0; }
    for (int i = 0; i < p.m; ++i) p.be(i) = r.real(-2, 2);
    for (int i = 0; i < p.k; ++i) p.bi(i) = r.real(-2, 2);
    p.poison = r.irange(0, 1) ? 0 : 10 * r.irange(1, 7) + (r.irange(0, 9) == 0 ? 3 : r.irange(0, 2)); p.where = r.pick(std::vector<double>{1e-9, 0.1, 0.6, 1, 3});
    slp::Options o;
    o.tolerance = r.pick(std::vector<double>{1e-8, 1e-6, 1e-2}); o.max_iterations = r.pick(std::vector<int>{0, 1, 2, 5, 60, 60, 60});
    bool tm = r.irange(0, 9) == 0; if (tm) o.timeout = std::chrono::duration<double>(0);
    int mode = r.irange(0, 3), at = r.irange(1, 4), ncb = mode == 0 ? r.irange(0, 1) : r.irange(1, 3);
    CASE();
    Run u = run(p, kind, o, [&](const Info& i, int c) { return mode == 2 ? c == at : mode == 3 ? i.x.size() > p.n : false; }, ncb);
    const char* nm = NAMES[kind];
    int st = static_cast<int>(u.st);
    ++seen[st + 11];
    CHECK(st >= -10 && st <= 1 && st != -3, "%s case %d: status %d", nm, t, st);
    CHECK((st == 1) == u.stopped, "%s case %d: status %d, a callback requested a stop: %d (restoring %d)", nm, t, st, u.stopped, u.restoring);
    CHECK(u.after == 0, "%s case %d: %d callback calls after a requested stop", nm, t, u.after);
    CHECK((st == -1) == (p.m > p.n), "%s case %d: status %d with %d equality constraints for %d variables", nm, t, st, p.m, p.n);
    if (p.m <= p.n) CHECK(p.finite_start(p.x0, kind) == (st != -7), "%s case %d: status %d, start finite %d (poison %d)", nm, t, st, p.finite_start(p.x0, kind), p.poison);
    if (st == 0) { double e = error(p, kind, u.x, u.s, u.y, u.z); CHECK(e <= o.tolerance * 1.0001 + 1e-12, "%s case %d: success with optimality error %g, tolerance %g (poison %d)", nm, t, e, o.tolerance, p.poison); }
    CHECK(!u.badpoint, "%s case %d: a callback saw a gradient of another point", nm, t);
    CHECK(!u.badit, "%s case %d: a callback saw an iteration number going back or beyond the limit %d (last %d)", nm, t, o.max_iterations, u.last);
    if (!tm) CHECK(st != -10, "%s case %d: timeout although there is no limit", nm, t);
    if (tm) CHECK(u.calls <= 1 + u.restoring && u.restoring <= 1, "%s case %d: %d iterations after the time limit", nm, t, u.calls);
    if (tm && ncb && o.max_iterations > 2) CHECK(st != -9, "%s case %d: iteration limit reported after the time limit", nm, t) ;
    if (kind == 2 && st == -9) CHECK(u.iterations >= o.max_iterations, "%s case %d: iteration limit %d reported after %d iterations", nm, t, o.max_iterations, u.iterations);
    if (kind == 2) CHECK(u.iterations <= std::max(1, o.max_iterations), "%s case %d: %d iterations, limit %d", nm, t, u.iterations, o.max_iterations);
    if (st == -9 && mode < 2 && ncb) CHECK(u.last + 1 >= o.max_iterations, "%s case %d: iteration limit %d reported after iteration %d", nm, t, o.max_iterations, u.last);
    if (st == -8) CHECK(kind == 2 || !(u.x.cwiseAbs().maxCoeff() <= 1e10) || !u.x.allFinite(), "%s case %d: divergence reported at a moderate point", nm, t);
  }
  if (getenv("SHOW")) for (int i = 0; i < 13; ++i) printf("status %d: %ld\n", i - 11, seen[i]);
  // A start whose derivatives are not finite only after the first step, a stop requested while feasibility is restored.
  for (int kind = 0; kind < 3; ++kind) {
    Prob p; p.n = 2; p.m = kind ? 1 : 0; p.k = kind == 2 ? 1 : 0; p.q = 0; p.re = p.ri = 0; p.Q = 2 * Eigen::MatrixXd::Identity(2, 2); p.b = V::Zero(2); p.x0 = V::Ones(2);
    p.Ae = Eigen::MatrixXd::Ones(p.m, 2); p.be = V::Zero(p.m); p.Ai = Eigen::MatrixXd::Ones(p.k, 2); p.bi = V::Constant(p.k, -5.0);
    p.poison = 22; p.where = 0.1;
    slp::Options o;
    CASE();
    Run u = run(p, kind, o, [](const Info&, int) { return false; }, 1);
    CHECK(u.st != ExitStatus::SUCCESS || p.g(u.x).allFinite(), "%s: success at a point with NaN derivatives", NAMES[kind]);
    if (!kind) continue;
    p.poison = 31; p.where = 1e-9;
    CASE();
    u = run(p, kind, o, [](const Info& i, int) { return i.x.size() > 2; }, 1);
    CHECK(u.restoring == 1 && u.st == ExitStatus::CALLBACK_REQUESTED_STOP, "%s: stop requested while restoring feasibility (%d): status %d", NAMES[kind], u.restoring, static_cast<int>(u.st));
  }
  return finish();
}
