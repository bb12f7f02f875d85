// P11: matrix arithmetic against dense element formulas.
#include <sleipnir/autodiff/variable_matrix.hpp>
#include <functional>
#include "harness.hpp"
using V = slp::Variable<double>;
using M = slp::VariableMatrix<double>;
using D = Eigen::MatrixXd;
using S = slp::Slice;
static hz::Rng r(11);

// A matrix of decision variables and constants; vals() are its current element values.
static M mk(int n, int m) {
  M a{n, m};
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < m; ++j) {
      int k = r.irange(0, 5);
      if (k == 0) a[i, j] = 0.0;
      else if (k == 1) a[i, j] = r.real(-2, 2);
      else a[i, j].set_value(r.real(-2, 2));
    }
  return a;
}
static D num(int n, int m) {
  D a(n, m);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < m; ++j) a(i, j) = r.irange(0, 4) == 0 ? r.irange(-1, 1) : r.real(-2, 2);
  return a;
}
static void again(M& a) {  // new values for the decision variables
  for (auto& x : a)
    if (x.type() == slp::ExpressionType::LINEAR) x.set_value(r.real(-2, 2));
}
static void same(M x, const D& e, const char* what) {
  CASE();
  CHECK(x.rows() == e.rows() && x.cols() == e.cols(), "%s: shape %dx%d instead of %dx%d", what, x.rows(), x.cols(), (int)e.rows(), (int)e.cols());
  if (x.rows() != e.rows() || x.cols() != e.cols()) return;
  CHECK((int)x.size() == x.rows() * x.cols(), "%s: size", what);
  for (int i = 0; i < e.rows(); ++i)
    for (int j = 0; j < e.cols(); ++j) {
      double g = x[i, j].value();
      CHECK(hz::close(g, e(i, j), 1e-9, 1e-9), "%s: element (%d, %d) of %dx%d is %.12g instead of %.12g", what, i, j, (int)e.rows(), (int)e.cols(), g, e(i, j));
    }
}
// Runs f on symbolic operands, g on their values, before and after new variable values.
static void both(const char* what, std::vector<M*> ops, M res, const std::function<D()>& g) {
  same(res, g(), what);
  for (auto o : ops) again(*o);
  same(res, g(), what);
}
// A view of a fresh matrix, its storage kept alive by the caller.
struct Vw { M base; slp::VariableBlock<M> v; int n, m; };
static slp::VariableBlock<M> view(M& b, int n, int m, int kind) {
  switch (kind) {
    case 0: return b.block(1, 2, n, m);
    case 1: return b[S{1, 2 * n + 1, 2}, S{2, m + 2}];
    case 2: return b[S{n, 0, -1}, S{m + 1, 1, -1}];
    default: return b[S{0, 2 * n, 2}, S{1, 3 * m + 1, 3}];
  }
}
static D ev(M& a) { return a.value(); }
static D ev(slp::VariableBlock<M>& a) { return a.value(); }

static void round() {
  int n = r.irange(1, 4), k = r.irange(1, 4), m = r.irange(1, 4);
  M A = mk(n, k), B = mk(k, m), C = mk(n, k), Q = mk(k, k);
  M bA = mk(2 * n + 2, 3 * k + 3), bB = mk(2 * k + 2, 3 * m + 3), bC = mk(2 * n + 2, 3 * k + 3), bQ = mk(2 * k + 2, 3 * k + 3);
  auto vA = view(bA, n, k, r.irange(0, 3));
  auto vB = view(bB, k, m, r.irange(0, 3));
  auto vC = view(bC, n, k, r.irange(0, 3));
  auto vQ = view(bQ, k, k, r.irange(0, 3));
  const M& kA = bA;
  const auto cA = kA.block(1, 1, n, k);
  D eA = num(n, k), eB = num(k, m), eC = num(n, k), eQ = num(k, k);
  V s;
  s.set_value(r.real(0.5, 2));
  double d = r.real(0.5, 2);
  D cv = bA.value().block(1, 1, n, k);
  auto cval = [&]() -> D { return D(bA.value().block(1, 1, n, k)); };
  both("A + C", {&A, &C}, A + C, [&]() -> D { return ev(A) + ev(C); });
  both("A + vC", {&A, &bC}, A + vC, [&]() -> D { return ev(A) + ev(vC); });
  both("vA + C", {&bA, &C}, vA + C, [&]() -> D { return ev(vA) + ev(C); });
  both("vA + vC", {&bA, &bC}, vA + vC, [&]() -> D { return ev(vA) + ev(vC); });
  both("e + C", {&C}, eA + C, [&]() -> D { return eA + ev(C); });
  both("A + e", {&A}, A + eC, [&]() -> D { return ev(A) + eC; });
  both("vA + e", {&bA}, vA + eC, [&]() -> D { return ev(vA) + eC; });
  both("e + vC", {&bC}, eA + vC, [&]() -> D { return eA + ev(vC); });
  both("cA + C", {&bA, &C}, cA + C, [&]() -> D { return cval() + ev(C); });
  both("A - C", {&A, &C}, A - C, [&]() -> D { return ev(A) - ev(C); });
  both("A - vC", {&A, &bC}, A - vC, [&]() -> D { return ev(A) - ev(vC); });
  both("vA - C", {&bA, &C}, vA - C, [&]() -> D { return ev(vA) - ev(C); });
  both("vA - vC", {&bA, &bC}, vA - vC, [&]() -> D { return ev(vA) - ev(vC); });
  both("e - C", {&C}, eA - C, [&]() -> D { return eA - ev(C); });
  both("A - e", {&A}, A - eC, [&]() -> D { return ev(A) - eC; });
  both("vA - e", {&bA}, vA - eC, [&]() -> D { return ev(vA) - eC; });
  both("e - vC", {&bC}, eA - vC, [&]() -> D { return eA - ev(vC); });
  both("cA - C", {&bA, &C}, cA - C, [&]() -> D { return cval() - ev(C); });
  both("A * B", {&A, &B}, A * B, [&]() -> D { return ev(A) * ev(B); });
  both("A * vB", {&A, &bB}, A * vB, [&]() -> D { return ev(A) * ev(vB); });
  both("vA * B", {&bA, &B}, vA * B, [&]() -> D { return ev(vA) * ev(B); });
  both("vA * vB", {&bA, &bB}, vA * vB, [&]() -> D { return ev(vA) * ev(vB); });
  both("e * B", {&B}, eA * B, [&]() -> D { return eA * ev(B); });
  both("A * e", {&A}, A * eB, [&]() -> D { return ev(A) * eB; });
  both("vA * e", {&bA}, vA * eB, [&]() -> D { return ev(vA) * eB; });
  both("e * vB", {&bB}, eA * vB, [&]() -> D { return eA * ev(vB); });
  both("cA * B", {&bA, &B}, cA * B, [&]() -> D { return cval() * ev(B); });
  both("A * A^T", {&A}, A * A.T(), [&]() -> D { return ev(A) * ev(A).transpose(); });
  both("-A", {&A}, -A, [&]() -> D { return -ev(A); });
  both("-vA", {&bA}, -vA, [&]() -> D { return -ev(vA); });
  both("-cA", {&bA}, -cA, [&]() -> D { return -cval(); });
  both("A s", {&A}, A * s, [&]() -> D { return ev(A) * s.value(); });
  both("s A", {&A}, s * A, [&]() -> D { return ev(A) * s.value(); });
  both("vA s", {&bA}, vA * s, [&]() -> D { return ev(vA) * s.value(); });
  both("s vA", {&bA}, s * vA, [&]() -> D { return ev(vA) * s.value(); });
  both("cA s", {&bA}, cA * s, [&]() -> D { return cval() * s.value(); });
  both("A d", {&A}, A * d, [&]() -> D { return ev(A) * d; });
  both("d A", {&A}, d * A, [&]() -> D { return ev(A) * d; });
  both("vA d", {&bA}, vA * d, [&]() -> D { return ev(vA) * d; });
  both("d vA", {&bA}, d * vA, [&]() -> D { return ev(vA) * d; });
  both("A / s", {&A}, A / s, [&]() -> D { return ev(A) / s.value(); });
  both("vA / s", {&bA}, vA / s, [&]() -> D { return ev(vA) / s.value(); });
  both("A / d", {&A}, A / d, [&]() -> D { return ev(A) / d; });
  both("vA / d", {&bA}, vA / d, [&]() -> D { return ev(vA) / d; });
  both("A^T", {&A}, A.T(), [&]() -> D { return D(ev(A).transpose()); });
  both("vA^T", {&bA}, vA.T(), [&]() -> D { return D(ev(vA).transpose()); });
  both("cA^T", {&bA}, cA.T(), [&]() -> D { return D(cval().transpose()); });
  auto f1 = [](const V& x) { return 2.0 * x + x * x; };
  auto n1 = [](double x) { return 2.0 * x + x * x; };
  both("transform A", {&A}, A.cwise_transform(f1), [&]() -> D { return D(ev(A).unaryExpr(n1)); });
  both("transform vA", {&bA}, vA.cwise_transform(f1), [&]() -> D { return D(ev(vA).unaryExpr(n1)); });
  auto f2 = [](const V& x, const V& y) { return x - 3.0 * y; };
  both("reduce", {&A, &C}, slp::cwise_reduce<double>(A, C, f2), [&]() -> D { return D(ev(A) - 3.0 * ev(C)); });

  // compound assignments: elements change in place, everything else stays
  for (int op = 0; op < 10; ++op) {
    M x = A, y = C, q = Q, bx = bA, by = bC, bq = bQ;
    D X = ev(x), Y = ev(y), Qv = ev(q);
    auto vx = view(bx, n, k, op % 4), vy = view(by, n, k, (op + 1) % 4), vq = view(bq, k, k, (op / 2) % 4);
    D VX = ev(vx), VY = ev(vy), VQ = ev(vq), all = bx.value(), allq = bq.value();
    switch (op) {
      case 0: { x += y; same(x, X + Y, "A += C"); vx += y; same(M{vx}, VX + Y, "vA += C"); break; }
      case 1: { x -= y; same(x, X - Y, "A -= C"); vx -= y; same(M{vx}, VX - Y, "vA -= C"); break; }
      case 2: { x += vy; same(x, X + VY, "A += vC"); vx += vy; same(M{vx}, VX + VY, "vA += vC"); break; }
      case 3: { x -= vy; same(x, X - VY, "A -= vC"); vx -= vy; same(M{vx}, VX - VY, "vA -= vC"); break; }
      case 4: { x += eC; same(x, X + eC, "A += e"); vx -= eC; same(M{vx}, VX - eC, "vA -= e"); break; }
      case 5: { x *= q; same(x, X * Qv, "A *= Q"); vx *= q; same(M{vx}, VX * Qv, "vA *= Q"); break; }
      case 6: { x *= eQ; same(x, X * eQ, "A *= e"); vx *= eQ; same(M{vx}, VX * eQ, "vA *= e"); break; }
      case 7: { x *= vq; same(x, X * VQ, "A *= vQ"); q *= q; same(q, Qv * Qv, "Q *= Q"); vq *= vq; same(M{vq}, VQ * VQ, "vQ *= vQ"); break; }
      case 8: { x *= s; same(x, X * s.value(), "A *= s"); vx /= s; same(M{vx}, VX / s.value(), "vA /= s"); x = A; x /= d; same(x, X / d, "A /= d"); break; }
      case 9: {
        x[n - 1, k - 1] = 1.5; X = ev(x);
        x *= x[0, 0]; same(x, X * X(0, 0), "A *= A[0, 0]");
        x = A; x[0, 0] = 1.25; X = ev(x); x /= x[0, 0]; same(x, X / 1.25, "A /= A[0, 0]");
        vx[0, 0] = 1.75; VX = ev(vx); vx /= vx[0, 0]; same(M{vx}, VX / 1.75, "vA /= vA[0, 0]"); break;
      }
    }
    // outside the view nothing changed
    int changed = 0;
    for (int i = 0; i < bx.rows(); ++i)
      for (int j = 0; j < bx.cols(); ++j) {
        bool in = false;
        for (int a = 0; a < n && !in; ++a)
          for (int b = 0; b < k && !in; ++b) in = &vx[a, b] == &bx[i, j];
        if (!in && !hz::close(bx[i, j].value(), all(i, j))) ++changed;
      }
    CASE();
    CHECK(changed == 0, "compound assignment %d changed %d elements outside the view", op, changed);
  }
  {
    M one = mk(1, 1);
    double v0 = one[0, 0].value();
    M o2 = one;
    o2 += s; same(o2, D::Constant(1, 1, v0 + s.value()), "1x1 += s");
    o2 -= d; same(o2, D::Constant(1, 1, v0 + s.value() - d), "1x1 -= d");
    auto w = bA.block(0, 0, 1, 1);
    double w0 = w[0, 0].value();
    w += d; same(M{w}, D::Constant(1, 1, w0 + d), "view += d");
    w -= s; same(M{w}, D::Constant(1, 1, w0 + d - s.value()), "view -= s");
  }
  // constructors
  int p = r.irange(0, 5), q = r.irange(0, 5);
  same(M::zero(p, q), D::Zero(p, q), "zero");
  same(M::one(p, q), D::Ones(p, q), "one");
  same(M::constant(p, q, d), D::Constant(p, q, d), "constant");
  same(M::identity(p), D::Identity(p, p), "identity");
  // block assembly from a random grid
  {
    int R = r.irange(1, 3);
    std::vector<int> hs;
    int total = r.irange(1, 5), rows = 0;
    std::vector<std::vector<M>> g;
    for (int i = 0; i < R; ++i) {
      int h = r.irange(1, 3), left = total;
      std::vector<M> row;
      while (left > 0) { int w = r.irange(1, left); row.push_back(mk(h, w)); left -= w; }
      rows += h;
      hs.push_back(h);
      g.push_back(row);
    }
    D e(rows, total);
    int ro = 0;
    for (int i = 0; i < R; ++i) {
      int co = 0;
      for (auto& x : g[i]) { e.block(ro, co, x.rows(), x.cols()) = x.value(); co += x.cols(); }
      ro += hs[i];
    }
    same(slp::block<double>(g), e, "block(vector)");
    M a = mk(1, 2), b = mk(1, 1), c = mk(2, 1), dd = mk(2, 2);
    D e2(3, 3);
    e2.block(0, 0, 1, 2) = a.value(); e2.block(0, 2, 1, 1) = b.value(); e2.block(1, 0, 2, 1) = c.value(); e2.block(1, 1, 2, 2) = dd.value();
    same(slp::block<double>({{a, b}, {c, dd}}), e2, "block(list)");
  }
}
int main() {
  int rounds = hz::thorough() ? 6000 : 400;
  for (int t = 0; t < rounds; ++t) round();
  return hz::finish();
}
