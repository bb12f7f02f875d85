// P08: Jacobians and Hessians after any history of value changes, against forward-mode derivatives.
#include "hzx.hpp"
#include <sleipnir/autodiff/gradient.hpp>
#include <sleipnir/autodiff/hessian.hpp>
#include <sleipnir/autodiff/jacobian.hpp>
#include <sleipnir/autodiff/variable_matrix.hpp>
using namespace hzx;
using VM = slp::VariableMatrix<double>;
// one row: c0 + sum a_j x_j + sum q_jk x_j x_k + (optional) s sin(x_p x_q)
struct Row {
  int kind;  // 0 constant, 1 linear, 2 quadratic, 3 nonlinear
  double c0;
  std::vector<double> a, q;
  int p, w;
  double s;
  L val(const std::vector<double>& x) const {
    int n = x.size();
    L v = c0;
    for (int j = 0; j < n; ++j) v += a[j] * x[j];
    for (int j = 0; j < n; ++j) for (int k = 0; k < n; ++k) v += (L)q[j * n + k] * x[j] * x[k];
    return v + s * sinl((L)x[p] * x[w]);
  }
  L d1(const std::vector<double>& x, int i) const {
    int n = x.size();
    L v = a[i];
    for (int k = 0; k < n; ++k) v += (L)(q[i * n + k] + q[k * n + i]) * x[k];
    L t = (L)x[p] * x[w];
    return v + s * cosl(t) * ((i == p ? x[w] : 0) + (i == w ? x[p] : 0));
  }
  L d2(const std::vector<double>& x, int i, int j) const {
    int n = x.size();
    L t = (L)x[p] * x[w];
    L ti = (i == p ? x[w] : 0) + (i == w ? x[p] : 0), tj = (j == p ? x[w] : 0) + (j == w ? x[p] : 0);
    L tij = (i == p && j == w ? 1 : 0) + (i == w && j == p ? 1 : 0);
    return (L)q[i * n + j] + q[j * n + i] + s * (cosl(t) * tij - sinl(t) * ti * tj);
  }
};
static Row row(hz::Rng& r, int n, int kind) {
  Row o{kind, (double)r.irange(-3, 3), std::vector<double>(n), std::vector<double>(n * n), r.irange(0, n - 1), r.irange(0, n - 1), 0.0};
  if (kind >= 1) for (auto& v : o.a) if (r.irange(0, 2)) v = r.irange(-3, 3);
  if (kind >= 2) for (auto& v : o.q) if (!r.irange(0, 2)) v = r.irange(-3, 3);
  if (kind >= 3) o.s = r.irange(1, 3);
  return o;
}
static Var build(const Row& o, const std::vector<Var>& x) {
  int n = x.size();
  Var v{o.c0};
  for (int j = 0; j < n; ++j) if (o.a[j] != 0) v += o.a[j] * x[j];
  for (int j = 0; j < n; ++j) for (int k = 0; k < n; ++k) if (o.q[j * n + k] != 0) v += o.q[j * n + k] * x[j] * x[k];
  if (o.s != 0) v += o.s * slp::sin(x[o.p] * x[o.w]);
  return v;
}
int main() {
  hz::Rng r(8);
  int rounds = hz::thorough() ? 6000 : 700;
  for (int t = 0; t < rounds; ++t) {
    int n = r.irange(1, 5), m = r.irange(1, 5);
    std::vector<Var> x(n);
    std::vector<double> x0(n);
    for (int i = 0; i < n; ++i) x[i].set_value(x0[i] = r.real(-2, 2));
    std::vector<Row> R;
    int mode = r.irange(0, 3);
    VM f(slp::detail::empty, m, 1);
    for (int i = 0; i < m; ++i) {
      R.push_back(row(r, n, mode == 0 ? r.irange(0, 1) : r.irange(0, 3)));
      f[i] = build(R[i], x);
    }
    // differentiate with respect to a shuffled subset
    std::vector<int> sub;
    for (int i = 0; i < n; ++i) if (r.irange(0, 4)) sub.push_back(i);
    if (sub.empty()) sub.push_back(0);
    for (int i = (int)sub.size() - 1; i > 0; --i) std::swap(sub[i], sub[r.irange(0, i)]);
    int k = sub.size();
    VM w(slp::detail::empty, k, 1);
    for (int i = 0; i < k; ++i) w[i] = x[sub[i]];
    int hr = r.irange(0, m - 1);
    slp::Jacobian<double> J{f, w};
    slp::Gradient<double> G{f[hr], w};
    slp::Hessian<double, Eigen::Lower> HL{f[hr], w};
    slp::Hessian<double, Eigen::Lower | Eigen::Upper> HF{f[hr], w};
    auto Js = J.get();
    auto Hs = HF.get();
    for (int rep = 0; rep < 4; ++rep) {
      if (rep > 0) for (int i = 0; i < n; ++i) if (r.irange(0, 1)) x[i].set_value(x0[i] = r.real(-2, 2));
      CASE();
      const auto& j = J.value();
      CHECK(j.rows() == m && j.cols() == k, "Jacobian is %dx%d, expected %dx%d", (int)j.rows(), (int)j.cols(), m, k);
      const auto& g = G.value();
      const auto& hl = HL.value();
      const auto& hf = HF.value();
      for (int a = 0; a < m; ++a)
        for (int b = 0; b < k; ++b) {
          double e = R[a].d1(x0, sub[b]), v = j.coeff(a, b), s = Js[a, b].value();
          CHECK(hz::close(v, e, 1e-9, 1e-9), "J(%d,%d) = %.17g, expected %.17g (row kind %d, evaluation %d)", a, b, v, e, R[a].kind, rep);
          CHECK(hz::close(s, e, 1e-9, 1e-9), "symbolic J(%d,%d) = %.17g, expected %.17g (row kind %d, evaluation %d)", a, b, s, e, R[a].kind, rep);
        }
      for (int a = 0; a < k; ++a) {
        CHECK(hz::close(g.coeff(a), R[hr].d1(x0, sub[a]), 1e-9, 1e-9), "g(%d) = %.17g, expected %.17g (evaluation %d)", a, g.coeff(a), (double)R[hr].d1(x0, sub[a]), rep);
        for (int b = 0; b < k; ++b) {
          double e = R[hr].d2(x0, sub[a], sub[b]), v = hf.coeff(a, b), l = hl.coeff(a, b), s = Hs[a, b].value();
          CHECK(hz::close(v, e, 1e-9, 1e-9), "H(%d,%d) = %.17g, expected %.17g (kind %d, evaluation %d)", a, b, v, e, R[hr].kind, rep);
          CHECK(hz::close(s, e, 1e-9, 1e-9), "symbolic H(%d,%d) = %.17g, expected %.17g (kind %d, evaluation %d)", a, b, s, e, R[hr].kind, rep);
          CHECK(hz::close(l, a >= b ? e : 0.0, 1e-9, 1e-9), "lower H(%d,%d) = %.17g, expected %.17g (kind %d, evaluation %d)", a, b, l, a >= b ? e : 0.0, R[hr].kind, rep);
        }
      }
      for (int c = 0; c < hl.outerSize(); ++c)
        for (Eigen::SparseMatrix<double>::InnerIterator it(hl, c); it; ++it) CHECK(it.row() >= it.col(), "lower Hessian stores (%d,%d)", (int)it.row(), (int)it.col());
    }
  }
  return hz::finish();
}
