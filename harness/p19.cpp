// P19: bound detection on real constraints and their real Jacobian.
#include "hzm.hpp"
#include <limits>
#include <sleipnir/autodiff/jacobian.hpp>
#include <sleipnir/autodiff/variable.hpp>
#include <sleipnir/autodiff/variable_matrix.hpp>
#include <sleipnir/optimization/problem.hpp>
#include <sleipnir/optimization/solver/util/bounds.hpp>
using Var = slp::Variable<double>;
int main() {
  hz::Rng r(19);
  const double inf = std::numeric_limits<double>::infinity();
  int rounds = hz::thorough() ? 20000 : 3000;
  for (int t = 0; t < rounds; ++t) {
    int n = r.irange(1, 4), m = r.irange(0, 7);
    std::vector<Var> x(n);
    std::vector<double> x0(n);
    for (int i = 0; i < n; ++i) { x0[i] = r.irange(0, 2) ? r.irange(-4, 4) * 0.5 : 0.0; x[i].set_value(x0[i]); }
    Var foreign;  // not a decision variable
    double fv = r.irange(-3, 3);
    foreign.set_value(fv);
    std::vector<Var> c;
    struct Row { bool bound; int j; double a, b; };
    std::vector<Row> rows;
    for (int k = 0; k < m; ++k) {
      int j = r.irange(0, n - 1), j2 = r.irange(0, n - 1);
      double a = r.irange(0, 1) ? 1.0 : (r.irange(0, 1) ? -1.0 : r.pick(std::vector<double>{2.0, -2.0, 0.5, -0.25, 4.0}));
      double b = r.irange(-4, 4) * 0.5;
      switch (r.irange(0, 11)) {
        case 0: case 1: case 2: case 3: c.push_back(a * x[j] + b); rows.push_back({true, j, a, b}); break;
        case 4: c.push_back(x[j] * a + x[j] + b); rows.push_back({a + 1 != 0, j, a + 1, b}); break;
        case 5: c.push_back(b - x[j] / 2.0); rows.push_back({true, j, -0.5, b}); break;
        case 6: c.push_back(a * x[j] * x[j] + b); rows.push_back({false, j, 0, 0}); break;
        case 7: if (j != j2) { c.push_back(a * x[j] + x[j2] + b); rows.push_back({false, j, 0, 0}); } break;
        case 8: if (j != j2) { c.push_back(a * x[j] + x[j2] + b - x[j2]); rows.push_back({true, j, a, b}); } break;
        case 9: c.push_back(a * x[j] + foreign); rows.push_back({true, j, a, fv}); break;
        case 10: c.push_back(foreign + b); rows.push_back({false, 0, 0, 0}); break;
        case 11: c.push_back(slp::sin(x[j]) + b); rows.push_back({false, j, 0, 0}); break;
      }
    }
    m = c.size();
    slp::VariableMatrix<double> cm(slp::detail::empty, m, 1), xm(slp::detail::empty, n, 1);
    for (int k = 0; k < m; ++k) cm[k] = c[k];
    for (int i = 0; i < n; ++i) xm[i] = x[i];
    Eigen::SparseMatrix<double, Eigen::RowMajor> A(m, n);
    if (m) { slp::Jacobian<double> J{cm, xm}; A = J.value(); }
    auto res = slp::get_bounds<double>(std::span<Var>(x), std::span<Var>(c), A);
    CASE();
    CHECK((int)res.bounds.size() == n && res.bound_constraint_mask.size() == m, "sizes");
    for (int i = 0; i < n; ++i) CHECK(x[i].value() == x0[i], "variable %d changed from %g to %g", i, x0[i], x[i].value());
    std::vector<double> lo(n, -inf), up(n, inf);
    for (int k = 0; k < m; ++k) {
      CHECK(res.bound_constraint_mask[k] == rows[k].bound, "constraint %d of %d: mask %d", k, m, (int)res.bound_constraint_mask[k]);
      if (!rows[k].bound) continue;
      double d = -rows[k].b / rows[k].a;
      if (rows[k].a > 0) lo[rows[k].j] = std::fmax(lo[rows[k].j], d); else up[rows[k].j] = std::fmin(up[rows[k].j], d);
    }
    bool any = false;
    for (int i = 0; i < n; ++i) {
      CHECK(hz::close(res.bounds[i].first, lo[i]) && hz::close(res.bounds[i].second, up[i]), "variable %d: [%g, %g] want [%g, %g]", i, res.bounds[i].first, res.bounds[i].second, lo[i], up[i]);
      any |= lo[i] > up[i];
    }
    CHECK(any == !res.conflicting_bound_indices.empty(), "conflict %d reported %d", (int)any, (int)res.conflicting_bound_indices.size());
    for (auto [p, q] : res.conflicting_bound_indices) {
      CHECK(p >= 0 && p < m && q >= 0 && q < m, "pair (%ld, %ld)", (long)p, (long)q);
      if (p < 0 || q < 0 || p >= m || q >= m) continue;
      CHECK(rows[p].bound && rows[q].bound && rows[p].j == rows[q].j && rows[p].a > 0 && rows[q].a < 0 && -rows[p].b / rows[p].a > -rows[q].b / rows[q].a, "pair (%ld, %ld) does not conflict", (long)p, (long)q);
    }
  }
  return hz::finish();
}
