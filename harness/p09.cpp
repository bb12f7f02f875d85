// P09: stored constraints against the comparison that was written.
#include <sleipnir/autodiff/variable_matrix.hpp>
#include <functional>
#include "harness.hpp"
using V = slp::Variable<double>;
using M = slp::VariableMatrix<double>;
using D = Eigen::MatrixXd;
using S = slp::Slice;
using EQ = slp::EqualityConstraints<double>;
using IN = slp::InequalityConstraints<double>;
static hz::Rng r(9);
static V at(const M& m, int i, int j) { return m[i, j]; }

static double val() { return r.irange(0, 2) ? r.irange(-2, 2) : r.real(-2, 2); }
static M mk(int n, int m) {
  M a{n, m};
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < m; ++j) {
      int k = r.irange(0, 3);
      if (k == 0) a[i, j] = val();
      else if (k == 1) { V x; x.set_value(val()); a[i, j] = x * 2.0 + 1.0; }
      else a[i, j].set_value(val());
    }
  return a;
}
static D num(int n, int m) {
  D a(n, m);
  for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) a(i, j) = val();
  return a;
}
static D ev(const M& a) { M b = a; D d(b.rows(), b.cols()); for (int i = 0; i < d.rows(); ++i) for (int j = 0; j < d.cols(); ++j) { V x = at(a, i, j); d(i, j) = x.value(); } return d; }
static D bc(double x, int n, int m) { return D::Constant(n, m, x); }

// The entries of c are those of diff, row by row.
template <class C> void same(C c, const std::vector<D>& diffs, bool eq, const char* what) {
  CASE();
  size_t n = 0;
  for (auto& d : diffs) n += d.size();
  CHECK(c.constraints.size() == n, "%s: %zu entries instead of %zu", what, (size_t)c.constraints.size(), n);
  if (c.constraints.size() != n) return;
  size_t k = 0;
  bool all = true;
  for (auto& d : diffs)
    for (int i = 0; i < d.rows(); ++i)
      for (int j = 0; j < d.cols(); ++j, ++k) {
        double g = c.constraints[k].value();
        CHECK(g == d(i, j), "%s: entry %zu is %.17g instead of %.17g", what, k, g, d(i, j));
        all = all && (eq ? d(i, j) == 0 : d(i, j) >= 0);
      }
  CHECK(static_cast<bool>(c) == all, "%s: conversion to bool is %d", what, (int)!all);
}
template <class L, class R> void cmp(const L& l, const R& x, const D& a, const D& b, const char* what) {
  std::string w = what;
  same<EQ>(l == x, {a - b}, true, (w + " ==").c_str());
  same<IN>(l >= x, {a - b}, false, (w + " >=").c_str());
  same<IN>(l > x, {a - b}, false, (w + " >").c_str());
  same<IN>(l <= x, {b - a}, false, (w + " <=").c_str());
  same<IN>(l < x, {b - a}, false, (w + " <").c_str());
}
static slp::VariableBlock<M> view(M& b, int n, int m, int kind) {
  switch (kind) {
    case 0: return b.block(1, 2, n, m);
    case 1: return b[S{1, 2 * n + 1, 2}, S{2, m + 2}];
    case 2: return b[S{n, 0, -1}, S{m + 1, 1, -1}];
    default: return b[S{0, 2 * n, 2}, S{1, 3 * m + 1, 3}];
  }
}
static D ev(slp::VariableBlock<M> a) { D d(a.rows(), a.cols()); for (int i = 0; i < d.rows(); ++i) for (int j = 0; j < d.cols(); ++j) { V x = a[i, j]; d(i, j) = x.value(); } return d; }

int main() {
  const int N = hz::thorough() ? 4000 : 600;
  for (int it = 0; it < N; ++it) {
    int n = r.irange(1, 4), m = r.irange(1, 4);
    if (it % 20 == 0) (it % 40 ? n : m) = 0;
    M a = mk(n, m), b = mk(n, m);
    const M ca = mk(n, m);
    D e = num(n, m);
    double d = val();
    int i = r.irange(-2, 2);
    V v; v.set_value(val());
    V w = r.irange(0, 1) ? V{val()} : v + 1.0;
    D vd = D::Constant(1, 1, v.value()), wd = D::Constant(1, 1, w.value());
    cmp(v, w, vd, wd, "variable, variable");
    cmp(v, d, vd, bc(d, 1, 1), "variable, number");
    cmp(d, v, bc(d, 1, 1), vd, "number, variable");
    cmp(v, i, vd, bc(i, 1, 1), "variable, int");
    cmp(i, v, bc(i, 1, 1), vd, "int, variable");
    cmp(a, b, ev(a), ev(b), "matrix, matrix");
    cmp(a, a, ev(a), ev(a), "matrix with itself");
    cmp(a, d, ev(a), bc(d, n, m), "matrix, number");
    cmp(d, a, bc(d, n, m), ev(a), "number, matrix");
    cmp(a, v, ev(a), bc(v.value(), n, m), "matrix, variable");
    cmp(v, a, bc(v.value(), n, m), ev(a), "variable, matrix");
    cmp(a, e, ev(a), e, "matrix, Eigen");
    cmp(e, a, e, ev(a), "Eigen, matrix");
    cmp(v, e, bc(v.value(), n, m), e, "variable, Eigen");
    cmp(e, v, e, bc(v.value(), n, m), "Eigen, variable");
    cmp(ca, b, ev(ca), ev(b), "const matrix, matrix");
    if (n && m) {
      M base = mk(2 * n + 2, 3 * m + 3), base2 = mk(2 * n + 2, 3 * m + 3);
      auto x = view(base, n, m, r.irange(0, 3));
      auto y = view(base2, n, m, r.irange(0, 3));
      auto z = view(base, n, m, r.irange(0, 3));
      cmp(x, y, ev(x), ev(y), "view, view");
      cmp(x, z, ev(x), ev(z), "views of one matrix");
      cmp(x, a, ev(x), ev(a), "view, matrix");
      cmp(a, x, ev(a), ev(x), "matrix, view");
      cmp(x, d, ev(x), bc(d, n, m), "view, number");
      cmp(d, x, bc(d, n, m), ev(x), "number, view");
      cmp(x, v, ev(x), bc(v.value(), n, m), "view, variable");
      cmp(v, x, bc(v.value(), n, m), ev(x), "variable, view");
      cmp(x, e, ev(x), e, "view, Eigen");
      cmp(e, x, e, ev(x), "Eigen, view");
      auto q = ca.block(0, 0, n, m);
      cmp(q, b, ev(ca), ev(b), "const view, matrix");
      same<IN>(slp::bounds(e, x, d), {ev(x) - e, bc(d, n, m) - ev(x)}, false, "bounds(Eigen, view, number)");
    }
    // Lists of constraints keep order.
    std::vector<IN> li; std::vector<EQ> le; std::vector<D> ld;
    for (int k = r.irange(0, 4); k > 0; --k) { M p = mk(r.irange(0, 3), r.irange(1, 3)); li.push_back(p >= d); le.push_back(p == d); ld.push_back(ev(p) - bc(d, p.rows(), p.cols())); }
    same(IN(li), ld, false, "inequalities of a vector");
    same(EQ(le), ld, true, "equalities of a vector");
    same(IN{a >= b, v >= d, e <= a}, {ev(a) - ev(b), vd - bc(d, 1, 1), ev(a) - e}, false, "inequalities of a list");
    same(EQ{a == b, v == d, a == e}, {ev(a) - ev(b), vd - bc(d, 1, 1), ev(a) - e}, true, "equalities of a list");
    double u = val();
    same<IN>(slp::bounds(d, v, u), {vd - bc(d, 1, 1), bc(u, 1, 1) - vd}, false, "bounds(number, variable, number)");
    same<IN>(slp::bounds(d, a, u), {ev(a) - bc(d, n, m), bc(u, n, m) - ev(a)}, false, "bounds(number, matrix, number)");
    same<IN>(slp::bounds(e, a, b), {ev(a) - e, ev(b) - ev(a)}, false, "bounds(Eigen, matrix, matrix)");
    same<IN>(slp::bounds(w, v, v), {vd - wd, vd - vd}, false, "bounds(variable, variable, variable)");
    // The stored entries follow later values of the variables.
    M pa{n, m};  // plain decision variables
    for (auto& y : pa) y.set_value(val());
    auto c = pa - b >= 1.0;
    for (auto& y : pa) y.set_value(val());
    same<IN>(c, {ev(pa) - ev(b) - bc(1.0, n, m)}, false, "after new values");
  }
  return hz::finish();
}
