// P10: views address exactly the elements they name: reference index lists against the real views.
#include <sleipnir/autodiff/variable_matrix.hpp>
#include "harness.hpp"
using V = slp::Variable<double>;
using M = slp::VariableMatrix<double>;
using B = slp::VariableBlock<M>;
using C = slp::VariableBlock<const M>;
using D = Eigen::MatrixXd;
using S = slp::Slice;
using slp::slicing::_;
static hz::Rng r(10);

template <class X>
static auto& at(X& x, int i, int j) { return x[i, j]; }
using L = std::vector<int>;  // the rows (or columns) of the matrix a view names
static L iota(int n) { L l; for (int i = 0; i < n; ++i) l.push_back(i); return l; }
static L pick(const L& l, const L& at) { L o; for (int i : at) o.push_back(l[i]); return o; }

// A random slice of a sequence of n elements and the positions Python selects with it.
static S slice(int n, L& at) {
  at.clear();
  int form = r.irange(0, 7), a = r.irange(-n - 2, n + 2), b = r.irange(-n - 2, n + 2), t = r.irange(1, 3) * (r.irange(0, 1) ? 1 : -1);
  long A, E, T = 1;
  auto go = [&](bool na, bool nb) {
    long lo = T < 0 ? -1 : 0, hi = T < 0 ? n - 1 : n;
    auto clip = [&](long x) { if (x < 0) { x += n; return x < lo ? lo : x; } return x > hi ? hi : x; };
    A = na ? (T < 0 ? hi : lo) : clip(a);
    E = nb ? (T < 0 ? lo : hi) : clip(b);
    for (long i = A; T > 0 ? i < E : i > E; i += T) at.push_back(i);
  };
  switch (form) {
    case 0: T = 1; go(true, true); return S{_};
    case 1: T = 1; go(false, false); return S{a, b};
    case 2: T = 1; go(true, false); return S{_, b};
    case 3: T = 1; go(false, true); return S{a, _};
    case 4: T = t; go(false, false); return S{a, b, t};
    case 5: T = t; go(true, false); return S{_, b, t};
    case 6: T = t; go(false, true); return S{a, _, t};
    default: T = t; go(true, true); return S{_, _, t};
  }
}

template <class X>
static void same(X& v, const M& A, const L& R, const L& K, const char* what) {
  CASE();
  int n = R.size(), m = K.size();
  CHECK(v.rows() == n && v.cols() == m && (int)v.size() == n * m, "%s: shape %dx%d size %d instead of %dx%d", what, v.rows(), v.cols(), (int)v.size(), n, m);
  if (v.rows() != n || v.cols() != m) return;
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < m; ++j) {
      CHECK(&at(v, i, j) == &at(A, R[i], K[j]), "%s: element (%d, %d) of %dx%d is not element (%d, %d) of the matrix", what, i, j, n, m, R[i], K[j]);
      CHECK(&v[i * m + j] == &at(A, R[i], K[j]), "%s: element [%d] of %dx%d is not element (%d, %d) of the matrix", what, i * m + j, n, m, R[i], K[j]);
    }
  int k = 0;
  const auto& kv = v;
    for (auto& x : v) {
      CHECK(k < n * m && &x == &at(A, R[k / m], K[k % m]), "%s: iteration %d of %dx%d", what, k, n, m);
      if (++k > n * m) break;
    }
  k = 0;
  for (auto& x : kv) {
    if (k >= n * m) { ++k; break; }
    CHECK(&x == &at(A, R[k / m], K[k % m]), "%s: iteration %d of %dx%d", what, k, n, m);
    ++k;
  }
  CHECK(k == n * m, "%s: %d iterations instead of %d", what, k, n * m);
}
template <class X>
static void values(X& v, const D& all, const L& R, const L& K, const char* what) {
  D e = v.value();
  CASE();
  CHECK(e.rows() == (int)R.size() && e.cols() == (int)K.size(), "%s: value() shape", what);
  if (e.rows() != (int)R.size() || e.cols() != (int)K.size()) return;
  for (int i = 0; i < e.rows(); ++i)
    for (int j = 0; j < e.cols(); ++j) {
      CHECK(e(i, j) == all(R[i], K[j]), "%s: value()(%d, %d)", what, i, j);
      CHECK(v.value(i, j) == all(R[i], K[j]), "%s: value(%d, %d)", what, i, j);
      CHECK(v.value(i * e.cols() + j) == all(R[i], K[j]), "%s: value(%d)", what, int(i * e.cols() + j));
    }
}
// Both name the same variable: a value given to one is the other's.
static bool is(V a, V b) {
  double old = b.value();
  b.set_value(old + 1);
  bool ok = a.value() == old + 1;
  b.set_value(old + 7);
  ok = ok && a.value() == old + 7;
  b.set_value(old);
  return ok;
}
static M mk(int n, int m) {
  M a{n, m};
  for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) a[i, j].set_value(100 * i + j + 1 + 1000 * r.irange(0, 50));
  return a;
}
static D num(int n, int m) { D e(n, m); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) e(i, j) = r.real(-5, 5); return e; }

// One step of a chain of views.
template <class X>
static auto step(X& v, L& R, L& K) {
  int n = R.size(), m = K.size();
  using Y = std::remove_cvref_t<decltype(v.block(0, 0, 0, 0))>;
  L a, b;
  switch (r.irange(0, 4)) {
    case 0: {
      int i = r.irange(0, n), j = r.irange(0, m), h = r.irange(0, n - i), w = r.irange(0, m - j);
      for (int x = 0; x < h; ++x) a.push_back(i + x);
      for (int x = 0; x < w; ++x) b.push_back(j + x);
      R = pick(R, a); K = pick(K, b);
      return Y{v.block(i, j, h, w)};
    }
    case 1: if (n) { int i = r.irange(0, n - 1); R = pick(R, {i}); return Y{v.row(i)}; } break;
    case 2: if (m) { int j = r.irange(0, m - 1); K = pick(K, {j}); return Y{v.col(j)}; } break;
    case 3: if (m == 1 && n) { int i = r.irange(0, n - 1), h = r.irange(0, n - i); for (int x = 0; x < h; ++x) a.push_back(i + x); R = pick(R, a); return Y{v.segment(i, h)}; } break;
    default: break;
  }
  if (r.irange(0, 3) == 0) {
    // pre-adjusted slices
    S s = slice(n, a), t = slice(m, b);
    int h = s.adjust(n), w = t.adjust(m);
    R = pick(R, a); K = pick(K, b);
    return Y{v[s, h, t, w]};
  }
  S s = slice(n, a), t = slice(m, b);
  R = pick(R, a); K = pick(K, b);
  return Y{v[s, t]};
}

static void round() {
  int n = r.irange(1, 7), m = r.irange(1, 7);
  if (r.irange(0, 3) == 0) m = 1;
  M A = mk(n, m);
  const M& kA = A;
  D all = A.value();
  L I = iota(n), J = iota(m);
  same(A, A, I, J, "matrix");
  same(kA, A, I, J, "const matrix");
  values(A, all, I, J, "matrix");
  {
    B b{A};
    same(b, A, I, J, "VariableBlock{mat}");
    int i = r.irange(0, n), j = r.irange(0, m), h = r.irange(0, n - i), w = r.irange(0, m - j);
    L a, c;
    for (int x = 0; x < h; ++x) a.push_back(i + x);
    for (int x = 0; x < w; ++x) c.push_back(j + x);
    B b2{A, i, j, h, w};
    same(b2, A, a, c, "VariableBlock{mat, offsets}");
    C c2{kA, i, j, h, w};
    same(c2, A, a, c, "VariableBlock{const mat, offsets}");
  }
  // chains of views, mutable and const
  {
    L R = I, K = J;
    auto v = step(A, R, K);
    same(v, A, R, K, "view");
    values(v, all, R, K, "view");
    for (int d = 0; d < 3; ++d) {
      if (r.irange(0, 1)) {
        const B& kv = v;
        L R2 = R, K2 = K;
        auto w = step(kv, R2, K2);
        same(w, A, R2, K2, "const view of a view");
        L R3 = R2, K3 = K2;
        const auto& kw = w;
        auto z = step(kw, R3, K3);
        same(z, A, R3, K3, "const view of a const view");
      }
      auto w = step(v, R, K);
      same(w, A, R, K, "view of a view");
      values(w, all, R, K, "view of a view");
      const B& kw = w;
      same(kw, A, R, K, "view of a view, const");
      // construct a new matrix from it: the same expressions, in the same places
      M f{w};
      CASE();
      CHECK(f.rows() == (int)R.size() && f.cols() == (int)K.size(), "VariableMatrix{view}: shape");
      for (int i = 0; i < f.rows(); ++i) for (int j = 0; j < f.cols(); ++j) CHECK(is(at(f, i, j), at(A, R[i], K[j])), "VariableMatrix{view}: element (%d, %d)", i, j);
      // writes reach exactly the named elements
      int h = w.rows(), q = w.cols();
      D e = num(h, q), exp = all;
      for (int i = 0; i < h; ++i) for (int j = 0; j < q; ++j) exp(R[i], K[j]) = e(i, j);
      switch (r.irange(0, 4)) {
        case 0: w.set_value(e); break;
        case 1: { M s = mk(h, q); s.set_value(e); w = s; break; }
        case 2: { M s = mk(h, q); s.set_value(e); B sv{s}; w = sv; break; }
        case 3: { M s = mk(h, q); s.set_value(e); w = M{s}; break; }
        default: if (h == 1 && q == 1) { w.set_value(e(0, 0)); } else { M s = mk(h, q); s.set_value(e); w = B{s}; }
      }
      CASE();
      for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) CHECK(at(A, i, j).value() == exp(i, j), "assignment through a view: element (%d, %d) is %g instead of %g", i, j, at(A, i, j).value(), exp(i, j));
      all = exp;
      v.~B();
      new (&v) B{w};
    }
  }
  // const matrix chains, reverse iteration
  {
    L R = I, K = J;
    auto v = step(kA, R, K);
    same(v, A, R, K, "const view of a const matrix");
    auto w = step(v, R, K);
    const auto& kw = w;
    same(kw, A, R, K, "view of a const view");
    int k = R.size() * K.size();
    auto v2 = A[S{_, _, -1}, S{_}];
    int q = n * m;
    for (auto it = v2.end(); it != v2.begin();) { --it; --q; CHECK(&*it == &at(A, n - 1 - q / m, q % m), "backward iteration of a view"); }
    q = n * m;
    for (auto it = A.end(); it != A.begin();) { it--; --q; CHECK(&*it == &at(A, q / m, q % m), "backward iteration of a matrix"); }
    q = n * m;
    for (auto it = kw.end(); it != kw.begin();) { --it; --k; CHECK(&*it == &at(A, R[k / K.size()], K[k % K.size()]), "backward iteration of a const view"); }
    CASE();
    CHECK(k == 0, "backward iteration count");
  }
  // rebinding a view that has no matrix, scalar access, Eigen assignment
  {
    M Z = mk(n, m);
    D e = num(n, m);
    Z = e;
    CASE();
    for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) CHECK(at(Z, i, j).value() == e(i, j), "matrix = Eigen: element (%d, %d)", i, j);
    M Y{e};
    for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) CHECK(at(Y, i, j).value() == e(i, j), "VariableMatrix{Eigen}: element (%d, %d)", i, j);
    auto y = Y[S{_, _, -1}, S{_}];
    y = e;
    for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) CHECK(at(Y, n - 1 - i, j).value() == e(i, j), "view = Eigen: element (%d, %d)", i, j);
    Eigen::VectorXd d = num(n, 1);
    M G{d.asDiagonal()};
    CHECK(G.rows() == n && G.cols() == n, "VariableMatrix{diagonal}: shape");
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) CHECK(at(G, i, j).value() == (i == j ? d(i) : 0.0), "VariableMatrix{diagonal}: element (%d, %d)", i, j);
    std::vector<V> vs(n * m);
    M P{std::span<const V>{vs}, n, m}, Q{std::span<const V>{vs}};
    CHECK(Q.rows() == n * m && Q.cols() == 1, "VariableMatrix{span}: shape");
    for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) CHECK(is(at(P, i, j), vs[i * m + j]) && is(Q[i * m + j], vs[i * m + j]), "VariableMatrix{span}: element (%d, %d)", i, j);
    std::vector<std::vector<V>> nv(n);
    std::vector<std::vector<double>> nd(n);
    for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) { nv[i].push_back(vs[i * m + j]); nd[i].push_back(e(i, j)); }
    M N{nv}, O{nd};
    CHECK(N.rows() == n && N.cols() == m && O.rows() == n && O.cols() == m, "VariableMatrix{nested}: shape");
    for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) CHECK(is(at(N, i, j), vs[i * m + j]) && at(O, i, j).value() == e(i, j), "VariableMatrix{nested}: element (%d, %d)", i, j);
    V a, b, c, f, g, h;
    M T{{a, b, c}, {f, g, h}};
    CHECK(T.rows() == 2 && T.cols() == 3 && is(at(T, 0, 0), a) && is(at(T, 0, 2), c) && is(at(T, 1, 0), f) && is(at(T, 1, 1), g), "VariableMatrix{lists}");
    V x = A.block(n - 1, m - 1, 1, 1);
    CHECK(is(x, at(A, n - 1, m - 1)), "1x1 view as a Variable");
    M one{a};
    V o = one;
    CHECK(is(o, a) && one.rows() == 1 && one.cols() == 1, "1x1 matrix as a Variable");
    M c1{n}, c2{n, m};
    CHECK(c1.rows() == n && c1.cols() == 1 && (int)c1.size() == n && c2.rows() == n && c2.cols() == m && (int)c2.size() == n * m, "VariableMatrix{rows, cols}: shape");
  }
}
int main() {
  int rounds = hz::thorough() ? 60000 : 3000;
  for (int t = 0; t < rounds; ++t) round();
  return hz::finish();
}
