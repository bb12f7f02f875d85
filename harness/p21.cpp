#include "hzm.hpp"
#include <map>
#include <set>
#include <tuple>
#include <sleipnir/optimization/solver/util/append_as_triplets.hpp>
#include <sleipnir/optimization/solver/util/all_finite.hpp>
using namespace hz;
using T = Eigen::Triplet<double>;
using K = std::tuple<int, int, double>;
static std::multiset<K> entries(const gch::small_vector<T>& t, size_t from) { std::multiset<K> s; for (size_t i = from; i < t.size(); ++i) s.insert({t[i].row(), t[i].col(), t[i].value()}); return s; }
static void want(std::multiset<K>& s, const M& m, int r, int c) { for (int k = 0; k < m.outerSize(); ++k) for (M::InnerIterator it{m, k}; it; ++it) s.insert({r + (int)it.row(), c + (int)it.col(), it.value()}); }
static bool sorted(const gch::small_vector<T>& t, size_t from) { for (size_t i = from + 1; i < t.size(); ++i) if (std::pair(t[i].col(), t[i].row()) < std::pair(t[i - 1].col(), t[i - 1].row())) return false; return true; }
int main() {
  Rng r;
  int N = thorough() ? 60000 : 6000;
  for (int i = 0; i < N; ++i) {
    CASE();
    gch::small_vector<T> t;
    int pre = r.irange(0, 4);
    for (int j = 0; j < pre; ++j) t.emplace_back(j, j, j + 0.5);
    int nb = r.irange(1, 4), cols = r.irange(0, 5), ro = r.irange(0, 5), co = r.irange(0, 5);
    std::vector<M> b;
    for (int j = 0; j < nb; ++j) { M m = sp(r, r.irange(0, 4), cols, r.irange(0, 3) * 0.33); if (r.irange(0, 3) == 0) { m.reserve(Eigen::VectorXi::Constant(cols, 3)); } b.push_back(m); }
    if (nb == 1) slp::append_as_triplets(t, ro, co, {b[0]});
    if (nb == 2) slp::append_as_triplets(t, ro, co, {b[0], b[1]});
    if (nb == 3) slp::append_as_triplets(t, ro, co, {b[0], b[1], b[2]});
    if (nb == 4) slp::append_as_triplets(t, ro, co, {b[0], b[1], b[2], b[3]});
    std::multiset<K> w;
    int off = ro;
    for (auto& m : b) { want(w, m, off, co); off += m.rows(); }
    CHECK(entries(t, pre) == w, "stacked blocks: %zu triplets, expected %zu (nb=%d cols=%d ro=%d co=%d)", t.size() - pre, w.size(), nb, cols, ro, co);
    CHECK(sorted(t, pre), "triplets not in column-major order");
    for (int j = 0; j < pre; ++j) CHECK(t[j].row() == j && t[j].col() == j && t[j].value() == j + 0.5, "earlier triplet %d changed", j);
    size_t before = t.size();
    V d = vec(r, r.irange(0, 6));
    if (r.irange(0, 3) == 0) d.setZero();
    auto keep = entries(t, 0);
    slp::append_diagonal_as_triplets(t, ro, co, d);
    CHECK(t.size() == before + d.size(), "diagonal triplet count");
    for (int j = 0; j < d.size(); ++j) CHECK(t[before + j].row() == ro + j && t[before + j].col() == co + j && t[before + j].value() == d(j), "diagonal element %d", j);
    // finiteness
    M a = b[r.irange(0, nb - 1)];
    bool fin = true;
    if (a.nonZeros() && r.irange(0, 1)) {
      int pick = r.irange(0, (int)a.nonZeros() - 1), q = 0;
      double bad[] = {INFINITY, -INFINITY, NAN, 1e308};
      double v = bad[r.irange(0, 3)];
      for (int k = 0; k < a.outerSize(); ++k) for (M::InnerIterator it{a, k}; it; ++it) if (q++ == pick) it.valueRef() = v;
      fin = std::isfinite(v);
    }
    CHECK(slp::all_finite(a) == fin, "all_finite(matrix) should be %d", fin);
    Eigen::SparseVector<double> sv(8);
    fin = true;
    for (int k = 0; k < 8; ++k) if (r.irange(0, 2) == 0) { double v = r.irange(0, 6) == 0 ? (r.irange(0, 1) ? NAN : -INFINITY) : r.real(-1, 1); sv.insert(k) = v; fin &= std::isfinite(v); }
    CHECK(slp::all_finite(sv) == fin, "all_finite(vector) should be %d", fin);
  }
  return finish();
}
