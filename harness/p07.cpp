// P07: values and adjoints of shared expression graphs after any history of value changes.
#include "hzx.hpp"
#include <algorithm>
#include <map>
#include <set>
#include <sleipnir/autodiff/expression_graph.hpp>
#include <sleipnir/autodiff/gradient.hpp>
#include <sleipnir/autodiff/variable_matrix.hpp>
using namespace hzx;
using VM = slp::VariableMatrix<double>;
using N = slp::detail::Expression<double>;
static void reach(N* p, std::set<N*>& s) {
  if (!p || !s.insert(p).second) return;
  for (auto& a : p->args) reach(a.get(), s);
}
int main() {
  hz::Rng r(7);
  int rounds = hz::thorough() ? 20000 : 2500;
  for (int t = 0; t < rounds; ++t) {
    int nv = r.irange(1, 4);
    Tree T(nv);
    int root;
    if (t % 3 == 0) {
      // heavily shared ladder
      for (int i = 0; i < nv; ++i) T.n.push_back({"var", -1, -1, i, 0});
      int len = r.irange(1, 12);
      for (int i = 0; i < len; ++i) {
        int m = T.n.size();
        Node q;
        int k = r.irange(0, 4);
        q.op = k == 0 ? "sin" : k == 1 ? "neg" : k == 2 ? "+" : k == 3 ? "-" : "*";
        q.a = r.irange(std::max(0, m - 4), m - 1);
        if (k >= 2) q.b = r.irange(0, 2) ? r.irange(std::max(0, m - 4), m - 1) : q.a;
        T.n.push_back(q);
      }
      root = T.n.size() - 1;
    } else {
      root = T.gen(r, r.irange(1, 5), t % 3 == 1);
    }
    std::vector<Var> x(nv);
    std::vector<double> x0(nv);
    for (int i = 0; i < nv; ++i) x[i].set_value(x0[i] = r.real(-2, 2));
    auto v = T.build(x, r.next());
    // order
    auto list = slp::detail::topological_sort(v[root].expr);
    std::set<N*> S;
    reach(v[root].expr.get(), S);
    for (auto& q : v) reach(q.expr.get(), S);
    CASE();
    for (N* p : S) CHECK(p->scratch == -1, "bookkeeping of a node of %s left at %d", T.str(root).c_str(), p->scratch);
    S.clear();
    reach(v[root].expr.get(), S);
    std::map<N*, int> pos;
    for (size_t i = 0; i < list.size(); ++i) CHECK(pos.emplace(list[i], i).second, "node listed twice for %s", T.str(root).c_str());
    if (v[root].type() != slp::ExpressionType::CONSTANT) {
      CHECK(list.size() == S.size(), "%s: %zu nodes listed of %zu", T.str(root).c_str(), list.size(), S.size());
      for (auto& [p, i] : pos)
        for (auto& a : p->args)
          if (a) CHECK(pos.count(a.get()) && pos[a.get()] > i, "%s: operand listed before its user", T.str(root).c_str());
    }
    VM xm(slp::detail::empty, nv, 1);
    for (int i = 0; i < nv; ++i) xm[i] = x[i];
    slp::Gradient<double> G{v[root], xm};
    for (int rep = 0; rep < 4; ++rep) {
      std::vector<char> ok;
      auto w = T.eval(x0, ok, false);
      // some intermediate expression first
      int mid = r.irange(0, T.n.size() - 1);
      for (int e : {mid, root, mid, root})
        if (ok[e]) {
          CASE();
          double got = v[e].value();
          CHECK(hz::close(got, (double)w[e].v, 1e-9, 1e-9), "%s = %.17g, expected %.17g (evaluation %d)", T.str(e).c_str(), got, (double)w[e].v, rep);
        }
      auto wd = T.eval(x0, ok, true);
      if (ok[root]) {
        const auto& g = G.value();
        for (int j = 0; j < nv; ++j)
          CHECK(hz::close(g.coeff(j), (double)wd[root].d[j], 1e-6, 1e-6), "d/dx%d %s: %.17g, expected %.17g (evaluation %d)", j, T.str(root).c_str(), g.coeff(j), (double)wd[root].d[j], rep);
      }
      for (int i = 0; i < nv; ++i)
        if (r.irange(0, 1)) x[i].set_value(x0[i] = r.real(-2, 2));
    }
  }
  return hz::finish();
}
