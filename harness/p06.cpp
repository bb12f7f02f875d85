// P06: gradients of real expressions, numeric and symbolic, against forward-mode differentiation.
#include "hzx.hpp"
#include <sleipnir/autodiff/gradient.hpp>
#include <sleipnir/autodiff/variable_matrix.hpp>
using namespace hzx;
using VM = slp::VariableMatrix<double>;
int main() {
  hz::Rng r(6);
  int rounds = hz::thorough() ? 30000 : 4000;
  for (int t = 0; t < rounds; ++t) {
    Tree T(2);
    int root;
    if (t % 2 == 0) {
      // one operation on two variables or a variable and a constant
      T.n.push_back({"var", -1, -1, 0, 0});
      if (r.irange(0, 2)) T.n.push_back({"var", -1, -1, 1, 0}); else T.n.push_back({"const", -1, -1, -1, r.pick(std::vector<double>{2.0, 3.0, -1.5, 0.5, 1.0})});
      int k = r.irange(0, (int)(un.size() + bi.size()) - 1);
      Node q;
      q.op = k < (int)un.size() ? un[k] : bi[k - un.size()];
      q.a = 0;
      if (k >= (int)un.size()) q.b = 1;
      if (q.b >= 0 && r.irange(0, 2) == 0) std::swap(q.a, q.b);
      T.n.push_back(q);
      root = 2;
    } else {
      root = T.gen(r, r.irange(1, 4));
    }
    std::vector<Var> x(2);
    std::vector<double> x0(2);
    for (int i = 0; i < 2; ++i) x[i].set_value(x0[i] = r.real(-2, 2));
    auto v = T.build(x, r.next());
    VM xm(slp::detail::empty, 2, 1);
    for (int i = 0; i < 2; ++i) xm[i] = x[i];
    slp::Gradient<double> G{v[root], xm};
    auto sym = G.get();
    for (int rep = 0; rep < 2; ++rep) {
      std::vector<char> ok;
      auto w = T.eval(x0, ok, true);
      if (ok[root]) {
        CASE();
        const Eigen::SparseVector<double>& g = G.value();
        for (int j = 0; j < 2; ++j) {
          double e = (double)w[root].d[j];
          CHECK(hz::close(g.coeff(j), e, 1e-6, 1e-6), "d/dx%d %s at (%.17g, %.17g): numeric %.17g, expected %.17g", j, T.str(root).c_str(), x0[0], x0[1], g.coeff(j), e);
          double s = sym[j].value();
          CHECK(hz::close(s, e, 1e-6, 1e-6), "d/dx%d %s at (%.17g, %.17g): symbolic %.17g, expected %.17g", j, T.str(root).c_str(), x0[0], x0[1], s, e);
        }
      }
      for (int i = 0; i < 2; ++i) x[i].set_value(x0[i] = r.real(-2, 2));
    }
  }
  return hz::finish();
}
