// P05: labels against the behaviour of the value along random lines.
#include "hzx.hpp"
using namespace hzx;
int main() {
  hz::Rng r(5);
  int rounds = hz::thorough() ? 60000 : 8000;
  for (int t = 0; t < rounds; ++t) {
    Tree T(3);
    T.gen(r, r.irange(1, 4), r.irange(0, 2) != 0);
    std::vector<Var> x(3);
    for (auto& v : x) v.set_value(r.real(-1, 1));
    auto v = T.build(x, r.next());
    // four equally spaced points on a line
    double p[3], d[3];
    for (int j = 0; j < 3; ++j) { p[j] = r.real(-1, 1); d[j] = r.real(-1, 1); }
    std::vector<std::vector<double>> f(v.size(), std::vector<double>(4));
    std::vector<char> good(v.size(), 1);
    for (int k = 0; k < 4; ++k) {
      std::vector<double> q(3);
      for (int j = 0; j < 3; ++j) x[j].set_value(q[j] = p[j] + (k - 1.5) * d[j]);
      std::vector<char> ok;
      auto w = T.eval(q, ok, false);
      for (size_t i = 0; i < v.size(); ++i) { f[i][k] = (double)w[i].v; if (!ok[i]) good[i] = 0; }
    }
    for (size_t i = 0; i < v.size(); ++i) {
      if (!good[i]) continue;
      CASE();
      auto ty = v[i].type();
      auto& g = f[i];
      double sc = 1e-7 * (1 + std::fabs(g[0]) + std::fabs(g[1]) + std::fabs(g[2]) + std::fabs(g[3]));
      double d1 = g[1] - g[0], d2 = g[2] - 2 * g[1] + g[0], d3 = g[3] - 3 * g[2] + 3 * g[1] - g[0];
      CHECK(ty != slp::ExpressionType::NONE, "%s has no class", T.str(i).c_str());
      if (ty <= slp::ExpressionType::CONSTANT) CHECK(std::fabs(d1) <= sc, "%s labelled constant but varies by %g", T.str(i).c_str(), d1);
      if (ty <= slp::ExpressionType::LINEAR) CHECK(std::fabs(d2) <= sc, "%s labelled linear but has curvature %g", T.str(i).c_str(), d2);
      if (ty <= slp::ExpressionType::QUADRATIC) CHECK(std::fabs(d3) <= sc, "%s labelled quadratic but has third difference %g", T.str(i).c_str(), d3);
    }
  }
  return hz::finish();
}
