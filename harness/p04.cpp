// P04: real expressions against an independent evaluation, for later values of the variables.
#include "hzx.hpp"
using namespace hzx;
int main() {
  hz::Rng r(4);
  int rounds = hz::thorough() ? 60000 : 6000;
  for (int t = 0; t < rounds; ++t) {
    Tree T(3);
    int d = r.irange(1, 5);
    T.gen(r, d);
    std::vector<Var> x(3);
    std::vector<double> x0(3);
    for (int i = 0; i < 3; ++i) x[i].set_value(x0[i] = r.irange(0, 4) ? r.real(-2, 2) : r.irange(-1, 2));
    auto v = T.build(x, r.next());
    // compare every subexpression, now and after the variables change
    for (int rep = 0; rep < 3; ++rep) {
      std::vector<char> ok;
      auto w = T.eval(x0, ok, false);
      for (size_t i = 0; i < v.size(); ++i) {
        if (!ok[i]) continue;
        CASE();
        double got = v[i].value();
        CHECK(hz::close(got, (double)w[i].v, 1e-6, 1e-6), "%s at (%.17g, %.17g, %.17g): %.17g, expected %.17g", T.str(i).c_str(), x0[0], x0[1], x0[2], got, (double)w[i].v);
      }
      for (int i = 0; i < 3; ++i) x[i].set_value(x0[i] = r.irange(0, 4) ? r.real(-2, 2) : r.irange(-1, 2));
    }
  }
  // three-argument hypot
  for (int t = 0; t < 500; ++t) {
    Var a, b, c;
    double p = r.real(-3, 3), q = r.real(-3, 3), s = r.irange(0, 3) ? r.real(-3, 3) : 0.0;
    auto h = slp::hypot(a, b, c);
    a.set_value(p); b.set_value(q); c.set_value(s);
    CASE();
    CHECK(hz::close(h.value(), std::hypot(p, q, s), 1e-12), "hypot(%g, %g, %g) = %g", p, q, s, h.value());
  }
  return hz::finish();
}
