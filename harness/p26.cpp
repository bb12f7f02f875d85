#include "harness.hpp"
#include <sleipnir/util/scope_exit.hpp>
#include <memory>
#include <optional>
#include <vector>
#include <type_traits>
struct A { int* c; void operator()() { ++*c; } };
using G = slp::scope_exit<A>;
static_assert(!std::is_copy_constructible_v<G> && !std::is_copy_assignable_v<G>);
int main() {
  long hist = hz::thorough() ? 200000 : 20000;
  for (long h = 0; h < hist; ++h) {
    hz::Rng r(h);
    CASE();
    int acts = r.irange(1, 3);
    std::vector<int> runs(acts, 0), exp(acts, 0);
    struct S { std::unique_ptr<G> g; int a; bool armed; };
    std::vector<S> gs;
    for (int i = 0; i < acts; ++i) gs.push_back({std::make_unique<G>(A{&runs[i]}), i, true});
    int steps = r.irange(0, 8);
    for (int k = 0; k < steps && !gs.empty(); ++k) {
      int i = r.irange(0, (int)gs.size() - 1);
      switch (r.irange(0, 2)) {
        case 0: { gs.push_back({std::make_unique<G>(std::move(*gs[i].g)), gs[i].a, gs[i].armed}); gs[i].armed = false; break; }
        case 1: gs[i].g->release(); gs[i].armed = false; break;
        case 2: { if (gs[i].armed) exp[gs[i].a]++; gs.erase(gs.begin() + i); break; }
      }
      for (int a = 0; a < acts; ++a) CHECK(runs[a] == exp[a], "history %ld step %d action %d ran %d times, expected %d", h, k, a, runs[a], exp[a]);
    }
    for (auto& s : gs) if (s.armed) exp[s.a]++;
    gs.clear();
    for (int a = 0; a < acts; ++a) CHECK(runs[a] == exp[a], "history %ld action %d ran %d times, expected %d", h, a, runs[a], exp[a]);
  }
  // owning action types: the action moved into the guard is the one that runs
  {
    int n = 0;
    auto p = std::make_shared<int>(7);
    { slp::scope_exit g{[q = p, &n] { n += *q; }}; slp::scope_exit h{std::move(g)}; slp::scope_exit i{std::move(h)}; CASE(); }
    CHECK(n == 7, "moved twice: action ran with wrong capture: %d", n);
    try { slp::scope_exit g{[&] { n = 100; }}; throw 1; } catch (int) {}
    CHECK(n == 100, "exception: action not run (%d)", n);
  }
  return hz::finish();
}
