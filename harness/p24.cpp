#include <sleipnir/optimization/multistart.hpp>
#include <atomic>
#include <mutex>
#include "harness.hpp"
using slp::ExitStatus;
struct Dv { int id; };
using Rs = slp::MultistartResult<double, Dv>;
static void one(const std::vector<ExitStatus>& st, const std::vector<double>& c) {
  CASE();
  int n = st.size();
  std::vector<Dv> g(n);
  for (int i = 0; i < n; ++i) g[i].id = i;
  std::vector<std::atomic<int>> calls(n);
  auto solve = [&](const Dv& d) -> Rs { ++calls[d.id]; return {st[d.id], c[d.id], d}; };
  Rs r = slp::multistart<double, Dv>(solve, std::span<const Dv>(g));
  std::string d;
  bool any = false;
  double best = 1e300, bests = 1e300;
  for (int i = 0; i < n; ++i) {
    d += "(" + std::to_string((int)st[i]) + "," + std::to_string(c[i]) + ")";
    if (st[i] == ExitStatus::SUCCESS) { any = true; bests = std::min(bests, c[i]); }
    best = std::min(best, c[i]);
  }
  for (int i = 0; i < n; ++i) CHECK(calls[i] == 1, "start %d solved %d times: %s", i, (int)calls[i], d.c_str());
  CHECK(r.variables.id >= 0 && r.variables.id < n && r.status == st[r.variables.id] && r.cost == c[r.variables.id], "result mixes starts: %s", d.c_str());
  if (any) CHECK(r.status == ExitStatus::SUCCESS && r.cost == bests, "results (status,cost) %s -> returned (%d,%g)", d.c_str(), (int)r.status, r.cost);
  else CHECK(r.cost == best, "results (status,cost) %s -> returned (%d,%g)", d.c_str(), (int)r.status, r.cost);
}
int main() {
  std::vector<ExitStatus> S{ExitStatus::SUCCESS, ExitStatus::LOCALLY_INFEASIBLE, ExitStatus::CALLBACK_REQUESTED_STOP};
  std::vector<double> C{-3, 1, 5};
  std::vector<std::pair<ExitStatus, double>> e;
  for (auto s : S) for (auto c : C) e.push_back({s, c});
  for (auto& a : e) { one({a.first}, {a.second}); for (auto& b : e) { one({a.first, b.first}, {a.second, b.second}); for (auto& c : e) one({a.first, b.first, c.first}, {a.second, b.second, c.second}); } }
  hz::Rng r;
  std::vector<ExitStatus> all;
  for (int k = -10; k <= 1; ++k) all.push_back((ExitStatus)k);
  for (auto a : all) for (auto b : all) for (auto ca : C) for (auto cb : C) one({a, b}, {ca, cb});
  for (int i = 0; i < 400; ++i) {
    int n = r.irange(4, 12);
    std::vector<ExitStatus> s(n); std::vector<double> c(n);
    bool succ = r.irange(0, 1);
    for (auto& x : s) { x = r.irange(0, 2) || !succ ? r.pick(all) : ExitStatus::SUCCESS; if (!succ && x == ExitStatus::SUCCESS) x = ExitStatus::LOCALLY_INFEASIBLE; }
    for (auto& x : c) x = r.irange(-4, 4) * 0.5;
    one(s, c);
  }
  return hz::finish();
}
