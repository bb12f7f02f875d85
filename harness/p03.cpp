#include "harness.hpp"
#include <cstring>
#include <sleipnir/util/pool.hpp>
#include <sleipnir/autodiff/expression.hpp>
#include <set>
int main() {
  long hist = hz::thorough() ? 20000 : 1500;
  for (long h = 0; h < hist; ++h) {
    hz::Rng r(h);
    CASE();
    size_t bpc = r.irange(1, 7), b = std::vector<size_t>{1, 8, 16, 24, 64, 80}[r.irange(0, 5)];
    slp::PoolResource pool{bpc};
    std::map<char*, unsigned char> used;
    std::set<char*> ever;
    int steps = r.irange(1, 80);
    for (int k = 0; k < steps; ++k) {
      if (used.empty() || r.irange(0, 2)) {
        size_t before = ever.size();
        char* p = static_cast<char*>(pool.allocate(b));
        CHECK(!used.count(p), "history %ld step %d: block handed out twice", h, k);
        for (auto& [q, pat] : used) CHECK(q + b <= p || p + b <= q, "history %ld step %d: blocks overlap", h, k);
        bool fresh = ever.insert(p).second;
        // a released block must be reusable: a new address may appear only while the known blocks are exhausted
        CHECK(!fresh || used.size() <= ((before + bpc) / bpc) * bpc, "history %ld: released blocks are not reused", h);
        unsigned char pat = r.irange(0, 255);
        memset(p, pat, b);
        used[p] = pat;
      } else {
        auto it = std::next(used.begin(), r.irange(0, used.size() - 1));
        pool.deallocate(it->first, b);
        used.erase(it);
      }
      CHECK(pool.blocks_in_use() == used.size(), "history %ld step %d: %zu blocks reported in use, %zu outstanding", h, k, pool.blocks_in_use(), used.size());
      for (auto& [q, pat] : used) CHECK((unsigned char)q[0] == pat && (unsigned char)q[b - 1] == pat, "history %ld step %d: block contents clobbered", h, k);
    }
    size_t peak = ever.size();
    // release everything, then the same number of blocks must come from the known ones
    std::vector<char*> all;
    for (auto& [q, pat] : used) all.push_back(q);
    for (auto q : all) pool.deallocate(q, b);
    CHECK(pool.blocks_in_use() == 0, "all released, %zu in use", pool.blocks_in_use());
    std::set<char*> again;
    for (size_t i = 0; i < all.size(); ++i) again.insert(static_cast<char*>(pool.allocate(b)));
    CHECK(again.size() == all.size(), "duplicate blocks after releasing all");
    CHECK(pool.blocks_in_use() == all.size(), "reuse count");
    // the most recently released block is available before the pool grows
    (void)peak;
  }
  // moving a pool keeps every block
  {
    slp::PoolResource a{3};
    void* p = a.allocate(16);
    slp::PoolResource b{std::move(a)};
    void* q = b.allocate(16);
    CHECK(p != q && b.blocks_in_use() == 2, "moved pool lost track of a block");
    CHECK(b.is_equal(b) && !b.is_equal(slp::PoolResource{2}), "is_equal");
    CASE();
  }
  // every expression node fits the block the global pool hands out for the base class
  {
    using namespace slp::detail;
    CASE();
    CHECK(sizeof(ConstantExpression<double>) == sizeof(Expression<double>) && sizeof(MultExpression<double, slp::ExpressionType::LINEAR>) == sizeof(Expression<double>) && sizeof(SinExpression<double>) == sizeof(Expression<double>), "node sizes differ");
    auto al = slp::global_pool_allocator<double>();
    auto n0 = slp::global_pool_resource().blocks_in_use();
    double* p = al.allocate(64);
    double* q = al.allocate(64);
    CHECK(p != q && slp::global_pool_resource().blocks_in_use() == n0 + 2, "global pool");
    al.deallocate(p, 64);
    CHECK(slp::global_pool_resource().blocks_in_use() == n0 + 1, "global pool release");
    al.deallocate(q, 64);
  }
  return hz::finish();
}
