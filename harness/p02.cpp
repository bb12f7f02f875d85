#include "harness.hpp"
#include <sleipnir/util/intrusive_shared_ptr.hpp>
#include <sleipnir/autodiff/expression.hpp>
#include <memory>
#include <set>
// A node type that owns further handles; freed nodes are recorded.
struct Node {
  uint32_t ref_count = 0;
  int id;
  slp::IntrusiveSharedPtr<Node> next;
  static inline std::set<int> live;
  static inline int made = 0;
  Node() : id(made++) { live.insert(id); }
  virtual ~Node() { live.erase(id); }
};
struct Der : Node {};
void inc_ref_count(Node* p) { ++p->ref_count; }
void dec_ref_count(Node* p) { if (--p->ref_count == 0) delete p; }
using P = slp::IntrusiveSharedPtr<Node>;
using Q = slp::IntrusiveSharedPtr<Der>;
int main() {
  long hist = hz::thorough() ? 40000 : 4000;
  for (long h = 0; h < hist; ++h) {
    hz::Rng r(h);
    CASE();
    {
      std::vector<std::unique_ptr<P>> hs;
      std::vector<Node*> model;
      auto count = [&](long step) {
        std::map<Node*, uint32_t> c;
        for (size_t i = 0; i < hs.size(); ++i) {
          CHECK(hs[i]->get() == model[i], "history %ld step %ld handle %zu holds the wrong node", h, step, i);
          if (model[i]) c[model[i]]++;
        }
        // nodes own handles too (chains)
        std::set<Node*> seen;
        std::vector<Node*> todo;
        for (auto& [n, k] : c) todo.push_back(n);
        while (!todo.empty()) { auto n = todo.back(); todo.pop_back(); if (!seen.insert(n).second) continue; if (n->next) { c[n->next.get()]++; todo.push_back(n->next.get()); } }
        CHECK(seen.size() == Node::live.size(), "history %ld step %ld: %zu reachable nodes, %zu alive", h, step, seen.size(), Node::live.size());
        for (auto n : seen) CHECK(n->ref_count == c[n], "history %ld step %ld: node %d count %u, handles %u", h, step, n->id, n->ref_count, c[n]);
      };
      auto add = [&](P&& p, Node* m) { hs.push_back(std::make_unique<P>(std::move(p))); model.push_back(m); };
      int steps = r.irange(1, 25);
      for (int k = 0; k < steps; ++k) {
        int n = hs.size();
        int i = n ? r.irange(0, n - 1) : -1, j = n ? r.irange(0, n - 1) : -1;
        switch (r.irange(0, 13)) {
          case 0: { auto p = slp::make_intrusive_shared<Node>(); auto m = p.get(); CHECK(m->ref_count == 1, "make: count %u", m->ref_count); add(std::move(p), m); break; }
          case 1: { auto* q = new Node; add(P{q}, q); break; }
          case 2: add(P{}, nullptr); break;
          case 3: add(P{nullptr}, nullptr); break;
          case 4: if (n) { hs.push_back(std::make_unique<P>(*hs[i])); model.push_back(model[i]); } break;
          case 5: if (n) { P p{std::move(*hs[i])}; CHECK(!*hs[i] && *hs[i] == nullptr, "moved-from handle not null"); auto m = model[i]; model[i] = nullptr; add(std::move(p), m); } break;
          case 6: if (n) { *hs[i] = *hs[j]; model[i] = model[j]; } break;
          case 7: if (n && i != j) { Node* b = model[j]; *hs[i] = std::move(*hs[j]); model[i] = b; model[j] = hs[j]->get(); } break;
          case 8: if (n) { std::swap(*hs[i], *hs[j]); std::swap(model[i], model[j]); } break;
          case 9: if (n) { hs.erase(hs.begin() + i); model.erase(model.begin() + i); } break;
          case 10: if (n) { auto& me = *hs[i]; me = me; auto& me2 = *hs[i]; me2 = std::move(me2); } break;
          // popping the front of an owned chain: the source lives inside the node released
          case 11: if (n && model[i]) { Node* nx = model[i]->next.get(); *hs[i] = model[i]->next; model[i] = nx; } break;
          case 12: if (n && model[i] && model[j]) { bool cyc = false; for (Node* q = model[j]; q; q = q->next.get()) cyc |= q == model[i]; if (!cyc) model[i]->next = *hs[j]; } break;
          case 13: { auto* d = new Der; Q q{d}; if (n) { *hs[i] = q; model[i] = d; } else { P p{q}; P s{std::move(q)}; add(std::move(p), d); } break; }
        }
        count(k);
        if (n && !hs.empty()) { int a = r.irange(0, hs.size() - 1), b = r.irange(0, hs.size() - 1);
          CHECK((*hs[a] == *hs[b]) == (model[a] == model[b]) && (*hs[a] != *hs[b]) == (model[a] != model[b]), "equality disagrees with the pointers");
          CHECK((*hs[a] == nullptr) == (model[a] == nullptr) && (nullptr == *hs[a]) == (model[a] == nullptr) && (*hs[a] != nullptr) == (model[a] != nullptr) && (nullptr != *hs[a]) == (model[a] != nullptr) && bool(*hs[a]) == (model[a] != nullptr), "null tests disagree"); }
      }
    }
    CHECK(Node::live.empty(), "history %ld: %zu nodes leaked", h, Node::live.size());
    Node::live.clear();
  }
  // expression nodes: popping to a child, deep chains, shared children
  {
    using namespace slp::detail;
    auto base = slp::global_pool_resource().blocks_in_use();
    for (int rep = 0; rep < 50; ++rep) {
      hz::Rng r(1000 + rep);
      CASE();
      {
        std::vector<ExpressionPtr<double>> v;
        for (int i = 0; i < 3; ++i) v.push_back(make_expression_ptr<DecisionVariableExpression<double>>());
        for (int i = 0; i < 60; ++i) { auto& a = v[r.irange(0, v.size() - 1)]; auto& b = v[r.irange(0, v.size() - 1)]; ExpressionPtr<double> c = r.irange(0, 1) ? a * b : slp::detail::sin(a); v.push_back(c); }
        for (int i = 0; i < 40; ++i) { int k = r.irange(0, v.size() - 1); if (v[k]->args[0]) v[k] = v[k]->args[0]; else v.erase(v.begin() + k); if (v.empty()) break; }
        std::set<Expression<double>*> seen; std::map<Expression<double>*, uint32_t> c; std::vector<Expression<double>*> todo;
        for (auto& p : v) { c[p.get()]++; todo.push_back(p.get()); }
        while (!todo.empty()) { auto n = todo.back(); todo.pop_back(); if (!seen.insert(n).second) continue; for (auto& a : n->args) if (a) { c[a.get()]++; todo.push_back(a.get()); } if (n->adjoint_expr) { c[n->adjoint_expr.get()]++; todo.push_back(n->adjoint_expr.get()); } }
        for (auto n : seen) CHECK(n->ref_count == c[n], "expression node count %u, handles %u", n->ref_count, c[n]);
        CHECK(slp::global_pool_resource().blocks_in_use() == base + seen.size(), "pool blocks in use %zu, live nodes %zu", slp::global_pool_resource().blocks_in_use() - base, seen.size());
      }
      CHECK(slp::global_pool_resource().blocks_in_use() == base, "nodes leaked");
    }
    auto e = make_expression_ptr<DecisionVariableExpression<double>>();
    for (int i = 0; i < 200000; ++i) e = slp::detail::sin(e);
    e = nullptr;
    CASE();
    CHECK(slp::global_pool_resource().blocks_in_use() == base, "deep chain leaked");
  }
  return hz::finish();
}
