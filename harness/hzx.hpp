// Random expressions with an independent forward-mode oracle.
#pragma once
#include "harness.hpp"
#include <sleipnir/autodiff/variable.hpp>
#include <vector>
namespace hzx {
using Var = slp::Variable<double>;
using L = long double;
struct Dual {
  L v = 0;
  std::vector<L> d;
};
struct Node {
  std::string op;
  int a = -1, b = -1, var = -1;
  double c = 0;
};
inline const std::vector<std::string> un{"neg", "pos", "abs", "acos", "asin", "atan", "cbrt", "cos", "cosh", "erf", "exp", "log", "log10", "sign", "sin", "sinh", "sqrt", "tan", "tanh"};
inline const std::vector<std::string> bi{"+", "-", "*", "/", "atan2", "hypot", "max", "min", "pow"};
struct Tree {
  std::vector<Node> n;
  int nv;
  explicit Tree(int nv) : nv(nv) {}
  int leaf(hz::Rng& r) {
    Node k;
    if (r.irange(0, 9) < 5) {
      k.op = "var";
      k.var = r.irange(0, nv - 1);
    } else {
      k.op = "const";
      k.c = r.pick(std::vector<double>{0.0, 1.0, -1.0, 2.0, 0.5, 3.0, -2.0, -0.25});
    }
    n.push_back(k);
    return n.size() - 1;
  }
  // polynomial: only + - * / by constants, unary signs and pow(.,2)
  int gen(hz::Rng& r, int depth, bool poly = false) {
    if (depth == 0 || r.irange(0, 9) == 0) return leaf(r);
    if (n.size() > 3 && r.irange(0, 7) == 0) return r.irange(0, n.size() - 1);  // share
    Node k;
    int pick = r.irange(0, 9);
    if (pick < 3) {
      k.op = poly ? (r.irange(0, 1) ? "neg" : "pos") : r.pick(un);
      k.a = gen(r, depth - 1, poly);
    } else {
      k.op = pick < 8 || poly ? r.pick(std::vector<std::string>{"+", "-", "*", "/"}) : r.pick(bi);
      if (poly && pick == 9) k.op = "pow";
      k.a = gen(r, depth - 1, poly);
      if (poly && (k.op == "/" || k.op == "pow")) {
        Node c;
        c.op = "const";
        c.c = k.op == "pow" ? 2.0 : r.pick(std::vector<double>{1.0, 2.0, -0.5});
        n.push_back(c);
        k.b = n.size() - 1;
      } else {
        k.b = gen(r, depth - 1, poly);
      }
    }
    n.push_back(k);
    return n.size() - 1;
  }
  // Builds the real expression; number operands are passed as plain numbers half of the time.
  std::vector<Var> build(std::vector<Var>& x, uint64_t bits) const {
    std::vector<Var> v;
    for (size_t i = 0; i < n.size(); ++i) {
      const Node& k = n[i];
      bool raw = (bits >> (i % 60)) & 1;
      Var o{0.0};
      auto A = [&]() -> const Var& { return v[k.a]; };
      auto B = [&]() -> const Var& { return v[k.b]; };
      bool ac = k.a >= 0 && n[k.a].op == "const" && raw, bc = k.b >= 0 && n[k.b].op == "const" && raw;
      double ca = k.a >= 0 ? n[k.a].c : 0, cb = k.b >= 0 ? n[k.b].c : 0;
#define BIN(name, expr) if (k.op == name) { if (ac && !bc) { auto l = ca; const Var& r_ = B(); o = expr; } else if (bc && !ac) { const Var& l = A(); auto r_ = cb; o = expr; } else { const Var &l = A(), &r_ = B(); o = expr; } }
#define UN(name) if (k.op == #name) o = slp::name(A());
      if (k.op == "var") o = x[k.var];
      else if (k.op == "const") o = Var{k.c};
      else if (k.op == "neg") o = -A();
      else if (k.op == "pos") o = +A();
      else if (raw && k.op == "+") { o = A(); o += B(); }
      else if (raw && k.op == "-") { o = A(); o -= B(); }
      else if (raw && k.op == "*") { o = A(); o *= B(); }
      else if (raw && k.op == "/") { o = A(); o /= B(); }
      else BIN("+", l + r_) else BIN("-", l - r_) else BIN("*", l * r_) else BIN("/", l / r_)
      else BIN("atan2", slp::atan2(l, r_)) else BIN("hypot", slp::hypot(l, r_)) else BIN("max", slp::max(l, r_)) else BIN("min", slp::min(l, r_)) else BIN("pow", slp::pow(l, r_))
      else UN(abs) else UN(acos) else UN(asin) else UN(atan) else UN(cbrt) else UN(cos) else UN(cosh) else UN(erf) else UN(exp) else UN(log) else UN(log10) else UN(sign) else UN(sin) else UN(sinh) else UN(sqrt) else UN(tan) else UN(tanh)
      v.push_back(o);
    }
    return v;
  }
  // Values and gradients; ok is false where some operation is undefined or (diff) too close to a kink.
  std::vector<Dual> eval(const std::vector<double>& x, std::vector<char>& ok, bool diff) const {
    std::vector<Dual> v(n.size());
    ok.assign(n.size(), 1);
    const L eps = 1e-4L;
    for (size_t i = 0; i < n.size(); ++i) {
      const Node& k = n[i];
      Dual& o = v[i];
      o.d.assign(nv, 0);
      const Dual z{0, std::vector<L>(nv, 0)};
      const Dual &a = k.a >= 0 ? v[k.a] : z, &b = k.b >= 0 ? v[k.b] : z;
      if (k.a >= 0 && !ok[k.a]) ok[i] = 0;
      if (k.b >= 0 && !ok[k.b]) ok[i] = 0;
      L da = 0, db = 0, x1 = a.v, y1 = b.v;
      bool good = true;
      bool ka = true, kb = true;
      for (L t : a.d) ka = ka && t == 0;
      for (L t : b.d) kb = kb && t == 0;
      if (k.op == "var") { o.v = x[k.var]; o.d[k.var] = 1; continue; }
      if (k.op == "const") { o.v = k.c; continue; }
      if (k.op == "neg") { o.v = -x1; da = -1; }
      else if (k.op == "pos") { o.v = x1; da = 1; }
      else if (k.op == "+") { o.v = x1 + y1; da = db = 1; }
      else if (k.op == "-") { o.v = x1 - y1; da = 1; db = -1; }
      else if (k.op == "*") { o.v = x1 * y1; da = y1; db = x1; }
      else if (k.op == "/") { good = fabsl(y1) > eps; if (good) { o.v = x1 / y1; da = 1 / y1; db = -x1 / y1 / y1; } }
      else if (k.op == "abs") { o.v = fabsl(x1); da = x1 < 0 ? -1 : 1; good = fabsl(x1) > eps || (!diff && x1 == 0); }
      else if (k.op == "sign") { o.v = x1 < 0 ? -1 : x1 > 0 ? 1 : 0; good = fabsl(x1) > eps || (!diff && ka && x1 == 0); }
      else if (k.op == "acos") { good = fabsl(x1) < 1 - eps; if (good) { o.v = acosl(x1); da = -1 / sqrtl(1 - x1 * x1); } }
      else if (k.op == "asin") { good = fabsl(x1) < 1 - eps; if (good) { o.v = asinl(x1); da = 1 / sqrtl(1 - x1 * x1); } }
      else if (k.op == "atan") { o.v = atanl(x1); da = 1 / (1 + x1 * x1); }
      else if (k.op == "cbrt") { o.v = cbrtl(x1); good = !diff || fabsl(x1) > eps; if (good && x1 != 0) da = 1 / (3 * o.v * o.v); }
      else if (k.op == "cos") { o.v = cosl(x1); da = -sinl(x1); }
      else if (k.op == "cosh") { good = fabsl(x1) < 30; o.v = coshl(x1); da = sinhl(x1); }
      else if (k.op == "erf") { o.v = erfl(x1); da = 2 / sqrtl(3.14159265358979323846L) * expl(-x1 * x1); }
      else if (k.op == "exp") { good = fabsl(x1) < 30; o.v = expl(x1); da = o.v; }
      else if (k.op == "log") { good = x1 > eps; if (good) { o.v = logl(x1); da = 1 / x1; } }
      else if (k.op == "log10") { good = x1 > eps; if (good) { o.v = log10l(x1); da = 1 / (x1 * logl(10.0L)); } }
      else if (k.op == "sin") { o.v = sinl(x1); da = cosl(x1); }
      else if (k.op == "sinh") { good = fabsl(x1) < 30; o.v = sinhl(x1); da = coshl(x1); }
      else if (k.op == "sqrt") { good = x1 > eps || (!diff && x1 == 0); if (good) { o.v = sqrtl(x1); if (x1 != 0) da = 1 / (2 * o.v); } }
      else if (k.op == "tan") { good = fabsl(cosl(x1)) > 1e-2L; o.v = tanl(x1); da = 1 + o.v * o.v; }
      else if (k.op == "tanh") { o.v = tanhl(x1); da = 1 - o.v * o.v; }
      else if (k.op == "atan2") { L q = x1 * x1 + y1 * y1; good = q > eps && !(y1 < 0 && fabsl(x1) < eps); o.v = atan2l(x1, y1); if (good) { da = y1 / q; db = -x1 / q; } }
      else if (k.op == "hypot") { o.v = hypotl(x1, y1); good = o.v > eps || (!diff && o.v == 0); if (o.v > 0) { da = x1 / o.v; db = y1 / o.v; } }
      else if (k.op == "max") { o.v = fmaxl(x1, y1); good = !diff || fabsl(x1 - y1) > eps; (x1 > y1 ? da : db) = 1; }
      else if (k.op == "min") { o.v = fminl(x1, y1); good = !diff || fabsl(x1 - y1) > eps; (x1 < y1 ? da : db) = 1; }
      else if (k.op == "pow") {
        bool in = k.b >= 0 && n[k.b].op == "const" && y1 == floorl(y1);
        good = (x1 > eps && fabsl(y1 * logl(x1)) < 40) || (x1 < -eps && in && fabsl(y1) < 10) || (ka && !diff && x1 == 0 && y1 > eps);
        if (good) { o.v = powl(x1, y1); da = y1 == 0 ? 0 : y1 * powl(x1, y1 - 1); if (x1 > 0) db = o.v * logl(x1); else if (x1 < 0) good = kb; }
      }
      if (!good || !std::isfinite((double)o.v) || fabsl(o.v) > 1e6L) { ok[i] = 0; continue; }
      for (int j = 0; j < nv; ++j) { o.d[j] = da * a.d[j] + db * b.d[j]; if (!(fabsl(o.d[j]) < 1e7L)) ok[i] = 0; }
    }
    return v;
  }
  std::string str(int i) const {
    const Node& k = n[i];
    if (k.op == "var") return "x" + std::to_string(k.var);
    if (k.op == "const") { char b[32]; snprintf(b, 32, "%g", k.c); return b; }
    if (k.b < 0) return k.op + "(" + str(k.a) + ")";
    return k.op + "(" + str(k.a) + "," + str(k.b) + ")";
  }
};
}  // namespace hzx
