"""P04: building an expression never changes its mathematical value."""
import re
import z3
from slpv.eng import *
from slpv import nodes as ND
from slpv.nodes import Nodes, H, TYP, DEN, SPEC, domain, op_key

HARNESS = "p04.cpp"
MIN_OBLIGATIONS = 800
EP = "slp::IntrusiveSharedPtr<slp::detail::Expression<double>>"
U1 = ["abs", "acos", "asin", "atan", "cbrt", "cos", "cosh", "erf", "exp", "log", "log10", "sign", "sin", "sinh", "sqrt", "tan", "tanh", "is_nonnegative", "is_positive"]
U2 = ["atan2", "hypot", "max", "min", "pow"]
SRC = """
#include <sleipnir/autodiff/expression.hpp>
using EP = slp::detail::ExpressionPtr<double>;
namespace dd = slp::detail;
void use(EP& a, const EP& b) {
  a + b; a - b; a * b; a / b; -a; +a; a += b;
  dd::make_expression_ptr<dd::DecisionVariableExpression<double>>(); dd::constant_ptr(1.0);
  %s
  %s
}
""" % ("".join("dd::%s(b);" % n for n in U1), "".join("dd::%s(a, b);" % n for n in U2))

V1 = U1[:-2]
VSRC = """
#include <sleipnir/autodiff/variable.hpp>
using V = slp::Variable<double>;
void use(V& a, const V& b, double c, int i) {
  V d; V e{c}; V f{i}; V g{2.0f}; V h{3L}; V n{nullptr}; d = c; d = i;
  a + b; a - b; a * b; a / b; -a; +a; a += b; a -= b; a *= b; a /= b; a + c; c - a; c * a; a * c; a * i; i * a; c / a; a / i; a.type(); a.set_value(c);
  %s
  %s
  hypot(a, b, b);
}
""" % ("".join("slp::%s(b);" % n for n in V1), "".join("slp::{0}(a, b); slp::{0}(a, c); slp::{0}(c, b); slp::{0}(a, i); slp::{0}(i, b);".format(n) for n in U2))


def prove(ck):
    P2 = None
    P = ck.dump(SRC)
    P2 = ck.part("variable operations: sources", ck.dump, VSRC)
    bs = builders(P)
    for k in ["+", "-", "*", "/", "neg", "pos", "+="] + U1 + U2:
        if k not in bs:
            ck.incomplete.append("no definition found for %s" % k)
    jobs = [("builder %s" % k, builder, P, k, f) for k, f in bs.items()]
    if P2 is not None:
        vs = variables(P2)
        for k in ["+", "-", "*", "/", "neg", "pos", "+=", "-=", "*=", "/=", "=", "ctor"] + V1 + U2:
            if not any(x[0] == k for x in vs):
                ck.incomplete.append("no Variable operation found for %s" % k)
        jobs += [("Variable %s %s" % (k, P2.params(f)), variable, P2, k, f) for k, f in vs]
    ck.par(jobs)
    ck.assume += ["machine floating point treated as real arithmetic; elementary library functions as the mathematical functions they name (equal results for equal arguments, exact at the points the code simplifies at)",
                  "domain of definition: divisor nonzero, acos/asin on [-1,1], log/log10 on positive, sqrt on nonnegative arguments, tan away from its poles, atan2 away from the origin, pow for positive base, zero base with positive power, or nonzero base with integer power (the code folds 0^0 and log 0 to 0 on purpose: existing tests require it)",
                  "node handles obey their contract (P02); fresh nodes are distinct from live ones (P03)"]


VT = "slp::Variable<double>"
SCALAR = ("double", "float", "int", "long")


def base(t):
    return re.sub(r"^const | ?&+$", "", t).strip()


def variables(P):
    out = []
    for f in P.funcs.values():
        fn, ps = f["fn"], [base(p) for p in P.params(f)]
        cls = P.cls_str(f)
        if not f.get("body") and f["kind"] != "ctor":
            continue
        ok = all(p == VT or p in SCALAR for p in ps)
        if f["kind"] == "ctor":
            if cls == VT and ok and not fn.get("copy") and not fn.get("move"):
                out.append(("ctor", f))
        elif cls == VT and fn["n"].startswith("operator") and ok and f["kind"] == "method":
            m = re.match(r"operator([-+*/]?=)$", fn["n"])
            if m and len(ps) == 1 and not (fn.get("copyassign") or fn.get("moveassign")):
                out.append((m.group(1), f))
        elif cls in (None, VT) and ok and VT in ps and fn["qn"].startswith("slp::"):
            k = op_key(fn, len(ps))
            if k:
                out.append((k, f))
    return out


def variable(ck, P, k, f):
    N = Nodes(ck, P)
    E = N.E
    E.merge = False
    ps = [base(p) for p in P.params(f)]
    st, ops, args, nodes = N.init(), [], [], []

    def var(nm):
        p = fresh(nm, I)
        nodes.append(p)
        return p, Obj(VT, {"expr": N.handle(p), "m_graph": Seq(fresh("gn", I), fresh("gd", ND.AI), "seq"), "m_graph_initialized": fresh("gi", B)})
    this = None
    if k in ("+=", "-=", "*=", "/=", "="):
        p, o = var("self")
        this = (p, E.alloc(st, o, "this"))
    for nm, t in zip("abc", ps):
        if t == VT:
            p, o = var(nm)
            ops.append(DEN(p))
            args.append(E.alloc(st, o, nm))
        else:
            x = fresh(nm, R) if t in ("double", "float") else fresh(nm, I)
            ops.append(x if t in ("double", "float") else z3.ToReal(x))
            args.append(E.alloc(st, x, nm))
    for p in nodes:
        st.pc += N.wf(st, p)
    loc, what = f["loc"], "Variable %s(%s)" % (k, ", ".join(ps))
    ck.nonvacuous(what, list(st.pc) + E.axioms)
    before = [(lv, E.read(st, lv)) for lv, t in zip(args, ps)]
    for s, v in E.run_fn(st, f, this and this[1], args):
        if k == "ctor":
            r, o = None, E.rv(s, v)
        else:
            o = E.read(s, this[1]) if this else E.rv(s, v)
        r = N.ref(s, o.f["expr"])
        if k == "ctor" and ps == ["std::nullptr_t"]:
            continue
        init = o.f["m_graph_initialized"]
        if k in ("=", "ctor") and not ops:
            E.oblige(s, TYP(r) == N.T["LINEAR"], what + ": a default Variable is a decision variable", loc, "post")
            E.oblige(s, N.val(s, r) == 0, what + ": starts at zero", loc, "post")
        else:
            key = k[0] if this and k != "=" else k
            dens = ([DEN(this[0])] if this and k != "=" else []) + ops
            if k in ("=", "ctor"):
                want, dom = ops[0], z3.BoolVal(True)
                E.oblige(s, TYP(r) == N.T["CONSTANT"], what + ": a number becomes a constant", loc, "post")
            elif k == "hypot" and len(ops) == 3:
                sq = [ND.F["pow"](x, z3.RealVal(2)) for x in ops]
                want, dom = ND.F["sqrt"](ops[0] * ops[0] + ops[1] * ops[1] + ops[2] * ops[2]), z3.BoolVal(True)
            else:
                want, dom = SPEC[key](*dens), domain(key, *dens)
            E.oblige(s.assume(dom, *ND.facts(want)), DEN(r) == want, what + ": denotes the function of its operands", loc, "post")
        for w in N.wf(s, r):
            E.oblige(s, w, what + ": holds a well-formed node", loc, "post")
        E.oblige(s, z3.Not(E.as_bool(init)), what + ": no evaluation order is kept from before", loc, "post")
        for lv, b in before:
            E.oblige(s, z3.And(*[x[1] == y[1] for x, y in zip(leaves(E.read(s, lv)), leaves(b))]), what + ": operands unchanged", loc, "frame")
    ck.take(E, what)


def builders(P):
    out = {}
    for f in P.funcs.values():
        fn = f["fn"]
        if not fn["qn"].startswith("slp::detail::") or "cls" in fn and f["kind"] == "method" or not f.get("body"):
            continue
        ps = P.params(f)
        if not ps or not all("IntrusiveSharedPtr<" + ND.EXPR in p for p in ps):
            continue
        if fn["n"] == "operator+=":
            out["+="] = f
            continue
        k = op_key(fn, len(ps))
        if k:
            out[k] = f
    return out


def builder(ck, P, k, f):
    N = Nodes(ck, P)
    E = N.E
    E.merge = False
    N.skip = f["fn"]
    spec = "+" if k == "+=" else k
    n = len(f["params"])
    ops = [fresh(x, I) for x in ("a", "b")[:n]]
    nullable = spec == "+" and n == 2
    st = N.init([] if nullable else ops)
    if nullable:
        for p in ops:
            st.pc += N.wf(st, p, null=True)
            st.pc += (z3.Implies(p != 0, z3.Or(*[TYP(p) == N.T[x] for x in ("CONSTANT", "LINEAR", "QUADRATIC", "NONLINEAR")])),)
    lvs = [E.alloc(st, N.handle(p), "op") for p in ops]
    ck.nonvacuous("operands of " + k, list(st.pc) + E.axioms)
    val0, next0 = st.mem[H].d.f["val"], st.ghost["next"]
    ds = [z3.If(p == 0, z3.RealVal(0), DEN(p)) if nullable else DEN(p) for p in ops]
    loc = f["loc"]
    for s, v in E.run_fn(st, f, None, lvs):
        r = N.ref(s, v)
        some, both = z3.Or(*[p != 0 for p in ops]), z3.And(*[p != 0 for p in ops])
        want = SPEC[spec](*ds)
        got = z3.If(r == 0, z3.RealVal(0), DEN(r)) if nullable else DEN(r)
        d = s.assume(domain(spec, *ds), *ND.facts(want))
        E.oblige(d, got == want, "%s: the expression built denotes %s of its operands" % (k, spec), loc, "post")
        c = s.assume(r != 0) if nullable else s
        for j, w in enumerate(N.wf(s, r)):
            E.oblige(c, w, "%s: result is an allocated, labelled node and a constant holds its value (%d)" % (k, j), loc, "post")
        if nullable:
            E.oblige(s, z3.And(z3.Implies(both, r != 0), z3.Implies(z3.Not(some), r == 0)), "%s: a null result only when an operand is null" % k, loc, "post")
        q = fresh("q", I)
        E.oblige(s, z3.Implies(z3.And(q >= 1, q < next0), z3.Select(s.mem[H].d.f["val"], q) == z3.Select(val0, q)), "%s: existing nodes keep their value" % k, loc, "post")
        for j, (lv, p) in enumerate(zip(lvs, ops)):
            want = r if (k == "+=" and j == 0) else p
            E.oblige(s, N.ref(s, lv) == want, "%s: operand handles" % k, loc, "post")
    ck.take(E, k, {x: t for x, t in zip("ab", ops)})
