"""P05: an expression's declared class is sound."""
import z3
from slpv.eng import *
from slpv import nodes as ND
from slpv.nodes import Nodes, H, TYP, DEN
from props.p04 import SRC, VSRC, U1, U2, V1, VT, builders, variables, base

HARNESS = "p05.cpp"
HSRC = ()
MIN_OBLIGATIONS = 120


def prove(ck):
    P = ck.dump(SRC)
    P2 = ck.part("variable operations: sources", ck.dump, VSRC)
    bs = builders(P)
    for k in ["+", "-", "*", "/", "neg", "pos", "+="] + U1 + U2:
        if k not in bs:
            ck.incomplete.append("no definition found for %s" % k)
    jobs = [("builder %s" % k, builder, P, k, f) for k, f in bs.items()]
    jobs += [("lemmas", lemmas)]
    if P2 is not None:
        jobs += [("Variable %s %s" % (k, P2.params(f)), variable, P2, k, f) for k, f in variables(P2)]
    ck.par(jobs)
    ck.assume += ["closure lemmas on polynomial degree (checked here on generic polynomials of two variables by sympy): sum keeps the larger class, product with a constant keeps the class, product of two affine functions is quadratic, quotient by a constant keeps the class; anything else of non-constant arguments is taken as nonlinear",
                  "each builder returns either an operand or a node allocated at one of the checked sites, and denotes what P04 says",
                  "machine floating point treated as real arithmetic"]


def true_class(N, t, syms):
    """Least class guaranteed for the value term t, given the classes of the operand symbols."""
    T = N.T
    C, L, Qd, NL = [z3.IntVal(T[x]) for x in ("CONSTANT", "LINEAR", "QUADRATIC", "NONLINEAR")]
    mx = lambda a, b: z3.If(a >= b, a, b)
    memo = {}

    def occurs(t):
        s, out, seen = [t], set(), set()
        while s:
            x = s.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            for k, y in enumerate(syms):
                if x.eq(y[0]):
                    out.add(k)
            s += x.children()
        return out

    def go(t):
        for y, c in syms:
            if t.eq(y):
                return c
        occ = occurs(t)
        if not occ:
            return C
        k, ch = t.decl().kind(), t.children()
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
            r = go(ch[0])
            for c in ch[1:]:
                r = mx(r, go(c))
            return r
        if k == z3.Z3_OP_UMINUS:
            return go(ch[0])
        if k == z3.Z3_OP_MUL:
            r = go(ch[0])
            for c in ch[1:]:
                d = go(c)
                r = z3.If(r == C, d, z3.If(d == C, r, z3.If(z3.And(r == L, d == L), Qd, NL)))
            return r
        if k == z3.Z3_OP_DIV:
            return z3.If(go(ch[1]) == C, go(ch[0]), NL)
        return z3.If(z3.And(*[syms[j][1] == C for j in sorted(occ)]), C, NL)
    return go(t)


def site(N):
    T = N.T

    def h(E, s, t, node, l, r, ty, o):
        nm = N.P.tstr(t)
        where = nm.replace("slp::detail::", "")
        E.oblige(s, z3.Or(*[ty == T[x] for x in ("CONSTANT", "LINEAR", "QUADRATIC", "NONLINEAR")]), "%s: the label is a class" % where, kind="post")
        for p, w in ((l, "first"), (r, "second")):
            if not z3.is_int_value(z3.simplify(p)):
                E.oblige(s, z3.Implies(p != 0, z3.And(p < s.ghost["next"], p >= 1)), "%s: %s operand is an existing node" % (where, w), kind="post")
        leaf = z3.simplify(l == 0)
        if z3.is_true(leaf):
            tc = T["CONSTANT"] if "ConstantExpression" in nm else T["LINEAR"]
            E.oblige(s, ty >= tc, "%s: label is not below the true class" % where, kind="post")
            if "ConstantExpression" in nm:
                for s1, v in N.call(s, t, "value", o, [fresh("l", R), fresh("r", R)]):
                    E.oblige(s1, v == o.f["val"], "%s: a constant's value is the number it was made from" % where, kind="post")
            return
        L_, R_ = fresh("L", R), fresh("R", R)
        base_ = len(s.pc)
        one = z3.simplify(r)
        rnull = z3.is_int_value(one) and one.as_long() == 0
        syms = [(L_, TYP(l))] + ([] if rnull else [(R_, z3.If(r == 0, z3.IntVal(T["CONSTANT"]), TYP(r)))])
        d = None
        for s1, v in N.call(s, t, "value", o, [L_, z3.RealVal(0) if rnull else R_]):
            c = z3.And(*s1.pc[base_:]) if len(s1.pc) > base_ else z3.BoolVal(True)
            d = v if d is None else z3.If(c, v, d)
        E.oblige(s, true_class(N, d, syms) <= ty, "%s: label is not below the true class of its value" % where, kind="post")
    return h


def builder(ck, P, k, f):
    N = Nodes(ck, P)
    E = N.E
    E.merge = False
    N.skip = f["fn"]
    N.site = site(N)
    n = len(f["params"])
    ops = [fresh(x, I) for x in ("a", "b")[:n]]
    st = N.init()
    nullable = k in ("+", "+=")
    for p in ops:
        st.pc += N.wf(st, p, null=nullable)
        st.pc += (z3.Implies(p != 0, z3.Or(*[TYP(p) == N.T[x] for x in ("CONSTANT", "LINEAR", "QUADRATIC", "NONLINEAR")])),)
    lvs = [E.alloc(st, N.handle(p), "op") for p in ops]
    ck.nonvacuous("operands of " + k, list(st.pc))
    for s, v in E.run_fn(st, f, None, lvs):
        r = N.ref(s, v)
        E.oblige(s, z3.Or(*([r == 0] if nullable else []) + [z3.And(r >= 1, r < s.ghost["next"])]), "%s: the result is an operand or a node allocated at a checked site" % k, f["loc"], "post")
    ck.take(E, k, {x: t for x, t in zip("ab", ops)})


def variable(ck, P, k, f):
    N = Nodes(ck, P)
    E = N.E
    E.merge = False
    N.site = site(N)
    ps = [base(p) for p in P.params(f)]
    st, args, nodes = N.init(), [], []

    def var(nm):
        p = fresh(nm, I)
        nodes.append(p)
        return Obj(VT, {"expr": N.handle(p), "m_graph": Seq(fresh("gn", I), fresh("gd", ND.AI), "seq"), "m_graph_initialized": fresh("gi", B)})
    this = E.alloc(st, var("self"), "this") if k in ("+=", "-=", "*=", "/=", "=") else None
    for nm, t in zip("abc", ps):
        args.append(E.alloc(st, var(nm) if t == VT else fresh(nm, R if t in ("double", "float") else I), nm))
    for p in nodes:
        st.pc += N.wf(st, p)
    for s, v in E.run_fn(st, f, this, args):
        o = E.read(s, this) if this else E.rv(s, v)
        r = N.ref(s, o.f["expr"])
        E.oblige(s, z3.And(r >= 1, r < s.ghost["next"]), "Variable %s(%s): holds a node built by the checked operations" % (k, ", ".join(ps)), f["loc"], "post")
    tf = [g for g in P.funcs.values() if g["fn"]["qn"] == VT + "::type"]
    if k == "neg" and tf:
        p = fresh("p", I)
        s0 = N.init([p])
        lv = E.alloc(s0, Obj(VT, {"expr": N.handle(p), "m_graph": Seq(fresh("gn", I), fresh("gd", ND.AI), "seq"), "m_graph_initialized": fresh("gi", B)}), "v")
        for s, v in E.run_fn(s0, tf[0], lv, []):
            E.oblige(s, v == TYP(p), "Variable::type() reports the node's label", tf[0]["loc"], "post")
    ck.take(E, k)


def lemmas(ck):
    import sympy as sp
    x, y = sp.symbols("x y")
    q = lambda n: sum(sp.Symbol("%s%d%d" % (n, i, j)) * x**i * y**j for i in range(3) for j in range(3) if i + j <= 2)
    a = lambda n: sp.Symbol(n + "0") + sp.Symbol(n + "1") * x + sp.Symbol(n + "2") * y
    c = sp.Symbol("c")
    deg = lambda e: sp.Poly(sp.expand(e), x, y).total_degree()
    for nm, e, d in (("sum of affine", a("a") + a("b"), 1), ("difference of affine", a("a") - a("b"), 1), ("sum of quadratic", q("a") + q("b"), 2), ("sum of affine and quadratic", a("a") - q("b"), 2),
                     ("constant times affine", c * a("a"), 1), ("constant times quadratic", c * q("a"), 2), ("product of affine", a("a") * a("b"), 2),
                     ("affine by constant", a("a") / c, 1), ("quadratic by constant", q("a") / c, 2), ("negated", -q("a"), 2)):
        ck.decided("degree of %s" % nm, deg(e) <= d, "sympy", str(e))
    ck.decided("gradient of an affine function does not depend on the variables", not (sp.diff(a("a"), x).free_symbols | sp.diff(a("a"), y).free_symbols) & {x, y}, "sympy")
