"""P07: value updates and gradients visit the whole expression graph in order."""
import re
import z3
from slpv.eng import *
from slpv import nodes as ND
from slpv import ginst as GI
from slpv.nodes import Nodes, H, TYP, DEN, AI, AR, EXPR
from props.p04 import SRC as P04SRC, builders, VT

HARNESS = "p07.cpp"
HSRC = ("autodiff/gradient.cpp", "autodiff/jacobian.cpp", "autodiff/hessian.cpp", "autodiff/variable_matrix.cpp")
HFLAGS = ("-fno-access-control",)
MIN_OBLIGATIONS = 250
SRC = """
#include <sleipnir/autodiff/expression_graph.hpp>
namespace dd = slp::detail;
void use(dd::ExpressionPtr<double>& a, dd::ExpressionGraph<double>& g, gch::small_vector<std::pair<int, dd::Expression<double>*>>& o, gch::small_vector<Eigen::Triplet<double>>& t) {
  g = dd::topological_sort<double>(a);
  dd::update_values<double>(g);
  dd::append_triplets<double>(g, o, t, 3);
}
"""
VALSRC = """
#include <sleipnir/autodiff/variable.hpp>
double use(slp::Variable<double>& v) { return v.value(); }
"""
RANK = z3.Function("rank", I, I)
E0, E1 = z3.Function("edge0", I, I), z3.Function("edge1", I, I)
SRCF, SIDE = z3.Function("src", I, I), z3.Function("side", I, I)
x_ = z3.Int("p!0")
EDGE_AX = [z3.ForAll([x_], z3.And(SRCF(E0(x_)) == x_, SIDE(E0(x_)) == 0), patterns=[E0(x_)]),
           z3.ForAll([x_], z3.And(SRCF(E1(x_)) == x_, SIDE(E1(x_)) == 1), patterns=[E1(x_)])]
A2 = z3.ArraySort(I, AI)
AB = z3.ArraySort(I, B)


def prove(ck):
    P = ck.dump(SRC)
    jobs = [("topological_sort", topo, P), ("update_values", update, P), ("append_triplets", append, P)]
    PB = ck.part("builders: sources", ck.dump, P04SRC)
    if PB is not None:
        jobs += [("fresh nodes: %s" % k, fresh_nodes, PB, k, f) for k, f in builders(PB).items()]
    PV = ck.part("Variable::value: sources", ck.dump, VALSRC)
    if PV is not None:
        jobs += [("Variable::value", value, PV)]
    ck.par(jobs)
    ck.assume += ["expression graphs are acyclic: operands exist before the node that uses them (P02/P04: nodes are immutable after construction)",
                  "partial correctness of the traversal loops (termination is exercised by the harness only)"]


def args_of(st):
    a = st.mem[H].d.f["args"].f
    return a["0"].f["m_ptr"], a["1"].f["m_ptr"]


def scratch(st):
    return st.mem[H].d.f["scratch"]


def heap_facts(st):
    """Acyclic heap with idle bookkeeping."""
    a0, a1 = args_of(st)
    p = fresh("p", I)
    return [z3.ForAll([p], z3.Implies(z3.Select(a, p) != 0, z3.And(z3.Select(a, p) >= 1, RANK(z3.Select(a, p)) < RANK(p))), patterns=[z3.Select(a, p)]) for a in (a0, a1)]


class Topo:
    """Ghost state for edge counting: the counted edges into x are numbered 0..scratch[x]."""

    def __init__(self, N):
        self.N, self.E, self.roles = N, N.E, {}
        self.E.on_write = self.on_write
        self.E.on_push = self.on_push

    def init(self, st):
        st.ghost.update({"C": z3.K(I, z3.BoolVal(False)), "NUM": fresh("NUM", AI), "ENUM": fresh("ENUM", A2), "LAST": fresh("LAST", AI)})
        for k in range(3):
            st.ghost["pos%d" % k] = fresh("pos", AI)
        self.C0 = st.ghost["C"]

    def kinds(self, st):
        """Kinds of index for quantifier instantiation: node, edge, position."""
        GI.BINDER.update({"p!": "n", "x!": "n", "z!": "n", "e!": "e", "i!": "x"})
        for a in args_of(st):
            GI.array(a, ["n"], "n")
        GI.array(scratch(st), ["n"], "x")
        g = st.ghost
        GI.array(g["C"], ["e"])
        GI.array(g["NUM"], ["e"], "x")
        GI.array(g["ENUM"], ["n", "x"], "e")
        GI.array(g["LAST"], ["n"], "e")
        for k in range(3):
            GI.array(g["pos%d" % k], ["n"], "x")
        for r in self.roles:
            if r in st.mem and st.mem[r].d is not None:
                GI.array(st.mem[r].d, ["x"], "n")
        for f, a, v in ((RANK, "n", None), (E0, "n", "e"), (E1, "n", "e"), (SRCF, "e", "n"), (SIDE, "e", None)):
            GI.register(f.name(), [a], v)

    def edge(self, st, x):
        """The edge through which the code reached node term x."""
        for a, f in zip(args_of(st), (E0, E1)):
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SELECT and x.arg(0).eq(a):
                return f(x.arg(1))
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
            return z3.If(x.arg(0), self.edge(st, x.arg(1)), self.edge(st, x.arg(2)))
        raise Unsupported("scratch written for a node not reached through an operand: %s / %s" % (x, args_of(st)))

    def on_write(self, st, lv, v):
        if lv.root != H or len(lv.path) < 2 or lv.path[1] != ("f", "scratch"):
            return
        x = lv.path[0][1]
        old = z3.Select(scratch(st), x)
        d = z3.simplify(v - old)
        if not z3.is_int_value(d) or d.as_long() not in (1, -1):
            raise Unsupported("scratch changed by something else than 1")
        e = self.edge(st, x)
        g = st.ghost
        if d.as_long() == 1:
            self.E.oblige(st, z3.Not(z3.Select(g["C"], e)), "an edge is counted once")
            g["NUM"] = z3.Store(g["NUM"], e, old + 1)
            g["ENUM"] = z3.Store(g["ENUM"], x, z3.Store(z3.Select(g["ENUM"], x), old + 1, e))
            g["C"] = z3.Store(g["C"], e, z3.BoolVal(True))
        else:
            self.E.oblige(st, z3.Select(g["C"], e), "only a counted edge is uncounted")
            i, row = z3.Select(g["NUM"], e), z3.Select(g["ENUM"], x)
            last = z3.Select(row, old)
            g["ENUM"] = z3.Store(g["ENUM"], x, z3.Store(row, i, last))
            g["NUM"] = z3.Store(g["NUM"], last, i)
            g["C"] = z3.Store(g["C"], e, z3.BoolVal(False))
            g["LAST"] = z3.Store(g["LAST"], x, e)

    def on_push(self, st, lv, i, v):
        if not is_leaf(v) or v.sort() != I or not isinstance(lv, LV) or lv.path:
            return
        r = self.roles.setdefault(lv.root, len(self.roles))
        if r > 2:
            raise Unsupported("more than three node lists")
        st.ghost["pos%d" % r] = z3.Store(st.ghost["pos%d" % r], v, i)

    def mem(self, st, root, x):
        """x is an element of the list with this root."""
        s, pos = st.mem[root], st.ghost["pos%d" % self.roles[root]]
        k = z3.Select(pos, x)
        if s.d is None:
            return z3.BoolVal(False)
        return z3.And(k >= 0, k < s.n, z3.Select(s.d, k) == x)

    def pos(self, st, root, x):
        return z3.Select(st.ghost["pos%d" % self.roles[root]], x)

    def tgt(self, st, e):
        a0, a1 = args_of(st)
        return z3.If(SIDE(e) == 0, z3.Select(a0, SRCF(e)), z3.Select(a1, SRCF(e)))

    def numbering(self, st):
        g, S = st.ghost, scratch(st)
        x, i, e = fresh("x", I), fresh("i", I), fresh("e", I)
        en = z3.Select(z3.Select(g["ENUM"], x), i)
        return [("edge numbering: slots hold counted edges", z3.ForAll([x, i], z3.Implies(z3.And(i >= 0, i <= z3.Select(S, x)), z3.And(z3.Select(g["C"], en), self.tgt(st, en) == x, z3.Select(g["NUM"], en) == i)), patterns=[en])),
                ("edge numbering: counted edges have a slot", z3.ForAll([e], z3.Implies(z3.Select(g["C"], e), z3.And(z3.Select(g["NUM"], e) >= 0, z3.Select(g["NUM"], e) <= z3.Select(S, self.tgt(st, e)), z3.Select(z3.Select(g["ENUM"], self.tgt(st, e)), z3.Select(g["NUM"], e)) == e)), patterns=[z3.Select(g["C"], e)])),
                ("scratch is at least -1", z3.ForAll([x], z3.Select(S, x) >= -1, patterns=[z3.Select(S, x)]))]

    def edges_counted(self, st, p):
        a0, a1 = args_of(st)
        return z3.And(z3.Implies(z3.Select(a0, p) != 0, z3.Select(st.ghost["C"], E0(p))), z3.Implies(z3.Select(a1, p) != 0, z3.Select(st.ghost["C"], E1(p))))

    def cands(self, c):
        st, g, root = c.sh, c.sh.ghost, self.root
        self.kinds(c.st0)
        self.kinds(st)
        S = scratch(st)
        stacks = [r for r in self.roles if r in st.mem and isinstance(st.mem[r], Seq) and st.mem[r].d is not None]
        p, e, i = fresh("p", I), fresh("e", I), fresh("i", I)
        out = self.numbering(st)
        sel = z3.Select
        a0, a1 = args_of(st)
        out.append(("root is no operand", sel(S, root) == -1))
        if c.st0.ghost["C"].eq(self.C0):
            disc = lambda s, q: z3.Or(q == root, sel(scratch(s), q) >= 0)
            out.append(("discovered nodes rank below the root", z3.ForAll([p], z3.Implies(disc(st, p), z3.And(RANK(p) <= RANK(root), p >= 1)), patterns=[sel(S, p)])))
            out.append(("counted edges start at discovered nodes", z3.ForAll([e], z3.Implies(sel(g["C"], e), z3.And(disc(st, SRCF(e)), self.tgt(st, e) != 0, z3.Or(z3.And(SIDE(e) == 0, e == E0(SRCF(e))), z3.And(SIDE(e) == 1, e == E1(SRCF(e)))))), patterns=[sel(g["C"], e)])))
            for r in stacks:
                s = st.mem[r]
                v = sel(s.d, i)
                inr = z3.And(i >= 0, i < s.n)
                out.append(("stack holds distinct discovered nodes", z3.ForAll([i], z3.Implies(inr, z3.And(self.pos(st, r, v) == i, disc(st, v), v >= 1)), patterns=[v])))
                out.append(("edges of stacked nodes are not counted yet", z3.ForAll([e], z3.Implies(sel(g["C"], e), z3.Not(self.mem(st, r, SRCF(e)))), patterns=[sel(g["C"], e)])))
                out.append(("discovered nodes are stacked or fully counted", z3.ForAll([p], z3.Implies(disc(st, p), z3.Or(self.mem(st, r, p), self.edges_counted(st, p))), patterns=[sel(S, p)])))
                out.append(("stack size", s.n >= 0))
            return out
        S1 = scratch(c.st0)
        G = lambda q: z3.Or(q == root, sel(S1, q) >= 0)
        self.G = G
        out.append(("reached nodes are closed under operands", z3.ForAll([p], z3.Implies(G(p), z3.And(p >= 1, RANK(p) <= RANK(root), *[z3.Implies(sel(a, p) != 0, sel(S1, sel(a, p)) >= 0) for a in (a0, a1)])), patterns=[sel(S1, p)])))
        out.append(("nodes not reached are idle", z3.ForAll([p], z3.Implies(sel(S1, p) < 0, sel(S, p) == -1), patterns=[sel(S, p)])))
        out.append(("counted edges start at reached nodes", z3.ForAll([e], z3.Implies(sel(g["C"], e), z3.And(G(SRCF(e)), self.tgt(st, e) != 0, z3.Or(z3.And(SIDE(e) == 0, e == E0(SRCF(e))), z3.And(SIDE(e) == 1, e == E1(SRCF(e)))))), patterns=[sel(g["C"], e)])))
        grow = [r for r in stacks if r == self.list_root(c)]
        for r in stacks:
            if r in grow:
                continue
            s = st.mem[r]
            v, inr = sel(s.d, i), z3.And(i >= 0, i < s.n)
            out.append(("stack size", s.n >= 0))
            out.append(("stack holds distinct reached nodes with every incoming edge traversed", z3.ForAll([i], z3.Implies(inr, z3.And(self.pos(st, r, v) == i, G(v), v >= 1, sel(S, v) == -1)), patterns=[v])))
            for l in grow:
                t = st.mem[l]
                w, inl = sel(t.d, i), z3.And(i >= 0, i < t.n)
                INK, INL = (lambda q: self.mem(st, r, q)), (lambda q: self.mem(st, l, q))
                src = lambda q: SRCF(sel(g["LAST"], q))
                par = lambda q: z3.Or(q == root, z3.And(self.tgt(st, sel(g["LAST"], q)) == q, q != 0, z3.Or(SIDE(sel(g["LAST"], q)) == 0, SIDE(sel(g["LAST"], q)) == 1), INL(src(q))))
                out.append(("list size", t.n >= 0))
                out.append(("list holds distinct reached nodes with every incoming edge traversed", z3.ForAll([i], z3.Implies(inl, z3.And(self.pos(st, l, w) == i, G(w), w >= 1, sel(S, w) == -1)), patterns=[w])))
                out.append(("listed nodes have no counted edge left", z3.ForAll([e], z3.Implies(sel(g["C"], e), z3.Not(INL(SRCF(e)))), patterns=[sel(g["C"], e)])))
                out.append(("stacked nodes are not listed", z3.ForAll([i], z3.Implies(inr, z3.Not(INL(v))), patterns=[v])))
                out.append(("reached nodes wait, are stacked or listed", z3.ForAll([p], z3.Implies(G(p), z3.Or(sel(S, p) >= 0, INK(p), INL(p))), patterns=[sel(S1, p)])))
                out.append(("edges of reached nodes are counted until the node is listed", z3.ForAll([p], z3.Implies(G(p), z3.Or(INL(p), self.edges_counted(st, p))), patterns=[sel(S1, p)])))
                for a in (a0, a1):
                    y = sel(a, w)
                    out.append(("operands come later", z3.ForAll([i], z3.Implies(z3.And(inl, y != 0), z3.Or(sel(S, y) >= 0, INK(y), z3.And(INL(y), self.pos(st, l, y) > i))), patterns=[w])))
                out.append(("stacked nodes have a listed parent", z3.ForAll([i], z3.Implies(inr, par(v)), patterns=[v])))
                out.append(("listed nodes have an earlier parent", z3.ForAll([i], z3.Implies(inl, z3.And(par(w), z3.Implies(w != root, self.pos(st, l, src(w)) < i))), patterns=[w])))
                out.append(("the root comes first", z3.If(t.n == 0, z3.And(s.n == 1, sel(s.d, 0) == root), sel(t.d, 0) == root)))
        return out

    def list_root(self, c):
        """Of the node lists modified, the one that only grows."""
        first = next((r for r in self.roles if r in c.sh.mem and c.modified_root(r) and c.st0.mem[r].n.eq(z3.IntVal(0)) and any(m[0] == r for m in c.mod)), None)
        roots = [r for r in self.roles if r in c.sh.mem and any(m[0] == r for m in c.mod)]
        # affine length (exactly one element per iteration)
        for r in roots:
            n = c.sh.mem[r].n
            if z3.simplify(n - c.k - c.st0.mem[r].n).eq(z3.IntVal(0)):
                return r
        return first


def topo(ck, P):
    f = P.one(r"^slp::detail::topological_sort$")
    N = Nodes(ck, P)
    E = N.E
    E.merge = E.merge_loops = False
    E.axioms += EDGE_AX
    T = Topo(N)
    root = fresh("root", I)
    T.root = root
    st = N.init([])
    T.init(st)
    st.pc += (root >= 0,) + tuple(heap_facts(st))
    p = fresh("p", I)
    S0 = scratch(st)
    st.pc += (z3.ForAll([p], z3.Select(S0, p) == -1, patterns=[z3.Select(S0, p)]),)
    E.loop_cands = T.cands
    h = E.alloc(st, N.handle(root), "root")
    heap0 = st.mem[H]
    loc = f["loc"]
    ck.nonvacuous("acyclic graph", [x for x in st.pc])
    for s, v in E.run_fn(st, f, None, [h]):
        L = E.rv(s, v)
        lr = next((r for r in T.roles if r in s.mem and s.mem[r] is L), None)
        j, q = fresh("j", I), fresh("q", I)
        sel = z3.Select
        for (pth, a), (_, b) in zip(leaves(s.mem[H]), leaves(heap0)):
            if "scratch" not in pth:
                E.oblige(s, a == b, "nothing but the bookkeeping is written: %s" % (pth,), loc, "frame")
        const = z3.Or(root == 0, TYP(root) == N.T["CONSTANT"])
        if L.d is None:
            E.oblige(s, sel(scratch(s), q) == -1, "bookkeeping is idle again", loc, "post")
            E.oblige(s, const, "an empty order only for a null or constant expression", loc, "post")
            continue
        a0, a1 = args_of(s)
        inl = s.assume(j >= 0, j < L.n)
        w = sel(L.d, j)
        E.oblige(s, L.n >= 1, "the order is not empty", loc, "post")
        E.oblige(s, sel(L.d, 0) == root, "the root comes first", loc, "post")
        E.oblige(s, z3.Not(const), "null and constant expressions have an empty order", loc, "post")
        if lr is None or not hasattr(T, "G"):
            raise Unsupported("the order returned is not a list built here")
        mem, pos = (lambda y: T.mem(s, lr, y)), (lambda y: T.pos(s, lr, y))
        i2 = fresh("j2", I)
        E.oblige(inl.assume(i2 >= 0, i2 < L.n, sel(L.d, i2) == w), i2 == j, "every node appears once", loc, "post")
        src = SRCF(sel(s.ghost["LAST"], w))
        E.oblige(inl.assume(j >= 1), z3.And(mem(src), pos(src) < j, z3.Or(sel(a0, src) == w, sel(a1, src) == w)), "every node after the root is an operand of an earlier node", loc, "post")
        # every reached node is listed: induction on the distance from the root's rank
        y, z = fresh("y", I), fresh("z", I)
        G = T.G
        ih = z3.ForAll([z], z3.Implies(z3.And(G(z), RANK(z) > RANK(y)), mem(z)), patterns=[RANK(z)])
        en = sel(sel(s.ghost["ENUM"], y), 0)
        E.oblige(s.assume(G(y), ih, RANK(SRCF(en)) == RANK(SRCF(en))), mem(y), "lemma (induction step on rank): every reached node is listed", loc, "lemma")
        E.oblige(s.assume(z3.Implies(G(q), mem(q))), sel(scratch(s), q) == -1, "bookkeeping is idle again", loc, "post")
        for a, nm in ((a0, "first"), (a1, "second")):
            y = sel(a, w)
            d = inl.assume(y != 0, z3.Implies(G(y), mem(y)))
            E.oblige(d, z3.And(mem(y), pos(y) > j), "the %s operand of every node appears after it" % nm, loc, "post")
    ck.take(E, "topological_sort")


POSN = z3.Function("listpos", I, I)      # position of a node in the order
EV = z3.Function("ev", I, R)             # value of a node under the current variable values
NV = z3.Function("node_value", I, R, R, R)
GLF, GRF = z3.Function("partial_l", I, R, R, R), z3.Function("partial_r", I, R, R, R)
ADJ = z3.Function("adj", I, R)
SUM = z3.Function("sum", I, I, R)
sel = z3.Select


def order(N, st, L):
    """What topological_sort returns: distinct nodes, operands later than the nodes that use them."""
    i, p = fresh("i", I), fresh("p", I)
    w = sel(L.d, i)
    a0, a1 = args_of(st)
    inl = lambda q: z3.And(POSN(q) >= 0, POSN(q) < L.n, sel(L.d, POSN(q)) == q)
    fs = [L.n >= 0, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < L.n), z3.And(POSN(w) == i, w >= 1, *[z3.Implies(sel(a, w) != 0, z3.And(sel(a, w) >= 1, inl(sel(a, w)), POSN(sel(a, w)) > i)) for a in (a0, a1)],
                                                                             z3.Implies(sel(a0, w) == 0, sel(a1, w) == 0))), patterns=[w])]
    GI.BINDER.update({"p!": "n", "x!": "n", "e!": "e", "i!": "x", "j!": "x"})
    for a in (a0, a1):
        GI.array(a, ["n"], "n")
    GI.array(L.d, ["x"], "n")
    for f, a, v in ((POSN, ["n"], "x"), (EV, ["n"], None), (ADJ, ["n"], None), (SUM, ["x", "n"], None)):
        GI.register(f.name(), a, v)
    return fs, inl


def virtuals(N):
    """Node methods by contract: value() is a function of the operands' values (P04), grad_*() is the adjoint times the partial derivative (P06)."""
    E = N.E

    def h(E_, s, fn, obj, vals, e):
        if not (isinstance(obj, LV) and obj.root == H):
            raise Unsupported("virtual call")
        p = obj.path[0][1]
        xs = [E.rv(s, v) for v in vals]
        if fn["n"] == "value":
            return [(s, NV(p, *xs))]
        if fn["n"] in ("grad_l", "grad_r"):
            return [(s, sel(s.mem[H].d.f["adjoint"], p) * (GLF if fn["n"] == "grad_l" else GRF)(p, *xs))]
        raise Unsupported("virtual call %s" % fn["n"])
    E.contracts.insert(0, (lambda fn: N.virt(fn) and fn["n"] in ("value", "grad_l", "grad_r"), h))


def graph_list(N, st):
    L = Seq(fresh("n", I), fresh("L", AI), "seq")
    fs, inl = order(N, st, L)
    st.pc += tuple(fs)
    return L, inl


def update(ck, P):
    f = P.one(r"^slp::detail::update_values$")
    N = Nodes(ck, P)
    E = N.E
    E.axioms = []
    virtuals(N)
    st = N.init([])
    L, inl = graph_list(N, st)
    lv = E.alloc(st, L, "list")
    E.readonly = {lv.root}
    val0 = st.mem[H].d.f["val"]
    a0, a1 = args_of(st)
    p, i = fresh("p", I), fresh("i", I)
    GI.array(val0, ["n"])
    evd = lambda q: z3.If(sel(a0, q) == 0, sel(val0, q), NV(q, EV(sel(a0, q)), z3.If(sel(a1, q) == 0, z3.RealVal(0), EV(sel(a1, q)))))
    st.pc += (z3.ForAll([p], EV(p) == evd(p), patterns=[EV(p)]),)

    def cands(c):
        v = c.sh.mem[H].d.f["val"]
        GI.array(v, ["n"])
        w = sel(L.d, i)
        return [("order length", c.k <= L.n), ("the last k nodes hold their value", z3.ForAll([i], z3.Implies(z3.And(i >= L.n - c.k, i < L.n), sel(v, w) == EV(w)), patterns=[w])),
                ("the other nodes are not written", z3.ForAll([p], z3.Implies(z3.Not(z3.And(inl(p), POSN(p) >= L.n - c.k)), sel(v, p) == sel(val0, p)), patterns=[sel(v, p)]))]
    E.loop_cands = cands
    heap0 = st.mem[H]
    ck.nonvacuous("ordered list", list(st.pc) + [L.n >= 2])
    j, q = fresh("j", I), fresh("q", I)
    for s, _ in E.run_fn(st, f, None, [lv]):
        v = s.mem[H].d.f["val"]
        w = sel(L.d, j)
        E.oblige(s.assume(j >= 0, j < L.n), sel(v, w) == EV(w), "every node in the order holds the function of its operands' current values", f["loc"], "post")
        E.oblige(s.assume(z3.Not(inl(q))), sel(v, q) == sel(val0, q), "no other node changes", f["loc"], "frame")
        for (pth, x), (_, y) in zip(leaves(s.mem[H]), leaves(heap0)):
            if "val" not in pth:
                E.oblige(s, x == y, "only values are written: %s" % (pth,), f["loc"], "frame")
    ck.take(E, "update_values")


def append(ck, P):
    f = P.one(r"^slp::detail::append_triplets$")
    N = Nodes(ck, P)
    E = N.E
    E.axioms = []
    E.merge = E.merge_loops = False
    virtuals(N)
    E.__dict__.setdefault("make_hooks", []).append(
        lambda E_, s, ty, vals, exprs: [(s, Obj("trip", {k: E_.rv(s, v) for k, v in zip("rcv", vals)}))] if ty["s"].startswith("Eigen::Triplet<") and len(vals) == 3 else None)
    st = N.init([])
    L, inl = graph_list(N, st)
    lv = E.alloc(st, L, "top_list")
    a0, a1 = args_of(st)
    val, adj0 = st.mem[H].d.f["val"], st.mem[H].d.f["adjoint"]
    GI.array(val, ["n"])
    GI.array(adj0, ["n"])
    p, i, k = fresh("p", I), fresh("i", I), fresh("j", I)
    rv = lambda q: z3.If(sel(a1, q) == 0, z3.RealVal(0), sel(val, sel(a1, q)))
    # SUM(k, x): seed of the root plus the contributions of the edges into x from the first k nodes
    src = sel(L.d, k)
    contrib = lambda q, x: z3.If(z3.And(sel(a0, q) != 0, sel(a0, q) == x), ADJ(q) * GLF(q, sel(val, sel(a0, q)), rv(q)), 0) + \
        z3.If(z3.And(sel(a0, q) != 0, sel(a1, q) != 0, sel(a1, q) == x), ADJ(q) * GRF(q, sel(val, sel(a0, q)), rv(q)), 0)
    spec = [z3.ForAll([p], SUM(0, p) == z3.If(p == sel(L.d, 0), z3.RealVal(1), z3.RealVal(0)), patterns=[SUM(0, p)]),
            z3.ForAll([k, p], z3.Implies(z3.And(k >= 0, k < L.n), SUM(k + 1, p) == SUM(k, p) + contrib(src, p)), patterns=[SUM(k + 1, p)]),
            z3.ForAll([p], ADJ(p) == SUM(L.n, p), patterns=[ADJ(p)])]
    st.pc += tuple(spec)
    # lemma: a node's sum is complete once its own position is reached
    jj, ii = fresh("j", I), fresh("i", I)
    w = sel(L.d, ii)
    stp = st.assume(ii >= 0, ii <= jj, jj < L.n, SUM(jj, w) == SUM(ii, w))
    GI.BIND_SK.update({jj.decl().name(): "x", ii.decl().name(): "x"})
    E.oblige(stp, SUM(jj + 1, w) == SUM(ii, w), "lemma (induction step): edges from later nodes do not reach an earlier one", f["loc"], "lemma")
    st.pc += (z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < L.n), ADJ(sel(L.d, i)) == SUM(i, sel(L.d, i))), patterns=[sel(L.d, i)]),)
    OL = Seq(fresh("outs", I), Obj("std::pair", {"first": fresh("col", AI), "second": fresh("onode", AI)}), "seq")
    ol = E.alloc(st, OL, "output_list")
    E.readonly = {lv.root, ol.root}
    o_ = fresh("i", I)
    st.pc += (OL.n >= 0, z3.ForAll([o_], z3.Implies(z3.And(o_ >= 0, o_ < OL.n), inl(sel(OL.d.f["second"], o_))), patterns=[sel(OL.d.f["second"], o_)]))
    GI.array(OL.d.f["second"], ["x"], "n")
    T0 = Seq(fresh("nt", I), Obj("trip", {"r": fresh("tr", AI), "c": fresh("tc", AI), "v": fresh("tv", AR)}), "seq")
    tl = E.alloc(st, T0, "triplets")
    row = fresh("row", I)
    st.pc += (T0.n >= 0,)

    def cands(c):
        out = []
        a = c.sh.mem[H].d.f["adjoint"]
        GI.array(a, ["n"])
        w = sel(L.d, i)
        inn = z3.And(i >= 0, i < L.n)
        if any(m[0] == H for m in c.mod):
            out.append(("zeroed so far", z3.ForAll([i], z3.Implies(z3.And(i >= 1, i <= c.k, i < L.n), sel(a, w) == 0), patterns=[w])))
            out.append(("the root's seed", sel(a, sel(L.d, 0)) == 1))
            out.append(("zeroed all", z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < c.k, i < L.n), sel(a, w) == 0), patterns=[w])))
            out.append(("adjoints are the contributions so far", z3.ForAll([i], z3.Implies(inn, sel(a, w) == SUM(c.k, w)), patterns=[w])))
            out.append(("order length", c.k <= L.n))
        if any(m[0] == tl.root for m in c.mod):
            t = c.sh.mem[tl.root]
            for x in leaves(t.d):
                GI.array(x[1], ["x"])
            at = lambda n, q: sel(t.d.f[n], q)
            out.append(("earlier triplets kept", z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < T0.n), z3.And(*[at(n, i) == sel(T0.d.f[n], i) for n in "rcv"])), patterns=[at("v", i)])))
            q = i - T0.n
            out.append(("one triplet per output", z3.ForAll([i], z3.Implies(z3.And(i >= T0.n, i < T0.n + c.k), z3.And(at("r", i) == row, at("c", i) == sel(OL.d.f["first"], q), at("v", i) == ADJ(sel(OL.d.f["second"], q)))), patterns=[at("v", i)])))
            out.append(("count", t.n == T0.n + c.k))
        return out
    E.loop_cands = cands
    heap0 = st.mem[H]
    ck.nonvacuous("graph with outputs", [L.n >= 2, OL.n >= 1, T0.n >= 0])
    j = fresh("j", I)
    for s, _ in E.run_fn(st, f, None, [lv, ol, tl, row]):
        t = s.mem[tl.root]
        at = lambda n, q: sel(t.d.f[n], q)
        E.oblige(s, t.n == z3.If(L.n == 0, T0.n, T0.n + OL.n), "one entry per output in the order", f["loc"], "post")
        for n, want in (("r", row), ("c", sel(OL.d.f["first"], j)), ("v", ADJ(sel(OL.d.f["second"], j)))):
            E.oblige(s.assume(L.n > 0, j >= 0, j < OL.n), at(n, T0.n + j) == want, "entry of each output: %s" % {"r": "row", "c": "column", "v": "accumulated adjoint"}[n], f["loc"], "post")
            E.oblige(s.assume(j >= 0, j < T0.n), at(n, j) == sel(T0.d.f[n], j), "entries appended earlier are kept (%s)" % n, f["loc"], "frame")
        aj = s.mem[H].d.f["adjoint"]
        w = sel(L.d, j)
        E.oblige(s.assume(j >= 0, j < L.n), sel(aj, w) == ADJ(w), "each adjoint is the seed plus the sum over incoming edges of the parent's adjoint times the partial derivative", f["loc"], "post")
        for (pth, x), (_, y) in zip(leaves(s.mem[H]), leaves(heap0)):
            if "adjoint" not in pth:
                E.oblige(s, x == y, "only adjoints are written: %s" % (pth,), f["loc"], "frame")
    ck.take(E, "append_triplets")


def fresh_nodes(ck, P, k, f):
    """Every node is born with idle bookkeeping and without an adjoint expression."""
    N = Nodes(ck, P)
    E = N.E
    E.merge = False
    N.skip = f["fn"]
    ops = [fresh(x, I) for x in ("a", "b")[:len(f["params"])]]
    st = N.init(ops)

    def site(E_, s, t, node, l, r, ty, o):
        E_.oblige(s, o.f["scratch"] == -1, "a new %s starts with idle bookkeeping" % P.tstr(t), f["loc"], "post")
        E_.oblige(s, N.ref(s, o.f["adjoint_expr"]) == 0, "a new %s starts without adjoint expression" % P.tstr(t), f["loc"], "post")
    N.site = site
    lvs = [E.alloc(st, N.handle(p), "op") for p in ops]
    heap0 = st.mem[H]
    q = fresh("q", I)
    for s, v in E.run_fn(st, f, None, lvs):
        for (pth, a), (_, b) in zip(leaves(s.mem[H]), leaves(heap0)):
            if "scratch" in pth or "args" in pth or "adjoint_expr" in pth:
                E.oblige(s.assume(q >= 1, q < st.ghost["next"]), sel(a, q) == sel(b, q), "%s: existing nodes keep their operands and bookkeeping" % k, f["loc"], "frame")
    ck.take(E, "fresh nodes " + k)


def value(ck, P):
    """value() sorts the expression once, updates its nodes and returns the root's value."""
    f = P.one(r"^slp::Variable<double>::value$")
    N = Nodes(ck, P)
    E = N.E
    TN, TL, UPD = z3.Function("ts_n", I, I), z3.Function("ts_list", I, AI), z3.Function("updated", AR, I, AI, AR)
    E.contracts.insert(0, (lambda fn: fn["qn"] == "slp::detail::topological_sort", lambda E_, s, fn, o, v, e: [(s, Seq(TN(N.ref(s, v[0])), TL(N.ref(s, v[0])), "seq"))]))

    def upd(E_, s, fn, o, v, e):
        s = s.copy()
        L = E_.rv(s, v[0])
        d = dict(s.mem[H].d.f)
        d["val"] = UPD(d["val"], L.n, L.d if L.d is not None else z3.K(I, z3.IntVal(0)))
        s.mem[H] = Seq(s.mem[H].n, Obj(EXPR, d), "nodes")
        s.ghost["updates"] = s.ghost["updates"] + 1
        return [(s, VOID)]
    E.contracts.insert(0, (lambda fn: fn["qn"] == "slp::detail::update_values", upd))
    p, gi = fresh("expr", I), fresh("gi", B)
    st = N.init([p])
    st.ghost["updates"] = z3.IntVal(0)
    gn, gd = fresh("gn", I), fresh("gd", AI)
    st.pc += (z3.Implies(gi, z3.And(gn == TN(p), gd == TL(p))),)
    this = E.alloc(st, Obj(VT, {"expr": N.handle(p), "m_graph": Seq(gn, gd, "seq"), "m_graph_initialized": gi}), "this")
    val0 = st.mem[H].d.f["val"]
    loc = f["loc"]
    ck.nonvacuous("variable", list(st.pc))
    for s, v in E.run_fn(st, f, this, []):
        o = E.read(s, this)
        want = UPD(val0, TN(p), TL(p))
        E.oblige(s, s.mem[H].d.f["val"] == want, "the nodes of the expression's own order are updated, once", loc, "post")
        E.oblige(s, E.rv(s, v) == sel(want, p), "the updated value of the expression is returned", loc, "post")
        g = o.f["m_graph"]
        E.oblige(s, z3.Implies(o.f["m_graph_initialized"], z3.And(g.n == TN(p), g.d == TL(p))), "a kept order is the expression's order", loc, "post")
        E.oblige(s, N.ref(s, o.f["expr"]) == p, "the expression is kept", loc, "frame")
    ck.take(E, "Variable::value")
