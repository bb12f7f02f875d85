"""P08: Jacobian and Hessian values are fresh after any change of variable values."""
import re
import z3
from slpv.eng import *
from slpv import ginst as GI
from slpv.nodes import Nodes, H, TYP, AI, AR, EXPR
from props.p04 import VT

HARNESS = "p08.cpp"
HSRC = ("autodiff/gradient.cpp", "autodiff/jacobian.cpp", "autodiff/hessian.cpp", "autodiff/variable_matrix.cpp")
MIN_OBLIGATIONS = 60
SRC = """
#include <sleipnir/autodiff/gradient.hpp>
#include <sleipnir/autodiff/hessian.hpp>
#include <sleipnir/autodiff/jacobian.hpp>
using V = slp::Variable<double>; using M = slp::VariableMatrix<double>;
void use(V v, M m) {
  slp::Jacobian<double> j{m, m}; j.value(); j.get();
  slp::Gradient<double> g{v, m}; g.value(); g.get();
  slp::Hessian<double, Eigen::Lower> h{v, m}; h.value(); h.get();
  slp::Hessian<double, Eigen::Lower | Eigen::Upper> f{v, m}; f.value(); f.get();
}
"""
VM = "slp::VariableMatrix<double>"
AB = z3.ArraySort(I, B)
AAI, AAR, AAB = z3.ArraySort(I, AI), z3.ArraySort(I, AR), z3.ArraySort(I, AB)
TN = z3.Function("ts_n", I, I)                     # topological_sort(root): length,
TLA = z3.Const("ts_list", AAI)                     # ... nodes,
INL = z3.Function("in_list", I, I, B)              # ... membership,
POSL = z3.Function("list_pos", I, I, I)            # ... position
EV = z3.Function("ev", I, R)                       # value of a node under the current variable values
LIN = z3.Function("linear_list", I, AI, B)
TADJ = z3.Function("adjoint_now", I, AI, I, R)     # partial derivative of a list's root with respect to a node, now
CADJ = z3.Function("adjoint_const", I, AI, I, R)   # the same where it does not depend on the variables
WC = z3.Function("wrt_col", I, I)                  # column of a wrt node
DER = z3.Function("derivative_tree", I, I, I)      # node denoting d root / d node (0: identically zero)
sel = z3.Select


def FA(vs, body, patterns=None):
    return z3.ForAll(vs, body)      # instantiated by kinds (ginst)


def prove(ck):
    P = ck.dump(SRC)
    jobs = []
    for cls in ("slp::Jacobian<double>", "slp::Hessian<double, 1>", "slp::Hessian<double>"):
        rx = re.escape(cls)
        nm = cls[5:]
        jobs += [("%s::value" % nm, value, P, cls, P.one("^%s::value$" % rx)), ("%s::get" % nm, get, P, cls, P.one("^%s::get$" % rx)),
                 ("%s constructor" % nm, ctor, P, cls, [f for f in P.funcs.values() if f["kind"] == "ctor" and f["fn"]["qn"].startswith(cls + "::") and len(f["params"]) == 2 and not (P.params(f)[0] == VT and "Jacobian" in cls)][0])]
    jobs.append(("Gradient", gradient, P))
    ck.par(jobs)
    ck.assume += ["topological_sort, update_values and append_triplets enter by the contracts proved in P07; gradient_tree by its contract (each entry null or denoting the partial derivative)",
                  "the derivatives of a LINEAR expression do not depend on the variables (P05) and those of a constant are zero",
                  "the variables differentiated with respect to are distinct non-null nodes",
                  "Eigen: setFromTriplets stores at (r, c) the sum of the triplets given for (r, c); triangularView<Lower> keeps the lower triangle"]


class World:
    def __init__(self, ck, P, cls):
        self.ck, self.P, self.cls = ck, P, cls
        N = self.N = Nodes(ck, P)
        E = self.E = N.E
        E.axioms = []
        L_, Cn = N.T["LINEAR"], N.T["CONSTANT"]
        st = self.st = N.init([])
        self.m, self.n = fresh("m", I), fresh("n", I)
        self.ROOT, self.W = fresh("root", AI), fresh("wrt", AI)
        st.ghost["NPOS"] = fresh("npos", AI)
        GI.BINDER.update({"p!": "n", "x!": "n", "y!": "n", "i!": "x", "j!": "x", "c!": "x"})
        for f, a, v in ((TN, ["n"], None), (INL, ["n", "n"], None), (POSL, ["n", "n"], "x"), (EV, ["n"], None), (WC, ["n"], "x"), (TYP, ["n"], None), (TADJ, [None, None, "n"], None), (CADJ, [None, None, "n"], None), (DER, ["n", "n"], "n")):
            GI.register(f.name(), a, v)
        GI.array(TLA, ["n", "x"], "n")
        for a in (self.ROOT, self.W):
            GI.array(a, ["x"], "n")
        p, x, i, j, c = fresh("p", I), fresh("x", I), fresh("i", I), fresh("j", I), fresh("c", I)
        t = sel(sel(TLA, p), j)
        self.st.pc += (self.m >= 0, self.n >= 1,
            FA([p, j], z3.Implies(z3.And(j >= 0, j < TN(p)), z3.And(INL(p, t), POSL(p, t) == j, t >= 1)), patterns=[t]),
            FA([p, x], z3.Implies(INL(p, x), z3.And(POSL(p, x) >= 0, POSL(p, x) < TN(p), sel(sel(TLA, p), POSL(p, x)) == x)), patterns=[INL(p, x)]),
            FA([p], z3.And(TN(p) >= 0, z3.Implies(z3.Or(p == 0, TYP(p) == Cn), TN(p) == 0), z3.Implies(TYP(p) == L_, LIN(TN(p), sel(TLA, p)))), patterns=[TN(p)]),
            FA([i], z3.Implies(z3.And(i >= 0, i < self.n), z3.And(sel(self.W, i) >= 1, WC(sel(self.W, i)) == i)), patterns=[sel(self.W, i)]),
            FA([i], z3.Implies(z3.And(i >= 0, i < self.m), z3.And(sel(self.ROOT, i) >= 0, z3.Implies(sel(self.ROOT, i) >= 1, z3.And(TYP(sel(self.ROOT, i)) >= Cn, TYP(sel(self.ROOT, i)) <= N.T["NONLINEAR"])))), patterns=[sel(self.ROOT, i)]))
        C = E.contracts
        q = lambda *xs: (lambda fn: fn["qn"] in xs)
        C.insert(0, (q("slp::detail::topological_sort"), lambda E_, s, fn, o, v, e: [(s, Seq(TN(N.ref(s, v[0])), sel(TLA, N.ref(s, v[0])), "seq"))]))
        C.insert(0, (q("slp::detail::update_values"), self.h_update))
        C.insert(0, (q("slp::detail::append_triplets"), self.h_append))
        C.insert(0, (q("slp::detail::gradient_tree"), self.h_tree))
        C.insert(0, (lambda fn: re.match(r"^(gch::small_vector|std::vector)<Eigen::Triplet<", fn["qn"]), self.h_trips))
        C.insert(0, (lambda fn: re.match(r"^(gch::small_vector|std::vector)<std::pair<int, slp::detail::Expression<double> \*>>::", fn["qn"]), self.h_outs))
        C.insert(0, (lambda fn: fn["qn"].startswith("Eigen::"), self.h_eigen))
        E.__dict__.setdefault("default_hooks", []).insert(0, self.dflt)
        E.__dict__.setdefault("make_hooks", []).insert(0, lambda E_, s, ty, vals, exprs: [(s, d)] if not vals and (d := self.dflt(E_, s, ty)) is not None else None)
        E.on_push = self.on_push
        E.loop_cands = self.cands
        self.obj = None

    # ---- abstract library values
    def dflt(self, E, st, ty):
        if re.match(r"(gch::small_vector|std::vector)<Eigen::Triplet<", ty["s"]):
            return Obj("trips", {"has": z3.K(I, z3.BoolVal(False)), "ent": fresh("ent", AAR)})
        if re.match(r"(gch::small_vector|std::vector)<std::pair<int, slp::detail::Expression<double> \*>", ty["s"]):
            return Obj("outs", {"has": z3.K(I, z3.BoolVal(False)), "col": fresh("col", AI)})
        return None

    def mat(self, exprs, rows):
        return Obj(VM, {"m_storage": Seq(rows, Obj(VT, {"expr": self.N.handle(exprs), "m_graph": Seq(fresh("gn", AI), fresh("gd", AAI), "seq"), "m_graph_initialized": fresh("gi", AB)}), "seq"), "m_rows": rows, "m_cols": z3.IntVal(1)})

    def on_push(self, st, lv, i, v):
        if is_leaf(v) and v.sort() == I:
            st.ghost["NPOS"] = z3.Store(st.ghost["NPOS"], v, i)

    def h_trips(self, E, s, fn, o, v, e):
        n = fn["n"]
        if n in ("small_vector", "vector"):
            if not v:
                return [(s, self.dflt(E, s, {"s": "std::vector<Eigen::Triplet<"}))]
            return [(s, E.rv(s, v[0]))]
        if n in ("reserve", "shrink_to_fit"):
            return [(s, VOID)]
        if n == "clear":
            E.write(s, o, Obj("trips", dict(E.rv(s, o).f, has=z3.K(I, z3.BoolVal(False)))))
            return [(s, VOID)]
        if n == "operator=":
            E.write(s, o, E.rv(s, v[0]))
            return [(s, o)]
        if n in ("begin", "end", "cbegin", "cend"):
            return [(s, Pure("trips", (n.replace("c", "", 1) if n[0] == "c" else n, E.rv(s, o))))]
        raise Unsupported(fn["qn"])

    def h_outs(self, E, s, fn, o, v, e):
        if fn["n"] in ("emplace_back", "push_back"):
            x = E.rv(s, o)
            if len(v) == 2:
                c, p = [E.rv(s, y) for y in v]
            else:
                pr = E.rv(s, v[0])
                c, p = pr.f["first"], pr.f["second"]
            p = self.N.ref(s, p)
            E.oblige(s, z3.Not(sel(x.f["has"], p)), "an output is listed once")
            E.write(s, o, Obj("outs", {"has": z3.Store(x.f["has"], p, z3.BoolVal(True)), "col": z3.Store(x.f["col"], p, c)}))
            return [(s, VOID)]
        if fn["n"] == "reserve":
            return [(s, VOID)]
        if fn["n"] in ("small_vector", "vector") and len(v) <= 1:
            return [(s, E.rv(s, v[0]) if v else self.dflt(E, s, {"s": "std::vector<std::pair<int, slp::detail::Expression<double> *>>"}))]
        raise Unsupported(fn["qn"])

    def h_eigen(self, E, s, fn, o, v, e):
        n, q = fn["n"], fn["qn"]
        if n == "SparseMatrix":
            if len(v) == 2:
                return [(s, Obj("spm", {"rows": E.rv(s, v[0]), "cols": E.rv(s, v[1]), "has": z3.K(I, z3.BoolVal(False)), "ent": fresh("ent", AAR), "low": z3.BoolVal(False)}))]
            if len(v) == 1:
                return [(s, E.rv(s, v[0]))]
        x = E.rv(s, o) if o is not None else E.rv(s, v[0]) if v else None
        if isinstance(x, Obj) and x.cls == "spm":
            if n == "setFromTriplets":
                a, b = [E.rv(s, y) for y in v[:2]]
                if not all(isinstance(y, Pure) and y.tag == "trips" for y in (a, b)) or len(v) > 2:
                    raise Unsupported("setFromTriplets arguments")
                if a.data[0] != "begin" or b.data[0] != "end" or not same(a.data[1], b.data[1]):
                    raise Unsupported("setFromTriplets range")
                E.write(s, o, Obj("spm", dict(x.f, has=a.data[1].f["has"], ent=a.data[1].f["ent"], low=z3.BoolVal(False))))
                return [(s, VOID)]
            if n == "triangularView":
                up = next((t["i"] for t in fn.get("targs", []) if "i" in t), None)
                if up != 1:
                    raise Unsupported("triangularView<%s>" % up)
                return [(s, Obj("spm", dict(x.f, low=z3.BoolVal(True))))]
            if n == "operator=":
                E.write(s, o, E.rv(s, v[0]))
                return [(s, o)]
            if n in ("rows", "cols"):
                return [(s, x.f[n])]
        raise Unsupported(q)

    # ---- contracts of P07
    def h_update(self, E, s, fn, o, v, e):
        L = E.rv(s, v[0])
        s = s.copy()
        d = dict(s.mem[H].d.f)
        v0, v1 = d["val"], fresh("val", AR)
        for a in (v0, v1):
            GI.array(a, ["n"])
        d["val"] = v1
        s.mem[H] = Seq(s.mem[H].n, Obj(EXPR, d), "nodes")
        j, x = fresh("j", I), fresh("x", I)
        w = sel(L.d, j)
        s = s.assume(FA([j], z3.Implies(z3.And(j >= 0, j < L.n), sel(v1, w) == EV(w)), patterns=[w]),
                     FA([x], z3.Or(sel(v1, x) == EV(x), sel(v1, x) == sel(v0, x)), patterns=[sel(v1, x)]))
        return [(s, VOID)]

    def h_append(self, E, s, fn, o, v, e):
        L, O, T, row = [E.rv(s, y) for y in v]
        if not (isinstance(O, Obj) and O.cls == "outs" and isinstance(T, Obj) and T.cls == "trips"):
            raise Unsupported("append_triplets arguments")
        val = s.mem[H].d.f["val"]
        GI.array(val, ["n"])
        j, x, y, c = fresh("j", I), fresh("x", I), fresh("y", I), fresh("c", I)
        has, col = O.f["has"], O.f["col"]
        E.oblige(s, z3.Not(sel(T.f["has"], row)), "the entries of a row are appended once")
        E.oblige(s, z3.And(row >= 0, row < self.m), "row within the matrix")
        E.oblige(s.assume(j >= 0, j < L.n, z3.Not(LIN(L.n, L.d))), sel(val, sel(L.d, j)) == EV(sel(L.d, j)), "the row's nodes hold their current values before its gradient is computed")
        E.oblige(s.assume(sel(has, x), sel(has, y), sel(col, x) == sel(col, y)), x == y, "one output per column")
        E.oblige(s.assume(sel(has, x)), z3.And(sel(col, x) >= 0, sel(col, x) < self.n), "column within the matrix")
        ent, wit = fresh("row", AR), fresh("wit", AI)
        GI.array(ent, ["x"])
        GI.array(wit, ["x"], "n")
        s = s.assume(FA([x], z3.Implies(sel(has, x), sel(ent, sel(col, x)) == TADJ(L.n, L.d, x)), patterns=[sel(has, x)]),
                     FA([c], z3.Or(sel(ent, c) == 0, z3.And(sel(has, sel(wit, c)), sel(col, sel(wit, c)) == c)), patterns=[sel(ent, c)]),
                     FA([x], z3.Implies(LIN(L.n, L.d), TADJ(L.n, L.d, x) == CADJ(L.n, L.d, x)), patterns=[TADJ(L.n, L.d, x)]))
        # append_triplets writes the adjoints of the list's nodes
        d = dict(s.mem[H].d.f)
        d["adjoint"] = fresh("adjoint", AR)
        s.mem[H] = Seq(s.mem[H].n, Obj(EXPR, d), "nodes")
        E.write(s, v[2], Obj("trips", {"has": z3.Store(T.f["has"], row, z3.BoolVal(True)), "ent": z3.Store(T.f["ent"], row, ent)}))
        return [(s, VOID)]

    def h_tree(self, E, s, fn, o, v, e):
        L, w = E.rv(s, v[0]), E.rv(s, v[1])
        W = w.f["m_storage"].d.f["expr"].f["m_ptr"]
        g, i = fresh("grad", AI), fresh("i", I)
        GI.array(g, ["x"], "n")
        LD = z3.Function("derivative_of", I, AI, I, I)
        GI.register(LD.name(), [None, None, "n"], "n")
        n, nx = w.f["m_rows"], fresh("next", I)
        s = s.assume(FA([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(sel(g, i) == LD(L.n, L.d, sel(W, i)), sel(g, i) >= 0, sel(g, i) < nx)), patterns=[sel(g, i)]), nx >= s.ghost["next"])
        s = s.copy()
        s.ghost["next"] = nx
        return [(s, self.mat(g, n))]

    # ---- class invariant
    def fields(self, o):
        f = o.f
        names = ("m_variables", "m_wrt", "m_top_lists", "m_output_lists", "m_cached_triplets", "m_nonlinear_rows")
        M = [k for k in f if isinstance(f[k], Obj) and f[k].cls in ("spm",)] or [k for k in f if k in ("m_J", "m_H")]
        if any(k not in f for k in names) or len(M) != 1:
            raise Unsupported("members of %s" % self.cls)
        return [f[k] for k in names] + [f[M[0]]]

    def make(self):
        rec = self.P.rec_of(self.tcls())
        has = {x["n"] for x in rec["fields"]}
        f = {"m_variables": self.mat(self.ROOT, self.m), "m_wrt": self.mat(self.W, self.n),
             "m_top_lists": Seq(self.m, Seq(fresh("tn", AI), fresh("tl", AAI), "seq"), "seq"),
             "m_output_lists": Seq(self.m, Obj("outs", {"has": fresh("ohas", AAB), "col": fresh("ocol", AAI)}), "seq"),
             "m_cached_triplets": Obj("trips", {"has": fresh("thas", AB), "ent": fresh("tent", AAR)}),
             "m_nonlinear_rows": Seq(fresh("nln", I), fresh("nl", AI), "seq")}
        J = Obj("spm", {"rows": self.m, "cols": self.n, "has": fresh("jhas", AB), "ent": fresh("jent", AAR), "low": fresh("jlow", B)})
        f["m_J" if "m_J" in has else "m_H"] = J
        if set(f) != has:
            raise Unsupported("members of %s: %s" % (self.cls, sorted(has)))
        return Obj(self.cls, {x["n"]: f[x["n"]] for x in rec["fields"]})

    def tcls(self):
        return next(f["fn"]["cls"] for f in self.P.funcs.values() if f["fn"].get("cls") is not None and f["fn"]["qn"].startswith(self.cls + "::") and f["kind"] == "method")

    def reg(self, o):
        _, _, T, O, C, NL, J = self.fields(o)
        GI.array(T.d.n, ["x"])
        GI.array(T.d.d, ["x", "x"], "n")
        if O.d is not None:
            GI.array(O.d.f["has"], ["x", "n"])
            GI.array(O.d.f["col"], ["x", "n"], "x")
        for t in (C, J):
            if isinstance(t, Obj):
                GI.array(t.f["has"], ["x"])
                GI.array(t.f["ent"], ["x", "x"])
        if NL.d is not None:
            GI.array(NL.d, ["x"], "x")

    def isw(self, x):
        return z3.And(WC(x) >= 0, WC(x) < self.n, sel(self.W, WC(x)) == x)

    def spec(self, i, c, now):
        r = sel(self.ROOT, i)
        w = sel(self.W, c)
        return z3.If(INL(r, w), (TADJ if now else CADJ)(TN(r), sel(TLA, r), w), z3.RealVal(0))

    def lin(self, i):
        r = sel(self.ROOT, i)
        return z3.And(r != 0, TYP(r) == self.N.T["LINEAR"])

    def nonl(self, i):
        r = sel(self.ROOT, i)
        return z3.And(r != 0, TYP(r) > self.N.T["LINEAR"])

    def parts(self, o, st, kt=None, ko=None, kr=None):
        """Pieces of the class invariant, for the first kt/ko/kr rows."""
        V, Wm, T, O, C, NL, J = self.fields(o)
        i, j, x, c = fresh("i", I), fresh("j", I), fresh("x", I), fresh("c", I)
        r = sel(self.ROOT, i)
        np = st.ghost["NPOS"]
        GI.array(np, ["x"], "x")
        upto = lambda k, d: z3.And(i >= 0, i < (d if k is None else k), i < d)
        out = {}
        if T.d is not None:
            out["order of each row"] = FA([i], z3.Implies(upto(kt, self.m), z3.And(sel(T.d.n, i) == TN(r), sel(T.d.d, i) == sel(TLA, r))), patterns=[sel(T.d.n, i)])
            w = sel(sel(T.d.d, i), j)
            out["elements of each order"] = FA([i, j], z3.Implies(z3.And(upto(kt, self.m), j >= 0, j < sel(T.d.n, i)), z3.And(INL(r, w), POSL(r, w) == j, w >= 1)), patterns=[w])
        if O.d is not None:
            hs = sel(sel(O.d.f["has"], i), x)
            out["outputs of each row"] = FA([i, x], z3.Implies(upto(ko, self.m), z3.And(hs == z3.And(INL(r, x), self.isw(x)), z3.Implies(hs, sel(sel(O.d.f["col"], i), x) == WC(x)))), patterns=[hs])
        out["cached rows"] = FA([i], sel(C.f["has"], i) == z3.And(upto(kr, self.m), self.lin(i)), patterns=[sel(C.f["has"], i)])
        e = sel(sel(C.f["ent"], i), c)
        out["cached entries"] = FA([i, c], z3.Implies(z3.And(sel(C.f["has"], i), c >= 0, c < self.n), e == self.spec(i, c, False)), patterns=[e])
        a = sel(NL.d, j) if NL.d is not None else None
        out["recomputed rows"] = z3.And(NL.n >= 0, FA([j], z3.Implies(z3.And(j >= 0, j < NL.n), z3.And(a >= 0, a < (self.m if kr is None else kr), a < self.m, self.nonl(a), sel(np, a) == j)), patterns=[a])) if a is not None else NL.n == 0
        if a is not None:
            out["every row is cached, constant or recomputed"] = FA([i], z3.Implies(z3.And(upto(kr, self.m), self.nonl(i)), z3.And(sel(np, i) >= 0, sel(np, i) < NL.n, sel(NL.d, sel(np, i)) == i)), patterns=[r])
        return out

    def matrix(self, J, i, c):
        return z3.If(z3.And(sel(J.f["has"], i), z3.Or(z3.Not(J.f["low"]), i >= c)), sel(sel(J.f["ent"], i), c), z3.RealVal(0))

    def want(self, i, c, now):
        v = self.spec(i, c, now)
        return z3.If(i >= c, v, z3.RealVal(0)) if self.cls.endswith(", 1>") else v

    def final(self, o, now):
        """Without recomputed rows the matrix already holds its entries."""
        NL, J = self.fields(o)[5:]
        i, c = fresh("i", I), fresh("c", I)
        GI.array(J.f["ent"], ["x", "x"])
        GI.array(J.f["has"], ["x"])
        return z3.And(J.f["rows"] == self.m, J.f["cols"] == self.n, z3.Implies(NL.n == 0, FA([i, c], z3.Implies(z3.And(i >= 0, i < self.m, c >= 0, c < self.n), self.matrix(J, i, c) == self.want(i, c, now)), patterns=[sel(sel(J.f["ent"], i), c)])))

    # ---- loops
    def cands(self, c):
        return self.cand_fn(c) if self.cand_fn else []


def value(ck, P, cls, f):
    W = World(ck, P, cls)
    E, st = W.E, W.st
    o = W.make()
    W.reg(o)
    this = E.alloc(st, o, "this")
    for k, x in W.parts(o, st).items():
        st.pc += (x,)
    st.pc += (W.final(o, False),)
    V, Wm, T, O, C, NL, J = W.fields(o)
    i, j, cc = fresh("i", I), fresh("j", I), fresh("c", I)
    x = fresh("x", I)
    np = st.ghost["NPOS"]
    # the derivatives of a linear or constant row are those of any time
    st.pc += (FA([i, cc], z3.Implies(z3.And(i >= 0, i < W.m, cc >= 0, cc < W.n, z3.Not(W.nonl(i))), W.spec(i, cc, True) == W.spec(i, cc, False)), patterns=[z3.MultiPattern(sel(W.ROOT, i), sel(W.W, cc))]),)

    def cand(c):
        out = []
        if c.modified_root(H):
            val = c.sh.mem[H].d.f["val"]
            GI.array(val, ["n"])
            w = sel(sel(T.d.d, i), j)
            out.append(("lists updated so far", FA([i, j], z3.Implies(z3.And(i >= 0, i < c.k, i < W.m, j >= 0, j < sel(T.d.n, i)), sel(val, w) == EV(w)), patterns=[w])))
            out.append(("all lists updated", FA([i, j], z3.Implies(z3.And(i >= 0, i < W.m, j >= 0, j < sel(T.d.n, i)), sel(val, w) == EV(w)), patterns=[w])))
        for root in {m[0] for m in c.mod}:
            t = c.sh.mem.get(root)
            if isinstance(t, Obj) and t.cls == "trips":
                GI.array(t.f["has"], ["x"])
                GI.array(t.f["ent"], ["x", "x"])
                h, e = sel(t.f["has"], i), sel(sel(t.f["ent"], i), cc)
                out.append(("rows present", FA([i], h == z3.And(i >= 0, i < W.m, z3.Or(W.lin(i), z3.And(W.nonl(i), sel(np, i) < c.k))), patterns=[h])))
                out.append(("entries present", FA([i, cc], z3.Implies(z3.And(h, cc >= 0, cc < W.n), e == W.spec(i, cc, True)), patterns=[e])))
        out.append(("rows done", c.k <= NL.n))
        out.append(("lists done", c.k <= W.m))
        return out
    W.cand_fn = cand
    ck.nonvacuous("%s with rows" % cls, [W.m >= 1, W.n >= 1])
    qi, qc = fresh("qi", I), fresh("qc", I)
    GI.BIND_SK.update({qi.decl().name(): "x", qc.decl().name(): "x"})
    for s, v in E.run_fn(st, f, this, []):
        r = E.rv(s, v)
        if not (isinstance(r, Obj) and r.cls == "spm"):
            raise Unsupported("value() returned %r" % (r,))
        for a in (r.f["has"],):
            GI.array(a, ["x"])
        GI.array(r.f["ent"], ["x", "x"])
        d = s.assume(qi >= 0, qi < W.m, qc >= 0, qc < W.n)
        E.oblige(d, W.matrix(r, qi, qc) == W.want(qi, qc, True), "every entry is the partial derivative at the current values, in its row and column", f["loc"], "post")
        E.oblige(s, z3.And(r.f["rows"] == W.m, r.f["cols"] == W.n), "dimensions", f["loc"], "post")
        o1 = E.read(s, this)
        for (pth, a), (_, b) in zip(leaves(o1), leaves(o)):
            if pth and pth[0] in ("m_J", "m_H"):
                continue
            E.oblige(s, a == b, "evaluation keeps the caches: %s" % (pth,), f["loc"], "frame")
        J1 = W.fields(o1)[6]
        E.oblige(d, W.matrix(J1, qi, qc) == W.want(qi, qc, True), "the stored matrix is the one returned", f["loc"], "post")
    ck.take(E, "%s::value" % cls)


def get(ck, P, cls, f):
    W = World(ck, P, cls)
    E, st = W.E, W.st
    o = W.make()
    W.reg(o)
    this = E.alloc(st, o, "this")
    E.readonly = {this.root}
    for k, x in W.parts(o, st).items():
        st.pc += (x,)
    LD = z3.Function("derivative_of", I, AI, I, I)
    GI.register(LD.name(), [None, None, "n"], "n")
    i, c = fresh("i", I), fresh("c", I)
    N = W.N

    def good(s, p, i, c):
        """Element p is the derivative tree of row i with respect to column c, or a zero constant where there is none."""
        r = sel(W.ROOT, i)
        d = LD(TN(r), sel(TLA, r), sel(W.W, c))
        val = s.mem[H].d.f["val"]
        GI.array(val, ["n"])
        return z3.And(p >= 1, p < s.ghost["next"], z3.Implies(d != 0, p == d), z3.Implies(d == 0, z3.And(TYP(p) == N.T["CONSTANT"], sel(val, p) == 0)))

    # the result matrix by element (row, column): contracts proved in P10
    def mat2(E_, s, fn, o, v, e):
        if fn["n"] == "VariableMatrix":
            r, c_ = E_.rv(s, v[1]), E_.rv(s, v[2])
            zero = z3.K(I, z3.IntVal(0))
            el = Obj(VT, {"expr": N.handle(z3.K(I, zero)), "m_graph": Seq(z3.K(I, zero), None, "seq"), "m_graph_initialized": z3.K(I, z3.K(I, z3.BoolVal(False)))})
            return [(s, Obj("mat2", {"m_rows": r, "m_cols": c_, "el": Seq(r, Seq(z3.K(I, c_), el, "seq"), "seq")}))]
        x = E_.rv(s, o)
        if isinstance(x, Obj) and x.cls == "mat2":
            r, c_ = [E_.rv(s, y) for y in v]
            E_.oblige(s, z3.And(r >= 0, r < x.f["m_rows"], c_ >= 0, c_ < x.f["m_cols"]), "element within the result")
            return [(s, o.fld("el").at(r).at(c_))]
        return E_.run_fn(s, P.funcs[fn["id"]], o, v)
    E.contracts.insert(0, (lambda fn: fn["qn"].startswith(VM + "::") and (fn["n"] == "VariableMatrix" and len(fn["pt"]) == 3 and "empty_t" in P.tstr(P.strip_ref(fn["pt"][0])) or fn["n"] == "operator[]" and len(fn["pt"]) == 2), mat2))

    def cand(cx):
        out = []
        k0, k1 = cx.sh.ghost.get("k:0"), cx.sh.ghost.get("k:1")
        for root in {m[0] for m in cx.mod}:
            t = cx.sh.mem.get(root)
            if isinstance(t, Obj) and t.cls == "mat2":
                e = t.f["el"].d.d.f["expr"].f["m_ptr"]
                GI.array(e, ["x", "x"], "n")
                at = sel(sel(e, i), c)
                done = z3.And(i >= 0, i < W.m, c >= 0, c < W.n, i < k0 if k1 is None else z3.Or(i < k0, z3.And(i == k0, c < k1)))
                out.append(("elements written", FA([i, c], z3.Implies(done, good(cx.sh, at, i, c)))))
        out.append(("row", k0 <= W.m))
        if k1 is not None:
            out += [("column", k1 <= W.n), ("row", k0 < W.m)]
        out.append(("nodes", cx.sh.ghost["next"] >= cx.st0.ghost["next"]))
        return out
    W.cand_fn = cand
    qi, qc = fresh("qi", I), fresh("qc", I)
    GI.BIND_SK.update({qi.decl().name(): "x", qc.decl().name(): "x"})
    for s, v in E.run_fn(st, f, this, []):
        r = E.rv(s, v)
        E.oblige(s, z3.And(r.f["m_rows"] == W.m, r.f["m_cols"] == W.n), "dimensions", f["loc"], "post")
        e = r.f["el"].d.d.f["expr"].f["m_ptr"]
        GI.array(e, ["x", "x"], "n")
        E.oblige(s.assume(qi >= 0, qi < W.m, qc >= 0, qc < W.n), good(s, sel(sel(e, qi), qc), qi, qc), "every element is the derivative of its row with respect to its column", f["loc"], "post")
    ck.take(E, "%s::get" % cls)


def ctor(ck, P, cls, f):
    W = World(ck, P, cls)
    E, st = W.E, W.st
    N = W.N
    jac = "Jacobian" in cls
    S0 = st.mem[H].d.f["scratch"]
    GI.array(S0, ["n"], "x")
    x = fresh("x", I)
    st.pc += (FA([x], sel(S0, x) == -1, patterns=[sel(S0, x)]),)
    if jac:
        args = [E.alloc(st, W.mat(W.ROOT, W.m), "variables"), E.alloc(st, W.mat(W.W, W.n), "wrt")]
    else:
        p = fresh("p", I)
        st.pc += (p >= 1, W.m == W.n)

        def tree(E_, s, fn, o, v, e):
            L, w = E_.rv(s, v[0]), E_.rv(s, v[1])
            E_.oblige(s, z3.And(L.n == TN(p), L.d == sel(TLA, p)), "rows are the derivatives of the given expression", f["loc"], "post")
            E_.oblige(s, w.f["m_storage"].d.f["expr"].f["m_ptr"] == W.W, "with respect to the given variables", f["loc"], "post")
            return [(s, W.mat(W.ROOT, w.f["m_rows"]))]
        E.contracts.insert(0, (lambda fn: fn["qn"] == "slp::detail::gradient_tree", tree))
        args = [E.alloc(st, Obj(VT, {"expr": N.handle(p), "m_graph": Seq(fresh("gn", I), fresh("gd", AI), "seq"), "m_graph_initialized": fresh("gi", B)}), "variable"), E.alloc(st, W.mat(W.W, W.n), "wrt")]
    # gradients of linear rows never need current values
    i, c = fresh("i", I), fresh("c", I)

    def this_of(cx):
        for r, v in cx.sh.mem.items():
            if isinstance(v, Obj) and "m_top_lists" in v.f:
                return v
        return None

    def cand(cx):
        st_ = cx.sh
        out = []
        k0 = st_.ghost.get("k:0")
        inner = st_.ghost.get("k:1")
        o = this_of(cx)
        if o is None:
            return out
        S = st_.mem[H].d.f["scratch"]
        GI.array(S, ["n"], "x")
        W.reg_safe(o)
        sx = sel(S, x)
        k = k0
        if cx.modified_root(H):
            out.append(("columns assigned so far", FA([x], sx == z3.If(z3.And(W.isw(x), WC(x) < k), WC(x), -1), patterns=[sx])))
            out.append(("columns reset so far", FA([x], sx == z3.If(z3.And(W.isw(x), WC(x) >= k), WC(x), -1), patterns=[sx])))
        T, O, C, NL = [o.f[n] for n in ("m_top_lists", "m_output_lists", "m_cached_triplets", "m_nonlinear_rows")]
        if T.d is not None:
            out.append(("lists", T.n == k))
        if O.d is not None:
            out.append(("output lists", O.n == (k if inner is None else k + 1)))
        ps = W.parts(o, st_, k, k, k)
        if not any("trips" == getattr(o_, "cls", "") for o_ in [C]) or not any("m_cached_triplets" in str(m[1]) or "m_nonlinear_rows" in str(m[1]) for m in cx.mod):
            ps = {a: b for a, b in ps.items() if not re.match("cached|recomputed|every row", a)}
        if not any("m_output_lists" in str(m[1]) for m in cx.mod):
            ps = {a: b for a, b in ps.items() if not re.match("outputs", a)}
        if not any("m_top_lists" in str(m[1]) for m in cx.mod):
            ps = {a: b for a, b in ps.items() if not re.match("order|elements", a)}
        out += [(n + " so far", f_) for n, f_ in ps.items()]
        if inner is not None and O.d is not None and T.d is not None:
            r = sel(W.ROOT, k0)
            hs = sel(sel(O.d.f["has"], k0), x)
            out.append(("outputs of this row so far", FA([x], z3.And(hs == z3.And(INL(r, x), POSL(r, x) < inner, W.isw(x)), z3.Implies(hs, sel(sel(O.d.f["col"], k0), x) == WC(x))), patterns=[hs])))
            out.append(("row", k0 < W.m))
            out.append(("node", inner <= TN(r)))
        out.append(("rows done", k <= W.m))
        out.append(("columns done", k <= W.n))
        return out
    W.cand_fn = cand

    def reg_safe(o):
        for n in ("m_top_lists", "m_output_lists", "m_cached_triplets", "m_nonlinear_rows"):
            t = o.f[n]
            if n == "m_top_lists" and t.d is not None:
                GI.array(t.d.n, ["x"])
                GI.array(t.d.d, ["x", "x"], "n")
            if n == "m_output_lists" and t.d is not None:
                GI.array(t.d.f["has"], ["x", "n"])
                GI.array(t.d.f["col"], ["x", "n"], "x")
            if n == "m_cached_triplets":
                GI.array(t.f["has"], ["x"])
                GI.array(t.f["ent"], ["x", "x"])
            if n == "m_nonlinear_rows" and t.d is not None:
                GI.array(t.d, ["x"], "x")
    W.reg_safe = reg_safe
    qi, qc = fresh("qi", I), fresh("qc", I)
    GI.BIND_SK.update({qi.decl().name(): "x", qc.decl().name(): "x"})
    ck.nonvacuous("%s constructor" % cls, [W.m >= 1, W.n >= 1])
    for s, v in E.construct(st, f, args):
        o = E.rv(s, v)
        reg_safe(o)
        S = s.mem[H].d.f["scratch"]
        GI.array(S, ["n"], "x")
        y = fresh("y", I)
        GI.BIND_SK[y.decl().name()] = "n"
        E.oblige(s, sel(S, y) == -1, "bookkeeping is idle again", f["loc"], "post")
        for nm, g in W.parts(o, s).items():
            E.oblige(s, g, "class invariant: " + nm, f["loc"], "post")
        T, O = o.f["m_top_lists"], o.f["m_output_lists"]
        E.oblige(s, z3.And(T.n == W.m, O.n == W.m), "one order and one output list per row", f["loc"], "post")
        E.oblige(s, W.final(o, False), "class invariant: a matrix without recomputed rows is complete", f["loc"], "post")
    ck.take(E, "%s constructor" % cls)


def gradient(ck, P):
    """Gradient::value() is the transposed Jacobian of that moment."""
    f = P.one(r"^slp::Gradient<double>::value$")
    W = World(ck, P, "slp::Jacobian<double>")
    E, st = W.E, W.st
    k = fresh("k", I)
    n = [0]

    def jv(E_, s, fn, o, v, e):
        n[0] += 1
        return [(s, Obj("jac", {"id": k}))]

    def eig(E_, s, fn, o, v, e):
        x = E_.rv(s, o) if o is not None else E_.rv(s, v[0])
        if fn["n"] == "transpose" and isinstance(x, Obj) and x.cls == "jac":
            return [(s, Obj("tr", x.f))]
        if fn["n"] == "operator=":
            y = E_.rv(s, v[0])
            if isinstance(y, Obj) and y.cls == "tr":
                E_.write(s, o, y)
                return [(s, o)]
        raise Unsupported(fn["qn"])
    E.contracts.insert(0, (lambda fn: fn["qn"] == "slp::Jacobian<double>::value", jv))
    E.contracts.insert(0, (lambda fn: fn["qn"].startswith("Eigen::"), eig))
    rec = P.rec_of(f["fn"]["cls"])
    this = E.alloc(st, Obj("g", {x["n"]: Obj("any", {"id": fresh("old", I)}) for x in rec["fields"]}), "this")
    for s, v in E.run_fn(st, f, this, []):
        r = E.rv(s, v)
        ck.decided("the gradient is the transpose of the current Jacobian", isinstance(r, Obj) and r.cls == "tr" and r.f["id"].eq(k), "symbolic execution", str(r), f["loc"])
    ck.take(E, "Gradient::value")
