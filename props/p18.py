"""P18: automatic scaling factors bound every starting gradient."""
import z3
from slpv.eng import *
from slpv import emodels as EM, smodels as SM

HARNESS = "p18.cpp"
MIN_OBLIGATIONS = 20
SRC = """
#include <Eigen/SparseCore>
#include <sleipnir/optimization/solver/util/problem_scaling.hpp>
#include <sleipnir/optimization/solver/util/sparse_inf_norms.hpp>
template struct slp::ProblemScaling<double>;
template auto slp::sparse_inf_norms(const Eigen::SparseCompressedBase<Eigen::SparseMatrix<double>>&) -> Eigen::VectorXd;
"""


def absv(x):
    return z3.If(x < 0, -x, x)


def visited(A, c, p, ck_, pk=None):
    """entry p of column c was visited when columns < ck_ (and, in column ck_, positions < pk) are done."""
    inc = z3.And(c >= 0, c < SM.outer(A), p >= z3.Select(A.f["st"], c), p < z3.Select(A.f["en"], c))
    done = c < ck_
    if pk is not None:
        done = z3.Or(done, z3.And(c == ck_, p < pk))
    return z3.And(inc, done)


def norm_cands(A, M):
    """Invariants of a column-by-column traversal that keeps running row maxima."""
    def gen(cx):
        out = []
        c, p, r = fresh("c", I), fresh("p", I), fresh("r", I)
        ks = [cx.sh.ghost[g] for g in sorted(x for x in cx.sh.ghost if str(x).startswith("k:"))]
        for m in cx.mod:
            v = cx.leaf(cx.sh, m)
            if v.sort() != z3.ArraySort(I, R):
                continue
            out.append(("row maximum is nonnegative and at most any bound of its row", z3.ForAll([r], z3.Implies(z3.And(r >= 0, r < SM.inner(A)), z3.And(z3.Select(v, r) >= 0, z3.Select(v, r) <= z3.Select(M, r))))))
            ent = z3.Select(v, z3.Select(A.f["ri"], p)) >= absv(z3.Select(A.f["va"], p))
            if cx.depth == 0:
                out.append(("row maximum covers visited columns", z3.ForAll([c, p], z3.Implies(visited(A, c, p, ks[0]), ent))))
            else:
                col = ks[0]
                out.append(("row maximum covers visited entries", z3.ForAll([c, p], z3.Implies(visited(A, c, p, col, z3.Select(A.f["st"], col) + ks[1]), ent))))
        return out
    return gen


def norms(ck, P, f):
    E = ck.eng(P, MixDom())
    SM.install(E)
    E.check_bounds = True
    A = SM.sparse(E, "A")
    M = fresh("M", z3.ArraySort(I, R))
    st = State()
    c, p, r = fresh("c", I), fresh("p", I), fresh("r", I)
    inc = z3.And(c >= 0, c < SM.outer(A), p >= z3.Select(A.f["st"], c), p < z3.Select(A.f["en"], c))
    # M: an arbitrary nonnegative bound on every stored entry of each row
    st.pc = tuple(SM.wf(A) + [z3.ForAll([r], z3.Select(M, r) >= 0), z3.ForAll([c, p], z3.Implies(inc, z3.Select(M, z3.Select(A.f["ri"], p)) >= absv(z3.Select(A.f["va"], p))))])
    a = E.alloc(st, A, "A")
    E.readonly = {a.root}
    E.loop_cands = norm_cands(A, M)
    for s, v in E.run_fn(st, f, None, [a]):
        v = E.rv(s, v)
        E.oblige(s, v.n == A.f["rows"], "one norm per row", f["loc"], "post")
        E.oblige(s.assume(inc), EM.at(v, z3.Select(A.f["ri"], p)) >= absv(z3.Select(A.f["va"], p)), "row norm covers every stored entry", f["loc"], "post")
        E.oblige(s.assume(r >= 0, r < A.f["rows"]), z3.And(EM.at(v, r) >= 0, EM.at(v, r) <= z3.Select(M, r)), "row norm is the least nonnegative bound of its row", f["loc"], "post")
        ck.nonvacuous("norms", [x for x in s.pc if not z3.is_quantifier(x)])
    ck.take(E, "sparse_inf_norms")


NORM = z3.Function("rownorm", SM.AI, z3.ArraySort(I, R))


def scaling(ck, P, f):
    n = len(f["params"])
    kinds = ["sp" if "Sparse" in P.tstr(P.strip_ref(p["t"])) else P.ty(P.strip_ref(p["t"]))["k"] for p in f["params"]]
    E = ck.eng(P, MixDom())
    SM.install(E)
    E.check_bounds = True
    st = State()

    def contract(E, st, fn, obj, vals, e):
        """Proved above: row-wise largest absolute stored entry."""
        m = E.rv(st, vals[0])
        arr = NORM(m.f["ri"])
        q = fresh("q", I)
        v = Seq(m.f["rows"], arr, "vec")
        return [(st.assume(z3.ForAll([q], z3.Select(arr, q) >= 0)), v)]
    E.contracts.append((lambda fn: fn["n"] == "sparse_inf_norms", contract))
    if n == 0 or kinds[0] == "float":
        vals = [fresh("f", R)] + [Seq(fresh("n", I), fresh("v", z3.ArraySort(I, R)), "vec") for _ in kinds[1:]] if n else []
        for s, o in (E.construct(st, f, vals) if n else E.invoke(st, f["fn"], None, [])):
            if n:
                E.oblige(s, z3.And(o.f["f"] == vals[0], o.f["c_e"].n == vals[1].n, o.f["c_e"].d == vals[1].d, o.f["c_i"].n == vals[2].n, o.f["c_i"].d == vals[2].d), "explicit factors are stored", f["loc"], "post")
            else:
                E.oblige(s, z3.And(o.f["f"] == 1, o.f["c_e"].n == 0, o.f["c_i"].n == 0), "default scaling is identity", f["loc"], "post")
        ck.take(E, "ProblemScaling/%d" % n)
        return
    g = Seq(fresh("g.n", I), fresh("g", z3.ArraySort(I, R)), "vec")
    mats = [SM.sparse(E, "A%d" % i) for i in range(n - 1)]
    st.pc = (g.n >= 0,) + tuple(x for m in mats for x in SM.wf(m))
    args = [E.alloc(st, x, "a") for x in [g] + mats]
    E.readonly = {a.root for a in args}
    for s, o in E.construct(st, f, args):
        s, ng = EM.reduce(E, s, "linf", g)
        s = s.assume(*EM.congruence(E, s.pc))

        def claim(k, v, big, nm):
            # v: factor; big: largest gradient component
            h = [z3.Implies(big != 0, big * INV(big) == 1)]
            t = s.assume(*h)
            E.oblige(t, z3.And(k == 0, v > 0, v <= 1), nm + " factor is in (0,1]", f["loc"], "post")
            E.oblige(t, v * big <= 100, nm + " factor times the largest component is at most 100", f["loc"], "post")
            E.oblige(t, z3.Implies(big <= 100, v == 1), nm + " factor is 1 when the gradient is small enough", f["loc"], "post")
            E.oblige(t, z3.Implies(big > 100, v * big == 100), nm + " factor is no smaller than needed", f["loc"], "post")
        w = E.dom.ext(o.f["f"])
        claim(w.f["k"], w.f["v"], ng, "cost")
        for i, m in enumerate(mats):
            fld = o.f[["c_e", "c_i"][i]]
            E.oblige(s, fld.n == m.f["rows"], "one factor per constraint", f["loc"], "post")
            q = fresh("q", I)
            w = E.dom.ext(EM.at(fld, q))
            s0 = s
            s = s.assume(q >= 0, q < m.f["rows"])
            claim(w.f["k"], w.f["v"], z3.Select(NORM(m.f["ri"]), q), ["equality", "inequality"][i])
            s = s0
        for i in range(len(mats), 2):
            E.oblige(s, o.f[["c_e", "c_i"][i]].n == 0, "no factors for absent constraints", f["loc"], "post")
        ck.nonvacuous("scaling", [x for x in s.pc if not z3.is_quantifier(x)])
    ck.take(E, "ProblemScaling/%d" % n)


def prove(ck):
    P = ck.dump(SRC)
    jobs = [("sparse_inf_norms", norms, P, f) for f in P.find(r"^slp::sparse_inf_norms$")]
    for f in P.find(r"^slp::ProblemScaling<double>::ProblemScaling$", kind="ctor", pred=lambda g: not g["fn"].get("copy") and not g["fn"].get("move") and not any("ProblemScaling" in P.tstr(P.strip_ref(p["t"])) for p in g["params"])):
        jobs.append(("ctor", scaling, P, f))
    ck.par(jobs)
    ck.assume += ["floating-point arithmetic treated as exact reals (division by a zero norm gives +inf as in IEEE)"]
