"""P17: local infeasibility is reported exactly under the documented condition."""
import z3
from slpv.eng import *
from slpv import emodels as EM, smodels as SM

HARNESS = "p17.cpp"
MIN_OBLIGATIONS = 4
SRC = """
#include <Eigen/SparseCore>
#include <sleipnir/optimization/solver/util/is_locally_infeasible.hpp>
using V = Eigen::VectorXd; using M = Eigen::SparseMatrix<double>;
template bool slp::is_equality_locally_infeasible<double>(const M&, const V&);
template bool slp::is_inequality_locally_infeasible<double>(const M&, const V&);
"""


def run(ck, P, f, ineq):
    E = ck.eng(P, MixDom())
    SM.install(E)
    E.check_bounds = True
    A = SM.sparse(E, "A")
    c = Seq(fresh("c.n", I), fresh("c", z3.ArraySort(I, R)), "vec")
    st = State()
    st.pc = tuple(SM.wf(A) + [A.f["rows"] == c.n])
    args = [E.alloc(st, A, "A"), E.alloc(st, c, "c")]
    E.readonly = {a.root for a in args}
    for s, v in E.run_fn(st, f, None, args):
        v = E.as_bool(E.rv(s, v))
        w = EM.vec(c.n, lambda i: z3.If(EM.at(c, i) < 0, EM.at(c, i), 0)) if ineq else c
        g = SM.prod(E, s, A.f["cols"], A.f["rows"], lambda o, j: SM.ent(A, j, o) * EM.at(w, j))
        s, ng = EM.reduce(E, s, "norm", g)
        s, nc = EM.reduce(E, s, "norm", w)
        s = s.assume(*SM.congruence(E, s.pc))
        spec = z3.And(A.f["rows"] > 0, ng < z3.Q(1, 1000000), nc > (z3.Q(1, 1000000) if ineq else z3.Q(1, 100)))
        E.oblige(s, v == spec, "reported exactly under the documented condition", f["loc"], "post")
        q = fresh("q", I)
        ok = z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < c.n), EM.at(c, q) >= 0 if ineq else EM.at(c, q) == 0))
        E.oblige(s.assume(ok), z3.Not(v), "satisfied constraints are never reported infeasible", f["loc"], "post")
        ck.nonvacuous("infeasible", [x for x in s.pc if not z3.is_quantifier(x)])
    ck.take(E, "inequality" if ineq else "equality")


def prove(ck):
    P = ck.dump(SRC)
    ck.par([("equality", run, P, P.one(r"^slp::is_equality_locally_infeasible$"), False),
            ("inequality", run, P, P.one(r"^slp::is_inequality_locally_infeasible$"), True)])
    ck.assume += ["floating-point arithmetic treated as exact reals", "Eigen norms and sparse products are functions of the elements"]
