"""P14: fraction-to-the-boundary rule."""
import z3
from slpv.eng import *
from slpv import emodels as EM

HARNESS = "p14.cpp"
MIN_OBLIGATIONS = 5
SRC = """
#include <sleipnir/optimization/solver/util/fraction_to_the_boundary_rule.hpp>
template double slp::fraction_to_the_boundary_rule<double>(const Eigen::VectorXd&, const Eigen::VectorXd&, double);
"""


def cands(x, p, tau, beta):
    def gen(c):
        out = []
        q = fresh("q", I)
        for a, a0 in c.scalars(R):
            out.append(("step in (0,1]", z3.And(a > 0, a <= 1)))
            out.append(("prefix feasible", z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < c.k), EM.at(x, q) + a * EM.at(p, q) >= (1 - tau) * EM.at(x, q)))))
            out.append(("no feasible step is larger", beta <= a))
            out.append(("prefix feasible (down)", z3.ForAll([q], z3.Implies(z3.And(q < x.n, q > x.n - 1 - c.k), EM.at(x, q) + a * EM.at(p, q) >= (1 - tau) * EM.at(x, q)))))
        return out
    return gen


def prove(ck):
    P = ck.dump(SRC)
    f = P.one(r"^slp::fraction_to_the_boundary_rule$")
    E = ck.eng(P)
    EM.install(E)
    E.check_bounds = True
    st = State()
    x = Seq(fresh("n", I), fresh("x", z3.ArraySort(I, R)), "vec")
    p = Seq(fresh("np", I), fresh("p", z3.ArraySort(I, R)), "vec")
    tau, beta = fresh("tau", R), fresh("beta", R)
    q = fresh("q", I)
    inr = z3.And(q >= 0, q < x.n)
    st.pc = (x.n >= 0, x.n <= 2 ** 31 - 1, p.n == x.n, tau > 0, tau <= 1, z3.ForAll([q], z3.Implies(inr, z3.Select(x.d, q) > 0)),
             # beta: an arbitrary competing step size
             beta > 0, beta <= 1, z3.ForAll([q], z3.Implies(inr, EM.at(x, q) + beta * EM.at(p, q) >= (1 - tau) * EM.at(x, q))))
    lx, lp = E.alloc(st, x, "x"), E.alloc(st, p, "p")
    E.readonly = {lx.root, lp.root}
    E.loop_cands = cands(x, p, tau, beta)
    i = fresh("i", I)
    for s, a in E.run_fn(st, f, None, [lx, lp, tau]):
        E.oblige(s, z3.And(a > 0, a <= 1), "step size in (0,1]", f["loc"], "post")
        E.oblige(s.assume(i >= 0, i < x.n), EM.at(x, i) + a * EM.at(p, i) >= (1 - tau) * EM.at(x, i), "every component keeps (1-tau) of its value", f["loc"], "post")
        E.oblige(s, beta <= a, "no larger feasible step size exists", f["loc"], "post")
        ck.nonvacuous("normal return", [c for c in s.pc if not z3.is_quantifier(c)])
    ck.take(E, "fraction_to_the_boundary_rule", {"tau": tau})
    ck.assume += ["floating point treated as real arithmetic", "Eigen element access models (slpv/emodels.py)"]
