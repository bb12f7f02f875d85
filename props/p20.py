"""P20: initial point projection puts every variable strictly inside its bounds."""
import z3
from slpv.eng import *
from slpv import emodels as EM, models as MD

HARNESS = "p20.cpp"
MIN_OBLIGATIONS = 12
SRC = """
#include <Eigen/Core>
#include <sleipnir/optimization/solver/util/bounds.hpp>
using V = Eigen::VectorXd;
template void slp::project_onto_bounds<V>(Eigen::DenseBase<V>&, std::span<const std::pair<double, double>>, double, double);
"""
AR, AI = z3.ArraySort(I, R), z3.ArraySort(I, I)


def one(ck, P, f):
    E = ck.eng(P, MixDom())
    EM.install(E)
    E.settle_ext = True
    E.check_bounds = True
    st = State()
    n = fresh("n", I)
    lk, lv, uk, uv = fresh("lk", AI), fresh("lv", AR), fresh("uk", AI), fresh("uv", AR)
    L = lambda j: (z3.Select(lk, j), z3.Select(lv, j))
    U = lambda j: (z3.Select(uk, j), z3.Select(uv, j))
    k1, k2 = fresh("k1", R), fresh("k2", R)
    q = fresh("q", I)
    inn = z3.And(q >= 0, q < n)
    st.pc = (n >= 0, k1 > 0, k2 > 0, k2 < z3.RealVal("1/2"),
             z3.ForAll([q], z3.Implies(inn, z3.And(z3.Or(L(q)[0] == 0, L(q)[0] == 2), z3.Or(U(q)[0] == 0, U(q)[0] == 1), z3.Implies(z3.And(L(q)[0] == 0, U(q)[0] == 0), L(q)[1] <= U(q)[1]))), patterns=[L(q)[0], L(q)[1], U(q)[0], U(q)[1]]))
    xv = Seq(n, fresh("x", AR), "vec")
    x = E.alloc(st, xv, "x")
    ext = lambda k, v: Obj("ext", {"k": k, "v": v})
    bs = E.alloc(st, Seq(n, Obj("pair", {"first": ext(lk, lv), "second": ext(uk, uv)}), "seq"), "bounds")
    E.readonly = {bs.root}

    def cands(cx):
        out = []
        k = cx.sh.ghost["k:0"]
        for m in cx.mod:
            v = cx.leaf(cx.sh, m)
            if v.sort() == AR:
                v0 = xv.d
                vq = z3.Select(v, q)
                out.append(("entries not reached yet are unchanged", z3.ForAll([q], z3.Implies(z3.And(q >= k, q < n), vq == z3.Select(v0, q)), patterns=[vq])))
                for nm, g in goals(vq, z3.Select(v0, q), L(q), U(q)):
                    out.append((nm, z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < k), g), patterns=[vq])))
        return out

    def dist(b):
        return k1 * z3.If(z3.If(b < 0, -b, b) > 1, z3.If(b < 0, -b, b), z3.RealVal(1))

    def goals(v, v0, l, u):
        lf, uf = l[0] == 0, u[0] == 0
        both = z3.And(lf, uf)
        w = k2 * (u[1] - l[1])
        mn = lambda a, b: z3.If(a < b, a, b)
        pl = z3.If(both, mn(dist(l[1]), w), dist(l[1]))
        pu = z3.If(both, mn(dist(u[1]), w), dist(u[1]))
        return [("projected value is strictly inside distinct bounds", z3.And(z3.Implies(z3.And(lf, z3.Not(z3.And(uf, l[1] == u[1]))), v > l[1]), z3.Implies(z3.And(uf, z3.Not(z3.And(lf, l[1] == u[1]))), v < u[1]))),
                ("projected value equals coinciding bounds", z3.Implies(z3.And(both, l[1] == u[1]), v == l[1])),
                ("value far enough inside is unchanged", z3.Implies(z3.And(z3.Implies(lf, v0 >= l[1] + pl), z3.Implies(uf, v0 <= u[1] - pu)), v == v0)),
                ("value too close to or beyond a bound moves to the required distance", z3.And(z3.Implies(z3.And(lf, v0 < l[1] + pl), v == l[1] + pl), z3.Implies(z3.And(uf, v0 > u[1] - pu, z3.Or(z3.Not(lf), v0 >= l[1] + pl)), v == u[1] - pu)))]
    E.loop_cands = cands
    for s, _ in E.run_fn(st, f, None, [x, Obj("span", {"it": Iter(bs, z3.IntVal(0)), "n": n}), k1, k2]):
        r = E.read(s, x)
        E.oblige(s, r.n == n, "length unchanged", f["loc"], "post")
        t = s.assume(q >= 0, q < n)
        for nm, g in goals(z3.Select(r.d, q), z3.Select(xv.d, q), L(q), U(q)):
            E.oblige(t, g, nm, f["loc"], "post")
        ck.nonvacuous("project", [y for y in s.pc if not z3.is_quantifier(y)])
    ck.take(E, "project_onto_bounds")


def prove(ck):
    P = ck.dump(SRC)
    ck.par([("project_onto_bounds", one, P, f) for f in P.find(r"^slp::project_onto_bounds$")])
    ck.assume += ["floating-point arithmetic treated as exact reals; starting values finite"]
