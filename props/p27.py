"""P27: multiplier estimates keep complementarity bounded and sizes consistent."""
import z3
from slpv.eng import *
from slpv import emodels as EM, smodels as SM

HARNESS = "p27.cpp"
MIN_OBLIGATIONS = 40
SRC = """
#include <Eigen/SparseCore>
#include <sleipnir/optimization/solver/util/lagrange_multiplier_estimate.hpp>
using V = Eigen::VectorXd; using M = Eigen::SparseMatrix<double>; using SV = Eigen::SparseVector<double>;
template V slp::lagrange_multiplier_estimate<double>(const SV&, const M&);
template slp::LagrangeMultiplierEstimate<double> slp::lagrange_multiplier_estimate<double>(const SV&, const M&, const M&, const V&, double);
"""
KAPPA = z3.RealVal("1e10")
_i, _j = z3.Int("i!h"), z3.Int("j!h")


def setup(ck, P):
    E = ck.eng(P, MixDom())
    SM.install(E)
    E.check_bounds = True
    E.log = {}         # triplet sequence -> what the (proved, P21) assembly contracts appended
    E.solved = []      # systems handed to the factorization

    def stack(E, st, fn, obj, vals, e):
        """append_as_triplets (proved by P21)."""
        ro, co = E.rv(st, vals[1]), E.rv(st, vals[2])
        ms = E.rv(st, vals[3])
        ms = [ms.f[k] for k in sorted(ms.f, key=int)] if isinstance(ms, Obj) and ms.cls == "arr" else explicit(E, st, ms)
        E.oblige(st, z3.And(*[m.f["cols"] == ms[0].f["cols"] for m in ms]), "stacked blocks have equal width", kind="pre")
        E.log.setdefault(vals[0].root, []).append(("stack", ro, co, ms))
        cur = E.read(st, vals[0])
        E.write(st, vals[0], Seq(fresh("tn", I), cur.d, cur.cls))
        return [(st, VOID)]

    def diag(E, st, fn, obj, vals, e):
        """append_diagonal_as_triplets (proved by P21)."""
        ro, co = E.rv(st, vals[1]), E.rv(st, vals[2])
        E.log.setdefault(vals[0].root, []).append(("diag", ro, co, E.rv(st, vals[3])))
        cur = E.read(st, vals[0])
        E.write(st, vals[0], Seq(fresh("tn", I), cur.d, cur.cls))
        return [(st, VOID)]
    E.contracts.append((lambda fn: fn["n"] == "append_as_triplets", stack))
    E.contracts.append((lambda fn: fn["n"] == "append_diagonal_as_triplets", diag))

    def fill(E, st, n, args):
        m = E.rv(st, args[0])
        a, b = E.rv(st, args[1]), E.rv(st, args[2])
        if not (isinstance(a, Iter) and isinstance(b, Iter)):
            raise Unsupported("triplet range")
        E.oblige(st, z3.And(a.idx == 0, b.idx == E.read(st, b.lv).n), "the whole triplet list is assembled", kind="pre")
        terms, width = [], z3.IntVal(0)
        for kind, ro, co, x in E.log.get(a.lv.root, []):
            E.oblige(st, co >= width, "blocks are appended in column-major order", kind="pre")
            if kind == "stack":
                off = ro
                for q in x:
                    E.oblige(st, z3.And(off >= 0, off + q.f["rows"] <= m.f["rows"], co >= 0, co + q.f["cols"] <= m.f["cols"]), "block fits in the matrix", kind="pre")
                    terms.append(lambda i, j, q=q, off=off, co=co: z3.If(z3.And(i >= off, i < off + q.f["rows"], j >= co, j < co + q.f["cols"]), SM.ent(q, i - off, j - co), 0))
                    off = off + q.f["rows"]
                width = co + x[0].f["cols"]
            else:
                E.oblige(st, z3.And(ro >= 0, ro + x.n <= m.f["rows"], co >= 0, co + x.n <= m.f["cols"]), "diagonal fits in the matrix", kind="pre")
                terms.append(lambda i, j, x=x, ro=ro, co=co: z3.If(z3.And(i >= ro, i < ro + x.n, j - co == i - ro), EM.at(x, i - ro), 0))
                width = co + x.n
        E.write(st, args[0], SM.with_ent(E, m.f["rows"], m.f["cols"], lambda i, j: z3.Sum([t(i, j) for t in terms]) if terms else z3.RealVal(0)))
        return [(st, VOID)]
    E.triplet_hook = fill
    return E


def explicit(E, st, s):
    n = z3.simplify(s.n)
    if not z3.is_int_value(n):
        raise Unsupported("block list of unknown length")
    out = []
    for k in range(n.as_long()):
        o = vselect(s.d, z3.IntVal(k))
        o = Obj(o.cls, {q: (z3.simplify(x) if is_leaf(x) else x) for q, x in o.f.items()})
        out.append(o)
    return out


def dense_g(E, g):
    """Dense view of the sparse gradient."""
    return EM.vec(g.f["n"], lambda i: z3.Select(g.f["dv"], i))


def estimate(ck, P, f):
    E = setup(ck, P)
    n = len(f["params"])
    Ae = SM.sparse(E, "Ae")
    g = SM.spvec(E, "g")
    g = Obj("spv", dict(g.f, dv=fresh("g.dense", z3.ArraySort(I, R))))
    facts = SM.wf(Ae) + [g.f["n"] >= 0, Ae.f["cols"] == g.f["n"]]
    args = [g, Ae]
    if n == 5:
        Ai = SM.sparse(E, "Ai")
        s_ = Seq(fresh("s.n", I), fresh("s", z3.ArraySort(I, R)), "vec")
        mu = fresh("mu", R)
        q = z3.Int("q!s")
        facts += SM.wf(Ai) + [Ai.f["cols"] == g.f["n"], s_.n == Ai.f["rows"], mu > 0,
                              z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < s_.n), z3.And(z3.Select(s_.d, q) > 0, z3.Select(s_.d, q) * INV(z3.Select(s_.d, q)) == 1, INV(z3.Select(s_.d, q)) > 0)), patterns=[z3.Select(s_.d, q)])]
        args += [Ai, s_, mu]
    st = State()
    st.pc = tuple(facts)
    lvs = [E.alloc(st, a, "a") if not is_leaf(a) else a for a in args]
    E.readonly = {a.root for a in lvs if isinstance(a, LV)}

    def hook(E, st, fn, obj, vals, e):
        if fn["n"] == "solve" and isinstance(E.rv(st, obj) if obj is not None else None, Obj) and E.rv(st, obj).cls == "ldlt":
            o, b = E.rv(st, obj), E.rv(st, vals[0])
            E.oblige(st, o.f["m"].f["rows"] == b.n, "right-hand side length agrees with the system", kind="bounds")
            r = EM.vec_fresh(E, o.f["m"].f["cols"], "sol")
            E.solved.append((st, o.f["m"], b, r))
            return [(st, r)]
        return None
    E.eigen_hooks.insert(0, hook)
    q = z3.Int("q!z")

    def box(z, i, sol):
        v, s = EM.at(z, i), EM.at(s_, i)
        return z3.And(v > 0, v * s >= mu / KAPPA, v * s <= KAPPA * mu)

    def cands(cx):
        out = []
        for m in cx.mod:
            v = cx.leaf(cx.sh, m)
            v0 = cx.leaf(cx.st0, m)
            if v.sort() == z3.ArraySort(I, R):
                z, z0 = Seq(s_.n, v, "vec"), Seq(s_.n, v0, "vec")
                out.append(("multipliers so far are within their bounds", z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < cx.k), box(z, q, None)), patterns=[z3.Select(v, q)])))
                out.append(("a multiplier already within its bounds is kept", z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < cx.k, box(z0, q, None)), z3.Select(v, q) == z3.Select(v0, q)), patterns=[z3.Select(v, q)])))
                out.append(("later multipliers unchanged", z3.ForAll([q], z3.Implies(q >= cx.k, z3.Select(v, q) == z3.Select(v0, q)), patterns=[z3.Select(v, q)])))
        return out
    E.loop_cands = cands
    k = 0
    for s, r in E.run_fn(st, f, None, lvs):
        k += 1
        r = E.rv(s, r)
        if n == 2:
            E.oblige(s, r.n == Ae.f["rows"], "one multiplier per equality constraint", f["loc"], "post")
            A, rhs_in, cols = Ae, dense_g(E, g), g.f["n"]
            rows = Ae.f["rows"]
        else:
            y, z = r.f["y"], r.f["z"]
            E.oblige(s, z3.And(y.n == Ae.f["rows"], z.n == Ai.f["rows"]), "one multiplier per constraint", f["loc"], "post")
            i = z3.Int("i!post")
            t = s.assume(i >= 0, i < s_.n)
            E.oblige(t, EM.at(z, i) > 0, "inequality multipliers are positive", f["loc"], "post")
            E.oblige(t, z3.And(EM.at(z, i) * EM.at(s_, i) >= mu / KAPPA, EM.at(z, i) * EM.at(s_, i) <= KAPPA * mu), "multiplier times slack stays within the factor of mu", f["loc"], "post")
            rows, cols = Ae.f["rows"] + Ai.f["rows"], g.f["n"] + s_.n
            rhs_in = EM.vec(cols, lambda j: z3.If(j < g.f["n"], z3.Select(g.f["dv"], j), -mu))
        if len(E.solved) != 1:
            raise Unsupported("expected one linear solve")
        st2, M, b, sol = E.solved[0]
        # what was solved: (A A^T) x = A rhs with A the stacked constraint matrix
        i, j = z3.Ints("i!m j!m")

        def Ahat(i, j):
            if n == 2:
                return SM.ent(Ae, i, j)
            me, nn = Ae.f["rows"], g.f["n"]
            return z3.If(j < nn, z3.If(i < me, SM.ent(Ae, i, j), SM.ent(Ai, i - me, j)), z3.If(z3.And(i >= me, j - nn == i - me), -EM.at(s_, i - me), 0))
        fac = getattr(E, "gram", {}).get(M.f["ri"].get_id())
        if fac is None:
            raise Unsupported("the factored matrix is not of the form A A^T")
        t = s.assume(i >= 0, i < rows, j >= 0, j < cols)
        E.oblige(t, z3.And(fac.f["rows"] == rows, fac.f["cols"] == cols), "normal equations have the right size", f["loc"], "post")
        E.oblige(t, SM.ent(fac, i, j) == Ahat(i, j), "normal equations use the stacked constraint gradients", f["loc"], "post")
        want = SM.prod(E, s, rows, cols, lambda o, p: Ahat(o, p) * EM.at(rhs_in, p))
        h = SM.congruence(E, list(s.pc) + [rows >= 0])
        E.oblige(s.assume(*h).assume(i >= 0, i < rows), z3.And(b.n == rows, EM.at(b, i) == EM.at(want, i)), "right-hand side is the projected gradient", f["loc"], "post")
        if n == 2:
            E.oblige(s.assume(i >= 0, i < rows), EM.at(r, i) == EM.at(sol, i), "the estimate is the solution of the normal equations", f["loc"], "post")
        else:
            E.oblige(s.assume(i >= 0, i < Ae.f["rows"]), EM.at(y, i) == EM.at(sol, i), "equality multipliers are the solution of the normal equations", f["loc"], "post")
            v = EM.at(sol, Ae.f["rows"] + i)
            E.oblige(s.assume(i >= 0, i < s_.n, v > 0, v * EM.at(s_, i) >= mu / KAPPA, v * EM.at(s_, i) <= KAPPA * mu), EM.at(z, i) == v, "an estimate within its bounds is kept", f["loc"], "post")
        ck.nonvacuous("estimate", [x for x in s.pc if not z3.is_quantifier(x)])
    if not k:
        raise Unsupported("no result")
    ck.take(E, "lagrange_multiplier_estimate/%d" % n)


def prove(ck):
    P = ck.dump(SRC)
    ck.par([("estimate", estimate, P, f) for f in P.find(r"^slp::lagrange_multiplier_estimate$")])
    ck.assume += ["the assembly contracts are those proved by P21", "Eigen's LDLT solve returns a vector of the system's size",
                  "the constraint gradients are linearly independent (otherwise the equality estimate is not defined)", "machine arithmetic treated as exact reals"]
