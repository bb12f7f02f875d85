"""P15: reported optimality error equals the documented KKT error formula."""
import z3
from slpv.eng import *
from slpv import emodels as EM, smodels as SM

HARNESS = "p15.cpp"
MIN_OBLIGATIONS = 250
SRC = """
#include <Eigen/SparseCore>
#include <sleipnir/optimization/solver/util/kkt_error.hpp>
using namespace slp;
using V = Eigen::VectorXd; using M = Eigen::SparseMatrix<double>;
#define INST(T) \\
template double slp::kkt_error<double, T>(const V&); \\
template double slp::kkt_error<double, T>(const V&, const M&, const V&, const V&); \\
template double slp::kkt_error<double, T>(const V&, const M&, const V&, const M&, const V&, const V&, const V&, const V&, double); \\
template double slp::unscaled_kkt_error<double, T>(const ProblemScaling<double>&, const V&); \\
template double slp::unscaled_kkt_error<double, T>(const ProblemScaling<double>&, const V&, const M&, const V&, const V&); \\
template double slp::unscaled_kkt_error<double, T>(const ProblemScaling<double>&, const V&, const M&, const V&, const M&, const V&, const V&, const V&, const V&, double);
INST(KKTErrorType::INF_NORM_SCALED)
INST(KKTErrorType::ONE_NORM)
"""


def V(nm):
    return Seq(fresh(nm + ".n", I), fresh(nm, z3.ArraySort(I, R)), "vec")


def mx(a, b):
    return z3.If(a >= b, a, b)


def rec(x):
    return x if z3.is_rational_value(x) and x.as_fraction() == 1 else INV(x)


class Case:
    """Symbolic arguments and the documented quantities built from them."""

    def __init__(self, E, nargs, empty):
        self.g = V("g")
        pc = [self.g.n >= 0]
        self.args = [self.g]
        self.Ae = self.Ai = None
        if nargs >= 4:
            self.Ae, self.ce, self.y = SM.sparse(E, "Ae"), V("ce"), V("y")
            pc += SM.wf(self.Ae) + [self.Ae.f["cols"] == self.g.n, self.Ae.f["rows"] == self.ce.n, self.y.n == self.ce.n,
                                    self.y.n == 0 if empty[0] else self.y.n > 0]
            self.args = [self.g, self.Ae, self.ce, self.y]
        if nargs == 9:
            self.Ai, self.ci, self.s, self.z = SM.sparse(E, "Ai"), V("ci"), V("s"), V("z")
            self.mu = fresh("mu", R)
            pc += SM.wf(self.Ai) + [self.Ai.f["cols"] == self.g.n, self.Ai.f["rows"] == self.ci.n, self.s.n == self.ci.n, self.z.n == self.ci.n,
                                    self.z.n == 0 if empty[1] else self.z.n > 0]
            self.args = [self.g, self.Ae, self.ce, self.Ai, self.ci, self.s, self.y, self.z, self.mu]
        self.pc = tuple(pc)
        self.nargs = nargs


def residuals(E, st, c, sc=None):
    """Documented residual vectors; sc = (d_f, d_ce, d_ci) undoes the scaling."""
    one = z3.RealVal(1)
    df = sc[0] if sc else one
    de = (lambda i: EM.at(sc[1], i)) if sc and c.nargs >= 4 else (lambda i: one)
    di = (lambda i: EM.at(sc[2], i)) if sc and c.nargs == 9 else (lambda i: one)
    g = lambda i: EM.at(c.g, i) * rec(df)
    r = {}
    stat = g
    if c.nargs >= 4:
        y = lambda i: EM.at(c.y, i) * de(i) * rec(df)
        ay = SM.prod(E, st, c.g.n, c.ce.n, lambda o, j: SM.ent(c.Ae, j, o) * rec(de(j)) * y(j))
        stat = lambda i, p=stat: p(i) - EM.at(ay, i)
        r["primal equality"] = EM.vec(c.ce.n, lambda i: EM.at(c.ce, i) * rec(de(i)))
        r["y"] = EM.vec(c.y.n, y)
    if c.nargs == 9:
        z = lambda i: EM.at(c.z, i) * di(i) * rec(df)
        az = SM.prod(E, st, c.g.n, c.ci.n, lambda o, j: SM.ent(c.Ai, j, o) * rec(di(j)) * z(j))
        stat = lambda i, p=stat: p(i) - EM.at(az, i)
        r["primal inequality"] = EM.vec(c.ci.n, lambda i: (EM.at(c.ci, i) - EM.at(c.s, i)) * rec(di(i)))
        r["complementarity"] = EM.vec(c.s.n, lambda i: EM.at(c.s, i) * rec(di(i)) * z(i) - c.mu * rec(df))
        r["z"] = EM.vec(c.z.n, z)
    r["stationarity"] = EM.vec(c.g.n, stat)
    return r


def spec(E, st, c, T, sc=None):
    """Documented error; returns (st, value, residual vectors)."""
    r = residuals(E, st, c, sc)
    red = {}

    def get(kind, key):
        nonlocal st
        st, t = EM.reduce(E, st, kind, r[key])
        return t
    if T == "one":
        v = get("l1", "stationarity")
        for k in ("primal equality", "primal inequality", "complementarity"):
            if k in r:
                v = v + get("l1", k)
        return st, v, r
    v = get("linf", "stationarity")
    if c.nargs >= 4:
        num, den = get("l1", "y"), z3.ToReal(c.y.n)
        if c.nargs == 9:
            l1z = get("l1", "z")
            num, den = num + l1z, z3.ToReal(c.y.n + c.z.n)
            s_c = z3.If(c.z.n == 0, z3.RealVal(1), mx(z3.RealVal(100), l1z * INV(z3.ToReal(c.z.n))) / 100)
        s_d = z3.If(den == 0, z3.RealVal(1), mx(z3.RealVal(100), num * INV(den)) / 100)
        v = mx(v * INV(s_d), get("linf", "primal equality"))
        if c.nargs == 9:
            v = mx(v, get("linf", "complementarity") * INV(s_c))
            v = mx(v, get("linf", "primal inequality"))
            r["#"] = [s_d, s_c]
        else:
            r["#"] = [s_d]
    return st, v, r


def value(E, st, v):
    """(kind, value) of a result."""
    v = E.rv(st, v)
    return (z3.IntVal(0), v) if is_leaf(v) else (v.f["k"], v.f["v"])


def invs(t):
    """b * inv(b) = 1 for every reciprocal occurring in t."""
    seen, out, todo = set(), [], [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().eq(INV):
                out.append(z3.Implies(x.arg(0) != 0, x.arg(0) * x == 1))
            todo += x.children()
    return out


def fkind(P, f):
    n = len(f["params"])
    return n


def run(ck, P, f, T, empty, scaled, ident=False):
    E = ck.eng(P, MixDom())
    SM.install(E)
    E.check_bounds = True
    E.fast_cong = True
    E.axioms.append(INV(z3.RealVal(1)) == 1)
    nargs = len(f["params"]) - (1 if scaled else 0)
    c = Case(E, nargs, empty)
    st = State()
    st.pc = c.pc
    args = []
    sc = None
    if scaled:
        df, de, di = fresh("df", R), V("de"), V("di")
        q = fresh("q", I)
        pos = [df > 0, z3.ForAll([q], z3.Select(de.d, q) > 0), z3.ForAll([q], z3.Select(di.d, q) > 0)]
        if ident:
            # no scaling requested: factor one and no per-constraint factors
            pos += [df == 1, de.n == 0, di.n == 0]
        else:
            pos += [de.n == (c.ce.n if nargs >= 4 else 0), di.n == (c.ci.n if nargs == 9 else 0)]
            sc = (df, de, di)
        st.pc += tuple(pos)
        E.cong_hyps = [z3.And(df == 1, de.n == 0, di.n == 0)]
        args.append(E.alloc(st, Obj("ps", {"f": df, "c_e": de, "c_i": di}), "scaling"))
    for a in c.args:
        args.append(a if is_leaf(a) else E.alloc(st, a, "a"))
    E.readonly = {a.root for a in args if isinstance(a, LV)}
    nm = "%s%s[%d args%s%s]" % ("unscaled_" if scaled else "", T, nargs, ", no equality" if empty[0] else "", ", no inequality" if empty[1] else "")
    if ident:
        nm += " identity scaling"
    n = 0
    for s, v in E.run_fn(st, f, None, args):
        n += 1
        k, v = value(E, s, v)
        s, want, r = spec(E, s, c, T, sc)
        s = s.assume(*SM.congruence(E, s.pc))
        E.oblige(s, k == 0, nm + ": error is finite", f["loc"], "post")
        E.oblige(s, v == want, nm + ": error equals the documented formula", f["loc"], "post")
        q = fresh("q", I)
        for d in r.get("#", []):
            E.oblige(s.assume(*invs(want)), INV(d) > 0, nm + ": documented divisor is positive", f["loc"], "lemma")
            s = s.assume(INV(d) > 0)
        for key, vec in r.items():
            if key in ("y", "z", "#"):
                continue
            E.oblige(s.assume(v == 0, q >= 0, q < vec.n, *invs(want)), EM.at(vec, q) == 0, nm + ": zero error implies zero %s residual" % key, f["loc"], "post")
        ck.nonvacuous(nm, [x for x in s.pc if not z3.is_quantifier(x)])
    ck.take(E, nm)


def prove(ck):
    P = ck.dump(SRC)
    jobs = []
    for scaled in (False, True):
        fs = P.find(r"^slp::%skkt_error$" % ("unscaled_" if scaled else ""))
        for f in fs:
            n = len(f["params"]) - (1 if scaled else 0)
            tv = [str(t.get("i")) for t in f["fn"].get("targs", []) if "i" in t]
            T = "one" if tv and tv[0] == "1" else "inf"
            es = {1: [(0, 0)], 4: [(0, 0), (1, 0)], 9: [(0, 0), (0, 1), (1, 0), (1, 1)]}[n]
            for e in es:
                jobs.append(("kkt_error", run, P, f, T, e, scaled))
                if scaled:
                    jobs.append(("kkt_error identity", run, P, f, T, e, scaled, True))
    ck.par(jobs)
    ck.assume += ["floating-point arithmetic treated as exact reals (special values tracked for divisions that can divide by zero)",
                  "Eigen sparse-dense products and norms are functions of the elements (axioms in slpv/emodels.py, slpv/smodels.py)"]
