"""P16: the regularized factorization succeeds only with the required inertia."""
import z3
from slpv.eng import *
from slpv import emodels as EM, smodels as SM

HARNESS = "p16.cpp"
MIN_OBLIGATIONS = 60
SRC = """
#include <Eigen/SparseCore>
#include <sleipnir/optimization/solver/util/regularized_ldlt.hpp>
template class slp::SparseRegularizedLDLT<double>;
template class slp::DenseRegularizedLDLT<double>;
template class slp::RegularizedLDLT<double>;
using V = Eigen::VectorXd; using D = Eigen::Diagonal<const Eigen::MatrixXd>;
template slp::Inertia::Inertia(const V&);
template slp::Inertia::Inertia(const D&);
auto f1(slp::RegularizedLDLT<double>& s, const V& b) { return s.solve(b); }
auto f2(slp::RegularizedLDLT<double>& s, const Eigen::SparseMatrix<double>& b) { return s.solve(b); }
bool f3(const slp::Inertia& a, const slp::Inertia& b) { return a == b; }
slp::Inertia f4(int a, int b, int c) { return slp::Inertia{a, b, c}; }
"""
EPS = z3.RealVal("2.220446049250313e-16")   # 2^-52 as the front end prints it
INT_MAX = 2 ** 31 - 1


def counters(sort):
    """Number of positive / negative / zero entries among the first n of a diagonal."""
    return [z3.Function("n" + x, z3.ArraySort(I, sort), I, I) for x in ("pos", "neg", "zero")]


POS, NEG, ZER = counters(R)


# ------------------------------------------------------------ Inertia
def inertia_ctor(ck, P, f):
    E = ck.eng(P, ExtDom())
    SM.install(E)
    E.check_bounds = True
    d = E.dom.leaf("D")
    v = Seq(fresh("n", I), lift(d, "D"), "vec")
    st = State()
    x = z3.Int("x")
    e = vselect(v.d, x)
    eps = Obj("ext", {"k": z3.IntVal(FIN), "v": EPS})
    p = E.dom.cmp(">", e, eps)
    m = E.dom.cmp("<", e, E.dom.neg(eps))
    c = [fresh("cnt", z3.ArraySort(I, I)) for _ in range(3)]      # ghost: prefix counts
    is_ = [p, m, z3.And(z3.Not(p), z3.Not(m))]
    facts = [v.n >= 0, v.n <= INT_MAX]
    for a, b in zip(c, is_):
        facts += [z3.Select(a, 0) == 0, z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < v.n), z3.Select(a, x + 1) == z3.Select(a, x) + z3.If(b, 1, 0)), patterns=[e.f["k"]])]
    st.pc = tuple(facts)

    def cands(cx):
        out = []
        for val, _ in cx.scalars(I):
            for nm, a in zip(("positive", "negative", "zero"), c):
                out.append(("count of %s entries so far" % nm, val == z3.Select(a, cx.k)))
            out.append(("count in range", z3.And(val >= 0, val <= cx.k)))
        return out
    E.loop_cands = cands
    a = E.alloc(st, v, "D")
    E.readonly = {a.root}
    for s, o in E.run_fn(st, f, None, [a]):
        o = E.rv(s, o)
        for nm, cc in zip(("positive", "negative", "zero"), c):
            E.oblige(s, o.f[nm] == z3.Select(cc, v.n), "every entry classified: %s count is exact" % nm, f["loc"], "post")
        ck.nonvacuous("Inertia", [y for y in s.pc if not z3.is_quantifier(y)])
    ck.take(E, "Inertia(D)")


def inertia_rest(ck, P):
    E = ck.eng(P, RealDom())
    for f in P.find(r"^slp::Inertia::Inertia$", kind="ctor", pred=lambda g: len(g["params"]) == 3):
        vs = [fresh(x, I) for x in "pnz"]
        for s, o in E.construct(State(), f, vs):
            E.oblige(s, z3.And(*[o.f[nm] == v for nm, v in zip(("positive", "negative", "zero"), vs)]), "explicit counts are stored", f["loc"], "post")
    n = 0
    for f in P.find(r"^f3$"):
        fs = [[fresh(x, I) for x in "pnz"] for _ in range(2)]
        st = State()
        args = [E.alloc(st, Obj("slp::Inertia", dict(zip(("positive", "negative", "zero"), v))), "i") for v in fs]
        for s, v in E.run_fn(st, f, None, args):
            E.oblige(s, E.as_bool(E.rv(s, v)) == z3.And(*[a == b for a, b in zip(*fs)]), "inertias are equal iff all counts are", f["loc"], "post")
            n += 1
    if not n:
        raise Unsupported("Inertia::operator== not found")
    ck.take(E, "Inertia")


# ------------------------------------------------------------ factorization
def setup(ck, P):
    E = ck.eng(P, MixDom())
    SM.install(E)
    E.check_bounds = True

    def contract(E, st, fn, obj, vals, e):
        """Inertia(D): proved by inertia_ctor (the three counts partition the entries)."""
        d = E.rv(st, vals[0])
        if not isinstance(d, Seq):
            return None
        vs = [F(d.d, d.n) for F in (POS, NEG, ZER)]
        st = st.assume(*[v >= 0 for v in vs], vs[0] + vs[1] + vs[2] == d.n)
        return [(st, Obj("slp::Inertia", dict(zip(("positive", "negative", "zero"), vs))))]
    E.contracts.append((lambda fn: fn["n"] == "Inertia" and fn["qn"].startswith("slp::Inertia::") and len(fn.get("targs", [])) > 0 and not fn.get("copy") and not fn.get("move"), contract))
    return E


def fields(P, cls):
    """Field names of the solver wrapper by role (private names may change: roles are found by type and position in the contracts)."""
    return None


SUCCESS = 0


def counts_of(ldlt):
    d = ldlt.f["D"]
    return [F(d.d, d.n) for F in (POS, NEG, ZER)]


def find(o, pred):
    r = [k for k, v in o.f.items() if pred(v)]
    return r


def instance(ck, P, cls):
    """Arbitrary instance satisfying the class invariant, built from the real constructor: the fields the
    constructor fixes keep their constructed values, the ones compute() changes are arbitrary."""
    E = setup(ck, P)
    res = []
    for f in P.find(r"^slp::%s<double>::%s$" % (cls, cls), kind="ctor", pred=lambda g: len(g["params"]) in (2, 3)):
        n, m = fresh("num_vars", I), fresh("num_eq", I)
        vals = [n, m]
        if len(f["params"]) == 3:
            gm = fresh("gamma_min", R)
            vals.append(gm)
        for s, o in E.construct(State().assume(n >= 0, m >= 0, n + m <= INT_MAX, *([gm >= 0] if len(vals) == 3 else [])), f, vals):
            res.append((s, o, n, m))
    return E, res


def compute(ck, P, cls, nparams):
    E, insts = instance(ck, P, cls)
    hreg = P.find(r"^slp::%s<double>::hessian_regularization$" % cls)[0]
    creg = P.find(r"^slp::%s<double>::constraint_jacobian_regularization$" % cls)[0]
    info = P.find(r"^slp::%s<double>::info$" % cls)[0]
    fs = P.find(r"^slp::%s<double>::compute$" % cls)
    nres = 0
    for s0, o, n, m in insts:
        f = fs[0]
        # which fields does a getter read?  (the class's state that survives between calls)
        tmp = s0.copy()
        lv = E.alloc(tmp, o, "self")
        getters = {}
        for nm, g in (("h", hreg), ("c", creg)):
            for s, v in E.run_fn(tmp, g, lv, []):
                v = E.rv(s, v)
                E.oblige(s, v == 0, "no regularization is reported before the first factorization", g["loc"], "post")
        # arbitrary previous state: every float field that compute() may have written and the solver/flags
        lhs = SM.sparse(E, "lhs")
        st = s0.assume(*SM.wf(lhs), lhs.f["rows"] == n + m, lhs.f["cols"] == n + m)
        mat = E.alloc(st, lhs, "lhs")
        E.readonly = {mat.root}
        for first in (True, False):
            st1 = st.copy()
            cur = dict(o.f)
            prev = []
            if not first:
                written = find_written(E, st, f, o, mat)
                for k in written:
                    cur[k] = havoc_like(o.f[k], "prev_" + k)
                    if is_leaf(cur[k]) and cur[k].sort() == R:
                        prev.append(cur[k])
                # class invariant of the remembered regularization, re-established by the obligation below
                st1 = st1.assume(*[p >= 0 for p in prev])
            me = E.alloc(st1, Obj(o.cls, cur), "me")
            steps = []

            def cands(cx):
                out = []
                for val, ent in cx.scalars(R):
                    out += [("regularization positive", val > 0), ("regularization nonnegative", val >= 0), ("regularization nonnegative", z3.And(val >= 0, val <= z3.RealVal("1e20"))), ("unchanged remembered value", val == ent)]
                return out

            def step(cx, s, b):
                inc = []
                for mm in cx.mod:
                    a0, a1 = cx.leaf(s, mm), cx.leaf(b, mm)
                    if a0.sort() == R:
                        inc.append((a0, a1))
                mono = z3.And(*[y >= x for x, y in inc]) if inc else z3.BoolVal(False)
                some = z3.Or(*[z3.Or(z3.And(x > 0, y >= 10 * x), z3.And(x == 0, y >= z3.Q(1, 10 ** 10))) for x, y in inc])
                cap = z3.And(*[y <= z3.RealVal("1e20") for _, y in inc])
                E.oblige(b, z3.And(mono, some, cap), "every retry raises a regularization at least tenfold below its cap (so retries end)", f["loc"], "variant")
            E.loop_cands, E.loop_step = cands, step
            succ = []
            for s, v in E.run_fn(st1, f, me, [mat]):
                nres += 1
                for si, iv in E.run_fn(s, info, me, []):
                    iv = E.rv(si, iv)
                    rs = {}
                    for nm, g in (("h", hreg), ("c", creg)):
                        (si, x), = E.run_fn(si, g, me, [])
                        rs[nm] = E.rv(si, x)
                    ob = E.read(si, me)
                    sol = [x for x in ob.f.values() if isinstance(x, Obj) and x.cls == "ldlt"]
                    if len(sol) != 1:
                        raise Unsupported("factorization object not found")
                    sol = sol[0]
                    i, j = fresh("i", I), fresh("j", I)
                    reg = z3.If(i == j, z3.If(i < n, rs["h"], -rs["c"]), z3.RealVal(0))
                    ok = si.assume(iv == SUCCESS)
                    E.oblige(ok, z3.And(rs["h"] >= 0, rs["c"] >= 0), "reported regularization has the right sign", f["loc"], "post")
                    E.oblige(ok.assume(i >= 0, i < n + m, j >= 0, j < n + m), SM.ent(sol.f["m"], i, j) == SM.ent(lhs, i, j) + reg, "factored matrix is the input plus the reported regularization", f["loc"], "post")
                    E.oblige(ok, z3.And(sol.f["m"].f["rows"] == n + m, sol.f["m"].f["cols"] == n + m), "factored matrix has the input's size", f["loc"], "post")
                    E.oblige(ok, sol.f["info"] == SUCCESS, "success means the factorization itself succeeded", f["loc"], "post")
                    c = counts_of(sol)
                    E.oblige(ok, z3.And(c[0] == n, c[1] == m, c[2] == 0), "success means ideal inertia", f["loc"], "post")
                    E.oblige(si, z3.And(rs["h"] >= 0, rs["c"] >= 0), "remembered regularization stays nonnegative (class invariant)", f["loc"], "post")
                    for k, x in ob.f.items():
                        if not first and k not in written and not same(x, cur[k]):
                            E.oblige(si, z3.BoolVal(False), "field %s is not part of the remembered state" % k, f["loc"], "post")
                    succ.append(ok)
            live = [x for x in succ if not E.prove(x.pc, z3.BoolVal(False), 2000)]
            if not live:
                raise Unsupported("no successful path through compute")
            for x in live:
                ck.nonvacuous("%s success" % cls, [y for y in x.pc if not z3.is_quantifier(y)])
    ck.take(E, "%s::compute" % cls)


def find_written(E, st, f, o, mat):
    """Fields that compute() can change (found by running it)."""
    w = set()
    E.mute += 1
    try:
        st = st.copy()
        me = E.alloc(st, o, "probe")
        for s, _ in E.run_fn(st, f, me, [mat]):
            ob = E.read(s, me)
            w |= {k for k in ob.f if not same(ob.f[k], o.f[k])}
    finally:
        E.mute -= 1
    return w


# ------------------------------------------------------------ dispatch
def dispatch(ck, P):
    E = setup(ck, P)
    cls = "RegularizedLDLT"
    log = {}

    def spec(kind):
        def h(E, st, fn, obj, vals, e):
            xs = [E.rv(st, v) for v in vals]
            st = st.copy()
            nm = fn["n"]
            if nm == "compute":
                u = fresh("state", I)
                E.write(st, obj, Obj("part", {"kind": z3.IntVal(kind), "state": fresh("st", I), "in": xs[0].f["ri"]}))
                return [(st, obj)]
            return [(st, Obj("res", {"kind": z3.IntVal(kind), "op": z3.IntVal(OPS.index(nm)), "state": E.rv(st, obj).f["state"]}))]
        return h
    OPS = ["info", "solve", "hessian_regularization", "constraint_jacobian_regularization"]
    for kind, sub in ((1, "SparseRegularizedLDLT"), (0, "DenseRegularizedLDLT")):
        E.contracts.append((lambda fn, sub=sub: fn["qn"].startswith("slp::%s<double>::" % sub) and fn["n"] in OPS + ["compute"], spec(kind)))
    # constructors forward their arguments
    for f in P.find(r"^slp::%s<double>::%s$" % (cls, cls), kind="ctor", pred=lambda g: len(g["params"]) in (3, 4)):
        b, n, m = fresh("use", B), fresh("n", I), fresh("m", I)
        args = [b, n, m] + ([fresh("g", R)] if len(f["params"]) == 4 else [])
        for s, o in E.construct(State().assume(n >= 0, m >= 0, n + m <= INT_MAX), f, args):
            subs = [x for x in o.f.values() if isinstance(x, Obj) and "RegularizedLDLT" in x.cls]
            E.oblige(s, z3.BoolVal(len(subs) == 2), "both factorizations are constructed", f["loc"], "post")
            for x in subs:
                # compare with the sub-object its own constructor builds from (n, m[, gamma])
                nm = "SparseRegularizedLDLT" if "Sparse" in x.cls else "DenseRegularizedLDLT"
                g = [g for g in P.find(r"^slp::%s<double>::%s$" % (nm, nm), kind="ctor") if len(g["params"]) == len(args) - 1]
                (s2, ref), = E.construct(s, g[0], args[1:])
                fl = [(k, a, ref.f[k]) for k, a in x.f.items() if is_leaf(a)] + [(k + "." + q, a.f[q], ref.f[k].f[q]) for k, a in x.f.items() if isinstance(a, Obj) and "Inertia" in a.cls for q in a.f]
                for k, a, c in fl:
                    E.oblige(s2, a == c, "%s gets the same problem size and minimum regularization" % nm, f["loc"], "post")
    use = fresh("use_sparse", B)
    st = State()
    # the object: discover which bool field selects, from the constructor
    f = P.find(r"^slp::%s<double>::%s$" % (cls, cls), kind="ctor", pred=lambda g: len(g["params"]) == 3)[0]
    (s0, o), = E.construct(State(), f, [use, z3.IntVal(0), z3.IntVal(0)])
    d = {}
    for k, x in o.f.items():
        if isinstance(x, Obj) and "RegularizedLDLT" in x.cls:
            kind = 1 if "Sparse" in x.cls else 0
            d[k] = Obj("part", {"kind": z3.IntVal(kind), "state": fresh("st", I), "in": fresh("none", SM.AI)})
        else:
            d[k] = x
    lhs = SM.sparse(E, "lhs")
    rhs = EM.vec_fresh(E, fresh("n", I), "b")
    for f in P.find(r"^slp::%s<double>::(compute|info|solve|hessian_regularization|constraint_jacobian_regularization)$" % cls):
        s = s0.copy()
        me = E.alloc(s, Obj(o.cls, d), "me")
        arg = [E.alloc(s, lhs, "lhs")] if f["fn"]["n"] == "compute" else [E.alloc(s, rhs, "b")] if f["fn"]["n"] == "solve" else []
        k = 0
        for s2, v in E.run_fn(s, f, me, arg):
            k += 1
            ob = E.read(s2, me)
            if f["fn"]["n"] == "compute":
                for q, x in ob.f.items():
                    if isinstance(x, Obj) and x.cls == "part":
                        ch = x.f["state"] != d[q].f["state"]
                        E.oblige(s2.assume(ch), use == (d[q].f["kind"] == 1), "only the selected factorization is computed", f["loc"], "post")
                        E.oblige(s2.assume(use == (d[q].f["kind"] == 1)), x.f["in"] == lhs.f["ri"], "the given matrix is factored by the selected factorization", f["loc"], "post")
            else:
                v = E.rv(s2, v)
                if not (isinstance(v, Obj) and v.cls == "res"):
                    raise Unsupported("unexpected result %r" % (v,))
                E.oblige(s2, z3.And(v.f["op"] == OPS.index(f["fn"]["n"]), use == (v.f["kind"] == 1)), "%s reports the selected factorization" % f["fn"]["n"], f["loc"], "post")
                for q, x in ob.f.items():
                    E.oblige(s2, E.deep_eq(s2, x, d[q]) if not is_leaf(x) else x == d[q], "%s changes nothing" % f["fn"]["n"], f["loc"], "post")
        if not k:
            raise Unsupported("no return")
    ck.take(E, "RegularizedLDLT")


def prove(ck):
    P = ck.dump(SRC)
    jobs = [("inertia", inertia_rest, P), ("dispatch", dispatch, P)]
    for f in P.find(r"^slp::Inertia::Inertia$", kind="ctor", pred=lambda g: len(g["params"]) == 1 and g["fn"].get("targs")):
        jobs.append(("Inertia(D)", inertia_ctor, P, f))
    for cls in ("SparseRegularizedLDLT", "DenseRegularizedLDLT"):
        jobs.append((cls, compute, P, cls, None))
    ck.par(jobs)
    ck.assume += ["Eigen's LDLT: after a successful factorize/compute, vectorD() is the diagonal of a factorization of the matrix passed (Sylvester's law then gives the matrix inertia)",
                  "regularization arithmetic treated as exact reals", "entries of the matrix are finite reals in the proof (non-finite inputs are exercised by the harness)"]
