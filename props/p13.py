"""P13: line-search filter (filter.hpp)."""
import z3
from slpv.eng import *
from slpv import emodels as EM, models as MD

HARNESS = "p13.cpp"
MIN_OBLIGATIONS = 10
SRC = """
#include <sleipnir/optimization/solver/util/filter.hpp>
template struct slp::FilterEntry<double>;
template class slp::Filter<double>;
"""


def prove(ck):
    P = ck.dump(SRC)
    ck.part("try_add", try_add, ck, P)
    ck.part("reset", reset, ck, P)
    ck.part("constructors", ctors, ck, P)
    ck.assume += ["floating point: IEEE special values exact, rounding ignored (extended reals)",
                  "std::any_of / erase_if / small_vector models; pow is an uninterpreted function"]


def entry(E, nm):
    return Obj("FilterEntry", {"cost": E.dom.leaf(nm + ".cost"), "constraint_violation": E.dom.leaf(nm + ".viol")})


def fin(x):
    return x.f["k"] == FIN


def setup(ck, P):
    E = ck.eng(P, ExtDom())
    EM.install(E)
    st = State()
    D = E.dom
    old = Seq(fresh("n", I), lift(entry(E, "e"), "filter"), "seq")
    mn, mx = D.leaf("min"), D.leaf("max")
    rej = fresh("rej", B)
    flt = E.alloc(st, Obj("Filter", {"min_constraint_violation": mn, "max_constraint_violation": mx, "m_filter": old, "m_last_rejection_due_to_filter": rej}), "flt")
    q = fresh("q", I)
    kinds = [z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < old.n), z3.And(select(l, q) >= 0, select(l, q) <= 3))) for p, l in leaves(old.d) if p[-1] == "k"]
    st.pc = (old.n >= 0, old.n < 2 ** 31, D.wf(mn), D.wf(mx), fin(mn), mn.f["v"] >= 0, mx.f["k"] != NAN) + tuple(kinds)
    return E, st, flt, old, mn, mx


def dom(D, a, b):
    """a is dominated by b"""
    return z3.And(D.cmp("<=", b.f["cost"], a.f["cost"]), D.cmp("<=", b.f["constraint_violation"], a.f["constraint_violation"]))


def try_add(ck, P):
    f = P.one(r"^slp::Filter<double>::try_add$")
    E, st, flt, old, mn, mx = setup(ck, P)
    D = E.dom
    cur, tri = entry(E, "current"), entry(E, "trial")
    Dphi, al = D.leaf("D"), D.leaf("alpha")
    st.pc += (D.wf(tri.f["cost"]), D.wf(tri.f["constraint_violation"]), fin(cur.f["cost"]), fin(cur.f["constraint_violation"]),
              cur.f["constraint_violation"].f["v"] >= 0, fin(Dphi), fin(al), al.f["v"] > 0, al.f["v"] <= 1)
    lc, lt = E.alloc(st, cur, "cur"), E.alloc(st, tri, "tri")
    E.readonly = {lc.root, lt.root}
    c = lambda x: D.const(str(x))
    v0 = cur.f["constraint_violation"]
    pw = lambda a, b: MD.ext_math(E, "pow", [a, b])
    # precondition about pow on its finite arguments: alpha^1.5 is a finite number in (0,1]
    phi = pw(al, c(1.5))
    st.pc += (fin(phi), phi.f["v"] > 0, phi.f["v"] <= 1)
    switching = z3.And(D.cmp("<", Dphi, c(0)), D.cmp(">", D.bin("*", al, pw(D.neg(Dphi), c(2.3))), pw(v0, c(1.1))))
    armijo = D.cmp("<=", tri.f["cost"], D.bin("+", cur.f["cost"], D.bin("*", D.bin("*", c("1e-8"), al), Dphi)))
    mcost = D.bin("-", cur.f["cost"], D.bin("*", D.bin("*", phi, c("1e-8")), v0))
    mviol = D.bin("*", D.bin("-", c(1), D.bin("*", phi, c("1e-5"))), v0)
    suff = z3.Or(D.cmp("<=", tri.f["cost"], mcost), D.cmp("<=", tri.f["constraint_violation"], mviol))
    progress = z3.If(z3.And(D.cmp("<=", v0, mn), switching), armijo, suff)
    q = fresh("q", I)
    dominated = z3.Exists([q], z3.And(q >= 0, q < old.n, dom(D, tri, vselect(old.d, q))))
    ok = z3.And(fin(tri.f["cost"]), fin(tri.f["constraint_violation"]), D.cmp("<=", tri.f["constraint_violation"], mx), progress, z3.Not(dominated))
    n0 = len(st.pc)
    i, j = fresh("i", I), fresh("j", I)
    newe = Obj("FilterEntry", {"cost": mcost, "constraint_violation": mviol})
    for s, r in E.run_fn(st, f, flt, [lc, lt, Dphi, al]):
        r = E.as_bool(r)
        new = E.read(s, flt).f["m_filter"]
        mid = E.read(s, flt)
        E.oblige(s, z3.Implies(r, fin(tri.f["cost"])), "accepted cost is finite", f["loc"], "post")
        E.oblige(s, z3.Implies(r, fin(tri.f["constraint_violation"])), "accepted constraint violation is finite", f["loc"], "post")
        E.oblige(s, z3.Implies(r, D.cmp("<=", tri.f["constraint_violation"], mx)), "accepted violation is within the bound", f["loc"], "post")
        E.oblige(s, z3.Implies(r, progress), "accepted step makes the required progress", f["loc"], "post")
        E.oblige(s.assume(i >= 0, i < old.n), z3.Implies(r, z3.Not(dom(D, tri, vselect(old.d, i)))), "accepted step is not dominated by a retained entry", f["loc"], "post")
        E.oblige(s, z3.Implies(ok, r), "a step the rule allows is accepted", f["loc"], "post")
        E.oblige(s, z3.And(same_f(mid.f["min_constraint_violation"], mn), same_f(mid.f["max_constraint_violation"], mx)), "bounds unchanged", f["loc"], "frame")
        aug = z3.And(r, z3.Not(z3.And(switching, armijo)))
        eqe = lambda a, b: z3.And(*[x == y for (_, x), (_, y) in zip(leaves(a), leaves(b))])
        # not augmented: the retained entries are exactly the old ones
        E.oblige(s.assume(i >= 0, i < old.n), z3.Implies(z3.Not(aug), z3.And(new.n == old.n, eqe(vselect(new.d, i), vselect(old.d, i)))), "filter unchanged unless an entry is added", f["loc"], "post")
        # augmented: last is the new entry; old entries retained iff not dominated by it; nothing else
        E.oblige(s, z3.Implies(aug, z3.And(new.n >= 1, sem_eq(D, vselect(new.d, new.n - 1), newe))), "the added entry is the current entry with the envelope margins", f["loc"], "post")
        q2 = fresh("q2", I)
        E.oblige(s.assume(i >= 0, i < old.n, aug), z3.Implies(z3.Not(dom(D, vselect(old.d, i), newe)), z3.Exists([q2], z3.And(q2 >= 0, q2 < new.n - 1, eqe(vselect(new.d, q2), vselect(old.d, i))))), "entries not dominated by the added one are retained", f["loc"], "post")
        E.oblige(s.assume(i >= 0, i < new.n - 1, aug), z3.Exists([q2], z3.And(q2 >= 0, q2 < old.n, eqe(vselect(new.d, i), vselect(old.d, q2)))), "no entry is invented", f["loc"], "post")
        E.oblige(s.assume(i >= 0, i < new.n - 1, aug), z3.Not(dom(D, vselect(new.d, i), newe)), "no retained entry is dominated by the added one", f["loc"], "post")
        ck.nonvacuous("try_add", [x for x in s.pc if not z3.is_quantifier(x)])
    ck.take(E, "Filter::try_add", dict([(n + "." + k, v.f[k]) for n, v in (("tcost", tri.f["cost"]), ("tviol", tri.f["constraint_violation"]), ("ccost", cur.f["cost"]), ("cviol", v0), ("D", Dphi), ("alpha", al)) for k in ("k", "v")]))


def same_f(a, b):
    return z3.And(*[x == y for (_, x), (_, y) in zip(leaves(a), leaves(b))])


def sem_eq(D, a, b):
    """Equal as extended reals (the unused payload of non-finite values is ignored)."""
    return z3.And(*[z3.And(a.f[k].f["k"] == b.f[k].f["k"], z3.Implies(a.f[k].f["k"] == FIN, a.f[k].f["v"] == b.f[k].f["v"])) for k in a.f])


def reset(ck, P):
    f = P.one(r"^slp::Filter<double>::reset$")
    E, st, flt, old, mn, mx = setup(ck, P)
    for s, _ in E.run_fn(st, f, flt, []):
        o = E.read(s, flt)
        E.oblige(s, o.f["m_filter"].n == 0, "reset empties the filter", f["loc"], "post")
        E.oblige(s, z3.And(same_f(o.f["min_constraint_violation"], mn), same_f(o.f["max_constraint_violation"], mx)), "reset keeps the violation bounds", f["loc"], "frame")
        E.oblige(s, z3.Not(E.as_bool(o.f["m_last_rejection_due_to_filter"])), "reset clears the rejection flag", f["loc"], "post")
    ck.take(E, "Filter::reset")


def ctors(ck, P):
    E = ck.eng(P)
    EM.install(E)
    for f in P.find(r"^slp::Filter<double>::Filter$", kind="ctor", nparams=1, pred=lambda g: g["fn"].get("pt") and P.ty(g["params"][0]["t"])["k"] == "float"):
        st = State()
        v = fresh("v0", R)
        for s, o in E.construct(st, f, [v]):
            m = z3.If(v > 1, v, z3.RealVal(1))
            E.oblige(s, z3.And(o.f["m_filter"].n == 0), "a new filter is empty", f["loc"], "post")
            E.oblige(s, z3.And(o.f["min_constraint_violation"] == m / 10000, o.f["max_constraint_violation"] == 10000 * m), "initial violation bounds", f["loc"], "post")
    V = lambda nm: Seq(fresh(nm + ".n", I), fresh(nm, z3.ArraySort(I, R)), "vec")
    for f in P.find(r"^slp::FilterEntry<double>::FilterEntry$", kind="ctor"):
        ps = f["params"]
        kinds = [("vec" if "Matrix" in P.tstr(P.strip_ref(p["t"])) else P.ty(P.strip_ref(p["t"]))["k"]) for p in ps]
        st = State()
        if kinds == ["float", "vec"]:
            fv, ce = fresh("f", R), V("ce")
            st.pc = (ce.n >= 0,)
            for s, o in E.construct(st, f, [fv, ce]):
                s, l1 = EM.reduce(E, s, "l1", ce)
                E.oblige(s, o.f["cost"] == fv, "entry cost is f", f["loc"], "post")
                E.oblige(s.assume(*EM.congruence(E, s.pc)), o.f["constraint_violation"] == l1, "entry violation is |c_e|_1", f["loc"], "post")
        elif kinds == ["float", "vec", "vec", "vec", "float"]:
            fv, sl, ce, ci, mu = fresh("f", R), V("s"), V("ce"), V("ci"), fresh("mu", R)
            st.pc = (ce.n >= 0, ci.n >= 0, sl.n == ci.n)
            lv = E.alloc(st, sl, "s")
            for s, o in E.construct(st, f, [fv, lv, ce, ci, mu]):
                s, l1 = EM.reduce(E, s, "l1", ce)
                s, l2 = EM.reduce(E, s, "l1", EM.vec(ci.n, lambda i: EM.at(ci, i) - EM.at(sl, i)))
                s, lg = EM.reduce(E, s, "sum", EM.vec(sl.n, lambda i: MD.uf("m_log", R, R)(EM.at(sl, i))))
                s = s.assume(*EM.congruence(E, s.pc))
                E.oblige(s, o.f["cost"] == fv - mu * lg, "entry cost is the barrier cost", f["loc"], "post")
                E.oblige(s, o.f["constraint_violation"] == l1 + l2, "entry violation is |c_e|_1 + |c_i - s|_1", f["loc"], "post")
    ck.take(E, "filter constructors")
