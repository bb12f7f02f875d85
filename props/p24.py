"""P24: multistart returns the best successful result."""
import z3
from slpv.eng import *
from slpv import models as MD

HARNESS = "p24.cpp"
HFLAGS = ("-pthread",)
MIN_OBLIGATIONS = 10
SRC = """
#include <sleipnir/optimization/multistart.hpp>
using R = slp::MultistartResult<double, double>;
R go(slp::function_ref<R(const double&)> f, std::span<const double> g) {
  return slp::multistart<double, double>(f, g);
}
"""


def h_async(E, st, fn, obj, vals, e):
    """std::async: runs the callable on a copy of the arguments (scheduling does not matter for a
    callable that shares no state); its result is delivered once by get()."""
    i = 0
    a0 = E.rv(st, vals[0])
    if is_leaf(a0):
        i = 1
    clo = E.rv(st, vals[i])
    s = st.copy()
    args = [E.alloc(s, E.rv(s, v), "async") for v in vals[i + 1:]]
    return [(s2, Obj("future", {"val": E.rv(s2, v)})) for s2, v in E.call_clo(s, clo, args)]


def h_future(E, st, fn, obj, vals, e):
    n = fn["n"]
    if n == "future":
        return [(st, E.rv(st, vals[0]))]
    if n == "get":
        return [(st, E.rv(st, obj).f["val"])]
    if n in ("wait", "valid"):
        return [(st, z3.BoolVal(True) if n == "valid" else VOID)]
    raise Unsupported(fn["qn"])


def h_min_element(E, st, fn, obj, vals, e):
    """min_element(first..last, less): scans in order, replacing the best when less(elem, best)."""
    lv, off, n = MD.range_of(E, st, vals[0])
    clo = E.rv(st, vals[1])
    src = E.read(st, lv)
    E.oblige(st, n > 0, "min_element of a nonempty range", kind="safety")
    best = z3.Function("best!%d" % next(MD._cnt), I, I)
    k = fresh("k", I)

    def less(i, j):
        s = st.copy()
        base = len(s.pc)
        r = E.call_clo(s, clo, [lv.at(i), lv.at(j)])
        c = None
        for s2, v in r:
            if not E.pure_since(st, s2):
                raise Unsupported("comparator with side effects")
            t = z3.And(*(list(s2.pc[base:]) + [E.as_bool(v)]))
            c = t if c is None else z3.Or(c, t)
        return c
    step = z3.If(less(k, best(k)), k, best(k))
    q = fresh("q", I)
    inv = lambda m: z3.And(best(m) >= 0, best(m) < m, z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < m), E.better(vselect(src.d, best(m)), vselect(src.d, q)))))
    st = st.assume(n > 0)
    E.oblige(st.assume(best(1) == 0), inv(z3.IntVal(1)), "best-so-far invariant (initially)", kind="inv")
    E.oblige(st.assume(k >= 1, k < n, inv(k), best(k + 1) == step), inv(k + 1), "best-so-far invariant (preserved by one comparison)", kind="inv")
    m = fresh("best", I)
    st = st.assume(m == best(n), inv(n))
    return [(st, Iter(lv, m))]


def prove(ck):
    P = ck.dump(SRC)
    f = P.one(r"^slp::multistart$")
    SUCCESS = None
    for n, vals in P.enums.items():
        if n.endswith("ExitStatus"):
            SUCCESS = int(vals["SUCCESS"])
    E = ck.eng(P)
    import re
    E.models.insert(0, (re.compile(r"^std::async$"), h_async))
    E.models.insert(0, (re.compile(r"^std::(__basic_)?future<.*>::[^:]*$"), h_future))
    E.models.insert(0, (re.compile(r"^std::ranges::__min_element_fn::operator\(\)$"), h_min_element))
    cls = None
    S, C, V = z3.Function("status", R, I), z3.Function("cost", R, R), z3.Function("vars", R, R)
    G = Seq(fresh("n", I), fresh("guess", z3.ArraySort(I, R)), "seq")

    def solve(E_, st, vals):
        g = E_.rv(st, vals[0])
        c = st.ghost["calls"]
        st.ghost["calls"] = Seq(c.n + 1, vstore(c.d, c.n, g), "seq")
        return [(st, Obj("MultistartResult", {"status": S(g), "cost": C(g), "variables": V(g)}))]

    def better(a, b):
        """spec: a is at least as good a result as b"""
        sa, sb = a.f["status"] == SUCCESS, b.f["status"] == SUCCESS
        return z3.If(sa == sb, a.f["cost"] <= b.f["cost"], sa)
    E.better = better
    st = State()
    st.ghost["calls"] = Seq(z3.IntVal(0), fresh("calls", z3.ArraySort(I, R)), "seq")
    g = E.alloc(st, G, "guesses")
    E.readonly = {g.root}
    st.pc = (G.n >= 1, G.n < 2 ** 31)

    def cands(c):
        out = []
        q = fresh("q", I)
        for m in c.mod:
            v = c.leaf(c.sh, m)
            if v.sort().kind() == z3.Z3_ARRAY_SORT:
                for F, nm in ((S, "status"), (C, "cost"), (V, "variables"), (lambda x: x, "guess")):
                    t = F(z3.Select(G.d, q))
                    if t.sort() == v.sort().range():
                        out.append(("prefix holds %s of its own start" % nm, z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < c.k), select(v, q) == t))))
            if v.sort() == I:
                # an index of the best result so far
                for root, t in c.sh.mem.items():
                    if isinstance(t, Seq) and isinstance(t.d, Obj) and set(t.d.f) == {"status", "cost", "variables"}:
                        for d in (0, 1):
                            out.append(("index of the best so far", z3.And(v >= 0, v < c.k + d, z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < c.k + d), better(vselect(t.d, v), vselect(t.d, q)))))))
        return out
    E.loop_cands = cands
    i = fresh("i", I)
    for s, r in E.run_fn(st, f, None, [Clo([], {}, py=solve), MD.mk_span(Iter(g, z3.IntVal(0)), G.n)]):
        gi = z3.Select(G.d, i)
        si = s.assume(i >= 0, i < G.n)
        E.oblige(si, z3.Implies(S(gi) == SUCCESS, z3.And(r.f["status"] == SUCCESS, r.f["cost"] <= C(gi))), "if any solve succeeds the result is a successful one of lowest cost", f["loc"], "post")
        E.oblige(si, z3.Implies(r.f["status"] != SUCCESS, r.f["cost"] <= C(gi)), "otherwise the result has the lowest cost", f["loc"], "post")
        q = fresh("q", I)
        E.oblige(s, z3.Exists([q], z3.And(q >= 0, q < G.n, r.f["status"] == S(z3.Select(G.d, q)), r.f["cost"] == C(z3.Select(G.d, q)), r.f["variables"] == V(z3.Select(G.d, q)))), "the result is that of one of the starting points", f["loc"], "post")
        c = s.ghost["calls"]
        E.oblige(si, z3.And(c.n == G.n, select(c.d, i) == gi), "every starting point is solved exactly once", f["loc"], "post")
        ck.nonvacuous("multistart", [x for x in s.pc if not z3.is_quantifier(x)])
    ck.take(E, "multistart")
    ck.assume += ["std::async/std::future deliver each call's result once (the callable shares no mutable state between starts)",
                  "std::ranges::min_element scans in order with the given comparator", "costs are not NaN", "DecisionVariables instantiated with double"]
