"""P02: intrusive handles keep the reference count equal to the live handles."""
import re
import z3
from slpv.eng import *

HARNESS = "p02.cpp"
SAN = ("-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=undefined")
MIN_OBLIGATIONS = 60
SRC = """
#include <sleipnir/util/intrusive_shared_ptr.hpp>
#include <sleipnir/autodiff/expression.hpp>
namespace tt {
struct Node { unsigned ref_count; };
struct Der : Node {};
void inc_ref_count(Node*); void dec_ref_count(Node*);
void inc_ref_count(Der*); void dec_ref_count(Der*);
template <class T> struct Al { using value_type = T; T* allocate(unsigned long n); };
}
using N = tt::Node; using D = tt::Der;
using P = slp::IntrusiveSharedPtr<N>; using Q = slp::IntrusiveSharedPtr<D>;
template class slp::IntrusiveSharedPtr<tt::Node>;
void op_default() { P p; }
P op_conv_copy(const Q& q) { P p{q}; return p; }
P op_conv_move(Q& q) { P p{std::move(q)}; return p; }
void op_conv_assign(P& a, const Q& b) { a = b; }
void op_swap(P& a, P& b) { P t{std::move(a)}; a = std::move(b); b = std::move(t); }
bool cmp_eq(const P& a, const P& b) { return a == b; }
bool cmp_ne(const P& a, const P& b) { return a != b; }
bool cmp_en(const P& a) { return a == nullptr; }
bool cmp_nn(const P& a) { return a != nullptr; }
bool cmp_ne2(const P& a) { return nullptr == a; }
bool cmp_nn2(const P& a) { return nullptr != a; }
P op_alloc() { return slp::allocate_intrusive_shared<N>(tt::Al<N>{}); }
P op_new() { return slp::make_intrusive_shared<N>(); }
template void slp::detail::inc_ref_count<double>(slp::detail::Expression<double>*);
template void slp::detail::dec_ref_count<double>(slp::detail::Expression<double>*);
"""
AI = z3.ArraySort(I, I)


def prove(ck):
    P = ck.dump(SRC)
    for nm, fn in (("handle members", members), ("allocation helpers", allocs), ("comparisons", compares), ("node counters", counters)):
        ck.part(nm, fn, ck, P)
    ck.assume += ["a node type's inc_ref_count/dec_ref_count meet their documented contract (proved here for Expression<double>)",
                  "reference counts stay below 2^32",
                  "a destroyed node may own further handles, including the source of an assignment: their contents are arbitrary afterwards",
                  "the converting move assignment is not instantiable for distinct types in this code base (std::swap of unrelated pointers) and is not covered"]


class H:
    pass


def setup(ck, P, na=1):
    E = ck.eng(P, dtor_classes=("IntrusiveSharedPtr",))
    E.heap_classes = {"tt::Node": "heap", "tt::Der": "heap"}
    st = State()
    rc, ext = fresh("rc", AI), fresh("ext", AI)
    st.ghost["rc"], st.ghost["ext"] = rc, ext
    q = fresh("q", I)
    st.pc = (z3.ForAll([q], z3.And(z3.Select(ext, q) >= 0, z3.Select(rc, q) >= z3.Select(ext, q))),)
    h = H()
    h.E, h.st, h.rc, h.ext, h.owned = E, st, rc, ext, []
    h.fresh_ok = False

    def inc(E_, s, fn, obj, vals, e):
        p = E_.rv(s, vals[0])
        E_.oblige(s, p != 0, "inc_ref_count: pointer is not null")
        if not h.fresh_ok:
            E_.oblige(s, z3.Select(s.ghost["rc"], p) >= 1, "inc_ref_count: the node is still alive")
        s.ghost["rc"] = z3.Store(s.ghost["rc"], p, z3.Select(s.ghost["rc"], p) + 1)
        s.ghost["ext"] = z3.Store(s.ghost["ext"], p, z3.Select(s.ghost["ext"], p) + 1)
        return [(s, VOID)]

    def dec(E_, s, fn, obj, vals, e):
        p = E_.rv(s, vals[0])
        r, x = s.ghost["rc"], s.ghost["ext"]
        E_.oblige(s, p != 0, "dec_ref_count: pointer is not null")
        E_.oblige(s, z3.Select(x, p) >= 1, "dec_ref_count: the releaser holds a handle")
        x2 = z3.Store(x, p, z3.Select(x, p) - 1)
        r1 = z3.Store(r, p, z3.Select(r, p) - 1)
        r2 = fresh("rc_after", AI)
        k = fresh("q", I)
        s = s.assume(z3.Select(r, p) >= 1, z3.Or(z3.And(z3.Select(r1, p) > 0, r2 == r1), z3.And(z3.Select(r1, p) == 0, z3.ForAll([k], z3.And(z3.Select(r2, k) >= z3.Select(x2, k), z3.Select(r2, k) <= z3.Select(r1, k))))))
        s = s.copy()
        s.ghost["rc"], s.ghost["ext"] = r2, x2
        for root in h.owned:
            # the source handle may live inside the node just destroyed: contents unknown
            o = s.mem[root]
            s.mem[root] = Obj(o.cls, {"m_ptr": z3.If(z3.Select(r1, p) == 0, fresh("dead", I), o.f["m_ptr"])})
        return [(s, VOID)]
    E.contracts.append((lambda fn: fn["n"] == "inc_ref_count", inc))
    E.contracts.append((lambda fn: fn["n"] == "dec_ref_count", dec))
    return h


def hnd(h, p, nm, external):
    """A handle to p (0 = null); external handles are counted in ext."""
    lv = h.E.alloc(h.st, Obj("IntrusiveSharedPtr", {"m_ptr": p}), nm)
    if external:
        h.cnt = getattr(h, "cnt", []) + [p]
    return lv


def finish_setup(h, others=()):
    """rc counts every handle: external ones (ext) plus possibly-owned ones."""
    q = fresh("q", I)
    tot = lambda ps, x: sum([z3.If(z3.And(p != 0, p == x), 1, 0) for p in ps], z3.IntVal(0))
    cnt = getattr(h, "cnt", [])
    h.st.pc += (z3.ForAll([q], z3.And(z3.Select(h.ext, q) >= tot(cnt, q), z3.Select(h.rc, q) >= z3.Select(h.ext, q) + tot(list(others), q))),)
    h.tot = tot


def post(h, s, before, after, what, loc):
    q = fresh("q", I)
    E = h.E
    d = h.tot(after, q) - h.tot(before, q)
    E.oblige(s.assume(q != 0), z3.Select(s.ghost["ext"], q) - z3.Select(h.ext, q) == d, what + ": count of every node changes by the change in handles", loc, "post")
    for p in after:
        E.oblige(s, z3.Implies(p != 0, z3.Select(s.ghost["rc"], p) >= 1), what + ": every handle left points to a live node", loc, "post")


def ptr(E, s, lv):
    return E.rv(s, lv).f["m_ptr"]


def members(ck, P):
    cls = r"IntrusiveSharedPtr<tt::Node>::"
    fs = [f for f in P.find(r"^slp::" + cls + "[^:]*$")]
    fs += [f for f in P.funcs.values() if f["fn"]["qn"] in ("op_conv_copy", "op_conv_move", "op_conv_assign", "op_swap", "op_default")]
    seen = set()
    for f in fs:
        qn, loc, n = f["fn"]["qn"], f["loc"], f["fn"]["n"]
        ps = [P.tstr(p["t"]) for p in f["params"]]
        pk = [P.ty(p["t"])["k"] for p in f["params"]]
        a, b = fresh("a", I), fresh("b", I)

        def go(what, body):
            h = setup(ck, P)
            body(h)
            ck.take(h.E, qn)
            seen.add(what)
        if qn.startswith("op_conv") and "&" not in "".join(ps):
            continue
        if f["kind"] == "ctor" and not ps:
            def t(h):
                finish_setup(h)
                for s, v in h.E.construct(h.st, f, []):
                    h.E.oblige(s, v.f["m_ptr"] == 0, "default construct: null", loc, "post")
                    post(h, s, [], [], "default construct", loc)
            go("default", t)
        elif f["kind"] == "ctor" and "nullptr" in ps[0]:
            def t(h):
                finish_setup(h)
                for s, v in h.E.construct(h.st, f, [Ptr(None)]):
                    h.E.oblige(s, v.f["m_ptr"] == 0, "construct from nullptr: null", loc, "post")
                    post(h, s, [], [], "construct from nullptr", loc)
            go("null", t)
        elif f["kind"] == "ctor" and pk[0] == "ptr":
            def t(h):
                h.fresh_ok = True
                finish_setup(h)
                for s, v in h.E.construct(h.st, f, [a]):
                    h.E.oblige(s, v.f["m_ptr"] == a, "construct from pointer: holds it", loc, "post")
                    post(h, s, [], [v.f["m_ptr"]], "construct from pointer", loc)
            go("raw", t)
        elif (f["kind"] == "ctor" and pk[0] in ("lref", "rref")) or n in ("op_conv_copy", "op_conv_move"):
            mv = pk[0] == "rref" or n == "op_conv_move"

            def t(h):
                src = hnd(h, a, "rhs", mv)
                finish_setup(h, [] if mv else [a])
                if not mv:
                    h.owned = [src.root]
                for s, v in h.E.run_fn(h.st, f, None, [src]):
                    what = "move construct" if mv else "copy construct"
                    v = h.E.rv(s, v)
                    h.E.oblige(s, v.f["m_ptr"] == a, what + ": holds the source's pointer", loc, "post")
                    h.E.oblige(s, ptr(h.E, s, src) == (0 if mv else a), what + (": the moved-from handle is null" if mv else ": source unchanged"), loc, "post")
                    bf, af = ([a], [v.f["m_ptr"], ptr(h.E, s, src)]) if mv else ([], [v.f["m_ptr"]])
                    post(h, s, bf, af, what, loc)
            go(("conv_" if n.startswith("op_") else "") + ("movector" if mv else "copyctor"), t)
        elif n == "operator=" or n == "op_conv_assign":
            mv = n == "operator=" and pk[0] == "rref"
            for alias in ((False, True) if n == "operator=" else (False,)):
                def t(h):
                    l = hnd(h, a, "lhs", True)
                    if alias:
                        r, bv = l, a
                    else:
                        r, bv = hnd(h, b, "rhs", mv), b
                    finish_setup(h, [] if (mv or alias) else [b])
                    if not mv and not alias:
                        h.owned = [r.root]
                    res = h.E.run_fn(h.st, f, l, [r]) if n == "operator=" else h.E.run_fn(h.st, f, None, [l, r])
                    for s, v in res:
                        what = ("self " if alias else "") + ("move assign" if mv else "copy assign")
                        nl, nr = ptr(h.E, s, l), ptr(h.E, s, r)
                        h.E.oblige(s, nl == bv, what + ": destination holds the source's pointer", loc, "post")
                        two = mv and not alias
                        post(h, s, [a, b] if two else [a], [nl, nr] if two else [nl], what, loc)
                        if n == "operator=":
                            h.E.oblige(s, z3.BoolVal(isinstance(v, LV) and v.root == l.root), what + ": returns the destination", loc, "post")
                go(("self" if alias else "") + ("conv_" if n != "operator=" else "") + ("moveassign" if mv else "copyassign"), t)
        elif n == "op_swap":
            def t(h):
                l, r = hnd(h, a, "a", True), hnd(h, b, "b", True)
                finish_setup(h)
                for s, _ in h.E.run_fn(h.st, f, None, [l, r]):
                    h.E.oblige(s, z3.And(ptr(h.E, s, l) == b, ptr(h.E, s, r) == a), "swap: exchanges the pointers", loc, "post")
                    post(h, s, [a, b], [ptr(h.E, s, l), ptr(h.E, s, r)], "swap", loc)
            go("swap", t)
        elif f["kind"] == "dtor":
            def t(h):
                l = hnd(h, a, "this", True)
                finish_setup(h)
                for s, _ in h.E.run_fn(h.st, f, l, []):
                    post(h, s, [a], [], "destroy", loc)
            go("dtor", t)
        elif n in ("get", "operator->", "operator bool", "operator*"):
            def t(h):
                l = hnd(h, a, "this", True)
                finish_setup(h)
                if n == "operator*":
                    h.st.pc += (a != 0,)
                    h.st.mem["heap"] = Seq(z3.IntVal(0), Obj("tt::Node", {"ref_count": fresh("rcf", AI)}), "heap")
                for s, v in h.E.run_fn(h.st, f, l, []):
                    if n == "operator bool":
                        h.E.oblige(s, h.E.as_bool(v) == (a != 0), "truth test agrees with the pointer held", loc, "post")
                    elif n == "operator*":
                        h.E.oblige(s, z3.BoolVal(isinstance(v, LV) and v.root == "heap") if not (isinstance(v, LV) and v.path) else v.path[0][1] == a, "dereference yields the node held", loc, "post")
                    else:
                        h.E.oblige(s, v == a, n + " returns the pointer held", loc, "post")
                    post(h, s, [a], [ptr(h.E, s, l)], n, loc)
            go(n, t)
    need = {"default", "null", "raw", "copyctor", "movector", "conv_copyctor", "conv_movector", "copyassign", "selfcopyassign", "conv_copyassign", "moveassign",
            "selfmoveassign", "swap", "dtor", "get", "operator bool", "operator*"}
    if need - seen:
        raise Unsupported("members not found: %s" % sorted(need - seen))


def compares(ck, P):
    for n in ("cmp_eq", "cmp_ne", "cmp_en", "cmp_nn", "cmp_ne2", "cmp_nn2"):
        f = P.one("^%s$" % n)
        h = setup(ck, P)
        a, b = fresh("a", I), fresh("b", I)
        l, r = hnd(h, a, "a", True), hnd(h, b, "b", True)
        finish_setup(h)
        for s, v in h.E.run_fn(h.st, f, None, [l, r][:len(f["params"])]):
            o = b if len(f["params"]) == 2 else z3.IntVal(0)
            want = (a == o) if n in ("cmp_eq", "cmp_en", "cmp_ne2") else (a != o)
            h.E.oblige(s, h.E.as_bool(v) == want, "%s agrees with the pointers held" % n, f["loc"], "post")
            post(h, s, [], [], n, f["loc"])
        ck.take(h.E, n)


def allocs(ck, P):
    for n in ("op_alloc", "op_new"):
        h = setup(ck, P)
        h.fresh_ok = True
        p = fresh("block", I)

        def allocate(E_, s, fn, obj, vals, e):
            return [(s.assume(p != 0), p)]

        def construct(E_, s, fn, obj, vals, e):
            E_.oblige(s, E_.rv(s, vals[1]) == p, "the node is constructed in the allocated block")
            s.ghost["rc"] = z3.Store(s.ghost["rc"], p, 0)
            return [(s, VOID)]
        h.E.contracts.append((lambda fn: re.search(r"allocator_traits<.*>::allocate$", fn["qn"]), allocate))
        h.E.contracts.append((lambda fn: re.search(r"allocator_traits<.*>::construct$", fn["qn"]), construct))

        def new(st, e):
            s = st.assume(p != 0)
            s.ghost["rc"] = z3.Store(s.ghost["rc"], p, 0)
            return [(s, p)]
        h.E.e_New = new
        q = fresh("q", I)
        # a fresh block: nobody refers to it
        h.st.pc += (z3.Select(h.rc, p) == 0, z3.Select(h.ext, p) == 0)
        finish_setup(h)
        f = P.one("^%s$" % n)
        for s, v in h.E.run_fn(h.st, f, None, []):
            v = h.E.rv(s, v)
            h.E.oblige(s, v.f["m_ptr"] == p, n + ": the handle holds the new node", f["loc"], "post")
            h.E.oblige(s, z3.Select(s.ghost["rc"], p) == 1, n + ": a new node has exactly one owner", f["loc"], "post")
            post(h, s, [], [p], n, f["loc"])
        ck.take(h.E, n)


def counters(ck, P):
    """inc/dec_ref_count of Expression nodes, including the iterative release of owned children.

    hold[q] counts handles to q outside the node being released plus those inside live nodes;
    pend[q] counts references waiting on the work stack.  Invariant: rc[q] == hold[q]+pend[q].
    """
    f = P.one(r"^slp::detail::inc_ref_count$", nparams=1)
    g = P.one(r"^slp::detail::dec_ref_count$", nparams=1)
    EXPR = "slp::detail::Expression<double>"

    def mk():
        E = ck.eng(P)
        E.heap_classes = {EXPR: "heap"}
        st = State()
        ref = lambda nm: Obj("IntrusiveSharedPtr", {"m_ptr": fresh(nm, AI)})
        rc = fresh("rc", AI)
        args = Obj("arr", {"0": ref("arg0"), "1": ref("arg1")})
        st.mem["heap"] = Seq(z3.IntVal(0), Obj(EXPR, {"ref_count": rc, "adjoint_expr": ref("adj"), "args": args}), "heap")
        return E, st, rc
    E, st, rc = mk()
    p = fresh("p", I)
    q = fresh("q", I)
    st.pc = (p != 0, z3.ForAll([q], z3.And(z3.Select(rc, q) >= 0, z3.Select(rc, q) < 2 ** 32 - 1)))
    for s, _ in E.run_fn(st, f, None, [p]):
        r2 = s.mem["heap"].d.f["ref_count"]
        E.oblige(s, z3.Select(r2, q) == z3.Select(rc, q) + z3.If(q == p, 1, 0), "inc_ref_count adds one to this node only", f["loc"], "post")
    ck.take(E, "inc_ref_count")

    E, st, rc = mk()
    fld = lambda s, nm: {"adj": s.mem["heap"].d.f["adjoint_expr"].f["m_ptr"], "0": s.mem["heap"].d.f["args"].f["0"].f["m_ptr"], "1": s.mem["heap"].d.f["args"].f["1"].f["m_ptr"]}[nm]
    live, out, inn = fresh("live", z3.ArraySort(I, B)), fresh("out", AI), fresh("inn", AI)
    st.ghost["live"], st.ghost["inn"] = live, inn
    st.ghost["pend"] = z3.K(I, z3.IntVal(0))
    st.ghost["pend0"] = z3.K(I, z3.IntVal(0))
    st.ghost["sz"] = z3.IntVal(0)
    st.ghost["top"] = z3.IntVal(0)
    S = z3.Select
    n_own = lambda s, x, y: sum([z3.If(z3.And(S(fld(s, k), x) == y, y != 0), 1, 0) for k in ("adj", "0", "1")], z3.IntVal(0))

    def sums(s):
        """inn[y] is the number of handles to y inside live nodes: a sum of nonnegative terms."""
        x, y = fresh("q", I), fresh("r", I)
        return z3.ForAll([x, y], z3.And(S(s.ghost["inn"], y) >= 0, z3.Implies(S(s.ghost["live"], x), S(s.ghost["inn"], y) >= n_own(s, x, y))))

    def inv(s):
        rc_, h_, pd, lv = s.mem["heap"].d.f["ref_count"], s.ghost["inn"], s.ghost["pend"], s.ghost["live"]
        x = fresh("q", I)
        return [("rc == handles + pending", z3.ForAll([x], z3.Implies(S(lv, x), S(rc_, x) == S(out, x) + S(h_, x) + S(pd, x)))),
                ("counts nonnegative", z3.ForAll([x], z3.And(S(h_, x) >= 0, S(pd, x) >= 0, S(rc_, x) >= 0))),
                ("released nodes have no handle left", z3.ForAll([x], z3.Implies(z3.Not(S(lv, x)), z3.And(S(out, x) == 0, S(h_, x) == 0, S(pd, x) == 0)))),
                ("null is never pending", S(pd, 0) == 0),
                ("work list size", z3.And(s.ghost["sz"] >= 0, z3.Implies(s.ghost["sz"] == 0, z3.ForAll([x], S(pd, x) == 0)))),
                ("top entry is pending", z3.Implies(s.ghost["sz"] > 0, S(pd, s.ghost["top"]) >= 1))]

    def stack(E_, s, fn, obj, vals, e):
        n = fn["n"]
        if n == "small_vector":
            return [(s, Obj("stack", {}))]
        if n in ("emplace_back", "push_back"):
            v = E_.rv(s, vals[0])
            E_.oblige(s, v != 0, "only non-null nodes are queued")
            s.ghost["pend"] = z3.Store(s.ghost["pend"], v, S(s.ghost["pend"], v) + 1)
            s.ghost["sz"] = s.ghost["sz"] + 1
            s.ghost["top"] = v
            return [(s, VOID)]
        if n in ("empty",):
            return [(s, s.ghost["sz"] == 0)]
        if n == "size":
            return [(s, s.ghost["sz"])]
        if n == "back":
            E_.oblige(s, s.ghost["sz"] > 0, "back of a nonempty work list")
            return [(s, s.ghost["top"])]
        if n == "pop_back":
            E_.oblige(s, s.ghost["sz"] > 0, "pop of a nonempty work list")
            t = s.ghost["top"]
            s.ghost["pend"] = z3.Store(s.ghost["pend"], t, S(s.ghost["pend"], t) - 1)
            s.ghost["pend0"] = s.ghost["pend"]
            s.ghost["sz"] = s.ghost["sz"] - 1
            nt = fresh("top", I)
            s.ghost["top"] = nt
            x = fresh("q", I)
            return [(s.assume(z3.Implies(s.ghost["sz"] > 0, z3.And(nt != 0, S(s.ghost["pend"], nt) >= 1)), z3.Implies(s.ghost["sz"] == 0, z3.ForAll([x], S(s.ghost["pend"], x) == 0))), VOID)]
        raise Unsupported("work list operation %s" % fn["qn"])

    def dealloc(E_, s, fn, obj, vals, e):
        v = [E_.rv(s, x) for x in vals]
        v = [x for x in v if is_leaf(x)][0]
        rc_ = s.mem["heap"].d.f["ref_count"]
        E_.oblige(s, z3.And(v != 0, S(s.ghost["live"], v)), "a node is released at most once")
        E_.oblige(s, S(rc_, v) == 0, "a node is released only when its count is zero")
        x = fresh("q", I)
        # all handles inside the released node must have been handed to the work list
        E_.oblige(s, S(s.ghost["pend"], x) - S(s.ghost["pend0"], x) == n_own(s, v, x), "exactly the handles inside the released node are queued for release")
        s.ghost["live"] = z3.Store(s.ghost["live"], v, z3.BoolVal(False))
        ni = fresh("inn", AI)
        y = fresh("q", I)
        s = s.assume(z3.ForAll([y], S(ni, y) == S(s.ghost["inn"], y) - n_own(s, v, y)))
        s.ghost["inn"] = ni
        s = s.assume(sums(s))
        return [(s, VOID)]
    E.models.insert(0, (re.compile(r"^(gch::small_vector|std::vector)<.*>::[^:]*$"), stack))
    E.models.insert(0, (re.compile(r"allocator_traits<.*>::deallocate$"), dealloc))
    E.models.insert(0, (re.compile(r"global_pool_allocator"), lambda E_, s, fn, obj, vals, e: [(s, Pure("alloc"))]))
    # precondition: the caller gives up one external handle to p (out already excludes it)
    x = fresh("q", I)
    st.pc = tuple(t for n, t in inv(st) if not n.startswith("rc ==")) + (
        p != 0, S(live, p), z3.ForAll([x], z3.Implies(S(live, x), S(rc, x) == S(out, x) + S(inn, x) + z3.If(x == p, 1, 0))),
        z3.ForAll([x], z3.And(S(out, x) >= 0, S(rc, x) < 2 ** 32)), sums(st))

    def cands(c):
        o = [(n, t) for n, t in inv(c.sh)]
        xx = fresh("q", I)
        o += [("sums", sums(c.sh)), ("nodes only die", z3.ForAll([xx], z3.Implies(S(c.sh.ghost["live"], xx), S(live, xx)))),
              ("counts bounded", z3.ForAll([xx], S(c.sh.mem["heap"].d.f["ref_count"], xx) < 2 ** 32))]
        return o
    E.loop_cands = cands
    for s, _ in E.run_fn(st, g, None, [p]):
        for n, t in inv(s):
            E.oblige(s, t, "dec_ref_count: afterwards " + n, g["loc"], "post")
        q = fresh("q", I)
        E.oblige(s, z3.Implies(S(s.ghost["live"], q), S(live, q)), "dec_ref_count creates no node", g["loc"], "post")
    ck.take(E, "dec_ref_count")
