"""P09: constraints are stored as the exact comparison the user wrote."""
import re
import z3
from slpv.eng import *
from slpv import ginst as GI
from slpv import models as MD
from slpv.mats import *
from props.p10 import Flat, FL, FR, FC

HARNESS = "p09.cpp"
HSRC = ("autodiff/variable_matrix.cpp",)
MIN_OBLIGATIONS = 150
SRC = r"""
#include <sleipnir/autodiff/variable_matrix.hpp>
using V = slp::Variable<double>; using M = slp::VariableMatrix<double>;
using B = slp::VariableBlock<M>; using C = slp::VariableBlock<const M>; using D = Eigen::MatrixXd;
template struct slp::EqualityConstraints<double>; template struct slp::InequalityConstraints<double>;
template <class L, class R> void cmp(const L& l, const R& r) {
  (void)(l == r); (void)(l <= r); (void)(l < r); (void)(l >= r); (void)(l > r);
}
template <class L, class X, class U> void bnd(const L& l, const X& x, const U& u) { slp::bounds(l, x, u); }
void use(const V& v, double d, int i, const M& m, const B& b, const C& c, const D& e) {
  cmp(v, v); cmp(v, d); cmp(d, v); cmp(v, i); cmp(v, m); cmp(m, v); cmp(v, b); cmp(b, v); cmp(d, m); cmp(m, d); cmp(d, b); cmp(b, d); cmp(v, e); cmp(e, v);
  cmp(m, m); cmp(m, b); cmp(b, m); cmp(b, b); cmp(m, e); cmp(e, m); cmp(b, e); cmp(e, b); cmp(m, c); cmp(c, m); cmp(c, d); cmp(v, c); cmp(c, c);
  bnd(d, v, d); bnd(d, m, d); bnd(m, m, m); bnd(e, m, e); bnd(v, v, v); bnd(e, b, d);
}
"""
NM = {VM: "mat", VB: "blk", VC: "cblk", VT: "var", "double": "scalar", "int": "int"}
EQC, INC = "slp::EqualityConstraints<double>", "slp::InequalityConstraints<double>"


def kind(P, t):
    s = re.sub(r"^const ", "", P.tstr(P.strip_ref(t)))
    return NM.get(s) or ("eig" if s.startswith("Eigen::") else s)


def prove(ck):
    P = ck.dump(SRC)
    jobs = []
    for f in P.funcs.values():
        q, n = f["fn"]["qn"], f["fn"]["n"]
        if not f.get("body") and f["kind"] != "ctor":
            continue
        ks = [kind(P, t) for t in f["fn"]["pt"]]
        nm = "%s(%s)" % (n, ", ".join(ks))
        if q.endswith("::make_constraints"):
            jobs.append((nm, make, P, f, ks))
        elif re.match(r"^slp::operator(==|<=|<|>=|>)$", q) and len(ks) == 2 and all(k in NM.values() or k == "eig" for k in ks):
            jobs.append((nm, compare, P, f, ks))
        elif q == "slp::bounds":
            jobs.append((nm, bnds, P, f, ks))
        elif re.match(r"^slp::(Eq|Ineq)ualityConstraints<double>::", q):
            ty = P.tstr(P.strip_ref(f["fn"]["pt"][0])) if f["fn"]["pt"] else ""
            if f["kind"] == "ctor" and len(ks) == 1 and ("initializer_list" in ty or "vector" in ty):
                jobs.append(("%s(%s)" % (n, "list" if "init" in ty else "vector"), concat, P, f))
            elif f["kind"] == "ctor" and len(ks) == 2:
                jobs.append(("%s(%s)" % (n, ", ".join(ks)), pair, P, f, ks))
            elif f["kind"] != "ctor" and (n.startswith("operator bool") or f["fn"].get("conv")):
                jobs.append(("%s as bool" % q.split("<")[0], truth, P, f, "Equality" in q and "Ineq" not in q))
    ck.par(jobs)
    ck.part("orientation", orientation, ck)
    ck.assume += ["the difference of two variables enters by P04's contract, element access by P10's",
                  "std::initializer_list, std::vector and gch::small_vector keep their elements in order",
                  "rounding treated as exact (a difference is zero or nonnegative exactly when the operands compare so)"]


def orientation(ck):
    l, r = z3.Reals("l r")
    ck.ob("an equality entry is zero exactly when the two elements are equal", [], (l - r == 0) == (l == r), kind="lemma")
    ck.ob("an inequality entry is nonnegative exactly when left >= right", [], (l - r >= 0) == (l >= r), kind="lemma")


class W9(Flat):
    def __init__(self, ck, P, mc=True):
        super().__init__(ck, P, views_by_contract=True)
        self.calls = []
        self.E.ground_bounds = True
        E = self.E
        E.contracts.insert(0, (lambda fn: fn["qn"].startswith(VM + "::") or fn["qn"].startswith(VB + "::") or fn["qn"].startswith(VC + "::"), self.h_any))
        if mc:
            E.contracts.insert(0, (lambda fn: fn["qn"].endswith("::make_constraints"), self.h_mc))

    def h_any(self, E, s, fn, o, v, e):
        if fn["n"] in ("rows", "cols", "size"):
            r, c = self.shape(s, o)
            return [(s, r if fn["n"] == "rows" else c if fn["n"] == "cols" else FL(r, z3.IntVal(0)))]
        return self.h_mat(E, s, fn, o, v, e)

    def h_mc(self, E, s, fn, o, v, e):
        """Contract of make_constraints: the list standing for left - right (proved below)."""
        a = fresh("constraints", AR)
        n = fresh("n", I)
        s = s.assume(n >= 0)
        self.calls.append((v[0], v[1], a, n))
        return [(s, Seq(n, Obj(VT, {"v": a}), "seq"))]

    def operand(self, k, name):
        if k == "int":
            x = fresh(name, I)
            return x, None, None, lambda p, q: z3.ToReal(x)
        x, r, c, g = self.make(k, name)
        return (self.E.alloc(self.st, x, name) if k == "var" else x), r, c, g


def ident(E, s, x):
    """Identity of an operand: its place, or its value for plain numbers."""
    if isinstance(x, LV):
        v = E.rv(s, x)
        return x if isinstance(v, Obj) else v
    return x


def is_same(a, b):
    if isinstance(a, LV) and isinstance(b, LV):
        return z3.BoolVal(same_lv(a, b))
    if is_leaf(a) and is_leaf(b) and a.sort() == b.sort():
        return a == b
    return z3.BoolVal(False)


def made(ck, W, s, x, l, r, loc, what):
    """x is the constraint list of l - r: made by one call with exactly these operands."""
    E = W.E
    o = E.rv(s, x)
    sq = o.f["constraints"] if isinstance(o, Obj) and "constraints" in o.f else None
    hit = [c for c in W.calls if sq is not None and sq.d is not None and sq.d.f["v"].eq(c[2])]
    E.oblige(s, z3.BoolVal(bool(hit)), what + ": the list of differences", loc, "post")
    for c in hit[:1]:
        E.oblige(s, z3.And(sq.n == c[3], is_same(ident(E, s, c[0]), ident(E, s, l)), is_same(ident(E, s, c[1]), ident(E, s, r))), what + ": minuend and subtrahend", loc, "post")
    return o.cls if isinstance(o, Obj) else None


def compare(ck, P, f, ks):
    W = W9(ck, P)
    E, st = W.E, W.st
    l, r = W.operand(ks[0], "l")[0], W.operand(ks[1], "r")[0]
    op = f["fn"]["n"][8:]
    for s, v in E.run_fn(st, f, None, [l, r]):
        a, b = (r, l) if op in ("<", "<=") else (l, r)
        cls = made(ck, W, s, v, a, b, f["loc"], "left %s right" % op)
        E.oblige(s, z3.BoolVal(cls == (EQC if op == "==" else INC)), "kind of constraint", f["loc"], "post")
        ck.nonvacuous(op, list(s.pc))
    ck.take(E, "operator" + op)


def pair(ck, P, f, ks):
    W = W9(ck, P)
    E, st = W.E, W.st
    l, r = W.operand(ks[0], "l")[0], W.operand(ks[1], "r")[0]
    for s, v in E.construct(st, f, [l, r]):
        made(ck, W, s, v, l, r, f["loc"], "constructor")
    ck.take(E, "constraints of a pair")


def bnds(ck, P, f, ks):
    """bounds(l, x, u): the entries of x - l followed by the entries of u - x."""
    W = W9(ck, P)
    E, st = W.E, W.st
    got = []

    def ctor(E_, s, fn, o, v, e):
        x = E_.rv(s, v[0])
        if isinstance(x, Seq):
            n = z3.simplify(x.n)
            got.append([Obj(INC, {"constraints": vs.f["constraints"]}) for vs in (MD.vselect(x.d, z3.IntVal(k)) for k in range(n.as_long()))])
            return [(s, Obj(INC, {"bounds": z3.BoolVal(True)}))]
        if isinstance(x, Obj) and x.cls == "arr":
            got.append([x.f[k] for k in sorted(x.f)])
            return [(s, Obj(INC, {"bounds": z3.BoolVal(True)}))]
        raise Unsupported("InequalityConstraints constructor")
    E.contracts.insert(0, (lambda fn: fn["qn"].startswith(INC + "::") and fn["n"] == "InequalityConstraints" and len(fn["pt"]) == 1 and "initializer_list" in P.tstr(P.strip_ref(fn["pt"][0])), ctor))
    l, x, u = [W.operand(k, n)[0] for k, n in zip(ks, "lxu")]
    for s, v in E.run_fn(st, f, None, [l, x, u]):
        ok = len(got) == 1 and len(got[0]) == 2 and len(W.calls) == 2
        E.oblige(s, z3.BoolVal(ok), "two lists, concatenated", f["loc"], "post")
        if ok:
            for o, c, (a, b) in zip(got[0], W.calls, ((x, l), (u, x))):
                E.oblige(s, z3.And(o.f["constraints"].n == c[3], z3.BoolVal(True)), "entries kept", f["loc"], "post")
                E.oblige(s, o.f["constraints"].d.f["v"] == c[2], "entries kept", f["loc"], "post")
                E.oblige(s, z3.And(is_same(ident(E, s, c[0]), ident(E, s, a)), is_same(ident(E, s, c[1]), ident(E, s, b))), "lower bound first, then upper bound", f["loc"], "post")
    ck.take(E, "bounds")


def truth(ck, P, f, eq):
    W = W9(ck, P)
    E, st = W.E, W.st
    n, a = fresh("n", I), fresh("c", AR)
    st.pc += (n >= 0,)
    this = E.alloc(st, Obj(EQC if eq else INC, {"constraints": Seq(n, Obj(VT, {"v": a}), "seq")}), "this")
    k = fresh("k", I)
    good = (lambda x: x == 0) if eq else (lambda x: x >= 0)

    def cand(cx):
        k0 = cx.sh.ghost.get("k:0")
        i = fresh("i", I)
        return [("satisfied so far", FA([i], z3.Implies(z3.And(i >= 0, i < k0), good(sel(a, i))))), ("count", k0 <= n)]
    W.cand_fn = cand
    for s, v in E.run_fn(st, f, this, []):
        r = E.rv(s, v)
        E.oblige(s.assume(k >= 0, k < n), z3.Implies(r, good(sel(a, k))), "true only when every entry is satisfied", f["loc"], "post")
        i = fresh("i", I)
        E.oblige(s.assume(FA([i], z3.Implies(z3.And(i >= 0, i < n), good(sel(a, i))))), r, "true when every entry is satisfied", f["loc"], "post")
        ck.nonvacuous("bool", list(s.pc))
    ck.take(E, "conversion to bool")


def make(ck, P, f, ks):
    W = W9(ck, P, mc=False)
    E, st = W.E, W.st
    zero = z3.IntVal(0)
    (l, r1, c1, g), (x, r2, c2, h) = W.operand(ks[0], "l"), W.operand(ks[1], "r")
    if r1 is not None and r2 is not None:
        st.pc += (r1 == r2, c1 == c2)
    r, c = (r1, c1) if r1 is not None else (r2, c2) if r2 is not None else (z3.IntVal(1), z3.IntVal(1))
    spec = lambda p, q: g(p, q) - h(p, q)
    if r1 is None and r2 is None:
        st.pc += (FL(1, zero) == 1,)
    numbering(W, st, c)
    E.readonly = {y.root for y in (l, x) if isinstance(y, LV)} | {v[0].root for v in W.srcs.values()}

    def cand(cx):
        out = []
        k = [cx.sh.ghost.get("k:%d" % d) for d in range(2)]
        for root in {y[0] for y in cx.mod}:
            sq = cx.sh.mem.get(root)
            if not isinstance(sq, Seq) or not isinstance(sq.d, Obj) or "v" not in sq.d.f:
                continue
            out += rowmajor(sq.n, sq.d.f["v"], k, c, spec)
        return out + W.counters(cx, r, c)
    W.cand_fn = cand
    for s, v in E.run_fn(st, f, None, [l, x]):
        sq = E.rv(s, v)
        ck.nonvacuous("make", list(s.pc))
        E.oblige(s, sq.n == FL(r, zero) if r1 is not None or r2 is not None else sq.n == 1, "exactly one entry per element", f["loc"], "post")
        p, q = fresh("qp", I), fresh("qq", I)
        GI.BIND_SK.update({p.decl().name(): "x", q.decl().name(): "x"})
        if sq.d is None:
            E.oblige(s, sq.n == 0, "entries", f["loc"], "post")
            continue
        a = sq.d.f["v"]
        GI.array(a, ["f"])
        d = s.assume(p >= 0, p < r, q >= 0, q < c, FL(p, q) < FL(r, zero), FL(p, q) >= 0)     # the numbering is increasing
        E.oblige(d, sel(a, FL(p, q)) == spec(p, q), "entry p * cols + q is left(p, q) - right(p, q)", f["loc"], "post")
    ck.take(E, "make_constraints")


def numbering(W, st, c):
    """Row-major numbering FL(p, q) = p * cols + q, by its recursion, with its inverse (FR, FC)."""
    zero = z3.IntVal(0)
    GI.register(FL.name(), ["x", "x"], "f")
    GI.register(FR.name(), ["f"], "x")
    GI.register(FC.name(), ["f"], "x")
    GI.BINDER.update({"p!": "x", "q!": "x", "g!": "f"})
    p, q = fresh("p", I), fresh("q", I)
    st.pc += (FL(zero, zero) == 0,
              FA([p, q], z3.And(z3.Implies(z3.And(p >= 0, q >= 0, q < c), z3.And(FR(FL(p, q)) == p, FC(FL(p, q)) == q, FL(p, q + 1) == FL(p, q) + 1)), FL(p, c) == FL(p + 1, zero))))


def rowmajor(n, a, k, c, spec):
    """Invariant candidates of a sequence filled in row-major order."""
    zero = z3.IntVal(0)
    GI.array(a, ["f"])
    out = []
    if k[1] is None:
        out += [("elements so far", n == k[0]), ("whole rows so far", n == FL(k[0], zero)), ("numbering", FL(k[0], c) == FL(k[0] + 1, zero))]
    else:
        out += [("elements so far", n == FL(k[0], k[1])), ("numbering", z3.Implies(k[1] < c, FL(k[0], k[1] + 1) == FL(k[0], k[1]) + 1)), ("numbering", FL(k[0], c) == FL(k[0] + 1, zero))]
        out += [("inverse numbering", z3.Implies(z3.And(k[0] >= 0, k[1] >= 0, k[1] < c), z3.And(FR(n) == k[0], FC(n) == k[1])))]
    if spec is not None:
        g_ = fresh("g", I)
        out.append(("contents so far", FA([g_], z3.Implies(z3.And(g_ >= 0, g_ < n), sel(a, g_) == spec(FR(g_), FC(g_))))))
    return out


OFF = z3.Function("offset", I, I)     # number of entries in the first e lists
OWN = z3.Function("owner", I, I)      # list that entry m comes from


def concat(ck, P, f):
    W = W9(ck, P)
    E, st = W.E, W.st
    L, LEN, A = fresh("lists", I), fresh("length", z3.ArraySort(I, I)), fresh("entries", AAR)
    GI.array(LEN, ["e"])
    GI.array(A, ["e", "i"])
    GI.register(OFF.name(), ["e"], "m")
    GI.register(OWN.name(), ["m"], "e")
    GI.BINDER.update({"e!": "e", "m!": "m", "i!": "i"})
    e, i = fresh("e", I), fresh("i", I)
    st.pc += (L >= 0, OFF(0) == 0, FA([e], z3.And(sel(LEN, e) >= 0, OFF(e + 1) == OFF(e) + sel(LEN, e))),
              FA([e, i], z3.Implies(z3.And(e >= 0, i >= 0, i < sel(LEN, e)), OWN(OFF(e) + i) == e)))
    cls = EQC if "Equality" in f["fn"]["qn"] and "Ineq" not in f["fn"]["qn"] else INC
    lists = E.alloc(st, Seq(L, Obj(cls, {"constraints": Seq(LEN, Obj(VT, {"v": A}), "seq")}), "seq"), "lists")
    E.readonly = {lists.root}

    def insert(E_, s, fn, o, v, e_):
        """small_vector::insert(end, first, last) appends the range."""
        it, a, b = [MD.as_iter(E_, s, x) for x in v]
        cur, src = E_.read(s, o), E_.read(s, a.lv)
        n = b.idx - a.idx
        E_.oblige(s, z3.And(same_place_(it, o), it.idx == cur.n, n >= 0, z3.BoolVal(same_lv(a.lv, b.lv))), "insert at the end", kind="pre")
        new, m = fresh("entries", AR), fresh("m", I)
        GI.array(new, ["m"])
        old = cur.d.f["v"] if isinstance(cur.d, Obj) else z3.K(I, z3.RealVal(0))
        s = s.assume(FA([m], sel(new, m) == z3.If(m < cur.n, sel(old, m), sel(src.d.f["v"], a.idx + m - cur.n))))
        E_.write(s, o, Seq(cur.n + n, Obj(VT, {"v": new}), "seq"))
        return [(s, VOID)]
    E.contracts.insert(0, (lambda fn: "vector" in fn["qn"] and fn["n"] == "insert" and len(fn["pt"]) == 3, insert))

    def cand(cx):
        out = []
        k0 = cx.sh.ghost.get("k:0")
        k1 = cx.sh.ghost.get("k:1")
        for root in {y[0] for y in cx.mod}:
            o = cx.sh.mem.get(root)
            if not isinstance(o, Obj) or "constraints" not in o.f:
                continue
            sq = o.f["constraints"]
            out.append(("entries so far", sq.n == OFF(k0)))
            if k1 is not None:
                out.append(("entries so far", sq.n == OFF(k0) + k1))
                out.append(("count", k1 <= sel(LEN, k0)))
            if isinstance(sq.d, Obj) and "v" in sq.d.f:
                a = sq.d.f["v"]
                GI.array(a, ["m"])
                m = fresh("m", I)
                out.append(("contents so far", FA([m], z3.Implies(z3.And(m >= 0, m < sq.n), sel(a, m) == sel(sel(A, OWN(m)), m - OFF(OWN(m)))))))
        return out + [("count", k0 <= L)]
    W.cand_fn = cand
    for s, v in E.construct(st, f, [lists]):
        sq = E.rv(s, v).f["constraints"]
        ck.nonvacuous("concat", list(s.pc))
        E.oblige(s, sq.n == OFF(L), "as many entries as in all lists together", f["loc"], "post")
        qe, qi = fresh("qe", I), fresh("qi", I)
        GI.BIND_SK.update({qe.decl().name(): "e", qi.decl().name(): "i"})
        if sq.d is None:
            E.oblige(s, OFF(L) == 0, "entries", f["loc"], "post")
            continue
        a = sq.d.f["v"]
        GI.array(a, ["m"])
        d = s.assume(qe >= 0, qe < L, qi >= 0, qi < sel(LEN, qe), OFF(qe) + qi < OFF(L), OFF(qe) >= 0, OFF(qe) + qi >= 0)
        E.oblige(d, sel(a, OFF(qe) + qi) == sel(sel(A, qe), qi), "entry i of list e follows the entries of the lists before it", f["loc"], "post")
    ck.take(E, "concatenation")


def same_place_(it, o):
    return z3.BoolVal(isinstance(o, LV) and isinstance(it.lv, LV) and same_lv(it.lv, o))
