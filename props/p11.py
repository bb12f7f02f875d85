"""P11: matrix arithmetic computes the textbook element formulas."""
import re
import z3
from slpv.eng import *
from slpv import ginst as GI
from slpv.mats import *

HARNESS = "p11.cpp"
HSRC = ("autodiff/variable_matrix.cpp",)
MIN_OBLIGATIONS = 200
SRC = r"""
#include <sleipnir/autodiff/variable_matrix.hpp>
using V = slp::Variable<double>; using M = slp::VariableMatrix<double>;
using B = slp::VariableBlock<M>; using C = slp::VariableBlock<const M>; using D = Eigen::MatrixXd;
template class slp::VariableMatrix<double>;
template class slp::VariableBlock<M>;

V un(const V& x); V bi(const V& x, const V& y);
template <class L, class R> void both(const L& l, const R& r) { M a = l + r; M b = l - r; M c = l * r; }
template <class L> void one(const L& l, V v, double d) {
  M a = -l; M b = l * v; M c = v * l; M e = l * d; M f = d * l; M g = l / v; M h = l / d;
}
template <class T, class S> void comp(T& t, const S& s) { t += s; t -= s; t *= s; }
template <class T> void scal(T& t, V v, double d) {
  t += v; t -= v; t *= v; t /= v; t += d; t -= d; t *= d; t /= d; t = v; t = d;
}
void use(M m, B b, const C& c, D e, V v, double d, std::initializer_list<std::initializer_list<V>> il, std::initializer_list<std::initializer_list<M>> bl, std::vector<std::vector<M>> bv) {
  both(m, m); both(m, b); both(b, m); both(b, b); both(m, c); both(c, m); both(e, m); both(m, e); both(b, e); both(e, b);
  one(m, v, d); one(b, v, d); one(c, v, d);

  comp(m, m); comp(m, b); comp(m, e); comp(b, m); comp(b, b); comp(b, e); comp(m, c);
  scal(m, v, d); scal(b, v, d);
  M f{e}; M g{Eigen::VectorXd{e}.asDiagonal()}; m = e; m.set_value(e); b = e; b.set_value(e); b.set_value(d);
  slp::cwise_reduce<double>(m, m, bi);
  slp::block<double>(bl); slp::block<double>(bv);
  slp::solve(m, m);
  const B& cb = b; cb.segment(0, 1); c.segment(0, 1); c[0, 0]; c[0]; c[slp::Slice{}, slp::Slice{}]; c.T(); c.cwise_transform(un); c.begin(); c.end(); C c2{c};
  b[0, 0]; b[0]; b.block(0, 0, 1, 1); c.block(0, 0, 1, 1); b[slp::Slice{}, slp::Slice{}]; b[slp::Slice{}, 1, slp::Slice{}, 1]; c[slp::Slice{}, 1, slp::Slice{}, 1];
  b.segment(0, 1); b.row(0); b.col(0); c.row(0); c.col(0); b.T(); b.rows(); b.cols(); b.value(0, 0); b.value(0); b.value(); b.cwise_transform(un); b.exp(); b.begin(); b.end(); c.cbegin(); c.cend(); b.rbegin(); b.rend(); b.size(); c.size();
  auto it = b.begin(); ++it; it++; --it; it--; it == it; *it; auto ci = c.begin(); ++ci; ci++; --ci; ci == ci; *ci;
  auto mt = m.begin(); ++mt; mt++; --mt; mt--; mt == mt; *mt; const M& cm = m; auto mc = cm.begin(); ++mc; mc++; --mc; mc--; mc == mc; *mc;
  B b2{m}; B b3{m, 0, 0, 1, 1}; C c3{cm, 0, 0, 1, 1}; b2 = b3; b2 = B{b3}; b2 = m; b2 = M{m};
  V q = b; V q2 = m; V q3 = c; 
}
"""


def kind(P, t):
    s = P.tstr(P.strip_ref(t)).replace("const ", "", 1) if P.tstr(P.strip_ref(t)).startswith("const ") else P.tstr(P.strip_ref(t))
    return {VM: "mat", VB: "blk", VC: "cblk", VT: "var", "double": "scalar"}.get(s) or ("eig" if s.startswith("Eigen::") else s)


def prove(ck):
    P = ck.dump(SRC)
    jobs = []
    for f in P.funcs.values():
        q = f["fn"]["qn"]
        if not f.get("body") and f["kind"] != "ctor":
            continue
        ks = [kind(P, t) for t in f["fn"]["pt"]]
        own = next((k for c, k in ((VM, "mat"), (VB, "blk"), (VC, "cblk")) if q.startswith(c + "::")), None)
        n = f["fn"]["n"]
        nm = "%s(%s)" % (q.replace("slp::", "").replace("<double>", "").replace("<Variable", "<Var"), ", ".join(ks))
        M = ("mat", "blk", "cblk", "eig")
        if own is None and re.match(r"^slp::operator[-+*/]$", q) and any(k in M for k in ks):
            jobs.append((nm, binary, P, f, ks))
        elif own in ("mat", "blk") and re.match(r"^operator[-+*/]=$", n):
            jobs.append((nm, compound, P, f, own, ks))
            if ks == [own] or ks == ["var"]:
                jobs.append((nm + " with an operand of its own", compound, P, f, own, ks, True))
        elif own and n in ("cwise_transform", "T"):
            jobs.append((nm, produce, P, f, own, ks))
        elif own == "mat" and n in ("identity",):
            jobs.append((nm, identity, P, f))
        elif own == "mat" and n in ("zero", "one", "constant"):
            jobs.append((nm, constant, P, f))
        elif q == "slp::cwise_reduce":
            jobs.append((nm, produce, P, f, None, ks))
    ck.par(jobs)
    ck.assume += ["operations on single variables enter by P04's contract (the element denotes the operation of the operands' values)",
                  "access to elements, views, construction from a view and plain assignment enter by the contracts proved in P10",
                  "the destination of a compound assignment does not overlap a view operand at other positions",
                  "rounding treated as exact"]


def finish(ck, W, f, s, m, rows, cols, spec, what="every element"):
    E = W.E
    E.oblige(s, z3.And(m.f["m_rows"] == rows, m.f["m_cols"] == cols), "shape of the result", f["loc"], "post")
    a = W.arr_of(m)
    GI.array(a, ["x", "x"])
    qi, qc = fresh("qi", I), fresh("qc", I)
    GI.BIND_SK.update({qi.decl().name(): "x", qc.decl().name(): "x"})
    d = s.assume(qi >= 0, qi < rows, qc >= 0, qc < cols)
    E.oblige(d, sel(sel(a, qi), qc) == spec(qi, qc), what, f["loc"], "post")


def cand_result(W, rows, cols, spec, PS=None, inner=None):
    def cand(cx):
        out = []
        k = [cx.sh.ghost.get("k:%d" % d) for d in range(3)]
        for root in {m[0] for m in cx.mod}:
            t = cx.sh.mem.get(root)
            if isinstance(t, Obj) and t.cls == VM:
                a, a0 = W.arr_of(t), W.arr_of(cx.st0.mem[root])
                for x in (a, a0):
                    GI.array(x, ["x", "x"])
                out += W.grid(cx, a, a0, rows, cols, spec)
            if isinstance(t, Obj) and t.cls == VT and PS is not None and k[2] is not None:
                out.append(("partial sum", t.f["v"] == PS(k[0], k[1], k[2])))
                out.append(("partial sum", t.f["v"] == PS(k[1], k[0], k[2])))
        return out + W.counters(cx, rows, cols, inner)
    return cand


def binary(ck, P, f, ks):
    W = Mats(ck, P, f)
    E, st = W.E, W.st
    op = f["fn"]["n"][-1]
    ops = [W.make(k, "lr"[i]) for i, k in enumerate(ks)]
    PS = inner = None
    M = ("mat", "blk", "cblk", "eig")
    if len(ops) == 1:
        _, r, c, g = ops[0]
        spec = lambda p, q: -g(p, q)
    else:
        (_, r1, c1, g), (_, r2, c2, h) = ops
        if ks[0] in M and ks[1] in M:
            if op in "+-":
                st.pc += (r1 == r2, c1 == c2)
                r, c = r1, c1
                spec = lambda p, q: g(p, q) + h(p, q) if op == "+" else g(p, q) - h(p, q)
            elif op == "*":
                st.pc += (c1 == r2,)
                r, c, inner = r1, c2, c1
                W.st, PS = W.psum(st, g, h, r, inner, c)
                st = W.st
                spec = lambda p, q: PS(p, q, inner)
            else:
                raise Unsupported("matrix %s matrix" % op)
        elif ks[0] in M:
            r, c = r1, c1
            spec = (lambda p, q: MUL(g(p, q), h(p, q))) if op == "*" else (lambda p, q: MUL(g(p, q), INV(h(p, q))))
        else:
            r, c = r2, c2
            spec = lambda p, q: MUL(g(p, q), h(p, q))
    W.cand_fn = cand_result(W, r, c, spec, PS, inner)
    E.readonly = {x.root for x, *_ in ops if isinstance(x, LV)} | {v[0].root for v in W.srcs.values()}
    for s, v in E.run_fn(st, f, None, [o[0] for o in ops]):
        finish(ck, W, f, s, E.rv(s, v), r, c, spec)
    ck.take(E, "operator%s" % op)


def produce(ck, P, f, own, ks):
    W = Mats(ck, P, f)
    E, st = W.E, W.st
    n = f["fn"]["n"]
    if own:
        this, r, c, g = W.make(own, "m")
        args = [Obj("fref", {"id": fresh("f", I)})] if n == "cwise_transform" else []
        spec = (lambda p, q: UN(g(p, q))) if n == "cwise_transform" else (lambda p, q: g(q, p))
        if n == "T":
            r, c = c, r
    else:
        (a, r, c, g), (b, r2, c2, h) = W.make("mat", "l"), W.make("mat", "r")
        st.pc += (r == r2, c == c2)
        this, args = None, [a, b, Obj("fref", {"id": fresh("f", I)})]
        spec = lambda p, q: BI(g(p, q), h(p, q))
    W.cand_fn = cand_result(W, r, c, spec)
    E.readonly = {x.root for x in ([this] if own else args[:2])} | {v[0].root for v in W.srcs.values()}
    for s, v in E.run_fn(st, f, this, args):
        finish(ck, W, f, s, E.rv(s, v), r, c, spec)
    ck.take(E, n)


def identity(ck, P, f):
    W = Mats(ck, P, f)
    E, st = W.E, W.st
    n = fresh("n", I)
    st.pc += (n >= 0,)
    spec = lambda p, q: z3.If(p == q, z3.RealVal(1), z3.RealVal(0))
    W.cand_fn = cand_result(W, n, n, spec)
    for s, v in E.run_fn(st, f, None, [n]):
        finish(ck, W, f, s, E.rv(s, v), n, n, spec)
    ck.take(E, "identity")


def constant(ck, P, f):
    """zero, one, constant: the range-for writes every stored element (flat storage of rows * cols elements)."""
    W = Mats(ck, P, f)
    E, st = W.E, W.st
    n = f["fn"]["n"]
    r, c, k = fresh("rows", I), fresh("cols", I), fresh("constant", R)
    st.pc += (r >= 0, c >= 0)
    size = r * c
    st.pc += (size >= 0,)
    want = {"zero": z3.RealVal(0), "one": z3.RealVal(1), "constant": k}[n]

    def flat(E_, s, fn, o, v, e):
        rr, cc = E_.rv(s, v[1]), E_.rv(s, v[2])
        E_.oblige(s, z3.And(rr == r, cc == c), "shape of the result", f["loc"], "post")
        return [(s, Obj(VM, {"m_storage": Seq(size, Obj(VT, {"v": fresh("new", AR)}), "seq"), "m_rows": rr, "m_cols": cc}))]
    E.contracts.insert(0, (lambda fn: fn["qn"].startswith(VM + "::") and fn["n"] == "VariableMatrix" and len(fn["pt"]) == 3 and "empty_t" in P.tstr(P.strip_ref(fn["pt"][0])), flat))
    E.contracts.insert(0, (lambda fn: fn["qn"].startswith(VM + "::") and fn["n"] in ("begin", "end") and fn["id"] in P.funcs, lambda E_, s, fn, o, v, e: E_.invoke(s, fn, o, v, e)))

    def cand(cx):
        out = []
        i = fresh("i", I)
        k0 = cx.sh.ghost.get("k:0")
        for root in {m[0] for m in cx.mod}:
            t = cx.sh.mem.get(root)
            if isinstance(t, Obj) and t.cls == VM:
                a = t.f["m_storage"].d.f["v"]
                GI.array(a, ["x"])
                out.append(("elements so far", FA([i], z3.Implies(z3.And(i >= 0, i < k0), sel(a, i) == want))))
        out.append(("count", k0 <= size))
        return out
    W.cand_fn = cand
    for s, v in E.run_fn(st, f, None, [r, c] + ([k] if n == "constant" else [])):
        m = E.rv(s, v)
        q = fresh("qi", I)
        GI.BIND_SK[q.decl().name()] = "x"
        a = m.f["m_storage"].d.f["v"]
        GI.array(a, ["x"])
        E.oblige(s.assume(q >= 0, q < size), sel(a, q) == want, "every element", f["loc"], "post")
        E.oblige(s, z3.And(m.f["m_rows"] == r, m.f["m_cols"] == c, m.f["m_storage"].n == size), "shape of the result", f["loc"], "post")
    ck.take(E, n)


def compound(ck, P, f, own, ks, alias=False):
    W = Mats(ck, P, f)
    E, st = W.E, W.st
    op = f["fn"]["n"][-2]
    this, r, c, g = W.make(own, "t")
    if alias and ks[0] != "var":
        x, r2, c2, h = this, r, c, g
    elif alias:
        # an element of the destination's matrix
        u, w = fresh("eu", I), fresh("ew", I)
        lv = this if own == "mat" else W.srcs[this.root][0]
        m0 = E.read(st, lv)
        st.pc += (u >= 0, w >= 0, u < m0.f["m_rows"], w < m0.f["m_cols"])
        x, r2, c2 = lv.fld("el").at(u).at(w), None, None
        h = lambda p, q, e0=sel(sel(W.arr_of(m0), u), w): e0
    else:
        x, r2, c2, h = W.make(ks[0], "x")
    PS = inner = None
    if ks[0] in ("var", "scalar"):
        spec = {"+": lambda p, q: g(p, q) + h(p, q), "-": lambda p, q: g(p, q) - h(p, q), "*": lambda p, q: MUL(g(p, q), h(p, q)), "/": lambda p, q: MUL(g(p, q), INV(h(p, q)))}[op]
        if op in "+-":
            st.pc += (r == 1, c == 1)
    elif op in "+-":
        st.pc += (r == r2, c == c2)
        spec = lambda p, q: g(p, q) + h(p, q) if op == "+" else g(p, q) - h(p, q)
    else:
        st.pc += (c == r2, c == c2)
        inner = c
        W.st, PS = W.psum(st, g, h, r, inner, c)
        st = W.st
        spec = lambda p, q: PS(p, q, inner)
    if own == "mat":
        root, mr, mc, a0, view = this.root, r, c, W.arr_of(E.read(st, this)), None
    else:
        lv, mr, mc, a0, view = W.srcs[this.root]
        root = lv.root
    kd = "x" if own == "mat" else "m"
    E.readonly = set() if alias else ({x.root} | ({W.srcs[x.root][0].root} if x.root in W.srcs else set()) if isinstance(x, LV) else set()) | ({this.root} if own != "mat" else set())

    def cand(cx):
        out = []
        k = [cx.sh.ghost.get("k:%d" % d) for d in range(3)]
        for rt in {m[0] for m in cx.mod}:
            t = cx.sh.mem.get(rt)
            if rt == root:
                a = W.arr_of(t)
                GI.array(a, [kd, kd])
                out += W.grid(cx, a, a0, r, c, spec, view)
            elif isinstance(t, Obj) and t.cls == VT and PS is not None and k[2] is not None:
                out.append(("partial sum", t.f["v"] == PS(k[0], k[1], k[2])))
        return out + W.counters(cx, r, c, inner)
    W.cand_fn = cand
    x0 = E.read(st, x) if isinstance(x, LV) else x
    arg = x if not is_leaf(x) else x
    for s, v in E.run_fn(st, f, this, [arg]):
        m = E.rv(s, LV(root))
        E.oblige(s, z3.And(m.f["m_rows"] == mr, m.f["m_cols"] == mc), "shape kept", f["loc"], "post")
        a = W.arr_of(m)
        GI.array(a, [kd, kd])
        qi, qc = fresh("qi", I), fresh("qc", I)
        GI.BIND_SK.update({qi.decl().name(): kd, qc.decl().name(): kd})
        d = s.assume(qi >= 0, qi < mr, qc >= 0, qc < mc)
        if view is None:
            goal = sel(sel(a, qi), qc) == spec(qi, qc)
        else:
            rs, rt, cs, ct = view
            i, j = RINV(rs, rt, qi), RINV(cs, ct, qc)
            hit = z3.And(i >= 0, i < r, j >= 0, j < c, RMAP(rs, rt, i) == qi, RMAP(cs, ct, j) == qc)
            goal = sel(sel(a, qi), qc) == z3.If(hit, spec(i, j), sel(sel(a0, qi), qc))
        E.oblige(d, goal, "every element of the destination, and nothing else, takes its new value", f["loc"], "post")
        w = E.lvr(s, v) if hasattr(E, "lvr") else v
    ck.take(E, f["fn"]["n"])
