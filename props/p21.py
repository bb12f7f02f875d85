"""P21: sparse assembly places every entry of every block exactly once."""
import z3
from slpv.eng import *
from slpv import emodels as EM, smodels as SM
from props.p18 import visited

HARNESS = "p21.cpp"
MIN_OBLIGATIONS = 40
SRC = """
#include <Eigen/SparseCore>
#include <cmath>
#include <sleipnir/optimization/solver/util/append_as_triplets.hpp>
#include <sleipnir/optimization/solver/util/all_finite.hpp>
using M = Eigen::SparseMatrix<double>; using T = Eigen::Triplet<double>; using SV = Eigen::SparseVector<double>;
template void slp::append_as_triplets(gch::small_vector<T>&, int, int, std::initializer_list<M>);
template void slp::append_diagonal_as_triplets(gch::small_vector<T>&, int, int, const Eigen::VectorXd&);
template bool slp::all_finite(const Eigen::SparseCompressedBase<M>&);
template bool slp::all_finite(const Eigen::SparseCompressedBase<SV>&);
"""
S = z3.Select


class Stack:
    """A list of B >= 1 vertically stacked sparse blocks and the layout the assembly must produce.

    RO(b)   = rows of the blocks above block b
    P(c, b) = number of triplets before column c of block b (columns in order, blocks top to bottom in each)
    Entry p of column c of block b must be triplet P(c,b) + (p - start(b,c)), at
    (row_offset + RO(b) + row(p), col_offset + c) with that entry's value.
    """

    def __init__(self, E, n0):
        self.n0 = n0
        el = SM.sparse(E, "m")
        self.mats = Seq(fresh("B", I), lift(el, "mats"), "seq")
        d = dict(self.mats.d.f)
        d["maj"] = z3.K(I, z3.IntVal(0))
        self.mats = Seq(self.mats.n, Obj(self.mats.d.cls, d), "seq")
        self.B = self.mats.n
        self.C = S(d["cols"], 0)
        self.RO = z3.Function("RO!%d" % id(self), I, I)
        self.P = z3.Function("P!%d" % id(self), I, I, I)
        b, c, p = z3.Ints("b!q c!q p!q")
        st, en, ri = [S(S(d[x], b), c) for x in ("st", "en", "ri")]
        inb = z3.And(b >= 0, b < self.B)
        inc = z3.And(inb, c >= 0, c < self.C)
        rows, cols = S(d["rows"], b), S(d["cols"], b)
        self.d = d
        self.facts = [self.B >= 1, self.B < 2 ** 31, self.C >= 0,
                      z3.ForAll([b], z3.Implies(inb, z3.And(rows >= 0, cols == self.C)), patterns=[rows]),
                      z3.ForAll([b], z3.Implies(inb, cols == self.C), patterns=[cols]),
                      z3.ForAll([b, c], z3.Implies(inc, z3.And(st >= 0, st <= en)), patterns=[st]),
                      self.RO(0) == 0,
                      z3.ForAll([b], z3.Implies(inb, self.RO(b + 1) == self.RO(b) + rows), patterns=[rows]),
                      self.P(0, 0) == n0,
                      z3.ForAll([b, c], z3.Implies(inc, self.P(c, b + 1) == self.P(c, b) + en - st), patterns=[st]),
                      z3.ForAll([c], z3.Implies(z3.And(c >= 0, c < self.C), self.P(c + 1, 0) == self.P(c, self.B)), patterns=[self.P(c, self.B)])]

    def start(self, b, c):
        return S(S(self.d["st"], b), c)

    def entry(self, t, b, c, p, ro, co):
        """Triplet sequence t holds entry p of column c of block b at its position."""
        q = self.P(c, b) + p - self.start(b, c)
        e = vselect(t.d, q)
        return z3.And(q < t.n, e.f["r"] == ro + self.RO(b) + S(S(self.d["ri"], b), p), e.f["c"] == co + c, e.f["v"] == S(S(self.d["va"], b), p))

    def stored(self, b, c, p):
        return z3.And(b >= 0, b < self.B, c >= 0, c < self.C, p >= self.start(b, c), p < S(S(self.d["en"], b), c))


def trips(E, st):
    t = Seq(fresh("n0", I), Obj("trip", {"r": fresh("t.r", SM.AI), "c": fresh("t.c", SM.AI), "v": fresh("t.v", z3.ArraySort(I, R))}), "seq")
    return t


def seqs(cx, tlv):
    """The triplet sequence in the loop's generic state."""
    return cx.eng.read(cx.sh, tlv)


def assemble(ck, P, f):
    E = ck.eng(P, RealDom())
    SM.install(E)
    E.check_bounds = True
    st = State()
    t0 = trips(E, st)
    k = Stack(E, t0.n)
    ro, co = fresh("row_off", I), fresh("col_off", I)
    st.pc = tuple([t0.n >= 0] + k.facts)
    tlv = E.alloc(st, t0, "triplets")
    mats = E.alloc(st, k.mats, "mats")
    E.readonly = {mats.root}
    b, c, p, q = z3.Ints("b!q c!q p!q q!q")
    ri = S(S(k.d["ri"], b), p)

    def vis(ks):
        c_, b_ = ks[0], (ks[1] if len(ks) > 1 else None)
        v = c < c_
        if b_ is not None:
            v = z3.Or(v, z3.And(c == c_, b < b_))
        if len(ks) > 2:
            v = z3.Or(v, z3.And(c == c_, b == b_, p < k.start(b_, c_) + ks[2]))
        return z3.And(k.stored(b, c, p), v)

    def cands(cx):
        out = []
        ks = [cx.sh.ghost[g] for g in sorted(x for x in cx.sh.ghost if str(x).startswith("k:"))]
        t = seqs(cx, tlv)
        if cx.modified_root(tlv.root):
            out.append(("earlier triplets untouched", z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < t0.n), z3.And(*[S(t.d.f[x], q) == S(t0.d.f[x], q) for x in "rcv"])))))
            pos = [k.P(ks[0], 0), k.P(ks[0], ks[1]) if len(ks) > 1 else None, k.P(ks[0], ks[1]) + ks[2] if len(ks) > 2 else None][len(ks) - 1]
            out.append(("exactly the visited entries were appended", z3.And(t.n == pos, t.n >= t0.n)))
            out.append(("visited entries are in place", z3.ForAll([b, c, p], z3.Implies(vis(ks), k.entry(t, b, c, p, ro, co)), patterns=[z3.MultiPattern(S(S(k.d["ri"], b), p), k.start(b, c))])))
        for m in cx.mod:
            v = cx.leaf(cx.sh, m)
            if v.sort() == I and z3.is_const(v):
                out.append(("rows above the current block", v == k.RO(ks[-1])))
            if v.sort() == SM.AI and m[0] != tlv.root:
                out.append(("block row offsets", z3.ForAll([b], z3.Implies(z3.And(b >= 0, b < ks[-1]), z3.And(S(v, b) <= k.RO(b), S(v, b) >= k.RO(b))), patterns=[S(v, b)])))
        return out
    E.loop_cands = cands
    for s, _ in E.run_fn(st, f, None, [tlv, ro, co, mats]):
        t = E.read(s, tlv)
        E.oblige(s.assume(k.stored(b, c, p)), k.entry(t, b, c, p, ro, co), "every stored entry is at its one position", f["loc"], "post")
        E.oblige(s, t.n == k.P(k.C, 0), "no other triplet is appended", f["loc"], "post")
        E.oblige(s.assume(q >= 0, q < t0.n), z3.And(*[S(t.d.f[x], q) == S(t0.d.f[x], q) for x in "rcv"]), "earlier triplets are unchanged", f["loc"], "post")
        ck.nonvacuous("append_as_triplets", [x for x in s.pc if not z3.is_quantifier(x)])
    ck.take(E, "append_as_triplets")


def diagonal(ck, P, f):
    E = ck.eng(P, RealDom())
    SM.install(E)
    E.check_bounds = True
    st = State()
    t0 = trips(E, st)
    d = EM.vec_fresh(E, fresh("len", I), "diag")
    ro, co = fresh("row_off", I), fresh("col_off", I)
    st.pc = (t0.n >= 0, d.n >= 0)
    tlv, dlv = E.alloc(st, t0, "triplets"), E.alloc(st, d, "diag")
    E.readonly = {dlv.root}
    i, q = z3.Ints("i!q q!q")

    def done(t, k):
        e = vselect(t.d, t0.n + i)
        return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < k), z3.And(e.f["r"] == ro + i, e.f["c"] == co + i, e.f["v"] == EM.at(d, i))))

    def keep(t):
        return z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < t0.n), z3.And(*[S(t.d.f[x], q) == S(t0.d.f[x], q) for x in "rcv"])))

    def cands(cx):
        t = seqs(cx, tlv)
        return [("earlier triplets untouched", keep(t)), ("diagonal placed so far", done(t, cx.k)), ("one triplet per row", t.n == t0.n + cx.k)]
    E.loop_cands = cands
    for s, _ in E.run_fn(st, f, None, [tlv, ro, co, dlv]):
        t = E.read(s, tlv)
        E.oblige(s, t.n == t0.n + d.n, "one triplet per diagonal element", f["loc"], "post")
        E.oblige(s, done(t, d.n), "element i sits at the i-th diagonal position", f["loc"], "post")
        E.oblige(s, keep(t), "earlier triplets are unchanged", f["loc"], "post")
    ck.take(E, "append_diagonal_as_triplets")


def finite(ck, P, f):
    E = ck.eng(P, ExtDom())
    SM.install(E)
    E.check_bounds = True
    sv = "SparseVector" in P.tstr(f["params"][0]["t"])
    st = State()
    c, p = z3.Ints("c!q p!q")
    if sv:
        A = SM.spvec(E, "g")
        st.pc = (A.f["nnz"] >= 0, A.f["n"] >= 0)
        stored = lambda: z3.And(p >= 0, p < A.f["nnz"])
        vis = lambda ks: z3.And(stored(), ks[0] > 0) if len(ks) == 1 else z3.And(stored(), p < ks[1])
    else:
        A = SM.sparse(E, "A")
        st.pc = tuple(SM.wf(A))
        stored = lambda: visited(A, c, p, SM.outer(A))
        vis = lambda ks: visited(A, c, p, ks[0], S(A.f["st"], ks[0]) + ks[1] if len(ks) > 1 else None)
    el = vselect(A.f["va"], p)
    fin = el.f["k"] == FIN
    a = E.alloc(st, A, "A")
    E.readonly = {a.root}

    def cands(cx):
        ks = [cx.sh.ghost[g] for g in sorted(x for x in cx.sh.ghost if str(x).startswith("k:"))]
        out = [("visited entries are finite", z3.ForAll([c, p], z3.Implies(vis(ks), fin)))]
        for m in cx.mod:
            v = cx.leaf(cx.sh, m)
            if v.sort() == B:
                out.append(("flag means visited entries are finite", z3.Implies(v, z3.ForAll([c, p], z3.Implies(vis(ks), fin)))))
                out.append(("flag cleared only by a non-finite entry", z3.Implies(z3.Not(v), z3.Exists([c, p], z3.And(stored(), z3.Not(fin))))))
        return out
    E.loop_cands = cands
    w = z3.Exists([c, p], z3.And(stored(), z3.Not(fin)))
    n = 0
    for s, v in E.run_fn(st, f, None, [a]):
        v = E.as_bool(E.rv(s, v))
        n += 1
        E.oblige(s.assume(v, stored()), fin, "true only if every stored entry is finite", f["loc"], "post")
        E.oblige(s.assume(z3.Not(v)), w, "false only if some stored entry is not finite", f["loc"], "post")
    if not n:
        raise Unsupported("all_finite never returns")
    ck.take(E, "all_finite")


def prove(ck):
    P = ck.dump(SRC)
    jobs = []
    for f in P.find(r"^slp::append_as_triplets$"):
        jobs.append(("append_as_triplets", assemble, P, f))
    for f in P.find(r"^slp::append_diagonal_as_triplets$"):
        jobs.append(("append_diagonal_as_triplets", diagonal, P, f))
    for f in P.find(r"^slp::all_finite$"):
        jobs.append(("all_finite", finite, P, f))
    ck.par(jobs)
    ck.assume += ["index sums stay within int (offsets and matrix sizes are ints)", "Eigen's compressed-column iterator is modelled by its documented contract"]
