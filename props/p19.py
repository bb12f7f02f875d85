"""P19: detected variable bounds are the tightest ones the constraints imply."""
import z3
from slpv.eng import *
from slpv import emodels as EM, smodels as SM, models as MD

HARNESS = "p19.cpp"
HSRC = ("autodiff/jacobian.cpp", "autodiff/variable_matrix.cpp")
MIN_OBLIGATIONS = 30
SRC = """
#include <Eigen/SparseCore>
#include <sleipnir/optimization/solver/util/bounds.hpp>
using M = Eigen::SparseMatrix<double, Eigen::RowMajor>;
template slp::Bounds<double> slp::get_bounds<double>(std::span<slp::Variable<double>>, std::span<slp::Variable<double>>, const M&);
"""
AR, AI = z3.ArraySort(I, R), z3.ArraySort(I, I)
# row k of the Jacobian: stored entries
NNZ, RIX, RVA = z3.Function("nnz", I, I), z3.Function("rix", I, AI), z3.Function("rva", I, AR)
TYPE = z3.Function("ctype", I, I)          # expression class of constraint k
UNI = z3.Function("uni", I, B)             # row k has exactly one nonzero value ...
POS, POS2 = z3.Function("pos", I, I), z3.Function("pos2", I, I)   # ... stored at POS(k); otherwise two of them
CONST = z3.Function("cst", I, R)           # value of the constraint with its single variable at zero
ISB, JV, CF, DB = z3.Function("isb", I, B), z3.Function("jv", I, I), z3.Function("cf", I, R), z3.Function("db", I, R)
LINEAR = 2
QUO = z3.Function("quo", R, R, R)          # quotient by a nonzero number (sign pulled out)


def quo(a, b):
    sg = 1
    a, b = z3.simplify(a), z3.simplify(b)
    for x in (0, 1):
        t = (a, b)[x]
        if z3.is_app_of(t, z3.Z3_OP_UMINUS) or z3.is_mul(t) and t.num_args() == 2 and z3.is_rational_value(t.arg(0)) and t.arg(0).as_fraction() == -1:
            sg = -sg
            t = t.arg(t.num_args() - 1)
            a, b = (t, b) if x == 0 else (a, t)
    return QUO(a, b) if sg == 1 else -QUO(a, b)


def axioms(m, n):
    """Definitions of the specification functions."""
    k, q = fresh("k", I), fresh("q", I)
    inr = z3.And(k >= 0, k < m)
    va = lambda p: z3.Select(RVA(k), p)
    return [
        z3.ForAll([k], z3.Implies(inr, NNZ(k) >= 0), patterns=[NNZ(k)]),
        z3.ForAll([k, q], z3.Implies(z3.And(inr, q >= 0, q < NNZ(k)), z3.And(z3.Select(RIX(k), q) >= 0, z3.Select(RIX(k), q) < n)), patterns=[z3.Select(RIX(k), q)]),
        z3.ForAll([k], z3.Implies(z3.And(inr, UNI(k)), z3.And(POS(k) >= 0, POS(k) < NNZ(k), va(POS(k)) != 0)), patterns=[UNI(k)]),
        z3.ForAll([k, q], z3.Implies(z3.And(inr, UNI(k), q >= 0, q < NNZ(k), q != POS(k)), va(q) == 0), patterns=[z3.MultiPattern(UNI(k), va(q))]),
        z3.ForAll([k, q], z3.Implies(z3.And(inr, z3.Not(UNI(k)), q >= 0, q < NNZ(k), va(q) != 0), z3.And(POS(k) >= 0, POS(k) < POS2(k), POS2(k) < NNZ(k), va(POS(k)) != 0, va(POS2(k)) != 0)), patterns=[z3.MultiPattern(UNI(k), va(q))]),
        z3.ForAll([k], ISB(k) == z3.And(TYPE(k) == LINEAR, UNI(k)), patterns=[ISB(k)]),
        z3.ForAll([k], z3.Implies(z3.And(inr, ISB(k)), z3.And(JV(k) == z3.Select(RIX(k), POS(k)), JV(k) >= 0, JV(k) < n, CF(k) == va(POS(k)), CF(k) != 0, DB(k) == -QUO(CONST(k), CF(k)))), patterns=[ISB(k)]),
    ]


def fields(o, path=()):
    return list(leaves(o))


def ext(o):
    return (o.f["k"], o.f["v"]) if isinstance(o, Obj) else (z3.IntVal(0), o)


def side_facts(d, idx, n, kk, upper):
    """Invariant facts for one side; d = (kind array, value array), idx the bookkeeping array (or None)."""
    K, V = d
    j, q = fresh("j", I), fresh("q", I)
    inj = z3.And(j >= 0, j < n)
    Kj, Vj = z3.Select(K, j), z3.Select(V, j)
    Kq, Vq = z3.Select(K, JV(q)), z3.Select(V, JV(q))
    inf = 1 if upper else 2
    sg = (lambda q: CF(q) < 0) if upper else (lambda q: CF(q) > 0)
    tight = (lambda a, b: a <= b) if upper else (lambda a, b: a >= b)
    done = z3.And(q >= 0, q < kk, ISB(q), sg(q))
    out = [("bound is finite or absent", z3.ForAll([j], z3.Implies(inj, z3.Or(Kj == 0, Kj == inf)), patterns=[Kj])),
           ("bound covers visited constraints", z3.ForAll([q], z3.Implies(done, z3.And(Kq == 0, tight(Vq, DB(q)))), patterns=[ISB(q)]))]
    if idx is not None:
        ij = z3.Select(idx, j)
        w = z3.And(ij >= 0, ij < kk, ISB(ij), JV(ij) == j, sg(ij), DB(ij) == Vj)
        out.append(("finite bound comes from the recorded constraint", z3.ForAll([j], z3.Implies(z3.And(inj, Kj == 0), w), patterns=[Kj])))
        out.append(("finite bound comes from the recorded constraint (by index)", z3.ForAll([j], z3.Implies(z3.And(inj, Kj == 0), w), patterns=[ij])))
    return out


def prove_bounds(ck, P, f):
    E = ck.eng(P, MixDom())
    SM.install(E)
    E.check_bounds = True
    E.quo = quo
    st = State()
    m, n = fresh("m", I), fresh("n", I)
    pair = lambda: Obj("b", {"lk": fresh("lk", AI), "lv": fresh("lv", AR), "uk": fresh("uk", AI), "uv": fresh("uv", AR)})
    M = pair()      # arbitrary bounds implied by every single-variable constraint: lower <= M.l, upper >= M.u
    q, j = fresh("q", I), fresh("j", I)
    inq = z3.And(q >= 0, q < m, ISB(q))
    st.pc = tuple([m >= 0, n >= 0] + axioms(m, n) + [
        z3.ForAll([q], z3.Implies(z3.And(inq, CF(q) > 0), z3.And(z3.Select(M.f["lk"], JV(q)) == 0, z3.Select(M.f["lv"], JV(q)) >= DB(q))), patterns=[ISB(q)]),
        z3.ForAll([q], z3.Implies(z3.And(inq, CF(q) < 0), z3.And(z3.Select(M.f["uk"], JV(q)) == 0, z3.Select(M.f["uv"], JV(q)) <= DB(q))), patterns=[ISB(q)])])
    ident = fresh("ident", AI)
    st = st.assume(z3.ForAll([q], z3.Select(ident, q) == q, patterns=[z3.Select(ident, q)]))
    Vals = E.alloc(st, Seq(n, fresh("Vals", AR), "vec"), "Vals")
    v0 = E.read(st, Vals)
    dv = E.alloc(st, Seq(n, Obj("dvar", {"id": ident}), "seq"), "dv")
    cv = E.alloc(st, Seq(m, Obj("cvar", {"id": ident}), "seq"), "cv")
    A = Obj("sp", {"rows": m, "cols": n, "st": fresh("st", AI), "en": fresh("en", AI), "ri": fresh("ri", AI), "va": fresh("va", AR), "ent": fresh("ent", z3.ArraySort(I, AR)), "maj": z3.IntVal(1)})
    s0 = SM.sparse(E, "A")
    A = Obj("sp", dict(s0.f, rows=m, cols=n))
    a = E.alloc(st, A, "A")
    E.readonly = {dv.root, cv.root, a.root}
    E.innervec_hook = lambda E, st, mm, k: (E.oblige(st, z3.And(k >= 0, k < m), "row index in range", kind="bounds"),
                                            [(st, Obj("spv", {"n": n, "nnz": NNZ(k), "ix": RIX(k), "va": RVA(k)}))])[1]

    def dims(E, st, fn, obj, vals, e):
        o = E.rv(st, obj if obj is not None else vals[0])
        if isinstance(o, Obj) and o.cls == "sp":
            if fn["n"] in ("innerSize", "cols"): return [(st, n)]
            if fn["n"] in ("outerSize", "rows"): return [(st, m)]
        return None
    E.eigen_hooks.insert(0, lambda E, st, fn, obj, vals, e: dims(E, st, fn, obj, vals, e) if fn["n"] in ("innerSize", "outerSize", "rows", "cols") and (obj is not None or vals) else None)

    def var_op(E, st, fn, obj, vals, e):
        o = E.rv(st, obj)
        k = o.f["id"]
        if fn["n"] == "type":
            if o.cls != "cvar":
                raise Unsupported("type of a decision variable")
            return [(st, TYPE(k))]
        cur = E.read(st, Vals)
        if o.cls == "dvar":
            if fn["n"] == "value":
                return [(st, z3.Select(cur.d, k))]
            E.write(st, Vals, Seq(cur.n, z3.Store(cur.d, k, E.rv(st, vals[0])), cur.cls))
            return [(st, VOID)]
        if fn["n"] != "value":
            raise Unsupported("write to a constraint variable")
        c = fresh("cval", R)
        x = z3.Select(cur.d, JV(k))
        return [(st.assume(z3.Implies(z3.And(ISB(k), x == 0), c == CONST(k))), c)]
    E.contracts.append((lambda fn: fn["n"] in ("value", "set_value", "type") and "Variable<double>" in fn["qn"], var_op))

    def cands(cx):
        out = []
        kk = cx.sh.ghost.get("k:0")
        if kk is None:
            return out
        by = {}
        for mm in cx.mod:
            by.setdefault(mm[0] if isinstance(mm, tuple) else mm.root, []).append(mm)
        for mm in cx.mod:
            v = cx.leaf(cx.sh, mm)
            if is_leaf(v) and v.sort() == AR and mm[0] == Vals.root:
                out.append(("values of variables restored", v == v0.d))
            if is_leaf(v) and v.sort() == z3.ArraySort(I, B):
                out.append(("mask of visited constraints", z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < kk), z3.And(z3.Implies(z3.Select(v, q), ISB(q)), z3.Implies(ISB(q), z3.Select(v, q)))), patterns=[z3.Select(v, q), ISB(q)])))
                out.append(("mask of unvisited constraints", z3.ForAll([q], z3.Implies(z3.And(q >= kk, q < m), z3.Not(z3.Select(v, q))), patterns=[z3.Select(v, q)])))
        k1 = cx.sh.ghost.get("k:1")
        if k1 is not None:
            out.append(("scan has not passed the nonzero entry", k1 <= POS(kk)))
        P2 = [mm for mm in cx.mod]
        leafd = lambda mm: cx.leaf(cx.sh, mm)
        sel = lambda *names: [leafd(mm) for mm in P2 if all(x in [str(p) for p in mm[1]] for x in names) and leafd(mm).sort() in (AI, AR)]
        ints = [(mm, leafd(mm)) for mm in P2 if leafd(mm).sort() == AI]
        bnds = {}
        for mm in P2:
            ps = [str(p) for p in mm[1]]
            if ps[-1:] in (["k"], ["v"]) and ("first" in ps or "second" in ps):
                bnds.setdefault(mm[0], {})[("u" if "second" in ps else "l") + ps[-1]] = leafd(mm)
        roots = {mm[0]: mm for mm in P2}
        idxs, confl = {}, {}
        for mm, v in ints:
            ps = [str(p) for p in mm[1]]
            if ps[-1:] in (["first"], ["second"]):
                idxs.setdefault(mm[0], {})[ps[-1]] = v
        for mm in P2:
            v = leafd(mm)
            if v.sort() == I and [str(x) for x in mm[1]][-1:] == ["#n"]:
                confl[mm[0]] = v
        for b in bnds.values():
            if len(b) != 4:
                continue
            for ix in [None] + [v for r, v in idxs.items() if r not in confl]:
                out += [("lower " + a_, b_) for a_, b_ in side_facts((b["lk"], b["lv"]), ix and ix.get("first"), n, kk, False)]
                out += [("upper " + a_, b_) for a_, b_ in side_facts((b["uk"], b["uv"]), ix and ix.get("second"), n, kk, True)]
            Lk, Lv, Uk, Uv = [z3.Select(b[x], j) for x in ("lk", "lv", "uk", "uv")]
            inj = z3.And(j >= 0, j < n)
            out.append(("lower bound is implied", z3.ForAll([j], z3.Implies(z3.And(inj, Lk == 0), z3.And(z3.Select(M.f["lk"], j) == 0, Lv <= z3.Select(M.f["lv"], j))), patterns=[Lk])))
            out.append(("upper bound is implied", z3.ForAll([j], z3.Implies(z3.And(inj, Uk == 0), z3.And(z3.Select(M.f["uk"], j) == 0, Uv >= z3.Select(M.f["uv"], j))), patterns=[Uk])))
            for cn in confl.values():
                out.append(("no conflict recorded means no crossing", z3.ForAll([j], z3.Implies(z3.And(inj, cn == 0, Lk == 0, Uk == 0), Lv <= Uv), patterns=[Lk, Uk])))
        for r, ix in idxs.items():
            if r in confl and len(ix) == 2:
                out.append(("conflict list length", confl[r] >= 0))
                pj, uj = z3.Select(ix["first"], j), z3.Select(ix["second"], j)
                parts = [("lower is a bound", z3.And(pj >= 0, pj < kk, ISB(pj), CF(pj) > 0)), ("upper is a bound", z3.And(uj >= 0, uj < kk, ISB(uj), CF(uj) < 0)),
                         ("one variable", JV(pj) == JV(uj)), ("crossing", DB(pj) > DB(uj))]
                for nm, g in parts:
                    out.append(("recorded conflicts: " + nm, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < confl[r]), g), patterns=[pj, uj])))
        return out

    def conflict(p, u, kk):
        return z3.And(p >= 0, p < kk, u >= 0, u < kk, ISB(p), ISB(u), JV(p) == JV(u), CF(p) > 0, CF(u) < 0, DB(p) > DB(u))
    E.loop_cands = cands
    sp = lambda lv, nn: Obj("span", {"it": Iter(lv, z3.IntVal(0)), "n": nn})
    for s, v in E.run_fn(st, f, None, [sp(dv, n), sp(cv, m), a]):
        v = E.rv(s, v)
        mask, bounds, confl = v.f["bound_constraint_mask"], v.f["bounds"], v.f["conflicting_bound_indices"]
        E.oblige(s, E.read(s, Vals).d == v0.d, "values of all variables are unchanged", f["loc"], "post")
        E.oblige(s, z3.And(mask.n == m, bounds.n == n), "one mask entry per constraint, one bound pair per variable", f["loc"], "post")
        k = fresh("k", I)
        t = s.assume(k >= 0, k < m, z3.Or(ISB(k), z3.Not(ISB(k))))
        mk = z3.Select(mask.d, k)
        E.oblige(t, z3.Implies(ISB(k), mk), "single-variable affine constraint is marked as a bound", f["loc"], "post")
        E.oblige(t, z3.Implies(mk, ISB(k)), "only single-variable affine constraints are marked as bounds", f["loc"], "post")
        lo, up = ext(vselect(bounds.d, JV(k)).f["first"]), ext(vselect(bounds.d, JV(k)).f["second"])
        E.oblige(t, z3.Implies(z3.And(ISB(k), CF(k) > 0), z3.And(lo[0] == 0, lo[1] >= DB(k))), "lower bound is implied by no weaker constraint", f["loc"], "post")
        E.oblige(t, z3.Implies(z3.And(ISB(k), CF(k) < 0), z3.And(up[0] == 0, up[1] <= DB(k))), "upper bound is implied by no weaker constraint", f["loc"], "post")
        jj = fresh("jj", I)
        t = s.assume(jj >= 0, jj < n)
        lo, up = ext(vselect(bounds.d, jj).f["first"]), ext(vselect(bounds.d, jj).f["second"])
        E.oblige(t, z3.Or(lo[0] == 2, z3.And(lo[0] == 0, z3.Select(M.f["lk"], jj) == 0, lo[1] <= z3.Select(M.f["lv"], jj))), "lower bound is the tightest (infinite when there is none)", f["loc"], "post")
        E.oblige(t, z3.Or(up[0] == 1, z3.And(up[0] == 0, z3.Select(M.f["uk"], jj) == 0, up[1] >= z3.Select(M.f["uv"], jj))), "upper bound is the tightest (infinite when there is none)", f["loc"], "post")
        E.oblige(t.assume(confl.n == 0), z3.Not(z3.And(lo[0] == 0, up[0] == 0, lo[1] > up[1])), "crossing bounds are reported as a conflict", f["loc"], "post")
        c = fresh("c", I)
        pc = vselect(confl.d, c)
        E.oblige(s.assume(c >= 0, c < confl.n), conflict(pc.f["first"], pc.f["second"], m), "every reported pair is a lower and an upper bound of one variable that cross", f["loc"], "post")
        ck.nonvacuous("get_bounds", [x for x in s.pc if not z3.is_quantifier(x)])
    # with c(x) = a x + b and the detected bound d = -(b/a): the constraint holds exactly on its side of d
    x, aa, bb, q_ = z3.Reals("x a b q")
    h = State()
    h.pc = (aa != 0, q_ * aa == bb)     # q = b/a
    E.oblige(h, aa * -q_ == -bb, "the detected bound is the root of the constraint", f["loc"], "lemma")
    h.pc = (aa != 0, aa * -q_ == -bb)
    E.oblige(h, z3.And(z3.Implies(aa > 0, (aa * x + bb >= 0) == (x >= -q_)), z3.Implies(aa < 0, (aa * x + bb >= 0) == (x <= -q_))), "a constraint holds exactly on its side of the detected bound", f["loc"], "lemma")
    ck.take(E, "get_bounds")


def prove(ck):
    P = ck.dump(SRC)
    ck.par([("get_bounds", prove_bounds, P, f) for f in P.find(r"^slp::get_bounds$")])
    ck.assume += ["a LINEAR-class constraint with one nonzero derivative has the value a*x+b in that variable (P05, P08)",
                  "constraint values and derivatives at the starting point are finite; floating-point arithmetic treated as exact reals"]
