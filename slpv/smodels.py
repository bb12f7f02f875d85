"""Models (assumed contracts) of the Eigen sparse operations /repo uses.

A sparse matrix is Obj("sp", rows, cols, major, st, en, ri, va, ent):
  * entries of outer slice c are the positions p in [st[c], en[c]) with inner index ri[p] and value va[p];
  * ent[i][j] is the dense view (0 where nothing is stored).
A product A v (or A^T v) is the vector of inner sums; two products whose integrands
are equal at every (outer, inner) index are equal (congruence).
"""
import re
import z3
from .eng import *
from . import models as MD
from . import emodels as EM

AI = z3.ArraySort(I, I)
_i, _k = z3.Int("i!sp"), z3.Int("k!sp")


def sparse(eng, name="A", major="col", st=None):
    """Fresh sparse matrix and its structural facts."""
    el = eng.dom.leaf("e")
    va = lift(el, name + ".va")
    ent = tmap(lambda x: fresh(name + ".ent", z3.ArraySort(I, z3.ArraySort(I, x.sort()))), el)
    m = Obj("sp", {"rows": fresh(name + ".rows", I), "cols": fresh(name + ".cols", I), "st": fresh(name + ".st", AI), "en": fresh(name + ".en", AI),
                   "ri": fresh(name + ".ri", AI), "va": va, "ent": ent, "maj": z3.IntVal(0 if major == "col" else 1)})
    return m


def ismajor_col(m):
    v = m.f["maj"]
    if not z3.is_int_value(v):
        v = z3.simplify(v)
        if not z3.is_int_value(v):
            raise Unsupported("storage order of a matrix is not known")
    return v.as_long() == 0


def outer(m):
    return m.f["cols"] if ismajor_col(m) else m.f["rows"]


def inner(m):
    return m.f["rows"] if ismajor_col(m) else m.f["cols"]


def wf(m, link=False):
    """Structural well-formedness of a sparse matrix (what Eigen guarantees)."""
    c, p = fresh("c", I), fresh("p", I)
    S, N, T = m.f["st"], m.f["en"], m.f["ri"]
    inr = z3.And(c >= 0, c < outer(m))
    fs = [m.f["rows"] >= 0, m.f["cols"] >= 0,
          z3.ForAll([c], z3.Implies(inr, z3.And(z3.Select(S, c) >= 0, z3.Select(S, c) <= z3.Select(N, c)))),
          z3.ForAll([c, p], z3.Implies(z3.And(inr, p >= z3.Select(S, c), p < z3.Select(N, c)), z3.And(z3.Select(T, p) >= 0, z3.Select(T, p) < inner(m))))]
    return fs


def ent(m, i, j):
    return tmap(lambda a: z3.Select(z3.Select(a, i), j), m.f["ent"])


def with_ent(eng, rows, cols, fn, maj=0):
    """Matrix whose (i,j) entry is fn(i,j); storage layout unknown."""
    b = fn(_i, _k)
    m = sparse(eng, "S")
    return Obj("sp", dict(m.f, rows=rows, cols=cols, ent=tmap(lambda x: z3.Lambda([_i], z3.Lambda([_k], x)), b), maj=z3.IntVal(maj)))


class Prod:
    def __init__(self, n, m, f, arr):
        self.n, self.m, self.f, self.arr = n, m, f, arr


def prod(eng, st, n, m, f):
    """Vector of n sums over m inner indices of f(outer, inner)."""
    ps = eng.__dict__.setdefault("prods", [])
    a = fresh("prod", z3.ArraySort(I, R))
    o = z3.Int("o!p")
    j = z3.Int("j!p")
    body = z3.simplify(f(o, j))
    for p in ps:
        if p.n.eq(n) and p.m.eq(m) and p.f.eq(body):
            return Seq(n, p.arr, "vec")
    ps.append(Prod(n, m, body, a))
    return Seq(n, a, "vec")


def congruence(eng, pc, timeout=8000):
    out = []
    ps = getattr(eng, "prods", [])
    o, j = z3.Int("o!p"), z3.Int("j!p")
    for a in range(len(ps)):
        for b in range(a):
            x, y = ps[a], ps[b]
            g = z3.And(x.n == y.n, x.m == y.m, z3.Implies(z3.And(o >= 0, o < x.n, j >= 0, j < x.m), x.f == y.f))
            out += EM.ceq(eng, list(pc) + out, g, timeout, x.arr == y.arr)
    return out + EM.congruence(eng, list(pc) + out, timeout)


def triplet(eng, st, vals):
    r, c = eng.rv(st, vals[0]), eng.rv(st, vals[1])
    v = eng.rv(st, vals[2]) if len(vals) > 2 else eng.dom.const("0")
    return Obj("trip", {"r": r, "c": c, "v": EM.tofl(eng, v)})


def spvec(eng, name="sv"):
    """Sparse vector: nnz stored entries (index ix, value va), length n."""
    return Obj("spv", {"n": fresh(name + ".n", I), "nnz": fresh(name + ".nnz", I), "ix": fresh(name + ".ix", AI), "va": lift(eng.dom.leaf("e"), name + ".va")})


def dense_of(v):
    """Dense view of a sparse vector that carries one."""
    if isinstance(v, Obj) and v.cls == "spv" and "dv" in v.f:
        return EM.vec(v.f["n"], lambda i: vselect(v.f["dv"], i))
    return v


def is_sp(v):
    return isinstance(v, Obj) and v.cls == "sp"


def h_sparse(eng, st, fn, obj, vals, e):
    n = fn["n"]
    qn = fn["qn"]
    if obj is None and "InnerIterator" in qn and n == "InnerIterator":
        m = eng.rv(st, vals[0])
        k = eng.rv(st, vals[1]) if len(vals) > 1 else z3.IntVal(0)
        if not is_sp(m):
            if isinstance(m, Obj) and m.cls == "spv":
                return [(st, Obj("spit", {"m": m, "p": z3.IntVal(0), "end": m.f["nnz"], "k": z3.IntVal(0)}))]
            return None
        if eng.check_bounds:
            eng.oblige(st, z3.And(k >= 0, k < outer(m)), "outer index in range", kind="bounds")
        return [(st, Obj("spit", {"m": m, "p": z3.Select(m.f["st"], k), "end": z3.Select(m.f["en"], k), "k": k}))]
    args = ([obj] if obj is not None else []) + list(vals)
    if not args:
        if qn == "Eigen::SparseMatrix<double>::SparseMatrix":
            return [(st, with_ent(eng, z3.IntVal(0), z3.IntVal(0), lambda i, j: eng.dom.const("0")))]
        if n in ("SimplicialLDLT", "LDLT"):
            return [(st, new_ldlt(eng))]
        return None
    x0 = eng.rv(st, args[0])
    if isinstance(x0, Obj) and x0.cls == "spit":
        if n == "operator bool":
            return [(st, x0.f["p"] < x0.f["end"])]
        if n == "operator++":
            eng.write(st, args[0].fld("p"), x0.f["p"] + 1)
            return [(st, args[0])]
        m = x0.f["m"]
        if eng.check_bounds:
            eng.oblige(st, x0.f["p"] < x0.f["end"], "inner iterator is valid", kind="bounds")
        if m.cls == "spv":
            return [(st, vselect(m.f["ix"] if n == "index" else m.f["va"], x0.f["p"]))] if n in ("index", "row", "value") else None
        ri = z3.Select(m.f["ri"], x0.f["p"])
        col = ismajor_col(m)
        if n == "index" or n == ("row" if col else "col"):
            return [(st, ri)]
        if n == ("col" if col else "row") or n == "outer":
            return [(st, x0.f["k"])]
        if n == "value":
            return [(st, vselect(m.f["va"], x0.f["p"]))]
        return None
    if isinstance(x0, Obj) and x0.cls == "ldlt":
        return ldlt_op(eng, st, fn, args)
    if isinstance(x0, Obj) and x0.cls == "trip":
        return [(st, x0.f[{"row": "r", "col": "c", "value": "v"}[n]])] if n in ("row", "col", "value") else [(st, x0)] if n == "Triplet" else None
    if n == "Triplet" and obj is None:
        return [(st, triplet(eng, st, vals))]
    if isinstance(x0, Obj) and x0.cls == "spv":
        if n in ("rows", "size", "innerSize"): return [(st, x0.f["n"])]
        if n in ("cols", "outerSize"): return [(st, z3.IntVal(1))]
        if n == "nonZeros": return [(st, x0.f["nnz"])]
        if n == "coeffs": return [(st, Seq(x0.f["nnz"], x0.f["va"], "vec"))]
        if n == "SparseVector": return [(st, x0)]
        if n in ("derived", "const_cast_derived"): return [(st, args[0])]
    xs = [x0] + [eng.rv(st, a) for a in args[1:]]
    if n in ("SimplicialLDLT", "LDLT") and is_sp(x0):
        s = factor(eng, st, x0)
        return [(st, s)]
    if isinstance(x0, Obj) and x0.cls == "spT":
        m = x0.f["m"]
        if n == "rows": return [(st, m.f["cols"])]
        if n == "cols": return [(st, m.f["rows"])]
        if n == "operator*" and EM.is_vec(xs[1]):
            v = xs[1]
            if eng.check_bounds:
                eng.oblige(st, m.f["rows"] == v.n, "product shapes agree", kind="bounds")
            return [(st, prod(eng, st, m.f["cols"], m.f["rows"], lambda o, j: ent(m, j, o) * EM.at(v, j)))]
        if n in ("SparseMatrix", "Matrix"):
            return [(st, with_ent(eng, m.f["cols"], m.f["rows"], lambda i, j: ent(m, j, i)))]
        return None
    if n == "SparseMatrix" or (n == "Matrix" and is_sp(x0)):
        if is_sp(x0):
            return [(st, x0)]
        if EM.is_vec(x0):
            z = eng.dom.const("0")
            return [(st, with_ent(eng, x0.n, x0.n, lambda i, j: ite(i == j, EM.at(x0, i), z)))]
        if is_leaf(x0) and x0.sort() == I:
            if eng.check_bounds:
                eng.oblige(st, z3.And(x0 >= 0, xs[1] >= 0), "matrix sizes are nonnegative", kind="bounds")
            return [(st, with_ent(eng, x0, xs[1], lambda i, j: eng.dom.const("0")))]
        return None
    if n == "toDenseMatrix" and EM.is_vec(x0):
        z = eng.dom.const("0")
        return [(st, with_ent(eng, x0.n, x0.n, lambda i, j: ite(i == j, EM.at(x0, i), z)))]
    if EM.is_vec(x0):
        if n == "operator=" and dense_of(xs[1]) is not xs[1]:
            b = dense_of(xs[1])
            if eng.check_bounds:
                eng.oblige(st, b.n == x0.n, "assigned lengths agree", kind="bounds")
            eng.write(st, args[0], b)
            return [(st, args[0])]
        if n == "operator*" and len(xs) == 2 and is_sp(xs[1]):      # diagonal * matrix
            m = xs[1]
            if eng.check_bounds:
                eng.oblige(st, x0.n == m.f["rows"], "product shapes agree", kind="bounds")
            return [(st, with_ent(eng, m.f["rows"], m.f["cols"], lambda i, j: eng.arith(st, "*", EM.at(x0, i), ent(m, i, j), None)))]
        if n == "toDense":
            return [(st, x0)]
        return None
    if is_leaf(x0) and len(xs) == 2 and is_sp(xs[1]) and n == "operator*":
        m = xs[1]
        x0 = EM.tofl(eng, x0)
        return [(st, with_ent(eng, m.f["rows"], m.f["cols"], lambda i, j: eng.arith(st, "*", x0, ent(m, i, j), None)))]
    if not is_sp(x0):
        return None
    m = x0
    if n == "rows": return [(st, m.f["rows"])]
    if n == "cols": return [(st, m.f["cols"])]
    if n == "outerSize": return [(st, outer(m))]
    if n == "innerSize": return [(st, inner(m))]
    if n == "nonZeros":
        t = fresh("nnz", I)
        return [(st.assume(t >= 0), t)]
    if n == "transpose": return [(st, Obj("spT", {"m": m}))]
    if n in ("eval", "derived", "const_cast_derived", "toDense", "prune", "makeCompressed"): return [(st, args[0])]
    if n in ("operator+", "operator-") and len(xs) == 2 and is_sp(xs[1]):
        b = xs[1]
        if eng.check_bounds:
            eng.oblige(st, z3.And(m.f["rows"] == b.f["rows"], m.f["cols"] == b.f["cols"]), "summand shapes agree", kind="bounds")
        return [(st, with_ent(eng, m.f["rows"], m.f["cols"], lambda i, j: eng.arith(st, n[-1], ent(m, i, j), ent(b, i, j), None)))]
    if n == "operator*":
        b = dense_of(xs[1])
        if EM.is_vec(b):
            if eng.check_bounds:
                eng.oblige(st, m.f["cols"] == b.n, "product shapes agree", kind="bounds")
            return [(st, prod(eng, st, m.f["rows"], m.f["cols"], lambda o, j: ent(m, o, j) * EM.at(b, j)))]
        if isinstance(b, Obj) and b.cls == "spT":
            b = b.f["m"]
            if eng.check_bounds:
                eng.oblige(st, m.f["cols"] == b.f["cols"], "product shapes agree", kind="bounds")
            a = fresh("mm", z3.ArraySort(I, z3.ArraySort(I, R)))
            w = with_ent(eng, m.f["rows"], b.f["rows"], lambda i, j: z3.Select(z3.Select(a, i), j))
            if same(m, b):
                eng.__dict__.setdefault("gram", {})[w.f["ri"].get_id()] = m
                eng.__dict__.setdefault("gram_keep", []).append(w)
            return [(st, w)]
        if is_leaf(b):
            b = EM.tofl(eng, b)
            return [(st, with_ent(eng, m.f["rows"], m.f["cols"], lambda i, j: eng.arith(st, "*", ent(m, i, j), b, None)))]
    if n == "operator=" and is_sp(xs[1]):
        eng.write(st, args[0], xs[1])
        return [(st, args[0])]
    if n in ("setFromSortedTriplets", "setFromTriplets") and getattr(eng, "triplet_hook", None):
        return eng.triplet_hook(eng, st, n, args)
    if n == "innerVector" and getattr(eng, "innervec_hook", None):
        return eng.innervec_hook(eng, st, m, xs[1])
    return None


def new_ldlt(eng):
    m = with_ent(eng, z3.IntVal(0), z3.IntVal(0), lambda i, j: eng.dom.const("0"))
    return Obj("ldlt", {"m": m, "info": fresh("info", I), "D": Seq(z3.IntVal(0), lift(eng.dom.leaf("D"), "D"), "vec"), "mark": z3.IntVal(0)})


def factor(eng, st, m):
    """Outcome of a factorization: any status, any diagonal of the right length."""
    d = Seq(m.f["rows"], lift(eng.dom.leaf("D"), "D"), "vec")
    return Obj("ldlt", {"m": m, "info": fresh("info", I), "D": d, "mark": fresh("fid", I)})


def ldlt_op(eng, st, fn, args):
    n = fn["n"]
    o = eng.rv(st, args[0])
    if n in ("factorize", "compute"):
        m = eng.rv(st, args[1])
        if not is_sp(m):
            raise Unsupported("factorize of %r" % (m,))
        eng.write(st, args[0], factor(eng, st, m))
        return [(st, args[0])]
    if n == "analyzePattern":
        return [(st, VOID)]
    if n == "info":
        return [(st, o.f["info"])]
    if n == "vectorD":
        return [(st, o.f["D"])]
    if n == "solve":
        b = eng.rv(st, args[1])
        if eng.check_bounds:
            eng.oblige(st, o.f["m"].f["rows"] == b.n, "right-hand side length agrees with the system", kind="bounds")
        return [(st, EM.vec_fresh(eng, o.f["m"].f["cols"], "sol"))]
    return None


def fresh_sp(eng, ty, name):
    s = ty["s"]
    if re.match(r"Eigen::SparseMatrix<double(, 0)?(, int)?>", s):
        return sparse(eng, name)
    if re.match(r"Eigen::(SimplicialLDLT|LDLT)<", s):
        return new_ldlt(eng)
    return None


def install(eng):
    EM.install(eng)
    eng.__dict__.setdefault("make_hooks", []).append(
        lambda E, st, ty, vals, exprs: [(st, triplet(E, st, vals))] if ty["s"].startswith("Eigen::Triplet<") and len(vals) >= 2 else None)
    eng.__dict__.setdefault("eigen_hooks", []).insert(0, h_sparse)
    eng.__dict__.setdefault("fresh_hooks", []).append(fresh_sp)
    eng.__dict__.setdefault("default_hooks", []).append(
        lambda E, st, ty: with_ent(E, z3.IntVal(0), z3.IntVal(0), lambda i, j: E.dom.const("0")) if re.match(r"Eigen::SparseMatrix<", ty["s"]) else new_ldlt(E) if re.match(r"Eigen::(SimplicialLDLT|LDLT)<", ty["s"]) else None)
