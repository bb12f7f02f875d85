"""Models (assumed contracts) of the dense Eigen vector operations /repo uses.

A dense vector is Seq(n, array).  Elementwise operations are defined pointwise for
every index; reductions are uninterpreted terms with congruence (two reductions of
pointwise-equal vectors are equal) plus the listed axioms.
"""
import re
import z3
from .eng import *
from . import models as MD

_j = z3.Int("j!e")


def vec(n, fn, sort=None):
    """Vector whose i-th element is fn(i)."""
    b = fn(_j)
    return Seq(n, tmap(lambda x: z3.Lambda([_j], x), b), "vec")


def vec_fresh(eng, n, name="v"):
    return Seq(n, lift(eng.dom.leaf(name), name), "vec")


def at(v, i):
    return vselect(v.d, i)


class Red:
    def __init__(self, kind, n, arr, term):
        self.kind, self.n, self.arr, self.term = kind, n, arr, term


def reduce(eng, st, kind, v):
    """Uninterpreted reduction of vector v; returns (st, term)."""
    reds = eng.__dict__.setdefault("reds", [])
    for r in reds:
        if r.kind == kind and r.n.eq(v.n) and r.arr.eq(v.d):
            return st, r.term
    t = fresh("red_" + kind, R)
    reds.append(Red(kind, v.n, v.d, t))
    ax = []
    q = fresh("q", I)
    if kind in ("sqnorm", "norm", "l1", "linf"):
        ax.append(t >= 0)
        ax.append(z3.Implies(v.n == 0, t == 0))
    if kind == "linf":
        ax.append(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < v.n), z3.And(select(v.d, q) <= t, -select(v.d, q) <= t))))
        w = fresh("w", I)
        ax.append(z3.Implies(v.n > 0, z3.And(w >= 0, w < v.n, z3.Or(select(v.d, w) == t, -select(v.d, w) == t))))
    if kind in ("l1", "norm", "sqnorm"):
        # zero exactly when all components vanish
        w = fresh("w", I)
        ax.append(z3.Implies(t == 0, z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < v.n), select(v.d, q) == 0))))
        ax.append(z3.Implies(t > 0, z3.And(w >= 0, w < v.n, select(v.d, w) != 0)))
    if kind == "max":
        ax.append(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < v.n), select(v.d, q) <= t)))
        w = fresh("w", I)
        ax.append(z3.Implies(v.n > 0, z3.And(w >= 0, w < v.n, select(v.d, w) == t)))
    if kind == "min":
        ax.append(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < v.n), select(v.d, q) >= t)))
        w = fresh("w", I)
        ax.append(z3.Implies(v.n > 0, z3.And(w >= 0, w < v.n, select(v.d, w) == t)))
    if kind == "sum":
        ax.append(z3.Implies(v.n == 0, t == 0))
    # norm relations between reductions of the same vector
    for r in reds:
        if r.term is not t and r.n.eq(v.n) and r.arr.eq(v.d):
            if {r.kind, kind} == {"norm", "sqnorm"}:
                a, b = (r.term, t) if r.kind == "norm" else (t, r.term)
                ax.append(a * a == b)
    return st.assume(*ax), t


def cong(eng, pc, g, timeout):
    c = z3.simplify(g, som=True)
    if z3.is_true(c):
        return True
    if eng.prove_ground(pc, c, 400 if getattr(eng, 'fast_cong', False) else 1500):
        return True
    return not getattr(eng, "fast_cong", False) and eng.prove(pc, c, timeout)


def ceq(eng, pc, g, timeout, eq):
    """[eq] when the congruence premise g holds, possibly under one of the caller's case hypotheses."""
    if cong(eng, pc, g, timeout):
        return [eq]
    out = []
    for h in getattr(eng, "cong_hyps", []):
        c = z3.simplify(g, som=True)
        if eng.prove_ground(pc + [h], c, 300):
            out.append(z3.Implies(h, eq))
    return out


def congruence(eng, pc, timeout=8000):
    """Equalities between reductions whose arguments are provably pointwise equal."""
    out = []
    reds = getattr(eng, "reds", [])
    q = fresh("q", I)
    for a in range(len(reds)):
        for b in range(a):
            x, y = reds[a], reds[b]
            if x.kind != y.kind:
                continue
            g = z3.And(x.n == y.n, z3.Implies(z3.And(q >= 0, q < x.n), select(x.arr, q) == select(y.arr, q)))
            out += ceq(eng, list(pc) + out, g, timeout, x.term == y.term)
    return out


def is_vec(v):
    return isinstance(v, Seq)


def lift2(eng, st, op, a, b):
    """Elementwise a op b with scalar broadcasting."""
    if is_vec(a) and is_vec(b):
        return vec(a.n, lambda i: eng.arith(st, op, at(a, i), at(b, i), None)) if op in "+-*/" else None
    if is_vec(a):
        return vec(a.n, lambda i: eng.arith(st, op, at(a, i), b, None))
    return vec(b.n, lambda i: eng.arith(st, op, a, at(b, i), None))


def tofl(eng, v):
    if is_leaf(v) and v.sort() == I:
        return eng.dom.of_int(v)
    return v


SAME = {"array", "matrix", "derived", "eval", "noalias", "transpose", "const_cast_derived", "reshaped", "nestedExpression", "asDiagonal"}
CMP = {"operator<": "<", "operator<=": "<=", "operator>": ">", "operator>=": ">=", "operator==": "==", "operator!=": "!="}


def h_eigen(eng, st, fn, obj, vals, e):
    for h in getattr(eng, "eigen_hooks", []):
        r = h(eng, st, fn, obj, vals, e)
        if r is not None:
            return r
    n = fn["n"]
    if obj is None and "cls" in fn and not fn.get("static") and n in ("Matrix", "Array", "Map", "Ref", "Block", "VectorBlock"):
        if not vals:
            return [(st, Seq(z3.IntVal(0), lift(eng.dom.leaf("e")), "vec"))]
        v = eng.rv(st, vals[0])
        if is_vec(v):
            return [(st, v)]
        if is_leaf(v) and v.sort() == I and len(vals) == 1:
            ty = eng.prog.ty(fn["cls"])
            sc = eng.prog.ty(ty["targs"][0]["t"])
            el = fresh("e", B) if sc["k"] == "bool" else eng.dom.leaf("e") if sc["k"] == "float" else eng.fresh_of(ty["targs"][0]["t"])
            return [(st, Seq(v, lift(el, "unset"), "vec"))]
        raise Unsupported("constructor of %s" % fn["qn"])
    if obj is None and (fn.get("static") or n in ("Zero", "Ones", "Constant")):
        xs = MD.rvs(eng, st, vals)
        if n == "Zero":
            return [(st, vec(xs[0], lambda i: eng.dom.const("0")))]
        if n == "Ones":
            return [(st, vec(xs[0], lambda i: eng.dom.const("1")))]
        if n == "Constant":
            return [(st, vec(xs[0], lambda i: tofl(eng, xs[1])))]
        raise Unsupported(fn["qn"])
    args = ([obj] if obj is not None else []) + list(vals)
    if n in ("begin", "cbegin", "end", "cend") and is_vec(eng.rv(st, args[0])):
        return [(st, MD.mk_iter(eng, st, args[0], z3.IntVal(0) if "begin" in n else eng.rv(st, args[0]).n))]
    if args and isinstance(eng.rv(st, args[0]), Iter):
        return MD.h_iter(eng, st, fn, obj, vals, e)
    xs = [tofl(eng, x) if i else x for i, x in enumerate(MD.rvs(eng, st, args))]
    a = xs[0]
    if n in SAME:
        return [(st, args[0])]
    if n in ("rows", "size"):
        return [(st, a.n)]
    if n in ("cols",):
        return [(st, z3.IntVal(1))]
    if n in ("operator()", "operator[]", "coeff", "coeffRef"):
        i = eng.rv(st, args[1])
        if eng.check_bounds:
            eng.oblige(st, z3.And(i >= 0, i < a.n), "vector index in range", kind="bounds")
        return [(st, MD.elem_lv(eng, st, args[0], i))]
    if n in ("cwiseProduct", "cwiseQuotient"):
        return [(st, lift2(eng, st, "*" if n == "cwiseProduct" else "/", a, xs[1]))]
    if n in ("cwiseMin", "min", "cwiseMax", "max"):
        b = xs[1]
        lt = (lambda x, y: eng.compare(st, "<", x, y))
        bi = (lambda i: at(b, i)) if is_vec(b) else (lambda i: b)
        mn = n in ("cwiseMin", "min")
        return [(st, vec(a.n, lambda i: ite(lt(bi(i), at(a, i)), bi(i), at(a, i)) if mn else ite(lt(at(a, i), bi(i)), bi(i), at(a, i))))]
    if n in ("cwiseAbs", "abs"):
        return [(st, vec(a.n, lambda i: eng.dom.abs(at(a, i))))]
    if n in ("cwiseInverse", "inverse"):
        return [(st, vec(a.n, lambda i: eng.arith(st, "/", eng.dom.const("1"), at(a, i), None)))]
    if n in ("cwiseSquare", "square", "cwiseAbs2", "abs2"):
        return [(st, vec(a.n, lambda i: eng.arith(st, "*", at(a, i), at(a, i), None)))]
    if n in ("operator+", "operator-", "operator*", "operator/"):
        op = n[-1]
        if len(xs) == 1:
            return [(st, vec(a.n, lambda i: eng.dom.neg(at(a, i))))]
        if not is_vec(a) and not is_vec(xs[1]):
            raise Unsupported(fn["qn"])
        a = tofl(eng, a)
        return [(st, lift2(eng, st, op, a, xs[1]))]
    if n in ("operator=", "operator+=", "operator-=", "operator*=", "operator/="):
        b = xs[1]
        if n == "operator=":
            eng.write(st, args[0], b if is_vec(b) else vec(a.n, lambda i: b))
        else:
            eng.write(st, args[0], lift2(eng, st, n[-2], a, b))
        return [(st, args[0])]
    if n in ("setZero", "fill", "setConstant", "setOnes"):
        v = eng.dom.const("0") if n == "setZero" else eng.dom.const("1") if n == "setOnes" else xs[1]
        if n == "setZero" and len(xs) > 1:
            eng.write(st, args[0], vec(eng.rv(st, args[1]), lambda i: v))
        else:
            eng.write(st, args[0], vec(a.n, lambda i: v))
        return [(st, args[0])]
    if n == "resize":
        eng.write(st, args[0], Seq(eng.rv(st, args[1]), lift(at(a, z3.IntVal(0)), "unset"), "vec"))
        return [(st, VOID)]
    if n == "allFinite":
        q = fresh("q", I)
        return [(st, z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < a.n), eng.dom.isfinite(at(a, q)))))]
    if n in CMP and is_vec(a):
        b = xs[1]
        bi = (lambda i: at(b, i)) if is_vec(b) else (lambda i: b)
        return [(st, vec(a.n, lambda i: eng.compare(st, CMP[n], at(a, i), bi(i))))]
    if n in ("all", "any"):
        q = fresh("q", I)
        r = z3.And(q >= 0, q < a.n)
        el = eng.as_bool(at(a, q))
        return [(st, z3.ForAll([q], z3.Implies(r, el)) if n == "all" else z3.Exists([q], z3.And(r, el)))]
    if n == "count":
        t, w, u, q = fresh("count", I), fresh("w", I), fresh("u", I), fresh("q", I)
        el = lambda i: eng.as_bool(at(a, i))
        return [(st.assume(t >= 0, t <= a.n,
                           z3.Implies(t == 0, z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < a.n), z3.Not(el(q))))),
                           z3.Implies(t > 0, z3.And(w >= 0, w < a.n, el(w))),
                           z3.Implies(t == 1, z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < a.n, q != w), z3.Not(el(q))))),
                           z3.Implies(t > 1, z3.And(u > w, u < a.n, el(u)))), t)]
    if n in ("squaredNorm", "norm", "sum", "maxCoeff", "minCoeff", "lpNorm", "prod"):
        if n == "lpNorm":
            p = [t for t in fn.get("targs", []) if "i" in t][0]["i"]
            kind = {"1": "l1", "2": "norm", "-1": "linf"}[str(p)]
        else:
            kind = {"squaredNorm": "sqnorm", "norm": "norm", "sum": "sum", "maxCoeff": "max", "minCoeff": "min", "prod": "prod"}[n]
        s, t = reduce(eng, st, kind, a)
        return [(s, t)]
    if n == "dot":
        s, t = reduce(eng, st, "sum", lift2(eng, st, "*", a, xs[1]))
        return [(s, t)]
    if n == "select":
        c, t, f = xs
        ti = (lambda i: at(t, i)) if is_vec(t) else (lambda i: t)
        fi = (lambda i: at(f, i)) if is_vec(f) else (lambda i: f)
        return [(st, vec(c.n, lambda i: ite(eng.as_bool(at(c, i)), ti(i), fi(i))))]
    if n in ("segment", "head", "tail"):
        if n == "segment":
            o, m = eng.rv(st, args[1]), eng.rv(st, args[2])
        elif n == "head":
            o, m = z3.IntVal(0), eng.rv(st, args[1])
        else:
            m = eng.rv(st, args[1])
            o = a.n - m
        if eng.check_bounds:
            eng.oblige(st, z3.And(m >= 0, o >= 0, o + m <= a.n), "segment in range", kind="bounds")
        if isinstance(args[0], LV):
            base = args[0]

            def rd(s):
                b = eng.rv(s, base)
                return vec(m, lambda i: at(b, o + i))

            def wr(s, v):
                b = eng.rv(s, base)
                eng.write(s, base, vec(b.n, lambda i: ite(z3.And(i >= o, i < o + m), at(v, i - o), at(b, i))))
            return [(st, View(rd, wr))]
        return [(st, vec(m, lambda i: at(a, o + i)))]
    if n == "unaryExpr":
        f = eng.rv(st, args[1])
        i = fresh("ue", I)
        res = eng.call_clo(st, f, [at(a, i)])
        if len(res) != 1:
            raise Unsupported("unaryExpr forks")
        s2, v = res[0]
        v = eng.rv(s2, v)
        return [(st, Seq(a.n, tmap(lambda x: z3.Lambda([_j], z3.substitute(x, (i, _j))), v), "vec"))]
    if n in ("log", "exp", "sqrt", "sin", "cos", "tan"):
        if eng.dom.name == "ext":
            return [(st, vec(a.n, lambda i: MD.ext_math(eng, n, [at(a, i)])))]
        return [(st, vec(a.n, lambda i: MD.uf("m_" + n, R, R)(at(a, i))))]
    if n in ("value",):
        return [(st, a)]
    raise Unsupported(fn["qn"][:120])


def fresh_vec(eng, ty, name):
    s = ty["s"]
    if re.match(r"Eigen::(Matrix|Array)<", s) and len(ty.get("targs", [])) >= 3 and str(ty["targs"][2].get("i")) == "1":
        t = eng.prog.ty(ty["targs"][0]["t"])
        if t["k"] == "float":
            return Seq(fresh(name + ".n", I), lift(eng.dom.leaf(name), name), "vec")
        if t["k"] == "bool":
            return Seq(fresh(name + ".n", I), lift(fresh(name, B), name), "vec")
    return None


def install(eng):
    eng.models.append((re.compile(r"^Eigen::"), h_eigen))
    eng.__dict__.setdefault("fresh_hooks", []).append(fresh_vec)
    eng.__dict__.setdefault("default_hooks", []).append(
        lambda E, st, ty: Seq(z3.IntVal(0), lift(E.dom.leaf("e")), "vec") if fresh_vec(E, ty, "x") is not None else None)
