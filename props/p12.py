"""P12: the closed-form solve of systems of order one to four satisfies A X = B identically."""
import re
import z3
from slpv.eng import *
from slpv.mats import *

HARNESS = "p12.cpp"
HSRC = ("autodiff/variable_matrix.cpp",)
MIN_OBLIGATIONS = 30
SRC = r"""
#include <sleipnir/autodiff/variable_matrix.hpp>
template slp::VariableMatrix<double> slp::solve(const slp::VariableMatrix<double>&, const slp::VariableMatrix<double>&);
"""


def prove(ck):
    P = ck.dump(SRC)
    fs = [f for f in P.funcs.values() if f["fn"]["qn"] == "slp::solve" and f.get("body")]
    if len(fs) != 1:
        ck.incomplete.append("%d solve functions" % len(fs))
    ck.par([("order %d" % n, order, P, f, n) for n in (4, 3, 2, 1) for f in fs])
    ck.assume += ["machine floating point treated as real arithmetic (expression simplification by P04's contracts)",
                  "matrix operators enter by P11's contracts, element access by P10's, written out for the concrete inner dimension",
                  "orders of five and more use Eigen's Householder QR and are outside the statement"]


class W12(Mats):
    """Element maps written out as terms: the inner dimension is concrete, the number of right-hand sides is not."""

    def result(self, s, rows, cols, f, what="result"):
        p, q = fresh("p", I), fresh("q", I)
        return s, self.mat(rows, cols, z3.Lambda([p], z3.Lambda([q], f(p, q))))

    def ar(self, s, op, a, b):
        return a * b if op == "*" else a * INVF(b) if op == "/" else a + b if op == "+" else a - b

    def psum(self, s, f, g, rows, inner, cols):
        n = z3.simplify(inner)
        if not z3.is_int_value(n):
            raise Unsupported("product with a symbolic inner dimension")
        return s, lambda p, q, k: sum([f(p, z3.IntVal(i)) * g(z3.IntVal(i), q) for i in range(n.as_long())], z3.RealVal(0))

    def binop(self, s, op, v):
        if len(v) == 2 and self.is_m(s, v[0]) != self.is_m(s, v[1]):
            l, r = v
            lm = self.is_m(s, l)
            mv, x = (l, self.num(s, r)) if lm else (r, self.num(s, l))
            f = self.reader(s, mv)
            if op == "*" or (op == "/" and lm):
                s, m = self.result(s, *self.shape(s, mv), lambda p, q: f(p, q) * (x if op == "*" else INVF(x)))
                return [(s, m)]
        return super().binop(s, op, v)

    def h_mat(self, E, s, fn, o, v, e):
        if fn["n"] == "VariableMatrix" and len(v) == 1:
            x = E.rv(s, v[0])
            rows = items(x)
            if rows is not None and all(items(E.rv(s, y)) is not None for y in rows):
                el = [[self.num(s, z) for z in items(E.rv(s, y))] for y in rows]
                E.oblige(s, z3.BoolVal(len({len(y) for y in el}) <= 1), "rows of one length", kind="pre")

                def f(p, q):
                    t = z3.RealVal(0)
                    for i, y in enumerate(el):
                        for j, z in enumerate(y):
                            t = z3.If(z3.And(p == i, q == j), z, t)
                    return t
                s, m = self.result(s, z3.IntVal(len(el)), z3.IntVal(len(el[0]) if el else 0), f)
                return [(s, m)]
        return super().h_mat(E, s, fn, o, v, e)


def items(x):
    if isinstance(x, Obj) and x.cls == "arr":
        return [x.f[k] for k in sorted(x.f, key=int)]
    return None


def order(ck, P, f, n):
    W = W12(ck, P)
    E, st = W.E, W.st
    N = z3.IntVal(n)
    A = [[z3.Real("a_%d_%d" % (i, j)) for j in range(n)] for i in range(n)]
    B = [z3.Const("b_%d" % i, AR) for i in range(n)]

    def fa(p, q):
        t = z3.RealVal(0)
        for i in range(n):
            for j in range(n):
                t = z3.If(z3.And(p == i, q == j), A[i][j], t)
        return t

    def fb(p, q):
        t = z3.RealVal(0)
        for i in range(n):
            t = z3.If(p == i, sel(B[i], q), t)
        return t
    cols = z3.Int("columns")
    st.pc += (cols >= 0,)
    _, ma = W.result(st, N, N, fa)
    _, mb = W.result(st, N, cols, fb)
    a, b = E.alloc(st, ma, "A"), E.alloc(st, mb, "B")
    E.readonly = {a.root, b.root}
    q = z3.Int("column")
    outs = E.run_fn(st, f, None, [a, b])
    if not outs:
        raise Unsupported("no result")
    for s, v in outs:
        x = W.lv(s, v)
        r, c = W.shape(s, x)
        E.oblige(s, z3.And(r == n, c == cols), "X has one row per unknown and one column per right-hand side", f["loc"], "post")
        ck.nonvacuous("order %d" % n, list(s.pc))
        g = W.reader(s, x)
        X = [z3.simplify(g(z3.IntVal(j), q)) for j in range(n)]
        identity(ck, n, A, [sel(y, q) for y in B], X, f["loc"])
    ck.take(E, "solve order %d" % n)


def identity(ck, n, A, B, X, loc):
    import itertools
    from sympy import QQ, ring
    names = ["a%d%d" % (i, j) for i in range(n) for j in range(n)] + ["b%d" % i for i in range(n)]
    ring_, *gens = ring(names, QQ)
    one = ring_.one
    atom = {}
    for i in range(n):
        for j in range(n):
            atom[A[i][j].get_id()] = gens[i * n + j]
        atom[B[i].get_id()] = gens[n * n + i]
    memo, divs = {}, []

    def add(x, y):
        if x[1] == y[1]:
            return x[0] + y[0], x[1]
        return x[0] * y[1] + y[0] * x[1], x[1] * y[1]

    def go(t):
        k = t.get_id()
        if k not in memo:
            memo[k] = go_(t), t
        return memo[k][0]

    def go_(t):
        if t.get_id() in atom:
            return atom[t.get_id()], one
        if z3.is_rational_value(t) or z3.is_int_value(t):
            w = t.as_fraction() if z3.is_rational_value(t) else t.as_long()
            return one * QQ(int(getattr(w, "numerator", w)), int(getattr(w, "denominator", 1))), one
        d = t.decl()
        kd = d.kind()
        if d.eq(INVF):
            nn, dd = go(t.arg(0))
            divs.append(nn)
            return dd, nn
        c = [go(x) for x in t.children()]
        r = c[0]
        if kd == z3.Z3_OP_ADD:
            for y in c[1:]:
                r = add(r, y)
        elif kd == z3.Z3_OP_SUB:
            for y in c[1:]:
                r = add(r, (-y[0], y[1]))
        elif kd == z3.Z3_OP_MUL:
            for y in c[1:]:
                r = (r[0] * y[0], r[1] * y[1])
        elif kd == z3.Z3_OP_UMINUS:
            r = (-r[0], r[1])
        elif kd == z3.Z3_OP_TO_REAL:
            pass
        else:
            raise Unsupported("term %s" % str(t)[:80])
        return r
    det = ring_.zero
    for p in itertools.permutations(range(n)):
        m = one
        for i in range(n):
            m = m * gens[i * n + p[i]]
        det += m if sum(1 for i in range(n) for j in range(i) if p[j] > p[i]) % 2 == 0 else -m
    xs = [go(x) for x in X]
    for i in range(n):
        s = (-gens[n * n + i], one)
        for j in range(n):
            s = add((gens[i * n + j] * xs[j][0], xs[j][1]), s)
        ck.decided("order %d: row %d of A X equals row %d of B" % (n, i, i), s[0] == 0, "sympy", "" if s[0] == 0 else "residual numerator %s" % str(s[0])[:300], loc)
    bad = []
    for d in divs:
        m = d
        while m and not m.is_ground:
            qs, r = m.div([det])
            if r != 0:
                break
            m = qs[0]
        if not m or not m.is_ground:
            bad.append(d)
    if bad and all(b == 0 for b in bad):
        ck.decided("order %d: divides by zero" % n, False, "sympy", "", loc)
    elif bad:
        ck.incomplete.append("order %d: divisor %s may vanish for a nonsingular A" % (n, str(bad[0])[:200]))
    else:
        ck.decided("order %d: every divisor is a nonzero multiple of the determinant" % n, True, "sympy", "%d divisors" % len(divs), loc)
