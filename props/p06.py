"""P06: every elementary operation's partial derivatives are correct."""
import itertools, math, random, re
import z3
from slpv.eng import *
from slpv import nodes as ND
from slpv.nodes import Nodes, H, TYP, DEN, F
from props.p04 import SRC, U1, U2

HARNESS = "p06.cpp"
HSRC = ("autodiff/gradient.cpp", "autodiff/jacobian.cpp", "autodiff/variable_matrix.cpp")
MIN_OBLIGATIONS = 90


def prove(ck):
    P = ck.dump(SRC)
    cs = classes(P)
    names = {re.sub(r"<.*", "", P.tstr(t)).split("::")[-1] for t in cs}
    want = [n.title().replace("_", "") + "Expression" for n in U1 + U2] + ["BinaryPlusExpression", "BinaryMinusExpression", "MultExpression", "DivExpression", "UnaryMinusExpression"]
    for w in want:
        if w not in names:
            ck.incomplete.append("node class %s not found" % w)
    ck.par([(P.tstr(t), cls, P, t) for t in cs])
    ck.assume += ["machine floating point treated as real arithmetic; the literals ln(10) and 2/sqrt(pi) are read as the constants they round",
                  "derivatives of the library functions as sympy knows them; points where the value has a kink or a singularity are not differentiable and excluded",
                  "builder functions obey the contracts proved for P04"]


def classes(P):
    out = []
    for r in P.records.values():
        if any(P.tstr(b) == ND.EXPR for b in r["bases"]):
            out.append(r["t"])
    return sorted(out, key=P.tstr)


class Sp:
    """z3 real terms -> sympy, by region (truth assignment of the conditions)."""

    def __init__(self, ren, region):
        import sympy as sp
        self.sp, self.ren, self.region = sp, ren, region
        self.consts = [(sp.log(10), math.log(10)), (2 / sp.sqrt(sp.pi), 2 / math.sqrt(math.pi)), (sp.sqrt(sp.pi), math.sqrt(math.pi)), (1 / sp.sqrt(sp.pi), 1 / math.sqrt(math.pi)), (sp.pi, math.pi), (sp.log(2), math.log(2))]

    def num(self, t):
        sp = self.sp
        q = t.as_fraction()
        for s, v in self.consts:
            for sgn in (1, -1):
                if abs(float(q) - sgn * v) <= 4e-16 * abs(v):
                    return sgn * s
        return sp.Rational(q.numerator, q.denominator)

    def cond(self, c):
        for a, v in self.region:
            if a.eq(c):
                return v
        if z3.is_true(c) or z3.is_false(c):
            return z3.is_true(c)
        k = c.decl().kind()
        if k == z3.Z3_OP_NOT:
            return not self.cond(c.arg(0))
        if k == z3.Z3_OP_AND:
            return all(self.cond(x) for x in c.children())
        if k == z3.Z3_OP_OR:
            return any(self.cond(x) for x in c.children())
        raise Unsupported("condition %s" % c)

    def go(self, t):
        sp = self.sp
        for z, s in self.ren:
            if t.eq(z):
                return s
        if z3.is_rational_value(t) or z3.is_int_value(t):
            return self.num(t) if z3.is_rational_value(t) else sp.Integer(t.as_long())
        k = t.decl().kind()
        if k == z3.Z3_OP_ITE:
            return self.go(t.arg(1) if self.cond(t.arg(0)) else t.arg(2))
        ch = [self.go(c) for c in t.children()]
        if k == z3.Z3_OP_ADD:
            return sp.Add(*ch)
        if k == z3.Z3_OP_SUB:
            return ch[0] - sp.Add(*ch[1:])
        if k == z3.Z3_OP_MUL:
            return sp.Mul(*ch)
        if k == z3.Z3_OP_DIV:
            return ch[0] / ch[1]
        if k == z3.Z3_OP_UMINUS:
            return -ch[0]
        if k == z3.Z3_OP_TO_REAL:
            return ch[0]
        n = t.decl().name()
        if n.startswith("fn_"):
            n = n[3:]
            if n == "hypot":
                return sp.sqrt(ch[0]**2 + ch[1]**2)
            if n == "pow":
                return ch[0]**ch[1]
            if n == "log10":
                return sp.log(ch[0]) / sp.log(10)
            if n == "cbrt":
                return sp.sign(ch[0]) * sp.Abs(ch[0])**sp.Rational(1, 3)
            return getattr(sp, n)(*ch)
        raise Unsupported("term %s" % t.decl())


def atoms(*ts):
    """Comparison atoms occurring in conditions of the terms."""
    out, todo, seen = [], list(ts), set()
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t) and t.sort() == B and t.decl().kind() in (z3.Z3_OP_LT, z3.Z3_OP_LE, z3.Z3_OP_GT, z3.Z3_OP_GE, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and t.arg(0).sort() == R:
            if not any(a.eq(t) for a in out):
                out.append(t)
        todo += t.children()
    return out


def apps(t):
    out, todo, seen = [], [t], set()
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t) and (t.decl().name().startswith("fn_") or t.decl().kind() == z3.Z3_OP_DIV):
            out.append(t)
        todo += t.children()
    return out


def smooth(V):
    """Where the value term is differentiable: inside every function's open domain, away from every kink."""
    c = []
    for a in atoms(V):
        c.append(a.arg(0) != a.arg(1))
    for t in apps(V):
        n, ch = t.decl().name(), t.children()
        if t.decl().kind() == z3.Z3_OP_DIV:
            c.append(ch[1] != 0)
        elif n in ("fn_acos", "fn_asin"):
            c.append(z3.And(ch[0] > -1, ch[0] < 1))
        elif n in ("fn_log", "fn_log10", "fn_sqrt"):
            c.append(ch[0] > 0)
        elif n == "fn_cbrt":
            c.append(ch[0] != 0)
        elif n == "fn_tan":
            c.append(F["cos"](ch[0]) != 0)
        elif n in ("fn_hypot", "fn_atan2"):
            c.append(z3.Or(ch[0] != 0, ch[1] != 0))
        elif n == "fn_pow":
            c.append(z3.Or(ch[0] > 0, z3.And(ch[0] != 0, ND.INTEGRAL(ch[1]))))
    return c


def sign_facts(*ts):
    out = []
    for T in ts:
        for t in apps(T):
            n, ch = t.decl().name(), t.children()
            if n == "fn_sqrt":
                out += [z3.Implies(ch[0] > 0, t > 0), z3.Implies(ch[0] >= 0, t * t == ch[0])]
            elif n == "fn_cosh":
                out.append(t >= 1)
            elif n == "fn_exp":
                out.append(t > 0)
            elif n == "fn_cbrt":
                out.append(z3.Implies(ch[0] != 0, t != 0))
            elif n == "fn_hypot":
                out.append(z3.And(t >= 0, (t == 0) == z3.And(ch[0] == 0, ch[1] == 0), t * t == ch[0] * ch[0] + ch[1] * ch[1]))
            elif n == "fn_pow":
                out += [z3.Implies(ch[0] > 0, t > 0)]
    return out


def one_term(rs, base):
    d = None
    for s, v in rs:
        c = z3.And(*s.pc[base:]) if len(s.pc) > base else z3.BoolVal(True)
        d = v if d is None else z3.If(c, v, d)
    return d


def cls(ck, P, t):
    N = Nodes(ck, P)
    E = N.E
    E.merge = False
    nm = P.tstr(t).replace("slp::detail::", "")
    l, r, ax = fresh("lhs", I), fresh("rhs", I), fresh("adjx", I)
    adj = fresh("adjoint", R)
    st = N.init([l, r, ax])
    node = Obj(P.tstr(t), {"val": fresh("val", R), "adjoint": adj, "adjoint_expr": N.handle(ax), "args": Obj("arr", {"0": N.handle(l), "1": N.handle(r)}), "scratch": fresh("sc", I), "ref_count": fresh("rc", I)})
    L, Rr = fresh("L", R), fresh("R", R)
    base = len(st.pc)
    V = one_term(N.call(st, t, "value", node, [L, Rr]), base)
    loc = (N.method(t, "value") or {}).get("loc", "")
    uses = {x.get_id() for x in itertools.chain(*[subterms(V)])}
    for side, sym, opp in (("l", L, l), ("r", Rr, r)):
        what = "%s::grad_%s" % (nm, side)
        if side == "r" and Rr.get_id() not in uses:
            continue       # unary: the second argument does not exist
        if L.get_id() not in uses and Rr.get_id() not in uses:
            continue       # leaf: no arguments (P04 checks that operators' values use theirs)
        m = N.method(t, "grad_" + side)
        gl = m["loc"]
        G = one_term(N.call(st, t, "grad_" + side, node, [L, Rr]), base)
        derivative(ck, what, V, G, sym, L, Rr, adj, gl)
        # the symbolic derivative denotes the same number
        hl, hr = E.alloc(st, N.handle(l), "lhs"), E.alloc(st, N.handle(r), "rhs")
        me = N.method(t, "grad_expr_" + side)
        sub = lambda x: z3.substitute(x, (L, DEN(l)), (Rr, DEN(r)), (adj, DEN(ax)))
        want = sub(G)
        dom = [sub(c) for c in smooth(V)]
        if side == "r":    # a power is differentiable in its exponent only over a positive base
            dom += [DEN(l) > 0 for a in apps(V) if a.decl().name() == "fn_pow"]
        p = DEN(r)
        for s, v in N.call(st, t, "grad_expr_" + side, node, [hl, hr]):
            q = N.ref(s, v)
            extra = [z3.Implies(ND.INTEGRAL(p), ND.INTEGRAL(p - 1))]
            allt = [want] + [h for h in s.pc if not has_quant(h)]
            s2 = s.assume(*dom, *extra, *ND.facts(*allt), *sign_facts(*allt))
            E.oblige(s2, DEN(q) == want, "%s: symbolic derivative denotes the numeric one" % what.replace("grad_", "grad_expr_"), me["loc"], "post")
            E.oblige(s, q != 0, "%s: derivative node exists" % what.replace("grad_", "grad_expr_"), me["loc"], "post")
            if not ck.reach:
                ck.nonvacuous(what, list(s2.pc) + E.axioms)
    ck.take(E, nm)


def subterms(t):
    todo, seen = [t], {}
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen[x.get_id()] = x
        todo += x.children()
    return seen.values()


def derivative(ck, what, V, G, sym, L, Rr, adj, loc):
    import sympy as sp
    ats = atoms(V, G)
    pows = any(a.decl().name() == "fn_pow" for a in apps(V))
    kinks = atoms(V)
    n = 0
    for vals in itertools.product((True, False), repeat=len(ats)):
        region = list(zip(ats, vals))
        s = z3.Solver()
        s.add(*[a if v else z3.Not(a) for a, v in region])
        s.add(*[a.arg(0) != a.arg(1) for a in kinks])
        s.add(*smooth(V))
        if s.check() != z3.sat:
            continue
        mdl = s.model()
        for case in (["positive base", "integer power"] if pows else [""]):
            n += 1
            x = sp.Symbol("x", positive=True) if case == "positive base" else sp.Symbol("x", real=True, nonzero=True)
            y = sp.Symbol("y", integer=True) if case == "integer power" else sp.Symbol("y", real=True)
            a = sp.Symbol("a", real=True)
            if case == "integer power" and sym is Rr:
                continue       # not differentiable in the power for negative base
            ren = [(L, x), (Rr, y), (adj, a)]
            c = Sp(ren, region)
            v, g = c.go(V), c.go(G)
            d = sp.diff(v, x if sym is L else y) * a
            name = "%s equals the derivative of value()%s%s" % (what, (" for " + case) if case else "", (" where " + ", ".join("%s%s" % ("" if t else "not ", str(z) ) for z, t in region)) if region else "")
            ok, det = is_zero(sp, g - d, x, y, a, region, L, Rr, V, case)
            if ok is None:
                ck.incomplete.append(name + ": " + det)
            else:
                ck.decided(name, ok, "sympy", det, loc)
    if n == 0:
        ck.incomplete.append(what + ": no smooth region")


def is_zero(sp, e, x, y, a, region, L, Rr, V, case):
    """(True, how) / (False, witness) / (None, why)."""
    e = sp.together(e)
    for f in (lambda e: e, sp.simplify, lambda e: sp.simplify(e.rewrite(sp.exp)), lambda e: sp.simplify(sp.expand(e.rewrite(sp.cos))), lambda e: sp.trigsimp(sp.expand_trig(e)), lambda e: sp.simplify(sp.powsimp(sp.expand(e)))):
        try:
            if f(e) == 0:
                return True, "normal form 0"
        except Exception:
            pass
    # not simplified: look for a witness
    rnd = random.Random(7)
    for _ in range(400):
        q = {x: sp.Rational(rnd.randint(-300, 300), 97), y: sp.Integer(rnd.randint(-4, 4)) if case == "integer power" else sp.Rational(rnd.randint(-300, 300), 89), a: sp.Rational(rnd.randint(1, 50), 7)}
        if case == "positive base":
            q[x] = abs(q[x]) + sp.Rational(1, 50)
        zx = [(L, z3.RealVal(str(q[x]))), (Rr, z3.RealVal(str(q[y])))]
        if not all(z3.is_true(z3.simplify(z3.substitute(c, *zx))) == t for c, t in region):
            continue
        bad = False
        for c in smooth(V):
            w = z3.simplify(z3.substitute(c, *zx))
            if z3.is_false(w):
                bad = True
        if bad:
            continue
        try:
            w = complex(e.subs(q).evalf(30))
        except Exception:
            continue
        if abs(w) > 1e-12:
            return False, "at x=%s y=%s adjoint=%s the difference is %s; expression %s" % (q[x], q[y], q[a], w, e)
    return None, "could not decide %s == 0" % e
