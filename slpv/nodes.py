"""Expression nodes: one heap of nodes, with ghost denotations, and contracts for their allocation.

A node is an integer (0 is the null pointer).  Its immutable attributes are total functions of the
node (`typ`, and the ghost `den`, its value under one arbitrary later assignment of the decision
variables), fixed by assumption when it is allocated; its mutable fields live in the heap.
"""
import math, re
import z3
from .eng import *
from . import models as MD

EXPR = "slp::detail::Expression<double>"
H = "nodes"
AI, AR = z3.ArraySort(I, I), z3.ArraySort(I, R)
TYP = z3.Function("typ", I, I)
DEN = z3.Function("den", I, R)
FN1 = ["acos", "asin", "atan", "cbrt", "cos", "cosh", "erf", "exp", "log", "log10", "sin", "sinh", "sqrt", "tan", "tanh"]
FN2 = ["atan2", "hypot", "pow"]
F = {n: z3.Function("fn_" + n, R, R) for n in FN1}
F.update({n: z3.Function("fn_" + n, R, R, R) for n in FN2})
Q = lambda x: z3.RealVal(str(frac(x)))
PI2 = z3.RealVal(str(frac(math.pi) / 2))
INTEGRAL = z3.Function("integral", R, B)


def zabs(x):
    return z3.If(x < 0, -x, x)


def math_axioms():
    """Values at the points the code simplifies at (acos(0) is pi/2 rounded to a double)."""
    z, o = z3.RealVal(0), z3.RealVal(1)
    ax = [F[n](z) == 0 for n in ("asin", "atan", "cbrt", "erf", "sin", "sinh", "sqrt", "tan", "tanh")]
    ax += [F[n](z) == 1 for n in ("cos", "cosh", "exp")]
    ax += [F["acos"](z) == PI2, F["sqrt"](o) == 1, F["cbrt"](o) == 1, F["cbrt"](-o) == -1, F["log"](o) == 0, F["log10"](o) == 0, F["acos"](o) == 0, INTEGRAL(z), INTEGRAL(o), INTEGRAL(o + 1)]
    return ax


def facts(*ts):
    """Ground facts about the two-argument functions applied in the terms."""
    out, todo, seen = [], [t for t in ts if is_leaf(t)], set()
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        todo += t.children()
        n = t.decl().name() if z3.is_app(t) else ""
        if n == "fn_pow":
            x, y = t.children()
            out += [z3.Implies(z3.And(x == 0, y > 0), t == 0), z3.Implies(x == 1, t == 1), z3.Implies(z3.And(y == 0, x != 0), t == 1), z3.Implies(y == 1, t == x), z3.Implies(y == 2, t == x * x)]
        elif n == "fn_hypot":
            x, y = t.children()
            out += [z3.Implies(x == 0, t == zabs(y)), z3.Implies(y == 0, t == zabs(x))]
    return out


def domain(n, *a):
    """Where the mathematical function is defined."""
    if n == "/":
        return a[1] != 0
    if n in ("acos", "asin"):
        return z3.And(a[0] >= -1, a[0] <= 1)
    if n in ("log", "log10"):
        return a[0] > 0
    if n == "sqrt":
        return a[0] >= 0
    if n == "pow":
        return z3.Or(a[0] > 0, z3.And(a[0] == 0, a[1] > 0), z3.And(a[0] != 0, INTEGRAL(a[1])))
    if n == "tan":
        return F["cos"](a[0]) != 0
    if n == "atan2":
        return z3.Or(a[0] != 0, a[1] != 0)
    return z3.BoolVal(True)


SPEC = {
    "+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: a / b,
    "neg": lambda a: -a, "pos": lambda a: a, "abs": zabs,
    "sign": lambda a: z3.If(a < 0, z3.RealVal(-1), z3.If(a == 0, z3.RealVal(0), z3.RealVal(1))),
    "max": lambda a, b: z3.If(a >= b, a, b), "min": lambda a, b: z3.If(a <= b, a, b),
    "is_nonnegative": lambda a: z3.If(a >= 0, z3.RealVal(1), z3.RealVal(0)),
    "is_positive": lambda a: z3.If(a > 0, z3.RealVal(1), z3.RealVal(0)),
}
SPEC.update(F)


def op_key(fn, npar):
    n = fn["n"]
    m = re.match(r"operator(\+|-|\*|/)$", n)
    if m:
        return m.group(1) if npar == 2 else {"-": "neg", "+": "pos"}.get(m.group(1))
    return n if n in SPEC and n not in ("neg", "pos") else None


def h_fn(E, st, fn, obj, vals, e):
    xs = [E.rv(st, v) for v in vals]
    xs = [z3.ToReal(x) if is_leaf(x) and x.sort() == I else x for x in xs]
    if len(xs) != F[fn["n"]].arity():
        raise Unsupported(fn["qn"])
    r = F[fn["n"]](*xs)
    return [(st.assume(*facts(r)), r)]


class Nodes:
    def __init__(self, ck, P, builders=True, dom=None, **kw):
        self.ck, self.P = ck, P
        self.T = {k: int(v) for k, v in next(vals for n, vals in P.enums.items() if n.endswith("ExpressionType")).items()}
        E = self.E = ck.eng(P, dom, **kw)
        E.heap_classes = {EXPR: H}
        E.axioms += math_axioms()
        E.models.insert(0, (re.compile(r"^(std::)?(%s)$" % "|".join(FN1 + FN2)), h_fn))
        E.contracts.append((lambda fn: fn["qn"] == "slp::detail::make_expression_ptr", self.h_make))
        E.contracts.append((lambda fn: fn["n"] in ("inc_ref_count", "dec_ref_count"), lambda E_, s, fn, o, v, e: [(s, VOID)]))
        E.contracts.append((self.virt, self.h_virtual))
        E.contracts.append((lambda fn: fn["n"] == "is_constant" and "Expression<double>" in fn["qn"], self.h_is_constant))
        if builders:
            E.contracts.append((self.is_builder, self.h_builder))
        self.skip = None
        self.site = None   # hook(E, st, T, node, l, r) run at every allocation

    # ---- handles
    def ref(self, s, v):
        """Node held by a handle value / glvalue."""
        v = self.E.rv(s, v)
        if isinstance(v, Obj) and "m_ptr" in v.f:
            v = v.f["m_ptr"]
        if isinstance(v, Ptr) and v.lv is None:
            return z3.IntVal(0)
        if is_leaf(v):
            return v
        raise Unsupported("handle %r" % (v,))

    def handle(self, p):
        return Obj("slp::IntrusiveSharedPtr<%s>" % EXPR, {"m_ptr": p})

    def heap(self):
        E = self.E
        hp = lambda n: self.handle(fresh(n, AI))
        return Seq(fresh("nnodes", I), Obj(EXPR, {"val": fresh("val", AR), "adjoint": fresh("adjoint", AR), "adjoint_expr": hp("adjx"),
                                                  "args": Obj("arr", {"0": hp("arg0"), "1": hp("arg1")}), "scratch": fresh("scratch", AI), "ref_count": fresh("rc", AI)}), "nodes")

    def init(self, operands=()):
        st = State()
        st.mem[H] = self.heap()
        st.ghost["next"] = fresh("next", I)
        st.pc = (st.ghost["next"] >= 1,)
        for p in operands:
            st.pc += self.wf(st, p)
        return st

    def val(self, st, p):
        return z3.Select(st.mem[H].d.f["val"], p)

    def wf(self, st, p, null=False):
        """A node handed out earlier: allocated, its label in range, constants denote their value."""
        T = self.T
        k = (p >= (0 if null else 1), p < st.ghost["next"], z3.Or(*[TYP(p) == T[x] for x in ("CONSTANT", "LINEAR", "QUADRATIC", "NONLINEAR")]) if not null else z3.BoolVal(True),
             z3.Implies(z3.And(p != 0, TYP(p) == T["CONSTANT"]), DEN(p) == self.val(st, p)))
        return k

    # ---- virtual dispatch
    def virt(self, fn):
        return fn["n"] in ("type", "value", "grad_l", "grad_r", "grad_expr_l", "grad_expr_r", "name") and fn["qn"].startswith("slp::detail::Expression<")

    def h_virtual(self, E, s, fn, obj, vals, e):
        if isinstance(obj, LV) and obj.root == H and fn["n"] == "type":
            return [(s, TYP(obj.path[0][1]))]
        if fn["n"] == "name":
            return [(s, Pure("name"))]
        raise Unsupported("virtual call %s" % fn["n"])

    def h_is_constant(self, E, s, fn, obj, vals, e):
        if isinstance(obj, LV) and obj.root == H:
            p = obj.path[0][1]
            c = E.rv(s, vals[0])
            return [(s, z3.And(TYP(p) == self.T["CONSTANT"], self.val(s, p) == c))]
        raise Unsupported("is_constant")

    def method(self, T, name):
        """Most derived definition of a virtual method for class T."""
        r = self.P.rec_of(T)
        own = [f for f in self.P.funcs.values() if f["fn"]["n"] == name and f["fn"].get("cls") is not None and self.P.ty(f["fn"]["cls"]).get("id") == r["id"] and f.get("body")]
        if own:
            return own[0]
        for b in r["bases"]:
            m = self.method(b, name)
            if m is not None:
                return m
        return None

    def call(self, st, T, name, this, args):
        """[(st, value)] of running the class's own method on a node object."""
        m = self.method(T, name)
        if m is None:
            raise Unsupported("%s::%s" % (self.P.tstr(T), name))
        E = self.E
        s = st.copy()
        lv = this if isinstance(this, (LV, ValLV)) else E.alloc(s, this, "node")
        return E.run_fn(s, m, lv, args)

    # ---- allocation
    def h_make(self, E, s, fn, obj, vals, e):
        t = next((a["t"] for a in fn.get("targs", []) if "t" in a), None)
        if t is None or self.P.rec_of(t) is None:
            raise Unsupported("make_expression_ptr of an unknown class")
        cls = self.P.ty(t)["id"]
        cs = [f for f in self.P.funcs.values() if f["kind"] == "ctor" and self.P.ty(f["fn"]["cls"]).get("id") == cls and len(f["params"]) == len(vals) and not f["fn"].get("copy") and not f["fn"].get("move")]
        if not cs and not vals:
            base = [f for f in self.P.funcs.values() if f["kind"] == "ctor" and self.P.tstr(f["fn"]["cls"]) == EXPR and not f["params"]]
            cs = base
        if len(cs) != 1:
            raise Unsupported("constructor of %s" % self.P.tstr(t))
        outs = []
        for s1, o in E.construct(s, cs[0], vals):
            outs += self.alloc_node(s1, t, o)
        return outs

    def alloc_node(self, s, t, o):
        E = self.E
        nm = self.P.tstr(t)
        a = o.f["args"]
        l, r = [self.ref(s, vselect(a.d, z3.IntVal(j)) if isinstance(a, Seq) else a.f[str(j)]) for j in (0, 1)]
        s = s.copy()
        p = s.ghost["next"]
        s.ghost["next"] = p + 1
        node = fresh("node", I)
        zero = z3.RealVal(0)
        base = len(s.pc)
        ty = self.call(s, t, "type", o, [])
        if len(ty) != 1:
            raise Unsupported("type() branches")
        val = o.f["val"]
        if "DecisionVariableExpression" in nm:
            den, sts = fresh("later", R), [(s, None)]
        else:
            E.oblige(s, z3.Or(l != 0, z3.BoolVal("ConstantExpression" in nm)), "an operator node has its first operand: %s" % nm)
            # the denotation mirrors what update_values() computes
            sts = self.call(s, t, "value", o, [z3.If(l != 0, DEN(l), zero), z3.If(r != 0, DEN(r), zero)])
            d0 = None
            for s1, v in sts:
                c = z3.And(*s1.pc[base:]) if len(s1.pc) > base else z3.BoolVal(True)
                d0 = v if d0 is None else z3.If(c, v, d0)
            den = z3.If(l != 0, d0, val) if not z3.is_int_value(z3.simplify(l)) or z3.simplify(l).as_long() else val
        if self.site:
            self.site(E, s, t, node, l, r, ty[0][1], o)
        s = s.assume(node == p, TYP(node) == ty[0][1], DEN(node) == den)
        d = dict(s.mem[H].d.f)
        st_ = lambda k, v: z3.Store(d[k], node, v)
        d["val"], d["adjoint"], d["scratch"] = st_("val", val), st_("adjoint", o.f["adjoint"]), st_("scratch", o.f["scratch"])
        d["adjoint_expr"] = self.handle(z3.Store(d["adjoint_expr"].f["m_ptr"], node, self.ref(s, o.f["adjoint_expr"])))
        d["args"] = Obj("arr", {"0": self.handle(z3.Store(d["args"].f["0"].f["m_ptr"], node, l)), "1": self.handle(z3.Store(d["args"].f["1"].f["m_ptr"], node, r))})
        s.mem[H] = Seq(s.mem[H].n, Obj(EXPR, d), "nodes")
        return [(s, self.handle(node))]

    # ---- builder contracts
    def is_builder(self, fn):
        if fn is self.skip or (self.skip and fn.get("id") == self.skip.get("id")):
            return False
        return fn["qn"].startswith("slp::detail::") and fn["qn"].rsplit("::", 1)[0] in ("slp::detail", "slp::detail::Expression<double>") and "cls" not in fn and (op_key(fn, 1) or op_key(fn, 2)) is not None

    def h_builder(self, E, s, fn, obj, vals, e):
        """Contract proved for every builder: a well-formed node denoting the function of the operands."""
        k = op_key(fn, len(vals))
        if k is None:
            raise Unsupported(fn["qn"])
        ps = [self.ref(s, v) for v in vals]
        for p in ps:
            E.oblige(s, p != 0, "operand of %s is not null" % k) if k != "+" else None
        ds = [z3.If(p == 0, z3.RealVal(0), DEN(p)) if k == "+" else DEN(p) for p in ps]
        r, nx = fresh("res", I), fresh("next", I)
        s = s.copy()
        old = s.ghost["next"]
        s.ghost["next"] = nx
        s = s.assume(nx >= old)
        if k == "+":
            any_ = z3.Or(*[p != 0 for p in ps])
            all_ = z3.And(*[p != 0 for p in ps])
            s = s.assume(z3.Implies(r != 0, z3.And(*self.wf(s, r))), z3.Implies(z3.Not(any_), r == 0), z3.Implies(all_, r != 0), z3.If(r == 0, z3.RealVal(0), DEN(r)) == SPEC[k](*ds))
        else:
            s = s.assume(*self.wf(s, r))
            s = s.assume(z3.Implies(domain(k, *ds), DEN(r) == SPEC[k](*ds)), *facts(SPEC[k](*ds)))
        return [(s, self.handle(r))]
